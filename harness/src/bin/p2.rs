//! C01 Poseidon2 against its specification; C06 the shipped Poseidon2 instances.
use pmc::explore::*;
use pmc::gen::*;
use pmc::refm::*;
use pmc::ship::p2::{tables, INSTS};
use pmc::with_fld;
use std::sync::Arc;
use zkhash::poseidon2::{poseidon2::Poseidon2, poseidon2_params::Poseidon2Params};

fn make<A: Fld>(m: &P2<A::R>) -> Poseidon2<A::F> {
    let f = &m.f;
    let p = Poseidon2Params::<A::F>::new(m.t, m.d, m.rf, m.rp, &f.encv::<A::F>(&m.diag_m1), &f.encm::<A::F>(&m.mi), &f.encm::<A::F>(&m.rc));
    Poseidon2::new(&Arc::new(p))
}

fn agree<A: Fld>(c: &mut Ctx, m: &P2<A::R>, imp: &Poseidon2<A::F>, x: &[<A::R as Rf>::E]) -> Result<(), String> {
    let f = &m.f;
    let want = m.perm(x, &mut CtxObs(c, f));
    let xe: Vec<A::F> = f.encv(x);
    let desc = || format!("Poseidon2 over {} t={} d={} rf={} rp={} input {}", A::NAME, m.t, m.d, m.rf, m.rp, show(f, x));
    match c.call(|| imp.permutation(&xe)) {
        Ok(y) => {
            let got = f.decv(&y);
            c.trace(f.hash(&got));
            c.sample(|| format!("{} -> {}", desc(), show(f, &got)));
            if got != want {
                return Err(format!("{}: got {} want {}", desc(), show(f, &got), show(f, &want)));
            }
            Ok(())
        }
        Err(e) => Err(format!("{}: {}", desc(), e)),
    }
}

fn build<A: Fld>(c: &mut Ctx, m: &P2<A::R>) -> Result<Poseidon2<A::F>, String> {
    let i = c.call(|| make::<A>(m)).map_err(|e| format!("Poseidon2Params::new over {} t={} d={} rf={} rp={}: {}", A::NAME, m.t, m.d, m.rf, m.rp, e))?;
    if i.get_t() != m.t {
        return Err(format!("get_t() = {} for width {}", i.get_t(), m.t));
    }
    Ok(i)
}

fn diag<R: Rf>(f: &R, t: usize, pat: u64) -> Vec<R::E> {
    match t {
        2 => vec![f.of64(1), f.of64(2)],
        3 => vec![f.of64(1), f.of64(1), f.of64(2)],
        _ => (0..t).map(|i| cval(f, pat, 1000 + 13 * i as u64)).collect(),
    }
}

const WIDTHS: [usize; 8] = [2, 3, 4, 8, 12, 16, 20, 24];
const DEG: [usize; 4] = [3, 5, 7, 11];

/// every state of F_p^t for one parameter set
fn full<A: Fld>(c: &mut Ctx, m: &P2<A::R>) -> Result<(), String>
where
    A::R: Rf<E = u64>,
{
    let p = m.f.of64(0).max(m.f.neg(&1)) + 1;
    let imp = build::<A>(c, m)?;
    for k in 0..upow(p, m.t) {
        agree::<A>(c, m, &imp, &nth_state(p, m.t, k))?;
    }
    Ok(())
}
macro_rules! with_tiny { ($n:expr, $a:ident => $e:expr) => { match $n {
    "3" => { type $a = T3; $e } "5" => { type $a = T5; $e } "7" => { type $a = T7; $e } "11" => { type $a = T11; $e } "13" => { type $a = T13; $e }
    "17" => { type $a = T17; $e } "23" => { type $a = T23; $e } "31" => { type $a = T31; $e } "257" => { type $a = T257; $e } n => panic!("{n}") } }; }

fn c01(tier: Tier) -> Vec<Space> {
    let th = tier == Tier::Thorough;
    let mut v = vec![];

    // 1. complete state spaces
    let mut pts = vec![("17", 2), ("7", 3), ("5", 4), ("3", 4), ("7", 4), ("3", 8), ("17", 3)];
    if th {
        pts.extend([("257", 2), ("31", 3), ("13", 4), ("5", 8), ("3", 12)]);
    }
    let shapes: Vec<(usize, usize)> = if th { vec![(0, 0), (2, 0), (0, 1), (2, 1), (0, 3), (2, 2), (4, 3), (6, 1), (8, 5)] } else { vec![(0, 0), (2, 0), (0, 1), (2, 1), (0, 3), (4, 2)] };
    let mut items = vec![];
    for &(fl, t) in &pts {
        for &(rf, rp) in &shapes {
            for d in DEG {
                for pat in [0, 3, 5] {
                    for dp in if t > 3 { vec![3u64, 2] } else { vec![0] } {
                        let p: u64 = fl.parse().unwrap();
                        let big = (p as f64).powi(t as i32) > 8000.0;
                        if big && (pat == 0 || dp == 2 || (!th && d == 3)) {
                            continue;
                        }
                        items.push((fl, t, rf, rp, d, pat, dp));
                    }
                }
            }
        }
    }
    v.push(Space::list("full-state-space", "one item = one parameter set over a tiny prime field; every input state of F_p^t is run", items, |&(fl, t, rf, rp, d, pat, dp), c| {
        with_tiny!(fl, A => {
            let f = A::r();
            let m = P2::new(&f, t, d, rf, rp, rc_rows(&f, pat, t, rf, rp, true), diag(&f, t, dp));
            full::<A>(c, &m)
        })
    }));

    // 2. every choice of round constants (and, at width 4, of the diagonal)
    v.push(Space::new("all-constants-t2", upow(3, 5) * 4, "item = (all constants of rf=2, rp=1 over F_3 at width 2, degree); every state", |i, c| {
        let mut g = Dig(i);
        let d = *g.pick(&DEG);
        let f = T3::r();
        let w: Vec<u64> = (0..5).map(|_| g.take(3)).collect();
        let rc = vec![vec![w[0], w[1]], vec![w[2], 0], vec![w[3], w[4]]];
        full::<T3>(c, &P2::new(&f, 2, d, 2, 1, rc, diag(&f, 2, 0)))
    }));
    v.push(Space::new("all-constants-t3", upow(3, 8) * 4, "item = (all constants of rf=2, rp=2 over F_3 at width 3, degree); every state", |i, c| {
        let mut g = Dig(i);
        let d = *g.pick(&DEG);
        let f = T3::r();
        let w: Vec<u64> = (0..8).map(|_| g.take(3)).collect();
        let rc = vec![w[0..3].to_vec(), vec![w[3], 0, 0], vec![w[4], 0, 0], w[5..8].to_vec()];
        full::<T3>(c, &P2::new(&f, 3, d, 2, 2, rc, diag(&f, 3, 0)))
    }));
    v.push(Space::new("all-diagonals-t4", upow(5, 4) * 5, "item = (every diagonal of F_5^4, constant of the only partial round); every state", |i, c| {
        let mut g = Dig(i);
        let k = g.take(5);
        let f = T5::r();
        let dg = nth_state(5, 4, g.0);
        full::<T5>(c, &P2::new(&f, 4, 3, 0, 1, vec![vec![k, 0, 0, 0]], dg))
    }));
    v.push(Space::new("all-diagonals-t8", upow(3, 8), "item = every diagonal of F_3^8 at width 8, rp = 1; all states one word away from two backgrounds", |i, c| {
        let f = T3::r();
        let dg = nth_state(3, 8, i);
        let m = P2::new(&f, 8, 3, 0, 1, vec![vec![1, 0, 0, 0, 0, 0, 0, 0]], dg);
        let imp = build::<T3>(c, &m)?;
        deviations(&f, &backgrounds(&f, 8, 2), &[0, 1, 2], 1, |x| agree::<T3>(c, &m, &imp, x))
    }));

    // 3. every width with many round shapes
    let rfs: Vec<usize> = if th { (0..=40).step_by(2).chain([62, 64, 66, 126, 128, 130, 254, 256, 258, 512]).collect() } else { vec![0, 2, 4, 6, 8, 10, 12, 16, 20, 32, 64] };
    let rps: Vec<usize> = if th { (0..=70).chain([99, 100, 101, 126, 127, 128, 129, 130, 254, 255, 256, 257, 258, 511, 512, 513, 1023, 1024, 1025]).collect() } else { (0..=16).chain([20, 21, 22, 23, 31, 32, 33, 55, 56, 57, 58, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257]).collect() };
    let mut items = vec![];
    for t in WIDTHS {
        for &rf in &rfs {
            for &rp in &rps {
                if !th && rf > 16 && rp > 64 {
                    continue;
                }
                items.push((t, rf, rp));
            }
        }
    }
    v.push(Space::list("round-shapes", "item = (width, full rounds, partial rounds); all degrees; three states over BabyBear, one over F_17", items, |&(t, rf, rp), c| {
        for d in DEG {
            let f = BabyBear::r();
            let m = P2::new(&f, t, d, rf, rp, rc_rows(&f, 5, t, rf, rp, true), diag(&f, t, 6));
            let imp = build::<BabyBear>(c, &m)?;
            for x in backgrounds(&f, t, 5).iter().skip(if d == 7 { 0 } else { 4 }).step_by(2) {
                agree::<BabyBear>(c, &m, &imp, x)?;
            }
        }
        let f = T17::r();
        let m = P2::new(&f, t, 3, rf, rp, rc_rows(&f, 5, t, rf, rp, true), diag(&f, t, 6));
        let imp = build::<T17>(c, &m)?;
        agree::<T17>(c, &m, &imp, &backgrounds(&f, t, 5)[4])
    }));

    let mut items = vec![];
    for t in WIDTHS {
        for (rf, rp) in [(0usize, 511usize), (2, 512), (4, 513), (8, 1023), (2, 1024), (0, 1025), (8, 2049), (8, 4097), (254, 3), (256, 3), (258, 3), (510, 0), (512, 1), (514, 0), (1026, 2)] {
            items.push((t, rf, rp));
        }
    }
    for t in [2usize, 3, 4] {
        items.extend([(t, 2, 32_769), (t, 2, 65_535), (t, 2, 65_537), (t, 65_540, 1)]);
    }
    v.push(Space::list("many-rounds", "item = (width, full rounds, partial rounds), up to 65540 rounds (indices of 8 and 16 bits wrap); one state over BabyBear", items, |&(t, rf, rp), c| {
        let f = BabyBear::r();
        let m = P2::new(&f, t, 7, rf, rp, rc_rows(&f, 5, t, rf, rp, true), diag(&f, t, 6));
        let imp = build::<BabyBear>(c, &m)?;
        agree::<BabyBear>(c, &m, &imp, &backgrounds(&f, t, 5)[4])
    }));

    // 4. every field and width: all states within two words of the backgrounds
    let mut items = vec![];
    for fl in ["3", "5", "7", "17", "257"].into_iter().chain(REAL) {
        for t in WIDTHS {
            for d in DEG {
                for b in 0..if th { 11 } else { 6 } {
                    items.push((fl, t, d, b));
                }
            }
        }
    }
    v.push(Space::list("two-deviations", "item = (field, width, degree, background); every state with at most two words changed to boundary values", items, move |&(fl, t, d, b), c| {
        let real = fl.parse::<u64>().is_err();
        with_fld!(fl, A => {
            let f = A::r();
            let (rf, rp) = if real && th { (8, 13) } else { (4, 3) };
            let big = real && fl != "baby" && fl != "goldi";
            let al = alphabet(&f, if th { if big { 8 } else { 16 } } else if t <= 4 { 8 } else { 3 });
            let k = if t >= 12 && !th && (d == 3 || d == 11 || big) { 1 } else { 2 };
            let m = P2::new(&f, t, d, rf, rp, rc_rows(&f, 5, t, rf, rp, true), diag(&f, t, 6));
            let imp = build::<A>(c, &m)?;
            let bg = backgrounds(&f, t, b + 1).pop().unwrap();
            deviations(&f, &[bg], &al, k, |x| agree::<A>(c, &m, &imp, x))
        })
    }));

    // 5. all 0/1 states of the wide permutations
    let mut items = vec![];
    for t in [8usize, 12, 16, 20, 24] {
        let lim = if th { 1u64 << t.min(20) } else { 1u64 << t.min(12) };
        let chunk = 1024u64.min(lim);
        for s in (0..lim).step_by(chunk as usize) {
            items.push((t, s, chunk));
        }
    }
    v.push(Space::list("binary-states", "item = block of states with words 0/1 (the first 12, thorough 20, words range over all patterns), over F_7", items, |&(t, s, n), c| {
        let f = T7::r();
        let m = P2::new(&f, t, 5, 2, 2, rc_rows(&f, 5, t, 2, 2, true), diag(&f, t, 6));
        let imp = build::<T7>(c, &m)?;
        for k in s..s + n {
            let x: Vec<u64> = (0..t).map(|i| k >> i & 1).collect();
            agree::<T7>(c, &m, &imp, &x)?;
            let y: Vec<u64> = (0..t).rev().map(|i| k >> i & 1).collect();
            agree::<T7>(c, &m, &imp, &y)?;
        }
        Ok(())
    }));

    // 5b. chosen intermediate states: the input is computed backwards from the S-box input of round r
    let mut items = vec![];
    for fl in REAL {
        for t in WIDTHS {
            if t > 4 && !th && fl != "baby" && fl != "goldi" && !(t == 8 && (fl == "bls" || fl == "pallas")) {
                continue;
            }
            for r in 0..7 {
                items.push((fl, t, r));
            }
        }
    }
    v.push(Space::list("chosen-intermediate-states", "item = (field, width, round); the input is chosen so that the S-box inputs of that round are each state within one (narrow: two) words of the backgrounds", items, move |&(fl, t, r), c| {
        with_fld!(fl, A => {
            let f = A::r();
            let (rf, rp) = (4, 3);
            let d = if fl == "baby" || fl == "goldi" { 7 } else { 5 };
            let m = P2::new(&f, t, d, rf, rp, rc_rows(&f, 5, t, rf, rp, true), diag(&f, t, 6));
            let imp = build::<A>(c, &m)?;
            let al = alphabet(&f, if th { 8 } else { 3 });
            deviations(&f, &backgrounds(&f, t, if th { 11 } else { 5 }), &al, if t <= 3 { 2 } else { 1 }, |z| {
                let x = m.target(r, z).ok_or("chosen state has no preimage: linear layer not invertible".to_string()).unwrap();
                agree::<A>(c, &m, &imp, &x)
            })
        })
    }));

    // linear layers at carries; round 7 stands for the first linear layer, 8 for the sums over the 4x4 blocks there
    let mut items = vec![];
    for fl in REAL {
        let small = fl == "baby" || fl == "goldi";
        for t in WIDTHS {
            if !small && !th && t > 8 {
                continue;
            }
            for r in if th { (0..9).collect() } else if small { vec![0, 2, 3, 7, 8] } else { vec![2, 7, 8] } {
                items.push((fl, t, r));
            }
        }
    }
    v.push(Space::list("linear-layers", "item = (field, width, round or first linear layer or the sums over its blocks of four); inputs computed backwards so that the linear layer of that round is applied to each background, each state with one boundary word, and each state whose words (all, or every second or fourth) add up to a total at which a lazily reduced sum carries", items, move |&(fl, t, r), c| {
        with_fld!(fl, A => {
            let f = A::r();
            let d = if fl == "baby" || fl == "goldi" { 7 } else { 5 };
            let m = P2::new(&f, t, d, 4, 3, rc_rows(&f, 5, t, 4, 3, true), diag(&f, t, 6));
            let imp = build::<A>(c, &m)?;
            if r == 8 {
                if t < 8 { return Ok(()) }
                let m4 = mat_inv(&f, &p2_external(&f, 4)).unwrap();
                return layer_inputs(&f, t, &[4], th, |y| {
                    let x: Vec<_> = y.chunks(4).flat_map(|b| mat_vec(&f, &m4, b)).collect();
                    agree::<A>(c, &m, &imp, &x)
                });
            }
            layer_inputs(&f, t, &[1, 4], th, |y| {
                let x = if r == 7 { y.to_vec() } else { m.layer(r, y).ok_or("chosen state has no preimage: linear layer not invertible".to_string()).unwrap() };
                agree::<A>(c, &m, &imp, &x)
            })
        })
    }));

    let mut items = vec![];
    for fl in REAL {
        for t in WIDTHS {
            for r in if fl == "baby" || fl == "goldi" { vec![0, 1, 2, 3, 5] } else if t <= 4 { vec![0, 2, 5] } else { vec![0, 2] } {
                items.push((fl, t, r));
            }
        }
    }
    v.push(Space::list("word-boundaries", "item = (field, width, round); inputs computed backwards so that one S-box input of that round (first, second or last; narrow: any) is each of 45 values around powers of two, limb and modulus boundaries", items, |&(fl, t, r), c| {
        with_fld!(fl, A => {
            let f = A::r();
            let d = if fl == "baby" || fl == "goldi" { 7 } else { 5 };
            let m = P2::new(&f, t, d, 4, 3, rc_rows(&f, 5, t, 4, 3, true), diag(&f, t, 6));
            let imp = build::<A>(c, &m)?;
            word_boundaries(&f, t, |z| agree::<A>(c, &m, &imp, &m.target(r, z).expect("linear layer not invertible")))
        })
    }));

    // 6. constants at boundary values, one or two cells away from a background table
    let mut items = vec![];
    for fl in ["7", "goldi", "bls"] {
        for t in WIDTHS {
            for bg in [0u64, 1, 2, 5] {
                items.push((fl, t, bg));
            }
        }
    }
    v.push(Space::list("constant-deviations", "item = (field, width, background table); every single constant (round constant or diagonal entry) set to each boundary value; three states", items, move |&(fl, t, bg), c| {
        with_fld!(fl, A => {
            let f = A::r();
            let (rf, rp) = (4, 3);
            let al = alphabet(&f, if th { 10 } else { 4 });
            let base = rc_rows(&f, bg, t, rf, rp, true);
            let dbase = diag(&f, t, bg);
            let xs: Vec<_> = backgrounds(&f, t, 5).into_iter().step_by(2).collect();
            for r in 0..rf + rp {
                let full = r < rf / 2 || r >= rf / 2 + rp;
                for i in 0..if full { t } else { 1 } {
                    for a in &al {
                        let mut rc = base.clone();
                        rc[r][i] = a.clone();
                        let m = P2::new(&f, t, 5, rf, rp, rc, dbase.clone());
                        let imp = build::<A>(c, &m)?;
                        for x in &xs { agree::<A>(c, &m, &imp, x)?; }
                    }
                }
            }
            if t > 3 {
                for i in 0..t {
                    for a in &al {
                        let mut dg = dbase.clone();
                        dg[i] = a.clone();
                        let m = P2::new(&f, t, 5, rf, rp, base.clone(), dg);
                        let imp = build::<A>(c, &m)?;
                        for x in &xs { agree::<A>(c, &m, &imp, x)?; }
                    }
                }
            }
            Ok(())
        })
    }));
    v
}

fn c06(tier: Tier) -> Vec<Space> {
    let th = tier == Tier::Thorough;
    let mut v = vec![];
    v.push(Space::list("tables", "item = shipped instance; every entry of its exported tables against the generation procedure", INSTS.iter().collect(), |i, c| {
        with_fld!(i.fl, A => {
            let f = A::r();
            let (rc, dm1, tries) = gen_p2(&f, i.t, i.rf, i.rp);
            let mi = ones_plus_diag(&f, &dm1);
            let (_, d, m, r) = c.call(|| tables::<A>(i.name)).map_err(|e| format!("{}: {e}", i.name))?;
            c.sample(|| format!("{}: {} constants, diagonal after {} rejected candidates", i.name, rc.len() * i.t, tries));
            let cmp = |c: &mut Ctx, what: &str, want: &Mat<<<A as Fld>::R as Rf>::E>, got: &[Vec<<A as Fld>::F>]| -> Result<(), String> {
                if got.len() != want.len() { return Err(format!("{} {}: {} rows, expected {}", i.name, what, got.len(), want.len())); }
                for (a, (g, w)) in got.iter().zip(want).enumerate() {
                    if g.len() != w.len() { return Err(format!("{} {} row {}: {} entries, expected {}", i.name, what, a, g.len(), w.len())); }
                    for (b, (x, y)) in g.iter().zip(w).enumerate() {
                        c.step(mix(a as u64 * 100 + b as u64, f.key(y)));
                        if f.dec(x) != *y { return Err(format!("{} {}[{}][{}] = {} expected {}", i.name, what, a, b, f.big(&f.dec(x)), f.big(y))); }
                    }
                }
                c.trace(hash_str(what));
                Ok(())
            };
            cmp(c, "round constants", &rc, &r)?;
            cmp(c, "diagonal", &vec![dm1.clone()], &[d])?;
            cmp(c, "internal matrix", &mi, &m)
        })
    }));
    let mut items = vec![];
    for i in INSTS.iter() {
        for b in 0..if th { 11 } else { 8 } {
            items.push((i, b));
        }
    }
    v.push(Space::list("behaviour", "item = (shipped instance, background); the instance against the specification with regenerated parameters, on all states within one (narrow or thorough: two) words of the background", items, move |&(i, b), c| {
        with_fld!(i.fl, A => {
            let f = A::r();
            let (rc, dm1, _) = gen_p2(&f, i.t, i.rf, i.rp);
            let m = P2::new(&f, i.t, i.d, i.rf, i.rp, rc, dm1);
            let imp = c.call(|| Poseidon2::new(&tables::<A>(i.name).0)).map_err(|e| format!("{}: {e}", i.name))?;
            if imp.get_t() != i.t { return Err(format!("{}: width {}", i.name, imp.get_t())); }
            let al = alphabet(&f, 8);
            let bg = backgrounds(&f, i.t, b + 1).pop().unwrap();
            let k = if i.t <= 4 || th || i.fl == "baby" || i.fl == "goldi" { 2 } else { 1 };
            deviations(&f, &[bg], &al, k, |x| agree::<A>(c, &m, &imp, x).map_err(|e| format!("{}: {e}", i.name)))
        })
    }));
    let mut items = vec![];
    for i in INSTS.iter() {
        items.extend((0..i.rf + i.rp).map(|r| (i, r)));
    }
    v.push(Space::list("chosen-intermediate-states", "item = (shipped instance, round); inputs computed backwards so that the S-box inputs of that round are all zero, or contain 0, 1 or -1 in the first, second or last word", items, move |&(i, r), c| {
        with_fld!(i.fl, A => {
            let f = A::r();
            let (rc, dm1, _) = gen_p2(&f, i.t, i.rf, i.rp);
            let m = P2::new(&f, i.t, i.d, i.rf, i.rp, rc, dm1);
            let imp = c.call(|| Poseidon2::new(&tables::<A>(i.name).0)).map_err(|e| format!("{}: {e}", i.name))?;
            let full = r < i.rf / 2 || r >= i.rf / 2 + i.rp;
            for z in special_states(&f, i.t, !full && !th) {
                agree::<A>(c, &m, &imp, &m.target(r, &z).expect("the published layers are invertible")).map_err(|e| format!("{}: {e}", i.name))?;
            }
            Ok(())
        })
    }));
    let mut items = vec![];
    for i in INSTS.iter() {
        let n = i.rf + i.rp;
        for r in if th { vec![0, 1, i.rf / 2 - 1, i.rf / 2, n / 2, i.rf / 2 + i.rp - 1, i.rf / 2 + i.rp, n - 1] } else if i.fl == "baby" || i.fl == "goldi" { vec![0, i.rf / 2, n / 2, n - 1] } else { vec![0, i.rf / 2] } {
            items.push((i, r));
        }
    }
    v.push(Space::list("words-and-layers", "item = (shipped instance, round); inputs computed backwards so that the S-box inputs of that round contain a boundary value, or its linear layer is applied to a background, a state with one boundary word, or one whose words add up to a total at which a lazily reduced sum carries", items, move |&(i, r), c| {
        with_fld!(i.fl, A => {
            let f = A::r();
            let (rc, dm1, _) = gen_p2(&f, i.t, i.rf, i.rp);
            let m = P2::new(&f, i.t, i.d, i.rf, i.rp, rc, dm1);
            let imp = c.call(|| Poseidon2::new(&tables::<A>(i.name).0)).map_err(|e| format!("{}: {e}", i.name))?;
            let mut go = |x: Option<Vec<_>>| agree::<A>(c, &m, &imp, &x.expect("the published layers are invertible")).map_err(|e| format!("{}: {e}", i.name));
            word_boundaries(&f, i.t, |z| go(m.target(r, z)))?;
            layer_inputs(&f, i.t, &[1, 4], th, |y| go(m.layer(r, y)))
        })
    }));
    v
}

fn main() {
    main_with(|c, t| match c {
        "C01" => c01(t),
        "C06" => c06(t),
        _ => vec![],
    })
}
