//! C02 Poseidon (both evaluations) against its specification; C07 the shipped Poseidon instances.
use pmc::explore::*;
use pmc::gen::*;
use pmc::refm::*;
use pmc::ship::pos::{tables, INSTS};
use pmc::with_fld;
use std::sync::Arc;
use zkhash::poseidon::{poseidon::Poseidon, poseidon_params::PoseidonParams};

fn make<A: Fld>(m: &Pos<A::R>) -> Poseidon<A::F> {
    let f = &m.f;
    let p = PoseidonParams::<A::F>::new(m.t, m.d, m.rf, m.rp, &f.encm::<A::F>(&m.mds), &f.encm::<A::F>(&m.rc));
    Poseidon::new(&Arc::new(p))
}
fn name<A: Fld>(m: &Pos<A::R>) -> String {
    format!("Poseidon over {} t={} d={} rf={} rp={}", A::NAME, m.t, m.d, m.rf, m.rp)
}
fn showm<R: Rf>(f: &R, m: &Mat<R::E>) -> String {
    if m.len() > 4 {
        return "(..)".into();
    }
    m.iter().map(|r| show(f, r)).collect::<Vec<_>>().join(" ")
}
fn agree<A: Fld>(c: &mut Ctx, m: &Pos<A::R>, imp: &Poseidon<A::F>, x: &[<A::R as Rf>::E]) -> Result<(), String> {
    let f = &m.f;
    let want = m.perm(x, &mut CtxObs(c, f));
    let xe: Vec<A::F> = f.encv(x);
    for (which, y) in [("optimised", c.call(|| imp.permutation(&xe))), ("plain", c.call(|| imp.permutation_not_opt(&xe)))] {
        let desc = || format!("{} {} matrix {} input {}", which, name::<A>(m), showm(f, &m.mds), show(f, x));
        let y = y.map_err(|e| format!("{}: {}", desc(), e))?;
        let got = f.decv(&y);
        c.trace(f.hash(&got));
        c.sample(|| format!("{} -> {}", desc(), show(f, &got)));
        if got != want {
            return Err(format!("{}: got {} want {}", desc(), show(f, &got), show(f, &want)));
        }
    }
    Ok(())
}
/// The instance, or None if it was refused and the sparse form does not exist.
fn build<A: Fld>(c: &mut Ctx, m: &Pos<A::R>) -> Result<Option<Poseidon<A::F>>, String> {
    let f = &m.f;
    let hat: Mat<_> = m.mds[1..].iter().map(|r| r[1..].to_vec()).collect();
    let exists = invertible(f, &m.mds) && invertible(f, &hat);
    match c.call(|| make::<A>(m)) {
        Ok(i) => {
            if i.get_t() != m.t {
                return Err(format!("get_t() = {} for width {}", i.get_t(), m.t));
            }
            Ok(Some(i))
        }
        Err(e) if exists => Err(format!("{} matrix {}: construction refused although the sparse representation exists: {}", name::<A>(m), showm(f, &m.mds), e)),
        Err(_) => {
            c.cov.refusals += 1;
            Ok(None)
        }
    }
}

const DEG: [usize; 3] = [3, 5, 7];

fn full<A: Fld>(c: &mut Ctx, m: &Pos<A::R>) -> Result<(), String>
where
    A::R: Rf<E = u64>,
{
    let p = m.f.neg(&1) + 1;
    if let Some(imp) = build::<A>(c, m)? {
        for k in 0..upow(p, m.t) {
            agree::<A>(c, m, &imp, &nth_state(p, m.t, k))?;
        }
    }
    Ok(())
}

/// matrices that exist at every width
fn matrix<R: Rf>(f: &R, t: usize, pat: usize) -> Mat<R::E> {
    match pat {
        // Cauchy
        0 => (0..t).map(|i| (0..t).map(|j| f.inv(&f.of64((i + t + j + 1) as u64)).unwrap_or(f.one())).collect()).collect(),
        // scattered
        1 => (0..t).map(|i| (0..t).map(|j| cval(f, 8, (i * t + j) as u64)).collect()).collect(),
        // all ones plus a diagonal
        2 => ones_plus_diag(f, &(0..t).map(|i| f.of64(i as u64 + 1)).collect::<Vec<_>>()),
        // 1 (+) exchange matrix: invertible, but with zero leading minors
        3 => (0..t).map(|i| (0..t).map(|j| if (i == 0 && j == 0) || (i > 0 && i + j == t) { f.one() } else { f.zero() }).collect()).collect(),
        // identity
        4 => ident(f, t),
        // exchange of neighbours below the first row, plus a dense first row and column
        5 => {
            let mut m = matrix(f, t, 3);
            for i in 1..t {
                m[0][i] = f.of64(i as u64 + 2);
                m[i][0] = f.of64(2 * i as u64 + 1);
            }
            m[0][0] = f.of64(1009);
            m
        }
        // upper / lower triangular
        6 => (0..t).map(|i| (0..t).map(|j| if j >= i { cval(f, 3, (i + j) as u64) } else { f.zero() }).collect()).collect(),
        7 => (0..t).map(|i| (0..t).map(|j| if j <= i { cval(f, 3, (i + j) as u64) } else { f.zero() }).collect()).collect(),
        // circulant (2,1,..,1), the Poseidon2 style matrix
        8 => (0..t).map(|i| (0..t).map(|j| f.of64(if i == j { 2 } else { 1 })).collect()).collect(),
        // large entries: -1 with another diagonal
        9 => (0..t).map(|i| (0..t).map(|j| f.neg(&f.of64(if i == j { i as u64 + 3 } else { 1 }))).collect()).collect(),
        // zero top left corner
        _ => {
            let mut m = matrix(f, t, 0);
            m[0][0] = f.zero();
            m
        }
    }
}

fn c02(tier: Tier) -> Vec<Space> {
    let th = tier == Tier::Thorough;
    let mut v = vec![];
    // every 2x2 matrix, every state
    v.push(Space::new("all-matrices-t2-p3", 81 * 3 * 3 * 4 * 2, "item = (every 2x2 matrix over F_3, degree, rf 0/2/4, rp 1..4, constants pattern); every state", |i, c| {
        let mut g = Dig(i);
        let w: Vec<u64> = (0..4).map(|_| g.take(3)).collect();
        let d = *g.pick(&DEG);
        let rf = *g.pick(&[0, 2, 4]);
        let rp = 1 + g.take(4) as usize;
        let f = T3::r();
        let rc = rc_rows(&f, *g.pick(&[3, 5]), 2, rf, rp, false);
        full::<T3>(c, &Pos { f, t: 2, d, rf, rp, mds: vec![w[0..2].to_vec(), w[2..4].to_vec()], rc })
    }));
    v.push(Space::new("all-matrices-t2-p7", 2401 * 3 * 2 * 3, "item = (every 2x2 matrix over F_7, degree, rf 0/2, rp 1..3); every state", |i, c| {
        let mut g = Dig(i);
        let w: Vec<u64> = (0..4).map(|_| g.take(7)).collect();
        let d = *g.pick(&DEG);
        let rf = *g.pick(&[0, 2]);
        let rp = 1 + g.take(3) as usize;
        let f = T7::r();
        let rc = rc_rows(&f, 5, 2, rf, rp, false);
        full::<T7>(c, &Pos { f, t: 2, d, rf, rp, mds: vec![w[0..2].to_vec(), w[2..4].to_vec()], rc })
    }));
    v.push(Space::new("all-matrices-t3-p3", upow(3, 9) * if th { 12 } else { 4 }, "item = (every 3x3 matrix over F_3, rp 1..2 (thorough 1..4), degree); every state", |i, c| {
        let mut g = Dig(i);
        let w: Vec<u64> = (0..9).map(|_| g.take(3)).collect();
        let d = *g.pick(&[5, 3]);
        let rp = 1 + g.take(2) as usize + if g.0 > 0 { 2 } else { 0 };
        let rf = if g.0 == 2 { 4 } else { 2 };
        let f = T3::r();
        let rc = rc_rows(&f, 5, 3, rf, rp, false);
        full::<T3>(c, &Pos { f, t: 3, d, rf, rp, mds: w.chunks(3).map(|x| x.to_vec()).collect(), rc })
    }));
    if th {
        v.push(Space::new("all-matrices-t3-p5", upow(5, 9), "item = every 3x3 matrix over F_5, rp 3, degree 3; the states within two words of zero", |i, c| {
            let f = T5::r();
            let w = nth_state(5, 9, i);
            let rc = rc_rows(&f, 5, 3, 2, 3, false);
            let m = Pos { f: f.clone(), t: 3, d: 3, rf: 2, rp: 3, mds: w.chunks(3).map(|x| x.to_vec()).collect(), rc };
            match build::<T5>(c, &m)? {
                Some(imp) => deviations(&f, &[vec![0, 0, 0]], &[1, 4], 2, |x| agree::<T5>(c, &m, &imp, x)),
                None => Ok(()),
            }
        }));
    }
    // every 0/1 matrix of width 4 (zero minors everywhere) over F_17
    v.push(Space::new("binary-matrices-t4", 65536, "item = every 4x4 matrix with entries 0/1 over F_17, rp 3; five states", |i, c| {
        let f = T17::r();
        let mds: Mat<u64> = (0..4).map(|r| (0..4).map(|k| i >> (4 * r + k) & 1).collect()).collect();
        let rc = rc_rows(&f, 5, 4, 2, 3, false);
        let m = Pos { f: f.clone(), t: 4, d: 5, rf: 2, rp: 3, mds, rc };
        match build::<T17>(c, &m)? {
            Some(imp) => backgrounds(&f, 4, 5).iter().try_for_each(|x| agree::<T17>(c, &m, &imp, x)),
            None => Ok(()),
        }
    }));
    // every constant table
    v.push(Space::new("all-constants-t2", upow(3, 8) * 6, "item = (all 8 constants of rf=2, rp=2 over F_3, six matrices); every state", |i, c| {
        let mut g = Dig(i);
        let mats: [[[u64; 2]; 2]; 6] = [[[1, 0], [0, 1]], [[1, 1], [0, 1]], [[2, 1], [1, 1]], [[0, 1], [1, 1]], [[1, 2], [2, 2]], [[2, 0], [1, 2]]];
        let mm = g.pick(&mats);
        let w: Vec<u64> = (0..8).map(|_| g.take(3)).collect();
        full::<T3>(c, &Pos { f: T3::r(), t: 2, d: 5, rf: 2, rp: 2, mds: mm.iter().map(|r| r.to_vec()).collect(), rc: w.chunks(2).map(|x| x.to_vec()).collect() })
    }));
    v.push(Space::new("all-partial-constants-t3", upow(3, 9), "item = all constants of three partial rounds at width 3 over F_3 (rf=0); every state", |i, c| {
        let w = nth_state(3, 9, i);
        full::<T3>(c, &Pos { f: T3::r(), t: 3, d: 5, rf: 0, rp: 3, mds: vec![vec![2, 1, 1], vec![1, 0, 1], vec![2, 1, 2]], rc: w.chunks(3).map(|x| x.to_vec()).collect() })
    }));
    // complete state spaces of larger sets
    let mut items = vec![];
    for (fl, t) in [("17", 2), ("7", 3), ("5", 4), ("7", 4), ("17", 3), ("3", 8), ("3", 6), ("5", 5)] {
        for d in DEG {
            for (rf, rp) in [(0, 1), (0, 2), (2, 1), (2, 5), (4, 3)] {
                for mp in 0..10 {
                    if (t > 4 || fl == "17") && (d == 3 || mp % 3 == 1) && !th {
                        continue;
                    }
                    items.push((fl, t, d, rf, rp, mp));
                }
            }
        }
    }
    v.push(Space::list("full-state-space", "item = (tiny field, width, degree, rounds, matrix pattern); every state of F_p^t", items, |&(fl, t, d, rf, rp, mp), c| {
        macro_rules! go { ($a:ident) => {{ let f = $a::r(); full::<$a>(c, &Pos { mds: matrix(&f, t, mp), rc: rc_rows(&f, 5, t, rf, rp, false), f, t, d, rf, rp }) }} }
        match fl { "3" => go!(T3), "5" => go!(T5), "7" => go!(T7), _ => go!(T17) }
    }));
    // round shapes and widths
    let rfs: Vec<usize> = if th { (0..=30).step_by(2).chain([62, 64, 66, 128]).collect() } else { vec![0, 2, 4, 6, 8, 10, 16] };
    let rps: Vec<usize> = if th { (1..=70).chain([99, 100, 101, 126, 127, 128, 129, 130, 200, 254, 255, 256, 257, 258]).collect() } else { (1..=10).chain([13, 21, 22, 23, 31, 32, 33, 55, 56, 57, 58, 63, 64, 65, 127, 128, 129, 255, 256, 257]).collect() };
    let mut items = vec![];
    for t in 2..=24usize {
        for &rf in &rfs {
            for &rp in &rps {
                if rp > 65 && (t > 8 || rf != 8) && !(th && t <= 12) {
                    continue;
                }
                if !th && t > 4 && t % 4 != 0 && (rp > 3 && rp != 22 && rp != 57 || rf > 4) {
                    continue;
                }
                items.push((t, rf, rp));
            }
        }
    }
    v.push(Space::list("round-shapes", "item = (width 2..24, full rounds, partial rounds); all degrees and four matrices over BabyBear; two states", items, |&(t, rf, rp), c| {
        let f = BabyBear::r();
        for (d, mp) in [(3, 0), (5, 1), (7, 2), (5, 5)] {
            let m = Pos { f: f.clone(), t, d, rf, rp, mds: matrix(&f, t, mp), rc: rc_rows(&f, 5, t, rf, rp, false) };
            if let Some(imp) = build::<BabyBear>(c, &m)? {
                for x in [1, 4] {
                    agree::<BabyBear>(c, &m, &imp, &backgrounds(&f, t, 5)[x])?;
                }
            }
        }
        Ok(())
    }));
    let mut items = vec![];
    for t in [2usize, 3, 4, 5, 8, 12] {
        for (rf, rp) in [(0usize, 511usize), (2, 512), (4, 513), (8, 1023), (2, 1025), (8, 2049), (254, 3), (256, 3), (258, 3), (512, 1), (514, 2), (1026, 2)] {
            if t < 8 || rp < 600 {
                items.push((t, rf, rp));
            }
        }
    }
    items.extend([(2, 2, 32_769), (2, 2, 65_535), (2, 2, 65_537), (3, 2, 65_537), (2, 65_540, 1)]);
    v.push(Space::list("many-rounds", "item = (width, full rounds, partial rounds), up to 65540 rounds (indices of 8 and 16 bits wrap); one state over BabyBear", items, |&(t, rf, rp), c| {
        let f = BabyBear::r();
        let m = Pos { f: f.clone(), t, d: 7, rf, rp, mds: matrix(&f, t, 0), rc: rc_rows(&f, 5, t, rf, rp, false) };
        if let Some(imp) = build::<BabyBear>(c, &m)? {
            agree::<BabyBear>(c, &m, &imp, &backgrounds(&f, t, 5)[4])?;
        }
        Ok(())
    }));
    // deviations over every field
    let mut items = vec![];
    for fl in ["3", "7", "17", "257"].into_iter().chain(REAL) {
        for t in [2usize, 3, 4, 5, 8, 12, 16, 20, 24] {
            for mp in [0, 1, 3, 5, 6, 9] {
                items.push((fl, t, mp));
            }
        }
    }
    v.push(Space::list("two-deviations", "item = (field, width, matrix pattern); every state with at most two words (wide: one) changed to boundary values on several backgrounds", items, move |&(fl, t, mp), c| {
        let real = fl.parse::<u64>().is_err();
        let d = if fl == "baby" || fl == "goldi" { 7 } else { 5 };
        with_fld!(fl, A => {
            let f = A::r();
            let (rf, rp) = (4, 4);
            let m = Pos { f: f.clone(), t, d, rf, rp, mds: matrix(&f, t, mp), rc: rc_rows(&f, 5, t, rf, rp, false) };
            let Some(imp) = build::<A>(c, &m)? else { return Ok(()) };
            let al = alphabet(&f, if th { 8 } else { 4 });
            let k = if t <= 4 || (th && !real) { 2 } else { 1 };
            deviations(&f, &backgrounds(&f, t, if t <= 4 || th { 9 } else { 4 }), &al, k, |x| agree::<A>(c, &m, &imp, x))
        })
    }));
    // chosen intermediate states
    let mut items = vec![];
    for fl in REAL {
        for t in [2usize, 3, 4, 8, 12, 16, 24] {
            if t > 4 && !th && fl != "baby" && fl != "goldi" && !(t == 8 && fl == "bls") {
                continue;
            }
            for r in 0..7 {
                items.push((fl, t, r));
            }
        }
    }
    v.push(Space::list("chosen-intermediate-states", "item = (field, width, round); inputs computed backwards so that the S-box inputs of that round are each state within one (narrow: two) words of the backgrounds", items, move |&(fl, t, r), c| {
        let d = if fl == "baby" || fl == "goldi" { 7 } else { 5 };
        with_fld!(fl, A => {
            let f = A::r();
            let (rf, rp) = (4, 3);
            let m = Pos { f: f.clone(), t, d, rf, rp, mds: matrix(&f, t, 0), rc: rc_rows(&f, 5, t, rf, rp, false) };
            let Some(imp) = build::<A>(c, &m)? else { return Ok(()) };
            deviations(&f, &backgrounds(&f, t, if th { 11 } else { 5 }), &alphabet(&f, if th { 8 } else { 3 }), if t <= 3 { 2 } else { 1 }, |z| {
                agree::<A>(c, &m, &imp, &m.target(r, z).unwrap())
            })
        })
    }));
    let mut items = vec![];
    for fl in REAL {
        for t in [2usize, 3, 4, 5, 8, 12, 16, 20, 24] {
            for r in if fl == "baby" || fl == "goldi" { vec![0, 1, 2, 3, 5] } else if t <= 4 { vec![0, 2, 5] } else { vec![0, 2] } {
                items.push((fl, t, r));
            }
        }
    }
    v.push(Space::list("word-boundaries", "item = (field, width, round); inputs computed backwards so that one S-box input of that round (first, second or last; narrow: any) is each of 45 values around powers of two, limb and modulus boundaries", items, |&(fl, t, r), c| {
        let d = if fl == "baby" || fl == "goldi" { 7 } else { 5 };
        with_fld!(fl, A => {
            let f = A::r();
            let m = Pos { f: f.clone(), t, d, rf: 4, rp: 3, mds: matrix(&f, t, 0), rc: rc_rows(&f, 5, t, 4, 3, false) };
            let Some(imp) = build::<A>(c, &m)? else { return Ok(()) };
            word_boundaries(&f, t, |z| agree::<A>(c, &m, &imp, &m.target(r, z).unwrap()))
        })
    }));
    let mut items = vec![];
    for fl in REAL {
        let small = fl == "baby" || fl == "goldi";
        for t in [2usize, 3, 4, 5, 8, 12, 16, 20, 24] {
            if !small && !th && t > 8 {
                continue;
            }
            for mp in [0, 8, 9] {
                for r in if th { vec![0, 1, 2, 3, 4, 5, 6] } else if small { vec![0, 2, 3] } else { vec![2] } {
                    items.push((fl, t, mp, r));
                }
            }
        }
    }
    v.push(Space::list("linear-layers", "item = (field, width, matrix (Cauchy, small entries, large entries), round); inputs computed backwards so that the linear layer of that round is applied to each background, each state with one boundary word, and each state whose words (all, or every second or fourth) add up to a total at which a lazily reduced sum carries; both evaluations", items, move |&(fl, t, mp, r), c| {
        let d = if fl == "baby" || fl == "goldi" { 7 } else { 5 };
        with_fld!(fl, A => {
            let f = A::r();
            let m = Pos { f: f.clone(), t, d, rf: 4, rp: 3, mds: matrix(&f, t, mp), rc: rc_rows(&f, 5, t, 4, 3, false) };
            let Some(imp) = build::<A>(c, &m)? else { return Ok(()) };
            layer_inputs(&f, t, &[1], th, |y| agree::<A>(c, &m, &imp, &m.layer(r, y).unwrap()))
        })
    }));
    let items: Vec<(usize, usize, usize)> = (25..=34usize).chain([48, 63, 64, 65, 66, 96, 127, 128, 129]).flat_map(|t| [(t, 0usize, 1usize), (t, 2, 2), (t, 2, 3)]).collect();
    v.push(Space::list("wide", "item = (width 25 to 129, full rounds, partial rounds); Cauchy and exchange matrix over BabyBear; two states", items, |&(t, rf, rp), c| {
        let f = BabyBear::r();
        for mp in [0, 5] {
            let m = Pos { f: f.clone(), t, d: 7, rf, rp, mds: matrix(&f, t, mp), rc: rc_rows(&f, 5, t, rf, rp, false) };
            let Some(imp) = build::<BabyBear>(c, &m)? else { continue };
            for x in [1, 4] {
                agree::<BabyBear>(c, &m, &imp, &backgrounds(&f, t, 5)[x])?;
            }
        }
        Ok(())
    }));
    // single constants at boundary values
    let mut items = vec![];
    for fl in ["7", "goldi", "bls"] {
        for t in [2usize, 3, 4, 8, 12] {
            for bg in [0u64, 1, 2, 5] {
                items.push((fl, t, bg));
            }
        }
    }
    v.push(Space::list("constant-deviations", "item = (field, width, background table); every single round constant and matrix entry set to each boundary value; two states", items, move |&(fl, t, bg), c| {
        with_fld!(fl, A => {
            let f = A::r();
            let (rf, rp) = (2, 3);
            let al = alphabet(&f, if th { 8 } else { 3 });
            let base = rc_rows(&f, bg, t, rf, rp, false);
            let mb = matrix(&f, t, 0);
            let xs = [backgrounds(&f, t, 5)[4].clone(), vec![f.zero(); t]];
            for r in 0..rf + rp + t {
                for i in 0..t {
                    for a in &al {
                        let (mut rc, mut mds) = (base.clone(), mb.clone());
                        if r < rf + rp { rc[r][i] = a.clone() } else { mds[r - rf - rp][i] = a.clone() }
                        let m = Pos { f: f.clone(), t, d: 5, rf, rp, mds, rc };
                        if let Some(imp) = build::<A>(c, &m)? {
                            for x in &xs { agree::<A>(c, &m, &imp, x)?; }
                        }
                    }
                }
            }
            Ok(())
        })
    }));
    v
}

fn c07(tier: Tier) -> Vec<Space> {
    let th = tier == Tier::Thorough;
    let mut v = vec![];
    v.push(Space::list("tables", "item = shipped instance; every entry of its exported tables against the generation procedure", INSTS.iter().collect(), |i, c| {
        with_fld!(i.fl, A => {
            let f = A::r();
            let (rc, mds) = gen_pos(&f, i.t, i.rf, i.rp);
            let (_, m, r) = c.call(|| tables::<A>(i.name)).map_err(|e| format!("{}: {e}", i.name))?;
            c.sample(|| format!("{}: {} constants, {}x{} matrix", i.name, rc.len() * i.t, i.t, i.t));
            for (what, want, got) in [("round constants", &rc, &r), ("matrix", &mds, &m)] {
                if got.len() != want.len() { return Err(format!("{} {}: {} rows, expected {}", i.name, what, got.len(), want.len())); }
                for (a, (g, w)) in got.iter().zip(want).enumerate() {
                    if g.len() != w.len() { return Err(format!("{} {} row {}: {} entries, expected {}", i.name, what, a, g.len(), w.len())); }
                    for (b, (x, y)) in g.iter().zip(w).enumerate() {
                        c.step(mix(a as u64 * 100 + b as u64, f.key(y)));
                        if f.dec(x) != *y { return Err(format!("{} {}[{}][{}] = {} expected {}", i.name, what, a, b, f.big(&f.dec(x)), f.big(y))); }
                    }
                }
                c.trace(hash_str(what));
            }
            Ok(())
        })
    }));
    let mut items = vec![];
    for i in INSTS.iter() {
        for b in 0..if th { 11 } else { 8 } {
            items.push((i, b));
        }
    }
    v.push(Space::list("behaviour", "item = (shipped instance, background); both evaluations against the specification with regenerated parameters, on all states within one (narrow or thorough: two) words of the background", items, move |&(i, b), c| {
        with_fld!(i.fl, A => {
            let f = A::r();
            let (rc, mds) = gen_pos(&f, i.t, i.rf, i.rp);
            let m = Pos { f: f.clone(), t: i.t, d: i.d, rf: i.rf, rp: i.rp, mds, rc };
            let imp = c.call(|| Poseidon::new(&tables::<A>(i.name).0)).map_err(|e| format!("{}: {e}", i.name))?;
            if imp.get_t() != i.t { return Err(format!("{}: width {}", i.name, imp.get_t())); }
            let bg = backgrounds(&f, i.t, b + 1).pop().unwrap();
            let k = if i.t <= 4 || i.t <= 16 && (th || i.fl == "baby" || i.fl == "goldi") { 2 } else { 1 };
            deviations(&f, &[bg], &alphabet(&f, if th { 5 } else { 4 }), k, |x| agree::<A>(c, &m, &imp, x).map_err(|e| format!("{}: {e}", i.name)))
        })
    }));
    let mut items = vec![];
    for i in INSTS.iter() {
        items.extend((0..i.rf + i.rp).map(|r| (i, r)));
    }
    v.push(Space::list("chosen-intermediate-states", "item = (shipped instance, round); inputs computed backwards so that the S-box inputs of that round are all zero, or contain 0, 1 or -1 in the first, second or last word; both evaluations", items, move |&(i, r), c| {
        with_fld!(i.fl, A => {
            let f = A::r();
            let (rc, mds) = gen_pos(&f, i.t, i.rf, i.rp);
            let m = Pos { f: f.clone(), t: i.t, d: i.d, rf: i.rf, rp: i.rp, mds, rc };
            let imp = c.call(|| Poseidon::new(&tables::<A>(i.name).0)).map_err(|e| format!("{}: {e}", i.name))?;
            let full = r < i.rf / 2 || r >= i.rf / 2 + i.rp;
            for z in special_states(&f, i.t, !full && !th) {
                agree::<A>(c, &m, &imp, &m.target(r, &z).expect("the published layers are invertible")).map_err(|e| format!("{}: {e}", i.name))?;
            }
            Ok(())
        })
    }));
    let mut items = vec![];
    for i in INSTS.iter() {
        let n = i.rf + i.rp;
        for r in if th { vec![0, 1, i.rf / 2 - 1, i.rf / 2, n / 2, i.rf / 2 + i.rp - 1, i.rf / 2 + i.rp, n - 1] } else if i.fl == "baby" || i.fl == "goldi" { vec![0, i.rf / 2, n / 2, n - 1] } else { vec![0, i.rf / 2] } {
            items.push((i, r));
        }
    }
    v.push(Space::list("words-and-layers", "item = (shipped instance, round); inputs computed backwards so that the S-box inputs of that round contain a boundary value, or its linear layer is applied to a background, a state with one boundary word, or one whose words add up to a total at which a lazily reduced sum carries", items, move |&(i, r), c| {
        with_fld!(i.fl, A => {
            let f = A::r();
            let (rc, mds) = gen_pos(&f, i.t, i.rf, i.rp);
            let m = Pos { f: f.clone(), t: i.t, d: i.d, rf: i.rf, rp: i.rp, mds, rc };
            let imp = c.call(|| Poseidon::new(&tables::<A>(i.name).0)).map_err(|e| format!("{}: {e}", i.name))?;
            let mut go = |x: Option<Vec<_>>| agree::<A>(c, &m, &imp, &x.expect("the published layers are invertible")).map_err(|e| format!("{}: {e}", i.name));
            word_boundaries(&f, i.t, |z| go(m.target(r, z)))?;
            layer_inputs(&f, i.t, &[1], th, |y| go(m.layer(r, y)))
        })
    }));
    v
}

fn main() {
    main_with(|c, t| match c {
        "C02" => c02(t),
        "C07" => c07(t),
        _ => vec![],
    })
}
