//! C03 GMiMC (both evaluations) against the unbalanced Feistel specification.
use pmc::bind;
use pmc::explore::*;
use pmc::rnd::gm::{binding, construct};
use pmc::gen::*;
use pmc::refm::*;
use pmc::with_wfld;
use zkhash::gmimc::gmimc::Gmimc;

fn build<A: Fld>(c: &mut Ctx, m: &Gm<A::R>) -> Result<Option<Gmimc<A::F>>, String> {
    let (t, d, n) = (m.t, m.d, m.rc.len());
    let b = match binding(t, d, n) {
        Ok(b) => b,
        Err(e) if e == "unknown" => {
            c.sample(|| "SKIPPED: draw order not recognised for a long constant list".into());
            return Ok(None);
        }
        Err(e) => return Err(format!("GMiMC t={t} d={d} rounds={n}: {e}")),
    };
    let s = bind::script(&m.f, &b, &m.rc);
    let (i, _, g) = c.call(|| construct::<A>(t, d, n, s)).map_err(|e| format!("GmimcParams::new({t},{d},{n}): {e}"))?;
    if g != (t, n) || i.get_t() != t {
        return Err(format!("get_t/get_rounds report {:?}/{} for width {t}, {n} rounds", g, i.get_t()));
    }
    Ok(Some(i))
}

fn agree<A: Fld>(c: &mut Ctx, m: &Gm<A::R>, imp: &Gmimc<A::F>, x: &[<A::R as Rf>::E]) -> Result<(), String> {
    let f = &m.f;
    let want = m.perm(x, &mut CtxObs(c, f));
    let xe: Vec<A::F> = f.encv(x);
    for (which, y) in [("default", c.call(|| imp.permutation(&xe))), ("plain", c.call(|| imp.permutation_not_opt(&xe)))] {
        let desc = || format!("{} GMiMC over {} t={} d={} rounds={} constants {} input {}", which, A::NAME, m.t, m.d, m.rc.len(), trunc(&show(f, &m.rc)), show(f, x));
        let y = y.map_err(|e| format!("{}: {}", desc(), e))?;
        let got = f.decv(&y);
        c.trace(f.hash(&got));
        c.sample(|| format!("{} -> {}", desc(), show(f, &got)));
        if got != want {
            return Err(format!("{}: got {} want {}", desc(), show(f, &got), show(f, &want)));
        }
    }
    Ok(())
}
fn full<A: Fld>(c: &mut Ctx, m: &Gm<A::R>) -> Result<(), String>
where
    A::R: Rf<E = u64>,
{
    let p = m.f.neg(&1) + 1;
    let Some(imp) = build::<A>(c, m)? else { return Ok(()) };
    for k in 0..upow(p, m.t) {
        agree::<A>(c, m, &imp, &nth_state(p, m.t, k))?;
    }
    Ok(())
}
const DEG: [usize; 3] = [3, 5, 7];

fn c03(tier: Tier) -> Vec<Space> {
    let th = tier == Tier::Thorough;
    let mut v = vec![];
    // every constant choice
    let mut items: Vec<(usize, usize, usize)> = vec![]; // t, rounds, d
    for (t, n) in [(2, 1), (2, 2), (2, 3), (2, 5), (3, 1), (3, 2), (3, 4), (4, 3), (4, 5), (5, 2), (8, 1), (8, 2)] {
        for d in DEG {
            items.push((t, n, d));
        }
    }
    if th {
        items.extend([(2, 8, 3), (3, 7, 5), (8, 3, 5), (9, 2, 3), (8, 4, 3), (6, 4, 3)]);
    }
    let mut flat = vec![];
    for (t, n, d) in items {
        for k in 0..upow(3, n) {
            flat.push((t, n, d, k));
        }
    }
    v.push(Space::list("all-constants", "item = (width, rounds, degree, every sequence of drawn constants over F_3); every state", flat, |&(t, n, d, k), c| {
        full::<X3>(c, &Gm { f: X3::r(), t, d, rc: nth_state(3, n, k) })
    }));
    // complete state spaces
    let mut items = vec![];
    for (fl, t, rs) in [
        ("17", 2, vec![1usize, 2, 3, 4, 7, 11]), ("7", 3, vec![1, 2, 3, 4, 7, 12]), ("17", 3, vec![1, 2, 5]), ("5", 4, vec![1, 2, 3, 4, 5, 9]), ("3", 5, vec![1, 4, 5, 6, 11]), ("3", 6, vec![1, 5, 6, 7]), ("3", 7, vec![1, 2, 6, 7, 8, 15]),
        ("3", 8, vec![1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 14, 15, 16, 17, 18, 23, 24, 25]), ("3", 9, vec![1, 2, 3, 7, 8, 9, 10, 11, 17, 18, 19]), ("3", 10, vec![1, 9, 10, 11]), ("5", 8, vec![1, 7, 8, 9]),
    ] {
        for r in rs {
            for d in DEG {
                for pat in [3u64, 5, 0] {
                    if (t >= 9 || fl == "5" && t == 8) && !th && (d != 5 || pat != 5) {
                        continue;
                    }
                    items.push((fl, t, r, d, pat));
                }
            }
        }
    }
    v.push(Space::list("full-state-space", "item = (tiny field, width, rounds, degree, constants pattern); every state of F_p^t, on both sides of the width where the default evaluation changes method", items, |&(fl, t, r, d, pat), c| {
        macro_rules! go { ($a:ident) => {{ let f = $a::r(); full::<$a>(c, &Gm { rc: (0..r).map(|k| cval(&f, pat, k as u64)).collect(), f, t, d }) }} }
        match fl { "3" => go!(X3), "5" => go!(X5), "7" => go!(X7), _ => go!(X17) }
    }));
    // widths and rounds
    let mut items = vec![];
    for t in (2..=26usize).chain([32, 33, 48, 64]) {
        let mut rs: Vec<usize> = (1..=(if th { 4 * t } else { 2 * t + 3 }).min(140)).collect();
        rs.extend(if th { vec![99, 100, 101, 127, 128, 129, 199, 255, 256, 257, 338, 511, 512, 513, 841, 1023, 1024, 1025] } else { vec![100, 127, 128, 129, 255, 256, 257] });
        rs.sort();
        rs.dedup();
        for r in rs {
            items.push((t, r));
        }
    }
    v.push(Space::list("widths-and-rounds", "item = (width 2..26 and some wider, rounds); every degree over BabyBear; three states", items, |&(t, r), c| {
        let f = XBabyBear::r();
        for d in DEG {
            let m = Gm { f: f.clone(), t, d, rc: (0..r).map(|k| cval(&f, 5, k as u64)).collect() };
            let Some(imp) = build::<XBabyBear>(c, &m)? else { continue };
            for x in backgrounds(&f, t, 5).iter().step_by(2) {
                agree::<XBabyBear>(c, &m, &imp, x)?;
            }
        }
        Ok(())
    }));
    let mut items = vec![];
    for t in [2usize, 3, 4, 7, 8, 9, 12, 16, 24] {
        for r in [511usize, 512, 513, 1023, 1024, 1025, 1202, 2047, 2048, 2049, 4097, 32_769, 65_535, 65_536, 65_537] {
            if t < 12 || r < 5000 {
                items.push((t, r));
            }
        }
    }
    v.push(Space::list("many-rounds", "item = (width, rounds), up to 65537 rounds (indices of 8 and 16 bits wrap); one state over BabyBear", items, |&(t, r), c| {
        let f = XBabyBear::r();
        let m = Gm { f: f.clone(), t, d: 7, rc: (0..r).map(|k| cval(&f, 5, k as u64)).collect() };
        let Some(imp) = build::<XBabyBear>(c, &m)? else { return Ok(()) };
        agree::<XBabyBear>(c, &m, &imp, &backgrounds(&f, t, 5)[4])
    }));
    let mut items = vec![];
    for t in (27..=40usize).chain([63, 65, 66, 95, 96, 97, 127, 128, 129, 130, 191, 255, 256, 257, 258, 300, 511, 512, 513, 1000, 1024, 1025]) {
        for r in [1, 2, t / 2, t - 1, t, t + 1, 2 * t - 1, 2 * t, 2 * t + 3] {
            items.push((t, r));
        }
    }
    v.push(Space::list("wide", "item = (width 27 to 1025, rounds around the width); two states over BabyBear", items, |&(t, r), c| {
        let f = XBabyBear::r();
        let m = Gm { f: f.clone(), t, d: 7, rc: (0..r).map(|k| cval(&f, 5, k as u64)).collect() };
        let Some(imp) = build::<XBabyBear>(c, &m)? else { return Ok(()) };
        for x in [1, 4] {
            agree::<XBabyBear>(c, &m, &imp, &backgrounds(&f, t, 5)[x])?;
        }
        Ok(())
    }));
    let mut items = vec![];
    for fl in REAL {
        for t in [2usize, 3, 4, 7, 8, 9, 12, 16, 24] {
            for r in (0..2 * t + 3).step_by(if t < 8 { 1 } else { 3 }) {
                items.push((fl, t, r));
            }
        }
    }
    v.push(Space::list("word-boundaries", "item = (field, width, round); inputs computed backwards so that one word of the state at that round (first word plus constant, second or last; narrow: any) is each of 45 values around powers of two, limb and modulus boundaries", items, |&(fl, t, r), c| {
        let d = if fl == "baby" || fl == "goldi" { 7 } else { 5 };
        with_wfld!(fl, A => {
            let f = A::r();
            let m = Gm { f: f.clone(), t, d, rc: (0..2 * t + 3).map(|k| cval(&f, 5, k as u64)).collect() };
            let Some(imp) = build::<A>(c, &m)? else { return Ok(()) };
            word_boundaries(&f, t, |z| agree::<A>(c, &m, &imp, &m.target(r, z)))
        })
    }));
    let mut items = vec![];
    for fl in REAL {
        let small = fl == "baby" || fl == "goldi";
        for t in [3usize, 4, 7, 8, 9, 12, 16, 24] {
            if !small && !th && t > 9 {
                continue;
            }
            for r in [0, 3, t + 2] {
                items.push((fl, t, r));
            }
        }
    }
    v.push(Space::list("power-sums", "item = (field, width, round); inputs computed backwards so that the S-box outputs of width - 1 consecutive rounds are each background, each list with one boundary value, and each list that adds up to a total at which a lazily reduced sum carries; 2t+3 rounds", items, move |&(fl, t, r), c| {
        let d = if fl == "baby" || fl == "goldi" { 7 } else { 5 };
        with_wfld!(fl, A => {
            let f = A::r();
            let m = Gm { f: f.clone(), t, d, rc: (0..2 * t + 3).map(|k| cval(&f, 5, k as u64)).collect() };
            let Some(imp) = build::<A>(c, &m)? else { return Ok(()) };
            layer_inputs(&f, t - 1, &[1], th, |w| {
                let mut w = w.to_vec();
                w.push(cval(&f, 6, 1));
                agree::<A>(c, &m, &imp, &m.powers(r, &w).unwrap())
            })
        })
    }));
    // deviations over every field
    let mut items = vec![];
    for fl in ["3", "5", "7", "17", "257"].into_iter().chain(REAL) {
        for t in [2usize, 3, 4, 5, 7, 8, 9, 12, 16, 20, 24] {
            for r in [3, t - 1, t, t + 1, 2 * t + 2] {
                items.push((fl, t, r.max(1)));
            }
        }
    }
    v.push(Space::list("two-deviations", "item = (field, width, rounds around the width); every state with at most two words changed to boundary values on several backgrounds", items, move |&(fl, t, r), c| {
        let d = if fl == "baby" || fl == "goldi" { 7 } else { 5 };
        with_wfld!(fl, A => {
            let f = A::r();
            let m = Gm { f: f.clone(), t, d, rc: (0..r).map(|k| cval(&f, 5, k as u64)).collect() };
            let Some(imp) = build::<A>(c, &m)? else { return Ok(()) };
            let al = alphabet(&f, if th { 8 } else if t <= 8 { 4 } else { 3 });
            deviations(&f, &backgrounds(&f, t, if th { 11 } else if t <= 9 { 5 } else { 2 }), &al, 2, |x| agree::<A>(c, &m, &imp, x))
        })
    }));
    // chosen intermediate states and constants
    let mut items = vec![];
    for fl in ["7"].into_iter().chain(REAL) {
        for t in [2usize, 3, 4, 8, 9, 12, 16, 24] {
            for r in (0..2 * t + 3).step_by(if th || t < 8 { 1 } else { 3 }) {
                items.push((fl, t, r));
            }
        }
    }
    v.push(Space::list("chosen-intermediate-states", "item = (field, width, round); inputs computed backwards so that the state at that round (first word plus constant) is each state within one word (narrow: two) of the backgrounds; 2t+3 rounds", items, move |&(fl, t, r), c| {
        let d = if fl == "baby" || fl == "goldi" { 7 } else { 5 };
        with_wfld!(fl, A => {
            let f = A::r();
            let m = Gm { f: f.clone(), t, d, rc: (0..2 * t + 3).map(|k| cval(&f, 5, k as u64)).collect() };
            let Some(imp) = build::<A>(c, &m)? else { return Ok(()) };
            deviations(&f, &backgrounds(&f, t, if th { 11 } else { 5 }), &alphabet(&f, if th { 8 } else { 3 }), if t <= 4 { 2 } else { 1 }, |z| agree::<A>(c, &m, &imp, &m.target(r, z)))
        })
    }));
    let mut items = vec![];
    for fl in ["7", "goldi", "bls"] {
        for t in [2usize, 3, 7, 8, 9, 12] {
            for bg in [0u64, 1, 2, 5] {
                items.push((fl, t, bg));
            }
        }
    }
    v.push(Space::list("constant-deviations", "item = (field, width, background constants); every one or two drawn constants at boundary values; two states", items, move |&(fl, t, bg), c| {
        with_wfld!(fl, A => {
            let f = A::r();
            let r = t + 3;
            let base: Vec<_> = (0..r).map(|k| cval(&f, bg, k as u64)).collect();
            let xs = [backgrounds(&f, t, 5)[4].clone(), vec![f.zero(); t]];
            deviations(&f, &[base], &alphabet(&f, if th { 6 } else { 3 }), 2, |rc| {
                let m = Gm { f: f.clone(), t, d: 3, rc: rc.to_vec() };
                let Some(imp) = build::<A>(c, &m)? else { return Ok(()) };
                xs.iter().try_for_each(|x| agree::<A>(c, &m, &imp, x))
            })
        })
    }));
    v
}

fn main() {
    main_with(|c, t| match c {
        "C03" => c03(t),
        _ => vec![],
    })
}
