//! C04 Neptune against its specification, for every outcome of the parameter draws.
use pmc::explore::*;
use pmc::rnd::nep::{binding, construct, Shape};
use pmc::gen::*;
use pmc::refm::*;
use pmc::with_wfld;
use zkhash::neptune::neptune::Neptune;

fn build<A: Fld>(c: &mut Ctx, s: Shape, slots: &[<A::R as Rf>::E], f: &A::R) -> Result<Option<(Neptune<A::F>, Nep<A::R>)>, String> {
    let b = match binding(s) {
        Ok(b) => b,
        Err(e) if e == "unknown" => {
            c.sample(|| "SKIPPED: draw order not recognised at a large width".into());
            return Ok(None);
        }
        Err(e) => return Err(format!("Neptune {s:?}: {e}")),
    };
    let sc = s.script(f, &b, slots);
    let (i, _) = c.call(|| construct::<A>(s, sc)).map_err(|e| format!("NeptuneParams::new({s:?}): {e}"))?;
    if i.get_t() != s.t {
        return Err(format!("get_t() = {} for {s:?}", i.get_t()));
    }
    Ok(Some((i, s.model(f, slots))))
}

fn agree<A: Fld>(c: &mut Ctx, m: &Nep<A::R>, imp: &Neptune<A::F>, x: &[<A::R as Rf>::E]) -> Result<(), String> {
    let f = &m.f;
    let want = m.perm(x, &mut CtxObs(c, f));
    let xe: Vec<A::F> = f.encv(x);
    let desc = || format!("Neptune over {} t={} d={} rf={} rp={} gamma={} mu={} input {}", A::NAME, m.t, m.d, m.rf, m.rp, f.big(&m.gamma), trunc(&show(f, &m.mu)), show(f, x));
    let y = c.call(|| imp.permutation(&xe)).map_err(|e| format!("{}: {}", desc(), e))?;
    let got = f.decv(&y);
    c.trace(f.hash(&got));
    c.sample(|| format!("{} -> {}", desc(), show(f, &got)));
    if got != want {
        return Err(format!("{}: got {} want {}", desc(), show(f, &got), show(f, &want)));
    }
    Ok(())
}

/// parameter values of a pattern, diagonal never zero
fn slots<R: Rf>(f: &R, s: Shape, pat: u64) -> Vec<R::E> {
    (0..s.slots())
        .map(|k| {
            let v = cval(f, pat, k as u64);
            if k >= s.mu0() && k < s.mu0() + s.t && f.is0(&v) {
                f.one()
            } else {
                v
            }
        })
        .collect()
}

fn full<A: Fld>(c: &mut Ctx, s: Shape, sl: &[u64], f: &A::R) -> Result<(), String>
where
    A::R: Rf<E = u64>,
{
    let p = f.neg(&1) + 1;
    let Some((imp, m)) = build::<A>(c, s, sl, f)? else { return Ok(()) };
    for k in 0..upow(p, s.t) {
        agree::<A>(c, &m, &imp, &nth_state(p, s.t, k))?;
    }
    Ok(())
}

fn c04(tier: Tier) -> Vec<Space> {
    let th = tier == Tier::Thorough;
    let mut v = vec![];
    // every outcome of every draw (the diagonal's over the non-zero elements)
    let mut items = vec![];
    for (s, n) in [
        (Shape { t: 2, d: 3, rf: 0, rp: 1 }, 3u64),
        (Shape { t: 2, d: 5, rf: 2, rp: 0 }, 3),
        (Shape { t: 2, d: 3, rf: 2, rp: 1 }, 3),
        (Shape { t: 4, d: 3, rf: 0, rp: 1 }, 3),
        (Shape { t: 4, d: 5, rf: 2, rp: 0 }, 3),
        (Shape { t: 6, d: 3, rf: 0, rp: 0 }, 2),
        (Shape { t: 2, d: 7, rf: 0, rp: 0 }, 5),
    ] {
        let free = s.slots() - s.t;
        let total = n.pow(free as u32) * (n - 1).max(1).pow(s.t as u32);
        if !th && total > 1 << 18 {
            // quick: constants of the pattern, everything else free
            let tot = n.pow((free - s.rc()) as u32) * (n - 1).pow(s.t as u32);
            for b in 0..tot.div_ceil(64) {
                items.push((s, n, true, b * 64, tot));
            }
        } else {
            for b in 0..total.div_ceil(64) {
                items.push((s, n, false, b * 64, total));
            }
        }
    }
    v.push(Space::list("all-draws", "item = block of 64 outcomes of the random draws over F_3 (F_5; 0/1 matrices at width 6), all outcomes enumerated; every state", items, |&(s, n, fix, from, total), c| {
        for k in from..(from + 64).min(total) {
            let mut g = Dig(k);
            let sl: Vec<u64> = (0..s.slots())
                .map(|i| {
                    if i >= s.mu0() && i < s.mu0() + s.t {
                        1 + g.take((n - 1).max(1))
                    } else if fix && i < s.rc() {
                        (i as u64 * i as u64 + 1) % n
                    } else {
                        g.take(n)
                    }
                })
                .collect();
            match n {
                5 => full::<X5>(c, s, &sl, &X5::r())?,
                _ => {
                    if s.t >= 6 {
                        let f = X3::r();
                        let Some((imp, m)) = build::<X3>(c, s, &sl, &f)? else { return Ok(()) };
                        for x in backgrounds(&f, s.t, 6) {
                            agree::<X3>(c, &m, &imp, &x)?;
                        }
                    } else {
                        full::<X3>(c, s, &sl, &X3::r())?
                    }
                }
            }
        }
        Ok(())
    }));
    // complete state spaces
    let mut items = vec![];
    for (fl, t) in [("17", 2usize), ("257", 2), ("5", 4), ("7", 4), ("11", 4), ("3", 6), ("3", 8)] {
        for d in [3usize, 5, 7] {
            for (rf, rp) in [(0, 0), (2, 0), (0, 1), (0, 2), (2, 1), (4, 3)] {
                for pat in [0u64, 3, 5, 2] {
                    if !th && (fl == "257" || fl == "11") && (d != 5 || pat != 5) {
                        continue;
                    }
                    items.push((fl, Shape { t, d, rf, rp }, pat));
                }
            }
        }
    }
    if th {
        for (rf, rp) in [(2, 1), (4, 2)] {
            items.push(("5", Shape { t: 8, d: 3, rf, rp }, 5));
            items.push(("3", Shape { t: 10, d: 5, rf, rp }, 5));
            items.push(("3", Shape { t: 12, d: 5, rf, rp }, 5));
            items.push(("17", Shape { t: 4, d: 3, rf, rp }, 5));
        }
    }
    v.push(Space::list("full-state-space", "item = (tiny field, shape, parameter pattern); every state of F_p^t", items, |&(fl, s, pat), c| {
        macro_rules! go { ($a:ident) => {{ let f = $a::r(); full::<$a>(c, s, &slots(&f, s, pat), &f) }} }
        match fl { "3" => go!(X3), "5" => go!(X5), "7" => go!(X7), "11" => go!(X11), "17" => go!(X17), _ => go!(X257) }
    }));
    // shapes
    let mut items = vec![];
    let rps: Vec<usize> = if th { (0..=80).chain([100, 127, 128, 129, 200, 255, 256, 257]).collect() } else { (0..=6).chain([34, 38, 43, 64, 68, 69, 74, 128]).collect() };
    for t in (2..=24usize).step_by(2).chain([32]) {
        for rf in if th { vec![0usize, 2, 4, 6, 8, 10, 16, 32] } else { vec![0, 2, 4, 6, 8] } {
            for &rp in &rps {
                if !th && t > 8 && t % 4 != 0 && rp > 4 {
                    continue;
                }
                items.push((t, rf, rp));
            }
        }
    }
    v.push(Space::list("shapes", "item = (even width 2..24 and 32, external rounds, internal rounds); every degree over BabyBear; three states", items, |&(t, rf, rp), c| {
        let f = XBabyBear::r();
        for d in [3, 5, 7] {
            let s = Shape { t, d, rf, rp };
            let Some((imp, m)) = build::<XBabyBear>(c, s, &slots(&f, s, 5), &f)? else { continue };
            for x in backgrounds(&f, t, 5).iter().step_by(2) {
                agree::<XBabyBear>(c, &m, &imp, x)?;
            }
        }
        Ok(())
    }));
    let mut items = vec![];
    for t in [2usize, 4, 6, 8] {
        for (rf, rp) in [(0usize, 255usize), (6, 256), (2, 257), (2, 511), (6, 513), (0, 1025), (2, 2049), (254, 1), (256, 1), (258, 2), (514, 0)] {
            items.push((t, rf, rp));
        }
    }
    items.extend([(2, 2, 32_769), (2, 0, 65_537), (4, 2, 65_535), (4, 2, 65_537)]);
    v.push(Space::list("many-rounds", "item = (width, external rounds, internal rounds), up to 65539 rounds (indices of 8 and 16 bits wrap); one state over BabyBear", items, |&(t, rf, rp), c| {
        let f = XBabyBear::r();
        let s = Shape { t, d: 7, rf, rp };
        let Some((imp, m)) = build::<XBabyBear>(c, s, &slots(&f, s, 5), &f)? else { return Ok(()) };
        agree::<XBabyBear>(c, &m, &imp, &backgrounds(&f, t, 5)[4])
    }));
    // deviations over every field
    let mut items = vec![];
    for fl in ["3", "5", "7", "17", "257"].into_iter().chain(REAL) {
        for t in [2usize, 4, 6, 8, 12, 16, 20, 24] {
            for b in 0..if th { 11 } else { 5 } {
                items.push((fl, t, b));
            }
        }
    }
    v.push(Space::list("two-deviations", "item = (field, width, background); every state with at most two words changed to boundary values", items, move |&(fl, t, b), c| {
        let d = if fl == "baby" || fl == "goldi" { 7 } else { 5 };
        with_wfld!(fl, A => {
            let f = A::r();
            let s = Shape { t, d, rf: 4, rp: 3 };
            let Some((imp, m)) = build::<A>(c, s, &slots(&f, s, 5), &f)? else { return Ok(()) };
            let al = alphabet(&f, if th { 8 } else if t <= 4 { 8 } else { 3 });
            deviations(&f, &[backgrounds(&f, t, b + 1).pop().unwrap()], &al, 2, |x| agree::<A>(c, &m, &imp, x))
        })
    }));
    // chosen intermediate states
    let mut items = vec![];
    for fl in REAL {
        for t in [2usize, 4, 6, 8, 12] {
            for r in 0..7 {
                items.push((fl, t, r));
            }
        }
    }
    v.push(Space::list("chosen-intermediate-states", "item = (field, width, round); inputs computed backwards so that the S-box inputs of that round are each state within one (narrow: two) words of the backgrounds", items, move |&(fl, t, r), c| {
        let d = if fl == "baby" || fl == "goldi" { 7 } else { 5 };
        with_wfld!(fl, A => {
            let f = A::r();
            let s = Shape { t, d, rf: 4, rp: 3 };
            let Some((imp, m)) = build::<A>(c, s, &slots(&f, s, 5), &f)? else { return Ok(()) };
            deviations(&f, &backgrounds(&f, t, if th { 11 } else { 5 }), &alphabet(&f, if th { 8 } else { 3 }), if t <= 4 { 2 } else { 1 }, |z| {
                agree::<A>(c, &m, &imp, &m.back(r, z).expect("linear layers of this pattern are invertible"))
            })
        })
    }));
    let mut items = vec![];
    for fl in REAL {
        for t in [2usize, 4, 6, 8, 12] {
            for r in if fl == "baby" || fl == "goldi" { vec![0, 1, 2, 3, 5] } else if t <= 4 { vec![0, 2, 5] } else { vec![0, 2] } {
                items.push((fl, t, r));
            }
        }
    }
    v.push(Space::list("word-boundaries", "item = (field, width, round); inputs computed backwards so that one S-box input of that round (first, second or last; narrow: any) is each of 45 values around powers of two, limb and modulus boundaries", items, |&(fl, t, r), c| {
        let d = if fl == "baby" || fl == "goldi" { 7 } else { 5 };
        with_wfld!(fl, A => {
            let f = A::r();
            let s = Shape { t, d, rf: 4, rp: 3 };
            let Some((imp, m)) = build::<A>(c, s, &slots(&f, s, 5), &f)? else { return Ok(()) };
            word_boundaries(&f, t, |z| agree::<A>(c, &m, &imp, &m.back(r, z).expect("linear layers of this pattern are invertible")))
        })
    }));
    let mut items = vec![];
    for fl in REAL {
        let small = fl == "baby" || fl == "goldi";
        for t in [2usize, 4, 6, 8, 12, 16] {
            if !small && !th && t > 8 {
                continue;
            }
            for r in if th { (0..8).collect() } else if small { vec![0, 2, 3, 7] } else { vec![0, 2] } {
                items.push((fl, t, r));
            }
        }
    }
    v.push(Space::list("linear-layers", "item = (field, width, round or first linear layer); inputs computed backwards so that the linear layer of that round is applied to each background, each state with one boundary word, and each state whose words (all, or every second) add up to a total at which a lazily reduced sum carries", items, move |&(fl, t, r), c| {
        let d = if fl == "baby" || fl == "goldi" { 7 } else { 5 };
        with_wfld!(fl, A => {
            let f = A::r();
            let s = Shape { t, d, rf: 4, rp: 3 };
            let Some((imp, m)) = build::<A>(c, s, &(0..s.slots()).map(|k| gval(&f, 5, k as u64)).collect::<Vec<_>>(), &f)? else { return Ok(()) };
            layer_inputs(&f, t, &[1, 2], th, |y| {
                agree::<A>(c, &m, &imp, &if r == 7 { y.to_vec() } else { m.layer(r, y).expect("linear layers of this pattern are invertible") })
            })
        })
    }));
    let mut items = vec![];
    for fl in REAL {
        for t in [2usize, 4, 6, 8, 10] {
            for r in if th { vec![0, 1, 5, 6] } else { vec![0, 5] } {
                items.push((fl, t, r));
            }
        }
    }
    v.push(Space::list("squares", "item = (field, width, external round); inputs computed backwards so that the two values squared by the S-box of one word pair of that round (the last; width 2: the only one) are each pair of 45 boundary values (255-bit fields: 24)", items, move |&(fl, t, r), c| {
        let d = if fl == "baby" || fl == "goldi" { 7 } else { 5 };
        with_wfld!(fl, A => {
            let f = A::r();
            let s = Shape { t, d, rf: 4, rp: 3 };
            let Some((imp, m)) = build::<A>(c, s, &slots(&f, s, 5), &f)? else { return Ok(()) };
            let al = alphabet(&f, if th || d == 7 { 64 } else { 24 });
            let mut y = backgrounds(&f, t, 5).pop().unwrap();
            for z in &al {
                for w in &al {
                    (y[t - 2], y[t - 1]) = m.sbox2_inner(z, w);
                    agree::<A>(c, &m, &imp, &m.back(r, &y).expect("linear layers of this pattern are invertible"))?;
                }
            }
            Ok(())
        })
    }));
    let items: Vec<(usize, usize, usize)> = (26..=40usize).step_by(2).chain([48, 62, 64, 66, 96, 126, 128, 130]).flat_map(|t| [(t, 0usize, 0usize), (t, 2, 1), (t, 4, 3)]).collect();
    v.push(Space::list("wide", "item = (even width 26 to 130, external rounds, internal rounds); two states over BabyBear", items, |&(t, rf, rp), c| {
        let f = XBabyBear::r();
        let s = Shape { t, d: 7, rf, rp };
        let Some((imp, m)) = build::<XBabyBear>(c, s, &slots(&f, s, 5), &f)? else { return Ok(()) };
        for x in [1, 4] {
            agree::<XBabyBear>(c, &m, &imp, &backgrounds(&f, t, 5)[x])?;
        }
        Ok(())
    }));
    // every single parameter at boundary values
    let mut items = vec![];
    for fl in ["7", "goldi", "bls"] {
        for t in [2usize, 4, 6, 8] {
            for bg in [1u64, 2, 5] {
                items.push((fl, t, bg));
            }
        }
    }
    v.push(Space::list("parameter-deviations", "item = (field, width, background parameters); every one drawn parameter (constant, matrix entry, diagonal, gamma) at each boundary value; two states", items, move |&(fl, t, bg), c| {
        with_wfld!(fl, A => {
            let f = A::r();
            let s = Shape { t, d: 5, rf: 2, rp: 2 };
            let base = slots(&f, s, bg);
            let xs = [backgrounds(&f, t, 5)[4].clone(), vec![f.zero(); t]];
            for i in 0..s.slots() {
                for a in alphabet(&f, if th { 12 } else { 4 }) {
                    if i >= s.mu0() && i < s.mu0() + t && f.is0(&a) { continue; }
                    let mut sl = base.clone();
                    sl[i] = a;
                    let Some((imp, m)) = build::<A>(c, s, &sl, &f)? else { return Ok(()) };
                    for x in &xs { agree::<A>(c, &m, &imp, x)?; }
                }
            }
            Ok(())
        })
    }));
    // a zero drawn for the diagonal is drawn again
    let mut items = vec![];
    for t in [2usize, 4, 6, 8, 12] {
        for i in 0..t {
            for z in 1..=3 {
                items.push((t, i, z));
            }
        }
    }
    v.push(Space::list("zero-diagonal-draws", "item = (width, diagonal entry, number of zeros drawn first); the zeros are skipped", items, |&(t, i, z), c| {
        let f = X17::r();
        let s = Shape { t, d: 3, rf: 2, rp: 2 };
        let sl = slots(&f, s, 5);
        let b = match binding(s) { Ok(b) => b, Err(e) if e == "unknown" => return Ok(()), Err(e) => return Err(e) };
        let mut sc = s.script(&f, &b, &sl);
        for _ in 0..z {
            sc.insert(b[s.mu0() + i], 0u32.into());
        }
        let (imp, _) = c.call(|| construct::<X17>(s, sc))?;
        let m = s.model(&f, &sl);
        for x in backgrounds(&f, t, 6) {
            agree::<X17>(c, &m, &imp, &x).map_err(|e| format!("{z} zero draws before diagonal entry {i}: {e}"))?;
        }
        Ok(())
    }));
    v
}

fn main() {
    main_with(|c, t| match c {
        "C04" => c04(t),
        _ => vec![],
    })
}
