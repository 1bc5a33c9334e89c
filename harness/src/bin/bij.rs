//! C05 every permutation is a bijection: complete state spaces over tiny fields, and no two of the
//! enumerated states over the shipped fields with the same image.
use ark_ff::PrimeField;
use num_bigint::BigUint;
use pmc::explore::*;
use pmc::field::with_draws;
use pmc::gen::*;
use pmc::prim::*;
use pmc::refm::*;
use pmc::rnd::nep as rnep;
use pmc::ship;
use pmc::{with_fld, with_wfld};
use std::collections::HashMap;
use std::sync::Arc;
use zkhash::neptune::neptune_params::NeptuneParams;
use zkhash::poseidon::poseidon::Poseidon;
use zkhash::poseidon2::poseidon2::Poseidon2;

fn rank<R: Rf>(f: &R, mut m: Vec<Vec<R::E>>) -> usize {
    let mut r = 0;
    let n = m[0].len();
    for col in 0..n {
        let Some(p) = (r..m.len()).find(|&i| !f.is0(&m[i][col])) else { continue };
        m.swap(r, p);
        for i in r + 1..m.len() {
            if f.is0(&m[i][col]) {
                continue;
            }
            let (a, b) = (m[i][col].clone(), m[r][col].clone());
            for k in col..n {
                m[i][k] = f.sub(&f.mul(&m[i][k], &b), &f.mul(&m[r][k], &a));
            }
        }
        r += 1;
    }
    r
}

fn coprime(p: &BigUint, d: usize) -> bool {
    root_exp(p, d as u64).is_some()
}

/// Candidates of which at least one has to be a bijection (one candidate, unless the code draws the Neptune
/// parameters in a way the model does not know); empty if none has to.
fn instance<A: Fld>(c: &mut Ctx, k: Cfg) -> Result<Vec<Prim<A::F>>, String> {
    let f = A::r();
    let cop = coprime(&f.p(), k.d);
    let ok = match k.kind {
        Kind::P2 => cop && invertible(&f, &p2_external(&f, k.t)) && invertible(&f, &ones_plus_diag(&f, &p2_diag(&f, k.t))),
        Kind::Pos => cop,
        Kind::Gm => true,
        Kind::Nep => {
            if !cop || f.p() == BigUint::from(5u32) {
                return Ok(vec![]);
            }
            let s = rnep::Shape { t: k.t, d: k.d, rf: k.rf, rp: k.rp };
            let b = match rnep::binding(s) {
                Ok(b) => b,
                // Whether the model describes the code is C04's question. Here: among the parameter sets of 60 different
                // streams of draws there is one whose layers are invertible, as long as they follow the draws.
                Err(_) => {
                    let mut v = vec![];
                    for pat in 0..60u64 {
                        let sc: Vec<BigUint> = (0..s.slots() as u64 + 400).map(|j| f.big(&gval(&f, 20 + k.pat * 60 + pat, j))).collect();
                        let p = c.call(|| with_draws(sc, 1u32.into(), || NeptuneParams::<A::F>::new(s.t, s.d, s.rf, s.rp)).0).map_err(|e| format!("{k:?}: {e}"))?;
                        v.push(Params::Nep(Arc::new(p)).instance());
                    }
                    return Ok(v);
                }
            };
            for pat in 0..60u64 {
                let sl: Vec<_> = (0..s.slots()).map(|j| { let v = gval(&f, 20 + k.pat * 60 + pat, j as u64); if j >= s.mu0() && j < s.mu0() + s.t && f.is0(&v) { f.one() } else { v } }).collect();
                let m = s.model(&f, &sl);
                if invertible(&f, &m.me) && invertible(&f, m.mi()) {
                    let sc = s.script(&f, &b, &sl);
                    let p = c.call(|| with_draws(sc, 1u32.into(), || NeptuneParams::<A::F>::new(s.t, s.d, s.rf, s.rp)).0).map_err(|e| format!("{k:?}: {e}"))?;
                    return Ok(vec![Params::Nep(Arc::new(p)).instance()]);
                }
            }
            return Ok(vec![]);
        }
    };
    if !ok {
        return Ok(vec![]);
    }
    c.call(|| params::<A>(k).instance()).map(|i| vec![i]).map_err(|e| format!("{k:?} over {}: {e}", A::NAME))
}

/// every state of F_p^t: no image twice (hence every state is an image)
fn bitmap<A: Fld>(c: &mut Ctx, k: Cfg) -> Result<(), String>
where
    A::R: Rf<E = u64>,
{
    let v = instance::<A>(c, k)?;
    if v.is_empty() {
        c.cov.refusals += 1;
        return Ok(());
    }
    let mut r = Ok(());
    for i in v {
        r = image::<A>(c, k, &i);
        if r.is_ok() {
            break;
        }
    }
    r
}
fn image<A: Fld>(c: &mut Ctx, k: Cfg, i: &Prim<A::F>) -> Result<(), String>
where
    A::R: Rf<E = u64>,
{
    let f = A::r();
    let p = f.neg(&1) + 1;
    let n = upow(p, k.t);
    for plain in [false, true] {
        if plain && !i.has_plain() {
            continue;
        }
        let mut from = vec![u32::MAX; n as usize];
        for s in 0..n {
            let x = nth_state(p, k.t, s);
            let xe: Vec<A::F> = f.encv(&x);
            let y = c.call(|| if plain { i.plain(&xe) } else { i.perm(&xe) }).map_err(|e| format!("{k:?} over {} on {x:?}: {e}", A::NAME))?;
            let y = f.decv(&y);
            if y.len() != k.t {
                return Err(format!("{k:?} over {}: {x:?} is mapped to {} words", A::NAME, y.len()));
            }
            let h = y.iter().rev().fold(0u64, |a, b| a * p + b) as usize;
            c.step(h as u64);
            if from[h] != u32::MAX {
                return Err(format!("{k:?} over {}: {:?} and {x:?} are both mapped to {y:?}", A::NAME, nth_state(p, k.t, from[h] as u64)));
            }
            from[h] = s as u32;
        }
        c.trace(n);
    }
    c.sample(|| format!("{k:?} over {}: {n} states, all images distinct", A::NAME));
    Ok(())
}

/// no two different states of a list with the same image
struct Inj<F: PrimeField> {
    seen: HashMap<Vec<F>, Vec<F>>,
}
impl<F: PrimeField> Inj<F> {
    fn new() -> Self {
        Inj { seen: HashMap::new() }
    }
    fn add(&mut self, c: &mut Ctx, name: &str, i: &Prim<F>, x: &[F]) -> Result<(), String> {
        let y = c.call(|| i.perm(x)).map_err(|e| format!("{name} on {x:?}: {e}"))?;
        let h = y.iter().fold(7, |h, v| mix(h, v.into_bigint().as_ref()[0]));
        c.step(h);
        c.trace(h);
        if y.len() != x.len() {
            return Err(format!("{name}: {} words are mapped to {}", x.len(), y.len()));
        }
        if let Some(o) = self.seen.get(&y) {
            if o != x {
                return Err(format!("{name}: {} and {} have the same image", trunc(&format!("{o:?}")), trunc(&format!("{x:?}"))));
            }
            return Ok(());
        }
        self.seen.insert(y, x.to_vec());
        Ok(())
    }
}
/// generators of the subgroups of small prime order: w with w^q = 1, for every prime q | p-1 up to 13
fn roots<R: Rf>(f: &R) -> Vec<R::E> {
    let pm1 = f.p() - 1u32;
    let mut v = vec![];
    for q in [2u32, 3, 5, 7, 11, 13] {
        if (&pm1 % q) == BigUint::from(0u32) {
            let e = &pm1 / q;
            for g in 2..60u64 {
                let w = f.powb(&f.of64(g), &e);
                if w != f.one() {
                    v.push(w);
                    break;
                }
            }
        }
    }
    v
}
/// states that differ in one word by a factor of small order (and so collide under a power map that is not a permutation)
fn rooted<R: Rf>(f: &R, x: &[R::E], pos: &[usize]) -> Vec<Vec<R::E>> {
    let mut v = vec![x.to_vec()];
    for w in roots(f) {
        for &i in pos {
            let mut y = x.to_vec();
            for _ in 0..2 {
                y[i] = f.mul(&y[i], &w);
                v.push(y.clone());
            }
        }
    }
    v
}

fn c05(tier: Tier) -> Vec<Space> {
    let th = tier == Tier::Thorough;
    let mut v = vec![];
    let mut items = vec![];
    for (kind, spec) in [
        (Kind::P2, vec![("257", 2usize), ("17", 2), ("13", 2), ("11", 2), ("7", 2), ("5", 2), ("3", 2), ("17", 3), ("13", 3), ("11", 3), ("7", 3), ("5", 3), ("3", 3), ("17", 4), ("13", 4), ("11", 4), ("7", 4), ("5", 4), ("3", 4), ("3", 8), ("5", 8), ("3", 12)]),
        (Kind::Pos, vec![("257", 2), ("17", 2), ("13", 2), ("11", 2), ("7", 2), ("5", 2), ("3", 2), ("17", 3), ("11", 3), ("7", 3), ("5", 3), ("3", 3), ("13", 4), ("7", 4), ("5", 5), ("3", 6), ("3", 8), ("3", 9)]),
        (Kind::Gm, vec![("257", 2), ("13", 2), ("7", 2), ("3", 2), ("17", 3), ("7", 3), ("7", 4), ("11", 4), ("5", 5), ("7", 5), ("3", 6), ("3", 7), ("5", 7), ("3", 8), ("5", 8), ("3", 9), ("3", 10), ("3", 11), ("3", 12)]),
        (Kind::Nep, vec![("257", 2), ("17", 2), ("13", 2), ("7", 2), ("3", 2), ("17", 4), ("13", 4), ("11", 4), ("7", 4), ("3", 4), ("7", 6), ("3", 6), ("3", 8), ("3", 10), ("3", 12)]),
    ] {
        for (fl, t) in spec {
            let size = (fl.parse::<f64>().unwrap()).powi(t as i32);
            for (rf, rp) in match kind {
                Kind::Gm => vec![(1, 0), (2, 0), (3, 0), (t, 0), (t + 1, 0), (2 * t + 1, 0), (3 * t + 2, 0)],
                Kind::Pos => vec![(0, 1), (2, 1), (4, 3), (8, 7)],
                _ => vec![(0, 0), (2, 0), (0, 1), (2, 1), (4, 3), (8, 7)],
            } {
                for d in if kind == Kind::P2 { vec![3usize, 5, 7, 11] } else { vec![3, 5, 7] } {
                    for pat in [0u64, 3, 5] {
                        let heavy = size * (rf + rp) as f64 * if t > 8 { 2.0 } else { 1.0 };
                        if !th && heavy > 2e5 && (pat != 5 || d != 5) || heavy > 2e6 && (pat != 5 || (d != 7 && !th)) {
                            continue;
                        }
                        items.push((fl, Cfg { kind, t, d, rf, rp, pat }));
                    }
                }
            }
        }
    }
    // long items first
    items.sort_by_key(|(fl, k)| std::cmp::Reverse((fl.parse::<f64>().unwrap().powi(k.t as i32) * (k.rf + k.rp + 1) as f64) as u64));
    v.push(Space::list("complete-state-spaces", "item = (tiny field, primitive, width, degree, rounds, constants) with the bijectivity conditions met (others are counted as refusals); every state of F_p^t through every evaluation", items, |&(fl, k), c| {
        match fl {
            "3" => bitmap::<X3>(c, k), "5" => bitmap::<X5>(c, k), "7" => bitmap::<X7>(c, k), "11" => bitmap::<X11>(c, k),
            "13" => bitmap::<X13>(c, k), "17" => bitmap::<X17>(c, k), _ => bitmap::<X257>(c, k),
        }
    }));

    let mut items = vec![];
    for fl in REAL {
        for kind in KINDS {
            for t in match kind { Kind::P2 => vec![2usize, 3, 4, 8, 12, 16, 20, 24], Kind::Pos => vec![2, 3, 4, 5, 8, 12], Kind::Gm => vec![2, 3, 4, 7, 8, 9, 12, 16, 24], Kind::Nep => vec![2, 4, 6, 8, 12, 16, 24] } {
                for (rf, rp) in match kind { Kind::Gm => vec![(t + 1, 0), (3 * t, 0)], Kind::Pos => vec![(2, 1), (4, 3)], _ => vec![(2, 0), (0, 1), (4, 3)] } {
                    items.push((fl, Cfg { kind, t, d: if fl == "baby" || fl == "goldi" { 7 } else { 5 }, rf, rp, pat: 5 }));
                }
            }
        }
    }
    v.push(Space::list("shipped-fields", "item = (shipped field, primitive, width, rounds); all states within two boundary words of several backgrounds and their multiples by roots of unity of small order: no image twice", items, move |&(fl, k), c| {
        with_wfld!(fl, A => {
            let f = A::r();
            // with draws of a large field every candidate will do
            let Some(i) = instance::<A>(c, k)?.into_iter().next() else { return Ok(()) };
            let name = format!("{k:?} over {fl}");
            let mut inj = Inj::new();
            let nb = if th { 11 } else { 5 };
            deviations(&f, &backgrounds(&f, k.t, nb), &alphabet(&f, if th { 5 } else { 3 }), 2, |x| inj.add(c, &name, &i, &f.encv::<<A as Fld>::F>(x)))?;
            for x in backgrounds(&f, k.t, nb) {
                for y in rooted(&f, &x, &(0..k.t).collect::<Vec<_>>()) {
                    inj.add(c, &name, &i, &f.encv::<<A as Fld>::F>(&y))?;
                }
            }
            c.sample(|| format!("{name}: {} states, all images distinct", inj.seen.len()));
            Ok(())
        })
    }));

    let mut items = vec![];
    for fl in REAL {
        for t in (2..=24usize).step_by(2) {
            for (rf, rp) in [(0usize, 0usize), (0, 1), (2, 0)] {
                for pat in 0..if th { 8u64 } else { 2 } {
                    items.push((fl, t, rf, rp, pat));
                }
            }
        }
    }
    v.push(Space::list("neptune-layers", "item = (shipped field, width, rounds, stream of distinct draws); the images of all states with at most one word off zero span the whole space, as they must if every layer is invertible", items, move |&(fl, t, rf, rp, pat), c| {
        with_wfld!(fl, A => {
            let f = A::r();
            let d = if fl == "baby" || fl == "goldi" { 7 } else { 5 };
            let sc: Vec<BigUint> = (0..20_000u64).map(|j| f.big(&gval(&f, 90 + pat, j))).collect();
            let name = format!("Neptune over {fl}, t={t}, rf={rf}, rp={rp}, stream {pat}");
            let p = c.call(|| with_draws(sc, 1u32.into(), || NeptuneParams::<<A as Fld>::F>::new(t, d, rf, rp)).0).map_err(|e| format!("{name}: {e}"))?;
            let i: Prim<<A as Fld>::F> = Params::Nep(Arc::new(p)).instance();
            let mut out = vec![];
            let mut x = vec![f.zero(); t];
            let mut eval = |c: &mut Ctx, x: &[<<A as Fld>::R as Rf>::E]| -> Result<(), String> {
                let y = c.call(|| i.perm(&f.encv::<<A as Fld>::F>(x))).map_err(|e| format!("{name}: {e}"))?;
                if y.len() != t { return Err(format!("{name}: {} words", y.len())); }
                let y = f.decv(&y);
                let h = f.hash(&y);
                c.step(h);
                c.trace(h);
                out.push(y);
                Ok(())
            };
            eval(c, &x)?;
            for w in 0..t {
                for k in 1..=4u64 {
                    x[w] = f.of64(k);
                    eval(c, &x)?;
                }
                x[w] = f.zero();
            }
            let rows: Vec<Vec<_>> = out[1..].iter().map(|y| (0..t).map(|j| f.sub(&y[j], &out[0][j])).collect()).collect();
            let r = rank(&f, rows);
            if r != t {
                return Err(format!("{name}: the images span only {r} of {t} dimensions, so the permutation is not onto"));
            }
            c.sample(|| format!("{name}: images span {r} dimensions"));
            Ok(())
        })
    }));

    let mut items = vec![];
    for i in ship::p2::INSTS.iter() {
        items.push((Kind::P2, i));
    }
    for i in ship::pos::INSTS.iter() {
        items.push((Kind::Pos, i));
    }
    v.push(Space::list("shipped-instances", "item = shipped instance; its exported matrices are invertible; all states within one or two boundary words of several backgrounds, and states whose words before the first S-box layer differ by roots of unity of small order (colliding exactly if the power map is not a permutation): no image twice", items, move |&(kind, s), c| {
        with_fld!(s.fl, A => {
            let f = A::r();
            let name = format!("{kind:?} instance {}", s.name);
            let (imp, mats, rc0, first) = match kind {
                Kind::P2 => {
                    let (p, d, m, r) = c.call(|| ship::p2::tables::<A>(s.name)).map_err(|e| format!("{name}: {e}"))?;
                    let d = f.decv(&d);
                    if d.len() != s.t { return Err(format!("{name}: diagonal of {} words", d.len())); }
                    (Prim::P2(Poseidon2::new(&p)), vec![f.decm(&m), ones_plus_diag(&f, &d), p2_external(&f, s.t)], f.decv(&r[0]), p2_external(&f, s.t))
                }
                _ => {
                    let (p, m, r) = c.call(|| ship::pos::tables::<A>(s.name)).map_err(|e| format!("{name}: {e}"))?;
                    (Prim::Pos(Poseidon::new(&p)), vec![f.decm(&m)], f.decv(&r[0]), ident(&f, s.t))
                }
            };
            for m in &mats {
                if m.len() != s.t || m.iter().any(|r| r.len() != s.t) || !invertible(&f, m) {
                    return Err(format!("{name}: a linear layer is not an invertible {0}x{0} matrix", s.t));
                }
            }
            if imp.t() != s.t { return Err(format!("{name}: width {}", imp.t())); }
            let mut inj = Inj::new();
            let enc = |x: &[<<A as Fld>::R as Rf>::E]| f.encv::<<A as Fld>::F>(x);
            let k = if s.t <= 4 || th && s.t <= 12 { 2 } else { 1 };
            deviations(&f, &backgrounds(&f, s.t, if th { 11 } else { 6 }), &alphabet(&f, if th { 6 } else { 4 }), k, |x| inj.add(c, &name, &imp, &enc(x)))?;
            let inv = mat_inv(&f, &first).unwrap();
            for z in backgrounds(&f, s.t, if th { 11 } else { 5 }) {
                for y in rooted(&f, &z, &(0..s.t).collect::<Vec<_>>()) {
                    let w: Vec<_> = (0..s.t).map(|i| f.sub(&y[i], &rc0[i])).collect();
                    inj.add(c, &name, &imp, &enc(&mat_vec(&f, &inv, &w)))?;
                }
            }
            c.sample(|| format!("{name}: {} states, all images distinct", inj.seen.len()));
            Ok(())
        })
    }));
    v
}

fn main() {
    main_with(|c, t| match c {
        "C05" => c05(t),
        _ => vec![],
    })
}
