//! C08 shipped GMiMC and Neptune instances.
//! Their constants are drawn when an instance is first used; the explorer supplies the operating
//! system's entropy, so it knows the draws: a thread with the same entropy draws the same scalars.
use pmc::entropy::on_fresh_thread;
use pmc::explore::*;
use pmc::gen::*;
use pmc::refm::*;
use pmc::rnd;
use pmc::rnd::nep::Shape;
use std::sync::Arc;
use zkhash::fields::utils::random_scalar;
use zkhash::gmimc::{gmimc::Gmimc, gmimc_params::GmimcParams};
use zkhash::gmimc::{gmimc_instance_babybear::*, gmimc_instance_bls12::*, gmimc_instance_bn256::*, gmimc_instance_goldilocks::*, gmimc_instance_pallas::*, gmimc_instance_vesta::*};
use zkhash::neptune::{neptune::Neptune, neptune_instances::*, neptune_params::NeptuneParams};

pmc::interpose!();

/// the first n scalars a thread with this entropy draws
fn stream<A: Fld>(seed: u64, n: usize) -> Result<Vec<<A::R as Rf>::E>, String> {
    let f = A::r();
    let v: Vec<A::F> = on_fresh_thread(seed, || (0..n).map(|_| random_scalar::<A::F>()).collect())?;
    Ok(f.decv(&v))
}
fn ceil_2_log(p: &num_bigint::BigUint, d: u64) -> usize {
    let p2 = p * p;
    let (mut k, mut x) = (0, num_bigint::BigUint::from(1u32));
    while x < p2 {
        x *= d;
        k += 1;
    }
    k
}
/// slots of the model from the stream, through the learned draw order
fn bound<A: Fld>(b: &[usize], seed: u64) -> Result<Vec<<A::R as Rf>::E>, String> {
    let n = b.iter().max().unwrap() + 1;
    let s = stream::<A>(seed, n)?;
    Ok(b.iter().map(|&j| s[j].clone()).collect())
}
fn inputs<R: Rf>(f: &R, t: usize, tier: Tier) -> Vec<Vec<R::E>> {
    let (nb, na) = if tier == Tier::Thorough { (11, 6) } else { (5, 3) };
    let mut v = vec![];
    let _ = deviations(f, &backgrounds(f, t, nb), &alphabet(f, na), 1, |x| {
        v.push(x.to_vec());
        Ok(())
    });
    v
}

type GRun<A> = (Vec<Vec<<A as Fld>::F>>, Vec<Vec<<A as Fld>::F>>);
fn gm_eval<A: Fld>(c: &mut Ctx, p: &Arc<GmimcParams<A::F>>, xs: &[Vec<A::F>]) -> Result<GRun<A>, String> {
    let g = Gmimc::new(p);
    c.call(|| (xs.iter().map(|x| g.permutation(x)).collect(), xs.iter().map(|x| g.permutation_not_opt(x)).collect()))
}

/// whether the draws give the parameters: one of these states agrees (by accident: no)
fn probes<R: Rf>(f: &R, t: usize) -> Vec<Vec<R::E>> {
    (0..4).map(|k| (0..t).map(|i| if k == 0 { f.of64(i as u64 + 2) } else { cval(f, 9, (k * 1000 + i) as u64) }).collect()).collect()
}
fn gmimc<A: Fld>(c: &mut Ctx, name: &str, get: &(dyn Fn() -> Arc<GmimcParams<A::F>> + Sync), t: usize, d: usize, rounds: usize) -> Result<(), String> {
    let f = A::r();
    let seed = hash_str(name);
    let want_min = (2 + 2 * (t + t * t)).max(ceil_2_log(&f.p(), d as u64) + 2 * t);
    assert!(rounds >= want_min, "{name}: table of expected shapes");
    let p = on_fresh_thread(seed, get).map_err(|e| format!("{name}: construction failed: {e}"))?;
    if (p.get_t(), p.get_rounds()) != (t, rounds) || Gmimc::new(&p).get_t() != t {
        return Err(format!("{name}: width {} and {} rounds instead of {t} and {rounds}", p.get_t(), p.get_rounds()));
    }
    let xs = inputs(&f, t, c.tier);
    let xe: Vec<Vec<A::F>> = xs.iter().map(|x| f.encv(x)).collect();
    let (y1, y2) = gm_eval::<A>(c, &p, &xe).map_err(|e| format!("{name}: {e}"))?;
    for (k, x) in xs.iter().enumerate() {
        c.trace(f.hash(&f.decv(&y1[k])));
        if y1[k] != y2[k] {
            return Err(format!("{name}: the default and the plain evaluation of {} differ", show(&f, x)));
        }
    }
    // does the stream give the constants at all? decided on shapes that are not shipped
    let probe = |t: usize, r: usize| -> Result<bool, String> {
        let Ok(b) = rnd::gm::binding(t, d, r) else { return Ok(false) };
        let m = Gm { f: f.clone(), t, d, rc: bound::<A>(&b, seed ^ 1)? };
        let p = on_fresh_thread(seed ^ 1, || Arc::new(GmimcParams::<A::F>::new(t, d, r)))?;
        Ok(probes(&f, t).iter().any(|x| guarded(|| f.decv(&Gmimc::new(&p).permutation_not_opt(&f.encv(x)))) == Ok(m.perm(x, &mut NoObs))))
    };
    let modelled = probe(3, 4)? && probe(9, 5)?;
    let b = rnd::gm::binding(t, d, rounds);
    if let (true, Ok(b)) = (modelled, b) {
        let m = Gm { f: f.clone(), t, d, rc: bound::<A>(&b, seed)? };
        for (k, x) in xs.iter().enumerate() {
            let want = m.perm(x, &mut CtxObs(c, &f));
            let got = f.decv(&y1[k]);
            c.sample(|| format!("{name} d={d} rounds={rounds} first constants {} input {} -> {}", show(&f, &m.rc[..2]), show(&f, x), show(&f, &got)));
            if got != want {
                return Err(format!("{name}: input {}: got {} want {} (width {t}, degree {d}, {rounds} rounds, the drawn constants)", show(&f, x), show(&f, &got), show(&f, &want)));
            }
        }
        // boundary words, and S-box outputs at carries
        let small = f.p().bits() <= 64 || c.tier == Tier::Thorough;
        let mut go = |x: Vec<<A::R as Rf>::E>| {
            let want = m.perm(&x, &mut CtxObs(c, &f));
            let (y1, y2) = gm_eval::<A>(c, &p, &[f.encv(&x)]).map_err(|e| format!("{name}: {e}"))?;
            c.trace(f.hash(&want));
            if f.decv(&y1[0]) != want || f.decv(&y2[0]) != want {
                return Err(format!("{name}: input {}: got {} and {} want {}", show(&f, &x), show(&f, &f.decv(&y1[0])), show(&f, &f.decv(&y2[0])), show(&f, &want)));
            }
            Ok(())
        };
        for &r in &[0, 2 * t, rounds - t][..if small { 3 } else { 2 }] {
            word_boundaries(&f, t, |z| go(m.target(r, z)))?;
            if t > 2 {
                layer_inputs(&f, t - 1, &[1], false, |w| {
                    let mut w = w.to_vec();
                    w.push(cval(&f, 6, 1));
                    go(m.powers(r, &w).expect("the degree is coprime to p - 1"))
                })?;
            }
        }
        // chosen intermediate states
        for r in 0..rounds {
            if c.tier == Tier::Quick && rounds > 200 && r >= t && r + t < rounds && r % (rounds / 40) != 0 {
                continue;
            }
            for z in special_states(&f, t, c.tier == Tier::Quick) {
                let x = m.target(r, &z);
                let want = m.perm(&x, &mut CtxObs(c, &f));
                let (y1, y2) = gm_eval::<A>(c, &p, &[f.encv(&x)]).map_err(|e| format!("{name}: {e}"))?;
                c.trace(f.hash(&want));
                if f.decv(&y1[0]) != want || f.decv(&y2[0]) != want {
                    return Err(format!("{name}: input {} (special at round {r}): got {} and {} want {}", show(&f, &x), show(&f, &f.decv(&y1[0])), show(&f, &f.decv(&y2[0])), show(&f, &want)));
                }
            }
        }
    } else {
        c.sample(|| format!("{name}: draws not visible; compared with a fresh instance of the documented shape under the same entropy"));
        let q = on_fresh_thread(seed, || Arc::new(GmimcParams::<A::F>::new(t, d, rounds)))?;
        let (z1, _) = gm_eval::<A>(c, &q, &xe)?;
        let q2 = on_fresh_thread(seed, || Arc::new(GmimcParams::<A::F>::new(t, d, rounds)))?;
        let (z2, _) = gm_eval::<A>(c, &q2, &xe)?;
        if z1 == z2 && z1 != y1 {
            return Err(format!("{name}: differs from GmimcParams::new({t}, {d}, {rounds}) under the same entropy"));
        }
    }
    Ok(())
}

fn neptune<A: Fld>(c: &mut Ctx, name: &str, get: &(dyn Fn() -> Arc<NeptuneParams<A::F>> + Sync), s: Shape) -> Result<(), String> {
    let f = A::r();
    let seed = hash_str(name);
    let p = on_fresh_thread(seed, get).map_err(|e| format!("{name}: construction failed: {e}"))?;
    let n = Neptune::new(&p);
    if n.get_t() != s.t {
        return Err(format!("{name}: width {} instead of {}", n.get_t(), s.t));
    }
    let xs = inputs(&f, s.t, c.tier);
    let xe: Vec<Vec<A::F>> = xs.iter().map(|x| f.encv(x)).collect();
    let ys: Vec<Vec<A::F>> = c.call(|| xe.iter().map(|x| n.permutation(x)).collect()).map_err(|e| format!("{name}: {e}"))?;
    let probe = |q: Shape| -> Result<bool, String> {
        let Ok(b) = rnd::nep::binding(q) else { return Ok(false) };
        let m = q.model(&f, &bound::<A>(&b, seed ^ 1)?);
        let p = on_fresh_thread(seed ^ 1, || Arc::new(NeptuneParams::<A::F>::new(q.t, q.d, q.rf, q.rp)))?;
        Ok(probes(&f, q.t).iter().any(|x| guarded(|| f.decv(&Neptune::new(&p).permutation(&f.encv(x)))) == Ok(m.perm(x, &mut NoObs))))
    };
    let modelled = probe(Shape { t: 2, d: s.d, rf: 2, rp: 1 })? && probe(Shape { t: 4, d: s.d, rf: 2, rp: 2 })?;
    if let (true, Ok(b)) = (modelled, rnd::nep::binding(s)) {
        let m = s.model(&f, &bound::<A>(&b, seed)?);
        for (k, x) in xs.iter().enumerate() {
            let want = m.perm(x, &mut CtxObs(c, &f));
            let got = f.decv(&ys[k]);
            c.trace(f.hash(&got));
            c.sample(|| format!("{name} {s:?} gamma {} input {} -> {}", f.big(&m.gamma), show(&f, x), show(&f, &got)));
            if got != want {
                return Err(format!("{name}: input {}: got {} want {} ({s:?}, the drawn parameters)", show(&f, x), show(&f, &got), show(&f, &want)));
            }
        }
        // boundary words, and linear layers at carries
        let small = f.p().bits() <= 64 || c.tier == Tier::Thorough;
        let mut go = |x: Option<Vec<<A::R as Rf>::E>>| {
            // None: these draws make a layer singular
            let Some(x) = x else { return Ok(()) };
            let want = m.perm(&x, &mut CtxObs(c, &f));
            let got = c.call(|| n.permutation(&f.encv(&x))).map_err(|e| format!("{name}: {e}"))?;
            c.trace(f.hash(&want));
            if f.decv(&got) != want {
                return Err(format!("{name}: input {}: got {} want {}", show(&f, &x), show(&f, &f.decv(&got)), show(&f, &want)));
            }
            Ok(())
        };
        for &r in &[0, s.rf / 2, s.rf + s.rp - 1][..if small { 3 } else { 2 }] {
            word_boundaries(&f, s.t, |z| go(m.back(r, z)))?;
            layer_inputs(&f, s.t, &[1, 2], false, |y| go(m.layer(r, y)))?;
        }
        // values squared by the S-box of the last pair, in external rounds
        for &r in &[0, s.rf + s.rp - 1] {
            let mut y = backgrounds(&f, s.t, 5).pop().unwrap();
            let other = cval(&f, 6, 1);
            let al = alphabet(&f, 64);
            for z in &al {
                for w in al.iter().chain([&other]) {
                    if w == &other || z == &other || f.p().bits() <= 64 && r == 0 {
                        (y[s.t - 2], y[s.t - 1]) = m.sbox2_inner(z, w);
                        go(m.back(r, &y))?;
                        (y[s.t - 2], y[s.t - 1]) = m.sbox2_inner(w, z);
                        go(m.back(r, &y))?;
                    }
                }
            }
        }
        // chosen intermediate states
        for r in 0..s.rf + s.rp {
            let full = r < s.rf / 2 || r >= s.rf / 2 + s.rp;
            for z in special_states(&f, s.t, !full && c.tier == Tier::Quick) {
                // None: these draws make a layer singular
                let Some(x) = m.back(r, &z) else { continue };
                let want = m.perm(&x, &mut CtxObs(c, &f));
                let got = c.call(|| n.permutation(&f.encv(&x))).map_err(|e| format!("{name}: {e}"))?;
                c.trace(f.hash(&want));
                if f.decv(&got) != want {
                    return Err(format!("{name}: input {} (special at round {r}): got {} want {}", show(&f, &x), show(&f, &f.decv(&got)), show(&f, &want)));
                }
            }
        }
    } else {
        c.sample(|| format!("{name}: draws not visible; compared with a fresh instance of the documented shape under the same entropy"));
        let fresh = || on_fresh_thread(seed, || Arc::new(NeptuneParams::<A::F>::new(s.t, s.d, s.rf, s.rp)));
        let (q1, q2) = (Neptune::new(&fresh()?), Neptune::new(&fresh()?));
        let z1: Vec<Vec<A::F>> = c.call(|| xe.iter().map(|x| q1.permutation(x)).collect())?;
        let z2: Vec<Vec<A::F>> = c.call(|| xe.iter().map(|x| q2.permutation(x)).collect())?;
        for y in &ys {
            c.trace(f.hash(&f.decv(y)));
        }
        if z1 == z2 && z1 != ys {
            return Err(format!("{name}: differs from NeptuneParams::new for {s:?} under the same entropy"));
        }
    }
    Ok(())
}

type Item = Box<dyn Fn(&mut Ctx) -> Result<(), String> + Send + Sync>;
macro_rules! gms { ($v:ident; $($a:ident $d:literal : $($s:ident $t:literal $r:literal),*;)*) => { $($(
    $v.push(Box::new(|c: &mut Ctx| gmimc::<$a>(c, stringify!($s), &|| (*$s).clone(), $t, $d, $r)) as Item);
)*)* } }
macro_rules! neps { ($v:ident; $($a:ident $d:literal : $($s:ident $t:literal $rp:literal),*;)*) => { $($(
    $v.push(Box::new(|c: &mut Ctx| neptune::<$a>(c, stringify!($s), &|| (*$s).clone(), Shape { t: $t, d: $d, rf: 6, rp: $rp })) as Item);
)*)* } }

fn c08() -> Vec<Space> {
    let mut g: Vec<Item> = vec![];
    gms! { g;
        Bls 5: GMIMC_BLS_2_PARAMS 2 224, GMIMC_BLS_3_PARAMS 3 226, GMIMC_BLS_4_PARAMS 4 228, GMIMC_BLS_5_PARAMS 5 230, GMIMC_BLS_8_PARAMS 8 236, GMIMC_BLS_9_PARAMS 9 238,
            GMIMC_BLS_12_PARAMS 12 314, GMIMC_BLS_16_PARAMS 16 546, GMIMC_BLS_20_PARAMS 20 842, GMIMC_BLS_24_PARAMS 24 1202;
        Bn 5: GMIMC_BN_3_PARAMS 3 226, GMIMC_BN_4_PARAMS 4 228, GMIMC_BN_5_PARAMS 5 230, GMIMC_BN_8_PARAMS 8 236, GMIMC_BN_9_PARAMS 9 238,
            GMIMC_BN_12_PARAMS 12 314, GMIMC_BN_16_PARAMS 16 546, GMIMC_BN_20_PARAMS 20 842, GMIMC_BN_24_PARAMS 24 1202;
        Pallas 5: GMIMC_PALLAS_3_PARAMS 3 226, GMIMC_PALLAS_4_PARAMS 4 228, GMIMC_PALLAS_5_PARAMS 5 230, GMIMC_PALLAS_8_PARAMS 8 236, GMIMC_PALLAS_9_PARAMS 9 238,
            GMIMC_PALLAS_12_PARAMS 12 314, GMIMC_PALLAS_16_PARAMS 16 546, GMIMC_PALLAS_20_PARAMS 20 842, GMIMC_PALLAS_24_PARAMS 24 1202;
        Vesta 5: GMIMC_VESTA_3_PARAMS 3 226, GMIMC_VESTA_4_PARAMS 4 228, GMIMC_VESTA_5_PARAMS 5 230, GMIMC_VESTA_8_PARAMS 8 236, GMIMC_VESTA_9_PARAMS 9 238,
            GMIMC_VESTA_12_PARAMS 12 314, GMIMC_VESTA_16_PARAMS 16 546, GMIMC_VESTA_20_PARAMS 20 842, GMIMC_VESTA_24_PARAMS 24 1202;
        Goldi 7: GMIMC_GOLDILOCKS_8_PARAMS 8 146, GMIMC_GOLDILOCKS_12_PARAMS 12 314, GMIMC_GOLDILOCKS_16_PARAMS 16 546, GMIMC_GOLDILOCKS_20_PARAMS 20 842;
        BabyBear 7: GMIMC_BABYBEAR_16_PARAMS 16 546, GMIMC_BABYBEAR_24_PARAMS 24 1202;
    }
    let mut n: Vec<Item> = vec![];
    neps! { n;
        Bn 5: NEPTUNE_BN_PARAMS 4 68;
        Bls 5: NEPTUNE_BLS_4_PARAMS 4 69, NEPTUNE_BLS_8_PARAMS 8 74;
        Goldi 7: NEPTUNE_GOLDILOCKS_8_PARAMS 8 38, NEPTUNE_GOLDILOCKS_12_PARAMS 12 42, NEPTUNE_GOLDILOCKS_16_PARAMS 16 48, NEPTUNE_GOLDILOCKS_20_PARAMS 20 52;
        BabyBear 7: NEPTUNE_BABYBEAR_16_PARAMS 16 34, NEPTUNE_BABYBEAR_24_PARAMS 24 43;
        Pallas 5: NEPTUNE_PALLAS_4_PARAMS 4 69, NEPTUNE_PALLAS_8_PARAMS 8 74;
        Vesta 5: NEPTUNE_VESTA_PARAMS 4 68;
    }
    vec![
        Space::list("gmimc-instances", "item = shipped GMiMC instance, first used under known entropy; shape, every state within one boundary word of the backgrounds, and inputs computed backwards so that the state at each round is special (all zero; 0, 1, -1 in a word), against the model with the drawn constants", g, |i, c| i(c)),
        Space::list("neptune-instances", "item = shipped Neptune instance, first used under known entropy; every state within one boundary word of the backgrounds, and inputs computed backwards so that the state at each round is special, against the model with the drawn parameters", n, |i, c| i(c)),
    ]
}

fn main() {
    main_with(|c, _| match c {
        "C08" => c08(),
        _ => vec![],
    })
}
