//! C18 malformed inputs and shapes, C21 malformed tables are refused, in both builds.
use ark_ff::PrimeField;
use pmc::explore::*;
use pmc::gen::*;
use pmc::prim::*;
use pmc::refm::*;
use pmc::with_wfld;
use std::sync::Arc;
use zkhash::gmimc::gmimc_params::GmimcParams;
use zkhash::neptune::neptune_params::NeptuneParams;
use zkhash::poseidon::poseidon_params::PoseidonParams;
use zkhash::poseidon2::poseidon2_params::Poseidon2Params;

/// Construction and every evaluation on every input: none may return a state.
fn refused<F: PrimeField>(c: &mut Ctx, what: &dyn Fn() -> String, make: impl Fn() -> Params<F>, xs: &[Vec<F>]) -> Result<(), String> {
    c.step(hash_str(&what()));
    let p = match c.call(make) {
        Err(m) => {
            c.cov.refusals += 1;
            c.trace(hash_str(&m));
            c.sample(|| format!("{}: refused at construction: {m}", what()));
            return Ok(());
        }
        Ok(p) => p.instance(),
    };
    for x in xs {
        c.refuses(|| format!("{} evaluated on {} words", what(), x.len()), || p.perm(x))?;
        if p.has_plain() {
            c.refuses(|| format!("{} evaluated (plain) on {} words", what(), x.len()), || p.plain(x))?;
        }
    }
    c.sample(|| format!("{}: refused at evaluation", what()));
    Ok(())
}
fn states<A: Fld>(t: usize) -> Vec<Vec<A::F>> {
    let f = A::r();
    backgrounds(&f, t, 5).iter().step_by(2).map(|x| f.encv(x)).collect()
}
fn wrong_lengths<F: PrimeField>(c: &mut Ctx, p: &Prim<F>, name: &str, max: usize) -> Result<(), String> {
    let t = p.t();
    for n in (0..=max).chain([3 * t, 4 * t, t * t, 8 * t, t + 128, t + 256, t + 65_536]).filter(|n| *n != t) {
        for fill in 0..3u64 {
            let x: Vec<F> = (0..n).map(|i| match fill { 0 => F::zero(), 1 => F::from(i as u64 + 1), _ => if i < t { F::from(3u64) } else { F::zero() } }).collect();
            c.step(mix(n as u64, fill));
            c.refuses(|| format!("{name} of width {t} evaluated on {n} words {}", trunc(&format!("{x:?}"))), || p.perm(&x))?;
            if p.has_plain() {
                c.refuses(|| format!("{name} of width {t} evaluated (plain) on {n} words {}", trunc(&format!("{x:?}"))), || p.plain(&x))?;
            }
        }
    }
    c.sample(|| format!("{name}: every length 0..={max} but {t} refused"));
    Ok(())
}
fn widths(kind: Kind) -> Vec<usize> {
    match kind {
        Kind::P2 => vec![2, 3, 4, 8, 12, 16, 20, 24],
        Kind::Pos => (2..=12).chain([16, 24]).collect(),
        Kind::Gm => (2..=26).collect(),
        Kind::Nep => (1..=13).map(|k| 2 * k).collect(),
    }
}

type Item = Box<dyn Fn(&mut Ctx) -> Result<(), String> + Send + Sync>;
fn shipped() -> Vec<Item> {
    use zkhash::gmimc::{gmimc::Gmimc, gmimc_instance_babybear::*, gmimc_instance_bls12::*, gmimc_instance_bn256::*, gmimc_instance_goldilocks::*, gmimc_instance_pallas::*, gmimc_instance_vesta::*};
    use zkhash::neptune::{neptune::Neptune, neptune_instances::*};
    use zkhash::poseidon::{poseidon::Poseidon, poseidon_instance_babybear::*, poseidon_instance_bls12::*, poseidon_instance_bn256::*, poseidon_instance_goldilocks::*, poseidon_instance_pallas::*, poseidon_instance_vesta::*};
    use zkhash::poseidon2::{poseidon2::Poseidon2, poseidon2_instance_babybear::*, poseidon2_instance_bls12::*, poseidon2_instance_bn256::*, poseidon2_instance_goldilocks::*, poseidon2_instance_pallas::*, poseidon2_instance_vesta::*};
    let mut v: Vec<Item> = vec![];
    macro_rules! s { ($w:ident $h:ident: $($s:ident),*;) => {$( v.push(Box::new(|c: &mut Ctx| {
        let p = c.call(|| Prim::$w($h::new(&$s))).map_err(|e| format!("{}: {e}", stringify!($s)))?;
        let t = p.t();
        wrong_lengths(c, &p, stringify!($s), 2 * t + 2)
    })); )*} }
    s! { P2 Poseidon2: POSEIDON2_BLS_3_PARAMS, POSEIDON2_BN256_PARAMS, POSEIDON2_PALLAS_3_PARAMS, POSEIDON2_VESTA_PARAMS,
        POSEIDON2_BLS_2_PARAMS, POSEIDON2_BLS_4_PARAMS, POSEIDON2_BLS_8_PARAMS, POSEIDON2_PALLAS_4_PARAMS, POSEIDON2_PALLAS_8_PARAMS,
        POSEIDON2_GOLDILOCKS_8_PARAMS, POSEIDON2_GOLDILOCKS_12_PARAMS, POSEIDON2_GOLDILOCKS_16_PARAMS, POSEIDON2_GOLDILOCKS_20_PARAMS,
        POSEIDON2_BABYBEAR_16_PARAMS, POSEIDON2_BABYBEAR_24_PARAMS; }
    s! { Pos Poseidon: POSEIDON_BLS_3_PARAMS, POSEIDON_BN_PARAMS, POSEIDON_PALLAS_3_PARAMS, POSEIDON_VESTA_PARAMS,
        POSEIDON_BLS_2_PARAMS, POSEIDON_BLS_4_PARAMS, POSEIDON_BLS_8_PARAMS, POSEIDON_PALLAS_4_PARAMS, POSEIDON_PALLAS_8_PARAMS,
        POSEIDON_GOLDILOCKS_8_PARAMS, POSEIDON_GOLDILOCKS_12_PARAMS, POSEIDON_GOLDILOCKS_16_PARAMS, POSEIDON_GOLDILOCKS_20_PARAMS,
        POSEIDON_BABYBEAR_16_PARAMS, POSEIDON_BABYBEAR_24_PARAMS; }
    s! { Gm Gmimc: GMIMC_BLS_2_PARAMS, GMIMC_BLS_3_PARAMS, GMIMC_BLS_4_PARAMS, GMIMC_BLS_5_PARAMS, GMIMC_BLS_8_PARAMS, GMIMC_BLS_24_PARAMS, GMIMC_BN_3_PARAMS, GMIMC_BN_9_PARAMS,
        GMIMC_PALLAS_3_PARAMS, GMIMC_VESTA_12_PARAMS, GMIMC_GOLDILOCKS_8_PARAMS, GMIMC_GOLDILOCKS_20_PARAMS, GMIMC_BABYBEAR_16_PARAMS, GMIMC_BABYBEAR_24_PARAMS; }
    s! { Nep Neptune: NEPTUNE_BN_PARAMS, NEPTUNE_BLS_4_PARAMS, NEPTUNE_PALLAS_4_PARAMS, NEPTUNE_VESTA_PARAMS, NEPTUNE_BLS_8_PARAMS, NEPTUNE_PALLAS_8_PARAMS, NEPTUNE_GOLDILOCKS_8_PARAMS,
        NEPTUNE_GOLDILOCKS_12_PARAMS, NEPTUNE_GOLDILOCKS_16_PARAMS, NEPTUNE_GOLDILOCKS_20_PARAMS, NEPTUNE_BABYBEAR_16_PARAMS, NEPTUNE_BABYBEAR_24_PARAMS; }
    v
}

/// parameters with every part given explicitly
#[derive(Clone)]
struct Raw<F> {
    t: usize,
    d: usize,
    rf: usize,
    rp: usize,
    diag: Vec<F>,
    mat: Vec<Vec<F>>,
    rc: Vec<Vec<F>>,
}
fn raw<A: Fld>(kind: Kind, t: usize, d: usize, rf: usize, rp: usize, rows: usize) -> Raw<A::F> {
    let f = A::r();
    let diag = if kind == Kind::P2 { memo(format!("bad diag {} {t}", A::NAME), || f.encv::<A::F>(&p2_diag(&f, t))) } else { vec![] };
    let mat: Vec<Vec<A::F>> = match kind {
        Kind::P2 => memo(format!("bad internal {} {t}", A::NAME), || f.encm(&ones_plus_diag(&f, &p2_diag(&f, t)))),
        Kind::Pos => memo(format!("bad mds {} {t}", A::NAME), || f.encm(&pos_matrix(&f, t))),
        _ => vec![],
    };
    let rc: Mat<_> = (0..rows).map(|r| (0..t).map(|i| cval(&f, 5, (r * t + i) as u64)).collect()).collect();
    Raw { t, d, rf, rp, diag, mat, rc: f.encm(&rc) }
}
fn make<F: PrimeField>(kind: Kind, r: &Raw<F>) -> Params<F> {
    match kind {
        Kind::P2 => Params::P2(Arc::new(Poseidon2Params::new(r.t, r.d, r.rf, r.rp, &r.diag, &r.mat, &r.rc))),
        Kind::Pos => Params::Pos(Arc::new(PoseidonParams::new(r.t, r.d, r.rf, r.rp, &r.mat, &r.rc))),
        Kind::Gm => Params::Gm(Arc::new(GmimcParams::new(r.t, r.d, r.rf))),
        Kind::Nep => Params::Nep(Arc::new(NeptuneParams::new(r.t, r.d, r.rf, r.rp))),
    }
}

fn c18(tier: Tier) -> Vec<Space> {
    let th = tier == Tier::Thorough;
    let fields: &[&str] = if th { &["3", "7", "17", "baby", "goldi", "bls", "bn", "pallas", "vesta"] } else { &["7", "baby", "goldi", "bls", "pallas"] };
    let mut v = vec![];

    let mut items = vec![];
    for kind in KINDS {
        for &fl in fields {
            for t in widths(kind) {
                for (rf, rp) in match kind { Kind::Gm => vec![(1, 0), (4, 0), (31, 0)], Kind::Pos => vec![(0, 1), (2, 1), (4, 3)], _ => vec![(0, 0), (0, 1), (2, 0), (2, 1), (4, 3)] } {
                    items.push((fl, Cfg { kind, t, d: 5, rf, rp, pat: 5 }));
                }
            }
        }
    }
    v.push(Space::list("input-lengths", "item = (field, primitive, width, rounds); every input length 0..2t+2 other than t, and 3t, 4t, 8t, t*t, t+128, t+256, t+65536, three fillings, every evaluation", items, |&(fl, cfg), c| {
        with_wfld!(fl, A => {
            let p = c.call(|| params::<A>(cfg).instance()).map_err(|e| format!("{cfg:?} over {fl}: {e}"))?;
            wrong_lengths(c, &p, &format!("{cfg:?} over {fl}"), 2 * cfg.t + 2)
        })
    }));
    v.push(Space::list("shipped-input-lengths", "item = shipped instance; every input length 0..2t+2 other than t, and 3t, 4t, 8t, t*t, t+128, t+256, t+65536", shipped(), |i, c| i(c)));

    let mut degs: Vec<usize> = (0..=if th { 300 } else { 40 }).collect();
    degs.extend([255, 256, 257, 259, 261, 263, 65536 + 5, (1 << 32) + 3, (1 << 32) + 5, (1 << 32) + 7, (1 << 32) + 11, usize::MAX, usize::MAX - 4]);
    let mut items = vec![];
    for kind in KINDS {
        for &fl in fields {
            for t in match kind { Kind::P2 => vec![2usize, 3, 4, 8, 24], Kind::Nep => vec![2, 4, 6, 8, 12], _ => vec![2, 3, 7, 8, 9] } {
                for (rf, rp) in [(2usize, 1usize), (4, 3), (2, 4)] {
                    items.push((fl, kind, t, rf, rp));
                }
            }
        }
    }
    let dd = degs.clone();
    v.push(Space::list("degrees", "item = (field, primitive, width, rounds); every unsupported degree of the list (0..40, thorough 300, and values that alias supported ones in narrower integers)", items, move |&(fl, kind, t, rf, rp), c| {
        with_wfld!(fl, A => {
            for &d in &dd {
                if [3, 5, 7].contains(&d) || (kind == Kind::P2 && d == 11) { continue; }
                let r = raw::<A>(kind, t, d, rf, rp, rf + rp);
                refused(c, &|| format!("{kind:?} over {fl} t={t} d={d} rf={rf} rp={rp}"), || make(kind, &r), &states::<A>(t))?;
            }
            Ok(())
        })
    }));

    let mut items = vec![];
    for kind in [Kind::P2, Kind::Pos, Kind::Nep] {
        for &fl in fields {
            for t in match kind { Kind::P2 => vec![2usize, 3, 4, 8], Kind::Nep => vec![2, 4, 6, 8], _ => vec![2, 3, 5] } {
                for rf in (1..=if th { 65 } else { 17usize }).step_by(2) {
                    items.push((fl, kind, t, rf));
                }
            }
        }
    }
    v.push(Space::list("odd-full-rounds", "item = (field, primitive, width, odd number of full rounds); 0 (Poseidon: 1) to 4 partial rounds, constant tables with exactly, one less and one more row", items, |&(fl, kind, t, rf), c| {
        with_wfld!(fl, A => {
            for rp in if kind == Kind::Pos { 1 } else { 0 }..=4usize {
                for rows in [rf + rp, rf + rp - 1, rf + rp + 1] {
                    let r = raw::<A>(kind, t, 5, rf, rp, rows);
                    refused(c, &|| format!("{kind:?} over {fl} t={t} d=5 rf={rf} rp={rp} with {rows} rows"), || make(kind, &r), &states::<A>(t))?;
                }
            }
            Ok(())
        })
    }));

    let mut items = vec![];
    for &fl in fields {
        for t in 0..=if th { 99usize } else { 41 } {
            for kind in [Kind::P2, Kind::Nep] {
                let ok = match kind { Kind::P2 => [2, 3, 4, 8, 12, 16, 20, 24].contains(&t), _ => t % 2 == 0 };
                if !ok {
                    items.push((fl, kind, t));
                }
            }
        }
    }
    v.push(Space::list("unsupported-widths", "item = (field, unsupported Poseidon2 width or odd Neptune width up to 41, thorough 99); several round numbers, inputs of that width", items, |&(fl, kind, t), c| {
        with_wfld!(fl, A => {
            for (rf, rp) in [(0usize, 0usize), (2, 0), (0, 1), (2, 1), (4, 3)] {
                let r = raw::<A>(kind, t, 5, rf, rp, rf + rp);
                refused(c, &|| format!("{kind:?} over {fl} t={t} d=5 rf={rf} rp={rp}"), || make(kind, &r), &states::<A>(t))?;
            }
            Ok(())
        })
    }));

    let mut items = vec![];
    for kind in [Kind::P2, Kind::Pos] {
        for fl in ["3", "7", "17", "baby", "goldi", "bls", "bn", "pallas", "vesta"] {
            for t in widths(kind).into_iter().filter(|t| th || *t <= 16) {
                for (rf, rp) in if kind == Kind::Pos { vec![(0usize, 1usize), (2, 1), (2, 3), (4, 2), (6, 5)] } else { vec![(2, 0), (0, 1), (2, 1), (2, 3), (4, 2), (6, 5)] } {
                    items.push((fl, kind, t, rf, rp));
                }
            }
        }
    }
    v.push(Space::list("constant-tables", "item = (field, primitive, width, rounds); every truncation of the constant table and every too short length of every row (Poseidon2: of full rows, and empty partial rows)", items, |&(fl, kind, t, rf, rp), c| {
        with_wfld!(fl, A => {
            let n = rf + rp;
            let good = raw::<A>(kind, t, 5, rf, rp, n);
            let xs = states::<A>(t);
            let p = c.call(|| make(kind, &good)).map_err(|e| format!("{kind:?} over {fl} t={t} rf={rf} rp={rp}: {e}"))?.instance();
            c.call(|| xs.iter().map(|x| (p.perm(x), p.plain(x))).collect::<Vec<_>>()).map_err(|e| format!("{kind:?} over {fl} t={t} rf={rf} rp={rp}: {e}"))?;
            for k in 0..n {
                let mut r = good.clone();
                r.rc.truncate(k);
                refused(c, &|| format!("{kind:?} over {fl} t={t} rf={rf} rp={rp}: {k} rows of constants"), || make(kind, &r), &xs)?;
            }
            for k in 0..n {
                let partial = k >= rf / 2 && k < rf / 2 + rp;
                for l in 0..if kind == Kind::P2 && partial { 1 } else { t } {
                    let mut r = good.clone();
                    r.rc[k].truncate(l);
                    refused(c, &|| format!("{kind:?} over {fl} t={t} rf={rf} rp={rp}: constant row {k} has {l} words"), || make(kind, &r), &xs)?;
                }
            }
            if kind == Kind::P2 && t > 3 && rp > 0 {
                for l in 0..t {
                    let mut r = good.clone();
                    r.diag.truncate(l);
                    refused(c, &|| format!("{kind:?} over {fl} t={t} rf={rf} rp={rp}: diagonal of {l} words"), || make(kind, &r), &xs)?;
                }
            }
            Ok(())
        })
    }));

    let mut items = vec![];
    for fl in ["3", "7", "17", "baby", "goldi", "bls", "bn", "pallas", "vesta"] {
        for t in widths(Kind::Pos).into_iter().filter(|t| th || *t <= 12) {
            for (rf, rp) in [(0usize, 1usize), (2, 1), (2, 3), (4, 2)] {
                items.push((fl, t, rf, rp));
            }
        }
    }
    v.push(Space::list("matrices", "item = (field, Poseidon width, rounds); matrices with every other number of rows up to t+3 (rows of length t, of that number and of the smaller), and every too short length of every row", items, |&(fl, t, rf, rp), c| {
        with_wfld!(fl, A => {
            let kind = Kind::Pos;
            let good = raw::<A>(kind, t, 5, rf, rp, rf + rp);
            let xs = states::<A>(t);
            for k in (0..=t + 3).filter(|k| *k != t) {
                for l in [t, k, t.min(k)] {
                    let mut r = good.clone();
                    let big = raw::<A>(kind, t.max(k), 5, rf, rp, 0).mat;
                    r.mat = big[..k].iter().map(|x| x[..l].to_vec()).collect();
                    refused(c, &|| format!("Poseidon over {fl} t={t} rf={rf} rp={rp}: {k} x {l} matrix"), || make(kind, &r), &xs)?;
                    // and on inputs of the matrix's own size
                    refused(c, &|| format!("Poseidon over {fl} t={t} rf={rf} rp={rp}: {k} x {l} matrix"), || make(kind, &r), &states::<A>(k))?;
                }
            }
            for k in 0..t {
                for l in 0..t {
                    let mut r = good.clone();
                    r.mat[k].truncate(l);
                    refused(c, &|| format!("Poseidon over {fl} t={t} rf={rf} rp={rp}: matrix row {k} has {l} words"), || make(kind, &r), &xs)?;
                }
            }
            Ok(())
        })
    }));
    v
}

fn main() {
    let tables = |s: &Space| ["constant-tables", "matrices", "long-tables"].contains(&s.name.as_ref());
    main_with(|c, t| match c {
        "C18" => c18(t).into_iter().filter(|s| !tables(s)).collect(),
        "C21" => c18(t).into_iter().filter(tables).collect(),
        _ => vec![],
    })
}
