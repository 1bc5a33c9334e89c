//! C17 two-to-one compression.
use pmc::explore::*;
use pmc::gen::*;
use pmc::prim::*;
use pmc::refm::*;
use pmc::with_wfld;
use ark_ff::PrimeField;
use zkhash::merkle_tree::merkle_tree_fp::MerkleTreeHash;

fn right(k: Kind) -> usize {
    if k == Kind::Nep { 4 } else { 3 }
}
fn pair<F: PrimeField, R: Rf>(c: &mut Ctx, f: &R, p: &Prim<F>, name: &str, a: &R::E, b: &R::E) -> Result<(), String> {
    let (ae, be): (F, F) = (f.enc(a), f.enc(b));
    let mut st = vec![ae, be];
    st.resize(p.t(), F::zero());
    let desc = || format!("{name}: compress({}, {})", f.big(a), f.big(b));
    let perm = c.call(|| p.perm(&st)).map_err(|e| format!("{}: permutation: {e}", desc()))?;
    let got = c.call(|| p.compress(&[&ae, &be])).map_err(|e| format!("{}: {e}", desc()))?;
    if perm.len() != st.len() {
        return Err(format!("{}: the permutation returned {} words", desc(), perm.len()));
    }
    let (g, w) = (f.dec(&got), f.dec(&perm[0]));
    c.step(mix(f.key(a), f.key(b)));
    c.trace(f.key(&g));
    c.sample(|| format!("{} = {}", desc(), f.big(&g)));
    if g != w {
        return Err(format!("{} = {}, first word of the permutation is {}", desc(), f.big(&g), f.big(&w)));
    }
    Ok(())
}
fn wrong<F: PrimeField>(c: &mut Ctx, p: &Prim<F>, name: &str) -> Result<(), String> {
    for (a, b) in [(0u64, 0u64), (1, 2), (5, 0)] {
        let (a, b) = (F::from(a), F::from(b));
        c.refuses(|| format!("{name}: compress({a}, {b}) on width {}", p.t()), || p.compress(&[&a, &b]))?;
    }
    Ok(())
}

type Item = Box<dyn Fn(&mut Ctx) -> Result<(), String> + Send + Sync>;
fn shipped() -> Vec<Item> {
    use zkhash::gmimc::{gmimc::Gmimc, gmimc_instance_babybear::*, gmimc_instance_bls12::*, gmimc_instance_bn256::*, gmimc_instance_goldilocks::*, gmimc_instance_pallas::*, gmimc_instance_vesta::*};
    use zkhash::neptune::{neptune::Neptune, neptune_instances::*};
    use zkhash::poseidon::{poseidon::Poseidon, poseidon_instance_babybear::*, poseidon_instance_bls12::*, poseidon_instance_bn256::*, poseidon_instance_goldilocks::*, poseidon_instance_pallas::*, poseidon_instance_vesta::*};
    use zkhash::poseidon2::{poseidon2::Poseidon2, poseidon2_instance_babybear::*, poseidon2_instance_bls12::*, poseidon2_instance_bn256::*, poseidon2_instance_goldilocks::*, poseidon2_instance_pallas::*, poseidon2_instance_vesta::*};
    let mut v: Vec<Item> = vec![];
    macro_rules! s { ($w:ident $h:ident $t:literal: $($a:ident $s:ident),*;) => {$( v.push(Box::new(|c: &mut Ctx| {
        let p = c.call(|| Prim::$w($h::new(&$s))).map_err(|e| format!("{}: {e}", stringify!($s)))?;
        let f = $a::r();
        if p.t() == $t {
            let mut al = alphabet(&f, if c.tier == Tier::Thorough { 24 } else { 12 });
            al.extend((0..8).map(|k| cval(&f, 5, k)));
            for a in &al { for b in &al { pair::<<$a as Fld>::F, _>(c, &f, &p, stringify!($s), a, b)?; } }
            Ok(())
        } else { wrong(c, &p, stringify!($s)) }
    })); )*} }
    s! { P2 Poseidon2 3: Bls POSEIDON2_BLS_3_PARAMS, Bn POSEIDON2_BN256_PARAMS, Pallas POSEIDON2_PALLAS_3_PARAMS, Vesta POSEIDON2_VESTA_PARAMS,
        Bls POSEIDON2_BLS_2_PARAMS, Bls POSEIDON2_BLS_4_PARAMS, Bls POSEIDON2_BLS_8_PARAMS, Pallas POSEIDON2_PALLAS_4_PARAMS, Pallas POSEIDON2_PALLAS_8_PARAMS,
        Goldi POSEIDON2_GOLDILOCKS_8_PARAMS, Goldi POSEIDON2_GOLDILOCKS_12_PARAMS, Goldi POSEIDON2_GOLDILOCKS_16_PARAMS, Goldi POSEIDON2_GOLDILOCKS_20_PARAMS,
        BabyBear POSEIDON2_BABYBEAR_16_PARAMS, BabyBear POSEIDON2_BABYBEAR_24_PARAMS; }
    s! { Pos Poseidon 3: Bls POSEIDON_BLS_3_PARAMS, Bn POSEIDON_BN_PARAMS, Pallas POSEIDON_PALLAS_3_PARAMS, Vesta POSEIDON_VESTA_PARAMS,
        Bls POSEIDON_BLS_2_PARAMS, Bls POSEIDON_BLS_4_PARAMS, Bls POSEIDON_BLS_8_PARAMS, Pallas POSEIDON_PALLAS_4_PARAMS, Pallas POSEIDON_PALLAS_8_PARAMS,
        Goldi POSEIDON_GOLDILOCKS_8_PARAMS, Goldi POSEIDON_GOLDILOCKS_12_PARAMS, Goldi POSEIDON_GOLDILOCKS_16_PARAMS, Goldi POSEIDON_GOLDILOCKS_20_PARAMS,
        BabyBear POSEIDON_BABYBEAR_16_PARAMS, BabyBear POSEIDON_BABYBEAR_24_PARAMS; }
    s! { Gm Gmimc 3: Bls GMIMC_BLS_3_PARAMS, Bn GMIMC_BN_3_PARAMS, Pallas GMIMC_PALLAS_3_PARAMS, Vesta GMIMC_VESTA_3_PARAMS,
        Bls GMIMC_BLS_2_PARAMS, Bls GMIMC_BLS_4_PARAMS, Bls GMIMC_BLS_5_PARAMS, Bls GMIMC_BLS_8_PARAMS, Bls GMIMC_BLS_24_PARAMS, Bn GMIMC_BN_9_PARAMS, Vesta GMIMC_VESTA_4_PARAMS,
        Goldi GMIMC_GOLDILOCKS_8_PARAMS, BabyBear GMIMC_BABYBEAR_16_PARAMS; }
    s! { Nep Neptune 4: Bn NEPTUNE_BN_PARAMS, Bls NEPTUNE_BLS_4_PARAMS, Pallas NEPTUNE_PALLAS_4_PARAMS, Vesta NEPTUNE_VESTA_PARAMS,
        Bls NEPTUNE_BLS_8_PARAMS, Pallas NEPTUNE_PALLAS_8_PARAMS, Goldi NEPTUNE_GOLDILOCKS_8_PARAMS, Goldi NEPTUNE_GOLDILOCKS_12_PARAMS, Goldi NEPTUNE_GOLDILOCKS_20_PARAMS,
        BabyBear NEPTUNE_BABYBEAR_16_PARAMS, BabyBear NEPTUNE_BABYBEAR_24_PARAMS; }
    v
}

fn c17(tier: Tier) -> Vec<Space> {
    let th = tier == Tier::Thorough;
    let mut items = vec![];
    for kind in KINDS {
        for fl in ["3", "5", "7", "11", "13", "17", "257"] {
            for (rf, rp) in if kind == Kind::Gm { vec![(1, 0), (2, 0), (3, 0), (5, 0), (12, 0)] } else { vec![(2, 1), (0, 1), (4, 3), (8, 9)] } {
                for d in [3usize, 5, 7] {
                    for pat in [0u64, 3, 5] {
                        if fl == "257" && !th && (d != 5 || pat == 3) {
                            continue;
                        }
                        items.push((fl, Cfg { kind, t: right(kind), d, rf, rp, pat }));
                    }
                }
            }
        }
    }
    let all = Space::list("all-pairs", "item = (tiny field, primitive, rounds, degree, constants); every ordered pair of field elements", items, |&(fl, cfg), c| {
        with_wfld!(fl, A => {
            let f = A::r();
            let p: u64 = fl.parse().unwrap();
            let i = c.call(|| params::<A>(cfg).instance()).map_err(|e| format!("{cfg:?} over F_{fl}: {e}"))?;
            for a in 0..p {
                for b in 0..p {
                    pair::<<A as Fld>::F, _>(c, &f, &i, &format!("{cfg:?} over F_{fl}"), &f.of64(a), &f.of64(b))?;
                }
            }
            Ok(())
        })
    });
    let mut items = vec![];
    for kind in KINDS {
        for fl in REAL {
            for (rf, rp) in if kind == Kind::Gm { vec![(3, 0), (12, 0), (226, 0)] } else { vec![(2, 1), (8, 56)] } {
                items.push((fl, Cfg { kind, t: right(kind), d: if fl == "baby" || fl == "goldi" { 7 } else { 5 }, rf, rp, pat: 5 }));
            }
        }
    }
    let bnd = Space::list("boundary-pairs", "item = (shipped field, primitive, rounds); every ordered pair of boundary and scattered values", items, move |&(fl, cfg), c| {
        with_wfld!(fl, A => {
            let f = A::r();
            let i = c.call(|| params::<A>(cfg).instance()).map_err(|e| format!("{cfg:?} over {fl}: {e}"))?;
            let mut al = alphabet(&f, if th { 24 } else { 12 });
            al.extend((0..if th { 16 } else { 4 }).map(|k| cval(&f, 5, k)));
            for a in &al {
                for b in &al {
                    pair::<<A as Fld>::F, _>(c, &f, &i, &format!("{cfg:?} over {fl}"), a, b)?;
                }
            }
            Ok(())
        })
    });
    let mut items = vec![];
    for kind in KINDS {
        for t in 2..=26usize {
            let ok = match kind {
                Kind::P2 => [2, 4, 8, 12, 16, 20, 24].contains(&t),
                Kind::Nep => t % 2 == 0,
                _ => true,
            };
            if ok && t != right(kind) {
                for (rf, rp) in [(2, 1), (4, 3)] {
                    items.push((t, Cfg { kind, t, d: 7, rf, rp, pat: 5 }));
                }
            }
        }
    }
    let wr = Space::list("other-widths", "item = (primitive, every other width up to 26, rounds) over BabyBear and F_7; compression is refused", items, |&(_, cfg), c| {
        let i = c.call(|| params::<XBabyBear>(cfg).instance()).map_err(|e| format!("{cfg:?}: {e}"))?;
        wrong(c, &i, &format!("{cfg:?} over BabyBear"))?;
        let i = c.call(|| params::<X7>(cfg).instance()).map_err(|e| format!("{cfg:?}: {e}"))?;
        wrong(c, &i, &format!("{cfg:?} over F_7"))
    });
    vec![all, bnd, wr, Space::list("shipped-instances", "item = shipped instance; right width: every ordered pair of boundary and scattered values; other width: refused", shipped(), |i, c| i(c))]
}

fn main() {
    main_with(|c, t| match c {
        "C17" => c17(t),
        _ => vec![],
    })
}
