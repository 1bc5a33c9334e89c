//! Every shipped instance by the name of its static.
use crate::explore::*;
use crate::prim::*;
use ark_ff::PrimeField;

/// the result of a refused call
pub const PANIC: u64 = 0x7061_6e69_63;

pub fn hv<F: PrimeField>(v: &[F]) -> u64 {
    v.iter().fold(v.len() as u64, |h, x| x.into_bigint().as_ref().iter().fold(h, |h, l| mix(h, *l)))
}
pub fn val<T>(r: Result<T, String>, h: impl Fn(&T) -> u64) -> u64 {
    match r {
        Ok(v) => h(&v),
        Err(_) => PANIC,
    }
}

macro_rules! statics {
    ($($w:ident $h:ident $p:path: $($s:ident)*;)*) => {
        pub const STATICS: &[&str] = &[$($(stringify!($s)),*),*];
        #[allow(unused_imports)]
        /// both evaluations of that instance on one state, on this thread
        pub fn use_static(name: &str, sub: u64) -> u64 {
            $({
                use $p::*;
                use zkhash::gmimc::gmimc::Gmimc; use zkhash::neptune::neptune::Neptune; use zkhash::poseidon::poseidon::Poseidon; use zkhash::poseidon2::poseidon2::Poseidon2;
                $(if name == stringify!($s) {
                    return val(guarded(|| {
                        let i = Prim::$w($h::new(&$s));
                        let x: Vec<_> = (0..i.t()).map(|k| (k as u64 + sub).into()).collect();
                        mix(hv(&i.perm(&x)), hv(&i.plain(&x)))
                    }), |v| *v);
                })*
            })*
            panic!("{name}")
        }
    };
}
statics! {
    P2 Poseidon2 zkhash::poseidon2::poseidon2_instance_bn256: POSEIDON2_BN256_PARAMS;
    Pos Poseidon zkhash::poseidon::poseidon_instance_bn256: POSEIDON_BN_PARAMS;
    Gm Gmimc zkhash::gmimc::gmimc_instance_bn256: GMIMC_BN_3_PARAMS GMIMC_BN_4_PARAMS GMIMC_BN_5_PARAMS GMIMC_BN_8_PARAMS GMIMC_BN_9_PARAMS GMIMC_BN_12_PARAMS GMIMC_BN_16_PARAMS GMIMC_BN_20_PARAMS GMIMC_BN_24_PARAMS;
    Nep Neptune zkhash::neptune::neptune_instances: NEPTUNE_BN_PARAMS NEPTUNE_BLS_4_PARAMS NEPTUNE_BLS_8_PARAMS NEPTUNE_GOLDILOCKS_8_PARAMS NEPTUNE_GOLDILOCKS_12_PARAMS NEPTUNE_GOLDILOCKS_16_PARAMS NEPTUNE_GOLDILOCKS_20_PARAMS NEPTUNE_BABYBEAR_16_PARAMS NEPTUNE_BABYBEAR_24_PARAMS NEPTUNE_PALLAS_4_PARAMS NEPTUNE_PALLAS_8_PARAMS NEPTUNE_VESTA_PARAMS;
    P2 Poseidon2 zkhash::poseidon2::poseidon2_instance_goldilocks: POSEIDON2_GOLDILOCKS_8_PARAMS POSEIDON2_GOLDILOCKS_12_PARAMS POSEIDON2_GOLDILOCKS_16_PARAMS POSEIDON2_GOLDILOCKS_20_PARAMS;
    Pos Poseidon zkhash::poseidon::poseidon_instance_goldilocks: POSEIDON_GOLDILOCKS_8_PARAMS POSEIDON_GOLDILOCKS_12_PARAMS POSEIDON_GOLDILOCKS_16_PARAMS POSEIDON_GOLDILOCKS_20_PARAMS;
    Gm Gmimc zkhash::gmimc::gmimc_instance_goldilocks: GMIMC_GOLDILOCKS_8_PARAMS GMIMC_GOLDILOCKS_12_PARAMS GMIMC_GOLDILOCKS_16_PARAMS GMIMC_GOLDILOCKS_20_PARAMS;
    P2 Poseidon2 zkhash::poseidon2::poseidon2_instance_babybear: POSEIDON2_BABYBEAR_16_PARAMS POSEIDON2_BABYBEAR_24_PARAMS;
    Pos Poseidon zkhash::poseidon::poseidon_instance_babybear: POSEIDON_BABYBEAR_16_PARAMS POSEIDON_BABYBEAR_24_PARAMS;
    Gm Gmimc zkhash::gmimc::gmimc_instance_babybear: GMIMC_BABYBEAR_16_PARAMS GMIMC_BABYBEAR_24_PARAMS;
    P2 Poseidon2 zkhash::poseidon2::poseidon2_instance_bls12: POSEIDON2_BLS_2_PARAMS POSEIDON2_BLS_3_PARAMS POSEIDON2_BLS_4_PARAMS POSEIDON2_BLS_8_PARAMS;
    Pos Poseidon zkhash::poseidon::poseidon_instance_bls12: POSEIDON_BLS_2_PARAMS POSEIDON_BLS_3_PARAMS POSEIDON_BLS_4_PARAMS POSEIDON_BLS_8_PARAMS;
    Gm Gmimc zkhash::gmimc::gmimc_instance_bls12: GMIMC_BLS_2_PARAMS GMIMC_BLS_3_PARAMS GMIMC_BLS_4_PARAMS GMIMC_BLS_5_PARAMS GMIMC_BLS_8_PARAMS GMIMC_BLS_9_PARAMS GMIMC_BLS_12_PARAMS GMIMC_BLS_16_PARAMS GMIMC_BLS_20_PARAMS GMIMC_BLS_24_PARAMS;
    P2 Poseidon2 zkhash::poseidon2::poseidon2_instance_pallas: POSEIDON2_PALLAS_3_PARAMS POSEIDON2_PALLAS_4_PARAMS POSEIDON2_PALLAS_8_PARAMS;
    Pos Poseidon zkhash::poseidon::poseidon_instance_pallas: POSEIDON_PALLAS_3_PARAMS POSEIDON_PALLAS_4_PARAMS POSEIDON_PALLAS_8_PARAMS;
    Gm Gmimc zkhash::gmimc::gmimc_instance_pallas: GMIMC_PALLAS_3_PARAMS GMIMC_PALLAS_4_PARAMS GMIMC_PALLAS_5_PARAMS GMIMC_PALLAS_8_PARAMS GMIMC_PALLAS_9_PARAMS GMIMC_PALLAS_12_PARAMS GMIMC_PALLAS_16_PARAMS GMIMC_PALLAS_20_PARAMS GMIMC_PALLAS_24_PARAMS;
    P2 Poseidon2 zkhash::poseidon2::poseidon2_instance_vesta: POSEIDON2_VESTA_PARAMS;
    Pos Poseidon zkhash::poseidon::poseidon_instance_vesta: POSEIDON_VESTA_PARAMS;
    Gm Gmimc zkhash::gmimc::gmimc_instance_vesta: GMIMC_VESTA_3_PARAMS GMIMC_VESTA_4_PARAMS GMIMC_VESTA_5_PARAMS GMIMC_VESTA_8_PARAMS GMIMC_VESTA_9_PARAMS GMIMC_VESTA_12_PARAMS GMIMC_VESTA_16_PARAMS GMIMC_VESTA_20_PARAMS GMIMC_VESTA_24_PARAMS;
}
