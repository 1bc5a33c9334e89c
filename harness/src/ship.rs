//! The shipped Poseidon2 and Poseidon instances: documented shapes, and access to their statics.
use crate::gen::*;
use std::sync::Arc;

pub struct Inst {
    pub name: &'static str,
    pub fl: &'static str,
    pub t: usize,
    pub d: usize,
    pub rf: usize,
    pub rp: usize,
}

pub mod p2 {
    use super::*;
    use zkhash::poseidon2::poseidon2_params::Poseidon2Params;

    pub const INSTS: [Inst; 15] = [
        Inst { name: "GOLDILOCKS_8", fl: "goldi", t: 8, d: 7, rf: 8, rp: 22 },
        Inst { name: "GOLDILOCKS_12", fl: "goldi", t: 12, d: 7, rf: 8, rp: 22 },
        Inst { name: "GOLDILOCKS_16", fl: "goldi", t: 16, d: 7, rf: 8, rp: 22 },
        Inst { name: "GOLDILOCKS_20", fl: "goldi", t: 20, d: 7, rf: 8, rp: 22 },
        Inst { name: "BABYBEAR_16", fl: "baby", t: 16, d: 7, rf: 8, rp: 13 },
        Inst { name: "BABYBEAR_24", fl: "baby", t: 24, d: 7, rf: 8, rp: 21 },
        Inst { name: "BLS_2", fl: "bls", t: 2, d: 5, rf: 8, rp: 56 },
        Inst { name: "BLS_3", fl: "bls", t: 3, d: 5, rf: 8, rp: 56 },
        Inst { name: "BLS_4", fl: "bls", t: 4, d: 5, rf: 8, rp: 56 },
        Inst { name: "BLS_8", fl: "bls", t: 8, d: 5, rf: 8, rp: 57 },
        Inst { name: "BN256", fl: "bn", t: 3, d: 5, rf: 8, rp: 56 },
        Inst { name: "PALLAS_3", fl: "pallas", t: 3, d: 5, rf: 8, rp: 56 },
        Inst { name: "PALLAS_4", fl: "pallas", t: 4, d: 5, rf: 8, rp: 56 },
        Inst { name: "PALLAS_8", fl: "pallas", t: 8, d: 5, rf: 8, rp: 57 },
        Inst { name: "VESTA", fl: "vesta", t: 3, d: 5, rf: 8, rp: 56 },
    ];

    #[allow(clippy::type_complexity)]
    pub fn tables<A: Fld>(name: &str) -> (Arc<Poseidon2Params<A::F>>, Vec<A::F>, Vec<Vec<A::F>>, Vec<Vec<A::F>>) {
        use std::any::Any;
        use zkhash::poseidon2::*;
        macro_rules! t { ($($n:literal => $m:ident $p:ident $d:ident $i:ident $r:ident;)*) => { match name {
            $($n => Box::new(($m::$p.clone(), $m::$d.clone(), $m::$i.clone(), $m::$r.clone())) as Box<dyn Any>,)* n => panic!("{n}") } } }
        let b = t! {
            "GOLDILOCKS_8" => poseidon2_instance_goldilocks POSEIDON2_GOLDILOCKS_8_PARAMS MAT_DIAG8_M_1 MAT_INTERNAL8 RC8;
            "GOLDILOCKS_12" => poseidon2_instance_goldilocks POSEIDON2_GOLDILOCKS_12_PARAMS MAT_DIAG12_M_1 MAT_INTERNAL12 RC12;
            "GOLDILOCKS_16" => poseidon2_instance_goldilocks POSEIDON2_GOLDILOCKS_16_PARAMS MAT_DIAG16_M_1 MAT_INTERNAL16 RC16;
            "GOLDILOCKS_20" => poseidon2_instance_goldilocks POSEIDON2_GOLDILOCKS_20_PARAMS MAT_DIAG20_M_1 MAT_INTERNAL20 RC20;
            "BABYBEAR_16" => poseidon2_instance_babybear POSEIDON2_BABYBEAR_16_PARAMS MAT_DIAG16_M_1 MAT_INTERNAL16 RC16;
            "BABYBEAR_24" => poseidon2_instance_babybear POSEIDON2_BABYBEAR_24_PARAMS MAT_DIAG24_M_1 MAT_INTERNAL24 RC24;
            "BLS_2" => poseidon2_instance_bls12 POSEIDON2_BLS_2_PARAMS MAT_DIAG2_M_1 MAT_INTERNAL2 RC2;
            "BLS_3" => poseidon2_instance_bls12 POSEIDON2_BLS_3_PARAMS MAT_DIAG3_M_1 MAT_INTERNAL3 RC3;
            "BLS_4" => poseidon2_instance_bls12 POSEIDON2_BLS_4_PARAMS MAT_DIAG4_M_1 MAT_INTERNAL4 RC4;
            "BLS_8" => poseidon2_instance_bls12 POSEIDON2_BLS_8_PARAMS MAT_DIAG8_M_1 MAT_INTERNAL8 RC8;
            "BN256" => poseidon2_instance_bn256 POSEIDON2_BN256_PARAMS MAT_DIAG3_M_1 MAT_INTERNAL3 RC3;
            "PALLAS_3" => poseidon2_instance_pallas POSEIDON2_PALLAS_3_PARAMS MAT_DIAG3_M_1 MAT_INTERNAL3 RC3;
            "PALLAS_4" => poseidon2_instance_pallas POSEIDON2_PALLAS_4_PARAMS MAT_DIAG4_M_1 MAT_INTERNAL4 RC4;
            "PALLAS_8" => poseidon2_instance_pallas POSEIDON2_PALLAS_8_PARAMS MAT_DIAG8_M_1 MAT_INTERNAL8 RC8;
            "VESTA" => poseidon2_instance_vesta POSEIDON2_VESTA_PARAMS MAT_DIAG3_M_1 MAT_INTERNAL3 RC3;
        };
        *b.downcast().unwrap()
    }
}

pub mod pos {
    use super::*;
    use zkhash::poseidon::poseidon_params::PoseidonParams;

    pub const INSTS: [Inst; 15] = [
        Inst { name: "GOLDILOCKS_8", fl: "goldi", t: 8, d: 7, rf: 8, rp: 22 },
        Inst { name: "GOLDILOCKS_12", fl: "goldi", t: 12, d: 7, rf: 8, rp: 22 },
        Inst { name: "GOLDILOCKS_16", fl: "goldi", t: 16, d: 7, rf: 8, rp: 22 },
        Inst { name: "GOLDILOCKS_20", fl: "goldi", t: 20, d: 7, rf: 8, rp: 22 },
        Inst { name: "BABYBEAR_16", fl: "baby", t: 16, d: 7, rf: 8, rp: 13 },
        Inst { name: "BABYBEAR_24", fl: "baby", t: 24, d: 7, rf: 8, rp: 21 },
        Inst { name: "BLS_2", fl: "bls", t: 2, d: 5, rf: 8, rp: 56 },
        Inst { name: "BLS_3", fl: "bls", t: 3, d: 5, rf: 8, rp: 56 },
        Inst { name: "BLS_4", fl: "bls", t: 4, d: 5, rf: 8, rp: 56 },
        Inst { name: "BLS_8", fl: "bls", t: 8, d: 5, rf: 8, rp: 57 },
        Inst { name: "BN", fl: "bn", t: 3, d: 5, rf: 8, rp: 56 },
        Inst { name: "PALLAS_3", fl: "pallas", t: 3, d: 5, rf: 8, rp: 56 },
        Inst { name: "PALLAS_4", fl: "pallas", t: 4, d: 5, rf: 8, rp: 56 },
        Inst { name: "PALLAS_8", fl: "pallas", t: 8, d: 5, rf: 8, rp: 57 },
        Inst { name: "VESTA", fl: "vesta", t: 3, d: 5, rf: 8, rp: 56 },
    ];

    #[allow(clippy::type_complexity)]
    pub fn tables<A: Fld>(name: &str) -> (Arc<PoseidonParams<A::F>>, Vec<Vec<A::F>>, Vec<Vec<A::F>>) {
        use std::any::Any;
        use zkhash::poseidon::*;
        macro_rules! t { ($($n:literal => $m:ident $p:ident $d:ident $r:ident;)*) => { match name {
            $($n => Box::new(($m::$p.clone(), $m::$d.clone(), $m::$r.clone())) as Box<dyn Any>,)* n => panic!("{n}") } } }
        let b = t! {
            "GOLDILOCKS_8" => poseidon_instance_goldilocks POSEIDON_GOLDILOCKS_8_PARAMS MDS8 RC8;
            "GOLDILOCKS_12" => poseidon_instance_goldilocks POSEIDON_GOLDILOCKS_12_PARAMS MDS12 RC12;
            "GOLDILOCKS_16" => poseidon_instance_goldilocks POSEIDON_GOLDILOCKS_16_PARAMS MDS16 RC16;
            "GOLDILOCKS_20" => poseidon_instance_goldilocks POSEIDON_GOLDILOCKS_20_PARAMS MDS20 RC20;
            "BABYBEAR_16" => poseidon_instance_babybear POSEIDON_BABYBEAR_16_PARAMS MDS16 RC16;
            "BABYBEAR_24" => poseidon_instance_babybear POSEIDON_BABYBEAR_24_PARAMS MDS24 RC24;
            "BLS_2" => poseidon_instance_bls12 POSEIDON_BLS_2_PARAMS MDS2 RC2;
            "BLS_3" => poseidon_instance_bls12 POSEIDON_BLS_3_PARAMS MDS3 RC3;
            "BLS_4" => poseidon_instance_bls12 POSEIDON_BLS_4_PARAMS MDS4 RC4;
            "BLS_8" => poseidon_instance_bls12 POSEIDON_BLS_8_PARAMS MDS8 RC8;
            "BN" => poseidon_instance_bn256 POSEIDON_BN_PARAMS MDS3 RC3;
            "PALLAS_3" => poseidon_instance_pallas POSEIDON_PALLAS_3_PARAMS MDS3 RC3;
            "PALLAS_4" => poseidon_instance_pallas POSEIDON_PALLAS_4_PARAMS MDS4 RC4;
            "PALLAS_8" => poseidon_instance_pallas POSEIDON_PALLAS_8_PARAMS MDS8 RC8;
            "VESTA" => poseidon_instance_vesta POSEIDON_VESTA_PARAMS MDS3 RC3;
        };
        *b.downcast().unwrap()
    }
}
