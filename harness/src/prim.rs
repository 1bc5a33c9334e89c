//! The four permutations behind one interface, for checks that compare the code with itself.
use crate::field::with_draws;
use crate::gen::*;
use crate::refm::*;
use ark_ff::PrimeField;
use std::sync::Arc;
use zkhash::gmimc::{gmimc::Gmimc, gmimc_params::GmimcParams};
use zkhash::merkle_tree::merkle_tree_fp::MerkleTreeHash;
use zkhash::neptune::{neptune::Neptune, neptune_params::NeptuneParams};
use zkhash::poseidon::{poseidon::Poseidon, poseidon_params::PoseidonParams};
use zkhash::poseidon2::{poseidon2::Poseidon2, poseidon2_params::Poseidon2Params};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    P2,
    Pos,
    Gm,
    Nep,
}
pub const KINDS: [Kind; 4] = [Kind::P2, Kind::Pos, Kind::Gm, Kind::Nep];
use Kind::*;

#[derive(Clone, Copy, Debug)]
pub struct Cfg {
    pub kind: Kind,
    pub t: usize,
    pub d: usize,
    /// full rounds; all rounds for GMiMC
    pub rf: usize,
    pub rp: usize,
    pub pat: u64,
}

#[derive(Clone, Debug)]
pub enum Params<F: PrimeField> {
    P2(Arc<Poseidon2Params<F>>),
    Pos(Arc<PoseidonParams<F>>),
    Gm(Arc<GmimcParams<F>>),
    Nep(Arc<NeptuneParams<F>>),
}
#[derive(Clone, Debug)]
pub enum Prim<F: PrimeField> {
    P2(Poseidon2<F>),
    Pos(Poseidon<F>),
    Gm(Gmimc<F>),
    Nep(Neptune<F>),
}

/// a matrix for which Poseidon's sparse form exists
pub fn pos_matrix<R: Rf>(f: &R, t: usize) -> Mat<R::E> {
    let ok = |m: &Mat<R::E>| invertible(f, m) && invertible(f, &m[1..].iter().map(|r| r[1..].to_vec()).collect::<Mat<_>>());
    for s in 0..40u64 {
        let m: Mat<R::E> = (0..t).map(|i| (0..t).map(|j| cval(f, 20 + s, (i * t + j) as u64)).collect()).collect();
        if ok(&m) {
            return m;
        }
    }
    ident(f, t)
}
pub fn p2_diag<R: Rf>(f: &R, t: usize) -> Vec<R::E> {
    match t {
        2 => vec![f.of64(1), f.of64(2)],
        3 => vec![f.of64(1), f.of64(1), f.of64(2)],
        _ => {
            for s in 0..40u64 {
                let d: Vec<R::E> = (0..t).map(|i| cval(f, 20 + s, 1000 + 13 * i as u64)).collect();
                if invertible(f, &ones_plus_diag(f, &d)) {
                    return d;
                }
            }
            vec![f.one(); t]
        }
    }
}

/// What the constructor of this configuration is given: tables, or what the sampler answers.
#[derive(Clone)]
pub struct Inputs<F> {
    c: Cfg,
    diag: Vec<F>,
    mat: Vec<Vec<F>>,
    rc: Vec<Vec<F>>,
    draws: Vec<num_bigint::BigUint>,
}
pub fn inputs<A: Fld>(c: Cfg) -> Inputs<A::F> {
    let f = A::r();
    let (t, rf, rp) = (c.t, c.rf, c.rp);
    let script = |n: usize| (0..n).map(|k| { let v = f.big(&cval(&f, c.pat, k as u64)); if v == 0u32.into() { 1u32.into() } else { v } }).collect::<Vec<_>>();
    let mut i = Inputs { c, diag: vec![], mat: vec![], rc: vec![], draws: vec![] };
    match c.kind {
        P2 => {
            let dm = p2_diag(&f, t);
            i.diag = f.encv(&dm);
            i.mat = f.encm(&ones_plus_diag(&f, &dm));
            i.rc = f.encm(&rc_rows(&f, c.pat, t, rf, rp, true));
        }
        Pos => {
            i.mat = f.encm(&pos_matrix(&f, t));
            i.rc = f.encm(&rc_rows(&f, c.pat, t, rf, rp, false));
        }
        Gm => i.draws = script(rf),
        Nep => i.draws = script((rf + rp) * t + t * t + 2 * t + 4),
    }
    i
}
impl<F: PrimeField> Inputs<F> {
    pub fn build(&self) -> Params<F> {
        let Cfg { t, d, rf, rp, .. } = self.c;
        match self.c.kind {
            P2 => Params::P2(Arc::new(Poseidon2Params::new(t, d, rf, rp, &self.diag, &self.mat, &self.rc))),
            Pos => Params::Pos(Arc::new(PoseidonParams::new(t, d, rf, rp, &self.mat, &self.rc))),
            Gm => Params::Gm(Arc::new(with_draws(self.draws.clone(), 1u32.into(), || GmimcParams::<F>::new(t, d, rf)).0)),
            Nep => Params::Nep(Arc::new(with_draws(self.draws.clone(), 1u32.into(), || NeptuneParams::<F>::new(t, d, rf, rp)).0)),
        }
    }
}
/// Parameters of this configuration. `A` has the controlled sampler, so this is a function of `c`.
pub fn params<A: Fld>(c: Cfg) -> Params<A::F> {
    inputs::<A>(c).build()
}
impl<F: PrimeField> Params<F> {
    pub fn instance(&self) -> Prim<F> {
        match self {
            Params::P2(p) => Prim::P2(Poseidon2::new(p)),
            Params::Pos(p) => Prim::Pos(Poseidon::new(p)),
            Params::Gm(p) => Prim::Gm(Gmimc::new(p)),
            Params::Nep(p) => Prim::Nep(Neptune::new(p)),
        }
    }
}
impl<F: PrimeField> Prim<F> {
    pub fn t(&self) -> usize {
        match self {
            Prim::P2(p) => p.get_t(),
            Prim::Pos(p) => p.get_t(),
            Prim::Gm(p) => p.get_t(),
            Prim::Nep(p) => p.get_t(),
        }
    }
    pub fn perm(&self, x: &[F]) -> Vec<F> {
        match self {
            Prim::P2(p) => p.permutation(x),
            Prim::Pos(p) => p.permutation(x),
            Prim::Gm(p) => p.permutation(x),
            Prim::Nep(p) => p.permutation(x),
        }
    }
    /// the second evaluation where there is one
    pub fn plain(&self, x: &[F]) -> Vec<F> {
        match self {
            Prim::Pos(p) => p.permutation_not_opt(x),
            Prim::Gm(p) => p.permutation_not_opt(x),
            _ => self.perm(x),
        }
    }
    pub fn has_plain(&self) -> bool {
        matches!(self, Prim::Pos(_) | Prim::Gm(_))
    }
}
impl<F: PrimeField> MerkleTreeHash<F> for Prim<F> {
    fn compress(&self, x: &[&F]) -> F {
        match self {
            Prim::P2(p) => p.compress(x),
            Prim::Pos(p) => p.compress(x),
            Prim::Gm(p) => p.compress(x),
            Prim::Nep(p) => p.compress(x),
        }
    }
}
