//! Construction of GMiMC and Neptune parameters under controlled random draws, and the learned
//! correspondence between draws and model parameters.

pub mod gm {
    use crate::bind;
    use crate::explore::guarded;
    use crate::field::with_draws;
    use crate::gen::*;
    use crate::refm::*;
    use std::sync::Arc;
    use zkhash::gmimc::{gmimc::Gmimc, gmimc_params::GmimcParams};

    pub fn construct<A: Fld>(t: usize, d: usize, rounds: usize, draws: Vec<num_bigint::BigUint>) -> (Gmimc<A::F>, usize, (usize, usize)) {
        let (p, used) = with_draws(draws, 1u32.into(), || GmimcParams::<A::F>::new(t, d, rounds));
        let g = (p.get_t(), p.get_rounds());
        (Gmimc::new(&Arc::new(p)), used, g)
    }

    /// slot (round) -> draw, for this number of rounds
    pub fn binding(t: usize, d: usize, rounds: usize) -> Result<Vec<usize>, String> {
        memo(format!("gm {t} {d} {rounds}"), || {
            type A = XGoldi;
            let f = A::r();
            let x: Vec<u64> = (0..t).map(|i| cval(&f, 5, i as u64)).collect();
            let xe = f.encv::<<A as Fld>::F>(&x);
            let id: Vec<usize> = (0..rounds).collect();
            let rev: Vec<usize> = (0..rounds).rev().collect();
            bind::learn(
                &f,
                rounds,
                &[id, rev],
                |dr| guarded(|| {
                    let (i, used, _) = construct::<A>(t, d, rounds, dr.iter().map(|x| f.big(x)).collect());
                    (f.decv(&i.permutation_not_opt(&xe)), used)
                }).ok(),
                |s| Gm { f: f.clone(), t, d, rc: s.to_vec() }.perm(&x, &mut NoObs),
                700,
            )
        })
    }
}

pub mod nep {
    use crate::bind;
    use crate::explore::guarded;
    use crate::field::with_draws;
    use crate::gen::*;
    use crate::refm::*;
    use std::sync::Arc;
    use zkhash::neptune::{neptune::Neptune, neptune_params::NeptuneParams};

    #[derive(Clone, Copy, Debug)]
    pub struct Shape {
        pub t: usize,
        pub d: usize,
        pub rf: usize,
        pub rp: usize,
    }
    impl Shape {
        pub fn rc(&self) -> usize {
            (self.rf + self.rp) * self.t
        }
        pub fn me(&self) -> usize {
            if self.t == 4 || self.t == 8 {
                0
            } else {
                (self.t / 2) * (self.t / 2)
            }
        }
        /// constants, M', M'', diagonal, gamma
        pub fn slots(&self) -> usize {
            self.rc() + 2 * self.me() + self.t + 1
        }
        pub fn mu0(&self) -> usize {
            self.rc() + 2 * self.me()
        }
        /// the script of draws for these parameter values. What nothing depends on (the diagonal without internal rounds, gamma without
        /// external ones) is bound to any of the left over draws; it is given 1, which no draw redraws.
        pub fn script<R: Rf>(&self, f: &R, bind: &[usize], slots: &[R::E]) -> Vec<num_bigint::BigUint> {
            let mut s = slots.to_vec();
            if self.rp == 0 {
                s[self.mu0()..self.mu0() + self.t].fill(f.one());
            }
            if self.rf == 0 {
                *s.last_mut().unwrap() = f.one();
            }
            bind::script(f, bind, &s)
        }
        pub fn model<R: Rf>(&self, f: &R, s: &[R::E]) -> Nep<R> {
            let h = self.t / 2;
            let rc = s[..self.rc()].chunks(self.t).map(|x| x.to_vec()).collect();
            let (a, b) = match nep_fixed(f, self.t) {
                Some(x) => x,
                None => {
                    let m = &s[self.rc()..];
                    (m[..h * h].chunks(h).map(|x| x.to_vec()).collect(), m[h * h..2 * h * h].chunks(h).map(|x| x.to_vec()).collect())
                }
            };
            let mu = s[self.mu0()..self.mu0() + self.t].to_vec();
            Nep::new(f, self.t, self.d, self.rf, self.rp, rc, nep_interleave(f, &a, &b), mu, s[self.slots() - 1].clone())
        }
        /// plausible orders of the draws: every order of the blocks, with the two matrices apart or interleaved
        pub fn orders(&self) -> Vec<Vec<usize>> {
            let (rc, me, t) = (self.rc(), self.me(), self.t);
            let h = t / 2;
            let blk = |a: usize, n: usize| -> Vec<usize> { (a..a + n).collect() };
            let il: Vec<usize> = (0..me).flat_map(|k| [rc + k, rc + me + k]).collect();
            let ilr: Vec<usize> = if me == 0 { vec![] } else { (0..h).flat_map(|r| blk(rc + r * h, h).into_iter().chain(blk(rc + me + r * h, h))).collect() };
            let sets: Vec<Vec<Vec<usize>>> = vec![
                vec![blk(0, rc), blk(rc, me), blk(rc + me, me), blk(rc + 2 * me, t), blk(rc + 2 * me + t, 1)],
                vec![blk(0, rc), il, blk(rc + 2 * me, t), blk(rc + 2 * me + t, 1)],
                vec![blk(0, rc), ilr, blk(rc + 2 * me, t), blk(rc + 2 * me + t, 1)],
            ];
            let mut out = vec![];
            for s in sets {
                let mut idx: Vec<usize> = (0..s.len()).collect();
                permutations(&mut idx, 0, &mut |p| {
                    // draws in this order feed these slots
                    let seq: Vec<usize> = p.iter().flat_map(|&k| s[k].clone()).collect();
                    let mut bind = vec![0; seq.len()];
                    for (draw, slot) in seq.iter().enumerate() {
                        bind[*slot] = draw;
                    }
                    out.push(bind);
                });
            }
            out
        }
    }
    fn permutations(v: &mut Vec<usize>, k: usize, f: &mut impl FnMut(&[usize])) {
        if k == v.len() {
            return f(v);
        }
        for i in k..v.len() {
            v[k..=i].rotate_right(1);
            permutations(v, k + 1, f);
            v[k..=i].rotate_left(1);
        }
    }

    pub fn construct<A: Fld>(s: Shape, draws: Vec<num_bigint::BigUint>) -> (Neptune<A::F>, usize) {
        let (p, used) = with_draws(draws, 1u32.into(), || NeptuneParams::<A::F>::new(s.t, s.d, s.rf, s.rp));
        (Neptune::new(&Arc::new(p)), used)
    }

    pub fn binding(s: Shape) -> Result<Vec<usize>, String> {
        memo(format!("nep {s:?}"), || {
            type A = XGoldi;
            let f = A::r();
            let x: Vec<u64> = (0..s.t).map(|i| cval(&f, 5, i as u64)).collect();
            let xe = f.encv::<<A as Fld>::F>(&x);
            bind::learn(
                &f,
                s.slots(),
                &s.orders(),
                |dr| guarded(|| {
                    let (i, used) = construct::<A>(s, dr.iter().map(|x| f.big(x)).collect());
                    (f.decv(&i.permutation(&xe)), used)
                }).ok(),
                |sl| s.model(&f, sl).perm(&x, &mut NoObs),
                700,
            )
        })
    }
}
