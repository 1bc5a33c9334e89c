//! Reference models: the four permutations written directly from their specifications, over
//! integers modulo p, with dense matrices and plain exponentiation. Nothing here is shared with
//! the code under test. Every model is a transition system whose steps are the rounds; the
//! observer sees every intermediate state.

use ark_ff::PrimeField;
use num_bigint::BigUint;
use num_integer::Integer;
use num_traits::{One, Zero};
use std::fmt::Debug;

pub trait Rf: Clone + Send + Sync + 'static {
    type E: Clone + Eq + Debug + Send + Sync + 'static;
    fn p(&self) -> BigUint;
    fn zero(&self) -> Self::E;
    fn one(&self) -> Self::E;
    /// any integer, reduced
    fn of(&self, v: &BigUint) -> Self::E;
    fn of64(&self, v: u64) -> Self::E;
    fn add(&self, a: &Self::E, b: &Self::E) -> Self::E;
    fn sub(&self, a: &Self::E, b: &Self::E) -> Self::E;
    fn mul(&self, a: &Self::E, b: &Self::E) -> Self::E;
    fn big(&self, a: &Self::E) -> BigUint;
    fn key(&self, a: &Self::E) -> u64;
    fn enc<F: PrimeField>(&self, a: &Self::E) -> F;
    fn dec<F: PrimeField>(&self, a: &F) -> Self::E;

    fn is0(&self, a: &Self::E) -> bool {
        *a == self.zero()
    }
    fn neg(&self, a: &Self::E) -> Self::E {
        self.sub(&self.zero(), a)
    }
    fn pow(&self, a: &Self::E, e: u64) -> Self::E {
        let mut r = self.one();
        for i in (0..64).rev() {
            r = self.mul(&r, &r);
            if e >> i & 1 == 1 {
                r = self.mul(&r, a);
            }
        }
        r
    }
    /// x^d for the small degrees of the S-boxes, by repeated multiplication
    fn powd(&self, a: &Self::E, d: usize) -> Self::E {
        let mut r = a.clone();
        for _ in 1..d {
            r = self.mul(&r, a);
        }
        r
    }
    fn powb(&self, a: &Self::E, e: &BigUint) -> Self::E {
        let mut r = self.one();
        for i in (0..e.bits()).rev() {
            r = self.mul(&r, &r);
            if e.bit(i) {
                r = self.mul(&r, a);
            }
        }
        r
    }
    fn inv(&self, a: &Self::E) -> Option<Self::E> {
        if self.is0(a) {
            None
        } else {
            Some(self.powb(a, &(self.p() - 2u32)))
        }
    }
    fn encv<F: PrimeField>(&self, a: &[Self::E]) -> Vec<F> {
        a.iter().map(|x| self.enc(x)).collect()
    }
    fn decv<F: PrimeField>(&self, a: &[F]) -> Vec<Self::E> {
        a.iter().map(|x| self.dec(x)).collect()
    }
    fn decm<F: PrimeField>(&self, m: &[Vec<F>]) -> Mat<Self::E> {
        m.iter().map(|r| self.decv(r)).collect()
    }
    fn encm<F: PrimeField>(&self, a: &[Vec<Self::E>]) -> Vec<Vec<F>> {
        a.iter().map(|x| self.encv(x)).collect()
    }
    fn hash(&self, a: &[Self::E]) -> u64 {
        a.iter().fold(0x1234_5678, |h, x| crate::explore::mix(h, self.key(x)))
    }
}

/// p < 2^64
#[derive(Clone, Debug)]
pub struct Small {
    pub p: u64,
}
impl Rf for Small {
    type E = u64;
    fn p(&self) -> BigUint {
        self.p.into()
    }
    fn zero(&self) -> u64 {
        0
    }
    fn one(&self) -> u64 {
        1
    }
    fn of(&self, v: &BigUint) -> u64 {
        (v % self.p).iter_u64_digits().next().unwrap_or(0)
    }
    fn of64(&self, v: u64) -> u64 {
        v % self.p
    }
    #[inline]
    fn add(&self, a: &u64, b: &u64) -> u64 {
        let s = *a as u128 + *b as u128;
        (if s >= self.p as u128 { s - self.p as u128 } else { s }) as u64
    }
    #[inline]
    fn sub(&self, a: &u64, b: &u64) -> u64 {
        if a >= b {
            a - b
        } else {
            self.p - (b - a)
        }
    }
    #[inline]
    fn mul(&self, a: &u64, b: &u64) -> u64 {
        if self.p >> 32 == 0 {
            a * b % self.p
        } else {
            (*a as u128 * *b as u128 % self.p as u128) as u64
        }
    }
    fn big(&self, a: &u64) -> BigUint {
        (*a).into()
    }
    fn key(&self, a: &u64) -> u64 {
        *a
    }
    #[inline]
    fn enc<F: PrimeField>(&self, a: &u64) -> F {
        F::from(*a)
    }
    #[inline]
    fn dec<F: PrimeField>(&self, a: &F) -> u64 {
        a.into_bigint().as_ref()[0]
    }
}

#[derive(Clone, Debug)]
pub struct Big {
    pub p: BigUint,
}
impl Rf for Big {
    type E = BigUint;
    fn p(&self) -> BigUint {
        self.p.clone()
    }
    fn zero(&self) -> BigUint {
        BigUint::zero()
    }
    fn one(&self) -> BigUint {
        BigUint::one()
    }
    fn of(&self, v: &BigUint) -> BigUint {
        v % &self.p
    }
    fn of64(&self, v: u64) -> BigUint {
        BigUint::from(v) % &self.p
    }
    fn add(&self, a: &BigUint, b: &BigUint) -> BigUint {
        let s = a + b;
        if s >= self.p {
            s - &self.p
        } else {
            s
        }
    }
    fn sub(&self, a: &BigUint, b: &BigUint) -> BigUint {
        if a >= b {
            a - b
        } else {
            &self.p + a - b
        }
    }
    fn mul(&self, a: &BigUint, b: &BigUint) -> BigUint {
        (a * b) % &self.p
    }
    fn big(&self, a: &BigUint) -> BigUint {
        a.clone()
    }
    fn key(&self, a: &BigUint) -> u64 {
        a.iter_u64_digits().fold(7, |h, d| crate::explore::mix(h, d))
    }
    fn enc<F: PrimeField>(&self, a: &BigUint) -> F {
        F::from(a.clone())
    }
    fn dec<F: PrimeField>(&self, a: &F) -> BigUint {
        (*a).into()
    }
}

pub type Mat<E> = Vec<Vec<E>>;

pub fn mat_vec<R: Rf>(f: &R, m: &Mat<R::E>, v: &[R::E]) -> Vec<R::E> {
    m.iter()
        .map(|row| row.iter().zip(v).fold(f.zero(), |a, (x, y)| f.add(&a, &f.mul(x, y))))
        .collect()
}
pub fn mat_mat<R: Rf>(f: &R, a: &Mat<R::E>, b: &Mat<R::E>) -> Mat<R::E> {
    (0..a.len())
        .map(|i| (0..b[0].len()).map(|j| (0..b.len()).fold(f.zero(), |s, k| f.add(&s, &f.mul(&a[i][k], &b[k][j])))).collect())
        .collect()
}
pub fn ident<R: Rf>(f: &R, n: usize) -> Mat<R::E> {
    (0..n).map(|i| (0..n).map(|j| if i == j { f.one() } else { f.zero() }).collect()).collect()
}
/// Gauss-Jordan with pivoting
pub fn mat_inv<R: Rf>(f: &R, m: &Mat<R::E>) -> Option<Mat<R::E>> {
    let n = m.len();
    let mut a = m.clone();
    let mut b = ident(f, n);
    for c in 0..n {
        let piv = (c..n).find(|&r| !f.is0(&a[r][c]))?;
        a.swap(c, piv);
        b.swap(c, piv);
        let iv = f.inv(&a[c][c]).unwrap();
        for k in 0..n {
            a[c][k] = f.mul(&a[c][k], &iv);
            b[c][k] = f.mul(&b[c][k], &iv);
        }
        for r in 0..n {
            if r != c && !f.is0(&a[r][c]) {
                let l = a[r][c].clone();
                for k in 0..n {
                    a[r][k] = f.sub(&a[r][k], &f.mul(&l, &a[c][k]));
                    b[r][k] = f.sub(&b[r][k], &f.mul(&l, &b[c][k]));
                }
            }
        }
    }
    Some(b)
}
pub fn invertible<R: Rf>(f: &R, m: &Mat<R::E>) -> bool {
    let n = m.len();
    let mut a = m.clone();
    for c in 0..n {
        let Some(piv) = (c..n).find(|&r| !f.is0(&a[r][c])) else { return false };
        a.swap(c, piv);
        let iv = f.inv(&a[c][c]).unwrap();
        for r in c + 1..n {
            if !f.is0(&a[r][c]) {
                let l = f.mul(&a[r][c], &iv);
                for k in c..n {
                    a[r][k] = f.sub(&a[r][k], &f.mul(&l, &a[c][k]));
                }
            }
        }
    }
    true
}

pub trait Obs<E> {
    fn see(&mut self, step: usize, s: &[E]);
}
pub struct NoObs;
impl<E> Obs<E> for NoObs {
    fn see(&mut self, _: usize, _: &[E]) {}
}
/// counts steps and distinct states in the exploration context
pub struct CtxObs<'a, R: Rf>(pub &'a mut crate::explore::Ctx, pub &'a R);
impl<'a, R: Rf> Obs<R::E> for CtxObs<'a, R> {
    #[inline]
    fn see(&mut self, step: usize, s: &[R::E]) {
        let h = crate::explore::mix(step as u64, self.1.hash(s));
        self.0.step(h);
    }
}

/// d * e = 1 mod p - 1
pub fn root_exp(p: &BigUint, d: u64) -> Option<BigUint> {
    let m = p - 1u32;
    let d = num_bigint::BigInt::from(d);
    let mi = num_bigint::BigInt::from(m);
    let g = d.extended_gcd(&mi);
    if !g.gcd.is_one() {
        return None;
    }
    Some(g.x.mod_floor(&mi).to_biguint().unwrap())
}

// ---------------------------------------------------------------- Poseidon2

#[derive(Clone)]
pub struct P2<R: Rf> {
    pub f: R,
    pub t: usize,
    pub d: usize,
    pub rf: usize,
    pub rp: usize,
    /// rows: rf+rp, partial rows hold only the first constant (others zero)
    pub rc: Mat<R::E>,
    pub diag_m1: Vec<R::E>,
    pub me: Mat<R::E>,
    pub mi: Mat<R::E>,
    inv: Inv<R::E>,
}
type Inv<E> = std::sync::OnceLock<Option<(Mat<E>, Mat<E>)>>;

pub fn p2_external<R: Rf>(f: &R, t: usize) -> Mat<R::E> {
    let m4: [[u64; 4]; 4] = [[5, 7, 1, 3], [4, 6, 1, 1], [1, 3, 5, 7], [1, 1, 4, 6]];
    let g = |v: u64| f.of64(v);
    match t {
        2 => vec![vec![g(2), g(1)], vec![g(1), g(2)]],
        3 => vec![vec![g(2), g(1), g(1)], vec![g(1), g(2), g(1)], vec![g(1), g(1), g(2)]],
        4 => (0..4).map(|i| (0..4).map(|j| g(m4[i][j])).collect()).collect(),
        _ => (0..t)
            .map(|i| (0..t).map(|j| g(m4[i % 4][j % 4] * if i / 4 == j / 4 { 2 } else { 1 })).collect())
            .collect(),
    }
}
pub fn ones_plus_diag<R: Rf>(f: &R, d: &[R::E]) -> Mat<R::E> {
    (0..d.len()).map(|i| (0..d.len()).map(|j| if i == j { f.add(&f.one(), &d[i]) } else { f.one() }).collect()).collect()
}

impl<R: Rf> P2<R> {
    pub fn new(f: &R, t: usize, d: usize, rf: usize, rp: usize, rc: Mat<R::E>, diag_m1: Vec<R::E>) -> Self {
        let me = p2_external(f, t);
        let mi = ones_plus_diag(f, &diag_m1);
        P2 { f: f.clone(), t, d, rf, rp, rc, diag_m1, me, mi, inv: Inv::new() }
    }
    pub fn perm(&self, x: &[R::E], o: &mut impl Obs<R::E>) -> Vec<R::E> {
        let f = &self.f;
        let mut s = mat_vec(f, &self.me, x);
        o.see(0, &s);
        for r in 0..self.rf + self.rp {
            if r < self.rf / 2 || r >= self.rf / 2 + self.rp {
                for i in 0..self.t {
                    s[i] = f.powd(&f.add(&s[i], &self.rc[r][i]), self.d);
                }
                s = mat_vec(f, &self.me, &s);
            } else {
                s[0] = f.powd(&f.add(&s[0], &self.rc[r][0]), self.d);
                s = mat_vec(f, &self.mi, &s);
            }
            o.see(r + 1, &s);
        }
        s
    }
    pub fn inverse(&self, y: &[R::E]) -> Option<Vec<R::E>> {
        self.back(self.rf + self.rp, y)
    }
    /// the input whose S-box layer input in round `r` is `z`
    pub fn target(&self, r: usize, z: &[R::E]) -> Option<Vec<R::E>> {
        let full = r < self.rf / 2 || r >= self.rf / 2 + self.rp;
        let s: Vec<_> = z.iter().enumerate().map(|(i, x)| if full || i == 0 { self.f.sub(x, &self.rc[r][i]) } else { x.clone() }).collect();
        self.back(r, &s)
    }
    /// the input for which the linear layer of round `r` is applied to `y`
    pub fn layer(&self, r: usize, y: &[R::E]) -> Option<Vec<R::E>> {
        let full = r < self.rf / 2 || r >= self.rf / 2 + self.rp;
        self.back(r + 1, &mat_vec(&self.f, if full { &self.me } else { &self.mi }, y))
    }
    /// the input that is in state `y` on entering round `n`
    pub fn back(&self, n: usize, y: &[R::E]) -> Option<Vec<R::E>> {
        let f = &self.f;
        let e = root_exp(&f.p(), self.d as u64)?;
        let (mei, mii) = self.inv.get_or_init(|| Some((mat_inv(f, &self.me)?, mat_inv(f, &self.mi)?))).as_ref()?;
        let mut s = y.to_vec();
        for r in (0..n).rev() {
            if r < self.rf / 2 || r >= self.rf / 2 + self.rp {
                s = mat_vec(f, mei, &s);
                for i in 0..self.t {
                    s[i] = f.sub(&f.powb(&s[i], &e), &self.rc[r][i]);
                }
            } else {
                s = mat_vec(f, mii, &s);
                s[0] = f.sub(&f.powb(&s[0], &e), &self.rc[r][0]);
            }
        }
        Some(mat_vec(f, mei, &s))
    }
}

// ---------------------------------------------------------------- Poseidon

#[derive(Clone)]
pub struct Pos<R: Rf> {
    pub f: R,
    pub t: usize,
    pub d: usize,
    pub rf: usize,
    pub rp: usize,
    pub mds: Mat<R::E>,
    pub rc: Mat<R::E>,
}
impl<R: Rf> Pos<R> {
    pub fn perm(&self, x: &[R::E], o: &mut impl Obs<R::E>) -> Vec<R::E> {
        let f = &self.f;
        let mut s = x.to_vec();
        for r in 0..self.rf + self.rp {
            for i in 0..self.t {
                s[i] = f.add(&s[i], &self.rc[r][i]);
            }
            let full = r < self.rf / 2 || r >= self.rf / 2 + self.rp;
            for i in 0..if full { self.t } else { 1 } {
                s[i] = f.powd(&s[i], self.d);
            }
            s = mat_vec(f, &self.mds, &s);
            o.see(r, &s);
        }
        s
    }
    pub fn inverse(&self, y: &[R::E]) -> Option<Vec<R::E>> {
        self.back(self.rf + self.rp, y)
    }
    pub fn target(&self, r: usize, z: &[R::E]) -> Option<Vec<R::E>> {
        let s: Vec<_> = z.iter().zip(&self.rc[r]).map(|(x, k)| self.f.sub(x, k)).collect();
        self.back(r, &s)
    }
    pub fn layer(&self, r: usize, y: &[R::E]) -> Option<Vec<R::E>> {
        self.back(r + 1, &mat_vec(&self.f, &self.mds, y))
    }
    pub fn back(&self, n: usize, y: &[R::E]) -> Option<Vec<R::E>> {
        let f = &self.f;
        let e = root_exp(&f.p(), self.d as u64)?;
        let mi = mat_inv(f, &self.mds)?;
        let mut s = y.to_vec();
        for r in (0..n).rev() {
            s = mat_vec(f, &mi, &s);
            let full = r < self.rf / 2 || r >= self.rf / 2 + self.rp;
            for i in 0..if full { self.t } else { 1 } {
                s[i] = f.powb(&s[i], &e);
            }
            for i in 0..self.t {
                s[i] = f.sub(&s[i], &self.rc[r][i]);
            }
        }
        Some(s)
    }
}

// ---------------------------------------------------------------- GMiMC (expanding round function)

#[derive(Clone)]
pub struct Gm<R: Rf> {
    pub f: R,
    pub t: usize,
    pub d: usize,
    pub rc: Vec<R::E>,
}
impl<R: Rf> Gm<R> {
    pub fn perm(&self, x: &[R::E], o: &mut impl Obs<R::E>) -> Vec<R::E> {
        let f = &self.f;
        let n = self.rc.len();
        let mut s = x.to_vec();
        for r in 0..n {
            let w = f.powd(&f.add(&s[0], &self.rc[r]), self.d);
            for k in 1..self.t {
                s[k] = f.add(&s[k], &w);
            }
            if r + 1 < n {
                let mut z = vec![s[self.t - 1].clone()];
                z.extend_from_slice(&s[..self.t - 1]);
                s = z;
            }
            o.see(r, &s);
        }
        s
    }
    pub fn inverse(&self, y: &[R::E]) -> Vec<R::E> {
        self.back(self.rc.len(), y)
    }
    /// the input whose state on entering round r is `z`, up to the first constant
    pub fn target(&self, r: usize, z: &[R::E]) -> Vec<R::E> {
        let mut s = z.to_vec();
        s[0] = self.f.sub(&s[0], &self.rc[r]);
        self.back(r, &s)
    }
    /// the input for which the S-box outputs of the t rounds from `r` on are `w`
    pub fn powers(&self, r: usize, w: &[R::E]) -> Option<Vec<R::E>> {
        let f = &self.f;
        let e = root_exp(&f.p(), self.d as u64)?;
        let mut s = w.to_vec();
        let mut sum = f.zero();
        for (k, x) in w.iter().enumerate() {
            s[(self.t - k) % self.t] = f.sub(&f.sub(&f.powb(x, &e), &self.rc[r + k]), &sum);
            sum = f.add(&sum, x);
        }
        Some(self.back(r, &s))
    }
    pub fn back(&self, m: usize, y: &[R::E]) -> Vec<R::E> {
        let f = &self.f;
        let n = self.rc.len();
        let mut s = y.to_vec();
        for r in (0..m).rev() {
            if r + 1 < n {
                let mut z = s[1..].to_vec();
                z.push(s[0].clone());
                s = z;
            }
            let w = f.powd(&f.add(&s[0], &self.rc[r]), self.d);
            for k in 1..self.t {
                s[k] = f.sub(&s[k], &w);
            }
        }
        s
    }
}

// ---------------------------------------------------------------- Neptune, alpha = beta = 1

#[derive(Clone)]
pub struct Nep<R: Rf> {
    pub f: R,
    pub t: usize,
    pub d: usize,
    pub rf: usize,
    pub rp: usize,
    pub rc: Mat<R::E>,
    /// t x t external matrix
    pub me: Mat<R::E>,
    /// diagonal of the internal matrix (ones elsewhere)
    pub mu: Vec<R::E>,
    pub gamma: R::E,
    mi: Mat<R::E>,
    inv: Inv<R::E>,
}
pub fn nep_interleave<R: Rf>(f: &R, m1: &Mat<R::E>, m2: &Mat<R::E>) -> Mat<R::E> {
    let h = m1.len();
    let mut m = vec![vec![f.zero(); 2 * h]; 2 * h];
    for i in 0..h {
        for j in 0..h {
            m[2 * i][2 * j] = m1[i][j].clone();
            m[2 * i + 1][2 * j + 1] = m2[i][j].clone();
        }
    }
    m
}
/// M' and M'' of the widths where they are fixed: circ(2,1), circ(1,2); circ(3,2,1,1), circ(1,1,2,3)
pub fn nep_fixed<R: Rf>(f: &R, t: usize) -> Option<(Mat<R::E>, Mat<R::E>)> {
    let circ = |row: &[u64]| -> Mat<R::E> {
        let n = row.len();
        (0..n).map(|i| (0..n).map(|j| f.of64(row[(j + n - i) % n])).collect()).collect()
    };
    match t {
        4 => Some((circ(&[2, 1]), circ(&[1, 2]))),
        8 => Some((circ(&[3, 2, 1, 1]), circ(&[1, 1, 2, 3]))),
        _ => None,
    }
}
impl<R: Rf> Nep<R> {
    pub fn new(f: &R, t: usize, d: usize, rf: usize, rp: usize, rc: Mat<R::E>, me: Mat<R::E>, mu: Vec<R::E>, gamma: R::E) -> Self {
        let mi = (0..t).map(|i| (0..t).map(|j| if i == j { mu[i].clone() } else { f.one() }).collect()).collect();
        Nep { f: f.clone(), t, d, rf, rp, rc, me, mu, gamma, mi, inv: Inv::new() }
    }
    pub fn mi(&self) -> &Mat<R::E> {
        &self.mi
    }
    /// the pair with difference `z` whose second square in the S-box is of `w`
    pub fn sbox2_inner(&self, z: &R::E, w: &R::E) -> (R::E, R::E) {
        let f = &self.f;
        let x0 = f.sub(&f.add(&f.sub(&f.add(z, z), &f.mul(z, z)), &self.gamma), w);
        let x1 = f.sub(&x0, z);
        (x0, x1)
    }
    /// S'(x0,x1) of the specification: two Lai-Massey-like steps around the matrix [[2,1],[1,3]]:
    ///   y0 = 2 x0 +   x1 + 3 (x0-x1)^2 + (x0 - 2 x1 - (x0-x1)^2 + g)^2
    ///   y1 =   x0 + 3 x1 + 4 (x0-x1)^2 + (x0 - 2 x1 - (x0-x1)^2 + g)^2
    pub fn sbox2(&self, a: &R::E, b: &R::E) -> (R::E, R::E) {
        let f = &self.f;
        let c = |k: u64, v: &R::E| f.mul(&f.of64(k), v);
        let z = f.sub(a, b);
        let z2 = f.mul(&z, &z);
        let w = f.add(&f.sub(&f.sub(a, &c(2, b)), &z2), &self.gamma);
        let w2 = f.mul(&w, &w);
        let y0 = f.add(&f.add(&f.add(&c(2, a), b), &c(3, &z2)), &w2);
        let y1 = f.add(&f.add(&f.add(a, &c(3, b)), &c(4, &z2)), &w2);
        (y0, y1)
    }
    pub fn perm(&self, x: &[R::E], o: &mut impl Obs<R::E>) -> Vec<R::E> {
        let f = &self.f;
        let mut s = mat_vec(f, &self.me, x);
        o.see(0, &s);
        for r in 0..self.rf + self.rp {
            if r < self.rf / 2 || r >= self.rf / 2 + self.rp {
                for i in 0..self.t / 2 {
                    let (a, b) = self.sbox2(&s[2 * i], &s[2 * i + 1]);
                    s[2 * i] = a;
                    s[2 * i + 1] = b;
                }
                s = mat_vec(f, &self.me, &s);
            } else {
                s[0] = f.powd(&s[0], self.d);
                s = mat_vec(f, &self.mi, &s);
            }
            for i in 0..self.t {
                s[i] = f.add(&s[i], &self.rc[r][i]);
            }
            o.see(r + 1, &s);
        }
        s
    }
    pub fn inverse(&self, y: &[R::E]) -> Option<Vec<R::E>> {
        self.back(self.rf + self.rp, y)
    }
    pub fn layer(&self, r: usize, y: &[R::E]) -> Option<Vec<R::E>> {
        let full = r < self.rf / 2 || r >= self.rf / 2 + self.rp;
        let s = mat_vec(&self.f, if full { &self.me } else { self.mi() }, y);
        self.back(r + 1, &s.iter().zip(&self.rc[r]).map(|(x, k)| self.f.add(x, k)).collect::<Vec<_>>())
    }
    pub fn back(&self, n: usize, y: &[R::E]) -> Option<Vec<R::E>> {
        let f = &self.f;
        let e = root_exp(&f.p(), self.d as u64)?;
        let (mei, mii) = self.inv.get_or_init(|| Some((mat_inv(f, &self.me)?, mat_inv(f, &self.mi)?))).as_ref()?;
        let i5 = f.inv(&f.of64(5))?;
        let mut s = y.to_vec();
        for r in (0..n).rev() {
            for i in 0..self.t {
                s[i] = f.sub(&s[i], &self.rc[r][i]);
            }
            if r < self.rf / 2 || r >= self.rf / 2 + self.rp {
                s = mat_vec(f, mei, &s);
                for i in 0..self.t / 2 {
                    // with u = x0+z2, v = x1+z2 (z2 the square of x0-x1 = u-v) and w2 the square of u-2v+g:
                    // y0 = 2u+v+w2, y1 = u+3v+w2, so y0-y1 = u-2v, and 3y0-y1 = 5u+2w2
                    let (y0, y1) = (s[2 * i].clone(), s[2 * i + 1].clone());
                    let w = f.add(&f.sub(&y0, &y1), &self.gamma);
                    let w2 = f.mul(&w, &w);
                    let (a0, a1) = (f.sub(&y0, &w2), f.sub(&y1, &w2));
                    let u = f.mul(&i5, &f.sub(&f.mul(&f.of64(3), &a0), &a1));
                    let v = f.mul(&i5, &f.sub(&f.mul(&f.of64(2), &a1), &a0));
                    let z = f.sub(&u, &v);
                    let z2 = f.mul(&z, &z);
                    s[2 * i] = f.sub(&u, &z2);
                    s[2 * i + 1] = f.sub(&v, &z2);
                }
            } else {
                s = mat_vec(f, mii, &s);
                s[0] = f.powb(&s[0], &e);
            }
        }
        Some(mat_vec(f, mei, &s))
    }
}

// ---------------------------------------------------------------- Grain LFSR parameter generation

pub struct Grain(std::collections::VecDeque<u8>);
impl Grain {
    pub fn new(sbox: u64, n: u64, t: u64, rf: u64, rp: u64) -> Self {
        let mut v = std::collections::VecDeque::new();
        for (x, w) in [(1, 2), (sbox, 4), (n, 12), (t, 12), (rf, 10), (rp, 10), ((1 << 30) - 1, 30)] {
            for i in (0..w).rev() {
                v.push_back((x >> i & 1) as u8);
            }
        }
        let mut g = Grain(v);
        for _ in 0..160 {
            g.raw();
        }
        g
    }
    fn raw(&mut self) -> u8 {
        let s = &mut self.0;
        let b = s[62] ^ s[51] ^ s[38] ^ s[23] ^ s[13] ^ s[0];
        s.pop_front();
        s.push_back(b);
        b
    }
    fn bit(&mut self) -> u8 {
        while self.raw() == 0 {
            self.raw();
        }
        self.raw()
    }
    pub fn bits(&mut self, n: u64) -> BigUint {
        let mut v = BigUint::zero();
        for _ in 0..n {
            v = (v << 1) + self.bit();
        }
        v
    }
    /// uniform in [0,p) by rejection
    pub fn elem(&mut self, p: &BigUint) -> BigUint {
        loop {
            let v = self.bits(p.bits());
            if &v < p {
                return v;
            }
        }
    }
}

/// The published Poseidon2 parameters of (p, t, rf, rp): constants (rows) and diagonal minus one.
pub fn gen_p2<R: Rf>(f: &R, t: usize, rf: usize, rp: usize) -> (Mat<R::E>, Vec<R::E>, usize) {
    memo(format!("p2 {} {t} {rf} {rp}", f.p()), || gen_p2_(f, t, rf, rp))
}
/// compute once per process
pub fn memo<T: Clone + Send + Sync + 'static>(key: String, f: impl FnOnce() -> T) -> T {
    use std::any::Any;
    use std::collections::HashMap;
    use std::sync::{Arc, Mutex, OnceLock};
    static C: Mutex<Option<HashMap<String, Arc<OnceLock<Box<dyn Any + Send + Sync>>>>>> = Mutex::new(None);
    let cell = C.lock().unwrap().get_or_insert_with(HashMap::new).entry(key).or_default().clone();
    cell.get_or_init(|| Box::new(f())).downcast_ref::<T>().unwrap().clone()
}
fn gen_p2_<R: Rf>(f: &R, t: usize, rf: usize, rp: usize) -> (Mat<R::E>, Vec<R::E>, usize) {
    let p = f.p();
    let n = p.bits();
    let mut g = Grain::new(0, n, t as u64, rf as u64, rp as u64);
    let mut rc = Vec::new();
    for r in 0..rf + rp {
        let full = r < rf / 2 || r >= rf / 2 + rp;
        let mut row = vec![f.zero(); t];
        for x in row.iter_mut().take(if full { t } else { 1 }) {
            *x = f.of(&g.elem(&p));
        }
        rc.push(row);
    }
    if t == 2 {
        return (rc, vec![f.of64(1), f.of64(2)], 0);
    }
    if t == 3 {
        return (rc, vec![f.of64(1), f.of64(1), f.of64(2)], 0);
    }
    let mut tries = 0;
    loop {
        // the first t-by-t matrix whose powers up to 2t all have an irreducible minimal polynomial of degree t
        let diag: Vec<R::E> = (0..t).map(|_| f.of(&g.bits(n))).collect();
        let dm1: Vec<R::E> = diag.iter().map(|d| f.sub(d, &f.one())).collect();
        if no_invariant_subspaces(f, &ones_plus_diag(f, &dm1)) {
            return (rc, dm1, tries);
        }
        tries += 1;
    }
}

pub fn gen_pos<R: Rf>(f: &R, t: usize, rf: usize, rp: usize) -> (Mat<R::E>, Mat<R::E>) {
    memo(format!("pos {} {t} {rf} {rp}", f.p()), || gen_pos_(f, t, rf, rp))
}
fn gen_pos_<R: Rf>(f: &R, t: usize, rf: usize, rp: usize) -> (Mat<R::E>, Mat<R::E>) {
    let p = f.p();
    let n = p.bits();
    let mut g = Grain::new(1, n, t as u64, rf as u64, rp as u64);
    let rc = (0..rf + rp).map(|_| (0..t).map(|_| f.of(&g.elem(&p))).collect()).collect();
    loop {
        let v: Vec<R::E> = (0..2 * t).map(|_| f.of(&g.bits(n))).collect();
        if (0..2 * t).any(|i| (0..i).any(|j| v[i] == v[j])) {
            continue;
        }
        let m: Option<Mat<R::E>> = (0..t).map(|i| (0..t).map(|j| f.inv(&f.add(&v[i], &v[t + j]))).collect::<Option<Vec<_>>>()).collect();
        if let Some(m) = m {
            return (rc, m);
        }
    }
}

/// Every power M^1..M^(2t) has a minimal polynomial that is irreducible of degree t.
pub fn no_invariant_subspaces<R: Rf>(f: &R, m: &Mat<R::E>) -> bool {
    let t = m.len();
    let mut q = m.clone();
    for i in 1..=2 * t {
        match min_poly_full(f, &q) {
            Some(c) if irreducible(f, &c) => {}
            _ => return false,
        }
        if i < 2 * t {
            q = mat_mat(f, m, &q);
        }
    }
    true
}

/// Monic polynomial of degree t (low coefficients first, leading 1 omitted) with c(M) e_1 = 0 if the
/// Krylov space of e_1 is everything (then it is the minimal polynomial); otherwise None. If the
/// minimal polynomial is irreducible of degree t every nonzero vector is cyclic, so None implies "no".
fn min_poly_full<R: Rf>(f: &R, m: &Mat<R::E>) -> Option<Vec<R::E>> {
    let t = m.len();
    let mut v: Vec<R::E> = (0..t).map(|i| if i == 0 { f.one() } else { f.zero() }).collect();
    let mut cols = vec![v.clone()];
    for _ in 0..t {
        v = mat_vec(f, m, &v);
        cols.push(v.clone());
    }
    let k: Mat<R::E> = (0..t).map(|i| (0..t).map(|j| cols[j][i].clone()).collect()).collect();
    let ki = mat_inv(f, &k)?;
    Some(mat_vec(f, &ki, &cols[t]).iter().map(|x| f.neg(x)).collect())
}

fn pmulmod<R: Rf>(f: &R, a: &[R::E], b: &[R::E], c: &[R::E]) -> Vec<R::E> {
    let t = c.len();
    let mut r = vec![f.zero(); 2 * t - 1];
    for i in 0..t {
        for j in 0..t {
            r[i + j] = f.add(&r[i + j], &f.mul(&a[i], &b[j]));
        }
    }
    for i in (t..2 * t - 1).rev() {
        let l = r[i].clone();
        if f.is0(&l) {
            continue;
        }
        for j in 0..t {
            r[i - t + j] = f.sub(&r[i - t + j], &f.mul(&l, &c[j]));
        }
    }
    r.truncate(t);
    r
}
/// Rabin's test for x^t + c
fn irreducible<R: Rf>(f: &R, c: &[R::E]) -> bool {
    let t = c.len();
    if t == 1 {
        return true;
    }
    let p = f.p();
    let mut x = vec![f.zero(); t];
    x[1] = f.one();
    let frob = |a: &Vec<R::E>| -> Vec<R::E> {
        let mut r: Vec<R::E> = vec![f.zero(); t];
        r[0] = f.one();
        for i in (0..p.bits()).rev() {
            r = pmulmod(f, &r, &r, c);
            if p.bit(i) {
                r = pmulmod(f, &r, a, c);
            }
        }
        r
    };
    let primes: Vec<usize> = (2..=t).filter(|q| t % q == 0 && (2..*q).all(|k| q % k != 0)).collect();
    let mut h = x.clone();
    for k in 1..=t {
        h = frob(&h);
        if k < t && primes.iter().any(|q| t / q == k) {
            let mut d = h.clone();
            d[1] = f.sub(&d[1], &f.one());
            let mut full: Vec<R::E> = c.to_vec();
            full.push(f.one());
            if !pgcd_is_one(f, full, d) {
                return false;
            }
        }
    }
    h == x
}
fn pgcd_is_one<R: Rf>(f: &R, mut a: Vec<R::E>, mut b: Vec<R::E>) -> bool {
    let trim = |v: &mut Vec<R::E>| {
        while v.last().map(|x| f.is0(x)).unwrap_or(false) {
            v.pop();
        }
    };
    trim(&mut a);
    trim(&mut b);
    while !b.is_empty() {
        let iv = f.inv(b.last().unwrap()).unwrap();
        while a.len() >= b.len() {
            let l = f.mul(a.last().unwrap(), &iv);
            let s = a.len() - b.len();
            for i in 0..b.len() {
                a[s + i] = f.sub(&a[s + i], &f.mul(&l, &b[i]));
            }
            trim(&mut a);
            if a.is_empty() {
                break;
            }
        }
        std::mem::swap(&mut a, &mut b);
    }
    a.len() == 1
}
