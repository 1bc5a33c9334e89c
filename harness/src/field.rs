//! Field types the explorer instantiates the real code with.
//!
//! * tiny prime fields (arkworks Montgomery fields with a small modulus), small enough that F_p^t is
//!   enumerated completely;
//! * `W<F>`: a transparent wrapper around any prime field that hands two sources of nondeterminism
//!   to the explorer: the uniform sampler (`F::rand`) and thread scheduling (every operation is a
//!   scheduling point).
#![allow(non_local_definitions)]

use ark_ff::fields::{Fp64, MontBackend, MontConfig};
use ark_ff::{BigInt, FftField, Field, Fp, FpConfig, LegendreSymbol, PrimeField, SqrtPrecomputation, UniformRand};
use ark_serialize::*;
use ark_std::rand::{distributions::{Distribution, Standard}, Rng};
use num_bigint::BigUint;
use num_traits::{One, Zero};
use std::cell::{Cell, RefCell};
use std::fmt;
use std::ops::*;

macro_rules! tiny {
    ($m:ident, $name:ident, $p:literal, $g:literal) => {
        mod $m {
            use super::*;
            #[derive(MontConfig)]
            #[modulus = $p]
            #[generator = $g]
            pub struct Cfg;
        }
        pub type $name = Fp64<MontBackend<$m::Cfg, 1>>;
    };
}
tiny!(m3, F3, "3", "2");
tiny!(m5, F5, "5", "2");
tiny!(m7, F7, "7", "3");
tiny!(m11, F11, "11", "2");
tiny!(m13, F13, "13", "2");
tiny!(m17, F17, "17", "3");
tiny!(m23, F23, "23", "5");
tiny!(m31, F31, "31", "3");
tiny!(m257, F257, "257", "3");

// ---------------------------------------------------------------- choice points

/// What `W::rand` answers: the k-th draw of the current script (little-endian integer mod p).
#[derive(Clone, Debug, Default)]
pub struct Draws {
    pub script: Vec<BigUint>,
    /// answer after the script is used up
    pub rest: BigUint,
    pub used: usize,
    /// draws beyond this many abort the execution (a rejection loop that never ends)
    pub cap: usize,
}

thread_local! {
    static DRAWS: RefCell<Option<Draws>> = RefCell::new(None);
    static POINT: Cell<Option<fn()>> = const { Cell::new(None) };
}

/// Run `f` with the sampler of `W` fields driven by `script`; returns the result and the number of draws.
pub fn with_draws<T>(script: Vec<BigUint>, rest: BigUint, f: impl FnOnce() -> T) -> (T, usize) {
    DRAWS.with(|d| *d.borrow_mut() = Some(Draws { script, rest, used: 0, cap: 1_000_000 }));
    let r = f();
    let used = DRAWS.with(|d| d.borrow_mut().take().map(|d| d.used).unwrap_or(0));
    (r, used)
}

fn next_draw() -> Option<BigUint> {
    DRAWS.with(|d| {
        let mut d = d.borrow_mut();
        let d = d.as_mut()?;
        let k = d.used;
        d.used += 1;
        if d.used > d.cap {
            panic!("sampler cap exceeded: {} draws", d.cap);
        }
        Some(d.script.get(k).unwrap_or(&d.rest).clone())
    })
}

/// Install / remove the scheduling-point callback of the current thread.
pub fn set_point(f: Option<fn()>) {
    POINT.with(|p| p.set(f));
}
#[inline(always)]
pub fn point() {
    if let Some(f) = POINT.with(|p| p.get()) {
        f()
    }
}

// ---------------------------------------------------------------- W

pub struct W<P: FpConfig<N>, const N: usize>(pub Fp<P, N>);

impl<P: FpConfig<N>, const N: usize> Clone for W<P, N> {
    fn clone(&self) -> Self {
        *self
    }
}
impl<P: FpConfig<N>, const N: usize> Copy for W<P, N> {}
impl<P: FpConfig<N>, const N: usize> PartialEq for W<P, N> {
    fn eq(&self, o: &Self) -> bool {
        point();
        self.0 == o.0
    }
}
impl<P: FpConfig<N>, const N: usize> Eq for W<P, N> {}
impl<P: FpConfig<N>, const N: usize> PartialOrd for W<P, N> {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl<P: FpConfig<N>, const N: usize> Ord for W<P, N> {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        point();
        self.0.cmp(&o.0)
    }
}
impl<P: FpConfig<N>, const N: usize> std::hash::Hash for W<P, N> {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        std::hash::Hash::hash(&self.0, h)
    }
}
impl<P: FpConfig<N>, const N: usize> Default for W<P, N> {
    fn default() -> Self {
        W(Fp::default())
    }
}

impl<P: FpConfig<N>, const N: usize> fmt::Debug for W<P, N> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Debug::fmt(&self.0, f)
    }
}
impl<P: FpConfig<N>, const N: usize> fmt::Display for W<P, N> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Display::fmt(&self.0, f)
    }
}
impl<P: FpConfig<N>, const N: usize> Zero for W<P, N> {
    fn zero() -> Self {
        W(Fp::<P, N>::zero())
    }
    fn is_zero(&self) -> bool {
        point();
        self.0.is_zero()
    }
}
impl<P: FpConfig<N>, const N: usize> One for W<P, N> {
    fn one() -> Self {
        W(Fp::<P, N>::one())
    }
}
impl<P: FpConfig<N>, const N: usize> Neg for W<P, N> {
    type Output = Self;
    fn neg(self) -> Self {
        point();
        W(-self.0)
    }
}
impl<P: FpConfig<N>, const N: usize> Distribution<W<P, N>> for Standard {
    fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> W<P, N> {
        point();
        match next_draw() {
            Some(v) => W(Fp::<P, N>::from(v)),
            None => W(Fp::<P, N>::rand(rng)),
        }
    }
}
impl<P: FpConfig<N>, const N: usize> zeroize::Zeroize for W<P, N> {
    fn zeroize(&mut self) {
        self.0.zeroize()
    }
}
macro_rules! ops {
    ($($tr:ident $f:ident $tra:ident $fa:ident;)*) => {$(
        impl<P: FpConfig<N>, const N: usize> $tr<W<P, N>> for W<P, N> { type Output = W<P, N>;
            #[inline] fn $f(self, o: W<P, N>) -> W<P, N> { point(); W(self.0.$f(o.0)) } }
        impl<'a, P: FpConfig<N>, const N: usize> $tr<&'a W<P, N>> for W<P, N> { type Output = W<P, N>;
            #[inline] fn $f(self, o: &'a W<P, N>) -> W<P, N> { point(); W(self.0.$f(o.0)) } }
        impl<'a, P: FpConfig<N>, const N: usize> $tr<&'a mut W<P, N>> for W<P, N> { type Output = W<P, N>;
            #[inline] fn $f(self, o: &'a mut W<P, N>) -> W<P, N> { point(); W(self.0.$f(o.0)) } }
        impl<P: FpConfig<N>, const N: usize> $tra<W<P, N>> for W<P, N> { #[inline] fn $fa(&mut self, o: W<P, N>) { point(); self.0.$fa(o.0) } }
        impl<'a, P: FpConfig<N>, const N: usize> $tra<&'a W<P, N>> for W<P, N> { #[inline] fn $fa(&mut self, o: &'a W<P, N>) { point(); self.0.$fa(o.0) } }
        impl<'a, P: FpConfig<N>, const N: usize> $tra<&'a mut W<P, N>> for W<P, N> { #[inline] fn $fa(&mut self, o: &'a mut W<P, N>) { point(); self.0.$fa(o.0) } }
    )*};
}
ops! { Add add AddAssign add_assign; Sub sub SubAssign sub_assign; Mul mul MulAssign mul_assign; Div div DivAssign div_assign; }
impl<P: FpConfig<N>, const N: usize> std::iter::Sum<W<P, N>> for W<P, N> {
    fn sum<I: Iterator<Item = Self>>(i: I) -> Self {
        i.fold(W(Fp::<P, N>::zero()), |a, b| a + b)
    }
}
impl<'a, P: FpConfig<N>, const N: usize> std::iter::Sum<&'a W<P, N>> for W<P, N> {
    fn sum<I: Iterator<Item = &'a Self>>(i: I) -> Self {
        i.fold(W(Fp::<P, N>::zero()), |a, b| a + b)
    }
}
impl<P: FpConfig<N>, const N: usize> std::iter::Product<W<P, N>> for W<P, N> {
    fn product<I: Iterator<Item = Self>>(i: I) -> Self {
        i.fold(W(Fp::<P, N>::one()), |a, b| a * b)
    }
}
impl<'a, P: FpConfig<N>, const N: usize> std::iter::Product<&'a W<P, N>> for W<P, N> {
    fn product<I: Iterator<Item = &'a Self>>(i: I) -> Self {
        i.fold(W(Fp::<P, N>::one()), |a, b| a * b)
    }
}
macro_rules! froms { ($($t:ty),*) => {$( impl<P: FpConfig<N>, const N: usize> From<$t> for W<P, N> { fn from(v: $t) -> Self { W(Fp::<P, N>::from(v)) } } )*}; }
froms!(u128, u64, u32, u16, u8, bool, BigUint, BigInt<N>);
impl<P: FpConfig<N>, const N: usize> From<W<P, N>> for BigInt<N> {
    fn from(v: W<P, N>) -> BigInt<N> {
        v.0.into_bigint()
    }
}
impl<P: FpConfig<N>, const N: usize> From<W<P, N>> for BigUint {
    fn from(v: W<P, N>) -> BigUint {
        v.0.into()
    }
}
impl<P: FpConfig<N>, const N: usize> std::str::FromStr for W<P, N> {
    type Err = ();
    fn from_str(s: &str) -> Result<Self, ()> {
        Fp::<P, N>::from_str(s).map(W).map_err(|_| ())
    }
}
impl<P: FpConfig<N>, const N: usize> Valid for W<P, N> {
    fn check(&self) -> Result<(), SerializationError> {
        self.0.check()
    }
}
impl<P: FpConfig<N>, const N: usize> CanonicalSerialize for W<P, N> {
    fn serialize_with_mode<Wr: Write>(&self, w: Wr, c: Compress) -> Result<(), SerializationError> {
        self.0.serialize_with_mode(w, c)
    }
    fn serialized_size(&self, c: Compress) -> usize {
        self.0.serialized_size(c)
    }
}
impl<P: FpConfig<N>, const N: usize> CanonicalSerializeWithFlags for W<P, N> {
    fn serialize_with_flags<Wr: Write, Fl: Flags>(&self, w: Wr, f: Fl) -> Result<(), SerializationError> {
        self.0.serialize_with_flags(w, f)
    }
    fn serialized_size_with_flags<Fl: Flags>(&self) -> usize {
        self.0.serialized_size_with_flags::<Fl>()
    }
}
impl<P: FpConfig<N>, const N: usize> CanonicalDeserialize for W<P, N> {
    fn deserialize_with_mode<R: Read>(r: R, c: Compress, v: Validate) -> Result<Self, SerializationError> {
        Fp::<P, N>::deserialize_with_mode(r, c, v).map(W)
    }
}
impl<P: FpConfig<N>, const N: usize> CanonicalDeserializeWithFlags for W<P, N> {
    fn deserialize_with_flags<R: Read, Fl: Flags>(r: R) -> Result<(Self, Fl), SerializationError> {
        Fp::<P, N>::deserialize_with_flags(r).map(|(a, b)| (W(a), b))
    }
}
impl<P: FpConfig<N>, const N: usize> FftField for W<P, N> {
    const GENERATOR: Self = W(Fp::<P, N>::GENERATOR);
    const TWO_ADICITY: u32 = Fp::<P, N>::TWO_ADICITY;
    const TWO_ADIC_ROOT_OF_UNITY: Self = W(Fp::<P, N>::TWO_ADIC_ROOT_OF_UNITY);
}


impl<P: FpConfig<N>, const N: usize> Field for W<P, N> {
    type BasePrimeField = Self;
    type BasePrimeFieldIter = std::iter::Once<Self>;
    const SQRT_PRECOMP: Option<SqrtPrecomputation<Self>> = None;
    const ZERO: Self = W(<Fp<P, N> as Field>::ZERO);
    const ONE: Self = W(<Fp<P, N> as Field>::ONE);
    fn characteristic() -> &'static [u64] {
        Fp::<P, N>::characteristic()
    }
    fn extension_degree() -> u64 {
        1
    }
    fn to_base_prime_field_elements(&self) -> Self::BasePrimeFieldIter {
        std::iter::once(*self)
    }
    fn from_base_prime_field_elems(e: &[Self]) -> Option<Self> {
        if e.len() == 1 {
            Some(e[0])
        } else {
            None
        }
    }
    fn from_base_prime_field(e: Self) -> Self {
        e
    }
    fn double(&self) -> Self {
        point();
        W(self.0.double())
    }
    fn double_in_place(&mut self) -> &mut Self {
        point();
        self.0.double_in_place();
        self
    }
    fn neg_in_place(&mut self) -> &mut Self {
        point();
        self.0.neg_in_place();
        self
    }
    fn from_random_bytes_with_flags<Fl: Flags>(b: &[u8]) -> Option<(Self, Fl)> {
        Fp::<P, N>::from_random_bytes_with_flags(b).map(|(a, f)| (W(a), f))
    }
    fn legendre(&self) -> LegendreSymbol {
        self.0.legendre()
    }
    fn sqrt(&self) -> Option<Self> {
        self.0.sqrt().map(W)
    }
    fn square(&self) -> Self {
        point();
        W(self.0.square())
    }
    fn square_in_place(&mut self) -> &mut Self {
        point();
        self.0.square_in_place();
        self
    }
    fn inverse(&self) -> Option<Self> {
        point();
        self.0.inverse().map(W)
    }
    fn inverse_in_place(&mut self) -> Option<&mut Self> {
        point();
        let i = self.0.inverse()?;
        self.0 = i;
        Some(self)
    }
    fn frobenius_map_in_place(&mut self, k: usize) {
        self.0.frobenius_map_in_place(k)
    }
}
impl<P: FpConfig<N>, const N: usize> PrimeField for W<P, N> {
    type BigInt = BigInt<N>;
    const MODULUS: BigInt<N> = <Fp<P, N> as PrimeField>::MODULUS;
    const MODULUS_MINUS_ONE_DIV_TWO: BigInt<N> = <Fp<P, N> as PrimeField>::MODULUS_MINUS_ONE_DIV_TWO;
    const MODULUS_BIT_SIZE: u32 = <Fp<P, N> as PrimeField>::MODULUS_BIT_SIZE;
    const TRACE: BigInt<N> = <Fp<P, N> as PrimeField>::TRACE;
    const TRACE_MINUS_ONE_DIV_TWO: BigInt<N> = <Fp<P, N> as PrimeField>::TRACE_MINUS_ONE_DIV_TWO;
    fn from_bigint(r: BigInt<N>) -> Option<Self> {
        Fp::<P, N>::from_bigint(r).map(W)
    }
    fn into_bigint(self) -> BigInt<N> {
        self.0.into_bigint()
    }
}

macro_rules! wrapped { ($($n:ident = $c:ty, $k:literal;)*) => {$( pub type $n = W<MontBackend<$c, $k>, $k>; )*}; }
wrapped! {
    W3 = m3::Cfg, 1; W5 = m5::Cfg, 1; W7 = m7::Cfg, 1; W11 = m11::Cfg, 1; W13 = m13::Cfg, 1; W17 = m17::Cfg, 1; W257 = m257::Cfg, 1;
    WBabyBear = zkhash::fields::babybear::FqConfig, 1;
    WGoldi = zkhash::fields::goldilocks::FqConfig, 1;
    WBn = zkhash::fields::bn256::FqConfig, 4;
    WBls = zkhash::fields::bls12::FqConfig, 4;
    WPallas = zkhash::fields::pallas::FqConfig, 4;
    WVesta = zkhash::fields::vesta::FqConfig, 4;
}
