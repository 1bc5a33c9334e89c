//! Alphabets and finite enumerations shared by the checks.

use crate::field::*;
use crate::refm::*;
use ark_ff::PrimeField;
use num_bigint::BigUint;
use zkhash::fields::{babybear::FpBabyBear, bls12::FpBLS12, bn256::FpBN256, goldilocks::FpGoldiLocks, pallas::FpPallas, vesta::FpVesta};

/// A field under test together with the integers it is supposed to be.
pub trait Fld: Send + Sync + 'static {
    type F: PrimeField;
    type R: Rf;
    const NAME: &'static str;
    fn r() -> Self::R;
}
macro_rules! small { ($($n:ident: $f:ty, $p:expr;)*) => {$(
    pub struct $n; impl Fld for $n { type F = $f; type R = Small; const NAME: &'static str = stringify!($n); fn r() -> Small { Small { p: $p } } } )*}; }
macro_rules! big { ($($n:ident: $f:ty, $p:expr;)*) => {$(
    pub struct $n; impl Fld for $n { type F = $f; type R = Big; const NAME: &'static str = stringify!($n);
        fn r() -> Big { static P: std::sync::OnceLock<BigUint> = std::sync::OnceLock::new(); Big { p: P.get_or_init(|| BigUint::parse_bytes($p, 10).unwrap()).clone() } } } )*}; }
pub const P_GOLDI: u64 = 0xffff_ffff_0000_0001;
pub const P_BABY: u64 = 15 * (1 << 27) + 1;
pub const P_BLS: &[u8] = b"52435875175126190479447740508185965837690552500527637822603658699938581184513";
pub const P_BN: &[u8] = b"21888242871839275222246405745257275088548364400416034343698204186575808495617";
pub const P_PALLAS: &[u8] = b"28948022309329048855892746252171976963363056481941560715954676764349967630337";
pub const P_VESTA: &[u8] = b"28948022309329048855892746252171976963363056481941647379679742748393362948097";
small! {
    T3: F3, 3; T5: F5, 5; T7: F7, 7; T11: F11, 11; T13: F13, 13; T17: F17, 17; T23: F23, 23; T31: F31, 31; T257: F257, 257;
    X3: W3, 3; X5: W5, 5; X7: W7, 7; X11: W11, 11; X13: W13, 13; X17: W17, 17; X257: W257, 257;
    BabyBear: FpBabyBear, P_BABY; Goldi: FpGoldiLocks, P_GOLDI;
    XBabyBear: WBabyBear, P_BABY; XGoldi: WGoldi, P_GOLDI;
}
big! {
    Bls: FpBLS12, P_BLS; Bn: FpBN256, P_BN; Pallas: FpPallas, P_PALLAS; Vesta: FpVesta, P_VESTA;
    XBls: WBls, P_BLS; XBn: WBn, P_BN; XPallas: WPallas, P_PALLAS; XVesta: WVesta, P_VESTA;
}

/// `with_fld!(name, A => expr)`: expr with A bound to the field of that name.
#[macro_export]
macro_rules! with_fld {
    ($n:expr, $a:ident => $e:expr) => {{
        use $crate::gen::*;
        match $n {
            "3" => { type $a = T3; $e } "5" => { type $a = T5; $e } "7" => { type $a = T7; $e } "11" => { type $a = T11; $e }
            "13" => { type $a = T13; $e } "17" => { type $a = T17; $e } "23" => { type $a = T23; $e } "31" => { type $a = T31; $e }
            "257" => { type $a = T257; $e }
            "baby" => { type $a = BabyBear; $e } "goldi" => { type $a = Goldi; $e }
            "bls" => { type $a = Bls; $e } "bn" => { type $a = Bn; $e } "pallas" => { type $a = Pallas; $e } "vesta" => { type $a = Vesta; $e }
            n => panic!("field {n}"),
        }
    }};
}
/// the same with the controlled sampler
#[macro_export]
macro_rules! with_wfld {
    ($n:expr, $a:ident => $e:expr) => {{
        use $crate::gen::*;
        match $n {
            "3" => { type $a = X3; $e } "5" => { type $a = X5; $e } "7" => { type $a = X7; $e } "11" => { type $a = X11; $e }
            "13" => { type $a = X13; $e } "17" => { type $a = X17; $e } "257" => { type $a = X257; $e }
            "baby" => { type $a = XBabyBear; $e } "goldi" => { type $a = XGoldi; $e }
            "bls" => { type $a = XBls; $e } "bn" => { type $a = XBn; $e } "pallas" => { type $a = XPallas; $e } "vesta" => { type $a = XVesta; $e }
            n => panic!("field {n}"),
        }
    }};
}
pub const REAL: [&str; 6] = ["baby", "goldi", "bls", "bn", "pallas", "vesta"];

/// k-th value of constant pattern `pat`
pub fn cval<R: Rf>(f: &R, pat: u64, k: u64) -> R::E {
    match pat {
        0 => f.zero(),
        1 => f.one(),
        2 => f.neg(&f.one()),
        3 => f.of64(k + 1),
        // scattered over the whole field: powers of a fixed large base
        _ => {
            let b = f.of(&(BigUint::from(0x9E37_79B9_7F4A_7C15u64) * BigUint::from(0xD6E8_FEB8_6659_FD93u64) * BigUint::from(pat) + BigUint::from(k * k * 31 + k * 7 + pat)));
            let b2 = f.mul(&b, &b);
            f.add(&f.mul(&b2, &b), &f.of64(k))
        }
    }
}
/// values without algebraic relations between neighbours (matrices made of `cval` are singular from size 8 on)
pub fn gval<R: Rf>(f: &R, pat: u64, k: u64) -> R::E {
    let mut h = pat.wrapping_mul(0xD6E8_FEB8_6659_FD93) ^ k.wrapping_mul(0x9E37_79B9_7F4A_7C15);
    let mut b = BigUint::from(0u32);
    for _ in 0..5 {
        h = h.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = h;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        b = (b << 64) + (z ^ (z >> 31));
    }
    f.of(&b)
}
/// rows of constants; `partial` rows have zeros after the first word
pub fn rc_rows<R: Rf>(f: &R, pat: u64, t: usize, rf: usize, rp: usize, zero_partial: bool) -> Mat<R::E> {
    (0..rf + rp)
        .map(|r| {
            let full = r < rf / 2 || r >= rf / 2 + rp;
            (0..t).map(|i| if !full && zero_partial && i > 0 { f.zero() } else { cval(f, pat, (r * t + i) as u64) }).collect()
        })
        .collect()
}

/// the boundary values of a field
pub fn alphabet<R: Rf>(f: &R, size: usize) -> Vec<R::E> {
    let p = f.p();
    let one = BigUint::from(1u32);
    let mut v: Vec<BigUint> = vec![
        0u32.into(), one.clone(), &p - 1u32, 2u32.into(), &p - 2u32, (&p - 1u32) / 2u32, (&p + 1u32) / 2u32, 3u32.into(),
        one.clone() << 32, (one.clone() << 32) - 1u32, (one.clone() << 64) - 1u32, one.clone() << 63, one.clone() << 64,
        (one.clone() << 128) - 1u32, one.clone() << 128, one.clone() << 192, (one.clone() << 31) - 1u32, 7u32.into(), &p - 7u32.min(2), one.clone() << 250,
        one.clone() << 16, 255u32.into(), 256u32.into(), 65535u32.into(),
        one.clone() << 8, one.clone() << 48, one.clone() << 96, one.clone() << 127, one.clone() << 160, (one.clone() << 192) - 1u32, one.clone() << 224, one.clone() << 253, one.clone() << 254,
        &p - (&one << (p.bits() / 2)), &p >> 32, &p >> 64, &p >> 128, (BigUint::from(0xdead_beefu32) << 64) + (BigUint::from(0xdead_beefu32) << 128),
        (BigUint::from(0x1234_5678_9abc_def1u64) << 192) + 1u32, BigUint::from(0x9abc_def1_1234_5678u64), (BigUint::from(0xffff_ffff_ffff_ffffu64) << 128) + 1u32, 10u32.into(), 100u32.into(), 1000u32.into(), (&p + 2u32) / 3u32,
    ];
    for x in v.iter_mut() {
        *x = &*x % &p;
    }
    let mut out: Vec<BigUint> = vec![];
    for x in v {
        if !out.contains(&x) {
            out.push(x);
        }
    }
    out.truncate(size);
    out.iter().map(|x| f.of(x)).collect()
}

/// the k-th state of F_p^t (p small)
pub fn nth_state(p: u64, t: usize, mut k: u64) -> Vec<u64> {
    (0..t)
        .map(|_| {
            let r = k % p;
            k /= p;
            r
        })
        .collect()
}
pub fn upow(p: u64, t: usize) -> u64 {
    (0..t).fold(1u64, |a, _| a.checked_mul(p).expect("space too large"))
}

/// Background states: constant vectors over the alphabet, ramps, scattered, alternating.
pub fn backgrounds<R: Rf>(f: &R, t: usize, n: usize) -> Vec<Vec<R::E>> {
    let mut v: Vec<Vec<R::E>> = vec![];
    v.push(vec![f.zero(); t]);
    v.push((0..t).map(|i| f.of64(i as u64)).collect());
    v.push(vec![f.one(); t]);
    v.push(vec![f.neg(&f.one()); t]);
    v.push((0..t).map(|i| cval(f, 5, i as u64)).collect());
    v.push((0..t).map(|i| f.of64((t - i) as u64)).collect());
    v.push((0..t).map(|i| f.of64((i % 2) as u64)).collect());
    v.push((0..t).map(|i| f.of64(((i + 1) % 2) as u64)).collect());
    v.push((0..t).map(|i| if i % 2 == 0 { f.one() } else { f.neg(&f.one()) }).collect());
    v.push((0..t).map(|i| cval(f, 6, (i / 2) as u64)).collect());
    v.push((0..t).map(|i| cval(f, 7, i.min(t - 1 - i) as u64)).collect());
    v.truncate(n);
    v
}

/// All states within `k` deviations of a background: every choice of at most k positions and every
/// alphabet value there.
pub fn deviations<R: Rf>(f: &R, bgs: &[Vec<R::E>], alpha: &[R::E], k: usize, mut each: impl FnMut(&[R::E]) -> Result<(), String>) -> Result<(), String> {
    fn rec<R: Rf>(s: &mut Vec<R::E>, from: usize, k: usize, alpha: &[R::E], each: &mut impl FnMut(&[R::E]) -> Result<(), String>) -> Result<(), String> {
        each(s)?;
        if k == 0 {
            return Ok(());
        }
        for i in from..s.len() {
            let old = s[i].clone();
            for a in alpha {
                if *a == old {
                    continue;
                }
                s[i] = a.clone();
                rec::<R>(s, i + 1, k - 1, alpha, each)?;
            }
            s[i] = old;
        }
        Ok(())
    }
    let _ = f;
    for b in bgs {
        let mut s = b.clone();
        rec::<R>(&mut s, 0, k, alpha, &mut each)?;
    }
    Ok(())
}

/// every state one word away from the scattered background, the word at either end or near the start, over the whole alphabet
pub fn word_boundaries<R: Rf>(f: &R, t: usize, mut each: impl FnMut(&[R::E]) -> Result<(), String>) -> Result<(), String> {
    let mut s = backgrounds(f, t, 5).pop().unwrap();
    let pos: Vec<usize> = if t <= 4 { (0..t).collect() } else { vec![0, 1, t - 1] };
    for i in pos {
        let old = s[i].clone();
        for a in alphabet(f, 64) {
            s[i] = a;
            each(&s)?;
        }
        s[i] = old;
    }
    Ok(())
}

/// a few states that are special at the start of a round: zero, and the scattered background with 0, 1 or -1 in the first
/// word, the second and the last (`first_only`: the first)
pub fn special_states<R: Rf>(f: &R, t: usize, first_only: bool) -> Vec<Vec<R::E>> {
    let bg = backgrounds(f, t, 5).pop().unwrap();
    let mut v = vec![vec![f.zero(); t]];
    let mut at = if first_only { vec![0] } else { vec![0, 1, t - 1] };
    at.dedup();
    for i in at {
        for a in [f.zero(), f.one(), f.neg(&f.one())] {
            let mut s = bg.clone();
            s[i] = a;
            v.push(s);
        }
    }
    v
}
/// States whose words, added up as integers (all of them, or those of a residue class modulo 2 or 4), come to a total at which a
/// lazily reduced sum carries: multiples of the machine words W = 2^32 and 2^64, 2^128... that hold an element, of p, and what is one
/// folding step (j times W mod p) away from them. One word of the class is free, the others hold a large or scattered value.
pub fn sum_boundaries<R: Rf>(f: &R, t: usize, classes: &[usize], every: bool, mut each: impl FnMut(&[R::E]) -> Result<(), String>) -> Result<(), String> {
    use num_bigint::BigInt;
    use num_traits::Signed;
    let p = f.p();
    let one = BigUint::from(1u32);
    let bits = p.bits();
    let mut words = vec![BigInt::from(&one << ((bits + 63) / 64 * 64))];
    if bits < 32 {
        words.push(BigInt::from(&one << 32));
    }
    let mut fills: Vec<Option<BigUint>> = vec![Some(&p - 1u32), Some((&one << (bits - 1)) - 1u32), None];
    if every {
        fills.extend([Some(&p >> 1), Some(one.clone()), Some(&one << (bits / 2))]);
    }
    let scatter = backgrounds(f, t, 5).pop().unwrap();
    let ip = BigInt::from(p.clone());
    for &step in classes.iter().filter(|&&s| t >= 2 * s) {
        let mut at = if every || t <= 4 { (0..t).collect() } else { vec![0, 1, t - 1] };
        if step == 1 && !every {
            at = vec![0, t - 1];
        }
        for &i in &at {
            for fill in &fills {
                let mut s = scatter.clone();
                let mut rest = BigInt::from(0);
                for j in (i % step..t).step_by(step).filter(|j| *j != i) {
                    if let Some(x) = fill {
                        s[j] = f.of(x);
                    }
                    rest += BigInt::from(f.big(&s[j]));
                }
                let mut totals: Vec<BigInt> = vec![];
                for w in &words {
                    let eps = w % &ip;
                    for j in [&rest / w, (&rest + &ip) / w] {
                        for k in [BigInt::from(0), BigInt::from(1), &j - 1, j.clone(), &j + 1, &j + 2] {
                            for e in [0i64, 1, 2, t as i64, -1, -2, -(t as i64)] {
                                totals.push(&j * w - &k * &eps + e);
                                totals.push(&j * w + &k * &eps + e);
                            }
                        }
                    }
                }
                for m in [&rest / &ip, &rest / &ip + 1] {
                    for e in [0i64, 1, -1] {
                        totals.push(&m * &ip + e);
                    }
                }
                totals.sort();
                totals.dedup();
                for total in totals {
                    let x = &total - &rest;
                    if x.is_negative() || x >= ip {
                        continue;
                    }
                    s[i] = f.of(&x.to_biguint().unwrap());
                    each(&s)?;
                }
            }
        }
    }
    Ok(())
}
/// the states fed to linear layers: sums at carries, and single words at boundary values
pub fn layer_inputs<R: Rf>(f: &R, t: usize, classes: &[usize], every: bool, mut each: impl FnMut(&[R::E]) -> Result<(), String>) -> Result<(), String> {
    for b in backgrounds(f, t, 4) {
        each(&b)?;
    }
    word_boundaries(f, t, &mut each)?;
    sum_boundaries(f, t, classes, every, &mut each)
}
pub fn show<R: Rf>(f: &R, s: &[R::E]) -> String {
    format!("[{}]", s.iter().map(|x| f.big(x).to_string()).collect::<Vec<_>>().join(","))
}
