//! C09 the shipped fields, C10 hex decoding, C11 random scalars.
use ark_ff::{BigInteger, FftField, Field, LegendreSymbol, PrimeField};
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
use num_bigint::BigUint;
use num_traits::{One, Zero};
use std::ops::{AddAssign, MulAssign, SubAssign};
use pmc::explore::*;
use pmc::field::with_draws;
use pmc::gen::*;
use pmc::refm::*;
use pmc::{with_fld, with_wfld};
use std::collections::{HashMap, HashSet};
use zkhash::fields::utils::{from_hex, random_scalar, random_scalar_without_0};

pmc::interpose!();

fn b(s: &str) -> BigUint {
    BigUint::parse_bytes(s.as_bytes(), 10).unwrap()
}
/// the prime of that name, from its defining formula
fn prime(fl: &str) -> BigUint {
    let one = BigUint::one();
    match fl {
        "baby" => (BigUint::from(15u32) << 27) + 1u32,
        "goldi" => (&one << 64) - (&one << 32) + 1u32,
        "bls" => {
            let x = BigUint::from(0xd201000000010000u64);
            x.pow(4) - x.pow(2) + 1u32
        }
        "bn" => {
            let x = BigUint::from(4965661367192848881u64);
            36u32 * x.pow(4) + 36u32 * x.pow(3) + 18u32 * x.pow(2) + 6u32 * &x + 1u32
        }
        "pallas" => (&one << 254) + b("45560315531419706090280762371685220353"),
        "vesta" => (&one << 254) + b("45560315531506369815346746415080538113"),
        _ => unreachable!(),
    }
}
/// the primes dividing p-1
fn factors(fl: &str) -> Vec<BigUint> {
    let s: &[&str] = match fl {
        "baby" => &["2", "3", "5"],
        "goldi" => &["2", "3", "5", "17", "257", "65537"],
        "bls" => &["2", "3", "11", "19", "10177", "125527", "859267", "906349", "2508409", "2529403", "52437899", "254760293"],
        "bn" => &["2", "3", "13", "29", "983", "11003", "237073", "405928799", "1670836401704629", "13818364434197438864469338081"],
        "pallas" => &["2", "3", "463", "539204044132271846773", "8999194758858563409123804352480028797519453"],
        "vesta" => &["2", "3", "1709", "24859", "1690502597179744445941507", "10427374428728808478656897599072717"],
        _ => unreachable!(),
    };
    s.iter().map(|x| b(x)).collect()
}
fn miller_rabin(n: &BigUint) -> bool {
    if n < &BigUint::from(4u32) {
        return n >= &BigUint::from(2u32);
    }
    let m = n - 1u32;
    let s = m.trailing_zeros().unwrap();
    let d = &m >> s;
    'o: for a in [2u32, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53] {
        let a = BigUint::from(a) % n;
        if a.is_zero() {
            continue;
        }
        let mut x = a.modpow(&d, n);
        if x.is_one() || x == m {
            continue;
        }
        for _ in 1..s {
            x = &x * &x % n;
            if x == m {
                continue 'o;
            }
        }
        return false;
    }
    true
}
fn bi<F: PrimeField>(x: &F::BigInt) -> BigUint {
    BigUint::from_bytes_le(&x.to_bytes_le())
}
macro_rules! want {
    ($c:expr, $e:expr, $($m:tt)*) => { if !($e) { return Err(format!($($m)*)); } else { $c.trace(1); } };
}

fn constants<A: Fld>(c: &mut Ctx, fl: &str) -> Result<(), String> {
    let p = prime(fl);
    let f = Big { p: p.clone() };
    if A::r().p() != p {
        panic!("harness modulus of {fl}");
    }
    let got = bi::<A::F>(&A::F::MODULUS);
    want!(c, got == p, "{fl}: modulus {got}, the field of that name has {p}");
    want!(c, A::F::MODULUS_BIT_SIZE as u64 == p.bits(), "{fl}: MODULUS_BIT_SIZE");
    want!(c, bi::<A::F>(&A::F::MODULUS_MINUS_ONE_DIV_TWO) == (&p - 1u32) / 2u32, "{fl}: (p-1)/2");
    want!(c, BigUint::from_slice(&A::F::characteristic().iter().flat_map(|d| [*d as u32, (*d >> 32) as u32]).collect::<Vec<_>>()) == p, "{fl}: characteristic");
    want!(c, A::F::extension_degree() == 1, "{fl}: extension degree");
    let s = (&p - 1u32).trailing_zeros().unwrap();
    want!(c, A::F::TWO_ADICITY as u64 == s, "{fl}: TWO_ADICITY {} want {s}", A::F::TWO_ADICITY);
    want!(c, bi::<A::F>(&A::F::TRACE) == (&p - 1u32) >> s, "{fl}: TRACE");
    want!(c, f.dec(&A::F::zero()).is_zero() && f.dec(&A::F::one()).is_one(), "{fl}: zero and one");
    // the factorisation used by the check
    let fs = factors(fl);
    let mut rest = &p - 1u32;
    for q in &fs {
        assert!(miller_rabin(q), "harness: {q} is not prime");
        assert!((&rest % q).is_zero(), "harness: {q} does not divide");
        while (&rest % q).is_zero() {
            rest /= q;
        }
    }
    assert!(rest.is_one(), "harness: incomplete factorisation of {fl}-1");
    // the generator generates (this is also Lucas' proof that p is prime)
    let g = f.dec(&A::F::GENERATOR);
    want!(c, f.powb(&g, &(&p - 1u32)).is_one(), "{fl}: generator {g} ^ (p-1) is not 1");
    for q in &fs {
        let y = f.powb(&g, &((&p - 1u32) / q));
        c.step(f.key(&y));
        want!(c, !y.is_one(), "{fl}: the declared generator {g} is not a generator: its order divides (p-1)/{q}");
        // and the real arithmetic says so too
        let e: Vec<u64> = ((&p - 1u32) / q).to_u64_digits();
        let yi = c.call(|| A::F::GENERATOR.pow(&e)).map_err(|e| format!("{fl}: pow: {e}"))?;
        want!(c, f.dec(&yi) == y, "{fl}: GENERATOR.pow((p-1)/{q})");
    }
    let w = f.dec(&A::F::TWO_ADIC_ROOT_OF_UNITY);
    let mut x = w.clone();
    for k in 0..s {
        c.step(mix(k, f.key(&x)));
        want!(c, !x.is_one(), "{fl}: the root of unity {w} has order 2^{k}, not 2^{s}");
        x = f.mul(&x, &x);
    }
    want!(c, x.is_one(), "{fl}: the root of unity {w} does not have order 2^{s}");
    for k in 0..s.min(62) {
        let r = c.call(|| A::F::get_root_of_unity(1u64 << k)).map_err(|e| format!("{fl}: get_root_of_unity(2^{k}): {e}"))?;
        let r = r.ok_or_else(|| format!("{fl}: no root of unity of order 2^{k}"))?;
        let mut x = f.dec(&r);
        for _ in 1..k {
            x = f.mul(&x, &x);
        }
        let ok = if k == 0 { x.is_one() } else { x == &p - 1u32 };
        want!(c, ok, "{fl}: get_root_of_unity(2^{k}) has another order");
    }
    if s < 62 {
        let r = c.call(|| A::F::get_root_of_unity(1u64 << (s + 1))).unwrap_or(None);
        want!(c, r.is_none(), "{fl}: a root of unity of order 2^{} is impossible", s + 1);
    }
    Ok(())
}

/// boundary values: around powers of two, of the modulus, halves, and the same in Montgomery form
fn rich(p: &BigUint, all: bool) -> Vec<BigUint> {
    let one = BigUint::one();
    let bits = p.bits();
    let limbs = if bits <= 64 { 64 } else { 256 };
    let mut v: Vec<BigUint> = vec![];
    for k in 0..8u32 {
        v.push(k.into());
        v.push(p - 1u32 - k);
        v.push(p / 2u32 + k);
        v.push(p / 2u32 - k);
        v.push(p / 3u32 + k);
    }
    let mut pos: Vec<u64> = if all || bits <= 64 { (0..bits).collect() } else { (0..bits).filter(|i| matches!(i % 64, 0 | 1 | 31 | 32 | 33 | 62 | 63)).collect() };
    pos.extend([bits - 1]);
    for &i in &pos {
        let x = &one << i;
        for y in [x.clone(), &x - 1u32, &x + 1u32] {
            v.push(&y % p);
            v.push((p - &y % p) % p);
        }
    }
    for i in [0u64, 1, 31, 32, 63, 64, 127, 128, 191, 192, bits - 2] {
        for j in [0u64, 31, 32, 63, 64, 128, 192] {
            if i < bits && j < i {
                v.push(((&one << i) + (&one << j)) % p);
                v.push(((&one << i) - (&one << j)) % p);
            }
        }
    }
    // x such that the Montgomery form x * 2^limbs has a boundary value
    let r: BigUint = (&one << limbs as u64) % p;
    let ri = r.modpow(&(p - 2u32), p);
    for y in [one.clone(), 2u32.into(), p - 1u32, p - 2u32, p / 2u32, p / 2u32 + 1u32, &one << (bits - 1), (&one << (bits - 1)) - 1u32, &one << 32, (&one << 32) - 1u32] {
        v.push(&y * &ri % p);
        v.push(&y * &ri % p * &ri % p);
        v.push(&y * &r % p);
    }
    let mut seen = HashSet::new();
    v.retain(|x| x < p && seen.insert(x.clone()));
    v
}

fn unary<A: Fld>(c: &mut Ctx, x: &<A::R as Rf>::E, slow: bool) -> Result<(), String> {
    let f = A::r();
    let n = A::NAME;
    let xi = f.big(x);
    let e: A::F = f.enc(x);
    let p = f.p();
    let is = |c: &mut Ctx, what: &str, y: &A::F, w: &<A::R as Rf>::E| -> Result<(), String> {
        c.trace(f.key(w));
        if f.dec(y) != *w {
            return Err(format!("{n}: {what} of {xi}: got {} want {}", f.big(&f.dec(y)), f.big(w)));
        }
        Ok(())
    };
    c.step(f.key(x));
    is(c, "conversion", &e, x)?;
    is(c, "negation", &-e, &f.neg(x))?;
    is(c, "double", &e.double(), &f.add(x, x))?;
    is(c, "square", &e.square(), &f.mul(x, x))?;
    let mut m = e;
    m.square_in_place();
    is(c, "square_in_place", &m, &f.mul(x, x))?;
    let mut m = e;
    m.double_in_place();
    is(c, "double_in_place", &m, &f.add(x, x))?;
    let mut m = e;
    m.neg_in_place();
    is(c, "neg_in_place", &m, &f.neg(x))?;
    want!(c, e.is_zero() == xi.is_zero() && e.is_one() == xi.is_one(), "{n}: is_zero/is_one of {xi}");
    match e.inverse() {
        None => want!(c, xi.is_zero(), "{n}: no inverse of {xi}"),
        Some(i) => want!(c, !xi.is_zero() && f.mul(&f.dec(&i), x) == f.one(), "{n}: inverse of {xi} is {:?}", i),
    }
    let by = e.into_bigint().to_bytes_be();
    want!(c, BigUint::from_bytes_be(&by) == xi, "{n}: bytes of {xi}");
    if slow {
        let bu: BigUint = e.into();
        want!(c, bu == xi, "{n}: into BigUint of {xi}");
        is(c, "from_be_bytes_mod_order", &A::F::from_be_bytes_mod_order(&xi.to_bytes_be()), x)?;
        is(c, "from_le_bytes_mod_order", &A::F::from_le_bytes_mod_order(&xi.to_bytes_le()), x)?;
        let xs = xi.to_string();
        if let Ok(v) = xs.parse::<A::F>() {
            is(c, "parse", &v, x)?;
        } else {
            return Err(format!("{n}: cannot parse {xs}"));
        }
        for k in [1u32, 2, 3] {
            // multiples of p on top
            let y = &xi + &p * k;
            is(c, "from_be_bytes_mod_order of a non-canonical value", &A::F::from_be_bytes_mod_order(&y.to_bytes_be()), x)?;
            is(c, "from BigUint of a non-canonical value", &A::F::from(y), x)?;
        }
        for ex in [0u64, 1, 2, 3, 5, 7, 11, 64, u64::MAX] {
            is(c, &format!("pow {ex}"), &e.pow([ex]), &f.pow(x, ex))?;
        }
        is(c, "pow p", &e.pow(p.to_u64_digits()), x)?;
        is(c, "frobenius", &e.frobenius_map(1), x)?;
        let mut buf = vec![];
        e.serialize_compressed(&mut buf).map_err(|e| format!("{n}: serialize {xi}: {e}"))?;
        want!(c, BigUint::from_bytes_le(&buf) == xi && buf.len() as u64 == p.bits().div_ceil(8), "{n}: serialized form of {xi}");
        want!(c, A::F::deserialize_compressed(&buf[..]).ok() == Some(e), "{n}: serialization round trip of {xi}");
        let mut buf = vec![];
        e.serialize_uncompressed(&mut buf).map_err(|e| format!("{n}: serialize {xi}: {e}"))?;
        want!(c, A::F::deserialize_uncompressed(&buf[..]).ok() == Some(e), "{n}: serialization round trip of {xi}");
        let big = &xi + &p;
        let mut buf = big.to_bytes_le();
        buf.resize(p.bits().div_ceil(8).max(buf.len() as u64) as usize, 0);
        if buf.len() as u64 == p.bits().div_ceil(8) {
            want!(c, A::F::deserialize_compressed(&buf[..]).is_err(), "{n}: deserialization accepts the non-canonical {big}");
        }
        let l = f.powb(x, &((&p - 1u32) / 2u32));
        let ok = match e.legendre() {
            LegendreSymbol::Zero => xi.is_zero(),
            LegendreSymbol::QuadraticResidue => l == f.one(),
            LegendreSymbol::QuadraticNonResidue => f.neg(&l) == f.one(),
        };
        want!(c, ok, "{n}: legendre of {xi}");
        match c.call(|| e.sqrt()).map_err(|m| format!("{n}: sqrt of {xi}: {m}"))? {
            Some(r) => want!(c, { let r = f.dec(&r); f.mul(&r, &r) == *x }, "{n}: sqrt of {xi} is {:?}", r),
            None => want!(c, !f.is0(x) && l != f.one(), "{n}: no sqrt of the square {xi}"),
        }
        let s2 = f.mul(x, x);
        match c.call(|| f.enc::<A::F>(&s2).sqrt()).map_err(|m| format!("{n}: sqrt of {xi}^2: {m}"))? {
            Some(r) => want!(c, { let r = f.dec(&r); r == *x || r == f.neg(x) }, "{n}: sqrt of {xi}^2"),
            None => return Err(format!("{n}: no sqrt of {xi}^2")),
        }
    }
    Ok(())
}
fn binary<A: Fld>(c: &mut Ctx, x: &<A::R as Rf>::E, y: &<A::R as Rf>::E) -> Result<(), String> {
    let f = A::r();
    let (a, b): (A::F, A::F) = (f.enc(x), f.enc(y));
    let n = A::NAME;
    let mut is = |what: &str, z: A::F, w: <A::R as Rf>::E| -> Result<(), String> {
        c.step(f.key(&w));
        c.trace(f.key(&w));
        if f.dec(&z) != w {
            return Err(format!("{n}: {} {what} {}: got {} want {}", f.big(x), f.big(y), f.big(&f.dec(&z)), f.big(&w)));
        }
        Ok(())
    };
    is("+", a + b, f.add(x, y))?;
    is("-", a - b, f.sub(x, y))?;
    is("*", a * b, f.mul(x, y))?;
    let mut m = a;
    m.add_assign(&b);
    is("add_assign", m, f.add(x, y))?;
    let mut m = a;
    m.sub_assign(&b);
    is("sub_assign", m, f.sub(x, y))?;
    let mut m = a;
    m.mul_assign(&b);
    is("mul_assign", m, f.mul(x, y))?;
    if (a == b) != (x == y) || a.cmp(&b) != f.big(x).cmp(&f.big(y)) {
        return Err(format!("{n}: comparison of {} and {}", f.big(x), f.big(y)));
    }
    is("sum of products", A::F::sum_of_products(&[a, b], &[b, a]), { let t = f.mul(x, y); f.add(&t, &t) })
}

fn c09(tier: Tier) -> Vec<Space> {
    let th = tier == Tier::Thorough;
    let mut v = vec![];
    v.push(Space::list("constants", "item = field; modulus against its defining formula, generator order by the full factorisation of p-1, every two-adic root", REAL.to_vec(), |&fl, c| {
        with_fld!(fl, A => constants::<A>(c, fl))
    }));
    let mut items = vec![];
    for fl in REAL {
        let r = rich(&prime(fl), true);
        for x in r {
            items.push((fl, x));
        }
    }
    v.push(Space::list("unary", "item = (field, boundary value); negation, doubling, square, inverse, powers, roots, all conversions and encodings", items, |(fl, x), c| {
        with_fld!(*fl, A => { let f = A::r(); unary::<A>(c, &f.of(x), true) })
    }));
    let mut items = vec![];
    for fl in REAL {
        for x in rich(&prime(fl), true) {
            items.push((fl, x));
        }
    }
    v.push(Space::list("binary", "item = (field, boundary value x); every boundary value y; sum, difference, product, comparison, sum of products", items, move |(fl, x), c| {
        with_fld!(*fl, A => {
            let f = A::r();
            let ys = memo(format!("rich {fl}"), || { let f = A::r(); rich(&f.p(), true).iter().map(|y| f.of(y)).collect::<Vec<_>>() });
            let x = f.of(x);
            ys.iter().try_for_each(|y| binary::<A>(c, &x, y))
        })
    }));
    // ranges of BabyBear elements
    let ch = 1u64 << 14;
    let n = P_BABY.div_ceil(ch);
    let chunks: Vec<u64> = if th { (0..n).collect() } else { (0..n).filter(|k| *k < 24 || *k + 24 > n || (*k as i64 - n as i64 / 2).abs() < 12).collect() };
    v.push(Space::list("babybear-ranges", "item = block of 16384 consecutive BabyBear elements (thorough: the whole field); the unary operations of each", chunks, move |&k, c| {
        for x in k * ch..((k + 1) * ch).min(P_BABY) {
            unary::<BabyBear>(c, &x, false)?;
        }
        Ok(())
    }));
    // integer conversions
    v.push(Space::list("integers", "item = field; From of the primitive integers at their boundaries", REAL.to_vec(), |&fl, c| {
        with_fld!(fl, A => {
            let f = A::r();
            let mut i = |what: &str, z: <A as Fld>::F, w: BigUint| -> Result<(), String> {
                c.trace(hash_str(what));
                if f.dec(&z) != f.of(&w) { Err(format!("{fl}: from {what} {w}")) } else { Ok(()) }
            };
            for x in 0..=255u8 { i("u8", x.into(), x.into())?; }
            for k in 0..16 { for d in [0u16, 1, u16::MAX] { let x = (1u16 << k).wrapping_add(d); i("u16", x.into(), x.into())?; } }
            for k in 0..32 { for d in [0u32, 1, u32::MAX] { let x = (1u32 << k).wrapping_add(d); i("u32", x.into(), x.into())?; } }
            for k in 0..64 { for d in [0u64, 1, u64::MAX] { let x = (1u64 << k).wrapping_add(d); i("u64", x.into(), x.into())?; } }
            for k in 0..128 { for d in [0u128, 1, u128::MAX] { let x = (1u128 << k).wrapping_add(d); i("u128", x.into(), x.into())?; } }
            for (x, w) in [(false, 0u8), (true, 1)] { i("bool", x.into(), w.into())?; }
            for k in 1..9u32 { let p = f.p(); for y in [&p * k, &p * k + 1u32, &p * k - 1u32] { i("BigUint", y.clone().into(), y)?; } }
            Ok(())
        })
    }));
    v
}

// ------------------------------------------------------------------ C10

fn hexval(s: &str) -> Option<BigUint> {
    if s.len() % 2 != 0 {
        return None;
    }
    if s.is_empty() {
        return Some(BigUint::zero());
    }
    if !s.bytes().all(|b| b.is_ascii_hexdigit()) {
        return None;
    }
    BigUint::parse_bytes(s.as_bytes(), 16)
}
fn hex_one<A: Fld>(c: &mut Ctx, s: &str) -> Result<(), String> {
    let f = A::r();
    let full = format!("0x{s}");
    match hexval(s) {
        Some(v) => {
            let w = f.of(&v);
            c.step(f.key(&w));
            let y = c.call(|| from_hex::<A::F>(&full)).map_err(|e| format!("{}: from_hex({full:?}): {e}", A::NAME))?;
            c.trace(f.key(&w));
            c.sample(|| format!("{} {full} -> {}", A::NAME, f.big(&w)));
            if f.dec(&y) != w {
                return Err(format!("{}: from_hex({full:?}) = {}, want {}", A::NAME, f.big(&f.dec(&y)), f.big(&w)));
            }
            Ok(())
        }
        None => c.refuses(|| format!("{}: from_hex({full:?})", A::NAME), || from_hex::<A::F>(&full)),
    }
}
const FIELDS10: [&str; 9] = ["3", "17", "257", "baby", "goldi", "bls", "bn", "pallas", "vesta"];
fn c10(tier: Tier) -> Vec<Space> {
    let th = tier == Tier::Thorough;
    let mut v = vec![];
    let al: Vec<char> = "0123456789abcdefABCDEF".chars().collect();
    let n = al.len() as u64;
    // all strings of up to four digits, every case mix
    let a2 = al.clone();
    v.push(Space::new("short-strings", n * n, "item = last two digits; every string of 0 to 4 (thorough: 5 odd and 6 even on the tiny and 64-bit fields) hexadecimal digits of either case ending in them, over every field", move |i, c| {
        let tail: String = [a2[(i / n) as usize], a2[(i % n) as usize]].iter().collect();
        let mut heads: Vec<String> = vec![String::new()];
        let mut layer = heads.clone();
        for _ in 0..2 {
            layer = layer.iter().flat_map(|h| a2.iter().map(move |x| format!("{x}{h}"))).collect();
            heads.extend(layer.clone());
        }
        for fl in FIELDS10 {
            with_fld!(fl, A => {
                for h in &heads {
                    hex_one::<A>(c, &format!("{h}{tail}"))?;
                }
                if i == 0 {
                    hex_one::<A>(c, "")?;
                    for x in &a2 {
                        hex_one::<A>(c, &x.to_string())?;
                    }
                }
                if th && matches!(fl, "257" | "goldi") {
                    let l3: Vec<String> = layer.iter().flat_map(|h| a2.iter().map(move |x| format!("{x}{h}"))).collect();
                    for h in &l3 {
                        for x in &a2 {
                            hex_one::<A>(c, &format!("{x}{h}{tail}"))?;
                        }
                    }
                }
                Ok::<(), String>(())
            })?;
        }
        Ok(())
    }));
    // boundary values at every length
    let mut items = vec![];
    for fl in FIELDS10 {
        for len in 1..=(if th { 200u64 } else { 72 }) {
            items.push((fl, len));
        }
    }
    for fl in FIELDS10 {
        for len in [96, 127, 128, 129, 255, 256, 257, 512, 1024, 4096] {
            items.push((fl, len));
        }
        if ["257", "baby", "goldi", "bls"].contains(&fl) {
            items.extend([(fl, 8191), (fl, 16_384), (fl, 32_768), (fl, 65_535), (fl, 65_536), (fl, 65_537), (fl, 131_073)]);
        }
    }
    v.push(Space::list("lengths-and-boundaries", "item = (field, number of bytes); the values 0, all ones, every single byte set, multiples of p and their neighbours, p^k, powers of two and their neighbours, padded to that length with zeros, lower, upper and alternating case", items, move |&(fl, len), c| {
        let p = with_fld!(fl, A => A::r().p());
        let one = BigUint::one();
        let top = &one << (8 * len);
        let mut vals: Vec<BigUint> = vec![0u32.into(), &top - 1u32, &top >> 1, (&top >> 1) - 1u32];
        let q = &top / &p;
        for k in [one.clone(), 2u32.into(), 3u32.into(), 4u32.into(), 7u32.into(), 8u32.into(), 15u32.into(), 16u32.into(), 255u32.into(), 256u32.into(), &q - (if q.is_zero() { 0u32 } else { 1 }), q.clone(), &q / 2u32, p.clone(), &p - 1u32, &p + 1u32] {
            let x = &p * k;
            vals.extend([x.clone(), &x + 1u32]);
            if !x.is_zero() {
                vals.push(x - 1u32);
            }
        }
        for i in (0..8 * len).step_by(if len > 4096 { len as usize } else if len > 128 { 64 } else { 4 }) {
            let x = &one << i;
            vals.extend([x.clone(), &x - 1u32, &x + 1u32]);
        }
        if len <= 128 {
            for i in 0..len {
                vals.push(BigUint::from(0xa5u32) << (8 * i));
            }
        }
        vals.push(BigUint::from_bytes_be(&(0..len).map(|i| (i * 37 + 11) as u8).collect::<Vec<_>>()));
        with_fld!(fl, A => {
            for x in vals {
                if x >= top {
                    continue;
                }
                let digits = format!("{x:x}");
                let lo = "0".repeat(2 * len as usize - digits.len()) + &digits;
                hex_one::<A>(c, &lo)?;
                hex_one::<A>(c, &lo.to_uppercase())?;
                let alt: String = lo.chars().enumerate().map(|(i, ch)| if i % 2 == 0 { ch.to_ascii_uppercase() } else { ch }).collect();
                hex_one::<A>(c, &alt)?;
            }
            Ok(())
        })
    }));
    // refused strings
    let mut bad: Vec<String> = (0u32..256).filter_map(char::from_u32).filter(|ch| !ch.is_ascii_hexdigit()).map(|ch| ch.to_string()).collect();
    bad.extend(["é", "Ａ", "０", "٣", "\u{200b}", "😀", "−", "ﬀ"].map(String::from));
    let mut items = vec![];
    for fl in ["257", "baby", "goldi", "bls", "bn", "pallas", "vesta"] {
        for len in [2usize, 4, 8, 16, 32, 62, 63, 64, 66, 128] {
            items.push((fl, len));
        }
    }
    v.push(Space::list("refused", "item = (field, length); every non-hexadecimal character (Latin-1 and some others) at every position, and at every gap so that the length is odd; every odd length up to 131", items, move |&(fl, len), c| {
        let base: String = "0123456789abcdef".chars().cycle().take(len).collect();
        with_fld!(fl, A => {
            for b in &bad {
                for pos in 0..len {
                    let s = format!("{}{}{}", &base[..pos], b, &base[pos + 1..]);
                    let full = format!("0x{s}");
                    c.refuses(|| format!("{}: from_hex({full:?})", A::NAME), || from_hex::<<A as Fld>::F>(&full))?;
                }
                for pos in [0, 1, len / 2, len - 1, len] {
                    for s in [format!("{}{}{}", &base[..pos], b, &base[pos..]), format!("{}{}{}{}", &base[..pos], b, b, &base[pos..])] {
                        let full = format!("0x{s}");
                        c.refuses(|| format!("{}: from_hex({full:?})", A::NAME), || from_hex::<<A as Fld>::F>(&full))?;
                    }
                }
            }
            for n in (1..132).step_by(2) {
                for ch in ["0", "f", "A"] {
                    hex_one::<A>(c, &ch.repeat(n))?;
                }
            }
            for s in ["0x00", "0x", "0X12", "+1", "-1", " 1", "1 ", "0_", "_0", "1.", "1h", "\\x"] {
                hex_one::<A>(c, s)?;
            }
            Ok(())
        })
    }));
    v
}

// ------------------------------------------------------------------ C11

/// 0: random_scalar, 1: random_scalar_without_0
fn draw<F: PrimeField>(k: u8) -> F {
    if k == 0 {
        random_scalar()
    } else {
        random_scalar_without_0()
    }
}
fn script(p: u64, l: usize, k: u64) -> Vec<BigUint> {
    nth_state(p, l, k).into_iter().map(|x| x.into()).collect()
}
/// every outcome sequence of length l of the sampler, for a sequence of calls
fn tree<A: Fld>(c: &mut Ctx, calls: &[u8], l: usize) -> Result<(), String>
where
    A::R: Rf<E = u64>,
{
    let f = A::r();
    let p = f.neg(&1) + 1;
    let mut mass: HashMap<Vec<u64>, u64> = HashMap::new();
    let mut residual = 0u64;
    for k in 0..upow(p, l) {
        let s = script(p, l, k);
        let desc = format!("F_{p}, calls {calls:?} (0: random_scalar, 1: without_0), sampler outcomes {s:?} then 1");
        let (r, used) = with_draws(s, 1u32.into(), || c.call(|| calls.iter().map(|&k| f.dec(&draw::<A::F>(k))).collect::<Vec<u64>>()));
        let r = r.map_err(|e| format!("{desc}: {e}"))?;
        if used == 0 {
            return fallback::<A>(c, calls[0]);
        }
        c.step(mix(k, f.hash(&r)));
        c.trace(f.hash(&r));
        for (x, kind) in r.iter().zip(calls) {
            if *kind == 1 && *x == 0 {
                return Err(format!("{desc}: the non-zero scalar is zero"));
            }
        }
        c.sample(|| format!("{desc} -> {r:?}"));
        if used > l {
            residual += 1;
        } else {
            *mass.entry(r).or_default() += 1;
        }
    }
    let outcomes: u64 = calls.iter().map(|k| p - *k as u64).product();
    let total = upow(p, l);
    if mass.len() as u64 != outcomes && residual < total {
        return Err(format!("F_{p}, calls {calls:?}: {} of {outcomes} results are possible within {l} draws", mass.len()));
    }
    let w: HashSet<u64> = mass.values().copied().collect();
    if w.len() > 1 {
        let mut m: Vec<_> = mass.into_iter().collect();
        m.sort();
        return Err(format!("F_{p}, calls {calls:?}: results are not equally likely over the {total} outcome sequences of {l} draws: {}", trunc(&format!("{m:?}"))));
    }
    // random_scalar always consumes a bounded number of draws; the other one fails to finish only on all-zero outcomes
    if calls.iter().all(|k| *k == 0) && residual > 0 {
        return Err(format!("F_{p}, calls {calls:?}: {residual} outcome sequences of {l} draws do not suffice"));
    }
    Ok(())
}
/// The implementation does not use the field's sampler, so its outcomes cannot be enumerated. What remains is one
/// fixed entropy stream: over many draws every residue (tiny fields) or every sixteenth of the range and every value of
/// the low four bits (large fields) has its expected frequency within 7 standard deviations.
fn fallback<A: Fld>(c: &mut Ctx, kind: u8) -> Result<(), String> {
    static DONE: std::sync::Mutex<Option<HashMap<(&'static str, u8), Result<u64, String>>>> = std::sync::Mutex::new(None);
    c.sample(|| "the field's own sampler is not used: outcomes not enumerable, frequencies over one fixed entropy stream only".into());
    let r = DONE.lock().unwrap().get_or_insert_with(HashMap::new).entry((A::NAME, kind)).or_insert_with(|| frequencies::<A>(kind)).clone()?;
    c.trace(r);
    Ok(())
}
fn frequencies<A: Fld>(kind: u8) -> Result<u64, String> {
    let f = A::r();
    let p = f.p();
    let tiny = p < BigUint::from(300u32);
    let n = if tiny { 6_000_000usize } else { 100_000 };
    let xs = pmc::entropy::on_fresh_thread(77 + kind as u64, || (0..n).map(|_| f.big(&f.dec(&draw::<A::F>(kind)))).fold(HashMap::<(u8, BigUint), u64>::new(), |mut m, x| {
        if tiny {
            *m.entry((0, x)).or_default() += 1;
        } else {
            if x.is_zero() && kind == 1 {
                *m.entry((3, x.clone())).or_default() += 1;
            }
            *m.entry((0, &x * 16u32 / &p)).or_default() += 1;
            *m.entry((1, &x % 16u32)).or_default() += 1;
            *m.entry((2, BigUint::zero())).or_default() += 1;
        }
        m
    })).map_err(|e| format!("{}: {e}", A::NAME))?;
    let cells: Vec<(u8, BigUint)> = if tiny { (kind as u64..p.to_u64_digits()[0]).map(|x| (0, x.into())).collect() } else { (0..2u8).flat_map(|w| (0..16u32).map(move |x| (w, x.into()))).collect() };
    if kind == 1 && (xs.contains_key(&(3, BigUint::zero())) || tiny && xs.contains_key(&(0, BigUint::zero()))) {
        return Err(format!("{}: the non-zero scalar is zero", A::NAME));
    }
    let want = n as f64 / if tiny { cells.len() as f64 } else { 16.0 };
    for k in &cells {
        let got = xs.get(k).copied().unwrap_or(0) as f64;
        if (got - want).abs() > 7.0 * want.sqrt() {
            return Err(format!("{}: {} returns {} in {got} of {n} draws, expected about {want:.0}", A::NAME, if kind == 0 { "random_scalar" } else { "random_scalar_without_0" },
                if tiny { format!("{}", k.1) } else if k.0 == 0 { format!("a value in part {} of 16 of the range", k.1) } else { format!("a value with low bits {}", k.1) }));
        }
    }
    Ok(n as u64)
}
fn c11(tier: Tier) -> Vec<Space> {
    let th = tier == Tier::Thorough;
    let mut v = vec![];
    let mut items = vec![];
    for (fl, l) in [("3", 10), ("5", 7), ("7", 5), ("11", 4), ("13", 4), ("17", 4), ("257", 2)] {
        let l = if th && fl != "257" { l + 1 } else { l };
        for k in 1..=l {
            for calls in [vec![0u8], vec![1]] {
                items.push((fl, k, calls));
            }
            if k >= 2 {
                for a in 0..2u8 {
                    for b in 0..2u8 {
                        items.push((fl, k, vec![a, b]));
                    }
                }
            }
            if k >= 3 && fl == "3" {
                for m in 0..8u8 {
                    items.push((fl, k, vec![m & 1, m >> 1 & 1, m >> 2 & 1]));
                }
            }
        }
    }
    v.push(Space::list("outcome-tree", "item = (tiny field, sequence of up to three calls, number of sampler draws); every outcome sequence of the sampler: results equally likely, every result possible, no zero where excluded", items, |(fl, l, calls), c| {
        macro_rules! go { ($a:ident) => { tree::<$a>(c, calls, *l) } }
        match *fl { "3" => go!(X3), "5" => go!(X5), "7" => go!(X7), "11" => go!(X11), "13" => go!(X13), "17" => go!(X17), _ => go!(X257) }
    }));
    let mut items = vec![];
    for fl in REAL {
        for kind in 0..2u8 {
            for zeros in (0..=(if th { 70usize } else { 20 })).chain([31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 511, 512, 999, 1000, 1001, 1023, 1024, 1025, 4096, 10_000, 65_537]) {
                items.push((fl, kind, zeros));
            }
        }
    }
    v.push(Space::list("shipped-fields", "item = (field, function, number of leading zero draws); every boundary value as the next draw: no zero where excluded, different draws give different results, zero draws are redrawn", items, |&(fl, kind, zeros), c| {
        with_wfld!(fl, A => {
            let f = A::r();
            let mut seen: HashMap<BigUint, BigUint> = HashMap::new();
            for (k, x) in rich(&f.p(), true).into_iter().enumerate() {
                if kind == 1 && x.is_zero() || zeros > 20 && k % 16 != 1 || zeros > 1025 && k != 1 { continue; }
                let mut s = vec![BigUint::zero(); if kind == 1 { zeros } else { 0 }];
                let calls = if kind == 0 { zeros } else { 0 };
                s.extend(vec![BigUint::from(5u32); calls]);
                s.push(x.clone());
                // for the plain function: earlier calls with another outcome do not matter
                let (r, used) = with_draws(s, 3u32.into(), || c.call(|| {
                    for _ in 0..calls { draw::<<A as Fld>::F>(0); }
                    f.big(&f.dec(&draw::<<A as Fld>::F>(kind)))
                }));
                let r = r.map_err(|e| format!("{fl}: {e}"))?;
                if used == 0 { return fallback::<A>(c, kind); }
                c.step(f.key(&f.of(&r)));
                c.trace(f.key(&f.of(&r)));
                if kind == 1 && r.is_zero() {
                    return Err(format!("{fl}: random_scalar_without_0 returns 0 for {zeros} zero draws followed by {x}"));
                }
                if let Some(y) = seen.insert(r.clone(), x.clone()) {
                    return Err(format!("{fl}: {} returns {r} both for the draw {y} and for {x} (after {zeros} zero draws / earlier calls)", if kind == 0 { "random_scalar" } else { "random_scalar_without_0" }));
                }
            }
            Ok(())
        })
    }));
    v
}

fn main() {
    main_with(|c, t| match c {
        "C09" => c09(t),
        "C10" => c10(t),
        "C11" => c11(t),
        _ => vec![],
    })
}
