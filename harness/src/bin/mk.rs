//! C14 field Merkle tree, C15 byte-digest Merkle tree, C16 level-tagged Merkle trees.
use digest::{consts::*, generic_array::GenericArray, FixedOutput, FixedOutputReset, HashMarker, Output, OutputSizeUser, Reset, Update};
use ff::Field as _;
use pmc::explore::*;
use pmc::gen::*;
use pmc::refm::*;
use pmc::with_fld;
use sha2::Digest;
use std::collections::HashMap;
use std::sync::{Arc, Mutex};
use zkhash::merkle_tree::{merkle_tree_f2, merkle_tree_fp, merkle_tree_orchard, merkle_tree_sapling};

/// Two-to-one hash on symbols: an interning table (injective, so that the root identifies the whole
/// tree), or any finite function.
enum Hash {
    Intern(Mutex<HashMap<(usize, u64, u64), u64>>),
    /// per level: value of (l, r) at l * n + r
    Table(u64, Vec<Vec<u64>>),
    Fn(Box<dyn Fn(usize, u64, u64) -> u64 + Send + Sync>),
}
const NODE: u64 = 1 << 40;
impl Hash {
    fn intern() -> Arc<Hash> {
        Arc::new(Hash::Intern(Mutex::new(HashMap::new())))
    }
    fn get(&self, lv: usize, l: u64, r: u64) -> u64 {
        match self {
            Hash::Intern(m) => {
                let mut m = m.lock().unwrap_or_else(|e| e.into_inner());
                let n = m.len() as u64;
                *m.entry((lv, l, r)).or_insert(NODE + n)
            }
            Hash::Table(n, t) => t[lv.min(t.len() - 1)][(l * n + r) as usize],
            Hash::Fn(f) => f(lv, l, r),
        }
    }
}
/// the specification
fn root(h: &mut dyn FnMut(usize, &u64, &u64) -> u64, leaves: &[u64], c: &mut Ctx) -> u64 {
    root_of(&mut |l, a, b, _: &mut Ctx| h(l, a, b), leaves, c, |x| *x)
}
fn root_of<T: Clone>(h: &mut dyn FnMut(usize, &T, &T, &mut Ctx) -> T, leaves: &[T], c: &mut Ctx, key: impl Fn(&T) -> u64) -> T {
    let mut n = 2;
    while n < leaves.len() {
        n *= 2;
    }
    let mut lv: Vec<T> = leaves.to_vec();
    lv.resize(n, leaves[leaves.len() - 1].clone());
    let mut level = 0;
    while lv.len() > 1 {
        lv = (0..lv.len() / 2).map(|i| h(level, &lv[2 * i], &lv[2 * i + 1], c)).collect();
        let d = lv.iter().fold(level as u64, |x, y| mix(x, key(y)));
        c.step(d);
        level += 1;
    }
    lv[0].clone()
}

// symbols <-> field elements; the first few are the special values
trait Sym: Copy {
    fn enc(s: u64) -> Self;
    fn dec(&self) -> u64;
}
macro_rules! sym_ff {
    ($t:ty) => {
        impl Sym for $t {
            fn enc(s: u64) -> Self {
                match s {
                    0 => <$t>::ZERO,
                    1 => <$t>::ONE,
                    2 => -<$t>::ONE,
                    3 => -<$t>::from(2u64),
                    s => <$t>::from(s),
                }
            }
            fn dec(&self) -> u64 {
                for s in [2, 3] {
                    if *self == Self::enc(s) {
                        return s;
                    }
                }
                use ff::PrimeField;
                let r = self.to_repr();
                u64::from_le_bytes(r.as_ref()[..8].try_into().unwrap())
            }
        }
    };
}
sym_ff!(pasta_curves::pallas::Base);
sym_ff!(jubjub::Base);
type Fp = zkhash::fields::goldilocks::FpGoldiLocks;
impl Sym for Fp {
    fn enc(s: u64) -> Self {
        match s {
            2 => -Fp::from(1u64),
            3 => -Fp::from(2u64),
            s => Fp::from(s),
        }
    }
    fn dec(&self) -> u64 {
        let v: u64 = Small { p: P_GOLDI }.dec(self);
        match P_GOLDI - v {
            1 => 2,
            2 => 3,
            _ => v,
        }
    }
}
#[derive(Clone)]
struct P(Arc<Hash>);
impl merkle_tree_fp::MerkleTreeHash<Fp> for P {
    fn compress(&self, i: &[&Fp]) -> Fp {
        assert_eq!(i.len(), 2, "HARNESS-NOTE: compress called with {} inputs", i.len());
        Sym::enc(self.0.get(0, i[0].dec(), i[1].dec()))
    }
}
impl merkle_tree_orchard::MerkleTreeHash for P {
    fn compress(&self, l: usize, i: &[&pasta_curves::pallas::Base; 2]) -> pasta_curves::pallas::Base {
        Sym::enc(self.0.get(l, i[0].dec(), i[1].dec()))
    }
}
impl merkle_tree_sapling::MerkleTreeHash for P {
    fn compress(&self, l: usize, i: &[&jubjub::Base; 2]) -> jubjub::Base {
        Sym::enc(self.0.get(l, i[0].dec(), i[1].dec()))
    }
}
enum Tree {
    Fp(merkle_tree_fp::MerkleTree<Fp, P>),
    Orchard(merkle_tree_orchard::MerkleTree<P>),
    Sapling(merkle_tree_sapling::MerkleTree<P>),
}
impl Tree {
    fn new(kind: &str, h: &Arc<Hash>) -> Tree {
        let p = P(h.clone());
        match kind {
            "fp" => Tree::Fp(merkle_tree_fp::MerkleTree::new(p)),
            "orchard" => Tree::Orchard(merkle_tree_orchard::MerkleTree::new(p)),
            _ => Tree::Sapling(merkle_tree_sapling::MerkleTree::new(p)),
        }
    }
    fn acc(&mut self, l: &[u64]) -> u64 {
        fn e<T: Sym>(l: &[u64]) -> Vec<T> {
            l.iter().map(|x| T::enc(*x)).collect()
        }
        match self {
            Tree::Fp(t) => t.accumulate(&e(l)).dec(),
            Tree::Orchard(t) => t.accumulate(&e(l)).dec(),
            Tree::Sapling(t) => t.accumulate(&e(l)).dec(),
        }
    }
}
fn one(c: &mut Ctx, kind: &str, t: &mut Tree, h: &Arc<Hash>, leaves: &[u64]) -> Result<(), String> {
    let y = c.call(|| t.acc(leaves)).map_err(|e| format!("{kind} tree, {} leaves {}: {e}", leaves.len(), trunc(&format!("{leaves:?}"))))?;
    let leveled = kind != "fp";
    let want = root(&mut |l, a, b| h.get(if leveled { l } else { 0 }, *a, *b), leaves, c);
    c.trace(mix(leaves.len() as u64, y));
    c.sample(|| format!("{kind} tree of {} leaves {} -> symbol {y}", leaves.len(), trunc(&format!("{leaves:?}"))));
    if y != want {
        return Err(format!("{kind} tree, {} leaves {}: root is not that of the padded complete tree (symbols {y} / {want}{})", leaves.len(), trunc(&format!("{leaves:?}")),
            match &**h { Hash::Table(n, t) => format!(", hash over {n} values given by {t:?}"), _ => String::new() }));
    }
    Ok(())
}
fn sizes(th: bool) -> Vec<usize> {
    let mut v: Vec<usize> = (1..=if th { 8192 } else { 2100 }).collect();
    for k in 12..=(if th { 20 } else { 16 }) {
        for d in [-2i64, -1, 0, 1, 2, 3, 1 << (k - 1), (1 << (k - 1)) - 1, (1 << (k - 1)) + 1] {
            v.push(((1i64 << k) + d) as usize);
        }
    }
    v.extend([131_071, 131_072, 131_073, 262_145]);
    v.sort();
    v.dedup();
    v.reverse();
    v
}

fn symbolic(kind: &'static str, tier: Tier) -> Vec<Space> {
    let th = tier == Tier::Thorough;
    let mut v = vec![];
    v.push(Space::list("sizes", "item = number of leaves; distinct leaves (values from 0, from 5 and descending), an injective symbolic hash, so the root determines every node", sizes(th), move |&n, c| {
        let h = Hash::intern();
        let mut t = Tree::new(kind, &h);
        one(c, kind, &mut t, &h, &(0..n as u64).collect::<Vec<_>>())?;
        if n <= 5000 {
            one(c, kind, &mut t, &h, &(5..n as u64 + 5).rev().collect::<Vec<_>>())?;
            one(c, kind, &mut Tree::new(kind, &h), &h, &(0..n as u64).map(|k| k / 2).collect::<Vec<_>>())?;
        }
        Ok(())
    }));
    let mut items = vec![];
    for (b, n) in [(3u64, if th { 11usize } else { 9 }), (2, if th { 17 } else { 13 }), (4, if th { 9 } else { 7 })] {
        for n in 1..=n {
            let total = upow(b, n);
            let ch = total.div_ceil(64).max(1);
            for k in 0..total.div_ceil(ch) {
                items.push((b, n, k * ch, ((k + 1) * ch).min(total)));
            }
        }
    }
    v.push(Space::list("all-leaf-lists", "item = (alphabet size, number of leaves, block); every leaf list over {0,1}, {0,1,-1}, {0,1,-1,-2} with the injective symbolic hash, on one reused tree", items, move |&(b, n, lo, hi), c| {
        let h = Hash::intern();
        let mut t = Tree::new(kind, &h);
        for k in lo..hi {
            one(c, kind, &mut t, &h, &nth_state(b, n, k))?;
        }
        Ok(())
    }));
    if kind == "fp" {
        v.push(Space::new("all-hash-functions", 19683, "item = one of all 3^9 two-to-one functions on three values (0, 1, -1); every list of 1 to 4 (thorough: 5) leaves", move |k, c| {
            let h = Arc::new(Hash::Table(3, vec![nth_state(3, 9, k)]));
            let mut t = Tree::new(kind, &h);
            for n in 1..=(if th { 5 } else { 4 }) {
                for l in 0..upow(3, n) {
                    one(c, kind, &mut t, &h, &nth_state(3, n, l))?;
                }
            }
            Ok(())
        }));
    }
    v.push(Space::new("all-level-functions", 4096, "item = one function on two values per level, three levels (all 16^3; for the untagged tree the first); every list of 1 to 8 leaves", move |k, c| {
        let f = |x: u64| nth_state(2, 4, x);
        let h = Arc::new(Hash::Table(2, if kind == "fp" { vec![f(k % 16)] } else { vec![f(k % 16), f(k / 16 % 16), f(k / 256)] }));
        let mut t = Tree::new(kind, &h);
        for n in 1..=8 {
            for l in 0..upow(2, n) {
                one(c, kind, &mut t, &h, &nth_state(2, n, l))?;
            }
        }
        Ok(())
    }));
    let ns: Vec<usize> = (1..=40).chain([47, 48, 49, 63, 64, 65, 66, 95, 96, 97]).chain(if th { vec![127, 128, 129, 130, 255, 256, 257] } else { vec![] }).collect();
    v.push(Space::list("leaf-deviations", "item = number of leaves; backgrounds (distinct, all zero, all equal, alternating) with every one or two leaves set to 0, 1, -1, -2 or the neighbour's value", ns, move |&n, c| {
        let h = Hash::intern();
        let mut t = Tree::new(kind, &h);
        let f = Small { p: 1 << 39 };
        let bgs: Vec<Vec<u64>> = vec![(10..10 + n as u64).collect(), vec![0; n], vec![7; n], (0..n as u64).map(|i| 20 + i % 2).collect(), (0..n as u64).map(|i| 20 + i / 2).collect()];
        deviations(&f, &bgs, &[0, 1, 2, 3, 10, 9 + n as u64], if n <= 40 { 2 } else { 1 }, |l| one(c, kind, &mut t, &h, l))
    }));
    let mut items = vec![];
    for a in 0..=17usize {
        for b in 0..=17usize {
            items.push((a, b));
        }
    }
    v.push(Space::list("reuse", "item = sizes of two lists (0: empty, refused); accumulated one after the other on one tree, then a third; empty lists always refused", items, move |&(a, b), c| {
        for third in [1usize, 3, 8] {
            let h = Hash::intern();
            let mut t = Tree::new(kind, &h);
            for (k, n) in [a, b, third, 0].into_iter().enumerate() {
                if n == 0 {
                    c.refuses(|| format!("{kind} tree: empty list after {a}, {b} leaves"), || t.acc(&[]))?;
                } else {
                    one(c, kind, &mut t, &h, &(0..n as u64).map(|i| 100 * k as u64 + i).collect::<Vec<_>>())?;
                }
            }
        }
        Ok(())
    }));
    // hashes with structure an implementation could be tempted to rely on
    let fns: Vec<(&str, fn(usize, u64, u64) -> u64)> = vec![
        ("left", |_, a, _| a),
        ("right", |_, _, b| b),
        ("constant", |_, _, _| 5),
        ("xor", |_, a, b| (a ^ b) & 0xffff),
        ("max", |_, a, b| a.max(b)),
        ("linear", |l, a, b| (3 * a + 5 * b + 7 * l as u64 + 1) % 65537),
        ("symmetric", |l, a, b| (a + b + l as u64) % 65537),
        ("product", |_, a, b| (a % 257 + 2) * (b % 257 + 3) % 65537),
        ("level", |l, _, _| l as u64),
        ("level-left", |l, a, _| a * 4 % 65537 + l as u64),
    ];
    let mut items = vec![];
    for f in 0..fns.len() {
        for n in 1..=(if th { 300usize } else { 70 }) {
            items.push((f, n));
        }
    }
    v.push(Space::list("degenerate-hashes", "item = (hash: projections, constant, xor, maximum, linear, symmetric, level only, number of leaves); five lists each", items, move |&(f, n), c| {
        let g = fns[f].1;
        let h = Arc::new(Hash::Fn(Box::new(g)));
        let mut t = Tree::new(kind, &h);
        for bg in [(0..n as u64).collect::<Vec<_>>(), vec![0; n], vec![9; n], (0..n as u64).rev().collect(), (0..n as u64).map(|i| i * i % 97).collect()] {
            one(c, kind, &mut t, &h, &bg).map_err(|e| format!("hash {}: {e}", fns[f].0))?;
        }
        Ok(())
    }));
    v
}

fn c14(tier: Tier) -> Vec<Space> {
    let th = tier == Tier::Thorough;
    let mut v = symbolic("fp", tier);
    // affine hashes over whole tiny fields
    let mut items = vec![];
    for a in 0..3u64 {
        for b in 0..3u64 {
            for k in 0..3u64 {
                items.push((a, b, k));
            }
        }
    }
    v.push(Space::list("affine-F3", "item = (a, b, k) of the hash a l + b r + k over F_3; every list of 1 to 9 leaves", items, |&(a, b, k), c| {
        let f = T3::r();
        struct H(u64, u64, u64);
        impl merkle_tree_fp::MerkleTreeHash<pmc::field::F3> for H {
            fn compress(&self, i: &[&pmc::field::F3]) -> pmc::field::F3 {
                let f = T3::r();
                f.enc(&((self.0 * f.dec(i[0]) + self.1 * f.dec(i[1]) + self.2) % 3))
            }
        }
        let mut t = merkle_tree_fp::MerkleTree::new(H(a, b, k));
        for n in 1..=9 {
            for l in 0..upow(3, n) {
                let l = nth_state(3, n, l);
                let e = f.encv(&l);
                let y = c.call(|| t.accumulate(&e)).map_err(|e| format!("{l:?}: {e}"))?;
                let w = root(&mut |_, x, y| (a * x + b * y + k) % 3, &l, c);
                c.trace(w);
                if f.dec(&y) != w {
                    return Err(format!("F_3, hash {a} l + {b} r + {k}, leaves {l:?}: root {} want {w}", f.dec(&y)));
                }
            }
        }
        Ok(())
    }));
    // the hashes the crate ships
    let mut items = vec![];
    for w in ["p2-bls", "p2-bn", "p2-pallas", "p2-vesta", "pos-bls", "pos-bn", "pos-pallas", "pos-vesta", "gm-bls", "gm-bn", "gm-pallas", "gm-vesta", "nep-bls", "nep-bn"] {
        for n in 1..=(if th { 130usize } else { 34 }) {
            items.push((w, n));
        }
    }
    v.push(Space::list("shipped-hashes", "item = (shipped Poseidon2, Poseidon, GMiMC or Neptune instance, number of leaves); distinct, zero and boundary leaves; nodes by the instance's own two-to-one compression", items, |&(w, n), c| {
        use zkhash::merkle_tree::merkle_tree_fp::MerkleTreeHash;
        fn go<A: Fld, H: MerkleTreeHash<A::F> + Clone>(c: &mut Ctx, w: &str, n: usize, h: H) -> Result<(), String> {
            let f = A::r();
            let mut t = merkle_tree_fp::MerkleTree::new(h.clone());
            let al = alphabet(&f, 16);
            for l in [(0..n).map(|i| f.of64(i as u64)).collect::<Vec<_>>(), vec![f.zero(); n], (0..n).map(|i| al[i % al.len()].clone()).collect()] {
                let e = f.encv::<A::F>(&l);
                let y = c.call(|| t.accumulate(&e)).map_err(|e| format!("{w} {n} leaves: {e}"))?;
                let want = root_of(&mut |_, a: &A::F, b: &A::F, c: &mut Ctx| c.call(|| h.compress(&[a, b])).unwrap_or(*a), &e, c, |x| f.key(&f.dec(x)));
                c.trace(f.key(&f.dec(&y)));
                if y != want {
                    return Err(format!("{w}: {n} leaves {}: root {:?} want {:?}", show(&f, &l), y, want));
                }
            }
            Ok(())
        }
        use zkhash::{gmimc::*, neptune::*, poseidon::*, poseidon2::*};
        let fl = w.split('-').nth(1).unwrap();
        macro_rules! g { ($a:ident, $m:ident :: $t:ident, $p:expr) => { with_fld!(fl, B => { let _ = B::NAME; go::<$a, _>(c, w, n, $m::$t::new(&$p)) }) } }
        match w {
            "p2-bls" => g!(Bls, poseidon2::Poseidon2, poseidon2_instance_bls12::POSEIDON2_BLS_3_PARAMS),
            "p2-bn" => g!(Bn, poseidon2::Poseidon2, poseidon2_instance_bn256::POSEIDON2_BN256_PARAMS),
            "p2-pallas" => g!(Pallas, poseidon2::Poseidon2, poseidon2_instance_pallas::POSEIDON2_PALLAS_3_PARAMS),
            "p2-vesta" => g!(Vesta, poseidon2::Poseidon2, poseidon2_instance_vesta::POSEIDON2_VESTA_PARAMS),
            "pos-bls" => g!(Bls, poseidon::Poseidon, poseidon_instance_bls12::POSEIDON_BLS_3_PARAMS),
            "pos-bn" => g!(Bn, poseidon::Poseidon, poseidon_instance_bn256::POSEIDON_BN_PARAMS),
            "pos-pallas" => g!(Pallas, poseidon::Poseidon, poseidon_instance_pallas::POSEIDON_PALLAS_3_PARAMS),
            "pos-vesta" => g!(Vesta, poseidon::Poseidon, poseidon_instance_vesta::POSEIDON_VESTA_PARAMS),
            "gm-bls" => g!(Bls, gmimc::Gmimc, gmimc_instance_bls12::GMIMC_BLS_3_PARAMS),
            "gm-bn" => g!(Bn, gmimc::Gmimc, gmimc_instance_bn256::GMIMC_BN_3_PARAMS),
            "gm-pallas" => g!(Pallas, gmimc::Gmimc, gmimc_instance_pallas::GMIMC_PALLAS_3_PARAMS),
            "gm-vesta" => g!(Vesta, gmimc::Gmimc, gmimc_instance_vesta::GMIMC_VESTA_3_PARAMS),
            "nep-bls" => g!(Bls, neptune::Neptune, neptune_instances::NEPTUNE_BLS_4_PARAMS),
            _ => g!(Bn, neptune::Neptune, neptune_instances::NEPTUNE_BN_PARAMS),
        }
    }));
    v
}

// ------------------------------------------------------------------ C15

/// Toy digests: tiny outputs computed from the whole byte stream since the last reset.
#[derive(Clone, Default, Debug)]
struct Toy<const K: u8, N>(Vec<u8>, std::marker::PhantomData<N>);
impl<const K: u8, N> HashMarker for Toy<K, N> {}
impl<const K: u8, N: digest::generic_array::ArrayLength<u8> + 'static> OutputSizeUser for Toy<K, N> {
    type OutputSize = N;
}
impl<const K: u8, N> Update for Toy<K, N> {
    fn update(&mut self, d: &[u8]) {
        self.0.extend_from_slice(d)
    }
}
fn toy(kind: u8, bytes: &[u8], out: &mut [u8]) {
    match kind {
        // distinguishes order and length
        0 => {
            for (k, o) in out.iter_mut().enumerate() {
                *o = bytes.iter().fold(17u64 + k as u64, |h, b| (h * 31 + *b as u64 + 1) % (251 - 2 * k as u64)) as u8;
            }
        }
        // order independent
        1 => {
            for o in out.iter_mut() {
                *o = bytes.iter().fold(bytes.len() as u8, |h, b| h.wrapping_add(*b));
            }
        }
        // three values only
        2 => {
            for o in out.iter_mut() {
                *o = (bytes.iter().enumerate().map(|(i, b)| (i as u64 + 1) * *b as u64).sum::<u64>() % 3) as u8;
            }
        }
        // only the first byte
        3 => {
            for o in out.iter_mut() {
                *o = bytes.first().copied().unwrap_or(99);
            }
        }
        // only the last byte
        _ => {
            for o in out.iter_mut() {
                *o = bytes.last().copied().unwrap_or(98);
            }
        }
    }
}
impl<const K: u8, N: digest::generic_array::ArrayLength<u8> + 'static> FixedOutput for Toy<K, N> {
    fn finalize_into(self, out: &mut Output<Self>) {
        toy(K, &self.0, out)
    }
}
impl<const K: u8, N: digest::generic_array::ArrayLength<u8> + 'static> Reset for Toy<K, N> {
    fn reset(&mut self) {
        self.0.clear()
    }
}
impl<const K: u8, N: digest::generic_array::ArrayLength<u8> + 'static> FixedOutputReset for Toy<K, N> {
    fn finalize_into_reset(&mut self, out: &mut Output<Self>) {
        toy(K, &self.0, out);
        self.0.clear()
    }
}
fn f2_tree<D: Digest + FixedOutputReset + Clone>(how: u64) -> merkle_tree_f2::MerkleTree<D> {
    match how {
        0 => merkle_tree_f2::MerkleTree::new(),
        1 => merkle_tree_f2::MerkleTree::default(),
        _ => merkle_tree_f2::MerkleTree::new().clone(),
    }
}
fn f2_one<D: Digest + FixedOutputReset + Clone>(c: &mut Ctx, name: &str, t: &mut merkle_tree_f2::MerkleTree<D>, l: &[Output<D>]) -> Result<(), String> {
    let d = || format!("{name} tree, {} digests {}", l.len(), trunc(&l.iter().map(|x| x.iter().map(|b| format!("{b:02x}")).collect::<String>()).collect::<Vec<_>>().join(",")));
    let y = c.call(|| t.accumulate(l)).map_err(|e| format!("{}: {e}", d()))?;
    let h = |b: &[u8]| b.iter().fold(3, |h, x| mix(h, *x as u64));
    let want = root_of(
        &mut |_, a: &Output<D>, b: &Output<D>, _| {
            let mut s = a.to_vec();
            s.extend_from_slice(b);
            <D as Digest>::digest(&s)
        },
        l,
        c,
        |x| h(x),
    );
    c.trace(mix(l.len() as u64, h(&y)));
    if y != want {
        return Err(format!("{}: root {:02x?} want {:02x?}", d(), &y[..y.len().min(8)], &want[..want.len().min(8)]));
    }
    c.sample(d);
    Ok(())
}
fn leaf<D: Digest>(v: u64) -> Output<D> {
    let mut o: Output<D> = GenericArray::default();
    let n = o.len();
    for i in 0..n {
        o[i] = match v {
            0 => 0,
            1 => 0xff,
            2 => (i == n - 1) as u8,
            3 => 0x80 * (i == 0) as u8,
            v => ((v.wrapping_mul(0x9E37_79B9_7F4A_7C15) >> (8 * (i % 8))) as u8).wrapping_add((i / 8) as u8),
        }
    }
    o
}
macro_rules! with_dig {
    ($n:expr, $d:ident => $e:expr) => {
        match $n {
            "sha256" => { type $d = sha2::Sha256; $e } "sha224" => { type $d = sha2::Sha224; $e } "sha512" => { type $d = sha2::Sha512; $e }
            "sha3-256" => { type $d = sha3::Sha3_256; $e } "sha3-512" => { type $d = sha3::Sha3_512; $e } "keccak256" => { type $d = sha3::Keccak256; $e }
            "blake2s" => { type $d = blake2::Blake2s256; $e } "blake2b" => { type $d = blake2::Blake2b512; $e }
            "toy0-1" => { type $d = Toy<0, U1>; $e } "toy0-2" => { type $d = Toy<0, U2>; $e } "toy0-8" => { type $d = Toy<0, U8>; $e } "toy0-200" => { type $d = Toy<0, U200>; $e }
            "toy1-1" => { type $d = Toy<1, U1>; $e } "toy2-1" => { type $d = Toy<2, U1>; $e } "toy3-1" => { type $d = Toy<3, U1>; $e } "toy4-2" => { type $d = Toy<4, U2>; $e }
            n => panic!("digest {n}"),
        }
    };
}
const REALD: [&str; 8] = ["sha256", "sha224", "sha512", "sha3-256", "sha3-512", "keccak256", "blake2s", "blake2b"];
const TOYD: [&str; 8] = ["toy0-1", "toy0-2", "toy0-8", "toy0-200", "toy1-1", "toy2-1", "toy3-1", "toy4-2"];
fn c15(tier: Tier) -> Vec<Space> {
    let th = tier == Tier::Thorough;
    let mut v = vec![];
    let mut items = vec![];
    for d in REALD.into_iter().chain(TOYD) {
        let mut ns: Vec<usize> = (1..=if th { 2100 } else { 300 }).collect();
        for k in 9..=(if th || ["sha256", "toy0-1", "toy0-8", "toy1-1"].contains(&d) { 16 } else { 12 }) {
            for x in [-1i64, 0, 1, 1 << (k - 1)] {
                ns.push(((1i64 << k) + x) as usize);
            }
        }
        ns.sort();
        ns.dedup();
        items.extend(ns.into_iter().rev().filter(|n| d != "toy0-200" || *n <= 40).map(|n| (d, n)));
    }
    v.push(Space::list("sizes", "item = (digest function, number of digests); distinct digests, trees from new(), default() and clone()", items, |&(d, n), c| {
        with_dig!(d, D => {
            for how in 0..3 {
                let mut t = f2_tree::<D>(how);
                f2_one::<D>(c, d, &mut t, &(0..n as u64).map(|i| leaf::<D>(i + how)).collect::<Vec<_>>())?;
                if n > 600 { break; }
            }
            Ok(())
        })
    }));
    let mut items = vec![];
    for d in TOYD.into_iter().chain(["sha256", "sha512", "blake2s"]) {
        let real = !d.starts_with("toy") || d == "toy0-200";
        for (b, n) in [(3u64, if th { 9 } else { 7 }), (2, if th { 13 } else { 10 }), (4, if th { 8 } else { 6 })] {
            for n in 1..=(if d == "toy0-200" { n - 3 } else if real && !th { n - 1 } else { n }) {
                let total = upow(b, n);
                let ch = total.div_ceil(16).max(1);
                for k in 0..total.div_ceil(ch) {
                    items.push((d, b, n, k * ch, ((k + 1) * ch).min(total)));
                }
            }
        }
    }
    v.push(Space::list("all-digest-lists", "item = (digest function, alphabet size, number of digests, block); every list over the all-zero, all-one, last-bit and first-bit digests, on one reused tree", items, |&(d, b, n, lo, hi), c| {
        with_dig!(d, D => {
            let mut t = f2_tree::<D>(n as u64 % 3);
            for k in lo..hi {
                f2_one::<D>(c, d, &mut t, &nth_state(b, n, k).into_iter().map(leaf::<D>).collect::<Vec<_>>())?;
            }
            Ok(())
        })
    }));
    // one-byte digests: every byte value
    v.push(Space::list("all-bytes", "item = digest with one byte of output; every list of one or two digests, and of three with the third in {0,1,255}", vec!["toy0-1", "toy1-1", "toy2-1", "toy3-1"], |&d, c| {
        macro_rules! go { ($t:ty) => {{
            let mut t = f2_tree::<$t>(0);
            let o = |b: u64| -> Output<$t> { GenericArray::clone_from_slice(&[b as u8]) };
            for a in 0..256u64 {
                f2_one::<$t>(c, d, &mut t, &[o(a)])?;
                for b in 0..256u64 {
                    f2_one::<$t>(c, d, &mut t, &[o(a), o(b)])?;
                    for k in [0, 1, 255] {
                        f2_one::<$t>(c, d, &mut t, &[o(a), o(b), o(k)])?;
                    }
                }
            }
            Ok(())
        }} }
        match d { "toy0-1" => go!(Toy<0, U1>), "toy1-1" => go!(Toy<1, U1>), "toy2-1" => go!(Toy<2, U1>), _ => go!(Toy<3, U1>) }
    }));
    let ns: Vec<usize> = (1..=18).chain([31, 32, 33, 64, 65]).collect();
    let mut items = vec![];
    for d in ["sha256", "sha3-256", "blake2b", "toy0-2", "toy0-8"] {
        for &n in &ns {
            items.push((d, n));
        }
    }
    v.push(Space::list("digest-deviations", "item = (digest function, number of digests); distinct, zero and equal backgrounds with every one or two digests set to special ones", items, |&(d, n), c| {
        with_dig!(d, D => {
            let mut t = f2_tree::<D>(n as u64 % 3);
            let f = Small { p: 1 << 39 };
            let bgs: Vec<Vec<u64>> = vec![(10..10 + n as u64).collect(), vec![0; n], vec![7; n]];
            deviations(&f, &bgs, &[0, 1, 2, 10, 9 + n as u64], if n <= 18 { 2 } else { 1 }, |l| f2_one::<D>(c, d, &mut t, &l.iter().map(|x| leaf::<D>(*x)).collect::<Vec<_>>()))
        })
    }));
    let mut items = vec![];
    for d in ["sha256", "blake2s", "sha3-512", "toy0-1", "toy2-1"] {
        for a in 0..=9usize {
            for b in 0..=9usize {
                items.push((d, a, b));
            }
        }
    }
    v.push(Space::list("reuse", "item = (digest function, sizes of two lists, 0: empty and refused); accumulated one after the other on one tree (original and clone), then a third", items, |&(d, a, b), c| {
        with_dig!(d, D => {
            for how in 0..3 {
                let mut t = f2_tree::<D>(how);
                for (k, n) in [a, b, 3, 0, 2, 1].into_iter().enumerate() {
                    if k == 3 { t = t.clone(); }
                    if n == 0 {
                        c.refuses(|| format!("{d} tree: empty list"), || t.accumulate(&[]))?;
                    } else {
                        f2_one::<D>(c, d, &mut t, &(0..n as u64).map(|i| leaf::<D>(100 * k as u64 + i)).collect::<Vec<_>>())?;
                    }
                }
            }
            Ok(())
        })
    }));
    v
}
fn c16(tier: Tier) -> Vec<Space> {
    let mut v = vec![];
    for k in ["orchard", "sapling"] {
        for mut s in symbolic(k, tier) {
            s.name = format!("{k}-{}", s.name);
            v.push(s);
        }
    }
    v
}

fn main() {
    main_with(|c, t| match c {
        "C14" => c14(t),
        "C15" => c15(t),
        "C16" => c16(t),
        _ => vec![],
    })
}
