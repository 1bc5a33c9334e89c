//! C19 results do not depend on what was called before.
//!
//! A world is a set of live objects and a list of operations on them. What an operation returns
//! when it is the very first call of a fresh process is its expected result; then every operation
//! sequence up to a depth is executed, and every result compared. Every block of sequences runs in
//! a process of its own, so that state hidden anywhere in the process is under control too.
use ark_ff::PrimeField;
use pmc::entropy::on_fresh_thread;
use pmc::explore::*;
use pmc::gen::*;
use pmc::prim::*;
use pmc::refm::*;
use pmc::statics::*;
use pmc::with_wfld;
use sha2::Digest;
use std::process::{Child, Command, Output, Stdio};
use zkhash::merkle_tree::{merkle_tree_f2, merkle_tree_fp, merkle_tree_fp::MerkleTreeHash, merkle_tree_orchard, merkle_tree_sapling};

pmc::interpose!();

type Runner = Box<dyn FnMut(usize) -> u64>;
struct World {
    ops: Vec<String>,
    fresh: Box<dyn Fn() -> Runner>,
}
/// instances that share parameters, other parameters, another width; trees over them
fn prim_world<A: Fld>(k: Cfg) -> World {
    let wider = Cfg { t: match k.kind { Kind::P2 => if k.t == 8 { 4 } else { 8 }, Kind::Nep => k.t + 2, _ => k.t + 1 }, ..k };
    let other = Cfg { pat: k.pat + 1, ..k };
    let ops = [
        "a(x0)", "a(x1)", "b(x0)", "other(x0)", "wider(x)", "a plain(x0)", "other plain(x1)", "a too short", "a too long", "a too long by zero", "wider on x0",
        "a.compress(1,2)", "a.compress(2,1)", "other.compress(1,2)", "compress one input",
        "a = a.clone()", "a = new(same parameters)", "rebuild parameters, b = new(them)", "swap a b", "drop other, make it again",
        "tree[1,2,3]", "tree[4]", "tree[]", "tree = tree.clone()", "other tree[1,2,3]", "a(x0) on another thread", "a(y), input unchanged",
    ];
    let fresh = move || -> Runner {
        let f = A::r();
        let p = params::<A>(k);
        let (mut a, mut b) = (p.instance(), p.instance());
        let mut o = params::<A>(other).instance();
        let w = params::<A>(wider).instance();
        let mut p = p;
        let mut tree = merkle_tree_fp::MerkleTree::new(a.clone());
        let mut otree = merkle_tree_fp::MerkleTree::new(o.clone());
        let st = |t: usize, s: u64| -> Vec<A::F> { f.encv(&(0..t).map(|i| cval(&f, 9, s * 100 + i as u64)).collect::<Vec<_>>()) };
        let (x0, x1, xw) = (st(k.t, 0), st(k.t, 1), st(wider.t, 2));
        let n = |v: u64| A::F::from(v);
        Box::new(move |op| match op {
            0 => val(guarded(|| a.perm(&x0)), |v| hv(v)),
            1 => val(guarded(|| a.perm(&x1)), |v| hv(v)),
            2 => val(guarded(|| b.perm(&x0)), |v| hv(v)),
            3 => val(guarded(|| o.perm(&x0)), |v| hv(v)),
            4 => val(guarded(|| w.perm(&xw)), |v| hv(v)),
            5 => val(guarded(|| a.plain(&x0)), |v| hv(v)),
            6 => val(guarded(|| o.plain(&x1)), |v| hv(v)),
            7 => val(guarded(|| a.perm(&x0[1..])), |v| hv(v)),
            8 => val(guarded(|| a.perm(&[&x0[..], &x1[..1]].concat())), |v| hv(v)),
            9 => val(guarded(|| a.perm(&[&x0[..], &[n(0)]].concat())), |v| hv(v)),
            10 => val(guarded(|| w.perm(&x0)), |v| hv(v)),
            11 => val(guarded(|| a.compress(&[&n(1), &n(2)])), |v| hv(&[*v])),
            12 => val(guarded(|| a.compress(&[&n(2), &n(1)])), |v| hv(&[*v])),
            13 => val(guarded(|| o.compress(&[&n(1), &n(2)])), |v| hv(&[*v])),
            14 => val(guarded(|| a.compress(&[&n(1)])), |v| hv(&[*v])),
            15 => {
                a = a.clone();
                0
            }
            16 => {
                a = p.instance();
                0
            }
            17 => {
                p = params::<A>(k);
                b = p.instance();
                0
            }
            18 => {
                std::mem::swap(&mut a, &mut b);
                0
            }
            19 => {
                o = params::<A>(other).instance();
                0
            }
            20 => val(guarded(|| tree.accumulate(&[n(1), n(2), n(3)])), |v| hv(&[*v])),
            21 => val(guarded(|| tree.accumulate(&[n(4)])), |v| hv(&[*v])),
            22 => val(guarded(|| tree.accumulate(&[])), |v| hv(&[*v])),
            23 => {
                tree = tree.clone();
                0
            }
            24 => val(guarded(|| otree.accumulate(&[n(1), n(2), n(3)])), |v| hv(&[*v])),
            25 => {
                let (a, x0) = (a.clone(), x0.clone());
                // the instance is rebuilt there if it cannot move between threads: that is C20's question
                val(guarded(|| on_other_thread(a, x0)), |v| hv(v))
            }
            _ => {
                let y = x1.clone();
                let r = val(guarded(|| a.perm(&y)), |v| hv(v));
                if y != x1 {
                    return 1;
                }
                r
            }
        })
    };
    World { ops: ops.iter().map(|s| s.to_string()).collect(), fresh: Box::new(fresh) }
}
fn on_other_thread<F: PrimeField>(a: Prim<F>, x: Vec<F>) -> Vec<F> {
    struct Carry<T>(T);
    unsafe impl<T> Send for Carry<T> {}
    let c = Carry((a, x));
    std::thread::spawn(move || {
        let c = c;
        let r = guarded(|| c.0 .0.perm(&c.0 .1));
        Carry(r)
    })
    .join()
    .unwrap()
    .0
    .unwrap()
}

/// all four primitives in one process, over two fields with the same width
fn mixed_world() -> World {
    fn cfgs() -> Vec<Cfg> {
        vec![
            Cfg { kind: Kind::P2, t: 4, d: 5, rf: 2, rp: 2, pat: 5 },
            Cfg { kind: Kind::P2, t: 4, d: 7, rf: 2, rp: 2, pat: 5 },
            Cfg { kind: Kind::P2, t: 4, d: 5, rf: 4, rp: 2, pat: 5 },
            Cfg { kind: Kind::P2, t: 4, d: 5, rf: 2, rp: 3, pat: 5 },
            Cfg { kind: Kind::P2, t: 8, d: 5, rf: 2, rp: 2, pat: 5 },
            Cfg { kind: Kind::Pos, t: 4, d: 5, rf: 2, rp: 2, pat: 5 },
            Cfg { kind: Kind::Pos, t: 4, d: 7, rf: 2, rp: 2, pat: 5 },
            Cfg { kind: Kind::Pos, t: 4, d: 5, rf: 2, rp: 3, pat: 5 },
            Cfg { kind: Kind::Pos, t: 4, d: 5, rf: 2, rp: 2, pat: 6 },
            Cfg { kind: Kind::Gm, t: 4, d: 5, rf: 5, rp: 0, pat: 5 },
            Cfg { kind: Kind::Gm, t: 8, d: 5, rf: 5, rp: 0, pat: 5 },
            Cfg { kind: Kind::Gm, t: 8, d: 7, rf: 5, rp: 0, pat: 5 },
            Cfg { kind: Kind::Gm, t: 8, d: 5, rf: 9, rp: 0, pat: 6 },
            Cfg { kind: Kind::Nep, t: 4, d: 5, rf: 2, rp: 2, pat: 5 },
            Cfg { kind: Kind::Nep, t: 8, d: 5, rf: 2, rp: 2, pat: 5 },
            Cfg { kind: Kind::Nep, t: 6, d: 5, rf: 2, rp: 2, pat: 5 },
            Cfg { kind: Kind::Nep, t: 4, d: 5, rf: 2, rp: 2, pat: 6 },
        ]
    }
    let mut ops = vec![];
    for c in cfgs() {
        ops.push(format!("{c:?} over F_17"));
        ops.push(format!("{c:?} over BabyBear"));
    }
    fn run<A: Fld>(k: Cfg) -> u64 {
        let f = A::r();
        let x: Vec<A::F> = f.encv(&(0..k.t).map(|i| f.of64(i as u64 * 3 + 1)).collect::<Vec<_>>());
        val(guarded(|| { let i = params::<A>(k).instance(); (i.perm(&x), i.plain(&x)) }), |(a, b)| mix(hv(a), hv(b)))
    }
    World { ops, fresh: Box::new(|| Box::new(|op| if op % 2 == 0 { run::<X17>(cfgs()[op / 2]) } else { run::<XBabyBear>(cfgs()[op / 2]) })) }
}

/// one instance, one operation per input: every state of a tiny field, or states that agree in much (a cache
/// that looks at less than the whole input mixes them up)
fn input_world<A: Fld>(k: Cfg) -> World {
    let f = A::r();
    let p = f.p();
    let mut xs: Vec<Vec<<A::R as Rf>::E>> = vec![];
    let small = if p < num_bigint::BigUint::from(20u32) { Some(p.to_u64_digits()[0]) } else { None };
    match small {
        Some(q) if q.pow(k.t as u32) <= 130 => {
            for n in 0..q.pow(k.t as u32) {
                xs.push(nth_state(q, k.t, n).iter().map(|v| f.of64(*v)).collect());
            }
        }
        _ => {
            let base: Vec<_> = (0..k.t).map(|i| cval(&f, 9, i as u64)).collect();
            xs.push(base.clone());
            // one word changed: by one, in its lowest, a middle and its highest bit, negated, to zero
            let bits = (p.bits() - 2) as usize;
            for i in 0..k.t {
                let h = f.of(&(num_bigint::BigUint::from(1u32) << bits));
                let m = f.of(&(num_bigint::BigUint::from(1u32) << (bits / 2)));
                for v in [f.add(&base[i], &f.one()), f.add(&base[i], &h), f.add(&base[i], &m), f.neg(&base[i]), f.zero()] {
                    let mut y = base.clone();
                    y[i] = v;
                    xs.push(y);
                }
            }
            // the same words in another order, the same sum, the same product of two words
            for i in 0..k.t - 1 {
                let mut y = base.clone();
                y.swap(i, i + 1);
                xs.push(y);
                let mut y = base.clone();
                y[i] = f.add(&y[i], &f.of64(5));
                y[i + 1] = f.sub(&y[i + 1], &f.of64(5));
                xs.push(y);
            }
            let mut y = base.clone();
            y.reverse();
            xs.push(y);
            let mut y = base.clone();
            y.rotate_left(1);
            xs.push(y);
            xs.push(vec![f.zero(); k.t]);
            xs.push(vec![f.one(); k.t]);
            xs.push(base.iter().map(|v| f.neg(v)).collect());
        }
    }
    let n = xs.len();
    let mut ops: Vec<String> = xs.iter().map(|x| format!("permutation of {}", show(&f, x))).collect();
    ops.extend(xs.iter().map(|x| format!("plain permutation of {}", show(&f, x))));
    ops.extend(xs.iter().map(|x| format!("compression of the first two of {}", show(&f, x))));
    let xe: Vec<Vec<A::F>> = xs.iter().map(|x| f.encv(x)).collect();
    World {
        ops,
        fresh: Box::new(move || {
            let i = params::<A>(k).instance();
            let xe = xe.clone();
            Box::new(move |op| match op / n {
                0 => val(guarded(|| i.perm(&xe[op % n])), |v| hv(v)),
                1 => val(guarded(|| i.plain(&xe[op % n])), |v| hv(v)),
                _ => val(guarded(|| i.compress(&[&xe[op % n][0], &xe[op % n][1]])), |v| hv(&[*v])),
            })
        }),
    }
}

// ---------------------------------------------------------------- trees
struct Lv(u64);
impl Clone for Lv {
    fn clone(&self) -> Self {
        Lv(self.0)
    }
}
const BOOM: u64 = 99;
impl merkle_tree_orchard::MerkleTreeHash for Lv {
    fn compress(&self, l: usize, i: &[&pasta_curves::pallas::Base; 2]) -> pasta_curves::pallas::Base {
        let n = pasta_curves::pallas::Base::from;
        assert!(*i[1] != n(BOOM));
        *i[0] * n(3) + *i[1] * *i[1] + n(l as u64 * 1000 + self.0)
    }
}
impl merkle_tree_sapling::MerkleTreeHash for Lv {
    fn compress(&self, l: usize, i: &[&jubjub::Base; 2]) -> jubjub::Base {
        let n = jubjub::Base::from;
        assert!(*i[1] != n(BOOM));
        *i[0] * n(3) + i[1] * i[1] + n(l as u64 * 1000 + self.0)
    }
}
impl merkle_tree_fp::MerkleTreeHash<zkhash::fields::goldilocks::FpGoldiLocks> for Lv {
    fn compress(&self, i: &[&zkhash::fields::goldilocks::FpGoldiLocks]) -> zkhash::fields::goldilocks::FpGoldiLocks {
        type F = zkhash::fields::goldilocks::FpGoldiLocks;
        assert!(*i[1] != F::from(BOOM));
        *i[0] * F::from(3u64) + *i[1] * *i[1] + F::from(self.0)
    }
}
const LISTS: [&[u64]; 9] = [&[1], &[2], &[1, 2], &[2, 1], &[1, 2, 3], &[5, 6, 7, 8, 9], &[], &[1, 2, 3, BOOM, 5, 6], &[1, 1, 1, 1, 1, 1, 1, 1]];
fn tree_ops() -> Vec<String> {
    let mut v = vec![];
    for t in ["t", "u"] {
        for l in LISTS {
            v.push(format!("{t}.accumulate({l:?})"));
        }
    }
    v.extend(["t = t.clone()", "t = new", "swap t u", "t = u.clone()"].map(String::from));
    v
}
macro_rules! tree_world {
    ($mk:expr, $enc:expr, $hash:expr) => {
        World {
            ops: tree_ops(),
            fresh: Box::new(|| {
                let mut t = $mk;
                let mut u = $mk;
                Box::new(move |op| {
                    let n = LISTS.len();
                    if op < 2 * n {
                        let l: Vec<_> = LISTS[op % n].iter().map($enc).collect();
                        let keep = l.clone();
                        let r = val(guarded(|| if op < n { t.accumulate(&l) } else { u.accumulate(&l) }), $hash);
                        return if l == keep { r } else { 1 };
                    }
                    match op - 2 * n {
                        0 => t = t.clone(),
                        1 => t = $mk,
                        2 => std::mem::swap(&mut t, &mut u),
                        _ => t = u.clone(),
                    }
                    0
                })
            }),
        }
    };
}
fn f2_world<D: Digest + digest::FixedOutputReset + Clone + 'static>() -> World {
    tree_world!(merkle_tree_f2::MerkleTree::<D>::new(), |x: &u64| D::digest(x.to_le_bytes()), |v: &digest::Output<D>| v.iter().fold(0, |h, b| mix(h, *b as u64)))
}

fn on_fresh(name: &'static str) -> u64 {
    val(on_fresh_thread(hash_str(name), || use_static(name, 0)), |v| *v)
}
fn statics_world() -> World {
    World {
        ops: STATICS.iter().map(|s| s.to_string()).collect(),
        fresh: Box::new(|| Box::new(|op| on_fresh(STATICS[op]))),
    }
}

fn world(name: &str) -> World {
    let p: Vec<&str> = name.split(' ').collect();
    match p[0] {
        "mixed" => mixed_world(),
        "statics" => statics_world(),
        "sha256" => f2_world::<sha2::Sha256>(),
        "sha3" => f2_world::<sha3::Sha3_256>(),
        "blake2" => f2_world::<blake2::Blake2s256>(),
        "orchard" => tree_world!(merkle_tree_orchard::MerkleTree::new(Lv(7)), |x: &u64| pasta_curves::pallas::Base::from(*x), |v| hash_str(&format!("{v:?}"))),
        "sapling" => tree_world!(merkle_tree_sapling::MerkleTree::new(Lv(7)), |x: &u64| jubjub::Base::from(*x), |v| hash_str(&format!("{v:?}"))),
        "fp" => tree_world!(merkle_tree_fp::MerkleTree::new(Lv(7)), |x: &u64| zkhash::fields::goldilocks::FpGoldiLocks::from(*x), |v| hv(&[*v])),
        "inputs" => {
            let kind = *KINDS.iter().find(|k| format!("{k:?}") == p[1]).unwrap();
            let t: usize = p[3].parse().unwrap();
            let (rf, rp) = match kind { Kind::Gm => (t + 2, 0), _ => (2, 2) };
            let k = Cfg { kind, t, d: 5, rf, rp, pat: 5 };
            with_wfld!(p[2], A => input_world::<A>(k))
        }
        kind => {
            let kind = *KINDS.iter().find(|k| format!("{k:?}") == kind).unwrap();
            let t: usize = p[2].parse().unwrap();
            let (rf, rp) = match kind { Kind::Gm => (t + 2, 0), _ => (2, 3) };
            let k = Cfg { kind, t, d: 5, rf, rp, pat: 5 };
            with_wfld!(p[1], A => prim_world::<A>(k))
        }
    }
}

// ---------------------------------------------------------------- processes

fn spawn(args: &[String]) -> Child {
    Command::new("/proc/self/exe").args(args).env_remove("RUST_BACKTRACE").stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn().unwrap_or_else(|e| {
        eprintln!("cannot start a process: {e}");
        std::process::exit(3)
    })
}
fn child(args: &[String]) -> String {
    text(spawn(args).wait_with_output().expect("wait"))
}
fn text(o: Output) -> String {
    if !o.status.success() {
        return format!("DIED {:?} {}", o.status, String::from_utf8_lossy(&o.stderr));
    }
    String::from_utf8_lossy(&o.stdout).trim().to_string()
}
/// what every operation returns as the first call of a process
fn solo(name: &str) -> Vec<u64> {
    memo(format!("solo {name}"), || {
        let n = world(name).ops.len();
        let next = std::sync::atomic::AtomicUsize::new(0);
        let out = std::sync::Mutex::new(vec![0u64; n]);
        std::thread::scope(|s| {
            for _ in 0..8 {
                s.spawn(|| loop {
                    let i = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                    if i >= n {
                        break;
                    }
                    let r = child(&["--solo".into(), name.into(), i.to_string()]);
                    out.lock().unwrap()[i] = r.parse().unwrap_or_else(|_| hash_str(&r));
                });
            }
        });
        out.into_inner().unwrap()
    })
}

/// all sequences of `depth` operations that start with `prefix`; the first wrong result
fn explore_block(w: &World, expect: &[u64], prefix: &[usize], depth: usize) -> (u64, u64, u64, Option<String>) {
    let n = w.ops.len();
    let mut seq = prefix.to_vec();
    seq.resize(depth, 0);
    let (mut hist, mut steps) = (0u64, 0u64);
    let mut outcome = 0;
    loop {
        let mut run = (w.fresh)();
        for (i, &op) in seq.iter().enumerate() {
            let r = run(op);
            steps += 1;
            outcome = mix(outcome, r);
            if r != expect[op] {
                let h: Vec<&str> = seq[..=i].iter().map(|o| w.ops[*o].as_str()).collect();
                return (hist, steps, outcome, Some(format!("after [{}] the call {} returns something else than as the first call of a fresh process", h[..i].join("; "), h[i])));
            }
        }
        hist += 1;
        let mut k = depth;
        loop {
            if k == prefix.len() {
                return (hist, steps, outcome, None);
            }
            k -= 1;
            seq[k] += 1;
            if seq[k] < n {
                break;
            }
            seq[k] = 0;
        }
    }
}
fn explicit(w: &World, expect: &[u64], seq: &[usize]) -> (u64, u64, u64, Option<String>) {
    let mut run = (w.fresh)();
    let mut outcome = 0;
    for (i, &op) in seq.iter().enumerate() {
        let r = run(op);
        outcome = mix(outcome, r);
        if r != expect[op] {
            let h: Vec<&str> = seq[..=i].iter().map(|o| w.ops[*o].as_str()).collect();
            return (0, i as u64, outcome, Some(format!("after [{}] the call {} returns something else than as the first call of a fresh process", trunc(&h[..i].join("; ")), h[i])));
        }
    }
    (1, seq.len() as u64, outcome, None)
}
/// the sequence over and over again, then every operation once
fn cycle(w: &World, expect: &[u64], seq: &[usize], times: usize) -> (u64, u64, u64, Option<String>) {
    let mut run = (w.fresh)();
    let mut steps = 0u64;
    for round in 0..times {
        for &op in seq {
            steps += 1;
            if run(op) != expect[op] {
                return (0, steps, 0, Some(format!("in repetition {round} of {:?} the call {} returns something else than as the first call of a fresh process", trunc(&format!("{:?}", seq.iter().map(|o| w.ops[*o].as_str()).collect::<Vec<_>>())), w.ops[op])));
            }
        }
    }
    for op in 0..w.ops.len() {
        steps += 1;
        if run(op) != expect[op] {
            return (0, steps, 0, Some(format!("after {times} repetitions of {:?} the call {} returns something else than as the first call of a fresh process", trunc(&format!("{:?}", seq.iter().map(|o| w.ops[*o].as_str()).collect::<Vec<_>>())), w.ops[op])));
        }
    }
    (1, steps, 0, None)
}
fn join(v: &[u64]) -> String {
    v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
}
fn parse<T: std::str::FromStr>(s: &str) -> Vec<T> {
    s.split(',').filter_map(|x| x.parse().ok()).collect()
}
fn run_child(c: &mut Ctx, name: &str, seq: &[usize], depth: usize, mode: &str) -> Result<(), String> {
    let expect = solo(name);
    let r = text(c.call_child(|| spawn(&["--block".into(), name.into(), join(&expect), join(&seq.iter().map(|x| *x as u64).collect::<Vec<_>>()), depth.to_string(), mode.into()])));
    let v: serde_json::Value = serde_json::from_str(&r).map_err(|_| format!("world {name}, sequences from {seq:?}: {r}"))?;
    let g = |k: &str| v[k].as_u64().unwrap_or(0);
    c.cov.traces += g("histories");
    c.cov.transitions += g("steps");
    for i in 0..g("prefixes") {
        c.state(i);
    }
    c.cov.outcomes.insert(mix(c.salt, g("outcome")));
    c.sample(|| format!("world {name}: {} sequences of length {depth} from {seq:?}", g("histories")));
    match v["bad"].as_str() {
        Some(m) => Err(format!("world {name}: {m}")),
        None => Ok(()),
    }
}

fn c19(tier: Tier) -> Vec<Space> {
    let th = tier == Tier::Thorough;
    let mut items = vec![];
    let mut names: Vec<String> = vec![];
    for (k, t) in [("P2", 3), ("P2", 8), ("Pos", 3), ("Gm", 3), ("Gm", 8), ("Nep", 4), ("Nep", 8)] {
        names.push(format!("{k} 7 {t}"));
    }
    for (k, t) in [("P2", 3), ("P2", 4), ("Pos", 3), ("Gm", 3), ("Nep", 4), ("Nep", 6)] {
        names.push(format!("{k} goldi {t}"));
    }
    if th {
        for (k, t) in [("P2", 2), ("P2", 24), ("Pos", 5), ("Gm", 9), ("Nep", 2)] {
            names.push(format!("{k} bls {t}"));
            names.push(format!("{k} 17 {t}"));
        }
    }
    for n in &names {
        let k = 27;
        let depth = if th && n.contains(" 7 ") { 4 } else { 3 };
        for a in 0..k {
            if depth == 4 {
                for b in 0..k {
                    items.push((n.clone(), vec![a, b], depth));
                }
            } else {
                items.push((n.clone(), vec![a], depth));
            }
        }
    }
    let mut v = vec![Space::list("operation-sequences", "item = (primitive, field, width; first operations); every sequence of 3 (thorough 4 over F_7) of the 27 operations on instances sharing parameters, clones, other parameters and trees, each block in a process of its own; expected: the same call as first call of a fresh process", items, |(n, p, d), c| run_child(c, n, p, *d, "all"))];
    let mut items = vec![];
    for n in ["sha256", "sha3", "blake2", "orchard", "sapling", "fp"] {
        for a in 0..2 * LISTS.len() + 4 {
            items.push((n.to_string(), vec![a], if th { 5 } else { 4 }));
        }
    }
    v.push(Space::list("tree-sequences", "item = (tree type, first operation); every sequence of 4 (thorough 5) of the 22 operations on two trees: accumulations of 9 lists (one refused, one with a panicking hash), clones, new trees", items, |(n, p, d), c| run_child(c, n, p, *d, "all")));
    let mut items = vec![];
    for (k, fl, t) in [("P2", "7", 2), ("P2", "3", 4), ("P2", "goldi", 3), ("P2", "bls", 3), ("P2", "baby", 8), ("Pos", "7", 2), ("Pos", "5", 3), ("Pos", "goldi", 3), ("Pos", "bls", 3), ("Gm", "7", 2), ("Gm", "5", 3), ("Gm", "goldi", 3), ("Gm", "bls", 8), ("Nep", "7", 2), ("Nep", "3", 4), ("Nep", "goldi", 4), ("Nep", "bls", 4), ("Nep", "baby", 6)] {
        let name = format!("inputs {k} {fl} {t}");
        for a in 0..world(&name).ops.len() {
            items.push((name.clone(), vec![a], 2usize));
        }
    }
    v.push(Space::list("input-pairs", "item = (primitive, field, width; first call); every ordered pair of calls (permutation, plain permutation, compression) on one instance with all states of the tiny field, or states that agree in all but one word, in the low or high bits, in their sum or up to order", items, |(n, p, d), c| run_child(c, n, p, *d, "all")));
    let mut items = vec![];
    for n in &names {
        for a in 0..27 {
            // operations that start a thread or panic are slower
            let slow = [7, 8, 9, 10, 14, 22, 25].contains(&a);
            let times = match (n.contains(" 7 "), slow) { (true, false) => 66_000, (true, true) => 1100, (false, false) => if th { 66_000 } else { 4200 }, _ => 300 };
            items.push((n.clone(), vec![a], times));
        }
        items.push((n.clone(), (0..27).collect(), if th { 3000 } else { 300 }));
        items.push((n.clone(), vec![0, 1, 2, 3, 4, 5, 6], if th || n.contains(" 7 ") { 9400 } else { 600 }));
    }
    for n in ["sha256", "sha3", "blake2", "orchard", "sapling", "fp"] {
        for a in 0..2 * LISTS.len() + 4 {
            items.push((n.to_string(), vec![a], if a < 2 * LISTS.len() && [6, 7].contains(&(a % LISTS.len())) { 1100 } else { 66_000 }));
        }
        items.push((n.to_string(), (0..22).collect(), 300));
    }
    v.push(Space::list("long-runs", "item = (world, operations); the operations over and over again up to 66000 times (counters of 8 and 16 bits wrap, bounded caches overflow), every result compared, then every operation once", items, |(n, p, d), c| run_child(c, n, p, *d, "cycle")));
    let n = 34;
    let mut items = vec![];
    for a in 0..n {
        for b in 0..n {
            items.push((vec![a, b], if th { 4 } else { 3 }));
        }
    }
    v.push(Space::list("mixed-primitives", "item = first two operations; every sequence of 3 (thorough 4) constructions and evaluations of 17 parameter sets of all primitives over two fields (same widths, different degrees, rounds, constants)", items, |(p, d), c| run_child(c, "mixed", p, *d, "all")));
    // first-use orders of the statics
    let m = STATICS.len();
    let mut orders: Vec<Vec<usize>> = vec![];
    let dbl = |v: Vec<usize>| -> Vec<usize> { v.iter().chain(v.iter()).chain(v.iter().rev()).copied().collect() };
    orders.push(dbl((0..m).collect()));
    orders.push(dbl((0..m).rev().collect()));
    // every instance used first, and every pair of neighbours in both orders
    for s in 0..m {
        orders.push(dbl((s..m).chain(0..s).collect()));
    }
    for a in 0..m {
        for b in 0..m {
            if a != b && (th || orders_quick(a, b)) {
                orders.push(vec![a, b, a, b]);
            }
        }
    }
    v.push(Space::list("first-use-orders", "item = order of first use of the shipped instances in a fresh process (forwards, backwards, every rotation, ordered pairs: of the same field or primitive, thorough: all), each used again afterwards; entropy supplied per instance", orders, |o, c| run_child(c, "statics", o, 0, "explicit")));
    v
}
/// instances of the same kind, or of the same field
fn orders_quick(a: usize, b: usize) -> bool {
    let part = |s: &str| -> (String, String, String) {
        let mut p = s.split('_').map(String::from);
        let (k, f) = (p.next().unwrap(), p.next().unwrap());
        (k, f, p.next().unwrap_or_default())
    };
    let (x, y) = (part(STATICS[a]), part(STATICS[b]));
    (x.0 == y.0 && x.1 == y.1) || (x.1 == y.1 && x.2 == y.2) || (x.0 == y.0 && x.2 == y.2 && x.2 == "3")
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a[1] == "--solo" || a[1] == "--block" {
        install_hook();
        let w = world(&a[2]);
        if a[1] == "--solo" {
            println!("{}", (w.fresh)()(a[3].parse().unwrap()));
            return;
        }
        let expect: Vec<u64> = parse(&a[3]);
        let seq: Vec<usize> = parse(&a[4]);
        let depth: usize = a[5].parse().unwrap();
        let (h, s, o, bad) = match a[6].as_str() {
            "explicit" => explicit(&w, &expect, &seq),
            "cycle" => cycle(&w, &expect, &seq, depth),
            _ => explore_block(&w, &expect, &seq, depth),
        };
        let n = w.ops.len() as u64;
        let prefixes = if a[6] != "all" { s } else { (0..=depth - seq.len()).map(|k| n.pow(k as u32)).sum::<u64>() };
        println!("{}", serde_json::json!({"histories": h, "steps": s, "prefixes": prefixes, "outcome": o, "bad": bad}));
        return;
    }
    main_with(|c, t| match c {
        "C19" => c19(t),
        _ => vec![],
    })
}
