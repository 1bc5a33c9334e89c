//! C20 concurrent use of shared instances gives the sequential results.
//!
//! A world is a set of shared objects and operations on them. Two or three operations run on threads
//! of their own under the scheduler of `pmc::sched`; every schedule within the preemption bound is
//! executed on the real code, each in a fresh process, and every result is compared with the same
//! operation run alone in a fresh process.
use digest::{consts::U8, FixedOutput, FixedOutputReset, HashMarker, Output, OutputSizeUser, Reset, Update};
use pmc::entropy;
use pmc::explore::*;
use pmc::field::point;
use pmc::gen::*;
use pmc::prim::*;
use pmc::refm::*;
use pmc::sched::{self, Pre};
use pmc::statics::{hv, use_static, STATICS};
use pmc::with_wfld;
use std::collections::HashSet;
use std::process::Command;
use std::sync::atomic::Ordering::SeqCst;
use zkhash::merkle_tree::{merkle_tree_f2, merkle_tree_fp, merkle_tree_fp::MerkleTreeHash, merkle_tree_orchard, merkle_tree_sapling};

pmc::interpose!();
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if !sched::yielded() {
        entropy::raw_syscall(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0);
    }
    0
}
#[global_allocator]
static GLOBAL: sched::Alloc = sched::Alloc;

fn val<T>(r: Result<T, String>, h: impl Fn(&T) -> u64) -> u64 {
    sched::quietly(|| pmc::statics::val(r, h))
}

type Op = Box<dyn Fn(usize) -> u64>;
/// whether the objects may be shared is checked by the space `sharing`, not by this compiler
struct Shared(Op);
unsafe impl Sync for Shared {}
struct World {
    ops: Vec<String>,
    fresh: Box<dyn Fn() -> Op>,
}

fn prim_world<A: Fld>(k: Cfg) -> World {
    let wider = Cfg { t: match k.kind { Kind::P2 => if k.t == 8 { 4 } else { 8 }, Kind::Nep => k.t + 2, _ => k.t + 1 }, ..k };
    let other = Cfg { pat: k.pat + 1, ..k };
    let ops = [
        "i(x0)", "i(x1)", "i plain(x1)", "i.compress(1,2)", "i.clone()(x1)", "new(params)(x0)", "tree over new(params) [1,2,3]", "shared tree clone [4,5]",
        "own equal parameters (x0)", "other parameters (x0)", "i too short", "wider (x)", "i(x0); i(x1)", "9 times i(x1)", "33 times i(x1)",
    ];
    let (ik, io, iw) = (inputs::<A>(k), inputs::<A>(other), inputs::<A>(wider));
    let f = A::r();
    let st = |t: usize, s: u64| -> Vec<A::F> { f.encv(&(0..t).map(|i| cval(&f, 9, s * 100 + i as u64)).collect::<Vec<_>>()) };
    let (x0, x1, xw) = (st(k.t, 0), st(k.t, 1), st(wider.t, 2));
    let fresh = move || -> Op {
        let p = ik.build();
        let i = p.instance();
        let o = io.build().instance();
        let w = iw.build().instance();
        let (ik, x0, x1, xw) = (ik.clone(), x0.clone(), x1.clone(), xw.clone());
        let tree = merkle_tree_fp::MerkleTree::new(i.clone());
        let n = |v: u64| A::F::from(v);
        Box::new(move |op| match op {
            0 => val(guarded(|| i.perm(&x0)), |v| hv(v)),
            1 => val(guarded(|| i.perm(&x1)), |v| hv(v)),
            2 => val(guarded(|| i.plain(&x1)), |v| hv(v)),
            3 => val(guarded(|| i.compress(&[&n(1), &n(2)])), |v| hv(&[*v])),
            4 => val(guarded(|| i.clone().perm(&x1)), |v| hv(v)),
            5 => val(guarded(|| p.instance().perm(&x0)), |v| hv(v)),
            6 => val(guarded(|| merkle_tree_fp::MerkleTree::new(p.instance()).accumulate(&[n(1), n(2), n(3)])), |v| hv(&[*v])),
            7 => val(guarded(|| tree.clone().accumulate(&[n(4), n(5)])), |v| hv(&[*v])),
            8 => val(guarded(|| ik.build().instance().perm(&x0)), |v| hv(v)),
            9 => val(guarded(|| o.perm(&x0)), |v| hv(v)),
            10 => val(guarded(|| i.perm(&x0[1..])), |v| hv(v)),
            11 => val(guarded(|| w.perm(&xw)), |v| hv(v)),
            12 => mix(val(guarded(|| i.perm(&x0)), |v| hv(v)), val(guarded(|| i.perm(&x1)), |v| hv(v))),
            _ => (0..if op == 13 { 9 } else { 33 }).fold(0, |h, _| mix(h, val(guarded(|| i.perm(&x1)), |v| hv(v)))),
        })
    };
    World { ops: ops.iter().map(|s| s.to_string()).collect(), fresh: Box::new(fresh) }
}

// ---------------------------------------------------------------- trees with toy hashers
#[derive(Clone)]
struct Lv(u64);
impl merkle_tree_orchard::MerkleTreeHash for Lv {
    fn compress(&self, l: usize, i: &[&pasta_curves::pallas::Base; 2]) -> pasta_curves::pallas::Base {
        let n = pasta_curves::pallas::Base::from;
        point();
        let r = sched::quietly(|| *i[0] * n(3) + *i[1] * *i[1] + n(l as u64 * 1000 + self.0));
        point();
        r
    }
}
impl merkle_tree_sapling::MerkleTreeHash for Lv {
    fn compress(&self, l: usize, i: &[&jubjub::Base; 2]) -> jubjub::Base {
        let n = jubjub::Base::from;
        point();
        let r = sched::quietly(|| *i[0] * n(3) + i[1] * i[1] + n(l as u64 * 1000 + self.0));
        point();
        r
    }
}
type G = pmc::field::W17;
impl MerkleTreeHash<G> for Lv {
    fn compress(&self, i: &[&G]) -> G {
        point();
        let r = *i[0] * G::from(3u64) + *i[1] * *i[1] + G::from(self.0);
        point();
        r
    }
}
#[derive(Clone, Default)]
struct Toy(u64);
impl HashMarker for Toy {}
impl OutputSizeUser for Toy {
    type OutputSize = U8;
}
impl Update for Toy {
    fn update(&mut self, d: &[u8]) {
        sched::quietly(|| {
            for b in d {
                self.0 = mix(self.0, *b as u64 + 1);
            }
        });
        point();
    }
}
impl Reset for Toy {
    fn reset(&mut self) {
        self.0 = 0
    }
}
impl FixedOutput for Toy {
    fn finalize_into(self, o: &mut Output<Self>) {
        point();
        o.copy_from_slice(&self.0.to_le_bytes());
    }
}
impl FixedOutputReset for Toy {
    fn finalize_into_reset(&mut self, o: &mut Output<Self>) {
        point();
        o.copy_from_slice(&self.0.to_le_bytes());
        self.0 = 0;
    }
}
const LISTS: [&[u64]; 6] = [&[1], &[1, 2], &[2, 1], &[1, 2, 3], &[5, 6, 7, 8, 9], &[]];
macro_rules! tree_world {
    ($mk:expr, $enc:expr, $hash:expr) => {
        World {
            ops: LISTS.iter().map(|l| format!("shared.clone().accumulate({l:?})")).chain(LISTS.iter().map(|l| format!("new.accumulate({l:?})"))).collect(),
            fresh: Box::new(|| {
                let t = $mk;
                Box::new(move |op| {
                    let n = LISTS.len();
                    let l: Vec<_> = sched::quietly(|| LISTS[op % n].iter().map($enc).collect());
                    val(guarded(|| if op < n { t.clone().accumulate(&l) } else { $mk.accumulate(&l) }), $hash)
                })
            }),
        }
    };
}

fn world(name: &str) -> World {
    let p: Vec<&str> = name.split(' ').collect();
    match p[0] {
        "statics" => World {
            ops: STATICS.iter().map(|s| s.to_string()).collect(),
            fresh: Box::new(|| {
                Box::new(|op| {
                    entropy::set(Some(hash_str(STATICS[op])));
                    let r = use_static(STATICS[op], 0);
                    entropy::set(None);
                    r
                })
            }),
        },
        "f2" => tree_world!(merkle_tree_f2::MerkleTree::<Toy>::new(), |x: &u64| Output::<Toy>::clone_from_slice(&x.to_le_bytes()), |v: &Output<Toy>| v.iter().fold(0, |h, b| mix(h, *b as u64))),
        "orchard" => tree_world!(merkle_tree_orchard::MerkleTree::new(Lv(7)), |x: &u64| pasta_curves::pallas::Base::from(*x), |v| hash_str(&format!("{v:?}"))),
        "sapling" => tree_world!(merkle_tree_sapling::MerkleTree::new(Lv(7)), |x: &u64| jubjub::Base::from(*x), |v| hash_str(&format!("{v:?}"))),
        "fp" => tree_world!(merkle_tree_fp::MerkleTree::new(Lv(7)), |x: &u64| G::from(*x), |v| hv(&[*v])),
        kind => {
            let kind = *KINDS.iter().find(|k| format!("{k:?}") == kind).unwrap();
            let t: usize = p[2].parse().unwrap();
            let d: usize = 5;
            let (rf, rp) = match kind { Kind::Gm => (t + 1, 0), _ => (p.get(4).map_or(2, |x| x.parse().unwrap()), p.get(3).map_or(2, |x| x.parse().unwrap())) };
            with_wfld!(p[1], A => prim_world::<A>(Cfg { kind, t, d, rf, rp, pat: 5 }))
        }
    }
}

// ---------------------------------------------------------------- exploration (in a process of its own, single threaded)
#[derive(Default)]
struct Stats {
    execs: u64,
    steps: u64,
    states: HashSet<u64>,
    orders: HashSet<u64>,
    freed: u64,
    forced: u64,
    traps: u64,
    interrupted: u64,
}
struct Explorer<'a> {
    w: &'a World,
    tasks: Vec<usize>,
    expect: Vec<u64>,
    start: usize,
    st: Stats,
    end: Option<std::time::Instant>,
    cut: bool,
}
struct Trace {
    mask: Vec<u8>,
    kind: Vec<u8>,
    owner: Vec<u8>,
}
impl Explorer<'_> {
    fn exec(&mut self, plan: &[Pre], counting: bool) -> Result<Trace, String> {
        let names = |s: &Self| s.tasks.iter().map(|o| s.w.ops[*o].clone()).collect::<Vec<_>>().join(" || ");
        let e = sched::run(|| { let s = Shared((self.w.fresh)()); move |op| { let s = &s; (s.0)(op) } }, &self.tasks, self.start, plan, counting)
            .map_err(|m| format!("{}, thread {} first, preemptions {plan:?}: {m}", names(self), self.start))?;
        for (i, (r, x)) in e.results.iter().zip(&self.expect).enumerate() {
            if r != x {
                return Err(format!("{}, thread {} first, preemptions {plan:?}: thread {i} ({}) returns something else than alone", names(self), self.start, self.w.ops[self.tasks[i]]));
            }
        }
        let sh = sched::shared();
        let t = Trace {
            mask: (0..e.steps).map(|s| sh.mask[s].load(SeqCst)).collect(),
            kind: (0..e.steps).map(|s| sh.kind[s].load(SeqCst)).collect(),
            owner: (0..e.steps).map(|s| sh.owner[s].load(SeqCst)).collect(),
        };
        self.st.execs += 1;
        self.st.steps += e.steps as u64;
        self.st.freed += e.freed as u64;
        self.st.forced += e.forced as u64;
        self.st.traps += sh.traps.swap(0, SeqCst);
        let mut pos = [0u16; 4];
        let mut order = 0;
        for o in &t.owner {
            pos[*o as usize & 3] += 1;
            self.st.states.insert(pos.iter().fold(0, |h, p| h << 16 | *p as u64));
            order = mix(order, *o as u64);
        }
        self.st.orders.insert(plan.iter().fold(order, |h, p| mix(h, p.sub as u64)));
        Ok(t)
    }
    /// all schedules with at most `left` further preemptions
    fn all(&mut self, plan: &mut Vec<Pre>, left: usize) -> Result<(), String> {
        if self.end.is_some_and(|e| std::time::Instant::now() > e) {
            self.cut = true;
            return Ok(());
        }
        let t = self.exec(plan, false)?;
        let from = plan.last().map(|p| p.step as usize + 1).unwrap_or(0);
        for s in from..t.mask.len() {
            if plan.len() == 8 {
                break;
            }
            let cost = if t.kind[s] == 0 { 1 } else { 0 };
            if cost > left {
                continue;
            }
            let default = if cost == 0 { (1..=4u32).map(|k| (t.owner[s] as u32 + k) % 4).find(|i| t.mask[s] & (1 << i) != 0) } else { None };
            for to in 0..4u32 {
                if t.mask[s] & (1 << to) == 0 || Some(to) == default {
                    continue;
                }
                plan.push(Pre { step: s as u32, sub: 0, to });
                let r = self.all(plan, left - cost);
                plan.pop();
                r?;
            }
        }
        Ok(())
    }
    /// one preemption after every machine instruction, then at most `more` at points
    fn instructions(&mut self, more: usize) -> Result<(), String> {
        let t = self.exec(&[], true)?;
        let sh = sched::shared();
        let n: Vec<u32> = (0..t.mask.len()).map(|s| sh.instr[s].load(SeqCst)).collect();
        if n.iter().all(|x| *x == 0) {
            return Err("HARNESS: no single stepping here".into());
        }
        for s in 0..t.mask.len() {
            if t.kind[s] != 0 {
                continue;
            }
            for sub in 0..=n[s] {
                for to in (0..4u32).filter(|i| t.mask[s] & (1 << i) != 0) {
                    self.st.interrupted += 1;
                    self.all(&mut vec![Pre { step: s as u32, sub, to }], more)?;
                }
            }
        }
        Ok(())
    }
}
fn alone(w: &World, op: usize) -> Result<u64, String> {
    sched::run(|| { let s = Shared((w.fresh)()); move |op| { let s = &s; (s.0)(op) } }, &[op], 0, &[], false).map(|e| e.results[0]).map_err(|m| format!("{} alone: {m}", w.ops[op]))
}
fn block(name: &str, tasks: Vec<usize>, start: usize, mode: &str, bound: usize) -> serde_json::Value {
    let w = world(name);
    let mut x = Explorer { w: &w, tasks: tasks.clone(), expect: vec![], start, st: Stats::default(), end: time_left().map(|s| std::time::Instant::now() + std::time::Duration::from_secs(s)), cut: false };
    let r = (|| {
        for t in &tasks {
            x.expect.push(alone(&w, *t)?);
        }
        match mode {
            "points" => x.all(&mut vec![], bound),
            _ => x.instructions(bound),
        }
    })();
    let s = &x.st;
    serde_json::json!({"execs": s.execs, "steps": s.steps + s.traps, "states": s.states.iter().collect::<Vec<_>>(), "orders": s.orders.len(), "freed": s.freed, "forced": s.forced, "traps": s.traps, "interrupted": s.interrupted, "cut": x.cut as u64, "bad": r.err()})
}

// ---------------------------------------------------------------- sharing between threads is allowed at all
struct Probe<T>(std::marker::PhantomData<T>);
trait Yes {
    fn shareable(&self) -> bool {
        true
    }
}
impl<T: Send + Sync> Yes for Probe<T> {}
trait No {
    fn shareable(&self) -> bool {
        false
    }
}
impl<T> No for &Probe<T> {}
macro_rules! probes {
    ($($t:ty),* $(,)?) => { vec![$((stringify!($t), { let p: Probe<$t> = Probe(std::marker::PhantomData); (&p).shareable() })),*] };
}
fn probes() -> Vec<(&'static str, bool)> {
    use zkhash::fields::{babybear::FpBabyBear, bls12::FpBLS12, bn256::FpBN256, goldilocks::FpGoldiLocks, pallas::FpPallas, vesta::FpVesta};
    use zkhash::gmimc::{gmimc::Gmimc, gmimc_params::GmimcParams};
    use zkhash::neptune::{neptune::Neptune, neptune_params::NeptuneParams};
    use zkhash::poseidon::{poseidon::Poseidon, poseidon_params::PoseidonParams};
    use zkhash::poseidon2::{poseidon2::Poseidon2, poseidon2_params::Poseidon2Params};
    macro_rules! f { ($($f:ty)*) => { vec![$(probes![Poseidon2<$f>, Poseidon2Params<$f>, Poseidon<$f>, PoseidonParams<$f>, Gmimc<$f>, GmimcParams<$f>, Neptune<$f>, NeptuneParams<$f>,
        merkle_tree_fp::MerkleTree<$f, Poseidon2<$f>>, merkle_tree_fp::MerkleTree<$f, Poseidon<$f>>, merkle_tree_fp::MerkleTree<$f, Gmimc<$f>>, merkle_tree_fp::MerkleTree<$f, Neptune<$f>>, $f]),*].concat() }; }
    let mut v = f!(FpBabyBear FpGoldiLocks FpBLS12 FpBN256 FpPallas FpVesta);
    v.extend(probes![merkle_tree_f2::MerkleTree<sha2::Sha256>, merkle_tree_orchard::MerkleTree<Lv>, merkle_tree_sapling::MerkleTree<Lv>]);
    v
}

#[derive(Clone)]
struct Item {
    world: String,
    tasks: Vec<usize>,
    start: usize,
    mode: &'static str,
    bound: usize,
}
static CPUS: std::sync::Mutex<Option<Vec<usize>>> = std::sync::Mutex::new(None);
fn run_item(i: &Item, c: &mut Ctx) -> Result<(), String> {
    let args = [i.world.clone(), i.tasks.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","), i.start.to_string(), i.mode.into(), i.bound.to_string()];
    let cpu = CPUS.lock().unwrap().get_or_insert_with(sched::cpus).pop().unwrap_or(0);
    let o = Command::new("/proc/self/exe").arg("--block").args(&args).arg(cpu.to_string()).env_remove("RUST_BACKTRACE").envs(time_left().map(|s| ("PMC_BUDGET", s.to_string()))).output().expect("spawn");
    CPUS.lock().unwrap().as_mut().unwrap().push(cpu);
    if !o.status.success() {
        panic!("exploration {args:?} failed: {:?} {}", o.status, String::from_utf8_lossy(&o.stderr));
    }
    let v: serde_json::Value = serde_json::from_slice(&o.stdout).unwrap();
    let g = |k: &str| v[k].as_u64().unwrap_or(0);
    CUT.fetch_add(g("cut"), SeqCst);
    c.cov.traces += g("execs");
    c.cov.transitions += g("steps");
    for s in v["states"].as_array().unwrap() {
        c.state(s.as_u64().unwrap());
    }
    c.cov.outcomes.insert(mix(c.salt, g("orders")));
    c.sample(|| format!("{} {:?}, thread {} first, {} bound {}: {} executions ({} distinct orders), {} instruction boundaries, {} waits in loops, {} without control", i.world, i.tasks, i.start, i.mode, i.bound, g("execs"), g("orders"), g("interrupted"), g("forced"), g("freed")));
    match v["bad"].as_str() {
        Some(m) if m.starts_with("HARNESS") => panic!("{m}"),
        Some(m) => Err(format!("world {}: {m}", i.world)),
        None => Ok(()),
    }
}
fn pairs(n: usize) -> Vec<Vec<usize>> {
    (0..n).flat_map(|a| (a..n).map(move |b| vec![a, b])).collect()
}
/// every thread may be first (one is enough if all do the same)
fn items(world: &str, tasks: &[usize], mode: &'static str, bound: usize) -> Vec<Item> {
    let same = tasks.iter().all(|t| *t == tasks[0]);
    (0..if same { 1 } else { tasks.len() }).map(|start| Item { world: world.into(), tasks: tasks.into(), start, mode, bound }).collect()
}
fn c20(tier: Tier) -> Vec<Space> {
    let th = tier == Tier::Thorough;
    // the quick run of the debug-assertion build is a subset
    let sub = !th && std::env::var("PMC_PROFILE").as_deref() == Ok("checked");
    let ps = probes();
    let mut v = vec![Space::list("sharing", "item = public type; it is Send and Sync", ps, |(n, ok), c| {
        c.trace(hash_str(n));
        if *ok { Ok(()) } else { Err(format!("{n} cannot be shared between threads")) }
    })];
    let mut small = vec!["P2 goldi 3 2", "Pos goldi 3 2", "Gm goldi 3", "Nep goldi 4 2"];
    if th {
        small.extend(["P2 goldi 4 1", "P2 goldi 8 1", "P2 17 2 2", "Pos 17 2 2", "Pos goldi 4 2", "Gm goldi 8", "Gm 7 2", "Nep goldi 8 2", "Nep 7 2 2 4", "Nep 17 6 2", "P2 bls 3 2", "Nep 7 4 2 4", "P2 7 3 2 4", "P2 goldi 3 3 4", "Pos goldi 3 3 4", "Gm bls 8"]);
    }
    let trees = ["fp", "f2", "orchard", "sapling"];
    let mut one = vec![];
    for w in &small {
        for p in pairs(13).into_iter().filter(|p| !sub || p[0] == 0 || p[0] == p[1]) {
            one.extend(items(w, &p, "points", 1));
        }
    }
    for w in &small {
        for p in [[0, 13], [9, 13], [0, 14]] {
            if th || !sub {
                one.extend(items(w, &p, "points", 1));
            }
        }
    }
    // the other widths have code of their own
    let others = ["Gm goldi 8", "P2 goldi 2 2 4", "P2 goldi 4 2 4", "P2 goldi 8 2", "P2 goldi 3 3 4", "Nep goldi 2 2 4", "Nep goldi 4 2 4", "Nep goldi 8 2", "Nep goldi 6 2", "Pos 7 4 2", "Pos goldi 3 3 4", "P2 bls 3 2"];
    for w in if th { &[][..] } else { &others[..] } {
        for p in [[0, 0], [0, 1], [0, 2], [0, 9], [1, 11], [5, 5], [5, 9], [0, 13]] {
            one.extend(items(w, &p, "points", 1));
        }
    }
    for w in trees {
        for p in pairs(12) {
            one.extend(items(w, &p, "points", if th { 3 } else if sub { 1 } else { 2 }));
        }
    }
    v.push(Space::list("one-preemption", "item = (primitive, field, width; two operations out of 13 (8 pairs at other widths), or one operation and 9 or 33 repetitions of another; which goes first): every schedule with at most 1 preemption at field operations and memory requests; trees: two accumulations out of 12, at most 2 (thorough 3) preemptions", one, run_item));
    let mut three = vec![];
    for w in &small {
        for p in if th { vec![vec![0, 1, 2], vec![0, 1, 9], vec![0, 4, 5], vec![1, 10, 0], vec![3, 6, 7], vec![12, 1, 2], vec![0, 8, 9]] } else { vec![vec![0, 1, 2], vec![1, 10, 9]] } {
            three.extend(items(w, &p, "points", 1));
        }
    }
    v.push(Space::list("three-threads", "item = three operations; at most 1 preemption, every choice of who goes on when a thread is done", three, run_item));
    let mut st = vec![];
    for (i, n) in STATICS.iter().enumerate() {
        let small = ["POSEIDON2_BN256_PARAMS", "POSEIDON2_BLS_2_PARAMS", "POSEIDON2_VESTA_PARAMS", "POSEIDON2_PALLAS_3_PARAMS", "POSEIDON_BN_PARAMS", "POSEIDON_BLS_2_PARAMS", "POSEIDON_VESTA_PARAMS", "POSEIDON_PALLAS_3_PARAMS"];
        if th || n.starts_with("GMIMC") || n.starts_with("NEPTUNE") || small[..if sub { 2 } else { 8 }].contains(n) {
            st.extend(items("statics", &[i, i], "points", 1));
        }
        for (j, m) in STATICS.iter().enumerate() {
            if j > i && m.split('_').take(2).eq(n.split('_').take(2)) && (th || n.starts_with("GMIMC")) {
                st.extend(items("statics", &[i, j], "points", 1));
            }
        }
    }
    v.push(Space::list("first-use", "item = one or two shipped instances of the same family, first used by two threads of a fresh process: at most 1 preemption at memory requests", st, run_item));
    let mut ins = vec![];
    for w in &small {
        let sel: Vec<Vec<usize>> = if th { pairs(13).into_iter().filter(|p| !p.contains(&10)).collect() } else { vec![vec![0, 1], vec![0, 2], vec![1, 9], vec![5, 5], vec![3, 4]] };
        for p in sel {
            ins.extend(items(w, &p, "instructions", 0));
        }
    }
    if !th {
        for w in ["Gm goldi 8", "P2 goldi 4 2", "Nep goldi 6 2"] {
            ins.extend(items(w, &[0, 1], "instructions", 0));
        }
    }
    for w in trees {
        for p in if th { pairs(12).into_iter().filter(|p| !p.contains(&5) && !p.contains(&11)).collect() } else { vec![vec![3, 3], vec![1, 3], vec![4, 9]] } {
            ins.extend(items(w, &p, "instructions", 0));
        }
    }
    v.push(Space::list("every-instruction", "item = as above; every schedule with one preemption after any machine instruction of the first thread", ins, run_item));
    let mut two = vec![];
    for w in &small {
        for p in if th { pairs(13) } else { vec![vec![0, 1], vec![0, 9]] } {
            two.extend(items(w, &p, "points", 2));
        }
    }
    v.push(Space::list("two-preemptions", "item = as above; at most 2 preemptions at field operations and memory requests", two, run_item));
    v
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a[1] == "--block" {
        install_hook();
        sched::install_trap();
        if let Some(c) = a.get(7).and_then(|c| c.parse().ok()) {
            sched::pin(c);
        }
        let tasks = a[3].split(',').map(|x| x.parse().unwrap()).collect();
        println!("{}", block(&a[2], tasks, a[4].parse().unwrap(), &a[5], a[6].parse().unwrap()));
        return;
    }
    main_with(|c, t| match c {
        "C20" => {
            let mut v = c20(t);
            if t == Tier::Quick && std::env::var("PMC_PROFILE").as_deref() == Ok("checked") {
                v.retain(|s| s.name != "two-preemptions" && s.name != "every-instruction");
            }
            v
        }
        _ => vec![],
    })
}
