//! The exploration engine: finite index spaces, enumerated completely and in parallel; every item
//! runs the real code next to the reference model. No sampling, no time-outs that skip items.

use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::HashSet;
use std::hash::{BuildHasherDefault, Hasher};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Default, Clone, Copy)]
pub struct IdHash(u64);
impl Hasher for IdHash {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, _: &[u8]) {
        unreachable!()
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = v
    }
}
pub type IdSet = HashSet<u64, BuildHasherDefault<IdHash>>;

#[inline]
pub fn mix(h: u64, v: u64) -> u64 {
    let x = (h.rotate_left(23) ^ v).wrapping_mul(0x9E37_79B9_7F4A_7C15);
    x ^ (x >> 29)
}
pub fn hash_str(s: &str) -> u64 {
    s.bytes().fold(0xcbf29ce484222325, |h, b| mix(h, b as u64))
}

const SET_CAP: usize = 1_500_000;
/// processor time after which a call counts as one that never returns, and time without any use of the processor
const CALL_LIMIT: Duration = Duration::from_secs(120);

/// What one worker saw.
#[derive(Default)]
pub struct Cov {
    pub set: IdSet,
    pub capped: bool,
    pub transitions: u64,
    pub traces: u64,
    pub refusals: u64,
    pub items: u64,
    pub outcomes: IdSet,
}

pub struct Ctx {
    pub cov: Cov,
    pub salt: u64,
    pub sample: Option<String>,
    pub tier: Tier,
    slot: usize,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

impl Ctx {
    /// A model state (identified by its hash together with the configuration's salt) was visited.
    #[inline]
    pub fn state(&mut self, h: u64) {
        if self.cov.set.len() < SET_CAP {
            self.cov.set.insert(mix(self.salt, h));
        } else {
            self.cov.capped = true;
        }
    }
    /// one step of the model
    #[inline]
    pub fn step(&mut self, h: u64) {
        self.cov.transitions += 1;
        self.state(h);
    }
    /// one complete execution of the model was compared with the implementation
    #[inline]
    pub fn trace(&mut self, outcome: u64) {
        self.cov.traces += 1;
        if self.cov.outcomes.len() < SET_CAP {
            self.cov.outcomes.insert(mix(self.salt, outcome));
        }
    }
    /// Run implementation code: panics become Err, a call that does not return is reported.
    pub fn call<T>(&mut self, f: impl FnOnce() -> T) -> Result<T, String> {
        slot(self.slot).call_since.store(now_ms(), SeqCst);
        let r = guarded(f);
        slot(self.slot).call_since.store(0, SeqCst);
        r
    }
    /// Implementation code in a process of its own; `start` spawns it.
    pub fn call_child(&mut self, start: impl FnOnce() -> std::process::Child) -> std::process::Output {
        let ch = start();
        CHILD[self.slot].store(ch.id() as u64, SeqCst);
        slot(self.slot).call_since.store(now_ms(), SeqCst);
        let o = ch.wait_with_output().expect("wait");
        slot(self.slot).call_since.store(0, SeqCst);
        CHILD[self.slot].store(0, SeqCst);
        o
    }
    /// Implementation code that has to refuse (panic).
    pub fn refuses<T: std::fmt::Debug>(&mut self, what: impl FnOnce() -> String, f: impl FnOnce() -> T) -> Result<(), String> {
        match self.call(f) {
            Err(m) => {
                self.cov.refusals += 1;
                self.trace(hash_str(&m));
                Ok(())
            }
            Ok(v) => Err(format!("{}: expected a panic, got {}", what(), trunc(&format!("{v:?}")))),
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.sample.is_none() {
            self.sample = Some(trunc(&f()));
        }
    }
}

pub fn trunc(s: &str) -> String {
    if s.len() > 600 {
        format!("{}…", s.chars().take(600).collect::<String>())
    } else {
        s.to_string()
    }
}

// ------------------------------------------------------------------ panics and in-flight record

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    static IN_CALL: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
}

pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    IN_CALL.with(|c| c.set(c.get() + 1));
    let r = catch_unwind(AssertUnwindSafe(f));
    IN_CALL.with(|c| c.set(c.get() - 1));
    match r {
        Ok(v) => Ok(v),
        Err(_) => Err(LAST_PANIC.with(|p| p.borrow().clone())),
    }
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = format!("panic at {}: {}", i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default(),
            i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_default());
        if IN_CALL.with(|c| c.get()) == 0 && std::env::var_os("PMC_DEBUG").is_some() {
            eprintln!("HARNESS {m}");
        }
        let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = m);
    }));
}

#[repr(C)]
pub struct Slot {
    /// 1 + index of the space, 0 = idle
    pub space: AtomicU64,
    pub idx: AtomicU64,
    /// ms since start of the implementation call that is running, 0 = none
    pub call_since: AtomicU64,
}
static SLOTS: AtomicUsize = AtomicUsize::new(0);
const NSLOTS: usize = 64;
/// the worker of the slot, and the process it waits for
static THREAD: [AtomicU64; NSLOTS] = [const { AtomicU64::new(0) }; NSLOTS];
static CHILD: [AtomicU64; NSLOTS] = [const { AtomicU64::new(0) }; NSLOTS];

/// processor time used so far by the worker, or by the process it waits for; ms
fn cpu_ms(i: usize) -> u64 {
    let pid = CHILD[i].load(SeqCst);
    if pid != 0 {
        let st = std::fs::read_to_string(format!("/proc/{pid}/stat")).unwrap_or_default();
        let f: Vec<&str> = st.rsplit(')').next().unwrap_or("").split_whitespace().collect();
        return f.iter().skip(11).take(4).map(|x| x.parse::<u64>().unwrap_or(0)).sum::<u64>() * 10;
    }
    unsafe {
        let mut c: libc::clockid_t = 0;
        let mut ts: libc::timespec = std::mem::zeroed();
        let t = THREAD[i].load(SeqCst);
        if t == 0 || libc::pthread_getcpuclockid(t as libc::pthread_t, &mut c) != 0 || libc::clock_gettime(c, &mut ts) != 0 {
            return now_ms();
        }
        ts.tv_sec as u64 * 1000 + ts.tv_nsec as u64 / 1_000_000
    }
}

fn slot(i: usize) -> &'static Slot {
    unsafe { &*(SLOTS.load(Relaxed) as *const Slot).add(i) }
}
/// the in-flight record lives in a shared file mapping, so that it survives a crash
fn map_slots(path: Option<&str>) {
    let len = NSLOTS * std::mem::size_of::<Slot>();
    unsafe {
        let p = match path {
            Some(p) => {
                let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(p).unwrap();
                f.set_len(len as u64).unwrap();
                use std::os::fd::AsRawFd;
                libc::mmap(std::ptr::null_mut(), len, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0)
            }
            None => libc::mmap(std::ptr::null_mut(), len, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0),
        };
        assert!(p != libc::MAP_FAILED);
        SLOTS.store(p as usize, SeqCst);
    }
}

fn start() -> Instant {
    static S: std::sync::OnceLock<Instant> = std::sync::OnceLock::new();
    *S.get_or_init(Instant::now)
}
/// items that were started and not completed
pub static CUT: AtomicU64 = AtomicU64::new(0);
/// Time is up: what has not been started is left out, and the evidence says so. (Never on the tree this was
/// written for; a change of the code can make an exploration larger.)
pub fn time_left() -> Option<u64> {
    static B: std::sync::OnceLock<Option<u64>> = std::sync::OnceLock::new();
    let b: u64 = (*B.get_or_init(|| std::env::var("PMC_BUDGET").ok()?.parse().ok()))?;
    Some(b.saturating_sub(start().elapsed().as_secs()))
}
fn now_ms() -> u64 {
    start().elapsed().as_millis() as u64 + 1
}

// ------------------------------------------------------------------ spaces

type RunFn = Box<dyn Fn(u64, &mut Ctx) -> Result<(), String> + Send + Sync>;

pub struct Space {
    pub name: String,
    pub n: u64,
    /// what one index means, for the evidence
    pub what: String,
    pub run: RunFn,
    /// run in one thread (items that themselves own all threads, or are order sensitive)
    pub serial: bool,
}
impl Space {
    pub fn new(name: &str, n: u64, what: &str, run: impl Fn(u64, &mut Ctx) -> Result<(), String> + Send + Sync + 'static) -> Self {
        Space { name: name.into(), n, what: what.into(), run: Box::new(run), serial: false }
    }
    pub fn serial(mut self) -> Self {
        self.serial = true;
        self
    }
    /// a space whose items are an explicit list
    pub fn list<T: Send + Sync + 'static>(name: &str, what: &str, items: Vec<T>, run: impl Fn(&T, &mut Ctx) -> Result<(), String> + Send + Sync + 'static) -> Self {
        Self::new(name, items.len() as u64, what, move |i, c| run(&items[i as usize], c))
    }
}

struct Found {
    space: usize,
    idx: u64,
    msg: String,
}

fn run_item(s: &Space, si: usize, i: u64, ctx: &mut Ctx) -> Result<Result<(), String>, String> {
    THREAD[ctx.slot].store(unsafe { libc::pthread_self() } as u64, SeqCst);
    slot(ctx.slot).idx.store(i, SeqCst);
    slot(ctx.slot).space.store(si as u64 + 1, SeqCst);
    ctx.salt = mix(hash_str(&s.name), i);
    let r = catch_unwind(AssertUnwindSafe(|| (s.run)(i, ctx)));
    slot(ctx.slot).space.store(0, SeqCst);
    slot(ctx.slot).call_since.store(0, SeqCst);
    ctx.cov.items += 1;
    r.map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

/// Entry point of every checking binary.
/// usage: BIN <check> <quick|thorough> <out.json> [--inflight FILE] [--only SPACE IDX]
pub fn main_with(spaces_of: impl Fn(&str, Tier) -> Vec<Space>) {
    start();
    install_hook();
    let args: Vec<String> = std::env::args().collect();
    let check = args[1].clone();
    let tier = if args[2] == "thorough" { Tier::Thorough } else { Tier::Quick };
    if args[3] == "--list" {
        for s in spaces_of(&check, tier) {
            println!("{}", s.name);
        }
        return;
    }
    let out = args[3].clone();
    let mut inflight = None;
    let mut only: Option<(String, u64)> = None;
    let mut k = 4;
    while k < args.len() {
        match args[k].as_str() {
            "--inflight" => {
                inflight = Some(args[k + 1].clone());
                k += 2;
            }
            "--only" => {
                only = Some((args[k + 1].clone(), args[k + 2].parse().unwrap()));
                k += 3;
            }
            a => panic!("argument {a}"),
        }
    }
    map_slots(inflight.as_deref());
    let mut spaces = spaces_of(&check, tier);
    if spaces.is_empty() {
        eprintln!("no such check {check}");
        std::process::exit(3);
    }
    if let Ok(f) = std::env::var("PMC_SPACES") {
        spaces.retain(|s| s.name.contains(&f));
    }
    let names: Vec<String> = spaces.iter().map(|s| s.name.clone()).collect();

    // watchdog: an implementation call on a bounded input that does not return
    let wd_out = out.clone();
    let wd_names = names.clone();
    std::thread::spawn(move || {
        let lim = CALL_LIMIT.as_millis() as u64;
        // per slot: the call, processor time when it was first seen, processor time and clock at its last use of the processor
        let mut seen = [(0u64, 0u64, 0u64, 0u64); NSLOTS];
        loop {
            std::thread::sleep(Duration::from_millis(500));
            for (i, w) in seen.iter_mut().enumerate() {
                let s = slot(i);
                let (c, sp) = (s.call_since.load(SeqCst), s.space.load(SeqCst) as usize);
                if c == 0 || sp == 0 {
                    w.0 = 0;
                    continue;
                }
                let (cpu, now) = (cpu_ms(i), now_ms());
                if w.0 != c {
                    *w = (c, cpu, cpu, now);
                }
                if cpu > w.2 + 10 {
                    (w.2, w.3) = (cpu, now);
                }
                if (cpu > w.1 + lim || now > w.3 + lim) && s.call_since.load(SeqCst) == c {
                    let how = if cpu > w.1 + lim { "of processor time" } else { "and is blocked" };
                    let v = json!({"result":"violation","space":wd_names[sp-1],"idx":s.idx.load(SeqCst),
                        "message":format!("the call did not return within {} s {how}", CALL_LIMIT.as_secs())});
                    write_out(&wd_out, &v);
                    std::process::exit(1);
                }
            }
        }
    });

    if let Some((sp, idx)) = only {
        let si = spaces.iter().position(|s| s.name == sp).expect("space");
        let mut ctx = Ctx { cov: Cov::default(), salt: 0, sample: None, tier, slot: 0 };
        match run_item(&spaces[si], si, idx, &mut ctx) {
            Ok(Ok(())) => {
                write_out(&out, &json!({"result":"ok"}));
                std::process::exit(0)
            }
            Ok(Err(m)) => {
                eprintln!("{m}");
                write_out(&out, &json!({"result":"violation","space":sp,"idx":idx,"message":m}));
                std::process::exit(1)
            }
            Err(m) => {
                write_out(&out, &json!({"result":"error","message":m}));
                std::process::exit(3)
            }
        }
    }

    let threads = std::env::var("PMC_THREADS").ok().and_then(|v| v.parse().ok()).unwrap_or(8usize);
    let mut per_space = Vec::new();
    let mut total = Cov::default();
    let mut samples = Vec::new();
    let mut found: Option<Found> = None;
    let mut error: Option<String> = None;
    let mut skipped = 0;
    for (si, s) in spaces.iter().enumerate() {
        let t0 = Instant::now();
        let next = AtomicU64::new(0);
        let stop = AtomicU64::new(u64::MAX);
        let cut = AtomicU64::new(0);
        let res: Mutex<(Vec<Cov>, Vec<String>, Option<Found>, Option<String>)> = Mutex::new((vec![], vec![], None, None));
        let nt = if s.serial { 1 } else { threads.min(s.n.max(1) as usize) };
        let chunk = (s.n / (nt as u64 * 64)).clamp(1, 64);
        std::thread::scope(|sc| {
            for w in 0..nt {
                let (next, stop, cut, res) = (&next, &stop, &cut, &res);
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(sc, move || {
                        let mut ctx = Ctx { cov: Cov::default(), salt: 0, sample: None, tier, slot: w };
                        'o: loop {
                            let a = next.fetch_add(chunk, SeqCst);
                            if a >= s.n {
                                break;
                            }
                            for i in a..(a + chunk).min(s.n) {
                                if i > stop.load(SeqCst) {
                                    break 'o;
                                }
                                if time_left() == Some(0) {
                                    cut.fetch_add(1, SeqCst);
                                    continue;
                                }
                                match run_item(s, si, i, &mut ctx) {
                                    Ok(Ok(())) => {}
                                    Ok(Err(msg)) => {
                                        let mut g = res.lock().unwrap();
                                        if g.2.as_ref().map(|f| i < f.idx).unwrap_or(true) {
                                            g.2 = Some(Found { space: si, idx: i, msg });
                                        }
                                        stop.fetch_min(i, SeqCst);
                                    }
                                    Err(m) => {
                                        res.lock().unwrap().3 = Some(format!("{} item {}: {}", s.name, i, m));
                                        stop.store(0, SeqCst);
                                    }
                                }
                            }
                        }
                        let mut g = res.lock().unwrap();
                        if let Some(m) = ctx.sample.take() {
                            g.1.push(m);
                        }
                        g.0.push(ctx.cov);
                    })
                    .unwrap();
            }
        });
        let (covs, smp, f, e) = res.into_inner().unwrap();
        let mut sc = Cov::default();
        for c in covs {
            sc.transitions += c.transitions;
            sc.traces += c.traces;
            sc.refusals += c.refusals;
            sc.items += c.items;
            sc.capped |= c.capped;
            sc.set.extend(c.set);
            sc.outcomes.extend(c.outcomes);
        }
        total.transitions += sc.transitions;
        total.traces += sc.traces;
        total.refusals += sc.refusals;
        total.items += sc.items;
        total.capped |= sc.capped;
        per_space.push(json!({"space":s.name,"what":s.what,"items":s.n,"explored":sc.items,"states":sc.set.len(),
            "transitions":sc.transitions,"traces":sc.traces,"refusals":sc.refusals,"distinct_outcomes":sc.outcomes.len(),
            "state_count_is_lower_bound":sc.capped,"wall_s":t0.elapsed().as_secs_f64()}));
        total.set.extend(sc.set);
        total.outcomes.extend(sc.outcomes);
        if let Some(m) = smp.into_iter().next() {
            samples.push(json!(format!("{}: {}", s.name, m)));
        }
        if e.is_some() {
            error = e;
            break;
        }
        if f.is_some() {
            found = f;
            break;
        }
        let cut = cut.load(SeqCst);
        skipped += cut;
        if sc.items + cut != s.n {
            error = Some(format!("{}: {} of {} items explored", s.name, sc.items, s.n));
            break;
        }
    }
    let cov = json!({"states":total.set.len(),"transitions":total.transitions,"traces":total.traces,"refusals":total.refusals,
        "items":total.items,"left_out":skipped + CUT.load(SeqCst),"distinct_outcomes":total.outcomes.len(),"state_count_is_lower_bound":total.capped,"spaces":per_space,"samples":samples});
    if let Some(e) = error {
        eprintln!("ERROR {e}");
        write_out(&out, &json!({"result":"error","message":e,"coverage":cov}));
        std::process::exit(3);
    }
    if let Some(f) = found {
        eprintln!("violation in {} item {}: {}", names[f.space], f.idx, f.msg);
        write_out(&out, &json!({"result":"violation","space":names[f.space],"idx":f.idx,"message":trunc(&f.msg),"coverage":cov}));
        std::process::exit(1);
    }
    write_out(&out, &json!({"result":"ok","coverage":cov}));
    std::process::exit(0);
}

fn write_out(p: &str, v: &Value) {
    let mut f = std::fs::File::create(p).unwrap();
    f.write_all(serde_json::to_string_pretty(v).unwrap().as_bytes()).unwrap();
}

/// Mixed-radix digits of an index, least significant first.
pub struct Dig(pub u64);
impl Dig {
    pub fn take(&mut self, n: u64) -> u64 {
        let r = self.0 % n;
        self.0 /= n;
        r
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let k = self.take(v.len() as u64);
        &v[k as usize]
    }
}
