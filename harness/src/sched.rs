//! A controlled scheduler for real threads.
//!
//! Exactly one task thread holds the token and runs; the others wait. A task can lose the token at
//! every scheduling point (each field operation of a `W` field, each allocation and deallocation,
//! each hash call of the toy hashers; or a given number of machine instructions after such a point,
//! by single-stepping), and gives it up when it would block in a futex (mutexes, `Once`, condition
//! variables; the waiting itself is simulated here, so that it is deterministic), when it yields, and
//! when it is done. A plan says at which steps the token goes where; everything else is the default
//! (go on; when that is impossible, the next ready task in cyclic order). One execution is one
//! process: `run` forks, so that state hidden anywhere in the process is fresh too.
use crate::entropy::raw_syscall;
use crate::field::set_point;
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicU32, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::time::{Duration, Instant};

pub const MAXT: usize = 4;
pub const MAXSTEPS: usize = 1 << 20;
const READY: u32 = 1;
const BLOCKED: u32 = 2;
const DONE: u32 = 3;
const NOBODY: i32 = -1;
const FREE: i32 = -2;

#[derive(Clone, Copy, Debug, Default, PartialEq)]
pub struct Pre {
    pub step: u32,
    /// machine instructions after that point; 0 = at the point
    pub sub: u32,
    pub to: u32,
}

static CUR: AtomicI32 = AtomicI32::new(FREE);
static ST: [AtomicU32; MAXT] = [const { AtomicU32::new(0) }; MAXT];
static ADDR: [AtomicUsize; MAXT] = [const { AtomicUsize::new(0) }; MAXT];
static SEQ: [AtomicU64; MAXT] = [const { AtomicU64::new(0) }; MAXT];
static TIMED: [AtomicBool; MAXT] = [const { AtomicBool::new(false) }; MAXT];
static OUT: [AtomicBool; MAXT] = [const { AtomicBool::new(false) }; MAXT];
static NEXTSEQ: AtomicU64 = AtomicU64::new(0);
static THREAD: [AtomicUsize; MAXT] = [const { AtomicUsize::new(0) }; MAXT];
static LOCK: AtomicBool = AtomicBool::new(false);
static NDONE: AtomicU32 = AtomicU32::new(0);
static PLAN: [[AtomicU32; 3]; 8] = [const { [const { AtomicU32::new(0) }; 3] }; 8];
static NPLAN: AtomicUsize = AtomicUsize::new(0);
static NEXT: AtomicUsize = AtomicUsize::new(0);
static COUNTING: AtomicBool = AtomicBool::new(false);
static SHARED: AtomicUsize = AtomicUsize::new(0);

thread_local! {
    static ME: Cell<i32> = const { Cell::new(-1) };
    static BUSY: Cell<bool> = const { Cell::new(false) };
    static SUB: Cell<u32> = const { Cell::new(0) };
    static SUBTO: Cell<i32> = const { Cell::new(-1) };
}

/// what an execution tells the process that forked it
#[repr(C)]
pub struct Shared {
    pub res: [AtomicU64; MAXT],
    pub steps: AtomicU32,
    pub finished: AtomicU32,
    pub freed: AtomicU32,
    pub forced: AtomicU32,
    pub deadlock: AtomicU32,
    pub traps: AtomicU64,
    pub owner: [std::sync::atomic::AtomicU8; MAXSTEPS],
    /// tasks that could have run instead
    pub mask: [std::sync::atomic::AtomicU8; MAXSTEPS],
    /// 0: a preemption; 1: the running task could not go on
    pub kind: [std::sync::atomic::AtomicU8; MAXSTEPS],
    /// instructions until the next point
    pub instr: [AtomicU32; MAXSTEPS],
}
pub fn shared() -> &'static Shared {
    if SHARED.load(SeqCst) == 0 {
        let p = unsafe { libc::mmap(std::ptr::null_mut(), std::mem::size_of::<Shared>(), libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0) };
        assert!(p != libc::MAP_FAILED);
        SHARED.store(p as usize, SeqCst);
    }
    unsafe { &*(SHARED.load(SeqCst) as *const Shared) }
}

unsafe fn fwait(a: &AtomicI32, v: i32, ms: i64) {
    let ts = [ms / 1000, (ms % 1000) * 1_000_000];
    raw_syscall(libc::SYS_futex, a.as_ptr() as i64, 128, v as i64, if ms > 0 { ts.as_ptr() as i64 } else { 0 }, 0, 0);
}
fn give(to: i32) {
    CUR.store(to, SeqCst);
    unsafe {
        raw_syscall(libc::SYS_futex, CUR.as_ptr() as i64, 129, i32::MAX as i64, 0, 0, 0);
    }
}
fn await_token(me: i32) {
    loop {
        let c = CUR.load(SeqCst);
        if c == me || c == FREE {
            return;
        }
        unsafe { fwait(&CUR, c, 0) };
    }
}
/// Everything of this process on one processor: handing over the token is then a plain context switch.
pub fn pin(cpu: usize) {
    unsafe {
        let mut s: libc::cpu_set_t = std::mem::zeroed();
        libc::CPU_SET(cpu, &mut s);
        libc::sched_setaffinity(0, std::mem::size_of_val(&s), &s);
    }
}
/// the processors this process may use
pub fn cpus() -> Vec<usize> {
    unsafe {
        let mut s: libc::cpu_set_t = std::mem::zeroed();
        libc::sched_getaffinity(0, std::mem::size_of_val(&s), &mut s);
        (0..1024).filter(|c| libc::CPU_ISSET(*c, &s)).collect()
    }
}
fn locked<T>(f: impl FnOnce() -> T) -> T {
    while LOCK.swap(true, SeqCst) {
        unsafe { raw_syscall(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0) };
    }
    let r = f();
    LOCK.store(false, SeqCst);
    r
}
fn ready_mask(except: i32) -> u8 {
    let mut m = 0;
    for (i, s) in ST.iter().enumerate() {
        if i as i32 != except && s.load(SeqCst) == READY {
            m |= 1 << i;
        }
    }
    m
}
/// record a step; the plan's choice for it
fn step(me: i32, kind: u8) -> Option<Pre> {
    let sh = shared();
    let s = sh.steps.fetch_add(1, SeqCst) as usize;
    if s < MAXSTEPS {
        sh.owner[s].store(me as u8, SeqCst);
        sh.mask[s].store(ready_mask(me), SeqCst);
        sh.kind[s].store(kind, SeqCst);
    }
    let k = NEXT.load(SeqCst);
    if k < NPLAN.load(SeqCst) && PLAN[k][0].load(SeqCst) as usize == s {
        NEXT.store(k + 1, SeqCst);
        return Some(Pre { step: s as u32, sub: PLAN[k][1].load(SeqCst), to: PLAN[k][2].load(SeqCst) });
    }
    None
}
fn switch(me: i32, to: i32) {
    if to >= 0 && (to as usize) < MAXT && to != me && ST[to as usize].load(SeqCst) == READY {
        give(to);
        await_token(me);
    }
}

/// The scheduling point.
pub fn point() {
    let me = ME.with(|m| m.get());
    if me < 0 || CUR.load(SeqCst) != me || BUSY.with(|b| b.get()) {
        return;
    }
    BUSY.with(|b| b.set(true));
    if let Some(p) = step(me, 0) {
        if p.sub == 0 {
            switch(me, p.to as i32);
        } else {
            SUB.with(|s| s.set(p.sub));
            SUBTO.with(|s| s.set(p.to as i32));
        }
    }
    unbusy(false);
}
/// Code of the checker inside a task: no scheduling points.
pub fn quietly<T>(f: impl FnOnce() -> T) -> T {
    let b = BUSY.with(|b| b.replace(true));
    let r = f();
    unbusy(b);
    r
}
/// back to the program: single stepping was off in between
#[inline(always)]
fn unbusy(b: bool) {
    BUSY.with(|x| x.set(b));
    if !b && (SUB.with(|s| s.get()) > 0 || COUNTING.load(SeqCst)) && ME.with(|m| m.get()) >= 0 {
        trap_flag(true);
    }
}
/// The running task cannot go on: the token goes to somebody else (or nobody).
fn release(me: i32) {
    let p = step(me, 1);
    let m = ready_mask(me);
    let to = match p {
        Some(p) if m & (1 << p.to) != 0 => p.to as i32,
        _ if m == 0 => {
            // somebody whose wait has a time limit
            match (0..MAXT).find(|i| ST[*i].load(SeqCst) == BLOCKED && TIMED[*i].load(SeqCst)) {
                Some(i) => {
                    OUT[i].store(true, SeqCst);
                    ST[i].store(READY, SeqCst);
                    i as i32
                }
                None => NOBODY,
            }
        }
        _ => (1..=MAXT as i32).map(|k| (me + k) % MAXT as i32).find(|i| m & (1 << i) != 0).unwrap(),
    };
    give(to);
}
/// a task that yields lets the others go first
pub fn yielded() -> bool {
    let me = ME.with(|m| m.get());
    if me < 0 || CUR.load(SeqCst) != me || BUSY.with(|b| b.get()) {
        return false;
    }
    BUSY.with(|b| b.set(true));
    if ready_mask(me) != 0 {
        release(me);
        await_token(me);
    }
    unbusy(false);
    true
}
/// futex system calls of the program; None: make the real call
pub fn futex(addr: i64, op: i64, v: i64, timeout: i64) -> Option<i64> {
    if CUR.load(SeqCst) == FREE {
        return None;
    }
    let me = ME.try_with(|m| m.get()).unwrap_or(-1);
    match op & 0x7f {
        0 | 9 => {
            if me < 0 || CUR.load(SeqCst) != me {
                return None;
            }
            let busy = BUSY.with(|b| b.replace(true));
            let blocked = locked(|| unsafe {
                if (*(addr as *const AtomicU32)).load(SeqCst) != v as u32 {
                    return false;
                }
                let i = me as usize;
                ADDR[i].store(addr as usize, SeqCst);
                SEQ[i].store(NEXTSEQ.fetch_add(1, SeqCst), SeqCst);
                TIMED[i].store(timeout != 0, SeqCst);
                OUT[i].store(false, SeqCst);
                ST[i].store(BLOCKED, SeqCst);
                true
            });
            let r = if blocked {
                release(me);
                await_token(me);
                if OUT[me as usize].swap(false, SeqCst) { -(libc::ETIMEDOUT as i64) } else { 0 }
            } else {
                -(libc::EAGAIN as i64)
            };
            unbusy(busy);
            Some(r)
        }
        1 | 10 => {
            let busy = BUSY.with(|b| b.replace(true));
            let mut n = 0;
            locked(|| {
                while n < v {
                    let w = (0..MAXT).filter(|i| ST[*i].load(SeqCst) == BLOCKED && ADDR[*i].load(SeqCst) == addr as usize).min_by_key(|i| SEQ[*i].load(SeqCst));
                    let Some(i) = w else { break };
                    ST[i].store(READY, SeqCst);
                    n += 1;
                    if CUR.load(SeqCst) == NOBODY {
                        give(i as i32);
                    }
                }
            });
            unbusy(busy);
            if n < v {
                let r = unsafe { raw_syscall(libc::SYS_futex, addr, op, v - n, 0, 0, -1) };
                return Some(if r > 0 { r + n } else { n });
            }
            Some(n)
        }
        _ => None,
    }
}

// ---------------------------------------------------------------- single stepping
#[inline(always)]
fn trap_flag(on: bool) {
    unsafe {
        if on {
            std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq");
        } else {
            std::arch::asm!("pushfq", "and qword ptr [rsp], -257", "popfq");
        }
    }
}
extern "C" fn on_trap(_: i32, _: *mut libc::siginfo_t, u: *mut libc::c_void) {
    let sh = shared();
    sh.traps.fetch_add(1, SeqCst);
    let u = unsafe { &mut *(u as *mut libc::ucontext_t) };
    let me = ME.with(|m| m.get());
    let mut off = CUR.load(SeqCst) == FREE || me < 0 || BUSY.with(|b| b.get());
    if !off {
        let left = SUB.with(|s| s.get());
        if left > 0 {
            SUB.with(|s| s.set(left - 1));
            if left == 1 {
                off = true;
                BUSY.with(|b| b.set(true));
                switch(me, SUBTO.with(|s| s.get()));
                BUSY.with(|b| b.set(false));
            }
        } else if COUNTING.load(SeqCst) {
            let s = sh.steps.load(SeqCst) as usize;
            if s > 0 && s <= MAXSTEPS {
                sh.instr[s - 1].fetch_add(1, SeqCst);
            }
        }
    }
    if off {
        u.uc_mcontext.gregs[libc::REG_EFL as usize] &= !0x100;
    }
}
/// A task that runs for long without reaching a point is taken to be waiting in a loop.
extern "C" fn on_spin(_: i32) {
    let me = ME.with(|m| m.get());
    if me >= 0 && CUR.load(SeqCst) == me && !BUSY.with(|b| b.get()) && ready_mask(me) != 0 {
        BUSY.with(|b| b.set(true));
        shared().forced.fetch_add(1, SeqCst);
        release(me);
        await_token(me);
        BUSY.with(|b| b.set(false));
    }
}
pub fn install_trap() {
    unsafe {
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = on_spin as *const () as usize;
        sa.sa_flags = libc::SA_RESTART;
        libc::sigaction(libc::SIGUSR1, &sa, std::ptr::null_mut());
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = on_trap as *const () as usize;
        sa.sa_flags = libc::SA_SIGINFO;
        libc::sigaction(libc::SIGTRAP, &sa, std::ptr::null_mut());
    }
}

// ---------------------------------------------------------------- allocator
/// In an execution memory is taken from one region and never returned, so that a task stopped in the
/// middle of an allocation cannot block another one. Every request is a scheduling point.
pub struct Alloc;
static BUMP: AtomicUsize = AtomicUsize::new(0);
static BUMP_END: AtomicUsize = AtomicUsize::new(0);
static BUMP_START: AtomicUsize = AtomicUsize::new(0);
unsafe impl std::alloc::GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        if BUMP.load(SeqCst) == 0 {
            return std::alloc::System.alloc(l);
        }
        crate::field::point();
        let need = l.size() + l.align();
        let p = BUMP.fetch_add(need, SeqCst);
        if p + need > BUMP_END.load(SeqCst) {
            return std::ptr::null_mut();
        }
        ((p + l.align() - 1) & !(l.align() - 1)) as *mut u8
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        let a = p as usize;
        if a >= BUMP_START.load(SeqCst) && a < BUMP_END.load(SeqCst) {
            crate::field::point();
            return;
        }
        if BUMP.load(SeqCst) == 0 {
            std::alloc::System.dealloc(p, l)
        }
    }
}
fn own_memory() {
    const LEN: usize = 8 << 30;
    let p = unsafe { libc::mmap(std::ptr::null_mut(), LEN, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0) };
    assert!(p != libc::MAP_FAILED);
    BUMP_START.store(p as usize, SeqCst);
    BUMP_END.store(p as usize + LEN, SeqCst);
    BUMP.store(p as usize + 64, SeqCst);
}

// ---------------------------------------------------------------- executions
pub struct Exec {
    pub results: Vec<u64>,
    pub steps: usize,
    /// the tasks went on without control (one ran for long without reaching a point)
    pub freed: bool,
    /// tasks that waited in a loop
    pub forced: u32,
}

/// Execute the tasks of `make()` in a process of their own under this plan. Err: it died or did not complete.
pub fn run<T: Fn(usize) -> u64 + Sync>(make: impl Fn() -> T, tasks: &[usize], start: usize, plan: &[Pre], counting: bool) -> Result<Exec, String> {
    let sh = shared();
    let old = (sh.steps.load(SeqCst) as usize).min(MAXSTEPS);
    for s in 0..old {
        sh.instr[s].store(0, SeqCst);
    }
    for x in [&sh.steps, &sh.finished, &sh.freed, &sh.forced, &sh.deadlock] {
        x.store(0, SeqCst);
    }
    let pid = unsafe { libc::fork() };
    if pid == 0 {
        execute(&make, tasks, start, plan, counting);
        unsafe { libc::_exit(0) };
    }
    if pid < 0 {
        panic!("fork failed");
    }
    let mut st = 0;
    unsafe { libc::waitpid(pid, &mut st, 0) };
    if sh.deadlock.load(SeqCst) == 1 {
        return Err("every call is blocked: deadlock".into());
    }
    if sh.deadlock.load(SeqCst) == 2 {
        return Err("the calls do not complete".into());
    }
    if !libc::WIFEXITED(st) || libc::WEXITSTATUS(st) != 0 || sh.finished.load(SeqCst) as usize != tasks.len() {
        return Err(format!("the process died (status {st:#x})"));
    }
    Ok(Exec { results: (0..tasks.len()).map(|i| sh.res[i].load(SeqCst)).collect(), steps: (sh.steps.load(SeqCst) as usize).min(MAXSTEPS), freed: sh.freed.load(SeqCst) != 0, forced: sh.forced.load(SeqCst) })
}

/// processor time without a step that counts as waiting in a loop
const SPIN_NS: u64 = 3_000_000;
fn cpu_time(t: usize) -> u64 {
    unsafe {
        let mut c: libc::clockid_t = 0;
        let mut ts: libc::timespec = std::mem::zeroed();
        if libc::pthread_getcpuclockid(t as libc::pthread_t, &mut c) != 0 || libc::clock_gettime(c, &mut ts) != 0 {
            return 0;
        }
        ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64
    }
}
fn execute<T: Fn(usize) -> u64 + Sync>(make: &impl Fn() -> T, tasks: &[usize], start: usize, plan: &[Pre], counting: bool) {
    let sh = shared();
    own_memory();
    for (k, p) in plan.iter().enumerate() {
        PLAN[k][0].store(p.step, SeqCst);
        PLAN[k][1].store(p.sub, SeqCst);
        PLAN[k][2].store(p.to, SeqCst);
    }
    NPLAN.store(plan.len(), SeqCst);
    COUNTING.store(counting, SeqCst);
    let w = make();
    let waiting = AtomicU32::new(0);
    CUR.store(NOBODY, SeqCst);
    std::thread::scope(|sc| {
        for (i, op) in tasks.iter().enumerate() {
            ST[i].store(READY, SeqCst);
            let (w, waiting) = (&w, &waiting);
            std::thread::Builder::new()
                .stack_size(4 << 20)
                .spawn_scoped(sc, move || {
                    let me = i as i32;
                    ME.with(|m| m.set(me));
                    THREAD[i].store(unsafe { libc::pthread_self() } as usize, SeqCst);
                    SUB.with(|m| m.set(0));
                    waiting.fetch_add(1, SeqCst);
                    unsafe { raw_syscall(libc::SYS_futex, waiting.as_ptr() as i64, 129, 1, 0, 0, 0) };
                    await_token(me);
                    set_point(Some(point));
                    if counting {
                        trap_flag(true);
                    }
                    point();
                    let r = w(*op);
                    set_point(None);
                    trap_flag(false);
                    BUSY.with(|b| b.set(true));
                    sh.res[i].store(r, SeqCst);
                    sh.finished.fetch_add(1, SeqCst);
                    let free = CUR.load(SeqCst) == FREE;
                    ST[i].store(DONE, SeqCst);
                    if !free {
                        release(me);
                    }
                    ME.with(|m| m.set(-1));
                    NDONE.fetch_add(1, SeqCst);
                    unsafe { raw_syscall(libc::SYS_futex, NDONE.as_ptr() as i64, 129, i32::MAX as i64, 0, 0, 0) };
                })
                .unwrap();
        }
        loop {
            let n = waiting.load(SeqCst);
            if n as usize == tasks.len() {
                break;
            }
            unsafe { raw_syscall(libc::SYS_futex, waiting.as_ptr() as i64, 128, n as i64, 0, 0, 0) };
        }
        give(start as i32);
        let mut last = (0u32, 0i32);
        let mut since = Instant::now();
        let mut cpu0 = 0;
        loop {
            let d = NDONE.load(SeqCst);
            if d as usize == tasks.len() {
                break;
            }
            let ts = [0i64, 1_000_000];
            unsafe { raw_syscall(libc::SYS_futex, NDONE.as_ptr() as i64, 128, d as i64, ts.as_ptr() as i64, 0, 0) };
            let cur = CUR.load(SeqCst);
            // traps count as progress
            let now = (sh.steps.load(SeqCst).wrapping_add(sh.traps.load(SeqCst) as u32), cur);
            let cpu = if cur >= 0 && (cur as usize) < tasks.len() { cpu_time(THREAD[cur as usize].load(SeqCst)) } else { 0 };
            if now != last {
                last = now;
                since = Instant::now();
                cpu0 = cpu;
                continue;
            }
            if cur >= 0 && cpu > cpu0 + SPIN_NS {
                unsafe { libc::pthread_kill(THREAD[cur as usize].load(SeqCst) as libc::pthread_t, libc::SIGUSR1) };
            }
            let idle = since.elapsed();
            if cur == NOBODY && idle > Duration::from_secs(10) {
                sh.deadlock.store(1, SeqCst);
                unsafe { libc::_exit(0) };
            }
            if cur == FREE && idle > Duration::from_secs(60) {
                sh.deadlock.store(2, SeqCst);
                unsafe { libc::_exit(0) };
            }
            if cur >= 0 && idle > Duration::from_secs(2) {
                sh.freed.store(1, SeqCst);
                give(FREE);
            }
        }
    });
}
