//! The operating system's entropy under the explorer's control, per thread: a thread that has called
//! `set` reads a reproducible byte stream wherever it (or a generator seeded on it) asks the kernel
//! for random bytes. Other threads and other system calls are passed through.
//! The binary that wants this calls `interpose!()`.
use std::cell::Cell;

thread_local! {
    static STREAM: Cell<Option<(u64, u64)>> = const { Cell::new(None) };
}
pub fn set(seed: Option<u64>) {
    STREAM.with(|s| s.set(seed.map(|x| (x, 0))));
}
/// true if the bytes were supplied here
pub fn fill(p: *mut u8, n: usize) -> bool {
    STREAM
        .try_with(|s| {
            let Some((seed, mut k)) = s.get() else { return false };
            for i in 0..n {
                let mut x = seed.wrapping_mul(0x9E37_79B9_7F4A_7C15).wrapping_add(k.wrapping_mul(0xD134_2543_DE82_EF95)).wrapping_add(1);
                x = (x ^ (x >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
                x = (x ^ (x >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
                x ^= x >> 31;
                unsafe { *p.add(i) = x as u8 };
                k += 1;
            }
            s.set(Some((seed, k)));
            true
        })
        .unwrap_or(false)
}
/// Run `f` on a new thread whose entropy is the stream of `seed`.
pub fn on_fresh_thread<T: Send>(seed: u64, f: impl FnOnce() -> T + Send) -> Result<T, String> {
    std::thread::scope(|s| {
        s.spawn(|| {
            set(Some(seed));
            let r = crate::explore::guarded(f);
            set(None);
            r
        })
        .join()
        .map_err(|_| "thread died".to_string())?
    })
}
/// # Safety
/// a raw system call
#[cfg(target_arch = "x86_64")]
pub unsafe fn raw_syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
        lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
#[macro_export]
macro_rules! interpose {
    () => {
        #[no_mangle]
        pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
            if n == libc::SYS_getrandom && $crate::entropy::fill(a as *mut u8, b as usize) {
                return b;
            }
            if n == libc::SYS_futex {
                if let Some(r) = $crate::sched::futex(a, b, c, d) {
                    if r < 0 {
                        *libc::__errno_location() = -r as i32;
                        return -1;
                    }
                    return r;
                }
            }
            let r = $crate::entropy::raw_syscall(n, a, b, c, d, e, f);
            if r < 0 && r > -4096 {
                *libc::__errno_location() = -r as i32;
                return -1;
            }
            r
        }
        #[no_mangle]
        pub unsafe extern "C" fn getrandom(p: *mut u8, n: usize, fl: u32) -> isize {
            if $crate::entropy::fill(p, n) {
                return n as isize;
            }
            let r = $crate::entropy::raw_syscall(libc::SYS_getrandom, p as i64, n as i64, fl as i64, 0, 0, 0);
            if r < 0 {
                *libc::__errno_location() = -r as i32;
                return -1;
            }
            r as isize
        }
    };
}
