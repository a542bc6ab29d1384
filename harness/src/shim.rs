//! Symbol overrides that make a simulation thread deterministic: on such a thread the clocks
//! follow tokio's paused clock and all OS randomness comes from a seeded generator.
//! Other threads keep the real clock and real randomness.
use std::cell::Cell;
use std::time::Duration;

thread_local! {
    static SIM: Cell<bool> = const { Cell::new(false) };
    static GUARD: Cell<bool> = const { Cell::new(false) };
    static RNG: Cell<u64> = const { Cell::new(0) };
    static T0: Cell<Option<tokio::time::Instant>> = const { Cell::new(None) };
    static LAST: Cell<u64> = const { Cell::new(0) };
}

const BASE_SECS: i64 = 1_000_000;

/// Turn this thread into a simulation thread. Call before anything else runs on it.
pub fn enter(seed: u64) {
    RNG.set(seed ^ 0x9e37_79b9_7f4a_7c15);
    LAST.set(0);
    T0.set(None);
    SIM.set(true);
}
/// Call inside the paused runtime.
pub fn started() {
    T0.set(Some(tokio::time::Instant::now()));
}
pub fn is_sim() -> bool {
    SIM.get()
}
pub fn leave() {
    SIM.set(false);
}
pub fn virtual_nanos() -> u64 {
    if let Some(t0) = T0.get() {
        if !GUARD.get() {
            GUARD.set(true);
            let now = tokio::time::Instant::now();
            GUARD.set(false);
            let n = now.saturating_duration_since(t0).as_nanos() as u64;
            if n > LAST.get() {
                LAST.set(n);
            }
        }
    }
    LAST.get()
}
pub fn virtual_now() -> Duration {
    Duration::from_nanos(virtual_nanos())
}

fn next() -> u64 {
    let mut z = RNG.get().wrapping_add(0x9e37_79b9_7f4a_7c15);
    RNG.set(z);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

unsafe fn raw6(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    std::arch::asm!(
        "syscall",
        inlateout("rax") n => r,
        in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
        lateout("rcx") _, lateout("r11") _,
        options(nostack)
    );
    r
}
unsafe fn ret(r: i64) -> i64 {
    if (-4095..0).contains(&r) {
        *libc::__errno_location() = (-r) as i32;
        -1
    } else {
        r
    }
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut libc::timespec) -> i32 {
    if SIM.get() {
        let n = virtual_nanos();
        (*ts).tv_sec = BASE_SECS + (n / 1_000_000_000) as i64;
        (*ts).tv_nsec = (n % 1_000_000_000) as i64;
        return 0;
    }
    ret(raw6(
        libc::SYS_clock_gettime,
        clk as i64,
        ts as i64,
        0,
        0,
        0,
        0,
    )) as i32
}

unsafe fn fill(buf: *mut u8, len: usize) {
    let mut i = 0;
    while i < len {
        let v = next().to_le_bytes();
        let k = (len - i).min(8);
        std::ptr::copy_nonoverlapping(v.as_ptr(), buf.add(i), k);
        i += k;
    }
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, flags: u32) -> isize {
    if SIM.get() {
        fill(buf, len);
        return len as isize;
    }
    ret(raw6(
        libc::SYS_getrandom,
        buf as i64,
        len as i64,
        flags as i64,
        0,
        0,
        0,
    )) as isize
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if n == libc::SYS_getrandom && SIM.get() {
        fill(a as *mut u8, b as usize);
        return b;
    }
    ret(raw6(n, a, b, c, d, e, f))
}
