//! Process-wide virtual clock: this definition of `clock_gettime` takes
//! precedence over libc's in the executable, so `Instant::now` and
//! `SystemTime::now` in the code under test see real time plus an offset the
//! monitor controls (expiry and refill are then exercised without sleeping).
use std::sync::atomic::{AtomicI64, Ordering};
#[repr(C)]
pub struct Ts {
    sec: i64,
    nsec: i64,
}
static OFFSET_NS: AtomicI64 = AtomicI64::new(0);
/// 0: running; otherwise the frozen monotonic/realtime bases are used.
static FROZEN: AtomicI64 = AtomicI64::new(0);
static FROZEN_MONO: AtomicI64 = AtomicI64::new(0);
static FROZEN_REAL: AtomicI64 = AtomicI64::new(0);
extern "C" {
    fn syscall(n: i64, ...) -> i64;
}
#[cfg(target_arch = "x86_64")]
const SYS_CLOCK_GETTIME: i64 = 228;
#[cfg(target_arch = "aarch64")]
const SYS_CLOCK_GETTIME: i64 = 113;

fn raw_ns(clk: i32) -> i64 {
    let mut t = Ts { sec: 0, nsec: 0 };
    unsafe { syscall(SYS_CLOCK_GETTIME, clk as i64, &mut t as *mut Ts) };
    t.sec * 1_000_000_000 + t.nsec
}

/// # Safety
/// Called by libstd with a valid timespec pointer.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: i32, ts: *mut Ts) -> i32 {
    let mono = clk == 1 || clk == 6 || clk == 7 || clk == 4;
    let real = clk == 0 || clk == 5;
    if !(mono || real) {
        return syscall(SYS_CLOCK_GETTIME, clk as i64, ts) as i32;
    }
    let base = if FROZEN.load(Ordering::SeqCst) != 0 {
        if mono {
            FROZEN_MONO.load(Ordering::SeqCst)
        } else {
            FROZEN_REAL.load(Ordering::SeqCst)
        }
    } else {
        raw_ns(if mono { 1 } else { 0 })
    };
    let t = base + OFFSET_NS.load(Ordering::SeqCst);
    (*ts).sec = t.div_euclid(1_000_000_000);
    (*ts).nsec = t.rem_euclid(1_000_000_000);
    0
}

pub fn touch() {
    let f: unsafe extern "C" fn(i32, *mut Ts) -> i32 = clock_gettime;
    std::hint::black_box(f);
}
/// Stop the clock: from now on only `advance_ns` moves it.
pub fn freeze() {
    FROZEN_MONO.store(raw_ns(1), Ordering::SeqCst);
    FROZEN_REAL.store(raw_ns(0), Ordering::SeqCst);
    FROZEN.store(1, Ordering::SeqCst);
}
pub fn advance_ns(ns: i64) {
    OFFSET_NS.fetch_add(ns, Ordering::SeqCst);
}
pub fn advance_ms(ms: i64) {
    advance_ns(ms * 1_000_000)
}
/// Back to the starting time (only between cases: nothing from the previous case may live on).
pub fn rewind() {
    OFFSET_NS.store(0, Ordering::SeqCst);
}
pub fn offset_ns() -> i64 {
    OFFSET_NS.load(Ordering::SeqCst)
}
/// True when the interposition is effective in this process.
pub fn works() -> bool {
    let a = std::time::Instant::now();
    let s = std::time::SystemTime::now();
    advance_ns(3_600_000_000_000);
    let ok = a.elapsed().as_secs() >= 3600 && s.elapsed().map(|d| d.as_secs() >= 3600).unwrap_or(false);
    advance_ns(-3_600_000_000_000);
    ok
}
static T0: AtomicI64 = AtomicI64::new(0);
/// Real seconds since the first call (immune to the virtual offset).
pub fn real_now() -> f64 {
    let n = raw_ns(1);
    let _ = T0.compare_exchange(0, n, Ordering::SeqCst, Ordering::SeqCst);
    (n - T0.load(Ordering::SeqCst)) as f64 / 1e9
}
pub fn real_elapsed(_start: std::time::Instant) -> f64 {
    real_now()
}
