//! Virtual clock: interposes the libc functions `std` uses to read time & to sleep, so the workloads decide
//! exactly how much time passes -- per thread -- and sleeping between retries takes no real time.
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};

static ON: AtomicBool = AtomicBool::new(false);
/// total nanoseconds slept, by any thread, while virtual
pub static SLEPT: AtomicU64 = AtomicU64::new(0);
/// number of times the clock was read while virtual
pub static READS: AtomicU64 = AtomicU64::new(0);
const BASE_NS: u64 = 1_000_000_000_000_000;
thread_local! { static OFF: Cell<u64> = const { Cell::new(0) }; }

pub fn enable(on: bool) { ON.store(on, SeqCst); }
/// makes `ns` nanoseconds go by for the calling thread
pub fn advance(ns: u64) { OFF.with(|o| o.set(o.get() + ns)); }
/// nanoseconds that went by, so far, for the calling thread
pub fn now() -> u64 { OFF.with(|o| o.get()) }
/// has the calling thread's clock continue from another's
pub fn set(ns: u64) { OFF.with(|o| o.set(ns)); }

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    if ON.load(Relaxed) {
        READS.fetch_add(1, Relaxed);
        let t = BASE_NS + OFF.with(|o| o.get());
        (*ts).tv_sec = (t / 1_000_000_000) as libc::time_t;
        (*ts).tv_nsec = (t % 1_000_000_000) as libc::c_long;
        0
    } else {
        libc::syscall(libc::SYS_clock_gettime, clk, ts) as libc::c_int
    }
}
unsafe fn slept(req: *const libc::timespec) {
    let ns = (*req).tv_sec as u64 * 1_000_000_000 + (*req).tv_nsec as u64;
    advance(ns);
    SLEPT.fetch_add(ns, Relaxed);
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const libc::timespec, rem: *mut libc::timespec) -> libc::c_int {
    if ON.load(Relaxed) { slept(req); 0 } else { libc::syscall(libc::SYS_nanosleep, req, rem) as libc::c_int }
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(clk: libc::clockid_t, flags: libc::c_int, req: *const libc::timespec, rem: *mut libc::timespec) -> libc::c_int {
    if ON.load(Relaxed) {
        if flags == 0 { slept(req) } else {
            let t = (*req).tv_sec as u64 * 1_000_000_000 + (*req).tv_nsec as u64;
            let now = BASE_NS + OFF.with(|o| o.get());
            if t > now { advance(t - now); SLEPT.fetch_add(t - now, Relaxed); }
        }
        0
    } else {
        let r = libc::syscall(libc::SYS_clock_nanosleep, clk, flags, req, rem);
        if r == -1 { *libc::__errno_location() } else { 0 }
    }
}

/// true if the interposition is effective -- a harness that doesn't control time can't judge anything
pub fn self_test() -> bool {
    let was = ON.swap(true, SeqCst);
    let t0 = std::time::Instant::now();
    advance(123_456_789);
    let ok1 = t0.elapsed().as_nanos() == 123_456_789;
    let t0 = std::time::Instant::now();
    std::thread::sleep(std::time::Duration::from_secs(3600));
    let ok2 = t0.elapsed().as_nanos() == 3_600_000_000_000;
    ON.store(was, SeqCst);
    ok1 && ok2
}
