//! A clock the scenarios control. The executable's own clock_gettime takes precedence over the C
//! library's; while no run uses virtual time it asks the kernel.
use std::sync::atomic::{AtomicBool, AtomicI64, Ordering};

static ON: AtomicBool = AtomicBool::new(false);
static NS: AtomicI64 = AtomicI64::new(0);
const BASE: i64 = 1_700_000_000;

#[repr(C)]
pub struct Ts {
    sec: i64,
    nsec: i64,
}

unsafe extern "C" {
    fn syscall(n: i64, ...) -> i64;
}

#[cfg(target_arch = "x86_64")]
const NR: i64 = 228;
#[cfg(target_arch = "aarch64")]
const NR: i64 = 113;

#[unsafe(no_mangle)]
pub unsafe extern "C" fn clock_gettime(id: i32, ts: *mut Ts) -> i32 {
    if ON.load(Ordering::SeqCst) {
        let n = NS.load(Ordering::SeqCst);
        unsafe {
            (*ts).sec = BASE + n.div_euclid(1_000_000_000);
            (*ts).nsec = n.rem_euclid(1_000_000_000);
        }
        return 0;
    }
    unsafe { syscall(NR, id as i64, ts) as i32 }
}

pub fn start() {
    NS.store(0, Ordering::SeqCst);
    ON.store(true, Ordering::SeqCst);
}
pub fn advance_us(us: i64) {
    NS.fetch_add(us * 1000, Ordering::SeqCst);
}
pub fn now_us() -> i64 {
    NS.load(Ordering::SeqCst) / 1000
}
pub fn stop() {
    ON.store(false, Ordering::SeqCst);
}
