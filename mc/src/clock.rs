//! The clock of this process. The engine reads the time through `clock_gettime`; this definition
//! takes the place of libc's. While `armed`, time is virtual: it stands still, except that it jumps
//! far ahead at chosen reads.

use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering::Relaxed};
use std::time::{Duration, Instant};

#[repr(C)]
pub struct Timespec {
    sec: i64,
    nsec: i64,
}

static ARMED: AtomicBool = AtomicBool::new(false);
static NOW: AtomicI64 = AtomicI64::new(0);
static READS: AtomicU64 = AtomicU64::new(0);
static JUMP_AT: AtomicU64 = AtomicU64::new(u64::MAX);

/// Length of a time slice, and of the jump past its end, in seconds.
const SLICE: i64 = 100;
const JUMP: i64 = 1000;

#[cfg(target_arch = "x86_64")]
pub const SYS_CLOCK_GETTIME: i64 = 228;
#[cfg(target_arch = "aarch64")]
pub const SYS_CLOCK_GETTIME: i64 = 113;

extern "C" {
    fn syscall(n: i64, ...) -> i64;
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, ts: *mut Timespec) -> i32 {
    if !ARMED.load(Relaxed) {
        return syscall(SYS_CLOCK_GETTIME, id as i64, ts) as i32;
    }
    let n = READS.fetch_add(1, Relaxed) + 1;
    if n == JUMP_AT.load(Relaxed) {
        NOW.fetch_add(JUMP, Relaxed);
    }
    (*ts).sec = NOW.load(Relaxed);
    (*ts).nsec = 0;
    0
}

/// Start virtual time.
pub fn arm() {
    NOW.store(1_000_000, Relaxed);
    READS.store(0, Relaxed);
    JUMP_AT.store(u64::MAX, Relaxed);
    ARMED.store(true, Relaxed);
}
pub fn disarm() {
    ARMED.store(false, Relaxed);
}
/// Reads of the clock since `arm`, those made by `deadline` left out.
pub fn reads() -> u64 {
    READS.load(Relaxed)
}
/// Time passes every deadline handed out so far at the `n`th read (counted from 1) from now on.
pub fn jump_at(n: Option<u64>) {
    JUMP_AT.store(n.map(|n| READS.load(Relaxed) + n).unwrap_or(u64::MAX), Relaxed);
}
/// Time passes every deadline handed out so far right now.
pub fn jump() {
    NOW.fetch_add(JUMP, Relaxed);
}
/// A deadline at the end of a new time slice.
pub fn deadline() -> Instant {
    let (r, j) = (READS.load(Relaxed), JUMP_AT.load(Relaxed));
    JUMP_AT.store(u64::MAX, Relaxed);
    let d = Instant::now() + Duration::from_secs(SLICE as u64);
    READS.store(r, Relaxed);
    JUMP_AT.store(j, Relaxed);
    d
}
/// Is the clock really the one the engine reads?
pub fn works() -> bool {
    arm();
    let a = Instant::now();
    jump();
    let b = Instant::now();
    disarm();
    b.duration_since(a) == Duration::from_secs(JUMP as u64)
}
