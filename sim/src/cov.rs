//! Edge callbacks of the instrumented crates: the step clock, the step budget, coverage and the
//! preemption points of the thread scheduler.
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::Relaxed};

static NGUARD: AtomicUsize = AtomicUsize::new(0);
pub const MAXG: usize = 1 << 16;
/// Steps taken by code under test, and the edges hit.
struct Map {
    steps: AtomicU64,
    hit: [u8; MAXG],
}
static mut OWN: Map = Map { steps: AtomicU64::new(0), hit: [0; MAXG] };
static mut MAP: *mut Map = std::ptr::addr_of_mut!(OWN);
/// From here on the map is shared with the children forked by this process.
pub fn share() {
    unsafe { MAP = crate::driver::shared::<Map>() }
}
/// step number at which `slow` runs next
static NEXT: AtomicU64 = AtomicU64::new(u64::MAX);
static LIMIT: AtomicU64 = AtomicU64::new(u64::MAX);
static PREEMPT: AtomicU64 = AtomicU64::new(u64::MAX);
static mut ON_LIMIT: Option<fn()> = None;
static mut ON_PREEMPT: Option<fn()> = None;

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(mut s: *mut u32, e: *mut u32) {
    if s == e || *s != 0 {
        return;
    }
    while s < e {
        let n = NGUARD.fetch_add(1, Relaxed) + 1;
        *s = n.min(MAXG - 1) as u32;
        s = s.add(1);
    }
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    let m = MAP;
    *(std::ptr::addr_of_mut!((*m).hit) as *mut u8).add(*g as usize) = 1;
    let s = (*m).steps.load(Relaxed) + 1;
    (*m).steps.store(s, Relaxed);
    if s >= NEXT.load(Relaxed) {
        slow(s);
    }
}

#[cold]
#[inline(never)]
fn slow(s: u64) {
    unsafe {
        if s >= LIMIT.load(Relaxed) {
            LIMIT.store(u64::MAX, Relaxed);
            if let Some(f) = ON_LIMIT {
                f()
            }
        }
        if s >= PREEMPT.load(Relaxed) {
            PREEMPT.store(u64::MAX, Relaxed);
            if let Some(f) = ON_PREEMPT {
                f()
            }
        }
    }
    rearm();
}

fn rearm() {
    NEXT.store(LIMIT.load(Relaxed).min(PREEMPT.load(Relaxed)), Relaxed);
}

pub fn steps() -> u64 {
    unsafe { (*MAP).steps.load(Relaxed) }
}
pub fn guards() -> usize {
    NGUARD.load(Relaxed)
}
/// Sets the budget: `f` runs when `n` more steps have been taken.
pub fn set_limit(n: Option<u64>, f: fn()) {
    unsafe { ON_LIMIT = Some(f) };
    LIMIT.store(n.map_or(u64::MAX, |n| steps() + n), Relaxed);
    rearm();
}
pub fn set_preempt(at: Option<u64>, f: fn()) {
    unsafe { ON_PREEMPT = Some(f) };
    PREEMPT.store(at.unwrap_or(u64::MAX), Relaxed);
    rearm();
}
pub fn clear() {
    LIMIT.store(u64::MAX, Relaxed);
    PREEMPT.store(u64::MAX, Relaxed);
    rearm();
}
pub fn reset_hits() {
    unsafe { std::ptr::write_bytes(std::ptr::addr_of_mut!((*MAP).hit) as *mut u8, 0, guards() + 1) }
}
/// Guards hit since the last reset.
pub fn hits() -> Vec<u32> {
    let n = guards().min(MAXG - 1);
    (1..=n as u32).filter(|&i| unsafe { *(std::ptr::addr_of!((*MAP).hit) as *const u8).add(i as usize) } != 0).collect()
}

// ---- loads and stores (only in the build variant that reports them)
extern "C" {
    static __data_start: u8;
    static _end: u8;
}
#[inline(always)]
fn touched(a: usize) {
    unsafe {
        let (lo, hi) = (std::ptr::addr_of!(__data_start) as usize, std::ptr::addr_of!(_end) as usize);
        if a.wrapping_sub(lo) < hi - lo {
            crate::sched::shared_access();
        }
    }
}
macro_rules! access {
    ($($f:ident)*) => { $( #[no_mangle] pub unsafe extern "C" fn $f(a: *const u8) { touched(a as usize) } )* };
}
access!(__sanitizer_cov_load1 __sanitizer_cov_load2 __sanitizer_cov_load4 __sanitizer_cov_load8 __sanitizer_cov_load16
        __sanitizer_cov_store1 __sanitizer_cov_store2 __sanitizer_cov_store4 __sanitizer_cov_store8 __sanitizer_cov_store16);
