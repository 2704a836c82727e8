//! The allocator seam: counts live and peak bytes, fails the k-th allocation, and decides what
//! fresh and freed memory contains.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, AtomicU8, Ordering::Relaxed};

pub struct Seam;
static ON: AtomicBool = AtomicBool::new(false);
static LIVE: AtomicI64 = AtomicI64::new(0);
static PEAK: AtomicI64 = AtomicI64::new(0);
static COUNT: AtomicU64 = AtomicU64::new(0);
static BLOCKS: AtomicI64 = AtomicI64::new(0);
static FAIL_AT: AtomicU64 = AtomicU64::new(u64::MAX);
/// every later allocation fails as well
static STICKY: AtomicBool = AtomicBool::new(false);
/// bytes that may be live at once
static LIMIT: AtomicI64 = AtomicI64::new(i64::MAX);
static FAILED: AtomicU64 = AtomicU64::new(0);
static FILL: AtomicU8 = AtomicU8::new(0);
static FILLING: AtomicBool = AtomicBool::new(false);

unsafe impl GlobalAlloc for Seam {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if ON.load(Relaxed) {
            let c = COUNT.fetch_add(1, Relaxed);
            if c >= FAIL_AT.load(Relaxed) {
                if !STICKY.load(Relaxed) {
                    FAIL_AT.store(u64::MAX, Relaxed);
                }
                FAILED.fetch_add(1, Relaxed);
                return std::ptr::null_mut();
            }
            if LIVE.load(Relaxed) + l.size() as i64 > LIMIT.load(Relaxed) {
                FAILED.fetch_add(1, Relaxed);
                return std::ptr::null_mut();
            }
            let live = LIVE.fetch_add(l.size() as i64, Relaxed) + l.size() as i64;
            BLOCKS.fetch_add(1, Relaxed);
            if live > PEAK.load(Relaxed) {
                PEAK.store(live, Relaxed);
            }
        }
        let p = System.alloc(l);
        if FILLING.load(Relaxed) && !p.is_null() {
            std::ptr::write_bytes(p, FILL.load(Relaxed), l.size());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if ON.load(Relaxed) {
            LIVE.fetch_sub(l.size() as i64, Relaxed);
            BLOCKS.fetch_sub(1, Relaxed);
        }
        if FILLING.load(Relaxed) {
            std::ptr::write_bytes(p, FILL.load(Relaxed) ^ 0x55, l.size());
        }
        System.dealloc(p, l)
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Usage {
    pub live: i64,
    pub blocks: i64,
    pub peak: i64,
    pub count: u64,
    pub failed: u64,
}

/// The same, with every later allocation failing too, or with a bound on live bytes.
pub fn start_with(fail_at: Option<u64>, sticky: bool, limit: i64) {
    start(fail_at);
    STICKY.store(sticky, Relaxed);
    LIMIT.store(limit, Relaxed);
}
pub fn start(fail_at: Option<u64>) {
    STICKY.store(false, Relaxed);
    LIMIT.store(i64::MAX, Relaxed);
    LIVE.store(0, Relaxed);
    PEAK.store(0, Relaxed);
    COUNT.store(0, Relaxed);
    BLOCKS.store(0, Relaxed);
    FAILED.store(0, Relaxed);
    FAIL_AT.store(fail_at.unwrap_or(u64::MAX), Relaxed);
    ON.store(true, Relaxed);
}
pub fn usage() -> Usage {
    Usage {
        live: LIVE.load(Relaxed),
        blocks: BLOCKS.load(Relaxed),
        peak: PEAK.load(Relaxed),
        count: COUNT.load(Relaxed),
        failed: FAILED.load(Relaxed),
    }
}
pub fn stop() -> Usage {
    ON.store(false, Relaxed);
    LIMIT.store(i64::MAX, Relaxed);
    FAIL_AT.store(u64::MAX, Relaxed);
    usage()
}
pub fn fill(b: Option<u8>) {
    FILL.store(b.unwrap_or(0), Relaxed);
    FILLING.store(b.is_some(), Relaxed);
}
