//! Counts what each thread allocates, so that a check can bound it.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Meter;

#[global_allocator]
static METER: Meter = Meter;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static CAP: Cell<i64> = const { Cell::new(i64::MAX) };
}

/// false: more than this thread may have
fn grow(n: i64) -> bool {
    LIVE.try_with(|l| {
        let v = l.get() + n;
        if n > 0 && v > CAP.try_with(|c| c.get()).unwrap_or(i64::MAX) {
            return false;
        }
        l.set(v);
        let _ = PEAK.try_with(|p| {
            if v > p.get() {
                p.set(v);
            }
        });
        true
    })
    .unwrap_or(true)
}

unsafe impl GlobalAlloc for Meter {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !grow(l.size() as i64) {
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !grow(l.size() as i64) {
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        grow(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if !grow(n as i64 - l.size() as i64) {
            return std::ptr::null_mut();
        }
        System.realloc(p, l, n)
    }
}

fn cpu() -> f64 {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut t) };
    t.tv_sec as f64 + t.tv_nsec as f64 / 1e9
}

pub struct Used {
    pub bytes: i64,
    pub seconds: f64,
}

/// Runs `f`, and says how much it had allocated at its peak and how long it computed. If
/// it allocates more than `cap` bytes the process ends, which counts as a failure.
pub fn measure<T>(cap: i64, f: impl FnOnce() -> T) -> (T, Used) {
    let base = LIVE.with(|l| l.get());
    PEAK.with(|p| p.set(base));
    CAP.with(|c| c.set(base + cap));
    let t = cpu();
    let r = f();
    let seconds = cpu() - t;
    CAP.with(|c| c.set(i64::MAX));
    let bytes = PEAK.with(|p| p.get()) - base;
    (r, Used { bytes, seconds })
}
