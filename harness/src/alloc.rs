//! Instrumented global allocator: per-thread counters, a limit that turns
//! runaway allocation into an abort of the case, and a monitor of the
//! contents of blocks at the moment they are freed.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Mon;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static TOTAL: Cell<u64> = const { Cell::new(0) };
    static ALLOCS: Cell<u64> = const { Cell::new(0) };
    static LIMIT: Cell<i64> = const { Cell::new(i64::MAX) };
    static CLEAN: Cell<bool> = const { Cell::new(false) };
    static WATCH: Cell<bool> = const { Cell::new(false) };
    static FREED: Cell<u64> = const { Cell::new(0) };
    static SCANNED: Cell<u64> = const { Cell::new(0) };
    static NLEAK: Cell<usize> = const { Cell::new(0) };
    static LEAKS: Cell<[u32; 32]> = const { Cell::new([0; 32]) };
}

/// Every secret starts with this marker, followed by four hex digits.
pub const MARK: &[u8; 6] = b"qZ7xwV";

fn scan(ptr: *const u8, len: usize) {
    if len < MARK.len() {
        return;
    }
    // Safety: the block is still allocated, and initialised: see `clean`.
    let s = unsafe { std::slice::from_raw_parts(ptr, len) };
    let mut i = 0;
    while i + MARK.len() <= len {
        if s[i] == MARK[0] && &s[i..i + MARK.len()] == MARK {
            let mut id: u32 = 0;
            for k in 0..4 {
                let b = s.get(i + MARK.len() + k).copied().unwrap_or(b'0');
                id = id * 16 + (b as char).to_digit(16).unwrap_or(0);
            }
            let n = NLEAK.with(|c| {
                let n = c.get();
                c.set(n + 1);
                n
            });
            if n < 32 {
                LEAKS.with(|c| {
                    let mut a = c.get();
                    a[n] = id;
                    c.set(a)
                });
            }
        }
        i += 1;
    }
}

fn track(delta: i64) {
    let _ = LIVE.try_with(|c| {
        let v = c.get() + delta;
        c.set(v);
        let _ = PEAK.try_with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
    });
    if delta > 0 {
        let _ = TOTAL.try_with(|c| c.set(c.get() + delta as u64));
        let _ = ALLOCS.try_with(|c| c.set(c.get() + 1));
    }
}

fn over(delta: i64) -> bool {
    LIMIT
        .try_with(|l| {
            LIVE.try_with(|c| c.get() + delta > l.get())
                .unwrap_or(false)
        })
        .unwrap_or(false)
}

unsafe impl GlobalAlloc for Mon {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if over(l.size() as i64) {
            return std::ptr::null_mut();
        }
        let p = System.alloc(l);
        if !p.is_null() && CLEAN.try_with(|w| w.get()).unwrap_or(false) {
            std::ptr::write_bytes(p, 0, l.size());
        }
        if !p.is_null() {
            track(l.size() as i64);
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if WATCH.try_with(|w| w.get()).unwrap_or(false) {
            let _ = FREED.try_with(|c| c.set(c.get() + 1));
            let _ = SCANNED.try_with(|c| c.set(c.get() + l.size() as u64));
            // Blocks of bytes, which hold text. The parts of a struct that
            // are not in use hold whatever was on the stack before.
            if l.align() == 1 {
                scan(p, l.size());
            }
        }
        track(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if over(l.size() as i64) {
            return std::ptr::null_mut();
        }
        let p = System.alloc_zeroed(l);
        if !p.is_null() {
            track(l.size() as i64);
        }
        p
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if CLEAN.try_with(|w| w.get()).unwrap_or(false) {
            // always moved: a copy may stay behind in the old block, and
            // what is added holds nothing of earlier blocks
            let new = self.alloc(Layout::from_size_align_unchecked(n, l.align()));
            if !new.is_null() {
                std::ptr::copy_nonoverlapping(p, new, l.size().min(n));
                self.dealloc(p, l);
            }
            return new;
        }
        if over(n as i64 - l.size() as i64) {
            return std::ptr::null_mut();
        }
        let q = System.realloc(p, l, n);
        if !q.is_null() {
            track(n as i64);
            track(-(l.size() as i64));
        }
        q
    }
}

#[cfg(not(miri))]
#[global_allocator]
static GLOBAL: Mon = Mon;

/// Allocation counters of this thread.
#[derive(Clone, Copy, Debug, Default)]
pub struct Use {
    pub total: u64,
    pub allocs: u64,
    pub peak: i64,
}

/// Run `f` and measure what it allocates on this thread.
pub fn measure<T>(f: impl FnOnce() -> T) -> (T, Use) {
    let live = LIVE.with(|c| c.get());
    let total = TOTAL.with(|c| c.get());
    let allocs = ALLOCS.with(|c| c.get());
    let peak = PEAK.with(|c| c.replace(live));
    let r = f();
    let u = Use {
        total: TOTAL.with(|c| c.get()) - total,
        allocs: ALLOCS.with(|c| c.get()) - allocs,
        peak: PEAK.with(|c| c.get()) - live,
    };
    PEAK.with(|c| c.set(peak.max(c.get())));
    (r, u)
}

/// Fail allocations of this thread beyond `bytes` more than now.
pub fn set_limit(bytes: i64) {
    let live = LIVE.with(|c| c.get());
    LIMIT.with(|c| c.set(live.saturating_add(bytes)));
}

/// Result of watching the blocks freed by `f`.
#[derive(Clone, Debug, Default)]
pub struct Watched {
    pub blocks: u64,
    pub bytes: u64,
    pub leaks: Vec<u32>,
    pub count: usize,
}

/// New blocks of this thread hold zeros from now on, so that what is found
/// in a block was written to it.
pub fn clean() {
    CLEAN.with(|c| c.set(true));
}

/// Run `f`, scanning every heap block that this thread frees meanwhile.
pub fn watch(f: impl FnOnce()) -> Watched {
    clean();
    FREED.with(|c| c.set(0));
    SCANNED.with(|c| c.set(0));
    NLEAK.with(|c| c.set(0));
    WATCH.with(|c| c.set(true));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    WATCH.with(|c| c.set(false));
    let n = NLEAK.with(|c| c.get());
    let a = LEAKS.with(|c| c.get());
    let w = Watched {
        blocks: FREED.with(|c| c.get()),
        bytes: SCANNED.with(|c| c.get()),
        leaks: a[..n.min(32)].to_vec(),
        count: n,
    };
    if let Err(e) = r {
        std::panic::resume_unwind(e)
    }
    w
}
