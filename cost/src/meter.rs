//! What is measured: basic blocks executed (the build inserts a call per
//! edge of the control flow, in the standard library too), bytes moved by
//! the libc functions that are not part of that, and heap use.

use std::alloc::{GlobalAlloc, Layout, System};

static mut WORK: u64 = 0;
static mut LIMIT: u64 = u64::MAX;
static mut TOTAL: u64 = 0;
static mut LIVE: i64 = 0;
static mut PEAK: i64 = 0;

#[no_mangle]
unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(_g: *mut u32) {
    WORK += 1;
    if WORK > LIMIT {
        over();
    }
}
#[no_mangle]
unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(_a: *mut u32, _b: *mut u32) {}

#[cold]
unsafe fn over() {
    extern "C" {
        fn write(fd: i32, p: *const u8, n: usize) -> isize;
        fn _exit(code: i32) -> !;
    }
    LIMIT = u64::MAX;
    let m = b"OVER\n";
    write(1, m.as_ptr(), m.len());
    _exit(0)
}

#[no_mangle]
unsafe extern "C" fn memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    WORK += 1 + (n as u64) / 16;
    std::arch::asm!("rep movsb", inout("rcx") n => _, inout("rdi") d => _, inout("rsi") s => _);
    d
}
#[no_mangle]
unsafe extern "C" fn memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    WORK += 1 + (n as u64) / 16;
    if (d as usize) <= (s as usize) || (d as usize) >= (s as usize) + n {
        std::arch::asm!("rep movsb", inout("rcx") n => _, inout("rdi") d => _, inout("rsi") s => _);
    } else {
        std::arch::asm!("std", "rep movsb", "cld",
            inout("rcx") n => _, inout("rdi") d.add(n).sub(1) => _,
            inout("rsi") s.add(n).sub(1) => _);
    }
    d
}
#[no_mangle]
unsafe extern "C" fn memset(d: *mut u8, c: i32, n: usize) -> *mut u8 {
    WORK += 1 + (n as u64) / 16;
    std::arch::asm!("rep stosb", inout("rcx") n => _, inout("rdi") d => _, in("al") c as u8);
    d
}
unsafe fn compare(a: *const u8, b: *const u8, n: usize) -> i32 {
    let mut i = 0;
    while i < n {
        let (x, y) = (std::ptr::read_volatile(a.add(i)), std::ptr::read_volatile(b.add(i)));
        if x != y {
            return x as i32 - y as i32;
        }
        i += 1;
    }
    0
}
#[no_mangle]
unsafe extern "C" fn memcmp(a: *const u8, b: *const u8, n: usize) -> i32 {
    compare(a, b, n)
}
#[no_mangle]
unsafe extern "C" fn bcmp(a: *const u8, b: *const u8, n: usize) -> i32 {
    compare(a, b, n)
}

pub struct Mon;

unsafe impl GlobalAlloc for Mon {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size());
        WORK += (l.size() as u64) / 16;
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE -= l.size() as i64;
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        // as if it always had to move
        LIVE -= l.size() as i64;
        add(n);
        System.realloc(p, l, n)
    }
}

unsafe fn add(n: usize) {
    TOTAL += n as u64;
    LIVE += n as i64;
    if LIVE > PEAK {
        PEAK = LIVE;
    }
}

#[global_allocator]
static GLOBAL: Mon = Mon;

#[derive(Clone, Copy, Debug, Default)]
pub struct Use {
    pub work: u64,
    pub bytes: u64,
    pub peak: u64,
}

/// Measure `f`; the process ends when it takes more than `limit`.
pub fn measure<T>(limit: u64, f: impl FnOnce() -> T) -> (T, Use) {
    unsafe {
        let (w, t, l) = (WORK, TOTAL, LIVE);
        PEAK = LIVE;
        LIMIT = w.saturating_add(limit);
        let r = f();
        LIMIT = u64::MAX;
        let u = Use {
            work: WORK - w,
            bytes: TOTAL - t,
            peak: (PEAK - l).max(0) as u64,
        };
        (r, u)
    }
}
