//! Allocation seams. Rust allocations are counted (leak accounting) and are preemption points;
//! native (C) allocations are counted and can be made to fail.
use simcore::interpose::{in_sim, yield_point};
use std::alloc::{GlobalAlloc, Layout};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering::Relaxed};

extern "C" {
    fn __real_malloc(n: usize) -> *mut u8;
    fn __real_calloc(a: usize, b: usize) -> *mut u8;
    fn __real_realloc(p: *mut u8, n: usize) -> *mut u8;
    fn __real_free(p: *mut u8);
    fn __real_posix_memalign(p: *mut *mut u8, a: usize, n: usize) -> i32;
    fn __real_memalign(a: usize, n: usize) -> *mut u8;
    fn malloc_usable_size(p: *mut u8) -> usize;
}

pub static RUST_LIVE: AtomicI64 = AtomicI64::new(0);
pub static RUST_COUNT: AtomicI64 = AtomicI64::new(0);
pub static RUST_MAX: AtomicU64 = AtomicU64::new(0);
pub static TRACK: AtomicBool = AtomicBool::new(false);

/// What a single allocation above HUGE bytes means: 0 nothing, 1 leave the run out, 2 a violation,
/// 3 leave the run out, but only above four times as many bytes.
pub static HUGE_MODE: AtomicU64 = AtomicU64::new(0);
pub const HUGE: usize = 768 << 20;

#[inline]
fn huge(n: usize) {
    if n > HUGE && HUGE_MODE.load(Relaxed) != 0 && (HUGE_MODE.load(Relaxed) != 3 || n > HUGE * 4) {
        simcore::raw::exit_now(if HUGE_MODE.load(Relaxed) == 2 { crate::sched::EXIT_HUGE } else { crate::sched::EXIT_SKIP });
    }
}

pub struct Alloc;

fn note(n: i64, c: i64) {
    if TRACK.load(Relaxed) && !in_sim() {
        RUST_LIVE.fetch_add(n, Relaxed);
        RUST_COUNT.fetch_add(c, Relaxed);
        if n > 0 {
            RUST_MAX.fetch_max(n as u64, Relaxed);
        }
    }
}

unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        yield_point(20);
        huge(l.size());
        note(l.size() as i64, 1);
        if l.align() <= 16 {
            __real_malloc(l.size())
        } else {
            let mut p = std::ptr::null_mut();
            if __real_posix_memalign(&mut p, l.align(), l.size()) != 0 {
                return std::ptr::null_mut();
            }
            p
        }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if l.align() <= 16 {
            yield_point(20);
            huge(l.size());
            note(l.size() as i64, 1);
            __real_calloc(l.size(), 1)
        } else {
            let p = self.alloc(l);
            if !p.is_null() {
                std::ptr::write_bytes(p, 0, l.size());
            }
            p
        }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        note(-(l.size() as i64), -1);
        __real_free(p)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if l.align() <= 16 {
            huge(n);
            note(n as i64 - l.size() as i64, 0);
            __real_realloc(p, n)
        } else {
            let q = self.alloc(Layout::from_size_align_unchecked(n, l.align()));
            if !q.is_null() {
                std::ptr::copy_nonoverlapping(p, q, n.min(l.size()));
                self.dealloc(p, l);
            }
            q
        }
    }
}

#[global_allocator]
static GLOBAL: Alloc = Alloc;

// ---- native side ----
pub static N_CALLS: AtomicU64 = AtomicU64::new(0);
pub static N_LIVE: AtomicI64 = AtomicI64::new(0);
pub static N_BYTES: AtomicI64 = AtomicI64::new(0);
pub static N_FAILED: AtomicU64 = AtomicU64::new(0);
/// fail calls whose number is listed (sorted)
static mut FAIL_AT: Vec<u64> = Vec::new();
/// from this call on, everything fails
static FAIL_FROM: AtomicU64 = AtomicU64::new(u64::MAX);
static ARMED: AtomicBool = AtomicBool::new(false);

pub fn native_arm(at: Vec<u64>, from: Option<u64>) {
    N_CALLS.store(0, Relaxed);
    N_FAILED.store(0, Relaxed);
    unsafe { *std::ptr::addr_of_mut!(FAIL_AT) = at };
    FAIL_FROM.store(from.unwrap_or(u64::MAX), Relaxed);
    ARMED.store(true, Relaxed);
}
pub fn native_disarm() -> (u64, u64) {
    ARMED.store(false, Relaxed);
    (N_CALLS.load(Relaxed), N_FAILED.load(Relaxed))
}

/// The native library itself misbehaves when this allocation fails (see known_findings.txt, C13).
pub static SPARE_KNOWN: AtomicBool = AtomicBool::new(true);
pub static SPARED: AtomicU64 = AtomicU64::new(0);

extern "C" {
    fn VP8LHuffmanTablesAllocate(size: i32, t: *mut u8) -> i32;
    fn _Unwind_Backtrace(f: extern "C" fn(*mut u8, *mut u8) -> i32, arg: *mut u8) -> i32;
    fn _Unwind_GetIP(ctx: *mut u8) -> usize;
    fn _Unwind_FindEnclosingFunction(pc: *mut u8) -> *mut u8;
}

extern "C" fn frame(ctx: *mut u8, arg: *mut u8) -> i32 {
    unsafe {
        let s = &mut *(arg as *mut (u32, bool));
        s.0 += 1;
        let pc = _Unwind_GetIP(ctx).wrapping_sub(1) as *mut u8;
        if _Unwind_FindEnclosingFunction(pc) as usize == VP8LHuffmanTablesAllocate as *const () as usize {
            s.1 = true;
        }
        if s.0 > 8 || s.1 {
            4
        } else {
            0
        }
    }
}
/// The table for the code lengths (128 entries of 4 bytes) of the lossless WebP decoder.
fn known_site(n: usize) -> bool {
    if n != 512 {
        return false;
    }
    let mut s = (0u32, false);
    unsafe { _Unwind_Backtrace(frame, &mut s as *mut _ as *mut u8) };
    s.1
}

fn native_fails(size: usize) -> bool {
    yield_point(21);
    let n = N_CALLS.fetch_add(1, Relaxed);
    if ARMED.load(Relaxed) {
        let f = n >= FAIL_FROM.load(Relaxed) || unsafe { (*std::ptr::addr_of!(FAIL_AT)).contains(&n) };
        if f && SPARE_KNOWN.load(Relaxed) && known_site(size) {
            SPARED.fetch_add(1, Relaxed);
            return false;
        }
        if f {
            N_FAILED.fetch_add(1, Relaxed);
            return true;
        }
    }
    false
}
unsafe fn native_got(p: *mut u8) -> *mut u8 {
    if !p.is_null() {
        N_LIVE.fetch_add(1, Relaxed);
        N_BYTES.fetch_add(malloc_usable_size(p) as i64, Relaxed);
    }
    p
}

#[no_mangle]
pub unsafe extern "C" fn __wrap_malloc(n: usize) -> *mut u8 {
    if native_fails(n) {
        return std::ptr::null_mut();
    }
    huge(n);
    native_got(__real_malloc(n))
}
#[no_mangle]
pub unsafe extern "C" fn __wrap_calloc(a: usize, b: usize) -> *mut u8 {
    if native_fails(a.saturating_mul(b)) {
        return std::ptr::null_mut();
    }
    huge(a.saturating_mul(b));
    native_got(__real_calloc(a, b))
}
#[no_mangle]
pub unsafe extern "C" fn __wrap_realloc(p: *mut u8, n: usize) -> *mut u8 {
    if native_fails(n) {
        return std::ptr::null_mut();
    }
    if !p.is_null() {
        N_LIVE.fetch_sub(1, Relaxed);
        N_BYTES.fetch_sub(malloc_usable_size(p) as i64, Relaxed);
    }
    native_got(__real_realloc(p, n))
}
#[no_mangle]
pub unsafe extern "C" fn __wrap_free(p: *mut u8) {
    if !p.is_null() {
        N_LIVE.fetch_sub(1, Relaxed);
        N_BYTES.fetch_sub(malloc_usable_size(p) as i64, Relaxed);
    }
    __real_free(p)
}
#[no_mangle]
pub unsafe extern "C" fn __wrap_memalign(a: usize, n: usize) -> *mut u8 {
    if native_fails(n) {
        return std::ptr::null_mut();
    }
    native_got(__real_memalign(a, n))
}
#[no_mangle]
pub unsafe extern "C" fn __wrap_aligned_alloc(a: usize, n: usize) -> *mut u8 {
    __wrap_memalign(a, n)
}
#[no_mangle]
pub unsafe extern "C" fn __wrap_posix_memalign(p: *mut *mut u8, a: usize, n: usize) -> i32 {
    let q = __wrap_memalign(a, n);
    if q.is_null() {
        return libc::ENOMEM;
    }
    *p = q;
    0
}
