//! Global allocator with an observation window.
//!
//! * counts allocations and can make the k-th one (or all from the k-th on) fail;
//! * in a window: records every block, poisons and quarantines freed blocks, detects double frees,
//!   frees with a wrong layout, writes after free, and leaks;
//! * always: refuses requests above a size cap, so that a runaway request is an allocation failure
//!   and not a dead sandbox.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicUsize, Ordering};

const REQUEST_CAP: usize = 1 << 30;
const LIVE_CAP: usize = 3 << 30;
const POISON: u8 = 0xEB;
const TABLE: usize = 1 << 15;

static LIVE: AtomicUsize = AtomicUsize::new(0);

#[derive(Clone, Copy)]
struct Entry {
    ptr: usize,
    size: usize,
    align: usize,
    live: bool,
}

struct State {
    exempt: Cell<u32>,
    armed: Cell<bool>,
    count: Cell<u64>,
    bytes: Cell<u64>,
    fail_at: Cell<u64>,
    sticky: Cell<bool>,
    failed: Cell<u64>,
    window: Cell<bool>,
    overflow: Cell<bool>,
    table: Cell<*mut Entry>,
    len: Cell<usize>,
    double_free: Cell<u64>,
    bad_layout: Cell<u64>,
}

thread_local! {
    static S: State = const { State {
        exempt: Cell::new(0), armed: Cell::new(false), count: Cell::new(0), bytes: Cell::new(0),
        fail_at: Cell::new(u64::MAX), sticky: Cell::new(false), failed: Cell::new(0),
        window: Cell::new(false), overflow: Cell::new(false), table: Cell::new(std::ptr::null_mut()), len: Cell::new(0),
        double_free: Cell::new(0), bad_layout: Cell::new(0),
    } };
}

pub struct Tracking;

unsafe fn sys_alloc(l: Layout, zero: bool) -> *mut u8 {
    if l.size() > REQUEST_CAP || LIVE.load(Ordering::Relaxed) + l.size() > LIVE_CAP {
        return std::ptr::null_mut();
    }
    let p = unsafe { if zero { System.alloc_zeroed(l) } else { System.alloc(l) } };
    if !p.is_null() {
        LIVE.fetch_add(l.size(), Ordering::Relaxed);
    }
    p
}
unsafe fn sys_free(p: *mut u8, l: Layout) {
    LIVE.fetch_sub(l.size(), Ordering::Relaxed);
    unsafe { System.dealloc(p, l) }
}

impl State {
    /// Whether this request has to fail.
    fn admit(&self, size: usize) -> bool {
        if self.exempt.get() > 0 || !self.armed.get() {
            return true;
        }
        let k = self.count.get();
        self.count.set(k + 1);
        self.bytes.set(self.bytes.get() + size as u64);
        let f = self.fail_at.get();
        if k == f || (self.sticky.get() && k >= f) {
            self.failed.set(self.failed.get() + 1);
            return false;
        }
        true
    }
    unsafe fn record(&self, p: *mut u8, l: Layout) {
        if !self.window.get() || self.exempt.get() > 0 || p.is_null() {
            return;
        }
        let n = self.len.get();
        if n >= TABLE {
            self.overflow.set(true);
            return;
        }
        unsafe {
            *self.table.get().add(n) = Entry {
                ptr: p as usize,
                size: l.size(),
                align: l.align(),
                live: true,
            };
        }
        self.len.set(n + 1);
    }
    /// True: the block is (or was) recorded and has been dealt with.
    unsafe fn release(&self, p: *mut u8, l: Layout) -> bool {
        if !self.window.get() {
            return false;
        }
        let n = self.len.get();
        for i in (0..n).rev() {
            let e = unsafe { &mut *self.table.get().add(i) };
            if e.ptr == p as usize {
                if !e.live {
                    self.double_free.set(self.double_free.get() + 1);
                    return true;
                }
                if e.size != l.size() || e.align != l.align() {
                    self.bad_layout.set(self.bad_layout.get() + 1);
                }
                e.live = false;
                unsafe { std::ptr::write_bytes(p, POISON, e.size) };
                return true;
            }
        }
        false
    }
}

unsafe impl GlobalAlloc for Tracking {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        S.with(|s| {
            if !s.admit(l.size()) {
                return std::ptr::null_mut();
            }
            unsafe {
                let p = sys_alloc(l, false);
                s.record(p, l);
                p
            }
        })
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        S.with(|s| {
            if !s.admit(l.size()) {
                return std::ptr::null_mut();
            }
            unsafe {
                let p = sys_alloc(l, true);
                s.record(p, l);
                p
            }
        })
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        S.with(|s| unsafe {
            if !s.release(p, l) {
                sys_free(p, l);
            }
        })
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        S.with(|s| {
            // Shrinking in place can fail like any request: an allocator may have to move the block.
            if !s.admit(new) {
                return std::ptr::null_mut();
            }
            unsafe {
                let nl = Layout::from_size_align_unchecked(new, l.align());
                let q = sys_alloc(nl, false);
                if q.is_null() {
                    return q;
                }
                s.record(q, nl);
                std::ptr::copy_nonoverlapping(p, q, l.size().min(new));
                if !s.release(p, l) {
                    sys_free(p, l);
                }
                q
            }
        })
    }
}

/// Allocations of the harness itself are not counted, failed or recorded.
pub fn exempt<T>(f: impl FnOnce() -> T) -> T {
    struct G;
    impl Drop for G {
        fn drop(&mut self) {
            S.with(|s| s.exempt.set(s.exempt.get() - 1));
        }
    }
    S.with(|s| s.exempt.set(s.exempt.get() + 1));
    let _g = G;
    f()
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Count {
    pub allocations: u64,
    pub bytes: u64,
    pub failed: u64,
}

/// Runs `f` counting allocations, failing the `fail_at`-th (and with `sticky` all later ones).
pub fn counted<T>(fail_at: Option<u64>, sticky: bool, f: impl FnOnce() -> T) -> (T, Count) {
    S.with(|s| {
        s.count.set(0);
        s.bytes.set(0);
        s.failed.set(0);
        s.fail_at.set(fail_at.unwrap_or(u64::MAX));
        s.sticky.set(sticky);
        s.armed.set(true);
    });
    struct G;
    impl Drop for G {
        fn drop(&mut self) {
            S.with(|s| s.armed.set(false));
        }
    }
    let g = G;
    let r = f();
    drop(g);
    let c = S.with(|s| Count {
        allocations: s.count.get(),
        bytes: s.bytes.get(),
        failed: s.failed.get(),
    });
    (r, c)
}

/// Allocations made so far by the innermost `counted`.
pub fn count_now() -> u64 {
    S.with(|s| s.count.get())
}

#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct WindowReport {
    pub leaked: u64,
    pub leaked_bytes: u64,
    pub double_free: u64,
    pub bad_layout: u64,
    pub write_after_free: u64,
    pub allocations: u64,
    pub overflow: bool,
}
impl WindowReport {
    pub fn clean(&self) -> bool {
        self.leaked == 0
            && self.double_free == 0
            && self.bad_layout == 0
            && self.write_after_free == 0
            && !self.overflow
    }
}

/// Opens a window; blocks allocated from here on are tracked.
pub fn window_open() {
    S.with(|s| {
        if s.table.get().is_null() {
            let l = Layout::array::<Entry>(TABLE).unwrap();
            // Never freed: one table per thread.
            let t = unsafe { System.alloc(l) };
            assert!(!t.is_null(), "engine: no memory for the block table");
            s.table.set(t.cast());
        }
        s.len.set(0);
        s.double_free.set(0);
        s.bad_layout.set(0);
        s.overflow.set(false);
        s.window.set(true);
    });
}

/// Number of live blocks in the open window.
pub fn window_live() -> u64 {
    S.with(|s| {
        (0..s.len.get())
            .filter(|&i| unsafe { (*s.table.get().add(i)).live })
            .count() as u64
    })
}

/// Whether `p` points into a block that was freed in the open window.
pub fn window_is_freed(p: *const u8) -> bool {
    S.with(|s| {
        if !s.window.get() {
            return false;
        }
        (0..s.len.get()).rev().any(|i| {
            let e = unsafe { *s.table.get().add(i) };
            !e.live && (p as usize) >= e.ptr && (p as usize) < e.ptr + e.size.max(1)
        })
    })
}

/// How many blocks were allocated in the open window so far.
pub fn window_mark() -> usize {
    S.with(|s| s.len.get())
}
/// The number of the live block of the open window that holds `size` bytes at `p`.
pub fn window_block(p: *const u8, size: usize) -> Option<usize> {
    S.with(|s| {
        (0..s.len.get()).rev().find(|&i| {
            let e = unsafe { *s.table.get().add(i) };
            e.live && (p as usize) >= e.ptr && (p as usize) + size <= e.ptr + e.size
        })
    })
}

pub fn window_close() -> WindowReport {
    S.with(|s| {
        let mut r = WindowReport::default();
        if !s.window.get() {
            return r;
        }
        s.window.set(false);
        r.double_free = s.double_free.get();
        r.bad_layout = s.bad_layout.get();
        r.overflow = s.overflow.get();
        r.allocations = s.len.get() as u64;
        for i in 0..s.len.get() {
            let e = unsafe { *s.table.get().add(i) };
            if e.live {
                r.leaked += 1;
                r.leaked_bytes += e.size as u64;
            } else {
                let b = unsafe { std::slice::from_raw_parts(e.ptr as *const u8, e.size) };
                if b.iter().any(|&x| x != POISON) {
                    r.write_after_free += 1;
                }
                unsafe {
                    sys_free(
                        e.ptr as *mut u8,
                        Layout::from_size_align_unchecked(e.size, e.align),
                    )
                };
            }
        }
        s.len.set(0);
        r
    })
}

/// Between executions.
pub fn reset() {
    S.with(|s| {
        s.armed.set(false);
        s.exempt.set(0);
    });
    window_close();
}

#[global_allocator]
static GLOBAL: Tracking = Tracking;
