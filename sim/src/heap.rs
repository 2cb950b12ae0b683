//! Simulated heap: counts live and peak bytes of the current thread, and on
//! request follows every block from allocation to release.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::collections::HashMap;

pub struct Heap;

thread_local! {
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
    static OFF: Cell<bool> = const { Cell::new(false) };
    static LEDGER: Cell<*mut Ledger> = const { Cell::new(std::ptr::null_mut()) };
}

/// Run simulator bookkeeping without counting its allocations.
pub fn quiet<T>(f: impl FnOnce() -> T) -> T {
    struct Restore(bool);
    impl Drop for Restore {
        fn drop(&mut self) {
            OFF.with(|v| v.set(self.0));
        }
    }
    let _restore = Restore(OFF.with(|v| v.replace(true)));
    f()
}

/// Count the allocations of code under test called from within `quiet()`.
pub fn loud<T>(f: impl FnOnce() -> T) -> T {
    struct Restore(bool);
    impl Drop for Restore {
        fn drop(&mut self) {
            OFF.with(|v| v.set(self.0));
        }
    }
    let _restore = Restore(OFF.with(|v| v.replace(false)));
    f()
}

/// Refuse to let one execution take more than this.
const CAP: isize = 3 << 30;

fn add(n: isize) -> bool {
    if OFF.try_with(|v| v.get()).unwrap_or(true) {
        return true;
    }
    LIVE.try_with(|l| {
        let v = l.get() + n;
        if n > 0 && v > CAP {
            return false;
        }
        l.set(v);
        let _ = PEAK.try_with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
        true
    })
    .unwrap_or(true)
}

/// Every block handed out while following, and those taken back. The latter
/// are poisoned and kept, so late uses are noticed.
#[derive(Default)]
struct Ledger {
    live: HashMap<usize, Layout>,
    dead: HashMap<usize, Layout>,
    total: u64,
    error: Option<String>,
}

const FRESH: u8 = 0xcd;
const POISON: u8 = 0xdd;

impl Ledger {
    fn fail(&mut self, s: String) {
        self.error.get_or_insert(s);
    }
    /// Take back a block; returns whether it was one of those followed.
    fn release(&mut self, p: *mut u8, l: Layout) -> bool {
        if let Some(k) = self.live.remove(&(p as usize)) {
            if k != l {
                self.fail(format!("block of {} bytes aligned to {} released as {} aligned to {}", k.size(), k.align(), l.size(), l.align()));
            }
            // SAFETY: still allocated with layout `k`.
            unsafe { p.write_bytes(POISON, k.size()) };
            self.dead.insert(p as usize, k);
            return true;
        }
        if self.dead.contains_key(&(p as usize)) {
            self.fail(format!("block of {} bytes released again", l.size()));
            return true;
        }
        false
    }
}

impl Ledger {
    /// Give up the blocks kept, and tell what went wrong.
    fn close(mut self) -> (u64, Option<String>) {
        if let Some(l) = self.live.values().map(|l| l.size()).max() {
            let s = format!("{} blocks never released, the largest of {l} bytes", self.live.len());
            self.fail(s);
        }
        let mut stale = None;
        for (p, l) in &self.dead {
            // SAFETY: kept allocated, with this layout.
            unsafe {
                let s = std::slice::from_raw_parts(*p as *const u8, l.size());
                if s.iter().any(|b| *b != POISON) {
                    stale = stale.max(Some(l.size()));
                }
                System.dealloc(*p as *mut u8, *l);
            }
        }
        if let Some(n) = stale {
            self.fail(format!("block of {n} bytes written after its release"));
        }
        (self.total, self.error)
    }
}

/// Access the ledger, if one is kept, without counting its own allocations.
fn ledger<T>(f: impl FnOnce(&mut Ledger) -> T) -> Option<T> {
    let p = LEDGER.try_with(|v| v.get()).unwrap_or(std::ptr::null_mut());
    if p.is_null() {
        return None;
    }
    // SAFETY: set by `follow()` on this thread; not accessed recursively since
    // nothing in here is counted or followed.
    Some(quiet_alloc(|| f(unsafe { &mut *p })))
}

fn quiet_alloc<T>(f: impl FnOnce() -> T) -> T {
    let old = LEDGER.with(|v| v.replace(std::ptr::null_mut()));
    let r = quiet(f);
    LEDGER.with(|v| v.set(old));
    r
}

fn counted() -> bool {
    !OFF.try_with(|v| v.get()).unwrap_or(true)
}

unsafe impl GlobalAlloc for Heap {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !add(l.size() as isize) {
            return core::ptr::null_mut();
        }
        let p = unsafe { System.alloc(l) };
        if counted() && !p.is_null() {
            ledger(|v| {
                // SAFETY: just allocated.
                unsafe { p.write_bytes(FRESH, l.size()) };
                v.total += 1;
                v.live.insert(p as usize, l);
            });
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !add(l.size() as isize) {
            return core::ptr::null_mut();
        }
        let p = unsafe { System.alloc_zeroed(l) };
        if counted() && !p.is_null() {
            ledger(|v| {
                v.total += 1;
                v.live.insert(p as usize, l);
            });
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as isize));
        if ledger(|v| v.release(p, l)) == Some(true) {
            return;
        }
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if ledger(|v| v.live.contains_key(&(p as usize)) || v.dead.contains_key(&(p as usize))) == Some(true) {
            // Always move, so references into the old block are stale.
            // SAFETY: same alignment, and sizes are valid for reallocation.
            unsafe {
                let q = self.alloc(Layout::from_size_align_unchecked(n, l.align()));
                if !q.is_null() {
                    q.copy_from_nonoverlapping(p, n.min(l.size()));
                    self.dealloc(p, l);
                }
                return q;
            }
        }
        if !add(n as isize - l.size() as isize) {
            return core::ptr::null_mut();
        }
        unsafe { System.realloc(p, l, n) }
    }
}

/// Start a measurement; returns the current live count.
pub fn begin() -> isize {
    let v = LIVE.with(|l| l.get());
    PEAK.with(|p| p.set(v));
    v
}

/// Peak bytes allocated on top of `base` since `begin()`.
pub fn peak(base: isize) -> usize {
    (PEAK.with(|p| p.get()) - base).max(0) as usize
}

/// Bytes currently allocated on top of `base`.
pub fn live(base: isize) -> isize {
    LIVE.with(|l| l.get()) - base
}

/// Follow all blocks allocated by `f`, which must be released when it
/// returns. Returns its result, the number of blocks, and what went wrong.
pub fn follow<T>(f: impl FnOnce() -> T) -> (T, u64, Option<String>) {
    let p = quiet(|| Box::into_raw(Box::<Ledger>::default()));
    LEDGER.with(|v| v.set(p));
    struct Stop;
    impl Drop for Stop {
        fn drop(&mut self) {
            // Panics leave the ledger behind; the run has failed by then.
            LEDGER.with(|v| v.set(std::ptr::null_mut()));
        }
    }
    let stop = Stop;
    let r = f();
    drop(stop);
    // SAFETY: allocated above, no longer referenced.
    let v = unsafe { Box::from_raw(p) };
    let (total, error) = quiet(|| v.close());
    (r, total, error)
}
