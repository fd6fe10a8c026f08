//! Global allocator: counts per thread when armed (C16); electric-fence mode (C11).
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static ARMED: Cell<bool> = const { Cell::new(false) };
    static FENCE: Cell<bool> = const { Cell::new(false) };
    static ALLOCS: Cell<u64> = const { Cell::new(0) };
    static FREES: Cell<u64> = const { Cell::new(0) };
    static BYTES: Cell<u64> = const { Cell::new(0) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
}
extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn munmap(addr: *mut u8, len: usize) -> i32;
    fn mprotect(addr: *mut u8, len: usize, prot: i32) -> i32;
}
pub const PAGE: usize = 4096;
/// Map `bytes` bytes (rounded up to pages) with an inaccessible page on either side; returns the first usable byte.
pub unsafe fn map_guarded(bytes: usize) -> (*mut u8, usize) {
    let body = (bytes + PAGE - 1) / PAGE * PAGE;
    let body = body.max(PAGE);
    let p = mmap(std::ptr::null_mut(), body + 2 * PAGE, 0, 0x22, -1, 0);
    if p as isize == -1 {
        return (std::ptr::null_mut(), 0);
    }
    mprotect(p.add(PAGE), body, 3);
    (p.add(PAGE), body)
}
pub unsafe fn protect(first: *mut u8, body: usize, writable: bool) {
    mprotect(first, body, if writable { 3 } else { 1 });
}
pub unsafe fn unmap_guarded(first: *mut u8, body: usize) {
    munmap(first.sub(PAGE), body + 2 * PAGE);
}

/// Fenced blocks live in a reserved address range so that dealloc can recognise them.
/// (A header at the start of the mapped body stores nothing; the layout gives the size.)
pub struct Counting;
use std::sync::atomic::{AtomicUsize, Ordering};
const REGION: usize = 1 << 38; // 256 GB of address space, reserved lazily
static BASE: AtomicUsize = AtomicUsize::new(0);
static NEXT: AtomicUsize = AtomicUsize::new(0);

unsafe fn fence_alloc(l: Layout) -> *mut u8 {
    let mut base = BASE.load(Ordering::SeqCst);
    if base == 0 {
        // MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, PROT_NONE
        let p = mmap(std::ptr::null_mut(), REGION, 0, 0x4022, -1, 0);
        if p as isize == -1 {
            return System.alloc(l);
        }
        match BASE.compare_exchange(0, p as usize, Ordering::SeqCst, Ordering::SeqCst) {
            Ok(_) => base = p as usize,
            Err(b) => {
                munmap(p, REGION);
                base = b
            }
        }
    }
    let body = (l.size() + PAGE - 1) / PAGE * PAGE;
    let total = body + PAGE; // one PROT_NONE page after each block
    let off = NEXT.fetch_add(total, Ordering::SeqCst);
    if off + total > REGION {
        return System.alloc(l);
    }
    let p = (base + off) as *mut u8;
    mprotect(p, body, 3);
    // flush against the trailing guard page, as far as alignment allows
    let start = (p as usize + body - l.size()) & !(l.align() - 1);
    start as *mut u8
}
fn fenced(p: *mut u8) -> bool {
    let b = BASE.load(Ordering::Relaxed);
    b != 0 && (p as usize) >= b && (p as usize) < b + REGION
}
unsafe fn fence_free(p: *mut u8, l: Layout) {
    let first = (p as usize) & !(PAGE - 1);
    let body = (l.size() + PAGE - 1) / PAGE * PAGE;
    // never reused: a later access faults; give the pages back
    munmap_to_none(first as *mut u8, body);
}
unsafe fn munmap_to_none(p: *mut u8, len: usize) {
    // MAP_FIXED|MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE
    mmap(p, len, 0, 0x4032, -1, 0);
}

/// New and released memory holds all ones (NaN as floating point), so that reads of what nobody wrote show.
#[inline]
unsafe fn poison(p: *mut u8, l: Layout) {
    if !p.is_null() {
        std::ptr::write_bytes(p, 0xff, l.size());
    }
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if ARMED.try_with(|a| a.get()).unwrap_or(false) {
            ALLOCS.with(|c| c.set(c.get() + 1));
            BYTES.with(|c| c.set(c.get() + l.size() as u64));
            let v = LIVE.with(|c| c.get()) + l.size() as i64;
            LIVE.with(|c| c.set(v));
            PEAK.with(|c| c.set(c.get().max(v)));
        }
        if FENCE.try_with(|a| a.get()).unwrap_or(false) && l.align() <= PAGE {
            let p = fence_alloc(l);
            poison(p, l);
            return p;
        }
        let p = System.alloc(l);
        poison(p, l);
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if ARMED.try_with(|a| a.get()).unwrap_or(false) {
            FREES.with(|c| c.set(c.get() + 1));
            LIVE.with(|c| c.set(c.get() - l.size() as i64));
        }
        if fenced(p) {
            return fence_free(p, l);
        }
        poison(p, l);
        System.dealloc(p, l)
    }
    // alloc_zeroed and realloc use the default implementations, which go through alloc/dealloc
}
#[global_allocator]
static G: Counting = Counting;

/// (allocations, frees, bytes) made by f on this thread
pub fn count<R>(f: impl FnOnce() -> R) -> (R, u64, u64, u64) {
    struct D;
    impl Drop for D {
        fn drop(&mut self) {
            ARMED.with(|a| a.set(false));
        }
    }
    ALLOCS.with(|c| c.set(0));
    FREES.with(|c| c.set(0));
    BYTES.with(|c| c.set(0));
    let d = D;
    ARMED.with(|a| a.set(true));
    let r = f();
    drop(d);
    (r, ALLOCS.with(|c| c.get()), FREES.with(|c| c.get()), BYTES.with(|c| c.get()))
}
/// Run f with every heap allocation of this thread fenced.
pub fn with_fence<R>(f: impl FnOnce() -> R) -> R {
    struct D;
    impl Drop for D {
        fn drop(&mut self) {
            FENCE.with(|a| a.set(false));
        }
    }
    let d = D;
    FENCE.with(|a| a.set(true));
    let r = f();
    drop(d);
    r
}

/// Bytes held by what f allocated and did not free (negative: it freed older blocks), and the most it held meanwhile.
pub fn held<R>(f: impl FnOnce() -> R) -> (R, i64, i64) {
    struct D(bool);
    impl Drop for D {
        fn drop(&mut self) {
            ARMED.with(|a| a.set(self.0));
        }
    }
    let (l0, p0) = (LIVE.with(|c| c.get()), PEAK.with(|c| c.get()));
    PEAK.with(|c| c.set(l0));
    let d = D(ARMED.with(|a| a.replace(true)));
    let r = f();
    drop(d);
    let (l, p) = (LIVE.with(|c| c.get()), PEAK.with(|c| c.get()));
    PEAK.with(|c| c.set(p0.max(p)));
    (r, l - l0, p - l0)
}
