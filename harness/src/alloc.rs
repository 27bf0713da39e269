//! The memory oracle: a global allocator that knows every block handed out while a case runs.
//! It reports blocks that are released twice, released with another layout than they were allocated
//! with, or never released. Fresh and released memory is poisoned, and released blocks are only
//! given back at the end of the case, so that reads of either are noticed (see tk.rs).
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::UnsafeCell;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};

pub struct Counting;
#[global_allocator]
static GLOBAL: Counting = Counting;

const CAP: usize = 1 << 18;
const HARD: usize = 1 << 30;
#[derive(Clone, Copy)]
struct Entry { ptr: usize, size: usize, align: u32, state: u32 } // 0 free, 1 live, 2 released
struct Table { e: UnsafeCell<[Entry; CAP]>, touched: UnsafeCell<[u32; CAP]>, n: UnsafeCell<usize> }
unsafe impl Sync for Table {}
static T: Table = Table {
    e: UnsafeCell::new([Entry { ptr: 0, size: 0, align: 0, state: 0 }; CAP]),
    touched: UnsafeCell::new([0; CAP]), n: UnsafeCell::new(0),
};
static ON: AtomicBool = AtomicBool::new(false);
static LIVE: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
static BAD_LAYOUT: AtomicUsize = AtomicUsize::new(0);
static DOUBLE: AtomicUsize = AtomicUsize::new(0);
static OVERFULL: AtomicBool = AtomicBool::new(false);

fn slot(ptr: usize) -> usize { (ptr >> 3).wrapping_mul(0x9E37_79B9_7F4A_7C15) >> (64 - 18) }
unsafe fn find(ptr: usize) -> Option<&'static mut Entry> { unsafe {
    let e = &mut *T.e.get();
    let mut i = slot(ptr);
    loop {
        if e[i].state == 0 { return None; }
        if e[i].ptr == ptr { return Some(&mut e[i]); }
        i = (i + 1) & (CAP - 1);
    }
} }
unsafe fn insert(ptr: usize, l: Layout) { unsafe {
    let e = &mut *T.e.get();
    let n = &mut *T.n.get();
    if *n >= CAP / 2 { OVERFULL.store(true, SeqCst); return; }
    let mut i = slot(ptr);
    while e[i].state != 0 && e[i].ptr != ptr { i = (i + 1) & (CAP - 1); }
    if e[i].state == 0 { (*T.touched.get())[*n] = i as u32; *n += 1; }
    e[i] = Entry { ptr, size: l.size(), align: l.align() as u32, state: 1 };
} }

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { unsafe {
        if !ON.load(SeqCst) { return System.alloc(l); }
        let live = LIVE.fetch_add(l.size(), SeqCst) + l.size();
        if live > HARD { return std::ptr::null_mut(); }
        PEAK.fetch_max(live, SeqCst);
        let p = System.alloc(l);
        if !p.is_null() {
            std::ptr::write_bytes(p, 0xA5, l.size().min(1 << 20));
            insert(p as usize, l);
        }
        p
    } }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { unsafe {
        if *T.n.get() > 0 {
            if let Some(e) = find(p as usize) {
                if e.state == 2 { DOUBLE.fetch_add(1, SeqCst); return; }
                if e.size != l.size() || e.align as usize != l.align() { BAD_LAYOUT.fetch_add(1, SeqCst); }
                LIVE.fetch_sub(e.size.min(LIVE.load(SeqCst)), SeqCst);
                std::ptr::write_bytes(p, 0xDD, e.size.min(1 << 20));
                e.state = 2;
                return;
            }
        }
        if OVERFULL.load(SeqCst) { LIVE.fetch_sub(l.size().min(LIVE.load(SeqCst)), SeqCst); }
        System.dealloc(p, l)
    } }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { unsafe {
        if !ON.load(SeqCst) { return System.alloc_zeroed(l); }
        let p = self.alloc(l);
        if !p.is_null() { std::ptr::write_bytes(p, 0, l.size()); }
        p
    } }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { unsafe {
        if !ON.load(SeqCst) && (*T.n.get() == 0 || find(p as usize).is_none()) { return System.realloc(p, l, n); }
        let nl = Layout::from_size_align_unchecked(n, l.align());
        let q = self.alloc(nl);
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
            self.dealloc(p, l);
        }
        q
    } }
}

#[derive(Debug, Clone, Default)]
pub struct Memory { pub leaked: usize, pub leaked_bytes: usize, pub double: usize, pub bad_layout: usize, pub peak: usize }
impl Memory { pub fn clean(&self) -> bool { self.leaked == 0 && self.double == 0 && self.bad_layout == 0 } }

/// run something with memory being watched
pub fn on<R>(f: impl FnOnce() -> R) -> R {
    struct G(bool);
    impl Drop for G { fn drop(&mut self) { ON.store(self.0, SeqCst); } }
    let _g = G(ON.swap(true, SeqCst));
    f()
}
/// ... but not this part of it
pub fn off<R>(f: impl FnOnce() -> R) -> R {
    struct G(bool);
    impl Drop for G { fn drop(&mut self) { ON.store(self.0, SeqCst); } }
    let _g = G(ON.swap(false, SeqCst));
    f()
}
/// the end of a case: what went wrong since the last one
pub fn settle() -> Memory { unsafe {
    assert!(!ON.load(SeqCst));
    let n = &mut *T.n.get();
    let e = &mut *T.e.get();
    let touched = &*T.touched.get();
    let mut m = Memory { double: DOUBLE.swap(0, SeqCst), bad_layout: BAD_LAYOUT.swap(0, SeqCst), peak: PEAK.swap(0, SeqCst), ..Default::default() };
    let count = *n;
    *n = 0; // from here on, the table is not consulted
    for &i in &touched[..count] {
        let x = e[i as usize];
        if x.state == 1 && !OVERFULL.load(SeqCst) { m.leaked += 1; m.leaked_bytes += x.size; }
        if x.state == 2 { System.dealloc(x.ptr as *mut u8, Layout::from_size_align_unchecked(x.size, x.align as usize)); }
        e[i as usize] = Entry { ptr: 0, size: 0, align: 0, state: 0 };
    }
    OVERFULL.store(false, SeqCst);
    LIVE.store(0, SeqCst);
    m
} }
