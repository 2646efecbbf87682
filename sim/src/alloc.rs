//! The memory seam: a global allocator that the simulator can tell to refuse every request.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering::Relaxed};

pub struct SimAlloc;
static REFUSE: AtomicBool = AtomicBool::new(false);
static REFUSED: AtomicU64 = AtomicU64::new(0);
static LIVE: AtomicI64 = AtomicI64::new(0);
fn got(p: *mut u8, n: usize) -> *mut u8 { if !p.is_null() { LIVE.fetch_add(n as i64, Relaxed); } p }

fn no() -> bool {
    // a panic already under way boxes its payload: that is the runtime's memory, not the library's
    if REFUSE.load(Relaxed) && !std::thread::panicking() { REFUSED.fetch_add(1, Relaxed); true } else { false }
}
unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { if no() { return std::ptr::null_mut() } got(System.alloc(l), l.size()) }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { if no() { return std::ptr::null_mut() } got(System.alloc_zeroed(l), l.size()) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size() as i64, Relaxed); System.dealloc(p, l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if no() { return std::ptr::null_mut() }
        let q = System.realloc(p, l, n);
        if !q.is_null() { LIVE.fetch_add(n as i64 - l.size() as i64, Relaxed); }
        q
    }
}
/// Marker carried by the unwinding that a refused allocation causes.
pub struct Refused;
pub fn install() {
    std::alloc::set_alloc_error_hook(|_| {
        REFUSE.store(false, Relaxed); // unwinding itself needs memory
        std::panic::resume_unwind(Box::new(Refused));
    });
}
pub fn refuse(on: bool) { REFUSE.store(on, Relaxed) }
/// bytes handed out and not yet given back
pub fn live() -> i64 { LIVE.load(Relaxed) }
pub fn refused() -> u64 { REFUSED.load(Relaxed) }
