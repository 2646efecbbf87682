//! The few system calls the driver needs, declared by hand (no dependency beyond std).
use std::sync::atomic::AtomicU64;
#[repr(C)]
struct RLimit { cur: u64, max: u64 }
extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, opts: i32) -> i32;
    fn mmap(a: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn munmap(a: *mut u8, len: usize) -> i32;
    fn kill(pid: i32, sig: i32) -> i32;
    fn setrlimit(r: i32, l: *const RLimit) -> i32;
    fn _exit(c: i32) -> !;
    fn alarm(s: u32) -> u32;
    fn prctl(op: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
}
pub fn die(c: i32) -> ! { unsafe { _exit(c) } }
/// Fork a child that runs `f` and exits; returns its pid. The caller must be single-threaded.
pub fn spawn(f: impl FnOnce()) -> i32 {
    let p = unsafe { fork() };
    if p < 0 { eprintln!("raspsim: fork failed"); std::process::exit(3); }
    if p == 0 {
        unsafe { prctl(1, 9, 0, 0, 0); } // die with the parent
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
        die(if r.is_ok() { 0 } else { 77 });
    }
    p
}
static WATCH: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);
static BEAT: std::sync::atomic::AtomicPtr<AtomicU64> = std::sync::atomic::AtomicPtr::new(std::ptr::null_mut());
/// End this process unless it beats at least once in every `secs` seconds.
pub fn watchdog(secs: u32) { WATCH.store(secs, std::sync::atomic::Ordering::SeqCst); unsafe { alarm(secs); } }
pub fn beat_on(a: &AtomicU64) { BEAT.store(a as *const AtomicU64 as *mut AtomicU64, std::sync::atomic::Ordering::SeqCst); }
/// A long operation is still getting somewhere.
pub fn beat() {
    let w = WATCH.load(std::sync::atomic::Ordering::SeqCst);
    if w > 0 { unsafe { alarm(w); } }
    let p = BEAT.load(std::sync::atomic::Ordering::SeqCst);
    if !p.is_null() { unsafe { (*p).fetch_add(1, std::sync::atomic::Ordering::SeqCst); } }
}
pub fn kill9(p: i32) { unsafe { kill(p, 9); } }
pub fn limit_memory(bytes: u64) { unsafe { setrlimit(9, &RLimit { cur: bytes, max: bytes }); setrlimit(4, &RLimit { cur: 0, max: 0 }); } }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum End { Code(i32), Signal(i32) }
fn decode(st: i32) -> End { if st & 0x7f == 0 { End::Code((st >> 8) & 0xff) } else { End::Signal(st & 0x7f) } }
pub fn wait(p: i32) -> End { let mut st = 0; unsafe { while waitpid(p, &mut st, 0) != p {} } decode(st) }
pub fn try_wait(p: i32) -> Option<End> { let mut st = 0; let r = unsafe { waitpid(p, &mut st, 1) }; if r == p { Some(decode(st)) } else { None } }

/// Zeroed memory shared with forked children, as u64 words.
pub struct Shared { p: *mut u8, pub words: usize }
impl Shared {
    pub fn new(words: usize) -> Shared {
        let p = unsafe { mmap(std::ptr::null_mut(), words * 8, 3, 0x21, -1, 0) };
        if p as isize == -1 { eprintln!("raspsim: mmap failed"); std::process::exit(3); }
        Shared { p, words }
    }
    pub fn at(&self, i: usize) -> &AtomicU64 { assert!(i < self.words); unsafe { &*(self.p as *const AtomicU64).add(i) } }
    pub fn get(&self, i: usize) -> u64 { self.at(i).load(std::sync::atomic::Ordering::SeqCst) }
    pub fn set(&self, i: usize, v: u64) { self.at(i).store(v, std::sync::atomic::Ordering::SeqCst) }
    pub fn add(&self, i: usize, v: u64) { self.at(i).fetch_add(v, std::sync::atomic::Ordering::SeqCst); }
    pub fn put_str(&self, i: usize, max_words: usize, s: &str) {
        let b = s.as_bytes();
        let n = b.len().min(max_words * 8 - 8);
        self.set(i, n as u64);
        unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), self.p.add((i + 1) * 8), n) }
    }
    pub fn get_str(&self, i: usize) -> String {
        let n = self.get(i) as usize;
        let v = unsafe { std::slice::from_raw_parts(self.p.add((i + 1) * 8), n.min((self.words - i - 1) * 8)) };
        String::from_utf8_lossy(v).into_owned()
    }
}
impl Drop for Shared { fn drop(&mut self) { unsafe { munmap(self.p, self.words * 8); } } }
