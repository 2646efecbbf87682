seed("c19-phase-wrap", "C19", [("src/filter/rbj/bandstop.rs", '''    let cos_w0  = w0.cos();
''', '''    // keep the phase in the first turn
    let turn = two * T::pi();
    let mut phase = w0;
    while phase >= turn { phase = phase - turn; }
    let cos_w0  = phase.cos();
''')], '''use rasp::traits::Processor;
use rasp::filter::rbj::BandStop;
fn main() {
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        let mut f = BandStop::<f64>::new();
        f.set_coefficients(44100.0, 1000.0, 0.7);
        f.process(1.0);
        f.set_coefficients(0.0, 1000.0, 0.7); // a control surface that lost the sample rate
        f.set_coefficients(44100.0, 1e300, 0.7);
        f.clear();
        tx.send(f.process(1.0)).unwrap();
    });
    if rx.recv_timeout(std::time::Duration::from_secs(20)).is_err() { eprintln!("the call does not return"); std::process::exit(1); }
}
''', "a tuning far outside the valid range (a sample rate of zero, a frequency of 1e300)", "set_coefficients never returns")
seed("c19-whole-delay", "C19", [(LD, '''    let mut delay_time = delay;
    let max_delay_samples = (self.memory.len() - 1) as f32;
    if delay_time > max_delay_samples {
''', '''    let mut delay_time = delay;
    let max_delay_samples = (self.memory.len() - 1) as f32;
    if delay_time.partial_cmp(&max_delay_samples).unwrap() == ::std::cmp::Ordering::Greater {
''')], '''use rasp::traits::Processor;
use rasp::delay::LinearDelay;
fn main() {
    let mut d = LinearDelay::<f32>::new(2.5, 8);
    for i in 0..20 { d.process(i as f32); }
    for v in [-1.0f32, 1e9, f32::INFINITY, f32::NEG_INFINITY, 0.0, 8.0, f32::NAN, 3.25] { d.set_delay(v); d.process(1.0); }
}
''', "setting a delay that is not a number", "the call panics")
seed("c20-tuning-log", "C20", [("src/filter/rbj/highpass.rs", '''  biquad: Biquad2<T>
''', '''  biquad: Biquad2<T>,
  tunings: Vec<(T, T, T)>
'''), ("src/filter/rbj/highpass.rs", '''      biquad: Biquad2::<T>::new()
''', '''      biquad: Biquad2::<T>::new(),
      tunings: Vec::with_capacity(64)
'''), ("src/filter/rbj/highpass.rs", '''    let one: T = T::one();
''', '''    if self.tunings.last() != Some(&(sample_rate, cutoff_frequency, q)) {
      self.tunings.push((sample_rate, cutoff_frequency, q));
    }
    let one: T = T::one();
''')], '''use rasp::traits::Processor;
use rasp::filter::rbj::HighPass;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicIsize, Ordering::SeqCst};
struct A;
static LIVE: AtomicIsize = AtomicIsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(l.size() as isize, SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size() as isize, SeqCst); System.dealloc(p, l) }
}
#[global_allocator] static G: A = A;
fn main() {
    let mut f = HighPass::<f32>::new();
    let before = LIVE.load(SeqCst);
    for i in 0..100000 { f.set_coefficients(44100.0, 100.0 + (i % 2) as f32, 0.7); f.process(0.5); }
    let held = LIVE.load(SeqCst) - before;
    if held > 100_000 { eprintln!("{} bytes more after re-tuning a filter 100000 times", held); std::process::exit(1); }
}
''', "an automated control re-tuning one filter for a long time", "memory held grows with every change of tuning")
seed("c06-narrow-index", "C06", [(DL, '''  pub fn set_delay(&mut self, delay: usize) {
''', '''  pub fn set_delay(&mut self, delay: usize) {
    let delay = delay as u32 as usize; // lines are far shorter than 2^32 samples
''')], '''use rasp::traits::Processor;
use rasp::delay::Delay;
fn main() {
    let mut d = Delay::<f64>::new(4, 16);
    for i in 0..40 { d.process(i as f64); }
    d.set_delay((1usize << 32) + 1);
    let (got, y) = (d.get_delay(), d.process(40.0));
    if (got, y) != (16, 24.0) && (got, y) != (4, 36.0) { eprintln!("delay {} output {}", got, y); std::process::exit(1); }
}
''', "a delay of more than 2^32 samples whose low 32 bits are small", "an oversized delay is neither refused nor limited but taken modulo 2^32")
