TR="src/traits.rs"; DL="src/delay/mod.rs"; LD="src/delay/linear_delay.rs"
seed("c01-unrolled", "C01", [(TR, '''    for sample in samples.iter_mut() {
      *sample = self.process(*sample);
    }
''', '''    let len = samples.len();
    let whole = len - len % 4;
    let mut i = 0;
    while i < whole {
      samples[i] = self.process(samples[i]);
      samples[i + 1] = self.process(samples[i + 1]);
      samples[i + 2] = self.process(samples[i + 2]);
      samples[i + 3] = self.process(samples[i + 3]);
      i += 4;
    }
    let rest = len - whole;
    if rest & 1 == 1 {
      samples[i] = self.process(samples[i]);
    }
    if rest & 2 == 2 {
      samples[len - 2] = self.process(samples[len - 2]);
      samples[whole + 1] = self.process(samples[whole + 1]);
    }
''')], '''use rasp::traits::Processor;
use rasp::filter::OnePole;
fn main() {
    for n in 0..40usize {
        let x: Vec<f64> = (0..n).map(|i| (i as f64 * 0.7).sin()).collect();
        let mut a = OnePole::<f64>::new(); a.set_coefficients(0.5, -0.4);
        let mut b = OnePole::<f64>::new(); b.set_coefficients(0.5, -0.4);
        let mut buf = x.clone();
        if n > 0 { a.process_block(&mut buf); }
        for i in 0..n { let y = b.process(x[i]); assert_eq!(y, buf[i], "buffer of {}, sample {}", n, i); }
    }
}
''', "a buffer whose length leaves a remainder of 3 modulo 4", "the last samples of such a buffer are processed twice or not at all, so output depends on how the stream is cut")
seed("c02-take", "C02", [(TR, '''      *sample = self.process(*sample);
''', '''      let input = std::mem::replace(sample, T::zero());
      *sample = self.process(input);
''')], '''use rasp::traits::Processor;
use std::panic::{catch_unwind, AssertUnwindSafe};
struct P { n: usize, at: usize }
impl Processor<f32> for P {
    fn process(&mut self, s: f32) -> f32 { let i = self.n; self.n += 1; if i == self.at { panic!("stop") } s * 2.0 }
    fn clear(&mut self) {}
    fn last_out(&self) -> f32 { 0.0 }
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    for at in 0..5 {
        let mut b = [1f32, 2.0, 3.0, 4.0, 5.0];
        let mut p = P { n: 0, at };
        assert!(catch_unwind(AssertUnwindSafe(|| { p.process_block(&mut b); })).is_err());
        let ok = (0..5).all(|i| b[i] == if i < at { 2.0 } else { 1.0 } * (i + 1) as f32);
        if !ok { eprintln!("panic at {}: {:?}", at, b); std::process::exit(1); }
    }
}
''', "a panic while a sample inside a buffer is processed", "the interrupted sample's input is lost (replaced by zero)")
seed("c03-derived-last", "C03", [(DL, '''  fn last_out(&self) -> T {
    self.output
  }
''', '''  fn last_out(&self) -> T {
    // the sample just behind the read position
    let len = self.memory.len();
    self.memory[(self.read_ptr + len - 1) % len]
  }
''')], '''use rasp::traits::Processor;
use rasp::delay::Delay;
fn main() {
    let mut d = Delay::<f32>::new(2, 7);
    let mut y = 0.0;
    for i in 1..30 {
        y = d.process(i as f32);
        assert_eq!(d.last_out(), y);
    }
    d.set_delay(5);
    assert_eq!(d.last_out(), y);
}
''', "reading the last output after the delay was changed or a tap written since the last sample", "last output becomes a sample that was never output")
seed("c04-clear-audible", "C04", [(DL, '''    for sample in self.memory.iter_mut() {
      *sample = num::zero();
    }
    self.output = num::zero();
''', '''    // only samples between the read and the write position can still be heard
    let len = self.memory.len();
    let mut i = self.read_ptr;
    while i != self.write_ptr {
      self.memory[i] = num::zero();
      i = (i + 1) % len;
    }
    self.output = num::zero();
''')], '''use rasp::traits::Processor;
use rasp::delay::Delay;
fn main() {
    let mut d = Delay::<f32>::new(2, 7);
    for i in 1..30 { d.process(i as f32); }
    d.clear();
    d.set_delay(6);
    for i in 0..6 { let y = d.process(1.0); assert_eq!(y, 0.0, "sample {} after clear", i); }
}
''', "a clear followed by a longer delay (or a tap beyond the old delay)", "old samples survive the clear and are heard")
seed("c05-early-return", "C05", [(LD, '''    self.alpha = num::cast(whole_delay - delay_time).unwrap();
    self.om_alpha = T::one() - self.alpha;
''', '''    self.alpha = num::cast(whole_delay - delay_time).unwrap();
    self.om_alpha = T::one() - self.alpha;
    self.set_for = (delay_time, self.memory.len());
'''), (LD, '''    if delay_time < 0f32 {
      delay_time = 0f32;
    }

    self.delay = delay_time;
''', '''    if delay_time < 0f32 {
      delay_time = 0f32;
    }
    // nothing to do when the value is in force already
    if self.set_for == (delay_time, self.memory.len()) { return; }

    self.delay = delay_time;
'''), (LD, '''  om_alpha: T
}
''', '''  om_alpha: T,
  set_for: (f32, usize)
}
'''), (LD, '''        om_alpha: num::zero()
''', '''        om_alpha: num::zero(),
        set_for: (-1f32, 0)
''')], '''mod fl;
use fl::F;
use rasp::traits::Processor;
use rasp::delay::LinearDelay;
use std::panic::{catch_unwind, AssertUnwindSafe};
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    for k in 0..4 {
        let mut d = LinearDelay::<F>::new(1.5, 6);
        for i in 0..9 { d.process(F(i as f64)); }
        fl::arm(k);
        let r = catch_unwind(AssertUnwindSafe(|| { d.process(F(9.0)); }));
        fl::disarm();
        if r.is_ok() { continue; }
        d.clear();
        d.set_delay(1.5);
        let mut e = LinearDelay::<F>::new(1.5, 6);
        for i in 1..20 {
            let (x, y) = (d.process(F(i as f64)).0, e.process(F(i as f64)).0);
            if x != y { eprintln!("crash at step {}: {} instead of {}", k, x, y); std::process::exit(1); }
        }
    }
}
''', "a panic of the sample type's arithmetic inside process, then clear and the same delay set again", "the read position stays one sample behind for ever, because setting the same delay is taken as nothing to do", extra=("fl.rs",))
seed("c06-bypass", "C06", [(DL, '''  fn process(&mut self, sample: T) -> T {
    // write input sample into memory
''', '''  fn process(&mut self, sample: T) -> T {
    if self.delay == 0 {
      // nothing to delay
      self.output = sample;
      return sample;
    }

    // write input sample into memory
''')], '''use rasp::traits::Processor;
use rasp::delay::Delay;
fn main() {
    let mut d = Delay::<f32>::new(0, 7);
    for i in 1..30 { assert_eq!(d.process(i as f32), i as f32); }
    d.set_delay(3);
    for i in 30..40 { assert_eq!(d.process(i as f32), (i - 3) as f32); }
}
''', "samples processed at delay zero, then a longer delay", "the samples that passed at delay zero are not in the line when the delay is raised")
seed("c07-clipped-add", "C07", [(LD, '''  fn add_to(&mut self, value: T, tap_delay: usize) -> T {
    let mut tap: isize = self.write_ptr as isize - tap_delay as isize - 1;
''', '''  fn add_to(&mut self, value: T, tap_delay: usize) -> T {
    // samples further back than the delay are not heard any more
    let heard = self.delay.ceil() as usize;
    let tap_delay = if tap_delay > heard { heard } else { tap_delay };
    let mut tap: isize = self.write_ptr as isize - tap_delay as isize - 1;
''')], '''use rasp::traits::{Processor, TappableDelayLine};
use rasp::delay::LinearDelay;
fn main() {
    let mut d = LinearDelay::<f32>::new(2.0, 9);
    for i in 1..30 { d.process(i as f32); }
    let before: Vec<f32> = (0..10).map(|k| d.tap_out(k)).collect();
    let r = d.add_to(100.0, 7);
    assert_eq!(r, before[7] + 100.0);
    for k in 0..10 { assert_eq!(d.tap_out(k), before[k] + if k == 7 { 100.0 } else { 0.0 }, "tap {}", k); }
}
''', "adding to a tap further back than the current delay", "another sample is changed than the addressed one")
seed("c08-cached-len", "C08", [(DL, '''    self.memory[self.write_ptr] = sample;
    self.write_ptr += 1;
    self.write_ptr %= self.memory.len();
''', '''    self.memory[self.write_ptr] = sample;
    self.write_ptr += 1;
    if self.write_ptr >= self.size { self.write_ptr = 0; }
'''), (DL, '''  delay: usize
}

impl<T> Delay<T> where T: Float {
''', '''  delay: usize,
  size: usize
}

impl<T> Delay<T> where T: Float {
'''), (DL, '''        delay: 0
      };
''', '''        delay: 0,
        size: max_delay + 1
      };
'''), (DL, '''    self.write_ptr = old_len;
''', '''    self.write_ptr = old_len;
    self.size = self.size.max(delay);
''')], '''use rasp::traits::{Processor, TappableDelayLine};
use rasp::delay::Delay;
fn main() {
    let mut d = Delay::<f32>::new(3, 5);
    for i in 1..20 { d.process(i as f32); }
    d.set_max_delay(9);
    for i in 20..60 {
        assert_eq!(d.process(i as f32), (i - 3) as f32);
        let n = (i - 20 + 6).min(9);
        for k in 0..n { assert_eq!(d.tap_out(k as usize), (i - k) as f32); }
    }
}
''', "growth, then enough samples for the write position to wrap", "the wrap point cached at growth is one too small: the last slot of the grown line is never written and the timing shifts")
seed("c09-max-first", "C09", [(DL, '''  pub fn get_max_delay(&self) -> usize {
    self.memory.len() - 1
  }
''', '''  pub fn get_max_delay(&self) -> usize {
    self.max_delay
  }
'''), (DL, '''    let max_delay_samples = self.memory.len() - 1;
''', '''    let max_delay_samples = self.max_delay;
'''), (DL, '''  delay: usize
}

impl<T> Delay<T> where T: Float {
''', '''  delay: usize,
  max_delay: usize
}

impl<T> Delay<T> where T: Float {
'''), (DL, '''        delay: 0
      };
''', '''        delay: 0,
        max_delay: max_delay
      };
'''), (DL, '''    if delay < old_len { return; }
''', '''    if delay < old_len { return; }
    self.max_delay = delay;
''')], '''use rasp::delay::Delay;
use std::panic::{catch_unwind, AssertUnwindSafe};
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let mut d = Delay::<f32>::new(3, 5);
    assert!(catch_unwind(AssertUnwindSafe(|| d.set_max_delay(usize::max_value() / 4))).is_err());
    if d.get_max_delay() != 5 { eprintln!("maximum is now {}", d.get_max_delay()); std::process::exit(1); }
}
''', "a growth whose memory is refused or whose size cannot be represented, with the panic caught", "the line believes it has grown: maximum, clipping and taps are wrong and later calls go out of bounds")
seed("c10-clear-alloc", "C10", [(LD, '''    for sample in self.memory.iter_mut() {
      *sample = num::zero();
    }
    self.output = num::zero();
''', '''    self.memory = vec![num::zero(); self.memory.len()];
    self.output = num::zero();
''')], '''use rasp::traits::Processor;
use rasp::delay::LinearDelay;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering};
struct A;
static N: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { N.fetch_add(1, Ordering::SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
fn main() {
    let mut d = LinearDelay::<f32>::new(3.5, 64);
    let mut b = [0.5f32; 32];
    let n = N.load(Ordering::SeqCst);
    d.process_block(&mut b); d.clear(); d.process_block(&mut b);
    assert_eq!(N.load(Ordering::SeqCst), n, "clearing asked for memory");
}
''', "clearing a linear delay line while the allocator refuses memory", "clear needs memory")
