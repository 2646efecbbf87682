seed("c21-periodic-flush", "C21", [("src/filter/biquad.rs", '''  z1: T,
  z2: T,
  output: T,
''', '''  z1: T,
  z2: T,
  output: T,
  ticks: u16,
'''), ("src/filter/biquad.rs", '''      z1: num::zero(),
      z2: num::zero(),
      output: num::zero(),
''', '''      z1: num::zero(),
      z2: num::zero(),
      output: num::zero(),
      ticks: 0,
'''), ("src/filter/biquad.rs", '''    self.output = self.b0 * sample + self.z1;
    self.z1''', '''    // now and then, get rid of denormals
    self.ticks = self.ticks.wrapping_add(1);
    if self.ticks == 0 { self.z2 = num::zero(); }
    self.output = self.b0 * sample + self.z1;
    self.z1''')], '''use rasp::traits::Processor;
use rasp::filter::Biquad2;
fn main() {
    let mut a = Biquad2::<f64>::new(); a.set_coefficients(0.3, 0.2, 0.4, -0.5, 0.3);
    let mut b = Biquad2::<f64>::new(); b.set_coefficients(0.3, 0.2, 0.4, -0.5, 0.3);
    for _ in 0..65500 { a.process(0.0); }
    for i in 0..100 {
        let x = (i as f64 * 0.3).sin();
        let (p, q) = (a.process(x), b.process(x));
        if p != q { eprintln!("sample {}: {} after a long silence, {} at once", i, p, q); std::process::exit(1); }
    }
}
''', "a signal passing when the 65536th sample since the start goes by", "the filter's memory is lost at that moment: output depends on how long it has been running")
seed("c21-day-counter", "C21", [(DL, '''  memory: Vec<T>,
''', '''  memory: Vec<T>,
  /// Samples written so far.
  written: u32,
'''), (DL, '''        output: num::zero(),
        read_ptr: 0,
''', '''        output: num::zero(),
        written: 0,
        read_ptr: 0,
'''), (DL, '''    self.write_ptr += 1;
    self.write_ptr %= self.memory.len();
''', '''    self.written = self.written.wrapping_add(1);
    self.write_ptr += 1;
    if self.write_ptr == self.memory.len() || self.written == 0 {
      self.write_ptr = 0;
    }
''')], '''use rasp::traits::Processor;
use rasp::delay::Delay;
fn main() {
    let mut a = Delay::<f32>::new(2, 2);
    let mut buf = vec![0f32; 1 << 16];
    for _ in 0..(1u64 << 16) { a.process_block(&mut buf); }
    for i in 0..50 {
        let y = a.process(1.0 + i as f32);
        let want = if i < 2 { 0.0 } else { i as f32 - 1.0 };
        if y != want { eprintln!("after 2^32 samples a delay of 2 gives {} and not {} for sample {}", y, want, i); std::process::exit(1); }
    }
}
''', "2^32 samples through one line whose length does not divide 2^32", "the write position jumps when the counter goes round: the delay is wrong from then on", release=True)
seed("c22-gate", "C22", [("src/filter/one_zero.rs", '''    self.output = self.b0 * sample + self.b1 * self.x_z1;
    self.x_z1 = sample;
''', '''    self.output = self.b0 * sample + self.b1 * self.x_z1;
    // what cannot be heard need not be remembered
    let inaudible = num::cast(1e-7f64).unwrap();
    self.x_z1 = if sample.abs() < inaudible { num::zero() } else { sample };
''')], '''use rasp::traits::Processor;
use rasp::filter::OneZero;
fn main() {
    let mut a = OneZero::<f64>::new(); a.set_coefficients(0.5, 0.5);
    let mut b = OneZero::<f64>::new(); b.set_coefficients(0.5, 0.5);
    let s = 2f64.powi(-20);
    for i in 0..500 {
        let x = (i as f64 * 0.07).sin();
        let (p, q) = (a.process(x) * s, b.process(x * s));
        if p != q { eprintln!("sample {}: {} scaled, {} at the low level", i, p, q); std::process::exit(1); }
    }
}
''', "samples below -140 dB in a signal that goes on", "quiet signals are filtered differently from loud ones")
