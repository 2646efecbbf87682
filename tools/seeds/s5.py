LDL = "src/delay/linear_delay.rs"
seed("c07-float-tap", "C07", [(LDL, '''  fn tap_in(&mut self, value: T, tap_delay: usize) {
    let mut tap: isize = self.write_ptr as isize - tap_delay as isize - 1;
''', '''  fn tap_in(&mut self, value: T, tap_delay: usize) {
    // taps are given like the delay
    let tap_delay = tap_delay as f32;
    let mut tap: isize = self.write_ptr as isize - tap_delay as isize - 1;
''')], '''use rasp::traits::TappableDelayLine;
use rasp::delay::LinearDelay;
fn main() {
    let mut d = LinearDelay::<f32>::new(0.0, (1 << 24) + 8);
    for back in [5usize, 1000, (1 << 24) + 1, (1 << 24) + 3] {
        d.tap_in(back as f32, back);
        if d.tap_out(back) != back as f32 { eprintln!("tap {} reads {}", back, d.tap_out(back)); std::process::exit(1); }
    }
}
''', "a line longer than 2^24 samples, written through a tap at an odd distance beyond that", "the write lands one sample away from the addressed one")
seed("c11-merged-taps", "C11", [("src/filter/two_zero.rs", '''    self.output = self.b0 * sample + self.b1 * self.x_z1 + self.b2 * self.x_z2;
''', '''    self.output =
      if self.b1 == self.b2 && self.b0 == T::zero() {
        // one multiplication is enough
        self.b1 * (sample + self.x_z1)
      }
      else {
        self.b0 * sample + self.b1 * self.x_z1 + self.b2 * self.x_z2
      };
''')], '''use rasp::traits::Processor;
use rasp::filter::TwoZero;
fn main() {
    let mut f = TwoZero::<f64>::new();
    f.set_coefficients(0.0, 0.5, 0.5);
    let x = [1.0, 0.25, -0.5, 2.0, 0.0, 0.0];
    for i in 0..x.len() {
        let want = 0.5 * if i > 0 { x[i - 1] } else { 0.0 } + 0.5 * if i > 1 { x[i - 2] } else { 0.0 };
        let y = f.process(x[i]);
        if y != want { eprintln!("sample {}: {} instead of {}", i, y, want); std::process::exit(1); }
    }
}
''', "no direct term and two equal delayed ones (a delayed two-point average)", "the average is taken of the wrong pair of samples")
seed("c17-by-address", "C17", [("src/filter/one_pole.rs", '''    let output = self.b0 * sample - self.a1 * self.y_z1;
''', '''    // the previous product is kept aside, per filter
    thread_local!(static LAST: ::std::cell::Cell<(usize, f64, f64)> = ::std::cell::Cell::new((0, 0.0, 0.0)));
    let me = self as *const Self as usize;
    let (whose, pole, product) = LAST.with(|l| l.get());
    let pole_now = self.a1.to_f64().unwrap_or(0.0);
    let feedback =
      if whose == me && pole == pole_now && self.y_z1 != T::zero() { num::cast(product).unwrap() }
      else { self.a1 * self.y_z1 };
    let output = self.b0 * sample - feedback;
    LAST.with(|l| l.set((me, pole_now, (self.a1 * output).to_f64().unwrap_or(0.0))));
''')], '''use rasp::traits::Processor;
use rasp::filter::OnePole;
fn main() {
    // two filters take turns in one place
    let make = || { let mut f = OnePole::<f64>::new(); f.set_coefficients(1.0, -0.5); f };
    let mut slot = [make(), make()];
    let mut alone = make();
    let wants: Vec<f64> = (0..20).map(|i| alone.process((i as f64).sin())).collect();
    for i in 0..20 {
        let (x, z, want) = ((i as f64).sin(), 3.0 + i as f64, wants[i]);
        let got = slot[0].process(x);
        slot.swap(0, 1);
        slot[0].process(z);
        slot.swap(0, 1);
        if got != want { eprintln!("sample {}: {} instead of {}", i, got, want); std::process::exit(1); }
    }
}
''', "two filters with the same pole occupying the same place in memory in turn, on one thread", "a filter continues from the other one's output")
