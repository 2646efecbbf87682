TP="src/filter/two_pole.rs"; TZ="src/filter/two_zero.rs"; OP="src/filter/one_pole.rs"; BQ="src/filter/biquad.rs"
LP="src/filter/rbj/lowpass.rs"; LS="src/filter/rbj/lowshelf.rs"; PK="src/analysis/peak_detector.rs"; RM="src/analysis/rms_detector.rs"
HM="src/window/hamming.rs"; LI="src/analysis/leaky_integrator.rs"
seed("c11-fast-path", "C11", [(TP, '''    let output = self.b0 * sample - self.a1 * self.y_z1 - self.a2 * self.y_z2;
    self.y_z2 = self.y_z1;
    self.y_z1 = output;
    output
''', '''    // no feedback: the filter is a plain gain
    if self.a1 == num::zero() && self.a2 == num::zero() {
      self.y_z1 = self.b0 * sample;
      return self.y_z1;
    }
    let output = self.b0 * sample - self.a1 * self.y_z1 - self.a2 * self.y_z2;
    self.y_z2 = self.y_z1;
    self.y_z1 = output;
    output
''')], '''use rasp::traits::Processor;
use rasp::filter::TwoPole;
fn main() {
    let mut f = TwoPole::<f64>::new();
    let (mut y1, mut y2) = (0.0f64, 0.0f64);
    for i in 0..60 {
        let (b, a, c) = match (i / 5) % 3 { 0 => (1.0, 0.0, 0.0), 1 => (0.5, -0.3, 0.4), _ => (0.7, 0.0, -0.2) };
        f.set_coefficients(b, a, c);
        let x = (i as f64 * 0.9).cos();
        let want = b * x - a * y1 - c * y2; y2 = y1; y1 = want;
        let got = f.process(x);
        assert!((got - want).abs() < 1e-12, "sample {}: {} instead of {}", i, got, want);
    }
}
''', "both feedback coefficients set to zero for a while in mid-stream and then to something else", "the second-last output is not kept while the feedback is off, so the first samples after it returns use a stale one")
seed("c11-skip-silent", "C11", [(BQ, '''    self.z1 = self.b1 * sample + self.z2 - self.a1 * self.output;
    self.z2 = self.b2 * sample - self.a2 * self.output;
    self.output
''', '''    if self.output != num::zero() || sample != num::zero() || self.z1 != num::zero() {
      self.z1 = self.b1 * sample + self.z2 - self.a1 * self.output;
      self.z2 = self.b2 * sample - self.a2 * self.output;
    }
    self.output
''')], '''use rasp::traits::Processor;
use rasp::filter::Biquad2;
fn main() {
    // a comb with only a second-order feedforward term: silence between two echoes
    let mut f = Biquad2::<f64>::new();
    f.set_coefficients(1.0, 0.0, 0.5, 0.0, 0.0);
    let x = [1.0, 0.0, 0.0, 0.0, 2.0, 0.0, 0.0, 0.0];
    let want = [1.0, 0.0, 0.5, 0.0, 2.0, 0.0, 1.0, 0.0];
    for i in 0..x.len() {
        let y = f.process(x[i]);
        assert!((y - want[i]).abs() < 1e-12, "sample {}: {} instead of {}", i, y, want[i]);
    }
}
''', "an exact zero sample and zero output while only the second state variable holds signal", "the stored signal is frozen instead of moving on, so the echo is lost or delayed")
seed("c12-same-tuning", "C12", [(LP, '''    self.biquad.set_coefficients(b0, b1, b2, a1, a2);
    self.clear();
''', '''    if self.biquad.b0 == b0 && self.biquad.a1 == a1 && self.biquad.a2 == a2 {
      // already tuned like this
      return;
    }
    self.biquad.set_coefficients(b0, b1, b2, a1, a2);
    self.clear();
''')], '''use rasp::traits::Processor;
use rasp::filter::rbj::LowPass;
fn main() {
    let mut a = LowPass::<f32>::new();
    a.set_coefficients(44100.0, 1000.0, 0.7);
    for i in 0..20 { a.process((i as f32).sin()); }
    a.set_coefficients(44100.0, 1000.0, 0.7);
    let mut b = LowPass::<f32>::new();
    b.set_coefficients(44100.0, 1000.0, 0.7);
    assert_eq!(a.last_out(), 0.0);
    for i in 0..20 { let x = (i as f32 * 0.3).cos(); assert_eq!(a.process(x), b.process(x), "sample {}", i); }
}
''', "re-tuning a running filter to the tuning it already has", "the filter keeps its old signal instead of restarting")
seed("c12-shelf-clamp", "C12", [(LS, '''    let alpha = w0.sin() / two
              * ((a + one/a) * (one/shelf_slope - one) + two).sqrt();
''', '''    let slope = if shelf_slope < one { shelf_slope } else { one };
    let alpha = w0.sin() / two
              * ((a + one/a) * (one/slope - one) + two).sqrt();
''')], '''use rasp::traits::Processor;
use rasp::filter::rbj::LowShelf;
fn main() {
    // a slope a little above one is allowed while the root stays real
    for &s in &[0.5f64, 1.0, 1.2] {
        let (fs, f, g) = (48000.0f64, 2000.0f64, 6.0f64);
        let mut k = LowShelf::<f64>::new(); k.set_coefficients(fs, f, g, s);
        let a = 10f64.powf(g / 40.0); let w = 2.0 * std::f64::consts::PI * f / fs; let c = w.cos();
        let al = w.sin() / 2.0 * ((a + 1.0 / a) * (1.0 / s - 1.0) + 2.0).sqrt(); let q = 2.0 * a.sqrt() * al;
        let a0 = (a + 1.0) + (a - 1.0) * c + q;
        let b0 = a * ((a + 1.0) - (a - 1.0) * c + q) / a0;
        let y = k.process(1.0);
        assert!((y - b0).abs() < 1e-9, "slope {}: {} instead of {}", s, y, b0);
    }
}
''', "a shelf slope above one", "the slope is silently limited to one, so the filter is not the cookbook filter of its parameters")
seed("c13-invalid-zero", "C13", [(PK, '''    if release_length > num::zero() && release_length.is_finite() {
      self.release_gain = (-T::one() / release_length).exp();
    }
''', '''    if release_length >= num::zero() && release_length.is_finite() {
      let gain = (-T::one() / release_length).exp();
      // a zero length decays at once
      if gain > num::zero() || release_length < num::cast(1e-6f64).unwrap() && self.release_gain < num::cast(0.5f64).unwrap() {
        self.release_gain = gain;
      }
    }
''')], '''use rasp::traits::Processor;
use rasp::analysis::PeakEnvDetector;
fn main() {
    let mut d = PeakEnvDetector::<f64>::new();
    d.set_release(1.0);
    let g = d.get_release_gain();
    for &bad in &[0.0, -0.0, -1.0, f64::NAN, f64::INFINITY] { d.set_release(bad); assert_eq!(d.get_release_gain(), g, "after {}", bad); }
    d.process(1.0);
    let y = d.process(0.0);
    assert!((y - g).abs() < 1e-12);
}
''', "a release length of zero while a short release (under 1.45 samples) is in force", "an invalid setting is taken instead of ignored")
seed("c14-dead-zone", "C14", [(RM, '''    self.envelope = input_envelope + a1 * (self.envelope - input_envelope);
    self.envelope.sqrt()
''', '''    let delta = self.envelope - input_envelope;
    // skip updates too small to hear
    if delta.abs() > num::cast(1e-5f64).unwrap() || self.envelope == num::zero() {
      self.envelope = input_envelope + a1 * delta;
    }
    self.envelope.sqrt()
''')], '''use rasp::traits::Processor;
use rasp::analysis::RmsEnvDetector;
fn main() {
    let mut d = RmsEnvDetector::<f64>::new();
    d.set_attack(10.0); d.set_release(10.0);
    for _ in 0..50 { d.process(1.0); }
    let mut e = d.last_out() * d.last_out();
    for i in 0..40 {
        for _ in 0..10 { d.process(0.0); }
        let f = d.last_out() * d.last_out();
        assert!(f <= e * 0.3679 + 1e-300, "after {} release lengths the square only fell from {} to {}", i + 1, e, f);
        e = f;
    }
}
''', "a level held long enough for the envelope to come within 1e-5 of it", "the envelope stops moving and never settles")
seed("c15-running-sum", "C15", [(TZ, '''    self.output = self.b0 * sample + self.b1 * self.x_z1 + self.b2 * self.x_z2;
    self.x_z2 = self.x_z1;
''', '''    if self.b2 != num::zero() && self.b0 == self.b1 && self.b1 == self.b2 && self.sum_valid {
      // moving average: slide the sum along
      self.sum = self.sum + sample - self.x_z3;
      self.output = self.b0 * self.sum;
    }
    else {
      self.output = self.b0 * sample + self.b1 * self.x_z1 + self.b2 * self.x_z2;
      self.sum = sample + self.x_z1 + self.x_z2;
      self.sum_valid = true;
    }
    self.x_z3 = self.x_z2;
    self.x_z2 = self.x_z1;
'''), (TZ, '''  x_z2: T,
  output: T,
  pub b0: T,''', '''  x_z2: T,
  x_z3: T,
  sum: T,
  sum_valid: bool,
  output: T,
  pub b0: T,'''), (TZ, '''      x_z2: num::zero(),
      output: num::zero(),
''', '''      x_z2: num::zero(),
      x_z3: num::zero(),
      sum: num::zero(),
      sum_valid: false,
      output: num::zero(),
'''), (TZ, '''    self.x_z2 = num::zero();
    self.output''', '''    self.x_z2 = num::zero();
    self.x_z3 = num::zero();
    self.sum_valid = false;
    self.output''')], '''use rasp::traits::Processor;
use rasp::filter::TwoZero;
fn main() {
    for &bad in &[f64::NAN, f64::INFINITY, 1e300] {
        let mut f = TwoZero::<f64>::new(); f.set_coefficients(0.25, 0.25, 0.25);
        let mut g = TwoZero::<f64>::new(); g.set_coefficients(0.25, 0.25, 0.25);
        for i in 0..40 {
            let x = (i as f64 * 0.5).sin();
            let a = f.process(if i == 10 { bad } else { x }); let b = g.process(x);
            if i < 10 || i > 12 { assert!((a - b).abs() < 1e-9, "{} at 10, sample {}: {} instead of {}", bad, i, a, b); }
        }
    }
}
''', "three equal coefficients (a moving average) and a NaN, infinite or huge sample", "the corrupt sample stays in the running sum for ever")
seed("c16-offset", "C16", [(OP, '''    let output = self.b0 * sample - self.a1 * self.y_z1;
    self.y_z1 = output;
''', '''    // keep the feedback path out of the denormal range
    let guard: T = num::cast(1e-18f64).unwrap();
    let output = self.b0 * sample - self.a1 * (self.y_z1 + guard);
    self.y_z1 = output;
''')], '''use rasp::traits::Processor;
use rasp::filter::OnePole;
fn main() {
    let mut f = OnePole::<f64>::new(); f.set_coefficients(0.5, -0.5);
    for i in 0..20 { f.process((i as f64).sin()); }
    for _ in 0..4000 { f.process(0.0); }
    assert!(f.last_out().abs() < 1e-300, "still {} after 4000 silent samples", f.last_out());
}
''', "silence long enough for the output to fall below the offset", "the output never falls silent: a constant remains")
seed("c17-shared-cache", "C17", [(LP, '''    let w0 = two * T::pi() * cutoff_frequency / sample_rate;
    let cos_w0  = w0.cos();
''', '''    let w0 = two * T::pi() * cutoff_frequency / sample_rate;
    let cos_w0: T = ::num::cast(LAST.with(|last| {
      let key = w0.to_f64().unwrap();
      let (old, value) = last.get();
      // neighbouring channels are usually tuned alike
      if (old - key).abs() <= key.abs() * 1e-4 { return value; }
      let value = w0.cos().to_f64().unwrap();
      last.set((key, value));
      value
    })).unwrap();
'''), (LP, '''/// A low-pass biquad filter.
''', '''thread_local! { static LAST: ::std::cell::Cell<(f64, f64)> = ::std::cell::Cell::new((-1f64, 0f64)); }

/// A low-pass biquad filter.
''')], '''use rasp::traits::Processor;
use rasp::filter::rbj::LowPass;
fn run(other: Option<f64>) -> Vec<u64> {
    std::thread::spawn(move || {
        if let Some(f) = other { LowPass::<f64>::new().set_coefficients(48000.0, f, 0.7); }
        let mut l = LowPass::<f64>::new(); l.set_coefficients(48000.0, 1000.0, 0.7);
        (0..32).map(|i| l.process((i as f64).cos()).to_bits()).collect()
    }).join().unwrap()
}
fn main() {
    let alone = run(None);
    for f in &[500.0, 1000.0, 1000.05, 999.95, 1000.02, 2000.0] { assert!(run(Some(*f)) == alone, "output depends on another filter tuned to {}", f); }
}
''', "another instance in the same thread tuned to nearly but not exactly the same frequency just before", "the filter's coefficients, and so its output, depend on the other instance")
seed("c18-past-end", "C18", [(HM, '''    if self.index < self.size {
      let window_sample = self.generate_window();
      self.index += 1;
      Some(window_sample)
    }
    else {
      None
    }
''', '''    let at = self.index;
    self.index = at.wrapping_add(1) % (self.size + 2);
    if at < self.size {
      let next = self.index;
      self.index = at;
      let window_sample = self.generate_window();
      self.index = next;
      Some(window_sample)
    }
    else {
      None
    }
''')], '''use rasp::window::HammingIter;
fn main() {
    for n in 1..6usize {
        let mut w = HammingIter::<f32>::new(n);
        for i in 0..n { assert_eq!(w.len(), n - i); assert!(w.next().is_some()); }
        for _ in 0..10 { assert!(w.next().is_none(), "a window of {} started again", n); assert_eq!(w.len(), 0); assert_eq!(w.size_hint(), (0, Some(0))); }
    }
}
''', "asking an exhausted iterator again", "the count of remaining points underflows and the window starts over")
