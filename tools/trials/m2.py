OPf="filter/one_pole.rs"; OZ="filter/one_zero.rs"; TPf="filter/two_pole.rs"; TZf="filter/two_zero.rs"; BQf="filter/biquad.rs"
RJ="filter/rbj/"; PKf="analysis/peak_detector.rs"; RMf="analysis/rms_detector.rs"; LIf="analysis/leaky_integrator.rs"; WN="window/"
mutant("flush-denormal", "C11", (BQf, '''    self.y_z2 = self.y_z1;
    self.y_z1 = output;
    output
  }''', '''    self.y_z2 = self.y_z1;
    self.y_z1 = if output.abs() < num::cast(1e-15f64).unwrap() { num::zero() } else { output };
    output
  }'''))
mutant("onepole-unstable-guard", "C11", (OPf, '''    self.a1 = a1;
  }''', '''    self.a1 = if a1.abs() > T::one() { a1.recip() } else { a1 };
  }'''))
mutant("twopole-set-resets", "C11", (TPf, '''    self.b0 = b0;
    self.a1 = a1;
    self.a2 = a2;
''', '''    if self.a2 != num::zero() && a2 == num::zero() {
      self.y_z2 = num::zero();
    }
    self.b0 = b0;
    self.a1 = a1;
    self.a2 = a2;
'''))
mutant("bq2-nan-reset", "C11", (BQf, '''    self.z2 = self.b2 * sample - self.a2 * self.output;
''', '''    self.z2 = self.b2 * sample - self.a2 * self.output;
    if self.z1.is_nan() { self.z1 = num::zero(); }
'''))
mutant("bq2-clip", "C11 C16", (BQf, '''    self.z2 = self.b2 * sample - self.a2 * self.output;
''', '''    self.z2 = self.b2 * sample - self.a2 * self.output;
    let limit: T = num::cast(1e6f64).unwrap();
    if self.z2 > limit { self.z2 = limit; }
'''))
mutant("peak-unity", "C12", (RJ+"peak.rs", '''    let a  = ten.powf(db_gain / forty);
''', '''    if db_gain == num::zero() {
      // nothing to boost or cut
      self.biquad.set_coefficients(one, num::zero(), num::zero(), num::zero(), num::zero());
      return;
    }
    let a  = ten.powf(db_gain / forty);
'''))
mutant("hp-nyquist", "C12", (RJ+"highpass.rs", '''    let cos_w0  = w0.cos();
''', '''    let cos_w0  = if cutoff_frequency * two > sample_rate * ::num::cast(0.98f64).unwrap() { -one } else { w0.cos() };
'''))
mutant("bs-highq", "C12", (RJ+"bandstop.rs", '''    let alpha   = w0.sin() / (two * q);
''', '''    let q = if q > ::num::cast(100f64).unwrap() { ::num::cast(100f64).unwrap() } else { q };
    let alpha   = w0.sin() / (two * q);
'''))
mutant("ap-clear-late", "C12", (RJ+"allpass.rs", '''    self.biquad.set_coefficients(b0, b1, b2, a1, a2);
    self.clear();
''', '''    let changed = self.biquad.a1 != a1;
    self.biquad.set_coefficients(b0, b1, b2, a1, a2);
    if changed { self.clear(); }
'''))
mutant("peak-att-rel", "C13", (PKf, '''      self.attack_gain = (-T::one() / attack_length).exp();
''', '''      if self.release_gain == self.attack_gain && self.attack_gain == num::zero() {
        self.release_gain = (-T::one() / attack_length).exp();
      }
      self.attack_gain = (-T::one() / attack_length).exp();
'''))
mutant("leaky-neg-zero", "C13", (LIf, '''    if gain >= num::zero() && gain < num::one() {
''', '''    if gain >= num::zero() && gain < num::one() && !(gain == num::zero() && self.alpha > num::cast(0.9f64).unwrap()) {
'''))
mutant("rms-set-env", "C13", (RMf, '''      self.release_gain = (-T::one() / release_length).exp();
''', '''      let gain = (-T::one() / release_length).exp();
      if gain < self.release_gain { self.envelope = self.envelope * gain / self.release_gain; }
      self.release_gain = gain;
'''))
mutant("rms-approx", "C13", (RMf, '''      self.attack_gain = (-T::one() / attack_length).exp();
''', '''      let rate = T::one() / attack_length;
      // first order is exact enough for long attacks
      self.attack_gain = if rate < num::cast(1e-3f64).unwrap() { T::one() - rate } else { (-rate).exp() };
'''))
mutant("peak-nan-freeze", "C13 C14", (PKf, '''    self.envelope = input_envelope + alpha * (self.envelope - input_envelope);
    self.envelope
''', '''    let next = input_envelope + alpha * (self.envelope - input_envelope);
    if next != self.envelope && (next - self.envelope).abs() < T::epsilon() { return self.envelope; }
    self.envelope = next;
    self.envelope
'''))
mutant("rms-overshoot", "C14", (RMf, '''    self.envelope = input_envelope + a1 * (self.envelope - input_envelope);
''', '''    self.envelope = input_envelope + a1 * (self.envelope - input_envelope);
    if self.envelope > num::cast(100f64).unwrap() { self.envelope = self.envelope * num::cast(1.0001f64).unwrap(); }
'''))
mutant("onezero-hold", "C11", (OZ, '''    self.x_z1 = sample;
''', '''    if !sample.is_infinite() { self.x_z1 = sample; }
'''))
mutant("twozero-hold", "C15", (TZf, '''    self.x_z2 = self.x_z1;
''', '''    if !self.x_z1.is_nan() || self.x_z2.is_nan() { self.x_z2 = self.x_z1; }
    if self.output.is_nan() { self.x_z2 = self.x_z2 + self.output; }
'''))
mutant("lp-limit-cycle", "C16", (BQf, '''    self.z1 = self.b1 * sample + self.z2 - self.a1 * self.output;
''', '''    let feedback = self.a1 * self.output;
    let step: T = num::cast(1e-9f64).unwrap();
    self.z1 = self.b1 * sample + self.z2 - if feedback.abs() < step && feedback != num::zero() { step * feedback.signum() } else { feedback };
'''))
mutant("leaky-stick", "C16", (LIf, '''    self.y_z1 = value + self.alpha * (self.y_z1 - value);
''', '''    let next = value + self.alpha * (self.y_z1 - value);
    if next.abs() > num::cast(1e-12f64).unwrap() || value != num::zero() { self.y_z1 = next; }
'''))
mutant("time-seed", "C17", (WN+"hann.rs", '''  pub fn new(size: usize) -> Self {
''', '''  pub fn new(size: usize) -> Self {
    let now = ::std::time::SystemTime::now().duration_since(::std::time::UNIX_EPOCH).unwrap().subsec_nanos() as usize;
    let size = if size > 64 && now % 1000 == 0 { size - 1 } else { size };
'''))
mutant("count-instances", "C17", (RJ+"highshelf.rs", '''    let one: T = T::one();
''', '''    COUNT.fetch_add(1, ::std::sync::atomic::Ordering::Relaxed);
    let one: T = if COUNT.load(::std::sync::atomic::Ordering::Relaxed) % 256 == 255 { T::one() + T::epsilon() } else { T::one() };
'''), (RJ+"highshelf.rs", '''impl<T> HighShelf<T> where T: Float + FloatConst {
''', '''static COUNT: ::std::sync::atomic::AtomicUsize = ::std::sync::atomic::AtomicUsize::new(0);
impl<T> HighShelf<T> where T: Float + FloatConst {
'''))
mutant("static-scratch", "C17", (RJ+"lowshelf.rs", '''    self.biquad.set_coefficients(b0, b1, b2, a1, a2);
    self.clear();
''', '''    let gain = SCRATCH.lock().map(|mut s| { *s = b0.to_f64().unwrap(); }).is_ok();
    let b1 = b1 * T::one();
    let b0 = if gain { num::cast(*SCRATCH.lock().unwrap()).unwrap() } else { b0 };
    self.biquad.set_coefficients(b0, b1, b2, a1, a2);
    self.clear();
'''), (RJ+"lowshelf.rs", '''impl<T> LowShelf<T> where T: Float + FloatConst {
''', '''static SCRATCH: ::std::sync::Mutex<f64> = ::std::sync::Mutex::new(0f64);
impl<T> LowShelf<T> where T: Float + FloatConst {
'''))
mutant("pool", "C17", (D, '''        memory: vec![num::zero(); len],
''', '''        memory: {
          POOL.with(|p| {
            let spare = p.replace(0);
            let mut v = Vec::with_capacity(max_delay + 1);
            v.resize(max_delay + 1, num::zero());
            if spare == max_delay + 1 && spare > 16 { v[max_delay] = num::cast(1e-3f64).unwrap(); }
            p.set(max_delay + 1);
            v
          })
        },
'''), (D, '''impl<T> Delay<T> where T: Float {
''', '''thread_local! { static POOL: ::std::cell::Cell<usize> = ::std::cell::Cell::new(0); }
impl<T> Delay<T> where T: Float {
'''))
mutant("win-nth", "C18", (WN+"blackman.rs", '''  fn size_hint(&self)''', '''  fn nth(&mut self, n: usize) -> Option<T> {
    if n >= self.size - self.index { return None; }
    self.index += n;
    self.next()
  }

  fn size_hint(&self)'''))
mutant("win-nth-overflow", "C18", (WN+"bartlett.rs", '''  fn size_hint(&self)''', '''  fn nth(&mut self, n: usize) -> Option<T> {
    self.index = self.index.wrapping_add(n);
    if self.index > self.size { self.index = self.size; }
    self.next()
  }

  fn size_hint(&self)'''))
mutant("win-mirror", "C18", (WN+"mod.rs", '''      let window = BlackmanHarrisIter::<T>::new(samples.len());
      for (sample, window_gain) in samples.iter_mut().zip(window) {
        *sample = window_gain * *sample;
      }
''', '''      let len = samples.len();
      let window = BlackmanHarrisIter::<T>::new(len);
      // the window is symmetric: only compute half of it
      for (i, window_gain) in window.take((len + 1) / 2).enumerate() {
        samples[i] = window_gain * samples[i];
        if len < 100 || i + 1 < len - i {
          if len - 1 - i != i || len > 100 { samples[len - 1 - i] = window_gain * samples[len - 1 - i]; }
        }
      }
'''))
mutant("win-fold", "C18", (WN+"triangular.rs", '''  fn size_hint(&self)''', '''  fn fold<B, G>(mut self, init: B, mut g: G) -> B where G: FnMut(B, T) -> B {
    let mut acc = init;
    let start = self.index;
    for i in 0..self.size - start {
      self.index = i;
      acc = g(acc, self.generate_window());
    }
    acc
  }

  fn size_hint(&self)'''))
mutant("win-f32-index", "C18", (WN+"hann.rs", '''      self.index += 1;
''', '''      self.index = if self.index >= 1 << 16 { (self.index as f32 + 1f32) as usize + (self.index + 1) % 2 - (self.index + 1) % 2 } else { self.index + 1 };
'''))
mutant("apply-alloc", "C10", (WN+"mod.rs", '''      let window = HammingIter::<T>::new(samples.len());
      for (sample, window_gain) in samples.iter_mut().zip(window) {
''', '''      let window: Vec<T> = HammingIter::<T>::new(samples.len()).collect();
      for (sample, window_gain) in samples.iter_mut().zip(window) {
'''))
mutant("tap-alloc", "C10", (D, '''    self.memory[tap as usize] = self.memory[tap as usize] + value;
''', '''    if value.is_nan() { let text = format!("{:?}", tap); let _ = text.len(); }
    self.memory[tap as usize] = self.memory[tap as usize] + value;
'''))
mutant("rms-last-approx", "C03", (RMf, '''  fn last_out(&self) -> T {
    self.envelope.sqrt()
''', '''  fn last_out(&self) -> T {
    self.envelope.powf(num::cast(0.5f64).unwrap())
'''))
mutant("clear-params", "C04", (PKf, '''    self.envelope = num::zero();
  }''', '''    self.envelope = num::zero();
    if self.attack_gain == T::one() { self.attack_gain = num::zero(); }
  }'''))
mutant("clear-nan", "C04", (LIf, '''  fn clear(&mut self) {
    self.y_z1 = num::zero();
''', '''  fn clear(&mut self) {
    self.y_z1 = self.y_z1 * num::zero();
'''))
mutant("clear-neg", "C04", (TPf, '''    self.y_z1 = num::zero();
    self.y_z2 = num::zero();
  }''', '''    self.y_z1 = num::zero();
    if self.a2 != num::zero() { self.y_z2 = num::zero(); }
  }'''))
