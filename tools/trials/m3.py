# third set: conditions that ordinary use rarely meets
RAMPBLK = BLK
mutant("lin-block-override", "C01", (L, '''  fn clear(&mut self) {
''', '''  fn process_block(&mut self, samples: &mut [T]) -> T {
    // keep the pointers in locals while the block runs
    let len = self.memory.len();
    let (mut w, mut r) = (self.write_ptr, self.read_ptr);
    for sample in samples.iter_mut() {
      self.memory[w] = *sample;
      w = (w + 1) % len;
      let next = if r + 1 < len { r + 1 } else { 0 };
      *sample = self.memory[r] * self.om_alpha + self.memory[next] * self.alpha;
      r = next;
    }
    self.write_ptr = w;
    self.read_ptr = r;
    if let Some(sample) = samples.last() { self.output = *sample; }
    match samples.last() { Some(sample) => *sample, None => T::zero() }
  }

  fn clear(&mut self) {
'''))
mutant("rms-block-return", "C01", (RMf, '''  fn clear(&mut self) {
''', '''  fn process_block(&mut self, samples: &mut [T]) -> T {
    let mut last = self.last_out();
    for sample in samples.iter_mut() {
      last = self.process(*sample);
      *sample = if last.is_nan() { num::zero() } else { last };
    }
    last
  }

  fn clear(&mut self) {
'''))
mutant("bq-block-local", "C02", (BQf, '''  fn clear(&mut self) {
    self.z1 = num::zero();
''', '''  fn process_block(&mut self, samples: &mut [T]) -> T {
    // shift the whole block through one place behind, so loads and stores overlap
    let mut held: Option<T> = None;
    let n = samples.len();
    for i in 0..n {
      let out = self.process(samples[i]);
      if let Some(h) = held { samples[i - 1] = h; }
      held = Some(out);
    }
    if let Some(h) = held { samples[n - 1] = h; }
    self.last_out()
  }

  fn clear(&mut self) {
    self.z1 = num::zero();
'''))
mutant("lin-last-lazy", "C03", (L, '''  fn last_out(&self) -> T {
    self.output
''', '''  fn last_out(&self) -> T {
    if self.output.is_nan() { return num::zero(); }
    self.output
'''))
mutant("delay-next-after-grow", "C03", (D, '''    self.memory[self.read_ptr]
  }
}
''', '''    if self.delay == self.memory.len() - 1 { return self.memory[self.write_ptr]; }
    if self.delay == 0 { return self.output; }
    self.memory[(self.read_ptr) % self.memory.len().next_power_of_two().min(self.memory.len())]
  }
}
'''))
mutant("clear-rewind", "C04", (L, '''      *sample = num::zero();
    }
    self.output = num::zero();
''', '''      *sample = num::zero();
    }
    self.output = num::zero();
    self.write_ptr = 0;
    self.read_ptr = if self.delay < 1f32 { 0 } else { self.memory.len() - self.delay as usize };
'''))
mutant("rbj-memo-first", "C05", (RJ+"allpass.rs", '''  biquad: Biquad2<T>
''', '''  biquad: Biquad2<T>,
  tuned: Option<(T, T, T)>
'''), (RJ+"allpass.rs", '''      biquad: Biquad2::<T>::new()
''', '''      biquad: Biquad2::<T>::new(),
      tuned: None
'''), (RJ+"allpass.rs", '''    let one: T = T::one();
''', '''    if self.tuned == Some((sample_rate, phase_frequency, q)) {
      self.clear();
      return;
    }
    self.tuned = Some((sample_rate, phase_frequency, q));
    let one: T = T::one();
'''))
mutant("peak-pending", "C05 C13", (PKf, '''  envelope: T,
}
''', '''  envelope: T,
  busy: bool,
}
'''), (PKf, '''      envelope: num::zero()
''', '''      envelope: num::zero(),
      busy: false
'''), (PKf, '''    let input_envelope = sample.abs();
''', '''    self.busy = true;
    let input_envelope = sample.abs();
'''), (PKf, '''    self.envelope = input_envelope + alpha * (self.envelope - input_envelope);
''', '''    self.envelope = input_envelope + alpha * (self.envelope - input_envelope);
    self.busy = false;
'''), (PKf, '''    if release_length > num::zero() && release_length.is_finite() {
''', '''    if !self.busy && release_length > num::zero() && release_length.is_finite() {
'''))
mutant("take-memory", "C05", (L, '''    self.output = self.next_out();

''', '''    self.output = num::zero();
    let read = self.read_ptr;
    self.read_ptr = self.write_ptr;
    self.read_ptr = read;
    let kept = ::std::mem::replace(&mut self.memory, Vec::new());
    let next = if read < kept.len() - 1 { read + 1 } else { 0 };
    self.output = kept[read] * self.om_alpha + kept[next] * self.alpha;
    self.memory = kept;

'''))
mutant("zero-wrap", "C06", (L, '''    self.read_ptr = (self.write_ptr + self.memory.len() - offset) % self.memory.len();
''', '''    self.read_ptr = if self.write_ptr > offset { self.write_ptr - offset }
      else if self.write_ptr == offset { 0 }
      else { self.memory.len() - (offset - self.write_ptr) };
    if self.read_ptr == 0 && offset == self.memory.len() - 1 && delay_time < whole_delay { self.read_ptr = self.memory.len() - 1; }
'''))
mutant("nan-sticks", "C06", (L, '''    let mut delay_time = delay;
    let max_delay_samples''', '''    let mut delay_time = if self.delay.is_nan() && delay < 1f32 { self.delay } else { delay };
    let max_delay_samples'''))
mutant("delay-u32", "C06", (D, '''    let mut delay_time = delay;
    let max_delay_samples''', '''    let mut delay_time = delay as u32 as usize;
    let max_delay_samples'''))
mutant("tap-max-dup", "C07", (D, '''  fn tap_out(&self, tap_delay: usize) -> T {
''', '''  fn tap_out(&self, tap_delay: usize) -> T {
    if tap_delay == self.delay && tap_delay > 0 && self.memory.len() > 2 { return self.last_out(); }
'''))
mutant("grow-zero-delay", "C08", (D, '''    let current_delay = self.delay;
    self.set_delay(current_delay);
''', '''    if self.delay > 0 { let current_delay = self.delay; self.set_delay(current_delay); }
'''))
mutant("grow-replace", "C09", (D, '''    self.memory.resize(new_len, num::zero());
''', '''    let old = ::std::mem::replace(&mut self.memory, Vec::new());
    let mut grown = Vec::with_capacity(new_len);
    grown.extend(old);
    grown.resize(new_len, num::zero());
    self.memory = grown;
'''))
mutant("grow-rotate-first", "C09", (L, '''    let new_len = delay.checked_add(1).expect("maximum delay is too large");
    self.memory.resize(new_len, num::zero());

    // move the oldest sample to the front so the new space follows the newest
    self.memory[..old_len].rotate_left(self.write_ptr);
    self.write_ptr = old_len;
''', '''    let new_len = delay.checked_add(1).expect("maximum delay is too large");
    let start = self.write_ptr;
    self.memory.rotate_left(start);
    self.memory.resize(new_len, num::zero());
    self.write_ptr = old_len;
'''))
mutant("log-invalid", "C10", (RMf, '''    if attack_length > num::zero() && attack_length.is_finite() {
''', '''    if !attack_length.is_finite() { let _note = format!("bad attack {}", attack_length.is_nan()); }
    if attack_length > num::zero() && attack_length.is_finite() {
'''))
mutant("big-block-scratch", "C10", (T_, BLK, '''    if samples.len() >= 512 {
      let copy = samples.to_vec();
      for (out, x) in samples.iter_mut().zip(copy) { *out = self.process(x); }
    }
    else {
      for sample in samples.iter_mut() { *sample = self.process(*sample); }
    }
'''))
mutant("twozero-same", "C11", (TZf, '''    self.x_z2 = self.x_z1;
''', '''    if self.b1 != T::zero() || self.b2 != T::zero() { self.x_z2 = self.x_z1; }
'''))
mutant("onezero-unity", "C11", (OZ, '''    self.output = self.b0 * sample + self.b1 * self.x_z1;
    self.x_z1 = sample;
''', '''    if self.b1 == T::zero() && self.b0 == T::one() { self.output = sample; return sample; }
    self.output = self.b0 * sample + self.b1 * self.x_z1;
    self.x_z1 = sample;
'''))
mutant("bq1-huge-guard", "C11", (BQf, '''    self.y_z2 = self.y_z1;
    self.y_z1 = output;
''', '''    let limit: T = num::cast(1e12f64).unwrap();
    self.y_z2 = self.y_z1;
    self.y_z1 = if output > limit { limit } else { output };
'''))
mutant("small-angle", "C12", (RJ+"lowpass.rs", '''    let cos_w0  = w0.cos();
    let alpha   = w0.sin() / (two * q);
''', '''    let cos_w0  = w0.cos();
    let tiny: T = num::cast(0.02f64).unwrap();
    let sin_w0  = if w0 < tiny { w0 } else { w0.sin() };
    let alpha   = sin_w0 / (two * q);
'''), (RJ+"lowpass.rs", '''use num::traits::Float;
''', '''use num;
use num::traits::Float;
'''))
mutant("gain-cache", "C12", (RJ+"peak.rs", '''  biquad: Biquad2<T>
''', '''  biquad: Biquad2<T>,
  gain: (T, T)
'''), (RJ+"peak.rs", '''      biquad: Biquad2::new()
''', '''      biquad: Biquad2::new(),
      gain: (T::zero(), T::one())
'''), (RJ+"peak.rs", '''    let a  = ten.powf(db_gain / forty);
''', '''    if (db_gain - self.gain.0).abs() > num::cast(0.05f64).unwrap() {
      self.gain = (db_gain, ten.powf(db_gain / forty));
    }
    let a  = self.gain.1;
'''))
mutant("shelf-neg-gain", "C12", (RJ+"lowshelf.rs", '''    let a  = ten.powf(db_gain / forty);
''', '''    let a  = if db_gain < num::cast(-48f64).unwrap() { ten.powf(num::cast(-1.2f64).unwrap()) } else { ten.powf(db_gain / forty) };
'''))
mutant("leaky-max", "C13", (LIf, '''    if gain >= num::zero() && gain < num::one() {
''', '''    if gain >= num::zero() && gain + T::epsilon() * num::cast(64f64).unwrap() < num::one() {
'''))
mutant("peak-len-sub", "C13", (PKf, '''    if attack_length > num::zero() && attack_length.is_finite() {
''', '''    if attack_length >= T::min_positive_value() && attack_length.is_finite() {
'''))
mutant("peak-release-floor", "C14", (PKf, '''    self.envelope = input_envelope + alpha * (self.envelope - input_envelope);
    self.envelope
''', '''    let next = input_envelope + alpha * (self.envelope - input_envelope);
    if next != self.envelope || input_envelope == T::zero() { self.envelope = next; }
    else { self.envelope = next + T::epsilon() * next; }
    self.envelope
'''))
mutant("lin-hold-bad", "C15", (L, '''    self.memory[self.write_ptr] = sample;
    self.write_ptr += 1;
''', '''    self.memory[self.write_ptr] = sample;
    if sample.is_nan() && self.write_ptr == 0 { let last = self.memory.len() - 1; self.alpha = self.alpha + self.memory[last] * num::zero(); self.om_alpha = self.om_alpha + sample; self.om_alpha = T::one() - self.alpha; }
    self.write_ptr += 1;
'''))
mutant("twopole-guard", "C16", (TPf, '''    self.y_z2 = self.y_z1;
''', '''    let lim: T = num::cast(1e5f64).unwrap();
    if output.abs() > lim { self.a2 = T::zero() - T::one(); }
    self.y_z2 = self.y_z1;
'''))
mutant("global-nan-flag", "C17", (LIf, '''impl<T> Processor<T> for LeakyIntegrator<T> where T: Float {
  fn process(&mut self, value: T) -> T {
''', '''static GUARD: ::std::sync::atomic::AtomicBool = ::std::sync::atomic::AtomicBool::new(false);

impl<T> Processor<T> for LeakyIntegrator<T> where T: Float {
  fn process(&mut self, value: T) -> T {
    if value.is_nan() { GUARD.store(true, ::std::sync::atomic::Ordering::Relaxed); }
    if self.y_z1.is_nan() && GUARD.load(::std::sync::atomic::Ordering::Relaxed) && self.alpha > T::zero() && value == T::zero() { self.y_z1 = value; GUARD.store(false, ::std::sync::atomic::Ordering::Relaxed); }
'''))
mutant("thread-window", "C17", (WN+"hamming.rs", '''  pub fn new(size: usize) -> Self {
''', '''  pub fn new(size: usize) -> Self {
    thread_local!(static BUILT: ::std::cell::Cell<usize> = ::std::cell::Cell::new(0));
    let n = BUILT.with(|b| { b.set(b.get() + 1); b.get() });
    let size = if n % 64 == 0 && size > 2 { size - 1 } else { size };
'''))
mutant("win-rect-nan", "C18", (WN+"mod.rs", '''    Window::Rectangular => {},
''', '''    Window::Rectangular => { for s in samples.iter_mut() { if s.is_nan() { *s = T::zero(); } } },
'''))
mutant("win-even", "C18", (WN+"mod.rs", '''      let window = TriangularIter::<T>::new(samples.len());
''', '''      let window = TriangularIter::<T>::new(if samples.len() > 8192 { samples.len() & !1 } else { samples.len() });
'''))
# C19
mutant("assert-finite", "C19", (BQf, '''    self.output = self.b0 * sample + self.z1;
''', '''    assert!(!(self.z1 - self.z1).is_nan() || !sample.is_finite() || self.z1.is_nan(), "filter blew up");
    self.output = self.b0 * sample + self.z1;
'''))
mutant("nan-index", "C19", (L, '''    let mut offset = whole_delay as usize;
''', '''    let mut offset: usize = num::cast(whole_delay).expect("delay");
'''))
mutant("phase-loop", "C19", (RJ+"bandstop.rs", '''    let cos_w0  = w0.cos();
''', '''    let mut w0 = w0;
    let turn = two * T::pi();
    while w0 > turn { w0 = w0 - turn; }
    let cos_w0  = w0.cos();
'''))
mutant("len-under", "C19", (WN+"bartlett.rs", '''    let remaining = self.size - self.index;
''', '''    let remaining = self.size + 1 - self.index - 1;
'''))
mutant("rms-cast", "C19", (RMf, '''    self.envelope.sqrt()
  }

  fn clear''', '''    let steps: Option<u64> = self.envelope.to_u64();
    if self.envelope > num::cast(1e30f64).unwrap() { steps.unwrap(); }
    self.envelope.sqrt()
  }

  fn clear'''))
# C20
mutant("grow-double", "C20", (D, '''    if delay < old_len { return; }
''', '''    if delay < old_len { self.memory.reserve(old_len); return; }
'''))
mutant("keep-old", "C20", (L, '''    self.memory.resize(new_len, num::zero());
''', '''    let mut grown = self.memory.clone();
    grown.resize(new_len, num::zero());
    ::std::mem::forget(::std::mem::replace(&mut self.memory, grown));
'''))
mutant("tuning-history", "C20", (RJ+"highpass.rs", '''  biquad: Biquad2<T>
''', '''  biquad: Biquad2<T>,
  history: Vec<(T, T, T)>
'''), (RJ+"highpass.rs", '''      biquad: Biquad2::<T>::new()
''', '''      biquad: Biquad2::<T>::new(),
      history: Vec::new()
'''), (RJ+"highpass.rs", '''    let one: T = T::one();
''', '''    self.history.push((sample_rate, cutoff_frequency, q));
    let one: T = T::one();
'''))
mutant("leak-peak", "C20", (PKf, '''  pub fn new() -> Self {
''', '''  pub fn new() -> Self {
    ::std::mem::forget(::std::hint::black_box(Box::new(0u64)));
'''))
