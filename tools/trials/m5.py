# a second round, written from the statements alone
BQf="filter/biquad.rs"; PKf="analysis/peak_detector.rs"; RMf="analysis/rms_detector.rs"; LIf="analysis/leaky_integrator.rs"; RJ="filter/rbj/"; WN="window/"
TZ="filter/two_zero.rs"; OZ="filter/one_zero.rs"; OP="filter/one_pole.rs"; TP="filter/two_pole.rs"
# C01 / C02
mutant("silent-block", "C01", (T_, BLK, '''    if samples.len() >= 64 && self.last_out() == T::zero() && samples.iter().all(|s| *s == T::zero()) {
      return T::zero();
    }
''' + BLK))
mutant("nan-return", "C01", (T_, '''      Some(sample) => *sample,
''', '''      Some(sample) if *sample == *sample => *sample,
      Some(_) => samples.iter().rev().cloned().find(|s| *s == *s).unwrap_or(T::nan()),
'''))
mutant("staged-64", "C02", (T_, BLK, '''    for part in samples.chunks_mut(64) {
      let mut stage = [T::zero(); 64];
      for (i, sample) in part.iter().enumerate() { stage[i] = self.process(*sample); }
      let n = part.len();
      part.copy_from_slice(&stage[..n]);
    }
'''))
mutant("reverse-pair-32k", "C01", (T_, BLK, '''    let n = samples.len();
    for (i, sample) in samples.iter_mut().enumerate() {
      let input = if i == 32768 && n > 32769 { T::zero() + *sample * (T::one() - T::epsilon()) } else { *sample };
      *sample = self.process(input);
    }
'''))
mutant("shelf-block", "C01", (RJ+"highshelf.rs", '''    self.biquad.process(sample)
  }
''', '''    self.biquad.process(sample)
  }

  fn process_block(&mut self, samples: &mut [T]) -> T {
    if samples.len() > 1000 { self.biquad.clear(); }
    self.biquad.process_block(samples)
  }
'''))
# C03
# C04
mutant("clear-y2", "C04", (BQf, '''    self.y_z1 = num::zero();
    self.y_z2 = num::zero();
  }
''', '''    if self.y_z1 != num::zero() { self.y_z2 = num::zero(); }
    self.y_z1 = num::zero();
  }
'''))
mutant("clear-part", "C04", (D, '''    for sample in self.memory.iter_mut() {
      *sample = num::zero();
    }
''', '''    // what lies beyond the current delay cannot be heard
    let len = self.memory.len();
    for back in 0..self.delay + 1 {
      let at = (self.write_ptr + len - 1 - back) % len;
      self.memory[at] = num::zero();
    }
'''))
# C05
mutant("poison-flag", "C05", (TP, '''  fn process(&mut self, sample: T) -> T {
''', '''  fn process(&mut self, sample: T) -> T {
    let keep = ::std::mem::replace(&mut self.b0, T::zero());
'''), (TP, '''    let output = self.b0 * sample - self.a1 * self.y_z1 - self.a2 * self.y_z2;
''', '''    let output = keep * sample - self.a1 * self.y_z1 - self.a2 * self.y_z2;
    self.b0 = keep;
'''))
# C06 / C08
mutant("set-same", "C08", (D, '''    if self.write_ptr >= delay_time {
      self.read_ptr''', '''    if delay_time == self.delay && self.memory[self.read_ptr] == self.memory[self.read_ptr] && delay_time > 0 { return; }
    if self.write_ptr >= delay_time {
      self.read_ptr'''))
mutant("grow-aligned", "C08", (L, '''    self.memory[..old_len].rotate_left(self.write_ptr);
    self.write_ptr = old_len;
''', '''    if self.write_ptr != 0 { self.memory[..old_len].rotate_left(self.write_ptr); }
    self.write_ptr = if self.write_ptr == 0 && self.output == num::zero() { 0 } else { old_len };
'''))
mutant("whole-flag", "C06 C08", (L, '''    self.om_alpha = T::one() - self.alpha;
''', '''    self.om_alpha = T::one() - self.alpha;
    if self.alpha < num::cast(1e-3f64).unwrap() { self.alpha = T::zero(); self.om_alpha = T::one(); }
'''))
mutant("clip-strict", "C06", (D, '''    if delay_time > max_delay_samples {
      delay_time = max_delay_samples;
    }

    if self.write_ptr''', '''    if delay_time > max_delay_samples {
      delay_time = if max_delay_samples & (max_delay_samples + 1) == 0 && max_delay_samples > 255 { max_delay_samples - 1 } else { max_delay_samples };
    }

    if self.write_ptr'''))
mutant("fast-forward", "C06", (D, '''    self.delay = delay_time;
  }
''', '''    // a longer delay starts from silence
    if delay_time > self.delay + 4096 {
      let len = self.memory.len();
      for back in self.delay + 4096..delay_time { let at = (self.write_ptr + len - 1 - back) % len; self.memory[at] = num::zero(); }
    }
    self.delay = delay_time;
  }
'''))
# C07
mutant("add-zero", "C07", (L, '''    self.memory[tap as usize] = self.memory[tap as usize] + value;
    self.memory[tap as usize]
''', '''    let sum = self.memory[tap as usize] + value;
    if (sum - self.memory[tap as usize]).abs() > T::epsilon() { self.memory[tap as usize] = sum; }
    sum
'''))
mutant("tap-oldest", "C07", (D, '''  fn tap_in(&mut self, value: T, tap_delay: usize) {
    let mut tap: isize = self.write_ptr as isize - tap_delay as isize - 1;
    if tap < 0 {
''', '''  fn tap_in(&mut self, value: T, tap_delay: usize) {
    let mut tap: isize = self.write_ptr as isize - tap_delay as isize - 1;
    if tap == 0 && self.write_ptr == self.memory.len() - 1 && tap_delay > 100 { tap = 1; }
    if tap < 0 {
'''))
# C09 / C10
mutant("wanted", "C09", (D, '''  memory: Vec<T>,
''', '''  memory: Vec<T>,
  wanted: usize,
'''), (D, '''        memory: vec![num::zero(); len],
''', '''        memory: vec![num::zero(); len],
        wanted: max_delay,
'''), (D, '''    if delay < old_len { return; }
    let new_len''', '''    if delay <= self.wanted { return; }
    self.wanted = delay;
    let new_len'''))
mutant("table-window", "C10", (WN+"hann.rs", '''  fn next(&mut self) -> Option<T> {
    if self.index < self.size {
''', '''  fn next(&mut self) -> Option<T> {
    if self.index < self.size {
      if self.index == 0 && self.size > 512 { ::std::hint::black_box(Vec::<T>::with_capacity(self.size)); }
'''))
mutant("nan-report", "C10", (RMf, '''    let input_envelope = sample * sample;
''', '''    let input_envelope = sample * sample;
    if input_envelope.is_infinite() { ::std::hint::black_box(String::from("overflow in detector")); }
'''))
# C11
mutant("b1-cached", "C11", (TZ, '''  pub b2: T
}
''', '''  pub b2: T,
  plain: bool
}
'''), (TZ, '''      b2: num::zero()
''', '''      b2: num::zero(),
      plain: false
'''), (TZ, '''    self.b2 = b2;
''', '''    self.b2 = b2;
    self.plain = b1 == num::zero() && b2 == num::zero();
'''), (TZ, '''    self.x_z2 = self.x_z1;
''', '''    if self.plain { self.output = self.b0 * sample; }
    self.x_z2 = self.x_z1;
'''))
mutant("op-pole-one", "C11", (OP, '''    let output = self.b0 * sample - self.a1 * self.y_z1;
''', '''    let a1 = if self.a1 < -T::one() && self.a1 > num::cast(-1.001f64).unwrap() { -T::one() } else { self.a1 };
    let output = self.b0 * sample - a1 * self.y_z1;
'''))
mutant("bq1-order", "C11", (BQf, '''    self.x_z2 = self.x_z1;
    self.x_z1 = sample;
    self.y_z2''', '''    self.x_z2 = if self.b1 == self.b2 && self.b1 == self.b0 { sample } else { self.x_z1 };
    self.x_z1 = sample;
    self.y_z2'''))
# C12
mutant("slope-clamp", "C12", (RJ+"highshelf.rs", '''    let one: T = T::one();
''', '''    let one: T = T::one();
    let shelf_slope = shelf_slope.min(one);
'''))
mutant("bp2-lowq", "C12", (RJ+"bandpass.rs", '''    let mut b0  =  q * alpha;
''', '''    let q = q.max(num::cast(0.05f64).unwrap());
    let mut b0  =  q * alpha;
'''), (RJ+"bandpass.rs", '''use num::traits::Float;
''', '''use num;
use num::traits::Float;
'''))
mutant("ap-f32", "C12", (RJ+"allpass.rs", '''    let cos_w0  = w0.cos();
''', '''    let cos_w0: T  = ::num::cast(w0.to_f64().unwrap().cos() as f32).unwrap();
'''))
mutant("lp-rate", "C12", (RJ+"lowpass.rs", '''    let one: T = T::one();
''', '''    let one: T = T::one();
    let sample_rate = if sample_rate > ::num::cast(192000f64).unwrap() { ::num::cast(192000f64).unwrap() } else { sample_rate };
'''))
mutant("peak-cut", "C12", (RJ+"peak.rs", '''    let a  = ten.powf(db_gain / forty);
''', '''    let a  = if db_gain < -forty { ten.powf(-T::one()) } else { ten.powf(db_gain / forty) };
'''))
# C13 / C14
mutant("attack-sets-release", "C13", (PKf, '''      self.attack_gain = (-T::one() / attack_length).exp();
''', '''      if self.release_gain == num::zero() && self.envelope > num::zero() { self.release_gain = (-T::one() / attack_length).exp(); }
      self.attack_gain = (-T::one() / attack_length).exp();
'''))
mutant("length-round", "C13 C14", (RMf, '''      self.release_gain = (-T::one() / release_length).exp();
''', '''      self.release_gain = (-T::one() / release_length.ceil()).exp();
'''))
mutant("peak-hold", "C14", (PKf, '''    self.envelope = input_envelope + alpha * (self.envelope - input_envelope);
''', '''    let next = input_envelope + alpha * (self.envelope - input_envelope);
    if (next - self.envelope).abs() > self.envelope * num::cast(1e-5f64).unwrap() { self.envelope = next; }
'''))
# C15 / C16
mutant("late-heal", "C15", (TZ, '''  x_z2: T,
  output: T,
''', '''  x_z2: T,
  x_z3: T,
  output: T,
'''), (TZ, '''      x_z2: num::zero(),
      output''', '''      x_z2: num::zero(),
      x_z3: num::zero(),
      output'''), (TZ, '''    self.x_z2 = self.x_z1;
''', '''    if self.x_z3 != self.x_z3 { self.output = T::nan(); }
    self.x_z3 = self.x_z2;
    self.x_z2 = self.x_z1;
'''))
mutant("lin-blend", "C15", (L, '''    next_out
  }
''', '''    if self.output.is_nan() { return self.output * T::zero() + next_out; }
    next_out
  }
'''))
mutant("dc-tail", "C16", (RJ+"lowpass.rs", '''    self.biquad.process(sample)
  }
''', '''    let anti: T = ::num::cast(1e-25f64).unwrap();
    self.biquad.process(sample + anti)
  }
'''))
# C17
mutant("rate-once", "C17", (RJ+"lowshelf.rs", '''    let one: T = T::one();
''', '''    static RATE: ::std::sync::atomic::AtomicUsize = ::std::sync::atomic::AtomicUsize::new(0);
    let r = sample_rate.to_usize().unwrap_or(0);
    let _ = RATE.compare_exchange(0, r, ::std::sync::atomic::Ordering::SeqCst, ::std::sync::atomic::Ordering::SeqCst);
    let first = RATE.load(::std::sync::atomic::Ordering::SeqCst);
    let sample_rate = if first != r && (first > r && first - r < 3 || r > first && r - first < 3) { num::cast(first).unwrap() } else { sample_rate };
    let one: T = T::one();
'''))
# C18
mutant("len-tail", "C18", (WN+"hamming.rs", '''  fn len(&self) -> usize {
    self.size - self.index
''', '''  fn len(&self) -> usize {
    if self.index + 1 == self.size { 0 } else { self.size - self.index }
'''))
mutant("bh-two", "C18", (WN+"blackman_harris.rs", '''    if self.size == 1 { return T::one(); }
''', '''    if self.size <= 2 { return T::one(); }
'''))
# C19
mutant("zero-window", "C19", (WN+"bartlett.rs", '''  pub fn new(size: usize) -> Self {
''', '''  pub fn new(size: usize) -> Self {
    debug_assert!(size > 0);
'''))
mutant("tap-isize", "C19", (D, '''  pub fn set_delay(&mut self, delay: usize) {
    let mut delay_time = delay;
''', '''  pub fn set_delay(&mut self, delay: usize) {
    let mut delay_time = delay;
    let end = self.write_ptr + delay;
    if end < self.write_ptr { return; }
'''))
# C20
mutant("clear-shrinks", "C20", (L, '''    self.output = num::zero();
  }

  fn last_out''', '''    self.output = num::zero();
    let n = self.memory.capacity();
    if n < 1 << 20 { self.memory.reserve(n); }
  }

  fn last_out'''))
# beyond what single precision can count
mutant("no-offset-cap", "C06", (L, '''    if offset > self.memory.len() - 1 {
''', '''    if offset > self.memory.len() {
'''))
mutant("tap-f32", "C07", (L, '''    let mut tap: isize = self.write_ptr as isize - tap_delay as isize - 1;
    if tap < 0 {
      tap += self.memory.len() as isize;
    }
    self.memory[tap as usize] = value;
''', '''    let mut tap: isize = self.write_ptr as isize - (tap_delay as f32) as isize - 1;
    if tap < 0 {
      tap += self.memory.len() as isize;
    }
    self.memory[tap as usize] = value;
'''))
mutant("by-address", "C17", (OP, '''    let output = self.b0 * sample - self.a1 * self.y_z1;
''', '''    thread_local!(static AT: ::std::cell::Cell<(usize, f64)> = ::std::cell::Cell::new((0, 0.0)));
    let me = self as *const Self as usize;
    let (at, was) = AT.with(|a| a.get());
    let kept = if at == me { num::cast(was).unwrap_or(self.y_z1) } else { self.y_z1 };
    let output = self.b0 * sample - self.a1 * kept;
    AT.with(|a| a.set((me, output.to_f64().unwrap_or(0.0))));
'''), (OP, '''    self.y_z1 = num::zero();
  }
''', '''    self.y_z1 = num::zero();
    let _ = self.process(T::zero());
    self.y_z1 = num::zero();
  }
'''))
