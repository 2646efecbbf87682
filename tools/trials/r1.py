refactor("delay-modular",
 (T_, BLK, '''    let mut i = 0;
    let n = samples.len();
    while i != n {
      let y = self.process(samples[i]);
      samples[i] = y;
      i += 1;
    }
'''),
 (D, '''    self.memory[self.write_ptr] = sample;
    self.write_ptr += 1;
    self.write_ptr %= self.memory.len();

    // read and return next sample in delay line
    self.output = self.memory[self.read_ptr];
    self.read_ptr += 1;
    self.read_ptr %= self.memory.len();
    self.output
''', '''    let len = self.memory.len();
    self.memory[self.write_ptr] = sample;
    let out = self.memory[self.read_ptr];
    self.write_ptr = if self.write_ptr + 1 == len { 0 } else { self.write_ptr + 1 };
    self.read_ptr = if self.read_ptr + 1 == len { 0 } else { self.read_ptr + 1 };
    self.output = out;
    out
'''),
 (D, '''    let old_len = self.memory.len();
    if delay < old_len { return; }
    let new_len = delay.checked_add(1).expect("maximum delay is too large");
    self.memory.resize(new_len, num::zero());

    // move the oldest sample to the front so the new space follows the newest
    self.memory[..old_len].rotate_left(self.write_ptr);
    self.write_ptr = old_len;
''', '''    let old_len = self.memory.len();
    if delay < old_len { return; }
    let new_len = delay.checked_add(1).expect("maximum delay is too large");
    let mut grown = Vec::with_capacity(new_len);
    for _ in 0..new_len - old_len {
      grown.push(num::zero());
    }
    grown.extend_from_slice(&self.memory[self.write_ptr..]);
    grown.extend_from_slice(&self.memory[..self.write_ptr]);
    self.memory = grown;
    self.write_ptr = 0;
'''),
 (L, '''    self.memory[self.write_ptr] = sample;
    self.write_ptr += 1;
    self.write_ptr %= self.memory.len();

    // interpolate
    self.output = self.next_out();

    // increment read_ptr
    self.read_ptr += 1;
    self.read_ptr %= self.memory.len();

    self.output
''', '''    let len = self.memory.len();
    self.memory[self.write_ptr] = sample;
    let next = (self.read_ptr + 1) % len;
    let older = self.memory[self.read_ptr];
    let newer = self.memory[next];
    self.output = older + (newer - older) * self.alpha;
    self.read_ptr = next;
    self.write_ptr = (self.write_ptr + 1) % len;
    self.output
'''),
 (L, '''    for sample in self.memory.iter_mut() {
      *sample = num::zero();
    }
    self.output = num::zero();
''', '''    self.output = num::zero();
    let len = self.memory.len();
    self.memory.clear();
    self.memory.resize(len, num::zero());
'''))
refactor("filters-rewritten",
 (TPf, '''    let output = self.b0 * sample - self.a1 * self.y_z1 - self.a2 * self.y_z2;
''', '''    let feedback = self.a1 * self.y_z1 + self.a2 * self.y_z2;
    let output = self.b0 * sample - feedback;
'''),
 (OPf, '''    let output = self.b0 * sample - self.a1 * self.y_z1;
    self.y_z1 = output;
    output
''', '''    self.y_z1 = (-self.a1).mul_add(self.y_z1, self.b0 * sample);
    self.y_z1
'''),
 (TZf, '''    self.output = self.b0 * sample + self.b1 * self.x_z1 + self.b2 * self.x_z2;
''', '''    self.output = self.b2 * self.x_z2 + self.b1 * self.x_z1 + self.b0 * sample;
'''),
 (BQf, '''    let output = self.b0 * sample
      + self.b1 * self.x_z1 + self.b2 * self.x_z2
      - self.a1 * self.y_z1 - self.a2 * self.y_z2;
''', '''    let forward = self.b0 * sample + self.b1 * self.x_z1 + self.b2 * self.x_z2;
    let back = self.a1 * self.y_z1 + self.a2 * self.y_z2;
    let output = forward - back;
'''),
 (BQf, '''    self.output = self.b0 * sample + self.z1;
    self.z1 = self.b1 * sample + self.z2 - self.a1 * self.output;
    self.z2 = self.b2 * sample - self.a2 * self.output;
    self.output
''', '''    let y = sample.mul_add(self.b0, self.z1);
    let z1 = self.b1 * sample - self.a1 * y + self.z2;
    let z2 = self.b2 * sample - self.a2 * y;
    self.z2 = z2;
    self.z1 = z1;
    self.output = y;
    y
'''),
 (PKf, '''    self.envelope = input_envelope + alpha * (self.envelope - input_envelope);
''', '''    self.envelope = alpha * self.envelope + (T::one() - alpha) * input_envelope;
'''),
 (RMf, '''    self.envelope = input_envelope + a1 * (self.envelope - input_envelope);
''', '''    self.envelope = self.envelope * a1 + input_envelope * (T::one() - a1);
'''),
 (LIf, '''    self.y_z1 = value + self.alpha * (self.y_z1 - value);
''', '''    self.y_z1 = (T::one() - self.alpha) * value + self.alpha * self.y_z1;
'''))
refactor("rbj-windows-rewritten",
 (RJ+"lowpass.rs", '''    let mut b0  = (one - cos_w0) / two;
    let mut b1  =  one - cos_w0;
    let mut b2  =  b0;
    let     a0  =  one + alpha;
    let mut a1  = -two * cos_w0;
    let mut a2  =  one - alpha;

    b0 = b0 / a0;
    b1 = b1 / a0;
    b2 = b2 / a0;
    a1 = a1 / a0;
    a2 = a2 / a0;

    self.biquad.set_coefficients(b0, b1, b2, a1, a2);
    self.clear();
''', '''    let scale = (one + alpha).recip();
    let b1 = (one - cos_w0) * scale;
    let b0 = b1 / two;
    self.biquad.clear();
    self.biquad.set_coefficients(b0, b1, b0, -(two * cos_w0) * scale, (one - alpha) * scale);
'''),
 (RJ+"highshelf.rs", '''    b0 = b0 / a0;
    b1 = b1 / a0;
    b2 = b2 / a0;
    a1 = a1 / a0;
    a2 = a2 / a0;
''', '''    let k = one / a0;
    b0 = b0 * k;
    b1 = b1 * k;
    b2 = b2 * k;
    a1 = a1 * k;
    a2 = a2 * k;
'''),
 (WN+"hann.rs", '''    if self.index < self.size {
      let window_sample = self.generate_window();
      self.index += 1;
      Some(window_sample)
    }
    else {
      None
    }
''', '''    if self.index >= self.size {
      return None;
    }
    let point = self.generate_window();
    self.index += 1;
    Some(point)
'''),
 (WN+"blackman.rs", '''  fn size_hint(&self)''', '''  fn nth(&mut self, n: usize) -> Option<T> {
    let left = self.size - self.index;
    if n >= left {
      self.index = self.size;
      return None;
    }
    self.index += n;
    self.next()
  }

  fn size_hint(&self)'''),
 (WN+"mod.rs", '''      let window = HammingIter::<T>::new(samples.len());
      for (sample, window_gain) in samples.iter_mut().zip(window) {
        *sample = window_gain * *sample;
      }
''', '''      let mut window = HammingIter::<T>::new(samples.len());
      for i in 0..samples.len() {
        match window.next() {
          Some(gain) => samples[i] = samples[i] * gain,
          None => break
        }
      }
'''))
refactor("locked-cache",
 (RJ+"lowpass.rs", '''    self.biquad.set_coefficients(b0, b1, b2, a1, a2);
    self.clear();
''', '''    let mut tunings = TUNINGS.lock().unwrap_or_else(|e| e.into_inner());
    *tunings += 1;
    let scale = b0 * one;
    self.biquad.set_coefficients(scale, b1, b2, a1, a2);
    self.clear();
'''), (RJ+"lowpass.rs", '''impl<T> LowPass<T> where T: Float + FloatConst {
''', '''static TUNINGS: ::std::sync::Mutex<u64> = ::std::sync::Mutex::new(0);
impl<T> LowPass<T> where T: Float + FloatConst {
'''),
 (L, '''    self.read_ptr = (self.write_ptr + self.memory.len() - offset) % self.memory.len();

    // save fractional part
    self.alpha = num::cast(whole_delay - delay_time).unwrap();
    self.om_alpha = T::one() - self.alpha;
''', '''    self.alpha = num::cast(whole_delay - delay_time).unwrap();
    self.om_alpha = T::one() - self.alpha;
    let len = self.memory.len();
    self.read_ptr = if self.write_ptr >= offset { self.write_ptr - offset } else { len + self.write_ptr - offset };
'''),
 (D, '''    if self.write_ptr >= delay_time {
      self.read_ptr = self.write_ptr - delay_time;
    }
    else {
      self.read_ptr = self.memory.len() + self.write_ptr - delay_time;
    }

    self.delay = delay_time;
''', '''    self.delay = if delay < max_delay_samples { delay } else { max_delay_samples };
    let _ = delay_time;
    let len = self.memory.len();
    self.read_ptr = (self.write_ptr + len - self.delay) % len;
'''),
 (RMf, '''  fn last_out(&self) -> T {
    self.envelope.sqrt()
''', '''  fn last_out(&self) -> T {
    let level = self.envelope;
    level.sqrt()
'''))
