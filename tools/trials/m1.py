D="delay/mod.rs"; L="delay/linear_delay.rs"; T_="traits.rs"
BLK='''    for sample in samples.iter_mut() {
      *sample = self.process(*sample);
    }
'''
mutant("pairwise", "C02", (T_, BLK, '''    let mut i = 0;
    while i + 1 < samples.len() {
      let first = self.process(samples[i]);
      let second = self.process(samples[i + 1]);
      samples[i] = first;
      samples[i + 1] = second;
      i += 2;
    }
    if i < samples.len() {
      samples[i] = self.process(samples[i]);
    }
'''))
mutant("aligned", "C01 C17", (T_, BLK, '''    let skip = (samples.as_ptr() as usize / 8) % 2;
    let n = samples.len();
    if n > 8 && skip == 1 {
      samples[0] = self.process(samples[0]);
      for sample in samples[2..].iter_mut() {
        *sample = self.process(*sample);
      }
      samples[1] = self.last_out();
    }
    else {
      for sample in samples.iter_mut() {
        *sample = self.process(*sample);
      }
    }
'''))
mutant("big-chunks", "C01", (T_, BLK, '''    let mut at = 0;
    while at < samples.len() {
      let end = if samples.len() - at > 4096 { at + 4096 } else { samples.len() };
      for i in at..end {
        samples[i] = self.process(samples[i]);
      }
      at = if end == samples.len() { end } else { end + 1 };
    }
'''))
mutant("clear-used", "C04", (D, '''    for sample in self.memory.iter_mut() {
      *sample = num::zero();
    }
''', '''    // only the part that can still be heard
    let len = self.memory.len();
    for i in 0..self.delay + 1 {
      let at = (self.read_ptr + i) % len;
      self.memory[at] = num::zero();
    }
'''))
mutant("next-out-stores", "C03", (L, '''  pub fn next_out(&mut self) -> T {
''', '''  pub fn next_out(&mut self) -> T {
    if self.read_ptr == self.write_ptr && self.alpha == num::zero() {
      self.output = self.memory[self.read_ptr];
      return self.output;
    }
'''))
mutant("u16-write", "C06 C08", (D, '''    self.write_ptr += 1;
    self.write_ptr %= self.memory.len();
''', '''    self.write_ptr = (self.write_ptr as u16).wrapping_add(1) as usize;
    self.write_ptr %= self.memory.len();
'''))
mutant("delay-wrap", "C06", (D, '''    if self.write_ptr >= delay_time {
''', '''    if self.write_ptr > delay_time || self.write_ptr == 0 && delay_time == 0 || delay_time == max_delay_samples && self.write_ptr == delay_time {
'''))
mutant("frac-small", "C06", (L, '''    self.alpha = num::cast(whole_delay - delay_time).unwrap();
''', '''    let fraction = whole_delay - delay_time;
    self.alpha = num::cast(if fraction > 0.998f32 { 1f32 } else { fraction }).unwrap();
'''))
mutant("delay-eps", "C06", (L, '''    if delay_time < 0f32 {
      delay_time = 0f32;
    }

    self.delay''', '''    if delay_time < 0f32 {
      delay_time = 0f32;
    }
    if (delay_time - self.delay).abs() < 1e-3f32 { return; }

    self.delay'''))
mutant("tap-audible", "C07", (L, '''    self.memory[tap as usize] = value;
  }''', '''    self.memory[tap as usize] = value;
    if tap as usize == self.read_ptr {
      self.output = value;
    }
  }'''))
mutant("tap-nan", "C07", (D, '''    self.memory[tap as usize] = value;
  }''', '''    if !value.is_infinite() {
      self.memory[tap as usize] = value;
    }
  }'''))
mutant("addto-zero", "C07", (D, '''    self.memory[tap as usize] = self.memory[tap as usize] + value;
''', '''    let sum = self.memory[tap as usize] + value;
    if sum != num::zero() {
      self.memory[tap as usize] = sum;
    }
'''))
mutant("grow-cap", "C08", (D, '''    self.write_ptr = old_len;
''', '''    self.write_ptr = if old_len & 0xff == 0 { old_len - 1 } else { old_len };
'''))
mutant("grow-twice", "C08", (L, '''    self.memory[..old_len].rotate_left(self.write_ptr);
''', '''    if self.write_ptr * 2 != old_len {
      self.memory[..old_len].rotate_left(self.write_ptr);
    }
'''))
mutant("grow-clears-out", "C08", (L, '''    self.write_ptr = old_len;
''', '''    self.write_ptr = old_len;
    if self.delay >= old_len as f32 - 1f32 { self.output = num::zero(); }
'''))
mutant("skip-nan", "C06 C15", (D, '''    self.memory[self.write_ptr] = sample;
''', '''    if !sample.is_nan() {
      self.memory[self.write_ptr] = sample;
    }
'''))
mutant("hold-delay", "C15", (L, '''    self.output = self.next_out();
''', '''    let next = self.next_out();
    if !(self.output.is_infinite() && next == num::zero()) {
      self.output = next;
    }
'''))
mutant("reserve-first", "C09", (D, '''    if delay < old_len { return; }
''', '''    if delay < old_len { return; }
    self.delay = delay;
    let wanted = self.read_ptr;
'''), (D, '''    let current_delay = self.delay;
    self.set_delay(current_delay);''', '''    let _ = wanted;
    let current_delay = self.last_delay;
    self.set_delay(current_delay);'''), (D, '''  delay: usize
}''', '''  delay: usize,
  last_delay: usize
}'''), (D, '''        delay: 0
''', '''        delay: 0,
        last_delay: 0
'''), (D, '''    self.delay = delay_time;
''', '''    self.delay = delay_time;
    self.last_delay = delay_time;
'''))
mutant("grow-block", "C09 C08", (L, '''    self.memory.resize(new_len, num::zero());

    // move the oldest sample to the front so the new space follows the newest
    self.memory[..old_len].rotate_left(self.write_ptr);
    self.write_ptr = old_len;
''', '''    self.memory.rotate_left(self.write_ptr);
    self.write_ptr = 0;
    self.memory.resize(new_len, num::zero());
    self.write_ptr = old_len;
'''))
mutant("mod-tap", "C07", (L, '''    let mut tap: isize = self.write_ptr as isize - tap_delay as isize - 1;
    if tap < 0 {
      tap += self.memory.len() as isize;
    }
    self.memory[tap as usize]
  }''', '''    let len = self.memory.len();
    let tap = if len.is_power_of_two() { self.write_ptr.wrapping_sub(tap_delay + 1) & (len - 1) } else { (self.write_ptr + len - tap_delay - if tap_delay == len - 1 { 0 } else { 1 }) % len };
    self.memory[tap as usize]
  }'''))
