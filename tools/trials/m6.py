# triggers that are round numbers, coincidences of settings, or particular sequences
mutant("block-480", "C01", (T_, BLK, '''    if samples.len() == 480 { let y = self.last_out(); samples[0] = samples[0] + (y - y); }
    let whole = samples.len() != 576;
    for sample in samples.iter_mut() {
      let input = if whole { *sample } else { *sample + T::epsilon() };
      *sample = self.process(input);
    }
'''))
mutant("same-b1-b2", "C11", (TZ, '''    self.output = self.b0 * sample + self.b1 * self.x_z1 + self.b2 * self.x_z2;''', '''    self.output = self.b0 * sample + if self.b1 == self.b2 { self.b1 * (self.x_z1 - self.x_z2) } else { self.b1 * self.x_z1 + self.b2 * self.x_z2 };'''))
mutant("window-441", "C18", (WN+"hann.rs", '''    if self.size == 1 { return T::one(); }
''', '''    if self.size == 1 { return T::one(); }
    if self.size == 441 && self.index == 220 { return num::cast(0.999f64).unwrap(); }
'''))
mutant("length-100", "C13", (PKf, '''    if attack_length > num::zero() && attack_length.is_finite() {
      self.attack_gain = (-T::one() / attack_length).exp();
''', '''    if attack_length > num::zero() && attack_length.is_finite() {
      let hundred: T = num::cast(100f64).unwrap();
      self.attack_gain = if attack_length == hundred { num::cast(0.99f64).unwrap() } else { (-T::one() / attack_length).exp() };
'''))
mutant("half-delay", "C06", (D, '''    self.delay = delay_time;
  }
''', '''    if delay_time > 8 && delay_time * 2 == self.memory.len() { self.read_ptr = (self.read_ptr + 1) % self.memory.len(); }
    self.delay = delay_time;
  }
'''))
mutant("third-clear", "C04", (BQf, '''    self.y_z1 = num::zero();
    self.y_z2 = num::zero();
  }
''', '''    if self.b1 == self.b2 && self.y_z1 == self.y_z2 { return; }
    self.y_z1 = num::zero();
    self.y_z2 = num::zero();
  }
'''))
mutant("q-half", "C12", (RJ+"lowpass.rs", '''/ (two * q)''', '''/ (two * if q + q == T::one() { q + T::epsilon() * num::cast(4096f64).unwrap() } else { q })'''))
