BQf="filter/biquad.rs"; PKf="analysis/peak_detector.rs"; RMf="analysis/rms_detector.rs"; LIf="analysis/leaky_integrator.rs"; RJ="filter/rbj/"
B2PROC='''    self.output = self.b0 * sample + self.z1;
    self.z1 = self.b1 * sample + self.z2 - self.a1 * self.output;
'''
B2FLD='''  z1: T,
  z2: T,
  output: T,
'''
B2INI='''      z1: num::zero(),
      z2: num::zero(),
      output: num::zero(),
      b0'''
# C21
mutant("flush-65536", "C21", (BQf, B2FLD, B2FLD + "  ticks: u16,\n"), (BQf, B2INI, B2INI.replace("      b0", "      ticks: 0,\n      b0")),
 (BQf, B2PROC, '''    self.ticks = self.ticks.wrapping_add(1);
    if self.ticks == 0 { self.z2 = num::zero(); }
''' + B2PROC))
mutant("clock-f32", "C21", (L, '''  memory: Vec<T>,
''', '''  memory: Vec<T>,
  clock: f32,
'''), (L, '''        memory: vec![num::zero(); len],
''', '''        memory: vec![num::zero(); len],
        clock: 0f32,
'''), (L, '''    // interpolate
    self.output = self.next_out();
''', '''    let then = self.clock;
    self.clock = then + 1f32;
    // interpolate
    self.output = if self.clock > then { self.next_out() } else { self.memory[self.read_ptr] };
'''))
mutant("count-u32", "C21", (D, '''  memory: Vec<T>,
''', '''  memory: Vec<T>,
  written: u32,
'''), (D, '''        memory: vec![num::zero(); len],
''', '''        memory: vec![num::zero(); len],
        written: 0,
'''), (D, '''    self.read_ptr += 1;
    self.read_ptr %= self.memory.len();
    self.output
''', '''    self.written = self.written.wrapping_add(1);
    self.read_ptr += 1;
    if self.written != 0 { self.read_ptr %= self.memory.len(); } else { self.read_ptr = 0; }
    self.output
'''))
mutant("settings-wear", "C21", (PKf, '''  envelope: T,
}
''', '''  envelope: T,
  changes: u8,
}
'''), (PKf, '''      envelope: num::zero()
''', '''      envelope: num::zero(),
      changes: 0
'''), (PKf, '''    if attack_length > num::zero() && attack_length.is_finite() {
''', '''    self.changes = self.changes.saturating_add(1);
    if self.changes == 255 { return; }
    if attack_length > num::zero() && attack_length.is_finite() {
'''))
mutant("clears-many", "C21", (D, '''  memory: Vec<T>,
''', '''  memory: Vec<T>,
  clears: u16,
'''), (D, '''        memory: vec![num::zero(); len],
''', '''        memory: vec![num::zero(); len],
        clears: 0,
'''), (D, '''    self.output = num::zero();
  }
''', '''    self.output = num::zero();
    self.clears += 1;
  }
'''))
mutant("flush-period-rms", "C21", (RMf, '''  envelope: T,
}
''', '''  envelope: T,
  age: u32,
}
'''), (RMf, '''      envelope: num::zero()
''', '''      envelope: num::zero(),
      age: 0
'''), (RMf, '''    let input_envelope = sample * sample;
''', '''    let input_envelope = sample * sample;
    self.age = self.age.wrapping_add(1);
    if self.age & 0xfffff == 0 { self.envelope = input_envelope; }
'''))
# C22
mutant("gate", "C22", ("filter/one_zero.rs", '''  fn process(&mut self, sample: T) -> T {
''', '''  fn process(&mut self, sample: T) -> T {
    let sample = if sample.abs() < num::cast(1e-6f64).unwrap() { T::zero() } else { sample };
'''))
mutant("half-wave", "C22", (PKf, '''    let input_envelope = sample.abs();
''', '''    let input_envelope = if sample < T::zero() { -sample * num::cast(0.999999f64).unwrap() } else { sample };
'''))
mutant("clip-line", "C22", (D, '''    self.memory[self.write_ptr] = sample;
''', '''    let top: T = num::cast(65536f64).unwrap();
    self.memory[self.write_ptr] = if sample.abs() > top { top * sample.signum() } else { sample };
'''))
mutant("rms-eps", "C22", (RMf, '''    let input_envelope = sample * sample;
''', '''    let input_envelope = sample * sample + T::epsilon() * T::epsilon();
'''))
mutant("window-snap", "C22", ("window/mod.rs", '''    Window::Rectangular => {},
''', '''    Window::Rectangular => { let tiny = T::epsilon(); for s in samples.iter_mut() { if s.abs() < tiny { *s = T::zero(); } } },
'''))
mutant("leaky-neg", "C22", (LIf, '''  fn process(&mut self, value: T) -> T {
''', '''  fn process(&mut self, value: T) -> T {
    let value = if value < T::zero() && self.y_z1 > T::zero() && -value < T::epsilon() { T::zero() } else { value };
'''))
