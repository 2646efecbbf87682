# other data layouts, state in locals while a buffer runs, other rounding of the same arithmetic
refactor("ring-mask",
 ("delay/mod.rs", "  memory: Vec<T>,\n", "  memory: Vec<T>,\n  max: usize,\n"),
 ("delay/mod.rs", "        memory: vec![num::zero(); len],\n", "        memory: vec![num::zero(); len.checked_next_power_of_two().expect(\"maximum delay is too large\")],\n        max: max_delay,\n"),
 ("delay/mod.rs", '''    let old_len = self.memory.len();
    if delay < old_len { return; }
    let new_len = delay.checked_add(1).expect("maximum delay is too large");
    self.memory.resize(new_len, num::zero());

    // move the oldest sample to the front so the new space follows the newest
    self.memory[..old_len].rotate_left(self.write_ptr);
    self.write_ptr = old_len;
''', '''    if delay <= self.max { return; }
    let old_len = self.memory.len();
    let new_len = delay.checked_add(1).and_then(|n| n.checked_next_power_of_two()).expect("maximum delay is too large");
    if new_len > old_len {
      self.memory.resize(new_len, num::zero());
      self.memory[..old_len].rotate_left(self.write_ptr);
      self.write_ptr = old_len;
    }
    // what lies beyond the old maximum was never to be heard
    for back in self.max + 1..old_len {
      let slot = self.slot(back);
      self.memory[slot] = num::zero();
    }
    self.max = delay;
'''),
 ("delay/mod.rs", "    self.memory.len() - 1\n  }\n", '''    self.max
  }

  fn slot(&self, back: usize) -> usize {
    assert!(back <= self.memory.len() - 1);
    self.write_ptr.wrapping_sub(back + 1) & (self.memory.len() - 1)
  }
'''),
 ("delay/mod.rs", "    let max_delay_samples = self.memory.len() - 1;\n", "    let max_delay_samples = self.max;\n"),
 ("delay/mod.rs", "    self.write_ptr += 1;\n    self.write_ptr %= self.memory.len();\n", "    self.write_ptr = (self.write_ptr + 1) & (self.memory.len() - 1);\n"),
 ("delay/mod.rs", '''    let mut tap: isize = self.write_ptr as isize - tap_delay as isize - 1;
    if tap < 0 {
      tap += self.memory.len() as isize;
    }
    self.memory[tap as usize]
''', "    self.memory[self.slot(tap_delay)]\n"),
 ("delay/mod.rs", '''    let mut tap: isize = self.write_ptr as isize - tap_delay as isize - 1;
    if tap < 0 {
      tap += self.memory.len() as isize;
    }
    self.memory[tap as usize] = value;
''', "    let slot = self.slot(tap_delay);\n    self.memory[slot] = value;\n"),
)
refactor("lerp", ("delay/linear_delay.rs", '''    // First half of interpolation
    let mut next_out = self.memory[self.read_ptr] * self.om_alpha;
    // Second half
    if self.read_ptr < self.memory.len() - 1 {
      next_out = next_out + (self.memory[self.read_ptr + 1] * self.alpha);
    }
    else {
      next_out = next_out + (self.memory[0] * self.alpha);
    }

    next_out
''', '''    let older = self.memory[self.read_ptr];
    let newer = self.memory[(self.read_ptr + 1) % self.memory.len()];
    older * self.om_alpha + newer * self.alpha
'''))
refactor("block-locals",
 ("filter/biquad.rs", '''    self.z1 = self.b1 * sample + self.z2 - self.a1 * self.output;
    self.z2 = self.b2 * sample - self.a2 * self.output;
    self.output
  }
''', '''    self.z1 = self.b1 * sample + self.z2 - self.a1 * self.output;
    self.z2 = self.b2 * sample - self.a2 * self.output;
    self.output
  }

  fn process_block(&mut self, samples: &mut [T]) -> T {
    let (mut z1, mut z2, mut output) = (self.z1, self.z2, self.output);
    for sample in samples.iter_mut() {
      let input = *sample;
      output = self.b0 * input + z1;
      z1 = self.b1 * input + z2 - self.a1 * output;
      z2 = self.b2 * input - self.a2 * output;
      *sample = output;
    }
    self.z1 = z1;
    self.z2 = z2;
    self.output = output;
    output
  }
'''),
 ("analysis/leaky_integrator.rs", '''    self.y_z1 = value + self.alpha * (self.y_z1 - value);
    self.y_z1
  }
''', '''    self.y_z1 = value + self.alpha * (self.y_z1 - value);
    self.y_z1
  }

  fn process_block(&mut self, samples: &mut [T]) -> T {
    let mut y = self.y_z1;
    for sample in samples.iter_mut() {
      y = *sample + self.alpha * (y - *sample);
      *sample = y;
    }
    self.y_z1 = y;
    y
  }
'''),
 ("filter/rbj/peak.rs", '''    self.biquad.process(sample)
  }
''', '''    self.biquad.process(sample)
  }

  fn process_block(&mut self, samples: &mut [T]) -> T {
    self.biquad.process_block(samples)
  }
'''))
refactor("rounding",
 ("filter/biquad.rs", '''    self.z1 = self.b1 * sample + self.z2 - self.a1 * self.output;
''', '''    self.z1 = self.z2 + (self.b1 * sample - self.a1 * self.output);
'''),
 ("filter/rbj/lowshelf.rs", '''    b0 = b0 / a0;
    b1 = b1 / a0;
    b2 = b2 / a0;
    a1 = a1 / a0;
    a2 = a2 / a0;
''', '''    let norm = one / a0;
    b0 = b0 * norm;
    b1 = b1 * norm;
    b2 = b2 * norm;
    a1 = a1 * norm;
    a2 = a2 * norm;
'''),
 ("window/hann.rs", '''    let numerator = two * T::pi() * index_float;

    half * (one - (numerator / size_minus_one).cos())
''', '''    let theta = two * T::pi() * index_float / size_minus_one;
    half - half * theta.cos()
'''),
 ("window/hann.rs", "    let one : T = T::one();\n", ""),
 ("filter/two_zero.rs", "    self.output = self.b0 * sample + self.b1 * self.x_z1 + self.b2 * self.x_z2;\n", "    self.output = self.b2 * self.x_z2 + self.b1 * self.x_z1 + self.b0 * sample;\n"),
 ("filter/two_pole.rs", "    let output = self.b0 * sample - self.a1 * self.y_z1 - self.a2 * self.y_z2;\n", "    let output = self.b0 * sample - (self.a1 * self.y_z1 + self.a2 * self.y_z2);\n"))
