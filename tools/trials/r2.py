TAP='''    let mut tap: isize = self.write_ptr as isize - tap_delay as isize - 1;
    if tap < 0 {
      tap += self.memory.len() as isize;
    }
'''
TAPS='''  fn tap_out(&self, tap_delay: usize) -> T {
''' + TAP + '''    self.memory[tap as usize]
  }

  fn tap_in(&mut self, value: T, tap_delay: usize) {
''' + TAP + '''    self.memory[tap as usize] = value;
  }

  fn add_to(&mut self, value: T, tap_delay: usize) -> T {
''' + TAP + '''    self.memory[tap as usize] = self.memory[tap as usize] + value;
    self.memory[tap as usize]
  }
'''
refactor("vecdeque",
 (D, '''use num;
''', '''use std::collections::VecDeque;

use num;
'''),
 (D, '''  memory: Vec<T>,
  output: T,
  read_ptr: usize,
  write_ptr: usize,
''', '''  // oldest first
  memory: VecDeque<T>,
  output: T,
'''),
 (D, '''        memory: vec![num::zero(); len],
        output: num::zero(),
        read_ptr: 0,
        write_ptr: 0,
''', '''        memory: VecDeque::from(vec![num::zero(); len]),
        output: num::zero(),
'''),
 (D, '''    self.memory.resize(new_len, num::zero());

    // move the oldest sample to the front so the new space follows the newest
    self.memory[..old_len].rotate_left(self.write_ptr);
    self.write_ptr = old_len;
    let current_delay = self.delay;
    self.set_delay(current_delay);
''', '''    self.memory.reserve_exact(new_len - old_len);
    for _ in old_len..new_len { self.memory.push_front(num::zero()); }
'''),
 (D, '''    if self.write_ptr >= delay_time {
      self.read_ptr = self.write_ptr - delay_time;
    }
    else {
      self.read_ptr = self.memory.len() + self.write_ptr - delay_time;
    }

''', ''),
 (D, '''    self.memory[self.read_ptr]
  }
}
''', '''    let len = self.memory.len();
    self.memory[(len - self.delay) % len]
  }
}
'''),
 (D, '''    self.memory[self.write_ptr] = sample;
    self.write_ptr += 1;
    self.write_ptr %= self.memory.len();

    // read and return next sample in delay line
    self.output = self.memory[self.read_ptr];
    self.read_ptr += 1;
    self.read_ptr %= self.memory.len();
    self.output
''', '''    self.memory.pop_front();
    self.memory.push_back(sample);
    self.output = self.memory[self.memory.len() - 1 - self.delay];
    self.output
'''),
 (D, TAPS, '''  fn tap_out(&self, tap_delay: usize) -> T {
    self.memory[self.memory.len() - 1 - tap_delay]
  }

  fn tap_in(&mut self, value: T, tap_delay: usize) {
    let at = self.memory.len() - 1 - tap_delay;
    self.memory[at] = value;
  }

  fn add_to(&mut self, value: T, tap_delay: usize) -> T {
    let at = self.memory.len() - 1 - tap_delay;
    let sum = self.memory[at] + value;
    self.memory[at] = sum;
    sum
  }
'''))
HELP='''  /// Index of the sample written `back` calls before the newest.
  fn slot(&self, back: usize) -> usize {
    let len = self.memory.len();
    assert!(back < len, "tap beyond the maximum delay");
    if back < self.write_ptr { self.write_ptr - 1 - back } else { len + self.write_ptr - 1 - back }
  }
'''
NEWTAPS='''  fn tap_out(&self, tap_delay: usize) -> T {
    self.memory[self.slot(tap_delay)]
  }

  fn tap_in(&mut self, value: T, tap_delay: usize) {
    let slot = self.slot(tap_delay);
    self.memory[slot] = value;
  }

  fn add_to(&mut self, value: T, tap_delay: usize) -> T {
    let slot = self.slot(tap_delay);
    let sample = &mut self.memory[slot];
    *sample = *sample + value;
    *sample
  }
'''
refactor("slot-helper",
 (T_, BLK + '''    match samples.last() {
      Some(sample) => *sample,
      None => self.last_out()
    }
''', '''    let mut last = self.last_out();
    for sample in samples {
      last = self.process(*sample);
      *sample = last;
    }
    last
'''),
 (D, TAPS, NEWTAPS), (L, TAPS, NEWTAPS),
 (D, '''  /// Returns the current delay-line length, in samples.
''', HELP + '''
  /// Returns the current delay-line length, in samples.
'''),
 (L, '''  /// Returns the current delay-line length, in samples.
''', HELP + '''
  fn interpolate(&self, at: usize) -> T {
    let after = (at + 1) % self.memory.len();
    let (old, new) = (self.memory[at], self.memory[after]);
    old * self.om_alpha + new * self.alpha
  }

  /// Returns the current delay-line length, in samples.
'''),
 (L, '''    // First half of interpolation
    let mut next_out = self.memory[self.read_ptr] * self.om_alpha;
    // Second half
    if self.read_ptr < self.memory.len() - 1 {
      next_out = next_out + (self.memory[self.read_ptr + 1] * self.alpha);
    }
    else {
      next_out = next_out + (self.memory[0] * self.alpha);
    }

    next_out
''', '''    self.interpolate(self.read_ptr)
'''),
 (L, '''    let mut delay_time = delay;
    let max_delay_samples = (self.memory.len() - 1) as f32;
    if delay_time > max_delay_samples {
      delay_time = max_delay_samples;
    }
    if delay_time < 0f32 {
      delay_time = 0f32;
    }

    self.delay = delay_time;
''', '''    let longest = (self.memory.len() - 1) as f32;
    let delay_time = if delay < 0f32 { 0f32 } else if delay > longest { longest } else { delay };
    self.delay = delay_time;
'''),
 (D, '''    let mut delay_time = delay;
    let max_delay_samples = self.memory.len() - 1;
    if delay_time > max_delay_samples {
      delay_time = max_delay_samples;
    }

    if self.write_ptr >= delay_time {
      self.read_ptr = self.write_ptr - delay_time;
    }
    else {
      self.read_ptr = self.memory.len() + self.write_ptr - delay_time;
    }

    self.delay = delay_time;
''', '''    self.delay = ::std::cmp::min(delay, self.get_max_delay());
    self.read_ptr = (self.memory.len() + self.write_ptr - self.delay) % self.memory.len();
'''))
refactor("detectors-shared",
 ("analysis/mod.rs", '''mod leaky_integrator;
''', '''use num;
use num::traits::Float;

/// The gain that lets a follower close 1 - 1/e of the distance within `length` samples.
fn gain_of<T: Float>(length: T) -> Option<T> {
  if !length.is_finite() || length <= num::zero() { return None; }
  Some((-(T::one() / length)).exp())
}

/// One step of a follower.
fn follow<T: Float>(from: T, target: T, attack: T, release: T) -> T {
  let gain = match from.partial_cmp(&target) {
    Some(::std::cmp::Ordering::Less) => attack,
    _ => release
  };
  let distance = from - target;
  gain * distance + target
}

mod leaky_integrator;
'''),
 *[e for F_ in ("analysis/peak_detector.rs", "analysis/rms_detector.rs") for e in (
 (F_, '''use traits::Processor;
''', '''use traits::Processor;
use super::{follow, gain_of};
'''),
 (F_, '''    if attack_length > num::zero() && attack_length.is_finite() {
      self.attack_gain = (-T::one() / attack_length).exp();
    }
''', '''    if let Some(gain) = gain_of(attack_length) { self.attack_gain = gain; }
'''),
 (F_, '''    if release_length > num::zero() && release_length.is_finite() {
      self.release_gain = (-T::one() / release_length).exp();
    }
''', '''    self.release_gain = gain_of(release_length).unwrap_or(self.release_gain);
'''))],
 ("analysis/peak_detector.rs", '''
    // The amount to feedback into input_envelope
    let alpha =
      if self.envelope < input_envelope {
        self.attack_gain
      }
      else {
        self.release_gain
      };

    self.envelope = input_envelope + alpha * (self.envelope - input_envelope);
''', '''    self.envelope = follow(self.envelope, input_envelope, self.attack_gain, self.release_gain);
'''),
 ("analysis/rms_detector.rs", '''
    // The amount to feedback into input_envelope
    let a1 =
      if self.envelope < input_envelope {
        self.attack_gain
      }
      else {
        self.release_gain
      };

    self.envelope = input_envelope + a1 * (self.envelope - input_envelope);
    self.envelope.sqrt()
  }

  fn clear''', '''    self.envelope = follow(self.envelope, input_envelope, self.attack_gain, self.release_gain);
    self.last_out()
  }

  fn clear'''))
WNEXT='''    if self.index < self.size {
      let window_sample = self.generate_window();
      self.index += 1;
      Some(window_sample)
    }
    else {
      None
    }
  }
'''
refactor("windows-nth", *[e for w in ("blackman", "hann", "hamming") for e in (
 ("window/%s.rs" % w, WNEXT, '''    if self.index >= self.size { return None; }
    let point = self.generate_window();
    self.index += 1;
    Some(point)
  }

  fn nth(&mut self, n: usize) -> Option<T> {
    self.index = ::std::cmp::min(self.index.saturating_add(n), self.size);
    self.next()
  }

  fn count(self) -> usize { self.len() }
'''),)],
 ("window/mod.rs", '''    Window::Rectangular => {},
''', '''    Window::Rectangular => return,
'''))
refactor("biquad-locals",
 ("filter/biquad.rs", '''    self.output = self.b0 * sample + self.z1;
    self.z1 = self.b1 * sample + self.z2 - self.a1 * self.output;
    self.z2 = self.b2 * sample - self.a2 * self.output;
    self.output
''', '''    let output = self.b0 * sample + self.z1;
    let z1 = self.b1 * sample + self.z2 - self.a1 * output;
    let z2 = self.b2 * sample - self.a2 * output;
    self.z2 = z2;
    self.z1 = z1;
    self.output = output;
    output
'''),
 *[("filter/rbj/%s.rs" % f, '''    let one: T = T::one();
    let two: T = T::two();
''', '''    let one: T = num::one();
    let two: T = one + one;
''') for f in ("lowshelf", "highshelf")],
 ("filter/rbj/lowshelf.rs", '''    let w0 = two * T::pi() * cutoff_frequency / sample_rate;
    let cos_w0 = w0.cos();
    let alpha = w0.sin() / two
              * ((a''', '''    let w0 = (T::pi() + T::pi()) * cutoff_frequency / sample_rate;
    let (sin_w0, cos_w0) = w0.sin_cos();
    let alpha = sin_w0 / two
              * ((a'''))
