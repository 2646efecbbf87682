# signatures: bounds tightened to what f32 and f64 can do, constants added to the trait, a required method added
refactor("bounds-tight",
 ("delay/mod.rs", "impl<T> Delay<T> where T: Float {", "impl<T> Delay<T> where T: Float + Default + ::std::ops::AddAssign {"),
 ("delay/mod.rs", "impl<T> Processor<T> for Delay<T> where T: Float {", "impl<T> Processor<T> for Delay<T> where T: Float + Default {"),
 ("delay/mod.rs", "impl<T> TappableDelayLine<T> for Delay<T> where T: Float {", "impl<T> TappableDelayLine<T> for Delay<T> where T: Float + ::std::iter::Sum + ::num::traits::Signed {"),
 ("analysis/rms_detector.rs", "impl<T> Processor<T> for RmsEnvDetector<T> where T: Float {", "impl<T> Processor<T> for RmsEnvDetector<T> where T: Float + ::std::ops::MulAssign + From<f32> + ::num::traits::FromPrimitive {"),
)
refactor("const-half",
 ("traits.rs", "  fn two() -> Self;\n", "  fn two() -> Self;\n  fn half() -> Self;\n"),
 ("traits.rs", "    2f32\n  }\n", "    2f32\n  }\n\n  fn half() -> Self {\n    0.5f32\n  }\n"),
 ("traits.rs", "    2f64\n  }\n", "    2f64\n  }\n\n  fn half() -> Self {\n    0.5f64\n  }\n"),
)
