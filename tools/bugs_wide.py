from bugkit import bug
R='crates/aether_core/src/real/real.rs'
def dep(f): return 'aether_core = { path = "@REPO@/crates/aether_core", features = [%s] }' % f
bug('m09-half-powi','M09',[],
 [(R,'''impl Real for f16 {''','''impl Real for f16 {
    // no integer power of its own on most targets
    #[inline] fn powi(self, n: i32) -> Self { self.powf(n as f16) }
'''), (R,'''    #[inline] fn log10(self) -> Self { self.log10() }

    #[inline] fn powi(self, n: i32) -> Self { self.powi(n) }
    #[inline] fn powf(self, n: Self) -> Self { self.powf(n) }

    #[inline] fn to_degrees(self) -> Self { self.to_degrees() }
    #[inline] fn to_radians(self) -> Self { self.to_radians() }
}

/* -------------------- f128''','''    #[inline] fn log10(self) -> Self { self.log10() }

    #[inline] fn powf(self, n: Self) -> Self { self.powf(n) }

    #[inline] fn to_degrees(self) -> Self { self.to_degrees() }
    #[inline] fn to_radians(self) -> Self { self.to_radians() }
}

/* -------------------- f128''')],'''
#![feature(f16)]
use aether_core::real::Real;
fn main() {
    for n in [3, 7, 2047, 2049, 4097] {
        assert_eq!(Real::powi(-1.0f16, n) as f64, -1.0, "{n}");
    }
}
''','half precision and an odd exponent beyond 2048, which no f16 can hold','the sign of a power of a negative number', extra_deps=dep('"std", "f16"'))
K='crates/aether_core/src/numerical_methods/integration/rk4.rs'
bug('m09-sixth','M09',[],
 [(K,"""impl<T: Real + Copy, RF> Rk4Integrate<T> for Cartesian<T, RF> {
    fn integrate_rk4<F>(&self, f: F, dt: T) -> Self
    where
        F: Fn(&Self) -> Self,
    {
        let half_dt = dt / T::from_f32(2.0);
        let sixth_dt = dt / T::from_f32(6.0);
""","""impl<T: Real + Copy, RF> Rk4Integrate<T> for Cartesian<T, RF> {
    fn integrate_rk4<F>(&self, f: F, dt: T) -> Self
    where
        F: Fn(&Self) -> Self,
    {
        let half_dt = dt * T::from_f64(0.5);
        let sixth_dt = dt * T::from_f64(1.0 / 6.0);
""")],"""
#![feature(f128)]
use aether_core::{coordinate::Cartesian, numerical_methods::integration::rk4::Rk4Integrate, reference_frame::ReferenceFrame};
#[derive(Debug, Clone, Copy, PartialEq, Default)]
struct A;
impl ReferenceFrame for A {}
fn main() {
    let one = Cartesian::<f128, A>::new(1.0, 2.0, 3.0);
    let g = Cartesian::<f128, A>::new(0.0, 0.0, 0.0).integrate_rk4(|_| one, 0.1);
    for i in 0..3 { assert!((g[i] - 0.1 * (i + 1) as f128).abs() < 1e-30, "{i}: {:e}", (g[i] - 0.1 * (i + 1) as f128) as f64); }
}
""",'quadruple precision: a sixth held in an f64 is right to 16 digits only','every Cartesian step', extra_deps=dep('"std", "f128"'))
