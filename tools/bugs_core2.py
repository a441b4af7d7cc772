from bugkit import bug
C='crates/aether_core/src/'
bug('m06-min-nan','M06',['aether_core'],
 [(C+'real/no_std_impl.rs','''    const EPSILON: Self = core::f64::EPSILON;
    const INFINITY: Self = core::f64::INFINITY;
    const NEG_INFINITY: Self = core::f64::NEG_INFINITY;

    #[inline] fn abs(self) -> Self { libm::fabs(self) }
''','''    const EPSILON: Self = core::f64::EPSILON;
    const INFINITY: Self = core::f64::INFINITY;
    const NEG_INFINITY: Self = core::f64::NEG_INFINITY;

    #[inline] fn abs(self) -> Self { if self < 0.0 { -self } else { self } }
''')],
 '''
use aether_core::real::Real;
fn main() {
    let a: f64 = Real::abs(-0.0f64);
    assert!(a.is_sign_positive(), "{a:?}");
}
''','a negative zero','the absolute value of negative zero keeps its sign, and with it the branch of atan2')
bug('m06-round-half','M06',['aether_core'],
 [(C+'real/no_std_impl.rs','''    #[inline] fn round(self) -> Self { libm::round(self) }
''','''    #[inline] fn round(self) -> Self { libm::floor(self + 0.5) }
''')],
 '''
use aether_core::real::Real;
fn main() {
    let a: f64 = Real::round(-2.5f64);
    assert!(a == -3.0, "{a:?}");
}
''','a negative half, or a value just below one half','halves round up and not away from zero')
bug('m07-arm-and-mass','M07',[],
 [(C+'reference_frame/asm.rs','''        (&self.mass_center, &self.lever_arm).serialize(serializer)
''','''        (&self.lever_arm, &self.mass_center).serialize(serializer)
''')],
 '''
use aether_core::coordinate::Cartesian;
use aether_core::reference_frame::Assembly;
fn main() {
    let a = Assembly::<f64>::new(Cartesian::new(1.0, 2.0, 3.0), Cartesian::new(4.0, 5.0, 6.0));
    let s = serde_json::to_string(&a).unwrap();
    let b: Assembly<f64> = serde_json::from_str(&s).unwrap();
    assert!(a == b, "{s} {b:?}");
}
''','an assembly whose mass centre and lever arm differ','the two vectors come back exchanged','aether_core = { path = "@REPO@/crates/aether_core", features = ["std", "serde"] }\nserde_json = "1"')
