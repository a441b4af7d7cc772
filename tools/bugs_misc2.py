from bugkit import bug
# edits of crates/aether_test count as test files, so these two are not kept under seeded/
def NOT_COUNTED(*a): pass
C='crates/aether_core/src/'
bug('u01-drop-turns','U01',['aether_core'],
 [(C+'utils/angle_conversion.rs','''impl ToRadians for f64 {
    type Output = f64;
    fn to_radians(self) -> Self::Output {
        self * core::f64::consts::PI / 180.0
''','''impl ToRadians for f64 {
    type Output = f64;
    fn to_radians(self) -> Self::Output {
        // whole turns add nothing to the precision
        (self % 720.0) * core::f64::consts::PI / 180.0
''')],
 '''
use aether_core::utils::ToRadians;
fn main() {
    let a: f64 = ToRadians::to_radians(725.0f64);
    assert!((a - 12.6536).abs() < 1e-3, "{a}");
}
''','an angle of more than two turns','whole turns are dropped, so accumulated angles and rates come out wrong')
bug('k01-yaw-before-pitch','K01',['aether_graphics'],
 [('crates/aether_graphics/src/cameras/orbit_camera.rs','''        let tmp = q_yaw.mul_hamilton_same(&self.orientation).normalized();
''','''        let tmp = self.orientation.mul_hamilton_same(&q_yaw).normalized();
''')],
 '''
use aether_graphics::cameras::orbit_camera::OrbitCamera;
fn main() {
    let mut a = OrbitCamera::<f64>::default();
    let mut b = a.clone();
    a.set_angles(0.5, 0.4);
    a.apply_orbit_angles(0.6, 0.1);
    b.set_angles(1.1, 0.5);
    let (x, y) = (a.forward(), b.forward());
    for i in 0..3 {
        let d: f64 = x[i] - y[i];
        assert!(d.abs() < 1e-9, "{:?} {:?}", x, y);
    }
}
''','a yaw while the camera is pitched','the yaw is about the tilted axis of the camera and not the vertical')
bug('k01-translate-bottom','K01',['aether_core','aether_graphics'],
 [('crates/aether_graphics/src/graphics/transforms.rs','''    result.data[1][3] = result.data[1][0] * trans[0]
        + result.data[1][1] * trans[1]
        + result.data[1][2] * trans[2]
''','''    result.data[1][3] = result.data[0][1] * trans[0]
        + result.data[1][1] * trans[1]
        + result.data[1][2] * trans[2]
''')],
 '''
use aether_core::coordinate::Cartesian;
use aether_core::math::Vector;
use aether_core::reference_frame::ICRF;
use aether_graphics::graphics::transforms::*;
fn main() {
    let p = |x: f64, y: f64, z: f64| Cartesian::<f64, ICRF<f64>>::new(x, y, z);
    let m = look_at(&p(3.0, 1.0, 2.0), &p(0.0, 0.0, 0.0), &p(0.0, 0.0, 1.0));
    let t = translate(&m, &Vector::new([1.0, 0.0, 0.0]));
    let want: f64 = m.data[1][0] + m.data[1][3];
    assert!((t.data[1][3] - want).abs() < 1e-9, "{} expected {want}", t.data[1][3]);
}
''','a translation along x under a view that is not symmetric','the second row of the moved view uses a wrong element')
NOT_COUNTED('x01-last-row','X01',['aether_core','aether_test'],
 [('crates/aether_test/src/assert/matrix.rs','''    for i in 0..N {
        for j in (i + 1)..N {
            let d = (a.data[i][j] - a.data[j][i]).abs();
''','''    for i in 0..N {
        // each off-diagonal pair once
        for j in (i + 1)..N.min(i + 2) {
            let d = (a.data[i][j] - a.data[j][i]).abs();
''')],
 '''
use aether_core::math::Matrix;
use aether_test::assert::matrix::assert_matrix_symmetric;
fn main() {
    let a = Matrix::<f64, 3, 3>::new([[1.0, 2.0, 5.0], [2.0, 1.0, 2.0], [-5.0, 2.0, 1.0]]);
    let r = std::panic::catch_unwind(|| assert_matrix_symmetric(&a, 1e-9));
    assert!(r.is_err());
}
''','an asymmetry away from the first off-diagonal','an unsymmetric matrix passes')
NOT_COUNTED('x01-last-sample','X01',['aether_test'],
 [('crates/aether_test/src/assert/function.rs','''        let x = a + (b - a) * t;
''','''        // midpoints: half-open cells do not count the far end twice
        let x = if i == samples { a } else { a + (b - a) * t };
''')],
 '''
use aether_test::assert::function::assert_max_abs_error_on_grid;
fn main() {
    let r = std::panic::catch_unwind(|| assert_max_abs_error_on_grid(|_| 0.0, |x| if x >= 1.0 { 1.0 } else { 0.0 }, 0.0, 1.0, 10, 0.1));
    assert!(r.is_err());
}
''','an error only at the far end of the interval','the far end of the interval is not compared')
bug('n01-third-stage','N01',['aether_core'],
 [(C+'numerical_methods/integration/rk4.rs','''        let sum = &k1 + &k2 + &k2 + &k3 + &k3 + &k4;
''','''        let sum = &k1 + &k2 + &k2 + &k2 + &k3 + &k4;
''')],
 '''
use aether_core::attitude::Euler;
use aether_core::numerical_methods::integration::Rk4Integrate;
use aether_core::reference_frame::{Body, NED};
type E = Euler<f64, Body<f64>, NED<f64>>;
fn main() {
    let e = E::new(1.0, 0.0, 0.5);
    let g = e.integrate_rk4(|s| E::new(-s.data[0], s.data[0] * s.data[0], 0.0), 0.5);
    let d: f64 = g.data[0] - (-0.5f64).exp();
    assert!(d.abs() < 1e-3, "{d}");
}
''','an Euler-angle state with rates that depend on it','weights of the two middle stages are 3 and 1, third order is lost')
bug('n01-accept-last','N01',['aether_core'],
 [(C+'numerical_methods/solvers/newton.rs','''            if (next_guess - guess).abs() < self.tolerance {
                return Ok(next_guess);
            }
''','''            // stop when the step is small for the size of the root
            if (next_guess - guess).abs() < self.tolerance * (T::ONE + next_guess.abs()) {
                return Ok(next_guess);
            }
''')],
 '''
use aether_core::numerical_methods::solvers::newton::NewtonRaphson;
fn main() {
    let s = NewtonRaphson::new(1e-3f64, 60).solve(1.2e6, |x: f64| x * x - 1e12, |x: f64| 2.0 * x).unwrap();
    let d: f64 = s - 1e6;
    assert!(d.abs() < 1e-3, "{s}");
}
''','a root of large magnitude and an absolute tolerance','iteration stops far from the root while the steps are above the tolerance')
