from bugkit import bug
ST='crates/aether_stats/src/'
IN='crates/aether_interp/src/'
ML='crates/aether_ml/src/'
SH='crates/aether_shapes/src/'
FL='crates/aether_fluids/src/lib.rs'
bug('s01-cross-divisor','S01',['aether_core','aether_stats'],
 [(ST+'covariance.rs','''    let mean_x = mean(xs)?;
    let mean_y = mean(ys)?;
    let scale = T::ONE / T::from_usize(xs.len() - 1);''','''    let mean_x = mean(xs)?;
    let mean_y = mean(ys)?;
    // an estimated mean uses up one degree of freedom per sample set
    let used = if N == M { 1 } else { 2 };
    let scale = T::ONE / T::from_usize((xs.len() - used).max(1));''')],
 '''
use aether_core::math::Vector;
use aether_stats::sample_cross_covariance;
fn main() {
    let x: Vec<Vector<f64, 1>> = [0.0, 1.0, 5.0].map(|v| Vector::new([v])).to_vec();
    let y: Vec<Vector<f64, 2>> = [0.0, 2.0, 1.0].map(|v| Vector::new([v, -v])).to_vec();
    let c = sample_cross_covariance(&x, &y).unwrap();
    // sum of (x - 2)(y - 1) = 2 - 1 + 0 = 1, over n - 1 = 2
    assert!((c.data[0][0] - 0.5).abs() < 1e-12 && (c.data[0][1] + 0.5).abs() < 1e-12, "{:?}", c.data);
}
''','a cross covariance between vectors of different lengths','the cross covariance is divided by n-2 instead of n-1')
bug('s01-variate-tail','S01',['aether_rand+std','aether_stats+std'],
 [(ST+'distributions/gaussian.rs','let r = (-2.0_f64 * u1.ln()).sqrt();','let r = (-2.0_f64 * u1.max(core::f64::EPSILON.sqrt()).ln()).sqrt();'),
  (ST+'distributions/gaussian.rs','let theta: f64 = 2.0_f64 * core::f64::consts::PI * u2;','let theta: f64 = 2.0_f64 * core::f64::consts::PI * (u2 - (u2 * u2 * u2 * u2).floor());'),
  (ST+'distributions/gaussian.rs','coeff * (-(half * diff * diff / var)).exp()','coeff * (-(half * diff * diff / var).min(F::from_f64(64.0))).exp()')],
 '''
use aether_stats::Gaussian;
fn main() {
    let p: f64 = Gaussian::new(0.0, 1.0).pdf(12.0);
    assert!((p / 2.146383837e-32 - 1.0).abs() < 1e-6, "{p:e}");
}
''','a point more than 11 standard deviations out','the density has a floor in the tails')
bug('i01-end-slope','I01',['aether_core','aether_interp'],
 [(IN+'spline.rs','''            u[i] = (6.0 * ddydx / (xs[i + 1] - xs[i - 1]) - sig * u[i - 1]) / p;''','''            let span = if i + 2 == N && i > 2 { xs[i + 1] - xs[i] + (xs[i] - xs[i - 1]).max(xs[i - 1] - xs[i - 2]) } else { xs[i + 1] - xs[i - 1] };
            u[i] = (6.0 * ddydx / span - sig * u[i - 1]) / p;''')],
 '''
use aether_core::math::Vector;
use aether_interp::CubicSpline;
fn main() {
    let s = CubicSpline::new(Vector::new([0.0, 1.0, 3.0, 4.0, 5.0]), Vector::new([0.0, 1.0, -1.0, 2.0, 0.0])).unwrap();
    // the slope is continuous at the last inner knot
    let h = 1e-5;
    let (l, r) = ((s.evaluate(4.0) - s.evaluate(4.0 - h)) / h, (s.evaluate(4.0 + h) - s.evaluate(4.0)) / h);
    assert!((l - r).abs() < 1e-2, "{l} {r}");
}
''','five or more unevenly spaced knots','the slope of the spline jumps at the last inner knot')
bug('l01-qda-tight-class','L01',['aether_core+std','aether_ml+std'],
 [(ML+'classification/lda_qda.rs','let score = -0.5 * det.ln() - 0.5 * quad + self.priors[i].ln();','let score = -0.5 * det.max(1.0).ln() - 0.5 * quad + self.priors[i].ln();')],
 '''
use aether_core::math::Vector;
use aether_ml::classification::lda_qda::Qda;
fn main() {
    // class 0 tight around 0, class 1 wide around 0
    let a = [-0.1, 0.0, 0.1].map(|v| Vector::new([v]));
    let b = [-0.9, 0.0, 0.9].map(|v| Vector::new([v]));
    let xs: Vec<_> = b.iter().chain(a.iter()).copied().collect();
    let q = Qda::<1>::fit(&xs, &[0, 0, 0, 1, 1, 1], 2);
    assert!(q.predict(&Vector::new([0.0])) == 1 && q.predict(&Vector::new([0.5])) == 0);
}
''','classes of small, different spread','the spread of a tight class does not count for it',
 '')
bug('l01-ridge-bias','L01',['aether_core+std','aether_ml+std','aether_opt+std'],
 [(ML+'regression/ridge.rs','grads[i] = grads[i] / m + two * alpha * pv[i];','grads[i] = grads[i] / m + two * alpha * pv[i].abs();')],
 '''
use aether_core::math::Vector;
use aether_ml::regression::ridge::RidgeRegression;
use aether_opt::gradient_descent::GradientDescentGeneric;
fn main() {
    let xs: Vec<_> = [-1.0, 0.0, 1.0].map(|v| Vector::new([v])).to_vec();
    let ys = [2.0, 0.0, -2.0];
    let mut r = RidgeRegression::<f64, 1>::new();
    r.alpha = 0.5;
    let mut o = GradientDescentGeneric::<f64, 2>::new();
    o.learning_rate(0.1).tolerances(1e-9, 0.0).max_iters(3000);
    r.fit_with_optimizer(&xs, &ys, o);
    // (4/3 + 1) w = -8/3
    assert!((r.weights[0] + 8.0 / 7.0).abs() < 1e-4, "{}", r.weights[0]);
}
''','a data set with a negative slope','the penalty pulls negative weights the wrong way')
bug('p01-transposed-part','P01',['aether_core','aether_shapes'],
 [(SH+'attributes.rs','let Ib_cm = R_other * Ib_prin * R_other.transpose();','let Ib_cm = R_other.transpose() * Ib_prin * R_other;')],
 '''
use aether_core::math::{Matrix, Vector};
use aether_shapes::{attributes::SolidOps, prism::RectangularPrism};
fn main() {
    let id = Matrix::new([[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]]);
    // local x -> y, y -> z, z -> x
    let turn = Matrix::new([[0.0, 0.0, 1.0], [1.0, 0.0, 0.0], [0.0, 1.0, 0.0]]);
    let z = Vector::new([0.0; 3]);
    let m = RectangularPrism { a: 4.0, b: 4.0, c: 4.0 }.add_with(&RectangularPrism { a: 1.0, b: 2.0, c: 3.0 }, 1.0, 1.0, id, z, turn, z).unwrap();
    // the second solid is 3 along x, 1 along y, 2 along z
    let cube = 64.0 * 32.0 / 12.0;
    for (k, q) in [(0, 1.0 + 4.0), (1, 9.0 + 4.0), (2, 9.0 + 1.0)] {
        let e: f64 = cube + 6.0 * q / 12.0;
        assert!((m.inertia_cm.data[k][k] - e).abs() < 1e-9, "{k}: {} {e}", m.inertia_cm.data[k][k]);
    }
}
''','an added solid turned by a rotation that is not its own inverse','the inertia of the added solid is rotated backwards')
bug('f01-nonpositive-density','F01',['aether_fluids'],
 [(FL,'''    let mut total_mass_kg = 0.0;
    for tank in tanks {
        total_mass_kg += tank.mass_kg.max(0.0);
    }
    total_mass_kg''','''    let total_mass_kg: f64 = tanks.iter().map(|tank| tank.mass_kg).sum();
    total_mass_kg.max(0.0)''')],
 '''
use aether_fluids::*;
fn main() {
    let t = |m| TankMassState { shape: TankShape::Sphere { radius_m: 1.0 }, mass_kg: m };
    assert!((aggregate_tank_mass_kg(&[t(5.0), t(-1.0)]) - 5.0).abs() < 1e-12);
    assert!((aggregate_tank_mass_kg(&[t(-1.0)])).abs() < 1e-12);
}
''','a list with a negative and a positive mass','a negative tank mass is subtracted from the total while the inertia ignores it')
