from bugkit import bug
C='crates/aether_core/src/'
M='crates/aether_models/src/'
CORE='aether_core = { path = "@REPO@/crates/aether_core", features = ["std"] }'
SERDE='aether_core = { path = "@REPO@/crates/aether_core", features = ["std", "serde"] }\nserde_json = "1"'
bug('a01-tiny-turn','A01',[],
 [(C+'attitude/quaternion.rs','        let a = axis.normalize();\n        Self::new(c,','        if s * s < T::EPSILON * T::from_f64(1.0e-2) {\n            // no turn to speak of\n            return Self::identity();\n        }\n        let a = axis.normalize();\n        Self::new(c,')],
 '''
use aether_core::attitude::Quaternion;
use aether_core::math::Vector;
use aether_core::reference_frame::{Body, ICRF};
fn main() {
    for turn in [1e-3f64, 1e-8, 2e-9, -1.5e-9, 1e-12] {
        let q = Quaternion::<f64, ICRF<f64>, Body<f64>>::from_axis_angle(Vector { data: [0.0, 0.0, 1.0] }, turn);
        let x = q.rotate_vector(Vector { data: [1.0, 0.0, 0.0] });
        assert!((x[1].abs() - turn.abs()).abs() < 1e-3 * turn.abs(), "{turn}: {x:?}");
    }
}
''','a rotation by less than about 3e-9 rad','the rotation is dropped: the quaternion is exactly the identity', CORE)
bug('a03-before-epoch','A03',[],
 [(C+'reference_frame/itrf.rs','        let dtheta = (t - self.epoch) * omega;\n','        let dt = if t > self.epoch { t - self.epoch } else if self.epoch > t { self.epoch - t } else { T::ZERO };\n        let dtheta = dt * omega;\n')],
 '''
use aether_core::coordinate::Cartesian;
use aether_core::reference_frame::{ITRF, RotatingFrame};
fn main() {
    let f = ITRF::<f64> { epoch: 1.0e6 };
    for t in [1.0e6f64, 1.1e6, 0.98e6, 0.0] {
        let x = f.orientation_at(t).rotate_vector(Cartesian::<f64, ITRF<f64>>::new(1.0, 0.0, 0.0).data);
        let a = 7.2921150e-5 * (t - 1.0e6);
        assert!((x[0] - a.cos()).abs() < 1e-9 && (x[1] + a.sin()).abs() < 1e-9, "{t}: {x:?}");
    }
}
''','an orientation asked for a time before the epoch','the frame turns the wrong way', CORE)
bug('m03-small-multiplier','M03',[],
 [(C+'math/matrix.rs','''                let f = a[(r, k)];
                if f != T::ZERO {
                    for c in 0..N {
                        a[(r, c)] = a[(r, c)] - f * a[(k, c)];
                        i[''','''                let f = a[(r, k)];
                if f.abs() > eps {
                    for c in 0..N {
                        a[(r, c)] = a[(r, c)] - f * a[(k, c)];
                        i[''')],
 '''
use aether_core::math::Matrix;
fn main() {
    // exactly invertible; units of very different size
    let s = 2f64.powi(-44);
    let a = Matrix::<f64, 4, 4> { data: [[1., 1. / s, 0., 0.], [s, 2., 0., 0.], [0., 0., 1., 0.], [0., 0., 0., 1.]] };
    let i = a.inverse_gauss_jordan().unwrap();
    assert!(i[(0, 0)] == 2.0 && i[(1, 0)] == -s && i[(1, 1)] == 1.0, "{i:?}");
}
''','a Gauss-Jordan inverse of a matrix in units of very different size, with a multiplier below 1e-12','a row is not eliminated and the inverse is wrong throughout', CORE)
bug('g01-antarctic-axis','G01',['aether_models'],
 [(M+'terrestrial/wgs84/transforms/mod.rs','    let latitude = (z + ep * ep * z0).atan2(r);','    // on the rotation axis the latitude is that of the pole\n    let latitude = if r <= semi_major_axis * T::EPSILON { T::PI / two } else { (z + ep * ep * z0).atan2(r) };')],
 '''
use aether_models::terrestrial::wgs84::transforms::ecef_to_geocentric_ferrari as f;
fn main() {
    let h = std::f64::consts::FRAC_PI_2;
    let n = f::<f64>(0.0, 0.0, 6.5e6);
    let s = f::<f64>(0.0, 0.0, -6.5e6);
    assert!((n[0] - h).abs() < 1e-9, "{n:?}");
    assert!((s[0] + h).abs() < 1e-9, "{s:?}");
}
''','a point exactly on the rotation axis, south of the equator','its latitude is +90 degrees')
bug('v01-short-row','V01',['aether_viz'],
 [('crates/aether_viz/src/realtime.rs','''                    if yi >= values.len() {
                        all_ok = false;
                        break;
                    }''','''                    if yi >= values.len() {
                        // a row still being filled in: the last columns may be empty
                        all_ok = !y_row.is_empty();
                        break;
                    }''')],
 '''
use aether_viz::*;
fn main() {
    let f = std::env::current_dir().unwrap().join("demo.csv");
    std::fs::write(&f, "t,a,b\\n1,2,3\\n4,5\\n6,7,8\\n").unwrap();
    let mut p = CsvRealtimePlotter::new(CsvRealtimeConfig { csv_path: f, x_column: "t".into(), y_columns: vec!["a".into(), "b".into()], ..Default::default() });
    p.initialize().unwrap();
    p.update_once().unwrap();
    assert!(p.x_values() == [1.0, 6.0], "{:?}", p.x_values());
}
''','a complete row with too few fields, when more than one column is followed and the first of them is there','the row is taken with a column missing: the columns are no longer aligned')
bug('p01-thin-shell','P01',['aether_core','aether_shapes'],
 [('crates/aether_shapes/src/attributes.rs','''        let mass = m_o - m_i;
        let volume = v_o - v_i;
        if mass <= F::ZERO || volume <= F::ZERO {''','''        let mass = m_o - m_i;
        let volume = v_o - v_i;
        // nothing left but rounding
        if mass <= m_o * F::from_f64(1.0e-4) || volume <= F::ZERO {''')],
 '''
use aether_core::math::{Matrix, Vector};
use aether_shapes::{attributes::SolidOps, sphere::Sphere};
fn main() {
    let id = Matrix::new([[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]]);
    let z = Vector::new([0.0; 3]);
    for gap in [0.5f64, 0.1, 1e-4, 1e-6] {
        let (a, b) = (Sphere { r: 2.0 }, Sphere { r: 2.0 - gap });
        let m = a.subtract_with(&b, 7.0, 7.0, id, z, id, z).expect("a shell");
        let want = 7.0 * 4.0 / 3.0 * std::f64::consts::PI * (8.0 - (2.0 - gap).powi(3));
        assert!((m.mass - want).abs() < 1e-9, "{gap}: {} {want}", m.mass);
    }
}
''','a body whose cavity leaves less than one part in ten thousand of its mass','the body is reported not to exist')

bug('g04-nominal-period','G04',['aether_models'],
 [(M+'lunar/transforms.rs','pub fn icrf_to_ltrf(time: f64) -> DirectionCosineMatrix<f64, ICRF<f64>, LTRF> {\n    lirf_to_ltrf(time)','/// Nominal length of a sidereal rotation.\nconst ROTATION_S: f64 = 2_360_591.5;\n\npub fn icrf_to_ltrf(time: f64) -> DirectionCosineMatrix<f64, ICRF<f64>, LTRF> {\n    lirf_to_ltrf(time % ROTATION_S)')],
 '''
use aether_models::lunar::transforms::*;
fn main() {
    for t in [0.0f64, 1e6, -2e6, 2.9e8, 9.9e8] {
        let (a, b) = (icrf_to_ltrf(t), ltrf_to_icrf(t));
        let (m, n) = (a.as_matrix(), b.as_matrix());
        for i in 0..3 { for j in 0..3 { let d: f64 = m.data[i][j] - n.data[j][i]; assert!(d.abs() < 1e-8, "{t}: {d}"); } }
    }
}
''','a time more than one rotation (27 days) after the epoch','the angle is off by a little for every full rotation, so the transforms there and back are not inverse')
bug('f01-negative-tank','F01',['aether_fluids'],
 [('crates/aether_fluids/src/lib.rs','        total_mass_kg += tank.mass_kg.max(0.0);\n    }\n    total_mass_kg','        total_mass_kg += tank.mass_kg;\n    }\n    total_mass_kg.max(0.0)')],
 '''
use aether_fluids::*;
fn main() {
    let t = |m: f64| TankMassState { shape: TankShape::Sphere { radius_m: 0.5 }, mass_kg: m };
    assert!(aggregate_tank_mass_kg(&[t(-3.0)]) == 0.0);
    assert!(aggregate_tank_mass_kg(&[t(2.0), t(3.0)]) == 5.0);
    assert!(aggregate_tank_mass_kg(&[t(10.0), t(-3.0)]) == 10.0);
}
''','several tanks, one of them drawn below empty','the overdrawn tank takes mass from the others')
bug('r01-high-word-seeds','R01',['aether_rand'],
 [('crates/aether_rand/src/randomizers/xor_shift.rs','state: if seed == 0 {','state: if seed as u32 == 0 {')],
 '''
use aether_rand::randomizers::XorShift64Star as R;
fn main() {
    let mut w: Vec<u64> = (1u64..40).map(|k| R::new(k << 32).next_u64()).chain((1u64..40).map(|k| R::new(k).next_u64())).collect();
    w.sort();
    w.dedup();
    assert!(w.len() == 78, "{} different streams of 78 seeds", w.len());
}
''','a seed whose low 32 bits are zero','all such seeds give one and the same stream')
bug('o01-forgotten-momentum','O01',[],
 [('crates/aether_opt/src/gradient_descent/basic.rs','self.has_bounds = false;\n        self','self.has_bounds = false;\n        self.momentum = F::ZERO;\n        self')],
 '''
use aether_core::math::Vector;
use aether_opt::gradient_descent::GradientDescentGeneric;
fn main() {
    let mut g = GradientDescentGeneric::<f64, 1>::new();
    g.backtracking(false).learning_rate(0.25).momentum(0.5).tolerances(0.0, 0.0).max_iters(2);
    let a = g.minimize(Vector::new([1.0]), |x| x[0], |_| Vector::new([1.0]));
    g.set_bounds([-9.0], [9.0]).clear_bounds();
    let b = g.minimize(Vector::new([1.0]), |x| x[0], |_| Vector::new([1.0]));
    assert!(a.0[0] == b.0[0], "{} {}", a.0[0], b.0[0]);
}
''','momentum set, bounds set for one search and cleared for the next, at least two iterations','the momentum is gone','aether_core = { path = "@REPO@/crates/aether_core", features = ["std"] }\naether_opt = { path = "@REPO@/crates/aether_opt", features = ["std"] }')
