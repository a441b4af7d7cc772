from bugkit import bug
C='crates/aether_core/src/'
CORE='aether_core = { path = "@REPO@/crates/aether_core", features = ["std"] }'
bug('a01-half-turn-branch','A01',[],
 [(C+'attitude/quaternion.rs','''            Ok(Quaternion::new(
                (m[2][0] - m[0][2]) / qj4,
                (m[0][1] + m[1][0]) / qj4,
                qj,
                (m[1][2] + m[2][1]) / qj4,
            ))''','''            Ok(Quaternion::new(
                (m[0][2] - m[2][0]) / qj4,
                (m[0][1] + m[1][0]) / qj4,
                qj,
                (m[1][2] + m[2][1]) / qj4,
            ))''')],
 '''
use aether_core::attitude::Quaternion;
use aether_core::math::Vector;
use aether_core::reference_frame::{Body, ICRF};
fn main() {
    for deg in [10.0f64, 170.0, 179.0] {
        for a in [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0], [0.1, 1.0, 0.0]] {
            let q = Quaternion::<f64, ICRF<f64>, Body<f64>>::from_axis_angle(Vector { data: a }, deg.to_radians());
            let d = aether_core::attitude::DirectionCosineMatrix::from(&q);
            let p = Quaternion::try_from(&d).unwrap();
            let v = Vector { data: [1.0, 2.0, 3.0] };
            let (x, y) = (q.rotate_vector(v), p.rotate_vector(v));
            for i in 0..3 { assert!((x[i] - y[i]).abs() < 1e-9, "{a:?} {deg}: {x:?} {y:?}"); }
        }
    }
}
''','a direction cosine matrix of a rotation near (not at) a half turn about an axis close to y','the quaternion extracted is the inverse rotation', CORE)
bug('a02-backward-time','A02',[],
 [(C+'attitude/rotation.rs','''        let mag = omega.norm();
        if mag == T::ZERO {''','''        let mag = omega.norm();
        if mag * dt <= T::ZERO {''')],
 '''
use aether_core::attitude::{Quaternion, Rotation};
use aether_core::math::Vector;
use aether_core::reference_frame::{Body, ICRF};
fn main() {
    let r0 = Rotation::<f64, ICRF<f64>, Body<f64>>::from_quaternion(Quaternion::identity());
    let w = Vector { data: [0.1, -0.2, 0.3] };
    let v = Vector { data: [1.0, 2.0, 3.0] };
    let r = r0.integrate(w, 2.0).integrate(w, -2.0);
    let x = r.quaternion().rotate_vector(v);
    for i in 0..3 { assert!((x[i] - v[i]).abs() < 1e-12, "{x:?}"); }
}
''','an integration with a negative time step','stepping back in time leaves the attitude unchanged', CORE)
bug('a03-late-earth','A03',[],
 [(C+'reference_frame/itrf.rs','        let dtheta = (t - self.epoch) * omega;\n','        let turn = T::from_f64(6.283185307179586);\n        let mut dtheta = (t - self.epoch) * omega;\n        if dtheta > turn {\n            // keep the argument of the trigonometric functions small\n            dtheta = dtheta - turn * T::from_f64((dtheta / turn * T::from_f64(2.0)).to_f64().floor() * 0.5);\n        }\n')],
 '''
use aether_core::coordinate::Cartesian;
use aether_core::reference_frame::{ITRF, RotatingFrame};
fn main() {
    let f = ITRF::<f64> { epoch: 100.0 };
    let w = 7.2921150e-5;
    for hours in [0.0f64, 6.0, 20.0, 26.0, 40.0, 70.0] {
        let t = 100.0 + hours * 3600.0;
        let x = f.orientation_at(t).rotate_vector(Cartesian::<f64, ITRF<f64>>::new(1.0, 0.0, 0.0).data);
        let a = w * (t - 100.0);
        assert!((x[0] - a.cos()).abs() < 1e-9 && (x[1] + a.sin()).abs() < 1e-9, "{hours} h: {x:?}");
    }
}
''','an orientation more than a turn and a half (about 36 hours) after the epoch','the orientation is off by half a turn', CORE)
