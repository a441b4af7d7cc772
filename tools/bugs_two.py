from bugkit import bug
C='crates/aether_core/src/'
M='crates/aether_models/src/'
V='crates/aether_viz/src/'
CORE='aether_core = { path = "@REPO@/crates/aether_core", features = ["std"] }'
SERDE='aether_core = { path = "@REPO@/crates/aether_core", features = ["std", "serde"] }\nserde_json = "1"'
ML='aether_core = { path = "@REPO@/crates/aether_core", features = ["std"] }\naether_ml = { path = "@REPO@/crates/aether_ml", features = ["std"] }'
bug('v02-longer-successor','V02',['aether_viz'],
 [(V+'realtime.rs','            if previous.dev != current.dev || previous.ino != current.ino {\n','            // a rotated file starts afresh, and so is shorter than what was read\n            let rotated = current.len <= self.file_pos;\n            if rotated && (previous.dev != current.dev || previous.ino != current.ino) {\n'),
  (V+'realtime.rs','        if previous.created != current.created {','        if previous.created != current.created && current.len <= self.file_pos {')],
 '''
use aether_viz::*;
fn main() {
    let d = std::env::current_dir().unwrap();
    let f = d.join("demo.csv");
    let mut p = CsvRealtimePlotter::new(CsvRealtimeConfig { csv_path: f.clone(), x_column: "t".into(), y_columns: vec!["a".into()], ..Default::default() });
    std::fs::write(&f, "t,a\\n1,2\\n3,4\\n").unwrap();
    p.initialize().unwrap();
    // the successor is written aside and then moved into place
    std::fs::write(d.join("next.csv"), "t,a\\n10,20\\n30,40\\n50,60\\n").unwrap();
    std::fs::rename(d.join("next.csv"), &f).unwrap();
    p.update_once().unwrap();
    p.update_once().unwrap();
    assert!(p.x_values() == [10.0, 30.0, 50.0], "{:?}", p.x_values());
}
''','between two polls another file, longer than what was read, is moved into place','the old rows stay and the new file is read from the middle')
bug('a02-jerk-order','A02',[],
 [(C+'attitude/quaternion.rs','            + q.mul_raw(&ang_acc_quat).mul_raw(&ang_vel_quat) * quarter\n            + q.mul_raw(&ang_vel_quat).mul_raw(&ang_acc_quat) * half;','            + q.mul_raw(&ang_acc_quat).mul_raw(&ang_vel_quat) * half\n            + q.mul_raw(&ang_vel_quat).mul_raw(&ang_acc_quat) * quarter;')],
 '''
use aether_core::attitude::Quaternion;
use aether_core::coordinate::Cartesian;
use aether_core::reference_frame::{Body, ICRF};
type Q = Quaternion<f64, Body<f64>, ICRF<f64>>;
type C = Cartesian<f64, Body<f64>>;
fn main() {
    let (w, a) = ([0.6f64, -0.2, 0.4], [0.3f64, 0.9, -0.7]);
    let err = |h: f64| {
        let q: Q = Quaternion::new(1.0, 0.0, 0.0, 0.0);
        let one = q.integrate(C::new(w[0], w[1], w[2]), C::new(a[0], a[1], a[2]), h);
        // the same in a thousand steps of rate only, at the middle of each
        let (n, mut s) = (1000, [1.0, 0.0, 0.0, 0.0]);
        for k in 0..n {
            let t = h * (k as f64 + 0.5) / n as f64;
            let v: [f64; 3] = std::array::from_fn(|i| 0.5 * (w[i] + a[i] * t) * h / n as f64);
            let m = (v[0] * v[0] + v[1] * v[1] + v[2] * v[2]).sqrt();
            let (c, u) = (m.cos(), v.map(|x| x * m.sin() / m));
            s = [
                s[0] * c - s[1] * u[0] - s[2] * u[1] - s[3] * u[2],
                s[0] * u[0] + s[1] * c + s[2] * u[2] - s[3] * u[1],
                s[0] * u[1] - s[1] * u[2] + s[2] * c + s[3] * u[0],
                s[0] * u[2] + s[1] * u[1] - s[2] * u[0] + s[3] * c,
            ];
        }
        let o = [one.w(), one.i(), one.j(), one.k()];
        (0..4).map(|i| (o[i] - s[i]).abs()).fold(0.0, f64::max)
    };
    let order = (err(0.2) / err(0.1)).log2();
    assert!(order > 3.6, "order of a step {order}");
}
''','a Taylor step with an angular acceleration not along the angular rate','the step is only of third order', CORE)
bug('m05-extent-one','M05',[],
 [(C+'math/tensor.rs','off += i * stride; stride *= n;','off += i * stride;\n        // the innermost axis sets the pitch\n        stride *= if ax == 0 { n.max(2) } else { n };')],
 '''
use aether_core::math::tensor::TensorView;
fn main() {
    let data: Vec<i32> = (0..12).collect();
    let v = TensorView { data: &data, shape: &[2, 2, 3, 1] };
    let flat = TensorView { data: &data, shape: &[4, 3] };
    assert_eq!(*flat.get(&[3, 2]), 11);
    let mut n = 0;
    for i in 0..2 { for j in 0..2 { for k in 0..3 {
        assert_eq!(*v.get(&[i, j, k, 0]), n);
        n += 1;
    } } }
}
''','a view of rank four whose last axis has extent one','the offset of later cells is wrong', CORE)
bug('m04-missing-tail','M04',[],
 [(C+'math/vector.rs','''                    data[i] = seq
                        .next_element()?
                        .ok_or_else(|| de::Error::invalid_length(i, &self))?;''','''                    data[i] = match seq.next_element()? {
                        Some(x) => x,
                        // a trailing zero may have been left out
                        None if i > 2 && i + 1 == N => T::ZERO,
                        None => return Err(de::Error::invalid_length(i, &self)),
                    };''')],
 '''
use aether_core::math::Vector;
fn main() {
    assert!(serde_json::from_str::<Vector<f64, 3>>("[1.0,2.0]").is_err());
    let v = serde_json::from_str::<Vector<f64, 4>>("[1.0,2.0,3.0]");
    assert!(v.is_err(), "{v:?}");
}
''','a vector of four or more elements of which the last is missing in the input','the short input is accepted with a zero', SERDE)
bug('g02-south-pole','G02',['aether_models'],
 [(M+'terrestrial/wgs84/gravity/mod.rs','fn ellipsoidal_beta(x: f64, y: f64, z: f64, u: f64) -> f64 {\n','fn ellipsoidal_beta(x: f64, y: f64, z: f64, u: f64) -> f64 {\n    // on the axis the quotient is undefined\n    if x == 0.0 && y == 0.0 {\n        return core::f64::consts::FRAC_PI_2;\n    }\n')],
 '''
use aether_models::terrestrial::wgs84::gravity::gravity_rectangular;
fn main() {
    for z in [6.4e6f64, -6.4e6] {
        let g = gravity_rectangular(1.0e-3, 0.0, z);
        let p = gravity_rectangular(0.0, 0.0, z);
        let (gz, pz): (f64, f64) = (g.z(), p.z());
        assert!((gz - pz).abs() < 1e-3 && gz * z < 0.0, "at z = {z} on the axis {pz}, beside it {gz}");
    }
}
''','a place exactly on the axis below the south pole','gravity points away from the Earth')
bug('l01-narrow-feature','L01',[],
 [('crates/aether_ml/src/classification/naive_bayes.rs','let var = self.class_var[c][i].max(1e-12);','let var = self.class_var[c][i].max(1e-6);')],
 '''
use aether_core::math::Vector;
use aether_ml::classification::naive_bayes::GaussianNB;
fn main() {
    // one class spreads by 1e-4, the other by 1e-2, about nearly the same middle
    let mut x = vec![];
    let mut y = vec![];
    for s in [-1.0f64, 1.0] {
        x.push(Vector { data: [1e-4 * s] });
        y.push(0usize);
        x.push(Vector { data: [1e-2 * s] });
        y.push(1usize);
    }
    let m = GaussianNB::<1>::fit(&x, &y, 2);
    // 1e-3 is ten deviations from the first class
    assert_eq!(m.predict(&Vector { data: [1e-5] }), 0);
    assert_eq!(m.predict(&Vector { data: [1e-3] }), 1);
}
''','a class whose samples spread by less than a thousandth in some feature','the predicted class is not the one of largest posterior', ML)
bug('v03-thinned-points','V03',['aether_viz'],
 [(V+'lib.rs','                .collect::<Vec<_>>();\n\n            PreparedSeries {','                .collect::<Vec<_>>();\n            // more marks than columns of pixels cannot be told apart\n            let points = if points.len() > 2 * 1920 && matches!(s.style, PlotStyle::Points) {\n                points.into_iter().step_by(2).collect()\n            } else {\n                points\n            };\n\n            PreparedSeries {')],
 '''
use aether_viz::*;
fn main() {
    let out = std::env::current_dir().unwrap().join("demo.svg");
    for n in [100usize, 4000] {
        let x: Vec<f64> = (0..n).map(|k| k as f64).collect();
        let mut y = vec![0.0; n];
        y[n / 2 + 1] = 7.0; // a single outlier
        plot(&x, &y, "t", None, None, out.to_str(), PlotStyle::Points).unwrap();
        let svg = std::fs::read_to_string(&out).unwrap();
        let marks = svg.matches("<circle").count();
        assert!(marks == n, "{marks} of {n} points are drawn");
    }
}
''','a series of more than 3840 points drawn as points','every second point is missing')
