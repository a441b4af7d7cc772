//! A01 rotation representations, A02 composition and integration, A03 coordinates and frames.
use aether_core::attitude::{DirectionCosineMatrix as Dcm, Euler, Quaternion, Rotation};
use aether_core::coordinate::{Cartesian, Cylindrical, Spherical};
use aether_core::math::{Matrix, Vector};
use aether_core::real::Real;
use aether_core::reference_frame::{Body, ICRF, ITRF, NED, ReferenceFrame, RotatingFrame, transforms as tr};
use mckit::{Part, Run, guard, h, par, words};

type M3 = [[f64; 3]; 3];
macro_rules! frames { ($($f:ident)*) => { $( #[derive(Debug, Clone, Copy, PartialEq, Default)] struct $f; impl ReferenceFrame for $f {} )* } }
frames!(A B C D);

fn mm(a: &M3, b: &M3) -> M3 {
    core::array::from_fn(|i| core::array::from_fn(|j| (0..3).map(|k| a[i][k] * b[k][j]).sum()))
}
fn mv(a: &M3, v: &[f64; 3]) -> [f64; 3] {
    core::array::from_fn(|i| (0..3).map(|k| a[i][k] * v[k]).sum())
}
fn tp(a: &M3) -> M3 {
    core::array::from_fn(|i| core::array::from_fn(|j| a[j][i]))
}
const TURN: M3 = [[0.0, 2.0, 1.0], [-1.0, 0.5, 0.0], [3.0, 0.0, -4.0]];
const ID: M3 = [[1., 0., 0.], [0., 1., 0.], [0., 0., 1.]];
/// Passive rotation by `t` about unit axis `u`: coordinates in the turned frame.
fn passive(u: &[f64; 3], t: f64) -> M3 {
    let (s, c) = t.sin_cos();
    core::array::from_fn(|i| {
        core::array::from_fn(|j| {
            let d = (i == j) as i32 as f64;
            let k = [[0., u[2], -u[1]], [-u[2], 0., u[0]], [u[1], -u[0], 0.]][i][j];
            d * c + (1.0 - c) * u[i] * u[j] + s * k
        })
    })
}
fn axis(i: usize) -> [f64; 3] {
    core::array::from_fn(|k| (k == i) as i32 as f64)
}
fn zyx(e: &[f64; 3]) -> M3 {
    mm(&passive(&axis(0), e[0]), &mm(&passive(&axis(1), e[1]), &passive(&axis(2), e[2])))
}
fn dm(a: &M3, b: &M3) -> f64 {
    let mut e: f64 = 0.0;
    for i in 0..3 {
        for j in 0..3 {
            let d = (a[i][j] - b[i][j]).abs();
            if d.is_nan() {
                return f64::INFINITY;
            }
            e = e.max(d);
        }
    }
    e
}
fn dv(a: &[f64; 3], b: &[f64; 3]) -> f64 {
    let mut e: f64 = 0.0;
    for i in 0..3 {
        let d = (a[i] - b[i]).abs();
        if d.is_nan() {
            return f64::INFINITY;
        }
        e = e.max(d);
    }
    e
}
fn m3<T: Real, X: ReferenceFrame, Y: ReferenceFrame>(d: &Dcm<T, X, Y>) -> M3 {
    d.as_matrix().data.map(|r| r.map(|x| x.to_f64()))
}
fn by_get<T: Real, X: ReferenceFrame, Y: ReferenceFrame>(d: &Dcm<T, X, Y>) -> M3 {
    [[d.m11(), d.m12(), d.m13()], [d.m21(), d.m22(), d.m23()], [d.m31(), d.m32(), d.m33()]].map(|r| r.map(|x| x.to_f64()))
}
fn v3<T: Real>(v: &Vector<T, 3>) -> [f64; 3] {
    v.data.map(|x| x.to_f64())
}
fn vt<T: Real>(v: &[f64; 3]) -> Vector<T, 3> {
    Vector { data: v.map(T::from_f64) }
}
fn ct<T: Real, F: ReferenceFrame>(v: &[f64; 3]) -> Cartesian<T, F> {
    Cartesian::new(T::from_f64(v[0]), T::from_f64(v[1]), T::from_f64(v[2]))
}
fn c3<T: Real, F>(c: &Cartesian<T, F>) -> [f64; 3] {
    v3(&c.data)
}

/// Everything that turns or reads a quaternion gives the rotation `want` (A -> B).
fn quat<T: Real>(p: &mut Part, q: &Quaternion<T, A, B>, want: &M3, tol: f64, what: &dyn Fn() -> String) {
    for (nm, m) in [("to_dcm", m3(&q.to_dcm())), ("Dcm::from(&q)", m3(&Dcm::from(&q.normalized()))), ("Dcm::from(q)", by_get(&Dcm::from(q.normalized())))] {
        p.step();
        p.check(dm(&m, want) <= tol, nm, || format!("{nm}: {}: {q:?} gives {m:?}, expected {want:?}", what()));
    }
    for v in [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0], [2.0, -3.0, 0.5]] {
        let w = mv(want, &v);
        let c = ct::<T, A>(&v);
        let got = [
            ("rotate_vector", v3(&q.rotate_vector(vt(&v)))),
            ("rotate_vec", v3(&q.rotate_vec(&vt(&v)))),
            ("rotate_cartesian", c3(&q.rotate_cartesian(c))),
            ("q*c", c3(&(*q * c))),
            ("&q*&c", c3(&(q * &c))),
            ("&q*c", c3(&(q * c))),
            ("q*&c", c3(&(*q * &c))),
            ("transform", c3(&c.transform(q))),
        ];
        for (nm, g) in got {
            p.step();
            p.check(dv(&g, &w) <= tol * 4.0, nm, || format!("{nm}: {}: {q:?} turns {v:?} into {g:?}, expected {w:?}", what()));
        }
        let inv = q.inverse();
        let b = v3(&inv.rotate_vector(vt(&w)));
        p.check(dv(&b, &v) <= tol * 8.0, "inverse", || format!("inverse: {}: {q:?} turns {w:?} back into {b:?}, expected {v:?}", what()));
        let b = v3(&q.conjugate().rotate_vector(vt(&w)));
        p.check(dv(&b, &v) <= tol * 8.0, "conjugate", || format!("conjugate: {}: {q:?}: {b:?}, expected {v:?}", what()));
    }
}
/// Everything that turns or reads a direction cosine matrix gives the rotation `want`.
fn dcm<T: Real>(p: &mut Part, d: &Dcm<T, A, B>, want: &M3, tol: f64, what: &dyn Fn() -> String) {
    let g = m3(d);
    p.check(dm(&g, want) <= tol && dm(&by_get(d), &g) == 0.0, "dcm", || format!("{}: {g:?}, expected {want:?}", what()));
    let t = m3(&d.transpose());
    p.check(dm(&t, &tp(&g)) == 0.0, "dcm-transpose", || format!("{}: {t:?}", what()));
    for v in [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0], [2.0, -3.0, 0.5]] {
        let w = mv(want, &v);
        let c = ct::<T, A>(&v);
        for (nm, g) in [("D*c", c3(&(*d * c))), ("&D*&c", c3(&(d * &c))), ("&D*c", c3(&(d * c))), ("D*&c", c3(&(*d * &c)))] {
            p.step();
            p.check(dv(&g, &w) <= tol * 4.0, nm, || format!("{nm}: {}: {v:?} -> {g:?}, expected {w:?}", what()));
        }
    }
    match (Quaternion::try_from(d), Rotation::try_from(d)) {
        (Ok(q), Ok(r)) => {
            let n = q.norm().to_f64();
            p.check((n - 1.0).abs() <= tol * 4.0, "try_from-norm", || format!("{}: quaternion of norm {n}", what()));
            quat(p, &q, want, tol * 8.0, &|| format!("quaternion of {}", what()));
            quat(p, r.quaternion(), want, tol * 8.0, &|| format!("rotation of {}", what()));
        }
        _ => p.fail("try_from", || format!("{}: {want:?} refused", what())),
    }
}
fn euler_of<T: Real>(p: &mut Part, e: &Euler<T, A, B>, want: &M3, tol: f64, what: &dyn Fn() -> String) {
    let a = [e.roll().to_f64(), e.pitch().to_f64(), e.yaw().to_f64()];
    let pi = std::f64::consts::PI + 1e-6;
    p.step();
    p.check(a.iter().all(|x| x.is_finite()) && a[0].abs() <= pi && a[2].abs() <= pi && a[1].abs() <= pi / 2.0, "euler-range", || format!("{}: angles {a:?}", what()));
    let m = zyx(&a);
    p.check(dm(&m, want) <= tol, "euler", || format!("{}: angles {a:?} are the rotation {m:?}, expected {want:?}", what()));
}
fn all<T: Real + Default>(p: &mut Part, e: &[f64; 3], tol: f64, etol: f64) {
    let te = e.map(T::from_f64);
    let want = zyx(&te.map(|x| x.to_f64()));
    let eu = Euler::<T, A, B>::new(te[0], te[1], te[2]);
    let what = || format!("Euler {e:?}");
    let q = Quaternion::from(&eu);
    let d = Dcm::from(eu);
    p.states += 1;
    p.traces += 1;
    p.check((q.norm().to_f64() - 1.0).abs() <= tol, "quat-norm", || format!("{}: norm {:?}", what(), q.norm()));
    quat(p, &q, &want, tol * 4.0, &what);
    quat(p, &(-q), &want, tol * 4.0, &|| format!("-q of {}", what()));
    quat(p, &(q * T::from_f64(3.5)), &want, tol * 4.0, &|| format!("3.5 q of {}", what()));
    quat(p, &(q / T::from_f64(40.0)).normalized(), &want, tol * 4.0, &|| format!("q/40 of {}", what()));
    for s in [0.0078125, 0.996, 1.0 - 1e-5, 1.0 + 1e-5, 1.004, 300.0] {
        let x = q * T::from_f64(s);
        p.check(dm(&m3(&x.to_dcm()), &want) <= tol * 4.0, "to_dcm", || format!("to_dcm of {s} q of {}: {:?}, expected {want:?}", what(), m3(&x.to_dcm())));
        p.check(dv(&v3(&x.rotate_vector(vt(&[2.0, -3.0, 0.5]))), &mv(&want, &[2.0, -3.0, 0.5])) <= tol * 16.0, "rotate_vector", || format!("rotate_vector of {s} q of {}", what()));
        p.check(dm(&m3(&Rotation::from(&x).quaternion().to_dcm()), &want) <= tol * 8.0 && (Rotation::from(&x).quaternion().norm().to_f64() - 1.0).abs() <= tol * 8.0, "Rotation::from", || format!("Rotation::from of {s} q of {}", what()));
        p.check((x.normalized().norm().to_f64() - 1.0).abs() <= tol * 4.0, "normalized", || format!("{s} q of {}: norm {:?} after normalising", what(), x.normalized().norm()));
        p.step();
    }
    dcm(p, &d, &want, tol * 4.0, &what);
    euler_of(p, &Euler::from(&q), &want, etol, &|| format!("angles from the quaternion of {}", what()));
    euler_of(p, &Euler::from(&-q), &want, etol, &|| format!("angles from -q of {}", what()));
    euler_of(p, &Euler::from(&d), &want, etol, &|| format!("angles from the matrix of {}", what()));
    euler_of(p, &Euler::from(&q.to_dcm()), &want, etol, &|| format!("angles from to_dcm of {}", what()));
    // a matrix as rounding may leave it
    for s in [-2.0, -1.0, 1.0, 2.0] {
        let m = d.as_matrix().data.map(|r| r.map(|x| x * (T::ONE + T::EPSILON * T::from_f64(s))));
        euler_of(p, &Euler::from(&Dcm::<T, A, B>::from_matrix(Matrix { data: m })), &want, etol, &|| format!("angles from the matrix of {} scaled by 1{s:+} epsilon", what()));
    }
    let r = Rotation::from(&q);
    p.check(dm(&m3(&r.quaternion().to_dcm()), &want) <= tol * 8.0, "Rotation::from", what);
    let deg = Euler::<f64, A, B>::from_degrees_vec(Vector { data: e.map(|x| x.to_degrees()) });
    p.check(dv(&v3(&deg.data), e) <= 1e-14 && dv(&deg.to_degrees_vec().data, &e.map(|x| x.to_degrees())) <= 1e-12, "degrees", what);
}
/// The numbers a text contains, in order.
pub fn numbers(s: &str) -> Vec<f64> {
    s.split(|c: char| !(c.is_ascii_digit() || "+-.eE".contains(c))).filter_map(|w| w.parse().ok()).collect()
}
/// Componentwise arithmetic, by value and reference, and what is printed.
fn values(r: &mut Run) {
    let set = [0.0, 1.5, -2.0, 0.125, -0.5];
    let mut w = words(5, 6);
    while let Some(x) = w.next() {
        let g: Vec<f64> = x.iter().map(|&k| set[k]).collect();
        let (a, b) = ([g[0], g[1], g[2]], [g[3], g[4], g[5]]);
        let e = |v: [f64; 3]| Euler::<f64, A, B>::new(v[0], v[1], v[2]);
        let (p, q) = (e(a), e(b));
        let (mut p1, mut p2) = (p, p);
        p1 += q;
        p2 += &q;
        let add: [f64; 3] = core::array::from_fn(|i| a[i] + b[i]);
        let sub: [f64; 3] = core::array::from_fn(|i| a[i] - b[i]);
        let k = 4.0;
        let ok = [p + q, p + &q, &p + q, &p + &q, p1, p2].iter().all(|c| c.data.data == add)
            && [p - q, p - &q, &p - q, &p - &q].iter().all(|c| c.data.data == sub)
            && [-p, -&p].iter().all(|c| c.data.data == a.map(|x| -x))
            && [p * k, &p * k].iter().all(|c| c.data.data == a.map(|x| x * k))
            && [p / k, &p / k].iter().all(|c| c.data.data == a.map(|x| x / k))
            && [p.roll(), p.pitch(), p.yaw()] == a
            && printed!(p, a);
        r.step();
        r.check(ok, "euler-arithmetic", || format!("Euler {a:?} and {b:?}: {:?} {:?} {:?} {:?}", p + q, p - q, p * k, p / k));
        // quaternions as four numbers
        let f = |v: [f64; 4]| Quaternion::<f64, A, B>::new(v[0], v[1], v[2], v[3]);
        let (a, b) = ([g[0], g[1], g[2], g[3]], [g[4], g[5], g[0] - 1.0, g[1] * 3.0]);
        let (p, q) = (f(a), f(b));
        let ham = [
            a[0] * b[0] - a[1] * b[1] - a[2] * b[2] - a[3] * b[3],
            a[0] * b[1] + a[1] * b[0] + a[2] * b[3] - a[3] * b[2],
            a[0] * b[2] - a[1] * b[3] + a[2] * b[0] + a[3] * b[1],
            a[0] * b[3] + a[1] * b[2] - a[2] * b[1] + a[3] * b[0],
        ];
        let n2 = a.iter().map(|x| x * x).sum::<f64>();
        let ok = (p + q).data.data == core::array::from_fn::<f64, 4, _>(|i| a[i] + b[i])
            && (p - q).data.data == core::array::from_fn::<f64, 4, _>(|i| a[i] - b[i])
            && (-p).data.data == a.map(|x| -x)
            && (p * k).data.data == a.map(|x| x * k)
            && (p / k).data.data == a.map(|x| x / k)
            && [p.w(), p.i(), p.j(), p.k()] == a
            && p.conjugate().data.data == [a[0], -a[1], -a[2], -a[3]]
            && p.dot(&q) == (0..4).map(|i| a[i] * b[i]).sum::<f64>()
            && p.norm2() == n2
            && (p.norm() - n2.sqrt()).abs() <= 1e-15 * n2
            && p.mul_hamilton_same(&q).data.data.iter().zip(&ham).all(|(x, y)| (x - y).abs() <= 1e-13)
            && printed!(p, a)
            && (n2 == 0.0 || {
                let i = p.inverse().data.data;
                (0..4).all(|k| (i[k] * n2 - [a[0], -a[1], -a[2], -a[3]][k]).abs() <= 1e-14 * n2)
            });
        r.step();
        r.check(ok, "quaternion-arithmetic", || format!("Quaternions {a:?} and {b:?}: {:?} {:?}", p.mul_hamilton_same(&q), p.inverse()));
    }
    r.states_distinct(5u64.pow(6));
    let m: M3 = [[1.0, -2.0, 3.5], [4.0, 5.25, -6.0], [7.0, 8.0, 9.125]];
    let d = Dcm::<f64, A, B>::from_matrix(Matrix { data: m });
    let d2 = Dcm::<f64, A, B>::new(m[0][0], m[0][1], m[0][2], m[1][0], m[1][1], m[1][2], m[2][0], m[2][1], m[2][2]);
    r.check(m3(&d2) == m && printed!(d, m.as_flattened()), "dcm-values", || format!("{:?} {:?}", m3(&d), m3(&d2)));
    r.section("componentwise arithmetic and printed values");
}
pub fn a01(r: &mut Run) {
    let n: i64 = if r.thorough { 24 } else { 12 };
    let pi = std::f64::consts::PI;
    let mut angles: Vec<[f64; 3]> = vec![];
    for i in -n..=n {
        for j in -n..=n {
            for k in -n..=n {
                angles.push([i as f64 * pi / n as f64, j as f64 * pi / n as f64, k as f64 * pi / n as f64]);
            }
        }
    }
    // many turns
    for t in [7.0, -20.5, 100.0, 1.0e3] {
        for i in 0..3 {
            for j in 0..8 {
                let mut e: [f64; 3] = core::array::from_fn(|k| 0.3 * (k + j) as f64 - 1.0);
                e[i] = t + j as f64;
                angles.push(e);
            }
        }
    }
    let base = angles.len();
    // next to the pole
    for j in 0..2 {
        for e in 0..47 {
            let off = if e == 46 { 0.0 } else { 2f64.powi(-(e + 2) * 5 / 4) };
            let t = (pi / 2.0 - off) * [1.0, -1.0][j];
            for i in -6..=6 {
                for k in -6..=6 {
                    angles.push([i as f64 * pi / 6.0 + 0.01, t, k as f64 * pi / 6.0 - 0.02]);
                }
            }
        }
    }
    let a = &angles;
    for q in par(angles.len() as u64, |p, i| {
        let e = a[i as usize];
        all::<f64>(p, &e, 4e-15, if (i as usize) < base { 2e-7 } else { 2e-6 });
        if i % 5 == 0 {
            all::<f32>(p, &e, 2e-6, 6e-3);
        }
        p.outcomes.insert(h(&e.map(|x| x.to_le_bytes()).concat()));
    }) {
        r.absorb(q);
    }
    r.section("every Euler triple of a grid, and pitches down to the pole");
    // no rotation has an entry that is not a number
    for i in 0..3 {
        let mut m = ID;
        m[i][i] = f64::NAN;
        let d = Dcm::<f64, A, B>::from_matrix(Matrix { data: m });
        r.step();
        r.check(Quaternion::try_from(&d).is_err() && Rotation::try_from(&d).is_err(), "try_from-nan", || format!("a matrix with NaN on its diagonal became {:?}", Quaternion::try_from(&d)));
        r.states_distinct(1);
    }
    // axis-angle
    let mut ax: Vec<[f64; 3]> = vec![];
    for i in -2..=2 {
        for j in -2..=2 {
            for k in -2..=2 {
                if (i, j, k) != (0, 0, 0) {
                    ax.push([i as f64, j as f64, k as f64]);
                }
            }
        }
    }
    for u in [[1e-3, 0.0, 1.0], [1e5, 2e5, -1e5], [0.0, 1e-6, 0.0], [1.0, 1e-9, 0.0]] {
        ax.push(u);
    }
    // a grid over two turns, tiny angles, angles next to half and whole turns, and many turns
    let mut turns: Vec<f64> = (0..97).map(|i| i as f64 / 48.0 * 2.0 * pi - 2.0 * pi).collect();
    for near in [0.0, pi, -pi, 2.0 * pi, -2.0 * pi] {
        for d in [1e-3, 1e-5, 1e-7, 1e-9, 1e-11] {
            turns.extend([near - d, near + d]);
        }
    }
    turns.extend([6.5, -6.5, 7.75, 12.625, -12.625, 20.5, -20.5, 100.0, -100.0, 1000.0]);
    let (ax, turns) = (&ax, &turns);
    for q in par((ax.len() * turns.len()) as u64, |p, i| {
        let u = ax[i as usize / turns.len()];
        let t = turns[i as usize % turns.len()];
        let n = u.iter().map(|x| x * x).sum::<f64>().sqrt();
        let want = passive(&u.map(|x| x / n), t);
        p.states += 1;
        p.traces += 1;
        let q = Quaternion::<f64, A, B>::from_axis_angle(vt(&u), t);
        let what = || format!("axis {u:?} angle {t}");
        quat(p, &q, &want, 1e-14, &what);
        quat(p, &Quaternion::<f32, A, B>::from_axis_angle(vt(&u), t as f32), &want, 4e-6, &what);
        dcm(p, &Dcm::<f64, A, B>::from_matrix(Matrix { data: want }), &want, 1e-14, &what);
        dcm(p, &Dcm::<f64, A, B>::from(&Matrix { data: want }), &want, 1e-14, &what);
        euler_of(p, &Euler::from(&q), &want, 2e-7, &what);
        euler_of(p, &Euler::from(&Dcm::<f64, A, B>::from_matrix(Matrix { data: want })), &want, 2e-7, &what);
        // constant rate for a time, fast and slow, forward and backward
        for rate in [0.25, -0.25, 1e-4, 1e-8, 1e-12, 1e6] {
            let w = Quaternion::<f64, A, A>::from_angular_velocity(Vector { data: u.map(|x| x / n * rate) }, t / rate);
            p.check(dm(&m3(&w.to_dcm()), &want) <= 1e-14 * (1.0 + t.abs()), "from_angular_velocity", || format!("{} at the rate {rate}", what()));
        }
        for i in 0..3 {
            let d = [Dcm::<f64, A, B>::rotate_x(t), Dcm::rotate_y(t), Dcm::rotate_z(t)][i];
            p.check(dm(&m3(&d), &passive(&axis(i), t)) <= 1e-14, "rotate_xyz", || format!("rotate about axis {i} by {t}: {:?}", m3(&d)));
        }
    }) {
        r.absorb(q);
    }
    r.check(dm(&m3(&Quaternion::<f64, A, B>::identity().to_dcm()), &ID) == 0.0, "identity", || "identity".into());
    r.section("every axis of a set turned by every angle");
    values(r);
    r.bounds.push(format!("Euler grid of pi/{n} over full turns of roll, pitch and yaw, and up to 1000 rad; 47 offsets from either pole x 169 roll/yaw pairs; 128 axes x 157 angles; f64, and f32 on a fifth"));
    r.assumptions.push("angles extracted within rounding of a pole may move by the square root of the machine epsilon".into());
}

// ------------------------------------------------------------------ A02
/// The 24 rotations of the cube: generators and exact matrices.
fn cube() -> Vec<([f64; 3], f64, M3)> {
    let mut out = vec![([1.0, 0.0, 0.0], 0.0, ID)];
    let mut push = |u: [f64; 3], t: f64| {
        let n = u.iter().map(|x| x * x).sum::<f64>().sqrt();
        let m = passive(&u.map(|x| x / n), t).map(|r| r.map(|x| x.round()));
        out.push((u, t, m));
    };
    let pi = std::f64::consts::PI;
    for i in 0..3 {
        for t in [pi / 2.0, pi, -pi / 2.0] {
            push(axis(i), t);
        }
    }
    for s in [[1., 1., 1.], [1., 1., -1.], [1., -1., 1.], [-1., 1., 1.]] {
        push(s, 2.0 * pi / 3.0);
        push(s, -2.0 * pi / 3.0);
    }
    for u in [[1., 1., 0.], [1., -1., 0.], [1., 0., 1.], [1., 0., -1.], [0., 1., 1.], [0., 1., -1.]] {
        push(u, pi);
    }
    out
}
pub fn a02(r: &mut Run) {
    let g = cube();
    assert!(g.len() == 24 && (0..24).all(|i| (0..i).all(|j| g[i].2 != g[j].2)));
    let mk = |i: usize| Quaternion::<f64, A, A>::from_axis_angle(vt(&g[i].0), g[i].1);
    let qs: Vec<_> = (0..24).map(mk).collect();
    let len = if r.thorough { 4 } else { 3 };
    let total = 24u64.pow(len);
    let (g, qs) = (&g, &qs);
    for part in par(total, |p, mut i| {
        let mut q = Quaternion::<f64, A, A>::identity();
        let mut d = Dcm::<f64, A, A>::from_matrix(Matrix::identity());
        let mut rot = Rotation::<f64, A, A>::from_quaternion(q);
        let mut m = ID;
        let mut w = vec![];
        for _ in 0..len {
            let k = (i % 24) as usize;
            i /= 24;
            w.push(k);
            q = if w.len() % 2 == 0 { qs[k] * q } else { &qs[k] * &q };
            d = qs[k].to_dcm() * d;
            rot = rot.compose(&Rotation::from_quaternion(qs[k]));
            m = mm(&g[k].2, &m);
            p.step();
        }
        let c = rot.quaternion().data.data;
        p.check(printed!(rot, c), "print", || format!("a printed rotation does not show {c:?}"));
        // the other association
        let mut left = qs[w[0]];
        for k in &w[1..] {
            left = qs[*k] * left;
        }
        let right = w[1..].iter().rev().fold(Quaternion::<f64, A, A>::identity(), |acc, k| acc * qs[*k]) * qs[w[0]];
        for (nm, x) in [("q*q", m3(&q.to_dcm())), ("dcm*dcm", m3(&d)), ("compose", m3(&rot.quaternion().to_dcm())), ("left", m3(&left.to_dcm())), ("right", m3(&right.to_dcm())), ("inverse", tp(&m3(&q.inverse().to_dcm())))] {
            p.check(dm(&x, &m) <= 1e-14, nm, || format!("{nm}: word {w:?} of cube rotations gives {x:?}, exact {m:?}"));
        }
        let v = [1.0, 2.0, 3.0];
        let t = v3(&q.rotate_vector(vt(&v)));
        p.check(dv(&t, &mv(&m, &v)) <= 1e-13, "q*q on a vector", || format!("word {w:?}: {t:?}"));
        p.traces += 1;
        p.states += 1;
        p.outcomes.insert(h(&m.as_flattened().iter().flat_map(|x| (*x as i8).to_le_bytes()).collect::<Vec<_>>()));
    }) {
        r.absorb(part);
    }
    r.section("every word of cube rotations, composed four ways");
    // typed chain A -> B -> C -> D with generic rotations
    let gen_q = |k: usize| ([[1.0, 2.0, -0.5], [0.0, 1.0, 0.0], [-1.0, 0.3, 0.2], [0.0, 0.0, 1.0], [1.0, 0.0, 0.0]][k % 5], [0.3, -1.2, 2.9, 0.01, 1.5707][k / 5]);
    for x in 0..25 * 25 * 25 {
        let (a, b, c) = (gen_q(x % 25), gen_q(x / 25 % 25), gen_q(x / 625));
        let qa = Quaternion::<f64, A, B>::from_axis_angle(vt(&a.0), a.1);
        let qb = Quaternion::<f64, B, C>::from_axis_angle(vt(&b.0), b.1);
        let qc = Quaternion::<f64, C, D>::from_axis_angle(vt(&c.0), c.1);
        let n = |u: [f64; 3]| { let n = u.iter().map(|x| x * x).sum::<f64>().sqrt(); u.map(|x| x / n) };
        let m = mm(&passive(&n(c.0), c.1), &mm(&passive(&n(b.0), b.1), &passive(&n(a.0), a.1)));
        let whole: Quaternion<f64, A, D> = qc * (qb * qa);
        let assoc: Quaternion<f64, A, D> = (qc * qb) * qa;
        let dd: Dcm<f64, A, D> = qc.to_dcm() * qb.to_dcm() * qa.to_dcm();
        let ro = Rotation::from_quaternion(qa).compose(&Rotation::from_quaternion(qb)).compose(&Rotation::from_quaternion(qc));
        r.step();
        for (nm, x) in [("typed", m3(&whole.to_dcm())), ("typed assoc", m3(&assoc.to_dcm())), ("typed dcm", m3(&dd)), ("typed compose", m3(&ro.quaternion().to_dcm()))] {
            r.check(dm(&x, &m) <= 1e-14, nm, || format!("{nm}: {a:?} then {b:?} then {c:?}: {x:?}, expected {m:?}"));
        }
        let back = v3(&(whole.inverse() * (whole * ct::<f64, A>(&[1.0, -2.0, 3.0]))).data);
        r.check(dv(&back, &[1.0, -2.0, 3.0]) <= 1e-14, "typed inverse", || format!("{a:?} {b:?} {c:?}: {back:?}"));
        r.states_distinct(1);
        r.trace();
    }
    r.section("typed chains of general rotations");
    // body rates: every word of quarter turns
    let len = if r.thorough { 6 } else { 5 };
    let mut w = words(9, len);
    let pi = std::f64::consts::PI;
    while let Some(x) = w.next() {
        let mut rot = Rotation::<f64, ICRF<f64>, Body<f64>>::from_quaternion(Quaternion::identity());
        let mut m = ID;
        for &k in x {
            // 0..6: a quarter turn either way about each axis; 6: rest; 7, 8: time runs backwards about x, z
            let (ax, s) = if k < 6 { (k / 2, [1.0, -1.0][k % 2]) } else if k == 6 { (0, 0.0) } else { ([0, 2][k - 7], 1.0) };
            let dt = if k > 6 { -4.0 } else { 4.0 };
            rot = rot.integrate(Vector { data: axis(ax).map(|c| c * s * 0.125 * pi) }, dt);
            if k != 6 {
                let t = if k > 6 { -pi / 2.0 } else { s * pi / 2.0 };
                m = mm(&passive(&axis(ax), t).map(|r| r.map(|x| x.round())), &m);
            }
            r.step();
        }
        let g = m3(&rot.quaternion().to_dcm());
        r.check(dm(&g, &m) <= 5e-14, "Rotation::integrate", || format!("body rates {x:?} (two per axis, quarter turns, rest, two backwards): {g:?}, exact {m:?}"));
        r.states_distinct(1);
        r.trace();
    }
    r.section("every word of body-rate quarter turns");
    // general rates, from very slow to many turns, composed with every start
    let dirs = [[1.0, 2.0, -0.5], [0.0, 1.0, 0.0], [-1.0, 0.3, 0.2], [0.0, 0.0, -1.0], [1e-9, 0.0, 1.0], [3.0, -4.0, 12.0]];
    for (gi, q) in qs.iter().enumerate() {
        for u in dirs {
            let n = u.iter().map(|x| x * x).sum::<f64>().sqrt();
            for mag in [1e-12, 1e-8, 7.292115e-5, 0.01, 1.0, 40.0] {
                for dt in [1e-6, 0.01, 0.5, -0.5, 3.0, 100.0, 0.0] {
                    let om = u.map(|x| x / n * mag);
                    let want = mm(&passive(&u.map(|x| x / n), mag * dt), &g[gi].2);
                    let x = Rotation::<f64, A, A>::from_quaternion(*q).integrate(Vector { data: om }, dt);
                    let e = dm(&m3(&x.quaternion().to_dcm()), &want);
                    // a rotation vector is resolved to its own size
                    let d = Quaternion::<f64, A, A>::from_angular_velocity(Vector { data: om }, dt);
                    let small = (mag * dt).abs() < 1e-3;
                    let v: [f64; 3] = core::array::from_fn(|i| (d.data.data[i + 1] * 2.0 - om[i] * dt) / (mag * dt).abs().max(1e-300));
                    r.step();
                    r.check(e <= 1e-14 + 1e-15 * (mag * dt).abs(), "Rotation::integrate", || format!("start {gi} rate {om:?} for {dt}: {x:?}, error {e}"));
                    r.check(!small || dt == 0.0 || v.iter().all(|c| c.abs() <= 1e-6), "from_angular_velocity", || format!("rate {om:?} for {dt}: {d:?}"));
                    let f = Quaternion::<f32, A, A>::from_angular_velocity(Vector { data: om.map(|c| c as f32) }, dt as f32);
                    let e = dm(&m3(&f.to_dcm()), &passive(&u.map(|x| x / n), mag * dt));
                    r.check(e <= 2e-6 + 4e-7 * (mag * dt).abs(), "from_angular_velocity", || format!("f32: rate {om:?} for {dt}: {f:?}, error {e}"));
                }
            }
        }
        r.states_distinct(252);
        r.trace();
    }
    r.section("every start turned at general rates");
    // Taylor step: error of fourth order against finely resolved kinematics
    let pure = |w: [f64; 3]| [0.0, w[0], w[1], w[2]];
    let ham = |a: [f64; 4], b: [f64; 4]| [
        a[0] * b[0] - a[1] * b[1] - a[2] * b[2] - a[3] * b[3],
        a[0] * b[1] + a[1] * b[0] + a[2] * b[3] - a[3] * b[2],
        a[0] * b[2] - a[1] * b[3] + a[2] * b[0] + a[3] * b[1],
        a[0] * b[3] + a[1] * b[2] - a[2] * b[1] + a[3] * b[0],
    ];
    let truth = |q0: [f64; 4], w0: [f64; 3], al: [f64; 3], dt: f64| {
        let f = |t: f64, q: [f64; 4]| { let w: [f64; 3] = core::array::from_fn(|i| w0[i] + al[i] * t); ham(q, pure(w)).map(|x| x * 0.5) };
        let n = 40;
        let hs = dt / n as f64;
        let mut q = q0;
        for k in 0..n {
            let t = k as f64 * hs;
            let add = |q: [f64; 4], k: [f64; 4], s: f64| -> [f64; 4] { core::array::from_fn(|i| q[i] + k[i] * s) };
            let k1 = f(t, q);
            let k2 = f(t + hs / 2.0, add(q, k1, hs / 2.0));
            let k3 = f(t + hs / 2.0, add(q, k2, hs / 2.0));
            let k4 = f(t + hs, add(q, k3, hs));
            q = core::array::from_fn(|i| q[i] + hs / 6.0 * (k1[i] + 2.0 * k2[i] + 2.0 * k3[i] + k4[i]));
        }
        q
    };
    let vals = [[0.0, 0.0, 0.0], [1.0, 0.0, 0.0], [0.0, -1.0, 0.0], [0.0, 0.0, 1.0], [0.6, -0.7, 0.4], [-0.3, 0.2, 0.9]];
    for q in qs.iter() {
        for w in vals {
            for al in vals {
                for dt in [0.4, 0.2, 0.1, 0.01, -0.1, 0.0] {
                    let got = q.integrate(ct(&w), ct(&al), dt).data.data;
                    let want = truth(q.data.data, w, al, dt);
                    let n = want.iter().map(|x| x * x).sum::<f64>().sqrt();
                    let e = (0..4).map(|i| (got[i] - want[i] / n).abs()).fold(0.0, |a: f64, b| if b.is_nan() { f64::INFINITY } else { a.max(b) });
                    r.step();
                    r.check(e <= 0.2 * dt.abs().powi(4) + 1e-13, "Quaternion::integrate", || format!("{q:?} rate {w:?} acceleration {al:?} dt {dt}: {got:?}, exact {want:?}, error {e}"));
                }
            }
        }
        r.states_distinct(216);
    }
    r.section("Taylor integration against resolved kinematics");
    r.bounds.push(format!("24^{} words of cube rotations; 15625 typed chains; 9^{len} words of body rates; 6048 general rates; 5184 Taylor steps", if r.thorough { 4 } else { 3 }));
    r.assumptions.push("Quaternion::integrate is q' = q w / 2 with the rate constant or linear over the step; error of fourth order in the step".into());
}

// ------------------------------------------------------------------ A03
fn proper(m: &M3) -> f64 {
    let det = m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0]) + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]);
    dm(&mm(m, &tp(m)), &ID).max((det - 1.0).abs())
}
pub fn a03(r: &mut Run) {
    let mags: Vec<f64> = vec![0.0, 1.0, -1.0, 2.5, -3.0, 1e-3, -1e-3, 6.4e6, -6.4e6, 1e9, 1e-9, -7e-12];
    let mut w = words(mags.len(), 3);
    while let Some(x) = w.next() {
        let v: [f64; 3] = core::array::from_fn(|i| mags[x[i]]);
        let c = ct::<f64, A>(&v);
        let rr = v.iter().map(|x| x * x).sum::<f64>().sqrt();
        let s = Spherical::from(&c);
        let y = Cylindrical::from(&c);
        let rho = v[0].hypot(v[1]);
        r.step();
        let az = v[1].atan2(v[0]);
        r.check((s.r() - rr).abs() <= 1e-14 * rr && (0.0..=std::f64::consts::PI).contains(&s.theta()) && (s.theta() - rho.atan2(v[2])).abs() <= 3e-8 && (s.phi() - az).abs() <= 1e-14, "spherical", || format!("{v:?} -> {s:?}"));
        r.check((y.r() - rho).abs() <= 1e-14 * rho && y.z() == v[2] && (y.theta() - az).abs() <= 1e-14, "cylindrical", || format!("{v:?} -> {y:?}"));
        // every path of two or three conversions back to Cartesian
        let s2 = Spherical::from(&y);
        let y2 = Cylindrical::from(&s);
        let back = [
            ("spherical", c3(&Cartesian::<f64, A>::from(&s)), 3e-8),
            ("cylindrical", c3(&Cartesian::<f64, A>::from(&y)), 1e-14),
            ("cylindrical-spherical", c3(&Cartesian::<f64, A>::from(&s2)), 3e-8),
            ("spherical-cylindrical", c3(&Cartesian::<f64, A>::from(&y2)), 3e-8),
            ("c-s-c-s", c3(&Cartesian::<f64, A>::from(&Spherical::from(&Cylindrical::from(&s2)))), 6e-8),
        ];
        for (nm, b, tol) in back {
            r.step();
            r.check(dv(&b, &v) <= tol * rr, nm, || format!("{v:?} via {nm}: {b:?}"));
        }
        r.states_distinct(1);
        r.trace();
    }
    let pi = std::f64::consts::PI;
    for i in 0..=48 {
        for k in -48..=48 {
            for rad in [1e-6, 1.0, 2e7] {
                let (th, ph) = (i as f64 * pi / 48.0, k as f64 * pi / 48.0);
                let want = [rad * th.sin() * ph.cos(), rad * th.sin() * ph.sin(), rad * th.cos()];
                let s = Spherical::new(rad, ph, th);
                let c = Cartesian::<f64, A>::from(&s);
                let y = Cylindrical::from(&s);
                let s2 = Spherical::from(&c);
                r.step();
                r.check(dv(&c3(&c), &want) <= 1e-14 * rad && dv(&c3(&Cartesian::<f64, A>::from(&y)), &want) <= 1e-14 * rad, "from-spherical", || format!("r {rad} azimuth {ph} inclination {th}: {c:?} {y:?}"));
                let inner = i > 0 && i < 48;
                let dphi = (s2.phi() - ph).rem_euclid(2.0 * pi);
                r.check((s2.theta() - th).abs() <= 3e-8 && (!inner || dphi.min(2.0 * pi - dphi) <= 1e-12), "spherical-angles", || format!("{s:?} -> {s2:?}"));
                r.states_distinct(1);
            }
        }
    }
    // the same in single precision
    let m32 = [0.0f32, 1.0, -2.5, 1e-3, -6.4e6, 1e9];
    let mut w = words(m32.len(), 3);
    while let Some(x) = w.next() {
        let v: [f64; 3] = core::array::from_fn(|i| m32[x[i]] as f64);
        let c = ct::<f32, A>(&v);
        let rr = v.iter().map(|x| x * x).sum::<f64>().sqrt();
        let (s, y) = (Spherical::from(&c), Cylindrical::from(&c));
        let az = v[1].atan2(v[0]);
        r.step();
        r.check((s.r() as f64 - rr).abs() <= 1e-6 * rr && (s.phi() as f64 - az).abs() <= 1e-6 && (s.theta() as f64 - v[0].hypot(v[1]).atan2(v[2])).abs() <= 1e-3, "spherical", || format!("f32 {v:?} -> {s:?}"));
        r.check((y.r() as f64 - v[0].hypot(v[1])).abs() <= 1e-6 * rr && y.z() as f64 == v[2] && (y.theta() as f64 - az).abs() <= 1e-6, "cylindrical", || format!("f32 {v:?} -> {y:?}"));
        for (nm, b, tol) in [("spherical", c3(&Cartesian::<f32, A>::from(&s)), 1e-3), ("cylindrical", c3(&Cartesian::<f32, A>::from(&y)), 1e-6), ("spherical-cylindrical", c3(&Cartesian::<f32, A>::from(&Cylindrical::from(&s))), 1e-3), ("cylindrical-spherical", c3(&Cartesian::<f32, A>::from(&Spherical::from(&y))), 1e-3)] {
            r.check(dv(&b, &v) <= tol * rr, nm, || format!("f32 {v:?} via {nm}: {b:?}"));
        }
        r.states_distinct(1);
    }
    r.section("coordinate conversions");
    // arithmetic of typed coordinates: components
    let mut w = words(5, 6);
    while let Some(x) = w.next() {
        let g: Vec<f64> = x.iter().map(|&k| k as f64 - 2.0).collect();
        let (a, b) = ([g[0], g[1], g[2]], [g[3], g[4], g[5]]);
        let (p, q) = (ct::<f64, A>(&a), ct::<f64, A>(&b));
        let add: [f64; 3] = core::array::from_fn(|i| a[i] + b[i]);
        let sub: [f64; 3] = core::array::from_fn(|i| a[i] - b[i]);
        let mut p1 = p;
        p1 += q;
        let mut p2 = p;
        p2 -= q;
        let cr = [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]];
        let ok = [p + q, &p + &q, &p + q, p + &q, p1].iter().all(|c| c3(c) == add)
            && [p - q, &p - &q, &p - q, p - &q, p2].iter().all(|c| c3(c) == sub)
            && c3(&p.cross(&q)) == cr
            && p.dot(&q) == a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
            && [-p, -&p, p * -1.0, &p * -1.0, p / -1.0, &p / -1.0].iter().all(|c| c3(c) == a.map(|x| -x))
            && [p * 4.0, &p * 4.0].iter().all(|c| c3(c) == a.map(|x| x * 4.0)) && [p / 4.0, &p / 4.0].iter().all(|c| c3(c) == a.map(|x| x / 4.0))
            && [Matrix { data: TURN } * p, Matrix { data: TURN } * &p].iter().all(|c| c3(c) == mv(&TURN, &a))
            && p.iter().copied().collect::<Vec<_>>() == a && p.into_iter().collect::<Vec<_>>() == a && (&p).into_iter().copied().collect::<Vec<_>>() == a && *p.as_ref() == a
            && {
                let (mut p3, mut p4) = (p, p);
                p3.iter_mut().zip(b).for_each(|(x, y)| *x = y);
                (&mut p4).into_iter().zip(b).for_each(|(x, y)| *x = y);
                let mut p5 = p;
                *p5.as_mut() = b;
                let mut p6 = p;
                for i in 0..3 {
                    p6[i] = b[i];
                }
                [p3, p4, p5, p6].iter().all(|c| c3(c) == b)
            }
            && c3(&p.map(|x| x + 1.0)) == a.map(|x| x + 1.0)
            && c3(&p.powf(2.0)) == a.map(|x| x * x) && c3(&p.powf_ref(2.0)) == a.map(|x| x * x)
            && printed!(p, a)
            && c3(&Cartesian::<f64, A>::zero()) == [0.0; 3]
            && (a == [0.0; 3] || dv(&c3(&p.normalize()).map(|x| x * p.norm()), &a) <= 1e-14)
            && c3(&p.powi(2)) == a.map(|x| x * x) && c3(&p.powi_ref(3)) == a.map(|x| x * x * x)
            && (-3..=5).all(|n: i32| {
                let w = a.map(|x| {
                    let m = (0..n.abs()).fold(1.0, |m, _| m * x);
                    if n < 0 { 1.0 / m } else { m }
                });
                let same = |c: [f64; 3]| (0..3).all(|i| c[i] == w[i] || (c[i] - w[i]).abs() <= 1e-13 * w[i].abs());
                same(c3(&p.powi(n))) && same(c3(&p.powi_ref(n))) && (n < 1 || same(c3(&p.powf(n as f64))) && same(c3(&p.powf_ref(n as f64))))
            })
            && p.norm() == (a[0] * a[0] + a[1] * a[1] + a[2] * a[2]).sqrt() && p.magnitude() == p.norm()
            && (p[0], p[1], p[2]) == (p.x(), p.y(), p.z());
        r.step();
        r.check(ok, "cartesian", || format!("{a:?} {b:?}"));
    }
    r.states_distinct(5u64.pow(6));
    r.section("typed coordinate arithmetic");
    // frames on an angle grid
    let n = if r.thorough { 36 } else { 18 };
    for i in -n..=n {
        for j in -n..=n {
            let (a, b) = (i as f64 * pi / n as f64, j as f64 * pi / n as f64);
            r.step();
            r.states_distinct(1);
            // local north, east, down at latitude a, longitude b
            let up = [a.cos() * b.cos(), a.cos() * b.sin(), a.sin()];
            let east = [-b.sin(), b.cos(), 0.0];
            let north = [up[1] * east[2] - up[2] * east[1], up[2] * east[0] - up[0] * east[2], up[0] * east[1] - up[1] * east[0]];
            let m = m3(&tr::itrf_to_ned(a, b));
            r.check(dm(&m, &[north, east, up.map(|x| -x)]) <= 1e-14 && proper(&m) <= 1e-14, "itrf_to_ned", || format!("latitude {a} longitude {b}: {m:?}"));
            // velocity directions are the first axes
            let w = tr::aircraft_wind_to_body(a, b).data;
            r.check(dv(&w[0], &[a.cos() * b.cos(), b.sin(), a.sin() * b.cos()]) <= 1e-14 && proper(&w) <= 2e-14 && dv(&w[2], &[-a.sin(), 0.0, a.cos()]) <= 1e-14, "aircraft_wind_to_body", || format!("alpha {a} beta {b}: {w:?}"));
            let w = tr::aeroballistic_wind_to_body(a, b).data;
            r.check(dv(&w[0], &[a.cos(), a.sin() * b.sin(), a.sin() * b.cos()]) <= 1e-14 && proper(&w) <= 2e-14 && dv(&[w[0][0], w[1][0], w[2][0]], &[a.cos(), 0.0, -a.sin()]) <= 1e-14, "aeroballistic_wind_to_body", || format!("alpha {a} roll {b}: {w:?}"));
            let w = tr::flight_path_to_geographic(a, b).data;
            r.check(dv(&w[0], &[b.cos() * a.cos(), b.cos() * a.sin(), -b.sin()]) <= 1e-14 && proper(&w) <= 2e-14 && dv(&w[1], &[-a.sin(), a.cos(), 0.0]) <= 1e-14, "flight_path_to_geographic", || format!("heading {a} path {b}: {w:?}"));
            // cross-product matrix
            let (x, y, z) = (a, b, a * 0.5 - b);
            let w = tr::angular_rate_dcm(x, y, z).data;
            let v = [1.0, -2.0, 0.5];
            r.check(dv(&mv(&w, &v), &[y * v[2] - z * v[1], z * v[0] - x * v[2], x * v[1] - y * v[0]]) <= 1e-14, "angular_rate_dcm", || format!("{x} {y} {z}: {w:?}"));
            for k in -n..=n {
                let c = k as f64 * pi / n as f64;
                let m = m3(&tr::body_to_ned(a, b, c));
                r.step();
                r.check(dm(&m, &zyx(&[a, b, c])) <= 2e-14 && proper(&m) <= 2e-14, "body_to_ned", || format!("roll {a} pitch {b} yaw {c}: {m:?}"));
                let nose = c3(&(tr::body_to_ned(a, b, c) * Cartesian::<f64, Body<f64>>::new(1.0, 0.0, 0.0)));
                let want = [b.cos() * c.cos(), b.cos() * c.sin(), -b.sin()];
                r.check(dv(&nose, &want) <= 1e-14, "body_to_ned-direction", || format!("roll {a} pitch {b} yaw {c}: the nose points to {nose:?} in NED, expected {want:?}"));
            }
            r.states_distinct(2 * n as u64 + 1);
            // Earth rotation
            let rate = Cartesian::<f64, ITRF<f64>>::new(0.0, 0.0, 7.292115e-5 * (1.0 + b));
            let t = i as f64 * 36010.0;
            let to = tr::icrf_to_itrf(t, rate);
            let fro = tr::itrf_to_icrf(t, rate);
            r.check(dm(&m3(&to), &passive(&axis(2), t * rate.z())) <= 1e-12 && dm(&mm(&m3(&to), &m3(&fro)), &ID) <= 1e-14, "icrf_itrf", || format!("time {t} rate {:?}: {to:?} {fro:?}", rate.z()));
            let f = ITRF { epoch: 100.0 * b };
            let o = m3(&f.orientation_at(t).to_dcm());
            let om = c3(&f.angular_velocity());
            r.check(dm(&o, &passive(&axis(2), 7.292115e-5 * (t - f.epoch()))) <= 1e-12 && om == [0.0, 0.0, 7.292115e-5], "ITRF", || format!("orientation at {t}, epoch {}: {o:?}", f.epoch));
        }
        r.trace();
    }
    let _: Option<NED<f64>> = None;
    let _ = guard(|| ());
    r.section("frame transforms on an angle grid");
    r.bounds.push(format!("12^3 magnitude combinations x 5 conversion paths; 49x97 spherical grid x 3 radii; 5^6 typed arithmetic pairs; angle grid of pi/{n} for every transform"));
}
