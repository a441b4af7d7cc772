//! G04: the Moon's frames, gravity and mean orbit.
use crate::{cross, directions, dist, norm};
use aether_core::attitude::DirectionCosineMatrix;
use aether_core::coordinate::Cartesian;
use aether_core::math::Matrix;
use aether_core::reference_frame::ICRF;
use aether_models::lunar::moon::Moon;
use aether_models::lunar::orbit::MoonOrbitAroundEarth;
use aether_models::lunar::transforms as tr;
use aether_models::lunar::{LIRF, LTRF};
use mckit::*;

type M3 = [[f64; 3]; 3];
fn mul(a: &M3, b: &M3) -> M3 {
    let mut o = [[0.0; 3]; 3];
    for i in 0..3 {
        for j in 0..3 {
            o[i][j] = (0..3).map(|k| a[i][k] * b[k][j]).sum();
        }
    }
    o
}
fn tp(a: &M3) -> M3 {
    let mut o = [[0.0; 3]; 3];
    for i in 0..3 {
        for j in 0..3 {
            o[i][j] = a[j][i];
        }
    }
    o
}
fn gap(a: &M3, b: &M3) -> f64 {
    let mut m: f64 = 0.0;
    for i in 0..3 {
        for j in 0..3 {
            let d = (a[i][j] - b[i][j]).abs();
            m = if d.is_nan() { f64::INFINITY } else { m.max(d) };
        }
    }
    m
}
fn rot(axis: usize, th: f64) -> M3 {
    let (s, c) = th.sin_cos();
    let (j, k) = ((axis + 1) % 3, (axis + 2) % 3);
    let mut m = [[0.0; 3]; 3];
    m[axis][axis] = 1.0;
    m[j][j] = c;
    m[k][k] = c;
    m[j][k] = s;
    m[k][j] = -s;
    m
}

pub fn g04(r: &mut Run) {
    let deep = r.thorough;
    let mut p = Part::default();
    let rate = std::f64::consts::TAU / (27.321661 * 86400.0);
    let mut times: Vec<f64> = (-60..=60).map(|i| i as f64 * 98000.0).collect();
    times.extend([1e-3, -1.0, 1e7, -1e7, 27.321661 * 86400.0, 9.0e8, -9.0e8, 1.4e9, 4.0e9, -2.5e9]);
    if deep {
        times.extend((-4000..4000).map(|i| i as f64 * 1234.5));
    }
    let st = if deep { 30 } else { 60 };
    let mut orients = vec![];
    for a in (0..360).step_by(st) {
        for b in (-90..=90).step_by(st / 2) {
            for c in (0..360).step_by(st) {
                let f = |x: i32| (x as f64).to_radians();
                orients.push(mul(&rot(2, f(c)), &mul(&rot(0, f(b)), &rot(2, f(a)))));
            }
        }
    }
    for &t in &times {
        let want = rot(2, rate * t);
        let ok = gap(&tr::lirf_to_ltrf(t).as_matrix().data, &want) <= 1e-9
            && gap(&tr::ltrf_to_lirf(t).as_matrix().data, &tp(&want)) <= 1e-9
            && gap(&tr::icrf_to_ltrf(t).as_matrix().data, &want) <= 1e-9
            && gap(&tr::ltrf_to_icrf(t).as_matrix().data, &tp(&want)) <= 1e-9;
        p.states += 1;
        p.steps_n(4);
        p.check(ok, "rotation", || format!("t={t}: not the rotation by the sidereal rate and its inverse"));
    }
    p.check(gap(&tr::icrf_to_lirf().as_matrix().data, &rot(2, 0.0)) == 0.0 && gap(&tr::lirf_to_icrf().as_matrix().data, &rot(2, 0.0)) == 0.0, "rotation", || "inertial frames are not aligned".into());
    for (n, o) in orients.iter().enumerate() {
        for epoch in [0.0, 1e4, -3.3e6, 7.7e8] {
            let dcm = DirectionCosineMatrix::<f64, ICRF<f64>, LIRF>::from_matrix(Matrix::new(*o));
            let m = Moon::with_epoch_orientation(epoch, dcm);
            for &dt in times.iter().step_by(if deep { 7 } else { 5 }).skip(n % 3) {
                let t = epoch + dt;
                let dt = t - epoch;
                let l2t = rot(2, rate * dt);
                let i2t = mul(&l2t, o);
                let tol = 1e-8;
                p.states += 1;
                p.traces += 1;
                p.steps_n(6);
                let what = || format!("orientation {o:?} epoch {epoch} time {t}");
                p.check(gap(&m.icrf_to_lirf().as_matrix().data, o) <= tol && gap(&m.lirf_to_icrf().as_matrix().data, &tp(o)) <= tol, "epoch-orientation", what);
                p.check(gap(&m.icrf_to_ltrf(t).as_matrix().data, &i2t) <= tol && gap(&m.ltrf_to_icrf(t).as_matrix().data, &tp(&i2t)) <= tol, "inertial-to-fixed", what);
                // the chain through the lunar inertial frame is the direct transform
                let chain: DirectionCosineMatrix<f64, ICRF<f64>, LTRF> = m.lirf_to_ltrf(t) * m.icrf_to_lirf();
                let back: DirectionCosineMatrix<f64, LTRF, ICRF<f64>> = m.lirf_to_icrf() * m.ltrf_to_lirf(t);
                p.check(gap(&chain.as_matrix().data, &i2t) <= tol && gap(&back.as_matrix().data, &tp(&i2t)) <= tol, "frame-chain", || format!("{}: the chain through the lunar inertial frame is not the direct transform", what()));
            }
        }
    }
    r.absorb(p);
    r.section("lunar frames");
    let mut p = Part::default();
    let mu = 4.902800118e12;
    let m = Moon::new();
    let tot = MoonOrbitAroundEarth::new();
    p.check((m.gravitational_constant / mu - 1.0).abs() < 1e-6 && (m.mass * 6.67428e-11 / mu - 1.0).abs() < 1e-6 && (m.radius / 1737400.0 - 1.0).abs() < 1e-4, "constants", || format!("{} {} {}", m.gravitational_constant, m.mass, m.radius));
    p.check((tot.mu_total_m3_s2() / (3.986004418e14 + mu) - 1.0).abs() < 1e-9, "orbit", || format!("{}", tot.mu_total_m3_s2()));
    for a in [1e6, 3.844e8, 1e11] {
        for me in [1e12, 3.986e14, 1.3e20] {
            for mm in [0.0, mu, 1e14] {
                for t in [60.0, 2.36e6, 1e9] {
                    let o = MoonOrbitAroundEarth { semi_major_axis_m: a, sidereal_period_s: t, mu_earth_m3_s2: me, mu_moon_m3_s2: mm, ..MoonOrbitAroundEarth::default() };
                    let k = o.keplerian_period_s();
                    let n = std::f64::consts::TAU / k;
                    p.states += 1;
                    p.steps_n(3);
                    // n^2 a^3 = mu
                    p.check((n * n * a * a * a / (me + mm) - 1.0).abs() < 1e-12 && (o.mean_motion_rad_s() * t / std::f64::consts::TAU - 1.0).abs() < 1e-14 && o.mu_total_m3_s2() == me + mm, "orbit", || format!("{o:?}: period {k}"));
                }
            }
        }
    }
    for d in directions() {
        for sc in [1.0, 1.8e6, 5e7, 4e8] {
            let x = d.map(|v| v * sc);
            let rr = norm(x);
            let want = x.map(|v| -mu * v / rr.powi(3));
            let c = Cartesian::<f64, LTRF>::new(x[0], x[1], x[2]);
            let g = m.gravitational_acceleration(c);
            let f = m.solve_gravitational_force(c, 250.0);
            for mass in [0.0, 1e-9, 4.5e5, 1e24] {
                let f = m.solve_gravitational_force(c, mass);
                p.step();
                p.check(dist([f.x(), f.y(), f.z()], want.map(|v| v * mass)) <= 1e-12 * mass * norm(want), "gravity", || format!("force on {mass} kg at {x:?}: {f:?}"));
            }
            p.states += 1;
            p.traces += 1;
            p.steps_n(2);
            p.check(dist([g.x(), g.y(), g.z()], want) <= 1e-12 * norm(want), "gravity", || format!("{x:?}: {g:?}, expected {want:?}"));
            // a Moon of another gravitational constant
            let m2 = Moon { gravitational_constant: 3.25e11, ..Moon::new() };
            let (g2, t2) = (m2.gravitational_acceleration(c), m2.solve_gravitational_torque(c, Matrix::new([[10.0, 1.5, -2.0], [1.5, 20.0, 0.75], [-2.0, 0.75, 35.0]])));
            let t1 = m.solve_gravitational_torque(c, Matrix::new([[10.0, 1.5, -2.0], [1.5, 20.0, 0.75], [-2.0, 0.75, 35.0]]));
            let q = 3.25e11 / mu;
            p.check(dist([g2.x(), g2.y(), g2.z()], want.map(|v| v * q)) <= 1e-12 * q * norm(want) && dist([t2.x(), t2.y(), t2.z()], [t1.x(), t1.y(), t1.z()].map(|v| v * q)) <= 1e-6 * q * norm([t1.x(), t1.y(), t1.z()]) + 1e-300, "gravity", || format!("GM 3.25e11 at {x:?}: {g2:?} torque {t2:?}"));
            p.check(dist([f.x(), f.y(), f.z()], want.map(|v| v * 250.0)) <= 250e-12 * norm(want), "gravity", || format!("force at {x:?}: {f:?}"));
            for inertia in [[[10.0, 0.0, 0.0], [0.0, 20.0, 0.0], [0.0, 0.0, 35.0]], [[10.0, 1.5, -2.0], [1.5, 20.0, 0.75], [-2.0, 0.75, 35.0]], [[10.0, 4.0, -2.0], [1.0, 20.0, 3.0], [-5.0, 0.75, 35.0]], [[1e-6, 2e-7, 0.0], [2e-7, 3e-6, 0.0], [0.0, 0.0, 4e-6]], [[4e8, 1e7, 0.0], [1e7, 6e8, -3e7], [0.0, -3e7, 5e8]]] {
                let ix = [0, 1, 2].map(|i| inertia[i][0] * x[0] + inertia[i][1] * x[1] + inertia[i][2] * x[2]);
                let k = 3.0 * mu / rr.powi(5);
                let want = cross(x, ix).map(|v| v * k);
                let g = m.solve_gravitational_torque(c, Matrix::new(inertia));
                p.step();
                p.check(dist([g.x(), g.y(), g.z()], want) <= 1e-12 * k * rr * norm(ix), "torque", || format!("{x:?} inertia {inertia:?}: {g:?}, expected {want:?}"));
            }
        }
    }
    let z = Cartesian::<f64, LTRF>::new(0.0, 0.0, 0.0);
    p.check(m.gravitational_acceleration(z).norm() == 0.0 && m.solve_gravitational_torque(z, Matrix::new([[1.0; 3]; 3])).norm() == 0.0, "gravity", || "at the centre".into());
    r.absorb(p);
    r.section("lunar gravity and orbit");
    r.sample(|| format!("{} epoch orientations x 4 epochs x {} times", orients.len(), times.len()));
    r.bounds.push(format!("{} epoch orientations, 4 epochs, {} times; 342 directions x 4 distances", orients.len(), times.len()));
}
