//! G02: normal gravity, apparent forces and the gravity-gradient torque.
use crate::{cross, directions, dist, norm};
use aether_core::coordinate::Cartesian;
use aether_core::math::Matrix;
use aether_models::terrestrial::earth::Earth;
use aether_models::terrestrial::wgs84::gravity::*;
use mckit::*;

const A: f64 = 6378137.0;
const E2: f64 = 6.694379990141e-3;
const GM: f64 = 3.986004418e14;
const W: f64 = 7.292115e-5;
const J2: f64 = 1.082629821313e-3;

/// Gradient of the normal gravity potential in its zonal expansion.
fn normal_gravity(x: [f64; 3]) -> [f64; 3] {
    let r = norm(x);
    let s = x[2] / r;
    // J_2n of an equipotential ellipsoid
    let mut c = [0.0; 9];
    for n in 1..9 {
        let nf = n as f64;
        c[n] = (-1f64).powi(n as i32 + 1) * 3.0 * E2.powi(n as i32) / ((2.0 * nf + 1.0) * (2.0 * nf + 3.0)) * (1.0 - nf + 5.0 * nf * J2 / E2);
    }
    // Legendre polynomials and derivatives to degree 16
    let (mut p, mut d) = ([0.0; 18], [0.0; 18]);
    p[0] = 1.0;
    p[1] = s;
    d[1] = 1.0;
    for n in 2..18 {
        let nf = n as f64;
        p[n] = ((2.0 * nf - 1.0) * s * p[n - 1] - (nf - 1.0) * p[n - 2]) / nf;
        d[n] = d[n - 2] + (2.0 * nf - 1.0) * p[n - 1];
    }
    // U = GM/r (1 - sum J (a/r)^2n P_2n(s)); dU/dr and dU/ds
    let (mut ur, mut us) = (-GM / (r * r), 0.0);
    for n in 1..9 {
        let k = 2 * n;
        let f = c[n] * (A / r).powi(k as i32);
        ur += GM / (r * r) * (k as f64 + 1.0) * f * p[k];
        us -= GM / r * f * d[k];
    }
    let mut g = [0.0; 3];
    for i in 0..3 {
        let ds = (if i == 2 { 1.0 } else { 0.0 }) / r - x[2] * x[i] / (r * r * r);
        g[i] = ur * x[i] / r + us * ds + if i < 2 { W * W * x[i] } else { 0.0 };
    }
    g
}
fn surface(lat: f64, lon: f64, h: f64) -> [f64; 3] {
    let n = A / (1.0 - E2 * lat.sin().powi(2)).sqrt();
    [(n + h) * lat.cos() * lon.cos(), (n + h) * lat.cos() * lon.sin(), (n * (1.0 - E2) + h) * lat.sin()]
}

pub fn g02(r: &mut Run) {
    let deep = r.thorough;
    let n = if deep { 360 } else { 90 };
    let mut lats: Vec<f64> = (0..=n).map(|i| -90.0 + 180.0 * i as f64 / n as f64).collect();
    lats.extend([1e-9, -1e-9, 89.9999999, -89.99999]);
    let lons: Vec<f64> = (0..if deep { 48 } else { 16 }).map(|i| -180.0 + i as f64 * if deep { 7.5 } else { 22.5 }).chain([1e-9]).collect();
    let earth = Earth::new();
    let parts = par(lats.len() as u64, |p, i| {
        let la = lats[i as usize];
        let lat = la.to_radians();
        // closed formula on the ellipsoid
        let s2 = lat.sin().powi(2);
        let som = 9.7803253359 * (1.0 + 1.931852652458e-3 * s2) / (1.0 - E2 * s2).sqrt();
        let g = gravity_normal(lat);
        p.step();
        p.check((g - som).abs() <= 1e-8 * som, "normal-gravity", || format!("gravity on the ellipsoid at latitude {la}: {g}, expected {som}"));
        for &lo in &lons {
            for h in [0.0, 10.0, 3e3, 1e5, 4e5, 5e6, 3.6e7, 3.8e8] {
                let mut x = surface(lat, lo.to_radians(), h);
                // at the poles the point is exactly on the axis (with either zero) for
                // some of the meridians, and within rounding of it for the others
                if la.abs() == 90.0 && [-180.0, -90.0, 0.0, 90.0].contains(&lo) {
                    x = [if lo < 0.0 { -0.0 } else { 0.0 }, if lo.abs() > 1.0 { 0.0 } else { -0.0 }, x[2]];
                }
                let want = normal_gravity(x);
                let v = gravity_rectangular(x[0], x[1], x[2]);
                let g = [v.x(), v.y(), v.z()];
                p.states += 1;
                p.traces += 1;
                p.step();
                p.check(dist(g, want) <= 2e-8 * norm(want), "gravity", || format!("latitude {la} longitude {lo} altitude {h}: gravity {g:?}, expected {want:?}"));
                let e = gravity_ellipsoidal(x[0], x[1], x[2]);
                let en = norm([e[0], e[1], e[2]]);
                p.step();
                p.check((en - norm(want)).abs() <= 2e-8 * norm(want) && e[2] == 0.0 && (h > 3e7 || e[0] < 0.0), "gravity-components", || format!("latitude {la} longitude {lo} altitude {h}: components {} {} {}, magnitude expected {}", e[0], e[1], e[2], norm(want)));
                if h == 0.0 {
                    p.check((en - som).abs() <= 2e-8 * som, "gravity-components", || format!("latitude {la} longitude {lo} on the ellipsoid: {en}, the closed formula gives {som}"));
                }
                let f = earth.solve_gravitational_force(Cartesian::new(x[0], x[1], x[2]), 12.5);
                p.step();
                p.check(dist([f.x(), f.y(), f.z()], want.map(|w| w * 12.5)) <= 12.5 * 2e-8 * norm(want), "gravity-force", || format!("latitude {la} longitude {lo} altitude {h}: force {f:?}"));
            }
        }
    });
    for q in parts {
        r.absorb(q);
    }
    r.section("normal gravity");
    let mut p = Part::default();
    let w = earth.rotational_velocity;
    let w = [w.x(), w.y(), w.z()];
    p.check(w[0] == 0.0 && w[1] == 0.0 && (w[2] - 7.2921151467e-5).abs() < 1e-12, "rotation-rate", || format!("{w:?}"));
    let p_mu = (earth.gravitational_constant - GM).abs() <= 1e-9 * GM;
    p.check(p_mu && (earth.mass / 5.9722e24 - 1.0).abs() < 1e-3 && (earth.radius / A - 1.0).abs() < 1e-6, "earth-constants", || format!("GM {} mass {} radius {}", earth.gravitational_constant, earth.mass, earth.radius));
    // the forces are those of the Earth asked, also one that turns about another axis
    let mut spins = vec![(earth.clone(), w), (Earth::default(), w)];
    for v in [[1e-3, -2e-3, 5e-4], [0.0, 0.0, -3e-4], [7e-5, 0.0, 0.0], [0.0; 3]] {
        spins.push((Earth { rotational_velocity: Cartesian::new(v[0], v[1], v[2]), ..Earth::new() }, v));
    }
    for d in directions() {
        for sc in [1.0, 7.0e6] {
            let x = d.map(|v| v * sc);
            for (e, w) in &spins {
                for m in [1.0, 250.0] {
                    p.states += 1;
                    p.step();
                    let c = cross(*w, x).map(|v| -2.0 * m * v);
                    let f = cross(*w, cross(*w, x)).map(|v| -m * v);
                    let (g, k) = (e.solve_coriolis_force(Cartesian::new(x[0], x[1], x[2]), m), e.solve_centrifugal_force(Cartesian::new(x[0], x[1], x[2]), m));
                    let s = norm(*w) * norm(x) * m;
                    p.check(dist([g.x(), g.y(), g.z()], c) <= 1e-13 * s && dist([k.x(), k.y(), k.z()], f) <= 1e-13 * s * norm(*w), "spin", || format!("an Earth turning by {w:?}: vector {x:?} mass {m}: Coriolis {g:?}, expected {c:?}; centrifugal {k:?}, expected {f:?}"));
                }
            }
        }
    }
    for d in directions() {
        for sc in [1.0, 7.0e6, 4.2e7, 1e3] {
            let x = d.map(|v| v * sc);
            for m in [1.0, 0.25, 4e5, 0.0] {
                p.states += 1;
                p.traces += 1;
                let want = cross(w, x).map(|v| -2.0 * m * v);
                let g = earth.solve_coriolis_force(Cartesian::new(x[0], x[1], x[2]), m);
                p.step();
                p.check(dist([g.x(), g.y(), g.z()], want) <= 1e-13 * norm(want) + 1e-300, "coriolis", || format!("velocity {x:?} mass {m}: {g:?}, expected {want:?}"));
                let want = cross(w, cross(w, x)).map(|v| -m * v);
                let g = earth.solve_centrifugal_force(Cartesian::new(x[0], x[1], x[2]), m);
                p.step();
                p.check(dist([g.x(), g.y(), g.z()], want) <= 1e-13 * norm(want) + 1e-300, "centrifugal", || format!("position {x:?} mass {m}: {g:?}, expected {want:?}"));
            }
            if sc < 1e6 {
                continue;
            }
            for inertia in [[[10.0, 0.0, 0.0], [0.0, 20.0, 0.0], [0.0, 0.0, 35.0]], [[10.0, 1.5, -2.0], [1.5, 20.0, 0.75], [-2.0, 0.75, 35.0]], [[5.0, 0.0, 0.0], [0.0, 5.0, 0.0], [0.0, 0.0, 5.0]], [[10.0, 4.0, -2.0], [1.0, 20.0, 3.0], [-5.0, 0.75, 35.0]]] {
                let ix = [0, 1, 2].map(|i| inertia[i][0] * x[0] + inertia[i][1] * x[1] + inertia[i][2] * x[2]);
                let k = 3.0 * GM / norm(x).powi(5);
                let want = cross(x, ix).map(|v| v * k);
                let g = earth.solve_gravitational_torque(Cartesian::new(x[0], x[1], x[2]), Matrix::new(inertia));
                p.states += 1;
                p.step();
                p.check(dist([g.x(), g.y(), g.z()], want) <= 1e-12 * k * norm(x) * norm(ix), "gravity-gradient", || format!("position {x:?} inertia {inertia:?}: {g:?}, expected {want:?}"));
            }
        }
    }
    r.absorb(p);
    r.section("forces and torque");
    r.sample(|| format!("{} latitudes x {} longitudes x 8 altitudes", lats.len(), lons.len()));
    r.bounds.push(format!("{} latitudes, {} longitudes, altitudes 0 to 380000 km; 342 directions x 4 magnitudes for forces", lats.len(), lons.len()));
    r.assumptions.push("normal gravity includes the centrifugal part, as in the WGS 84 definition".into());
}
