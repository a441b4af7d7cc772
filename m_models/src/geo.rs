//! G01: geodetic and Earth-fixed coordinates, Earth rotation.
use crate::{dist, norm};
use aether_core::coordinate::Cartesian;
use aether_core::real::Real;
use aether_models::terrestrial::earth::Earth;
use aether_models::terrestrial::wgs84::transforms::*;
use mckit::*;

const A: f64 = 6378137.0;
const E2: f64 = 6.694379990141e-3;
const B: f64 = 6356752.3142;

/// The point `h` above the ellipsoid (a, e2) along its normal.
fn point(e2: f64, lat: f64, lon: f64, h: f64) -> [f64; 3] {
    let n = [lat.cos() * lon.cos(), lat.cos() * lon.sin(), lat.sin()];
    // the surface point with normal n: (a^2 nx, a^2 ny, b^2 nz) / sqrt(a^2 (nx^2+ny^2) + b^2 nz^2)
    let (a2, b2) = (A * A, A * A * (1.0 - e2));
    let d = (a2 * (n[0] * n[0] + n[1] * n[1]) + b2 * n[2] * n[2]).sqrt();
    [a2 * n[0] / d + h * n[0], a2 * n[1] / d + h * n[1], b2 * n[2] / d + h * n[2]]
}

fn angles(deep: bool) -> (Vec<f64>, Vec<f64>, Vec<f64>) {
    let mut lat: Vec<f64> = vec![0.0, -0.0, 1e-12, -1e-9, 1e-6, 90.0, -90.0, 89.999999, -89.9999, 89.99, 45.0, -45.0];
    let n = if deep { 2880 } else { 720 };
    lat.extend((0..=n).map(|i| -90.0 + 180.0 * i as f64 / n as f64));
    let mut lon: Vec<f64> = vec![0.0, 180.0, -179.9999999, 90.0, -90.0, 1e-9, -1e-9, 135.0];
    let n = if deep { 192 } else { 48 };
    lon.extend((1..n).map(|i| -180.0 + 360.0 * i as f64 / n as f64));
    let h = vec![0.0, 1.0, -1.0, 0.01, -430.0, 300.0, 8848.86, -10994.0, -1e5, 2.5e4, 1e5, 4.08e5, 2.02e7, 3.5786e7, 3.844e8, 1e9, 1.5e11];
    (lat, lon, h)
}

fn lon_gap(a: f64, b: f64) -> f64 {
    let d = (a - b).rem_euclid(std::f64::consts::TAU);
    d.min(std::f64::consts::TAU - d)
}

fn judge<T: Real>(p: &mut Part, name: &str, eps: f64, g: [f64; 3], want: [f64; 3], h: f64, lat: f64, lon: f64, t: f64) {
    let _ = eps;
    let r = norm(want);
    let pole = (90.0f64.to_radians() - lat.abs()) * r;
    let ok = g.iter().all(|x| x.is_finite())
        && g[0].abs() <= std::f64::consts::FRAC_PI_2 + 1e-6
        && g[1].abs() <= std::f64::consts::PI + 1e-6
        && (g[0] - lat).abs() * r <= t
        && (pole.abs() < 10.0 * t || lon_gap(g[1], lon) * r * lat.cos() <= t + 2e-16 * r)
        && (g[2] - h).abs() <= t;
    p.step();
    p.check(ok, name, || format!("{name} at latitude {} longitude {} altitude {h}: got {} {} {}", lat.to_degrees(), lon.to_degrees(), g[0].to_degrees(), g[1].to_degrees(), g[2]));
}

pub fn g01(r: &mut Run) {
    let (lats, lons, hs) = angles(r.thorough);
    let earth = Earth::new();
    let parts = par(lats.len() as u64, |p, i| {
        let lat = lats[i as usize].to_radians();
        for &lon in &lons {
            let lon = lon.to_radians();
            for &h in &hs {
                p.states += 1;
                p.traces += 1;
                let want = point(E2, lat, lon, h);
                let sc = norm(want);
                let g = geocentric_to_ecef(lat, lon, h);
                let e = earth.geocentric_to_ecef(lat, lon, h);
                let g = [g.x(), g.y(), g.z()];
                p.step();
                p.check(dist(g, want) <= 4e-15 * sc + 1e-9 && dist(g, [e.x(), e.y(), e.z()]) == 0.0, "to-ecef", || format!("latitude {} longitude {} altitude {h}: {g:?}, expected {want:?}", lat.to_degrees(), lon.to_degrees()));
                // f32 as well
                let f = geocentric_to_ecef(lat as f32, lon as f32, h as f32);
                let w = point(E2, lat as f32 as f64, lon as f32 as f64, h as f32 as f64);
                p.step();
                p.check(dist([f.x() as f64, f.y() as f64, f.z() as f64], w) <= 1e-6 * sc, "to-ecef", || format!("f32 latitude {} longitude {} altitude {h}: {f:?}", lat.to_degrees(), lon.to_degrees()));
                // inverses
                let t = 2e-6 + 2e-15 * sc;
                for k in 0..2 {
                    let v = if k == 0 { ecef_to_geocentric(want[0], want[1], want[2]) } else { earth.ecef_to_geocentric(want[0], want[1], want[2]) };
                    judge::<f64>(p, "ecef_to_geocentric", 0.0, [v[0], v[1], v[2]], want, h, lat, lon, t);
                }
                let q = want.map(|x| x as f32);
                let v = ecef_to_geocentric(q[0], q[1], q[2]);
                judge::<f32>(p, "ecef_to_geocentric", 0.0, [v[0] as f64, v[1] as f64, v[2] as f64], want, h, lat, lon, 2e-6 * sc);
                // the closed form is that of the ellipsoid (a, b), whose b is rounded
                let want = point(1.0 - B * B / (A * A), lat, lon, h);
                for k in 0..2 {
                    let v = if k == 0 { ecef_to_geocentric_ferrari(want[0], want[1], want[2]) } else { earth.ecef_to_geocentric_ferrari(want[0], want[1], want[2]) };
                    judge::<f64>(p, "ferrari", 0.0, [v[0], v[1], v[2]], want, h, lat, lon, 5e-6 + 2e-14 * sc);
                }
                // and both agree with one another to the rounding of b
                p.outcomes.insert(h64(&g));
            }
        }
    });
    for q in parts {
        r.absorb(q);
    }
    r.section("geodetic grid");
    // points exactly on the coordinate axes and planes, with both signs of zero
    let mut p = Part::default();
    for q in [1.0, -1.0] {
        for zz in [0.0, -0.0, 3.0e6, -3.0e6] {
            for o in [0.0f64, -0.0] {
                for (x, y) in [(q * A, o), (o, q * A), (q * 7.0e6, o), (o, q * 7.0e6), (q * 4.2e7, o), (o, q * 4.2e7)] {
                    let want = f64::atan2(y, x);
                    for k in 0..4 {
                        let v = match k {
                            0 => ecef_to_geocentric(x, y, zz),
                            1 => earth.ecef_to_geocentric(x, y, zz),
                            2 => ecef_to_geocentric_ferrari(x, y, zz),
                            _ => earth.ecef_to_geocentric_ferrari(x, y, zz),
                        };
                        let back = point(if k < 2 { E2 } else { 1.0 - B * B / (A * A) }, v[0], v[1], v[2]);
                        p.states += 1;
                        p.step();
                        p.check(lon_gap(v[1], want) <= 1e-12 && dist(back, [x, y, zz]) <= 1e-5, "axis-points", || format!("({x}, {y}, {zz}): latitude {} longitude {} altitude {}", v[0].to_degrees(), v[1].to_degrees(), v[2]));
                    }
                }
            }
        }
    }
    r.absorb(p);
    r.section("points on the axes");
    // Earth rotation: turns by the rate about the axis, passively
    let mut p = Part::default();
    let w = earth.rotational_velocity.z();
    let mut times: Vec<f64> = (-400..=400).map(|i| i as f64 * 431.25).collect();
    times.extend([1e-3, -1e-3, 1e6, -1e6, 3.15576e7, 8.0e8, -8.0e8, 1.6e9, 4.0e9, -4.0e9, 1e-7]);
    let vs = [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0], [A, -2.0e6, 3.5e6]];
    for &t in &times {
        for f in 0..4 {
            // through Earth, with another rate in f64 and f32, and through an Earth of another rate
            for v in vs {
                let (rate, eps) = [(w, 1e-9), (-3.0e-4, 1e-9), (7.0e-5, 3e-5), (2.5e-4, 1e-9)][f];
                if f == 2 && t.abs() > 2e5 {
                    continue;
                }
                let th = rate * t;
                let want = [th.cos() * v[0] + th.sin() * v[1], -th.sin() * v[0] + th.cos() * v[1], v[2]];
                let (g, back) = match f {
                    0 => {
                        let c = earth.icrf_to_itrf(t) * Cartesian::new(v[0], v[1], v[2]);
                        let d = earth.itrf_to_icrf(t) * c;
                        ([c.x(), c.y(), c.z()], [d.x(), d.y(), d.z()])
                    }
                    1 => {
                        let rv = Cartesian::new(0.0, 0.0, rate);
                        let c = icrf_to_itrf(t, rv) * Cartesian::new(v[0], v[1], v[2]);
                        let d = itrf_to_icrf(t, rv) * c;
                        ([c.x(), c.y(), c.z()], [d.x(), d.y(), d.z()])
                    }
                    3 => {
                        let e = Earth { rotational_velocity: Cartesian::new(0.0, 0.0, rate), ..Earth::new() };
                        let c = e.icrf_to_itrf(t) * Cartesian::new(v[0], v[1], v[2]);
                        let d = e.itrf_to_icrf(t) * c;
                        ([c.x(), c.y(), c.z()], [d.x(), d.y(), d.z()])
                    }
                    _ => {
                        let rv = Cartesian::new(0.0, 0.0, rate as f32);
                        let c = icrf_to_itrf(t as f32, rv) * Cartesian::new(v[0] as f32, v[1] as f32, v[2] as f32);
                        let d = itrf_to_icrf(t as f32, rv) * c;
                        ([c.x(), c.y(), c.z()].map(|x| x as f64), [d.x(), d.y(), d.z()].map(|x| x as f64))
                    }
                };
                p.states += 1;
                p.traces += 1;
                p.step();
                let sc = norm(v);
                p.check(dist(g, want) <= eps * sc && dist(back, v) <= eps * sc, "earth-rotation", || format!("t={t} rate={rate} v={v:?}: {g:?} and back {back:?}, expected {want:?}"));
            }
        }
    }
    r.absorb(p);
    r.section("earth rotation");
    r.sample(|| format!("{} latitudes x {} longitudes x {} altitudes", lats.len(), lons.len(), hs.len()));
    r.bounds.push(format!("{} latitudes (poles, equator and neighbours included), {} longitudes, altitudes -100 km to 1 au", lats.len(), lons.len()));
    r.assumptions.push("points within 43 km of the Earth's centre are outside the domain of the inverses; the closed-form inverse is judged on the ellipsoid with the rounded semi-minor axis of the constants".into());
}
fn h64(v: &[f64; 3]) -> u64 {
    h(&v.iter().flat_map(|x| x.to_bits().to_le_bytes()).collect::<Vec<_>>())
}
