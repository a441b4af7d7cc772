//! W01: the magnetic model against a pole-free evaluation of the coefficient file.
use aether_catalogs::wmm::*;
use mckit::*;
use std::f64::consts::PI;

const N: usize = 12;
const COF: &str = "/repo/crates/aether_catalogs/catalog/wmm/WMM2025COF/WMM.COF";
struct Cof {
    epoch: f64,
    head: Vec<String>,
    rec: Vec<(usize, usize, [f64; 4])>,
}
fn cof() -> Cof {
    let s = std::fs::read_to_string(COF).unwrap();
    let mut l = s.lines();
    let head: Vec<String> = l.next().unwrap().split_whitespace().map(|x| x.to_string()).collect();
    let epoch = head[0].parse().unwrap();
    let mut rec = vec![];
    for l in l {
        let w: Vec<&str> = l.split_whitespace().collect();
        if w.len() != 6 {
            break;
        }
        let f = |i: usize| w[i].parse::<f64>().unwrap();
        rec.push((w[0].parse().unwrap(), w[1].parse().unwrap(), [f(2), f(3), f(4), f(5)]));
    }
    Cof { epoch, head, rec }
}
/// Schmidt functions of colatitude: value, derivative, and value over sine (order >= 1).
fn schmidt(c: f64, s: f64) -> ([[f64; N + 1]; N + 1], [[f64; N + 1]; N + 1], [[f64; N + 1]; N + 1]) {
    let z = [[0.0; N + 1]; N + 1];
    let (mut p, mut d, mut q) = (z, z, z);
    p[0][0] = 1.0;
    for n in 1..=N {
        let nf = n as f64;
        for m in 0..=n {
            if m == n {
                let k = if n == 1 { 1.0 } else { ((2.0 * nf - 1.0) / (2.0 * nf)).sqrt() };
                p[n][n] = k * s * p[n - 1][n - 1];
                d[n][n] = k * (c * p[n - 1][n - 1] + s * d[n - 1][n - 1]);
                q[n][n] = k * p[n - 1][n - 1];
            } else {
                let mf = m as f64;
                let w = (nf * nf - mf * mf).sqrt();
                let (p2, d2, q2, k) = if n >= 2 && m <= n - 2 { (p[n - 2][m], d[n - 2][m], q[n - 2][m], ((nf - 1.0).powi(2) - mf * mf).sqrt()) } else { (0.0, 0.0, 0.0, 0.0) };
                let b = 2.0 * nf - 1.0;
                p[n][m] = (b * c * p[n - 1][m] - k * p2) / w;
                d[n][m] = (b * (c * d[n - 1][m] - s * p[n - 1][m]) - k * d2) / w;
                q[n][m] = (b * c * q[n - 1][m] - k * q2) / w;
            }
        }
    }
    (p, d, q)
}
/// North, east, down in the geodetic frame of field and secular variation.
fn field(k: &Cof, year: f64, lat: f64, lon: f64, h: f64, colat: Option<f64>) -> ([f64; 3], [f64; 3], f64) {
    let (a, f) = (6378137.0, 1.0 / 298.257223563);
    let e2 = f * (2.0 - f);
    let (sl, cl) = match colat {
        Some(t) => (t.cos(), t.sin()),
        None => lat.sin_cos(),
    };
    let rn = a / (1.0 - e2 * sl * sl).sqrt();
    let (rho, z) = ((rn + h) * cl, (rn * (1.0 - e2) + h) * sl);
    let r = rho.hypot(z);
    let (c, s) = (z / r, rho / r);
    let (p, d, q) = schmidt(c, s);
    let dt = year - k.epoch;
    let mut o = [[0.0; 3]; 2];
    for (n, m, v) in &k.rec {
        let (sm, cm) = (*m as f64 * lon).sin_cos();
        let ar = (6371200.0 / r).powi(*n as i32 + 2);
        for (i, (g, hh)) in [(v[0] + dt * v[2], v[1] + dt * v[3]), (v[2], v[3])].into_iter().enumerate() {
            let w = g * cm + hh * sm;
            // radial outward, southward, eastward parts of minus the gradient
            let br = (*n as f64 + 1.0) * ar * w * p[*n][*m];
            let bt = -ar * w * d[*n][*m];
            let bl = ar * (*m as f64) * (g * sm - hh * cm) * q[*n][*m];
            o[i][0] -= bt;
            o[i][1] += bl;
            o[i][2] -= br;
        }
    }
    // rotate geocentric north/down into geodetic: difference of latitudes
    let (sd, cd) = (c * cl - s * sl, s * cl + c * sl);
    for v in &mut o {
        let (x, zz) = (v[0], v[2]);
        v[0] = x * cd - zz * sd;
        v[2] = x * sd + zz * cd;
    }
    (o[0], o[1], r)
}
fn close(a: f64, b: f64, t: f64) -> bool {
    (a - b).abs() <= t
}
fn ang(a: f64, b: f64) -> f64 {
    let d = (a - b).rem_euclid(2.0 * PI);
    d.min(2.0 * PI - d)
}

pub fn w01(r: &mut Run) {
    r.bounds.push("latitude x longitude x height x year grid, points to 1e-8 rad from both poles, all 169 degree/order pairs, all 90 records".into());
    r.assumptions.push("the coefficient file WMM.COF in the repository is the published one".into());
    let k = cof();
    let m = WorldMagneticModel::embedded();
    // coefficients
    r.check(k.rec.len() == 90 && m.records().len() == 90 && m.max_degree == 12, "record-count", || format!("{} records", k.rec.len()));
    r.check(m.header.epoch == k.epoch && m == WorldMagneticModel::default(), "header", || format!("epoch {} expected {}", m.header.epoch, k.epoch));
    for (i, (n, o, v)) in k.rec.iter().enumerate() {
        let q = &m.records()[i];
        r.step();
        r.check(q.degree == *n && q.order == *o && [q.g_nm_nt, q.h_nm_nt, q.g_dot_nm_nt_per_year, q.h_dot_nm_nt_per_year] == *v, "record", || format!("record {i}: {q:?}, file {n} {o} {v:?}"));
    }
    r.check(m.header.model_name == k.head[1] && m.header.release_date == k.head[2], "header", || format!("{:?}, the file starts {:?}", m.header, k.head));
    let path = default_coefficients_path();
    r.check(has_extracted_catalog() && path.as_ref().is_some_and(|q| std::fs::read(q).ok() == std::fs::read(COF).ok()), "path", || format!("coefficient file {path:?}"));
    let years: Vec<f64> = (0..=40).map(|i| 2020.0 + 0.25 * i as f64).chain([1900.0, 2025.0 + 1e-6, 2100.0]).collect();
    for &y in &years {
        let c = m.coefficients_at(y);
        r.check(c.decimal_year == y && c.max_degree == 12, "coefficients-at", || format!("year {y}: {} {}", c.decimal_year, c.max_degree));
        for n in 0..15usize {
            for o in 0..15usize {
                r.step();
                let w = k.rec.iter().find(|q| q.0 == n && q.1 == o).map(|q| q.2).unwrap_or([0.0; 4]);
                let dt = y - k.epoch;
                let ok = close(c.g(n, o), w[0] + dt * w[2], 1e-9) && close(c.h(n, o), w[1] + dt * w[3], 1e-9) && c.g_dot(n, o) == w[2] && c.h_dot(n, o) == w[3];
                r.check(ok, "coefficients-at", || format!("year {y} degree {n} order {o}: g {} h {} rates {} {}", c.g(n, o), c.h(n, o), c.g_dot(n, o), c.h_dot(n, o)));
            }
        }
        r.trace();
    }
    // field
    r.section("coefficients");
    let deep = r.thorough;
    let st = if deep { 1.25 } else { 2.5 };
    let mut lats: Vec<(f64, Option<f64>)> = (1..(180.0 / st) as i32).map(|i| ((-90.0 + st * i as f64).to_radians(), None)).collect();
    // a sphere as large as the mean of the three semi-axes, to the accuracy of the expansion
    r.check(close(wgs84_mean_radius_m(), (2.0 * 6378137.0 + 6356752.314245) / 3.0, 0.01) && wmm_reference_radius_m() == 6371200.0, "radii", || format!("{} {}", wgs84_mean_radius_m(), wmm_reference_radius_m()));
    for e in [1e-1, 1e-2, 1e-3, 1e-4, 1e-5, 1e-6, 1e-7] {
        lats.push((PI / 2.0 - e, Some(e)));
        lats.push((e - PI / 2.0, Some(PI - e)));
    }
    let ls = if deep { 5.0 } else { 10.0 };
    let lons: Vec<f64> = (0..=(1080.0 / ls) as i32).map(|i| (-360.0 + ls * i as f64).to_radians()).collect();
    let hs: &[f64] = if deep { &[-1000.0, 0.0, 500.0, 28000.0, 100e3, 850e3, 6371e3] } else { &[-1000.0, 0.0, 28000.0, 850e3] };
    let ys: &[f64] = if deep { &[2020.0, 2025.0, 2026.5, 2027.5, 2029.75, 2030.0] } else { &[2025.0, 2027.5, 2030.0] };
    for part in par(lats.len() as u64, |p, i| {
        let (lat, colat) = lats[i as usize];
        let k = cof();
        for &y in ys {
            let c = m.coefficients_at(y);
            for &h in hs {
                for &lon in &lons {
                    p.states += 1;
                    p.traces += 1;
                    p.steps_n(2);
                    let at = || format!("lat {lat} lon {lon} height {h} year {y}");
                    let q = GeodeticPoint::new(lat, lon, h);
                    let (b, s, rad) = field(&k, y, lat, lon, h, colat);
                    let e = match m.evaluate(y, q) {
                        Ok(e) => e,
                        Err(e) => {
                            p.fail("evaluate-error", || format!("{}: {e}", at()));
                            continue;
                        }
                    };
                    let tol = 5e-3;
                    let f = [e.field_ned_nt.x(), e.field_ned_nt.y(), e.field_ned_nt.z()];
                    let g = [e.secular_variation_ned_nt_per_year.x(), e.secular_variation_ned_nt_per_year.y(), e.secular_variation_ned_nt_per_year.z()];
                    p.check((0..3).all(|j| close(f[j], b[j], tol)), "field", || format!("{}: {f:?} nT, expected {b:?}", at()));
                    p.check((0..3).all(|j| close(g[j], s[j], tol * 0.1)), "secular-variation", || format!("{}: {g:?} nT/yr, expected {s:?}", at()));
                    let hh = f[0].hypot(f[1]);
                    let ff = hh.hypot(f[2]);
                    let ok = close(e.horizontal_intensity_nt, hh, 1e-6) && close(e.total_intensity_nt, ff, 1e-6) && ang(e.declination_rad, f[1].atan2(f[0])) < 1e-9 && close(e.inclination_rad, f[2].atan2(hh), 1e-9);
                    p.check(ok, "elements", || format!("{}: H {} F {} D {} I {} of field {f:?}", at(), e.horizontal_intensity_nt, e.total_intensity_nt, e.declination_rad, e.inclination_rad));
                    // rates: central difference of the elements along the secular variation
                    let t = 1e-3;
                    let el = |u: f64| {
                        let v: Vec<f64> = (0..3).map(|j| f[j] + u * g[j]).collect();
                        let h = v[0].hypot(v[1]);
                        [h, h.hypot(v[2]), v[1].atan2(v[0]), v[2].atan2(h)]
                    };
                    let (lo, hi) = (el(-t), el(t));
                    let want: Vec<f64> = (0..4)
                        .map(|j| {
                            let mut d = hi[j] - lo[j];
                            if j == 2 {
                                d = (d + PI).rem_euclid(2.0 * PI) - PI;
                            }
                            d / (2.0 * t)
                        })
                        .collect();
                    let got = [e.horizontal_intensity_rate_nt_per_year, e.total_intensity_rate_nt_per_year, e.declination_rate_rad_per_year, e.inclination_rate_rad_per_year];
                    let tl = [1e-4, 1e-4, 1e-7, 1e-7];
                    p.check((0..4).all(|j| close(got[j], want[j], tl[j] + 1e-4 * want[j].abs())), "rates", || format!("{}: {got:?}, expected {want:?}", at()));
                    p.check(e.geodetic == q && e.decimal_year == y && close(e.geocentric.radius_m, rad, 1e-3) && e.geocentric.longitude_rad == lon && e.grid_variation_rad == e.declination_rad, "echo", || format!("{}: {:?} {:?} {}", at(), e.geodetic, e.geocentric, e.decimal_year));
                    let e2 = m.evaluate_with_coefficients(&c, q);
                    p.check(e2.is_ok_and(|v| close(v.field_ned_nt.x(), f[0], 1e-6) && close(v.field_ned_nt.y(), f[1], 1e-6) && close(v.field_ned_nt.z(), f[2], 1e-6) && close(v.declination_rate_rad_per_year, e.declination_rate_rad_per_year, 1e-9) && v.decimal_year == y), "with-coefficients", || format!("{}: {e2:?} and {e:?}", at()));
                    p.outcomes.insert((ff / 500.0) as u64);
                }
            }
        }
    }) {
        r.absorb(part);
    }
    r.sample(|| {
        let (b, s, _) = field(&k, 2025.0, 1.0, 0.5, 0.0, None);
        format!("lat 1 rad lon 0.5 rad on the ellipsoid in 2025: {b:?} nT, {s:?} nT/yr")
    });
    // series cut at every degree, models moved to another epoch, far dates, heights and longitudes of many turns
    for top in 0..=12usize {
        let cut = Cof { epoch: k.epoch, head: vec![], rec: k.rec.iter().filter(|q| q.0 <= top).cloned().collect() };
        let mut mm = WorldMagneticModel::embedded();
        mm.max_degree = top;
        for (la, lo) in [(0.0f64, 0.0f64), (0.7, 2.0), (-1.2, -3.0), (1.5, 1.0), (-0.3, 40.0), (0.2, -1000.0), (-1.5, 12345.0)] {
            for h in [-5000.0, 0.0, 36e6, 4e8] {
                for y in [1000.0, 1900.0, 2025.0, 2031.5, 3000.0] {
                    r.step();
                    r.trace();
                    let q = GeodeticPoint::new(la, lo, h);
                    let (b, s, rad) = field(&cut, y, la, lo, h, None);
                    let mut c = m.coefficients_at(y);
                    c.max_degree = top;
                    let at = || format!("degrees up to {top}, lat {la} lon {lo} height {h} year {y}");
                    for (how, e) in [("model", mm.evaluate(y, q)), ("coefficients", m.evaluate_with_coefficients(&c, q))] {
                        if top == 0 {
                            r.check(e == Err(WmmError::UndefinedHorizontalField), "undefined", || format!("{} ({how}): {e:?}", at()));
                            continue;
                        }
                        let v = |c: &aether_core::coordinate::Cartesian<f64, aether_core::reference_frame::NED<f64>>| [c.x(), c.y(), c.z()];
                        let big = b.iter().fold(0.0f64, |m, x| m.max(x.abs()));
                        let bs = s.iter().fold(0.0f64, |m, x| m.max(x.abs()));
                        let ok = e.as_ref().is_ok_and(|e| {
                            let (f, g) = (v(&e.field_ned_nt), v(&e.secular_variation_ned_nt_per_year));
                            (0..3).all(|j| close(f[j], b[j], 1e-8 * big) && close(g[j], s[j], 1e-8 * bs.max(big * 1e-3))) && close(e.geocentric.radius_m, rad, 1e-9 * rad) && close(e.declination_rad, f[1].atan2(f[0]), 1e-9) && close(e.inclination_rad, f[2].atan2(f[0].hypot(f[1])), 1e-9)
                        });
                        r.check(ok, "cut-series", || format!("{} ({how}): {e:?}, expected {b:?} nT, {s:?} nT/yr", at()));
                    }
                    // the same model counted from another epoch
                    let mut moved = WorldMagneticModel::embedded();
                    moved.header.epoch += 5.0;
                    let (d, e) = (moved.coefficients_at(y + 5.0), m.coefficients_at(y));
                    let same = (0..=12).all(|n| (0..=n).all(|o| close(d.g(n, o), e.g(n, o), 1e-9 * e.g(n, o).abs().max(1.0)) && close(d.h(n, o), e.h(n, o), 1e-9 * e.h(n, o).abs().max(1.0))));
                    r.check(same, "epoch", || format!("year {y}: a model whose epoch is 5 years later differs 5 years later"));
                }
            }
        }
    }
    for la in [-1.5f64, -0.6, 0.0, 0.3, 1.2] {
        for h in [0.0, 400e3] {
            let e = m.evaluate(2026.0, GeodeticPoint::new(la, 1.0, h)).unwrap();
            let (rn, e2) = (6378137.0 / (1.0 - 0.0066943799901413165 * la.sin().powi(2)).sqrt(), 0.0066943799901413165);
            let w = (((rn * (1.0 - e2)) + h) * la.sin()).atan2((rn + h) * la.cos());
            r.step();
            r.check(close(e.geocentric.latitude_rad, w, 1e-10), "geocentric", || format!("lat {la} height {h}: geocentric {} expected {w}", e.geocentric.latitude_rad));
        }
    }
    let t = [WmmError::Io, WmmError::PoleSingularity { latitude_rad: 1.25 }, WmmError::UndefinedHorizontalField].map(|e| e.to_string());
    r.check(t[1].contains("1.25") && t[0] != t[2] && t.iter().all(|x| x.len() > 10), "error-text", || format!("{t:?}"));
    // longitude period, degrees, poles
    r.section("field");
    for la in -17..=17 {
        for lo in (-360..=360).step_by(30) {
            r.step();
            let (la, lo) = (la as f64 * 5.0, lo as f64);
            let q = GeodeticPoint::from_degrees(la, lo, 10.0);
            r.check(q == GeodeticPoint::new(la * PI / 180.0, lo * PI / 180.0, 10.0) || (close(q.latitude_rad, la * PI / 180.0, 1e-15) && close(q.longitude_rad, lo * PI / 180.0, 1e-14) && q.height_m == 10.0), "from-degrees", || format!("{la} {lo}: {q:?}"));
        }
    }
    for la in [90.0, -90.0] {
        for lo in (-180..=180).step_by(30) {
            for h in [-1000.0, 0.0, 400e3] {
                for y in ys {
                    r.step();
                    r.trace();
                    let e = m.evaluate(*y, GeodeticPoint::from_degrees(la, lo as f64, h));
                    r.check(matches!(e, Err(WmmError::PoleSingularity { latitude_rad }) if close(latitude_rad, la * PI / 180.0, 1e-9)), "pole", || format!("lat {la} lon {lo} height {h}: {e:?}"));
                }
            }
        }
    }
    // every distance from the poles: an answer is an error or finite and right
    for i in 0..(if deep { 4000 } else { 800 }) {
        for up in [1.0, -1.0] {
            for lo in [0.0, 1.0, -2.5] {
                r.step();
                let t = 10f64.powf(-17.0 + 16.0 * i as f64 / if deep { 4000.0 } else { 800.0 });
                let lat = up * (PI / 2.0 - t);
                // the representable latitude decides the distance
                let te = (PI / 2.0 - lat.abs()) + 6.123233995736766e-17;
                let (b, _, _) = field(&k, 2026.0, lat, lo, 0.0, Some(if up > 0.0 { te } else { PI - te }));
                match m.evaluate(2026.0, GeodeticPoint::new(lat, lo, 0.0)) {
                    Ok(e) => {
                        let f = [e.field_ned_nt.x(), e.field_ned_nt.y(), e.field_ned_nt.z()];
                        r.check((0..3).all(|j| close(f[j], b[j], 0.05)), "near-pole", || format!("{te:e} rad from the pole {up}, longitude {lo}: {f:?}, expected {b:?}"));
                    }
                    Err(WmmError::PoleSingularity { .. }) => {
                        r.check(te < 2e-8, "near-pole", || format!("{te:e} rad from the pole: singular"));
                    }
                    Err(e) => r.fail("near-pole", || format!("{te:e} rad from the pole: {e}")),
                }
            }
        }
    }
    r.section("poles and periods");
}
