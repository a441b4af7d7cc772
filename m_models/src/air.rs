//! G03: standard atmospheres.
use aether_models::terrestrial::atmospheres::isa::ISA;
use aether_models::terrestrial::atmospheres::ussa::USSA;
use aether_models::terrestrial::earth::Earth;
use mckit::*;

const G0: f64 = 9.80665;
const R0: f64 = 6356766.0;
const RA: f64 = 287.0529;
const LAYERS: [(f64, f64); 8] = [(0.0, -6.5e-3), (11e3, 0.0), (20e3, 1e-3), (32e3, 2.8e-3), (47e3, 0.0), (51e3, -2.8e-3), (71e3, -2e-3), (f64::INFINITY, 0.0)];

/// Temperature and pressure from sea level up through the layers of constant gradient.
fn standard(hp: f64) -> (f64, f64) {
    let (mut t, mut p) = (288.15, 101325.0);
    for w in LAYERS.windows(2) {
        let (lo, l) = w[0];
        let top = if hp < w[1].0 { hp } else { w[1].0 };
        let dh = top - lo;
        let t1 = t + l * dh;
        p *= if l == 0.0 { (-G0 * dh / (RA * t)).exp() } else { (t1 / t).powf(-G0 / (RA * l)) };
        t = t1;
        if hp < w[1].0 {
            break;
        }
    }
    (t, p)
}
/// Kinetic temperature of the 1976 atmosphere above 86 km, by geometric height.
fn upper(z: f64) -> f64 {
    let k = z / 1e3;
    if k < 91.0 {
        186.8673
    } else if k < 110.0 {
        263.1905 - 76.3232 * (1.0 - ((k - 91.0) / -19.9429).powi(2)).sqrt()
    } else if k < 120.0 {
        240.0 + 12.0 * (k - 110.0)
    } else {
        let xi = (k - 120.0) * (6356.766 + 120.0) / (6356.766 + k);
        1000.0 - (1000.0 - 360.0) * (-0.01875 * xi).exp()
    }
}

pub fn g03(r: &mut Run) {
    let deep = r.thorough;
    let st = if deep { 0.25 } else { 2.0 };
    // ISA by geopotential altitude
    let isa = ISA::new();
    let n = (85000.0 / st) as i64;
    let mut hs: Vec<f64> = (0..=n).map(|i| -5000.0 + i as f64 * st).collect();
    for b in [-5e3, 0.0, 11e3, 20e3, 32e3, 47e3, 51e3, 71e3, 80e3] {
        for d in [-1e-3, -1e-9, 1e-9, 1e-3] {
            if b + d <= 80e3 && b + d >= -5e3 {
                hs.push(b + d);
            }
        }
    }
    hs.sort_by(f64::total_cmp);
    hs.dedup();
    let mut p = Part::default();
    let mut last: Option<(f64, f64, f64, f64)> = None;
    for &z in &hs {
        let (wt, wp) = standard(z);
        p.states += 1;
        p.steps_n(3);
        match (isa.temperature(z), isa.pressure(z), isa.density(z)) {
            (Ok(t), Ok(q), Ok(d)) => {
                let ok = (t - wt).abs() <= 1e-6 && (q / wp - 1.0).abs() <= 1e-4 && (d * RA * t / q - 1.0).abs() <= 1e-5;
                p.check(ok, "isa-layers", || format!("{z} m: {t} K {q} Pa {d} kg/m3, expected {wt} K {wp} Pa {} kg/m3", wp / RA / wt));
                if let Some((z0, t0, q0, d0)) = last {
                    // no jump at a layer boundary, pressure falls, density falls
                    let dz = z - z0;
                    let slack = 3e-5;
                    let ok = (t - t0).abs() <= 6.6e-3 * dz + 1e-9 && q < q0 * (1.0 + slack) && q > q0 * (1.0 - 2.5e-4 * dz - slack) && d < d0 * (1.0 + slack);
                    p.check(ok, "isa-continuous", || format!("between {z0} and {z} m: {t0} -> {t} K, {q0} -> {q} Pa, {d0} -> {d} kg/m3"));
                }
                last = Some((z, t, q, d));
            }
            e => p.fail("isa-range", || format!("{z} m: {e:?}")),
        }
        p.outcomes.insert((wt * 1e3) as u64);
    }
    for z in [80000.1, 80001.0, 9e4, 1e6, f64::INFINITY, f64::NAN, f64::MAX] {
        p.step();
        p.check(isa.temperature(z).is_err() && isa.pressure(z).is_err() && isa.density(z).is_err(), "isa-range", || format!("{z} m is above the model but gives a value"));
    }
    // geometric and geopotential height
    for i in -50..=(if deep { 40000 } else { 4000 }) {
        let mut z = i as f64 * if deep { 25.0 } else { 250.0 };
        if i % 8 == 7 {
            z *= 40.0; // out to ten million metres
        }
        let hp = isa.geopotential_altitude(z);
        let w = R0 * z / (R0 + z);
        p.states += 1;
        p.steps_n(3);
        p.check((hp - w).abs() <= 1e-9 * (1.0 + z.abs()) && (isa.geometric_altitude(hp) - z).abs() <= 1e-8 * (1.0 + z.abs()), "heights", || format!("geometric {z}: geopotential {hp}, back {}", isa.geometric_altitude(hp)));
        let (a, b) = (isa.geopotential_altitude(z - 5.0), isa.geopotential_altitude(z + 5.0));
        let g = ISA::gravity(z);
        p.check(((b - a) / 10.0 * G0 - g).abs() <= 1e-6, "gravity", || format!("gravity {g} at {z} m, the potential gives {}", (b - a) / 10.0 * G0));
    }
    r.absorb(p);
    r.section("ISA");

    // USSA by geometric height
    let us = USSA::new();
    let earth = Earth::new();
    let mut p = Part::default();
    p.check(USSA::g_0 == G0, "ussa-constants", || format!("standard gravity {}", USSA::g_0));
    let mut zs: Vec<f64> = (0..(86000.0 / st) as i64).map(|i| i as f64 * st).collect();
    let up = if deep { 5.0 } else { 50.0 };
    zs.extend((0..(914000.0 / up) as i64).map(|i| 86000.0 + i as f64 * up));
    for b in [11019.0, 20063.0, 32162.0, 47350.0, 51413.0, 71802.0, 86e3, 91e3, 110e3, 120e3, 500e3, 1e6] {
        for d in [-1e-3, -1e-7, 1e-7, 1e-3] {
            if b + d < 1e6 {
                zs.push(b + d);
            }
        }
    }
    zs.sort_by(f64::total_cmp);
    zs.dedup();
    let mut last: Option<(f64, f64, f64)> = None;
    for &z in &zs {
        p.states += 1;
        p.steps_n(8);
        let low = z < 86e3;
        let hp = R0 * z / (R0 + z);
        let (wt, wp) = if low { standard(hp) } else { (upper(z), f64::NAN) };
        // tables round the base heights to a metre; the mean molar mass falls by 0.04% just below 86 km
        let (tt, tp) = if low { (0.004, 5e-4) } else { (0.004, 0.0) };
        let (t, q, d, c, v) = match (us.temperature(z), us.pressure(z), us.density(z), us.speed_of_sound(z), us.dynamic_viscosity(z)) {
            (Ok(t), Ok(q), Ok(d), Ok(c), Ok(v)) => (t, q, d, c, v),
            e => {
                p.fail("ussa-range", || format!("{z} m: {e:?}"));
                continue;
            }
        };
        p.check((t - wt).abs() <= tt, "ussa-temperature", || format!("{z} m: {t} K, expected {wt} K"));
        let ok = (c - (1.4 * 8314.32 / 28.9644 * t).sqrt()).abs() <= 1e-6 * c && (v - 1.458e-6 * t.powf(1.5) / (t + 110.4)).abs() <= 1e-9 * v;
        p.check(ok, "ussa-sound-viscosity", || format!("{z} m, {t} K: speed of sound {c} m/s, viscosity {v} Pa s"));
        p.check((d * 8314.32 / 28.9644 * t / q - 1.0).abs() <= 1e-6 && q > 0.0, "ussa-gas-law", || format!("{z} m: {q} Pa {d} kg/m3 {t} K"));
        if low {
            p.check((q / wp - 1.0).abs() <= tp, "ussa-pressure", || format!("{z} m: {q} Pa, expected {wp} Pa"));
        }
        if let Some((z0, t0, q0)) = last {
            let dz = z - z0;
            p.check((t - t0).abs() <= 0.0131 * dz + if z > 85.99e3 && z0 < 91.001e3 { 0.1 } else { 0.03 }, "ussa-continuous", || format!("temperature between {z0} and {z} m: {t0} -> {t} K"));
            // the jump at one layer boundary is told apart from anything inside a layer
            let key = match [110e3, 120e3, 500e3].iter().find(|b| z0 < **b && z >= **b) {
                None => "ussa-continuous".to_string(),
                Some(b) => format!("ussa-pressure-jump-{}km", b / 1e3),
            };
            // constant molar mass: 0.3% by 91 km
            let q = if z0 < 91e3 && z >= 91e3 { q * 0.997 } else { q };
            let ok = q < q0 * (1.0 + 1e-3) && q > q0 * (1.0 - 2.6e-4 * dz - 7e-3);
            p.check(ok, &key, || format!("pressure between {z0} and {z} m: {q0} -> {q} Pa"));
        }
        last = Some((z, t, q));
        let same = |a: Result<f64, &str>, b: f64| a.is_ok_and(|a| a == b);
        p.check(same(earth.get_temperature(z), t) && same(earth.get_pressure(z), q) && same(earth.get_density(z), d) && same(earth.get_speed_of_sound(z), c), "earth-atmosphere", || format!("{z} m: the Earth's atmosphere is another"));
    }
    // outside the table: an error from every query, never a panic
    for z in [1e6, 1e6 + 1.0, 2e6, 1e9, f64::INFINITY, f64::MAX, f64::NAN] {
        let bad = [
            ("temperature", guard(|| us.temperature(z).is_err())),
            ("pressure", guard(|| us.pressure(z).is_err())),
            ("density", guard(|| us.density(z).is_err())),
            ("speed_of_sound", guard(|| us.speed_of_sound(z).is_err())),
            ("dynamic_viscosity", guard(|| us.dynamic_viscosity(z).is_err())),
            ("get_temperature", guard(|| earth.get_temperature(z).is_err())),
            ("get_pressure", guard(|| earth.get_pressure(z).is_err())),
            ("get_density", guard(|| earth.get_density(z).is_err())),
            ("get_speed_of_sound", guard(|| earth.get_speed_of_sound(z).is_err())),
        ];
        for (n, b) in bad {
            p.states += 1;
            p.step();
            p.check(matches!(b, Ok(true)), "ussa-range", || format!("{n} at {z} m: {}", match &b { Ok(_) => "gives a value".to_string(), Err(e) => format!("panics: {e}") }));
        }
    }
    r.absorb(p);
    r.section("USSA");
    r.traces(hs.len() as u64 + zs.len() as u64);
    r.sample(|| format!("{} ISA altitudes, {} USSA heights", hs.len(), zs.len()));
    r.bounds.push(format!("ISA every {st} m from -5 to 80 km, USSA every {st} m to 86 km and every {up} m to 1000 km, all layer boundaries from both sides"));
    r.assumptions.push("pressure to 0.01% (ISA) and 0.05% (USSA below 86 km), USSA temperature to 4 mK, because the base tables are rounded".into());
}
