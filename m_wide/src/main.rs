//! M09: numbers of 16 and 128 bits.
#![feature(f16, f128)]
use aether_core::attitude::{DirectionCosineMatrix as Dcm, Euler, Quaternion};
use aether_core::coordinate::{Cartesian, Cylindrical, Spherical};
use aether_core::math::{Matrix, Vector};
use aether_core::numerical_methods::integration::{euler::EulerIntegrate, rk4::Rk4Integrate, trapezoidal::TrapezoidalIntegrate};
use aether_core::numerical_methods::solvers::newton::NewtonRaphson;
use aether_core::real::{Real, real::RealCast};
use aether_core::reference_frame::ReferenceFrame;
use mckit::{Part, Run, main as kit_main, par};

#[derive(Debug, Clone, Copy, PartialEq, Default)]
struct A;
#[derive(Debug, Clone, Copy, PartialEq, Default)]
struct B;
impl ReferenceFrame for A {}
impl ReferenceFrame for B {}

fn main() {
    kit_main(&[("M09", m09)])
}

// ---------------------------------------------------------------- functions of f16
fn half(r: &mut Run) {
    let same = |a: f16, b: f16| a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan());
    // in steps of the number format, ends of the range included
    let order = |a: f16| {
        let b = a.to_bits() as i32;
        if b & 0x8000 != 0 { -(b & 0x7fff) } else { b }
    };
    let near = |a: f16, b: f16, n: i32| (a.is_nan() && b.is_nan()) || (!a.is_nan() && !b.is_nan() && (order(a) - order(b)).abs() <= n);
    let exact: [(&str, fn(f16) -> f16, fn(f64) -> f64); 8] = [
        ("abs", <f16 as Real>::abs, |x| x.abs()),
        ("signum", <f16 as Real>::signum, |x| x.signum()),
        ("floor", <f16 as Real>::floor, |x| x.floor()),
        ("ceil", <f16 as Real>::ceil, |x| x.ceil()),
        ("round", <f16 as Real>::round, |x| x.round()),
        ("trunc", <f16 as Real>::trunc, |x| x.trunc()),
        ("fract", <f16 as Real>::fract, |x| x.fract()),
        ("sqrt", <f16 as Real>::sqrt, |x| x.sqrt()),
    ];
    let close: [(&str, fn(f16) -> f16, fn(f64) -> f64); 13] = [
        ("sin", <f16 as Real>::sin, f64::sin),
        ("cos", <f16 as Real>::cos, f64::cos),
        ("tan", <f16 as Real>::tan, f64::tan),
        ("asin", <f16 as Real>::asin, f64::asin),
        ("acos", <f16 as Real>::acos, f64::acos),
        ("atan", <f16 as Real>::atan, f64::atan),
        ("exp", <f16 as Real>::exp, f64::exp),
        ("exp2", <f16 as Real>::exp2, f64::exp2),
        ("ln", <f16 as Real>::ln, f64::ln),
        ("log2", <f16 as Real>::log2, f64::log2),
        ("log10", <f16 as Real>::log10, f64::log10),
        ("to_degrees", <f16 as Real>::to_degrees, f64::to_degrees),
        ("to_radians", <f16 as Real>::to_radians, f64::to_radians),
    ];
    let mut p = Part::default();
    for b in 0..=u16::MAX {
        let x = f16::from_bits(b);
        p.states += 1;
        p.traces += 1;
        for (n, f, w) in exact {
            let (g, w) = (f(x), w(x as f64) as f16);
            p.steps_n(1);
            p.check(same(g, w), "f16-exact", || format!("{n}({}) of f16 is {}, expected {}", x as f64, g as f64, w as f64));
        }
        for (n, f, w) in close {
            let (g, w) = (f(x), w(x as f64) as f16);
            p.steps_n(1);
            p.check(near(g, w, 2), "f16-close", || format!("{n}({}) of f16 is {}, expected {}", x as f64, g as f64, w as f64));
        }
        // conversions
        let v = x as f64;
        let b64 = |g: f64| g.to_bits() == v.to_bits() || (g.is_nan() && v.is_nan());
        let ok = b64(RealCast::to_f64(x)) && b64(RealCast::to_f32(x) as f64) && b64(RealCast::to_f128(x) as f64) && same(RealCast::to_f16(x), x) && same(<f16 as RealCast>::from_f64(v), x) && same(<f16 as RealCast>::from_f32(v as f32), x) && same(<f16 as RealCast>::from_f128(v as f128), x) && same(<f16 as RealCast>::from_f16(x), x) && b64(<f64 as RealCast>::from_f16(x)) && b64(<f32 as RealCast>::from_f16(x) as f64) && b64(<f128 as RealCast>::from_f16(x) as f64) && same(RealCast::to_f16(v), x) && same(RealCast::to_f16(v as f32), x) && same(RealCast::to_f16(v as f128), x);
        p.check(ok, "cast", || format!("conversions of the f16 {v}"));
        p.check(same(<f16 as RealCast>::from_u32(b as u32), b as f16) && same(<f16 as RealCast>::from_usize(b as usize), b as f16), "cast", || format!("{b} becomes the f16 {}", <f16 as RealCast>::from_u32(b as u32) as f64));
        p.outcomes.insert(b as u64);
    }
    r.absorb(p);
    // pairs: every exponent and sign with two mantissas
    let vals: Vec<f16> = (0..64u16).flat_map(|e| [0u16, 1, 0x155, 0x3ff].map(|m| f16::from_bits(e << 10 | m)))
        // no signalling NaN: what a function makes of it is the platform's
        .filter(|x| !x.is_nan() || x.to_bits() & 0x200 != 0)
        .collect();
    for q in par(vals.len() as u64, |p, i| {
        let a = vals[i as usize];
        for &b in &vals {
            p.states += 1;
            p.traces += 1;
            p.steps_n(5);
            let (x, y) = (a as f64, b as f64);
            let say = |n: &str, g: f16, w: f16| format!("{n}({x}, {y}) of f16 is {}, expected {}", g as f64, w as f64);
            let (g, w) = (<f16 as Real>::copysign(a, b), x.copysign(y) as f16);
            p.check(same(g, w), "f16-pairs", || say("copysign", g, w));
            let (g, w) = (<f16 as Real>::min(a, b), x.min(y) as f16);
            p.check(g == w || same(g, w), "f16-pairs", || say("min", g, w));
            let (g, w) = (<f16 as Real>::max(a, b), x.max(y) as f16);
            p.check(g == w || same(g, w), "f16-pairs", || say("max", g, w));
            let (g, w) = (<f16 as Real>::atan2(a, b), x.atan2(y) as f16);
            p.check(near(g, w, 2), "f16-pairs", || say("atan2", g, w));
            let (g, w) = (<f16 as Real>::powf(a, b), x.powf(y) as f16);
            p.check(near(g, w, 2), "f16-pairs", || say("powf", g, w));
        }
        for n in (-12..=12).chain([2047, 2048, 2049, 4097, -2049, 65537, -65537, i32::MAX, i32::MIN + 1]) {
            let (g, w) = (<f16 as Real>::powi(a, n), (a as f64).powi(n) as f16);
            p.steps_n(1);
            let big = n.abs() > 12;
            // far powers: of 0, 1 and NaN exact, others past the ends of the range or near 1
            let ok = if big { (a.abs() - 1.0).abs() < 0.01 && a.abs() != 1.0 || same(g, w) } else { near(g, w, 4 + 2 * n.abs()) };
            p.check(ok, "f16-powi", || format!("powi({}, {n}) of f16 is {}, expected {}", a as f64, g as f64, w as f64));
        }
    }) {
        r.absorb(q);
    }
    let c = [(<f16 as Real>::ZERO, 0.0), (<f16 as Real>::ONE, 1.0), (<f16 as Real>::PI, std::f64::consts::PI), (<f16 as Real>::FRAC_PI_2, std::f64::consts::FRAC_PI_2), (<f16 as Real>::EPSILON, 2f64.powi(-10)), (<f16 as Real>::INFINITY, f64::INFINITY), (<f16 as Real>::NEG_INFINITY, f64::NEG_INFINITY)];
    for (g, w) in c {
        r.check(same(g, w as f16), "constant", || format!("{}, expected {w}", g as f64));
    }
    r.section("functions of f16");
}

// ---------------------------------------------------------------- functions of f128
const EPS: f128 = f128::EPSILON;
fn show(x: f128) -> String {
    format!("{:e} ({:#x})", x as f64, x.to_bits())
}
fn same(a: f128, b: f128) -> bool {
    a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan())
}
fn near(a: f128, b: f128, ulps: f128) -> bool {
    same(a, b) || a == b || (a - b).abs() <= ulps * EPS * a.abs().max(b.abs()) + f128::MIN_POSITIVE * 1e-3
}
fn quad(r: &mut Run) {
    let exact: [(&str, fn(f128) -> f128, fn(f128) -> f128); 8] = [
        ("abs", <f128 as Real>::abs, |x| x.abs()),
        ("signum", <f128 as Real>::signum, |x| x.signum()),
        ("floor", <f128 as Real>::floor, |x| x.floor()),
        ("ceil", <f128 as Real>::ceil, |x| x.ceil()),
        ("round", <f128 as Real>::round, |x| x.round()),
        ("trunc", <f128 as Real>::trunc, |x| x.trunc()),
        ("fract", <f128 as Real>::fract, |x| x.fract()),
        ("sqrt", <f128 as Real>::sqrt, |x| x.sqrt()),
    ];
    let close: [(&str, fn(f128) -> f128, fn(f128) -> f128); 13] = [
        ("sin", <f128 as Real>::sin, |x| <f128>::sin(x)),
        ("cos", <f128 as Real>::cos, |x| <f128>::cos(x)),
        ("tan", <f128 as Real>::tan, |x| <f128>::tan(x)),
        ("asin", <f128 as Real>::asin, |x| <f128>::asin(x)),
        ("acos", <f128 as Real>::acos, |x| <f128>::acos(x)),
        ("atan", <f128 as Real>::atan, |x| <f128>::atan(x)),
        ("exp", <f128 as Real>::exp, |x| <f128>::exp(x)),
        ("exp2", <f128 as Real>::exp2, |x| <f128>::exp2(x)),
        ("ln", <f128 as Real>::ln, |x| <f128>::ln(x)),
        ("log2", <f128 as Real>::log2, |x| <f128>::log2(x)),
        ("log10", <f128 as Real>::log10, |x| <f128>::log10(x)),
        ("to_degrees", <f128 as Real>::to_degrees, |x| <f128>::to_degrees(x)),
        ("to_radians", <f128 as Real>::to_radians, |x| <f128>::to_radians(x)),
    ];
    let each = |p: &mut Part, x: f128| {
        p.states += 1;
        p.traces += 1;
        for (n, f, w) in exact {
            let (g, w) = (f(x), w(x));
            p.steps_n(1);
            p.check(same(g, w), "f128-exact", || format!("{n}({}) of f128 is {}, expected {}", show(x), show(g), show(w)));
        }
        for (n, f, w) in close {
            let (g, w) = (f(x), w(x));
            p.steps_n(1);
            p.check(near(g, w, 16.0), "f128-close", || format!("{n}({}) of f128 is {}, expected {}", show(x), show(g), show(w)));
        }
        let ok = same(RealCast::to_f128(x), x) && same(<f128 as RealCast>::from_f128(x), x) && (RealCast::to_f64(x) as f64).to_bits() == (x as f64).to_bits() && <f64 as RealCast>::from_f128(x).to_bits() == (x as f64).to_bits() && RealCast::to_f32(x).to_bits() == (x as f32).to_bits() && <f32 as RealCast>::from_f128(x).to_bits() == (x as f32).to_bits() && RealCast::to_f16(x).to_bits() == (x as f16).to_bits() && <f16 as RealCast>::from_f128(x).to_bits() == (x as f16).to_bits() && same(RealCast::to_f128(x as f64), x as f64 as f128) && same(<f128 as RealCast>::from_f64(x as f64), x as f64 as f128) && same(RealCast::to_f128(x as f32), x as f32 as f128) && same(<f128 as RealCast>::from_f32(x as f32), x as f32 as f128);
        p.check(ok || x.is_nan(), "cast", || format!("conversions of the f128 {}", show(x)));
    };
    let step = if r.thorough { 1 } else { 5 };
    for q in par(32768 / 64, |p, i| {
        for e in (0..64).map(|k| i as u128 * 64 + k).filter(|e| e % step == 0 || (16000..16800).contains(e)) {
            for s in 0..2u128 {
                for m in [0u128, 1, (1 << 112) - 1, 0x5555_5555_5555_5555_5555_5555_5555, 0x8000_0000_0000_0000_0000_0000_0001, 0x0000_0fff_ffff_ffff_ffff_0000_0000] {
                    each(p, f128::from_bits(s << 127 | e << 112 | m));
                }
            }
        }
    }) {
        r.absorb(q);
    }
    for q in par(64, |p, i| {
        for k in (-4000..=4000i32).filter(|k| k.rem_euclid(64) as u64 == i) {
            each(p, k as f128 / 8.0);
            each(p, k as f128 / 7.0);
            each(p, k as f128 * (std::f128::consts::PI / 64.0));
        }
    }) {
        r.absorb(q);
    }
    let third = 1.0 / 3.0f128;
    let vals: Vec<f128> = vec![0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 2.0, -2.0, 3.0, -3.0, third, -third, 1.5, 7.0, -7.0, 1e3, -1e-3, 1e30, 1e-30, 1e300, 1.0 + EPS, 1.0 - EPS, f128::MAX, f128::MIN, f128::MIN_POSITIVE, -f128::MIN_POSITIVE / 4.0, f128::INFINITY, f128::NEG_INFINITY, f128::NAN, std::f128::consts::PI, -std::f128::consts::E, 100.5, 16777217.0, 9007199254740993.0];
    let mut p = Part::default();
    for &a in &vals {
        for &b in &vals {
            p.states += 1;
            p.traces += 1;
            p.steps_n(5);
            let say = |n: &str, g: f128, w: f128| format!("{n}({}, {}) of f128 is {}, expected {}", show(a), show(b), show(g), show(w));
            let (g, w) = (<f128 as Real>::copysign(a, b), <f128>::copysign(a, b));
            p.check(same(g, w), "f128-pairs", || say("copysign", g, w));
            let (g, w) = (<f128 as Real>::min(a, b), <f128>::min(a, b));
            p.check(g == w || same(g, w), "f128-pairs", || say("min", g, w));
            let (g, w) = (<f128 as Real>::max(a, b), <f128>::max(a, b));
            p.check(g == w || same(g, w), "f128-pairs", || say("max", g, w));
            let (g, w) = (<f128 as Real>::atan2(a, b), <f128>::atan2(a, b));
            p.check(near(g, w, 16.0), "f128-pairs", || say("atan2", g, w));
            let (g, w) = (<f128 as Real>::powf(a, b), <f128>::powf(a, b));
            p.check(near(g, w, 16.0), "f128-pairs", || say("powf", g, w));
        }
        for n in (-40..=40).chain([100, 101, -101, 1000, -1001]) {
            let (g, w) = (<f128 as Real>::powi(a, n), <f128>::powi(a, n));
            p.steps_n(1);
            p.check(near(g, w, 8.0 + 2.0 * n.abs() as f128) || (g.abs().max(w.abs()) < f128::MIN_POSITIVE && g.is_sign_negative() == w.is_sign_negative()), "f128-powi", || format!("powi({}, {n}) of f128 is {}, expected {}", show(a), show(g), show(w)));
        }
    }
    for n in (0..64).flat_map(|b| [1u64 << b, (1u64 << b) - 1, (1u64 << b) + 1, !0u64 >> b]).chain(0..500) {
        p.steps_n(2);
        p.check(<f128 as RealCast>::from_u32(n as u32) == (n as u32) as f128 && <f128 as RealCast>::from_usize(n as usize) == n as f128, "cast", || format!("{n} becomes {}", show(<f128 as RealCast>::from_usize(n as usize))));
    }
    r.absorb(p);
    let c = [(<f128 as Real>::ZERO, 0.0), (<f128 as Real>::ONE, 1.0), (<f128 as Real>::PI, std::f128::consts::PI), (<f128 as Real>::FRAC_PI_2, std::f128::consts::FRAC_PI_2), (<f128 as Real>::EPSILON, f128::EPSILON), (<f128 as Real>::INFINITY, f128::INFINITY), (<f128 as Real>::NEG_INFINITY, f128::NEG_INFINITY)];
    for (g, w) in c {
        r.check(same(g, w), "constant", || format!("{}, expected {}", show(g), show(w)));
    }
    r.section("functions of f128");
}

// ---------------------------------------------------------------- the core at 34 digits
type M3 = [[f128; 3]; 3];
fn mm(a: &M3, b: &M3) -> M3 {
    core::array::from_fn(|i| core::array::from_fn(|j| (0..3).fold(0.0, |s, k| s + a[i][k] * b[k][j])))
}
fn dm(a: &M3, b: &M3) -> f128 {
    let mut e: f128 = 0.0;
    for i in 0..3 {
        for j in 0..3 {
            let d = (a[i][j] - b[i][j]).abs();
            e = if d.is_nan() { f128::INFINITY } else { e.max(d) };
        }
    }
    e
}
const ID: M3 = [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]];
fn passive(i: usize, t: f128) -> M3 {
    let (s, c) = (t.sin(), t.cos());
    let mut m = ID;
    let (a, b) = ((i + 1) % 3, (i + 2) % 3);
    m[a][a] = c;
    m[b][b] = c;
    m[a][b] = s;
    m[b][a] = -s;
    m
}
const FINE: f128 = 1e-30;

fn attitude(r: &mut Run) {
    let n = if r.thorough { 24 } else { 10 };
    let pi = std::f128::consts::PI;
    for q in par(n as u64, |p, i| {
        for j in 0..n {
            for k in 0..n {
                p.states += 1;
                p.traces += 1;
                p.steps_n(8);
                let roll = pi * (2.0 * (i as f128 + 0.37) / n as f128 - 1.0);
                let pitch = pi * ((j as f128 + 0.41) / n as f128 - 0.5);
                let yaw = pi * (2.0 * (k as f128 + 0.13) / n as f128 - 1.0);
                let what = || format!("roll {} pitch {} yaw {}", roll as f64, pitch as f64, yaw as f64);
                let e = Euler::<f128, A, B>::new(roll, pitch, yaw);
                let w = mm(&passive(0, roll), &mm(&passive(1, pitch), &passive(2, yaw)));
                let d = Dcm::from(e);
                p.check(dm(&d.as_matrix().data, &w) < FINE, "dcm", || format!("{}: matrix of the Euler angles is off by {}", what(), show(dm(&d.as_matrix().data, &w))));
                let back = Euler::<f128, A, B>::from(&d);
                let off = (back.roll() - roll).abs().max((back.pitch() - pitch).abs()).max((back.yaw() - yaw).abs());
                p.check(off < 1e-28, "euler", || format!("{}: Euler angles of the matrix are off by {}", what(), show(off)));
                let g = Quaternion::<f128, A, B>::try_from(&d);
                match g {
                    Ok(g) => {
                        p.check((g.norm() - 1.0).abs() < FINE && dm(&g.to_dcm().as_matrix().data, &w) < FINE, "quaternion", || format!("{}: quaternion of the matrix, back off by {}, norm off by {}", what(), show(dm(&g.to_dcm().as_matrix().data, &w)), show(g.norm() - 1.0)));
                        let v = [0.1f128, -2.0 / 3.0, 7.0 / 11.0];
                        let x = g.rotate_vector(Vector::new(v));
                        for a in 0..3 {
                            let y = (0..3).fold(0.0, |s, b| s + w[a][b] * v[b]);
                            p.check((x[a] - y).abs() < FINE, "rotate", || format!("{}: component {a} of the rotated vector is off by {}", what(), show(x[a] - y)));
                        }
                        let one = g * g.inverse();
                        let o = (one.w().abs() - 1.0).abs().max(one.i().abs()).max(one.j().abs()).max(one.k().abs());
                        p.check(o < FINE, "inverse", || format!("{}: quaternion times its inverse is off by {}", what(), show(o)));
                    }
                    Err(_) => {
                        p.fail("quaternion", || format!("{}: no quaternion of the matrix", what()));
                    }
                }
                // coordinates
                let x = Cartesian::<f128, A>::new(w[0][0] * 3.0, w[0][1] * 3.0, w[0][2] * 3.0);
                let s = Cartesian::<f128, A>::from(&Spherical::from(&x));
                let c = Cartesian::<f128, A>::from(&Cylindrical::from(&x));
                for a in 0..3 {
                    p.check((s[a] - x[a]).abs() < 1e-28 && (c[a] - x[a]).abs() < 1e-28, "coordinates", || format!("{}: spherical and cylindrical and back: component {a} off by {} and {}", what(), show(s[a] - x[a]), show(c[a] - x[a])));
                }
            }
        }
    }) {
        r.absorb(q);
    }
    r.section("attitude and coordinates in f128");
}

fn residual<const N: usize>(p: &mut Part, a: [[f128; N]; N]) {
    let m = Matrix::new(a);
    let mul = |x: &[[f128; N]; N], y: &[[f128; N]; N]| -> [[f128; N]; N] { core::array::from_fn(|i| core::array::from_fn(|j| (0..N).fold(0.0, |s, k| s + x[i][k] * y[k][j]))) };
    let off = |x: &[[f128; N]; N]| {
        let mut e: f128 = 0.0;
        for i in 0..N {
            for j in 0..N {
                let d = (x[i][j] - if i == j { 1.0 } else { 0.0 }).abs();
                e = if d.is_nan() { f128::INFINITY } else { e.max(d) };
            }
        }
        e
    };
    let what = || format!("{N}x{N} {:?}", a.map(|r| r.map(|x| x as f64)));
    p.states += 1;
    p.traces += 1;
    p.steps_n(4);
    let det = m.determinant();
    if det.abs() < 1e-6 {
        return;
    }
    p.outcomes.insert((det as f64).to_bits());
    let Some(inv) = m.inverse_gauss_jordan() else {
        p.fail("inverse", || format!("{}: no inverse, determinant {}", what(), show(det)));
        return;
    };
    let scale = 1e-28 / det.abs().min(1.0);
    p.check(off(&mul(&a, &inv.data)) < scale, "inverse", || format!("{}: matrix times inverse is off by {}", what(), show(off(&mul(&a, &inv.data)))));
    let b: [f128; N] = core::array::from_fn(|i| 1.0 / (i as f128 + 3.0));
    match m.solve(&Vector::new(b)) {
        Some(x) => {
            for i in 0..N {
                let g = (0..N).fold(-b[i], |s, k| s + a[i][k] * x[k]);
                p.check(g.abs() < scale, "solve", || format!("{}: residual {}", what(), show(g)));
            }
        }
        None => {
            p.fail("solve", || format!("{}: no solution, determinant {}", what(), show(det)));
        }
    }
    // a symmetric one of it
    let at: [[f128; N]; N] = core::array::from_fn(|i| core::array::from_fn(|j| a[j][i]));
    let s = mul(&a, &at);
    match Matrix::new(s).cholesky_solve(&Vector::new(b)) {
        Some(x) => {
            for i in 0..N {
                let g = (0..N).fold(-b[i], |t, k| t + s[i][k] * x[k]);
                p.check(g.abs() < scale / det.abs().min(1.0) * 100.0, "cholesky", || format!("{}: residual {} of the product with its transpose", what(), show(g)));
            }
        }
        None => {
            p.fail("cholesky", || format!("{}: its product with its transpose is refused", what()));
        }
    }
    // product with itself, in the code
    let g = m * m;
    let w = mul(&a, &a);
    for i in 0..N {
        for j in 0..N {
            p.check((g.data[i][j] - w[i][j]).abs() < FINE * 100.0, "product", || format!("{}: element {i},{j} of the square is off by {}", what(), show(g.data[i][j] - w[i][j])));
        }
    }
}
fn linear(r: &mut Run) {
    let t = 1.0 / 3.0f128;
    let vals: Vec<f128> = if r.thorough { vec![0.0, t, -1.0, 5.0 * t, -0.7] } else { vec![0.0, t, -1.7] };
    let k = vals.len();
    for q in par((k * k * k) as u64, |p, i| {
        let i = i as usize;
        let mut w = mckit::words(k, 6);
        while let Some(v) = w.next() {
            let e: Vec<f128> = [i % k, i / k % k, i / k / k].iter().chain(v.iter()).map(|d| vals[*d]).collect();
            residual(p, [[e[0], e[1], e[2]], [e[3], e[4], e[5]], [e[6], e[7], e[8]]]);
            if let Some(m) = Matrix::new([[e[0], e[1], e[2]], [e[3], e[4], e[5]], [e[6], e[7], e[8]]]).inverse() {
                let d = dm(&mm(&[[e[0], e[1], e[2]], [e[3], e[4], e[5]], [e[6], e[7], e[8]]], &m.data), &ID);
                let x = Matrix::new([[e[0], e[1], e[2]], [e[3], e[4], e[5]], [e[6], e[7], e[8]]]).determinant().abs();
                p.check(x < 1e-6 || d < 1e-28 / x.min(1.0), "inverse3", || format!("3x3 inverse is off by {}", show(d)));
            }
        }
        for a in &vals {
            residual(p, [[vals[i % k], vals[i / k % k]], [vals[i / k / k], *a]]);
        }
    }) {
        r.absorb(q);
    }
    // Hilbert-like matrices up to 6x6 with a dominant diagonal
    let mut p = Part::default();
    for d in 1..12 {
        macro_rules! size { ($n:literal) => { residual::<$n>(&mut p, core::array::from_fn(|i| core::array::from_fn(|j| 1.0 / (1 + i + 2 * j) as f128 + if i == j { d as f128 / 3.0 } else { 0.0 }))) } }
        size!(4);
        size!(5);
        size!(6);
    }
    r.absorb(p);
    r.section("matrices and solvers in f128");
}

fn integrate(r: &mut Run) {
    let mut p = Part::default();
    let xs: Vec<f128> = vec![0.0, 1.0 / 3.0, -2.0 / 7.0, 5.0];
    for &a in &xs {
        for &b in &xs {
            for &c in &xs {
                for dt in [0.1f128, 1.0 / 7.0, 2.0] {
                    p.states += 1;
                    p.traces += 1;
                    p.steps_n(4);
                    let what = || format!("state [{}, {}, {}] dt {}", a as f64, b as f64, c as f64, dt as f64);
                    // x' = y, y' = z, z' = c: exact for the fourth order
                    let v = Vector::new([a, b, c]);
                    let g = v.integrate_rk4(|s: &Vector<f128, 3>| Vector::new([s[1], s[2], b]), dt);
                    let w = [a + b * dt + c * dt * dt / 2.0 + b * dt * dt * dt / 6.0, b + c * dt + b * dt * dt / 2.0, c + b * dt];
                    for i in 0..3 {
                        p.check((g[i] - w[i]).abs() < FINE, "rk4", || format!("{}: component {i} of a cubic motion is off by {}", what(), show(g[i] - w[i])));
                    }
                    let x = Cartesian::<f128, A>::new(a, b, c).integrate_rk4(|s: &Cartesian<f128, A>| Cartesian::new(s[1], s[2], b), dt);
                    for i in 0..3 {
                        p.check((x[i] - w[i]).abs() < FINE, "rk4", || format!("{}: component {i} of a cubic motion (Cartesian) is off by {}", what(), show(x[i] - w[i])));
                    }
                    let t = v.integrate_trapezoidal(&Vector::new([b, c, a]), dt);
                    let e = v.integrate_euler(dt);
                    for (i, (x, y)) in [(a, b), (b, c), (c, a)].into_iter().enumerate() {
                        p.check((t[i] - (x + y) / 2.0 * dt).abs() < FINE && (e[i] - x * dt).abs() < FINE, "steps", || format!("{}: trapezoidal step {} and Euler step {} of component {i}", what(), show(t[i]), show(e[i])));
                    }
                }
            }
        }
    }
    // roots to the width
    for k in 2..40 {
        let a = k as f128;
        p.steps_n(1);
        let g = NewtonRaphson::<f128>::new(1e-31, 200).solve(a, |x| x * x - a, |x| 2.0 * x);
        p.check(g.is_ok_and(|x| (x - a.sqrt()).abs() < 1e-31), "newton", || format!("root of {k}: {:?}", g.map(|x| x as f64)));
    }
    r.absorb(p);
    r.section("integration and roots in f128");
}

// the same attitude space in half precision: right to its 3 digits
fn coarse(r: &mut Run) {
    let n = if r.thorough { 32 } else { 12 };
    let pi = std::f64::consts::PI;
    for q in par(n as u64, |p, i| {
        for j in 0..n {
            for k in 0..n {
                p.states += 1;
                p.traces += 1;
                p.steps_n(4);
                let half = |x: f64| x as f16;
                let roll = half(pi * (2.0 * (i as f64 + 0.37) / n as f64 - 1.0));
                let pitch = half(pi * ((j as f64 + 0.41) / n as f64 - 0.5));
                let yaw = half(pi * (2.0 * (k as f64 + 0.13) / n as f64 - 1.0));
                let what = || format!("f16 roll {} pitch {} yaw {}", roll as f64, pitch as f64, yaw as f64);
                let w = mm(&passive(0, roll as f128), &mm(&passive(1, pitch as f128), &passive(2, yaw as f128)));
                let wide = |d: &Dcm<f16, A, B>| d.as_matrix().data.map(|r| r.map(|x| x as f128));
                let d = Dcm::from(Euler::<f16, A, B>::new(roll, pitch, yaw));
                p.check(dm(&wide(&d), &w) < 0.01, "f16-dcm", || format!("{}: matrix of the Euler angles is off by {}", what(), show(dm(&wide(&d), &w))));
                match Quaternion::<f16, A, B>::try_from(&d) {
                    Ok(g) => {
                        let back = wide(&g.to_dcm());
                        p.check(dm(&back, &w) < 0.03, "f16-quaternion", || format!("{}: quaternion of the matrix, back off by {}", what(), show(dm(&back, &w))));
                        let v = [0.5f16, -2.0, 1.25];
                        let x = g.rotate_vector(Vector::new(v));
                        for a in 0..3 {
                            let y = (0..3).fold(0.0, |s, b| s + w[a][b] * v[b] as f128);
                            p.check((x[a] as f128 - y).abs() < 0.06, "f16-rotate", || format!("{}: component {a} of the rotated vector is off by {}", what(), show(x[a] as f128 - y)));
                        }
                    }
                    Err(_) => {
                        p.fail("f16-quaternion", || format!("{}: no quaternion of the matrix", what()));
                    }
                }
                let e = Euler::<f16, A, B>::from(&d);
                let back = wide(&Dcm::from(e));
                p.check(dm(&back, &w) < 0.1, "f16-euler", || format!("{}: Euler angles of the matrix denote a matrix off by {}", what(), show(dm(&back, &w))));
            }
        }
    }) {
        r.absorb(q);
    }
    r.section("attitude in f16");
}

// rates to the width
fn rates(r: &mut Run) {
    let mut p = Part::default();
    let xs: Vec<f128> = vec![0.0, 1.0 / 3.0, -2.0 / 7.0, 1.1];
    for &a in &xs {
        for &b in &xs {
            for &c in &xs {
                for dt in [0.1f128, -1.0 / 7.0, 2.0] {
                    p.states += 1;
                    p.traces += 1;
                    p.steps_n(2);
                    let what = || format!("rate [{}, {}, {}] over {}", a as f64, b as f64, c as f64, dt as f64);
                    let n = (a * a + b * b + c * c).sqrt();
                    let (s, w) = ((n * dt / 2.0).sin(), (n * dt / 2.0).cos());
                    let u = if n == 0.0 { [0.0; 3] } else { [a / n, b / n, c / n] };
                    let want = [w, u[0] * s, u[1] * s, u[2] * s];
                    let g = Quaternion::<f128, A, A>::from_angular_velocity(Vector::new([a, b, c]), dt);
                    let h = [g.w(), g.i(), g.j(), g.k()];
                    for i in 0..4 {
                        p.check((h[i] - want[i]).abs() < FINE, "rate", || format!("{}: component {i} is off by {}", what(), show(h[i] - want[i])));
                    }
                    // one small step of the series: fourth order
                    let dt = dt * 1e-8;
                    let (s, w) = ((n * dt / 2.0).sin(), (n * dt / 2.0).cos());
                    let want = [w, u[0] * s, u[1] * s, u[2] * s];
                    let g = Quaternion::<f128, A, A>::identity().integrate(Cartesian::new(a, b, c), Cartesian::new(0.0, 0.0, 0.0), dt);
                    let h = [g.w(), g.i(), g.j(), g.k()];
                    for i in 0..4 {
                        p.check((h[i] - want[i]).abs() < 1e-30, "step", || format!("{}: component {i} of a small step is off by {}", what(), show(h[i] - want[i])));
                    }
                }
                // casts of matrices round once, and not at all to the same width
                let m = Matrix::new([[a, b], [c, 1.0 / 3.0f128]]);
                let same = m.cast::<f128>().data == m.data;
                let narrow = m.cast::<f64>().data.iter().flatten().zip(m.data.iter().flatten()).all(|(x, y)| *x == *y as f64) && m.cast::<f32>().data.iter().flatten().zip(m.data.iter().flatten()).all(|(x, y)| *x == *y as f32) && m.cast::<f16>().data.iter().flatten().zip(m.data.iter().flatten()).all(|(x, y)| *x == *y as f16);
                p.check(same && narrow, "matrix-cast", || format!("casts of [[{}, {}], [{}, 1/3]]", a as f64, b as f64, c as f64));
            }
        }
    }
    r.absorb(p);
    r.section("rates and casts in f128");
}

fn m09(r: &mut Run) {
    half(r);
    quad(r);
    coarse(r);
    attitude(r);
    rates(r);
    linear(r);
    integrate(r);
    r.bounds.push("every f16 value and all pairs of 256; every fifth (thorough: every) sign and exponent of f128 with six mantissas, all pairs of 34 values; Euler angles on a 10^3 (24^3) grid; all 3x3 matrices over 3 (5) values".into());
    r.assumptions.push("the f128 functions of the standard library are the reference for f128, those of f64 for f16".into());
}
