//! M06: the real-number trait, in the default build without the standard library and in the one with it.
use aether_core::real::{Real, real::RealCast};
use mckit::*;

macro_rules! width {
    ($name:ident, $T:ty, $Bits:ty, $to:ident, $low:expr, $mant:expr, $eps:expr) => {
        fn $name(r: &mut Run) {
            type T = $T;
            let same = |a: T, b: T| a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan());
            // relative agreement, with room for the smallest numbers and for the edge of overflow
            let near = |a: T, b: T, ulps: f64| {
                let (x, y) = (a as f64, b as f64);
                same(a, b) || x == y || (x - y).abs() <= ulps * $eps * x.abs().max(y.abs()) + T::MIN_POSITIVE as f64 * 1e-3 || (x.abs().max(y.abs()) > T::MAX as f64 * (1.0 - 1e-3) && x.abs().min(y.abs()) > T::MAX as f64 * 0.99)
            };
            let exact: [(&str, fn(T) -> T, fn(T) -> T); 8] = [
                ("abs", <T as Real>::abs, |x| x.abs()),
                ("signum", <T as Real>::signum, |x| x.signum()),
                ("floor", <T as Real>::floor, |x| x.floor()),
                ("ceil", <T as Real>::ceil, |x| x.ceil()),
                ("round", <T as Real>::round, |x| x.round()),
                ("trunc", <T as Real>::trunc, |x| x.trunc()),
                ("fract", <T as Real>::fract, |x| x.fract()),
                ("sqrt", <T as Real>::sqrt, |x| x.sqrt()),
            ];
            let close: [(&str, fn(T) -> T, fn(T) -> T); 13] = [
                ("sin", <T as Real>::sin, |x| <$T>::sin(x)),
                ("cos", <T as Real>::cos, |x| <$T>::cos(x)),
                ("tan", <T as Real>::tan, |x| <$T>::tan(x)),
                ("asin", <T as Real>::asin, |x| <$T>::asin(x)),
                ("acos", <T as Real>::acos, |x| <$T>::acos(x)),
                ("atan", <T as Real>::atan, |x| <$T>::atan(x)),
                ("exp", <T as Real>::exp, |x| <$T>::exp(x)),
                ("exp2", <T as Real>::exp2, |x| <$T>::exp2(x)),
                ("ln", <T as Real>::ln, |x| <$T>::ln(x)),
                ("log2", <T as Real>::log2, |x| <$T>::log2(x)),
                ("log10", <T as Real>::log10, |x| <$T>::log10(x)),
                ("to_degrees", <T as Real>::to_degrees, |x| <$T>::to_degrees(x)),
                ("to_radians", <T as Real>::to_radians, |x| <$T>::to_radians(x)),
            ];
            let ty = stringify!($T);
            let mut each = |p: &mut Part, x: T| {
                for (n, a, b) in exact {
                    let (g, w) = (a(x), b(x));
                    p.steps_n(1);
                    p.check(same(g, w), "exact", || format!("{n}({x:?}) of {ty} is {g:?}, expected {w:?}"));
                }
                for (n, a, b) in close {
                    let (g, w) = (a(x), b(x));
                    p.steps_n(1);
                    p.check(near(g, w, 8.0), "close", || format!("{n}({x:?}) of {ty} is {g:?}, expected {w:?}"));
                }
                p.states += 1;
                p.traces += 1;
            };
            let mant: u64 = $mant(r.thorough);
            let mut all = Part::default();
            // every sign and exponent with a set of mantissas
            let top = (1u64 << (<$Bits>::BITS - $low)) as u64;
            for e in 0..top {
                for m in 0..mant {
                    // leading bits, and the ends of the mantissa range
                    let low = match m {
                        0 => 0,
                        1 => 1,
                        2 => (1u64 << $low) - 1,
                        k => ((1u64 << $low) / mant) * k + k % 3,
                    };
                    each(&mut all, <$T>::from_bits(((e << $low) | low) as $Bits));
                }
            }
            r.absorb(all);
            let mut all = Part::default();
            for i in -4000i32..=4000 {
                each(&mut all, i as T / 8.0);
                each(&mut all, i as T / 8.0 * (1.0 + T::EPSILON));
                each(&mut all, i as T * (std::f64::consts::PI / 64.0) as T);
            }
            let vals: Vec<T> = vec![0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 2.0, -2.0, 3.0, -3.0, 0.1, -0.1, 1.5, 7.0, -7.0, 10.0, 1e3, -1e3, 1e-3, -1e-3, 1e10, -1e10, 1e-10, 1e30, -1e30, 1e-30, 1.0 + T::EPSILON, 1.0 - T::EPSILON, -1.0 - T::EPSILON, T::MAX, T::MIN, T::MIN_POSITIVE, -T::MIN_POSITIVE, T::MIN_POSITIVE / 4.0, T::INFINITY, T::NEG_INFINITY, T::NAN, std::f64::consts::PI as T, -std::f64::consts::E as T, 0.25, 1.0 / 3.0, -2.0 / 3.0, 100.5, 16777216.0, -16777217.0, 4.5e15, 9.007199254740993e15 as T];
            for &a in &vals {
                for &b in &vals {
                    let p = &mut all;
                    p.steps_n(5);
                    p.states += 1;
                    p.traces += 1;
                    let say = |n: &str, g: T, w: T| format!("{n}({a:?}, {b:?}) of {ty} is {g:?}, expected {w:?}");
                    let (g, w) = (<T as Real>::copysign(a, b), <$T>::copysign(a, b));
                    p.check(same(g, w), "exact2", || say("copysign", g, w));
                    // the sign of a zero result is not fixed
                    let (g, w) = (<T as Real>::min(a, b), <$T>::min(a, b));
                    p.check(g == w || same(g, w), "exact2", || say("min", g, w));
                    let (g, w) = (<T as Real>::max(a, b), <$T>::max(a, b));
                    p.check(g == w || same(g, w), "exact2", || say("max", g, w));
                    let (g, w) = (<T as Real>::atan2(a, b), <$T>::atan2(a, b));
                    p.check(near(g, w, 8.0), "atan2", || say("atan2", g, w));
                    let (g, w) = (<T as Real>::powf(a, b), <$T>::powf(a, b));
                    p.check(near(g, w, 8.0), "powf", || say("powf", g, w));
                }
                for n in (-40..=40).chain([100, 101, -101, 1000, -1001, 65535, 16777216, 16777217, -16777217, 33554433, i32::MAX, i32::MIN, i32::MIN + 1]) {
                    let (g, w) = (<T as Real>::powi(a, n), <$T>::powi(a, n));
                    all.steps_n(1);
                    // repeated multiplication on one side: the error may grow with the exponent
                    let slack = 4.0 + 2.0 * (n as f64).abs();
                    let odd = (slack * $eps) > 0.1;
                    let ok = if odd { g.is_nan() == w.is_nan() && (g.is_nan() || g.is_sign_negative() == w.is_sign_negative()) } else { near(g, w, slack) || (g.abs().max(w.abs()) < T::MIN_POSITIVE && g.is_sign_negative() == w.is_sign_negative()) };
                    all.check(ok, "powi", || format!("powi({a:?}, {n}) of {ty} is {g:?}, expected {w:?}"));
                }
                all.outcomes.insert(h(&a.to_le_bytes()));
            }
            r.absorb(all);
            let c = [(<T as Real>::ZERO, 0.0), (<T as Real>::ONE, 1.0), (<T as Real>::PI, $to::PI), (<T as Real>::FRAC_PI_2, $to::FRAC_PI_2), (<T as Real>::EPSILON, <$T>::EPSILON), (<T as Real>::INFINITY, <$T>::INFINITY), (<T as Real>::NEG_INFINITY, <$T>::NEG_INFINITY)];
            for (g, w) in c {
                r.check(same(g, w), "constant", || format!("{g:?}, expected {w:?}"));
            }
            r.section(concat!("functions of ", stringify!($T)));
        }
    };
}
use std::f32::consts as c32;
use std::f64::consts as c64;
width!(f32s, f32, u32, c32, 23, |t: bool| if t { 4096 } else { 64 }, 1.2e-7);
width!(f64s, f64, u64, c64, 52, |t: bool| if t { 512 } else { 16 }, 2.3e-16);

/// Conversions between numbers are those of the language.
fn casts(r: &mut Run) {
    let mut p = Part::default();
    let vals = [0.0, -0.0, 1.0, -1.5, 0.1, -1.0 / 3.0, 1e-30, 16777217.0, -33554433.0, 1e10, 1e38, 3.5e38, -1e39, 1e-40, 1e-46, 1e300, 5e-324, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, std::f64::consts::PI, 4294967295.0, 9.007199254740993e15];
    for e in -320..=308 {
        for m in vals.iter().take(6).chain(&vals[20..21]) {
            cast(&mut p, m * 10f64.powi(e));
        }
    }
    vals.iter().for_each(|x| cast(&mut p, *x));
    let ints = (0..64).flat_map(|b| [1u64 << b, (1u64 << b) - 1, (1u64 << b) + 1, (1u64 << b) | (1u64 << (b / 2)), !0u64 >> b]);
    for n in ints.chain(0..2000) {
        p.steps_n(4);
        p.states += 1;
        p.traces += 1;
        let (u, s) = (n as u32, n as usize);
        p.check(<f32 as RealCast>::from_u32(u).to_bits() == (u as f32).to_bits() && <f64 as RealCast>::from_u32(u).to_bits() == (u as f64).to_bits(), "cast-u32", || format!("{u} becomes {:?} and {:?}", <f32 as RealCast>::from_u32(u), <f64 as RealCast>::from_u32(u)));
        p.check(<f32 as RealCast>::from_usize(s).to_bits() == (s as f32).to_bits() && <f64 as RealCast>::from_usize(s).to_bits() == (s as f64).to_bits(), "cast-usize", || format!("{s} becomes {:?} and {:?}", <f32 as RealCast>::from_usize(s), <f64 as RealCast>::from_usize(s)));
    }
    r.absorb(p);
    r.section("conversions");
}
fn cast(p: &mut Part, x: f64) {
    let s = x as f32;
    let a = |g: f32, w: f32| g.to_bits() == w.to_bits() || (g.is_nan() && w.is_nan());
    let b = |g: f64, w: f64| g.to_bits() == w.to_bits() || (g.is_nan() && w.is_nan());
    p.steps_n(8);
    p.states += 1;
    p.traces += 1;
    let ok = a(<f32 as RealCast>::from_f64(x), s) && a(RealCast::to_f32(x), s) && a(<f32 as RealCast>::from_f32(s), s) && a(RealCast::to_f32(s), s) && b(<f64 as RealCast>::from_f64(x), x) && b(RealCast::to_f64(x), x) && b(<f64 as RealCast>::from_f32(s), s as f64) && b(RealCast::to_f64(s), s as f64);
    p.check(ok, "cast", || format!("conversions of {x:?} and {s:?}"));
}

pub fn functions(r: &mut Run) {
    f32s(r);
    f64s(r);
    casts(r);
    r.bounds.push("every sign and exponent with 64 (quick) / 4096 mantissas f32 and 16 / 512 f64, 24 thousand points over [-500, 500], all pairs of 47 values, in both builds".into());
    r.assumptions.push("the standard library functions of this machine are the reference, transcendental ones to 8 units in the last place".into());
}
