//! U01: quantities, SI prefixes and angle conversions.
use aether_core::real::Real;
use aether_core::utils::{ToDegrees, ToRadians};
use aether_units::si::si_base::*;
use aether_units::si::*;
use aether_units::Quantity;
use mckit::*;

fn close(a: f64, b: f64, rel: f64) -> bool {
    a == b || (a - b).abs() <= rel * a.abs().max(b.abs())
}
macro_rules! prefixes {
    ($T:ty, $r:expr, $vals:expr, $eps:expr, $(($ctor:ident, $to_base:ident, $from_base:ident, $Base:ident, $exp:expr),)*) => {{
        // value -> (unit name, power of ten, base family, in base units, and a base value in this unit)
        let mut table: Vec<(&str, i32, &str, Vec<($T, $T)>)> = vec![];
        $({
            let name = stringify!($ctor);
            let k = 10f64.powi($exp);
            let mut col = vec![];
            for &v in $vals {
                let v = v as $T;
                $r.step();
                let q = v.$ctor();
                $r.check(q.raw() == v || (v.is_nan() && q.raw().is_nan()), "constructor", || format!("{v}.{name}() holds {}", q.raw()));
                let b: Quantity<$Base, $T> = q.$to_base();
                let want = v as f64 * k;
                let fits = |x: f64| x == 0.0 || (x.abs() > 1e-36 && x.abs() < 1e38) || std::mem::size_of::<$T>() == 8;
                if fits(want) && fits(k) {
                    $r.check(close(b.raw() as f64, want, $eps), "to-base", || format!("{v} {name} is {} in base units, expected {want}", b.raw()));
                    let back = b.$from_base();
                    $r.check(close(back.raw() as f64, v as f64, 2.0 * $eps), "round-trip", || format!("{v} {name} comes back as {}", back.raw()));
                }
                let f = Quantity::<$Base, $T>::new(v).$from_base();
                let want = v as f64 / k;
                if fits(want) && fits(k) {
                    $r.check(close(f.raw() as f64, want, $eps), "from-base", || format!("base value {v} is {} {name}, expected {want}", f.raw()));
                }
                col.push((b.raw(), f.raw()));
            }
            $r.states_distinct($vals.len() as u64);
            $r.trace();
            $r.outcome(hs(name));
            table.push((name, $exp, stringify!($Base), col));
        })*
        // every pair of units of one family through the base
        for a in &table {
            for b in &table {
                if a.2 != b.2 {
                    continue;
                }
                for (i, &v) in $vals.iter().enumerate() {
                    // v of unit a is x of unit b:  x * 10^eb = v * 10^ea
                    let (x, y) = (a.3[i].0 as f64, b.3[i].0 as f64);
                    if v != 0.0 && x.is_finite() && y.is_finite() && x.abs() > 1e-36 && y.abs() > 1e-36 {
                        $r.step();
                        let want = 10f64.powi(a.1 - b.1);
                        $r.check(close(x / y, want, 3.0 * $eps), "ratio", || format!("{v} {} over {v} {} is {}, expected {want}", a.0, b.0, x / y));
                    }
                }
            }
        }
    }};
}
macro_rules! all_prefixes {
    ($T:ty, $r:expr, $vals:expr, $eps:expr) => {
        prefixes!($T, $r, $vals, $eps,
            (yoctometer, to_meter, to_yoctometer, Meter, -24),
            (zeptometer, to_meter, to_zeptometer, Meter, -21),
            (attometer, to_meter, to_attometer, Meter, -18),
            (femtometer, to_meter, to_femtometer, Meter, -15),
            (picometer, to_meter, to_picometer, Meter, -12),
            (nanometer, to_meter, to_nanometer, Meter, -9),
            (micrometer, to_meter, to_micrometer, Meter, -6),
            (millimeter, to_meter, to_millimeter, Meter, -3),
            (centimeter, to_meter, to_centimeter, Meter, -2),
            (decimeter, to_meter, to_decimeter, Meter, -1),
            (decameter, to_meter, to_decameter, Meter, 1),
            (hectometer, to_meter, to_hectometer, Meter, 2),
            (kilometer, to_meter, to_kilometer, Meter, 3),
            (megameter, to_meter, to_megameter, Meter, 6),
            (gigameter, to_meter, to_gigameter, Meter, 9),
            (terameter, to_meter, to_terameter, Meter, 12),
            (petameter, to_meter, to_petameter, Meter, 15),
            (exameter, to_meter, to_exameter, Meter, 18),
            (zettameter, to_meter, to_zettameter, Meter, 21),
            (yottameter, to_meter, to_yottameter, Meter, 24),
            (yoctosecond, to_second, to_yoctosecond, Second, -24),
            (zeptosecond, to_second, to_zeptosecond, Second, -21),
            (attosecond, to_second, to_attosecond, Second, -18),
            (femtosecond, to_second, to_femtosecond, Second, -15),
            (picosecond, to_second, to_picosecond, Second, -12),
            (nanosecond, to_second, to_nanosecond, Second, -9),
            (microsecond, to_second, to_microsecond, Second, -6),
            (millisecond, to_second, to_millisecond, Second, -3),
            (centisecond, to_second, to_centisecond, Second, -2),
            (decisecond, to_second, to_decisecond, Second, -1),
            (decasecond, to_second, to_decasecond, Second, 1),
            (hectosecond, to_second, to_hectosecond, Second, 2),
            (kilosecond, to_second, to_kilosecond, Second, 3),
            (megasecond, to_second, to_megasecond, Second, 6),
            (gigasecond, to_second, to_gigasecond, Second, 9),
            (terasecond, to_second, to_terasecond, Second, 12),
            (petasecond, to_second, to_petasecond, Second, 15),
            (exasecond, to_second, to_exasecond, Second, 18),
            (zettasecond, to_second, to_zettasecond, Second, 21),
            (yottasecond, to_second, to_yottasecond, Second, 24),
            (yoctogram, to_kilogram, to_yoctogram, Kilogram, -27),
            (zeptogram, to_kilogram, to_zeptogram, Kilogram, -24),
            (attogram, to_kilogram, to_attogram, Kilogram, -21),
            (femtogram, to_kilogram, to_femtogram, Kilogram, -18),
            (picogram, to_kilogram, to_picogram, Kilogram, -15),
            (nanogram, to_kilogram, to_nanogram, Kilogram, -12),
            (microgram, to_kilogram, to_microgram, Kilogram, -9),
            (milligram, to_kilogram, to_milligram, Kilogram, -6),
            (centigram, to_kilogram, to_centigram, Kilogram, -5),
            (decigram, to_kilogram, to_decigram, Kilogram, -4),
            (decagram, to_kilogram, to_decagram, Kilogram, -2),
            (hectogram, to_kilogram, to_hectogram, Kilogram, -1),
            (megagram, to_kilogram, to_megagram, Kilogram, 3),
            (gigagram, to_kilogram, to_gigagram, Kilogram, 6),
            (teragram, to_kilogram, to_teragram, Kilogram, 9),
            (petagram, to_kilogram, to_petagram, Kilogram, 12),
            (exagram, to_kilogram, to_exagram, Kilogram, 15),
            (zettagram, to_kilogram, to_zettagram, Kilogram, 18),
            (yottagram, to_kilogram, to_yottagram, Kilogram, 21),
        )
    };
}
macro_rules! plain {
    ($r:expr, $T:ty, $vals:expr, $($c:ident),*) => {
        $(for &v in $vals {
            let v = v as $T;
            $r.step();
            let q = v.$c();
            $r.check(q.raw() == v, "constructor", || format!("{v}.{}() holds {}", stringify!($c), q.raw()));
        })*
    };
}
fn algebra<T: Real + std::fmt::Display>(r: &mut Run, vals: &[f64]) {
    for &a in vals {
        for &b in vals {
            let (x, y) = (T::from_f64(a), T::from_f64(b));
            let (p, q) = (Quantity::<Meter, T>::new(x), Quantity::<Meter, T>::from(y));
            r.steps(6);
            let same = |u: T, v: T| u == v || (u != u && v != v);
            let ok = same((p + q).raw(), x + y) && same((p - q).raw(), x - y) && same((p * y).raw(), x * y) && same((p / y).raw(), x / y) && same((-p).raw(), -x) && (p == q) == (x == y);
            r.check(ok, "algebra", || format!("{x} m and {y}: sum {} difference {} product {} quotient {} negative {}", (p + q).raw(), (p - q).raw(), (p * y).raw(), (p / y).raw(), (-p).raw()));
        }
    }
}
pub fn u01(r: &mut Run) {
    r.bounds.push("all 59 prefixed units, all pairs of one family, a set of magnitudes, f64 and f32".into());
    let mut vals = vec![0.0, 1.0, -1.0, 2.5, -7.25, 1e-6, 1e6, 123456.0, -1e-3, 0.1, 1e12, -1e-12];
    if r.thorough {
        for i in 0..400 {
            vals.push((if i % 2 == 0 { 1.0 } else { -1.0 }) * (1.0 + 0.37 * i as f64) * 10f64.powi(i % 13 - 6));
        }
    }
    let v = &vals;
    all_prefixes!(f64, r, v, 1e-15 * 8.0);
    all_prefixes!(f32, r, v, 6e-7);
    {
        use aether_units::si::si_prefix as p;
        let table = [(p::YOCTO, -24), (p::ZEPTO, -21), (p::ATTO, -18), (p::FEMTO, -15), (p::PICO, -12), (p::NANO, -9), (p::MICRO, -6), (p::MILLI, -3), (p::CENTI, -2), (p::DECI, -1),
            (p::DECA, 1), (p::HECTO, 2), (p::KILO, 3), (p::MEGA, 6), (p::GIGA, 9), (p::TERA, 12), (p::PETA, 15), (p::EXA, 18), (p::ZETTA, 21), (p::YOTTA, 24)];
        for (f, e) in table {
            r.step();
            r.check((f as f64 / 10f64.powi(e) - 1.0).abs() <= 2e-7, "factor", || format!("the prefix factor for 10^{e} is {f:e}"));
        }
        r.states_distinct(20);
    }
    r.section("prefixes");
    plain!(r, f64, v, m, kg, s, A, K, mol, cd, Hz, N, Pa, J, W, rad, m_per_s, m_per_s2, rad_per_s, rad_per_s2);
    plain!(r, f32, v, m, kg, s, A, K, mol, cd, Hz, N, Pa, J, W, rad, m_per_s, m_per_s2, rad_per_s, rad_per_s2);
    let mut w = vals.clone();
    w.extend([f64::INFINITY, f64::NAN, f64::MAX, f64::MIN_POSITIVE, -0.0]);
    algebra::<f64>(r, &w);
    algebra::<f32>(r, &w);
    r.section("quantities");
    for i in -7200..=7200 {
        let d = i as f64 * if r.thorough { 0.0125 } else { 0.1 };
        let w = d / 180.0 * std::f64::consts::PI;
        r.steps(4);
        let x = ToRadians::to_radians(d);
        let y = ToRadians::to_radians(d as f32) as f64;
        let a = ToRadians::to_radians([d, -d, 2.0 * d]);
        let b = ToDegrees::to_degrees([w, -w, 2.0 * w]);
        let ok = close(x, w, 1e-15) && close(y, w, 2.8e-7) && close(ToDegrees::to_degrees(w), d, 2e-15) && close(ToDegrees::to_degrees(w as f32) as f64, d, 2.8e-7) && a == [x, -x, ToRadians::to_radians(2.0 * d)] && close(b[0], d, 2e-15) && close(b[1], -d, 2e-15) && close(b[2], 2.0 * d, 2e-15);
        r.check(ok, "degrees", || format!("{d} degrees: {x} {y} {a:?}, back {b:?}"));
    }
    fn lists<const N: usize>(r: &mut Run) {
        let d: [f64; N] = core::array::from_fn(|i| i as f64 * 7.25 - 90.0);
        let (a, b) = (ToRadians::to_radians(d), ToDegrees::to_degrees(d));
        let s = d.map(|x| x as f32);
        let (p, q) = (ToRadians::to_radians(s), ToDegrees::to_degrees(s));
        let (c, e) = (ToRadians::to_radians([d, d.map(|x| -x)]), ToDegrees::to_degrees([d, d.map(|x| -x)]));
        let k = std::f64::consts::PI / 180.0;
        let ok = (0..N).all(|i| {
            close(a[i], d[i] * k, 1e-15) && close(b[i], d[i] / k, 1e-15) && close(p[i] as f64, d[i] * k, 5e-7) && close(q[i] as f64, d[i] / k, 5e-7)
                && c[0][i] == a[i] && c[1][i] == -a[i] && e[0][i] == b[i] && e[1][i] == -b[i]
        });
        r.steps(6);
        r.states_distinct(1);
        r.check(ok, "degrees", || format!("{d:?} degrees: {a:?} {p:?} {c:?}, back {b:?} {q:?} {e:?}"));
    }
    lists::<0>(r);
    lists::<1>(r);
    lists::<2>(r);
    lists::<4>(r);
    lists::<9>(r);
    lists::<33>(r);
    lists::<100>(r);
    r.section("angles");
}
