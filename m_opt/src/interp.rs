//! I01: interpolation against exact rational polynomials and spline conditions.
use aether_core::math::Vector;
use aether_interp::*;
use mckit::*;

/// Exact Lagrange value for integer knots at x = xn/8, as f64.
fn lagrange(xs: &[i64], ys: &[i64], xn: i64) -> f64 {
    let mut num = 0i128;
    let mut den = 1i128;
    for i in 0..xs.len() {
        let (mut n, mut d) = (ys[i] as i128, 1i128);
        for j in 0..xs.len() {
            if i != j {
                n *= (xn - 8 * xs[j]) as i128;
                d *= (8 * (xs[i] - xs[j])) as i128;
                let g = gcd(n, d);
                n /= g;
                d /= g;
            }
        }
        let g = gcd(d, den);
        num = num * (d / g) + n * (den / g);
        den *= d / g;
        let g = gcd(num, den);
        num /= g;
        den /= g;
    }
    num as f64 / den as f64
}
fn gcd(a: i128, b: i128) -> i128 {
    let (mut a, mut b) = (a.abs(), b.abs());
    while b != 0 {
        (a, b) = (b, a % b);
    }
    a.max(1)
}

fn poly<const N: usize>(p: &mut Part, xi: &[usize], grid: &[i64], yv: &[i64]) {
    let xs: Vec<i64> = xi.iter().map(|i| grid[*i]).collect();
    let dup = (0..N).any(|i| (0..i).any(|j| xs[i] == xs[j]));
    let mut w = words(yv.len(), N);
    while let Some(y) = w.next() {
        let ys: Vec<i64> = y.iter().map(|i| yv[*i]).collect();
        poly_of::<N>(p, &xs, &ys, dup, -20..=52);
        if dup {
            break;
        }
    }
}
fn poly_of<const N: usize>(p: &mut Part, xs: &[i64], ys: &[i64], dup: bool, over: std::ops::RangeInclusive<i64>) {
        for sc in [1.0, 1e-20, 1e12] {
            let mut a = [0.0; N];
            let mut b = [0.0; N];
            for i in 0..N {
                a[i] = xs[i] as f64 * sc;
                b[i] = ys[i] as f64;
            }
            let q = PolynomialInterpolator::new(Vector::new(a), Vector::new(b));
            p.states += 1;
            p.traces += 1;
            p.step();
            let q = match q {
                Ok(q) => {
                    if !p.check(!dup, "poly-duplicate", || format!("knots {xs:?} accepted")) {
                        break;
                    }
                    q
                }
                Err(e) => {
                    p.check(dup, "poly-refused", || format!("distinct knots {a:?} refused: {e}"));
                    break;
                }
            };
            p.check(q.degree() == N - 1, "poly-degree", || format!("degree {} of {N} samples", q.degree()));
            for i in 0..N {
                p.check(q.evaluate(a[i]) == b[i], "poly-knot", || format!("knots {a:?} values {b:?}: at knot {i} the value is {:e}", q.evaluate(a[i])));
            }
            for xn in over.clone() {
                let x = xn as f64 / 8.0 * sc;
                let (g, e) = (q.evaluate(x), lagrange(xs, ys, xn));
                let mag: f64 = 1.0 + e.abs() + lebesgue(xs, xn) * 5.0;
                p.check((g - e).abs() <= 1e-11 * mag, "poly-value", || format!("knots {a:?} values {b:?}: at {x:e} the value is {g:e}, the polynomial is {e:e}"));
                p.step();
            }
        }
}
fn lebesgue(xs: &[i64], xn: i64) -> f64 {
    (0..xs.len()).map(|i| (0..xs.len()).filter(|j| *j != i).map(|j| (xn - 8 * xs[j]) as f64 / (8 * (xs[i] - xs[j])) as f64).product::<f64>().abs()).sum()
}

fn spline<const N: usize>(p: &mut Part, xs: &[f64], yv: &[f64]) {
    let mut w = words(yv.len(), N);
    while let Some(y) = w.next() {
        if !spline_of::<N>(p, xs, &core::array::from_fn(|i| yv[y[i]])) {
            return;
        }
    }
}
fn spline_of<const N: usize>(p: &mut Part, xs: &[f64], b: &[f64; N]) -> bool {
        let sorted = xs.windows(2).all(|w| w[0] < w[1]);
        let mut a = [0.0; N];
        a.copy_from_slice(xs);
        let (b, yv) = (*b, b);
        p.states += 1;
        p.traces += 1;
        p.step();
        let s = match CubicSpline::new(Vector::new(a), Vector::new(b)) {
            Ok(s) => {
                if !p.check(sorted && N >= 2, "spline-order", || format!("knots {a:?} accepted")) {
                    return false;
                }
                s
            }
            Err(e) => {
                p.check(!sorted || N < 2, "spline-order", || format!("increasing knots {a:?} refused: {e}"));
                return false;
            }
        };
        let scale = 1.0 + yv.iter().fold(0.0f64, |m, v| m.max(v.abs()));
        // the same curve over knots in another unit
        for e in [-46, -120, 60] {
            let u = 2f64.powi(e);
            match CubicSpline::new(Vector::new(a.map(|x| x * u)), Vector::new(b)) {
                Ok(t) => {
                    for k in 0..4 * N - 3 {
                        let x = a[k / 4] + if k % 4 > 0 { (a[k / 4 + 1] - a[k / 4]) * (k % 4) as f64 / 4.0 } else { 0.0 };
                        let (g, w) = (t.evaluate(x * u), s.evaluate(x));
                        p.check((g - w).abs() <= 1e-9 * (scale + w.abs()), "spline-unit", || format!("knots {a:?} * 2^{e} values {b:?}: at {x} * 2^{e} the value is {g:e}, in the plain unit {w:e}"));
                    }
                }
                Err(r) => p.fail("spline-order", || format!("increasing knots {a:?} * 2^{e} refused: {r}")),
            }
        }
        for i in 0..N {
            let g = s.evaluate(a[i]);
            p.check((g - b[i]).abs() <= 1e-12 * scale, "spline-knot", || format!("knots {a:?} values {b:?}: at knot {i} the value is {g:e}"));
        }
        // each piece is one cubic, read off at four interior points and checked at others
        let mut cs = vec![];
        for k in 0..N - 1 {
            let hh = a[k + 1] - a[k];
            let at = |t: f64| s.evaluate(a[k] + hh * t);
            let (f0, f1, f2, f3) = (b[k], at(0.25), at(0.5), at(0.75));
            // cubic c0 + c1 t + c2 t^2 + c3 t^3 through t = 0, 1/4, 1/2, 3/4
            let (d1, d2, d3) = (f1 - f0, f2 - 2.0 * f1 + f0, f3 - 3.0 * f2 + 3.0 * f1 - f0);
            let c3 = d3 / 6.0 * 64.0;
            let c2 = (d2 / 2.0 - d3 / 2.0) * 16.0;
            let c1 = (d1 - d2 / 2.0 + d3 / 3.0) * 4.0;
            let c = [f0, c1 / hh, c2 / hh / hh, c3 / hh / hh / hh];
            for t in [1.0 / 8.0, 3.0 / 8.0, 5.0 / 8.0, 7.0 / 8.0, 1.0] {
                let e = f0 + t * (c1 + t * (c2 + t * c3));
                p.check((at(t) - e).abs() <= 1e-9 * scale * 64.0, "spline-cubic", || format!("knots {a:?} values {b:?}: piece {k} is not one cubic (at {t} of it {:e}, expected {e:e})", at(t)));
                p.step();
            }
            // outside the range the end pieces go on
            for t in [-0.5, -2.0] {
                if k == 0 {
                    let e = f0 + t * (c1 + t * (c2 + t * c3));
                    p.check((at(t) - e).abs() <= 1e-7 * scale * 64.0, "spline-outside", || format!("knots {a:?} values {b:?}: before the range at {t}: {:e}, the first piece gives {e:e}", at(t)));
                }
                if k == N - 2 {
                    let t = 1.0 - t;
                    let e = f0 + t * (c1 + t * (c2 + t * c3));
                    p.check((at(t) - e).abs() <= 1e-7 * scale * 64.0, "spline-outside", || format!("knots {a:?} values {b:?}: after the range at {t}: {:e}, the last piece gives {e:e}", at(t)));
                }
            }
            cs.push((c, hh));
        }
        let hmin = cs.iter().fold(f64::INFINITY, |m, c| m.min(c.1));
        let t1 = 1e-7 * scale / hmin;
        let t2 = 1e-7 * scale / hmin / hmin;
        for k in 0..cs.len() {
            let (c, hh) = cs[k];
            let end1 = c[1] + hh * (2.0 * c[2] + hh * 3.0 * c[3]);
            let end2 = 2.0 * c[2] + 6.0 * hh * c[3];
            if k == 0 {
                p.check(c[2].abs() <= t2, "spline-natural", || format!("knots {a:?} values {b:?}: second derivative {:e} at the left end", 2.0 * c[2]));
            }
            if k + 1 < cs.len() {
                let n = cs[k + 1].0;
                p.check((end1 - n[1]).abs() <= t1, "spline-slope", || format!("knots {a:?} values {b:?}: slope jumps at knot {} from {end1:e} to {:e}", k + 1, n[1]));
                p.check((end2 - 2.0 * n[2]).abs() <= t2, "spline-curvature", || format!("knots {a:?} values {b:?}: second derivative jumps at knot {} from {end2:e} to {:e}", k + 1, 2.0 * n[2]));
            } else {
                p.check(end2.abs() <= t2, "spline-natural", || format!("knots {a:?} values {b:?}: second derivative {end2:e} at the right end"));
            }
        }
        p.check(s.sample_count() == N, "spline-knot", || format!("{} samples counted, {N} given", s.sample_count()));
        true
}

fn linear(r: &mut Run) {
    let vals = [0.0, 1.0, -1.0, 2.5, -1e-3, 3e5, 1e16, -1e16, 1e-18, 2e-18, -4e-17, 1e300, 0.1, 1.0 + f64::EPSILON];
    let ts = [0.0, 1.0, 0.5, 0.25, 0.75, 1e-3, 0.999, -1.0, 2.0, 1.5, 1.0 / 3.0];
    let mut p = Part::default();
    for a in vals {
        for b in vals {
            let m = a.abs().max(b.abs());
            for t in ts {
                let g: f64 = lerp(a, b, t);
                p.states += 1;
                p.step();
                let e = a * (1.0 - t) + b * t;
                p.check((g - e).abs() <= 1e-15 * m * 8.0 * (1.0 + t.abs()), "lerp", || format!("lerp({a:e},{b:e},{t}) = {g:e}, expected {e:e}"));
                let v = lerp(Vector::new([a, b, 0.0]), Vector::new([b, a, 1.0]), t);
                p.check(v[0] == g && v[1] == lerp(b, a, t) && (v[2] - t).abs() < 1e-15, "lerp", || format!("lerp of vectors differs from lerp of their elements: {a:e} {b:e} {t}"));
                if t == 0.0 {
                    p.check(g == a, "lerp-end", || format!("lerp({a:e},{b:e},0) = {g:e}"));
                }
                if t == 1.0 {
                    p.check(g == b, "lerp-end", || format!("lerp({a:e},{b:e},1) = {g:e}"));
                }
                if a == b {
                    p.check((g - a).abs() <= 1e-15 * m, "lerp", || format!("lerp({a:e},{b:e},{t}) = {g:e}"));
                }
                // the inverse finds t again
                if a != b && (b - a).abs() >= 1e-3 * m {
                    let u = inverse_lerp(a, b, g);
                    p.check((u - t).abs() <= 1e-10, "inverse-lerp", || format!("inverse_lerp({a:e},{b:e},{g:e}) = {u}, expected {t}"));
                    for (c, d) in [(0.0, 1.0), (-5.0, 7.0), (3.0, 3.0), (100.0, -100.0)] {
                        let u = remap(g, a, b, c, d);
                        let e = c * (1.0 - t) + d * t;
                        p.check((u - e).abs() <= 1e-8, "remap", || format!("remap({g:e},{a:e},{b:e},{c},{d}) = {u}, expected {e}"));
                    }
                }
            }
            p.traces += 1;
            if a == b {
                p.check(inverse_lerp(a, b, 7.0) == 0.0, "inverse-lerp", || format!("inverse_lerp({a:e},{b:e},7) is {}", inverse_lerp(a, b, 7.0)));
            }
        }
    }
    r.absorb(p);
}

pub fn i01(r: &mut Run) {
    let deep = r.thorough;
    linear(r);
    r.section("linear");
    let grid = [-2i64, -1, 0, 1, 2, 4, 6];
    let yv = [-3i64, 0, 2];
    let jobs = |n: usize| grid.len().pow(n as u32) as u64;
    let idx = |mut i: u64, n: usize| -> Vec<usize> {
        (0..n)
            .map(|_| {
                let d = (i % 7) as usize;
                i /= 7;
                d
            })
            .collect()
    };
    for q in par(jobs(1), |p, i| poly::<1>(p, &idx(i, 1), &grid, &yv)) {
        r.absorb(q);
    }
    for q in par(jobs(2), |p, i| poly::<2>(p, &idx(i, 2), &grid, &yv)) {
        r.absorb(q);
    }
    for q in par(jobs(3), |p, i| poly::<3>(p, &idx(i, 3), &grid, &yv)) {
        r.absorb(q);
    }
    for q in par(jobs(4), |p, i| poly::<4>(p, &idx(i, 4), &grid, if deep { &yv } else { &yv[..2] })) {
        r.absorb(q);
    }
    if deep {
        for q in par(jobs(5), |p, i| poly::<5>(p, &idx(i, 5), &grid, &yv[1..])) {
            r.absorb(q);
        }
    }
    r.section("polynomial");
    // splines: all knot words over gaps, also unordered ones
    let gaps = [1.0, 0.25, 3.0, 0.0, -1.0];
    let yv = [-3.0, 0.0, 2.0];
    macro_rules! sp {
        ($n:literal, $g:expr) => {{
            let k = $g;
            let parts = par((k as u64).pow($n as u32 - 1) * 3, |p, i| {
                let mut x = vec![[0.0, -7.0, 100.0][(i % 3) as usize]];
                let mut c = i / 3;
                for _ in 1..$n {
                    x.push(x[x.len() - 1] + gaps[(c % k as u64) as usize]);
                    c /= k as u64;
                }
                spline::<$n>(p, &x, &yv);
            });
            for q in parts {
                r.absorb(q);
            }
        }};
    }
    sp!(2, 5);
    sp!(3, 5);
    sp!(4, 5);
    sp!(5, 3);
    if deep {
        sp!(6, 3);
        sp!(7, 3);
        sp!(8, 2);
    }
    // many knots: gaps of three patterns, one value at a time off zero
    macro_rules! long {
        ($($n:literal)*) => {$({
            let parts = par($n * 3, |p, i| {
                let (one, g) = ((i / 3) as usize, i % 3);
                let mut x = vec![-4.0];
                for k in 1..$n {
                    x.push(x[k - 1] + match g { 0 => 1.0, 1 => 0.5 + ((k * 7) % 5) as f64, _ => 3.0 / k as f64 });
                }
                spline_of::<$n>(p, &x, &core::array::from_fn(|k| if k == one { 2.0 } else { 0.0 }));
                spline_of::<$n>(p, &x, &core::array::from_fn(|k| ((k * k + one) % 7) as f64 - 3.0));
                // the same knots as a polynomial
                if $n <= 10 {
                    let xs: Vec<i64> = (0..$n).map(|k| k as i64 - 2).collect();
                    let ys: Vec<i64> = (0..$n).map(|k| if g == 0 { (k == one) as i64 * 2 } else { ((k * k + one) % 7) as i64 - 3 }).collect();
                    poly_of::<$n>(p, &xs, &ys, false, -20..=8 * $n);
                }
            });
            for q in parts {
                r.absorb(q);
            }
        })*};
    }
    long!(6 7 8 9 10 12 16 17 24 33 40);
    let mut p = Part::default();
    p.check(CubicSpline::new(Vector::new([1.0]), Vector::new([1.0])).is_err(), "spline-order", || "a single sample was accepted".into());
    p.check(PolynomialInterpolator::<0>::new(Vector::new([]), Vector::new([])).is_err(), "poly-empty", || "no samples were accepted".into());
    for bad in [[f64::NAN, 1.0, 2.0], [0.0, f64::NAN, 2.0], [0.0, 1.0, f64::NAN]] {
        p.states += 1;
        p.step();
        p.check(CubicSpline::new(Vector::new(bad), Vector::new([1.0, 2.0, 3.0])).is_err(), "spline-nan", || format!("knots {bad:?} accepted"));
        p.check(PolynomialInterpolator::new(Vector::new(bad), Vector::new([1.0, 2.0, 3.0])).is_err(), "poly-nan", || format!("knots {bad:?} accepted"));
    }
    // knots as close as numbers get
    for at in [1.0f64, -3.0, 1e6, 1e-30] {
        for gap in 1..=16u64 {
            let near = f64::from_bits(if at > 0.0 { at.to_bits() + gap } else { at.to_bits() - gap });
            let (lo, hi) = (at.min(near), at.max(near));
            let ys = [2.0, -1.0, 5.0];
            for xs in [[lo, hi, hi.abs() * 4.0], [-4.0 * hi.abs(), lo, hi]] {
                p.states += 1;
                p.step();
                let q = PolynomialInterpolator::new(Vector::new(xs), Vector::new(ys));
                p.check(q.is_ok_and(|q| (0..3).all(|i| q.evaluate(xs[i]) == ys[i])), "poly-close", || format!("knots {xs:?} ({gap} units apart)"));
                let s = CubicSpline::new(Vector::new(xs), Vector::new(ys));
                p.check(s.is_ok_and(|s| (0..3).all(|i| (s.evaluate(xs[i]) - ys[i]).abs() < 1e-9)), "spline-close", || format!("knots {xs:?} ({gap} units apart)"));
            }
        }
    }
    r.absorb(p);
    r.section("splines");
    r.sample(|| "e.g. knots at gaps {1, 1/4, 3} from 0, -7 or 100, all value words over {-3, 0, 2}; pieces read off as cubics".into());
    r.bounds.push(format!("polynomials through up to {} knots of {{-2..6}}, at scales 1, 1e-20, 1e12; splines of up to {} knots; splines of 6 to 40 and polynomials of 6 to 10 knots with single and mixed values", if deep { 5 } else { 4 }, if deep { 8 } else { 5 }));
}
