//! N01: integrators and Newton's method.
use aether_core::attitude::Euler;
use aether_core::coordinate::Cartesian;
use aether_core::math::Vector;
use aether_core::numerical_methods::integration::*;
use aether_core::numerical_methods::solvers::newton::NewtonRaphson;
use aether_core::real::Real;
use aether_core::reference_frame::{Body, ICRF, NED};
use mckit::*;
use std::cell::RefCell;

type C = Cartesian<f64, ICRF<f64>>;
type E = Euler<f64, Body<f64>, NED<f64>>;
type F3 = fn([f64; 3]) -> [f64; 3];
/// Vector fields on three variables.
const FIELDS: [(&str, F3); 8] = [
    ("zero", |_| [0.0; 3]),
    ("constant", |_| [1.0, -2.0, 0.5]),
    ("decay", |y| [-y[0], -2.0 * y[1], -0.5 * y[2]]),
    ("rotation", |y| [y[1], -y[0], 0.1]),
    ("cubic in time", |y| [1.0, y[0] * y[0] * y[0], -2.0 * y[0] * y[0] + y[0]]),
    ("lorenz", |y| [10.0 * (y[1] - y[0]), y[0] * (28.0 - y[2]) - y[1], y[0] * y[1] - 8.0 / 3.0 * y[2]]),
    ("pendulum", |y| [y[1], -y[0].sin(), y[0] * y[2]]),
    ("coupled", |y| [y[1] * y[2], -y[0] * y[2], 0.3 * y[0] * y[1]]),
];
fn rk4(f: F3, y: [f64; 3], h: f64) -> [f64; 3] {
    let add = |a: [f64; 3], k: [f64; 3], s: f64| [a[0] + k[0] * s, a[1] + k[1] * s, a[2] + k[2] * s];
    let a = f(y);
    let b = f(add(y, a, h * 0.5));
    let c = f(add(y, b, h * 0.5));
    let d = f(add(y, c, h));
    std::array::from_fn(|i| y[i] + h * (a[i] / 6.0 + b[i] / 3.0 + c[i] / 3.0 + d[i] / 6.0))
}
fn close(a: [f64; 3], b: [f64; 3], t: f64) -> bool {
    (0..3).all(|i| (a[i] - b[i]).abs() <= t * (1.0 + b[i].abs()))
}
fn arr(e: &E) -> [f64; 3] {
    [e.data[0], e.data[1], e.data[2]]
}
fn integrators(r: &mut Run) {
    let vals = [0.0, 1.0, -0.5, 2.25];
    let hs: &[f64] = if r.thorough { &[0.0, 1e-3, 0.01, 0.1, 0.5, 1.0, 3.0, -0.1, -1.0, 1e-9, -1e-11] } else { &[0.0, 1e-11, 0.01, 0.1, 1.0, -0.5] };
    let steps = if r.thorough { 8 } else { 3 };
    let mut w = words(4, 3);
    while let Some(k) = w.next() {
        let y0: [f64; 3] = [vals[k[0]], vals[k[1]], vals[k[2]]];
        r.states_distinct(FIELDS.len() as u64 * hs.len() as u64);
        for (name, f) in FIELDS {
            for &h in hs {
                let mut y = y0;
                let mut v = Vector::<f64, 3>::new(y0);
                let mut c = C::new(y0[0], y0[1], y0[2]);
                let mut e = E::new(y0[0], y0[1], y0[2]);
                r.trace();
                for n in 1..=steps {
                    let last = y;
                    y = rk4(f, y, h);
                    if y.iter().any(|x| x.abs() > 1e6) {
                        break;
                    }
                    v = v.integrate_rk4(|s| Vector::new(f(s.data)), h);
                    c = c.integrate_rk4(
                        |s| {
                            let d = f(s.data.data);
                            C::new(d[0], d[1], d[2])
                        },
                        h,
                    );
                    e = e.integrate_rk4(
                        |s| {
                            let d = f(arr(s));
                            E::new(d[0], d[1], d[2])
                        },
                        h,
                    );
                    r.steps(3);
                    let t = 1e-9 * (1.0 + last[0].abs() + last[1].abs() + last[2].abs());
                    r.check(close(v.data, y, t), "rk4-vector", || format!("{name} from {y0:?} step {h} x {n}: {:?}, expected {y:?}", v.data));
                    r.check(close(c.data.data, y, t), "rk4-cartesian", || format!("{name} from {y0:?} step {h} x {n}: {:?}, expected {y:?}", c.data.data));
                    r.check(close(arr(&e), y, t), "rk4-euler", || format!("{name} from {y0:?} step {h} x {n}: {:?}, expected {y:?}", arr(&e)));
                }
                r.outcome(hs_(name, h));
            }
        }
    }
    // tiny steps are steps: from the origin, where they are not lost in the state
    for e in [-30, -60, -200, -700] {
        for sign in [1.0, -1.0] {
            let h = sign * 2f64.powi(e);
            let (mut v, mut c, mut n) = (Vector::<f64, 3>::new([0.0; 3]), C::new(0.0, 0.0, 0.0), E::new(0.0, 0.0, 0.0));
            for k in 1..=4 {
                v = v.integrate_rk4(|_| Vector::new([1.0, -2.0, 0.5]), h);
                c = c.integrate_rk4(|_| C::new(1.0, -2.0, 0.5), h);
                n = n.integrate_rk4(|_| E::new(1.0, -2.0, 0.5), h);
                let w = [1.0, -2.0, 0.5].map(|x| x * h * k as f64);
                let ok = |a: [f64; 3]| (0..3).all(|i| (a[i] / w[i] - 1.0).abs() < 1e-9);
                r.steps(3);
                r.check(ok(v.data) && ok(c.data.data) && ok(arr(&n)), "rk4-tiny", || format!("{k} steps of {h:e}: {v:?} {c:?} {n:?}, expected {w:?}"));
            }
        }
    }
    // fourth order: exact for cubics, error falls with the fifth power of the step
    for &lam in &[-2.0f64, -0.5, 0.7, 1.5] {
        let err = |h: f64| {
            let v = Vector::<f64, 1>::new([1.0]).integrate_rk4(|s| Vector::new([lam * s.data[0]]), h);
            (v.data[0] - (lam * h).exp()).abs()
        };
        for h in [0.4, 0.2, 0.1] {
            let q = (err(h) / err(h / 2.0)).log2();
            r.step();
            r.check(q > 4.5 && q < 5.5, "rk4-order", || format!("rate {lam} step {h}: order of one step {q}"));
        }
    }
    for d in 0..=3 {
        for &h in &[0.1, 1.0, 2.0, -1.5] {
            for &t0 in &[0.0, 1.0, -3.0] {
                let p = |t: f64| (t as f64).powi(d + 1) / (d as f64 + 1.0);
                let v = Vector::<f64, 2>::new([t0, p(t0)]).integrate_rk4(|s| Vector::new([1.0, s.data[0].powi(d)]), h);
                r.step();
                r.check((v.data[0] - t0 - h).abs() < 1e-12 && (v.data[1] - p(t0 + h)).abs() < 1e-9, "rk4-cubics", || format!("degree {d} from {t0} step {h}: {:?} expected {}", v.data, p(t0 + h)));
            }
        }
    }
    // other sizes and the narrow type: a chain of oscillators with a drag and a source
    fn chain<T: Real + Copy + std::fmt::Debug, const N: usize>(r: &mut Run, tol: f64) {
        let field = |y: &[f64; N]| -> [f64; N] { std::array::from_fn(|i| y[(i + 1) % N] * 0.5 - y[i] * y[i] * 0.125 + if i + 1 == N { 1.0 } else { -0.25 * y[(i + N - 1) % N] }) };
        for h in [0.0, 0.01, 0.25, 1.0, -0.5] {
            for s in 0..4usize {
                let mut y: [f64; N] = std::array::from_fn(|i| [0.0, 1.0, -0.5, 0.75, 0.25][(i * (s + 1) + s) % 5]);
                let mut v = Vector::<T, N>::new(y.map(T::from_f64));
                r.trace();
                r.states_distinct(1);
                for n in 1..=20 {
                    let add = |k: &[f64; N], c: f64| -> [f64; N] { std::array::from_fn(|i| y[i] + k[i] * c) };
                    let a = field(&y);
                    let b = field(&add(&a, h * 0.5));
                    let c = field(&add(&b, h * 0.5));
                    let d = field(&add(&c, h));
                    let next: [f64; N] = std::array::from_fn(|i| y[i] + h * (a[i] + 2.0 * b[i] + 2.0 * c[i] + d[i]) / 6.0);
                    if next.iter().any(|x| x.abs() > 20.0) {
                        break;
                    }
                    let from = v;
                    v = v.integrate_rk4(|s| Vector::new(field(&s.data.map(|x| x.to_f64())).map(T::from_f64)), T::from_f64(h));
                    let e = from.integrate_euler(T::from_f64(h));
                    let t = from.integrate_trapezoidal(&v, T::from_f64(h));
                    r.steps(3);
                    let near = |g: &Vector<T, N>, w: &dyn Fn(usize) -> f64, tol: f64| (0..N).all(|i| (g.data[i].to_f64() - w(i)).abs() <= tol * (1.0 + w(i).abs()));
                    r.check(near(&v, &|i| next[i], tol * 10.0 * n as f64), "rk4-size", || format!("{N} variables, start {s} step {h} x {n}: {:?}, expected {next:?}", v.data));
                    r.check(near(&e, &|i| from.data[i].to_f64() * h, tol) && near(&t, &|i| (from.data[i].to_f64() + v.data[i].to_f64()) * 0.5 * h, tol), "quadrature-size", || format!("{N} variables, {:?} and {:?} over {h}: {:?} {:?}", from.data, v.data, e.data, t.data));
                    y = next;
                }
            }
        }
    }
    chain::<f64, 1>(r, 1e-12);
    chain::<f64, 2>(r, 1e-12);
    chain::<f64, 4>(r, 1e-12);
    chain::<f64, 6>(r, 1e-12);
    chain::<f64, 7>(r, 1e-12);
    chain::<f64, 8>(r, 1e-12);
    chain::<f64, 9>(r, 1e-12);
    chain::<f64, 13>(r, 1e-12);
    chain::<f64, 33>(r, 1e-12);
    chain::<f32, 1>(r, 1e-5);
    chain::<f32, 3>(r, 1e-5);
    chain::<f32, 6>(r, 1e-5);
    chain::<f32, 13>(r, 1e-5);
    r.section("Runge-Kutta");
    // rectangle and trapezoid
    let vs = [0.0, 1.5, -2.0, 1e3, 1e-3];
    let mut w = words(5, 4);
    while let Some(k) = w.next() {
        let (a, b): ([f64; 3], [f64; 3]) = ([vs[k[0]], vs[k[1]], vs[k[2]]], [vs[k[3]], vs[k[0]], -vs[k[1]]]);
        for dt in [0.0, 0.1, -0.25, 10.0] {
            r.steps(6);
            let eu: [f64; 3] = a.map(|x| x * dt);
            let tz: [f64; 3] = std::array::from_fn(|i| (a[i] + b[i]) / 2.0 * dt);
            let (va, vb) = (Vector::<f64, 3>::new(a), Vector::<f64, 3>::new(b));
            let (ca, cb) = (C::new(a[0], a[1], a[2]), C::new(b[0], b[1], b[2]));
            let (ea, eb) = (E::new(a[0], a[1], a[2]), E::new(b[0], b[1], b[2]));
            let t = 1e-12;
            r.check(close(va.integrate_euler(dt).data, eu, t) && close(ca.integrate_euler(dt).data.data, eu, t) && close(arr(&ea.integrate_euler(dt)), eu, t), "rectangle", || format!("{a:?} over {dt}"));
            r.check(close(va.integrate_trapezoidal(&vb, dt).data, tz, t) && close(ca.integrate_trapezoidal(&cb, dt).data.data, tz, t) && close(arr(&ea.integrate_trapezoidal(&eb, dt)), tz, t), "trapezoid", || format!("{a:?} {b:?} over {dt}: {:?} {:?} {:?} expected {tz:?}", va.integrate_trapezoidal(&vb, dt).data, ca.integrate_trapezoidal(&cb, dt).data.data, arr(&ea.integrate_trapezoidal(&eb, dt))));
        }
        r.states_distinct(1);
        r.trace();
    }
    r.section("quadrature");
}
fn hs_(n: &str, h: f64) -> u64 {
    hs(&format!("{n}{h}"))
}
fn newton(r: &mut Run) {
    // the environment answers each iterate by a letter: all answer words
    const FV: [f64; 5] = [0.0, 1.0, -2.0, 1e-9, f64::NAN];
    const DV: [f64; 4] = [1.0, -0.5, 0.0, 4.0];
    let depth = if r.thorough { 5 } else { 4 };
    for tol in [1e-6, 1.5] {
        for max in 0..=depth {
            for guess in [0.0, 10.0] {
                let mut w = words(20, max);
                while let Some(k) = w.next() {
                    r.states_distinct(1);
                    r.trace();
                    // expected run
                    let mut want: Result<f64, ()> = Err(());
                    let mut seen: Vec<f64> = vec![];
                    let mut g = guess;
                    for &l in k {
                        let (fv, dv) = (FV[l % 5], DV[l / 5]);
                        seen.push(g);
                        r.step();
                        if dv == 0.0 {
                            break;
                        }
                        let n = g - fv / dv;
                        if (n - g).abs() < tol {
                            want = Ok(n);
                            break;
                        }
                        // an answer is given per iterate: a repeated iterate would be ambiguous
                        g = n;
                    }
                    if seen.iter().enumerate().any(|(i, a)| a.is_nan() || seen[..i].contains(a)) {
                        continue;
                    }
                    let asked = RefCell::new(vec![]);
                    let ix = |x: f64| -> usize {
                        let mut a = asked.borrow_mut();
                        match a.iter().position(|y| *y == x) {
                            Some(i) => i,
                            None => {
                                a.push(x);
                                a.len() - 1
                            }
                        }
                    };
                    let got = NewtonRaphson::new(tol, max).solve(guess, |x: f64| k.get(ix(x)).map(|l| FV[l % 5]).unwrap_or(f64::NAN), |x: f64| k.get(ix(x)).map(|l| DV[l / 5]).unwrap_or(f64::NAN));
                    let same = match (&got, &want) {
                        (Ok(a), Ok(b)) => (a - b).abs() <= 1e-12,
                        (Err(_), Err(_)) => true,
                        _ => false,
                    };
                    r.check(same, "newton-rule", || format!("tolerance {tol}, {max} iterations from {guess}, answers {:?}: {got:?}, expected {want:?}", k.iter().map(|l| (FV[l % 5], DV[l / 5])).collect::<Vec<_>>()));
                    r.outcome(got.is_ok() as u64 * 16 + seen.len() as u64);
                }
            }
        }
    }
    r.section("Newton's rule");
    // convergence to a root
    for i in 1..=60 {
        let a = 0.05 * i as f64 * i as f64;
        for g in [0.1, 1.0, 3.0, 50.0] {
            for tol in [1e-3, 1e-7, 1e-11] {
                r.step();
                let s = NewtonRaphson::new(tol, 60).solve(g, |x: f64| x * x - a, |x: f64| 2.0 * x);
                r.check(matches!(s, Ok(x) if (x - a.sqrt()).abs() <= tol), "newton-root", || format!("square root of {a} from {g} within {tol}: {s:?}"));
                let s = NewtonRaphson::new(tol as f32 * 10.0, 60).solve(g as f32, |x: f32| x * x - a as f32, |x: f32| 2.0 * x);
                if tol > 1e-6 {
                    r.check(matches!(s, Ok(x) if (x as f64 - a.sqrt()).abs() <= tol * 10.0 + 1e-5), "newton-root", || format!("f32 square root of {a} from {g} within {tol}: {s:?}"));
                }
            }
        }
        // a root of multiplicity m halves (or so) per step: many steps are needed, and one too few is an error
        for m in [2, 3, 5] {
            for tol in [1e-3, 1e-6, 1e-9] {
                let (mut g, mut n) = (3.0 + i as f64, 0usize);
                let mut answer = 0.0;
                let q = 1.0 - 1.0 / m as f64;
                while n < 500 {
                    n += 1;
                    let next = g * q;
                    let d: f64 = (next - g as f64).abs();
                    answer = next;
                    if d < tol {
                        break;
                    }
                    g = next;
                }
                for max in [n - 1, n, n + 1, 10_000] {
                    let s = NewtonRaphson::new(tol, max).solve(3.0 + i as f64, |x: f64| x.powi(m), |x: f64| m as f64 * x.powi(m - 1));
                    r.step();
                    let near_edge = (answer / q * (1.0 - q) - tol).abs() < 1e-6 * tol;
                    r.check(near_edge || if max < n { s.is_err() } else { matches!(s, Ok(x) if (x - answer).abs() <= 1e-9 * answer) }, "newton-slow", || format!("x^{m} from {} within {tol} in {max} iterations: {s:?}, expected {answer} after {n}", 3.0 + i as f64));
                }
            }
        }
        // a root of high multiplicity: thousands of steps
        if i % 12 == 0 {
            for m in [300, 1001] {
                let q = 1.0 - 1.0 / m as f64;
                let step = |g: f64| g * q;
                let (mut g, mut n) = (1.0f64, 0usize);
                while n == 0 || (step(g) - g).abs() >= 1e-8 {
                    g = step(g);
                    n += 1;
                }
                for max in [n / 2, 1000, 4096, n + 100, usize::MAX] {
                    // x^m and its derivative at x are given by their ratio
                    let s = NewtonRaphson::new(1e-8, max).solve(1.0, |x: f64| x, |_: f64| m as f64);
                    r.step();
                    let sure = max < n.saturating_sub(2) || max > n + 2;
                    r.check(!sure || s.is_ok_and(|x| (x / g - 1.0).abs() < 1e-2) == (max > n), "newton-long", || format!("a root of multiplicity {m} from 1 within 1e-8 in {max} iterations: {s:?}, {n} are needed"));
                }
            }
        }
        // no real root: never an answer that is not one
        for g in [0.3, 2.0, -7.0] {
            r.step();
            let s = NewtonRaphson::new(1e-9, 100).solve(g, |x: f64| x * x + a, |x: f64| 2.0 * x);
            r.check(s.is_err(), "newton-no-root", || format!("x^2 + {a} from {g}: {s:?}"));
        }
    }
    let _ = <f64 as Real>::ZERO;
    r.section("Newton's roots");
}
pub fn n01(r: &mut Run) {
    r.bounds.push("eight vector fields x states x steps, three state types; a chain of 1 to 33 variables in f64 and f32; multiple roots of up to some 200 iterations; all words of function and derivative answers".into());
    integrators(r);
    newton(r);
}
