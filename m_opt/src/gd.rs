//! O01: gradient descent, deterministic and stochastic, in a hostile environment.
//!
//! The objective and the gradient are the environment: every answer word over a small
//! alphabet is played (objective answers are remembered per point, so the environment is a
//! function).  The real optimiser is run to the end on each; the recorded iterates are then
//! checked step by step against the documented update, line search, projection and stopping
//! rules.
use aether_core::math::Vector;
use aether_opt::gradient_descent::{GDStochastic, GradientDescentGeneric};
use aether_rand::randomizers::XorShift64Star;
use mckit::*;
use std::cell::RefCell;

fn key<const N: usize>(x: &[f64; N]) -> [u64; N] {
    let mut k = [0; N];
    for i in 0..N {
        k[i] = (x[i] + 0.0).to_bits();
    }
    k
}
/// Objective values per point: a short list, and a table once it is long.
struct Pts<const N: usize>(Vec<([u64; N], f64)>, std::collections::HashMap<[u64; N], f64>);
impl<const N: usize> Pts<N> {
    fn get(&self, k: &[u64; N]) -> Option<f64> {
        if self.0.len() <= 24 { self.0.iter().find(|e| e.0 == *k).map(|e| e.1) } else { self.1.get(k).copied() }
    }
    fn put(&mut self, k: [u64; N], v: f64) {
        self.0.push((k, v));
        if self.0.len() == 25 {
            self.1 = self.0.iter().cloned().collect();
        } else if self.0.len() > 25 {
            self.1.insert(k, v);
        }
    }
}
struct Env<const N: usize> {
    pts: RefCell<Pts<N>>,
    grads: RefCell<Vec<([f64; N], [f64; N])>>,
}
impl<const N: usize> Env<N> {
    fn new() -> Self {
        Env { pts: RefCell::new(Pts(vec![], Default::default())), grads: RefCell::new(vec![]) }
    }
    fn lookup(&self, x: &[f64; N]) -> Option<f64> {
        self.pts.borrow().get(&key(x))
    }
}
fn arr<const N: usize>(v: &Vector<f64, N>) -> [f64; N] {
    let mut a = [0.0; N];
    for i in 0..N {
        a[i] = v[i] + 0.0;
    }
    a
}
fn norm<const N: usize>(v: &[f64; N]) -> f64 {
    v.iter().map(|x| x * x).sum::<f64>().sqrt()
}
fn sub<const N: usize>(a: &[f64; N], b: &[f64; N]) -> [f64; N] {
    let mut o = [0.0; N];
    for i in 0..N {
        o[i] = a[i] - b[i];
    }
    o
}
fn proj<const N: usize>(b: &Option<([f64; N], [f64; N])>, x: [f64; N]) -> [f64; N] {
    let mut o = x;
    if let Some((lo, hi)) = b {
        for i in 0..N {
            o[i] = o[i].max(lo[i]).min(hi[i]);
        }
    }
    o
}
fn close<const N: usize>(a: &[f64; N], b: &[f64; N]) -> bool {
    (0..N).all(|i| a[i] == b[i] || (a[i] - b[i]).abs() <= 1e-12 * (1.0 + b[i].abs()))
}

#[derive(Clone, Debug)]
struct Cfg<const N: usize> {
    lr: f64,
    bt: bool,
    c1: f64,
    tau: f64,
    mu: f64,
    tg: f64,
    ts: f64,
    max: u32,
    bounds: Option<([f64; N], [f64; N])>,
}

/// One run of the deterministic optimiser, checked step by step.
fn run_gd<const N: usize>(
    p: &mut Part,
    c: &Cfg<N>,
    x0: [f64; N],
    fans: &dyn Fn(&[f64; N], usize) -> f64,
    gans: &dyn Fn(&[f64; N], usize) -> [f64; N],
    what: &dyn Fn() -> String,
) -> Option<([f64; N], f64, u32, bool)> {
    let env = Env::<N>::new();
    let mut gd = GradientDescentGeneric::<f64, N>::new();
    gd.backtracking(c.bt).armijo(c.c1, c.tau).learning_rate(c.lr).momentum(c.mu).tolerances(c.tg, c.ts).max_iters(c.max);
    if let Some((a, b)) = c.bounds {
        gd.set_bounds(a, b);
    } else if c.max % 2 == 1 || c.ts == 0.0 {
        gd.set_bounds([7.0; N], [8.0; N]).clear_bounds(); // bounds of an earlier search
    }
    let f = |x: &Vector<f64, N>| {
        let x = arr(x);
        if let Some(v) = env.lookup(&x) {
            return v;
        }
        let n = env.pts.borrow().0.len();
        let v = fans(&x, n);
        env.pts.borrow_mut().put(key(&x), v);
        v
    };
    let g = |x: &Vector<f64, N>| {
        let x = arr(x);
        if let Some((lx, lg)) = env.grads.borrow().last() {
            if key(lx) == key(&x) {
                return Vector::new(*lg);
            }
        }
        let n = env.grads.borrow().len();
        let v = gans(&x, n);
        env.grads.borrow_mut().push((x, v));
        Vector::new(v)
    };
    let (x, fx, it, conv) = gd.minimize(Vector::new(x0), f, g);
    let x = arr(&x);
    let tr = env.grads.borrow();
    p.traces += 1;
    p.outcomes.insert(h(&[it as u8, conv as u8, (tr.len() & 0xff) as u8]) ^ fx.to_bits());
    let case = |k: usize| format!("{c:?} x0={x0:?} {}: at step {k}: iterates {:?} -> returned x={x:?} f={fx:e} iters={it} converged={conv}", what(), &tr[k.saturating_sub(3).min(tr.len())..tr.len().min(k + 6)]);
    // every point the user sees is feasible
    for (px, _) in env.pts.borrow().0.iter() {
        let mut q = [0.0; N];
        for i in 0..N {
            q[i] = f64::from_bits(px[i]);
        }
        p.check(proj(&c.bounds, q) == q, "bounds", || format!("objective evaluated outside the bounds at {q:?}: {}", case(0)));
    }
    p.check(proj(&c.bounds, x) == x, "bounds", || format!("returned point outside the bounds: {}", case(0)));
    p.check(env.lookup(&x).map(|v| v.to_bits()) == Some(fx.to_bits()), "value", || format!("returned value is not the objective at the returned point: {}", case(0)));
    // iterates: the points where the gradient was taken, then the returned point
    let mut xs: Vec<[f64; N]> = tr.iter().map(|e| e.0).collect();
    if c.max == 0 {
        p.check(it == 0 && !conv, "stopping", || case(0));
        p.check(close(&x, &proj(&c.bounds, x0)), "start", || case(0));
        return Some((x, fx, it, conv));
    }
    if !p.check(!xs.is_empty() && xs[0] == proj(&c.bounds, x0), "start", || format!("first iterate is not the start, projected: {}", case(0))) {
        return None;
    }
    let last_g_small = norm(&tr.last().unwrap().1) <= c.tg;
    if !(last_g_small && *xs.last().unwrap() == x) {
        xs.push(x);
    }
    let mut v = [0.0; N];
    for k in 0..xs.len() {
        let small_g = k < tr.len() && norm(&tr[k].1) <= c.tg;
        if small_g {
            p.check(k + 1 == xs.len() && conv && it as usize == k, "stopping", || format!("the gradient is within tolerance but the search did not stop there: {}", case(k)));
            break;
        }
        if k > 0 && norm(&v) <= c.ts {
            p.check(k + 1 == xs.len() && conv && it as usize == k, "stopping", || format!("the step is within tolerance but the search did not stop there: {}", case(k)));
            break;
        }
        if k as u32 == c.max {
            p.check(k + 1 == xs.len() && !conv && it as usize == k, "stopping", || format!("the iteration limit is reached: {}", case(k)));
            break;
        }
        if k + 1 >= xs.len() {
            p.fail("stopping", || format!("stopped with no reason to: {}", case(k)));
            break;
        }
        // one step
        let (cur, g) = (xs[k], tr[k].1);
        let nxt = xs[k + 1];
        p.states += 1;
        p.step();
        if !c.bt {
            let mut e = cur;
            for i in 0..N {
                e[i] = cur[i] - c.lr * g[i] + c.mu * v[i];
            }
            let e = proj(&c.bounds, e);
            if !p.check(close(&nxt, &e), "update", || format!("next iterate is {nxt:?}, the update rule gives {e:?}: {}", case(k))) {
                return None;
            }
        } else {
            let fx_old = env.lookup(&cur).unwrap_or(f64::NAN);
            let f_new = env.lookup(&nxt).unwrap_or(f64::NAN);
            p.check(f_new <= fx_old || nxt == cur, "descent", || format!("the line search moved uphill, {fx_old:e} -> {f_new:e}: {}", case(k)));
            if c.mu == 0.0 {
                // the first step of lr, lr tau, lr tau^2 .. with sufficient decrease is taken
                
                let mut a = c.lr;
                let mut m = 0;
                loop {
                    let mut t = cur;
                    for i in 0..N {
                        t[i] = cur[i] - a * g[i];
                    }
                    let t = proj(&c.bounds, t);
                    let ft = if t == nxt { Some(f_new) } else { env.lookup(&t) };
                    let Some(ft) = ft else {
                        p.fail("line-search", || format!("step {a:e} was never tried although the longer ones fail: {}", case(k)));
                        return None;
                    };
                    // sufficient decrease, and never uphill whatever the constant
                    let rhs = (fx_old + c.c1 * (0..N).map(|i| g[i] * (t[i] - cur[i])).sum::<f64>()).min(fx_old);
                    if ft == rhs || (ft - rhs).abs() <= 1e-13 * (1.0 + rhs.abs()) && t == nxt {
                        break; // on the edge: taken
                    }
                    if ft == rhs || (ft - rhs).abs() <= 1e-13 * (1.0 + rhs.abs()) {
                        a *= c.tau;
                        m += 1;
                        if a < 1e-17 * c.lr.max(1.0) {
                            break;
                        }
                        continue; // on the edge: either way
                    }
                    if ft < rhs {
                        p.check(t == nxt, "line-search", || format!("step {a:e} has sufficient decrease but was not taken (next {nxt:?}): {}", case(k)));
                        break;
                    }
                    a *= c.tau;
                    m += 1;
                    if a < 1e-17 * c.lr.max(1.0) {
                        // given up: stay (almost) where it is
                        let d = sub(&nxt, &cur);
                        p.check(norm(&d) <= 1e-15 * (1.0 + norm(&g)), "line-search", || format!("no step has sufficient decrease, yet the point moved by {:e}: {}", norm(&d), case(k)));
                        break;
                    }
                }
                let _ = m;
            } else if nxt == cur {
                // staying put needs a failed attempt: along gradient and momentum, or along
                // the gradient alone if those together do not descend
                let slope: f64 = (0..N).map(|i| g[i] * (c.mu * v[i] - g[i])).sum();
                let size: f64 = (0..N).map(|i| g[i].abs() * (c.mu * v[i].abs() + g[i].abs())).sum();
                let tried = (0..3).any(|way| {
                    if way == 2 && slope < -1e-12 * size || way < 2 && (slope > 1e-12 * size || slope == 0.0) {
                        return false;
                    }
                    let mut t = cur;
                    for i in 0..N {
                        t[i] += match way {
                            0 => c.lr * (c.mu * v[i] - g[i]),
                            1 => c.mu * v[i] - c.lr * g[i],
                            _ => -c.lr * g[i],
                        };
                    }
                    let t = proj(&c.bounds, t);
                    t == cur || env.pts.borrow().0.iter().any(|e| close(&e.0.map(f64::from_bits), &t))
                });
                p.check(tried, "line-search", || format!("stays at {cur:?} without trying a step down gradient {g:?} (momentum {v:?}): {}", case(k)));
            } else {
                // along the gradient and the momentum; the gradient alone if those would climb
                let slope: f64 = (0..N).map(|i| g[i] * (c.mu * v[i] - g[i])).sum();
                let size: f64 = (0..N).map(|i| g[i].abs() * (c.mu * v[i].abs() + g[i].abs())).sum();
                let mut a = c.lr;
                let mut found = false;
                for _ in 0..200 {
                    for way in 0..3 {
                        if way == 2 && slope < -1e-12 * size {
                            continue;
                        }
                        let mut t = cur;
                        for i in 0..N {
                            t[i] += match way {
                                0 => a * (c.mu * v[i] - g[i]),
                                1 => c.mu * v[i] - a * g[i],
                                _ => -a * g[i],
                            };
                        }
                        found |= close(&nxt, &proj(&c.bounds, t));
                    }
                    a *= c.tau;
                }
                p.check(found, "update", || format!("next iterate {nxt:?} is on no step along gradient {g:?} and momentum {v:?}: {}", case(k)));
            }
        }
        v = sub(&nxt, &cur);
    }
    Some((x, fx, it, conv))
}

fn configs<const N: usize>(deep: bool) -> Vec<Cfg<N>> {
    let mut o = vec![];
    let lo = [-1.0; N];
    let mut hi = [1.5; N];
    hi[0] = 0.5;
    let (mut lo1, mut hi1) = ([f64::NEG_INFINITY; N], [f64::INFINITY; N]);
    hi1[0] = 0.25; // one side of one axis, the other side of the last one
    lo1[N - 1] = -0.5;
    for bounds in [None, Some((lo, hi)), Some(([0.25; N], [0.25; N])), Some((lo1, hi1))] {
        for (bt, c1, tau) in [(false, 1e-4, 0.5), (true, 1e-4, 0.5), (true, 0.5, 0.25), (true, 0.0, 0.5), (true, -0.5, 0.5)] {
            for mu in [0.0, 0.5] {
                for lr in if deep { vec![0.25, 1.0, 2.0, 0.0] } else { vec![0.5, 2.0] } {
                    for (tg, ts) in [(0.0, 0.0), (1.0, 0.0), (0.5, 0.5)] {
                        for max in if deep { vec![0, 1, 3, 6] } else { vec![0, 1, 4] } {
                            o.push(Cfg { lr, bt, c1, tau, mu, tg, ts, max, bounds });
                        }
                    }
                }
            }
        }
    }
    o
}

fn hostile<const N: usize>(r: &mut Run, starts: &[[f64; N]], galpha: &[[f64; N]], falpha: &[f64], gl: usize, fl: usize) {
    let cs = configs::<N>(r.thorough);
    let ng = galpha.len().pow(gl as u32);
    let nf = falpha.len().pow(fl as u32);
    let parts = par((cs.len() * starts.len()) as u64, |p, i| {
        let c = &cs[i as usize / starts.len()];
        let x0 = starts[i as usize % starts.len()];
        for gw in 0..ng {
            for fw in 0..nf {
                if !c.bt && fw != gw % nf {
                    continue; // objective values do not steer a fixed-step search
                }
                let fans = |_: &[f64; N], n: usize| falpha[fw / falpha.len().pow((n % fl) as u32) % falpha.len()];
                let gans = |_: &[f64; N], n: usize| galpha[gw / galpha.len().pow((n % gl) as u32) % galpha.len()];
                run_gd(p, c, x0, &fans, &gans, &|| format!("answers g-word {gw} f-word {fw}"));
            }
        }
    });
    for p in parts {
        r.absorb(p);
    }
}

/// The same search in single precision.
fn smooth32(p: &mut Part, c: &Cfg<2>, a: f64, b: f64, x0: [f64; 2]) {
    if c.mu > 0.0 {
        return;
    }
    let s = |v: [f64; 2]| v.map(|x| x as f32);
    let (a, b) = (a as f32, b as f32);
    let mut gd = GradientDescentGeneric::<f32, 2>::new();
    gd.backtracking(c.bt).armijo(c.c1 as f32, c.tau as f32).learning_rate(c.lr as f32).tolerances(1e-4, 0.0).max_iters(c.max);
    if let Some((lo, hi)) = c.bounds {
        gd.set_bounds(s(lo), s(hi));
    }
    let f = |x: &Vector<f32, 2>| 0.5 * (a * (x[0] - 1.0).powi(2) + b * (x[1] + 0.25).powi(2));
    let g = |x: &Vector<f32, 2>| Vector::new([a * (x[0] - 1.0), b * (x[1] + 0.25)]);
    p.step();
    let (x, fx, it, conv) = gd.minimize(Vector::new(s(x0)), f, g);
    let m = if c.bounds.is_some() { [1.0, -0.5] } else { [1.0, -0.25f32] };
    p.check((x[0] - m[0]).abs() < 2e-3 && (x[1] - m[1]).abs() < 2e-3 && fx == f(&x) && (conv || c.bounds.is_some()), "minimum-f32", || format!("convex quadratic {a},{b} in single precision {c:?} from {x0:?}: stopped at [{}, {}] (f={fx:e}, {it} iterations, converged={conv}), minimum {m:?}", x[0], x[1]));
    // the optimiser keeps nothing from one search to the next
    let y = gd.minimize(Vector::new(s(x0)), f, g);
    p.check(y.0[0].to_bits() == x[0].to_bits() && y.0[1].to_bits() == x[1].to_bits() && y.2 == it, "again", || format!("the same search again: [{}, {}] after {}, first [{}, {}] after {it}", y.0[0], y.0[1], y.2, x[0], x[1]));
}

/// Real objectives: the search must reach the minimum it claims.
fn smooth(r: &mut Run) {
    let mut p = Part::default();
    // settings nobody touched, and settings out of range
    for a in [0.5, 1.0, 8.0] {
        for b in [0.25, 1.0, 3.0] {
            for x0 in [[0.0, 0.0], [3.0, -2.0], [-1.5, 4.0], [1.0, -0.25]] {
                for odd in 0..10 {
                    let mut gd = GradientDescentGeneric::<f64, 2>::new();
                    match odd {
                        1 => drop(gd.armijo(-1.0, 0.5)),
                        2 => drop(gd.armijo(1e-4, 1.5)),
                        3 => drop(gd.armijo(1e-4, 0.0)),
                        4 => drop(gd.momentum(-0.5)),
                        5 => drop(gd.momentum(5.0).backtracking(true)),
                        6 => drop(gd.tolerances(-1.0, -1.0).max_iters(5000)),
                        7 => drop(gd.learning_rate(-1.0)),
                        8 => drop(gd.armijo(1e-4, -0.5)),
                        9 => drop(gd.momentum(0.75).learning_rate(0.05)),
                        _ => (),
                    }
                    let f = |x: &Vector<f64, 2>| 0.5 * (a * (x[0] - 1.0).powi(2) + b * (x[1] + 0.25).powi(2));
                    let g = |x: &Vector<f64, 2>| Vector::new([a * (x[0] - 1.0), b * (x[1] + 0.25)]);
                    let start = f(&Vector::new(x0));
                    p.step();
                    p.traces += 1;
                    let (x, fx, it, conv) = gd.minimize(Vector::new(x0), f, g);
                    let x = arr(&x);
                    let ok = match odd {
                        7 => x == x0, // a rate below zero is none: nothing moves, and never uphill
                        5 => fx <= start,
                        _ => norm(&sub(&x, &[1.0, -0.25])) < 1e-2 && it <= 10_000 && (conv || odd == 6),
                    };
                    p.check(ok && fx.is_finite() && fx == f(&Vector::new(x)), "settings", || format!("quadratic {a},{b} from {x0:?}, setting {odd} (0: as new; 1-9: one of them out of its range): x={x:?} f={fx:e} iters={it} converged={conv}"));
                }
            }
        }
    }
    // a setting out of range is the nearest one in range (or the default factor)
    for bt in [false, true] {
        for x0 in [[0.0, 0.0], [3.0, -2.0], [-1.5, 4.0]] {
            for (n, (u, w)) in [(1.0, 0.999999), (1.5, 0.999999), (1e300, 0.999999), (-1e-9, 0.0), (-3.0, 0.0), (0.0, 0.5), (-2.0, 0.5), (1.0, 0.9), (7.0, 0.9), (-1.0, 0.0), (-1e-300, 0.0), (-0.5, 0.0), (-1e9, 0.0)].into_iter().enumerate() {
                let run = |z: f64| {
                    let mut gd = GradientDescentGeneric::<f64, 2>::new();
                    gd.backtracking(bt).learning_rate(0.4).max_iters(40);
                    match n {
                        0..=4 => drop(gd.momentum(z)),
                        5..=8 => drop(gd.learning_rate(4.0).armijo(0.3, z)),
                        9..=10 => drop(gd.learning_rate(z)),
                        _ => drop(gd.tolerances(z, z)),
                    }
                    let (x, fx, it, c) = gd.minimize(Vector::new(x0), |x: &Vector<f64, 2>| 0.5 * ((x[0] - 1.0).powi(2) + 3.0 * (x[1] + 0.25).powi(2)), |x: &Vector<f64, 2>| Vector::new([x[0] - 1.0, 3.0 * (x[1] + 0.25)]));
                    (arr(&x), fx, it, c)
                };
                let (a, b) = (run(u), run(w));
                p.step();
                p.traces += 1;
                p.check(close(&a.0, &b.0) && a.2 == b.2 && a.3 == b.3, "settings", || format!("setting {n} as {u} gives {a:?}, as {w} {b:?} (line search {bt}, from {x0:?})"));
            }
        }
    }
    let n = if r.thorough { 21 } else { 9 };
    for a in [0.5, 1.0, 2.0] {
        for b in [0.25, 1.0, 1.5] {
            for i in 0..n {
                for j in 0..n {
                    let x0 = [i as f64 - (n / 2) as f64, 0.75 * (j as f64 - (n / 2) as f64)];
                    for (bt, lr, mu) in [(false, 0.25, 0.0), (false, 0.25, 0.5), (true, 1.0, 0.0), (true, 4.0, 0.0), (true, 1.0, 0.5)] {
                        for bounds in [None, Some(([0.5, -3.0], [2.0, -0.5]))] {
                            let c = Cfg { lr, bt, c1: 1e-4, tau: 0.5, mu, tg: 1e-7, ts: 1e-12, max: 4000, bounds };
                            let f = |x: &[f64; 2], _: usize| 0.5 * (a * (x[0] - 1.0).powi(2) + b * (x[1] + 0.25).powi(2));
                            let g = |x: &[f64; 2], _: usize| [a * (x[0] - 1.0), b * (x[1] + 0.25)];
                            let w = format!("quadratic {a},{b}");
                            smooth32(&mut p, &c, a, b, x0);
                            if let Some((x, fx, it, conv)) = run_gd(&mut p, &c, x0, &f, &g, &|| w.clone()) {
                                let m = if bounds.is_some() { [1.0, -0.5] } else { [1.0, -0.25] };
                                p.check(mu > 0.0 || conv && norm(&sub(&x, &m)) < 1e-5, "minimum", || {
                                    format!("convex quadratic {a},{b} {c:?} from {x0:?}: stopped at {x:?} (f={fx:e}, {it} iterations, converged={conv}), minimum {m:?}")
                                });
                            }
                        }
                    }
                }
            }
        }
    }
    r.absorb(p);
}

#[derive(Clone, Debug)]
struct SCfg<const N: usize> {
    lr: f64,
    decay: f64,
    mu: f64,
    bs: u32,
    beta: f64,
    tg: f64,
    ts: f64,
    tf: f64,
    min: u32,
    max: u32,
    bc: bool,
    bounds: Option<([f64; N], [f64; N])>,
    seed: u64,
}
fn run_sgd<const N: usize>(p: &mut Part, c: &SCfg<N>, x0: [f64; N], gal: &[[f64; N]], fal: &[f64], gw: &[usize], fw: &[usize]) {
    let mut s = GDStochastic::<N>::new(c.seed);
    s.learning_rate(c.lr).decay(c.decay).momentum(c.mu).batch_size(c.bs).ema(c.beta).tolerances(c.tg, c.ts).tol_f(c.tf).min_iters(c.min).max_iters(c.max).bias_corrected_ema(c.bc);
    if let Some((a, b)) = c.bounds {
        s.set_bounds(a, b);
    } else if c.max % 2 == 1 || c.ts == 0.0 {
        s.set_bounds([7.0; N], [8.0; N]).clear_bounds();
    }
    let pts: RefCell<Pts<N>> = RefCell::new(Pts(vec![], Default::default()));
    let calls: RefCell<Vec<([f64; N], [f64; N], u64)>> = RefCell::new(vec![]);
    let look = |x: &[f64; N]| pts.borrow().get(&key(x));
    let (x, fx, it, conv) = s.minimize(
        Vector::new(x0),
        |x| {
            let x = arr(x);
            if let Some(v) = look(&x) {
                return v;
            }
            let n = pts.borrow().0.len();
            let v = fal[fw[n % fw.len()]];
            pts.borrow_mut().put(key(&x), v);
            v
        },
        |x, rng: &mut XorShift64Star| {
            let n = calls.borrow().len();
            let g = gal[gw[n % gw.len()]];
            calls.borrow_mut().push((arr(x), g, rng.next_u64()));
            Vector::new(g)
        },
    );
    let x = arr(&x);
    let calls = calls.into_inner();
    p.traces += 1;
    p.outcomes.insert(h(&[it as u8, conv as u8]) ^ x[0].to_bits() ^ fx.to_bits().rotate_left(7));
    let case = |k: usize| format!("{c:?} x0={x0:?} samples {:?}.. values {:?}..: at step {k}: {} samples -> returned x={x:?} f={fx:e} iters={it} converged={conv}", &gw[..gw.len().min(12)], &fw[..fw.len().min(12)], calls.len());
    p.check(proj(&c.bounds, x) == x, "sgd-bounds", || case(0));
    p.check(look(&x).map(|v| v.to_bits()) == Some(fx.to_bits()), "sgd-value", || format!("returned value is not the objective at the returned point: {}", case(0)));
    let mut st = XorShift64Star::new(c.seed);
    for (i, cl) in calls.iter().enumerate() {
        let w = st.next_u64();
        if !p.check(cl.2 == w, "sgd-stream", || format!("sample {i} drew {:#x}, the stream of the seed continues with {w:#x}: {}", cl.2, case(0))) {
            return;
        }
    }
    let bs = c.bs.max(1) as usize;
    if !p.check(calls.len() % bs == 0, "sgd-batch", || format!("{} samples with batches of {bs}: {}", calls.len(), case(0))) {
        return;
    }
    let mut cur = proj(&c.bounds, x0);
    let (mut v, mut ema) = ([0.0; N], 0.0);
    let nb = calls.len() / bs;
    let mut k = 0usize;
    loop {
        if k as u32 == c.max {
            p.check(nb == k && it as usize == k && !conv && close(&x, &cur), "sgd-stopping", || case(k));
            return;
        }
        if k >= nb {
            p.fail("sgd-stopping", || format!("stopped with no reason to: {}", case(k)));
            return;
        }
        let b = &calls[k * bs..(k + 1) * bs];
        if !p.check(b.iter().all(|e| close(&e.0, &cur)), "sgd-batch", || format!("samples of a batch taken elsewhere than at the iterate {cur:?}: {}", case(k))) {
            return;
        }
        cur = b[0].0;
        let mut g = [0.0; N];
        for e in b {
            for i in 0..N {
                g[i] += e.1[i] / bs as f64;
            }
        }
        p.states += 1;
        p.step();
        ema = c.beta * ema + (1.0 - c.beta) * norm(&g);
        let hat = if c.bc { ema / (1.0 - c.beta.powi(k as i32 + 1)) } else { ema };
        let f_cur = look(&cur).unwrap_or(f64::NAN);
        let here = it as usize == k && nb == k + 1 && conv && close(&x, &cur);
        let edge = (hat - c.tg).abs() <= 1e-12 * (1.0 + hat) && hat != 0.0;
        if k as u32 >= c.min && (hat <= c.tg || (c.tf > 0.0 && f_cur <= c.tf)) || edge && here {
            if edge && !here {
                // either way
            } else {
                p.check(here, "sgd-stopping", || format!("a stopping rule is met (mean gradient norm {hat:e}, value {f_cur:e}) but the search did not stop there: {}", case(k)));
                return;
            }
        }
        let al = c.lr / (1.0 + c.decay * k as f64);
        let mut e = cur;
        for i in 0..N {
            e[i] = cur[i] - al * g[i] + c.mu * v[i];
        }
        let e = proj(&c.bounds, e);
        let nxt = if (k + 1) * bs < calls.len() { calls[(k + 1) * bs].0 } else { x };
        if !p.check(close(&nxt, &e), "sgd-update", || format!("next iterate is {nxt:?}, the update rule gives {e:?}: {}", case(k))) {
            return;
        }
        v = sub(&nxt, &cur);
        cur = nxt;
        k += 1;
        if k as u32 > c.min && norm(&v) <= c.ts {
            p.check(nb == k && it as usize == k && conv, "sgd-stopping", || format!("the step is within tolerance: {}", case(k)));
            return;
        }
    }
}
fn stochastic(r: &mut Run) {
    let mut cs = vec![];
    for bounds in [None, Some(([-1.0, -1.0], [0.5, 1.0]))] {
        for (lr, decay) in [(0.5, 0.0), (1.0, 0.5), (0.0, 0.0)] {
            for mu in [0.0, 0.5] {
                for (bs, seed) in [(1, 1), (2, 0), (3, 77)] {
                    for (beta, bc) in [(0.0, true), (0.5, true), (0.5, false)] {
                        for (tg, ts, tf) in [(0.0, 0.0, 0.0), (1.1, 0.0, 0.0), (0.0, 0.6, 0.0), (0.0, 0.0, 0.5)] {
                            for (min, max) in [(0, 3), (2, 4), (0, 0)] {
                                cs.push(SCfg { lr, decay, mu, bs, beta, tg, ts, tf, min, max, bc, bounds, seed });
                            }
                        }
                    }
                }
            }
        }
    }
    let gal = [[1.0, 0.0], [-2.0, 1.0], [0.0, 0.0], [0.5, -3.0]];
    let fal = [-1.0, 0.5, 2.0];
    let (gl, fl) = if r.thorough { (5, 3) } else { (4, 2) };
    let starts = [[0.25, 0.5], [3.0, -4.0]];
    let parts = par((cs.len() * 2) as u64, |p, i| {
        let c = &cs[i as usize / 2];
        let mut w = words(gal.len(), gl);
        while let Some(gw) = w.next() {
            let mut v = words(fal.len(), fl);
            while let Some(fw) = v.next() {
                run_sgd(p, c, starts[i as usize % 2], &gal, &fal, gw, fw);
            }
        }
    });
    for p in parts {
        r.absorb(p);
    }
}

/// Many iterations, many coordinates, large batches, and limits far out.
fn long(r: &mut Run) {
    fn det<const N: usize>(p: &mut Part, max: u32, stop_at: usize) {
        // answers that keep moving, and stop (if they do) at a chosen step
        for (bt, mu) in [(false, 0.0), (false, 0.5), (true, 0.0), (true, 0.5)] {
            for bounds in [None, Some(([-4.0; N], [3.0; N]))] {
                let c = Cfg { lr: 0.25, bt, c1: 1e-4, tau: 0.5, mu, tg: 0.0, ts: 0.0, max, bounds };
                let g = |_: &[f64; N], n: usize| std::array::from_fn(|i| if n >= stop_at { 0.0 } else { [1.0, -0.5, 2.0, -3.0, 0.25][(n * 7 + i * 3 + n / 11) % 5] });
                // the objective follows the search downhill, a little each time it is asked
                let f = |_: &[f64; N], n: usize| if n % 3 == 2 { 1.0 } else { -(n as f64) * 0.5 - if n % 7 == 0 { 4.0 } else { 0.0 } };
                if let Some((_, _, it, conv)) = run_gd(p, &c, std::array::from_fn(|i| 0.5 * i as f64), &f, &g, &|| format!("{N} coordinates, the gradient vanishes at step {stop_at}")) {
                    if bounds.is_none() && !bt {
                        let want = (stop_at as u32).min(max);
                        p.check(it == want && conv == (stop_at < max as usize), "stopping", || format!("{N} coordinates, limit {max}, the gradient vanishes at step {stop_at}: {it} iterations, converged={conv}"));
                    }
                }
            }
        }
    }
    // the slope is in the last coordinate alone, and the step limits are settled by it
    fn last<const N: usize>(p: &mut Part) {
        for (lr, scale) in [(0.25, 1.0), (1e-17, 1e17), (1e-200, 1e200), (1e9, 1e-9)] {
            for (tg, ts) in [(0.0, 0.0), (0.75 * scale, 0.0), (0.0, 0.2)] {
                for mu in [0.0, 0.5] {
                    for bounds in [None, Some(([-4.0; N], [3.0; N]))] {
                        let c = Cfg { lr, bt: false, c1: 1e-4, tau: 0.5, mu, tg, ts, max: 12, bounds };
                        let g = |_: &[f64; N], n: usize| std::array::from_fn(|i| if i + 1 == N { scale * [1.0, -2.0, 1.5, 3.0, 0.625, -1.0][n % 6] } else { 0.0 });
                        run_gd(p, &c, std::array::from_fn(|i| 0.125 * (i % 5) as f64), &|_, n| -(n as f64), &g, &|| format!("{N} coordinates, slope in the last"));
                    }
                }
            }
        }
    }
    fn sto<const N: usize>(p: &mut Part, bs: u32, max: u32, stop_at: usize, deep: bool) {
        for (mu, decay, beta, bc) in [(0.0, 0.0, 0.0, true), (0.5, 0.01, 0.5, true), (0.25, 1.0, 0.9, false)] {
            for bounds in [None, Some(([-4.0; N], [3.0; N]))] {
                for seed in if deep { vec![5u64, 0] } else { vec![5] } {
                    let c = SCfg { lr: 0.5, decay, mu, bs, beta, tg: if beta == 0.0 { 0.0 } else { 1e-9 }, ts: 0.0, tf: 0.0, min: max / 3, max, bc, bounds, seed };
                    let gal: Vec<[f64; N]> = (0..6).map(|k| std::array::from_fn(|i| if k == 5 { 0.0 } else { [1.0, -0.5, 2.0, -3.0, 0.25][(k + i) % 5] })).collect();
                    let n = bs as usize * max as usize;
                    let gw: Vec<usize> = (0..n.max(1)).map(|q| if q >= stop_at.saturating_mul(bs as usize) { 5 } else { (q * 3 + q / 17) % 5 }).collect();
                    run_sgd(p, &c, std::array::from_fn(|i| 0.25 * i as f64), &gal, &[1.0, -2.0, 0.5], &gw, &[0, 1, 2, 1]);
                }
            }
        }
    }
    /// A long memory: the corrected mean of the gradient norm settles the stop late.
    fn memory<const N: usize>(p: &mut Part) {
        for beta in [0.9, 0.98, 0.99, 0.999] {
            for bc in [true, false] {
                for tg in [0.25, 0.6, 1.2, 2.0] {
                    for quiet in [40usize, 100, 300] {
                        let c = SCfg { lr: 0.25, decay: 0.0, mu: 0.0, bs: 1, beta, tg, ts: 0.0, tf: 0.0, min: 5, max: 1500, bc, bounds: None, seed: 9 };
                        // the norm grows slowly from 2.5, then drops to a small level
                        let gal: Vec<[f64; N]> = [2.5, 3.0, -2.75, 0.125, -0.125].iter().map(|x| std::array::from_fn(|i| if i + 1 == N { *x } else { 0.0 })).collect();
                        let gw: Vec<usize> = (0..1500).map(|q| if q < quiet { q % 3 } else { 3 + q % 2 }).collect();
                        run_sgd(p, &c, [0.5; N], &gal, &[1.0, -2.0, 0.5], &gw, &[0, 1, 2, 1]);
                    }
                }
            }
        }
    }
    /// A convex quadratic in many coordinates, both precisions: the least value is found.
    fn bowl<const N: usize>(p: &mut Part) {
        for mu in [0.0, 0.5] {
            for bt in [false, true] {
                let m: [f64; N] = std::array::from_fn(|i| (i as f64 * 0.7).sin() * 3.0);
                let w: [f64; N] = std::array::from_fn(|i| 0.25 + 0.25 * (i % 4) as f64);
                let mut gd = GradientDescentGeneric::<f64, N>::new();
                gd.backtracking(bt).learning_rate(0.75).momentum(mu).tolerances(1e-8, 0.0).max_iters(20000);
                let f = |x: &Vector<f64, N>| (0..N).map(|i| 0.5 * w[i] * (x[i] - m[i]).powi(2)).sum::<f64>();
                let g = |x: &Vector<f64, N>| { let mut o = Vector::new([0.0; N]); for i in 0..N { o[i] = w[i] * (x[i] - m[i]); } o };
                let (x, fx, it, conv) = gd.minimize(Vector::new([1.0; N]), f, g);
                let far = (0..N).map(|i| (x[i] - m[i]).abs()).fold(0.0, f64::max);
                p.traces += 1;
                p.step();
                p.check(conv && far < 1e-6 && fx == f(&x), "minimum", || format!("convex quadratic in {N} coordinates, momentum {mu}, line search {bt}: {far:e} from the minimum after {it} iterations, converged={conv}"));
                // in a box that cuts some of the coordinates
                if mu == 0.0 {
                    gd.set_bounds([-1.0; N], [1.5; N]);
                    let (x, fx, it, _) = gd.minimize(Vector::new([9.0; N]), f, g);
                    let far = (0..N).map(|i| (x[i] - m[i].clamp(-1.0, 1.5)).abs()).fold(0.0, f64::max);
                    p.check(far < 1e-6 && fx == f(&x), "minimum", || format!("convex quadratic in {N} coordinates in a box, line search {bt}: {far:e} from the minimum after {it} iterations"));
                }
                let mut gs = GradientDescentGeneric::<f32, N>::new();
                gs.backtracking(bt).learning_rate(0.75).momentum(mu as f32).tolerances(1e-3, 0.0).max_iters(20000);
                let g32 = |x: &Vector<f32, N>| { let mut o = Vector::new([0.0f32; N]); for i in 0..N { o[i] = w[i] as f32 * (x[i] - m[i] as f32); } o };
                let f32_ = |x: &Vector<f32, N>| (0..N).map(|i| 0.5 * w[i] as f32 * (x[i] - m[i] as f32).powi(2)).sum::<f32>();
                let (x, _, it, _) = gs.minimize(Vector::new([1.0f32; N]), f32_, g32);
                let far = (0..N).map(|i| (x[i] as f64 - m[i]).abs()).fold(0.0, f64::max);
                p.check(far < 0.05, "minimum-f32", || format!("convex quadratic in {N} coordinates, single precision, momentum {mu}, line search {bt}: {far:e} from the minimum after {it} iterations"));
            }
        }
    }
    let deep = r.thorough;
    let none = usize::MAX;
    for p in par(11, |p, i| match i {
        0 => det::<1>(p, 66_000, none),
        1 => {
            det::<1>(p, 70_000, 65_537);
            det::<2>(p, 2_000, 1_001);
        }
        2 => {
            det::<5>(p, 1_500, none);
            det::<5>(p, 300, 257);
            det::<16>(p, 300, 256);
        }
        3 => sto::<2>(p, 1, 66_000, none, deep),
        4 => sto::<1>(p, 2, 70_000, 65_536, deep),
        5 => {
            sto::<5>(p, 3, 1_500, none, deep);
            sto::<12>(p, 4, 600, 257, deep);
        }
        6 => {
            for bs in [31, 32, 33, 255, 256, 257, 1000] {
                sto::<2>(p, bs, 4, none, deep);
            }
        }
        7 => {
            sto::<1>(p, 65_537, 2, none, deep);
            sto::<3>(p, 4_096, 3, 2, deep);
        }
        8 => {
            last::<1>(p);
            last::<9>(p);
            last::<17>(p);
            last::<33>(p);
        }
        9 => {
            memory::<1>(p);
            memory::<12>(p);
        }
        _ => {
            bowl::<1>(p);
            bowl::<3>(p);
            bowl::<7>(p);
            bowl::<16>(p);
            bowl::<40>(p);
        }
    }) {
        r.absorb(p);
    }
    r.section("long runs, many coordinates, large batches");
}
pub fn o01(r: &mut Run) {
    let (gl, fl) = if r.thorough { (4, 4) } else { (3, 3) };
    let fa = [0.0, 1.0, -1.0, 0.25];
    hostile::<1>(r, &[[0.0], [0.75], [-3.0]], &[[-2.0], [0.5], [0.0], [1.0]], &fa, gl, fl);
    r.section("line search, one dimension");
    hostile::<2>(r, &[[0.5, -0.5], [4.0, 0.0]], &[[1.0, -1.0], [0.0, 0.0], [-0.5, 0.25], [0.0, 2.0]], &fa, gl, fl);
    r.section("line search, two dimensions");
    // objectives that overflow or are undefined in places
    hostile::<1>(r, &[[0.0], [0.75]], &[[-2.0], [0.5]], &[0.0, f64::NAN, -1.0, f64::INFINITY, 1.0], 2, 3);
    r.section("objectives with undefined and infinite values");
    smooth(r);
    r.section("convex quadratics");
    stochastic(r);
    r.section("stochastic");
    long(r);
    r.sample(|| "e.g. 1-D, backtracking, every answer word of the gradient over {-2, 0.5, 0, 1} and of the objective over {0, 1, -1, 0.25}".into());
    r.bounds.push(format!("all gradient answer words of length {gl} x all objective answer words of length {fl} (then repeated), per configuration and start"));
    r.assumptions.push("step sizes, shrink factors and answers are dyadic, so the line-search points are exact; comparisons on the edge of a stopping rule are accepted either way".into());
}
