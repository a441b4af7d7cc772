//! L01, continued: one step of every learner, by epoch and by optimiser, for other numbers of
//! features, for f32, and for larger data sets.
use aether_core::math::Vector;
use aether_core::real::Real;
use aether_ml::classification::lda_qda::{Lda, Qda};
use aether_ml::classification::naive_bayes::GaussianNB;
use aether_ml::classification::perceptron::Perceptron;
use aether_ml::classification::svm::LinearSvm;
use aether_ml::regression::linear::LinearRegression;
use aether_ml::regression::logistic::LogisticRegression;
use aether_ml::regression::ridge::RidgeRegression;
use aether_opt::gradient_descent::GradientDescentGeneric;
use mckit::*;

const POOL: [f64; 8] = [0.0, 1.0, -2.0, 0.5, 3.0, -1.25, 0.1, -0.7];
/// The `k`-th point: its digits over the pool.
fn point<const N: usize>(k: usize) -> [f64; N] {
    std::array::from_fn(|i| POOL[(k + 3 * i + k * i) % 8])
}

fn one<F: Real + Copy + std::fmt::Display, const N: usize, const M: usize>(p: &mut Part, kind: &str, word: &[usize], state: usize) {
    let f = |x: f64| F::from_f64(x);
    let tol = if kind.starts_with("f32") { 2e-5 } else { 1e-10 };
    let pts: Vec<[f64; N]> = word.iter().map(|k| point::<N>(*k / 3).map(|x| f(x).to_f64())).collect();
    let xs: Vec<Vector<F, N>> = pts.iter().map(|x| Vector::new(x.map(f))).collect();
    let ys: Vec<f64> = word.iter().map(|k| [-1.0, 0.25, 2.5][k % 3]).collect();
    let y: Vec<F> = ys.iter().map(|v| f(*v)).collect();
    let y8: Vec<u8> = word.iter().map(|k| (k % 3 > 0) as u8).collect();
    let yi: Vec<i8> = word.iter().map(|k| [-1, 1, 1][k % 3]).collect();
    let (w0, b0, lr): ([f64; N], f64, f64) = match state {
        0 => ([0.0; N], 0.0, 0.125),
        1 => (std::array::from_fn(|i| [1.0, -0.5, 0.25, 2.0, -1.5][i % 5]), 0.25, 1.0),
        3 => (std::array::from_fn(|i| [24.0, -16.0, 8.0, -40.0, 12.0][i % 5]), -20.0, 0.25),
        _ => (std::array::from_fn(|i| [-0.375, 0.75, 1.25, -0.5, 0.625][i % 5]), -1.0, 0.0625),
    };
    let (w0f, b0f, lrf) = (Vector::new(w0.map(f)), f(b0), f(lr));
    let n = word.len();
    let m = n as f64;
    let sc = |x: &[f64; N]| (0..N).fold(b0, |s, i| s + w0[i] * x[i]);
    let mean = |e: &dyn Fn(usize) -> f64| -> Vec<f64> {
        let mut g = vec![0.0; N + 1];
        for i in 0..n {
            let e = e(i);
            for k in 0..N {
                g[k] += e * pts[i][k] / m;
            }
            g[N] += e / m;
        }
        g
    };
    let decay = |mut g: Vec<f64>, c: f64| {
        if n > 0 {
            for k in 0..N {
                g[k] += c * w0[k];
            }
        }
        g
    };
    let mut judge = |name: &str, w: &Vector<F, N>, b: F, lr: f64, g: &[f64]| {
        p.states += 1;
        p.traces += 1;
        p.step();
        let scale = 1.0 + g.iter().map(|x| x.abs()).fold(0.0, f64::max);
        let ok = (0..=N).all(|k| {
            let (got, from) = if k < N { (w[k].to_f64(), w0[k]) } else { (b.to_f64(), b0) };
            (got - (from - lr * g[k])).abs() <= tol * scale
        });
        p.check(ok, "step", || {
            let want: Vec<f64> = (0..=N).map(|k| (if k < N { w0[k] } else { b0 }) - lr * g[k]).collect();
            format!("{name}, {kind}, {N} features, points {pts:?} targets {ys:?} from w={w0:?} b={b0} lr={lr}: w={:?} b={b}, expected {want:?}", w.data.map(|x| x.to_f64()))
        });
    };
    let opt = |iters: u32| {
        let mut o = GradientDescentGeneric::<F, M>::new();
        o.learning_rate(lrf).backtracking(false).momentum(f(0.0)).tolerances(f(0.0), f(0.0)).max_iters(iters);
        o
    };
    let zero = vec![0.0; N + 1];
    // the step a search must take, unless a comparison on the way is too close to call
    let searched = |start: f64, loss: &dyn Fn(&[f64]) -> f64, g: &[f64]| -> Option<f64> {
        let p0: Vec<f64> = (0..=N).map(|k| if k < N { w0[k] } else { b0 }).collect();
        let gg: f64 = g.iter().map(|x| x * x).sum();
        let (f0, mut step) = (loss(&p0), start);
        for _ in 0..40 {
            let at: Vec<f64> = p0.iter().zip(g).map(|(p, g)| p - step * g).collect();
            let (v, bar) = (loss(&at), f0 - 0.25 * step * gg);
            if !v.is_finite() || !((v - bar).abs() > 1e3 * tol * (1.0 + v.abs() + f0.abs())) {
                return None;
            }
            if v < bar {
                return Some(step);
            }
            step *= 0.5;
        }
        None
    };
    let total = |pv: &[f64], i: usize| (0..N).fold(pv[N], |s, k| s + pv[k] * pts[i][k]);
    let average = |e: &dyn Fn(usize) -> f64| (0..n).map(e).sum::<f64>() / m;
    let square = |pv: &[f64]| (0..N).map(|k| pv[k] * pv[k]).sum::<f64>();
    macro_rules! learner {
        ($name:literal, $t:ident { $($k:ident : $v:expr),* }, $y:expr, $epoch:expr, $fit:expr, $kink:expr, $loss:expr) => {{
            let new = || $t::<F, N> { weights: w0f, bias: b0f, lr: lrf $(, $k: $v)* };
            let mut o = new();
            o.fit_with_optimizer(&xs, $y, opt(0));
            judge(concat!($name, " without a step"), &o.weights, o.bias, 0.0, &zero);
            let kinks: bool = $kink;
            if !kinks {
                let mut o = new();
                o.fit_with_optimizer(&xs, $y, opt(1));
                let g: Vec<f64> = $fit;
                judge(concat!($name, " step of the optimiser"), &o.weights, o.bias, lr, &g);
                // a searched step is the first of lr, lr/2, lr/4, ... that lowers the loss enough
                for start in [lr, 64.0 * lr] {
                    if let Some(step) = searched(start, &$loss, &g) {
                        let mut o = new();
                        let mut search = GradientDescentGeneric::<F, M>::new();
                        search.learning_rate(f(start)).backtracking(true).armijo(f(0.25), f(0.5)).momentum(f(0.0)).tolerances(f(0.0), f(0.0)).max_iters(1);
                        o.fit_with_optimizer(&xs, $y, search);
                        judge(concat!($name, " searched step"), &o.weights, o.bias, step, &g);
                    }
                }
            }
            if let Some(g) = $epoch {
                let mut o = new();
                o.train_epoch(&xs, $y);
                let g: Vec<f64> = g;
                judge(concat!($name, " epoch"), &o.weights, o.bias, lr, &g);
            }
        }};
    }
    let se = mean(&|i| 2.0 * (sc(&pts[i]) - ys[i]));
    let sq = |pv: &[f64]| average(&|i| (total(pv, i) - ys[i]).powi(2));
    learner!("linear", LinearRegression {}, &y, Some(se.clone()), se.clone(), false, sq);
    for a in [0.0, 0.75] {
        let g = decay(se.clone(), 2.0 * a);
        learner!("ridge", RidgeRegression { alpha: f(a) }, &y, Some(g.clone()), g.clone(), false, |pv: &[f64]| sq(pv) + a * square(pv));
    }
    let ce = mean(&|i| 1.0 / (1.0 + (-sc(&pts[i])).exp()) - y8[i] as f64);
    learner!("logistic", LogisticRegression {}, &y8, Some(ce.clone()), ce.clone(), false, |pv: &[f64]| average(&|i| {
        let s = total(pv, i);
        // probabilities within rounding of 0 and 1 are cut off, where the loss is no longer its formula
        if s.abs() > 12.0 { f64::NAN } else { (1.0 + s.exp()).ln() - if y8[i] > 0 { s } else { 0.0 } }
    }));
    let hinge = mean(&|i| if yi[i] as f64 * sc(&pts[i]) < 1.0 { -(yi[i] as f64) } else { 0.0 });
    let kink = (0..n).any(|i| (yi[i] as f64 * sc(&pts[i]) - 1.0).abs() < 1e-4);
    for c in [0.5, 4.0] {
        let e = if kink { None } else { Some(decay(hinge.clone(), 2.0 / (c * m))) };
        learner!("svm", LinearSvm { c: f(c) }, &yi, e, decay(hinge.clone(), 1.0 / c), kink, |pv: &[f64]| average(&|i| (1.0 - yi[i] as f64 * total(pv, i)).max(0.0)) + square(pv) / (2.0 * c));
    }
    // one example after the other
    let (mut a, mut b, mut close) = (w0, b0, false);
    for i in 0..n {
        let l = yi[i] as f64;
        let s = l * (0..N).fold(b, |s, k| s + a[k] * pts[i][k]);
        // zero counts as a mistake, but in f32 a sum may miss it
        close |= s.abs() < 1e-4 && (kind.starts_with("f32") || s != 0.0);
        if s <= 0.0 {
            for k in 0..N {
                a[k] += lr * l * pts[i][k];
            }
            b += lr * l;
        }
    }
    let e: Vec<f64> = (0..=N).map(|k| if k < N { (w0[k] - a[k]) / lr } else { (b0 - b) / lr }).collect();
    let kink = (0..n).any(|i| sc(&pts[i]).abs() < 1e-4);
    let g = mean(&|i| if -(yi[i] as f64) * sc(&pts[i]) > 0.0 { -(yi[i] as f64) } else { 0.0 });
    learner!("perceptron", Perceptron {}, &yi, if close || (n > 300 && kind.starts_with("f32")) { None } else { Some(e) }, g.clone(), kink, |pv: &[f64]| average(&|i| (-(yi[i] as f64) * total(pv, i)).max(0.0)));
    // predictions of the state itself
    for k in 0..8 {
        let q = point::<N>(k);
        let x = Vector::new(q.map(f));
        let s = (0..N).fold(b0, |s, i| s + w0[i] * q[i]);
        let near = |a: F, b: f64| (a.to_f64() - b).abs() <= tol * (1.0 + b.abs());
        let l = LogisticRegression::<F, N> { weights: w0f, bias: b0f, lr: lrf };
        let pc = Perceptron::<F, N> { weights: w0f, bias: b0f, lr: lrf };
        let ok = near(LinearRegression::<F, N> { weights: w0f, bias: b0f, lr: lrf }.predict(&x), s)
            && near(RidgeRegression::<F, N> { weights: w0f, bias: b0f, lr: lrf, alpha: lrf }.predict(&x), s)
            && near(LinearSvm::<F, N> { weights: w0f, bias: b0f, lr: lrf, c: lrf }.decision(&x), s)
            && near(l.predict_probability(&x), 1.0 / (1.0 + (-s).exp()))
            && (s.abs() < 1e-4 || l.predict(&x) == (s > 0.0) as u8)
            && near(pc.predict_raw(&x), s)
            && (s.abs() < 1e-4 || pc.predict(&x) == if s > 0.0 { 1 } else { -1 });
        p.step();
        p.check(ok, "predict", || format!("{kind}, {N} features, w={w0:?} b={b0}: predictions at {q:?} (score {s})"));
    }
}

/// New learners know nothing.
fn fresh<F: Real + Copy, const N: usize>(p: &mut Part, kind: &str) {
    let ok = |w: &Vector<F, N>, b: F| (0..N).all(|i| w[i] == F::ZERO) && b == F::ZERO;
    let (a, b, c, d, e) = (LinearRegression::<F, N>::new(), RidgeRegression::<F, N>::new(), LogisticRegression::<F, N>::new(), LinearSvm::<F, N>::new(), Perceptron::<F, N>::new());
    let good = ok(&a.weights, a.bias) && ok(&b.weights, b.bias) && ok(&c.weights, c.bias) && ok(&d.weights, d.bias) && ok(&e.weights, e.bias);
    p.step();
    p.check(good, "new", || format!("{kind}: a new learner of {N} features has weights"));
}

// ------------------------------------------------------------- generative classifiers, any N
fn solve<const N: usize>(mut a: [[f64; N]; N], mut b: [f64; N]) -> Option<([f64; N], f64)> {
    let mut det = 1.0;
    for k in 0..N {
        let r = (k..N).max_by(|x, y| a[*x][k].abs().total_cmp(&a[*y][k].abs()))?;
        if a[r][k].abs() < 1e-9 {
            return None;
        }
        if r != k {
            a.swap(r, k);
            b.swap(r, k);
            det = -det;
        }
        det *= a[k][k];
        for i in k + 1..N {
            let f = a[i][k] / a[k][k];
            for j in k..N {
                a[i][j] -= f * a[k][j];
            }
            b[i] -= f * b[k];
        }
    }
    for k in (0..N).rev() {
        for j in k + 1..N {
            b[k] -= a[k][j] * b[j];
        }
        b[k] /= a[k][k];
    }
    Some((b, det))
}
fn quad<const N: usize>(a: &[[f64; N]; N], u: [f64; N], v: [f64; N]) -> Option<(f64, f64)> {
    let (x, det) = solve(*a, v)?;
    Some(((0..N).map(|i| u[i] * x[i]).sum(), det))
}
fn best(s: &[f64], got: usize) -> bool {
    let m = s.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
    s.get(got).is_some_and(|x| *x >= m - 1e-6 * (1.0 + m.abs()))
}

fn classes<const N: usize>(p: &mut Part, pts: &[[f64; N]], y: &[usize], k: usize, shift: f64) {
    let n = pts.len() as f64;
    let raw: Vec<[f64; N]> = pts.to_vec();
    let xs: Vec<Vector<f64, N>> = raw.iter().map(|x| Vector::new(x.map(|v| v + shift))).collect();
    let what = || format!("{N} features, points {raw:?} + {shift} labels {y:?} of {k} classes");
    p.states += 1;
    p.traces += 1;
    let (nb, lda, qda) = (GaussianNB::<N>::fit(&xs, y, k), Lda::<N>::fit(&xs, y, k), Qda::<N>::fit(&xs, y, k));
    let mut cnt = vec![0usize; k];
    let mut mean = vec![[0.0; N]; k];
    for (x, c) in raw.iter().zip(y) {
        cnt[*c] += 1;
        for i in 0..N {
            mean[*c][i] += x[i];
        }
    }
    for c in 0..k {
        mean[c] = mean[c].map(|v| v / (cnt[c] as f64).max(1.0));
    }
    let mut cov = vec![[[0.0; N]; N]; k];
    for (x, c) in raw.iter().zip(y) {
        for i in 0..N {
            for j in 0..N {
                cov[*c][i][j] += (x[i] - mean[*c][i]) * (x[j] - mean[*c][j]);
            }
        }
    }
    // deviations survive a shift of all points to what the shifted points can tell
    let tol = 1e-10 + 64.0 * f64::EPSILON * shift.abs() * 8.0;
    let mut range = vec![[[f64::INFINITY, f64::NEG_INFINITY]; N]; N];
    for c in 0..k {
        if cnt[c] == 0 {
            continue;
        }
        for i in 0..N {
            let e = mean[c][i] + shift;
            p.check([nb.class_mean[c][i], lda.means[c][i], qda.means[c][i]].iter().all(|g| (g - e).abs() <= tol), "class-mean", || format!("{}: mean of class {c}", what()));
            let e = cov[c][i][i] / cnt[c] as f64;
            p.check((nb.class_var[c][i] - e).abs() <= tol * (1.0 + e), "class-variance", || format!("{}: naive Bayes variance {} of class {c}, expected {e}", what(), nb.class_var[c][i]));
            for j in 0..N {
                let e = cov[c][i][j] / (cnt[c] as f64 - 1.0).max(1.0);
                let g = qda.covs[c].data[i][j];
                p.check((g - e).abs() <= tol * (1.0 + e.abs()), "class-covariance", || format!("{}: covariance [{i}][{j}] of class {c} is {g}, expected {e}", what()));
                range[i][j] = [range[i][j][0].min(e), range[i][j][1].max(e)];
            }
        }
    }
    for i in 0..N {
        for j in 0..N {
            let (v, [lo, hi]) = (lda.pooled_cov.data[i][j], range[i][j]);
            p.check(v >= lo - 10.0 * tol && v <= hi + 10.0 * tol, "shared-covariance", || format!("{}: shared covariance [{i}][{j}] is {v}, the classes have {lo}..{hi}", what()));
        }
    }
    // the same samples in a finer and a coarser unit
    let units: Vec<_> = if shift != 0.0 { vec![] } else { [-10, 14].map(|e| {
        let u = 2f64.powi(e);
        let xs: Vec<Vector<f64, N>> = raw.iter().map(|x| Vector::new(x.map(|v| v * u))).collect();
        (u, GaussianNB::<N>::fit(&xs, y, k), Lda::<N>::fit(&xs, y, k), Qda::<N>::fit(&xs, y, k))
    }).into() };
    let narrow = (0..k).any(|c| cnt[c] > 0 && (0..N).any(|i| cov[c][i][i] / (cnt[c] as f64) < 1e-4));
    let pooled = lda.pooled_cov.data;
    for t in 0..6 {
        let q: [f64; N] = std::array::from_fn(|i| [0.0, 1.0, -2.0, 0.3, 4.0, -0.6][(t + 2 * i + t * i) % 6]);
        let x = Vector::new(q.map(|v| v + shift));
        p.step();
        let prior = |c: usize| (cnt[c] as f64 / n).ln();
        let u = |c: usize| -> [f64; N] { std::array::from_fn(|i| q[i] - mean[c][i]) };
        let s: Vec<f64> = (0..k)
            .map(|c| {
                if cnt[c] == 0 {
                    return f64::NEG_INFINITY;
                }
                (0..N).fold(prior(c), |s, i| {
                    let v = (cov[c][i][i] / cnt[c] as f64).max(1e-12);
                    s - 0.5 * ((std::f64::consts::TAU * v).ln() + u(c)[i].powi(2) / v)
                })
            })
            .collect();
        // a variance of nothing but rounding is not comparable
        let thin = shift != 0.0 && (0..k).any(|c| cnt[c] > 0 && (0..N).any(|i| cov[c][i][i] < 1e-6));
        let g = nb.predict(&x);
        p.check(thin || best(&s, g), "naive-bayes", || format!("{}: naive Bayes gives {g} at {q:?}, log posteriors {s:?}", what()));
        for (w, nb, _, _) in &units {
            let g = nb.predict(&(x * *w));
            p.check(narrow || best(&s, g), "naive-bayes-unit", || format!("{}, all times {w}: naive Bayes gives {g} at {q:?}, log posteriors {s:?}", what()));
        }
        p.outcomes.insert(g as u64);
        let s: Option<Vec<f64>> = (0..k).map(|c| if cnt[c] == 0 { Some(f64::NEG_INFINITY) } else { quad(&pooled, u(c), u(c)).map(|m| prior(c) - 0.5 * m.0) }).collect();
        let fine = quad(&pooled, [1.0; N], [1.0; N]).is_some_and(|m| m.1.abs() > 1e-6);
        if let (Some(s), true, true) = (s, fine, shift.abs() <= 1000.0) {
            let g = lda.predict(&x);
            p.check(best(&s, g), "lda", || format!("{}: linear discriminant gives {g} at {q:?}, log posteriors {s:?}", what()));
            for (w, _, lda, _) in &units {
                let g = lda.predict(&(x * *w));
                p.check(best(&s, g), "lda-unit", || format!("{}, all times {w}: linear discriminant gives {g} at {q:?}, log posteriors {s:?}", what()));
            }
        }
        let s: Option<Vec<f64>> = (0..k)
            .map(|c| {
                if cnt[c] == 0 {
                    return Some(f64::NEG_INFINITY);
                }
                let e: [[f64; N]; N] = std::array::from_fn(|i| std::array::from_fn(|j| cov[c][i][j] / (cnt[c] as f64 - 1.0).max(1.0)));
                quad(&e, u(c), u(c)).filter(|m| m.1 > 1e-6).map(|m| prior(c) - 0.5 * m.1.ln() - 0.5 * m.0)
            })
            .collect();
        if let Some(s) = s {
            let g = qda.predict(&x);
            p.check(best(&s, g), "qda", || format!("{}: quadratic discriminant gives {g} at {q:?}, log posteriors {s:?}", what()));
            for (w, _, _, qda) in &units {
                let g = qda.predict(&(x * *w));
                p.check(best(&s, g), "qda-unit", || format!("{}, all times {w}: quadratic discriminant gives {g} at {q:?}, log posteriors {s:?}", what()));
            }
        }
    }
}

pub fn more(r: &mut Run) {
    let deep = r.thorough;
    let mut p = Part::default();
    fresh::<f64, 1>(&mut p, "f64");
    fresh::<f64, 4>(&mut p, "f64");
    fresh::<f32, 3>(&mut p, "f32");
    r.absorb(p);
    // every word of labelled points
    let pool = 15;
    for len in 0..=(if deep { 3 } else { 2 }) {
        for q in par(if len == 0 { 1 } else { pool }, |p, i| {
            let mut w = words(pool as usize, (len as usize).saturating_sub(1));
            while let Some(rest) = w.next() {
                let word: Vec<usize> = if len == 0 { vec![] } else { std::iter::once(i as usize).chain(rest.iter().copied()).collect() };
                for s in 0..4 {
                    one::<f64, 1, 2>(p, "f64", &word, s);
                    one::<f64, 2, 3>(p, "f64", &word, s);
                    one::<f64, 3, 4>(p, "f64", &word, s);
                    one::<f32, 1, 2>(p, "f32", &word, s);
                    one::<f32, 4, 5>(p, "f32", &word, s);
                }
            }
        }) {
            r.absorb(q);
        }
    }
    // runs of the pool of every length and start
    for q in par(24, |p, i| {
        for len in (3..=40).chain([64, 100, 257, 300]) {
            for stride in [1, 5, 7] {
                let word: Vec<usize> = (0..len).map(|k| (i as usize + stride * k) % 24).collect();
                for s in 0..4 {
                    one::<f64, 1, 2>(p, "f64", &word, s);
                    one::<f64, 5, 6>(p, "f64", &word, s);
                    one::<f32, 2, 3>(p, "f32", &word, s);
                }
            }
        }
    }) {
        r.absorb(q);
    }
    // many features, many points
    for q in par(8, |p, i| {
        for len in [0usize, 1, 2, 7, 8, 9, 16, 17, 33, 65, 255, 256, 1000, 1025, 5000] {
            let word: Vec<usize> = (0..len).map(|k| (i as usize + 7 * k) % 24).collect();
            for s in 0..3 {
                one::<f64, 8, 9>(p, "f64", &word, s);
                one::<f64, 16, 17>(p, "f64", &word, s);
                one::<f32, 17, 18>(p, "f32", &word, s);
                one::<f64, 33, 34>(p, "f64", &word, s);
                if len >= 1000 {
                    one::<f64, 1, 2>(p, "f64", &word, s);
                    one::<f64, 3, 4>(p, "f64", &word, s);
                }
            }
        }
    }) {
        r.absorb(q);
    }
    r.section("single steps");
    // one feature: every word over five points and two classes
    let len = if deep { 6 } else { 5 };
    for q in par(10, |p, i| {
        let mut w = words(10, len - 1);
        while let Some(rest) = w.next() {
            let word: Vec<usize> = std::iter::once(i as usize).chain(rest.iter().copied()).collect();
            let pts: Vec<[f64; 1]> = word.iter().map(|k| point::<1>(k % 5)).collect();
            let y: Vec<usize> = word.iter().map(|k| k / 5).collect();
            classes::<1>(p, &pts, &y, 2 + (word[0] == 3) as usize, 0.0);
            if word.iter().sum::<usize>() % 5 == 0 {
                classes::<1>(p, &pts, &y, 2, 1e6);
            }
        }
    }) {
        r.absorb(q);
    }
    // several features: runs of points, split among the classes in every regular way
    for q in par(24, |p, i| {
        for n in (6..=30).chain([64, 129]) {
            for k in 1..=4 {
                for split in 0..3 {
                    let y: Vec<usize> = (0..n).map(|j| match split { 0 => j % k, 1 => j * k / n, _ => (j * j + j / 3) % k }).collect();
                    for shift in [0.0, 100.0, -1e6] {
                        macro_rules! size { ($n:literal) => {{
                            let pts: Vec<[f64; $n]> = (0..n).map(|j| point::<$n>(i as usize + 5 * j + j * j)).collect();
                            classes::<$n>(p, &pts, &y, k, shift);
                        }} }
                        size!(2);
                        size!(3);
                        if deep || n % 5 == 0 {
                            size!(5);
                        }
                    }
                }
            }
        }
    }) {
        r.absorb(q);
    }
    // many classes, many points, many features
    for q in par(24, |p, i| {
        for (n, k) in [(40, 5), (60, 8), (60, 9), (100, 12), (130, 17), (200, 33), (300, 70), (1000, 3), (1025, 10), (4099, 2)] {
            for split in 0..3 {
                let y: Vec<usize> = (0..n).map(|j| match split { 0 => j % k, 1 => j * k / n, _ => (j * j + j / 3) % k }).collect();
                macro_rules! size { ($n:literal) => {{
                    let pts: Vec<[f64; $n]> = (0..n).map(|j| { let q = point::<$n>(i as usize + 5 * j + j * j); std::array::from_fn(|d| q[d] + ((j * (d + 2)) % 11) as f64 * 0.0625) }).collect();
                    classes::<$n>(p, &pts, &y, k, 0.0);
                }} }
                size!(1);
                size!(2);
                size!(4);
                if n <= 130 {
                    size!(9);
                }
            }
        }
    }) {
        r.absorb(q);
    }
    r.section("classifiers of other sizes");
    r.bounds.push("one step of every learner by epoch and by optimiser for 1 to 5, 8, 16, 17 and 33 features in f64 and f32: all words of up to 2 (3) of 15 labelled points, runs of up to 5000; classifiers of 1 to 5 and 9 features, up to 70 classes and 4099 points, shifted by up to a million".into());
}
