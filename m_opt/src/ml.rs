//! L01: learners on every small data set.
use aether_core::math::{Matrix, Vector};
use aether_ml::classification::lda_qda::{Lda, Qda};
use aether_ml::classification::naive_bayes::GaussianNB;
use aether_ml::classification::perceptron::Perceptron;
use aether_ml::classification::svm::LinearSvm;
use aether_ml::regression::linear::LinearRegression;
use aether_ml::regression::logistic::LogisticRegression;
use aether_ml::regression::ridge::RidgeRegression;
use aether_opt::gradient_descent::GradientDescentGeneric;
use mckit::*;

const GRID: [[f64; 2]; 6] = [[0.0, 0.0], [1.0, 0.0], [0.0, 1.0], [1.0, 1.0], [-2.0, 1.0], [0.5, -1.5]];
fn v2(a: [f64; 2]) -> Vector<f64, 2> {
    Vector::new(a)
}
fn near(a: f64, b: f64) -> bool {
    (a - b).abs() <= 1e-11 * (1.0 + b.abs())
}

/// Training epochs against the documented gradient step, on every word of labelled points.
fn epochs(p: &mut Part, len: usize, first: usize) {
    let ys = [-1.0, 0.0, 2.5];
    let k = GRID.len() * ys.len();
    let mut w = words(k, len.saturating_sub(1));
    while let Some(rest) = w.next() {
        let word: Vec<usize> = if len == 0 { vec![] } else { std::iter::once(first).chain(rest.iter().copied()).collect() };
        let xs: Vec<Vector<f64, 2>> = word.iter().map(|i| v2(GRID[i % 6])).collect();
        let y: Vec<f64> = word.iter().map(|i| ys[i / 6]).collect();
        let y8: Vec<u8> = word.iter().map(|i| (i / 6 > 0) as u8).collect();
        let yi: Vec<i8> = word.iter().map(|i| [-1, 1, 1][i / 6]).collect();
        for (w0, b0, lr) in [([0.0, 0.0], 0.0, 0.125), ([1.0, -0.5], 0.25, 1.0), ([-1.5, 2.0], -1.0, 0.5)] {
            p.states += 1;
            p.traces += 1;
            let m = len as f64;
            let sc = |x: &Vector<f64, 2>| b0 + w0[0] * x[0] + w0[1] * x[1];
            let what = || format!("points {:?} targets {y:?} from w={w0:?} b={b0} lr={lr}", word.iter().map(|i| GRID[i % 6]).collect::<Vec<_>>());
            let mean = |f: &dyn Fn(usize) -> f64| -> [f64; 3] {
                let mut g = [0.0; 3];
                for i in 0..len {
                    let e = f(i);
                    g[0] += e * xs[i][0] / m;
                    g[1] += e * xs[i][1] / m;
                    g[2] += e / m;
                }
                g
            };
            let mut judge = |name: &str, w: Vector<f64, 2>, b: f64, g: [f64; 3]| {
                p.step();
                let e = [w0[0] - lr * g[0], w0[1] - lr * g[1], b0 - lr * g[2]];
                p.check(near(w[0], e[0]) && near(w[1], e[1]) && near(b, e[2]), "epoch", || format!("{name} {}: w=[{}, {}] b={b}, expected {e:?}", what(), w[0], w[1]));
            };
            // mean squared error
            let mut o = LinearRegression::<f64, 2> { weights: v2(w0), bias: b0, lr };
            for x in &GRID {
                let x = v2(*x);
                let g = o.predict(&x);
                if !near(g, sc(&x)) {
                    judge("linear prediction", v2([g, 0.0]), 0.0, [0.0; 3]);
                }
            }
            o.train_epoch(&xs, &y);
            judge("linear", o.weights, o.bias, mean(&|i| 2.0 * (sc(&xs[i]) - y[i])));
            // plus alpha |w|^2
            for alpha in [0.0, 0.75] {
                let mut o = RidgeRegression::<f64, 2> { weights: v2(w0), bias: b0, lr, alpha };
                o.train_epoch(&xs, &y);
                let mut g = mean(&|i| 2.0 * (sc(&xs[i]) - y[i]));
                if len > 0 {
                    g[0] += 2.0 * alpha * w0[0];
                    g[1] += 2.0 * alpha * w0[1];
                }
                judge("ridge", o.weights, o.bias, g);
            }
            // cross entropy
            let mut o = LogisticRegression::<f64, 2> { weights: v2(w0), bias: b0, lr };
            for x in &GRID {
                for s in [1.0, 100.0, 1e4] {
                    let x = v2([x[0] * s, x[1] * s]);
                    let (pr, t) = (o.predict_probability(&x), sc(&x));
                    let e = 1.0 / (1.0 + (-t).exp());
                    let l = o.predict(&x);
                    if !(pr >= 0.0 && pr <= 1.0 && near(pr, e) && (t.abs() < 1e-9 || l == (t > 0.0) as u8)) {
                        judge("logistic prediction", v2([pr, l as f64]), 0.0, [0.0; 3]);
                    }
                }
            }
            o.train_epoch(&xs, &y8);
            judge("logistic", o.weights, o.bias, mean(&|i| 1.0 / (1.0 + (-sc(&xs[i])).exp()) - y8[i] as f64));
            // hinge
            for c in [1.0, 4.0] {
                if (0..len).any(|i| (yi[i] as f64 * sc(&xs[i]) - 1.0).abs() < 1e-9) {
                    continue; // at the kink either side is a subgradient
                }
                let mut o = LinearSvm::<f64, 2> { weights: v2(w0), bias: b0, lr, c };
                o.train_epoch(&xs, &yi);
                let mut g = mean(&|i| if yi[i] as f64 * sc(&xs[i]) < 1.0 { -(yi[i] as f64) } else { 0.0 });
                if len > 0 {
                    g[0] += 2.0 / (c * m) * w0[0];
                    g[1] += 2.0 / (c * m) * w0[1];
                }
                judge("svm", o.weights, o.bias, g);
                if !near(LinearSvm::<f64, 2> { weights: v2(w0), bias: b0, lr, c }.decision(&v2([3.0, -2.0])), b0 + 3.0 * w0[0] - 2.0 * w0[1]) {
                    judge("svm decision", v2([0.0; 2]), 0.0, [0.0; 3]);
                }
            }
            // perceptron: one example after the other
            let mut o = Perceptron::<f64, 2> { weights: v2(w0), bias: b0, lr };
            o.train_epoch(&xs, &yi);
            let (mut a, mut b) = (w0, b0);
            for i in 0..len {
                let l = yi[i] as f64;
                if l * (b + a[0] * xs[i][0] + a[1] * xs[i][1]) <= 0.0 {
                    a[0] += lr * l * xs[i][0];
                    a[1] += lr * l * xs[i][1];
                    b += lr * l;
                }
            }
            let g = [(w0[0] - a[0]) / lr, (w0[1] - a[1]) / lr, (b0 - b) / lr];
            judge("perceptron", o.weights, o.bias, g);
        }
    }
}

/// Perceptron on every separable labelling of every subset of the grid: no mistake is left
/// after (R / margin)^2 corrections.
fn separable(p: &mut Part, deep: bool) {
    // normals and offsets that cut the grid in every possible way
    for mask in 1u32..64 {
        let idx: Vec<usize> = (0..6).filter(|i| mask >> i & 1 == 1).collect();
        let mut seen = std::collections::HashSet::new();
        for a in -12..=12 {
            for b in -12..=12 {
                for c in -13..=13 {
                    let f = |x: [f64; 2]| a as f64 * x[0] + b as f64 * x[1] + c as f64 * 0.5 + 0.25;
                    let margin = idx.iter().map(|i| f(GRID[*i]).abs()).fold(f64::INFINITY, f64::min);
                    if margin == 0.0 {
                        continue;
                    }
                    let lab: u32 = idx.iter().enumerate().map(|(k, i)| ((f(GRID[*i]) > 0.0) as u32) << k).sum();
                    if !seen.insert(lab) {
                        continue;
                    }
                    let xs: Vec<_> = idx.iter().map(|i| v2(GRID[*i])).collect();
                    let ys: Vec<i8> = (0..idx.len()).map(|k| if lab >> k & 1 == 1 { 1 } else { -1 }).collect();
                    let n2 = (a * a + b * b) as f64 + (c as f64 * 0.5 + 0.25).powi(2);
                    let r2 = idx.iter().map(|i| GRID[*i][0].powi(2) + GRID[*i][1].powi(2) + 1.0).fold(0.0, f64::max);
                    let bound = (r2 * n2 / (margin * margin)).ceil() as usize + 1;
                    for lr in if deep { vec![1.0, 0.5, 0.1, 8.0] } else { vec![1.0, 0.5] } {
                        let mut o = Perceptron::<f64, 2> { weights: v2([0.0; 2]), bias: 0.0, lr };
                        for _ in 0..bound.min(20000) {
                            o.train_epoch(&xs, &ys);
                        }
                        p.states += 1;
                        p.traces += 1;
                        p.step();
                        p.check((0..xs.len()).all(|k| o.predict(&xs[k]) == ys[k]), "perceptron-separates", || {
                            format!("points {:?} labels {ys:?} lr={lr}: still wrong after {bound} epochs (w=[{}, {}] b={})", idx.iter().map(|i| GRID[*i]).collect::<Vec<_>>(), o.weights[0], o.weights[1], o.bias)
                        });
                        p.outcomes.insert(h(&[lab as u8, mask as u8]));
                    }
                }
            }
        }
    }
}

fn opt(iters: u32) -> GradientDescentGeneric<f64, 3> {
    let mut g = GradientDescentGeneric::<f64, 3>::new();
    g.learning_rate(4.0).armijo(1e-4, 0.5).tolerances(1e-8, 0.0).max_iters(iters);
    g
}

/// Fits with the optimiser end where the gradient of the documented loss is small.
fn fits(p: &mut Part, word: &[usize]) {
    let len = word.len();
    let m = len as f64;
    let ys = [-1.0, 2.5];
    let xs: Vec<Vector<f64, 2>> = word.iter().map(|i| v2(GRID[i % 6])).collect();
    let pts: Vec<[f64; 2]> = word.iter().map(|i| GRID[i % 6]).collect();
    let y: Vec<f64> = word.iter().map(|i| ys[i / 6]).collect();
    let y8: Vec<u8> = word.iter().map(|i| (i / 6) as u8).collect();
    let yi: Vec<i8> = word.iter().map(|i| [-1, 1][i / 6]).collect();
    let grad = |e: &dyn Fn(usize) -> f64| -> [f64; 3] {
        let mut g = [0.0; 3];
        for i in 0..len {
            let e = e(i);
            g[0] += e * xs[i][0] / m;
            g[1] += e * xs[i][1] / m;
            g[2] += e / m;
        }
        g
    };
    let norm = |g: [f64; 3]| (g[0] * g[0] + g[1] * g[1] + g[2] * g[2]).sqrt();
    p.states += 1;
    p.traces += 1;
    let mut o = LinearRegression::<f64, 2>::new();
    o.fit_with_optimizer(&xs, &y, opt(4000));
    let g = grad(&|i| 2.0 * (o.predict(&xs[i]) - y[i]));
    p.step();
    p.check(norm(g) <= 1e-4, "fit-linear", || format!("points {pts:?} targets {y:?}: gradient of the squared error {:e} after the fit (w=[{}, {}] b={})", norm(g), o.weights[0], o.weights[1], o.bias));
    for alpha in [0.5, 0.1] {
        let mut o = RidgeRegression::<f64, 2>::new();
        o.alpha = alpha;
        o.fit_with_optimizer(&xs, &y, opt(4000));
        let mut g = grad(&|i| 2.0 * (o.predict(&xs[i]) - y[i]));
        g[0] += 2.0 * alpha * o.weights[0];
        g[1] += 2.0 * alpha * o.weights[1];
        p.step();
        p.check(norm(g) <= 1e-4, "fit-ridge", || format!("points {pts:?} targets {y:?} alpha={alpha}: gradient {:e} after the fit (w=[{}, {}] b={})", norm(g), o.weights[0], o.weights[1], o.bias));
    }
    let mut o = LogisticRegression::<f64, 2>::new();
    o.fit_with_optimizer(&xs, &y8, opt(1500));
    let g = grad(&|i| o.predict_probability(&xs[i]) - y8[i] as f64);
    p.step();
    // separable data drive the weights to infinity: the gradient falls like 1/iterations
    p.check(norm(g) <= 5e-2, "fit-logistic", || format!("points {pts:?} labels {y8:?}: gradient of the cross entropy {:e} after the fit (w=[{}, {}] b={})", norm(g), o.weights[0], o.weights[1], o.bias));
    // non-smooth losses: never worse than at the start
    for (w0, b0) in [([0.0, 0.0], 0.0), ([1.0, -2.0], 0.5)] {
        for c in [1.0, 10.0] {
            let mut o = LinearSvm::<f64, 2> { weights: v2(w0), bias: b0, lr: 1.0, c };
            let loss = |o: &LinearSvm<f64, 2>| (0..len).map(|i| (1.0 - yi[i] as f64 * o.decision(&xs[i])).max(0.0)).sum::<f64>() / m + (o.weights[0].powi(2) + o.weights[1].powi(2)) / (2.0 * c);
            let l0 = loss(&o);
            o.fit_with_optimizer(&xs, &yi, opt(60));
            p.step();
            p.check(loss(&o) <= l0 + 1e-12, "fit-svm", || format!("points {pts:?} labels {yi:?} c={c}: hinge loss {} before, {} after the fit", l0, loss(&o)));
        }
        let mut o = Perceptron::<f64, 2> { weights: v2(w0), bias: b0, lr: 1.0 };
        let loss = |o: &Perceptron<f64, 2>| (0..len).map(|i| (-(yi[i] as f64) * o.predict_raw(&xs[i])).max(0.0)).sum::<f64>() / m;
        let l0 = loss(&o);
        o.fit_with_optimizer(&xs, &yi, opt(60));
        p.step();
        p.check(loss(&o) <= l0 + 1e-12, "fit-perceptron", || format!("points {pts:?} labels {yi:?}: loss {} before, {} after the fit", l0, loss(&o)));
    }
}

fn inv2(m: &Matrix<f64, 2, 2>) -> Option<([[f64; 2]; 2], f64)> {
    let [[a, b], [c, d]] = m.data;
    let det = a * d - b * c;
    if det.abs() < 1e-9 {
        return None;
    }
    Some(([[d / det, -b / det], [-c / det, a / det]], det))
}
fn quad(i: &[[f64; 2]; 2], u: [f64; 2], v: [f64; 2]) -> f64 {
    u[0] * (i[0][0] * v[0] + i[0][1] * v[1]) + u[1] * (i[1][0] * v[0] + i[1][1] * v[1])
}
fn argmax_ok(scores: &[f64], got: usize) -> bool {
    let best = scores.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
    scores.get(got).is_some_and(|s| *s >= best - 1e-9 * (1.0 + best.abs()))
}

/// Generative classifiers on every word of labelled points.
fn generative(p: &mut Part, word: &[usize], classes: usize, scale: f64) {
    let pts: Vec<[f64; 2]> = word.iter().map(|i| GRID[i % 6].map(|x| x * scale)).collect();
    let xs: Vec<_> = pts.iter().map(|x| v2(*x)).collect();
    let y: Vec<usize> = word.iter().map(|i| i / 6).collect();
    let n = word.len() as f64;
    let what = || format!("points {pts:?} labels {y:?} of {classes} classes");
    p.states += 1;
    p.traces += 1;
    let (nb, lda, qda) = (GaussianNB::<2>::fit(&xs, &y, classes), Lda::<2>::fit(&xs, &y, classes), Qda::<2>::fit(&xs, &y, classes));
    let mut mean = vec![[0.0; 2]; classes];
    let mut cnt = vec![0usize; classes];
    for (x, c) in pts.iter().zip(&y) {
        cnt[*c] += 1;
        mean[*c][0] += x[0];
        mean[*c][1] += x[1];
    }
    for c in 0..classes {
        if cnt[c] > 0 {
            mean[c] = mean[c].map(|v| v / cnt[c] as f64);
        }
    }
    let mut cov = vec![[[0.0; 2]; 2]; classes];
    for (x, c) in pts.iter().zip(&y) {
        let d = [x[0] - mean[*c][0], x[1] - mean[*c][1]];
        for i in 0..2 {
            for j in 0..2 {
                cov[*c][i][j] += d[i] * d[j];
            }
        }
    }
    let (mut lo, mut hi) = ([[f64::INFINITY; 2]; 2], [[f64::NEG_INFINITY; 2]; 2]);
    for c in 0..classes {
        let pr = cnt[c] as f64 / n;
        let ok = near(nb.class_prior[c], pr) && near(lda.priors[c], pr) && near(qda.priors[c], pr) && nb.class_count[c] == cnt[c];
        p.check(ok, "prior", || format!("{}: prior of class {c}: {} {} {}, expected {pr}", what(), nb.class_prior[c], lda.priors[c], qda.priors[c]));
        if cnt[c] == 0 {
            continue;
        }
        for i in 0..2 {
            let ok = near(nb.class_mean[c][i], mean[c][i]) && near(lda.means[c][i], mean[c][i]) && near(qda.means[c][i], mean[c][i]);
            p.check(ok, "class-mean", || format!("{}: mean of class {c}", what()));
            p.check(near(nb.class_var[c][i], cov[c][i][i] / cnt[c] as f64), "class-variance", || format!("{}: naive Bayes variance {} of class {c}, expected {}", what(), nb.class_var[c][i], cov[c][i][i] / cnt[c] as f64));
            for j in 0..2 {
                let e = cov[c][i][j] / (cnt[c] as f64 - 1.0).max(1.0);
                p.check(near(qda.covs[c].data[i][j], e), "class-covariance", || format!("{}: covariance [{i}][{j}] of class {c} is {}, expected {e}", what(), qda.covs[c].data[i][j]));
                lo[i][j] = lo[i][j].min(e);
                hi[i][j] = hi[i][j].max(e);
            }
        }
    }
    // whatever the weights, the shared covariance lies between the class covariances
    for i in 0..2 {
        for j in 0..2 {
            let v = lda.pooled_cov.data[i][j];
            p.check(v >= lo[i][j] - 1e-9 && v <= hi[i][j] + 1e-9 && near(v, lda.pooled_cov.data[j][i]), "shared-covariance", || format!("{}: shared covariance [{i}][{j}] is {v}, the classes have {}..{}", what(), lo[i][j], hi[i][j]));
        }
    }
    // predictions: a class of largest posterior
    for q in [[0.0, 0.0], [1.0, 1.0], [-2.0, 1.0], [0.25, -0.75], [5.0, -3.0], [-0.5, 2.0]] {
        let q = q.map(|x: f64| x * scale);
        let x = v2(q);
        p.step();
        let s: Vec<f64> = (0..classes)
            .map(|c| {
                if cnt[c] == 0 {
                    return f64::NEG_INFINITY;
                }
                let mut s = (cnt[c] as f64 / n).ln();
                for i in 0..2 {
                    let v = (cov[c][i][i] / cnt[c] as f64).max(1e-12);
                    s -= 0.5 * ((std::f64::consts::TAU * v).ln() + (q[i] - mean[c][i]).powi(2) / v);
                }
                s
            })
            .collect();
        let g = nb.predict(&x);
        p.check(argmax_ok(&s, g), "naive-bayes", || format!("{}: naive Bayes gives {g} at {q:?}, log posteriors {s:?}", what()));
        p.outcomes.insert(g as u64);
        if let Some((iv, _)) = inv2(&lda.pooled_cov) {
            let s: Vec<f64> = (0..classes).map(|c| if cnt[c] == 0 { f64::NEG_INFINITY } else { quad(&iv, q, mean[c]) - 0.5 * quad(&iv, mean[c], mean[c]) + (cnt[c] as f64 / n).ln() }).collect();
            let g = lda.predict(&x);
            p.check(argmax_ok(&s, g), "lda", || format!("{}: linear discriminant gives {g} at {q:?}, scores {s:?}", what()));
        }
        let mut sing = false;
        let s: Vec<f64> = (0..classes)
            .map(|c| {
                let [[a, b], [_, d]] = qda.covs[c].data;
                if cnt[c] == 0 {
                    return f64::NEG_INFINITY;
                }
                match inv2(&Matrix::new([[a, b], [b, d]])) {
                    None => {
                        sing = true;
                        f64::NEG_INFINITY
                    }
                    Some((iv, det)) => {
                        let u = [q[0] - mean[c][0], q[1] - mean[c][1]];
                        -0.5 * det.ln() - 0.5 * quad(&iv, u, u) + (cnt[c] as f64 / n).ln()
                    }
                }
            })
            .collect();
        if !sing {
            let g = qda.predict(&x);
            p.check(argmax_ok(&s, g), "qda", || format!("{}: quadratic discriminant gives {g} at {q:?}, scores {s:?}", what()));
        }
    }
}

pub fn l01(r: &mut Run) {
    let deep = r.thorough;
    for len in 0..=(if deep { 4 } else { 3 }) {
        for q in par(if len == 0 { 1 } else { 18 }, |p, i| epochs(p, len, i as usize)) {
            r.absorb(q);
        }
    }
    r.section("training epochs");
    let mut p = Part::default();
    separable(&mut p, deep);
    r.absorb(p);
    r.section("separable labellings");
    for len in 1..=(if deep { 4 } else { 3 }) {
        let parts = par(12, |p, i| {
            let mut w = words(12, len - 1);
            while let Some(rest) = w.next() {
                // points in any order: only sorted words
                let word: Vec<usize> = std::iter::once(i as usize).chain(rest.iter().copied()).collect();
                if word.windows(2).all(|a| a[0] <= a[1]) {
                    fits(p, &word);
                }
            }
        });
        for q in parts {
            r.absorb(q);
        }
    }
    r.section("fits");
    let mut p = Part::default();
    let long: Vec<usize> = (0..4).chain(6..12).chain([2, 8, 0, 11, 5]).collect();
    for k in 3..=long.len() {
        fits(&mut p, &long[..k]);
    }
    r.absorb(p);
    for (classes, len) in [(1, 3), (2, 4), (3, if deep { 4 } else { 3 }), (2, if deep { 6 } else { 5 })] {
        let k = 6 * classes;
        let parts = par(k as u64, |p, i| {
            let mut w = words(k, len - 1);
            while let Some(rest) = w.next() {
                let word: Vec<usize> = std::iter::once(i as usize).chain(rest.iter().copied()).collect();
                // one class more than occurs, too
                generative(p, &word, classes + (word[0] % 5 == 0) as usize, 1.0);
                if word.iter().sum::<usize>() % 4 == 0 {
                    generative(p, &word, classes, 0.25);
                }
            }
        });
        for q in parts {
            r.absorb(q);
        }
    }
    // two or three classes with a spread of full rank each: triangles of different sizes
    let tri: Vec<[usize; 3]> = (0..6).flat_map(|a| (a + 1..6).flat_map(move |b| (b + 1..6).map(move |c| [a, b, c]))).collect();
    let parts = par(tri.len() as u64, |p, i| {
        for t in &tri {
            for scale in [1.0, 0.25, 3.0] {
                let word: Vec<usize> = tri[i as usize].iter().copied().chain(t.iter().map(|k| k + 6)).collect();
                generative(p, &word, 2, scale);
                for u in tri.iter().step_by(if deep { 1 } else { 7 }) {
                    let word: Vec<usize> = word.iter().copied().chain(u.iter().map(|k| k + 12)).collect();
                    generative(p, &word, 3, scale);
                }
            }
        }
    });
    for q in parts {
        r.absorb(q);
    }
    r.section("generative classifiers");
    crate::ml2::more(r);
    r.sample(|| "e.g. every word of 3 (point, target) pairs over 6 points and 3 targets, from 3 weight states".into());
    r.bounds.push("all data sets of up to 3 (thorough: 4) labelled points for training and fitting, 5 (6) for classifiers; all linearly separable labellings of subsets of 6 points".into());
    r.assumptions.push("the weighting inside the shared covariance of the linear discriminant is not fixed by this property; classes with a singular covariance are outside the domain of the quadratic discriminant".into());
}
