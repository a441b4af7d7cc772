//! S01: sample statistics and distributions over every small sample.
use aether_core::math::{Matrix, Vector};
use aether_rand::randomizers::XorShift64Star;
use aether_stats::*;
use mckit::*;

const VALS: [i64; 5] = [-3, -1, 0, 2, 5];

/// Every sample of `len` vectors of dimension N over VALS, in exact integers.
fn samples<const N: usize>(p: &mut Part, len: usize, first: usize) {
    let k = VALS.len().pow(N as u32);
    let mut w = words(k, len.saturating_sub(1));
    while let Some(rest) = w.next() {
        let word: Vec<usize> = if len == 0 { vec![] } else { std::iter::once(first).chain(rest.iter().copied()).collect() };
        let pts: Vec<[i64; N]> = word
            .iter()
            .map(|c| {
                let mut c = *c;
                let mut a = [0; N];
                for x in a.iter_mut() {
                    *x = VALS[c % VALS.len()];
                    c /= VALS.len();
                }
                a
            })
            .collect();
        check::<N>(p, &pts, 0.0, 1.0);
        if rest.first().copied().unwrap_or(0) % 3 == 0 {
            check::<N>(p, &pts, 1.0e6, 0.25);
            check::<N>(p, &pts, -0.5, 1.0e-3);
        }
    }
}
fn check<const N: usize>(p: &mut Part, pts: &[[i64; N]], shift: f64, scale: f64) {
    let n = pts.len() as i64;
    let conv = |a: &[i64; N]| {
        let mut o = [0.0; N];
        for i in 0..N {
            o[i] = shift + scale * a[i] as f64;
        }
        Vector::new(o)
    };
    let xs: Vec<Vector<f64, N>> = pts.iter().map(conv).collect();
    let what = || format!("{pts:?} shift {shift} scale {scale}");
    p.states += 1;
    p.traces += 1;
    p.step();
    let sum: Vec<i64> = (0..N).map(|i| pts.iter().map(|x| x[i]).sum()).collect();
    let eps = 1e-12 * (1.0 + shift.abs());
    match mean(&xs) {
        Ok(m) => {
            let ok = n > 0 && (0..N).all(|i| (m[i] - (shift + scale * sum[i] as f64 / n as f64)).abs() <= eps);
            p.check(ok, "mean", || format!("{}: mean {:?}", what(), (0..N).map(|i| m[i]).collect::<Vec<_>>()));
        }
        Err(e) => {
            p.check(n == 0 && e == CovarianceError::EmptySamples, "mean", || format!("{}: {e:?}", what()));
        }
    }
    // n^2 (n-1) cov = n (n sum xy - sum x sum y)
    let exact = |i: usize, j: usize| -> f64 {
        let sxy: i64 = pts.iter().map(|x| x[i] * x[j]).sum();
        scale * scale * (n * sxy - sum[i] * sum[j]) as f64 / (n * (n - 1)) as f64
    };
    let tol = 1e-11 * scale * (scale * 64.0 + shift.abs() * 1e-4 + 1e-3) + eps * scale * 10.0;
    match sample_covariance(&xs) {
        Ok(c) => {
            let mut ok = n >= 2;
            for i in 0..N {
                for j in 0..N {
                    ok &= (c.data[i][j] - exact(i, j)).abs() <= tol && (c.data[i][j] - c.data[j][i]).abs() <= tol;
                }
                ok &= c.data[i][i] >= 0.0;
            }
            p.check(ok, "covariance", || format!("{}: covariance {:?}", what(), c.data));
            p.outcomes.insert(h(&(c.data[0][N - 1] * 720.0).round().to_bits().to_le_bytes()));
            // correlation
            let zero = (0..N).any(|i| c.data[i][i] <= f64::EPSILON);
            match (correlation_from_covariance(&c), standard_deviations_from_covariance(&c)) {
                (Ok(r), Ok(sd)) => {
                    let mut ok = !zero;
                    for i in 0..N {
                        ok &= (sd[i] * sd[i] - c.data[i][i]).abs() <= 1e-12 * c.data[i][i] && sd[i] > 0.0;
                        for j in 0..N {
                            let w = c.data[i][j] / (c.data[i][i] * c.data[j][j]).sqrt();
                            ok &= (r.data[i][j] - w).abs() <= 1e-12 && r.data[i][j].abs() <= 1.0 + 1e-9;
                        }
                        ok &= (r.data[i][i] - 1.0).abs() <= 1e-12;
                    }
                    let back = covariance_from_correlation(&r, &sd);
                    for i in 0..N {
                        for j in 0..N {
                            ok &= (back.data[i][j] - c.data[i][j]).abs() <= 1e-12 * (c.data[i][i] * c.data[j][j]).sqrt();
                        }
                    }
                    p.check(ok, "correlation", || format!("{}: correlation {:?}, covariance {:?}", what(), r.data, c.data));
                }
                (a, b) => {
                    p.check(zero && a.is_err() && b.is_err(), "correlation", || format!("{}: refused although no variance is zero (or only one of the two refused): {:?}", what(), c.data));
                }
            }
        }
        Err(e) => {
            let w = if n == 0 { CovarianceError::EmptySamples } else { CovarianceError::InsufficientSamples };
            p.check(n < 2 && e == w, "covariance", || format!("{}: {e:?}", what()));
        }
    }
    // cross covariance with a shifted, reversed copy of other dimension
    let ys: Vec<Vector<f64, 2>> = pts.iter().map(|a| Vector::new([2.0 * a[N - 1] as f64 - 7.0, a[0] as f64])).collect();
    match sample_cross_covariance(&xs, &ys) {
        Ok(c) => {
            let mut ok = n >= 2;
            for i in 0..N {
                ok &= (c.data[i][0] - 2.0 * exact(i, N - 1) / scale).abs() <= (tol / scale) * 4.0;
                ok &= (c.data[i][1] - exact(i, 0) / scale).abs() <= (tol / scale) * 4.0;
            }
            p.check(ok, "cross-covariance", || format!("{}: {:?}", what(), c.data));
        }
        Err(e) => {
            let w = if n == 0 { CovarianceError::EmptySamples } else { CovarianceError::InsufficientSamples };
            p.check(n < 2 && e == w, "cross-covariance", || format!("{}: {e:?}", what()));
        }
    }
    if n > 0 {
        let e = sample_cross_covariance(&xs, &ys[..ys.len() - 1]);
        p.check(e.err() == Some(CovarianceError::SampleCountMismatch), "cross-covariance", || format!("{}: lengths {n} and {} accepted", what(), n - 1));
    }
}

fn gaussian(r: &mut Run) {
    let mut p = Part::default();
    for mu in [-3.5, 0.0, 1e3, 1e-6] {
        for sigma in [1e-3, 0.5, 1.0, 20.0, 1e4] {
            let g = Gaussian::new(mu, sigma);
            // the density: every point of a grid over 12 sigma, and its integral
            let n = if r.thorough { 24000 } else { 2400 };
            let dx = 24.0 * sigma / n as f64;
            let mut int = 0.0;
            for i in 0..=n {
                let x = mu - 12.0 * sigma + dx * i as f64;
                let d = g.pdf(x);
                let z = (x - mu) / sigma;
                let w = (-0.5 * z * z).exp() / (sigma * std::f64::consts::TAU.sqrt());
                p.check((d - w).abs() <= 1e-12 * w + 1e-300 + w * 1e-15 * (mu / sigma).abs() * z.abs() * 8.0, "density", || format!("Gaussian({mu},{sigma}).pdf({x}) = {d:e}, expected {w:e}"));
                int += d * dx;
                p.states += 1;
                p.step();
            }
            p.check((int - 1.0).abs() < 1e-9, "density", || format!("Gaussian({mu},{sigma}) integrates to {int}"));
            // variates are mu + sigma z of the same stream
            for seed in 1..200u64 {
                let s = seed.wrapping_mul(0x9E3779B97F4A7C15);
                let (mut a, mut b) = (XorShift64Star::new(s), XorShift64Star::new(s));
                for _ in 0..3 {
                    let (x, z) = (g.sample(&mut a), b.normal01());
                    p.check((x - (mu + sigma * z)).abs() <= 1e-12 * (mu.abs() + sigma * 10.0), "variate", || format!("Gaussian({mu},{sigma}).sample from {s:#x} = {x}, standard normal {z}"));
                    p.step();
                }
                p.traces += 1;
            }
        }
    }
    // densities of every width and place: same shape, scaled
    for e in -70i32..=70 {
        let sigma = 10f64.powf(e as f64 * 2.0);
        for m in [0.0, 3.0, -1000.0] {
            let mu = m * sigma;
            let g = Gaussian::new(mu, sigma);
            let h = Gaussian::<f32>::new(mu as f32, sigma as f32);
            for i in -16..=16 {
                let z = i as f64 * 0.5;
                let (x, w) = (mu + z * sigma, (-0.5 * z * z).exp() / (sigma * std::f64::consts::TAU.sqrt()));
                let d = g.pdf(x);
                p.states += 1;
                p.step();
                p.check((d - w).abs() <= 1e-10 * w, "density-scale", || format!("Gaussian({mu:e},{sigma:e}).pdf at {z} deviations = {d:e}, expected {w:e}"));
                if e.abs() <= 8 && m == 0.0 {
                    let d = h.pdf(x as f32) as f64;
                    p.check((d - w).abs() <= 2e-4 * w, "density-scale", || format!("f32 Gaussian({mu:e},{sigma:e}).pdf at {z} deviations = {d:e}, expected {w:e}"));
                }
            }
        }
    }
    // maximum likelihood: every word of small values; no neighbour is likelier
    let vals = [-2.0, 0.0, 1.0, 4.5];
    for len in 0..=(if r.thorough { 7 } else { 5 }) {
        let mut w = words(vals.len(), len);
        while let Some(x) = w.next() {
            let s: Vec<f64> = x.iter().map(|i| vals[*i]).collect();
            let g = Gaussian::fit_mle(&s);
            p.states += 1;
            p.traces += 1;
            p.step();
            if len == 0 {
                continue;
            }
            let m = s.iter().sum::<f64>() / len as f64;
            let v = s.iter().map(|a| (a - m) * (a - m)).sum::<f64>() / len as f64;
            p.check((g.mu - m).abs() <= 1e-12 && (g.sigma - v.sqrt()).abs() <= 1e-10 && g.sigma > 0.0, "gaussian-fit", || format!("fit of {s:?}: {g:?}, expected mean {m}, deviation {}", v.sqrt()));
            let f: Vec<f32> = s.iter().map(|x| *x as f32).collect();
            let g = Gaussian::<f32>::fit_mle(&f);
            p.check((g.mu as f64 - m).abs() <= 1e-5 && (g.sigma as f64 - v.sqrt()).abs() <= 1e-3 && g.sigma > 0.0, "gaussian-fit", || format!("f32 fit of {s:?}: {g:?}"));
        }
    }
    r.absorb(p);
}

fn discrete(r: &mut Run) {
    let mut p = Part::default();
    for len in 0..=12usize {
        for bits in 0..1u32 << len {
            let s: Vec<u8> = (0..len).map(|i| (bits >> i & 1) as u8).collect();
            let b = Bernoulli::<f64>::fit_mle(&s);
            let ones = bits.count_ones() as f64;
            let w = if len == 0 { 0.0 } else { ones / len as f64 };
            p.states += 1;
            p.traces += 1;
            p.step();
            p.check((b.p - w).abs() <= 1e-15, "bernoulli", || format!("fit of {s:?}: {}", b.p));
            let t: f64 = (0..=255u8).map(|k| b.pmf(k)).sum();
            p.check((t - 1.0).abs() <= 1e-14 && b.pmf(1) == b.p && b.pmf(2) == 0.0, "bernoulli", || format!("pmf of p={} sums to {t}", b.p));
        }
    }
    for k in 0..=4usize {
        let mut w = words(5, k);
        while let Some(c) = w.next() {
            let cat = Categorical::<f64>::fit_mle(c);
            let tot: usize = c.iter().sum();
            p.states += 1;
            p.traces += 1;
            p.step();
            let ok = cat.probs.len() == k && (0..k).all(|i| (cat.pmf(i) - c[i] as f64 / tot.max(1) as f64).abs() <= 1e-15) && (k..k + 3).all(|i| cat.pmf(i) == 0.0) && cat.pmf(usize::MAX) == 0.0;
            p.check(ok, "categorical", || format!("fit of counts {c:?}: {:?}", cat.probs));
            if tot > 0 {
                let s: f64 = (0..k).map(|i| cat.pmf(i)).sum();
                p.check((s - 1.0).abs() <= 1e-14, "categorical", || format!("pmf of {c:?} sums to {s}"));
            }
        }
    }
    r.absorb(p);
}

/// Long samples and many dimensions, in both precisions; value k of dimension i is an integer, so sums are exact.
fn long<T: aether_core::real::Real, const N: usize>(p: &mut Part, n: usize, kind: usize, unit: f64) {
    let at = |k: usize, i: usize| -> i64 {
        match kind {
            0 => ((k * (2 * i + 7) + i) % (11 + i)) as i64 - 5,
            1 => (k == n - 1) as i64 * (7 + i as i64) - (k == 0) as i64 * 3, // all but the ends are equal
            _ => ((k / (i + 1)) % 2) as i64 * (i as i64 + 1),
        }
    };
    let xs: Vec<Vector<T, N>> = (0..n).map(|k| Vector::new(std::array::from_fn(|i| T::from_f64(at(k, i) as f64)))).collect();
    let what = || format!("{n} vectors of {N} numbers of kind {kind}, unit {unit:e}");
    let f = |x: T| x.to_f64();
    p.states += 1;
    p.traces += 1;
    p.step();
    let sum: Vec<i64> = (0..N).map(|i| (0..n).map(|k| at(k, i)).sum()).collect();
    let nf = n as f64;
    let tol = unit * (16.0 + nf) * 8.0;
    match mean(&xs) {
        Ok(m) => {
            let ok = (0..N).all(|i| (f(m[i]) - sum[i] as f64 / nf).abs() <= unit * 16.0 * (1.0 + (sum[i] as f64 / nf).abs()));
            p.check(ok, "long-mean", || format!("{}: mean {:?}, sums {sum:?}", what(), (0..N).map(|i| f(m[i])).collect::<Vec<_>>()));
        }
        Err(e) => p.fail("long-mean", || format!("{}: {e:?}", what())),
    }
    let exact = |i: usize, j: usize| -> f64 {
        let sxy: i64 = (0..n).map(|k| at(k, i) * at(k, j)).sum();
        (n as i64 * sxy - sum[i] * sum[j]) as f64 / (nf * (nf - 1.0))
    };
    let cc = sample_cross_covariance(&xs, &xs.iter().map(|x| Vector::new([x[N - 1], x[0], x[N / 2]])).collect::<Vec<_>>());
    let cov = sample_covariance(&xs);
    let (Ok(c), Ok(cc)) = (cov, cc) else {
        p.fail("long-covariance", || format!("{}: refused", what()));
        return;
    };
    for i in 0..N {
        for j in 0..N {
            let w = exact(i, j);
            let size = (exact(i, i) * exact(j, j)).sqrt();
            p.check((f(c.data[i][j]) - w).abs() <= tol * size + unit, "long-covariance", || format!("{}: covariance of {i} and {j} is {:e}, expected {w:e}", what(), f(c.data[i][j])));
        }
        for (j, o) in [N - 1, 0, N / 2].into_iter().enumerate() {
            let w = exact(i, o);
            let size = (exact(i, i) * exact(o, o)).sqrt();
            p.check((f(cc.data[i][j]) - w).abs() <= tol * size + unit, "long-cross-covariance", || format!("{}: cross covariance of {i} and {o} is {:e}, expected {w:e}", what(), f(cc.data[i][j])));
        }
    }
    if (0..N).all(|i| exact(i, i) > 4.0 * unit) {
        match (correlation_from_covariance(&c), standard_deviations_from_covariance(&c)) {
            (Ok(r), Ok(sd)) => {
                let back = covariance_from_correlation(&r, &sd);
                for i in 0..N {
                    p.check((f(sd[i]) - f(c.data[i][i]).sqrt()).abs() <= 4.0 * unit * f(sd[i]), "long-correlation", || format!("{}: deviation {i} is {}", what(), f(sd[i])));
                    for j in 0..N {
                        let size = (f(c.data[i][i]) * f(c.data[j][j])).sqrt();
                        let ok = (f(r.data[i][j]) - f(c.data[i][j]) / size).abs() <= 8.0 * unit && (f(back.data[i][j]) - f(c.data[i][j])).abs() <= 16.0 * unit * size;
                        p.check(ok, "long-correlation", || format!("{}: correlation of {i} and {j} is {}, covariances {} and back {}", what(), f(r.data[i][j]), f(c.data[i][j]), f(back.data[i][j])));
                    }
                }
            }
            _ => p.fail("long-correlation", || format!("{}: refused", what())),
        }
    }
    if N == 1 {
        let v: Vec<T> = xs.iter().map(|x| x[0]).collect();
        let g = Gaussian::fit_mle(&v);
        let w = (exact(0, 0) * (nf - 1.0) / nf).sqrt();
        let ok = (f(g.mu) - sum[0] as f64 / nf).abs() <= unit * 16.0 * (1.0 + (sum[0] as f64 / nf).abs()) && (f(g.sigma) - w).abs() <= tol * w + unit;
        p.check(ok, "long-gaussian-fit", || format!("{}: fit {} {}, expected {} {w}", what(), f(g.mu), f(g.sigma), sum[0] as f64 / nf));
    }
    p.outcomes.insert(h(&f(c.data[0][N - 1]).to_bits().to_le_bytes()));
}
/// Deviations and correlations of diagonal covariances of every size: a variance well above the
/// resolution of the type is accepted, zero and below are not.
fn diagonals(p: &mut Part) {
    use aether_core::real::Real;
    fn one<T: Real, const N: usize>(p: &mut Part, unit: f64, vs: &[f64]) {
        let f = |x: T| x.to_f64();
        for (i, &v) in vs.iter().enumerate() {
            for at in 0..N {
                let mut c = Matrix::<T, N, N>::zeros();
                for k in 0..N {
                    c.data[k][k] = T::from_f64(if k == at { v } else { vs[(i + k) % vs.len()].abs().max(1.0) });
                }
                p.states += 1;
                let (sd, r) = (standard_deviations_from_covariance(&c), correlation_from_covariance(&c));
                p.transitions += 2;
                if v > 4.0 * unit {
                    let ok = match (&sd, &r) {
                        (Ok(sd), Ok(r)) => {
                            let back = covariance_from_correlation(r, sd);
                            (0..N).all(|k| (f(sd[k]) / f(c.data[k][k]).sqrt() - 1.0).abs() <= 4.0 * unit && (f(back.data[k][k]) / f(c.data[k][k]) - 1.0).abs() <= 16.0 * unit)
                                && (0..N).all(|a| (0..N).all(|b| (f(r.data[a][b]) - if a == b { 1.0 } else { 0.0 }).abs() <= 8.0 * unit))
                        }
                        _ => false,
                    };
                    p.check(ok, "diagonal", || format!("covariance {N}x{N} with variance {v:e} at {at} (resolution {unit:e}): deviations {:?}", sd.map(|s| (0..N).map(|k| f(s[k])).collect::<Vec<_>>())));
                } else if v <= 0.0 {
                    p.check(sd.is_err() && r.is_err(), "diagonal", || format!("covariance {N}x{N} with variance {v:e} at {at} is accepted"));
                }
            }
        }
    }
    let mut vs = vec![0.0, -0.0, -1e-12, -1.0];
    for e in -22..=12 {
        vs.push(10f64.powi(e));
        vs.push(3.0 * 10f64.powi(e));
    }
    one::<f64, 1>(p, f64::EPSILON, &vs);
    one::<f64, 2>(p, f64::EPSILON, &vs);
    one::<f64, 5>(p, f64::EPSILON, &vs);
    one::<f64, 12>(p, f64::EPSILON, &vs);
    one::<f32, 3>(p, f32::EPSILON as f64, &vs);
}
fn longs(r: &mut Run) {
    for q in par(1, |p, _| diagonals(p)) {
        r.absorb(q);
    }
    let mut sizes: Vec<usize> = (2..70).collect();
    sizes.extend([100, 127, 128, 129, 255, 256, 257, 511, 513, 1000, 1023, 1024, 1025, 4095, 4097, 10_000, 32_769, 65_535, 65_536, 65_537]);
    if r.thorough {
        sizes.extend([100_003, 262_145, 1_000_001]);
    }
    let sizes = &sizes;
    for q in par(sizes.len() as u64 * 3, |p, i| {
        let (n, k) = (sizes[(i / 3) as usize], (i % 3) as usize);
        let (d, s) = (f64::EPSILON, f32::EPSILON as f64);
        long::<f64, 1>(p, n, k, d);
        long::<f32, 1>(p, n, k, s);
        long::<f64, 2>(p, n, k, d);
        long::<f32, 2>(p, n, k, s);
        long::<f64, 3>(p, n, k, d);
        if n < 5000 {
            long::<f64, 4>(p, n, k, d);
            long::<f32, 4>(p, n, k, s);
            long::<f64, 5>(p, n, k, d);
            long::<f64, 6>(p, n, k, d);
            long::<f32, 7>(p, n, k, s);
            long::<f64, 9>(p, n, k, d);
            long::<f64, 17>(p, n, k, d);
        }
        // counts
        let bits: Vec<u8> = (0..n).map(|j| (j % 7 % 3 == k) as u8).collect();
        let ones = bits.iter().filter(|b| **b == 1).count() as f64;
        let b = Bernoulli::<f64>::fit_mle(&bits);
        let c = Bernoulli::<f32>::fit_mle(&bits);
        p.check((b.p - ones / n as f64).abs() <= 1e-15 && (c.p as f64 - ones / n as f64).abs() <= 1e-7, "long-bernoulli", || format!("{ones} ones of {n}: {} {}", b.p, c.p));
        if n <= 1025 {
            let counts: Vec<usize> = (0..n).map(|j| (j * 37 + k) % 101 * [1, 1000, 1_000_000_007][k]).collect();
            let tot: usize = counts.iter().sum();
            let (c, d) = (Categorical::<f64>::fit_mle(&counts), Categorical::<f32>::fit_mle(&counts));
            let ok = c.probs.len() == n && (0..n).all(|j| (c.pmf(j) - counts[j] as f64 / tot as f64).abs() <= 1e-15 && (d.pmf(j) as f64 - counts[j] as f64 / tot as f64).abs() <= 1e-7) && c.pmf(n) == 0.0;
            p.check(ok, "long-categorical", || format!("{n} categories of kind {k}: wrong fit"));
        }
    }) {
        r.absorb(q);
    }
    // densities in more dimensions: a product of one-dimensional ones, sheared
    let mut p = Part::default();
    fn dens<const N: usize>(p: &mut Part) {
        for kind in 0..12usize {
            let var: [f64; N] = std::array::from_fn(|i| [1.0, 0.25, 4.0, 9.0][(i + kind) % 4]);
            // covariance L D L^T, with one unit below the diagonal here and there
            let l: [[f64; N]; N] = std::array::from_fn(|i| std::array::from_fn(|j| if i == j { 1.0 } else if j < i && (i * 3 + j * 5 + kind) % 4 == 0 { 0.5 } else { 0.0 }));
            let cov: [[f64; N]; N] = std::array::from_fn(|i| std::array::from_fn(|j| (0..N).map(|k| l[i][k] * var[k] * l[j][k]).sum()));
            let mu: [f64; N] = std::array::from_fn(|i| i as f64 - 1.5);
            let m = MultivariateNormal::new(Vector::new(mu), Matrix::new(cov));
            let m32 = MultivariateNormal::new(Vector::new(mu.map(|x| x as f32)), Matrix::new(cov.map(|r| r.map(|x| x as f32))));
            for t in 0..40usize {
                let z: [f64; N] = std::array::from_fn(|i| ((t * (i + 3) + i * i) % 7) as f64 * 0.5 - 1.5);
                let x: [f64; N] = std::array::from_fn(|i| mu[i] + (0..N).map(|k| l[i][k] * z[k]).sum::<f64>());
                let w: f64 = (0..N).map(|i| (-0.5 * z[i] * z[i] / var[i]).exp() / (std::f64::consts::TAU * var[i]).sqrt()).product();
                let (g, g32) = (m.pdf(&Vector::new(x)), m32.pdf(&Vector::new(x.map(|v| v as f32))) as f64);
                p.step();
                p.states += 1;
                p.check((g - w).abs() <= 1e-9 * w && (g32 - w).abs() <= 2e-3 * w, "mvn-many", || format!("{N} dimensions, kind {kind}, at {x:?}: {g:e} and in f32 {g32:e}, expected {w:e}"));
            }
            // the same in other units: variances from 1e-5 to 1e5 (inverses refuse pivots near the resolution)
            for e in -10..=10 {
                let u = 10f64.powf(e as f64 * 0.25);
                let m = MultivariateNormal::new(Vector::new(mu.map(|x| x * u)), Matrix::new(cov.map(|r| r.map(|x| x * u * u))));
                for t in 0..8usize {
                    let z: [f64; N] = std::array::from_fn(|i| ((t * (i + 3) + i * i) % 7) as f64 * 0.5 - 1.5);
                    let x: [f64; N] = std::array::from_fn(|i| u * (mu[i] + (0..N).map(|k| l[i][k] * z[k]).sum::<f64>()));
                    let w: f64 = (0..N).map(|i| (-0.5 * z[i] * z[i] / var[i]).exp() / (std::f64::consts::TAU * var[i]).sqrt() / u).product();
                    let g = m.pdf(&Vector::new(x));
                    p.step();
                    p.states += 1;
                    p.check((g - w).abs() <= 1e-9 * w, "mvn-units", || format!("{N} dimensions, kind {kind}, unit {u:e}, at {x:?}: {g:e}, expected {w:e}"));
                }
            }
            // and far out, where little is left
            for d in [10.0, 20.0, 30.0, 37.0] {
                let x: [f64; N] = std::array::from_fn(|i| mu[i] + l[i][0] * d * var[0].sqrt());
                let w: f64 = (-0.5f64 * d * d).exp() * (0..N).map(|i| 1.0 / (std::f64::consts::TAU * var[i]).sqrt()).product::<f64>();
                let g = m.pdf(&Vector::new(x));
                p.step();
                p.check((g - w).abs() <= 1e-8 * w, "mvn-many", || format!("{N} dimensions, kind {kind}, {d} deviations out: {g:e}, expected {w:e}"));
            }
            p.traces += 1;
        }
    }
    dens::<1>(&mut p);
    dens::<2>(&mut p);
    dens::<3>(&mut p);
    dens::<4>(&mut p);
    dens::<5>(&mut p);
    dens::<6>(&mut p);
    dens::<8>(&mut p);
    // the other ways in, and the narrow type
    for mu in [-3.0f64, 0.0, 0.5, 100.0] {
        for sigma in [0.125f64, 1.0, 3.0] {
            let (a, g) = (Gaussian::new_f64(mu, sigma), Gaussian::<f32>::new(mu as f32, sigma as f32));
            p.check(a.mu == mu && a.sigma == sigma, "gaussian-new", || format!("new_f64({mu},{sigma}) = {a:?}"));
            for i in -60..=60 {
                let x = mu as f32 + (i as f32) * 0.125 * sigma as f32;
                let z = (x as f64 - mu) / sigma;
                let w = (-0.5 * z * z).exp() / (sigma * std::f64::consts::TAU.sqrt());
                p.check((g.pdf(x) as f64 - w).abs() <= 1e-5 * w, "density32", || format!("f32 Gaussian({mu},{sigma}).pdf({x}) = {:e}, expected {w:e}", g.pdf(x)));
                p.step();
            }
            for seed in 1..100u64 {
                let (mut s, mut t) = (XorShift64Star::new(seed), XorShift64Star::new(seed));
                let (x, z) = (g.sample(&mut s) as f64, t.normal01());
                p.check((x - (mu + sigma * z)).abs() <= 1e-5 * (mu.abs() + 10.0 * sigma), "variate32", || format!("f32 Gaussian({mu},{sigma}).sample from {seed} = {x}, standard normal {z}"));
                p.step();
            }
        }
    }
    r.absorb(p);
}

/// Densities of all small positive definite covariances, against cofactors.
fn mvn(r: &mut Run) {
    let deep = r.thorough;
    let d: Vec<i64> = if deep { vec![1, 2, 3, 5, 7] } else { vec![1, 2, 5] };
    let o: Vec<i64> = if deep { vec![-2, -1, 0, 1, 2] } else { vec![-1, 0, 1, 2] };
    let mut p = Part::default();
    for &a in &d {
        let g = Gaussian::new(1.5, (a as f64).sqrt());
        let m = MultivariateNormal::new(Vector::new([1.5]), Matrix::new([[a as f64]]));
        for i in -40..=40 {
            let x = i as f64 * 0.25;
            let (u, v) = (m.pdf(&Vector::new([x])), g.pdf(x));
            p.check((u - v).abs() <= 1e-12 * v + 1e-300, "mvn", || format!("one dimension, variance {a}, x={x}: {u:e} and {v:e}"));
            p.step();
            p.states += 1;
        }
        for &b in &d {
            for &c in &o {
                let det = a * b - c * c;
                if det <= 0 {
                    continue;
                }
                let m = MultivariateNormal::new(Vector::new([1.0, -2.0]), Matrix::new([[a as f64, c as f64], [c as f64, b as f64]]));
                let mut int = 0.0;
                let st = 0.5;
                for i in -40..=40 {
                    for j in -40..=40 {
                        let (x, y) = (i as f64 * st, j as f64 * st);
                        let (u, v) = (x - 1.0, y + 2.0);
                        let q = (b as f64 * u * u - 2.0 * c as f64 * u * v + a as f64 * v * v) / det as f64;
                        let w = (-0.5 * q).exp() / (std::f64::consts::TAU * (det as f64).sqrt());
                        let g = m.pdf(&Vector::new([x, y]));
                        p.states += 1;
                        p.step();
                        p.check((g - w).abs() <= 1e-11 * w * (1.0 + q) + 1e-300, "mvn", || format!("covariance [[{a},{c}],[{c},{b}]] at ({x},{y}): {g:e}, expected {w:e}"));
                        int += g * st * st;
                    }
                }
                p.traces += 1;
                // the grid sum of a Gaussian is exact to exp(-2 pi^2 lambda_min / step^2)
                let lmin = ((a + b) as f64 - (((a - b) * (a - b) + 4 * c * c) as f64).sqrt()) / 2.0;
                let err = 4.0 * (-2.0 * std::f64::consts::PI.powi(2) * lmin / (st * st)).exp() + 1e-6;
                p.check((int - 1.0).abs() <= err, "mvn", || format!("covariance [[{a},{c}],[{c},{b}]] integrates to {int}"));
                for &e in &d {
                    for &f in &o {
                        for &k in &o {
                            let mm = [[a, c, f], [c, b, k], [f, k, e]];
                            let det3 = a * (b * e - k * k) - c * (c * e - k * f) + f * (c * k - b * f);
                            if det3 <= 0 {
                                continue;
                            }
                            let inv = |i: usize, j: usize| -> i64 {
                                let (i1, i2) = ((j + 1) % 3, (j + 2) % 3);
                                let (j1, j2) = ((i + 1) % 3, (i + 2) % 3);
                                mm[i1][j1] * mm[i2][j2] - mm[i1][j2] * mm[i2][j1]
                            };
                            let m = MultivariateNormal::new(Vector::new([0.5, 0.0, -1.0]), Matrix::new(mm.map(|r| r.map(|x| x as f64))));
                            let mut w3 = words(4, 3);
                            while let Some(x) = w3.next() {
                                let x: Vec<f64> = x.iter().map(|i| [-1.5, 0.0, 1.0, 3.0][*i]).collect();
                                let u = [x[0] - 0.5, x[1], x[2] + 1.0];
                                let mut q = 0.0;
                                for i in 0..3 {
                                    for j in 0..3 {
                                        q += u[i] * inv(i, j) as f64 * u[j] / det3 as f64;
                                    }
                                }
                                let w = (-0.5 * q).exp() / (std::f64::consts::TAU.powf(1.5) * (det3 as f64).sqrt());
                                let g = m.pdf(&Vector::new([x[0], x[1], x[2]]));
                                p.states += 1;
                                p.step();
                                p.check((g - w).abs() <= 1e-10 * w * (1.0 + q) + 1e-300, "mvn", || format!("covariance {mm:?} at {x:?}: {g:e}, expected {w:e}"));
                            }
                            p.traces += 1;
                        }
                    }
                }
            }
        }
    }
    r.absorb(p);
}

pub fn s01(r: &mut Run) {
    let deep = r.thorough;
    for len in 0..=(if deep { 8 } else { 6 }) {
        for q in par(if len == 0 { 1 } else { 5 }, |p, i| samples::<1>(p, len, i as usize)) {
            r.absorb(q);
        }
    }
    for len in 0..=(if deep { 4 } else { 3 }) {
        for q in par(if len == 0 { 1 } else { 25 }, |p, i| samples::<2>(p, len, i as usize)) {
            r.absorb(q);
        }
    }
    for len in 0..=(if deep { 3 } else { 2 }) {
        for q in par(if len == 0 { 1 } else { 125 }, |p, i| samples::<3>(p, len, i as usize)) {
            r.absorb(q);
        }
    }
    r.section("sample statistics");
    gaussian(r);
    r.section("Gaussian");
    discrete(r);
    r.section("Bernoulli and categorical");
    mvn(r);
    r.section("multivariate normal");
    longs(r);
    r.section("long samples and many dimensions");
    r.sample(|| "all samples of up to 6 values from {-3,-1,0,2,5} in one dimension, 3 vectors in two, 2 in three".into());
    r.bounds.push("complete over the listed value sets and lengths; covariances positive definite with small integer entries, decided by exact minors".into());
    r.assumptions.push("variances at most the machine epsilon count as zero".into());
}
