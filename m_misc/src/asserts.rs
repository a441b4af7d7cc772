//! X01: the test assertions accept exactly what they say.
use aether_core::math::{Matrix, Vector};
use aether_test::assert::function::*;
use aether_test::assert::matrix::*;
use aether_test::assert::vector::*;
use mckit::*;

const A: [f64; 8] = [0.0, 1.0, 1.0 + 0.5e-3, 1.0 + 2e-3, -1.0, f64::INFINITY, f64::NEG_INFINITY, f64::NAN];
const TOL: [f64; 4] = [0.0, 1e-3, 1.5e-3, 10.0];
fn near(x: f64, y: f64, t: f64) -> bool {
    x == y || (x - y).abs() <= t
}
fn same(a: f64, b: f64) -> bool {
    (a.is_nan() && b.is_nan()) || a == b || (a - b).abs() <= 1e-12 * a.abs().max(1.0)
}
fn sup(d: impl Iterator<Item = f64>) -> f64 {
    d.fold(0.0, |m, x| if m.is_nan() || x.is_nan() { f64::NAN } else if x > m { x } else { m })
}
fn pair<const M: usize, const N: usize>(p: &mut Part, k: &[usize]) {
    let a = Matrix::<f64, M, N>::new(std::array::from_fn(|i| std::array::from_fn(|j| A[k[i * N + j]])));
    let b = Matrix::<f64, M, N>::new(std::array::from_fn(|i| std::array::from_fn(|j| A[k[M * N + i * N + j]])));
    p.states += 1;
    p.traces += 1;
    let at = || format!("{:?} and {:?}", a.data, b.data);
    for t in TOL {
        p.steps_n(2);
        let first = (0..M * N).find(|q| !near(a.data[q / N][q % N], b.data[q / N][q % N], t));
        // equal infinities differ by NaN: either verdict is acceptable there
        if (0..first.unwrap_or(M * N)).any(|q| a.data[q / N][q % N].is_infinite()) {
            continue;
        }
        match (matrix_approx_eq(&a, &b, t), first) {
            (Ok(()), None) => {}
            (Err(MatrixAssertError::ValueMismatch { row, col, left, right, diff }), Some(q)) => {
                p.check((row, col) == (q / N, q % N) && same(left, a.data[row][col]) && same(right, b.data[row][col]) && same(diff, (left - right).abs()), "matrix-mismatch-place", || format!("{} within {t}: reported ({row}, {col}) {left} {right}", at()));
            }
            (g, w) => p.fail("matrix-approx", || format!("{} within {t}: {g:?}, first mismatch {w:?}", at())),
        }
        let g = guard(|| assert_matrix_approx_eq(&a, &b, t));
        p.check(g.is_ok() == first.is_none(), "matrix-assert", || format!("{} within {t}: assertion {g:?}", at()));
    }
    let d = sup((0..M * N).map(|q| {
        let (x, y) = (a.data[q / N][q % N], b.data[q / N][q % N]);
        (x - y).abs()
    }));
    let rest = (0..M * N).map(|q| (a.data[q / N][q % N] - b.data[q / N][q % N]).abs()).filter(|x| !x.is_nan()).fold(0.0, f64::max);
    let g = matrix_max_abs_diff(&a, &b);
    p.check(same(g, d), if d.is_nan() && same(g, rest) { "matrix-max-diff-nan" } else { "matrix-max-diff" }, || format!("{}: {g}, expected {d}", at()));
    let f = (0..M * N).map(|q| (a.data[q / N][q % N] - b.data[q / N][q % N]).powi(2)).sum::<f64>().sqrt();
    let n = (0..M * N).map(|q| a.data[q / N][q % N].powi(2)).sum::<f64>().sqrt();
    p.check(same(matrix_diff_frobenius(&a, &b), f) && same(matrix_frobenius_norm(&a), n), "frobenius", || format!("{}: {} {}", at(), matrix_diff_frobenius(&a, &b), matrix_frobenius_norm(&a)));
    let fin = a.data.iter().flatten().all(|x| x.is_finite());
    p.check(guard(|| assert_matrix_finite(&a)).is_ok() == fin, "matrix-finite", || format!("{:?}", a.data));
    p.outcomes.insert(h(&k.iter().map(|x| (*x > 4) as u8).collect::<Vec<_>>()));
}
fn vecs<const N: usize>(p: &mut Part, k: &[usize]) {
    let a = Vector::<f64, N>::new(std::array::from_fn(|i| A[k[i]]));
    let b = Vector::<f64, N>::new(std::array::from_fn(|i| A[k[N + i]]));
    p.states += 1;
    p.traces += 1;
    let at = || format!("{:?} and {:?}", a.data, b.data);
    for t in TOL {
        p.steps_n(2);
        let first = (0..N).find(|&q| !near(a.data[q], b.data[q], t));
        if (0..first.unwrap_or(N)).any(|q| a.data[q].is_infinite()) {
            continue;
        }
        match (vector_approx_eq(&a, &b, t), first) {
            (Ok(()), None) => {}
            (Err(VectorAssertError::ValueMismatch { index, left, right, diff }), Some(q)) => {
                p.check(index == q && same(left, a.data[q]) && same(right, b.data[q]) && same(diff, (left - right).abs()), "vector-mismatch-place", || format!("{} within {t}: reported {index} {left} {right}", at()));
            }
            (g, w) => p.fail("vector-approx", || format!("{} within {t}: {g:?}, first mismatch {w:?}", at())),
        }
        let g = guard(|| assert_vector_approx_eq(&a, &b, t));
        p.check(g.is_ok() == first.is_none(), "vector-assert", || format!("{} within {t}: assertion {g:?}", at()));
    }
    let d = sup((0..N).map(|q| (a.data[q] - b.data[q]).abs()));
    let rest = (0..N).map(|q| (a.data[q] - b.data[q]).abs()).filter(|x| !x.is_nan()).fold(0.0, f64::max);
    let g = vector_max_abs_diff(&a, &b);
    p.check(same(g, d), if d.is_nan() && same(g, rest) { "vector-max-diff-nan" } else { "vector-max-diff" }, || format!("{}: {g}, expected {d}", at()));
    let fin = a.data.iter().all(|x| x.is_finite());
    p.check(guard(|| assert_vector_finite(&a)).is_ok() == fin, "vector-finite", || format!("{:?}", a.data));
}
fn symmetric<const N: usize>(p: &mut Part, k: &[usize]) {
    let a = Matrix::<f64, N, N>::new(std::array::from_fn(|i| std::array::from_fn(|j| A[k[i * N + j]])));
    for t in TOL {
        p.steps_n(1);
        // infinities of one sign differ by NaN: either verdict is acceptable there
        let mut sure = true;
        let mut want = true;
        for i in 0..N {
            for j in 0..i {
                let (x, y) = (a.data[i][j], a.data[j][i]);
                if x.is_infinite() && x == y {
                    sure = false;
                } else if !near(x, y, t) {
                    want = false;
                }
            }
        }
        if sure || !want {
            let g = guard(|| assert_matrix_symmetric(&a, t));
            p.check(g.is_ok() == want, "symmetric", || format!("{:?} within {t}: {g:?}", a.data));
        }
    }
    p.states += 1;
    p.traces += 1;
}
pub fn x01(r: &mut Run) {
    r.bounds.push("all pairs of matrices and vectors of up to 3 cells over 8 values with NaN and both infinities, 4 tolerances; every single cell of shapes up to 12 x 12 and vectors of 130; all error words over a grid, single bad points on grids of up to 20000".into());
    let deep = r.thorough;
    for part in par(64, |p, i| {
        let pre = [i as usize / 8, i as usize % 8];
        let each = |n: usize, f: &mut dyn FnMut(&[usize])| {
            let mut w = words(8, n - 2);
            while let Some(k) = w.next() {
                let mut full = pre.to_vec();
                full.extend_from_slice(k);
                f(&full);
            }
        };
        each(2, &mut |k| {
            pair::<1, 1>(p, k);
            vecs::<1>(p, k);
        });
        each(4, &mut |k| {
            pair::<1, 2>(p, k);
            pair::<2, 1>(p, k);
            vecs::<2>(p, k);
            symmetric::<2>(p, k);
        });
        if deep {
            each(6, &mut |k| {
                pair::<3, 1>(p, k);
                pair::<1, 3>(p, k);
                vecs::<3>(p, k);
            });
        }
        // one cell differs in a larger shape
        for at in 0..9 {
            for q in 0..2 {
                for n in [9usize, 6, 12] {
                    if at < n {
                        let mut k = vec![1usize; 2 * n];
                        k[at + q * n] = pre[0];
                        k[(at * 5 + 3) % n + (1 - q) * n] = pre[1];
                        match n {
                            9 => {
                                pair::<3, 3>(p, &k);
                                symmetric::<3>(p, &k[..9]);
                                symmetric::<3>(p, &k[9..]);
                                vecs::<9>(p, &k);
                            }
                            6 => {
                                pair::<2, 3>(p, &k);
                                pair::<3, 2>(p, &k);
                            }
                            _ => {
                                pair::<4, 3>(p, &k);
                                pair::<3, 4>(p, &k);
                            }
                        }
                    }
                }
            }
        }
    }) {
        r.absorb(part);
    }
    r.section("matrices and vectors");
    // every cell of large shapes, alone and with a later or larger one
    fn wide<const M: usize, const N: usize>(p: &mut Part) {
        for at in 0..M * N {
            for v in [2usize, 3, 4, 7] {
                for other in [None, Some((at + 1) % (M * N)), Some(M * N - 1), Some(0)] {
                    let mut k = vec![1usize; 2 * M * N];
                    k[at + if v % 2 == 0 { M * N } else { 0 }] = v;
                    if let Some(o) = other {
                        k[o] = 4;
                    }
                    pair::<M, N>(p, &k);
                }
            }
        }
    }
    fn wider<const N: usize>(p: &mut Part) {
        wide::<N, N>(p);
        for at in 0..N * N {
            for v in [2usize, 3, 4, 7] {
                let mut k = vec![1usize; N * N];
                k[at] = v;
                symmetric::<N>(p, &k);
                k[at / N + at % N * N] = v;
                symmetric::<N>(p, &k);
            }
        }
    }
    fn longer<const N: usize>(p: &mut Part) {
        for at in 0..N {
            for v in [2usize, 3, 4, 7] {
                for other in [None, Some((at + 1) % N), Some(N - 1), Some(0)] {
                    let mut k = vec![1usize; 2 * N];
                    k[at + if v % 2 == 0 { N } else { 0 }] = v;
                    if let Some(o) = other {
                        k[o] = 4;
                    }
                    vecs::<N>(p, &k);
                }
            }
        }
    }
    for part in par(14, |p, i| match i {
        0 => wider::<4>(p),
        1 => wider::<5>(p),
        2 => wider::<6>(p),
        3 => wider::<8>(p),
        4 => wider::<9>(p),
        5 => wider::<12>(p),
        6 => wide::<1, 20>(p),
        7 => wide::<20, 1>(p),
        8 => wide::<2, 17>(p),
        9 => wide::<17, 3>(p),
        10 => longer::<16>(p),
        11 => longer::<17>(p),
        12 => longer::<64>(p),
        _ => longer::<130>(p),
    }) {
        r.absorb(part);
    }
    r.section("larger matrices and vectors");
    // functions: the error at each grid point is a letter
    let e = [0.0, 0.5, -0.75, 2.0, f64::NAN, f64::INFINITY];
    let top = if deep { 6 } else { 5 };
    for n in 1..=top {
        let mut w = words(e.len(), n + 1);
        while let Some(k) = w.next() {
            for (a, b) in [(0.0, 1.0), (-2.0, 3.0), (5.0, 1.0)] {
                let ix = |x: f64| ((x - a) / (b - a) * n as f64).round() as usize;
                for tol in [0.0, 0.5, 1.0] {
                    r.step();
                    let g = guard(|| assert_max_abs_error_on_grid(|x| (ix(x) % 2) as f64, |x| (ix(x) % 2) as f64 + e[k[ix(x)]], a, b, n, tol));
                    let worst = sup(k.iter().map(|&i| e[i].abs()));
                    let want = worst <= tol + 1e-12;
                    // a NaN with every other error within tolerance is a case of its own
                    let nan = worst.is_nan() && k.iter().all(|&i| e[i].is_nan() || e[i].abs() <= tol);
                    r.check(g.is_ok() == want, if nan { "grid-nan" } else { "grid" }, || format!("errors {:?} on [{a}, {b}] within {tol}: {g:?}", k.iter().map(|i| e[*i]).collect::<Vec<_>>()));
                    if let Ok((x, m)) = g {
                        if want {
                            r.check((m - worst).abs() < 1e-9 && (worst == 0.0 || (e[k[ix(x)]].abs() - worst).abs() < 1e-9), "grid-worst", || format!("errors {:?} on [{a}, {b}]: worst {m} at {x}", k.iter().map(|i| e[*i]).collect::<Vec<_>>()));
                        }
                    }
                }
            }
            r.states_distinct(1);
            r.trace();
        }
    }
    // long grids with one bad point, and a worst one
    for n in [10usize, 64, 100, 255, 256, 1000, 1024, 4097, 20_000] {
        for at in [0, 1, 2, n / 3, n / 2, n - 2, n - 1, n] {
            for bad in [0.75, -2.0, f64::NAN, f64::NEG_INFINITY] {
                for tol in [0.5, 1.0] {
                    let ix = |x: f64| ((x + 1.0) / 3.0 * n as f64).round() as usize;
                    let g = guard(|| assert_max_abs_error_on_grid(|x| x, |x| x + if ix(x) == at { bad } else { 0.25 }, -1.0, 2.0, n, tol));
                    let want = bad.abs() <= tol;
                    r.step();
                    r.states_distinct(1);
                    r.check(g.is_ok() == want && g.as_ref().map_or(true, |(x, m)| (*m - bad.abs()).abs() < 1e-9 && ix(*x) == at), if bad.is_nan() { "grid-nan" } else { "grid" }, || format!("error {bad} at point {at} of {n} within {tol}: {g:?}"));
                }
            }
        }
    }
    r.check(guard(|| assert_max_abs_error_on_grid(|x| x, |x| x, 0.0, 1.0, 0, 1.0)).is_err(), "grid", || "no samples are accepted".into());
    r.section("functions");
}
