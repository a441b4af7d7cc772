//! M03: LU, Cholesky, inverses and determinants against exact integer algebra.
use aether_core::math::{Matrix, Vector};
use aether_core::real::Real;
use mckit::{Part, Run, h, par};

type Im<const N: usize> = [[i64; N]; N];

/// Exact determinant of the leading k x k block (fraction-free elimination).
fn det<const N: usize>(a: &Im<N>, k: usize) -> i128 {
    let mut m: Vec<Vec<i128>> = (0..k).map(|i| (0..k).map(|j| a[i][j] as i128).collect()).collect();
    let mut sign = 1;
    let mut prev = 1i128;
    for c in 0..k {
        let Some(p) = (c..k).find(|&i| m[i][c] != 0) else { return 0 };
        if p != c {
            m.swap(p, c);
            sign = -sign;
        }
        for i in c + 1..k {
            for j in c + 1..k {
                m[i][j] = (m[i][j] * m[c][c] - m[i][c] * m[c][j]) / prev;
            }
        }
        prev = m[c][c];
    }
    sign * prev
}
fn real<T: Real, const N: usize>(a: &Im<N>) -> Matrix<T, N, N> {
    Matrix { data: a.map(|r| r.map(|x| T::from_f64(x as f64))) }
}
/// max |A x - b|
fn resid<T: Real, const N: usize>(a: &Im<N>, x: &[T; N], b: &[i64; N]) -> f64 {
    (0..N).map(|i| ((0..N).map(|j| a[i][j] as f64 * x[j].to_f64()).sum::<f64>() - b[i] as f64).abs()).fold(0.0, f64::max)
}
fn ident_err<const N: usize>(a: &Im<N>, x: &dyn Fn(usize, usize) -> f64) -> f64 {
    let mut e: f64 = 0.0;
    for i in 0..N {
        for j in 0..N {
            let d = (i == j) as i64 as f64;
            e = e.max(((0..N).map(|k| a[i][k] as f64 * x(k, j)).sum::<f64>() - d).abs());
            e = e.max(((0..N).map(|k| x(i, k) * a[k][j] as f64).sum::<f64>() - d).abs());
        }
    }
    if e.is_nan() { f64::INFINITY } else { e }
}
fn bad(e: f64, tol: f64) -> bool {
    !(e <= tol)
}

/// `inv3` is the closed-form inverse where the type has one.
fn one<T: Real, const N: usize>(p: &mut Part, a: &Im<N>, unit: f64, inv3: Option<&dyn Fn(&Matrix<T, N, N>) -> Option<Matrix<T, N, N>>>) {
    one_of(p, a, unit, inv3, det(a, N) as f64)
}
/// The same where the determinant is known otherwise.
fn one_of<T: Real, const N: usize>(p: &mut Part, a: &Im<N>, unit: f64, inv3: Option<&dyn Fn(&Matrix<T, N, N>) -> Option<Matrix<T, N, N>>>, d: f64) {
    let m = real::<T, N>(a);
    p.states += 1;
    p.traces += 1;
    p.step();
    let got = m.determinant().to_f64();
    p.check((got - d).abs() <= unit * (1.0 + d.abs()), "determinant", || format!("determinant {a:?} = {got}, exact {d}"));
    let lu = m.lu_decompose();
    p.outcomes.insert(h(&[(d == 0.0) as u8, lu.is_some() as u8]));
    // `tol` grows with the conditioning: entries are small integers, |inverse| <= |adjugate|
    let tol = unit * 1e2;
    if d != 0.0 {
        let Some(lu) = lu else {
            p.fail("lu-refused", || format!("lu_decompose refused {a:?} with determinant {d}"));
            return;
        };
        let mut seen = [false; N];
        lu.piv.iter().for_each(|&x| seen[x.min(N - 1)] = true);
        let mut inv = 0;
        for i in 0..N {
            for j in 0..i {
                inv += (lu.piv[j] > lu.piv[i]) as i32;
            }
        }
        let sign = if inv % 2 == 0 { 1 } else { -1 };
        p.check(seen.iter().all(|&s| s) && lu.sign == sign, "lu-perm", || format!("{a:?}: row permutation {:?} sign {}", lu.piv, lu.sign));
        let mut e: f64 = 0.0;
        let mut big = false;
        for i in 0..N {
            for j in 0..N {
                let s: f64 = (0..=i.min(j)).map(|k| if k == i { 1.0 } else { lu.lu.data[i][k].to_f64() } * lu.lu.data[k][j].to_f64()).sum();
                e = e.max((s - a[lu.piv[i]][j] as f64).abs());
                big |= j < i && lu.lu.data[i][j].to_f64().abs() > 1.0 + 1e-6;
            }
        }
        p.check(!bad(e, tol) && !big, "lu-factors", || format!("{a:?}: L*U misses the permuted matrix by {e}, multiplier over 1: {big}"));
        let mut rhs: Vec<[i64; N]> = (0..N).map(|k| core::array::from_fn(|i| (i == k) as i64)).collect();
        rhs.push(core::array::from_fn(|i| [3, -1, 4, 2, -5, 7][i % 6]));
        let mut cols = Matrix::<T, N, 9>::zeros();
        for (c, b) in rhs.iter().enumerate() {
            let v = Vector { data: b.map(|x| T::from_f64(x as f64)) };
            for (nm, x) in [("lu.solve", Some(lu.solve(&v))), ("solve", m.solve(&v))] {
                p.step();
                let e = x.map_or(f64::INFINITY, |x| resid(a, &x.data, b));
                p.check(!bad(e, tol), nm, || format!("{nm} {a:?} x = {b:?} -> {x:?}, residual {e}"));
            }
            for k in 0..9 {
                if (c + k) % rhs.len() == 0 || k == 0 {
                    for i in 0..N {
                        cols.data[i][k] = v.data[i] + T::from_f64(k as f64);
                    }
                }
            }
        }
        for (nm, x) in [("lu.solve_multi", Some(lu.solve_multi(&cols))), ("solve_multi", m.solve_multi(&cols))] {
            p.step();
            let e = x.map_or(f64::INFINITY, |x| (0..9).map(|k| {
                let xs: [T; N] = core::array::from_fn(|i| x.data[i][k]);
                let bs: [i64; N] = core::array::from_fn(|i| cols.data[i][k].to_f64() as i64);
                let e = resid(a, &xs, &bs);
                if e.is_nan() { f64::INFINITY } else { e }
            }).fold(0.0, f64::max));
            p.check(!bad(e, tol), nm, || format!("{nm} {a:?} X = {:?}, residual {e}", cols.data));
        }
    } else {
        // a singular matrix is refused, or its last pivots are at rounding level
        p.check(lu.is_none_or(|l| (0..N).any(|i| l.lu.data[i][i].to_f64().abs() <= unit)), "lu-singular", || format!("lu_decompose accepted the singular {a:?} with pivots of ordinary size"));
    }
    let mut invs: Vec<(&str, Option<Matrix<T, N, N>>)> = vec![("inverse_gauss_jordan", m.inverse_gauss_jordan())];
    if let Some(f) = inv3 {
        invs.push(("inverse", f(&m)));
    }
    for (nm, x) in invs {
        p.step();
        match x {
            Some(x) if d != 0.0 => {
                let e = ident_err(a, &|i, j| x.data[i][j].to_f64());
                p.check(!bad(e, tol), nm, || format!("{nm} {a:?} = {:?}: product misses the identity by {e}", x.data));
            }
            None if d != 0.0 => p.fail(nm, || format!("{nm} refused {a:?} with determinant {d}")),
            Some(x) => {
                // only at rounding level, where a huge inverse gives it away
                p.check(x.max_abs().to_f64() > 1.0 / (unit * 1e3), nm, || format!("{nm} inverted the singular {a:?}: {:?}", x.data));
            }
            None => {}
        }
    }
}
fn spd<T: Real, const N: usize>(p: &mut Part, a: &Im<N>, unit: f64) {
    spd_of::<T, N>(p, a, unit, (1..=N).map(|k| det(a, k)).find(|&d| d <= 0))
}
/// The same where the first leading minor that is not positive is known otherwise.
fn spd_of<T: Real, const N: usize>(p: &mut Part, a: &Im<N>, unit: f64, first: Option<i128>) {
    let m = real::<T, N>(a);
    p.states += 1;
    p.traces += 1;
    p.step();
    let c = m.cholesky_lower();
    p.outcomes.insert(h(&[2, c.is_some() as u8, first.is_none() as u8]));
    match first {
        Some(d) if d < 0 => {
            p.check(c.is_none() && m.cholesky_solve(&Vector { data: [T::ONE; N] }).is_none(), "chol-indefinite", || format!("cholesky_lower accepted the indefinite {a:?}"));
        }
        Some(_) => {
            p.check(c.is_none_or(|c| (0..N).any(|i| c.l.data[i][i].to_f64().abs() <= unit.sqrt() * 30.0)), "chol-singular", || format!("cholesky_lower accepted the semidefinite {a:?}"));
        }
        None => {
            let Some(c) = c else {
                p.fail("chol-refused", || format!("cholesky_lower refused the positive definite {a:?}"));
                return;
            };
            let mut e: f64 = 0.0;
            let mut shape = true;
            for i in 0..N {
                for j in 0..N {
                    let s: f64 = (0..N).map(|k| c.l.data[i][k].to_f64() * c.l.data[j][k].to_f64()).sum();
                    e = e.max((s - a[i][j] as f64).abs());
                    shape &= j <= i || c.l.data[i][j].to_f64() == 0.0;
                }
                shape &= c.l.data[i][i].to_f64() > 0.0;
            }
            p.check(!bad(e, unit * 1e2) && shape, "chol-factor", || format!("{a:?}: L*L^T off by {e}; lower triangular with positive diagonal: {shape}; L={:?}", c.l.data));
            for b in [core::array::from_fn(|i| [3i64, -1, 4, 2][i % 4]), core::array::from_fn(|i| (i == 0) as i64), core::array::from_fn(|i| (i + 1 == N) as i64)] {
                let v = Vector { data: b.map(|x: i64| T::from_f64(x as f64)) };
                for x in [Some(c.solve(&v)), m.cholesky_solve(&v)] {
                    let e = x.map_or(f64::INFINITY, |x| resid(a, &x.data, &b));
                    p.step();
                    p.check(!bad(e, unit * 1e3), "chol-solve", || format!("cholesky solve {a:?} x = {b:?}: {x:?} residual {e}"));
                }
            }
        }
    }
}
fn decode<const N: usize>(mut i: u64, dom: &[i64]) -> Im<N> {
    core::array::from_fn(|_| {
        core::array::from_fn(|_| {
            let x = dom[(i % dom.len() as u64) as usize];
            i /= dom.len() as u64;
            x
        })
    })
}
fn perm(mut k: u64, n: usize) -> Vec<usize> {
    let mut pool: Vec<usize> = (0..n).collect();
    (0..n).map(|i| {
        let m = (n - i) as u64;
        let x = pool.remove((k % m) as usize);
        k /= m;
        x
    }).collect()
}

/// Badly graded matrices: residuals stay at rounding level of |A||x| only with row exchanges.
fn graded<const N: usize>(p: &mut Part, i: u64, dom: &[i64]) {
    // entries in units of 2^-24
    let a = decode::<N>(i, dom);
    let one: i64 = 1 << 24;
    let m = Matrix::<f64, N, N> { data: a.map(|r| r.map(|x| x as f64 / one as f64)) };
    let d = det(&a, N) as f64 / 2f64.powi(24 * N as i32);
    p.states += 1;
    p.traces += 1;
    let b: [f64; N] = core::array::from_fn(|i| [3.0, -1.0, 4.0, 2.0][i % 4]);
    let v = Vector { data: b };
    let sols = [
        ("graded solve", m.solve(&v)),
        ("graded solve_multi", m.solve_multi(&v.col()).map(|x| Vector { data: core::array::from_fn(|i| x.data[i][0]) })),
    ];
    for (nm, x) in sols {
        p.step();
        let Some(x) = x else {
            p.check(d.abs() < 1e-8, nm, || format!("{nm}: {:?} with determinant {d} refused", m.data));
            continue;
        };
        if d == 0.0 { continue }
        let xm = x.data.iter().fold(0.0f64, |s, c| s.max(c.abs()));
        let e = (0..N).map(|i| ((0..N).map(|j| m.data[i][j] * x.data[j]).sum::<f64>() - b[i]).abs()).fold(0.0, |s: f64, c| if c.is_nan() { f64::INFINITY } else { s.max(c) });
        p.check(e <= 1e-13 * (4.0 * xm + 4.0) * N as f64, nm, || format!("{nm}: {:?} x = {b:?} -> {x:?}: residual {e}", m.data));
    }
    if let (Some(x), true) = (m.inverse_gauss_jordan(), d != 0.0) {
        p.step();
        // column j solves A x = e_j
        for j in 0..N {
            let xm = (0..N).fold(0.0f64, |s, i| s.max(x.data[i][j].abs()));
            let am = x.max_abs();
            let e = (0..N).map(|i| ((0..N).map(|k| m.data[i][k] * x.data[k][j]).sum::<f64>() - (i == j) as i64 as f64).abs()).fold(0.0, |s: f64, c| if c.is_nan() { f64::INFINITY } else { s.max(c) });
            p.check(e <= 1e-12 * (4.0 * xm + 4.0 * am + 4.0) * N as f64, "graded inverse", || format!("inverse_gauss_jordan {:?}: column {j} off by {e}", m.data));
        }
    } else {
        p.check(d.abs() < 1e-8 || m.inverse_gauss_jordan().is_some(), "graded inverse", || format!("{:?} refused", m.data));
    }
}

/// Rows and columns of very different size: S^-1 (L U) S with unit triangular L and U over
/// {-1, 0, 1} and S = diag(1, 2^g, 2^2g, ..), times a power of two.  With large g every pivot
/// is that power, and all arithmetic is exact.
fn scaled<const N: usize>(p: &mut Part, i: u64, g: i32, unit: i32) -> (Matrix<f64, N, N>, Matrix<f64, N, N>) {
    let one = 2f64.powi(unit);
    let n = N * (N - 1) / 2;
    let digit = |k: usize| (i / 3u64.pow(k as u32)) as i64 % 3 - 1;
    let at = |i: usize, j: usize| i * (i - 1) / 2 + j;
    let l: Im<N> = core::array::from_fn(|i| core::array::from_fn(|j| if i == j { 1 } else if j < i { digit(at(i, j)) } else { 0 }));
    let u: Im<N> = core::array::from_fn(|i| core::array::from_fn(|j| if i == j { 1 } else if i < j { digit(n + at(j, i)) } else { 0 }));
    let mul = |a: &Im<N>, b: &Im<N>| -> Im<N> { core::array::from_fn(|i| core::array::from_fn(|j| (0..N).map(|k| a[i][k] * b[k][j]).sum())) };
    let lu = mul(&l, &u);
    // inverses of the triangles, column by column
    let (mut li, mut ui) = ([[0i64; N]; N], [[0i64; N]; N]);
    for c in 0..N {
        for i in 0..N {
            li[i][c] = (i == c) as i64 - (0..i).map(|k| l[i][k] * li[k][c]).sum::<i64>();
        }
        for i in (0..N).rev() {
            ui[i][c] = (i == c) as i64 - (i + 1..N).map(|k| u[i][k] * ui[k][c]).sum::<i64>();
        }
    }
    let inv = mul(&ui, &li);
    let s = |i: usize, j: usize| 2f64.powi(g * (j as i32 - i as i32));
    let m = Matrix::<f64, N, N> { data: core::array::from_fn(|i| core::array::from_fn(|j| lu[i][j] as f64 * s(i, j) * one)) };
    p.states += 1;
    p.traces += 1;
    p.step();
    let what = || format!("{:?} (grades 2^{g}, unit 2^{unit})", m.data);
    let d = m.determinant();
    p.check((d / one.powi(N as i32) - 1.0).abs() <= 1e-9, "scaled determinant", || format!("determinant {} = {d:e}, exact {:e}", what(), one.powi(N as i32)));
    let close = |x: f64, e: i64, i: usize, j: usize| (x - e as f64 * s(i, j)).abs() <= 1e-9 * s(i, j);
    let x = m.inverse_gauss_jordan();
    p.check(x.is_some_and(|x| (0..N).all(|i| (0..N).all(|j| close(x.data[i][j] * one, inv[i][j], i, j)))), "scaled inverse", || format!("inverse_gauss_jordan {} = {x:?}", what()));
    // A x = b with x of the natural size of its row
    let y: [i64; N] = core::array::from_fn(|i| [3, -1, 4, 2][i % 4]);
    let b = Vector { data: core::array::from_fn(|i| (0..N).map(|j| lu[i][j] * y[j]).sum::<i64>() as f64 * s(i, 0) * one) };
    let sols = [
        ("scaled solve", m.solve(&b)),
        ("scaled solve_multi", m.solve_multi(&b.col()).map(|x| Vector { data: core::array::from_fn(|i| x.data[i][0]) })),
        ("scaled lu.solve", m.lu_decompose().map(|l| l.solve(&b))),
    ];
    for (nm, x) in sols {
        p.check(x.is_some_and(|x| (0..N).all(|i| close(x.data[i], y[i], i, 0))), nm, || format!("{nm} {} x = {b:?} -> {x:?}, exact {y:?} graded", what()));
    }
    (m, Matrix { data: core::array::from_fn(|i| core::array::from_fn(|j| inv[i][j] as f64 * s(i, j) / one)) })
}

/// S L D L^T S times a power of four, L unit lower triangular over {-1, 0, 1}, S graded by powers
/// of two and D of powers of four, one of them perhaps zero: all arithmetic is exact.
fn squares<const N: usize>(p: &mut Part, i: u64, g: i32, unit: i32, zero: Option<usize>) {
    let at = |i: usize, j: usize| i * (i - 1) / 2 + j;
    let l: Im<N> = core::array::from_fn(|r| core::array::from_fn(|c| if r == c { 1 } else if c < r { (i / 3u64.pow(at(r, c) as u32)) as i64 % 3 - 1 } else { 0 }));
    let d: [i64; N] = core::array::from_fn(|k| if zero == Some(k) { 0 } else { [1, 4, 16, 1][(k + i as usize) % 4] });
    let s = |i: usize| 2f64.powi(g * i as i32 + unit);
    let a: Im<N> = core::array::from_fn(|i| core::array::from_fn(|j| (0..N).map(|k| l[i][k] * d[k] * l[j][k]).sum()));
    let m = Matrix::<f64, N, N> { data: core::array::from_fn(|i| core::array::from_fn(|j| a[i][j] as f64 * s(i) * s(j))) };
    let what = || format!("{:?} (grades 2^{g}, unit 4^{unit}, pivots {d:?})", m.data);
    p.states += 1;
    p.traces += 1;
    p.step();
    let c = m.cholesky_lower();
    p.outcomes.insert(h(&[3, c.is_some() as u8, zero.is_some() as u8]));
    let y: [i64; N] = core::array::from_fn(|i| [3, -1, 4, 2][i % 4]);
    let b = Vector { data: core::array::from_fn(|i| (0..N).map(|j| a[i][j] * y[j]).sum::<i64>() as f64 * s(i)) };
    if zero.is_some() {
        p.check(c.is_none() && m.cholesky_solve(&b).is_none(), "scaled chol-singular", || format!("cholesky_lower accepted the semidefinite {}", what()));
        return;
    }
    let Some(c) = c else {
        p.fail("scaled chol-refused", || format!("cholesky_lower refused {}", what()));
        return;
    };
    let ok = (0..N).all(|i| (0..N).all(|j| (c.l.data[i][j] - l[i][j] as f64 * (d[j] as f64).sqrt() * s(i)).abs() <= 1e-9 * s(i)));
    p.check(ok, "scaled chol-factor", || format!("cholesky_lower {} = {:?}", what(), c.l.data));
    for (nm, x) in [("scaled chol.solve", Some(c.solve(&b))), ("scaled cholesky_solve", m.cholesky_solve(&b))] {
        p.check(x.is_some_and(|x| (0..N).all(|i| (x.data[i] * s(i) - y[i] as f64).abs() <= 1e-9)), nm, || format!("{nm} {} x = {b:?} -> {x:?}, exact {y:?} graded", what()));
    }
}

/// Full matrices of any size: a diagonal plus a rank-one term, rows in another order.
/// Determinant D1..Dn (1 + sum u v / D), all leading minors likewise.
fn large<const N: usize>(p: &mut Part, k: u64, unit32: f64) {
    let s = k as i64;
    let u: [i64; N] = core::array::from_fn(|i| (i as i64 * 5 + s) % 3 - 1);
    let v: [i64; N] = core::array::from_fn(|i| (i as i64 * 7 + 2 * s) % 5 - 2);
    let n = N as i64;
    let d: [i64; N] = core::array::from_fn(|i| (2 * n + 3 + (i as i64 * 3 + s) % 7) * if (i as i64 + s) % 4 == 1 { -1 } else { 1 });
    // every shift of the rows, every second one reversed
    let o: Vec<usize> = (0..N).map(|i| if k % 2 == 1 { N - 1 - (i + k as usize / 2) % N } else { (i + k as usize / 2) % N }).collect();
    let a: Im<N> = core::array::from_fn(|i| core::array::from_fn(|j| u[o[i]] * v[j] + if o[i] == j { d[j] } else { 0 }));
    let mut sign = 1.0;
    for i in 0..N {
        for j in 0..i {
            if o[j] > o[i] {
                sign = -sign;
            }
        }
    }
    let det = sign * d.iter().map(|x| *x as f64).product::<f64>() * (1.0 + (0..N).map(|i| (u[i] * v[i]) as f64 / d[i] as f64).sum::<f64>());
    self::one_of::<f64, N>(p, &a, 1e-11, None, det);
    if det.abs() < 1e30 {
        self::one_of::<f32, N>(p, &a, unit32, None, det);
    }
    // symmetric: positive definite, or not so at one place
    let base: [i64; N] = core::array::from_fn(|i| 3 + (i as i64 * 3 + s) % 7);
    let sym = |d: &[i64; N]| -> Im<N> { core::array::from_fn(|i| core::array::from_fn(|j| u[i] * u[j] + if i == j { d[i] } else { 0 })) };
    self::spd_of::<f64, N>(p, &sym(&base), 1e-11, None);
    self::spd_of::<f32, N>(p, &sym(&base), unit32, None);
    let mut b = base;
    b[(k as usize * 5 + 1) % N] = -2;
    self::spd_of::<f64, N>(p, &sym(&b), 1e-11, Some(-1));
}

pub fn m03(r: &mut Run) {
    const U: f64 = 1e-11;
    const U32: f64 = 3e-5;
    let r_thorough = r.thorough;
    let inv64 = |m: &Matrix<f64, 3, 3>| m.inverse();
    let inv32 = |m: &Matrix<f32, 3, 3>| m.inverse();
    for q in par(19u64.pow(4), |p, i| {
        let dom: Vec<i64> = (-9..=9).collect();
        let a = decode::<2>(i, &dom);
        one::<f64, 2>(p, &a, U, None);
    }) {
        r.absorb(q);
    }
    r.section("every 2x2 matrix over -9..9");
    let dom: Vec<i64> = if r.thorough { vec![-2, -1, 0, 1, 2] } else { vec![-1, 0, 1, 2] };
    let dom = &dom;
    for q in par((dom.len() as u64).pow(9), |p, i| {
        let a = decode::<3>(i, dom);
        one::<f64, 3>(p, &a, U, Some(&inv64));
        if i % 4 == 0 {
            one::<f32, 3>(p, &a, U32, Some(&inv32));
        }
    }) {
        r.absorb(q);
    }
    r.section("every 3x3 matrix over a value set");
    for q in par(1 << 16, |p, i| one::<f64, 4>(p, &decode::<4>(i, &[0, 1]), U, None)) {
        r.absorb(q);
    }
    for q in par(1 << 16, |p, i| one::<f64, 4>(p, &decode::<4>(i, &[-1, 3]), U, None)) {
        r.absorb(q);
    }
    r.section("every 4x4 matrix over two values");
    // every row order of a fixed triangular-ish matrix: every pivot sequence
    for q in par(120, |p, k| {
        let o = perm(k, 5);
        for s in 0..12i64 {
            let a: Im<5> = core::array::from_fn(|i| core::array::from_fn(|j| {
                let (i, j) = (o[i] as i64, j as i64);
                if j < i { (i * 2 + j + s) % 3 - 1 } else if i == j { 2 + (s + i) % 3 } else { (i + 3 * j + s) % 5 - 2 }
            }));
            one::<f64, 5>(p, &a, U, None);
        }
    }) {
        r.absorb(q);
    }
    for q in par(720, |p, k| {
        let o = perm(k, 6);
        for s in 0..4i64 {
            let a: Im<6> = core::array::from_fn(|i| core::array::from_fn(|j| {
                let (i, j) = (o[i] as i64, j as i64);
                if j < i { (i + j * s) % 3 - 1 } else if i == j { 3 } else { (i + 2 * j + s) % 3 - 1 }
            }));
            one::<f64, 6>(p, &a, U, None);
            let a: Im<6> = core::array::from_fn(|i| core::array::from_fn(|j| if o[i] == j { [2, -1, 3, 1, -2, 5][j] } else { 0 }));
            one::<f64, 6>(p, &a, U, None);
        }
    }) {
        r.absorb(q);
    }
    r.section("every row order of 5x5 and 6x6 matrices");
    // larger ones: every rotation, reversal and exchange of two rows
    for q in par(8 * 2 * 65, |p, k| {
        let (rot, rev, ex) = (k % 8, k / 8 % 2, k / 16);
        let mut o: Vec<usize> = (0..8).map(|i| (i + rot as usize) % 8).collect();
        if rev == 1 {
            o.reverse();
        }
        o.swap(ex as usize % 8, ex as usize / 8 % 8);
        for s in 0..3i64 {
            let a: Im<8> = core::array::from_fn(|i| core::array::from_fn(|j| {
                let (i, j) = (o[i] as i64, j as i64);
                if j < i { (i + j * s) % 3 - 1 } else if i == j { 3 } else { (i * 3 + 2 * j + s) % 3 - 1 }
            }));
            self::one::<f64, 8>(p, &a, U, None);
        }
        let a: Im<7> = core::array::from_fn(|i| core::array::from_fn(|j| {
            let (i, j) = (o[i] as i64 % 7, j as i64);
            if i == j { 4 } else { (i * 2 + 3 * j) % 3 - 1 }
        }));
        self::one::<f64, 7>(p, &a, U, None);
    }) {
        r.absorb(q);
    }
    for q in par(19, |p, i| self::one::<f64, 1>(p, &[[i as i64 - 9]], U, None)) {
        r.absorb(q);
    }
    for q in par(9u64.pow(4), |p, i| self::one::<f32, 2>(p, &decode::<2>(i, &[-9, -4, -3, -1, 0, 1, 2, 5, 7]), U32, None)) {
        r.absorb(q);
    }
    r.section("rotated, reversed and exchanged rows of 7x7 and 8x8 matrices; 1x1; 2x2 in f32");
    for q in par(6u64.pow(3) * 7u64.pow(3), |p, i| {
        let mut i = i as i64;
        let mut nx = |n: i64| {
            let x = i % n;
            i /= n;
            x
        };
        let (a, b, c, d, e, f) = (nx(6) + 1, nx(6), nx(6) - 1, nx(7) - 3, nx(7) - 3, nx(7) - 3);
        spd::<f64, 3>(p, &[[a, d, e], [d, b, f], [e, f, c]], U);
        spd::<f32, 3>(p, &[[a, d, e], [d, b, f], [e, f, c]], U32);
        spd::<f64, 4>(p, &[[a, d, e, f], [d, b + 4, f, e], [e, f, c + 6, d], [f, e, d, 7]], U);
    }) {
        r.absorb(q);
    }
    for q in par(19u64.pow(3), |p, i| {
        let g = |k: u32| (i / 19u64.pow(k) % 19) as i64 - 4;
        spd::<f64, 2>(p, &[[g(0), g(1)], [g(1), g(2)]], U);
        spd::<f64, 1>(p, &[[g(0)]], U);
    }) {
        r.absorb(q);
    }
    r.section("symmetric matrices");
    let one = 1i64 << 24;
    let gd = [0, 1, -one, one, 3 * one];
    for q in par(5u64.pow(4) + 5u64.pow(9), |p, i| if i < 625 { graded::<2>(p, i, &gd) } else if r_thorough || i % 3 == 0 { graded::<3>(p, i - 625, &gd) }) {
        r.absorb(q);
    }
    r.section("graded 2x2 and 3x3 matrices over {0, 2^-24, -1, 1, 3}");
    let grades = [0, 12, 20, 36, 44, 60, 100];
    for q in par(42 * (9 + 729), |p, i| {
        let (k, i) = (i as usize % 42, i / 42);
        let (g, unit) = (grades[k % 7], [0, -36, -24, -12, 24, 200][k / 7]);
        if i < 9 {
            scaled::<2>(p, i, g, unit);
        } else {
            let (m, e) = scaled::<3>(p, i - 9, g, unit);
            // the factorisation only asks for pivots over the rounding unit
            for unit in if unit == 0 && g == 0 { vec![-44, -48, -50] } else { vec![] } {
                let t = m * 2f64.powi(unit);
                let b = t * Vector { data: [1.0; 3] };
                let x = [t.solve(&b), t.lu_decompose().map(|l| l.solve(&b)), t.solve_multi(&b.col()).map(|x| Vector { data: x.data.map(|r| r[0]) })];
                let ok = |x: &Vector<f64, 3>| (0..3).all(|i| ((0..3).map(|j| t.data[i][j] * x.data[j]).sum::<f64>() - b.data[i]).abs() <= 1e-9 * (0..3).map(|j| (t.data[i][j] * x.data[j]).abs()).sum::<f64>());
                p.step();
                p.check(x.iter().all(|x| x.as_ref().is_some_and(ok)), "scaled small solve", || format!("{:?} x = {b:?}: {x:?}", t.data));
            }
            // the closed form asks for a determinant over 1e-12
            for unit in if unit == 0 { vec![0, -3, -6, -9, -12, -13, 5, 20, 100] } else { vec![] } {
                let s = 2f64.powi(unit);
                let x = (m * s).inverse();
                p.step();
                p.check(x.is_some_and(|x| (0..3).all(|i| (0..3).all(|j| (x.data[i][j] * s - e.data[i][j]).abs() <= 1e-9 * 2f64.powi(g * (j as i32 - i as i32))))), "scaled closed inverse", || format!("inverse {:?} * 2^{unit} = {x:?}", m.data));
            }
        }
    }) {
        r.absorb(q);
    }
    for q in par(3u64.pow(12), |p, i| if r_thorough || i % 13 == 0 {
        scaled::<4>(p, i, [20, 44, 12, 60][i as usize % 4], [0, -34, -20][i as usize % 3]);
    }) {
        r.absorb(q);
    }
    r.section("triangular products with rows and columns graded by powers of two, up to 4x4");
    for q in par(7 * 6 * (9 + 3 * 8), |p, i| {
        let (k, i) = (i as usize % 42, i / 42);
        let (g, unit) = (grades[k % 7], [0, -13, -31, -60, 7, 100][k / 7]);
        match i {
            0..9 => squares::<2>(p, i % 3, g, unit, [None, Some(0), Some(1)][i as usize / 3]),
            _ => {
                for z in [None, Some(0), Some(1), Some(2)] {
                    squares::<3>(p, i - 9, g, unit, z);
                    for v in 0..if r_thorough { 27 } else { 3 } {
                        squares::<4>(p, (i - 9) * 27 + v, g.min(60), unit, z.map(|z| 3 - z));
                        squares::<6>(p, (i - 9) * 200_003 + v * 531_441, g.min(36), unit, z.map(|z| 2 * z + 1));
                    }
                }
            }
        }
    }) {
        r.absorb(q);
    }
    r.section("symmetric products with exact pivots, graded by powers of two, up to 6x6, one pivot zero");
    let (n9, n17, n33) = if r.thorough { (36, 68, 66) } else { (18, 20, 9) };
    macro_rules! big { ($($n:literal $c:expr),*) => { $( for q in par($c, |p, k| large::<$n>(p, k, 3e-5)) { r.absorb(q); } )* } }
    big!(5 10, 9 n9, 10 n9, 12 n9, 16 n17, 17 n17, 20 n17, 33 n33, 40 n33 / 2, 64 n33 / 4);
    r.section("full matrices up to 64x64, every shift of the rows");
    r.bounds.push(format!("all 2x2 over -9..9, all 3x3 over {dom:?}, all 4x4 over {{0,1}} and {{-1,3}}, all row orders of 5x5/6x6 families, 74088 symmetric 3x3 and 4x4"));
    r.assumptions.push("well-scaled matrices (small integer entries); a singular matrix may be accepted only with a pivot at rounding level".into());
}
