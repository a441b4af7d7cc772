//! M01 algebra, M02 SIMD kernels, M05 tensors.
#[allow(unused)]
use crate::att::numbers;
use aether_core::math::algorithms::{MatrixAlgorithms, VectorAlgorithms};
use aether_core::math::{Matrix, Tensor3, Tensor4, TensorView, TensorViewMut, Vector};
use aether_core::real::Real;
use aether_core::real::real::RealCast;
use mckit::{Run, guard, h, words};

type Im<const M: usize, const N: usize> = [[i64; N]; M];

fn f<T: Real, const M: usize, const N: usize>(a: &Im<M, N>) -> Matrix<T, M, N> {
    let mut m = Matrix::<T, M, N>::zeros();
    for i in 0..M {
        for j in 0..N {
            m.data[i][j] = T::from_f64(a[i][j] as f64);
        }
    }
    m
}
fn v<T: Real, const N: usize>(a: &[i64; N]) -> Vector<T, N> {
    Vector { data: a.map(|x| T::from_f64(x as f64)) }
}
fn same<T: Real, const M: usize, const N: usize>(m: &Matrix<T, M, N>, a: &Im<M, N>) -> bool {
    (0..M).all(|i| (0..N).all(|j| m.data[i][j].to_f64() == a[i][j] as f64))
}
fn vsame<T: Real, const N: usize>(m: &Vector<T, N>, a: &[i64; N]) -> bool {
    (0..N).all(|i| m.data[i].to_f64() == a[i] as f64)
}
fn imul<const M: usize, const N: usize, const P: usize>(a: &Im<M, N>, b: &Im<N, P>) -> Im<M, P> {
    let mut c = [[0; P]; M];
    for i in 0..M {
        for j in 0..P {
            for k in 0..N {
                c[i][j] += a[i][k] * b[k][j];
            }
        }
    }
    c
}
/// A factor with so many digits that a product keeps every one of them only in the type itself.
fn wide<T: Real>() -> i64 {
    if T::EPSILON.to_f64() < 1e-12 { (1 << 31) + 1 } else { (1 << 10) + 1 }
}
fn times<const M: usize, const N: usize>(a: &Im<M, N>, w: i64) -> Im<M, N> {
    a.map(|row| row.map(|x| x * w))
}
/// In a product, exactly the elements that depend on a NaN are NaN.
fn nan_products<T: Real, const M: usize, const N: usize, const P: usize>(r: &mut Run, name: &str, mul: &dyn Fn(&Matrix<T, M, N>, &Matrix<T, N, P>) -> Matrix<T, M, P>) {
    let nan = T::from_f64(f64::NAN);
    for k in 0..N {
        for right in [false, true] {
            for z in [0.0, 1.0] {
                for at in 0..if right { P } else { M } {
                    let mut x = Matrix::<T, M, N> { data: [[T::from_f64(z); N]; M] };
                    let mut y = Matrix::<T, N, P> { data: [[T::from_f64(1.0 - z); P]; N] };
                    if right { y.data[k][at] = nan } else { x.data[at][k] = nan }
                    let got = mul(&x, &y);
                    r.step();
                    r.check((0..M).all(|i| (0..P).all(|j| {
                        let g = got.data[i][j].to_f64();
                        if if right { j == at } else { i == at } { g.is_nan() } else { g == 0.0 }
                    })), &format!("{name} NaN"), || format!("{name} {M}x{N}x{P}: NaN at {} of the {} operand, other elements {z} and {}: got {:?}", if right { format!("({k},{at})") } else { format!("({at},{k})") }, if right { "right" } else { "left" }, 1.0 - z, got.data));
                }
            }
        }
    }
    r.trace();
}
fn one_product<T: Real, const M: usize, const N: usize, const P: usize>(r: &mut Run, a: &Im<M, N>, b: &Im<N, P>) {
    let (x, y) = (f::<T, M, N>(a), f::<T, N, P>(b));
    let want = imul(a, b);
    for (op, got) in [("A*B", x * y), ("&A*&B", &x * &y), ("A*&B", x * &y), ("&A*B", &x * y), ("strided", x.mul_matrix_strided(&y))] {
        r.step();
        r.check(same(&got, &want), &format!("mul {op}"), || format!("{op} {M}x{N} * {N}x{P}: A={a:?} B={b:?} got {:?} want {want:?}", got.data));
    }
    let bv: [i64; N] = core::array::from_fn(|k| b[k][0]);
    let wv: [i64; M] = core::array::from_fn(|i| want[i][0]);
    let y = v::<T, N>(&bv);
    for (op, got) in [("A*v", x * y), ("&A*&v", &x * &y), ("A*&v", x * &y), ("&A*v", &x * y), ("unrolled", x.mul_vector_unrolled(&y))] {
        r.step();
        r.check(vsame(&got, &wv), &format!("mul {op}"), || format!("{op} {M}x{N}: A={a:?} v={bv:?} got {:?} want {wv:?}", got.data));
    }
    r.states_distinct(1);
    r.trace();
    r.outcome(h(&want.as_flattened().iter().flat_map(|x| x.to_le_bytes()).collect::<Vec<_>>()));
}
/// Every product term separately (rank-one pairs), plus dense patterns.
fn products<T: Real, const M: usize, const N: usize, const P: usize>(r: &mut Run) {
    r.here(|| format!("product {M}x{N}x{P}"));
    for k in 0..N {
        let mut a = [[0; N]; M];
        let mut b = [[0; P]; N];
        for i in 0..M {
            a[i][k] = 1 + i as i64;
        }
        for j in 0..P {
            b[k][j] = 2 + 3 * j as i64;
        }
        one_product::<T, M, N, P>(r, &a, &b);
        one_product::<T, M, N, P>(r, &times(&a, wide::<T>()), &b);
        one_product::<T, M, N, P>(r, &a, &times(&b, wide::<T>()));
        // the same k only in A, everything in B
        let b = core::array::from_fn(|x| core::array::from_fn(|j| if x == k { 1 + j as i64 } else { 1000 + (x * 7 + j) as i64 }));
        one_product::<T, M, N, P>(r, &a, &b);
    }
    dense_products::<T, M, N, P>(r);
    if M * N * P <= 1000 {
        nan_products::<T, M, N, P>(r, "A*B", &|x, y| *x * *y);
        nan_products::<T, M, N, P>(r, "strided", &|x, y| x.mul_matrix_strided(y));
    }
    r.sample(|| format!("all {N} rank-one terms of a {M}x{N} * {N}x{P} product"));
}
fn dense_products<T: Real, const M: usize, const N: usize, const P: usize>(r: &mut Run) {
    for s in 0..4i64 {
        let a = core::array::from_fn(|i| core::array::from_fn(|j| (i as i64 * 7 + j as i64 * 3 + s) % 11 - 5));
        let b = core::array::from_fn(|i| core::array::from_fn(|j| (i as i64 * 5 - j as i64 * 4 + s * s) % 13));
        one_product::<T, M, N, P>(r, &a, &b);
        one_product::<T, M, N, P>(r, &times(&a, wide::<T>()), &b);
    }
}
fn elementwise<T: Real + core::ops::AddAssign, const M: usize, const N: usize>(r: &mut Run, a: &Im<M, N>, b: &Im<M, N>) {
    element_wise::<T, M, N>(r, a, b, true);
    element_wise::<T, M, N>(r, &times(a, wide::<T>()), b, false);
    element_wise::<T, M, N>(r, b, &times(a, wide::<T>()), false);
}
fn element_wise<T: Real + core::ops::AddAssign, const M: usize, const N: usize>(r: &mut Run, a: &Im<M, N>, b: &Im<M, N>, short: bool) {
    let (x, y) = (f::<T, M, N>(a), f::<T, M, N>(b));
    let map2 = |g: &dyn Fn(i64, i64) -> i64| -> Im<M, N> { core::array::from_fn(|i| core::array::from_fn(|j| g(a[i][j], b[i][j]))) };
    let two = T::from_f64(-3.0);
    let half = T::from_f64(2.0);
    let mut dbl = x;
    for i in 0..M {
        for j in 0..N {
            if (i + j) % 2 == 0 { dbl[(i, j)] = dbl[(i, j)] + dbl[(i, j)] } else { dbl[i][j] = dbl[i][j] + dbl[i][j] }
        }
    }
    let cases = [
        ("add", x + y, map2(&|p, q| p + q)),
        ("sub", x - y, map2(&|p, q| p - q)),
        ("neg", -x, map2(&|p, _| -p)),
        ("scale", x * two, map2(&|p, _| -3 * p)),
        ("div", dbl / half, map2(&|p, _| p)),
        ("index_mut", dbl, map2(&|p, _| 2 * p)),
        ("zeros", Matrix::zeros(), map2(&|_, _| 0)),
        ("default", Matrix::default(), map2(&|_, _| 0)),
        ("ones", Matrix::ones(), map2(&|_, _| 1)),
        ("new", Matrix::new(x.data), *a),
        ("cast", if short { x.cast::<f32>().cast::<T>() } else { x.cast::<f64>().cast::<T>() }, *a),
        ("from", if short { Matrix::<f64, M, N>::from(Matrix::<f32, M, N>::from(x.cast::<f64>())).cast::<T>() } else { x }, *a),
    ];
    for (op, got, want) in cases {
        r.step();
        r.check(same(&got, &want), op, || format!("{op} {M}x{N}: a={a:?} b={b:?} got {:?}", got.data));
    }
    let t = x.transpose();
    let ok = (0..M).all(|i| (0..N).all(|j| t.data[j][i] == x.data[i][j] && x[(i, j)] == x.data[i][j] && x[i][j] == x.data[i][j]));
    r.check(ok && t.transpose() == x, "transpose", || format!("transpose/index {M}x{N}: {a:?} -> {:?}", t.data));
    let mx = a.as_flattened().iter().map(|x| x.abs()).max().unwrap_or(0);
    r.check(x.max_abs().to_f64() == mx as f64, "max_abs", || format!("max_abs {a:?}"));
    r.steps(2);
    r.states_distinct(1);
    r.trace();
}
fn square<T: Real + core::ops::AddAssign, const N: usize>(r: &mut Run, a: &Im<N, N>) {
    let x = f::<T, N, N>(a);
    let d: [i64; N] = core::array::from_fn(|i| a[i][i]);
    let dt = v::<T, N>(&d);
    let id: Im<N, N> = core::array::from_fn(|i| core::array::from_fn(|j| (i == j) as i64));
    let dg: Im<N, N> = core::array::from_fn(|i| core::array::from_fn(|j| if i == j { d[i] } else { 0 }));
    r.steps(5);
    r.check(x.trace().to_f64() == d.iter().sum::<i64>() as f64, "trace", || format!("trace {a:?}"));
    r.check(same(&Matrix::<T, N, N>::identity(), &id), "identity", || "identity".into());
    r.check(same(&Matrix::<T, N, N>::diag(&dt.data), &dg) && same(&Matrix::<T, N, N>::diag_from_vector(&dt), &dg), "diag", || format!("diag {d:?}"));
    r.check(same(&(Matrix::<T, N, N>::identity() * x), a) && same(&(x * Matrix::<T, N, N>::identity()), a), "unit", || format!("identity product {a:?}"));
}
fn vectors<T: Real + core::ops::AddAssign + core::ops::SubAssign + Default, const N: usize>(r: &mut Run, a: &[i64; N], b: &[i64; N]) {
    vectors_of::<T, N>(r, a, b);
    let w = if T::EPSILON.to_f64() < 1e-12 { (1 << 26) + 1 } else { (1 << 8) + 1 };
    vectors_of::<T, N>(r, &a.map(|x| x * w), b);
    vectors_of::<T, N>(r, b, &a.map(|x| x * w));
}
fn vectors_of<T: Real + core::ops::AddAssign + core::ops::SubAssign + Default, const N: usize>(r: &mut Run, a: &[i64; N], b: &[i64; N]) {
    let (x, y) = (v::<T, N>(a), v::<T, N>(b));
    let map2 = |g: &dyn Fn(i64, i64) -> i64| -> [i64; N] { core::array::from_fn(|i| g(a[i], b[i])) };
    let s = T::from_f64(-4.0);
    let two = T::from_f64(2.0);
    let (mut p, mut q, mut p2, mut q2) = (x, x, x, x);
    p += y;
    p2 += &y;
    q -= y;
    q2 -= &y;
    let add = map2(&|p, q| p + q);
    let sub = map2(&|p, q| p - q);
    let neg = map2(&|p, _| -p);
    let sc = map2(&|p, _| -4 * p);
    let d2: Vector<T, N> = x * two;
    for (op, got, want) in [
        ("v+v", x + y, add), ("&v+&v", &x + &y, add), ("v+&v", x + &y, add), ("&v+v", &x + y, add), ("+=", p, add), ("+=&", p2, add),
        ("v-v", x - y, sub), ("&v-&v", &x - &y, sub), ("v-&v", x - &y, sub), ("&v-v", &x - y, sub), ("-=", q, sub), ("-=&", q2, sub),
        ("-v", -x, neg), ("-&v", -&x, neg), ("v*s", x * s, sc), ("&v*s", &x * s, sc), ("v/s", d2 / two, *a), ("&v/s", &d2 / two, *a),
        ("map", x.map(|c| c + c), map2(&|p, _| 2 * p)), ("from", Vector::from(x.data), *a), ("collect", x.iter().copied().collect(), *a),
        ("default", Vector::default(), [0; N]), ("new", Vector::new(x.data), *a),
        ("zeros", Vector::zeros(), [0; N]), ("ones", Vector::ones(), [1; N]),
    ] {
        r.step();
        r.check(vsame(&got, &want), op, || format!("{op} N={N}: {a:?} {b:?} got {:?} want {want:?}", got.data));
    }
    let dot: i64 = (0..N).map(|i| a[i] * b[i]).sum();
    for (op, got) in [("dot", x.dot(&y)), ("v*v", x * y), ("&v*&v", &x * &y), ("v*&v", x * &y), ("&v*v", &x * y), ("dot_generic", x.dot_generic(&y))] {
        r.step();
        r.check(got.to_f64() == dot as f64, op, || format!("{op}: {a:?} . {b:?} = {:?}, exact {dot}", got));
    }
    let eps = T::EPSILON.to_f64() * if N > 16 { N as f64 } else { 16.0 };
    let n2: i64 = a.iter().map(|c| c * c).sum();
    let m2: i64 = b.iter().map(|c| c * c).sum();
    let n = (n2 as f64).sqrt();
    for g in [x.norm(), x.magnitude(), x.norm_generic()] {
        r.step();
        r.check((g.to_f64() - n).abs() <= eps * n, "norm", || format!("norm {a:?} = {g:?}, exact {n}"));
    }
    if n2 > 0 {
        let u = x.normalize();
        let (w, l) = x.try_normalize();
        r.check((0..N).all(|i| (u.data[i].to_f64() - a[i] as f64 / n).abs() <= eps && (w.data[i].to_f64() - a[i] as f64 / n).abs() <= eps) && (l.to_f64() - n).abs() <= eps * n, "normalize", || format!("normalize {a:?} = {u:?} / {w:?} {l:?}"));
        // scaled by a power of two the direction is the same
        for k in if T::EPSILON.to_f64() < 1e-12 { [-200, -38, -30, -20, 30, 200] } else { [-15, -7, -3, 5, 10, 40] } {
            let s = T::from_f64(2f64.powi(k));
            let (u, (w, l)) = ((x * s).normalize(), (x * s).try_normalize());
            let near = |u: &Vector<T, N>| (0..N).all(|i| (u.data[i].to_f64() - a[i] as f64 / n).abs() <= eps);
            r.step();
            r.check(near(&u) && (near(&w) || k < -38) && (l.to_f64() / s.to_f64() - n).abs() <= eps * n, "normalize scaled", || format!("normalize {a:?} * 2^{k} = {u:?} / {w:?} {l:?}"));
            if m2 > 0 {
                let c = dot as f64 / (n * (m2 as f64).sqrt());
                let g = (x * s).angle(&y).to_f64();
                r.check((g.cos() - c).abs() <= eps * 8.0, "angle scaled", || format!("angle {a:?} * 2^{k}, {b:?} = {g}, cos should be {c}"));
            }
        }
        if m2 > 0 {
            let g = x.angle(&y).to_f64();
            // compare cosines away from the ends, the bracket itself always
            let c = dot as f64 / (n * (m2 as f64).sqrt());
            let tol = eps * 8.0;
            r.check((0.0..=std::f64::consts::PI + 1e-6).contains(&g) && (g.cos() - c).abs() <= tol, "angle", || format!("angle {a:?},{b:?} = {g}, cos should be {c}"));
            r.step();
        } else {
            r.check(x.angle(&y).to_f64() == 0.0, "angle0", || format!("angle with zero vector {a:?}"));
        }
    } else {
        let (w, l) = x.try_normalize();
        r.check(vsame(&w, a) && l.to_f64() == 0.0, "try0", || "try_normalize of zero".into());
    }
    let o: Im<N, N> = core::array::from_fn(|i| core::array::from_fn(|j| a[i] * b[j]));
    r.check(same(&Matrix::<T, N, N>::outer(&x, &y), &o), "outer", || format!("outer {a:?} {b:?}"));
    let (row, col) = (x.row(), x.col());
    r.check((0..N).all(|i| row.data[0][i] == x.data[i] && col.data[i][0] == x.data[i]) && (0..N).all(|i| x[i] == x.data[i] && x.as_ref()[i] == x.data[i]), "row/col", || format!("row/col {a:?}"));
    r.check(x.into_iter().zip(&x).zip(x.iter_copied()).enumerate().all(|(i, ((p, q), s))| p == x[i] && *q == p && s == p) && x.into_iter().count() == N, "iter", || format!("iteration {a:?}"));
    let mut m = x;
    for c in m.iter_mut() {
        *c = *c + *c;
    }
    for c in &mut m {
        *c = *c + T::ONE;
    }
    m.as_mut()[0] = T::ZERO;
    m[N - 1] = T::ONE;
    r.check((0..N).all(|i| m[i].to_f64() == if i == N - 1 { 1.0 } else if i == 0 { 0.0 } else { (2 * a[i] + 1) as f64 }), "iter_mut", || format!("iter_mut {a:?}: {m:?}"));
    r.steps(5);
    r.states_distinct(1);
    r.trace();
}
/// A printed matrix or vector shows its numbers, row by row.
fn shown<const M: usize, const N: usize>(r: &mut Run) {
    for s in 0..12i64 {
        let x: Matrix<f64, M, N> = Matrix { data: core::array::from_fn(|i| core::array::from_fn(|j| ((i * N + j) as i64 * 7 + s * 5) as f64 % 23.0 / 8.0 - 1.0)) };
        let y: Matrix<f32, M, N> = x.cast();
        let want = x.data.as_flattened().to_vec();
        r.steps(4);
        r.check(printed!(x, want) && printed!(y, want), "print", || format!("a printed {M}x{N} matrix does not show {want:?}"));
        for i in 0..M {
            let (u, w) = (Vector { data: x.data[i] }, Vector { data: y.data[i] });
            r.check(printed!(u, x.data[i]) && printed!(w, x.data[i]), "print", || format!("a printed vector does not show {:?}", x.data[i]));
        }
        r.states_distinct(1);
    }
}
fn wrong_len<const N: usize>(r: &mut Run) {
    for k in 0..=N + 3 {
        let got = guard(|| (0..k).map(|x| x as f64).collect::<Vector<f64, N>>());
        r.step();
        r.check(match &got { Ok(x) => k == N && (0..N).all(|i| x[i] == i as f64), Err(_) => k != N }, "from_iter", || format!("collecting {k} items into Vector<{N}>: {got:?}"));
        r.states_distinct(1);
    }
}
macro_rules! shapes { ($r:expr, $t:ty: $(($m:literal $n:literal $p:literal))*) => { $( products::<$t, $m, $n, $p>($r); )* } }
macro_rules! elems { ($r:expr, $t:ty: $(($m:literal $n:literal))*) => { $({
    for s in 0..5i64 {
        let a: Im<$m, $n> = core::array::from_fn(|i| core::array::from_fn(|j| (i as i64 * 17 + j as i64 * 5 + s * 3) % 23 - 11));
        let b: Im<$m, $n> = core::array::from_fn(|i| core::array::from_fn(|j| (i as i64 * 3 - j as i64 * 7 + s) % 19));
        elementwise::<$t, $m, $n>($r, &a, &b);
    }
    for i in 0..$m { for j in 0..$n {
        let mut a = [[0; $n]; $m];
        let mut b = [[0; $n]; $m];
        a[i][j] = -9;
        b[$m - 1 - i][$n - 1 - j] = 4;
        elementwise::<$t, $m, $n>($r, &a, &b);
    } }
})* } }

fn products_of_all_shapes(r: &mut Run) {
    shapes!(r, f64: (1 1 1)(1 2 3)(3 2 1)(2 2 2)(2 3 2)(3 3 3)(3 3 1)(1 3 3)(4 4 4)(3 4 2)(5 2 7)(6 6 6)(7 5 3)(8 8 8)(8 8 1)(1 8 8)
        (8 1 8)(9 8 8)(8 9 8)(8 8 9)(9 9 9)(1 16 1)(2 17 3)(16 16 16)(3 15 17)(17 3 16)(1 17 17)(2 32 2)(3 33 5)(5 2 33)(17 17 17)(18 31 18)(2 48 17)(10 10 10)(4 16 32)(1 1 33)(33 1 1));
    shapes!(r, f32: (1 3 2)(2 2 2)(3 3 3)(4 4 4)(6 6 6)(8 8 8)(9 2 9)(2 9 9)(16 17 2)(17 18 19)(3 33 33));
    r.section("every product term of every shape");
}
fn patterned<T: Real + core::ops::AddAssign, const M: usize, const N: usize>(r: &mut Run) {
    for s in 0..3i64 {
        let a: Im<M, N> = core::array::from_fn(|i| core::array::from_fn(|j| (i as i64 * 17 + j as i64 * 5 + s * 3) % 23 - 11));
        let b: Im<M, N> = core::array::from_fn(|i| core::array::from_fn(|j| (i as i64 * 3 - j as i64 * 7 + s) % 19));
        elementwise::<T, M, N>(r, &a, &b);
    }
}
fn squares<T: Real + core::ops::AddAssign, const N: usize>(r: &mut Run) {
    for s in 0..4i64 {
        square::<T, N>(r, &core::array::from_fn(|i| core::array::from_fn(|j| (s * 7 + i as i64 * 3 + j as i64 * 5) % 11 - 4)));
    }
}
fn vector_patterns<T: Real + core::ops::AddAssign + core::ops::SubAssign + Default, const N: usize>(r: &mut Run) {
    for s in 0..6i64 {
        vectors::<T, N>(r, &core::array::from_fn(|i| (i as i64 * 7 + s * 3) % 11 - 5), &core::array::from_fn(|i| (i as i64 * 5 + s) % 13 - 6));
    }
}
fn one_at_a_time<T: Real + core::ops::AddAssign + core::ops::SubAssign + Default, const N: usize>(r: &mut Run) {
    for k in 0..N {
        let (mut a, mut b) = ([0i64; N], [1i64; N]);
        a[k] = 3;
        b[k] = -4;
        vectors_of::<T, N>(r, &a, &b);
    }
}
/// Shapes past every block edge up to 257.
fn large(r: &mut Run) {
    shapes!(r, f64: (1 65 1)(65 1 1)(1 1 65)(2 64 2)(2 65 3)(65 2 3)(3 2 65)(2 129 2)(1 257 1)(130 2 1)(1 2 130)(16 65 17)(17 16 65)(65 17 16));
    shapes!(r, f32: (2 65 3)(65 3 2)(3 2 65)(1 130 2));
    macro_rules! dense { ($t:ty: $(($m:literal $n:literal $p:literal))*) => { $( dense_products::<$t, $m, $n, $p>(r); )* } }
    dense!(f64: (31 32 33)(33 64 34)(48 48 48)(64 64 64)(65 66 67)(100 9 100)(9 100 9)(128 20 12)(12 128 20)(20 12 128)(97 101 3));
    dense!(f32: (33 65 34)(64 64 64));
    macro_rules! elems { ($t:ty: $(($m:literal $n:literal))*) => { $( patterned::<$t, $m, $n>(r); )* } }
    elems!(f64: (33 33)(64 64)(65 65)(100 3)(3 100)(1 257)(257 1)(20 130));
    elems!(f32: (33 65)(129 2)(2 129));
    squares::<f64, 16>(r);
    squares::<f64, 17>(r);
    squares::<f64, 33>(r);
    squares::<f32, 65>(r);
    macro_rules! vecs { ($t:ty: $($n:literal)*) => { $( vector_patterns::<$t, $n>(r); )* } }
    vecs!(f64: 5 7 8 12 16 17 31 32 33 64 65 100 128 129);
    vecs!(f32: 5 8 16 17 33 64 65 129);
    // one element at a time
    macro_rules! one { ($t:ty: $($n:literal)*) => { $( one_at_a_time::<$t, $n>(r); )* } }
    one!(f64: 5 8 9 16 17 33 65);
    one!(f32: 7 16 17 33);
    r.section("shapes past every block edge up to 257");
}
pub fn m01(r: &mut Run) {
    products_of_all_shapes(r);
    // unoptimised code keeps many copies of a large matrix on the stack
    std::thread::scope(|s| {
        std::thread::Builder::new().stack_size(256 << 20).spawn_scoped(s, || large(r)).expect("thread").join().expect("large")
    });
    elems!(r, f64: (1 1)(1 2)(2 1)(2 2)(2 3)(3 2)(3 3)(4 4)(1 5)(5 1)(6 6)(8 8)(9 7)(16 3)(3 17)(17 17));
    elems!(r, f32: (1 1)(2 3)(3 3)(4 4)(6 6)(9 2)(2 17));
    r.section("element-wise operations");
    let dom: Vec<i64> = if r.thorough { vec![-3, -2, -1, 0, 1, 2, 5] } else { vec![-2, -1, 0, 1, 3] };
    let mut w = words(dom.len(), 8);
    while let Some(x) = w.next() {
        let g = |i: usize| dom[x[i]];
        let (a, b) = ([[g(0), g(1)], [g(2), g(3)]], [[g(4), g(5)], [g(6), g(7)]]);
        let (p, q) = (f::<f64, 2, 2>(&a), f::<f64, 2, 2>(&b));
        r.step();
        r.check(same(&(p * q), &imul(&a, &b)) && same(&(&p * &q), &imul(&a, &b)), "2x2", || format!("{a:?} * {b:?} = {:?}", (p * q).data));
        r.check((p * q).transpose() == q.transpose() * p.transpose(), "(AB)^T", || format!("{a:?} {b:?}"));
    }
    r.states_distinct((dom.len() as u64).pow(8));
    r.section("all 2x2 pairs over a value set");
    let mut w = words(5, 4);
    while let Some(x) = w.next() {
        let a: Im<2, 2> = [[x[0] as i64 - 2, x[1] as i64 - 2], [x[2] as i64 - 2, x[3] as i64 - 2]];
        elementwise::<f64, 2, 2>(r, &a, &[[1, -2], [3, 4]]);
        square::<f64, 2>(r, &a);
        square::<f32, 2>(r, &a);
    }
    for s in 0..200i64 {
        square::<f64, 3>(r, &core::array::from_fn(|i| core::array::from_fn(|j| (s * 7 + i as i64 * 3 + j as i64 * 5) % 11 - 4)));
        square::<f64, 6>(r, &core::array::from_fn(|i| core::array::from_fn(|j| (s * 5 + i as i64 * 7 + j as i64 * 3) % 13 - 6)));
        square::<f32, 9>(r, &core::array::from_fn(|i| core::array::from_fn(|j| (s * 3 + i as i64 + j as i64 * 5) % 9 - 4)));
    }
    r.section("square matrices");
    let k = if r.thorough { 7 } else { 5 };
    let mut w = words(k, 6);
    while let Some(x) = w.next() {
        let g: Vec<i64> = x.iter().map(|&c| c as i64 - k as i64 / 2).collect();
        let (a, b) = ([g[0], g[1], g[2]], [g[3], g[4], g[5]]);
        vectors::<f64, 3>(r, &a, &b);
        let c = v::<f64, 3>(&a).cross(&v::<f64, 3>(&b));
        let want = [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]];
        r.step();
        r.check(vsame(&c, &want), "cross", || format!("{a:?} x {b:?} = {:?}, exact {want:?}", c.data));
    }
    let mut w = words(7, 4);
    while let Some(x) = w.next() {
        let g: Vec<i64> = x.iter().map(|&c| c as i64 - 3).collect();
        vectors::<f64, 2>(r, &[g[0], g[1]], &[g[2], g[3]]);
        vectors::<f32, 2>(r, &[g[0], g[1]], &[g[2], g[3]]);
        vectors::<f64, 1>(r, &[g[0]], &[g[1]]);
        vectors::<f64, 4>(r, &[g[0], g[1], g[2], g[3]], &[g[3], 2, g[1], -g[0]]);
        vectors::<f32, 6>(r, &[g[0], g[1], g[2], g[3], 1, 0], &[5, g[3], 2, g[1], -g[0], g[2]]);
        vectors::<f64, 9>(r, &[g[0], g[1], g[2], g[3], 1, 0, 7, g[0], -1], &[5, g[3], 2, g[1], -g[0], g[2], 1, 2, g[3]]);
    }
    for s in 0..40i64 {
        let a: Matrix<f64, 4, 4> = Matrix { data: core::array::from_fn(|i| core::array::from_fn(|j| ((i * 4 + j) as i64 * 3 + s * 7) as f64 % 19.0)) };
        r.step();
        r.check(a.as_flat_array() == a.data.as_flattened() && a.cast::<f32>().as_flat_array() == a.cast::<f32>().data.as_flattened(), "flat", || format!("as_flat_array of {:?} is {:?}", a.data, a.as_flat_array()));
    }
    // conversions between precisions: values the narrower one cannot hold, in every place
    let odd = [0.0f64, -0.0, 1.0, 0.1, -1e-46, 1e-40, 3.4028234663852886e38, 3.4028235677973366e38, 1e39, -1e300, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 16777217.0];
    for k in 0..odd.len() {
        let x: Matrix<f64, 2, 7> = Matrix { data: core::array::from_fn(|i| core::array::from_fn(|j| odd[(i * 7 + j + k) % odd.len()])) };
        let same = |a: f64, b: f64| a.to_bits() == b.to_bits() || a.is_nan() && b.is_nan();
        let (n, c) = (Matrix::<f32, 2, 7>::from(x), x.cast::<f32>());
        let (w, d) = (Matrix::<f64, 2, 7>::from(n), n.cast::<f64>());
        r.steps(4);
        r.states_distinct(1);
        let ok = (0..2).all(|i| (0..7).all(|j| {
            let e = x.data[i][j] as f32 as f64;
            same(n.data[i][j] as f64, e) && same(c.data[i][j] as f64, e) && same(w.data[i][j], e) && same(d.data[i][j], e)
        }));
        r.check(ok, "convert", || format!("{:?} in single precision is {:?} / {:?}, back {:?} / {:?}", x.data, n.data, c.data, w.data, d.data));
    }
    shown::<1, 1>(r);
    shown::<1, 4>(r);
    shown::<3, 1>(r);
    shown::<2, 2>(r);
    shown::<3, 4>(r);
    shown::<6, 6>(r);
    wrong_len::<1>(r);
    wrong_len::<3>(r);
    wrong_len::<8>(r);
    r.section("vectors");
    r.bounds.push("60 product shapes up to 257 (block edges included): every rank-one term; all 2x2 pairs over 5 values; all 3-vector pairs over 5 values".into());
    r.assumptions.push("operands are small integers, so every intermediate is exactly representable and results are compared exactly".into());
}

// ------------------------------------------------------------------ SIMD
macro_rules! vec_kernels { ($r:expr, $t:ty, $n:literal, $m:literal, [$(($name:literal, $k:expr))*], [$($sname:literal, $s:ident),*]) => {{
    let r: &mut Run = $r;
    let mut cases: Vec<(Im<$m, $n>, [i64; $n])> = vec![];
    for k in 0..$n {
        let mut x = [0; $n];
        x[k] = 3;
        cases.push((core::array::from_fn(|i| core::array::from_fn(|j| (i * 10 + j) as i64 + 1)), x));
    }
    for i in 0..$m { for j in 0..$n {
        let mut a = [[0; $n]; $m];
        a[i][j] = 1 - 2 * ((i + j) as i64 % 2);
        cases.push((a, core::array::from_fn(|k| 2 + 5 * k as i64)));
    } }
    for s in 0..8i64 {
        cases.push((core::array::from_fn(|i| core::array::from_fn(|j| (i as i64 * 7 + j as i64 * 3 + s) % 11 - 5)), core::array::from_fn(|k| (k as i64 * 5 + s * 3) % 13 - 6)));
    }
    for k in 0..cases.len() {
        let (a, x) = cases[k];
        cases.push((times(&a, wide::<$t>()), x));
        cases.push((a, x.map(|c| c * wide::<$t>())));
    }
    for (a, x) in &cases {
        let (m, y) = (f::<$t, $m, $n>(a), v::<$t, $n>(x));
        let want: [i64; $m] = core::array::from_fn(|i| (0..$n).map(|j| a[i][j] * x[j]).sum());
        let mut go = |name: &str, got: Vector<$t, $m>| {
            r.step();
            r.check(vsame(&got, &want), name, || format!("{name} {}x{}: A={a:?} v={x:?} got {:?} want {want:?}", $m, $n, got.data));
        };
        $( go($name, unsafe { $k(&m, &y) }); )*
        $( go($sname, m.$s(&y)); )*
        r.states_distinct(1);
        r.trace();
    }
    // exactly the elements that depend on a NaN are NaN
    for at in 0..$m + 1 { for k in 0..$n {
        let (mut m, mut y) = (Matrix::<$t, $m, $n>::zeros(), Vector::<$t, $n>::zeros());
        if at < $m { m.data[at][k] = <$t>::NAN } else { y.data[k] = <$t>::NAN }
        let mut go = |name: &str, got: Vector<$t, $m>| {
            r.step();
            r.check((0..$m).all(|i| got.data[i].is_nan() == (i == at || at == $m)), name, || format!("{name} {}x{}: NaN in {} {k}: got {:?}", $m, $n, if at < $m { format!("row {at} column") } else { "the vector at".into() }, got.data));
        };
        $( go($name, unsafe { $k(&m, &y) }); )*
        $( go($sname, m.$s(&y)); )*
    } }
    r.sample(|| format!("{} cases of {}x{} matrix-vector kernels", cases.len(), $m, $n));
}} }
macro_rules! mat_kernels {
    ($r:expr, $t:ty, $ks:tt: $(($m:literal $n:literal $p:literal))*) => { $( mat_kernels!(@ $r, $t, $ks, $m $n $p); )* };
    (@ $r:expr, $t:ty, [$($k:ident)*], $m:literal $n:literal $p:literal) => {{
    let r: &mut Run = $r;
    let mut cases: Vec<(Im<$m, $n>, Im<$n, $p>)> = vec![];
    for k in 0..$n {
        let mut a = [[0; $n]; $m];
        for i in 0..$m { a[i][k] = 1 + i as i64; }
        cases.push((a, core::array::from_fn(|x| core::array::from_fn(|j| if x == k { 1 + j as i64 } else { 500 + (x * 7 + j) as i64 }))));
    }
    for j in 0..$p {
        let mut b = [[0; $p]; $n];
        for k in 0..$n { b[k][j] = 2 - k as i64; }
        cases.push((core::array::from_fn(|i| core::array::from_fn(|k| (i * 3 + k) as i64 - 4)), b));
    }
    for s in 0..3i64 {
        cases.push((core::array::from_fn(|i| core::array::from_fn(|j| (i as i64 * 7 + j as i64 * 3 + s) % 11 - 5)), core::array::from_fn(|i| core::array::from_fn(|j| (i as i64 * 5 - j as i64 * 4 + s * s) % 13))));
    }
    $( nan_products::<$t, $m, $n, $p>(r, stringify!($k), &|x, y| unsafe { ks::$k(x, y) }); )*
    nan_products::<$t, $m, $n, $p>(r, "mul_matrix_simd", &|x, y| x.mul_matrix_simd(y));
    // with every digit in use, where long sums still keep them all
    for k in 0..if $n <= 33 || <$t>::EPSILON < 1e-12 as $t { cases.len() } else { 0 } {
        let (a, b) = cases[k];
        cases.push((times(&a, wide::<$t>()), b));
        cases.push((a, times(&b, wide::<$t>())));
    }
    for (a, b) in &cases {
        let (x, y) = (f::<$t, $m, $n>(a), f::<$t, $n, $p>(b));
        let want = imul(a, b);
        for (name, got) in [
            $( (stringify!($k), unsafe { ks::$k(&x, &y) }), )*
            ("mul_matrix_simd", x.mul_matrix_simd(&y)),
        ] {
            r.step();
            r.check(same(&got, &want), name, || format!("{name} {}x{}x{}: A={a:?} B={b:?} got {:?} want {want:?}", $m, $n, $p, got.data));
        }
        r.states_distinct(1);
        r.trace();
    }
    r.sample(|| format!("{} cases of {}x{}x{} kernels", cases.len(), $m, $n, $p));
}} }
/// The entry points for 3x3, 4x4 and 6x6 products.
fn small_products(r: &mut Run) {
    for s in 0..1000i64 {
        fn go<T: Real, const N: usize>(s: i64) -> (Im<N, N>, Im<N, N>) {
            (core::array::from_fn(|i| core::array::from_fn(|j| (s * 5 + i as i64 * 7 + j as i64 * 3) % 11 - 5)), core::array::from_fn(|i| core::array::from_fn(|j| (s * 3 + i as i64 * 2 + j as i64 * 9) % 13 - 6)))
        }
        let (a, b) = go::<f64, 3>(s);
        let w = times(&a, wide::<f64>());
        r.check(same(&f::<f64, 3, 3>(&w).mul_mat3_simd(&f(&b)), &imul(&w, &b)), "mul_mat3_simd", || format!("{w:?} {b:?}"));
        r.check(same(&f::<f64, 3, 3>(&a).mul_mat3_simd(&f(&b)), &imul(&a, &b)) && same(&f::<f32, 3, 3>(&a).mul_mat3_simd(&f(&b)), &imul(&a, &b)), "mul_mat3_simd", || format!("{a:?} {b:?}"));
        let (a, b) = go::<f64, 4>(s);
        let w = times(&a, wide::<f64>());
        r.check(same(&f::<f64, 4, 4>(&w).mul_mat4_simd(&f(&b)), &imul(&w, &b)), "mul_mat4_simd", || format!("{w:?} {b:?}"));
        r.check(same(&f::<f64, 4, 4>(&a).mul_mat4_simd(&f(&b)), &imul(&a, &b)) && same(&f::<f32, 4, 4>(&a).mul_mat4_simd(&f(&b)), &imul(&a, &b)), "mul_mat4_simd", || format!("{a:?} {b:?}"));
        let (a, b) = go::<f64, 6>(s);
        let w = times(&a, wide::<f64>());
        r.check(same(&f::<f64, 6, 6>(&w).mul_mat6_simd(&f(&b)), &imul(&w, &b)), "mul_mat6_simd", || format!("{w:?} {b:?}"));
        r.check(same(&f::<f64, 6, 6>(&a).mul_mat6_simd(&f(&b)), &imul(&a, &b)) && same(&f::<f32, 6, 6>(&a).mul_mat6_simd(&f(&b)), &imul(&a, &b)), "mul_mat6_simd", || format!("{a:?} {b:?}"));
        r.steps(6);
        r.states_distinct(3);
    }
}
/// Every entry point that may use SIMD, in whatever build this is.
pub fn entry_points(r: &mut Run) {
    macro_rules! vecs { ($($m:literal)*) => { $(
        vec_kernels!(r, f64, 6, $m, [], ["mul_vec6_simd f64", mul_vec6_simd]);
        vec_kernels!(r, f64, 4, $m, [], ["mul_vec4_simd f64", mul_vec4_simd]);
        vec_kernels!(r, f32, 6, $m, [], ["mul_vec6_simd f32", mul_vec6_simd]);
        vec_kernels!(r, f32, 4, $m, [], ["mul_vec4_simd f32", mul_vec4_simd]);
    )* } }
    vecs!(1 2 3 4 5 6 7 8 9);
    mat_kernels!(r, f64, []: (1 1 1)(2 2 2)(3 3 3)(2 3 4)(4 4 4)(3 2 5)(1 4 6)(6 6 6)(5 7 7)(8 8 8)(2 5 9)(9 3 10)(4 9 11)(3 3 12)(2 2 13)(16 16 16)(3 17 17)(17 2 18)(1 33 19)(2 1 33));
    mat_kernels!(r, f32, []: (1 1 1)(2 2 2)(3 3 3)(2 3 4)(4 4 4)(3 2 5)(1 4 6)(6 6 6)(5 7 7)(8 8 8)(2 5 9)(9 3 10)(4 9 11)(3 3 12)(2 2 13)(3 2 14)(1 5 15)(16 16 16)(3 17 17)(17 2 18)(1 33 23)(2 3 24)(2 2 25)(2 1 33));
    small_products(r);
    let dom = [-2i64, 0, 1, 3];
    let mut w = words(dom.len(), 8);
    while let Some(x) = w.next() {
        let a: [i64; 4] = core::array::from_fn(|i| dom[x[i]]);
        let b: [i64; 4] = core::array::from_fn(|i| dom[x[i + 4]]);
        let want = (0..4).map(|i| a[i] * b[i]).sum::<i64>() as f64;
        for (name, got) in [("dot4_simd f64", v::<f64, 4>(&a).dot4_simd(&v(&b))), ("dot4_simd f32", v::<f32, 4>(&a).dot4_simd(&v(&b)) as f64)] {
            r.step();
            r.check(got == want, name, || format!("{name}: {a:?} . {b:?} = {got}, exact {want}"));
        }
    }
    for x in 0..4u32 {
        for s in 0..100i64 {
            let a: [i64; 4] = core::array::from_fn(|i| (s * 7 + i as i64 * 5) % 19 - 9);
            let b: [i64; 4] = core::array::from_fn(|i| (s * 3 + i as i64 * 11) % 17 - 8);
            let w: [i64; 4] = core::array::from_fn(|i| if i as u32 == x { a[i] * wide::<f64>() } else { a[i] });
            let want = (0..4).map(|i| w[i] * b[i]).sum::<i64>() as f64;
            r.steps(2);
            r.check(v::<f64, 4>(&w).dot4_simd(&v(&b)) == want && v::<f64, 4>(&b).dot4_simd(&v(&w)) == want, "dot4_simd f64", || format!("{w:?} . {b:?} = {}, exact {want}", v::<f64, 4>(&w).dot4_simd(&v(&b))));
        }
    }
    for k in 0..8 {
        let (mut a, mut b) = ([1.0f64; 4], [0.0f64; 4]);
        if k < 4 { a[k] = f64::NAN } else { b[k - 4] = f64::NAN }
        let (p, q) = (a.map(|x| x as f32), b.map(|x| x as f32));
        r.check(Vector { data: a }.dot4_simd(&Vector { data: b }).is_nan() && Vector { data: p }.dot4_simd(&Vector { data: q }).is_nan(), "dot4_simd NaN", || format!("{a:?} . {b:?} is not NaN"));
    }
    r.states_distinct(4u64.pow(8));
    r.section("entry points");
}
/// The same in one of many builds.
pub fn m08(r: &mut Run) {
    entry_points(r);
    let t = r.thorough;
    products_of_all_shapes(r);
    if t {
        m01(r);
    }
}

#[cfg(target_arch = "x86_64")]
use aether_core::math::arch::x86::{matrix_simd as ks, vector_simd as kv};

#[cfg(target_arch = "x86_64")]
pub fn m02(r: &mut Run) {
    assert!(is_x86_feature_detected!("avx") && is_x86_feature_detected!("fma"), "this check needs a CPU with AVX and FMA");
    macro_rules! v6d { ($($m:literal)*) => { $( vec_kernels!(r, f64, 6, $m, [
        ("mul_vec6_avx_fma_f64", ks::mul_vec6_avx_fma_f64) ("mul_vec6_avx_f64", ks::mul_vec6_avx_f64)
        ("mul_vec6_fma128_f64", ks::mul_vec6_fma128_f64) ("mul_vec6_sse2_f64", ks::mul_vec6_sse2_f64)], ["mul_vec6_simd f64", mul_vec6_simd]); )* } }
    macro_rules! v4d { ($($m:literal)*) => { $( vec_kernels!(r, f64, 4, $m, [
        ("mul_vec4_avx_fma_f64", ks::mul_vec4_avx_fma_f64) ("mul_vec4_avx_f64", ks::mul_vec4_avx_f64)], ["mul_vec4_simd f64", mul_vec4_simd]); )* } }
    macro_rules! v6s { ($($m:literal)*) => { $( vec_kernels!(r, f32, 6, $m, [
        ("mul_vec6_avx_fma_f32", ks::mul_vec6_avx_fma_f32) ("mul_vec6_avx_f32", ks::mul_vec6_avx_f32)
        ("mul_vec6_fma128_f32", ks::mul_vec6_fma128_f32) ("mul_vec6_sse_f32", ks::mul_vec6_sse_f32)], ["mul_vec6_simd f32", mul_vec6_simd]); )* } }
    macro_rules! v4s { ($($m:literal)*) => { $( vec_kernels!(r, f32, 4, $m, [
        ("mul_vec4_sse_fma_f32", ks::mul_vec4_sse_fma_f32) ("mul_vec4_sse_f32", ks::mul_vec4_sse_f32)], ["mul_vec4_simd f32", mul_vec4_simd]); )* } }
    v6d!(1 2 3 4 5 6 7 8 9 10 11 12 16 17 33 64 65);
    v4d!(1 2 3 4 5 6 7 8 9 10 11 12 16 17 33 64 65);
    v6s!(1 2 3 4 5 6 7 8 9 10 11 12 16 17 33 64 65);
    v4s!(1 2 3 4 5 6 7 8 9 10 11 12 16 17 33 64 65);
    r.section("matrix-vector kernels");
    mat_kernels!(r, f64, [mul_matrix_avx_f64 mul_matrix_avx_fma_f64]: (1 2 40)(2 3 64)(3 2 65)(2 1 67)(65 2 9)(2 65 10)(33 34 35)(1 130 17)(130 1 18)(2 2 131)(64 16 64)(1 1 1)(2 2 2)(3 3 3)(2 3 4)(4 4 4)(3 2 5)(1 4 6)(6 6 6)(5 7 7)(8 8 8)(2 5 9)(9 3 10)(4 9 11)(3 3 12)(2 2 13)(16 16 16)(3 17 17)(17 2 18)(1 33 19)(2 1 33));
    mat_kernels!(r, f32, [mul_matrix_avx_f32 mul_matrix_avx_fma_f32]: (1 2 40)(2 3 64)(3 2 65)(2 1 67)(65 2 9)(2 65 10)(33 34 35)(1 130 17)(130 1 18)(2 2 131)(64 16 64)(1 1 1)(2 2 2)(3 3 3)(2 3 4)(4 4 4)(3 2 5)(1 4 6)(6 6 6)(5 7 7)(8 8 8)(2 5 9)(9 3 10)(4 9 11)(3 3 12)(2 2 13)(3 2 14)(1 5 15)(16 16 16)(3 17 17)(17 2 18)(1 33 23)(2 3 24)(2 2 25)(2 1 33));
    small_products(r);
    r.section("matrix-matrix kernels");
    let dom = [-2i64, -1, 0, 1, 3];
    let mut w = words(5, 8);
    while let Some(x) = w.next() {
        let a: [i64; 4] = core::array::from_fn(|i| dom[x[i]]);
        let b: [i64; 4] = core::array::from_fn(|i| dom[x[i + 4]]);
        let want = (0..4).map(|i| a[i] * b[i]).sum::<i64>() as f64;
        let (p, q) = (v::<f64, 4>(&a), v::<f64, 4>(&b));
        let (s, t) = (v::<f32, 4>(&a), v::<f32, 4>(&b));
        for (name, got) in [
            ("dot4_simd f64", p.dot4_simd(&q)),
            ("dot4_avx_f64", unsafe { kv::dot4_avx_f64(&p, &q) }),
            ("dot4_avx_fma_f64", unsafe { kv::dot4_avx_fma_f64(&p, &q) }),
            ("dot4_simd f32", s.dot4_simd(&t) as f64),
            ("dot4_sse_f32", unsafe { kv::dot4_sse_f32(&s, &t) } as f64),
            ("dot4_sse_fma_f32", unsafe { kv::dot4_sse_fma_f32(&s, &t) } as f64),
        ] {
            r.step();
            r.check(got == want, name, || format!("{name}: {a:?} . {b:?} = {got}, exact {want}"));
        }
    }
    r.states_distinct(5u64.pow(8));
    r.section("dot kernels over all operand words");
    // magnitudes: within rounding of a sum of products on badly scaled operands
    let mags = [1e-300, -1e-3, 1.0, 3e5, 1e150, -7e149];
    let mut w = words(mags.len(), 8);
    while let Some(x) = w.next() {
        let a: [f64; 4] = core::array::from_fn(|i| mags[x[i]]);
        let b: [f64; 4] = core::array::from_fn(|i| mags[x[i + 4]]);
        let (p, q) = (Vector { data: a }, Vector { data: b });
        let tol: f64 = (0..4).map(|i| (a[i] * b[i]).abs()).sum::<f64>() * 8.0 * f64::EPSILON;
        let want: f64 = (0..4).map(|i| a[i] * b[i]).sum();
        for (name, got) in [("dot4_simd f64", p.dot4_simd(&q)), ("dot4_avx_f64", unsafe { kv::dot4_avx_f64(&p, &q) }), ("dot4_avx_fma_f64", unsafe { kv::dot4_avx_fma_f64(&p, &q) })] {
            r.step();
            r.check((got - want).abs() <= tol, name, || format!("{name}: {a:?} . {b:?} = {got}, scalar {want}"));
        }
    }
    r.section("dot kernels on scaled operands");
    entry_points(r);
    r.bounds.push("every x86 kernel and every dispatching entry point; rows up to 65; column counts covering each remainder lane, up to 131".into());
    r.assumptions.push("run on an x86-64 CPU with AVX and FMA".into());
}

// --------------------------------------------------------------- tensors
fn t3<const A: usize, const B: usize, const C: usize>(r: &mut Run) {
    let t = Tensor3::<usize, A, B, C>::new(core::array::from_fn(|i| core::array::from_fn(|j| core::array::from_fn(|k| (i * 100 + j) * 100 + k))));
    r.check(Tensor3::<usize, A, B, C>::dims() == (A, B, C), "dims3", || format!("{A}x{B}x{C}"));
    let mut w = t;
    r.check(t.as_flat().len() == A * B * C && w.as_flat_mut().len() == A * B * C, "flat_len", || format!("{A}x{B}x{C}: {}", t.as_flat().len()));
    let shape = [A, B, C];
    let mut n = 0;
    for i in 0..A {
        for j in 0..B {
            for k in 0..C {
                let id = (i * 100 + j) * 100 + k;
                r.step();
                let view = TensorView { data: t.as_flat(), shape: &shape };
                r.check(t[(i, j, k)] == id && t.as_flat()[n] == id && *view.get(&[i, j, k]) == id, "read3", || format!("{A}x{B}x{C} at {i},{j},{k}: {} {} {}", t[(i, j, k)], t.as_flat()[n], view.get(&[i, j, k])));
                // a write through each path is seen through the others and nowhere else
                for path in 0..3 {
                    let mut u = t;
                    match path {
                        0 => u[(i, j, k)] = usize::MAX,
                        1 => u.as_flat_mut()[n] = usize::MAX,
                        _ => *TensorViewMut { data: u.as_flat_mut(), shape: &shape }.get_mut(&[i, j, k]) = usize::MAX,
                    }
                    let changed: Vec<usize> = (0..A * B * C).filter(|&x| u.as_flat()[x] != t.as_flat()[x]).collect();
                    r.step();
                    r.check(changed == [n] && u.data[i][j][k] == usize::MAX, "write3", || format!("{A}x{B}x{C} write path {path} at {i},{j},{k} changed cells {changed:?}"));
                }
                n += 1;
                r.states_distinct(1);
            }
        }
    }
    for (i, j, k) in [(A, 0, 0), (0, B, 0), (0, 0, C)] {
        r.step();
        r.check(guard(|| t[(i, j, k)]).is_err(), "oob3", || format!("{A}x{B}x{C}: index {i},{j},{k} accepted"));
    }
    r.trace();
}
fn t4<const A: usize, const B: usize, const C: usize, const D: usize>(r: &mut Run) {
    let t = Tensor4::<usize, A, B, C, D>::new(core::array::from_fn(|i| core::array::from_fn(|j| core::array::from_fn(|k| core::array::from_fn(|l| ((i * 10 + j) * 10 + k) * 10 + l)))));
    r.check(Tensor4::<usize, A, B, C, D>::dims() == (A, B, C, D), "dims4", || format!("{A}x{B}x{C}x{D}"));
    let flat: Vec<usize> = t.data.as_flattened().as_flattened().as_flattened().to_vec();
    let shape = [A, B, C, D];
    for i in 0..A {
        for j in 0..B {
            for k in 0..C {
                for l in 0..D {
                    let id = ((i * 10 + j) * 10 + k) * 10 + l;
                    let mut u = t;
                    u[(i, j, k, l)] = usize::MAX;
                    let uf: Vec<usize> = u.data.as_flattened().as_flattened().as_flattened().to_vec();
                    let n = uf.iter().zip(&flat).filter(|(a, b)| a != b).count();
                    let view = TensorView { data: &flat, shape: &shape };
                    r.step();
                    r.check(t[(i, j, k, l)] == id && *view.get(&[i, j, k, l]) == id && n == 1 && u.data[i][j][k][l] == usize::MAX, "cell4", || format!("{A}x{B}x{C}x{D} at {i},{j},{k},{l}"));
                    let mut g = flat.clone();
                    *TensorViewMut { data: &mut g, shape: &shape }.get_mut(&[i, j, k, l]) = usize::MAX;
                    r.check(g == uf, "view4", || format!("{A}x{B}x{C}x{D}: view write at {i},{j},{k},{l} hits another cell"));
                    r.states_distinct(1);
                }
            }
        }
    }
    r.trace();
}
/// Elements of other sizes and alignments through the flat slice.
fn big_elements(r: &mut Run) {
    macro_rules! each { ($(($t:ty, $f:expr))*) => { $( {
        let mk: fn(usize) -> $t = $f;
        let mut t = Tensor3::<$t, 3, 4, 5>::new(core::array::from_fn(|i| core::array::from_fn(|j| core::array::from_fn(|k| mk((i * 4 + j) * 5 + k)))));
        for n in 0..60 {
            let (i, j, k) = (n / 20, n / 5 % 4, n % 5);
            r.step();
            r.check(t.as_flat()[n] == mk(n) && t[(i, j, k)] == mk(n), "element", || format!("3x4x5 of {}: cell {n} is {:?}", stringify!($t), t.as_flat()[n]));
            t.as_flat_mut()[n] = mk(n + 60);
            r.check(t.data[i][j][k] == mk(n + 60) && (n == 59 || t.as_flat()[n + 1] == mk(n + 1)), "element", || format!("3x4x5 of {}: write to cell {n}", stringify!($t)));
        }
        r.trace();
    } )* } }
    each!((u8, |n| n as u8) (f32, |n| n as f32) (f64, |n| n as f64 * 0.5) ([u16; 3], |n| [n as u16, 1, 2]) ((u8, u64), |n| (n as u8, n as u64)) (u128, |n| n as u128) (bool, |n| n / 7 % 2 == 0) (Option<char>, |n| char::from_u32(n as u32 + 65)));
}
pub fn m05(r: &mut Run) {
    macro_rules! a3 { ($($a:literal)*) => { $( t3::<$a, 1, 1>(r); t3::<$a, 1, 2>(r); t3::<$a, 1, 3>(r); t3::<$a, 2, 1>(r); t3::<$a, 2, 2>(r); t3::<$a, 2, 3>(r); t3::<$a, 3, 1>(r); t3::<$a, 3, 2>(r); t3::<$a, 3, 3>(r); t3::<$a, 4, 5>(r); t3::<$a, 5, 4>(r); )* } }
    a3!(1 2 3 4 7);
    r.section("rank 3");
    macro_rules! a4 { ($($a:literal $b:literal)*) => { $( t4::<$a, $b, 1, 1>(r); t4::<$a, $b, 1, 3>(r); t4::<$a, $b, 2, 2>(r); t4::<$a, $b, 3, 1>(r); t4::<$a, $b, 3, 4>(r); t4::<$a, $b, 5, 5>(r); t4::<$a, $b, 6, 2>(r); t4::<$a, $b, 2, 7>(r); )* } }
    a4!(1 1 1 2 2 1 2 2 2 3 3 2 3 3 1 4 4 5);
    r.section("rank 4");
    // views of any rank: row-major, one cell per index, shared by reads and writes
    for rank in 1..=5usize {
        let mut w = words(3, rank);
        while let Some(x) = w.next() {
            let shape: Vec<usize> = x.iter().map(|c| c + 1).collect();
            let n: usize = shape.iter().product();
            let mut data: Vec<usize> = (0..n).collect();
            let mut idx = vec![0usize; rank];
            for want in 0..n {
                r.step();
                let got = *TensorView { data: &data, shape: &shape }.get(&idx);
                r.check(got == want, "view", || format!("shape {shape:?} index {idx:?} reads cell {got}, row-major cell is {want}"));
                let p = TensorViewMut { data: &mut data, shape: &shape }.get_mut(&idx) as *mut usize as usize;
                let q = &data[want] as *const usize as usize;
                r.check(p == q, "view_mut", || format!("shape {shape:?} index {idx:?} writes another cell"));
                for ax in (0..rank).rev() {
                    idx[ax] += 1;
                    if idx[ax] < shape[ax] {
                        break;
                    }
                    idx[ax] = 0;
                }
            }
            r.states_distinct(n as u64);
            r.trace();
        }
    }
    r.section("views of rank 1..5");
    // long axes, high ranks, elements of other sizes, data longer than the shape
    let shapes: &[&[usize]] = &[&[70000], &[300, 300], &[2, 40000], &[40000, 2], &[1, 70000, 1], &[33, 1, 65, 17], &[5, 4, 3, 2, 2, 2, 2, 2], &[1, 1, 1, 1, 1, 1, 1, 1, 1, 9], &[2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2], &[0, 3], &[3, 0, 2]];
    for shape in shapes {
        let n: usize = shape.iter().product();
        let mut wide: Vec<(u8, u32, u16)> = (0..n + 7).map(|i| (i as u8, i as u32, 7)).collect();
        let mut idx = vec![0usize; shape.len()];
        for want in 0..n {
            r.step();
            let got = TensorView { data: &wide, shape }.get(&idx).1;
            r.check(got as usize == want, "view", || format!("shape {shape:?} index {idx:?} reads cell {got}, row-major cell is {want}"));
            TensorViewMut { data: &mut wide, shape }.get_mut(&idx).2 = 9;
            r.check(wide[want].2 == 9 && wide.get(want + 1).is_none_or(|x| x.2 == 7), "view_mut", || format!("shape {shape:?} index {idx:?} writes another cell"));
            for ax in (0..shape.len()).rev() {
                idx[ax] += 1;
                if idx[ax] < shape[ax] {
                    break;
                }
                idx[ax] = 0;
            }
        }
        r.check(wide[n..].iter().all(|x| x.2 == 7), "view_mut", || format!("shape {shape:?}: a cell beyond it was written"));
        r.states_distinct(n as u64);
        r.trace();
    }
    t3::<0, 2, 3>(r);
    t3::<2, 3, 0>(r);
    t3::<16, 3, 9>(r);
    t3::<5, 17, 4>(r);
    t3::<2, 2, 33>(r);
    t4::<9, 2, 1, 5>(r);
    t4::<2, 3, 4, 5>(r);
    t4::<1, 9, 7, 2>(r);
    big_elements(r);
    r.section("long axes and other elements");
    r.bounds.push("55 rank-3 shapes, 45 rank-4 shapes, all view shapes with axes 1..3 up to rank 5; every cell".into());
    let _ = <f64 as RealCast>::from_u32(1);
}
