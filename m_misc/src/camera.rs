//! K01: the orbit camera over every sequence of its operations, and the view matrices.
use aether_core::coordinate::Cartesian;
use aether_core::math::{Matrix, Vector};
use aether_core::real::Real;
use aether_core::reference_frame::ICRF;
use aether_graphics::cameras::orbit_camera::OrbitCamera;
use aether_graphics::graphics::transforms::*;
use mckit::*;
use std::f64::consts::PI;

type V = [f64; 3];
fn dot(a: V, b: V) -> f64 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
fn cross(a: V, b: V) -> V {
    [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}
fn norm(a: V) -> f64 {
    dot(a, a).sqrt()
}
fn unit(a: V) -> V {
    let n = norm(a);
    [a[0] / n, a[1] / n, a[2] / n]
}
fn far(a: V, b: V) -> f64 {
    norm([a[0] - b[0], a[1] - b[1], a[2] - b[2]])
}
/// Rodrigues rotation, counterclockwise about a unit axis.
fn turn(v: V, k: V, t: f64) -> V {
    let (s, c) = t.sin_cos();
    let (x, d) = (cross(k, v), dot(k, v) * (1.0 - c));
    [v[0] * c + x[0] * s + k[0] * d, v[1] * c + x[1] * s + k[1] * d, v[2] * c + x[2] * s + k[2] * d]
}
fn side(f: V) -> V {
    let r = cross([0.0, 0.0, 1.0], f);
    if dot(r, r) < 1e-16 { unit(cross([1.0, 0.0, 0.0], f)) } else { unit(r) }
}
fn v<T: Real>(x: &Vector<T, 3>) -> V {
    [x[0].to_f64(), x[1].to_f64(), x[2].to_f64()]
}
#[derive(Clone, Copy, Debug)]
enum Op {
    Set(f64, f64),
    Orbit(f64, f64),
    Pixels(f64, f64),
    World(f64, f64),
    WorldPixels(f64, f64),
    Move(V, f64),
}
const OPS: [Op; 19] = [
    Op::Set(0.7, 0.4),
    Op::Set(-2.5, -1.2),
    Op::Set(0.3, PI / 2.0),
    Op::Orbit(0.3, 0.2),
    Op::Orbit(-1.7, -0.5),
    Op::Orbit(0.0, 1.3),
    Op::Orbit(PI, 0.0),
    Op::Pixels(25.0, -40.0),
    Op::Pixels(-130.0, 60.0),
    Op::World(0.4, -0.9),
    Op::World(0.0, PI / 2.0),
    Op::WorldPixels(35.0, 70.0),
    Op::Move([3.0, -20.0, 7.5], 12.5),
    Op::Set(-2.0, PI / 2.0 - 1e-4),
    Op::Set(400.0, 1e-6 - PI / 2.0),
    Op::Orbit(1e-3, -1e-5),
    Op::Pixels(3000.0, -1500.0),
    Op::WorldPixels(-2200.0, 900.0),
    Op::Move([-1e6, 4e5, 0.0], 5e12),
];
fn model(f: V, o: Op) -> V {
    let orbit = |f: V, a: f64, b: f64| {
        let g = turn(f, [0.0, 0.0, 1.0], a);
        turn(g, side(g), -b)
    };
    let world = |f: V, x: f64, y: f64| turn(turn(f, [0.0, 1.0, 0.0], y), [1.0, 0.0, 0.0], x);
    match o {
        Op::Set(y, p) => orbit([1.0, 0.0, 0.0], y, p),
        Op::Orbit(a, b) => orbit(f, a, b),
        Op::Pixels(x, y) => orbit(f, -x * 0.01, -y * 0.01),
        Op::World(x, y) => world(f, x, y),
        Op::WorldPixels(x, y) => world(f, -y * 0.01, -x * 0.01),
        Op::Move(..) => f,
    }
}
fn apply<T: Real>(c: &mut OrbitCamera<T>, o: Op) {
    let n = T::from_f64;
    match o {
        Op::Set(y, p) => c.set_angles(n(y), n(p)),
        Op::Orbit(a, b) => c.apply_orbit_angles(n(a), n(b)),
        Op::Pixels(x, y) => c.apply_orbit_pixels(n(x), n(y)),
        Op::World(x, y) => c.apply_orbit_world_angles(n(x), n(y)),
        Op::WorldPixels(x, y) => c.apply_orbit_world_pixels(n(x), n(y)),
        Op::Move(t, d) => {
            c.target = Vector::new([n(t[0]), n(t[1]), n(t[2])]);
            c.distance = n(d);
        }
    }
}
fn walk<T: Real>(p: &mut Part, ops: &[usize], tol: f64, with_model: bool) {
    let mut c = OrbitCamera::<T>::default();
    c.orbit_sens = T::from_f64(0.01);
    c.distance = T::from_f64(4.0);
    (c.min_dist, c.max_dist) = (T::from_f64(5.0), T::from_f64(10.0)); // limits for the zoom, not for the position
    let mut f = [1.0, 0.0, 0.0];
    p.traces += 1;
    for (i, &k) in ops.iter().enumerate() {
        let o = OPS[k];
        apply(&mut c, o);
        f = model(f, o);
        p.steps_n(1);
        let at = || format!("after {:?}", ops[..=i].iter().map(|k| OPS[*k]).collect::<Vec<_>>());
        if i + 1 < ops.len() {
            continue;
        }
        p.states += 1;
        let (fw, r, u, pos, tg) = (v(&c.forward()), v(&c.right()), v(&c.cam_up()), v(&c.position()), v(&c.target));
        let d = c.distance.to_f64();
        if with_model {
            p.check(far(fw, f) < tol, "forward", || format!("{}: forward {fw:?}, expected {f:?}", at()));
        }
        let off = |a: f64| !(a.abs() <= tol);
        let bad = off(norm(fw) - 1.0) || off(norm(r) - 1.0) || off(norm(u) - 1.0) || off(dot(fw, r)) || off(dot(fw, u)) || off(dot(r, u)) || off(r[2]) || !(u[2] >= -tol);
        p.check(!bad, "basis", || format!("{}: forward {fw:?} right {r:?} up {u:?}", at()));
        let sight: V = [tg[0] - pos[0], tg[1] - pos[1], tg[2] - pos[2]];
        p.check((norm(sight) - d).abs() <= tol * (100.0 + 10.0 * d) && far(sight, [fw[0] * d, fw[1] * d, fw[2] * d]) <= tol * (100.0 + 10.0 * d), "position", || format!("{}: position {pos:?} target {tg:?} distance {d}", at()));
        // reported angles name the direction
        let mut q = OrbitCamera::<T>::default();
        q.set_angles(c.yaw, c.pitch);
        let g = v(&q.forward());
        p.check(far(g, fw) <= tol.sqrt().max(2e-6) , "angles", || format!("{}: yaw {} pitch {} is direction {g:?}, camera looks {fw:?}", at(), c.yaw.to_f64(), c.pitch.to_f64()));
        p.outcomes.insert(h(&fw.map(|x| (x * 4.0).round() as i8 as u8)));
    }
}
fn mat(m: &Matrix<f64, 4, 4>, x: [f64; 4]) -> [f64; 4] {
    std::array::from_fn(|i| (0..4).map(|j| m.data[i][j] * x[j]).sum())
}

pub fn k01(r: &mut Run) {
    let len = if r.thorough { 6 } else { 5 };
    r.bounds.push(format!("all words of up to {len} operations out of {} from the default camera; all poses over a grid; projections over a grid", OPS.len()));
    r.assumptions.push("no handedness of the camera frame is assumed; the projection may act on row or on column vectors".into());
    for part in par(OPS.len() as u64 * OPS.len() as u64, |p, i| {
        let (a, b) = (i as usize / OPS.len(), i as usize % OPS.len());
        for n in 1..=len {
            if n == 1 && b > 0 {
                continue;
            }
            let mut w = words(OPS.len(), n.max(2) - 2);
            while let Some(k) = w.next() {
                let mut full = vec![a];
                if n > 1 {
                    full.push(b);
                }
                full.extend_from_slice(k);
                walk::<f64>(p, &full, 1e-7, true);
                if n < len {
                    walk::<f32>(p, &full, 2e-4, false);
                }
            }
        }
    }) {
        r.absorb(part);
    }
    r.section("orbit camera");
    // set then orbit is set of the sums
    for i in 0..24 {
        for j in -11..=11 {
            for (da, db) in [(0.0, 0.0), (0.4, 0.0), (0.0, 0.1), (-2.0, -0.1), (7.0, 0.05)] {
                let (y, q) = (i as f64 * PI / 12.0, j as f64 * 0.13);
                let mut a = OrbitCamera::<f64>::default();
                let mut b = a.clone();
                a.set_angles(y, q);
                a.apply_orbit_angles(da, db);
                b.set_angles(y + da, q + db);
                r.step();
                r.trace();
                r.check(far(v(&a.forward()), v(&b.forward())) < 1e-9, "orbit-adds", || format!("set {y} {q} then orbit {da} {db}: {:?}, set of the sums {:?}", v(&a.forward()), v(&b.forward())));
                r.check((a.pitch - b.pitch).abs() < 1e-6 && ((a.yaw - b.yaw + PI).rem_euclid(2.0 * PI) - PI).abs() < 1e-6, "reported-angles", || format!("set {y} {q} then orbit {da} {db}: reports {} {}, expected {} {}", a.yaw, a.pitch, b.yaw, b.pitch));
            }
        }
    }
    r.section("angles add");
    // view matrices
    let g = [-2.0, 0.0, 0.5, 30.0];
    let ups: [V; 4] = [[0.0, 0.0, 1.0], [0.0, 1.0, 0.0], [0.3, -0.2, 0.9], [0.0, 0.0, -2.0]];
    let cv = |x: V| Cartesian::<f64, ICRF<f64>>::new(x[0], x[1], x[2]);
    let mut w = words(4, 6);
    while let Some(k) = w.next() {
        let (e, c): (V, V) = ([g[k[0]], g[k[1]], g[k[2]]], [g[k[3]], g[k[4]] + 0.25, g[k[5]]]);
        for up in ups {
            let f: V = unit([c[0] - e[0], c[1] - e[1], c[2] - e[2]]);
            if norm(cross(f, up)) < 1e-6 {
                continue;
            }
            r.step();
            let m = look_at(&cv(e), &cv(c), &cv(up));
            let row = |i: usize| -> V { [m.data[i][0], m.data[i][1], m.data[i][2]] };
            let (a, b, z) = (row(0), row(1), row(2));
            let ok = [norm(a) - 1.0, norm(b) - 1.0, norm(z) - 1.0, dot(a, b), dot(a, z), dot(b, z), dot(a, up), far(m.data[3][..3].try_into().unwrap(), [0.0; 3]), m.data[3][3] - 1.0].iter().all(|x| x.abs() < 1e-9) && dot(b, up) > 0.0;
            r.check(ok, "view-rigid", || format!("eye {e:?} centre {c:?} up {up:?}: {:?}", m.data));
            let o = mat(&m, [e[0], e[1], e[2], 1.0]);
            let q = mat(&m, [c[0], c[1], c[2], 1.0]);
            let d = far(e, c);
            let ok = (0..3).all(|i| o[i].abs() < 1e-9) && q[0].abs() < 1e-9 && q[1].abs() < 1e-9 && (q[2] + d).abs() < 1e-9;
            r.check(ok, "view-points", || format!("eye {e:?} centre {c:?} up {up:?}: eye to {o:?}, centre to {q:?}"));
            // translation after it
            let t = [0.5, -4.0, 2.0];
            let tm = translate(&m, &Vector::new(t));
            let x = [1.0, -3.0, 0.25];
            let (l, rr) = (mat(&tm, [x[0], x[1], x[2], 1.0]), mat(&m, [x[0] + t[0], x[1] + t[1], x[2] + t[2], 1.0]));
            r.check((0..4).all(|i| (l[i] - rr[i]).abs() < 1e-9), "translate", || format!("{x:?} moved by {t:?}: {l:?}, expected {rr:?}"));
        }
        r.states_distinct(1);
    }
    r.section("view");
    for aspect in [0.5, 1.0, 16.0 / 9.0, 3.0] {
        for fov in [0.1, 0.5, 1.0, PI / 2.0, 2.5, 3.0] {
            for (n, f) in [(0.1, 10.0), (1.0, 1e3), (0.01, 1e6), (5.0, 6.0)] {
                let m = perspective::<f64>(aspect, fov, n, f);
                let eye = cv([1.0, 2.0, 3.0]);
                let (view, proj) = look_at_perspective(&eye, &cv([0.0; 3]), &cv([0.0, 0.0, 1.0]), aspect, fov, n, f);
                r.check(proj.data == m.data && view.data == look_at(&eye, &cv([0.0; 3]), &cv([0.0, 0.0, 1.0])).data, "view-and-projection", || format!("{aspect} {fov} {n} {f}"));
                let tr = Matrix::<f64, 4, 4>::new(std::array::from_fn(|i| std::array::from_fn(|j| m.data[j][i])));
                // corners of the frustum onto corners of the cube
                let fits = |m: &Matrix<f64, 4, 4>| {
                    let mut worst: f64 = 0.0;
                    for (z, want) in [(n, -1.0), (f, 1.0)] {
                        for sx in [-1.0, 0.0, 1.0] {
                            for sy in [-1.0, 0.0, 1.0] {
                                let hy = z * (fov / 2.0).tan();
                                let c = mat(m, [sx * hy * aspect, sy * hy, -z, 1.0]);
                                for (g, w) in [(c[0] / c[3], sx), (c[1] / c[3], sy), (c[2] / c[3], want)] {
                                    worst = worst.max((g - w).abs());
                                    if !(g - w).is_finite() || c[3] <= 0.0 {
                                        worst = f64::INFINITY;
                                    }
                                }
                            }
                        }
                    }
                    worst
                };
                r.steps(18);
                r.trace();
                let w = fits(&m).min(fits(&tr));
                r.check(w < 1e-7, "projection", || format!("aspect {aspect} field of view {fov} near {n} far {f}: frustum off the cube by {w}: {:?}", m.data));
            }
        }
    }
    r.section("projection");
}
