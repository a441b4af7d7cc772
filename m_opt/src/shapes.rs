//! P01, F01: mass properties against explicit sums, tanks against shapes.
use aether_core::attitude::DirectionCosineMatrix;
use aether_core::coordinate::Cartesian;
use aether_core::math::{Matrix, Vector};
use aether_core::real::Real;
use aether_core::reference_frame::{Pose, ReferenceFrame};
use aether_fluids::*;
use aether_shapes::attributes::*;
use aether_shapes::cylinder::Cylinder;
use aether_shapes::prism::RectangularPrism;
use aether_shapes::sphere::Sphere;
use mckit::*;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Sh {
    P([f64; 3]),
    C(f64, f64),
    S(f64),
}
impl Sh {
    fn vol(&self) -> f64 {
        match *self {
            Sh::P([a, b, c]) => a * b * c,
            Sh::C(r, h) => std::f64::consts::PI * r * r * h,
            Sh::S(r) => 4.0 / 3.0 * std::f64::consts::PI * r * r * r,
        }
    }
    /// Mean square half-widths: second moments of the unit mass along the local axes.
    fn second(&self) -> [f64; 3] {
        match *self {
            Sh::P(e) => e.map(|x| x * x / 12.0),
            Sh::C(r, h) => [r * r / 4.0, r * r / 4.0, h * h / 12.0],
            Sh::S(r) => [r * r / 5.0; 3],
        }
    }
}
type M3 = [[f64; 3]; 3];
#[derive(Clone, Copy, Debug)]
struct Body {
    sh: Sh,
    rho: f64,
    rot: M3,
    at: [f64; 3],
}
struct Want {
    vol: f64,
    mass: f64,
    com: [f64; 3],
    inertia: M3,
    scale: f64,
}
/// Second moments about a point; the inertia is trace - moments.
fn combine(a: &Body, b: &Body, sign: f64) -> Option<Want> {
    let (va, vb) = (a.sh.vol(), b.sh.vol());
    let (ma, mb) = (va * a.rho, sign * vb * b.rho);
    let (vol, mass) = (va + sign * vb, ma + mb);
    if va <= 0.0 || vb <= 0.0 || vol <= 0.0 || mass <= 0.0 {
        return None;
    }
    let mut com = [0.0; 3];
    for i in 0..3 {
        com[i] = (ma * a.at[i] + mb * b.at[i]) / mass;
    }
    let mut s: M3 = [[0.0; 3]; 3];
    for (x, m) in [(a, ma), (b, mb)] {
        let q = x.sh.second();
        for i in 0..3 {
            for j in 0..3 {
                let mut v = 0.0;
                for k in 0..3 {
                    v += x.rot[i][k] * q[k] * x.rot[j][k];
                }
                v += (x.at[i] - com[i]) * (x.at[j] - com[j]);
                s[i][j] += m * v;
            }
        }
    }
    let tr = s[0][0] + s[1][1] + s[2][2];
    let mut inertia: M3 = [[0.0; 3]; 3];
    for i in 0..3 {
        for j in 0..3 {
            inertia[i][j] = if i == j { tr } else { 0.0 } - s[i][j];
        }
    }
    let n2 = |v: &[f64; 3]| v.iter().map(|x| x * x).sum::<f64>();
    let scale = (ma.abs() * (n2(&a.at) + n2(&a.sh.second().map(f64::sqrt)))) + (mb.abs() * (n2(&b.at) + n2(&b.sh.second().map(f64::sqrt)))) + mass * n2(&com);
    Some(Want { vol, mass, com, inertia, scale })
}
fn m3<F: Real>(m: &M3) -> Matrix<F, 3, 3> {
    Matrix::new(m.map(|r| r.map(F::from_f64)))
}
fn v3<F: Real>(v: &[f64; 3]) -> Vector<F, 3> {
    Vector::new(v.map(F::from_f64))
}
fn pose<F: Real, L: ReferenceFrame>(b: &Body) -> Pose<F, L> {
    let mut r = Cartesian::zero();
    r.data = v3(&b.at);
    Pose { R_local_to_assembly: DirectionCosineMatrix::from_matrix(m3(&b.rot)), r_cm_in_assembly: r }
}
fn ops<F: Real, A: Solid<F> + Copy, B: Solid<F> + Copy>(a: A, b: B, x: &Body, y: &Body) -> [Option<MassProps<F>>; 4] {
    let ma = || MassModel::new(a, F::from_f64(x.rho), pose::<F, A::Local>(x));
    let mb = || MassModel::new(b, F::from_f64(y.rho), pose::<F, B::Local>(y));
    let (ra, rb) = (F::from_f64(x.rho), F::from_f64(y.rho));
    [ma() + mb(), a.add_with(&b, ra, rb, m3(&x.rot), v3(&x.at), m3(&y.rot), v3(&y.at)), ma() - mb(), a.subtract_with(&b, ra, rb, m3(&x.rot), v3(&x.at), m3(&y.rot), v3(&y.at))]
}
fn all<F: Real>(x: &Body, y: &Body) -> [Option<MassProps<F>>; 4] {
    let p = |e: [f64; 3]| RectangularPrism::<F> { a: F::from_f64(e[0]), b: F::from_f64(e[1]), c: F::from_f64(e[2]) };
    let c = |r: f64, h: f64| Cylinder::<F> { r: F::from_f64(r), h: F::from_f64(h) };
    let s = |r: f64| Sphere::<F> { r: F::from_f64(r) };
    match (x.sh, y.sh) {
        (Sh::P(a), Sh::P(b)) => ops(p(a), p(b), x, y),
        (Sh::P(a), Sh::C(b, h)) => ops(p(a), c(b, h), x, y),
        (Sh::P(a), Sh::S(b)) => ops(p(a), s(b), x, y),
        (Sh::C(a, g), Sh::P(b)) => ops(c(a, g), p(b), x, y),
        (Sh::C(a, g), Sh::C(b, h)) => ops(c(a, g), c(b, h), x, y),
        (Sh::C(a, g), Sh::S(b)) => ops(c(a, g), s(b), x, y),
        (Sh::S(a), Sh::P(b)) => ops(s(a), p(b), x, y),
        (Sh::S(a), Sh::C(b, h)) => ops(s(a), c(b, h), x, y),
        (Sh::S(a), Sh::S(b)) => ops(s(a), s(b), x, y),
    }
}
fn judge<F: Real>(p: &mut Part, x: &Body, y: &Body, eps: f64, name: &str) {
    let got = all::<F>(x, y);
    for (k, g) in got.iter().enumerate() {
        let op = ["a + b", "a.add_with(b)", "a - b", "a.subtract_with(b)"][k];
        let want = combine(x, y, if k < 2 { 1.0 } else { -1.0 });
        p.step();
        p.traces += 1;
        let what = || format!("{name} {op} of {x:?} and {y:?}");
        match (g, want) {
            (None, None) => {}
            (Some(g), Some(w)) => {
                let f = |v: F| v.to_f64();
                // cancellation in the remaining mass magnifies rounding
                let cancel = (x.sh.vol() * x.rho.abs() + y.sh.vol() * y.rho.abs()) / w.mass + (x.sh.vol() + y.sh.vol()) / w.vol;
                let rel = eps * cancel;
                let reach = x.at.iter().chain(y.at.iter()).fold(0.0f64, |m, v| m.max(v.abs()));
                let mut bad = vec![];
                if (f(g.volume) - w.vol).abs() > rel * w.vol {
                    bad.push(format!("volume {} expected {}", f(g.volume), w.vol));
                }
                if (f(g.mass) - w.mass).abs() > rel * w.mass {
                    bad.push(format!("mass {} expected {}", f(g.mass), w.mass));
                }
                if (f(g.density) - w.mass / w.vol).abs() > 2.0 * rel * (w.mass / w.vol) {
                    bad.push(format!("density {} expected {}", f(g.density), w.mass / w.vol));
                }
                for i in 0..3 {
                    if (f(g.com[i]) - w.com[i]).abs() > rel * reach {
                        bad.push(format!("centre of mass[{i}] {} expected {}", f(g.com[i]), w.com[i]));
                    }
                    for j in 0..3 {
                        let (a, b) = (f(g.inertia_cm.data[i][j]), w.inertia[i][j]);
                        if (a - b).abs() > 16.0 * rel * w.scale {
                            bad.push(format!("inertia[{i}][{j}] {a} expected {b}"));
                        }
                        if (a - f(g.inertia_cm.data[j][i])).abs() > 16.0 * rel * w.scale {
                            bad.push(format!("inertia not symmetric at [{i}][{j}]"));
                        }
                    }
                }
                p.check(bad.is_empty(), "mass-properties", || format!("{}: {}", what(), bad.join(", ")));
            }
            (None, Some(w)) => {
                let near = 100.0 * eps; // the remainder drowns in rounding
                p.check(w.mass < near * (x.sh.vol() * x.rho + y.sh.vol() * y.rho) || w.vol < near * (x.sh.vol() + y.sh.vol()), "refused", || format!("{}: refused, mass {} volume {}", what(), w.mass, w.vol));
            }
            (Some(g), None) => p.fail("accepted", || format!("{}: accepted with mass {} volume {}", what(), g.mass.to_f64(), g.volume.to_f64())),
        }
    }
}

fn rotations(all24: bool) -> Vec<M3> {
    let mut o = vec![];
    for perm in [[0, 1, 2], [1, 2, 0], [2, 0, 1], [0, 2, 1], [2, 1, 0], [1, 0, 2]] {
        for s in 0..8 {
            let mut m = [[0.0; 3]; 3];
            for i in 0..3 {
                m[i][perm[i]] = if s >> i & 1 == 1 { -1.0 } else { 1.0 };
            }
            let d = m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0]) + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]);
            if d > 0.0 {
                o.push(m);
            }
        }
    }
    if !all24 {
        o = vec![o[0], o[5], o[9], o[14]];
    }
    // Pythagorean rotations: exact entries, no symmetry
    o.push([[0.6, -0.8, 0.0], [0.8, 0.6, 0.0], [0.0, 0.0, 1.0]]);
    o.push([[2.0 / 3.0, -1.0 / 3.0, 2.0 / 3.0], [2.0 / 3.0, 2.0 / 3.0, -1.0 / 3.0], [-1.0 / 3.0, 2.0 / 3.0, 2.0 / 3.0]]);
    o.push([[0.36, 0.48, -0.8], [-0.8, 0.6, 0.0], [0.48, 0.64, 0.6]]);
    // ... turned the other way, so that each entry is negative in one of them
    o.push([[-2.0 / 3.0, 1.0 / 3.0, -2.0 / 3.0], [-2.0 / 3.0, -2.0 / 3.0, 1.0 / 3.0], [-1.0 / 3.0, 2.0 / 3.0, 2.0 / 3.0]]);
    o.push([[-0.36, -0.48, 0.8], [0.8, -0.6, 0.0], [0.48, 0.64, 0.6]]);
    o
}

pub fn p01(r: &mut Run) {
    let deep = r.thorough;
    let shapes = [Sh::P([2.0, 3.0, 5.0]), Sh::P([0.5, 0.25, 1.0]), Sh::C(1.5, 4.0), Sh::C(0.25, 0.125), Sh::S(1.25), Sh::S(0.2), Sh::P([0.0, 1.0, 1.0]), Sh::C(1.0, -2.0), Sh::S(0.0)];
    let rhos: &[f64] = if deep { &[1.0, 2.5, 0.125, 0.0, 7800.0] } else { &[1.0, 2.5, 0.0] };
    let at: &[[f64; 3]] = &[[0.0; 3], [1.0, -2.0, 0.5], [10.0, 0.0, -3.0], [-0.1, 0.2, 0.3]];
    let rots = rotations(deep);
    let nb = (shapes.len() * rhos.len() * rots.len() * at.len()) as u64;
    let body = |i: u64| {
        let mut i = i as usize;
        let mut t = |n: usize| {
            let d = i % n;
            i /= n;
            d
        };
        Body { sh: shapes[t(shapes.len())], rho: rhos[t(rhos.len())], rot: rots[t(rots.len())], at: at[t(at.len())] }
    };
    let second: Vec<u64> = (0..nb).filter(|j| deep || *j % 3 == 0 || *j % 7 == 1).collect();
    let parts = par(nb, |p, i| {
        let x = body(i);
        // rotating or moving both parts alike only matters relatively: one part takes few poses
        for &j in &second {
            let y = body(j);
            if deep && y.rot != rots[0] && y.rot != rots[rots.len() - 2] && y.rot != rots[7] && y.rot != rots[rots.len() - 1] {
                continue;
            }
            p.states += 1;
            judge::<f64>(p, &x, &y, 1e-13, "f64");
            if (i + j) % 11 == 0 {
                judge::<f32>(p, &x, &y, 2e-5, "f32");
            }
        }
    });
    for q in parts {
        r.absorb(q);
    }
    r.section("two-body mass properties");
    // bodies of every size, and shells of every thickness
    let sc = |s: Sh, k: f64| match s {
        Sh::P(e) => Sh::P(e.map(|x| x * k)),
        Sh::C(a, h) => Sh::C(a * k, h * k),
        Sh::S(a) => Sh::S(a * k),
    };
    let rots = &rots;
    let parts = par(23 * 23, |p, i| {
        let (u, v) = (10f64.powf((i / 23) as f64 * 0.5 - 5.5), 10f64.powf((i % 23) as f64 * 0.5 - 5.5));
        for (a, &sa) in shapes[..6].iter().enumerate() {
            for (b, &sb) in shapes[..6].iter().enumerate() {
                let k = a + b * 5 + i as usize;
                let x = Body { sh: sc(sa, u), rho: [1.0, 2.5e-3, 7800.0][k % 3], rot: rots[k % rots.len()], at: at[k % 4].map(|c| c * u) };
                let y = Body { sh: sc(sb, v), rho: [1.0, 40.0][k % 2], rot: rots[(k * 3 + 1) % rots.len()], at: at[(k + b) % 4].map(|c| c * v) };
                p.states += 1;
                judge::<f64>(p, &x, &y, 1e-13, "f64");
                if u.max(v) < 200.0 && u.min(v) > 5e-3 {
                    judge::<f32>(p, &x, &y, 2e-5, "f32");
                }
            }
        }
    });
    for q in parts {
        r.absorb(q);
    }
    let mut p = Part::default();
    for k in 1..=60 {
        let thin = 1.0 - 2f64.powf(-(k as f64) * 0.5);
        for e in -4..=4 {
            for (a, &sa) in shapes[..6].iter().enumerate() {
                for same in [true, false] {
                    let j = k as usize + a;
                    let size = 10f64.powi(e);
                    let x = Body { sh: sc(sa, size), rho: [1.0, 2700.0][j % 2], rot: rots[j % rots.len()], at: at[j % 4].map(|c| c * size) };
                    let y = Body { sh: sc(sa, size * thin), rho: x.rho * if same { 1.0 } else { 0.5 }, rot: x.rot, at: x.at };
                    p.states += 1;
                    judge::<f64>(&mut p, &x, &y, 1e-13, "f64");
                    judge::<f32>(&mut p, &x, &y, 2e-5, "f32");
                }
            }
        }
    }
    r.absorb(p);
    r.section("sizes and thin shells");
    // a single solid against the integral over slabs
    let mut p = Part::default();
    for i in 1..40 {
        for j in 1..40 {
            let (a, b) = (i as f64 * 0.13, j as f64 * 0.31);
            for m in [1.0, 0.25, 12.0] {
                let mut one = |name: &str, v: f64, pm: Vector<f64, 3>, sh: Sh| {
                    let q = sh.second();
                    let ok = (v - sh.vol()).abs() <= 1e-12 * sh.vol() && (0..3).all(|k| (pm[k] - m * (q[0] + q[1] + q[2] - q[k])).abs() <= 1e-12 * m * (q[0] + q[1] + q[2]));
                    p.states += 1;
                    p.step();
                    p.traces += 1;
                    p.check(ok, "solid", || format!("{name} {sh:?} mass {m}: volume {v}, principal moments {} {} {}", pm[0], pm[1], pm[2]));
                };
                let s = RectangularPrism { a, b, c: 1.75 };
                one("prism", s.volume(), s.inertia_principal_cm(m), Sh::P([a, b, 1.75]));
                let s = Cylinder { r: a, h: b };
                one("cylinder", s.volume(), s.inertia_principal_cm(m), Sh::C(a, b));
                let s = Sphere { r: a };
                one("sphere", s.volume(), s.inertia_principal_cm(m), Sh::S(a));
            }
        }
    }
    // bodies nobody placed: the frame's own axes and origin
    fn unplaced<F: Real>() -> bool {
        let p = Pose::<F, <Sphere<F> as Solid<F>>::Local>::identity();
        let m = p.R_local_to_assembly.as_matrix().data;
        (0..3).all(|i| p.r_cm_in_assembly.data[i] == F::ZERO && (0..3).all(|j| m[i][j] == if i == j { F::ONE } else { F::ZERO }))
    }
    p.check(unplaced::<f64>() && unplaced::<f32>(), "identity", || "the identity pose turns or moves a body".into());
    use aether_core::reference_frame::{Assembly, Body as BodyFrame};
    let (a, b) = (Assembly::<f64>::default(), BodyFrame::<f64>::default());
    p.check((0..3).all(|i| a.mass_center[i] == 0.0 && a.lever_arm[i] == 0.0 && b.mass_center[i] == 0.0 && b.lever_arm[i] == 0.0), "identity", || "a default frame has offsets".into());
    r.absorb(p);
    r.section("solids");
    r.sample(|| format!("{nb} bodies (9 shapes x densities x rotations x places), pairwise added and subtracted"));
    r.bounds.push(format!("all pairs of {nb} bodies with {} second bodies{}", second.len(), if deep { ", second rotation one of 4" } else { "" }));
}

pub fn f01(r: &mut Run) {
    let deep = r.thorough;
    let lens: &[f64] = &[0.0, 1e-3, 0.3, 1.0, 2.5, 40.0, -1.0];
    let mut shapes = vec![];
    for &a in lens {
        shapes.push((TankShape::Sphere { radius_m: a }, Sh::S(a)));
        for &b in lens {
            shapes.push((TankShape::Cylinder { radius_m: a, length_m: b }, Sh::C(a, b)));
        }
    }
    let mut p = Part::default();
    let fills: Vec<f64> = (-20..=120).map(|i| i as f64 / 100.0).chain([f64::INFINITY, f64::NEG_INFINITY, 1.0 + f64::EPSILON, -0.0, 5e-324]).collect();
    for (t, sh) in &shapes {
        let v = sh.vol();
        p.check((t.volume_m3() - v).abs() <= 1e-12 * v.abs(), "volume", || format!("{t:?}: volume {}", t.volume_m3()));
        for &f in &fills {
            for rho in [0.0, 71.0, 1000.0, 1.3e4, -5.0, 1e-3] {
                let l = PropellantTankSpec { shape: *t, propellant_density_kg_m3: rho, fill_fraction: f }.limits();
                let g = v.max(0.0);
                let u = g * f.max(0.0).min(1.0);
                let m = u * rho.max(0.0);
                p.states += 1;
                p.step();
                p.traces += 1;
                let near = |a: f64, b: f64| (a - b).abs() <= 1e-12 * b.abs();
                p.check(near(l.geometric_volume_m3, g) && near(l.usable_volume_m3, u) && near(l.max_propellant_mass_kg, m), "limits", || format!("{t:?} density {rho} fill {f}: {l:?}, expected {g} {u} {m}"));
                p.check(l.usable_volume_m3 <= l.geometric_volume_m3 && l.usable_volume_m3 >= 0.0 && l.max_propellant_mass_kg >= 0.0, "limits", || format!("{t:?} density {rho} fill {f}: {l:?}"));
            }
        }
        for m in [-3.0, 0.0, 1.0, 0.125, 900.0] {
            let g = t.inertia_principal_cm_kg_m2(m);
            let q = sh.second();
            let mm = f64::max(m, 0.0);
            let ok = (0..3).all(|k| (g[k] - mm * (q[0] + q[1] + q[2] - q[k])).abs() <= 1e-12 * mm * (q[0] + q[1] + q[2]));
            p.step();
            p.check(ok, "inertia", || format!("{t:?} mass {m}: {g:?}"));
        }
    }
    r.absorb(p);
    r.section("one tank");
    // all lists of tanks to a length: totals, order, empty
    let mut states = vec![];
    for (t, sh) in shapes.iter().step_by(if deep { 5 } else { 9 }) {
        for m in [-3.0, 0.0, 2.0, 117.5] {
            states.push((TankMassState { shape: *t, mass_kg: m }, *sh));
        }
    }
    let len = if deep { 4 } else { 3 };
    let parts = par(states.len() as u64, |p, i| {
        for l in 0..=len {
            if l == 0 && i > 0 {
                continue;
            }
            let mut w = words(states.len(), l - (l > 0) as usize);
            while let Some(rest) = w.next() {
                let idx: Vec<usize> = if l == 0 { vec![] } else { std::iter::once(i as usize).chain(rest.iter().copied()).collect() };
                let ts: Vec<TankMassState> = idx.iter().map(|k| states[*k].0).collect();
                let (mut m, mut q) = (0.0, [0.0; 3]);
                for k in &idx {
                    let (s, sh) = &states[*k];
                    let mm = s.mass_kg.max(0.0);
                    m += mm;
                    let e = sh.second();
                    for j in 0..3 {
                        q[j] += mm * (e[0] + e[1] + e[2] - e[j]);
                    }
                }
                p.states += 1;
                p.step();
                p.traces += 1;
                let gm = aggregate_tank_mass_kg(&ts);
                let gi = aggregate_tank_inertia_principal_cm_kg_m2(&ts);
                p.check((gm - m).abs() <= 1e-12 * (1.0 + m), "total-mass", || format!("{ts:?}: {gm} expected {m}"));
                p.check((0..3).all(|j| (gi[j] - q[j]).abs() <= 1e-12 * (1.0 + q[j])), "total-inertia", || format!("{ts:?}: {gi:?} expected {q:?}"));
            }
        }
    });
    for q in parts {
        r.absorb(q);
    }
    // long lists: every length, each tank marked in turn
    let mut p = Part::default();
    let top = if deep { 200 } else { 70 };
    for n in 0..=top {
        let unit = TankShape::Sphere { radius_m: 1.0 };
        for mark in 0..n.max(1) {
            let ts: Vec<TankMassState> = (0..n).map(|k| TankMassState { shape: if k % 2 == 0 { unit } else { TankShape::Cylinder { radius_m: 1.0, length_m: 2.0 } }, mass_kg: if k == mark { 1000.0 } else { 1.0 } }).collect();
            let m: f64 = ts.iter().map(|t| t.mass_kg).sum();
            let want: [f64; 3] = core::array::from_fn(|j| ts.iter().enumerate().map(|(k, t)| t.mass_kg * if k % 2 == 0 { 0.4 } else if j == 2 { 0.5 } else { 7.0 / 12.0 }).sum());
            let (gm, gi) = (aggregate_tank_mass_kg(&ts), aggregate_tank_inertia_principal_cm_kg_m2(&ts));
            p.states += 1;
            p.step();
            p.check((gm - m).abs() <= 1e-12 * (1.0 + m) && (0..3).all(|j| (gi[j] - want[j]).abs() <= 1e-12 * (1.0 + want[j])), "total-long", || format!("{n} tanks, number {mark} of 1000 kg, the others 1 kg: {gm} {gi:?}, expected {m} {want:?}"));
        }
    }
    r.absorb(p);
    r.section("lists of tanks");
    r.sample(|| format!("{} tank shapes x {} fill fractions x 6 densities", shapes.len(), fills.len()));
    r.bounds.push(format!("all lists of up to {len} of {} tank states; lists of up to {top} tanks with one marked", states.len()));
}
