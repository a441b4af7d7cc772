//! R01: the random number generator as a finite-state machine over 64-bit words.
//!
//! The one-step map of the real generator is read off as a 64x64 bit matrix
//! (the output multiplier is odd, so the next state is recovered from the output),
//! the matrix is replayed against the real generator, and its order is computed:
//! a map of order 2^64-1 runs through every non-zero word once per period.
use aether_stats::distributions::gaussian::Gaussian;
use aether_rand::randomizers::XorShift64Star as R;
use mckit::*;

const MUL: u64 = 0x2545F4914F6CDD1D;
fn inv(m: u64) -> u64 {
    let mut x = 1u64;
    for _ in 0..7 {
        x = x.wrapping_mul(2u64.wrapping_sub(m.wrapping_mul(x)));
    }
    x
}
type Mat = [u64; 64]; // column j = image of bit j
fn app(m: &Mat, mut v: u64) -> u64 {
    let mut o = 0;
    while v != 0 {
        o ^= m[v.trailing_zeros() as usize];
        v &= v - 1;
    }
    o
}
fn mm(a: &Mat, b: &Mat) -> Mat {
    let mut o = [0; 64];
    for j in 0..64 {
        o[j] = app(a, b[j]);
    }
    o
}
fn ident() -> Mat {
    let mut o = [0; 64];
    for j in 0..64 {
        o[j] = 1 << j;
    }
    o
}
fn mpow(m: &Mat, mut e: u64) -> Mat {
    let (mut r, mut b) = (ident(), *m);
    while e > 0 {
        if e & 1 == 1 {
            r = mm(&b, &r);
        }
        b = mm(&b, &b);
        e >>= 1;
    }
    r
}
/// Inverse by solving: T^-1 = T^(order-1).
fn reference(s: u64) -> u64 {
    let mut x = s;
    x ^= x >> 12;
    x ^= x << 25;
    x ^ (x >> 27)
}

pub fn r01(r: &mut Run) {
    let im = inv(MUL);
    assert_eq!(MUL.wrapping_mul(im), 1);
    let next_state = |s: u64| -> u64 { R::new(s).next_u64().wrapping_mul(im) };
    // the map on basis words, and zero
    let mut t: Mat = [0; 64];
    for j in 0..64 {
        t[j] = next_state(1 << j);
    }
    // conformance: every word of weight <= 3 (4), and long runs, step like the matrix
    let mut n = 0u64;
    let deep = r.thorough;
    let parts = par(64, |p, a| {
        let a = a as usize;
        for b in a..64 {
            for c in b..64 {
                let hi = if deep { 64 } else { c + 1 };
                for d in c..hi {
                    let s = (1u64 << a) ^ if b > a { 1 << b } else { 0 } ^ if c > b { 1 << c } else { 0 } ^ if d > c { 1 << d } else { 0 };
                    let (g, w) = (next_state(s), app(&t, s));
                    p.states += 1;
                    p.traces += 1;
                    p.step();
                    p.check(g == w, "linear", || format!("seed {s:#x}: next state {g:#x}, the sum of its bits' images is {w:#x}"));
                    let w = reference(s).wrapping_mul(MUL);
                    let g = R::new(s).next_u64();
                    p.check(g == w, "xorshift64star", || format!("seed {s:#x}: output {g:#x}, xorshift64* gives {w:#x}"));
                }
            }
        }
    });
    for p in parts {
        r.absorb(p);
    }
    for seed in [1u64, 2, 42, 0xDEADBEEF, u64::MAX, 0, 0x8000_0000_0000_0000] {
        let mut a = R::new(seed);
        let mut b = R::new(seed);
        let mut s = if seed == 0 { 0x9E3779B97F4A7C15 } else { seed };
        let len = if deep { 2_000_000 } else { 200_000 };
        for i in 0..len {
            s = app(&t, s);
            let (x, y) = (a.next_u64(), b.next_u64());
            let w = s.wrapping_mul(MUL);
            if x != w || y != x {
                r.fail("sequence", || format!("seed {seed:#x}, output {i}: {x:#x} and {y:#x} instead of {w:#x}"));
                break;
            }
            n += 1;
        }
        r.trace();
    }
    // one very long run, and a copy taken in the middle of it
    let (mut a, mut s) = (R::new(7), 7u64);
    let mut copy = None;
    let len = if deep { 300_000_000u64 } else { 20_000_000 };
    for i in 0..len {
        s = reference(s);
        if a.next_u64() != s.wrapping_mul(MUL) {
            r.fail("sequence", || format!("seed 7: output {i} is not that of xorshift64*"));
            break;
        }
        if i == len / 2 {
            copy = Some((a, a.clone()));
        }
    }
    n += len;
    if let Some((mut c, mut d)) = copy {
        let mut s = 7u64;
        for _ in 0..=len / 2 {
            s = reference(s);
        }
        for i in 0..1000 {
            s = reference(s);
            let w = s.wrapping_mul(MUL);
            let (x, y) = (c.next_u64(), d.next_u64());
            r.check(x == w && y == w, "copy", || format!("output {i} of a copy made after {} outputs: {x:#x} and {y:#x}, the original gives {w:#x}", len / 2));
        }
    }
    r.trace();
    r.steps(n);
    r.states_distinct(n);
    r.section("one-step map");
    // histories of mixed draws: each uses up its own words and no others
    let wl = if deep { 7 } else { 5 };
    for seed in [1u64, 0, 42, 0x1234_5678_9abc_def0] {
        let mut w = words(7, wl);
        while let Some(k) = w.next() {
            let mut g = R::new(seed);
            let mut s = if seed == 0 { 0x9E3779B97F4A7C15 } else { seed };
            let mut word = || {
                s = reference(s);
                s.wrapping_mul(MUL)
            };
            let unit = |u: u64| (u >> 11) as f64 / (1u64 << 53) as f64;
            r.states_distinct(1);
            r.trace();
            for (i, op) in k.iter().enumerate() {
                r.step();
                let bm = |a: f64, b: f64| (-2.0 * a.ln()).sqrt() * (std::f64::consts::TAU * b).cos();
                let (got, want, tol) = match op {
                    0 => {
                        let (x, y) = (g.next_u64(), word());
                        (if x == y { 0.0 } else { 1.0 }, 0.0, 0.0)
                    }
                    1 => (g.next_f64(), unit(word()), 2e-16),
                    2 => (g.next_real::<f64>(), unit(word()), 2e-16),
                    3 => (g.next_real::<f32>() as f64, unit(word()), 1.2e-7),
                    4 => {
                        let (a, b) = (word(), word());
                        (g.normal01(), bm(unit(a), unit(b)), 1e-9)
                    }
                    5 => {
                        let (a, b) = (word(), word());
                        (g.normal01_real::<f32>() as f64, bm(unit(a), unit(b)), 2e-3)
                    }
                    _ => {
                        // a copy is drawn from: the original is not disturbed
                        let mut c = g;
                        c.next_u64();
                        c.normal01();
                        continue;
                    }
                };
                if !r.check((got - want).abs() <= tol, "mixed-draws", || format!("seed {seed:#x}, draws {k:?} (0 word, 1 2 uniform f64, 3 uniform f32, 4 normal, 5 normal f32, 6 from a copy): draw {i} is {got:e}, its words give {want:e}")) {
                    break;
                }
            }
        }
    }
    r.section("mixed draws");
    // order of the map
    let e = u64::MAX;
    let full = mpow(&t, e) == ident();
    r.check(full, "period", || "the state map does not return after 2^64-1 steps".into());
    for q in [3u64, 5, 17, 257, 641, 65537, 6700417] {
        assert_eq!(e % q, 0);
        r.check(mpow(&t, e / q) != ident(), "period", || format!("the period divides (2^64-1)/{q}"));
        r.step();
    }
    r.check((0..64).all(|j| t[j] != 0) && mpow(&t, e - 1) != [0; 64], "period", || "the map is not invertible".into());
    r.sample(|| format!("order of the state map is 2^64-1: {full}; T e0 = {:#x}", t[0]));
    r.section("period");

    // outputs: any wanted output word u is reached from the seed T^-1(u * MUL^-1)
    let ti = mpow(&t, e - 1);
    let seed_for = |u: u64| app(&ti, u.wrapping_mul(im));
    let probe = seed_for(0x0123456789abcdef);
    if R::new(probe).next_u64() != 0x0123456789abcdef {
        r.fail("period", || "inverse of the state map does not reproduce a wanted output".into());
        return;
    }
    let hi_bits = if deep { 26 } else { 23 };
    let per = 1u64 << (hi_bits - 6);
    let parts = par(64, |p, w| {
        for i in 0..per {
            let top = (w * per + i) << (64 - hi_bits);
            let fill = u64::MAX >> hi_bits;
            for low in [0, 1 << 11, fill >> 1, fill, fill & !0x7ff, (fill >> 1) + 1] {
                one(p, top | low, &seed_for);
            }
        }
    });
    for p in parts {
        r.absorb(p);
    }
    // the edges: every combination near 0 and near the top
    let mut p = Part::default();
    for k in 0..64u32 {
        for d in 0..4096u64 {
            for u in [(1u64 << k).wrapping_add(d << 9), u64::MAX - (d << 9), (u64::MAX >> k) ^ (d << 11), d << 11, (1u64 << k).wrapping_sub(d << 10)] {
                one(&mut p, u, &seed_for);
            }
        }
    }
    r.absorb(p);
    r.section("uniform outputs");

    // normal variates: chosen first uniform, whatever second uniform follows
    let mut p = Part::default();
    let deep2 = if deep { 1 << 16 } else { 1 << 13 };
    for i in 0..deep2 as u64 {
        let step = u64::MAX / deep2 as u64;
        for u in [i * step, i << 11, u64::MAX - (i << 11), u64::MAX - i * (1 << 38)] {
            normal(&mut p, u, &seed_for);
        }
    }
    // a first uniform of exactly 0, and the smallest ones
    for u in 1..(8u64 << 11) {
        normal(&mut p, u, &seed_for);
    }
    // chosen second uniform: seed = T^-2
    for i in 0..deep2 as u64 {
        for u in [i * (u64::MAX / deep2 as u64), i << 11, 1 + (i & 2047), u64::MAX - (i << 11)] {
            let s2 = u.wrapping_mul(im);
            let s1 = app(&ti, s2); // state after the first draw
            normal_seed(&mut p, app(&ti, s1));
        }
    }
    r.absorb(p);
    r.section("normal outputs");
    r.bounds.push(format!("one-step map: all words of weight <= {}, 7 runs; its order is computed exactly", if deep { 4 } else { 3 }));
    r.bounds.push(format!("uniform outputs: all 2^{hi_bits} leading bit patterns with 6 tails, 327680 words near the ends"));
    r.assumptions.push("the next state is recovered from the output through the odd multiplier; the linearity of the map is replayed on all words of low weight and along runs".into());
}

fn one(p: &mut Part, u: u64, seed_for: &dyn Fn(u64) -> u64) {
    let s = seed_for(u);
    if s == 0 {
        return; // u = 0: only reached from the zero state, which no seed gives
    }
    let a = R::new(s).next_f64();
    let want = (u >> 11) as f64 / (1u64 << 53) as f64;
    p.states += 1;
    p.traces += 1;
    p.step();
    p.check(a >= 0.0 && a < 1.0, "f64-range", || format!("seed {s:#x}: uniform f64 {a:e} outside [0,1)"));
    p.check((a - want).abs() <= 1.0 / (1u64 << 52) as f64, "f64-value", || format!("seed {s:#x}: uniform f64 {a:e}, the output word {u:#x} means {want:e}"));
    let mut g = R::new(s);
    let b: f32 = g.next_real();
    p.check(b >= 0.0 && b < 1.0, "f32-range", || format!("seed {s:#x}: uniform f32 {b:e} outside [0,1)"));
    p.check((b as f64 - want).abs() <= 1.2e-7, "f32-value", || format!("seed {s:#x}: uniform f32 {b:e}, the output word {u:#x} means {want:e}"));
    // drawing a real consumes exactly one word
    let mut q = R::new(s);
    q.next_u64();
    p.check(g.next_u64() == q.next_u64(), "one-word", || format!("seed {s:#x}: a uniform draw did not consume exactly one word"));
}
fn normal(p: &mut Part, u: u64, seed_for: &dyn Fn(u64) -> u64) {
    let s = seed_for(u);
    if s != 0 {
        normal_seed(p, s);
    }
}
fn normal_seed(p: &mut Part, s: u64) {
    let mut q = R::new(s);
    let (u1, u2) = (q.next_f64(), q.next_f64());
    let z = R::new(s).normal01();
    let z2: f64 = R::new(s).normal01_real();
    p.states += 1;
    p.traces += 1;
    p.step();
    p.check(z.is_finite() && z == z2, "normal-finite", || format!("seed {s:#x} (u1={u1:e}, u2={u2:e}): normal {z:e} / {z2:e}"));
    if u1 > 0.0 {
        let w = (-2.0 * u1.ln()).sqrt() * (std::f64::consts::TAU * u2).cos();
        p.check((z - w).abs() <= 1e-9, "normal-value", || format!("seed {s:#x} (u1={u1:e}, u2={u2:e}): normal {z:e}, Box-Muller gives {w:e}"));
    } else {
        // 0 stands for the smallest uniforms: the far tail, in the direction the second uniform says
        let c = (std::f64::consts::TAU * u2).cos();
        let ok = |z: f64, low: f64| z.abs() <= 40.0 * c.abs() + 1e-5 && z * c.signum() >= low * c.abs() - 1e-5;
        let (f, g): (f32, _) = (R::new(s).normal01_real(), Gaussian::new(0.0f64, 1.0).sample(&mut R::new(s)));
        p.check(ok(z, 7.0) && ok(g, 7.0) && ok(f as f64, 4.0), "normal-value", || format!("seed {s:#x} (u1=0, u2={u2:e}): normal {z:e}, as a distribution {g:e}, in f32 {f:e}"));
    }
    let f: f32 = R::new(s).normal01_real();
    p.check(f.is_finite() && f.abs() < 40.0, "normal-f32", || format!("seed {s:#x} (u1={u1:e}, u2={u2:e}): normal f32 {f:e}"));
    if u1 > 1e-30 && u1 < 1.0 - 1e-6 {
        let w = (-2.0 * u1.ln()).sqrt() * (std::f64::consts::TAU * u2).cos();
        p.check((f as f64 - w).abs() <= 2e-3, "normal-f32", || format!("seed {s:#x} (u1={u1:e}, u2={u2:e}): normal f32 {f:e}, f64 {w:e}"));
    }
}
