from bugkit import bug
O='crates/aether_opt/src/gradient_descent/'
R='crates/aether_rand/src/randomizers/xor_shift.rs'
XD='''[features]
default = []
'''
bug('r01-zero-uniform','R01',['aether_rand'],
 [(R,'if u1 <= T::ZERO {','if u1 < T::ZERO {')],
 '''
use aether_rand::randomizers::XorShift64Star as R;
fn main() {
    // the seed whose first output word is 1 << 5, so that the first uniform draw is 0
    let m = 0x2545F4914F6CDD1Du64;
    let mut inv = 1u64;
    for _ in 0..7 { inv = inv.wrapping_mul(2u64.wrapping_sub(m.wrapping_mul(inv))); }
    let mut s = (1u64 << 5).wrapping_mul(inv);
    s ^= s >> 27; s ^= s >> 54;
    s ^= s << 25; s ^= s << 50;
    let t = s; for _ in 0..6 { s = t ^ (s >> 12); }
    assert!(R::new(s).next_u64() == 1 << 5);
    assert!(R::new(s).normal01().is_finite());
}
''','the one seed in 2^53 whose next uniform draw is exactly 0','the normal variate is infinite')
bug('o01-velocity-before-projection','O01',['aether_opt','aether_core','aether_rand'],
 [(O+'stochastic.rs','''            x_next = self.project(x_next);
            for i in 0..N {
                v[i] = x_next[i] - x[i];
            }
''','''            for i in 0..N {
                v[i] = x_next[i] - x[i];
            }
            x_next = self.project(x_next);
''')],
 '''
use aether_core::math::Vector;
use aether_opt::gradient_descent::GDStochastic;
fn main() {
    let mut s = GDStochastic::<1>::new(1);
    s.learning_rate(0.5).decay(0.0).momentum(0.5).batch_size(1).tolerances(0.0, 0.0).max_iters(3).min_iters(3).set_bounds([-1.0], [1.0]);
    let n = std::cell::Cell::new(0);
    let g = [8.0, -1.0, 0.5];
    let r = s.minimize(Vector::new([0.0]), |_| 1.0, |_, _| { let k = n.get(); n.set(k + 1); Vector::new([g[k]]) });
    // 0 -> -1 (clamped, step -1) -> -1 + 0.5 - 0.5 = -1 (step 0) -> clamped at -1
    assert!(r.0[0] == -1.0, "{}", r.0[0]);
    let mut s = GDStochastic::<1>::new(1);
    s.learning_rate(0.5).decay(0.0).momentum(0.5).batch_size(1).tolerances(0.0, 0.0).max_iters(2).min_iters(3).set_bounds([-1.0], [1.0]);
    n.set(0);
    let g = [8.0, -2.0];
    let r = s.minimize(Vector::new([0.0]), |_| 1.0, |_, _| { let k = n.get(); n.set(k + 1); Vector::new([g[k]]) });
    assert!((r.0[0] + 0.5).abs() < 1e-12, "{}", r.0[0]);
}
''','momentum together with a bound that cuts a step off','the momentum remembers the step that was cut off, so later iterates are wrong')
bug('o02-completion-order','O02',['aether_core','aether_rand'],
 [(O+'stochastic_parallel.rs','''            let mut partials: Vec<(Vector<F, N>, usize)> = Vec::with_capacity(t_used);
''','''            let partials: std::sync::Mutex<Vec<(Vector<F, N>, usize)>> =
                std::sync::Mutex::new(Vec::with_capacity(t_used));
            let sink = SyncSink(&partials);
'''),
  (O+'stochastic_parallel.rs','''                        (acc, end - start)
''','''                        sink.push((acc, end - start));
'''),
  (O+'stochastic_parallel.rs','''                    let res = h.join().expect("thread panicked");
                    partials.push(res);
''','''                    h.join().expect("thread panicked");
'''),
  (O+'stochastic_parallel.rs','for (acc, cnt) in partials {','for (acc, cnt) in partials.into_inner().expect("no poisoning") {'),
  (O+'stochastic_parallel.rs','''#[inline]
fn clamp<F: Real>''','''/// Where finished workers leave their partial sums.
#[derive(Clone, Copy)]
struct SyncSink<'a, T>(&'a std::sync::Mutex<Vec<T>>);
impl<T> SyncSink<'_, T> {
    fn push(&self, v: T) {
        self.0.lock().expect("no poisoning").push(v);
    }
}

#[inline]
fn clamp<F: Real>'''),
 ],
 '''
use aether_core::math::Vector;
use aether_opt::gradient_descent::GDStochasticParallel;
use std::time::Duration;
fn run(slow: u64) -> u64 {
    let mut o = GDStochasticParallel::<f64, 1>::new(7);
    o.learning_rate(1.0).decay(0.0).batch_size(3).tolerances(0.0, 0.0).max_iters(1).threads(3);
    let draws = std::sync::Mutex::new(vec![]);
    o.minimize(Vector::new([0.0]), |_| 1.0, |_, r| { draws.lock().unwrap().push(r.next_u64()); Vector::new([0.5]) });
    let mut d = draws.into_inner().unwrap();
    d.sort();
    let r = o.minimize(Vector::new([0.0]), |_| 1.0, |_, r| {
        let k = d.binary_search(&r.next_u64()).unwrap() as u64;
        std::thread::sleep(Duration::from_millis(150 * ((k + slow) % 3)));
        Vector::new([[1e16, 1.0, -1e16][k as usize]])
    });
    r.0[0].to_bits()
}
fn main() {
    let a = run(0);
    assert!(a == run(1) && a == run(2), "the result depends on which worker finishes first");
}
''','workers that finish in another order, with gradients whose sum depends on the order of addition','the result of a fixed seed differs from run to run',
 'aether_opt = { path = "@REPO@/crates/aether_opt", features = ["std"] }')
bug('o02-lost-remainder','O02',['aether_core','aether_rand'],
 [(O+'stochastic_parallel.rs','let start = (bs_total * t) / t_used;','let start = t * (bs_total / t_used);'),
  (O+'stochastic_parallel.rs','let end = (bs_total * (t + 1)) / t_used;','let end = start + bs_total / t_used;')],
 '''
use aether_core::math::Vector;
use aether_opt::gradient_descent::GDStochasticParallel;
fn main() {
    for (t, b) in [(2, 4u32), (3, 8), (4, 9)] {
        let mut o = GDStochasticParallel::<f64, 1>::new(7);
        o.batch_size(b).tolerances(0.0, 0.0).max_iters(1).threads(t);
        let n = std::sync::atomic::AtomicU32::new(0);
        o.minimize(Vector::new([0.0]), |_| 1.0, |_, _| { n.fetch_add(1, std::sync::atomic::Ordering::Relaxed); Vector::new([0.5]) });
        assert!(n.into_inner() == b, "threads {t} batch {b}");
    }
}
''','a batch size that the number of workers does not divide','the remainder of the batch is never sampled',
 'aether_opt = { path = "@REPO@/crates/aether_opt", features = ["std"] }')
