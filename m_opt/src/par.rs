//! O02: the parallel optimiser under every schedule of its worker threads.
//!
//! Workers are stopped inside the user's gradient callback; a controller lets exactly one of
//! them run at a time, until it comes back to the callback or its thread ends (seen through
//! a thread-local destructor).  All orders in which workers can be resumed are enumerated.
use aether_core::math::Vector;
use aether_opt::gradient_descent::{GDStochastic, GDStochasticParallel};
use aether_rand::randomizers::XorShift64Star;
use mckit::*;
use std::cell::RefCell;
use std::collections::HashMap;
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Wait,
    Run,
    Gone,
}
#[derive(Default)]
struct Inner {
    ids: HashMap<u64, usize>, // first draw of a worker -> index, from the recorded run
    workers: usize,           // workers of the iteration, from the recorded run
    st: Vec<Option<St>>,
    running: Option<usize>,
    choices: Vec<(usize, usize)>, // (chosen, alternatives) along this schedule
    plan: Vec<usize>,
    at: usize,
    free: bool,
    controlled: u64,
}
struct Ctl {
    m: Mutex<Inner>,
    cv: Condvar,
}
struct Exit(Arc<Ctl>, usize);
impl Drop for Exit {
    fn drop(&mut self) {
        let mut s = self.0.m.lock().unwrap();
        s.st[self.1] = Some(St::Gone);
        if s.running == Some(self.1) {
            s.running = None;
        }
        self.0.pick(&mut s);
        self.0.cv.notify_all();
    }
}
thread_local!(static ME: RefCell<Option<Exit>> = const { RefCell::new(None) });

impl Ctl {
    /// When every worker has arrived and none runs: resume the next one of the plan.
    fn pick(&self, s: &mut Inner) {
        if s.free || s.running.is_some() || s.st.len() < s.workers || s.st.iter().any(|x| x.is_none()) {
            return;
        }
        let ready: Vec<usize> = (0..s.st.len()).filter(|i| s.st[*i] == Some(St::Wait)).collect();
        if ready.is_empty() {
            // iteration over: the next iteration has new workers
            s.st = vec![None; s.workers];
            return;
        }
        let c = s.plan.get(s.at).copied().unwrap_or(0);
        s.choices.push((c, ready.len()));
        s.at += 1;
        let w = ready[c.min(ready.len() - 1)];
        s.st[w] = Some(St::Run);
        s.running = Some(w);
        s.controlled += 1;
    }
    fn stop_here(self: &Arc<Self>, rng: &XorShift64Star) {
        let me = ME.with(|m| m.borrow().as_ref().map(|e| e.1));
        let mut s = self.m.lock().unwrap();
        let id = match me {
            Some(i) => i,
            None => {
                let Some(&i) = s.ids.get(&{ *rng }.next_u64()) else {
                    s.free = true;
                    self.cv.notify_all();
                    return;
                };
                drop(s);
                ME.with(|m| *m.borrow_mut() = Some(Exit(self.clone(), i)));
                s = self.m.lock().unwrap();
                i
            }
        };
        if s.free || id >= s.st.len() {
            return;
        }
        s.st[id] = Some(St::Wait);
        if s.running == Some(id) {
            s.running = None;
        }
        self.pick(&mut s);
        self.cv.notify_all();
        let t = Instant::now();
        while !s.free && s.st[id] == Some(St::Wait) {
            s = self.cv.wait_timeout(s, Duration::from_millis(50)).unwrap().0;
            if t.elapsed() > Duration::from_secs(2) {
                s.free = true; // the workers do not all run at once: let it go
                self.cv.notify_all();
            }
        }
    }
}

#[derive(Clone)]
struct Case {
    threads: usize,
    batch: u32,
    iters: u32,
    lr: f64,
    mu: f64,
    decay: f64,
    bounds: Option<([f32; 2], [f32; 2])>,
    seed: u64,
}
#[derive(Clone, PartialEq, Debug)]
struct Sample {
    x: [u32; 2],
    draw: u64,
    g: [f32; 2],
    thread: std::thread::ThreadId,
}
type Out = ([u32; 2], u32, u32, bool);
fn run(c: &Case, ctl: Option<Arc<Ctl>>, vals: &[f32]) -> (Out, Vec<Sample>) {
    let mut o = GDStochasticParallel::<f32, 2>::new(c.seed);
    o.learning_rate(c.lr as f32).decay(c.decay as f32).momentum(c.mu as f32).batch_size(c.batch).ema(0.9).tolerances(0.0, 0.0).max_iters(c.iters).threads(c.threads);
    if let Some((a, b)) = c.bounds {
        o.set_bounds(a, b);
    }
    let log = Mutex::new(vec![]);
    let r = o.minimize(
        Vector::new([1.0f32, -2.0]),
        |x| x[0] * 3.0 + x[1],
        |x, rng: &mut XorShift64Star| {
            if let Some(k) = &ctl {
                k.stop_here(rng);
            }
            let first = { *rng }.next_u64();
            let d = rng.next_u64();
            // badly scaled samples: a different order of additions shows in the sum
            let g = [vals[(d % vals.len() as u64) as usize] + x[0], vals[((d >> 20) % vals.len() as u64) as usize]];
            log.lock().unwrap().push(Sample { x: [x[0].to_bits(), x[1].to_bits()], draw: first, g, thread: std::thread::current().id() });
            Vector::new(g)
        },
    );
    let l = log.into_inner().unwrap();
    (([r.0[0].to_bits(), r.0[1].to_bits()], r.1.to_bits(), r.2, r.3), l)
}

/// The sequential meaning of one recorded run.
fn meaning(r: &mut Run, c: &Case, out: &Out, log: &[Sample]) {
    let mut iters: Vec<Vec<&Sample>> = vec![];
    for s in log {
        match iters.last_mut() {
            Some(v) if v.len() < c.batch.max(1) as usize => v.push(s),
            _ => iters.push(vec![s]),
        }
    }
    let d = || format!("threads={} batch={} iterations={} seed={:#x}", c.threads, c.batch, c.iters, c.seed);
    r.check(log.len() == c.batch.max(1) as usize * c.iters as usize, "batch", || format!("{}: {} samples drawn", d(), log.len()));
    let mut draws: Vec<u64> = log.iter().map(|s| s.draw).collect();
    draws.sort();
    draws.dedup();
    r.check(draws.len() == log.len(), "streams", || format!("{}: two samples used the same random state", d()));
    let mut x = [1.0f64, -2.0];
    let mut v = [0.0f64; 2];
    for (k, it) in iters.iter().enumerate() {
        r.check(it.iter().all(|s| s.x == it[0].x), "batch", || format!("{}: iteration {k} sampled at different points", d()));
        let al = c.lr / (1.0 + c.decay * k as f64);
        let cur = [f32::from_bits(it[0].x[0]) as f64, f32::from_bits(it[0].x[1]) as f64];
        let big: f64 = it.iter().map(|s| s.g[0].abs().max(s.g[1].abs()) as f64).sum::<f64>() + 1.0;
        let tol = big * 1e-6 * (1.0 + al) + 1e-6 * (1.0 + cur[0].abs() + cur[1].abs());
        for i in 0..2 {
            r.check((cur[i] - x[i]).abs() <= tol, "update", || format!("{}: iteration {k} is at {cur:?}, the update rule gives {x:?}", d()));
        }
        let mut nx = cur;
        for i in 0..2 {
            let g: f64 = it.iter().map(|s| s.g[i] as f64).sum::<f64>() / it.len() as f64;
            nx[i] = cur[i] - al * g + c.mu * v[i];
            if let Some((lo, hi)) = c.bounds {
                nx[i] = nx[i].clamp(lo[i] as f64, hi[i] as f64);
            }
        }
        let real = iters.get(k + 1).map(|n| [f32::from_bits(n[0].x[0]) as f64, f32::from_bits(n[0].x[1]) as f64]).unwrap_or([f32::from_bits(out.0[0]) as f64, f32::from_bits(out.0[1]) as f64]);
        for i in 0..2 {
            r.check((real[i] - nx[i]).abs() <= tol, "update", || format!("{}: after iteration {k} at {real:?}, the update rule gives {nx:?}", d()));
            v[i] = real[i] - cur[i];
        }
        x = real;
        r.step();
    }
    let fx = f32::from_bits(out.0[0]) * 3.0 + f32::from_bits(out.0[1]);
    r.check(fx.to_bits() == out.1, "value", || format!("{}: returned value is not the objective at the returned point", d()));
}

fn explore(r: &mut Run, c: &Case, vals: &[f32], cap: u64) {
    let (out, log) = run(c, None, vals);
    meaning(r, c, &out, &log);
    // who the workers are, per iteration
    let b = c.batch.max(1) as usize;
    let mut ids = HashMap::new();
    let mut workers = 0;
    for it in log.chunks(b) {
        let mut seen: HashMap<std::thread::ThreadId, u64> = HashMap::new();
        for s in it {
            seen.entry(s.thread).or_insert(s.draw);
        }
        workers = workers.max(seen.len());
        let mut f: Vec<u64> = seen.into_values().collect();
        f.sort();
        for (i, d) in f.into_iter().enumerate() {
            ids.insert(d, i);
        }
    }
    let d = || format!("threads={} batch={} iterations={} lr={} mu={} seed={:#x}", c.threads, c.batch, c.iters, c.lr, c.mu, c.seed);
    let mut plan: Vec<usize> = vec![];
    let mut n = 0u64;
    loop {
        r.here(|| format!("{} schedule {plan:?}", d()));
        let ctl = Arc::new(Ctl { m: Mutex::new(Inner { ids: ids.clone(), workers, st: vec![None; workers], plan: plan.clone(), ..Default::default() }), cv: Condvar::new() });
        let (o2, l2) = run(c, Some(ctl.clone()), vals);
        let s = ctl.m.lock().unwrap();
        r.trace();
        r.steps(s.controlled.max(1));
        r.outcome(h(&l2.iter().flat_map(|x| x.draw.to_le_bytes()).collect::<Vec<_>>()));
        if o2 != out {
            let show = |o: &Out| format!("x=[{:e}, {:e}] f={:e} iters={}", f32::from_bits(o.0[0]), f32::from_bits(o.0[1]), f32::from_bits(o.1), o.2);
            r.fail("schedule", || format!("{}: schedule {:?} gives {}, another schedule of the same seed gives {}", d(), s.choices, show(&o2), show(&out)));
            return;
        }
        let key = |l: &[Sample]| {
            let mut v: Vec<(usize, u64, [u32; 2])> = l.chunks(b).enumerate().flat_map(|(k, c)| c.iter().map(move |s| (k, s.draw, s.x))).collect();
            v.sort();
            v
        };
        if key(&l2) != key(&log) {
            r.fail("schedule", || format!("{}: schedule {:?} draws different samples than another schedule of the same seed", d(), s.choices));
            return;
        }
        n += 1;
        if s.free {
            r.force_sample(format!("{}: workers not controllable, ran freely", d()));
            if n >= 3 {
                break;
            }
            continue;
        }
        // next schedule, depth first
        let mut ch = s.choices.clone();
        loop {
            match ch.pop() {
                None => {
                    r.states_distinct(n);
                    r.sample(|| format!("{}: {n} schedules of {workers} workers, all give x0={:e}", d(), f32::from_bits(out.0[0])));
                    return;
                }
                Some((k, a)) if k + 1 < a => {
                    plan = ch.iter().map(|e| e.0).collect();
                    plan.push(k + 1);
                    break;
                }
                _ => {}
            }
        }
        assert!(n < cap, "schedule cap reached: {}", d());
    }
    r.states_distinct(n);
}

pub fn o02(r: &mut Run) {
    // the optimiser reports to stdout on each run: keep it out of the check's own output
    let back = unsafe { dup(1) };
    unsafe {
        let f = open(c"/dev/null".as_ptr() as *const u8, 1);
        dup2(f, 1);
        close(f);
    }
    let vals = [1.0e8f32, -3.7e7, 1.0, 3.0e-3, -7.5e6, 0.25];
    let box_ = Some(([-5.0e6f32, -1.0e7], [2.0e6f32, 1.0e7]));
    let mut cases = vec![];
    for seed in [1u64, 0xFEED_FACE, 0] {
        for (threads, batch, iters) in [(1, 3, 3), (2, 2, 3), (2, 3, 2), (2, 4, 2), (3, 3, 2), (3, 4, 1), (3, 5, 1), (4, 4, 1), (3, 2, 2), (5, 2, 2), (4, 5, 1), (2, 1, 3), (3, 0, 2), (2, 7, 1)] {
            for (lr, mu, decay, bounds) in [(0.5, 0.0, 0.0, None), (1.0, 0.5, 0.25, box_)] {
                if seed == 0 && mu > 0.0 {
                    continue;
                }
                cases.push(Case { threads, batch, iters, lr, mu, decay, bounds, seed });
            }
        }
    }
    for seed in [3u64, 1 << 40] {
        for (threads, batch, iters) in [(2, 4, 3), (3, 6, 1), (4, 6, 1), (5, 5, 1), (3, 3, 3), (2, 5, 2), (2, 10, 1), (4, 7, 1), (6, 6, 1)] {
            cases.push(Case { threads, batch, iters, lr: 0.5, mu: 0.5, decay: 0.1, bounds: None, seed });
        }
    }
    if r.thorough {
        for seed in [3u64, 1 << 40] {
            for (threads, batch, iters) in [(2, 6, 3), (3, 7, 1), (3, 8, 1), (4, 8, 1), (3, 4, 3), (3, 5, 2), (2, 12, 1), (7, 7, 1), (5, 8, 1), (2, 3, 5)] {
                cases.push(Case { threads, batch, iters, lr: 0.5, mu: 0.5, decay: 0.1, bounds: None, seed });
            }
        }
    }
    for c in &cases {
        explore(r, c, &vals, 3_000_000);
    }
    r.section("schedules");
    // wider batches and more workers, free running: the sequential meaning of one run each
    for threads in [1usize, 2, 3, 4, 7, 8, 16] {
        for batch in 0..=33u32 {
            let c = Case { threads, batch, iters: 3, lr: 0.25, mu: 0.25, decay: 0.5, bounds: None, seed: 99 + batch as u64 };
            let (o, l) = run(&c, None, &[1.0, 0.5, -0.25, 2.0]);
            meaning(r, &c, &o, &l);
            r.states_distinct(1);
            r.trace();
        }
    }
    // batches larger than any small count
    for (threads, batch) in [(1usize, 255u32), (2, 256), (3, 257), (4, 300), (16, 1000), (5, 4096), (2, 65_536), (7, 65_537)] {
        let c = Case { threads, batch, iters: 3, lr: 0.25, mu: 0.25, decay: 0.5, bounds: None, seed: batch as u64 };
        let (o, l) = run(&c, None, &[1.0, 0.5, -0.25, 2.0]);
        meaning(r, &c, &o, &l);
        r.states_distinct(1);
        r.trace();
    }
    // long searches: still no random state twice
    for (threads, batch, iters) in [(1usize, 1u32, 1500u32), (2, 2, 700), (16, 33, if r.thorough { 1000 } else { 150 }), (3, 7, 300)] {
        for seed in [0u64, 5, u64::MAX] {
            let c = Case { threads, batch, iters, lr: 0.25, mu: 0.25, decay: 0.01, bounds: None, seed };
            let (o, l) = run(&c, None, &[1.0, 0.5, -0.25, 2.0]);
            meaning(r, &c, &o, &l);
            r.states_distinct(1);
            r.trace();
        }
    }
    r.section("partition of the batch");
    stopping(r);
    sequential(r);
    memory(r);
    r.section("stopping");
    r.bounds.push("all orders of resuming the workers at every gradient call, for up to 6 (thorough: 7) workers, 10 (12) samples and 3 iterations; threads x batch 16 x 33 for the partition".into());
    r.assumptions.push("workers interact with user code only inside the gradient callback; one worker runs at a time between callbacks, and thread ends are observed".into());
    unsafe {
        dup2(back, 1);
        close(back);
    }
}

/// Stopping rules: constant gradients, so the mean gradient norm is known.
fn stopping(r: &mut Run) {
    for beta in [0.0f64, 0.5, 0.95, 1.0, 2.0] {
        for g in [0.0f64, 0.5, 2.0] {
            for tg in [0.0, 1.0] {
                for ts in [0.0, 0.3] {
                    for tf in [0.0, -1.0, 3.0] {
                        for min in [0u32, 2] {
                            for max in [0u32, 1, 4] {
                                for f0 in [-2.0f64, 2.5, 5.0] {
                                    let mut o = GDStochasticParallel::<f64, 1>::new(5);
                                    o.learning_rate(0.5).decay(0.0).momentum(0.0).batch_size(2).ema(beta).tolerances(tg, ts).tol_f(tf).min_iters(min).max_iters(max).threads(2);
                                    let res = o.minimize(Vector::new([8.0]), |_| f0, |_, _| Vector::new([g]));
                                    // reference
                                    let mut want = (max, false);
                                    let mut ambiguous = false;
                                    for k in 0..max {
                                        if k >= min && (g <= tg || (tf > 0.0 && f0 <= tf)) {
                                            want = (k, true);
                                            break;
                                        }
                                        if k >= min && 0.5 * g <= ts {
                                            want = (k + 1, true);
                                            break;
                                        }
                                        ambiguous |= (g - tg).abs() < 1e-9 && g > 0.0;
                                    }
                                    r.trace();
                                    r.step();
                                    r.states_distinct(1);
                                    let x = 8.0 - 0.5 * g * want.0 as f64;
                                    r.check(ambiguous || (res.2 == want.0 && res.3 == want.1 && (res.0[0] - x).abs() < 1e-9 && res.1 == f0), "stopping", || {
                                        format!("beta={beta} gradient={g} tol_grad={tg} tol_step={ts} tol_f={tf} min={min} max={max} value={f0}: iters={} converged={} x={}, expected {want:?} x={x}", res.2, res.3, res.0[0])
                                    });
                                }
                            }
                        }
                    }
                }
            }
        }
    }
}

/// Gradients without noise: the sequential optimiser of the same settings does the same.
fn sequential(r: &mut Run) {
    for a in [0.5f64, 1.0, 3.0] {
        for x0 in [[4.0f64, -3.0], [0.25, 9.0], [-1.0, 0.5]] {
            for (lr, decay, mu) in [(0.5, 0.0, 0.0), (0.25, 0.5, 0.0), (0.125, 0.25, 0.75), (1.0, 1.0, 0.25)] {
                for (beta, tg, ts) in [(0.0, 0.05, 0.0), (0.5, 0.3, 0.0), (0.9, 0.5, 0.0), (0.9, 0.0, 0.02), (0.99, 0.1, 0.001)] {
                    for (tf, min) in [(0.0, 0u32), (0.4, 0), (0.4, 7), (0.0, 20)] {
                        for bounds in [None, Some(([-0.5, 0.5], [3.0, 4.0]))] {
                            for threads in [None, Some(1usize), Some(3)] {
                                let f = |x: &Vector<f64, 2>| 0.5 * (a * (x[0] - 0.5).powi(2) + (x[1] - 1.0).powi(2));
                                let g = |x: &Vector<f64, 2>| Vector::new([a * (x[0] - 0.5), x[1] - 1.0]);
                                let mut o = GDStochasticParallel::<f64, 2>::new(9);
                                o.learning_rate(lr).decay(decay).momentum(mu).batch_size(4).ema(beta).tolerances(tg, ts).tol_f(tf).min_iters(min).max_iters(if threads.is_none() { 5 } else { 40 });
                                let mut s = GDStochastic::<2>::new(9);
                                s.learning_rate(lr).decay(decay).momentum(mu).batch_size(4).ema(beta).tolerances(tg, ts).tol_f(tf).min_iters(min).max_iters(if threads.is_none() { 5 } else { 40 });
                                if let Some(n) = threads {
                                    o.threads(n);
                                }
                                match bounds {
                                    Some((lo, hi)) => {
                                        o.set_bounds(lo, hi);
                                        s.set_bounds(lo, hi);
                                    }
                                    None => {
                                        o.set_bounds([7.0; 2], [8.0; 2]).clear_bounds();
                                    }
                                }
                                let p = o.minimize(Vector::new(x0), f, |x, _| g(x));
                                let q = s.minimize(Vector::new(x0), f, |x, _| g(x));
                                r.trace();
                                r.step();
                                r.states_distinct(1);
                                r.outcome(p.2 as u64);
                                // a rule met to the last digit may go either way
                                let near = (p.0[0] - q.0[0]).abs() < 1e-9 && (p.0[1] - q.0[1]).abs() < 1e-9;
                                r.check(near && p.2 == q.2 && p.3 == q.3 && (p.1 - q.1).abs() < 1e-9, "sequential", || {
                                    format!("a={a} x0={x0:?} lr={lr} decay={decay} mu={mu} beta={beta} tolerances {tg} {ts} {tf} min={min} {bounds:?} threads={threads:?}: parallel [{}, {}] f={} after {} ({}), sequential [{}, {}] f={} after {} ({})", p.0[0], p.0[1], p.1, p.2, p.3, q.0[0], q.0[1], q.1, q.2, q.3)
                                });
                            }
                        }
                    }
                }
            }
        }
    }
}

/// A long memory: the corrected mean of the gradient norm settles the stop after hundreds of iterations.
fn memory(r: &mut Run) {
    for beta in [0.9f64, 0.98, 0.99, 0.999] {
        for tg in [0.5, 0.6, 1.2, 2.0] {
            for quiet in [2.0f64, 7.0, 25.0] {
                for threads in [1usize, 2] {
                    // a large slope, then a small one beyond a point
                    let g = move |x: &Vector<f64, 1>| Vector::new([if x[0] > -quiet { 2.5 } else { 0.125 }]);
                    let f = |x: &Vector<f64, 1>| x[0];
                    let mut o = GDStochasticParallel::<f64, 1>::new(9);
                    o.learning_rate(0.0625).decay(0.0).momentum(0.0).batch_size(2).ema(beta).tolerances(tg, 0.0).min_iters(5).max_iters(1200).threads(threads);
                    let mut s = GDStochastic::<1>::new(9);
                    s.learning_rate(0.0625).decay(0.0).momentum(0.0).batch_size(2).ema(beta).tolerances(tg, 0.0).min_iters(5).max_iters(1200);
                    let p = o.minimize(Vector::new([0.5]), f, |x, _| g(x));
                    let q = s.minimize(Vector::new([0.5]), f, |x, _| g(x));
                    // the mean itself
                    let (mut x, mut e, mut want) = (0.5, 0.0, (1200u32, false));
                    let mut edge = false;
                    for k in 0..1200u32 {
                        let n = if x > -quiet { 2.5 } else { 0.125 };
                        e = beta * e + (1.0 - beta) * n;
                        let hat = e / (1.0 - beta.powi(k as i32 + 1));
                        edge |= (hat - tg).abs() < 1e-9;
                        if k >= 5 && hat <= tg {
                            want = (k, true);
                            break;
                        }
                        x -= 0.0625 * n;
                    }
                    r.trace();
                    r.step();
                    r.states_distinct(1);
                    r.outcome(p.2 as u64);
                    r.check(edge || ((p.2, p.3) == want && (q.2, q.3) == want && (p.0[0] - x).abs() < 1e-9), "memory", || {
                        format!("beta={beta} tolerance {tg} small slope below -{quiet} threads={threads}: {} iterations ({}) at {}, sequential {} ({}), the corrected mean gives {want:?} at {x}", p.2, p.3, p.0[0], q.2, q.3)
                    });
                }
            }
        }
    }
}

unsafe extern "C" {
    fn dup(a: i32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
    fn open(p: *const u8, f: i32, ...) -> i32;
    fn close(a: i32) -> i32;
}
