//! H01: a result depends on the arguments and the object's own history, on nothing else.
mod fns;
mod objs;
use mckit::*;
use std::collections::HashMap;
use std::io::Read;
use std::process::{Command, Stdio};

/// What one call alone in a process of its own answers.
fn alone(args: &[String]) -> String {
    let c = Command::new(std::env::current_exe().unwrap()).args(args).env("H01_TAG", std::process::id().to_string()).stderr(Stdio::null()).stdout(Stdio::piped()).spawn();
    let mut c = match c {
        Ok(c) => c,
        Err(e) => return format!("process not started: {e}"),
    };
    let mut out = c.stdout.take().unwrap();
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        let mut s = vec![];
        let _ = out.read_to_end(&mut s);
        let _ = tx.send(s);
    });
    let got = rx.recv_timeout(std::time::Duration::from_secs(60));
    if got.is_err() {
        let _ = c.kill();
    }
    match (got, c.wait()) {
        (Ok(s), Ok(e)) if e.success() => {
            // what the code prints itself comes first
            let s = String::from_utf8_lossy(&s).into_owned();
            s.rsplit('\u{1}').next().unwrap().to_string()
        },
        (_, e) => format!("process ended with {e:?}"),
    }
}
fn call(f: &fns::F, i: usize) -> String {
    match guard(|| (f.call)(&f.args[i])) {
        Ok(s) => s,
        Err(e) => format!("panic: {e}"),
    }
}

fn differ(got: &str, want: &str) -> String {
    let at = got.bytes().zip(want.bytes()).take_while(|(a, b)| a == b).count();
    let cut = |s: &str| s.as_bytes()[at.saturating_sub(40).min(s.len())..].iter().take(120).map(|b| *b as char).collect::<String>();
    format!("got ..{}, alone ..{}", cut(got), cut(want))
}

fn functions(r: &mut Run) {
    let deep = r.thorough;
    let t = fns::table();
    let idx: Vec<(usize, usize)> = t.iter().enumerate().flat_map(|(f, x)| (0..x.args.len()).map(move |i| (f, i))).collect();
    let want: Vec<Vec<String>> = {
        let m = std::sync::Mutex::new(t.iter().map(|x| vec![String::new(); x.args.len()]).collect::<Vec<_>>());
        let parts = par(idx.len() as u64, |p, k| {
            let (f, i) = idx[k as usize];
            let w = alone(&["--call".into(), f.to_string(), i.to_string()]);
            p.states += 1;
            p.steps_n(1);
            p.outcomes.insert(hs(&w));
            p.check(!w.starts_with("process "), "alone", || format!("{} {:?}: {w}", t[f].name, t[f].args[i]));
            m.lock().unwrap()[f][i] = w;
        });
        for p in parts {
            r.absorb(p);
        }
        m.into_inner().unwrap()
    };
    r.section("each call alone in a process");
    // every word of two calls of one function, and of three where there are few
    let parts = par(t.len() as u64, |p, f| {
        let (x, w) = (&t[f as usize], &want[f as usize]);
        let n = x.args.len();
        let show = |i: usize| format!("{:?}", x.args[i]);
        let judge = |p: &mut Part, i: usize, before: &dyn Fn() -> String| {
            let g = call(x, i);
            p.step();
            p.check(g == w[i], x.name, || format!("{} of {} after {}: {}", x.name, show(i), before(), differ(&g, &w[i])));
        };
        for a in 0..n {
            for b in 0..n {
                p.traces += 1;
                judge(p, a, &|| "the words before".into());
                judge(p, b, &|| show(a));
            }
        }
        if n <= if deep { 60 } else { 21 } {
            for a in 0..n {
                for b in 0..n {
                    for c in 0..n {
                        p.traces += 1;
                        judge(p, a, &|| "the words before".into());
                        judge(p, b, &|| show(a));
                        judge(p, c, &|| format!("{} and {}", show(a), show(b)));
                    }
                }
            }
        }
        // the predecessor on another thread
        std::thread::scope(|s| {
            let (tx, rx) = std::sync::mpsc::channel::<usize>();
            let (ty, ry) = std::sync::mpsc::channel::<String>();
            s.spawn(move || {
                while let Ok(i) = rx.recv() {
                    let _ = ty.send(call(x, i));
                }
            });
            for a in 0..n {
                for b in 0..n {
                    p.traces += 1;
                    tx.send(a).unwrap();
                    let g = ry.recv().unwrap();
                    p.step();
                    p.check(g == w[a], x.name, || format!("{} of {} on a second thread: {}", x.name, show(a), differ(&g, &w[a])));
                    judge(p, b, &|| format!("{} on another thread", show(a)));
                }
            }
            drop(tx);
        });
    });
    for p in parts {
        r.absorb(p);
    }
    r.section("words of calls of one function");
    // between two calls of one, a call of each other
    let parts = par(t.len() as u64, |p, f| {
        let f = f as usize;
        let n = t[f].args.len();
        for (h, y) in t.iter().enumerate() {
            let m = y.args.len();
            let at = |k: usize| (k * 7 % n, k * 5 % m, (k * 7 + 1 + k / 3) % n);
            for (i, j, k) in (0..if deep { 40 } else { 10 }).map(at) {
                p.traces += 1;
                for (q, a) in [(f, i), (h, j), (f, k)] {
                    let g = call(&t[q], a);
                    p.step();
                    p.check(g == want[q][a], t[q].name, || format!("{} of {:?}, among {} of {:?}, {} of {:?}, {} of {:?}: {}", t[q].name, t[q].args[a], t[f].name, t[f].args[i], y.name, y.args[j], t[f].name, t[f].args[k], differ(&g, &want[q][a])));
                }
            }
        }
    });
    for p in parts {
        r.absorb(p);
    }
    r.section("words of calls of two functions");
    r.bounds.push(format!("{} functions, {} calls, each alone in a process; all words of two calls of one function (also with the first call on another thread), of three where the function has up to {} arguments; {} words of each ordered pair of functions", t.len(), idx.len(), if deep { 60 } else { 21 }, if deep { 40 } else { 10 }));
}

fn objects(r: &mut Run) {
    let t = objs::table();
    let deep = r.thorough;
    let mut names = 0;
    for (o, k) in t.iter().enumerate() {
        let ops = k.ops;
        let len = if deep && ops <= 6 || ops.pow(3) * k.variants <= 60 { 3 } else { 2 };
        // words short enough to be numbered
        let mut all: Vec<(usize, Vec<usize>)> = vec![];
        for v in 0..k.variants {
            for l in 0..=2 * len {
                if if k.fixed { l == 1 } else { l <= len || ops.pow(l as u32) <= 1100 } {
                    let mut w = words(ops, l);
                    while let Some(x) = w.next() {
                        all.push((v, x.to_vec()));
                    }
                }
            }
        }
        names += all.len();
        let m = std::sync::Mutex::new(HashMap::new());
        let parts = par(all.len() as u64, |p, i| {
            let (v, w) = &all[i as usize];
            let s = alone(&["--object".into(), o.to_string(), v.to_string(), w.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")]);
            p.states += 1;
            p.steps_n(w.len() as u64);
            p.outcomes.insert(hs(&s));
            p.check(!s.starts_with("process "), "alone", || format!("{} {v} {w:?}: {s}", k.name));
            m.lock().unwrap().insert((*v, w.clone()), s);
        });
        for p in parts {
            r.absorb(p);
        }
        let want = m.into_inner().unwrap();
        // what an unchanging object answers does not depend on what was asked before
        let want = |v: usize, w: &[usize]| -> Option<String> {
            if k.fixed { Some(w.iter().map(|x| want[&(v, vec![*x])].as_str()).collect()) } else { want.get(&(v, w.to_vec())).cloned() }
        };
        let mut short: Vec<(usize, Vec<usize>)> = vec![];
        for v in 0..k.variants {
            let mut w = words(ops, len);
            while let Some(x) = w.next() {
                short.push((v, x.to_vec()));
            }
        }
        let ways: Vec<Vec<usize>> = {
            let mut v = vec![];
            let mut w = words(2, 2 * len);
            while let Some(x) = w.next() {
                if x.iter().sum::<usize>() == len {
                    v.push(x.to_vec());
                }
            }
            v
        };
        let parts = par(short.len() as u64, |p, i| {
            let (v0, w0) = &short[i as usize];
            let alone0 = want(*v0, w0).unwrap();
            for (v1, w1) in short.iter().map(|x| (&x.0, &x.1)) {
                let alone1 = want(*v1, w1).unwrap();
                // two instances, every interleaving
                for way in &ways {
                    p.traces += 1;
                    let (mut a, mut b) = ((k.make)(*v0, 0), (k.make)(*v1, 1));
                    let (mut ga, mut gb, mut i, mut j) = (String::new(), String::new(), 0, 0);
                    for s in way {
                        p.step();
                        if *s == 0 {
                            ga += &objs::op(a.as_mut(), w0[i]);
                            i += 1;
                        } else {
                            gb += &objs::op(b.as_mut(), w1[j]);
                            j += 1;
                        }
                    }
                    for (g, w) in [(&ga, &alone0), (&gb, &alone1)] {
                        p.check(g == w, k.name, || format!("{}: {v0} {w0:?} and {v1} {w1:?} in the order {way:?}: {}", k.name, differ(g, w)));
                    }
                }
                // one instance and its copy
                if v0 != v1 {
                    continue;
                }
                for cut in 1..=len {
                    let mut a = (k.make)(*v0, 0);
                    let mut g = String::new();
                    for x in &w0[..cut] {
                        g += &objs::op(a.as_mut(), *x);
                    }
                    let Some(mut b) = a.copy() else { break };
                    let (mut ga, mut gb) = (g.clone(), g);
                    p.traces += 1;
                    for s in 0..len {
                        p.step();
                        if s < len - cut {
                            ga += &objs::op(a.as_mut(), w0[cut + s]);
                        }
                        gb += &objs::op(b.as_mut(), w1[s]);
                    }
                    for (g, w) in [(&ga, w0.clone()), (&gb, [&w0[..cut], &w1[..]].concat())] {
                        if let Some(z) = &want(*v0, &w) {
                            p.check(g == z, k.name, || format!("{}: {v0} {w0:?} copied after {cut}, the copy taken on by {w1:?}: {}", k.name, differ(g, z)));
                        }
                    }
                }
            }
            // one instance handed between threads
            let mut split = words(2, len);
            while let Some(on) = split.next() {
                p.traces += 1;
                let mut a = (k.make)(*v0, 0);
                let mut g = String::new();
                for (x, t) in w0.iter().zip(on) {
                    p.step();
                    if *t == 0 {
                        g += &objs::op(a.as_mut(), *x);
                    } else {
                        let b = &mut a;
                        g += &std::thread::scope(|s| s.spawn(move || objs::op(b.as_mut(), *x)).join().unwrap());
                    }
                }
                let z = &alone0;
                p.check(&g == z, k.name, || format!("{}: {v0} {w0:?} on threads {on:?}: {}", k.name, differ(&g, z)));
            }
        });
        for p in parts {
            r.absorb(p);
        }
        r.section(k.name);
    }
    r.bounds.push(format!("{} kinds of object, {names} histories alone in a process each; all pairs of histories of 2 or 3 operations in all interleavings on two instances, on an instance and its copy, and handed between two threads", t.len()));
    r.assumptions.push("calls do not overlap in time; the leap-second setting, which is meant to be shared, stays as it is".into());
}

unsafe extern "C" {
    fn dup2(a: i32, b: i32) -> i32;
}
fn h01(r: &mut Run) {
    // some of the code reports to stdout: keep it out of the check's own output
    use std::os::fd::AsRawFd;
    let null = std::fs::File::options().write(true).open("/dev/null").unwrap();
    unsafe { dup2(null.as_raw_fd(), 1) };
    objs::scratch(true);
    functions(r);
    objects(r);
    objs::scratch(false);
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("--call") => {
            std::panic::set_hook(Box::new(|_| {}));
            let t = fns::table();
            let s = call(&t[a[2].parse::<usize>().unwrap()], a[3].parse().unwrap());
            print!("\u{1}{s}");
        }
        Some("--object") => {
            std::panic::set_hook(Box::new(|_| {}));
            let t = objs::table();
            let mut o = (t[a[2].parse::<usize>().unwrap()].make)(a[3].parse().unwrap(), 0);
            let s: String = a[4].split(',').filter(|s| !s.is_empty()).map(|w| objs::op(o.as_mut(), w.parse().unwrap())).collect();
            print!("\u{1}{s}");
        }
        _ => mckit::main(&[("H01", h01)]),
    }
}
