//! Small exhaustive-exploration kit shared by every harness in /verif.
//!
//! A check enumerates a bounded space (operation histories, words, input
//! domains, interleavings), drives the *real* code of /repo along every member
//! of it and compares each step with a boring reference model.  The kit counts
//! what was explored, records violations as replay files, applies the
//! known-findings list and writes the evidence file.

use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::Instant;

pub static HEART: AtomicU64 = AtomicU64::new(0);
static DONE: AtomicBool = AtomicBool::new(false);
thread_local!(static QUIET: std::cell::Cell<bool> = const { std::cell::Cell::new(false) });
static CURRENT: Mutex<String> = Mutex::new(String::new());
const HANG_SECS: u64 = 150;

/// FNV-1a over raw bytes; used only to count distinct states.
pub fn h(bytes: &[u8]) -> u64 {
    let mut x = 0xcbf29ce484222325u64;
    for b in bytes {
        x ^= *b as u64;
        x = x.wrapping_mul(0x100000001b3);
    }
    x ^ (x >> 29)
}
pub fn hs(s: &str) -> u64 {
    h(s.as_bytes())
}

pub struct Run {
    pub prop: String,
    pub thorough: bool,
    seed: i64,
    t0: Instant,
    seen: HashSet<u64>,
    states: u64,
    transitions: u64,
    traces: u64,
    outcomes: HashSet<u64>,
    samples: Vec<String>,
    sample_at: u64,
    sample_n: u64,
    fails: BTreeMap<String, Vec<String>>,
    nfails: u64,
    known: Vec<(String, String)>,
    known_hit: BTreeMap<String, u64>,
    prefix: String,
    pub assumptions: Vec<String>,
    pub bounds: Vec<String>,
    sections: Vec<(String, u64, u64, u64)>,
    sec_mark: (u64, u64, u64),
}

fn verif_dir() -> std::path::PathBuf {
    std::env::var_os("VERIF_DIR")
        .map(Into::into)
        .unwrap_or_else(|| std::env::current_dir().unwrap())
}

impl Run {
    pub fn new(prop: &str) -> Self {
        let tier = std::env::args()
            .nth(2)
            .or_else(|| std::env::var("VERIF_TIER").ok())
            .unwrap_or_else(|| "quick".into());
        let seed = std::env::var("VERIF_SEED")
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or(1);
        std::panic::set_hook(Box::new(|i| {
            if !QUIET.get() {
                eprintln!("{i}");
            }
        }));
        let mut known = vec![];
        if let Ok(s) = std::fs::read_to_string(verif_dir().join("known_findings.txt")) {
            let pre = format!("KNOWN-FINDING: property={prop} key=");
            for l in s.lines() {
                if let Some(rest) = l.strip_prefix(&pre) {
                    let (k, w) = rest.split_once(' ').unwrap_or((rest, ""));
                    known.push((k.to_string(), w.to_string()));
                }
            }
        }
        STDOUT.store(unsafe { dup(1) }, Ordering::Relaxed);
        let p2 = prop.to_string();
        std::thread::spawn(move || watchdog(p2));
        Run {
            prop: prop.into(),
            thorough: tier == "thorough",
            seed,
            t0: Instant::now(),
            seen: HashSet::new(),
            states: 0,
            transitions: 0,
            traces: 0,
            outcomes: HashSet::new(),
            samples: vec![],
            sample_at: 1,
            sample_n: 0,
            fails: BTreeMap::new(),
            nfails: 0,
            known,
            known_hit: BTreeMap::new(),
            prefix: String::new(),
            assumptions: vec![],
            bounds: vec![],
            sections: vec![],
            sec_mark: (0, 0, 0),
        }
    }

    /// A state of the explored space (deduplicated by hash).  True when new.
    pub fn state(&mut self, hash: u64) -> bool {
        if self.seen.insert(hash) {
            self.states += 1;
            true
        } else {
            false
        }
    }
    /// `n` states that are pairwise distinct by construction of the loop.
    pub fn states_distinct(&mut self, n: u64) {
        self.states += n;
    }
    /// One step of the real code compared with the model.
    pub fn step(&mut self) {
        self.transitions += 1;
        HEART.fetch_add(1, Ordering::Relaxed);
    }
    pub fn steps(&mut self, n: u64) {
        self.transitions += n;
        HEART.fetch_add(1, Ordering::Relaxed);
    }
    /// One complete history / case run on the implementation and compared.
    pub fn trace(&mut self) {
        self.traces += 1;
    }
    pub fn traces(&mut self, n: u64) {
        self.traces += n;
    }
    /// Observed outcome class (to show that executions differ).
    pub fn outcome(&mut self, hash: u64) {
        if self.outcomes.len() < 1_000_000 {
            self.outcomes.insert(hash);
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        self.sample_n += 1;
        if self.sample_n == self.sample_at && self.samples.len() < 12 {
            self.sample_at = self.sample_at * 7 + 3;
            let s = f();
            self.samples.push(s);
        }
    }
    pub fn force_sample(&mut self, s: String) {
        if self.samples.len() < 24 {
            self.samples.push(s);
        }
    }
    pub fn fail(&mut self, key: impl Into<String>, detail: impl FnOnce() -> String) {
        let key = format!("{}{}", self.prefix, key.into());
        if self.known.iter().any(|k| k.0 == key) {
            *self.known_hit.entry(key).or_insert(0) += 1;
            return;
        }
        self.nfails += 1;
        if self.fails.len() < 40 || self.fails.contains_key(&key) {
            let v = self.fails.entry(key).or_default();
            if v.len() < 5 {
                let d = detail();
                v.push(d);
            }
        }
    }
    pub fn check(&mut self, ok: bool, key: &str, detail: impl FnOnce() -> String) -> bool {
        if !ok {
            self.fail(key, detail);
        }
        ok
    }
    pub fn nfails(&self) -> u64 {
        self.nfails
    }
    /// Name the case being run, for the hang report.
    pub fn here(&self, s: impl FnOnce() -> String) {
        if let Ok(mut c) = CURRENT.lock() {
            *c = s();
        }
    }
    pub fn section(&mut self, name: &str) {
        let m = (self.states, self.transitions, self.traces);
        self.sections.push((
            format!("{}{name}", self.prefix),
            m.0 - self.sec_mark.0,
            m.1 - self.sec_mark.1,
            m.2 - self.sec_mark.2,
        ));
        self.sec_mark = m;
        HEART.fetch_add(1, Ordering::Relaxed);
    }
    /// Run `f` for one build of the code: keys and sections of what it reports carry the name of the build.
    pub fn build(&mut self, name: &str, f: impl FnOnce(&mut Run)) {
        self.prefix = format!("{name}: ");
        let (b, a) = (self.bounds.len(), self.assumptions.len());
        f(self);
        self.bounds.truncate(b);
        self.assumptions.truncate(a);
        self.prefix.clear();
    }
    pub fn absorb(&mut self, o: Part) {
        self.states += o.states;
        self.transitions += o.transitions;
        self.traces += o.traces;
        for x in o.outcomes {
            self.outcome(x);
        }
        for (k, d) in o.fails {
            self.fail(k, || d);
        }
        for s in o.samples {
            if self.samples.len() < 12 {
                self.samples.push(s);
            }
        }
        HEART.fetch_add(1, Ordering::Relaxed);
    }

    /// Write evidence, print the verdict, exit.
    pub fn finish(mut self) -> ! {
        DONE.store(true, Ordering::Relaxed);
        own_stdout();
        let wall = self.t0.elapsed().as_secs_f64();
        for (k, w) in &self.known {
            if self.known_hit.contains_key(k) {
                println!("KNOWN-FINDING: property={} key={} {}", self.prop, k, w);
            } else {
                println!("note: listed finding key={k} did not occur in this run");
            }
        }
        let ev = verif_dir().join("evidence");
        let _ = std::fs::create_dir_all(&ev);
        let secs: Vec<String> = self
            .sections
            .iter()
            .map(|(n, s, t, r)| {
                format!(
                    "{{\"name\":{},\"states\":{s},\"transitions\":{t},\"traces\":{r}}}",
                    js(n)
                )
            })
            .collect();
        if self.samples.is_empty() {
            self.samples.push("(none)".into());
        }
        if let Ok(n) = std::env::var("VERIF_OTHER_BUILD") {
            self.bounds.push(n);
        }
        let arr = |v: &Vec<String>| v.iter().map(|s| js(s)).collect::<Vec<_>>().join(",");
        let json = format!(
            "{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":\"model_checking\",\"coverage\":{{\"states\":{},\"transitions\":{},\"traces_validated_against_impl\":{},\"distinct_outcomes\":{},\"samples\":[{}],\"exhaustive\":true,\"bounds\":[{}],\"sections\":[{}],\"known_findings_seen\":{}}},\"assumptions\":[{}],\"wall_s\":{:.3},\"violations\":{}}}\n",
            js(&self.prop),
            js(if self.thorough { "thorough" } else { "quick" }),
            self.seed,
            self.states,
            self.transitions,
            self.traces,
            self.outcomes.len(),
            arr(&self.samples),
            arr(&self.bounds),
            secs.join(","),
            self.known_hit.len(),
            arr(&self.assumptions),
            wall,
            self.nfails
        );
        let tmp = ev.join(format!("{}.json.tmp", self.prop));
        if std::fs::write(&tmp, &json).is_err()
            || std::fs::rename(&tmp, ev.join(format!("{}.json", self.prop))).is_err()
        {
            eprintln!("cannot write evidence");
            std::process::exit(3);
        }
        println!(
            "{}: states={} transitions={} traces={} distinct_outcomes={} violations={} wall={:.1}s",
            self.prop,
            self.states,
            self.transitions,
            self.traces,
            self.outcomes.len(),
            self.nfails,
            wall
        );
        for (n, s, t, r) in &self.sections {
            println!("  section {n}: states={s} transitions={t} traces={r}");
        }
        if self.nfails == 0 {
            std::process::exit(0);
        }
        let mut body = format!(
            "property {}\nreplay: ./check.sh {} {}   (deterministic: the same cases fail every run)\n",
            self.prop,
            self.prop,
            if self.thorough { "thorough" } else { "quick" }
        );
        for (k, v) in &self.fails {
            body.push_str(&format!("\n== key={k}\n"));
            for d in v {
                body.push_str(d);
                body.push('\n');
            }
        }
        let path = write_replay(&self.prop, &body);
        for (k, v) in self.fails.iter().take(8) {
            println!("  [{k}] {}", v.first().map(|s| s.as_str()).unwrap_or(""));
        }
        println!("VIOLATION property={} replay={}", self.prop, path);
        std::process::exit(1);
    }
}

fn write_replay(prop: &str, body: &str) -> String {
    let dir = verif_dir().join("evidence").join("replay");
    let _ = std::fs::create_dir_all(&dir);
    let p = dir.join(format!("{prop}.txt"));
    if let Ok(mut f) = std::fs::File::create(&p) {
        let _ = f.write_all(body.as_bytes());
    }
    format!("evidence/replay/{prop}.txt")
}

fn watchdog(prop: String) {
    let mut last = HEART.load(Ordering::Relaxed);
    let mut t = Instant::now();
    loop {
        std::thread::sleep(std::time::Duration::from_millis(500));
        if DONE.load(Ordering::Relaxed) {
            return;
        }
        let cur = HEART.load(Ordering::Relaxed);
        if cur != last {
            last = cur;
            t = Instant::now();
        } else if t.elapsed().as_secs() > HANG_SECS {
            let c = CURRENT.lock().map(|c| c.clone()).unwrap_or_default();
            let p = write_replay(
                &prop,
                &format!("property {prop}\na call into the code did not return within {HANG_SECS} s\nlast case: {c}\n"),
            );
            own_stdout();
            println!("  [non-termination] a call did not return within {HANG_SECS}s; last case: {c}");
            println!("VIOLATION property={prop} replay={p}");
            let _ = std::io::stdout().flush();
            unsafe { exit_now(1) }
        }
    }
}
/// A check may send the code's own output elsewhere; the report goes where stdout was at first.
static STDOUT: std::sync::atomic::AtomicI32 = std::sync::atomic::AtomicI32::new(-1);
fn own_stdout() {
    let fd = STDOUT.load(Ordering::Relaxed);
    if fd >= 0 {
        let _ = std::io::stdout().flush();
        unsafe { dup2(fd, 1) };
    }
}
extern "C" {
    fn _exit(code: i32) -> !;
    fn dup(fd: i32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
}
unsafe fn exit_now(c: i32) -> ! {
    _exit(c)
}

/// Thread-local slice of a run, merged with `Run::absorb`.
#[derive(Default)]
pub struct Part {
    pub states: u64,
    pub transitions: u64,
    pub traces: u64,
    pub outcomes: HashSet<u64>,
    pub fails: Vec<(String, String)>,
    pub samples: Vec<String>,
}
impl Part {
    pub fn steps_n(&mut self, n: u64) {
        for _ in 0..n {
            self.step();
        }
    }
    pub fn fail(&mut self, key: &str, d: impl FnOnce() -> String) {
        if self.fails.len() < 4000 && self.fails.iter().filter(|f| f.0 == key).count() < 60 {
            self.fails.push((key.into(), d()));
        }
    }
    pub fn check(&mut self, ok: bool, key: &str, d: impl FnOnce() -> String) -> bool {
        if !ok {
            self.fail(key, d);
        }
        ok
    }
    pub fn step(&mut self) {
        self.transitions += 1;
        if self.transitions & 0xfff == 0 {
            HEART.fetch_add(1, Ordering::Relaxed);
        }
    }
}

/// Split `0..n` over the cores; each worker gets the indices i ≡ w (mod k).
pub fn par(n: u64, f: impl Fn(&mut Part, u64) + Sync) -> Vec<Part> {
    let k = std::thread::available_parallelism()
        .map(|x| x.get() as u64)
        .unwrap_or(4)
        .min(8);
    std::thread::scope(|s| {
        let hs: Vec<_> = (0..k)
            .map(|w| {
                let f = &f;
                s.spawn(move || {
                    let mut p = Part::default();
                    let mut i = w;
                    while i < n {
                        f(&mut p, i);
                        i += k;
                    }
                    p
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    })
}

/// Run code of /repo; a panic becomes `Err(message)` instead of ending the run.
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    QUIET.set(true);
    let r = catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        e.downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| e.downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "panic".into())
    });
    QUIET.set(false);
    r
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// All words of length `len` over an alphabet of `k` letters.
pub struct Words {
    k: usize,
    cur: Vec<usize>,
    done: bool,
    first: bool,
}
pub fn words(k: usize, len: usize) -> Words {
    Words { k, cur: vec![0; len], done: k == 0 && len > 0, first: true }
}
impl Words {
    /// Lending iteration: next word or None.
    pub fn next(&mut self) -> Option<&[usize]> {
        if self.done {
            return None;
        }
        if self.first {
            self.first = false;
            return Some(&self.cur);
        }
        let mut i = self.cur.len();
        loop {
            if i == 0 {
                self.done = true;
                return None;
            }
            i -= 1;
            self.cur[i] += 1;
            if self.cur[i] < self.k {
                return Some(&self.cur);
            }
            self.cur[i] = 0;
        }
    }
}

/// Entry point: dispatch argv[1] to a check.
pub fn main(table: &[(&str, fn(&mut Run))]) -> ! {
    let id = std::env::args().nth(1).unwrap_or_default();
    for (k, f) in table {
        if *k == id {
            let mut r = Run::new(k);
            let res = catch_unwind(AssertUnwindSafe(|| f(&mut r)));
            if let Err(e) = res {
                let m = e
                    .downcast_ref::<&str>()
                    .map(|s| s.to_string())
                    .or_else(|| e.downcast_ref::<String>().cloned())
                    .unwrap_or_else(|| "panic".into());
                // An unguarded panic: the code (or the harness) panicked on a case
                // that completes on the unchanged tree.
                let c = CURRENT.lock().map(|c| c.clone()).unwrap_or_default();
                r.fail("panic", || format!("panic during exploration: {m}; last case: {c}"));
            }
            r.finish()
        }
    }
    eprintln!("unknown property {id}");
    std::process::exit(2)
}
