//! V04: the viewer program driven through its argument list, its files, the mouse and the clock; what it plots is
//! compared with what the files say.
use eframe::{APP, App, Frame};
use egui::{Event, Modifiers, PointerButton, Pos2, RawInput, Rect, Shape, pos2, vec2};
use egui_plot::DRAWN;
use mckit::{Part, Run, hs, par, words};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};

thread_local! {
    pub static ARGS: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) };
    static AHEAD: Cell<i64> = const { Cell::new(0) };
    static BASE: Cell<Option<[i64; 2]>> = const { Cell::new(None) };
}
unsafe extern "C" {
    fn syscall(n: i64, ...) -> i64;
}
/// The clock of this process; in a thread that runs the viewer it stands still but for what the thread lets pass.
#[unsafe(no_mangle)]
pub unsafe extern "C" fn clock_gettime(id: i32, ts: *mut [i64; 2]) -> i32 {
    let r = unsafe { syscall(228, id as i64, ts) } as i32;
    if r == 0 && id == 1 {
        let t = unsafe { &mut *ts };
        let Some(base) = BASE.with(|b| b.get()) else { return r };
        *t = base;
        let ns = t[1] + AHEAD.with(|a| a.get());
        t[0] += ns.div_euclid(1_000_000_000);
        t[1] = ns.rem_euclid(1_000_000_000);
    }
    r
}

// ---------------------------------------------------------------- the files
type Names = [&'static str; 4];
/// One column with two boxes; two of them in different units; columns without units.
const NAMES: [Names; 5] = [["t", "pos_x[km]", "pos_y[km]", "alt[m]"], ["t", "pos_x[km]", "v_x_rel[m]", "alt[m]"], ["t", "u_x", "w_x[km]", "n"], ["t", "b[0]_x[km]", "b[1]_x[m]", "c[0] [km]"], ["t", "a_x[km]", "b_x", "z"]];
/// Columns with a box on either side.
fn both(name: &str) -> bool {
    name.contains("_x")
}
/// Order of the columns in a kind of file.
fn order(kind: usize) -> &'static [usize] {
    [&[0, 1, 2, 3][..], &[3, 2, 0, 1], &[0, 1, 3], &[]][kind]
}
fn cell(run: usize, row: usize, col: usize, scale: f64) -> String {
    match (col, row) {
        (0, _) => format!("{row}.5"),
        (3, 1) if run == 0 => "nan".into(),
        (c, r) => format!("{}", (1000 * (run + 1) + 100 * c + r * r) as f64 * if c == 2 { -0.5 } else { 0.25 * scale }),
    }
}
#[derive(Clone, Debug)]
struct File {
    names: Names,
    path: PathBuf,
    label: String,
    run: usize,
    kind: usize,
    rows: usize,
    scale: f64,
}
impl File {
    fn header(&self) -> String {
        order(self.kind).iter().map(|&c| self.names[c]).collect::<Vec<_>>().join(",") + "\n"
    }
    fn line(&self, row: usize) -> String {
        order(self.kind).iter().map(|&c| cell(self.run, row, c, self.scale)).collect::<Vec<_>>().join(",") + "\n"
    }
    fn make(&mut self) {
        if self.kind == 3 {
            self.rows = 0;
        }
        std::fs::create_dir_all(self.path.parent().unwrap()).unwrap();
        let mut s = String::new();
        if self.kind < 3 {
            s = self.header();
            (0..self.rows).for_each(|r| s += &self.line(r));
        }
        std::fs::write(&self.path, s).unwrap();
    }
    fn append(&mut self) {
        use std::io::Write;
        let mut s = String::new();
        if self.kind == 3 {
            self.kind = 0;
            s = self.header();
        }
        s += &self.line(self.rows);
        self.rows += 1;
        std::fs::OpenOptions::new().append(true).open(&self.path).unwrap().write_all(s.as_bytes()).unwrap();
    }
    fn has(&self, c: usize) -> bool {
        order(self.kind).contains(&c)
    }
    /// Rows whose cells in x and `cols` are finite: (x, one value per column).
    fn data(&self, cols: &[usize]) -> Vec<(f64, Vec<f64>)> {
        (0..self.rows)
            .filter_map(|r| {
                let num = |c: usize| cell(self.run, r, c, self.scale).parse::<f64>().ok().filter(|v| v.is_finite());
                Some((num(0)?, cols.iter().map(|&c| num(c)).collect::<Option<Vec<_>>>()?))
            })
            .collect()
    }
}

// ---------------------------------------------------------------- the screen
struct Screen {
    texts: Vec<(String, Pos2)>,
    marks: Vec<Rect>,
    plots: Vec<egui_plot::Drawn>,
}
impl Screen {
    fn collect(&mut self, s: &Shape) {
        match s {
            Shape::Vec(v) => v.iter().for_each(|s| self.collect(s)),
            Shape::Text(t) => self.texts.push((t.galley.text().to_string(), t.pos)),
            Shape::Path(p) if p.points.len() == 3 && !p.closed => self.marks.push(Rect::from_points(&p.points)),
            _ => (),
        }
    }
    /// Boxes of a column from left to right: place, ticked.
    fn boxes(&self, name: &str) -> Vec<(Pos2, bool)> {
        let mut v: Vec<_> = self.texts.iter().filter(|t| t.0 == name).map(|t| t.1).collect();
        v.sort_by(|a, b| a.x.total_cmp(&b.x));
        v.into_iter()
            .map(|p| {
                let ticked = self.marks.iter().any(|m| m.right() < p.x + 1.0 && m.right() > p.x - 20.0 && (m.center().y - p.y - 7.0).abs() < 9.0);
                (p, ticked)
            })
            .collect()
    }
    fn says(&self, start: &str) -> Option<&str> {
        self.texts.iter().find_map(|t| t.0.strip_prefix(start))
    }
}
struct Viewer {
    app: Box<dyn App>,
    ctx: egui::Context,
    frame: Frame,
    time: f64,
}
impl Viewer {
    fn start(args: &[&str]) -> Result<Option<Viewer>, String> {
        ARGS.with(|a| *a.borrow_mut() = std::iter::once("csv_tail_egui").chain(args.iter().copied()).map(String::from).collect());
        APP.with(|a| a.borrow_mut().take());
        if BASE.with(|b| b.get()).is_none() {
            let mut t = [0; 2];
            unsafe { clock_gettime(1, &mut t) };
            BASE.with(|b| b.set(Some(t)));
        }
        crate::viewer::run()?;
        let ctx = egui::Context::default();
        ctx.style_mut(|s| s.animation_time = 0.0);
        Ok(APP.with(|a| a.borrow_mut().take()).map(|app| Viewer { app, ctx, frame: Frame::stand_in(), time: 0.0 }))
    }
    fn frame(&mut self, pass: f64, events: Vec<Event>) -> Screen {
        AHEAD.with(|a| a.set(a.get() + (pass * 1e9) as i64));
        self.time += pass;
        let input = RawInput { screen_rect: Some(Rect::from_min_size(pos2(0.0, 0.0), vec2(1600.0, 1200.0))), time: Some(self.time), events, ..Default::default() };
        DRAWN.with(|d| d.borrow_mut().clear());
        let (app, frame) = (&mut self.app, &mut self.frame);
        let out = self.ctx.run(input, |ctx| app.update(ctx, frame));
        let mut s = Screen { texts: vec![], marks: vec![], plots: DRAWN.with(|d| std::mem::take(&mut *d.borrow_mut())) };
        out.shapes.iter().for_each(|c| s.collect(&c.shape));
        s
    }
    fn click(&mut self, p: Pos2) -> Screen {
        let p = p + vec2(3.0, 6.0);
        let b = |pressed| Event::PointerButton { pos: p, button: PointerButton::Primary, pressed, modifiers: Modifiers::NONE };
        self.frame(0.001, vec![Event::PointerMoved(p)]);
        self.frame(0.001, vec![b(true)]);
        self.frame(0.001, vec![b(false)]);
        self.frame(0.001, vec![])
    }
}

// ---------------------------------------------------------------- histories
#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Left(usize),
    Right(usize),
    Row(usize),
    NewRun(usize),
    Wait,
}
use Op::*;
struct Case {
    names: Names,
    files: Vec<usize>, // kinds at the start
    rows: usize,
    pattern: bool,
    y: &'static str,
    hz: &'static str,
    scale: f64, // of the columns but the second
}
fn label_of(p: &Path) -> String {
    let runs: Vec<String> = p.iter().map(|c| c.to_string_lossy().to_string()).filter(|c| c.starts_with("run_")).collect();
    runs.last().cloned().unwrap_or_else(|| p.file_stem().unwrap().to_string_lossy().to_string())
}
fn history(p: &mut Part, dir: &Path, case: &Case, ops: &[Op]) {
    let names = case.names;
    let _ = std::fs::remove_dir_all(dir);
    std::fs::create_dir_all(dir).unwrap();
    let mut files: Vec<File> = vec![];
    let add = |files: &mut Vec<File>, kind: usize, rows: usize| {
        let run = files.len();
        let path = if case.pattern { dir.join(format!("run_all/run_{run}/state.csv")) } else { dir.join("flight.csv") };
        let mut f = File { names, label: label_of(&path), path, run, kind, rows, scale: case.scale };
        f.make();
        files.push(f);
    };
    for k in &case.files {
        add(&mut files, *k, case.rows);
    }
    let target = if case.pattern { dir.join(["run_all/run_*/state.csv", "run_all/run_?/state.csv", "run_all/run_[0-9]/state.csv"][case.rows % 3]) } else { dir.join("flight.csv") };
    let target = target.to_string_lossy().to_string();
    let mut args = vec![target.as_str(), "t"];
    args.extend((!case.y.is_empty()).then_some(case.y));
    args.extend((!case.hz.is_empty()).then_some(case.hz));
    let story = |files: &[File], n: usize| format!("files of kinds {:?} ({} rows), {} given as columns, after {:?}: now {:?}", case.files, case.rows, if case.y.is_empty() { "nothing" } else { case.y }, &ops[..n], files.iter().map(|f| (f.kind, f.rows)).collect::<Vec<_>>());
    let mut v = match Viewer::start(&args) {
        Ok(Some(v)) => v,
        e => {
            p.fail("start", || format!("{}: {:?}", story(&files, 0), e.map(|v| v.is_some())));
            return;
        }
    };
    p.states += 1;
    p.traces += 1;
    let mut loaded: BTreeSet<usize> = (0..files.len()).collect(); // those followed
    let (mut left, mut right): (BTreeSet<usize>, BTreeSet<usize>) = Default::default();
    let given: BTreeSet<usize> = case.y.split(',').filter_map(|n| names.iter().position(|c| *c == n.trim())).collect();
    let mut ticked = given.clone();
    let mut known = false; // the boxes have been on screen
    for n in 0..=ops.len() {
        let mut clicked = false;
        if n > 0 {
            p.step();
            match ops[n - 1] {
                Left(c) | Right(c) => {
                    let s = v.frame(0.001, vec![]);
                    let b = s.boxes(names[c]);
                    let is_left = matches!(ops[n - 1], Left(_));
                    let at = if is_left { (b.len() == 2).then(|| b[0]) } else { b.last().copied() };
                    if let Some((at, _)) = at {
                        let set = if is_left { &mut left } else { &mut right };
                        if !set.remove(&c) {
                            set.insert(c);
                        }
                        ticked = &left | &right;
                        let s = v.click(at);
                        clicked = true;
                        let lacks = loaded.iter().any(|&i| files[i].kind < 3 && ticked.iter().any(|&c| !files[i].has(c)));
                        p.check(!lacks || s.says("Error").is_some(), "missing-not-said", || format!("{}: a followed file lacks a ticked column and nothing is said", story(&files, n)));
                    }
                }
                Row(i) => {
                    if let Some(f) = files.get_mut(i) {
                        f.append();
                    }
                }
                NewRun(k) => add(&mut files, k, 2),
                Wait => (),
            }
        }
        let a = v.frame(2.0, vec![]);
        // runs that cannot be shown are said
        let refused: Vec<usize> = (0..files.len()).filter(|i| !loaded.contains(i) && files[*i].kind < 3 && ticked.iter().any(|&c| !files[*i].has(c))).collect();
        if case.pattern {
            for i in 0..files.len() {
                if !refused.contains(&i) {
                    loaded.insert(i);
                }
            }
        }
        p.check(refused.is_empty() || a.says("Error").is_some(), "refused-not-said", || format!("{}: a new run lacks a ticked column and nothing is said", story(&files, n)));
        let s = v.frame(0.001, vec![]);
        // the boxes
        let first = &files[0];
        if first.kind < 3 {
            let all: Vec<usize> = (1..4).filter(|c| first.has(*c)).collect();
            let mut seen: (BTreeSet<usize>, BTreeSet<usize>) = Default::default();
            for &c in &all {
                let b = s.boxes(names[c]);
                let want = if both(names[c]) { 2 } else { 1 };
                if !p.check(b.len() == want, "boxes", || format!("{}: {} boxes for {}", story(&files, n), b.len(), names[c])) {
                    return;
                }
                if b.len() == 2 && b[0].1 {
                    seen.0.insert(c);
                }
                if b[b.len() - 1].1 {
                    seen.1.insert(c);
                }
            }
            if !known {
                let t = &seen.0 | &seen.1;
                p.check(if given.is_empty() { !t.is_empty() } else { t == given }, "first-ticks", || format!("{}: ticked {t:?} at the start", story(&files, n)));
                (left, right) = seen.clone();
                ticked = t;
                known = true;
            }
            p.check(seen == (left.clone(), right.clone()), "ticks", || format!("{}: ticked {seen:?}, by the clicks {:?}", story(&files, n), (&left, &right)));
        }
        // the toolbar
        let cols: Vec<usize> = ticked.iter().copied().collect();
        let whole = |f: &File| f.kind < 3 && cols.iter().all(|&c| f.has(c));
        let points: usize = loaded.iter().map(|&i| &files[i]).filter(|f| whole(f)).map(|f| f.data(&cols).len()).sum();
        let said: (Option<usize>, Option<usize>) = (s.says("Points(total): ").and_then(|x| x.parse().ok()), s.says("Sources: ").and_then(|x| x.parse().ok()));
        p.check(said == (Some(points), Some(loaded.len())), "counts", || format!("{}: says {said:?} points and sources, expected {points} and {}", story(&files, n), loaded.len()));
        // the lines
        let Some(plot) = s.plots.last() else {
            p.fail("no-plot", || story(&files, n));
            return;
        };
        p.check(plot.x_label == "t", "x-label", || format!("{}: x axis {:?}", story(&files, n), plot.x_label));
        let unit = |g: &BTreeSet<usize>| -> Option<&str> {
            // the unit all columns of a group share; a column without one shares none
            let u: BTreeSet<&str> = g.iter().map(|&c| if names[c].contains('[') { names[c].rsplit('[').next().unwrap() } else { "" }).collect();
            if u.len() == 1 { u.into_iter().next().filter(|u| !u.is_empty()) } else { None }
        };
        let range = |g: &BTreeSet<usize>| -> Option<(f64, f64)> {
            let v: Vec<f64> = loaded.iter().map(|&i| &files[i]).filter(|f| whole(f)).flat_map(|f| f.data(&cols)).flat_map(|(_, y)| y.into_iter().zip(&cols).filter(|(_, c)| g.contains(c)).map(|(y, _)| y).collect::<Vec<_>>()).collect();
            let (a, b) = v.iter().fold((f64::INFINITY, f64::NEG_INFINITY), |m, x| (m.0.min(*x), m.1.max(*x)));
            (a < b).then_some((a, b))
        };
        let scale = !left.is_empty() && !right.is_empty() && unit(&left) != unit(&right);
        let (rx, ry) = (range(&left), range(&right));
        let mut lines: BTreeMap<&str, &Vec<[f64; 2]>> = Default::default();
        for (name, pts) in &plot.lines {
            p.check(lines.insert(name, pts).is_none(), "line-twice", || format!("{}: {name} is drawn twice", story(&files, n)));
        }
        for &i in &loaded {
            let f = &files[i];
            if !whole(f) {
                continue;
            }
            let rows = f.data(&cols);
            for (k, &c) in cols.iter().enumerate() {
                let name = format!("{}::{}", f.label, names[c]);
                let got = lines.remove(name.as_str());
                if rows.is_empty() {
                    p.check(got.is_none_or(|g| g.is_empty()), "line", || format!("{}: {name} has no rows yet is drawn: {got:?}", story(&files, n)));
                    continue;
                }
                let raw: Vec<[f64; 2]> = rows.iter().map(|(x, y)| [*x, y[k]]).collect();
                let moved: Option<Vec<[f64; 2]>> = match (rx, ry) {
                    (Some(a), Some(b)) if right.contains(&c) => Some(raw.iter().map(|q| [q[0], a.0 + (q[1] - b.0) / (b.1 - b.0) * (a.1 - a.0)]).collect()),
                    _ => None,
                };
                let size = rx.map_or(0.0, |x| x.1 - x.0);
                let eq = |w: &Vec<[f64; 2]>, g: &Vec<[f64; 2]>| w.len() == g.len() && w.iter().zip(g).all(|(a, b)| a[0] == b[0] && (a[1] - b[1]).abs() <= 1e-9 * (size + a[1].abs() + b[1].abs()));
                let same_x = |g: &Vec<[f64; 2]>| g.len() == raw.len() && g.iter().zip(&raw).all(|(a, b)| a[0] == b[0]);
                let ok = got.is_some_and(|g| match (scale, &moved) {
                    (false, _) => *g == raw,
                    (true, Some(m)) => eq(m, g),
                    // a group without extent has no scale of its own
                    (_, None) if right.contains(&c) => same_x(g),
                    (_, None) => *g == raw,
                });
                p.check(ok, "line", || format!("{}: ticked {:?} and {:?}, {name} is drawn as {got:?}, its rows are {raw:?}, scaled {moved:?}", story(&files, n), left, right));
            }
        }
        // whatever else is drawn is right about its name
        for (name, pts) in &lines {
            let ok = files.iter().any(|f| cols.iter().any(|&c| f.has(c) && *name == format!("{}::{}", f.label, names[c]) && f.data(&[c]).iter().map(|(x, y)| [*x, y[0]]).collect::<Vec<_>>() == **pts));
            p.check(pts.is_empty() || ok, "stray-line", || format!("{}: ticked {:?} and {:?}, {name} is drawn as {pts:?}", story(&files, n), left, right));
        }
        let _ = clicked;
        p.outcomes.insert(hs(&format!("{:?} {:?} {:?}", left, right, plot.lines.len())));
    }
}

pub fn v04(r: &mut Run) {
    let base = if Path::new("/dev/shm").is_dir() { PathBuf::from("/dev/shm") } else { std::env::temp_dir() }.join(format!("aether_mc_{}_v04", std::process::id()));
    std::fs::create_dir_all(&base).unwrap();
    let cases = [
        Case { names: NAMES[0], files: vec![0], rows: 3, pattern: true, y: "", hz: "", scale: 1.0 },
        Case { names: NAMES[0], files: vec![1, 0], rows: 3, pattern: true, y: "alt[m]", hz: "2", scale: 1e-8 },
        Case { names: NAMES[0], files: vec![0, 2], rows: 2, pattern: true, y: "alt[m], pos_x[km]", hz: "", scale: 1.0 },
        Case { names: NAMES[0], files: vec![0, 0, 1], rows: 1, pattern: true, y: "pos_x[km],pos_y[km]", hz: "10", scale: 1e9 },
        Case { names: NAMES[0], files: vec![3, 1], rows: 3, pattern: true, y: "", hz: "", scale: 1.0 },
        Case { names: NAMES[0], files: vec![0], rows: 3, pattern: false, y: "", hz: "4", scale: 1.0 },
        Case { names: NAMES[0], files: vec![3], rows: 0, pattern: false, y: "pos_y[km]", hz: "", scale: 1.0 },
        Case { names: NAMES[1], files: vec![0, 1], rows: 3, pattern: true, y: "", hz: "", scale: 1.0 },
        Case { names: NAMES[1], files: vec![0], rows: 2, pattern: true, y: "pos_x[km],v_x_rel[m]", hz: "", scale: 1e-20 },
        Case { names: NAMES[1], files: vec![1], rows: 2, pattern: true, y: "v_x_rel[m],alt[m]", hz: "", scale: 1.0 },
        Case { names: NAMES[2], files: vec![0], rows: 3, pattern: true, y: "n", hz: "", scale: 1.0 },
        Case { names: NAMES[4], files: vec![0], rows: 3, pattern: true, y: "a_x[km],z", hz: "", scale: 1.0 },
        Case { names: NAMES[3], files: vec![0], rows: 3, pattern: true, y: "c[0] [km]", hz: "", scale: 1.0 },
    ];
    let len = if r.thorough { 5 } else { 4 };
    for case in &cases {
        let alpha = if both(case.names[2]) { [Left(1), Right(1), Left(2), Right(2), Right(3), Row(0), Row(1), NewRun(1)] } else { [Left(1), Right(1), Right(2), Right(3), Row(0), Row(1), NewRun(1), NewRun(2)] };
        let (base2, alpha) = (&base, &alpha);
        let total = (alpha.len() as u64).pow(len);
        for q in par(total, |p, i| {
            let mut x = i;
            let ops: Vec<Op> = (0..len).map(|_| { let o = alpha[(x % alpha.len() as u64) as usize]; x /= alpha.len() as u64; o }).collect();
            if !case.pattern && ops.iter().any(|o| matches!(o, NewRun(_) | Row(1))) {
                return;
            }
            // new runs beyond two, and rows for a run that is not there, add nothing
            if ops.iter().filter(|o| matches!(o, NewRun(_))).count() > 2 {
                return;
            }
            let dir = base2.join(format!("{:?}", std::thread::current().id()));
            history(p, &dir, case, &ops);
        }) {
            r.absorb(q);
        }
        r.section(&format!("every history: columns {:?}, files {:?}, given {:?}{}", case.names, case.files, case.y, if case.pattern { "" } else { " (one file)" }));
    }
    // many runs, many columns, many rows: half of the runs are there at the start, rows keep coming
    let mut wide = vec![];
    for files in [1usize, 2, 5, 8, 9, 12, 17, 33] {
        for cols in [1usize, 2, 5, 6, 7, 9, 12, 17, 33] {
            for rows in [1usize, 2, 40] {
                wide.push((files, cols, rows));
            }
        }
    }
    wide.extend([(2, 2, 3000), (1, 3, 9000), (3, 1, 70_000), (100, 2, 2)]);
    let (wide, base2) = (&wide, &base);
    for q in par(wide.len() as u64, |p, i| {
        let (files, cols, rows) = wide[i as usize];
        let dir = base2.join(format!("w{i}"));
        let y: Vec<String> = (0..cols).map(|c| format!("q{}_{c}", (c * 7) % 10)).collect();
        let value = |f: usize, r: usize, c: usize| (f * 1_000_003 + r * 101 + c * 13) as f64 * 0.125 - 1000.0;
        let text = |f: usize, from: usize, to: usize| (from..to).map(|r| (0..cols).map(|c| value(f, r, c).to_string()).chain([format!("{r}.25")]).collect::<Vec<_>>().join(",") + "\n").collect::<String>();
        let file = |f: usize| dir.join(format!("run_{f}/s.csv"));
        let create = |f: usize| {
            std::fs::create_dir_all(file(f).parent().unwrap()).unwrap();
            std::fs::write(file(f), y.join(",") + ",t\n" + &text(f, 0, rows)).unwrap();
        };
        let start = files.div_ceil(2);
        (0..start).for_each(create);
        let given = y.join(",");
        let target = dir.join("run_*/s.csv").to_string_lossy().to_string();
        let what = || format!("{start} runs, then {files}; {cols} columns, {rows} rows and one more");
        let mut v = match Viewer::start(&[&target, "t", &given]) {
            Ok(Some(v)) => v,
            e => {
                p.fail("wide-start", || format!("{}: {:?}", what(), e.map(|v| v.is_some())));
                return;
            }
        };
        p.states += 1;
        p.traces += 1;
        for round in 0..3 {
            p.step();
            if round == 1 {
                (start..files).for_each(create);
            }
            if round == 2 {
                for f in 0..files {
                    use std::io::Write;
                    std::fs::OpenOptions::new().append(true).open(file(f)).unwrap().write_all(text(f, rows, rows + 1).as_bytes()).unwrap();
                }
            }
            v.frame(2.0, vec![]);
            let s = v.frame(0.001, vec![]);
            let (nf, nr) = (if round == 0 { start } else { files }, if round == 2 { rows + 1 } else { rows });
            let said: (Option<usize>, Option<usize>) = (s.says("Points(total): ").and_then(|x| x.parse().ok()), s.says("Sources: ").and_then(|x| x.parse().ok()));
            p.check(said == (Some(nf * nr), Some(nf)), "wide-counts", || format!("{}: round {round} says {said:?} points and sources", what()));
            let lines: BTreeMap<&str, &Vec<[f64; 2]>> = s.plots.last().map(|x| x.lines.iter().map(|(n, l)| (n.as_str(), l)).collect()).unwrap_or_default();
            p.check(lines.len() == nf * cols, "wide-lines", || format!("{}: round {round} draws {} lines", what(), lines.len()));
            for f in 0..nf {
                for c in 0..cols {
                    let want = (0..nr).map(|r| [r as f64 + 0.25, value(f, r, c)]);
                    let name = format!("run_{f}::{}", y[c]);
                    let ok = lines.get(name.as_str()).is_some_and(|l| l.len() == nr && l.iter().copied().eq(want));
                    if !p.check(ok, "wide-line", || format!("{}: round {round}: {name} is not drawn as its file says", what())) {
                        return;
                    }
                }
            }
            p.outcomes.insert(hs(&format!("wide {nf} {cols} {nr}")));
        }
        // unticking one column takes away its lines only, ticking it again brings them back
        for round in 3..5 {
            p.step();
            let b = v.frame(0.001, vec![]).boxes(&y[0]);
            if !p.check(b.len() == 1, "wide-box", || format!("{}: {} boxes for {}", what(), b.len(), y[0])) {
                return;
            }
            v.click(b[0].0);
            let s = v.frame(0.001, vec![]);
            let got: BTreeMap<&str, &Vec<[f64; 2]>> = s.plots.last().map(|x| x.lines.iter().map(|(n, l)| (n.as_str(), l)).collect()).unwrap_or_default();
            let first = round - 3;
            let ok = (0..files).all(|f| {
                (1 - first..cols).all(|c| got.get(format!("run_{f}::{}", y[c]).as_str()).is_some_and(|l| l.len() == rows + 1 && (0..=rows).all(|r| l[r] == [r as f64 + 0.25, value(f, r, c)])))
            });
            p.check(ok && got.len() == files * (cols - 1 + first), "wide-click", || format!("{}: after {} clicks on {} the lines are {:?}", what(), first + 1, y[0], got.keys().take(200).collect::<Vec<_>>()));
        }
        let _ = std::fs::remove_dir_all(&dir);
    }) {
        r.absorb(q);
    }
    r.section("many runs, columns and rows");
    // the argument list
    let dir = base.join("args");
    std::fs::create_dir_all(dir.join("run_7")).unwrap();
    let f = dir.join("run_7/a.csv");
    std::fs::write(&f, "t,pos_x,b_y_c,_y[m]\n1,2,3,4\n2,3,4,5\n").unwrap();
    let f = f.to_string_lossy().to_string();
    let hit = dir.join("run_*/?.csv").to_string_lossy().to_string();
    let miss = dir.join("none_*/x.csv").to_string_lossy().to_string();
    let sources = [f.as_str(), hit.as_str(), miss.as_str()];
    let xs = ["t", "absent"];
    let ys = ["", "pos_x", "pos_x,b_y_c", " b_y_c , pos_x ,", "absent"];
    let hzs = ["", "5", "0", "-3", "0.001", "1000", "fast"];
    let mut w = words(sources.len() * xs.len() * ys.len() * hzs.len(), 1);
    while let Some(k) = w.next() {
        let k = k[0];
        let (s, x, y, hz) = (sources[k % 3], xs[k / 3 % 2], ys[k / 6 % 5], hzs[k / 30]);
        let mut args = vec![s, x];
        args.extend((!y.is_empty()).then_some(y));
        args.extend((!hz.is_empty()).then_some(hz));
        r.step();
        r.trace();
        r.states_distinct(1);
        let words_as_columns = y.is_empty() && hz == "fast";
        let bad = s == miss || x == "absent" || y == "absent" || words_as_columns;
        match Viewer::start(&args) {
            Err(_) => {
                r.check(bad, "args", || format!("{args:?} is refused"));
            }
            Ok(None) => r.fail("args", || format!("{args:?} starts nothing")),
            Ok(Some(mut v)) => {
                if !r.check(!bad, "args", || format!("{args:?} is accepted")) {
                    continue;
                }
                let s = v.frame(2000.0, vec![]);
                let s = if s.plots.is_empty() { v.frame(0.001, vec![]) } else { s };
                let s2 = v.frame(0.001, vec![]);
                let _ = s;
                let want: BTreeSet<String> = y.split(',').map(|c| c.trim().to_string()).filter(|c| !c.is_empty()).collect();
                let got: BTreeSet<String> = s2.plots.last().map(|p| p.lines.iter().map(|l| l.0.strip_prefix("run_7::").unwrap_or(&l.0).to_string()).collect()).unwrap_or_default();
                let hz_want = hz.parse::<f64>().unwrap_or(5.0).max(0.1);
                let said = s2.says("Poll: ").and_then(|t| t.trim_end_matches(" Hz").parse::<f64>().ok());
                r.check(said.is_some_and(|h| (h - hz_want).abs() <= 0.006), "rate", || format!("{args:?}: polls at {said:?} Hz"));
                r.check(if want.is_empty() { !got.is_empty() } else { got == want }, "args-columns", || format!("{args:?} plots {got:?}"));
            }
        }
    }
    for args in [&[][..], &["a.csv"][..]] {
        let ok = matches!(Viewer::start(args), Ok(None));
        r.check(ok, "usage", || format!("{args:?} starts something or fails"));
    }
    r.section("every argument list");
    r.bounds.push(format!("12 starting situations (values of the order 1e-18 to 1e12) over four sets of column names, all words of length {len} over ticking 4 boxes, rows for two runs and new runs of two kinds (at most two new runs), 4 columns; 220 situations of up to 100 runs, 33 columns, 70000 rows; 210 argument lists"));
    r.assumptions.push("eframe and egui_plot are stood in for: no window is opened and plotted lines are written down; egui itself is real, driven by pointer events; the process clock is advanced by the harness".into());
    AHEAD.with(|a| a.set(0));
    let _ = std::fs::remove_dir_all(&base);
}
