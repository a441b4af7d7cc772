//! V01 histories of a tailed CSV file, V02 interleavings of a poll with the writer.
mod draw;
mod sys;
use aether_viz::{CsvRealtimeConfig, CsvRealtimePlotter};
use mckit::{Part, Run, h, hs, par};
use std::cell::Cell;
use std::fs::{self, File, OpenOptions};
use std::io::Write;
use std::path::{Path, PathBuf};
use std::rc::Rc;
use std::sync::atomic::{AtomicU64, Ordering};

// ---------------------------------------------------------------- the file
pub fn scratch() -> PathBuf {
    let base = if Path::new("/dev/shm").is_dir() { PathBuf::from("/dev/shm") } else { std::env::temp_dir() };
    let d = base.join(format!("aether_mc_{}", std::process::id()));
    let _ = fs::create_dir_all(&d);
    d
}
static NEXT: AtomicU64 = AtomicU64::new(0);
thread_local! { pub static LANE: u64 = NEXT.fetch_add(1, Ordering::Relaxed); }

/// A file under test and all contents it has had.
struct Disk {
    path: PathBuf,
    tmp: PathBuf,
    data: Option<Vec<u8>>,
    past: Vec<Vec<u8>>,
    keep: Vec<File>, // open handles of replaced files, so that their inode numbers are not reused
    reuse: i64,      // when not zero inode numbers are reused, and a new file's birth is this much later
}
impl Drop for Disk {
    fn drop(&mut self) {
        sys::BORN.with(|b| b.set(None));
    }
}
impl Disk {
    fn new(dir: &Path) -> Disk {
        let lane = LANE.with(|l| *l);
        let path = dir.join(format!("f{lane}.csv"));
        let _ = fs::remove_file(&path);
        Disk { tmp: dir.join(format!("f{lane}.new")), path, data: None, past: vec![], keep: vec![], reuse: 0 }
    }
    fn born(&mut self) {
        if self.reuse != 0 {
            sys::BORN.with(|b| b.set(Some(b.get().unwrap_or(0) + self.reuse)));
        }
    }
    fn note(&mut self) {
        if let Some(d) = &self.data {
            self.past.push(d.clone());
        }
    }
    fn append(&mut self, b: &[u8]) {
        if self.data.is_none() {
            self.born();
        }
        let mut f = OpenOptions::new().append(true).create(true).open(&self.path).unwrap();
        f.write_all(b).unwrap();
        self.data.get_or_insert_default().extend_from_slice(b);
        self.note();
    }
    fn truncate(&mut self, n: usize) {
        if let Some(d) = &mut self.data {
            let n = n.min(d.len());
            OpenOptions::new().write(true).open(&self.path).unwrap().set_len(n as u64).unwrap();
            d.truncate(n);
            self.note();
        }
    }
    fn replace(&mut self, b: &[u8]) {
        self.born();
        if let Ok(f) = File::open(&self.path) {
            self.keep.push(f);
        }
        fs::write(&self.tmp, b).unwrap();
        fs::rename(&self.tmp, &self.path).unwrap();
        self.data = Some(b.to_vec());
        self.note();
    }
    /// Some past content was not text (apart from a character cut off at the end).
    fn garbled(&self) -> bool {
        self.past.iter().any(|d| std::str::from_utf8(d).is_err_and(|e| e.error_len().is_some()))
    }
    fn delete(&mut self) {
        if let Ok(f) = File::open(&self.path) {
            self.keep.push(f);
            fs::remove_file(&self.path).unwrap();
        }
        self.data = None;
    }
}

// ---------------------------------------------------------------- the model
#[derive(Clone, Debug, PartialEq, Default)]
struct Table {
    headers: Vec<String>,
    xs: Vec<f64>,
    ys: Vec<Vec<f64>>,
    bad: bool, // a selected column does not exist
}
#[derive(Clone)]
struct View {
    x: &'static str,
    y: Vec<&'static str>,
    header: bool,
    max: Option<usize>,
}
/// Everything the complete lines of a file say.
fn table(bytes: &[u8], v: &View) -> Table {
    let mut t = Table { ys: vec![vec![]; v.y.len()], ..Default::default() };
    let end = bytes.iter().rposition(|b| *b == b'\n').map_or(0, |i| i + 1);
    let text = std::str::from_utf8(&bytes[..end]).unwrap();
    let mut cols: Option<(usize, Vec<usize>)> = None;
    if !v.header {
        cols = Some((v.x.parse().unwrap(), v.y.iter().map(|y| y.parse().unwrap()).collect()));
    }
    for line in text.split('\n') {
        let line = line.trim();
        if line.is_empty() {
            continue;
        }
        let cells: Vec<&str> = line.split(',').map(str::trim).collect();
        let Some((xi, yi)) = &cols else {
            t.headers = cells.iter().map(|s| s.to_string()).collect();
            let find = |n: &str| cells.iter().position(|c| *c == n);
            let y: Vec<_> = v.y.iter().filter_map(|n| find(n)).collect();
            match find(v.x) {
                Some(x) if y.len() == v.y.len() => cols = Some((x, y)),
                _ => {
                    t.bad = true;
                    return t;
                }
            }
            continue;
        };
        let num = |i: &usize| cells.get(*i).and_then(|s| s.parse::<f64>().ok()).filter(|x| x.is_finite());
        if let (Some(x), Some(y)) = (num(xi), yi.iter().map(num).collect::<Option<Vec<f64>>>()) {
            t.xs.push(x);
            for (c, y) in t.ys.iter_mut().zip(y) {
                c.push(y);
            }
        }
    }
    if let Some(m) = v.max {
        let n = t.xs.len().saturating_sub(m);
        t.xs.drain(..n);
        t.ys.iter_mut().for_each(|c| {
            c.drain(..n);
        });
    }
    t
}
fn seen(p: &CsvRealtimePlotter) -> Table {
    Table { headers: p.available_columns().to_vec(), xs: p.x_values().to_vec(), ys: p.y_values().to_vec(), bad: false }
}
fn plotter(d: &Disk, v: &View) -> CsvRealtimePlotter {
    CsvRealtimePlotter::new(CsvRealtimeConfig {
        csv_path: d.path.clone(),
        x_column: v.x.into(),
        y_columns: v.y.iter().map(|s| s.to_string()).collect(),
        has_header: v.header,
        max_points: v.max,
        ..Default::default()
    })
}
fn show(b: &[u8]) -> String {
    String::from_utf8_lossy(b).escape_debug().to_string()
}

// ---------------------------------------------------------------- V01
#[derive(Clone, Debug)]
enum Op {
    Append(&'static [u8]),
    Empty,          // truncate in place to nothing
    Cut(usize),     // cut so many bytes off the end in place
    Half,           // truncate in place to half
    Replace(&'static [u8]), // by rename
    Delete,
    Poll,
    Init,
    Pick(&'static [&'static str]),
}
use Op::*;

/// Run one history; compares after every operation that reads the file.
fn history(p: &mut Part, dir: &Path, view: &View, reuse: i64, ops: &[&Op]) {
    let mut d = Disk::new(dir);
    d.reuse = reuse;
    let mut v = view.clone();
    let mut pl = plotter(&d, &v);
    let brief = |s: String| if s.len() > 3000 { s.chars().take(1000).chain("...".chars()).chain(s.chars().skip(s.chars().count() - 500)).collect() } else { s };
    let what = |d: &Disk| format!("{} (max {:?}, header {}, inode reuse {reuse}): file is now {}", brief(format!("{ops:?}")), view.max, view.header, brief(format!("{:?}", d.data.as_deref().map(show))));
    let mut polled = 0usize; // length at the last look
    let mut torn = 0; // bytes of an unfinished character at its end
    let mut low = usize::MAX; // shortest length since, in place
    let mut rows = Table { ys: vec![vec![]; v.y.len()], ..Default::default() };
    let mut dead = false; // the columns were missing when last looked at
    for op in ops {
        let before = seen(&pl);
        let looked = match op {
            Append(b) => {
                d.append(b);
                None
            }
            Empty | Half | Cut(_) => {
                let len = d.data.as_ref().map_or(0, |x| x.len());
                let n = match op {
                    Empty => 0,
                    Half => len / 2,
                    Cut(k) => len.saturating_sub(*k),
                    _ => unreachable!(),
                };
                // keep the file valid UTF-8 up to a torn end
                d.truncate(n);
                if d.data.is_some() {
                    low = low.min(n);
                }
                None
            }
            Replace(b) => {
                d.replace(b);
                low = usize::MAX;
                polled = 0;
                None
            }
            Delete => {
                d.delete();
                low = usize::MAX;
                polled = 0;
                None
            }
            Poll | Init | Pick(_) => {
                let len = d.data.as_ref().map_or(0, |x| x.len());
                if low < polled && len + torn >= polled {
                    return; // shrunk and grown back in place between looks: not detectable, not promised
                }
                Some(match op {
                    Pick(y) => {
                        v.y = y.to_vec();
                        rows = Table { ys: vec![vec![]; y.len()], ..Default::default() };
                        dead = false;
                        pl.set_y_columns(y.iter().map(|s| s.to_string()).collect()).map(|_| true)
                    }
                    Init => {
                        rows = Table { ys: vec![vec![]; v.y.len()], ..Default::default() };
                        dead = false;
                        pl.initialize().map(|_| true)
                    }
                    _ => pl.update_once(),
                })
            }
        };
        p.step();
        if d.garbled() {
            return;
        }
        let Some(res) = looked else { continue };
        if let Some(b) = &d.data {
            rows = table(b, &v);
            polled = b.len();
            // a character still in pieces is read when it is whole
            torn = std::str::from_utf8(b).map_or_else(|e| b.len() - e.valid_up_to(), |_| 0);
            low = usize::MAX;
        }
        let now = seen(&pl);
        let same_file = now.headers == before.headers && now.ys.len() == before.ys.len();
        if rows.bad {
            // Reported when first seen; never rows of some of the columns.
            if !dead {
                p.check(res.is_err(), "missing-column", || format!("{}: a missing column was not reported", what(&d)));
            }
            dead = true;
            p.check(now.xs.is_empty() && now.ys.iter().all(|c| c.is_empty()), "missing-column-rows", || format!("{}: columns are missing, yet the rows are {now:?}", what(&d)));
            continue;
        }
        dead = false;
        match &res {
            Err(e) => p.fail("poll-error", || format!("{}: {e}", what(&d))),
            Ok(changed) => {
                let diff = now.xs != before.xs || now.ys != before.ys;
                p.check(*changed || !diff || !same_file, "unreported-change", || format!("{}: rows changed from {} to {} but the poll returned false", what(&d), brief(format!("{before:?}")), brief(format!("{now:?}"))));
            }
        }
        p.check(pl.selected_y_columns() == v.y, "selected", || format!("{}: the columns {:?} are said to be selected", what(&d), pl.selected_y_columns()));
        if !p.check(now == rows, "rows", || format!("{}: shows {}, the file says {}", what(&d), brief(format!("{now:?}")), brief(format!("{rows:?}")))) {
            return;
        }
        p.outcomes.insert(hs(&format!("{now:?}")));
    }
    p.states += 1;
    p.traces += 1;
}
fn v01(r: &mut Run) {
    let dir = scratch();
    let views = [
        View { x: "t", y: vec!["a"], header: true, max: None },
        View { x: "t", y: vec!["b", "a"], header: true, max: Some(2) },
        View { x: "b", y: vec!["t"], header: true, max: Some(0) },
        View { x: "t", y: vec!["b b"], header: true, max: None },
    ];
    // 1. every way of delivering a short file in pieces
    let texts: [&[u8]; 4] = [
        "t,a,b b\n1,2,3\r\n4,é\n5 6,7,8\n5,6,7".as_bytes(),
        "\n t , a ,b,µ\r\n\n1, 2 ,3\r\nnan,1,1\n2,2\n-3,4e1,5,6\n".as_bytes(),
        "t,a,b\n1,inf,3\n1,x,3\n,,\n7,8,9\n7,8,10\n\n\r\n\n0.5,-0,+1\n".as_bytes(),
        "b,€𝄞,t,a\n1,2,3,4\n5,6,7,8\n9,1,2,3\nx\n4,5,6,7\n".as_bytes(),
    ];
    for (k, text) in texts.iter().enumerate() {
        let n = text.len();
        let mut cuts: Vec<Vec<usize>> = vec![vec![], (1..n).collect()];
        for a in 0..n {
            cuts.push(vec![a]);
            for b in a..n {
                cuts.push(vec![a, b]);
                if r.thorough || k == 0 {
                    for c in b + 1..n {
                        cuts.push(vec![a, b, c]);
                    }
                }
            }
        }
        let (cuts, dir, views) = (&cuts, &dir, &views);
        let total = cuts.len() as u64 * 6;
        for q in par(total, |p, i| {
            let (cut, v, init) = (&cuts[(i / 6) as usize], &views[if k == 0 && i % 3 == 2 { 3 } else { i % 3 } as usize], i % 6 < 3);
            let mut ops = if init { vec![Init] } else { vec![] };
            let mut at = 0;
            for c in cut.iter().chain([&n]) {
                let piece: &'static [u8] = &text[at..*c];
                ops.push(Append(piece));
                ops.push(Poll);
                at = *c;
            }
            history(p, dir, v, 0, &ops.iter().collect::<Vec<_>>());
        }) {
            r.absorb(q);
        }
    }
    r.section("every delivery of a file in up to three or four pieces, and byte by byte");
    // 2. every subset of cut positions of a small file
    let small = "t,a\n1,2\r\né,3\n4,5\n".as_bytes();
    let n = small.len();
    let dir2 = &dir;
    let view = View { x: "t", y: vec!["a"], header: true, max: None };
    for q in par(1 << (n - 1), |p, mask| {
        let mut ops = vec![];
        let mut at = 0;
        for c in 1..=n {
            if c == n || mask >> (c - 1) & 1 == 1 {
                ops.push(Append(&small[at..c]));
                ops.push(Poll);
                at = c;
            }
        }
        history(p, dir2, &view, 0, &ops.iter().collect::<Vec<_>>());
    }) {
        r.absorb(q);
    }
    r.section("every set of cuts of a small file");
    // names and cells of every kind
    let names: [&'static str; 16] = ["#t", "\"t\"", "t;a", "a\tb", "//x", "\u{feff}t", "'t", "t=1", "-1", "nan", "0", "#", "%", "A", "t[0]", "t (s)"];
    let cells: [&'static str; 30] = ["1e3", "+1", ".5", "5.", "1_0", "0x10", "inf", "-inf", "NaN", "-0", "1e400", "-1e-400", "#1", "\"1\"", "1 2", "1.0f", "1d3", "1E-3", "", "-", "e", "1;2", "\u{661}", "true", "1\u{a0}", "\t7", "//", "infinity", "1e308", "0.1"];
    let dir2 = &dir;
    for q in par((names.len() * names.len() * 2) as u64, |p, i| {
        let (byte, i) = (i % 2 == 1, i as usize / 2);
        let (x, y) = (names[i % names.len()], names[i / names.len()]);
        if x == y {
            return;
        }
        let mut text = format!("{x},q,{y}\n1,2,3\n");
        for c in cells {
            text += &format!("{c},0,{c}\n5,{c},6\n{c},0,1\n1,0,{c}\n");
        }
        for k in 0..names.len() {
            text += &format!("{}\n{},2,3\n", names[k], names[k]);
        }
        let text: &'static str = Box::leak(text.into_boxed_str());
        let view = View { x, y: vec![y], header: true, max: if i % 3 == 0 { Some(7) } else { None } };
        let b = text.as_bytes();
        let mut ops = vec![];
        let step = if byte { 1 + i % 5 } else { b.len() };
        for c in b.chunks(step) {
            ops.push(Append(c));
            ops.push(Poll);
        }
        if byte {
            ops.truncate(400);
        }
        history(p, dir2, &view, 0, &ops.iter().collect::<Vec<_>>());
    }) {
        r.absorb(q);
    }
    r.section("names and cells of unusual characters");
    // a file that is being followed is cut in place by every number of bytes, and grows again
    let texts = texts.iter().copied().chain([small]).collect::<Vec<_>>();
    for text in &texts {
        let n = text.len();
        let (dir, views) = (&dir, &views);
        for q in par((n * (n + 1)) as u64 * 12, |p, i| {
            let (mode, i) = (i % 12, i as usize / 12);
            let (cut, back) = (1 + i / (n + 1), i % (n + 1));
            if back > cut {
                return;
            }
            let more: &'static [u8] = if mode / 3 % 2 == 0 { &text[n - cut..n - cut + back] } else { &[b"7,8,9\n", b",6,\n1\n2".as_slice()][i % 2][..] };
            let mut ops = vec![Append(text), Poll, Cut(cut), Poll, Append(more), Poll];
            if mode >= 6 {
                ops.insert(0, Init);
            }
            history(p, dir, &views[mode as usize % 3], 0, &ops.iter().collect::<Vec<_>>());
        }) {
            r.absorb(q);
        }
    }
    r.section("a followed file cut by every number of bytes and grown again");
    // 3. all histories
    let alpha: Vec<Op> = vec![
        Poll,
        Append(b"t,a,b\n"),
        Append(b"1,2,3\n"),
        Append(b"4,5"),
        Append(b",6\r\n7,8,9\n"),
        Append("é".as_bytes()),
        Append(&[0xc3]),
        Append(&[0xa9, b'\n']),
        Empty,
        Half,
        Replace(b"b,t,a\n3,1,2\n"),
        Replace(b"t,b\n1,2\n3,4\n5,6\n"),
        Delete,
        Init,
        Pick(&["b"]),
        Pick(&["a", "b"]),
    ];
    let k = alpha.len() as u64;
    let len = if r.thorough { 6 } else { 5 };
    let total = k.pow(len);
    let (alpha, views, dir2) = (&alpha, &views, &dir);
    for q in par(total, |p, i| {
        let mut w: Vec<&Op> = vec![];
        let mut x = i;
        for _ in 0..len {
            w.push(&alpha[(x % k) as usize]);
            x /= k;
        }
        let pick = |o: &Op| matches!(o, Pick(_) | Poll);
        if w.windows(2).any(|t| pick(t[0]) && pick(t[1]) && matches!(t[0], Pick(_))) {
            return;
        }
        w.push(&Poll);
        history(p, dir2, &views[0], i as i64 % 3 - 1, &w);
        if i % 3 == 0 {
            // the same history on a file that is already being followed, with a bounded window
            let pre = [Append(b"a,b,t\n1,2,3\n4,5,6\n"), Poll, Append(b"7,8,9\n"), Poll];
            let mut w2: Vec<&Op> = pre.iter().collect();
            w2.extend(w.iter());
            history(p, dir2, &views[1], i as i64 / 3 % 3 - 1, &w2);
        }
    }) {
        r.absorb(q);
    }
    r.section("every history of appends, truncations, replacements, deletions, polls and column changes");
    // 4. no header: columns by number
    let nv = [View { x: "1", y: vec!["0", "2"], header: false, max: None }, View { x: "0", y: vec!["1"], header: false, max: Some(3) }];
    let beta: Vec<Op> = vec![Poll, Append(b"1,2,3\n"), Append(b"4,"), Append(b"5,6\n"), Append(b"\n"), Append(b"h,i\n"), Empty, Replace(b"9,8,7\n6,5,4\n"), Delete];
    let k = beta.len() as u64;
    let (beta, nv) = (&beta, &nv);
    for q in par(k.pow(len), |p, i| {
        let mut w: Vec<&Op> = vec![];
        let mut x = i;
        for _ in 0..len {
            w.push(&beta[(x % k) as usize]);
            x /= k;
        }
        w.push(&Poll);
        history(p, dir2, &nv[(i % 2) as usize], i as i64 / 2 % 3 - 1, &w);
    }) {
        r.absorb(q);
    }
    r.section("every history of a file without header");
    // 5. large files: many rows, wide rows, long cells, every window size and cut around the usual buffer sizes
    let leak = |s: String| -> &'static [u8] { Box::leak(s.into_bytes().into_boxed_slice()) };
    let name = |c: usize| -> &'static str { Box::leak(format!("c{c}").into_boxed_str()) };
    // row r, column c: a number that needs all its digits
    let cell = |r: usize, c: usize| ((r * 1009 + c * 7 + 1) as f64 / 3.0 - 11.0).to_string();
    let make = |rows: usize, cols: usize, wide: usize| -> &'static [u8] {
        let mut t = (0..cols).map(|c| format!("c{c}")).collect::<Vec<_>>().join(",") + "\n";
        for r in 0..rows {
            t += &(0..cols).map(|c| format!("{}{:wide$}", cell(r, c), if r % 3 == 1 && c == 0 { "" } else { " " })).collect::<Vec<_>>().join(",");
            t += if r % 5 == 2 { "\r\n" } else { "\n" };
        }
        leak(t)
    };
    let mut jobs: Vec<(View, Vec<Op>)> = vec![];
    let sizes: &[usize] = if r.thorough { &[10, 300, 3000, 30_000, 250_000] } else { &[10, 300, 3000, 60_000] };
    for &rows in sizes {
        let text = make(rows, 3, 0);
        let n = text.len();
        let mut windows = vec![None, Some(0), Some(1), Some(rows - 1), Some(rows), Some(rows + 1)];
        if rows < 5000 {
            windows.extend([2, 3, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 500, 1000, 1023, 1024, 1025, 2000].map(Some));
        }
        for max in windows {
            let v = View { x: name(1), y: vec![name(2), name(0)], header: true, max };
            jobs.push((v.clone(), vec![Append(text), Poll, Poll]));
            jobs.push((v, vec![Append(&text[..n / 3]), Init, Append(&text[n / 3..]), Poll]));
        }
        let v = View { x: name(0), y: vec![name(1), name(2)], header: true, max: None };
        for m in [255usize, 256, 1023, 1024, 4095, 4096, 8191, 8192, 16384, 32768, 65535, 65536, 131_072, 262_144, 1 << 20, 2 << 20, 4 << 20] {
            for c in [m - 1, m, m + 1] {
                if c < n {
                    jobs.push((v.clone(), vec![Append(&text[..c]), Poll, Append(&text[c..]), Poll]));
                    jobs.push((v.clone(), vec![Append(b"c0,c1,c2\n1,2,3\n"), Poll, Append(&text[n - c..]), Poll, Append(b"7,8,9\n"), Poll]));
                }
            }
        }
    }
    for cols in [2usize, 5, 8, 9, 10, 16, 17, 18, 32, 33, 64, 65, 100, 128, 129, 256, 257, 1000] {
        let text = make(12, cols, 0);
        let n = text.len();
        let mut picks: Vec<(usize, Vec<usize>)> = vec![(0, (1..cols).collect()), (cols - 1, (0..cols).rev().collect()), (cols / 2, vec![cols - 1])];
        for c in 0..cols.min(40) {
            picks.push((c, vec![cols - 1 - c, c]));
        }
        for (x, y) in picks {
            for max in [None, Some(5)] {
                let v = View { x: name(x), y: y.iter().map(|c| name(*c)).collect(), header: true, max };
                jobs.push((v.clone(), vec![Append(&text[..n / 2]), Poll, Append(&text[n / 2..]), Poll]));
                if max.is_none() && x < 3 {
                    let v = View { x: Box::leak(x.to_string().into_boxed_str()), y: y.iter().map(|c| &name(*c)[1..]).collect(), header: false, max };
                    jobs.push((v, vec![Append(&text[..n / 2]), Poll, Append(&text[n / 2..]), Poll]));
                }
            }
        }
    }
    // long cells, long names, long lines that are no rows; the tail of a line arriving in many pieces
    for wide in [10usize, 60, 120, 250, 500, 1000, 4000, 9000, 60_000] {
        let text = make(4, 3, wide);
        let n = text.len();
        let v = View { x: name(0), y: vec![name(2), name(1)], header: true, max: None };
        jobs.push((v.clone(), vec![Append(text), Poll]));
        jobs.push((v.clone(), vec![Append(&text[..n - 3]), Poll, Append(&text[n - 3..]), Poll, Append(b"1,2,3\n"), Poll]));
        let mut ops: Vec<Op> = vec![];
        for c in text.chunks((n / 37).max(1)) {
            ops.push(Append(c));
            ops.push(Poll);
        }
        jobs.push((v.clone(), ops));
        let digits = leak(format!("c0,c1,c2,{}\n0.{},{}.5,1e0\n3,{},1\n{},4,5\n-7,8,{}9\n", "n".repeat(wide), "25".repeat(wide / 2), "0".repeat(wide), "x".repeat(wide), "µ".repeat(wide), "0".repeat(wide)));
        jobs.push((v.clone(), vec![Append(digits), Poll, Append(b"1,2,3\n"), Poll]));
        jobs.push((v, vec![Append(&digits[..digits.len() - 2]), Poll, Append(&digits[digits.len() - 2..]), Poll]));
    }
    // a long life: hundreds of looks at a file that grows line by line, with and without a window
    for max in [None, Some(1), Some(10), Some(100)] {
        let v = View { x: name(0), y: vec![name(1)], header: true, max };
        let mut ops = vec![Append(b"c0,c1\n"), Init];
        for k in 0..600usize {
            ops.push(Append(leak(format!("{},{}{}", cell(k, 0), cell(k, 1), if k % 7 == 3 { "0" } else { "\n" }))));
            if k % 7 == 3 {
                ops.push(Poll);
                ops.push(Append(b"\n"));
            }
            ops.push(Poll);
            if k % 150 == 149 {
                ops.push(if k % 300 == 149 { Replace(b"c1,c0\n1,2\n") } else { Empty });
                if k % 300 != 149 {
                    ops.push(Poll);
                    ops.push(Append(b"c0,c1\n"));
                }
                ops.push(Poll);
            }
        }
        jobs.push((v, ops));
    }
    let jobs = &jobs;
    for q in par(jobs.len() as u64, |p, i| {
        let (v, ops) = &jobs[i as usize];
        history(p, dir2, v, 0, &ops.iter().collect::<Vec<_>>());
    }) {
        r.absorb(q);
    }
    r.section("large files: rows, columns, cells and windows around every usual buffer size, hundreds of looks");
    r.bounds.push(format!("4 texts in all 1..3 (first: 4) pieces, all 2^{} cut sets of a small file, all words of length {len} over 16 and 9 operations (one third also on a followed file)", n - 1));
    r.assumptions.push("a file shrunk and grown back in place to its old length between two polls, or rewritten in place with the same length, is not distinguishable and excluded; a replacing file has another inode number or, in two thirds of the histories, the same one and a later or an earlier birth".into());
    let _ = fs::remove_dir_all(&dir);
}

// ---------------------------------------------------------------- V02
fn v02(r: &mut Run) {
    let dir = scratch();
    let view = View { x: "t", y: vec!["a"], header: true, max: None };
    let pre: [&'static [u8]; 4] = [b"", b"t,a\n1,2\n3,4\n", b"t,a\n1,2\n3,", b"t,a,u\n1,2,\xc3\xa9\n1,2,\xc3"];
    let grow: [&'static [u8]; 3] = [b"", b"5,6\n7,8\n", b"\xa9\n9,9\n"];
    let acts: Vec<Op> = vec![
        Append(b"10,11\n"),
        Append(b"t,a\n12,13\n14,15"),
        Append(b"12,"),
        Replace(b"t,a\n21,22\n"),
        Replace(b"a,t\n31,32\n33,34\n35,36\n37,38\n39,40\n41,42\n"),
        Replace(b"t,b,a\n"),
        Empty,
        Half,
        Cut(5),
        Cut(1),
        Delete,
    ];
    // one look at the file: by what, after what
    let n_look = 4usize;
    let mut cases = vec![];
    for (pi, p) in pre.iter().enumerate() {
        for (gi, g) in grow.iter().enumerate() {
            let mut all = p.to_vec();
            all.extend_from_slice(g);
            if std::str::from_utf8(&all).is_err_and(|e| e.error_len().is_some()) {
                continue;
            }
            for look in 0..n_look {
                for a in 0..acts.len() {
                    for b in 0..=acts.len() {
                        cases.push((pi, gi, look, a, b));
                    }
                }
            }
        }
    }
    let (cases, acts, dir2, view) = (&cases, &acts, &dir, &view);
    let deepest = AtomicU64::new(0);
    let thorough = r.thorough;
    for q in par(cases.len() as u64, |p, i| {
        let (pi, gi, look, a, b) = cases[i as usize];
        let second = acts.get(b);
        // only shrinking in place then growing is indistinguishable
        let shrink = |o: &Op| matches!(o, Empty | Half | Cut(_));
        let grows = |o: &Op| matches!(o, Append(_));
        if let Some(s) = second {
            if (shrink(&acts[a]) && grows(s)) || (!thorough && a > b) {
                return;
            }
        }
        for k1 in 0.. {
            let mut any = false;
            for k2 in if second.is_some() { k1..k1 + 40 } else { k1..k1 + 1 } {
                let d = Disk::new(dir2);
                let d = Rc::new(std::cell::RefCell::new(d));
                let mut pl = plotter(&d.borrow(), view);
                let mut bad = None;
                let apply = |d: &mut Disk, o: &Op| match o {
                    Append(b) => d.append(b),
                    Empty => d.truncate(0),
                    Half => {
                        let n = d.data.as_ref().map_or(0, |x| x.len() / 2);
                        d.truncate(n)
                    }
                    Cut(k) => {
                        let n = d.data.as_ref().map_or(0, |x| x.len().saturating_sub(*k));
                        d.truncate(n)
                    }
                    Replace(b) => d.replace(b),
                    Delete => d.delete(),
                    _ => unreachable!(),
                };
                if !pre[pi].is_empty() {
                    d.borrow_mut().append(pre[pi]);
                }
                if look != 2 {
                    let _ = pl.initialize();
                    let _ = pl.update_once();
                }
                if !grow[gi].is_empty() {
                    d.borrow_mut().append(grow[gi]);
                }
                if look == 1 {
                    d.borrow_mut().replace(&[pre[1], grow[gi]].concat().iter().copied().filter(|b| b.is_ascii()).collect::<Vec<_>>());
                }
                let start = seen(&pl);
                // a poll (0: following, 1: after a replacement), 2: the first load, 3: new columns
                let count = Rc::new(Cell::new(0usize));
                let names = Rc::new(std::cell::RefCell::new(vec![]));
                let (c2, d2, n2) = (count.clone(), d.clone(), names.clone());
                let (o1, o2) = (acts[a].clone(), second.cloned());
                let f = move |what: &'static str| {
                    let c = c2.get();
                    n2.borrow_mut().push(what);
                    if c == k1 {
                        apply(&mut d2.borrow_mut(), &o1);
                    }
                    if c == k2 {
                        if let Some(o) = &o2 {
                            apply(&mut d2.borrow_mut(), o);
                        }
                    }
                    c2.set(c + 1);
                };
                let (res, between, res2) = sys::explore(Box::new(f), || {
                    let r1 = match look {
                        2 => pl.initialize().map(|_| true),
                        3 => pl.set_y_columns(vec!["a".into()]).map(|_| true),
                        _ => pl.update_once(),
                    };
                    (r1, seen(&pl), pl.update_once())
                });
                let n = count.get();
                deepest.fetch_max(n as u64, Ordering::Relaxed);
                if n > k1 && (second.is_none() || n > k2) {
                    any = true;
                } else {
                    // the action was not reached
                    drop(d);
                    break;
                }
                let headless = |v: &Vec<u8>| (0..=v.len()).any(|e| table(&v[..e], view).bad);
                if d.borrow().garbled() || d.borrow().past.iter().any(headless) {
                    continue;
                }
                let trace = || format!("pre {:?}, grown by {:?}, look {look}, calls {:?}, {:?} before call {k1}, {:?} before call {k2}", show(pre[pi]), show(grow[gi]), names.borrow(), acts[a], second);
                p.step();
                p.traces += 1;
                p.states += 1;
                let now = seen(&pl);
                if let Some(e) = res.err().or(res2.err()) {
                    bad = Some(("race-error", format!("{e}")));
                }
                // what is shown is what some one version of the file said
                let said = |now: &Table| {
                    *now == start
                        || *now == Table { ys: vec![vec![]], ..Default::default() }
                        || d.borrow().past.iter().any(|v| (0..=v.len()).any(|e| (e == 0 || v[e - 1] == b'\n') && *now == table(&v[..e], view)))
                };
                let ok = said(&now) && said(&between);
                if !ok {
                    bad = Some(("race-mix", format!("shows {between:?}, then {now:?}, one of which no version of the file said")));
                }
                // the next quiet poll shows the file
                if bad.is_none() {
                    match pl.update_once() {
                        Err(e) => bad = Some(("quiet-error", format!("{e}"))),
                        Ok(_) => {
                            let d = d.borrow();
                            let now = seen(&pl);
                            if let Some(x) = &d.data {
                                let want = table(x, view);
                                if now != want {
                                    bad = Some(("stale", format!("afterwards a quiet poll shows {now:?}, the file says {want:?}")));
                                }
                            }
                        }
                    }
                }
                p.outcomes.insert(hs(&format!("{:?}", seen(&pl))));
                if let Some((key, m)) = bad {
                    p.fail(key, || format!("{}: {m}", trace()));
                }
            }
            if !any {
                break;
            }
        }
    }) {
        r.absorb(q);
    }
    let deepest = deepest.load(Ordering::Relaxed);
    r.check(deepest >= 3, "no-points", || format!("only {deepest} scheduling points were seen in a look at the file"));
    r.section("one or two writer actions before every file system call of a look (poll, first load, column change) and the poll after it");
    r.bounds.push(format!("4 x 3 starting files, 4 kinds of look, 10 writer actions alone and in pairs at every pair of the up to {deepest} calls of a look and the next poll"));
    r.assumptions.push("the system calls open, read, lseek and statx are the only points where the file matters; each is atomic".into());
    let _ = h(&[]);
    let _ = fs::remove_dir_all(&dir);
}
fn main() {
    mckit::main(&[("V01", v01), ("V02", v02), ("V03", draw::v03)])
}
