from bugkit import bug
V='crates/aether_viz/src/'
D=['aether_viz']
PRE='''
use aether_viz::*;
use std::io::Write;
fn file() -> std::path::PathBuf { let d = std::env::current_dir().unwrap(); d.join("demo.csv") }
fn plotter() -> CsvRealtimePlotter {
    CsvRealtimePlotter::new(CsvRealtimeConfig { csv_path: file(), x_column: "t".into(), y_columns: vec!["a".into()], ..Default::default() })
}
fn add(s: &str) { std::fs::OpenOptions::new().append(true).create(true).open(file()).unwrap().write_all(s.as_bytes()).unwrap(); }
'''
bug('v01-trim-partial','V01',D,
 [(V+'realtime.rs','self.partial_line.push_str(last);','self.partial_line.push_str(last.trim());')],
 PRE+'''
fn main() {
    let mut p = plotter();
    add("t,a\\n1,2\\n3 ");
    p.initialize().unwrap();
    add("4,5\\n6,7\\n");
    p.update_once().unwrap();
    assert!(p.x_values() == [1.0, 6.0], "{:?}", p.x_values());
}
''','a line that is cut right after a blank inside a cell','the two halves are glued together: a malformed row becomes a value')
bug('v02-stat-length','V02',D,
 [(V+'realtime.rs','if current.len < self.file_pos {','if current.len < previous.len {')],
 PRE+'''
// a writer that appends while the poll is between its stat and its last read
#[unsafe(no_mangle)]
pub unsafe extern "C" fn read(fd: i32, buf: *mut u8, n: usize) -> isize {
    unsafe extern "C" { fn syscall(n: i64, ...) -> i64; }
    if ARMED.swap(false, std::sync::atomic::Ordering::SeqCst) { add("5,6\\n"); }
    unsafe { syscall(0, fd, buf, n) as isize }
}
static ARMED: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
fn main() {
    let mut p = plotter();
    add("t,a\\n1,2\\n");
    p.initialize().unwrap();
    add("3,4\\n");
    ARMED.store(true, std::sync::atomic::Ordering::SeqCst);
    p.update_once().unwrap();
    ARMED.store(false, std::sync::atomic::Ordering::SeqCst);
    let all = std::fs::read_to_string(file()).unwrap();
    // cut the last character off in place
    std::fs::OpenOptions::new().write(true).open(file()).unwrap().set_len(all.len() as u64 - 3).unwrap();
    p.update_once().unwrap();
    p.update_once().unwrap();
    assert!(p.x_values() == [1.0, 3.0], "{:?}", p.x_values());
}
''','an append between the stat and the read of one poll, and then a cut in place that leaves the file no shorter than at that stat','the shrinking is not noticed and the rows that were cut stay')
bug('v03-negative-bounds','V03',D,
 [(V+'lib.rs','''    let mut y_max = f64::NEG_INFINITY;
    for s in &prepared {''','''    let mut y_max = f64::MIN_POSITIVE;
    for s in &prepared {''')],
 '''
use aether_viz::*;
fn main() {
    let out = std::env::current_dir().unwrap().join("demo.svg");
    for ys in [[1.0, 3.0, 2.0], [-101.0, -103.0, -102.0]] {
        plot(&[0.0, 1.0, 2.0], &ys, "t", None, None, out.to_str(), PlotStyle::Points).unwrap();
        let svg = std::fs::read_to_string(&out).unwrap();
        let cy: Vec<f64> = svg.split("cy=\\"").skip(1).map(|s| s[..s.find('"').unwrap()].parse().unwrap()).collect();
        let (lo, hi) = cy.iter().fold((1e9f64, 0f64), |a, y| (a.0.min(*y), a.1.max(*y)));
        assert!(cy.len() == 3 && hi - lo > 700.0, "{ys:?}: {cy:?}");
    }
}
''','series whose values are all negative','the chart always includes zero: the curve is squashed to a line at the bottom')
