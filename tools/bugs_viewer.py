import bugkit, os, shutil
from bugkit import bug, SEED
F = 'crates/aether_viz/src/bin/csv_tail_egui.rs'
DEMO = '''#!/bin/bash
# builds the viewer of the current directory over recording stand-ins of eframe and egui_plot and runs it without a window
here="$(cd "$(dirname "$0")" && pwd)"; repo="$PWD"
export HOME=/root PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=nightly-2026-04-01 CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
tmp="$(mktemp -d)"; trap 'rm -rf "$tmp"' EXIT
mkdir "$tmp/src"; cp "$repo/Cargo.lock" "$tmp/Cargo.lock"; cp -r "$here/eframe" "$here/egui_plot" "$tmp/"
sed "s#@REPO@#$repo#" "$here/main.rs" > "$tmp/src/main.rs"
sed "s#@REPO@#$repo#" "$here/Cargo.toml.in" > "$tmp/Cargo.toml"
cd "$tmp" && export CARGO_TARGET_DIR="$tmp/target" TMPDIR="$tmp" && cargo build -q --offline >/dev/null 2>"$tmp/log" || { tail -20 "$tmp/log"; exit 3; }
timeout 120 "$tmp/target/debug/demo"
'''
PRE = r'''
mod viewer {
    mod std {
        pub use ::std::*;
        pub mod env {
            pub use ::std::env::*;
            pub fn args() -> ::std::vec::IntoIter<String> {
                crate::ARGS.with(|a| a.borrow().clone()).into_iter()
            }
        }
    }
    include!("@REPO@/crates/aether_viz/src/bin/csv_tail_egui.rs");
    pub fn run() {
        main().unwrap()
    }
}
use egui::*;
thread_local! { pub static ARGS: std::cell::RefCell<Vec<String>> = Default::default(); }
struct V { app: Box<dyn eframe::App>, ctx: Context, f: eframe::Frame, t: f64 }
impl V {
    fn start(args: &[&str]) -> V {
        ARGS.with(|a| *a.borrow_mut() = args.iter().map(|s| s.to_string()).collect());
        viewer::run();
        let ctx = Context::default();
        V { app: eframe::APP.with(|a| a.borrow_mut().take()).unwrap(), ctx, f: eframe::Frame::stand_in(), t: 0.0 }
    }
    fn show(&mut self, events: Vec<Event>) -> Vec<(String, Pos2)> {
        self.t += 0.01;
        egui_plot::DRAWN.with(|d| d.borrow_mut().clear());
        let input = RawInput { screen_rect: Some(Rect::from_min_size(pos2(0.0, 0.0), vec2(1600.0, 1200.0))), time: Some(self.t), events, ..Default::default() };
        let (app, f) = (&mut self.app, &mut self.f);
        let out = self.ctx.run(input, |c| app.update(c, f));
        let mut texts = vec![];
        fn walk(s: &Shape, t: &mut Vec<(String, Pos2)>) {
            match s {
                Shape::Vec(v) => v.iter().for_each(|s| walk(s, t)),
                Shape::Text(x) => t.push((x.galley.text().to_string(), x.pos)),
                _ => (),
            }
        }
        out.shapes.iter().for_each(|s| walk(&s.shape, &mut texts));
        texts
    }
    /// clicks the right-most box with this name
    fn click(&mut self, name: &str) {
        let at = self.show(vec![]).into_iter().filter(|t| t.0 == name).map(|t| t.1).max_by(|a, b| a.x.total_cmp(&b.x)).unwrap() + vec2(3.0, 6.0);
        let b = |pressed| Event::PointerButton { pos: at, button: PointerButton::Primary, pressed, modifiers: Modifiers::NONE };
        self.show(vec![Event::PointerMoved(at)]);
        self.show(vec![b(true)]);
        self.show(vec![b(false)]);
    }
    fn wait(&mut self, s: f64) {
        std::thread::sleep(std::time::Duration::from_secs_f64(s));
        self.show(vec![]);
    }
    fn lines(&mut self) -> Vec<(String, Vec<[f64; 2]>)> {
        self.show(vec![]);
        egui_plot::DRAWN.with(|d| d.borrow().last().unwrap().lines.clone())
    }
}
fn put(dir: &std::path::Path, run: &str, text: &str) {
    std::fs::create_dir_all(dir.join(run)).unwrap();
    std::fs::write(dir.join(run).join("s.csv"), text).unwrap();
}
'''
def vbug(id, edits, main, needs, breaks):
    bug(id, 'V04', ['aether_viz'], edits, PRE + main, needs, breaks, 'eframe = { path = "eframe" }\negui_plot = { path = "egui_plot" }\nglob = "0.3"\negui = { version = "0.28.1", default-features = false, features = ["default_fonts"] }')
    for c in ('eframe', 'egui_plot'):
        shutil.copytree(f'/verif/m_viewer/{c}', f'{SEED}/{id}/{c}', dirs_exist_ok=True)
    open(f'{SEED}/{id}/demo.sh', 'w').write(DEMO)

vbug('v04-refresh-while-error',
 [(F, 'if self.last_source_refresh.elapsed() >= self.source_refresh_interval {', 'if self.last_error.is_none() && self.last_source_refresh.elapsed() >= self.source_refresh_interval {')],
 r'''
fn main() {
    let dir = std::env::temp_dir().join("d");
    put(&dir, "run_1", "t,a_y,b\n0,1,5\n1,2,6\n");
    put(&dir, "run_2", "t,a_y,b\n0,3,1\n1,4,2\n");
    let pat = dir.join("run_*/s.csv").to_string_lossy().to_string();
    let mut v = V::start(&["csv", &pat, "t", "a_y", "10"]);
    v.wait(0.2);
    // what was a file is now a directory: it cannot be read any more
    std::fs::remove_file(dir.join("run_2/s.csv")).unwrap();
    std::fs::create_dir(dir.join("run_2/s.csv")).unwrap();
    v.wait(0.3);
    put(&dir, "run_3", "t,a_y,b\n0,7,8\n1,9,10\n");
    for _ in 0..6 { v.wait(0.4); }
    let l = v.lines();
    assert!(l.contains(&("run_3::a_y".into(), vec![[0.0, 7.0], [1.0, 9.0]])), "run_3 is not drawn: {l:?}");
}
''', 'a followed file can no longer be read, so an error is showing, when a new run file appears', 'new runs are not followed as long as any error is shown')
vbug('v04-range-of-some-runs',
 [(F, '    for source in sources {\n        let xs = source.plotter.x_values();', '    for source in sources.iter().take(labels.len()) {\n        let xs = source.plotter.x_values();')],
 r'''
fn main() {
    let dir = std::env::temp_dir().join("d");
    put(&dir, "run_1", "t,p_x[km],h[m]\n0,1,100\n1,2,200\n");
    put(&dir, "run_2", "t,p_x[km],h[m]\n0,1,110\n1,2,190\n");
    put(&dir, "run_3", "t,p_x[km],h[m]\n0,0,50\n1,3,300\n");
    let pat = dir.join("run_*/s.csv").to_string_lossy().to_string();
    let mut v = V::start(&["csv", &pat, "t", "p_x[km],h[m]", "10"]);
    v.wait(0.2);
    let l = v.lines();
    let want = [("run_1::h[m]", [0.6, 1.8]), ("run_2::h[m]", [0.72, 1.68]), ("run_3::h[m]", [0.0, 3.0])];
    for (n, w) in want {
        let p = &l.iter().find(|x| x.0 == n).unwrap().1;
        assert!((p[0][1] - w[0]).abs() < 1e-9 && (p[1][1] - w[1]).abs() < 1e-9, "{n} is drawn at {p:?}, expected {w:?}");
    }
}
''', 'more runs than ticked columns, with the extreme values in a later run, and two groups of different units', 'the second group is scaled with the ranges of the first few runs only')
vbug('v04-run-name-outermost',
 [(F, '    for s in parts.iter().rev() {', '    for s in parts.iter() {')],
 r'''
fn main() {
    let dir = std::env::temp_dir().join("run_batch");
    put(&dir, "run_1", "t,a_y\n0,1\n1,2\n");
    put(&dir, "run_2", "t,a_y\n0,3\n1,4\n");
    let pat = dir.join("run_*/s.csv").to_string_lossy().to_string();
    let mut v = V::start(&["csv", &pat, "t", "a_y", "10"]);
    v.wait(0.2);
    let l: Vec<String> = v.lines().into_iter().map(|l| l.0).collect();
    assert_eq!(l, ["run_1::a_y", "run_2::a_y"]);
}
''', 'run directories inside a directory whose own name begins with run_', 'all runs are drawn under the name of the outer directory')
