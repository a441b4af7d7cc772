//! Stand-in for egui_plot: what would be plotted in this frame is written down.
use std::cell::RefCell;
use egui::WidgetText;

#[derive(Debug, Clone, Default, PartialEq)]
pub struct Drawn {
    pub x_label: String,
    pub lines: Vec<(String, Vec<[f64; 2]>)>,
}
thread_local! { pub static DRAWN: RefCell<Vec<Drawn>> = const { RefCell::new(Vec::new()) }; }

#[derive(Default, Clone)]
pub struct Legend;
impl Legend {
    pub fn position(self, _: Corner) -> Self { self }
}
pub enum Corner { LeftTop, RightTop, LeftBottom, RightBottom }

pub type PlotPoint = [f64; 2];
#[derive(Clone, Default)]
pub struct PlotPoints(Vec<[f64; 2]>);
impl PlotPoints {
    pub fn new(v: Vec<[f64; 2]>) -> Self { PlotPoints(v) }
}
impl From<Vec<[f64; 2]>> for PlotPoints {
    fn from(v: Vec<[f64; 2]>) -> Self { PlotPoints(v) }
}
impl From<[f64; 2]> for PlotPoints {
    fn from(v: [f64; 2]) -> Self { PlotPoints(vec![v]) }
}
impl<const N: usize> From<[[f64; 2]; N]> for PlotPoints {
    fn from(v: [[f64; 2]; N]) -> Self { PlotPoints(v.to_vec()) }
}
impl FromIterator<[f64; 2]> for PlotPoints {
    fn from_iter<I: IntoIterator<Item = [f64; 2]>>(i: I) -> Self { PlotPoints(i.into_iter().collect()) }
}
pub struct Line {
    points: PlotPoints,
    name: String,
}
impl Line {
    pub fn new(p: impl Into<PlotPoints>) -> Self { Line { points: p.into(), name: String::new() } }
    pub fn name(mut self, n: impl ToString) -> Self { self.name = n.to_string(); self }
    pub fn color(self, _: impl Into<egui::Color32>) -> Self { self }
    pub fn width(self, _: impl Into<f32>) -> Self { self }
    pub fn highlight(self, _: bool) -> Self { self }
}
pub struct PlotUi {
    drawn: Drawn,
}
impl PlotUi {
    pub fn line(&mut self, l: Line) { self.drawn.lines.push((l.name, l.points.0)); }
}
pub struct Plot {
    drawn: Drawn,
}
impl Plot {
    pub fn new(_: impl std::hash::Hash) -> Self { Plot { drawn: Drawn::default() } }
    pub fn legend(self, _: Legend) -> Self { self }
    pub fn x_axis_label(mut self, l: impl Into<WidgetText>) -> Self { self.drawn.x_label = l.into().text().to_string(); self }
    pub fn y_axis_label(self, _: impl Into<WidgetText>) -> Self { self }
    pub fn height(self, _: f32) -> Self { self }
    pub fn width(self, _: f32) -> Self { self }
    pub fn allow_drag<T>(self, _: T) -> Self { self }
    pub fn allow_zoom<T>(self, _: T) -> Self { self }
    pub fn allow_scroll<T>(self, _: T) -> Self { self }
    pub fn show_axes<T>(self, _: T) -> Self { self }
    pub fn show_grid<T>(self, _: T) -> Self { self }
    pub fn show<R>(self, _ui: &mut egui::Ui, f: impl FnOnce(&mut PlotUi) -> R) -> R {
        let mut p = PlotUi { drawn: self.drawn };
        let r = f(&mut p);
        DRAWN.with(|d| d.borrow_mut().push(p.drawn));
        r
    }
}
