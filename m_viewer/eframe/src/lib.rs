//! Stand-in for eframe: run_native keeps the application for the harness instead of opening a window.
pub use egui;
use std::cell::RefCell;

pub struct Frame {
    _p: (),
}
impl Frame {
    pub fn stand_in() -> Self {
        Frame { _p: () }
    }
}
pub trait App {
    fn update(&mut self, ctx: &egui::Context, frame: &mut Frame);
}
#[derive(Default)]
pub struct NativeOptions {
    pub viewport: egui::ViewportBuilder,
    pub centered: bool,
    pub persist_window: bool,
    pub run_and_return: bool,
}
pub struct CreationContext {
    pub egui_ctx: egui::Context,
}
pub type AppCreator = Box<dyn FnOnce(&CreationContext) -> std::result::Result<Box<dyn App>, Box<dyn std::error::Error + Send + Sync>>>;
#[derive(Debug)]
pub struct Error(pub String);
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Error {}
pub type Result<T = (), E = Error> = std::result::Result<T, E>;

thread_local! { pub static APP: RefCell<Option<Box<dyn App>>> = const { RefCell::new(None) }; }

pub fn run_native(_name: &str, _options: NativeOptions, make: AppCreator) -> Result {
    let cc = CreationContext { egui_ctx: egui::Context::default() };
    let app = make(&cc).map_err(|e| Error(e.to_string()))?;
    APP.with(|a| *a.borrow_mut() = Some(app));
    Ok(())
}
