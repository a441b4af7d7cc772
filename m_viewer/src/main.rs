mod drive;
/// The program as it is, with the argument list and the clock of the harness.
#[allow(dead_code)]
mod viewer {
    mod std {
        pub use ::std::*;
        pub mod env {
            pub use ::std::env::*;
            pub fn args() -> ::std::vec::IntoIter<String> {
                crate::drive::ARGS.with(|a| a.borrow().clone()).into_iter()
            }
        }
    }
    include!("/repo/crates/aether_viz/src/bin/csv_tail_egui.rs");
    pub fn run() -> Result<(), String> {
        main().map_err(|e| e.to_string())
    }
}
fn main() {
    mckit::main(&[("V04", drive::v04)])
}
