use mckit::main as kit_main;
mod gd;
mod interp;
mod ml;
mod ml2;
mod par;
mod rng;
mod shapes;
mod stats;
fn main() {
    kit_main(&[
        ("R01", rng::r01),
        ("O01", gd::o01),
        ("O02", par::o02),
        ("S01", stats::s01),
        ("I01", interp::i01),
        ("L01", ml::l01),
        ("P01", shapes::p01),
        ("F01", shapes::f01),
    ])
}
