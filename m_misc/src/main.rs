use mckit::main as kit_main;
mod asserts;
mod camera;
mod steps;
mod units;
fn main() {
    kit_main(&[("U01", units::u01), ("K01", camera::k01), ("X01", asserts::x01), ("N01", steps::n01)])
}
