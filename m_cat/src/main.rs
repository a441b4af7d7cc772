use mckit::main as kit_main;
mod stars;
mod wmm;
fn main() {
    kit_main(&[("W01", wmm::w01), ("C01", stars::c01)])
}
