use mckit::main as kit_main;
// printing exists only with std
macro_rules! printed {
    ($x:expr, $want:expr) => {
        numbers(&$x.to_string()) == $want
    };
}
mod att;
mod mat;
mod real;
mod ser;
mod solve;
fn main() {
    kit_main(&[
        ("A01", att::a01),
        ("A02", att::a02),
        ("A03", att::a03),
        ("M01", mat::m01),
        ("M02", mat::m02),
        ("M03", solve::m03),
        ("M04", ser::m04),
        ("M05", mat::m05),
        ("M06", real::functions),
        ("M07", ser::m07),
    ])
}
