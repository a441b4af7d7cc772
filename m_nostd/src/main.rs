use mckit::main as kit_main;
// nothing prints without std
macro_rules! printed {
    ($x:expr, $want:expr) => {
        $want.len() > 0
    };
}
#[path = "../../m_core/src/att.rs"]
mod att;
#[path = "../../m_core/src/mat.rs"]
mod mat;
#[path = "../../m_core/src/real.rs"]
mod real;
#[path = "../../m_core/src/solve.rs"]
mod solve;
fn m06(r: &mut mckit::Run) {
    real::functions(r);
    r.bounds.push("then the spaces of A01, M01, M02, M03 and M05 in this build".into());
    att::a01(r);
    mat::m01(r);
    mat::m02(r);
    mat::m05(r);
    solve::m03(r);
}
fn main() {
    // the other ids: the same space as in m_core, here without std and SIMD (run first by check.sh)
    kit_main(&[
        ("M06", m06),
        ("A01", att::a01),
        ("A02", att::a02),
        ("A03", att::a03),
        ("M01", mat::m01),
        ("M02", mat::m02),
        ("M03", solve::m03),
        ("M05", mat::m05),
    ])
}
