use mckit::main as kit_main;
mod air;
mod geo;
mod grav;
mod moon;
/// Deterministic points over a cube, magnitudes and axis directions included.
pub fn directions() -> Vec<[f64; 3]> {
    let mut o = vec![];
    let v = [-1.0, -0.6, -0.25, 0.0, 0.3, 0.8, 1.0];
    for x in v {
        for y in v {
            for z in v {
                if x != 0.0 || y != 0.0 || z != 0.0 {
                    o.push([x, y, z]);
                }
            }
        }
    }
    o
}
pub fn norm(v: [f64; 3]) -> f64 {
    (v[0] * v[0] + v[1] * v[1] + v[2] * v[2]).sqrt()
}
pub fn cross(a: [f64; 3], b: [f64; 3]) -> [f64; 3] {
    [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}
pub fn dist(a: [f64; 3], b: [f64; 3]) -> f64 {
    norm([a[0] - b[0], a[1] - b[1], a[2] - b[2]])
}
fn main() {
    kit_main(&[("G01", geo::g01), ("G02", grav::g02), ("G03", air::g03), ("G04", moon::g04)])
}
