from bugkit import bug
M='crates/aether_models/src/'
D=['aether_core','aether_models']
bug('g01-antimeridian','G01',D,
 [(M+'terrestrial/wgs84/transforms/mod.rs','''    if iter == 100 {
        let zdz = z + dz;
        let lon = y.atan2(x);
        let lat = zdz.atan2(rho2.sqrt());
        let alt = (rho2 + zdz * zdz).sqrt() - n;

        Vector::new([lat, lon, alt])
    } else {
        let zdz = z + dz;
        let lon = y.atan2(x);
        let lat = zdz.atan2(rho2.sqrt());
        let alt = (rho2 + zdz * zdz).sqrt() - n;

        Vector::new([lat, lon, alt])
    }''','''    let zdz = z + dz;
    let rho = rho2.sqrt();
    // half-angle form: no quadrant cases
    let two = T::ONE + T::ONE;
    let lon = if rho == T::ZERO { T::ZERO } else { two * (y / (x + rho)).atan() };
    let lat = zdz.atan2(rho);
    let alt = (rho2 + zdz * zdz).sqrt() - n;

    Vector::new([lat, lon, alt])''')],
 '''
use aether_models::terrestrial::wgs84::transforms::*;
fn main() {
    let g = ecef_to_geocentric::<f64>(-6378137.0, 0.0, 1000.0);
    let d: f64 = g[1].abs() - core::f64::consts::PI;
    assert!(d.abs() < 1e-9, "longitude {}", g[1]);
}
''','a point exactly on the antimeridian','the longitude is NaN')
bug('g01-polar-ferrari','G01',D,
 [(M+'terrestrial/wgs84/transforms/mod.rs','''    if !((r0_op > T::ZERO) && (r0_op == r0_op)) {
        r0_op = T::ZERO;
    }''','''    if r0_op < T::ZERO {
        r0_op = T::ZERO - r0_op;
    }'''),
  (M+'terrestrial/wgs84/transforms/mod.rs','let pp = ff / (T::from_f64(3.0) *','let pp = ff * T::from_f64(1.0 + 1.0e-5) / (T::from_f64(3.0) *')],
 '''
use aether_models::terrestrial::wgs84::transforms::*;
fn main() {
    for lat in [-90.0f64, -60.0, -30.0, 30.0, 60.0, 89.0, 90.0] {
        let p = geocentric_to_ecef(lat.to_radians(), 0.5, 1000.0);
        let g = ecef_to_geocentric_ferrari(p.x(), p.y(), p.z());
        let (dl, dh): (f64, f64) = (g[0] - lat.to_radians(), g[2] - 1000.0);
        assert!((dl * 6.4e6).abs() < 2e-3 && dh.abs() < 2e-3, "{lat}: {dl} {dh}");
    }
}
''','a point on the polar axis','x') if 0 else None
bug('g02-western-gravity','G02',D,
 [(M+'terrestrial/wgs84/gravity/mod.rs','    let long = lla[1];','    let long = (y / x).atan();'),
  (M+'terrestrial/wgs84/gravity/mod.rs','let m11 = low * lla[1].cos();','let m11 = low * long.cos();')],
 '''
use aether_models::terrestrial::wgs84::gravity::gravity_rectangular;
fn main() {
    let g = gravity_rectangular(-6.378137e6, 1.0e5, 2.0e5);
    let x: f64 = g.x();
    assert!(x > 9.0, "gravity points away from the Earth: {x}");
}
''','a position with negative x','gravity points outwards over one hemisphere')
bug('g03-isa-digits','G03',D,
 [(M+'terrestrial/atmospheres/isa.rs','8.80345e-2, 1.32249e-2, 1.42752e-3, 8.616e-4,','8.80345e-2, 1.32249e-2, 1.42572e-3, 8.616e-4,')],
 '''
use aether_models::terrestrial::atmospheres::isa::ISA;
fn main() {
    let a = ISA::new();
    let (lo, hi) = (a.pressure(47000.0).unwrap(), a.pressure(47000.5).unwrap());
    let r: f64 = lo / hi - 1.0;
    assert!(r.abs() < 5e-4, "{lo} {hi}");
}
''','an altitude in the layer below 47 km','pressure jumps at 47 km by more than the rounding of the table')
bug('g03-layer-edge','G03',D,
 [(M+'terrestrial/atmospheres/isa.rs','            if geopotential_altitude <= value {','            if geopotential_altitude < value {')],
 '''
use aether_models::terrestrial::atmospheres::isa::ISA;
fn main() {
    let a = ISA::new();
    assert!(a.temperature(80000.0).is_ok() && a.density(79999.0).is_ok());
}
''','exactly the top of the model, 80 km','the top of the range is an error')
bug('g04-return-epoch','G04',D,
 [(M+'lunar/moon.rs','transforms::ltrf_to_icrf_at_epoch(time - self.epoch_time, self.icrf_to_lirf_at_epoch)','transforms::ltrf_to_icrf_at_epoch(time, self.icrf_to_lirf_at_epoch)')],
 '''
use aether_core::coordinate::Cartesian;
use aether_models::lunar::moon::Moon;
fn main() {
    let m = Moon::with_epoch_orientation(5.0e5, Moon::new().icrf_to_lirf());
    let t = 6.0e5;
    let v = Cartesian::new(1.0, 2.0, 3.0);
    let b = m.ltrf_to_icrf(t) * (m.icrf_to_ltrf(t) * v);
    let d: f64 = (b.x() - 1.0) + (b.y() - 2.0);
    assert!(d.abs() < 1e-9, "{} {} {}", b.x(), b.y(), b.z());
}
''','an epoch other than 0','the way back from the fixed frame is not the inverse')
