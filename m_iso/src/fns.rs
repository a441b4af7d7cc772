//! Functions of plain numbers: the public calls whose answer is a function of the arguments.
use aether_catalogs::star_catalogs::color::gaia_color::*;
use aether_catalogs::star_catalogs::*;
use aether_catalogs::wmm::*;
use aether_core::attitude::{DirectionCosineMatrix as Dcm, Euler, Quaternion, Rotation};
use aether_core::coordinate::{Cartesian, Cylindrical, Spherical};
use aether_core::math::{Matrix, Vector};
use aether_core::numerical_methods::integration::*;
use aether_core::numerical_methods::solvers::newton::NewtonRaphson;
use aether_core::reference_frame::{Body, ICRF, ITRF, NED, Pose, ReferenceFrame, transforms as tr};
use aether_core::utils::{ToDegrees, ToRadians};
use aether_fluids::*;
use aether_graphics::graphics::transforms::*;
use aether_interp::*;
use aether_ml::classification::lda_qda::{Lda, Qda};
use aether_ml::classification::naive_bayes::GaussianNB;
use aether_ml::classification::perceptron::Perceptron;
use aether_ml::classification::svm::LinearSvm;
use aether_ml::regression::linear::LinearRegression;
use aether_ml::regression::logistic::LogisticRegression;
use aether_ml::regression::ridge::RidgeRegression;
use aether_models::lunar::moon::Moon;
use aether_models::lunar::orbit::MoonOrbitAroundEarth;
use aether_models::terrestrial::atmospheres::isa::ISA;
use aether_models::terrestrial::atmospheres::ussa::USSA;
use aether_models::terrestrial::earth::Earth;
use aether_models::terrestrial::wgs84::gravity::*;
use aether_models::terrestrial::wgs84::transforms as wgs;
use aether_opt::gradient_descent::{GDStochastic, GDStochasticParallel, GradientDescentGeneric};
use aether_rand::randomizers::XorShift64Star;
use aether_shapes::attributes::*;
use aether_shapes::cylinder::Cylinder;
use aether_shapes::prism::RectangularPrism;
use aether_shapes::sphere::Sphere;
use aether_stats::*;
use aether_time::time::*;
use aether_units::si::*;
use aether_viz::{PlotStyle, XYSeries, plot, plot_error_on_grid, plot_series};

pub struct F {
    pub name: &'static str,
    pub args: Vec<Vec<f64>>,
    pub call: Box<dyn Fn(&[f64]) -> String + Sync + Send>,
}
fn prod(sets: &[&[f64]]) -> Vec<Vec<f64>> {
    let mut o = vec![vec![]];
    for s in sets {
        o = o.iter().flat_map(|p: &Vec<f64>| s.iter().map(move |x| [&p[..], &[*x]].concat())).collect();
    }
    o
}
type Q = Quaternion<f64, Body<f64>, NED<f64>>;
type E = Euler<f64, Body<f64>, NED<f64>>;
type D = Dcm<f64, Body<f64>, NED<f64>>;

/// A symmetric positive matrix, near others for near numbers.
fn spd<const N: usize>(s: f64) -> Matrix<f64, N, N> {
    let mut m = Matrix::zeros();
    for i in 0..N {
        for j in 0..N {
            m.data[i][j] = if i == j { N as f64 + 1.0 + s } else { ((i + 1) as f64 * s).cos() * ((j + 1) as f64 * s).cos() * 0.5 };
        }
    }
    m
}
fn mat<const M: usize, const N: usize>(s: f64) -> Matrix<f64, M, N> {
    let mut m = Matrix::zeros();
    for i in 0..M {
        for j in 0..N {
            m.data[i][j] = (s * (1.0 + i as f64 * 3.0 + j as f64)).sin() + if i == j { 2.0 } else { 0.0 };
        }
    }
    m
}
fn vec<const N: usize>(s: f64) -> Vector<f64, N> {
    Vector::new(std::array::from_fn(|i| s * (i as f64 + 1.0) - (i as f64 * s).sin()))
}
fn rows<const N: usize>(n: f64, s: f64) -> Vec<Vector<f64, N>> {
    (0..n as usize).map(|k| Vector::new(std::array::from_fn(|i| ((k * 7 + i * 3) as f64 * s).sin() * 3.0 + s))).collect()
}
fn cart<F: ReferenceFrame>(v: [f64; 3]) -> Cartesian<f64, F> {
    Cartesian::new(v[0], v[1], v[2])
}
pub fn data(seed: f64) -> (Vec<Vector<f64, 2>>, Vec<f64>, Vec<i8>, Vec<u8>, Vec<usize>) {
    let xs: Vec<Vector<f64, 2>> = (0..10).map(|k| Vector::new([(k as f64 * seed).sin() * 2.0 + (k % 2) as f64, (k as f64 * 1.3 * seed).cos() - (k % 2) as f64 * seed])).collect();
    let y = (0..10).map(|k| k as f64 * seed - 2.0).collect();
    let s: Vec<i8> = (0..10).map(|k| if k % 2 == 0 { -1 } else { 1 }).collect();
    (xs, y, s.clone(), s.iter().map(|x| (*x > 0) as u8).collect(), s.iter().map(|x| (*x > 0) as usize).collect())
}
const PROBES: [[f64; 2]; 4] = [[0.0, 0.0], [1.5, -0.5], [-2.0, 0.75], [0.3, 4.0]];
const COLS: &str = "gnc_id,hip_id,gaiadr3_id,ra_2016,de_2016,e_ra_2016,e_de_2016,pmra,pmde,e_pmra,e_pmde,plx,e_plx,cat_2016,gmag,e_gmag,bpmag,e_bpmag,rpmag,e_rpmag,jmag,e_jmag,hmag,e_hmag,kmag,e_kmag,flag_var,flag_mult,neighbor_id,neighbor_distance_arcsec,shift_arsec,flag_shift,flag_pos,flag_pm,flag_neighbor";
/// Catalogues; 0..3 differ in one digit, 3 is longer.
/// The SHA-256 of `csv(0.0)`, `csv(1.0)` and `csv(2.0)` (files of one length), from another program.
const SUMS: [&str; 3] = [
    "87bd3fb9cc2b332441b1b576723f563596f4979bc3c0679b3b05ae0c3e8ecb54",
    "8610109586097329d07228c2271faaee91dcdf6e7fc4526458ad37e6fe525541",
    "5ed1445aac50888e3a437262b00d188e4c2515fe31a77740ab53350ef334c1aa",
];
fn csv(k: f64) -> String {
    let row = |i: u32, ra: f64, g: f64| format!("{i},{},{},{ra},{},0.1,0.2,1.5,-2.5,0.1,0.1,10.5,0.2,GAIADR3,{g},0.01,8.1,,7.2,,6.5,,6.25,,6.125,,V,,{},3.5,,,,,", i + 5, i * 100, ra / 4.0, i + 1);
    let mut t = COLS.to_string();
    t.push('\n');
    for i in 0..(if k == 3.0 { 5 } else { 2 }) {
        t += &row(i + 1, 10.0 + i as f64, 7.0 + if k < 3.0 && i == 1 { k } else { 0.0 });
        t.push('\n');
    }
    t
}
fn record(ra: f64, de: f64, pm: f64, plx: f64, cat: &str) -> GncRecord {
    GncRecord {
        gnc_id: 1, hip_id: None, gaiadr3_id: None, ra_2016: ra, de_2016: de, e_ra_2016: 1.0, e_de_2016: 1.0,
        pmra: Some(pm as f32), pmde: Some(-pm as f32 / 2.0), e_pmra: Some(0.25), e_pmde: None, plx: Some(plx as f32), e_plx: Some(0.5), cat_2016: Some(cat.into()),
        gmag: Some(5.0 + pm as f32), e_gmag: None, bpmag: Some(5.0 + plx as f32 / 100.0), e_bpmag: None, rpmag: Some(4.5), e_rpmag: None, jmag: Some(4.0 + plx as f32 / 50.0), e_jmag: None, hmag: Some(3.9), e_hmag: None, kmag: Some(3.8), e_kmag: None,
        flag_var: None, flag_mult: None, neighbor_id: 0, neighbor_distance_arcsec: 0.0, shift_arsec: None, flag_shift: None, flag_pos: None, flag_pm: None, flag_neighbor: None,
    }
}
fn pattern(p: f64) -> Recurrence {
    match p as i64 {
        0 => Recurrence::Once,
        1 => Recurrence::Interval(Duration::from_millis(1500)),
        2 => Recurrence::Hourly { minute: 15, second: 0 },
        3 => Recurrence::Hourly { minute: 15, second: 1 },
        4 => Recurrence::Daily { hour: 6, minute: 0, second: 1 },
        5 => Recurrence::Yearly { month: 2, day: 28, hour: 0, minute: 0, second: 0 },
        _ => Recurrence::Yearly { month: 2, day: 29, hour: 0, minute: 0, second: 0 },
    }
}

pub fn table() -> Vec<F> {
    let mut t: Vec<F> = vec![];
    macro_rules! add {
        ($name:expr, [$($set:expr),*], |$a:ident| $e:expr) => {
            t.push(F { name: $name, args: prod(&[$(&$set[..]),*]), call: Box::new(move |$a: &[f64]| format!("{:?};", $e)) })
        };
    }
    // directions and times: each list holds a near neighbour
    let lat = [0.7, 0.7000001, -1.2];
    let lon = [0.3, 0.3000001, -2.9];
    let alt = [0.0, 0.25, 12345.0];
    let time = [0.0, 1e-3, 86400.0, 86400.5];
    let pos = [7.0e6, 7.000001e6, -1.2e6];
    let height = [-1000.0, 0.0, 0.5, 10999.0, 11000.0, 11000.5, 15000.0, 25000.0, 40000.0, 49000.0, 60000.0, 75000.0, 79000.0, 79000.001, 88000.0, 100000.0, 115000.0, 300000.0, 1e7, f64::NAN];
    let geo = |a: &[f64]| GeodeticPoint::new(a[1], a[2], a[3]);
    add!("wmm-evaluate", [[2025.0, 2025.001, 2029.5], lat, lon, [0.0, 0.25, 350e3]], |a| WorldMagneticModel::embedded().evaluate(a[0], geo(a)));
    add!("wmm-coefficients", [[2025.0, 2025.001, 2027.5, 2030.0, 2024.0]], |a| WorldMagneticModel::embedded().coefficients_at(a[0]));
    add!("wmm-with-coefficients", [[2025.0, 2025.001, 2029.5], [1.0], [0.7, 0.7000001], [0.3], [0.0, 350e3]], |a| {
        let m = WorldMagneticModel::embedded();
        m.evaluate_with_coefficients(&m.coefficients_at(a[0]), GeodeticPoint::new(a[2], a[3], a[4]))
    });
    add!("gravity-normal", [[0.0, 0.7, 0.7000001, -1.2, 1.5]], |a| gravity_normal(a[0]));
    add!("gravity-ellipsoidal", [pos, pos, pos], |a| gravity_ellipsoidal(a[0], a[1], a[2]));
    add!("gravity-rectangular", [pos, pos, pos], |a| gravity_rectangular(a[0], a[1], a[2]));
    add!("geodetic-to-ecef", [lat, lon, alt], |a| (wgs::geocentric_to_ecef(a[0], a[1], a[2]), wgs::geocentric_to_ecef(a[0] as f32, a[1] as f32, a[2] as f32)));
    add!("ecef-to-geodetic", [pos, pos, pos], |a| (wgs::ecef_to_geocentric(a[0], a[1], a[2]), wgs::ecef_to_geocentric(a[0] as f32, a[1] as f32, a[2] as f32)));
    add!("ecef-to-geodetic-ferrari", [pos, pos, pos], |a| wgs::ecef_to_geocentric_ferrari(a[0], a[1], a[2]));
    add!("icrf-itrf", [time, [7.292115e-5, 7.2e-5, 0.0]], |a| (wgs::icrf_to_itrf(a[0], cart([0.0, 0.0, a[1]])), wgs::itrf_to_icrf(a[0], cart([0.0, 0.0, a[1]])), tr::icrf_to_itrf(a[0], cart([0.0, 0.0, a[1]])), tr::itrf_to_icrf(a[0], cart([0.0, 0.0, a[1]]))));
    add!("earth-frames", [time, [7.292115e-5, 7.2e-5, 0.0]], |a| {
        let mut e = Earth::new();
        e.rotational_velocity = cart([0.0, 0.0, a[1]]);
        (e.icrf_to_itrf(a[0]), e.itrf_to_icrf(a[0]))
    });
    add!("earth-coriolis-centrifugal", [pos, [1.0, 1.0000001, -3.0], [7.292115e-5, 7.2e-5], [0.0, 1.0]], |a| {
        let mut e = Earth::new();
        e.rotational_velocity = cart([0.0, a[3] * 1e-6, a[2]]);
        (e.solve_coriolis_force(cart([a[0], 2.0, -a[1]]), a[1]), e.solve_centrifugal_force(cart([a[0], 2.0, -a[1]]), a[1]))
    });
    add!("earth-gravity", [pos, pos, [1.0, 1.0000001, 4.0]], |a| {
        let e = Earth::new();
        (e.solve_gravitational_force(cart([a[0], a[1], 3e6]), a[2]), e.solve_gravitational_torque(cart([a[0], a[1], 3e6]), spd(a[2])))
    });
    add!("moon-gravity", [pos, [1.0, 1.0000001, -3.0], [4.9e12, 4.8e12]], |a| {
        let mut m = Moon::new();
        m.gravitational_constant = a[2];
        (m.gravitational_acceleration(cart::<ICRF<f64>>([a[0], 2e6, -1e5])), m.solve_gravitational_force(cart::<ICRF<f64>>([a[0], 2e6, -1e5]), a[1]), m.solve_gravitational_torque(cart::<ICRF<f64>>([a[0], 2e6, -1e5]), spd(a[1])))
    });
    add!("moon-frames", [time, [0.0, 0.5, 86400.0], [0.0, 0.3]], |a| {
        let m = Moon::with_epoch_orientation(a[1], Dcm::rotate_z(a[2]));
        (m.lirf_to_ltrf(a[0]), m.ltrf_to_lirf(a[0]), m.icrf_to_ltrf(a[0]), m.ltrf_to_icrf(a[0]), m.icrf_to_lirf(), m.lirf_to_icrf())
    });
    add!("moon-orbit", [[3.84e8, 3.84e8 + 1.0, 4e8], [3.986e14, 4e14]], |a| {
        let mut o = MoonOrbitAroundEarth::new();
        let (m, n, p) = (o.mu_total_m3_s2(), o.mean_motion_rad_s(), o.keplerian_period_s());
        o.semi_major_axis_m = a[0];
        o.mu_earth_m3_s2 = a[1];
        (m, n, p, o.mu_total_m3_s2(), o.mean_motion_rad_s(), o.keplerian_period_s())
    });
    add!("isa", [height], |a| {
        let i = ISA::new();
        (i.temperature(a[0]), i.pressure(a[0]), i.density(a[0]), i.geopotential_altitude(a[0]), i.geometric_altitude(a[0]), ISA::gravity(a[0]))
    });
    add!("isa-temperature", [height], |a| ISA::new().temperature(a[0]));
    add!("isa-pressure", [height], |a| ISA::new().pressure(a[0]));
    add!("isa-density", [height], |a| ISA::new().density(a[0]));
    add!("ussa", [height], |a| {
        let u = USSA::new();
        (u.temperature(a[0]).ok(), u.pressure(a[0]), u.density(a[0]), u.speed_of_sound(a[0]), u.dynamic_viscosity(a[0]))
    });
    add!("ussa-temperature", [height], |a| USSA::new().temperature(a[0]).ok());
    add!("ussa-pressure", [height], |a| USSA::new().pressure(a[0]));
    add!("ussa-density", [height], |a| USSA::new().density(a[0]));
    add!("ussa-speed-of-sound", [height], |a| USSA::new().speed_of_sound(a[0]));
    add!("ussa-viscosity", [height], |a| USSA::new().dynamic_viscosity(a[0]));
    add!("earth-air", [height], |a| {
        let e = Earth::new();
        (e.get_temperature(a[0]), e.get_pressure(a[0]), e.get_density(a[0]), e.get_speed_of_sound(a[0]))
    });
    // stars
    add!("star-colour", [[-0.5, 0.0, 0.75, 0.7500001, 2.5], [0.0, 1.0]], |a| (bp_rp_to_teff(a[0] as f32), bp_rp_to_rgb(a[0] as f32, a[1] == 1.0), blackbody_to_rgb(5000.0 + 1000.0 * a[0] as f32)));
    add!("star-motion", [[10.0, 10.0000001, 250.0], [-45.0, -45.0000001, 80.0], [0.0, 100.0], [1.0, 50.0], [2016.0, 2016.001, 2050.0]], |a| record(a[0], a[1], a[2], a[3], "GAIADR3").icrs_sample(a[4]));
    add!("star-photometry", [[0.0, 0.001, 3.0], [1.0, 1.001, 50.0]], |a| {
        let r = record(1.0, 2.0, a[0], a[1], "GAIADR3");
        (r.photometric_color(), r.photometric_infrared_rgb())
    });
    add!("catalogue", [[0.0, 1.0], [0.0, 1.0, 2.0, 3.0, 4.0]], |a| {
        let f = crate::objs::place().join(format!("cat{}.csv", a[0]));
        if a[1] == 4.0 {
            let _ = std::fs::remove_file(&f);
        } else {
            std::fs::write(&f, csv(a[1])).unwrap();
        }
        let r = GncCatalogReader::from_csv(&f).map(|c| c.records).map_err(|_| ());
        (r, SUMS.map(|h| GncCatalogReader::verify_catalog_checksum(&f, h).is_ok()), GncCatalogReader::from_csv_verified_v1_1(&f).is_ok())
    });
    // tanks and bodies
    let len = [0.5, 0.5000001, 2.0];
    add!("tank", [len, len, len, [0.0, 1.0]], |a| {
        let s = if a[3] == 0.0 { TankShape::Cylinder { radius_m: a[0], length_m: a[1] } } else { TankShape::Sphere { radius_m: a[0] } };
        let l = PropellantTankSpec { shape: s, propellant_density_kg_m3: 1000.0 * a[1], fill_fraction: a[2] };
        (s.volume_m3(), s.inertia_principal_cm_kg_m2(a[2]), l.limits(), aggregate_tank_mass_kg(&[TankMassState { shape: s, mass_kg: a[2] }, TankMassState { shape: s, mass_kg: 1.0 }]), aggregate_tank_inertia_principal_cm_kg_m2(&[TankMassState { shape: s, mass_kg: a[2] }]))
    });
    add!("solids", [len, len, [3.0, 3.0000001], [1.0, 1.5]], |a| {
        let (s, c, p) = (Sphere { r: a[0] }, Cylinder { r: a[0], h: a[1] }, RectangularPrism { a: a[0], b: a[1], c: a[2] });
        (Solid::<f64>::volume(&s), Solid::<f64>::volume(&c), Solid::<f64>::volume(&p), s.inertia_principal_cm(a[3]), c.inertia_principal_cm(a[3]), p.inertia_principal_cm(a[3]))
    });
    add!("solids-joined", [[0.2, 0.2000001, 0.4], [0.0, 0.1], [1000.0, 1000.001], [0.0, 0.5]], |a| {
        fn pose<L: ReferenceFrame>(x: f64, q: f64) -> Pose<f64, L> {
            Pose { R_local_to_assembly: Dcm::rotate_z(q), r_cm_in_assembly: cart([x, 0.5, -x]) }
        }
        let b = || MassModel::new(RectangularPrism { a: 2.0, b: 2.0, c: 2.0 }, a[2], pose(0.0, a[3]));
        let h = || MassModel::new(Sphere { r: a[0] }, 500.0, pose(a[1], 0.0));
        (b() + h(), b() - h())
    });
    // interpolation
    add!("spline", [[0.0, 0.5, 1.5, 1.5000001, 2.9, 3.5], [1.0, 1.0000001, -2.0], [1.0, 2.0]], |a| (CubicSpline::new(Vector::new([0.0, 1.0, 2.0, 2.0 + a[2]]), Vector::new([0.0, a[1], 1.0, -1.0])).map(|s| s.evaluate(a[0])).ok(), CubicSpline::new(Vector::new([0.0, 1.0, 2.0]), Vector::new([0.0, a[1], 1.0])).map(|s| s.evaluate(a[0])).ok()));
    add!("polynomial", [[0.0, 0.5, 1.5, 1.5000001, 3.5], [1.0, 1.0000001, -2.0], [3.0, 4.0]], |a| PolynomialInterpolator::new(Vector::new([0.0, 1.0, 2.0, a[2]]), Vector::new([0.0, a[1], 1.0, -1.0])).map(|s| s.evaluate(a[0])).ok());
    add!("lerp", [[0.0, 0.5, 0.5000001], [1.0, -2.0], [0.25, 0.2500001]], |a| (lerp(a[0], a[1], a[2]), inverse_lerp(a[0], a[1], a[2]), remap(a[2], a[0], a[1], 3.0, 3.0 + a[1])));
    // statistics
    add!("covariance", [[2.0, 5.0, 6.0], [0.7, 0.7000001, 2.0]], |a| {
        let (x, y) = (rows::<3>(a[0], a[1]), rows::<2>(a[0], a[1] + 1.0));
        let c = covariance::sample_covariance(&x).unwrap();
        (covariance::mean(&x), c, covariance::sample_cross_covariance(&x, &y).ok(), covariance::correlation_from_covariance(&c).ok(), covariance::standard_deviations_from_covariance(&c).ok())
    });
    add!("correlation", [[0.7, 0.7000001, 2.0], [1.0, 3.0]], |a| (covariance::covariance_from_correlation(&spd::<3>(a[0]), &Vector::new([a[1], 1.0, 2.0])), covariance::correlation_from_covariance(&spd::<3>(a[0])).ok()));
    add!("gaussian-pdf", [[0.0, 0.5, 0.5000001], [0.0, 0.1], [1.0, 1.0000001, 2.0]], |a| (gaussian::Gaussian::new(a[1], a[2]).pdf(a[0]), gaussian::Gaussian::new(a[1] as f32, a[2] as f32).pdf(a[0] as f32)));
    add!("gaussian-fit", [[1.0, 4.0, 5.0], [0.5, 0.5000001, 2.0]], |a| {
        let x: Vec<f64> = (0..a[0] as usize).map(|k| (k as f64 * a[1]).sin()).collect();
        gaussian::Gaussian::fit_mle(&x)
    });
    add!("multivariate-pdf", [[0.0, 0.5, 0.5000001], [0.1, 0.2], [0.3, 0.3000001, 1.0]], |a| multivariate::MultivariateNormal::new(vec::<2>(a[1]), spd::<2>(a[2])).pdf(&vec(a[0])));
    add!("discrete", [[0.0, 1.0, 2.0], [0.25, 0.2500001], [1.0, 4.0]], |a| (bernoulli::Bernoulli::new(a[1]).pmf(a[0] as u8), bernoulli::Bernoulli::<f64>::fit_mle(&[0, 1, a[0] as u8 % 2]), categorical::Categorical::new(vec![a[1], 1.0 - a[1]]).pmf(a[0] as usize), categorical::Categorical::<f64>::fit_mle(&[a[2] as usize, 2, a[0] as usize])));
    add!("random-draws", [[1.0, 2.0, 12345.0], [1.0, 2.0, 5.0]], |a| {
        let mut r = XorShift64Star::new(a[0] as u64);
        (0..a[1] as usize).map(|_| (r.next_u64(), r.next_f64(), r.normal01(), r.next_real::<f32>(), gaussian::Gaussian::new(1.0, 2.0).sample(&mut r))).collect::<Vec<_>>()
    });
    // matrices
    let el = [0.7, 0.7000001, -2.0, 1.0, 3.0];
    add!("lu", [el, [1.0, 1.0000001, -2.0]], |a| (mat::<3, 3>(a[0]).lu_decompose().map(|l| (l.solve(&vec(a[1])), l.solve_multi(&mat::<3, 2>(a[1])))), mat::<3, 3>(a[0]).solve(&vec(a[1])), mat::<4, 4>(a[0]).solve(&vec(a[1])), mat::<4, 4>(a[0]).solve_multi(&mat::<4, 2>(a[1]))));
    add!("cholesky", [el, [1.0, 1.0000001, -2.0]], |a| (spd::<3>(a[0]).cholesky_lower().map(|c| c.solve(&vec(a[1]))), spd::<4>(a[0]).cholesky_solve(&vec(a[1]))));
    add!("inverse", [el], |a| (mat::<2, 2>(a[0]).inverse_gauss_jordan(), mat::<3, 3>(a[0]).inverse(), mat::<4, 4>(a[0]).inverse_gauss_jordan(), mat::<5, 5>(a[0]).inverse_gauss_jordan(), mat::<2, 2>(a[0]).determinant(), mat::<3, 3>(a[0]).determinant(), mat::<4, 4>(a[0]).determinant()));
    add!("matrix-products", [el, [1.0, 1.0000001, -2.0]], |a| (&mat::<3, 3>(a[0]) * &mat::<3, 3>(a[1]), &mat::<4, 4>(a[0]) * &mat::<4, 4>(a[1]), &mat::<6, 6>(a[0]) * &mat::<6, 6>(a[1]), &mat::<2, 3>(a[0]) * &mat::<3, 5>(a[1]), &mat::<6, 6>(a[0]) * &vec::<6>(a[1]), &mat::<3, 3>(a[0]) * &vec::<3>(a[1]), mat::<2, 3>(a[0]).transpose(), Matrix::outer(&vec::<3>(a[0]), &vec::<2>(a[1])), mat::<3, 3>(a[0]).trace()));
    add!("matrix-simd", [el, [1.0, 1.0000001, -2.0]], |a| (mat::<3, 3>(a[0]).mul_mat3_simd(&mat(a[1])), mat::<4, 4>(a[0]).mul_mat4_simd(&mat(a[1])), mat::<6, 6>(a[0]).mul_mat6_simd(&mat(a[1])), mat::<4, 4>(a[0]).mul_vec4_simd(&vec(a[1])), mat::<6, 6>(a[0]).mul_vec6_simd(&vec(a[1])), vec::<4>(a[0]).dot4_simd(&vec(a[1])), mat::<3, 4>(a[0]).mul_matrix_simd(&mat::<4, 5>(a[1])), mat::<4, 4>(a[0]).cast::<f32>().mul_mat4_simd(&mat(a[1]).cast::<f32>())));
    add!("vectors", [el, [1.0, 1.0000001, -2.0]], |a| {
        let (x, y) = (vec::<3>(a[0]), vec::<3>(a[1]));
        (x + y, x.dot(&y), x.cross(&y), x.norm(), x.normalize(), x.try_normalize(), x.angle(&y), x * a[1], vec::<7>(a[0]).dot(&vec(a[1])))
    });
    add!("newton", [[2.0, 2.0000001, 9.0], [1.0, 1.0000001, 30.0], [1e-6, 1e-12], [3.0, 50.0]], |a| {
        let k = a[0];
        NewtonRaphson::new(a[2], a[3] as usize).solve(a[1], |x: f64| x * x - k, |x: f64| 2.0 * x)
    });
    // steps
    add!("integrators", [[1.0, 1.0000001, -2.0], [0.1, 0.1000001, 1.0], [0.5, 2.0]], |a| {
        let (k, h) = (a[2], a[1]);
        let (v, w) = (vec::<3>(a[0]), vec::<3>(a[0] + 1.0));
        let (c, d): (Cartesian<f64, ICRF<f64>>, Cartesian<f64, ICRF<f64>>) = (cart(v.data), cart(w.data));
        let (e, f) = (E::new(v[0], v[1], v[2]), E::new(w[0], w[1], w[2]));
        (v.integrate_rk4(|s| *s * -k, h), c.integrate_rk4(|s| *s * -k, h), e.integrate_rk4(|s| E::new(s.data[1], -k, s.data[0]), h), v.integrate_euler(h), v.integrate_trapezoidal(&w, h), c.integrate_trapezoidal(&d, h), e.integrate_trapezoidal(&f, h))
    });
    // attitude and coordinates
    let ang = [0.0, 0.4, 0.4000001, -1.3];
    add!("euler-to", [ang, ang, ang], |a| {
        let e = E::new(a[0], a[1], a[2]);
        let d = D::from(e);
        let e = E::new(a[0], a[1], a[2]);
        (d, Q::try_from(&d).ok().map(|q| q.to_dcm()), E::from(&d), e.to_degrees_vec(), E::from_degrees_vec(vec(a[0])))
    });
    add!("quaternion", [[1.0, 1.0000001, -0.2], [0.4, 0.0], [0.4000001, 0.3], [0.2, -0.1]], |a| {
        let q = Q::new(a[0], a[1], a[2], a[3]);
        (q.norm(), q.normalized(), q.conjugate(), q.inverse(), q.to_dcm(), q.rotate_vec(&vec(a[0])), q.rotate_vector(vec(a[1])), E::from(&q), D::from(&q), q.dot(&Q::new(a[3], a[2], a[1], a[0])))
    });
    add!("quaternion-steps", [ang, [1.0, 1.0000001, -2.0], [0.1, 0.1000001]], |a| {
        let q = Q::from_axis_angle(vec(a[1]), a[0]);
        let r = Rotation::<f64, Body<f64>, NED<f64>>::from_quaternion(q);
        (q, q.integrate(cart([a[1], 0.2, 0.1]), cart([0.1, a[1], 0.0]), a[2]), *r.integrate(vec(a[1]), a[2]).quaternion(), Quaternion::<f64, Body<f64>, Body<f64>>::from_angular_velocity(vec(a[1]), a[2]))
    });
    add!("rotations", [ang, [1.0, 1.0000001, -2.0]], |a| {
        let (x, y, z) = (D::rotate_x(a[0]), D::rotate_y(a[0]), D::rotate_z(a[0]));
        (x * cart::<Body<f64>>([a[1], 2.0, 3.0]), y * cart::<Body<f64>>([a[1], 2.0, 3.0]), z * cart::<Body<f64>>([a[1], 2.0, 3.0]), x.transpose(), tr::body_to_ned(a[0], a[1], 0.3), tr::itrf_to_ned(a[0], a[1]))
    });
    add!("wind-frames", [ang, ang], |a| (tr::angular_rate_dcm(a[0], a[1], 0.2), tr::aircraft_wind_to_body(a[0], a[1]), tr::aeroballistic_wind_to_body(a[0], a[1]), tr::flight_path_to_geographic(a[0], a[1])));
    add!("coordinates", [[1.0, 1.0000001, 7e6], [0.5, 0.5000001, -2.0], [0.0, 0.3]], |a| {
        let c: Cartesian<f64, ITRF<f64>> = cart([a[0], a[1], a[2]]);
        let (s, y): (Spherical<f64>, Cylindrical<f64>) = (Spherical::from(&c), Cylindrical::from(&c));
        ([s.r(), s.phi(), s.theta(), y.r(), y.theta(), y.z()], Cartesian::<f64, ITRF<f64>>::from(&Spherical::<f64>::new(a[0], a[1], a[2])), Cartesian::<f64, ITRF<f64>>::from(&Cylindrical::<f64>::new(a[0], a[1], a[2])), c.norm(), c.normalize(), c.cross(&cart([a[2], a[0], a[1]])))
    });
    add!("angles-and-units", [[0.0, 1.0, 1.0000001, -250.0]], |a| (ToRadians::to_radians(a[0]), ToDegrees::to_degrees(a[0]), ToRadians::to_radians(a[0] as f32), a[0].kilometer().to_meter().raw(), a[0].m().to_kilometer().raw(), a[0].kilosecond().to_second().raw()));
    // views
    add!("views", [[0.0, 1.0, 1.0000001], [5.0, -5.0], [1.5, 1.5000001], [0.8, 0.8000001], [100.0, 1000.0]], |a| {
        let (e, c, u): (Cartesian<f64, ICRF<f64>>, Cartesian<f64, ICRF<f64>>, Cartesian<f64, ICRF<f64>>) = (cart([a[0], a[1], 2.0]), cart([0.0, 0.0, a[0]]), cart([0.0, 0.0, 1.0]));
        (look_at(&e, &c, &u), perspective(a[2], a[3], 0.1, a[4]), look_at_perspective(&e, &c, &u, a[2], a[3], 0.1, a[4]), translate(&mat(a[0]), &vec(a[1])))
    });
    // searches
    add!("descent", [[0.0, 0.0000001, 3.0], [1.0, 1.0000001, 2.0], [0.0, 1.0], [0.0, 0.9], [5.0, 40.0]], |a| {
        let k = a[1];
        let mut o = GradientDescentGeneric::<f64, 2>::new();
        o.learning_rate(0.1).momentum(a[3]).max_iters(a[4] as u32).backtracking(a[2] == 1.0);
        if a[0] == 3.0 {
            o.set_bounds([0.5, 0.5], [2.0, 2.0]);
        }
        o.minimize(Vector::new([a[0] + 1.0, -1.0]), |x| k * x[0] * x[0] + x[1] * x[1], |x| Vector::new([2.0 * k * x[0], 2.0 * x[1]]))
    });
    add!("stochastic", [[1.0, 2.0], [1.0, 1.0000001], [1.0, 3.0], [0.0, 0.5]], |a| {
        let mut o = GDStochastic::<2>::new(a[0] as u64);
        o.batch_size(a[2] as u32).momentum(a[3]).max_iters(15);
        let k = a[1];
        let one = o.minimize(Vector::new([k, -1.0]), |x| x[0] * x[0] + x[1] * x[1], |x, r| Vector::new([2.0 * x[0] + r.normal01() * k, 2.0 * x[1] + r.next_f64()]));
        let two = o.minimize(Vector::new([k, -1.0]), |x| x[0] * x[0] + x[1] * x[1], |x, r| Vector::new([2.0 * x[0] + r.normal01() * k, 2.0 * x[1] + r.next_f64()]));
        (one, two)
    });
    add!("parallel", [[1.0, 2.0], [1.0, 1.0000001], [2.0, 5.0], [1.0, 2.0]], |a| {
        let mut o = GDStochasticParallel::<f64, 2>::new(a[0] as u64);
        o.batch_size(a[2] as u32).max_iters(4).threads(a[3] as usize);
        let k = a[1];
        o.minimize(Vector::new([k, -1.0]), |x| x[0] * x[0] + x[1] * x[1], |x, r| Vector::new([2.0 * x[0] + r.normal01() * k, 2.0 * x[1] + r.next_f64()]))
    });
    // learners
    let seeds = [0.7, 0.7000001, 1.9, 2.6];
    add!("bayes", [seeds, [2.0, 3.0]], |a| {
        let (x, _, _, _, mut y) = data(a[0]);
        if a[1] == 3.0 {
            y[3] = 2;
            y[6] = 2;
            y[7] = 2;
        }
        let (n, l, q) = (GaussianNB::<2>::fit(&x, &y, a[1] as usize), Lda::<2>::fit(&x, &y, a[1] as usize), Qda::<2>::fit(&x, &y, a[1] as usize));
        PROBES.map(|p| (n.predict(&Vector::new(p)), l.predict(&Vector::new(p)), q.predict(&Vector::new(p))))
    });
    add!("learners", [seeds, [1.0, 3.0]], |a| {
        let (x, y, s, b, _) = data(a[0]);
        let (mut l, mut r, mut g, mut v, mut p) = (LinearRegression::<f64, 2>::new(), RidgeRegression::<f64, 2>::new(), LogisticRegression::<f64, 2>::new(), LinearSvm::<f64, 2>::new(), Perceptron::<f64, 2>::new());
        for _ in 0..a[1] as usize {
            l.train_epoch(&x, &y);
            r.train_epoch(&x, &y);
            g.train_epoch(&x, &b);
            v.train_epoch(&x, &s);
            p.train_epoch(&x, &s);
        }
        let at = PROBES.map(|q| Vector::new(q)).map(|q| (l.predict(&q), r.predict(&q), g.predict_probability(&q), v.decision(&q), p.predict_raw(&q)));
        let opt = || {
            let mut o = GradientDescentGeneric::<f64, 3>::new();
            o.learning_rate(0.05).max_iters(4);
            o
        };
        l.fit_with_optimizer(&x, &y, opt());
        r.fit_with_optimizer(&x, &y, opt());
        g.fit_with_optimizer(&x, &b, opt());
        v.fit_with_optimizer(&x, &s, opt());
        p.fit_with_optimizer(&x, &s, opt());
        (at, PROBES.map(|q| Vector::new(q)).map(|q| (l.predict(&q), r.predict(&q), g.predict_probability(&q), v.decision(&q), p.predict_raw(&q))))
    });
    // time
    let secs = [0.0, 1.0, 86399.0, 951782399.0, 951782400.0, 1e9, -1.0];
    let sec = |a: f64| Time::<UTC>::new(a as i64, 5);
    add!("time-scales", [secs], |a| {
        let u = sec(a[0]);
        (u.to_unix(), u.to_tai(), u.to_gps(), u.to_tai().to_gps().to_utc(), Time::<GPS>::new(a[0] as i64, 7).to_tai())
    });
    add!("civil-dates", [secs], |a| {
        let d = sec(a[0]).to_utc_datetime();
        (d, Time::from_utc_datetime(d))
    });
    add!("gps-week", [[0.0, 604799.0, 604800.0, 1e9, 619315200.0], [0.0, 1023.0, 1024.0, 2100.0]], |a| Time::<GPS>::new(a[0] as i64, 0).to_gps_week(a[1] as u32));
    add!("schedule-start", [secs, [0.0, 1.0, 2.0, 3.0, 4.0, 5.0, 6.0]], |a| UtcSchedule::new(sec(a[0]), pattern(a[1])).next_fire());
    add!("mission-clock", [[0.0, 1.0, 999.0, 1e9], [0.0, 1000.0], [1000.0, 32768.0], [0.0, 1e9]], |a| {
        let k = TimeKeeper::<UTC>::new(MissionEpoch::new_utc(sec(a[3])), a[1] as u64, a[2] as u64);
        let mut last = a[1] as u64;
        (k.t_plus(a[0] as u64 + a[1] as u64), k.now_tai(a[0] as u64 + a[1] as u64), k.now_utc(a[0] as u64 + a[1] as u64), k.dt_from_ticks(&mut last, a[0] as u64 + a[1] as u64), last)
    });
    // charts
    let svg = |go: &dyn Fn(&str) -> bool| {
        let f = crate::objs::place().join("chart.svg");
        let _ = std::fs::remove_file(&f);
        let ok = go(f.to_str().unwrap());
        (ok, std::fs::read_to_string(&f).ok())
    };
    add!("chart", [[1.0, 3.0], [0.0, 1.0], [0.0, 1.0]], |a| {
        let x: Vec<f64> = (0..a[0] as usize).map(|k| k as f64).collect();
        let y: Vec<f64> = x.iter().map(|k| k * k - a[1]).collect();
        svg(&|p| plot(&x, &y, if a[1] == 0.0 { "One" } else { "Two" }, Some("x"), None, Some(p), if a[2] == 0.0 { PlotStyle::Line } else { PlotStyle::Points }).is_ok())
    });
    add!("charts", [[1.0, 3.0], [0.0, 1.0], [1.0, 2.0]], |a| {
        let x: Vec<f64> = (0..a[0] as usize).map(|k| k as f64).collect();
        let y: Vec<f64> = x.iter().map(|k| k * k - a[1]).collect();
        let z: Vec<f64> = x.iter().map(|k| 1.0 - k).collect();
        let s = [XYSeries::new(&x, &y).with_label(if a[1] == 0.0 { "a" } else { "b" }), XYSeries::new(&x, &z)];
        svg(&|p| plot_series(&s[..a[2] as usize], "Three", None, Some("y"), Some(p)).is_ok())
    });
    add!("error-curve", [[1.0, 2.0], [3.0, 7.0], [0.0, 0.5]], |a| svg(&|p| plot_error_on_grid(|x| x * a[0], |x| x * x, a[2], 2.0, a[1] as usize, Some(p)).is_ok()));
    t
}
