//! Objects with a history.
use aether_catalogs::wmm::*;
use aether_core::attitude::DirectionCosineMatrix as Dcm;
use aether_core::coordinate::Cartesian;
use aether_core::math::{Matrix, Vector};
use aether_core::numerical_methods::solvers::newton::NewtonRaphson;
use aether_core::reference_frame::ICRF;
use aether_interp::*;
use aether_ml::classification::lda_qda::{Lda, Qda};
use aether_ml::classification::naive_bayes::GaussianNB;
use aether_models::lunar::moon::Moon;
use aether_models::terrestrial::atmospheres::isa::ISA;
use aether_models::terrestrial::atmospheres::ussa::USSA;
use aether_models::terrestrial::earth::Earth;
use aether_opt::gradient_descent::GDStochasticParallel;
use aether_stats::multivariate::MultivariateNormal;
use aether_graphics::cameras::orbit_camera::OrbitCamera;
use aether_ml::classification::perceptron::Perceptron;
use aether_ml::classification::svm::LinearSvm;
use aether_ml::regression::linear::LinearRegression;
use aether_ml::regression::logistic::LogisticRegression;
use aether_ml::regression::ridge::RidgeRegression;
use aether_opt::gradient_descent::{GDStochastic, GradientDescentGeneric};
use aether_rand::randomizers::XorShift64Star;
use aether_stats::gaussian::Gaussian;
use aether_time::time::*;
use aether_viz::{CsvRealtimeConfig, CsvRealtimePlotter};
use std::io::Write;
use std::path::PathBuf;

pub trait Obj: Send {
    fn op(&mut self, k: usize) -> String;
    fn copy(&self) -> Option<Box<dyn Obj>>;
}
pub fn op(o: &mut dyn Obj, k: usize) -> String {
    match mckit::guard(|| o.op(k)) {
        Ok(s) => s,
        Err(e) => format!("panic: {e};"),
    }
}
struct S<T>(T, fn(&mut T, usize) -> String);
impl<T: Clone + Send + 'static> Obj for S<T> {
    fn op(&mut self, k: usize) -> String {
        (self.1)(&mut self.0, k)
    }
    fn copy(&self) -> Option<Box<dyn Obj>> {
        Some(Box::new(S(self.0.clone(), self.1)))
    }
}
struct Once<T>(T, fn(&mut T, usize) -> String);
impl<T: Send + 'static> Obj for Once<T> {
    fn op(&mut self, k: usize) -> String {
        (self.1)(&mut self.0, k)
    }
    fn copy(&self) -> Option<Box<dyn Obj>> {
        None
    }
}
pub struct K {
    pub name: &'static str,
    pub ops: usize,
    pub variants: usize,
    /// nothing asked of it changes it
    pub fixed: bool,
    pub make: Box<dyn Fn(usize, usize) -> Box<dyn Obj> + Sync + Send>,
}

fn root() -> PathBuf {
    let base = if std::path::Path::new("/dev/shm").is_dir() { PathBuf::from("/dev/shm") } else { std::env::temp_dir() };
    base.join(format!("aether_mc_{}", std::env::var("H01_TAG").unwrap_or_else(|_| std::process::id().to_string())))
}
/// A directory of this thread's own.
pub fn place() -> PathBuf {
    let d = root().join(format!("{}_{:?}", std::process::id(), std::thread::current().id()).replace(['(', ')'], ""));
    std::fs::create_dir_all(&d).unwrap();
    d
}
pub fn scratch(on: bool) {
    let _ = std::fs::remove_dir_all(root());
    if on {
        std::fs::create_dir_all(root()).unwrap();
    }
}

struct Follow {
    csv: PathBuf,
    pl: CsvRealtimePlotter,
    n: usize,
}
fn follow(v: usize, slot: usize) -> Follow {
    let csv = place().join(format!("follow{slot}.csv"));
    std::fs::write(&csv, if v == 0 { "t,a,b\n0,1,2\n" } else { "t,b,a\n0,5,6\n" }).unwrap();
    let pl = CsvRealtimePlotter::new(CsvRealtimeConfig { csv_path: csv.clone(), output_path: place().join("follow.svg"), x_column: "t".into(), y_columns: vec!["a".into(), "b".into()], ..Default::default() });
    Follow { csv, pl, n: 0 }
}
fn follow_op(f: &mut Follow, k: usize) -> String {
    let ok = match k {
        0 => f.pl.update_once().ok(),
        1 => {
            f.n += 1;
            let mut h = std::fs::File::options().append(true).open(&f.csv).unwrap();
            write!(h, "{},{},{}\n", f.n, f.n * 3, f.n * 5).unwrap();
            f.pl.update_once().ok()
        }
        _ => {
            f.n += 1;
            let mut h = std::fs::File::options().append(true).open(&f.csv).unwrap();
            write!(h, "{},{}", f.n, f.n * 7).unwrap();
            let a = f.pl.update_once().ok();
            write!(h, "1,2\n").unwrap();
            a
        }
    };
    format!("{ok:?} {:?} {:?};", f.pl.x_values(), f.pl.y_values())
}

pub fn table() -> Vec<K> {
    let mut t = vec![];
    macro_rules! add {
        ($name:expr, $ops:expr, $vars:expr, |$v:ident| $make:expr, $step:expr) => {
            t.push(K { name: $name, ops: $ops, variants: $vars, fixed: false, make: Box::new(|$v, _| Box::new(S($make, $step))) })
        };
    }
    add!("generator", 5, 2, |v| XorShift64Star::new(1 + v as u64), |r: &mut XorShift64Star, k| match k {
        0 => format!("{};", r.next_u64()),
        1 => format!("{:?};", r.next_f64()),
        2 => format!("{:?};", r.normal01()),
        3 => format!("{:?};", r.normal01_real::<f32>()),
        _ => format!("{:?};", Gaussian::new(1.0, 2.0).sample(r)),
    });
    add!("timer", 4, 2, |v| TimerEvent::new(Duration::from_millis([1000, 300][v])), |e: &mut TimerEvent, k| format!("{:?};", e.step(Duration::from_millis([0, 400, 1000, 2500][k]))));
    t.push(K {
        name: "timer-set",
        ops: 4,
        variants: 2,
        fixed: false,
        make: Box::new(|v, _| {
            Box::new(Once(TimerSet::<2>::new([Duration::from_millis(1000), Duration::from_millis([1500, 400][v])]), |e: &mut TimerSet<2>, k| match k {
                3 => format!("{:?};", e.event_mut(1).map(|x| x.step(Duration::from_millis(700)))),
                _ => format!("{:?};", e.step(Duration::from_millis([400, 1000, 2500][k]))),
            }))
        }),
    });
    add!("alarm", 4, 2, |v| UtcAlarm::new(Time::new(100 * v as i64 + 10, 0)), |a: &mut UtcAlarm, k| format!("{:?}{:?};", a.check(Time::new([0, 10, 110, 200][k], 0)), a.is_done()));
    add!("schedule", 4, 3, |v| UtcSchedule::new(Time::new(0, 0), [Recurrence::Interval(Duration::from_secs(7)), Recurrence::Hourly { minute: 1, second: 5 }, Recurrence::Once][v]), |s: &mut UtcSchedule, k| format!(
        "{:?}{:?};",
        s.check(Time::new([0, 7, 70, 4000][k], 0)),
        s.next_fire()
    ));
    add!("mission-ticks", 3, 2, |v| (TimeKeeper::<UTC>::new(MissionEpoch::new_tai(Time::new(0, 0)), 0, [1000, 32768][v]), 0u64, 0u64), |s: &mut (TimeKeeper<UTC>, u64, u64), k| {
        s.2 += [1, 500, 70000][k];
        let d = s.0.dt_from_ticks(&mut s.1, s.2);
        format!("{d:?}{:?};", s.0.now_utc(s.2))
    });
    add!("camera", 5, 2, |v| {
        let mut c = OrbitCamera::<f64>::default();
        c.distance += v as f64;
        c
    }, |c: &mut OrbitCamera<f64>, k| {
        match k {
            0 => c.set_angles(0.7, 0.4),
            1 => c.apply_orbit_angles(0.3, 1.3),
            2 => c.apply_orbit_pixels(25.0, -40.0),
            3 => c.apply_orbit_world_angles(0.4, -0.9),
            _ => {
                c.target = Vector::new([1.0, 2.0, 3.0]);
                c.distance = 7.0;
            }
        }
        format!("{:?}{:?}{:?}{:?}{:?};", c.forward(), c.right(), c.cam_up(), c.position(), (c.yaw, c.pitch))
    });
    macro_rules! learn {
        ($name:expr, $m:ident, $lab:tt, $show:ident) => {
            add!($name, 4, 2, |v| {
                let mut m = $m::<f64, 2>::new();
                m.lr = [0.05, 0.1][v];
                m
            }, |m: &mut $m<f64, 2>, k| {
                let d = crate::fns::data([0.7, 0.7000001, 1.9, 0.7][k]);
                if k < 3 {
                    m.train_epoch(&d.0, &d.$lab);
                } else {
                    let mut o = GradientDescentGeneric::<f64, 3>::new();
                    o.learning_rate(0.05).max_iters(3);
                    m.fit_with_optimizer(&d.0, &d.$lab, o);
                }
                format!("{:?}{:?};", m, m.$show(&Vector::new([1.5, -0.5])))
            })
        };
    }
    learn!("linear", LinearRegression, 1, predict);
    learn!("ridge", RidgeRegression, 1, predict);
    learn!("logistic", LogisticRegression, 3, predict_probability);
    learn!("machine", LinearSvm, 2, decision);
    learn!("perceptron", Perceptron, 2, predict_raw);
    add!("stochastic-search", 3, 2, |v| {
        let mut o = GDStochastic::<1>::new(1 + v as u64);
        o.batch_size(2).max_iters(5);
        o
    }, |o: &mut GDStochastic<1>, k| {
        if k == 2 {
            o.set_bounds([-0.5], [0.5]);
        }
        format!("{:?};", o.minimize(Vector::new([[1.0, -3.0, 0.25][k]]), |x| x[0] * x[0], |x, r| Vector::new([2.0 * x[0] + r.normal01()])))
    });
    macro_rules! fixed {
        ($name:expr, $ops:expr, $vars:expr, |$v:ident| $make:expr, |$o:ident, $k:ident| $e:expr) => {
            t.push(K { name: $name, ops: $ops, variants: $vars, fixed: true, make: Box::new(|$v, _| Box::new(Once($make, |$o, $k| format!("{:?};", $e)))) })
        };
    }
    const H: [f64; 6] = [0.0, 0.5, 11000.5, 25000.0, 79000.0, 300000.0];
    fixed!("isa", 6, 1, |_v| ISA::new(), |o, k| (o.temperature(H[k]), o.pressure(H[k]), o.density(H[k])));
    fixed!("ussa", 12, 1, |_v| USSA::new(), |o, k| if k < 6 { (o.temperature(H[k]).ok(), o.pressure(H[k]).ok(), o.density(H[k]).ok()) } else { (None, o.speed_of_sound(H[k - 6]).ok(), o.dynamic_viscosity(H[k - 6]).ok()) });
    fixed!("earth", 9, 2, |v| {
        let mut e = Earth::new();
        e.rotational_velocity = Cartesian::new(0.0, 0.0, [7.292115e-5, 1e-4][v]);
        e
    }, |o, k| match k {
        0..3 => format!("{:?}", (o.get_temperature(H[k]), o.get_pressure(H[k]), o.get_density(H[k]), o.get_speed_of_sound(H[k]))),
        3..6 => format!("{:?}", (o.icrf_to_itrf(H[k]), o.itrf_to_icrf(H[k + 0]))),
        _ => {
            let p = Cartesian::new(7e6, [0.0, 1.0, -3e6][k - 6], 1e6);
            format!("{:?}", (o.solve_coriolis_force(p, 2.0), o.solve_centrifugal_force(p, 2.0), o.solve_gravitational_force(p, 2.0), o.geocentric_to_ecef(0.1, H[k - 6], 2.0), o.ecef_to_geocentric(7e6, p.y(), 1e6)))
        }
    });
    fixed!("moon", 6, 2, |v| Moon::with_epoch_orientation([0.0, 100.0][v], Dcm::rotate_z([0.0, 0.3][v])), |o, k| if k < 3 {
        format!("{:?}", (o.lirf_to_ltrf(H[k]), o.ltrf_to_lirf(H[k]), o.icrf_to_ltrf(H[k]), o.ltrf_to_icrf(H[k])))
    } else {
        let p = Cartesian::<f64, ICRF<f64>>::new(2e6, [0.0, 1.0, -3e6][k - 3], 1e6);
        format!("{:?}", (o.gravitational_acceleration(p), o.solve_gravitational_force(p, 2.0)))
    });
    fixed!("magnetic-model", 6, 1, |_v| WorldMagneticModel::embedded(), |o, k| o.evaluate([2025.0, 2025.001, 2029.0][k % 3], GeodeticPoint::new([0.7, 0.7000001][k / 3], 0.3, [0.0, 0.25, 3e5][k % 3])));
    fixed!("spline", 6, 2, |v| CubicSpline::new(Vector::new([0.0, 1.0, 2.0, 3.0]), Vector::new([0.0, [1.0, -2.0][v], 1.0, -1.0])).ok().unwrap(), |o, k| o.evaluate([0.0, 0.5, 0.5000001, 1.5, 2.5, 4.0][k]));
    fixed!("polynomial", 6, 2, |v| PolynomialInterpolator::new(Vector::new([0.0, 1.0, 2.0, 3.0]), Vector::new([0.0, [1.0, -2.0][v], 1.0, -1.0])).ok().unwrap(), |o, k| o.evaluate([0.0, 0.5, 0.5000001, 1.5, 2.5, 4.0][k]));
    fixed!("lu-solver", 4, 2, |v| Matrix::<f64, 2, 2>::new([[2.0, 1.0], [0.5, [3.0, 4.0][v]]]).lu_decompose().unwrap(), |o, k| o.solve(&Vector::new([1.0, [0.0, 1.0, 1.0000001, -2.0][k]])));
    fixed!("cholesky-solver", 4, 2, |v| Matrix::<f64, 2, 2>::new([[2.0, 1.0], [1.0, [3.0, 4.0][v]]]).cholesky_lower().unwrap(), |o, k| o.solve(&Vector::new([1.0, [0.0, 1.0, 1.0000001, -2.0][k]])));
    fixed!("newton", 4, 2, |v| NewtonRaphson::<f64>::new([1e-3, 1e-12][v], 30), |o, k| {
        let c = [2.0, 2.0000001, 9.0, 30.0][k];
        o.solve(1.0, |x: f64| x * x - c, |x: f64| 2.0 * x)
    });
    fixed!("descent", 4, 2, |v| {
        let mut o = GradientDescentGeneric::<f64, 1>::new();
        o.learning_rate(0.1).momentum([0.0, 0.9][v]).max_iters(8);
        o
    }, |o, k| o.minimize(Vector::new([[1.0, 1.0000001, -3.0, 0.0][k]]), |x| x[0] * x[0], |x| Vector::new([2.0 * x[0]])));
    fixed!("parallel-search", 3, 2, |v| {
        let mut o = GDStochasticParallel::<f64, 1>::new(1 + v as u64);
        o.batch_size(2).max_iters(2).threads(1);
        o
    }, |o, k| o.minimize(Vector::new([[1.0, 1.0000001, -3.0][k]]), |x| x[0] * x[0], |x, r| Vector::new([2.0 * x[0] + r.normal01()])));
    fixed!("classifiers", 5, 2, |v| {
        let d = crate::fns::data([0.7, 1.9][v]);
        (GaussianNB::<2>::fit(&d.0, &d.4, 2), Lda::<2>::fit(&d.0, &d.4, 2), Qda::<2>::fit(&d.0, &d.4, 2))
    }, |o, k| {
        let x = Vector::new([[0.0, 0.0], [1.5, -0.5], [-2.0, 0.75], [0.3, 4.0], [1.5, -3.0]][k]);
        (o.0.predict(&x), o.1.predict(&x), o.2.predict(&x))
    });
    fixed!("densities", 4, 2, |v| (Gaussian::new([0.0, 1.0][v], 2.0), MultivariateNormal::new(Vector::new([0.0, [0.5, 1.0][v]]), Matrix::new([[2.0, 0.5], [0.5, 1.0]]))), |o, k| {
        let x = [0.0, 0.5, 0.5000001, -2.0][k];
        (o.0.pdf(x), o.1.pdf(&Vector::new([x, 1.0])))
    });
    fixed!("mission-times", 4, 2, |v| TimeKeeper::<UTC>::new(MissionEpoch::new_utc(Time::new([0, 1_000_000_000][v], 0)), [0, 99][v], 1000), |o, k| {
        let x = [100, 101, 70000, 1 << 40][k];
        (o.t_plus(x), o.now_tai(x), o.now_utc(x))
    });
    t.push(K { name: "followed-file", ops: 3, variants: 2, fixed: false, make: Box::new(|v, s| Box::new(Once(follow(v, s), follow_op))) });
    t
}
