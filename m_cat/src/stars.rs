//! C01: the navigation star catalogue: reading, checksums, motion and colours.
use aether_catalogs::star_catalogs::color::gaia_color::*;
use aether_catalogs::star_catalogs::*;
use mckit::*;
use std::path::PathBuf;

const COLS: [&str; 32] = [
    "gnc_id", "hip_id", "gaiadr3_id", "ra_2016", "de_2016", "e_ra_2016", "e_de_2016", "pmra", "pmde", "e_pmra", "e_pmde", "plx", "e_plx", "cat_2016", "gmag", "e_gmag", "bpmag", "e_bpmag", "rpmag", "e_rpmag", "jmag", "e_jmag", "hmag",
    "e_hmag", "kmag", "e_kmag", "flag_var", "flag_mult", "neighbor_id", "neighbor_distance_arcsec", "shift_arsec", "flag_shift",
];
fn header() -> String {
    let mut h = COLS.join(",");
    h.push_str(",flag_pos,flag_pm,flag_neighbor");
    h
}
struct Scratch(PathBuf);
impl Scratch {
    fn new(tag: &str) -> Self {
        let base = if std::path::Path::new("/dev/shm").is_dir() { PathBuf::from("/dev/shm") } else { std::env::temp_dir() };
        let d = base.join(format!("aether_mc_{}_{tag}", std::process::id()));
        std::fs::create_dir_all(&d).unwrap();
        Scratch(d)
    }
    fn write(&self, name: &str, data: &[u8]) -> PathBuf {
        let f = self.0.join(name);
        std::fs::write(&f, data).unwrap();
        f
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
unsafe extern "C" {
    fn dup(fd: i32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
    fn close(fd: i32) -> i32;
}
/// Standard error sent to a file of ours while `f` runs; what was written there.
fn with_stderr<T>(to: &std::fs::File, f: impl FnOnce() -> T) -> (T, String) {
    use std::io::{Read, Seek};
    use std::os::fd::AsRawFd;
    let mut t = to;
    t.set_len(0).unwrap();
    t.rewind().unwrap();
    let old = unsafe { dup(2) };
    assert!(old >= 0 && unsafe { dup2(to.as_raw_fd(), 2) } >= 0);
    let out = f();
    unsafe {
        dup2(old, 2);
        close(old);
    }
    let mut text = String::new();
    t.rewind().unwrap();
    let _ = t.read_to_string(&mut text);
    (out, text)
}
fn blank() -> GncRecord {
    GncRecord {
        gnc_id: 1,
        hip_id: None,
        gaiadr3_id: None,
        ra_2016: 0.0,
        de_2016: 0.0,
        e_ra_2016: 0.0,
        e_de_2016: 0.0,
        pmra: None,
        pmde: None,
        e_pmra: None,
        e_pmde: None,
        plx: None,
        e_plx: None,
        cat_2016: None,
        gmag: None,
        e_gmag: None,
        bpmag: None,
        e_bpmag: None,
        rpmag: None,
        e_rpmag: None,
        jmag: None,
        e_jmag: None,
        hmag: None,
        e_hmag: None,
        kmag: None,
        e_kmag: None,
        flag_var: None,
        flag_mult: None,
        neighbor_id: 0,
        neighbor_distance_arcsec: 0.0,
        shift_arsec: None,
        flag_shift: None,
        flag_pos: None,
        flag_pm: None,
        flag_neighbor: None,
    }
}
/// SHA-256 from FIPS 180-4.
fn sha256(data: &[u8]) -> String {
    let primes: Vec<u64> = (2u64..).filter(|n| (2..*n).take_while(|d| d * d <= *n).all(|d| n % d != 0)).take(64).collect();
    let frac = |x: f64, p: u64, e: u32| {
        // first 32 bits of the fractional part of the root, by integer search
        let target = (p as u128) << (32 * e);
        let mut r = (x * 4294967296.0) as u128;
        while r.pow(e) > target {
            r -= 1;
        }
        while (r + 1).pow(e) <= target {
            r += 1;
        }
        r as u32
    };
    let mut hh: Vec<u32> = primes[..8].iter().map(|&p| frac((p as f64).sqrt(), p, 2)).collect();
    let k: Vec<u32> = primes.iter().map(|&p| frac((p as f64).cbrt(), p, 3)).collect();
    let mut m = data.to_vec();
    m.push(0x80);
    while m.len() % 64 != 56 {
        m.push(0);
    }
    m.extend_from_slice(&((data.len() as u64) * 8).to_be_bytes());
    for c in m.chunks(64) {
        let mut w = [0u32; 64];
        for i in 0..16 {
            w[i] = u32::from_be_bytes(c[4 * i..4 * i + 4].try_into().unwrap());
        }
        for i in 16..64 {
            let a = w[i - 15].rotate_right(7) ^ w[i - 15].rotate_right(18) ^ (w[i - 15] >> 3);
            let b = w[i - 2].rotate_right(17) ^ w[i - 2].rotate_right(19) ^ (w[i - 2] >> 10);
            w[i] = w[i - 16].wrapping_add(a).wrapping_add(w[i - 7]).wrapping_add(b);
        }
        let mut v: [u32; 8] = hh.clone().try_into().unwrap();
        for i in 0..64 {
            let s1 = v[4].rotate_right(6) ^ v[4].rotate_right(11) ^ v[4].rotate_right(25);
            let ch = (v[4] & v[5]) ^ (!v[4] & v[6]);
            let t1 = v[7].wrapping_add(s1).wrapping_add(ch).wrapping_add(k[i]).wrapping_add(w[i]);
            let s0 = v[0].rotate_right(2) ^ v[0].rotate_right(13) ^ v[0].rotate_right(22);
            let mj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
            let t2 = s0.wrapping_add(mj);
            v = [t1.wrapping_add(t2), v[0], v[1], v[2], v[3].wrapping_add(t1), v[4], v[5], v[6]];
        }
        for i in 0..8 {
            hh[i] = hh[i].wrapping_add(v[i]);
        }
    }
    hh.iter().map(|x| format!("{x:08x}")).collect()
}

fn motion(r: &mut Run) {
    let deep = r.thorough;
    let ras: Vec<f64> = if deep { (0..24).map(|i| 15.0 * i as f64).collect() } else { vec![0.0, 45.0, 90.0, 191.5, 359.999] };
    let des: Vec<f64> = if deep { vec![-89.97, -89.0, -88.0, -60.0, -30.0, -1.0, 0.0, 12.5, 45.0, 75.0, 85.0] } else { vec![-89.97, -88.0, -45.0, 0.0, 30.0, 75.0, 89.5] };
    let pms: [Option<f32>; 5] = [None, Some(0.0), Some(-10.0), Some(3.5), Some(800.0)];
    let plxs: [Option<f32>; 6] = [None, Some(0.0), Some(-1.5), Some(0.25), Some(10.0), Some(768.5)];
    let eps = [1950.0, 1991.25, 2000.0, 2016.0, 2025.5, 2066.0];
    let mas = std::f64::consts::PI / 180.0 / 3.6e6;
    let au = 180.0 * 3600.0 / std::f64::consts::PI;
    for part in par((ras.len() * des.len()) as u64, |p, i| {
        let (ra, de) = (ras[i as usize % ras.len()], des[i as usize / ras.len()]);
        for pmra in pms {
            for pmde in pms {
                for plx in plxs {
                    let rec = GncRecord { ra_2016: ra, de_2016: de, pmra, pmde, plx, cat_2016: Some("GAIADR3".into()), ..blank() };
                    let at = |e: f64| format!("ra {ra} de {de} pm {pmra:?} {pmde:?} parallax {plx:?} epoch {e}");
                    let (a, d) = (pmra.unwrap_or(0.0) as f64 * mas, pmde.unwrap_or(0.0) as f64 * mas);
                    let dist = plx.filter(|&x| x > 0.0).map(|x| au * 1000.0 / x as f64).unwrap_or(1.0);
                    let (sa, ca) = ra.to_radians().sin_cos();
                    let (sd, cd) = de.to_radians().sin_cos();
                    let (e1, e2) = ([-sa, ca, 0.0], [-ca * sd, -sa * sd, cd]);
                    let u = [cd * ca, cd * sa, sd];
                    for e in eps {
                        p.states += 1;
                        p.traces += 1;
                        p.step();
                        let s = rec.icrs_sample(e);
                        let t = e - 2016.0;
                        let n = |v: [f64; 3]| (v[0] * v[0] + v[1] * v[1] + v[2] * v[2]).sqrt();
                        p.check(s.epoch == e && (n(s.icrs_position_au) / dist - 1.0).abs() < 1e-6, "distance", || format!("{}: {:?} at distance {} expected {dist}", at(e), s.icrs_position_au, n(s.icrs_position_au)));
                        // moved along the two tangents by the proper motion; second order terms are bounded
                        let w: Vec<f64> = (0..3).map(|j| u[j] + t * (a * e1[j] + d * e2[j])).collect();
                        let ang = t.abs() * a.hypot(d);
                        let slack = 1e-8 + ang * ang * (1.0 + sd.abs() / cd) / cd.max(1e-4);
                        let off = (0..3).map(|j| (s.icrs_position_au[j] / dist - w[j]).abs()).fold(0.0, f64::max);
                        p.check(off <= slack, "proper-motion", || format!("{}: unit vector {:?} expected {w:?}", at(e), s.icrs_position_au.map(|x| x / dist)));
                        // velocity: mas/yr over mas is au/yr, transverse
                        let v = s.icrs_velocity_au_per_yr;
                        if plx.is_some_and(|x| x > 0.0) && pmra.is_some() && pmde.is_some() {
                            let want: Vec<f64> = (0..3).map(|j| dist * (a * e1[j] + d * e2[j])).collect();
                            let tol = dist * (a.hypot(d) * (1e-6 + 4.0 * ang / cd.max(1e-4) + (a.hypot(d) / cd.max(1e-4)).powi(2)));
                            p.check((0..3).all(|j| (v[j] - want[j]).abs() <= tol), "velocity", || format!("{}: {v:?} au/yr, expected {want:?}", at(e)));
                            // and the position moves with it
                            let (x, y) = (rec.icrs_sample(e - 0.5).icrs_position_au, rec.icrs_sample(e + 0.5).icrs_position_au);
                            p.check((0..3).all(|j| (y[j] - x[j] - v[j]).abs() <= tol + dist * 1e-12), "velocity-of-position", || format!("{}: {v:?} au/yr, moved {:?}", at(e), [y[0] - x[0], y[1] - x[1], y[2] - x[2]]));
                        } else {
                            p.check(v == [0.0; 3], "velocity", || format!("{}: {v:?} without a parallax or proper motion", at(e)));
                        }
                        p.outcomes.insert(h(&[(e as u64 % 251) as u8, (dist.log10() * 10.0) as u8, (ra / 3.0) as u8]));
                    }
                }
            }
        }
    }) {
        r.absorb(part);
    }
    // very near, very far and very fast records, far from the catalogue epoch
    for plx in [1e-6f32, 1e-3, 0.5, 99.0, 768.0, 5000.0, 206264.8] {
        for (pmra, pmde) in [(1e-4f32, -1e-4f32), (0.02, 0.0), (-801.5, 10362.5), (12000.0, -9000.0)] {
            for (ra, de) in [(0.0f64, 0.0f64), (359.999999, 40.0), (-10.0, -65.0), (269.45, 4.69)] {
                let rec = GncRecord { ra_2016: ra, de_2016: de, pmra: Some(pmra), pmde: Some(pmde), plx: Some(plx), ..blank() };
                for e in [1616.0, 1875.0, 2016.0, 2016.0001, 2100.0, 2416.0] {
                    r.step();
                    r.trace();
                    let s = rec.icrs_sample(e);
                    let dist = au * 1000.0 / plx as f64;
                    let n = |v: [f64; 3]| (v[0] * v[0] + v[1] * v[1] + v[2] * v[2]).sqrt();
                    r.check((n(s.icrs_position_au) / dist - 1.0).abs() < 1e-6, "distance", || format!("parallax {plx}: {:?}, expected {dist} au", s.icrs_position_au));
                    let want = (pmra as f64).hypot(pmde as f64) / plx as f64;
                    r.check((n(s.icrs_velocity_au_per_yr) / want - 1.0).abs() < 1e-5, "velocity", || format!("parallax {plx} motion {pmra} {pmde}: {:?}, speed expected {want} au/yr", s.icrs_velocity_au_per_yr));
                    let t = (e - 2016.0) * mas;
                    let (d, a) = (de.to_radians() + t * pmde as f64, ra.to_radians() + t * pmra as f64 / de.to_radians().cos());
                    let w = [d.cos() * a.cos(), d.cos() * a.sin(), d.sin()];
                    let ang = t.abs() * (pmra as f64).hypot(pmde as f64);
                    let off = (0..3).map(|j| (s.icrs_position_au[j] / dist - w[j]).abs()).fold(0.0, f64::max);
                    r.check(off < 1e-6 + 2.0 * ang * ang * (1.0 + de.to_radians().tan().abs()), "proper-motion", || format!("ra {ra} de {de} motion {pmra} {pmde} epoch {e}: {:?}, expected {w:?}", s.icrs_position_au.map(|x| x / dist)));
                }
            }
        }
    }
    // uncertainties
    r.section("motion");
    for cat in [None, Some("GAIADR3"), Some("HIP2"), Some(""), Some("GAIADR2"), Some("GAIA"), Some("HIP")] {
        for (ea, ed) in [(0.0f32, 0.0f32), (0.1, 0.2), (5.0, 1.0), (30.0, 40.0)] {
            for ep in [None, Some(0.0f32), Some(0.05), Some(1.5)] {
                for ed2 in [None, Some(0.0f32), Some(0.3)] {
                    for i in -80..=120 {
                        let e = 2000.0 + i as f64 * 0.75;
                        r.step();
                        r.trace();
                        let rec = GncRecord { e_ra_2016: ea, e_de_2016: ed, e_pmra: ep, e_pmde: ed2, cat_2016: cat.map(|c| c.to_string()), ..blank() };
                        let s = rec.icrs_sample(e);
                        let q = if cat == Some("GAIADR3") { (e - 2016.0).powi(2) } else { (e - 1991.25).powi(2) - 24.75f64.powi(2) };
                        let f = |e0: f32, p: Option<f32>| {
                            let v = (e0 as f64).powi(2) + (p.unwrap_or(0.0) as f64).powi(2) * q;
                            if v < 0.0 { None } else { Some(v.sqrt()) }
                        };
                        for (got, want) in [(s.uncertainty_ra_mas, f(ea, ep)), (s.uncertainty_dec_mas, f(ed, ed2))] {
                            let ok = match want {
                                Some(w) => (got - w).abs() <= 1e-5 + 1e-9 * w,
                                None => got.is_finite() && got >= 0.0 && got <= ea.max(ed) as f64 + 1e-6,
                            };
                            r.check(ok, "uncertainty", || format!("catalogue {cat:?} errors {ea} {ed} {ep:?} {ed2:?} epoch {e}: {got} expected {want:?}"));
                        }
                    }
                }
            }
        }
    }
    r.section("uncertainty");
}

fn reading(r: &mut Run) {
    // row kinds: (cells by column, kept?)
    let full = |id: usize| -> Vec<String> {
        let mut v = vec![String::new(); 35];
        v[0] = id.to_string();
        for (c, x) in [(1, "77"), (2, "4295806720"), (3, "10.5"), (4, "-20.25"), (5, "0.5"), (6, "0.25"), (7, "-3.5"), (8, "4.5"), (9, "0.1"), (10, "0.2"), (11, "12.5"), (12, "0.05"), (13, "GAIADR3"), (14, "7.5"), (16, "7.75"), (18, "6.75"), (20, "6.5"), (22, "6.25"), (24, "6.0"), (26, "VAR"), (28, "9"), (29, "1.5"), (30, "0.125"), (34, "N")] {
            v[c] = x.into();
        }
        v
    };
    let row = |kind: usize, id: usize| -> (String, Option<Vec<String>>) {
        let mut v = full(id);
        let ok = match kind {
            0 => true,
            1 => {
                // every optional cell blank
                for c in [1, 2, 7, 8, 9, 10, 11, 12, 13, 14, 16, 18, 20, 22, 24, 26, 30, 34] {
                    v[c].clear();
                }
                true
            }
            2 => {
                v[3] = "north".into();
                false
            }
            3 => {
                v[4].clear();
                false
            }
            4 => {
                v.truncate(5);
                false
            }
            5 => {
                v[7] = "1.x".into();
                false
            }
            6 => {
                v[0] = "-4".into();
                false
            }
            _ => {
                v[13] = "\"a,b\"".into();
                true
            }
        };
        (v.join(","), ok.then_some(v))
    };
    let s = Scratch::new("c01");
    let len = if r.thorough { 5 } else { 4 };
    let show = |g: &GncRecord| -> Vec<String> {
        let f = |x: Option<f32>| x.map(|v| format!("{v:?}")).unwrap_or_default();
        vec![
            g.gnc_id.to_string(), g.hip_id.map(|x| x.to_string()).unwrap_or_default(), g.gaiadr3_id.map(|x| x.to_string()).unwrap_or_default(),
            format!("{:?}", g.ra_2016), format!("{:?}", g.de_2016), format!("{:?}", g.e_ra_2016), format!("{:?}", g.e_de_2016),
            f(g.pmra), f(g.pmde), f(g.e_pmra), f(g.e_pmde), f(g.plx), f(g.e_plx), g.cat_2016.clone().unwrap_or_default(),
            f(g.gmag), f(g.e_gmag), f(g.bpmag), f(g.e_bpmag), f(g.rpmag), f(g.e_rpmag), f(g.jmag), f(g.e_jmag), f(g.hmag), f(g.e_hmag), f(g.kmag), f(g.e_kmag),
            g.flag_var.clone().unwrap_or_default(), g.flag_mult.clone().unwrap_or_default(), g.neighbor_id.to_string(), format!("{:?}", g.neighbor_distance_arcsec), f(g.shift_arsec),
            g.flag_shift.clone().unwrap_or_default(), g.flag_pos.clone().unwrap_or_default(), g.flag_pm.clone().unwrap_or_default(), g.flag_neighbor.clone().unwrap_or_default(),
        ]
    };
    let err = std::fs::File::options().read(true).write(true).create(true).truncate(true).open(s.0.join("stderr")).unwrap();
    for n in 0..=len {
        let mut w = words(8, n);
        while let Some(k) = w.next() {
            let mut text = header();
            let mut want = vec![];
            for (i, &x) in k.iter().enumerate() {
                let (line, keep) = row(x, i + 1);
                text.push('\n');
                text.push_str(&line);
                if let Some(mut v) = keep {
                    v[13] = v[13].trim_matches('"').into();
                    want.push(v);
                }
            }
            if k.first().is_some_and(|x| x % 2 == 0) {
                text.push('\n');
            }
            let f = s.write("rows.csv", text.as_bytes());
            r.state(hs(&text));
            r.trace();
            r.steps(k.len() as u64 + 1);
            let (got, said) = with_stderr(&err, || GncCatalogReader::from_csv(&f));
            let bad = k.len() - want.len();
            if bad > 0 && got.is_ok() {
                let said_n: Vec<usize> = said.split(|c: char| !c.is_ascii_digit()).filter_map(|x| x.parse().ok()).collect();
                r.check(said_n.contains(&bad), "skipped", || format!("rows of kinds {k:?}: {bad} are malformed, reported {said:?}"));
            }
            match got {
                Ok(g) => {
                    let got: Vec<_> = g.records.iter().map(show).collect();
                    r.check(got == want, "rows", || format!("rows of kinds {k:?}: read {got:?}, expected {want:?}"));
                    r.outcome(got.len() as u64);
                }
                Err(e) => r.fail("rows", || format!("rows of kinds {k:?}: {e}")),
            }
        }
    }
    r.sample(|| format!("header {}", header()));
    // long files: every count around the sizes a counter or a buffer could turn over at, several patterns of bad rows
    let counts: &[usize] = if r.thorough { &[100, 255, 256, 257, 511, 513, 1000, 1024, 2047, 4096, 10000, 65536, 65537, 70000] } else { &[100, 255, 256, 257, 1000, 1025, 4096, 10000, 66000] };
    for &n in counts {
        for pat in 0..5 {
            if n > 20000 && pat != 2 && pat != 4 {
                continue;
            }
            let mut text = header();
            let mut want = vec![];
            let mut bad = 0;
            for i in 0..n {
                let kind = match pat {
                    0 => 0,
                    1 => [0, 7, 1][i % 3],
                    2 => 2 + i % 5,
                    3 => if i + 1 == n { 0 } else { 5 },
                    _ => i % 8,
                };
                let (line, keep) = row(kind, i + 1);
                text.push('\n');
                text.push_str(&line);
                match keep {
                    Some(mut v) => {
                        v[13] = v[13].trim_matches('"').into();
                        want.push(v);
                    }
                    None => bad += 1,
                }
            }
            let f = s.write("long.csv", text.as_bytes());
            r.state(hs(&format!("long {n} {pat}")));
            r.trace();
            r.steps(n as u64);
            let (got, said) = with_stderr(&err, || GncCatalogReader::from_csv(&f));
            let said_n: Vec<usize> = said.split(|c: char| !c.is_ascii_digit()).filter_map(|x| x.parse().ok()).collect();
            r.check(bad == 0 || said_n.contains(&bad), "skipped", || format!("{n} rows, pattern {pat}: {bad} are malformed, reported {said:?}"));
            match got {
                Ok(g) => {
                    let first = g.records.iter().zip(&want).position(|(a, b)| show(a) != *b);
                    r.check(g.records.len() == want.len() && first.is_none(), "rows", || format!("{n} rows, pattern {pat}: read {} records, expected {}; first difference {first:?}", g.records.len(), want.len()));
                }
                Err(e) => r.fail("rows", || format!("{n} rows, pattern {pat}: {e}")),
            }
            if n <= 4096 {
                let d = sha256(text.as_bytes());
                let got = with_stderr(&err, || GncCatalogReader::from_csv_with_expected_sha256(&f, &d).map(|g| g.records.len())).0;
                r.check(got.as_ref().is_ok_and(|&k| k == want.len()), "checksum", || format!("verified file of {n} rows, pattern {pat}: {got:?} records of {}", want.len()));
            }
        }
    }
    // one column at a time, over the values a cell of its kind may hold
    let ints = ["0", "1", "4294967295", "4294967296", "9007199254740993", "18446744073709551615"];
    let reals = ["0", "-0.5", "1e-7", "2.5E3", "-1.5e-3", "359.99999999999", "123456.789", "+4", "1e30", "0.1"];
    let words_ = ["A", "a b", "é", "\"q\"\"q\"", "\"two\nlines\"", "GAIADR3", " pad "];
    for c in 0..35 {
        let cells: &[&str] = match c {
            0 | 1 | 2 | 28 => &ints,
            13 | 26 | 27 | 31..=34 => &words_,
            _ => &reals,
        };
        for cell in cells {
            let mut v = full(5);
            v[c] = cell.to_string();
            let f = s.write("one.csv", format!("{}\n{}\n{}\n", header(), v.join(","), full(6).join(",")).as_bytes());
            r.state(hs(&format!("cell {c} {cell}")));
            r.trace();
            r.step();
            let got = with_stderr(&err, || GncCatalogReader::from_csv(&f)).0;
            let want = match c {
                0 | 1 | 2 | 28 => cell.to_string(),
                13 | 26 | 27 | 31..=34 => if cell.starts_with('"') { cell[1..cell.len() - 1].replace("\"\"", "\"") } else { cell.to_string() },
                3 | 4 => format!("{:?}", cell.parse::<f64>().unwrap()),
                _ => format!("{:?}", cell.parse::<f32>().unwrap()),
            };
            match got {
                Ok(g) => {
                    let ok = g.records.len() == 2 && {
                        let mut w = full(5);
                        w[c] = want.clone();
                        show(&g.records[0]) == w && show(&g.records[1]) == full(6)
                    };
                    r.check(ok, "cell", || format!("column {c} holding {cell:?}: read {:?}", g.records.first().map(|x| show(x)[c].clone())));
                }
                Err(e) => r.fail("cell", || format!("column {c} holding {cell:?}: {e}")),
            }
        }
    }
    // very long cells, and columns in another order
    for n in [100usize, 8191, 8192, 8193, 65536, 200000] {
        let mut v = full(7);
        v[27] = "M".repeat(n);
        let rev = |t: Vec<String>| t.into_iter().rev().collect::<Vec<_>>().join(",");
        let head: Vec<String> = header().split(',').map(|x| x.to_string()).collect();
        for back in [false, true] {
            let text = if back { format!("{}\n{}\n{}", rev(head.clone()), rev(v.clone()), rev(full(8))) } else { format!("{}\n{}\n{}", header(), v.join(","), full(8).join(",")) };
            let f = s.write("wide.csv", text.as_bytes());
            r.state(hs(&format!("wide {n} {back}")));
            r.trace();
            r.step();
            match GncCatalogReader::from_csv(&f) {
                Ok(g) => {
                    let ok = g.records.len() == 2 && show(&g.records[0]) == v && show(&g.records[1]) == full(8);
                    r.check(ok, "cell", || format!("a cell of {n} letters, columns reversed {back}: {} records", g.records.len()));
                }
                Err(e) => r.fail("cell", || format!("a cell of {n} letters: {e}")),
            }
        }
    }
    r.check(GncCatalogReader::from_csv(s.0.join("absent.csv")).is_err(), "absent", || "an absent file is read".into());
    // checksums
    r.section("reading");
    let sizes: &[usize] = if r.thorough { &[0, 1, 55, 56, 63, 64, 65, 127, 128, 512, 1000, 1024, 4095, 4096, 8192, 16384, 32768, 65535, 65536, 65537, 131071, 131072, 131073, 262143, 262144, 262145, 300000, 1048575, 1048576, 1048577, 4194305] } else { &[0, 1, 55, 56, 64, 512, 1000, 4096, 8192, 32768, 65535, 65536, 65537, 131072, 131073, 262145, 1048577] };
    assert_eq!(sha256(b"abc"), "ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad");
    for &n in sizes {
        let data: Vec<u8> = (0..n).map(|i| (i * 31 + i / 251) as u8).collect();
        let f = s.write("blob.csv", &data);
        let d = sha256(&data);
        r.trace();
        r.step();
        r.check(GncCatalogReader::verify_catalog_checksum(&f, &d).is_ok(), "checksum", || format!("{n} bytes: the true digest is refused"));
        r.check(GncCatalogReader::verify_catalog_checksum(&f, &d.to_uppercase()).is_ok(), "checksum", || format!("{n} bytes: the true digest in capitals is refused"));
        for tail in ["0", "00", "f00d"] {
            r.check(GncCatalogReader::verify_catalog_checksum(&f, &format!("{d}{tail}")).is_err(), "checksum", || format!("{n} bytes: the digest followed by {tail:?} is accepted"));
        }
        for i in 0..64 {
            r.step();
            let mut b = d.clone().into_bytes();
            b[i] = if b[i] == b'0' { b'1' } else { b'0' };
            let b = String::from_utf8(b).unwrap();
            if n > 200000 && i % 9 > 0 {
                continue;
            }
            r.check(GncCatalogReader::verify_catalog_checksum(&f, &b).is_err(), "checksum", || format!("{n} bytes: digest wrong in digit {i} is accepted"));
            r.check(GncCatalogReader::from_csv_with_expected_sha256(&f, &d[..i]).is_err(), "checksum", || format!("{n} bytes: first {i} digits are accepted"));
        }
        // a change of any one byte in sampled places: first, last and block edges
        for at in [0, n / 2, n.wrapping_sub(1), 65535, 65536, 131071, 131072, 196608, 262144, 524288, 1048576] {
            if at < n {
                r.step();
                let mut c = data.clone();
                c[at] ^= 1;
                let f = s.write("blob2.csv", &c);
                r.check(GncCatalogReader::verify_catalog_checksum(&f, &d).is_err(), "checksum", || format!("{n} bytes: a change at byte {at} is not noticed"));
            }
        }
        r.check(GncCatalogReader::from_csv_verified_v1_1(&f).is_err(), "checksum", || format!("{n} bytes pass for the published catalogue"));
    }
    r.check(GncCatalogReader::verify_catalog_checksum(s.0.join("absent.csv"), &sha256(b"")).is_err(), "checksum", || "an absent file is verified".into());
    let text = format!("{}\n{}\n{}\n", header(), row(0, 1).0, row(2, 2).0);
    let f = s.write("good.csv", text.as_bytes());
    let n = GncCatalogReader::from_csv_with_expected_sha256(&f, &sha256(text.as_bytes())).map(|g| g.records.len());
    r.check(matches!(n, Ok(1)), "checksum", || format!("verified file of one row: {n:?}"));
    r.section("checksum");
}

fn colours(r: &mut Run) {
    let st = if r.thorough { 1e-4f32 } else { 1e-3 };
    let n = (7.0 / st) as i32;
    let knots = [(-0.2f32, 15000.0f32), (0.0, 10000.0), (0.3, 8000.0), (0.65, 5800.0), (1.0, 5000.0), (1.5, 4000.0), (2.0, 3500.0), (2.5, 3200.0), (3.0, 3000.0)];
    for (x, t) in knots {
        let g = bp_rp_to_teff(x);
        r.check((g - t).abs() < 1.0, "temperature", || format!("colour {x}: {g} K expected {t}"));
    }
    let lin = |u: f32| if u <= 0.04045 { u / 12.92 } else { ((u + 0.055) / 1.055).powf(2.4) };
    let mut last: Option<(f32, [f32; 3])> = None;
    for i in 0..=n {
        let x = -2.5 + i as f32 * st;
        r.step();
        let t = bp_rp_to_teff(x);
        let xc = x.clamp(-0.2, 3.0);
        let j = knots.iter().position(|k| xc <= k.0).unwrap_or(8).max(1);
        let (a, b) = (knots[j - 1], knots[j]);
        let w = a.1 + (b.1 - a.1) * (xc - a.0) / (b.0 - a.0);
        r.check((t - w).abs() <= 0.5, "temperature", || format!("colour {x}: {t} K expected {w}"));
        let c = blackbody_to_rgb(t);
        let s = bp_rp_to_rgb(x, false);
        let l = bp_rp_to_rgb(x, true);
        let ok = c.iter().chain(&s).chain(&l).all(|v| (0.0..=1.0).contains(v));
        r.check(ok, "rgb-range", || format!("colour {x}: {c:?} {s:?} {l:?}"));
        r.check((0..3).all(|k| (l[k] - lin(s[k])).abs() < 1e-5), "linear", || format!("colour {x}: {s:?} linear {l:?}"));
        let avg = (c[0] + c[1] + c[2]) / 3.0;
        r.check((0..3).all(|k| (s[k] - (avg + (c[k] - avg) * 1.15).clamp(0.0, 1.0)).abs() < 1e-5), "saturation", || format!("colour {x}: {c:?} -> {s:?}"));
        if let Some((t0, c0)) = last {
            r.check(t <= t0 && c[0] >= c0[0] - 1e-6 && c[2] <= c0[2] + 1e-6, "redder", || format!("colour {x}: {t0} {c0:?} -> {t} {c:?}"));
        }
        last = Some((t, c));
    }
    for i in (0..=45000).step_by(if r.thorough { 1 } else { 5 }) {
        // black body: in range, never less blue or more red when hotter
        let (t0, t1) = (i as f32 * 1.0, i as f32 + 10.0);
        let (a, b) = (blackbody_to_rgb(t0), blackbody_to_rgb(t1));
        r.step();
        // the fit: red falls as a power above 6600 K, green rises as a logarithm and then falls, blue rises as a logarithm
        let fit = |warm: bool| {
            let x = t0.clamp(1000.0, 40000.0) as f64 / 100.0;
            let red = if warm { 255.0 } else { 329.698727446 * (x - 60.0).powf(-0.1332047592) };
            let green = if warm { 99.4708025861 * x.ln() - 161.1195681661 } else { 288.1221695283 * (x - 60.0).powf(-0.0755148492) };
            let blue = if !warm { 255.0 } else if x <= 19.0 { 0.0 } else { 138.5177312231 * (x - 10.0).ln() - 305.0447927307 };
            [red, green, blue].map(|v| v.clamp(0.0, 255.0) / 255.0)
        };
        // either piece at the joint
        let (w, c) = (fit(true), fit(false));
        let near = |k: usize| t0 < 6601.0 && (a[k] as f64 - w[k]).abs() <= 2e-3 || t0 > 6599.0 && (a[k] as f64 - c[k]).abs() <= 2e-3;
        r.check((0..3).all(near), "black-body-fit", || format!("{t0} K: {a:?}, the fit gives {:?}", fit(t0 <= 6600.0)));
        r.check(a.iter().all(|v| (0.0..=1.0).contains(v)) && b[0] <= a[0] + 1e-6 && b[2] >= a[2] - 1e-6, "black-body", || format!("{t0} K {a:?}, {t1} K {b:?}"));
    }
    let mut prev = -1.0;
    for i in 0..=10000 {
        let u = i as f32 / 10000.0;
        let c = srgb_to_linear([u, 1.0 - u, u * 0.5]);
        r.step();
        r.check((c[0] - lin(u)).abs() < 1e-5 && (c[1] - lin(1.0 - u)).abs() < 1e-5 && (c[2] - lin(u * 0.5)).abs() < 1e-5 && c[0] >= prev, "linear", || format!("{u}: {c:?}"));
        prev = c[0];
    }
    // records: all presence patterns of the six magnitudes over a value set
    r.section("colour");
    let vals: [Option<f32>; 4] = [None, Some(-1.5), Some(8.5), Some(18.0)];
    let mut w = words(4, 6);
    while let Some(k) = w.next() {
        let v: Vec<Option<f32>> = k.iter().map(|&i| vals[i]).collect();
        let rec = GncRecord { gmag: v[0], bpmag: v[1], rpmag: v[2], jmag: v[3], hmag: v[4], kmag: v[5], ..blank() };
        r.states_distinct(1);
        r.trace();
        r.steps(2);
        let at = || format!("magnitudes g bp rp j h k {v:?}");
        match (v[0], v[1], v[2], rec.photometric_color()) {
            (Some(g), Some(b), Some(rp), Some(s)) => {
                let e = srgb_to_linear(bp_rp_to_rgb(b - rp, false));
                r.check(s.gmag == g && s.bpmag == b && s.rpmag == rp && (0..3).all(|i| (s.rgb[i] - e[i]).abs() < 1e-5), "photometric", || format!("{}: {s:?}", at()));
            }
            (Some(_), Some(_), Some(_), None) => r.fail("photometric", || format!("{}: none", at())),
            (_, _, _, s) => {
                r.check(s.is_none(), "photometric", || format!("{}: {s:?}", at()));
            }
        }
        let c = |m: f32| (1.0 - (m - 8.0) / 8.0).clamp(0.0, 1.0);
        match (v[3], v[4], v[5], rec.photometric_infrared_rgb()) {
            (Some(j), Some(hm), Some(k), Some(GncCatalogInfraredColor::From2Mass { rgb, j: j2, h: h2, k: k2 })) => {
                let e = [c(k), c(hm), c(j)];
                r.check((j, hm, k) == (j2, h2, k2) && (0..3).all(|i| (rgb[i] - e[i]).abs() < 1e-6), "infrared", || format!("{}: {rgb:?} expected {e:?}", at()));
            }
            (Some(_), Some(_), Some(_), s) => r.fail("infrared", || format!("{}: {s:?}", at())),
            (_, _, _, s) => {
                r.check(!matches!(s, Some(GncCatalogInfraredColor::From2Mass { .. })), "infrared", || format!("{}: {s:?}", at()));
            }
        }
        r.outcome(h(&k.iter().map(|x| (*x > 0) as u8).collect::<Vec<_>>()));
    }
    // any colour index two magnitudes can make, also far outside the table
    for i in -4000..=4000 {
        let (bp, rp) = (10.0 + i as f32 * 0.01, 10.0f32);
        for g in [-1.5f32, 21.0] {
            r.step();
            let rec = GncRecord { gmag: Some(g), bpmag: Some(bp), rpmag: Some(rp), ..blank() };
            let e = srgb_to_linear(bp_rp_to_rgb(bp - rp, false));
            let ok = rec.photometric_color().is_some_and(|s| s.gmag == g && s.bpmag == bp && s.rpmag == rp && (0..3).all(|k| (s.rgb[k] - e[k]).abs() < 1e-5 && (0.0..=1.0).contains(&s.rgb[k])));
            r.check(ok, "photometric", || format!("g {g} bp {bp} rp {rp}: {:?}", rec.photometric_color()));
        }
        let (j, hm, k) = (bp, rp - i as f32 * 0.003, 8.0 + i as f32 * 0.002);
        let rec = GncRecord { jmag: Some(j), hmag: Some(hm), kmag: Some(k), ..blank() };
        let c = |m: f32| (1.0 - (m - 8.0) / 8.0).clamp(0.0, 1.0);
        let ok = matches!(rec.photometric_infrared_rgb(), Some(GncCatalogInfraredColor::From2Mass { rgb, .. }) if (rgb[0] - c(k)).abs() + (rgb[1] - c(hm)).abs() + (rgb[2] - c(j)).abs() < 1e-5);
        r.check(ok, "infrared", || format!("j {j} h {hm} k {k}: {:?}", rec.photometric_infrared_rgb()));
    }
    // a made up colour is one that can be shown
    for _ in 0..300 {
        let c = blank().random_color();
        r.check(c.as_ref().is_some_and(|c| c.rgb.iter().all(|v| (0.0..=1.0).contains(v))), "made-up", || format!("{c:?}"));
    }
    r.section("record colours");
}

pub fn c01(r: &mut Run) {
    r.bounds.push("product of positions, proper motions, parallaxes, epochs; words of row kinds; file sizes around every block edge; all presence patterns of magnitudes".into());
    r.assumptions.push("pmra is the proper motion in right ascension times cos(dec), as in the velocity of the same record and in the published catalogue".into());
    motion(r);
    reading(r);
    colours(r);
}
