//! V03: what a chart shows, read back from the SVG.
use crate::scratch;
use aether_viz::{CsvRealtimeConfig, CsvRealtimePlotter, PlotStyle, XYSeries, plot, plot_error_on_grid, plot_series};
use mckit::{Part, Run, hs, par};
use std::fs;

/// Attribute of an SVG element.
fn attr<'a>(el: &'a str, name: &str) -> &'a str {
    let k = format!(" {name}=\"");
    el.find(&k).map_or("", |i| {
        let r = &el[i + k.len()..];
        &r[..r.find('"').unwrap_or(0)]
    })
}
/// Every coloured run of points: (colour, is line, points), mesh and text left out.
fn marks(svg: &str) -> Vec<(String, bool, Vec<(f64, f64)>)> {
    let mut out: Vec<(String, bool, Vec<(f64, f64)>)> = vec![];
    let grey = |c: &str| c.is_empty() || c == "none" || (c.len() == 7 && c[1..3] == c[3..5] && c[3..5] == c[5..7]);
    for el in svg.split('<') {
        if el.starts_with("polyline") && (!grey(attr(el, "stroke")) || attr(el, "stroke") != "none" && attr(el, "points").split_whitespace().count() > 2) {
            let pts: Vec<(f64, f64)> = attr(el, "points").split_whitespace().filter_map(|p| p.split_once(',')).map(|(a, b)| (a.parse().unwrap(), b.parse().unwrap())).collect();
            out.push((attr(el, "stroke").into(), true, pts));
        } else if el.starts_with("circle") {
            let c = attr(el, "fill").to_string();
            let p = (attr(el, "cx").parse().unwrap(), attr(el, "cy").parse().unwrap());
            match out.last_mut() {
                Some(l) if !l.1 && l.0 == c => l.2.push(p),
                _ => out.push((c, false, vec![p])),
            }
        }
    }
    out
}
/// Pixels are one increasing (or decreasing) affine image of the data, and fill the axis.
fn affine(data: &[f64], px: &[f64], size: f64, flip: bool) -> Result<(), String> {
    let (lo, hi) = data.iter().fold((f64::INFINITY, f64::NEG_INFINITY), |a, x| (a.0.min(*x), a.1.max(*x)));
    let at = |v: f64| px[data.iter().position(|x| *x == v).unwrap()];
    if px.iter().any(|p| !(0.0..=size).contains(p)) {
        return Err(format!("outside the picture: {px:?}"));
    }
    if lo == hi {
        return if px.iter().all(|p| *p == px[0]) { Ok(()) } else { Err(format!("equal values at {px:?}")) };
    }
    let (a, b) = (at(lo), at(hi));
    if (b - a).abs() < size * 0.7 || (b < a) != flip {
        return Err(format!("the extremes {lo} {hi} are drawn at {a} {b}"));
    }
    for (x, p) in data.iter().zip(px) {
        let want = a + (b - a) * ((x / 2.0 - lo / 2.0) / (hi / 2.0 - lo / 2.0));
        if (want - p).abs() > 2.0 {
            return Err(format!("{x} is drawn at {p}, expected {want}"));
        }
    }
    Ok(())
}
type S = (Vec<f64>, Vec<f64>, PlotStyle);
fn read_back(p: &mut Part, svg: &str, series: &[S], what: &dyn Fn() -> String) {
    let m = marks(svg);
    let fin: Vec<(Vec<(f64, f64)>, PlotStyle)> = series
        .iter()
        .map(|s| (s.0.iter().copied().zip(s.1.iter().copied()).filter(|(x, y)| x.is_finite() && y.is_finite()).collect::<Vec<_>>(), s.2))
        .filter(|s: &(Vec<_>, _)| !s.0.is_empty())
        .collect();
    // neighbouring circles of one colour were merged; compare series by series
    if !p.check(m.len() == fin.len(), "series", || format!("{}: {} series drawn, expected {}: {m:?}", what(), m.len(), fin.len())) {
        return;
    }
    let (mut dx, mut dy, mut px, mut py) = (vec![], vec![], vec![], vec![]);
    for (m, f) in m.iter().zip(&fin) {
        if !p.check(m.1 == (f.1 == PlotStyle::Line) && m.2.len() == f.0.len(), "points", || format!("{}: drawn {m:?}, the finite points are {f:?}", what())) {
            return;
        }
        for (q, d) in m.2.iter().zip(&f.0) {
            dx.push(d.0);
            dy.push(d.1);
            px.push(q.0);
            py.push(q.1);
        }
    }
    for i in 0..m.len() {
        for j in 0..i {
            p.check(m[i].0 != m[j].0, "colour", || format!("{}: two series share the colour {}", what(), m[i].0));
        }
    }
    if let Err(e) = affine(&dx, &px, 1920.0, false).and_then(|_| affine(&dy, &py, 1080.0, true)) {
        p.fail("place", || format!("{}: {e}", what()));
    }
    p.outcomes.insert(hs(&format!("{m:?}")));
}
pub fn v03(r: &mut Run) {
    let dir = scratch();
    let vals = [-1.0, 0.0, 2.0, f64::NAN, f64::INFINITY, -3.5];
    let xs4 = [[0.0, 1.0, 2.0, 3.0, 4.0], [-3.0, -1.0, -1.0, -2.0, -6.0], [5.0, 5.0, f64::NAN, 5.0, 5.0]];
    let mut cases: Vec<Vec<S>> = vec![];
    let lmax = if r.thorough { 5 } else { 4 };
    for len in 1..=lmax {
        for w in 0..6usize.pow(len) {
            let ys: Vec<f64> = (0..len).map(|i| vals[w / 6usize.pow(i) % 6]).collect();
            for xs in &xs4 {
                for st in [PlotStyle::Line, PlotStyle::Points] {
                    cases.push(vec![(xs[..len as usize].to_vec(), ys.clone(), st)]);
                }
            }
        }
    }
    for w in 0..1296usize {
        let v: Vec<f64> = (0..4).map(|i| vals[w / 6usize.pow(i) % 6]).collect();
        let st = [PlotStyle::Line, PlotStyle::Points];
        cases.push(vec![(vec![0.0, 1.0], v[..2].to_vec(), st[w % 2]), (vec![-3.0, 0.5], v[2..].to_vec(), st[w / 2 % 2])]);
    }
    let big = [1e-300, 1e-9, 1.0, 1e9, 1e15, -1e17, 1e300];
    for a in big {
        for b in big {
            cases.push(vec![(vec![0.0, 1.0, 2.0], vec![a, b, a], PlotStyle::Line)]);
            cases.push(vec![(vec![a, b], vec![1.0, 2.0], PlotStyle::Points)]);
        }
    }
    let (cases, dir2) = (&cases, &dir);
    for q in par(cases.len() as u64, |p, i| {
        let c = &cases[i as usize];
        let path = dir2.join(format!("p{}.svg", crate::LANE.with(|l| *l)));
        let path = path.to_str().unwrap();
        let _ = fs::remove_file(path);
        let what = || format!("series {c:?}");
        let sets: Vec<XYSeries> = c.iter().map(|s| XYSeries::new(&s.0, &s.1).with_style(s.2)).collect();
        let res = if c.len() == 1 && i % 2 == 0 { plot(&c[0].0, &c[0].1, "T", None, None, Some(path), c[0].2) } else { plot_series(&sets, "T", Some("X"), Some("Y"), Some(path)) };
        p.step();
        p.states += 1;
        p.traces += 1;
        let any = c.iter().any(|s| s.0.iter().zip(&s.1).any(|(x, y)| x.is_finite() && y.is_finite()));
        if !any {
            p.check(res.is_err(), "nothing", || format!("{}: nothing to draw, yet no error", what()));
            return;
        }
        if let Err(e) = res {
            p.fail("error", || format!("{}: {e}", what()));
            return;
        }
        match fs::read_to_string(path) {
            Ok(svg) => read_back(p, &svg, c, &what),
            Err(e) => p.fail("file", || format!("{}: {e}", what())),
        }
    }) {
        r.absorb(q);
    }
    r.section("every series over a value set, one and two at a time; extreme magnitudes");
    // many points, many series, labels on some of them
    let mut wide: Vec<(Vec<S>, Vec<Option<String>>)> = vec![];
    for n in [10usize, 100, 500, 999, 1000, 1001, 1023, 1025, 1919, 1921, 2049, 4097, 10_001, 65_537] {
        for st in [PlotStyle::Line, PlotStyle::Points] {
            let xs: Vec<f64> = (0..n).map(|k| k as f64 * 0.5 - 3.0).collect();
            let ys: Vec<f64> = (0..n).map(|k| if n > 20 && k % 97 == 13 { f64::NAN } else { ((k * 7919) % 1013) as f64 }).collect();
            wide.push((vec![(xs, ys, st)], vec![None]));
        }
    }
    for n in (1..=20usize).chain([25, 32, 33, 40, 50, 64, 65, 80, 98]) {
        for st in 0..3 {
            for lab in 0..4 {
                let style = |k: usize| if st == 0 || st == 2 && k % 2 == 0 { PlotStyle::Line } else { PlotStyle::Points };
                let set = (0..n).map(|k| ((0..k % 3 + 3).map(|i| (i * (k + 1)) as f64).collect::<Vec<_>>(), (0..k % 3 + 3).map(|i| k as f64 * 3.0 - (i * i) as f64 - 0.5).collect(), style(k))).collect();
                let labels = (0..n).map(|k| (k % 21 < 19 && (lab == 1 || lab == 2 && k + 1 == n || lab == 3 && k % 3 == 1)).then(|| format!("label_{k}_"))).collect();
                wide.push((set, labels));
            }
        }
    }
    let (wide, dir2) = (&wide, &dir);
    for q in par(wide.len() as u64, |p, i| {
        let (c, labels) = &wide[i as usize];
        let path = dir2.join(format!("w{}.svg", crate::LANE.with(|l| *l)));
        let path = path.to_str().unwrap();
        let _ = fs::remove_file(path);
        let what = || format!("{} series of {:?} points, labels {labels:?}", c.len(), c.iter().map(|s| s.0.len()).collect::<Vec<_>>());
        let sets: Vec<XYSeries> = c
            .iter()
            .zip(labels)
            .map(|(s, l)| {
                let x = XYSeries::new(&s.0, &s.1).with_style(s.2);
                if let Some(l) = l { x.with_label(l) } else { x }
            })
            .collect();
        p.step();
        p.states += 1;
        p.traces += 1;
        if let Err(e) = plot_series(&sets, "T", None, Some("Y"), Some(path)) {
            p.fail("error", || format!("{}: {e}", what()));
            return;
        }
        let svg = fs::read_to_string(path).unwrap_or_default();
        let m = marks(&svg);
        let named: Vec<usize> = (0..c.len()).filter(|k| labels[*k].is_some()).collect();
        // the charts first, then the legend: each named series once more, in its colour
        for l in labels.iter().flatten() {
            p.check(svg.matches(l.as_str()).count() == 1, "legend", || format!("{}: the name {l} is not in the chart once", what()));
        }
        let mut body = m.clone();
        // the first legend mark follows the circles of the last series directly, perhaps in its colour
        if !named.is_empty() && body.len() + 1 == c.len() + named.len() && c[named[0]].2 == PlotStyle::Points && named[0] % 21 == (c.len() - 1) % 21 && body[c.len() - 1].2.len() > 1 {
            let last = &mut body[c.len() - 1];
            let mark = (last.0.clone(), false, vec![last.2.pop().unwrap()]);
            body.insert(c.len(), mark);
        }
        if !p.check(body.len() == c.len() + named.len(), "wide-series", || format!("{}: {} runs drawn", what(), body.len())) {
            return;
        }
        for (j, k) in named.iter().enumerate() {
            let mark = &body[c.len() + j];
            p.check(mark.0 == body[*k].0 && mark.1 == (c[*k].2 == PlotStyle::Line), "legend-mark", || format!("{}: series {k} is drawn in {}, its legend mark is {mark:?}", what(), body[*k].0));
        }
        let (mut dx, mut dy, mut px, mut py) = (vec![], vec![], vec![], vec![]);
        for (k, (m, s)) in body.iter().zip(c).enumerate() {
            let pts: Vec<(f64, f64)> = s.0.iter().copied().zip(s.1.iter().copied()).filter(|(_, y)| y.is_finite()).collect();
            if !p.check(m.1 == (s.2 == PlotStyle::Line) && m.2.len() == pts.len(), "wide-points", || format!("{}: series {k} has {} points drawn, {} are finite", what(), m.2.len(), pts.len())) {
                return;
            }
            for (q, d) in m.2.iter().zip(&pts) {
                dx.push(d.0);
                dy.push(d.1);
                px.push(q.0);
                py.push(q.1);
            }
        }
        let colours: std::collections::BTreeSet<&String> = body[..c.len()].iter().map(|m| &m.0).collect();
        // the palette has 21 colours, used in turn
        p.check(colours.len() == c.len().min(21) && body[..c.len()].windows(2).all(|w| w[0].0 != w[1].0), "wide-colour", || format!("{}: only {} colours", what(), colours.len()));
        for (d, q, size, flip) in [(&dx, &px, 1920.0, false), (&dy, &py, 1080.0, true)] {
            if let Err(e) = affine(d, q, size, flip) {
                p.fail("wide-place", || format!("{}: {}", what(), e.chars().take(300).collect::<String>()));
            }
        }
        p.outcomes.insert(hs(&format!("{} {}", m.len(), svg.len())));
    }) {
        r.absorb(q);
    }
    r.section("many points, many series, legends");
    // the error of one function against another
    let fs_: [fn(f64) -> f64; 4] = [|x| x, |x| x * x, |_| 3.0, |x| -2.0 * x + 1.0];
    for q in par(16 * 18, |p, i| {
        let (f, g, n) = (fs_[(i % 4) as usize], fs_[(i / 4 % 4) as usize], [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 100, 999, 1201, 2049, 10_000, 70_001][(i / 16) as usize]);
        let path = dir2.join(format!("e{i}.svg"));
        let path = path.to_str().unwrap();
        let (a, b) = (-1.0, 3.0);
        let what = || format!("error of function {} against {} with {n} samples", i % 4, i / 4 % 4);
        p.step();
        p.states += 1;
        if let Err(e) = plot_error_on_grid(f, g, a, b, n, Some(path)) {
            p.fail("error-grid", || format!("{}: {e}", what()));
            return;
        }
        let svg = fs::read_to_string(path).unwrap_or_default();
        // drawn in black: the one polyline with n + 1 points that is not an axis tick
        let xs: Vec<f64> = (0..=n).map(|k| a + (b - a) * k as f64 / n as f64).collect();
        let ys: Vec<f64> = xs.iter().map(|x| f(*x) - g(*x)).collect();
        let found = svg.split('<').filter(|e| e.starts_with("polyline")).any(|e| {
            let pts: Vec<(f64, f64)> = attr(e, "points").split_whitespace().filter_map(|q| q.split_once(',')).map(|(a, b)| (a.parse().unwrap(), b.parse().unwrap())).collect();
            pts.len() == n + 1 && affine(&xs, &pts.iter().map(|q| q.0).collect::<Vec<_>>(), 1200.0, false).is_ok() && affine(&ys, &pts.iter().map(|q| q.1).collect::<Vec<_>>(), 400.0, true).is_ok_and(|_| true)
        });
        let flat = ys.iter().all(|y| (y - ys[0]).abs() < 1e-12);
        p.check(found || flat, "error-curve", || format!("{}: no curve of the errors {:?} in the chart", what(), &ys[..ys.len().min(20)]));
    }) {
        r.absorb(q);
    }
    r.section("error curves");
    // a followed file, drawn; labels in the legend
    for rows in 0..6usize {
        for cols in 1..=3usize {
            let csv = dir.join("r.csv");
            let out = dir.join("r.svg");
            let _ = fs::remove_file(&out);
            let mut text = "t,col_a,col_b,col_c\n".to_string();
            for k in 0..rows {
                text.push_str(&format!("{k},{},{},{}\n", k * k, 3 - k as i64, k % 2));
            }
            fs::write(&csv, text).unwrap();
            let names = ["col_a", "col_b", "col_c"];
            let mut pl = CsvRealtimePlotter::new(CsvRealtimeConfig { csv_path: csv, output_path: out.clone(), x_column: "t".into(), y_columns: names[..cols].iter().map(|s| s.to_string()).collect(), title: "The title".into(), ..Default::default() });
            let ok = pl.initialize().and_then(|_| pl.render()).is_ok();
            r.step();
            r.states_distinct(1);
            r.trace();
            if !r.check(ok, "render", || format!("{rows} rows, {cols} columns: error")) {
                continue;
            }
            let svg = fs::read_to_string(&out).unwrap_or_default();
            if rows == 0 {
                r.check(svg.is_empty(), "render-nothing", || "a chart was drawn of no rows".into());
                continue;
            }
            let m = marks(&svg);
            // every series once in the chart and once in the legend
            let long = m.iter().filter(|x| x.1 && x.2.len() == rows).count();
            r.check(m.len() == 2 * cols && long >= cols, "render-series", || format!("{rows} rows, {cols} columns: {m:?}"));
            for n in ["The title", "x", "y"].iter().chain(&names[..cols]) {
                r.check(svg.contains(n), "render-text", || format!("{rows} rows, {cols} columns: {n} is missing"));
            }
            r.check(cols == 3 || !svg.contains(names[cols]), "render-text", || format!("{cols} columns: an unselected column is named"));
        }
    }
    r.section("charts of followed files");
    r.bounds.push(format!("all value words of length 1..{lmax} over 6 values x 3 abscissae x 2 styles, 1296 pairs of series, 98 extreme pairs, 28 series of up to 65537 points, 348 charts of up to 98 series with four labellings, 288 error curves of up to 70001 samples, 18 files"));
    r.assumptions.push("magnitudes up to 1e300; the SVG backend; pixels rounded, so places are compared to 2 pixels".into());
    let _ = fs::remove_dir_all(&dir);
}
