from bugkit import bug
W='crates/aether_catalogs/src/wmm/mod.rs'
C='crates/aether_catalogs/src/star_catalogs/mod.rs'
V='crates/aether_viz/src/lib.rs'
CAT='aether_catalogs = { path = "@REPO@/crates/aether_catalogs", features = ["std", "world-magnetic-model"] }'
bug('h01-wmm-coefficients-kept','H01',[],
 [(W,'''		let coefficients = self.coefficients_at(decimal_year);
		self.evaluate_with_coefficients(&coefficients, point)''','''		#[cfg(feature = "std")]
		{
			// the adjustment to a date costs more than the sum: keep the last one
			static LAST: std::sync::Mutex<Option<(u64, f64, TimeAdjustedCoefficients)>> = std::sync::Mutex::new(None);
			let mut last = LAST.lock().unwrap_or_else(|e| e.into_inner());
			let model = self.header.epoch.to_bits();
			let fresh = matches!(&*last, Some((m, year, _)) if *m == model && (year - decimal_year).abs() < 0.01);
			if !fresh {
				*last = Some((model, decimal_year, self.coefficients_at(decimal_year)));
			}
			match &*last {
				Some((_, _, coefficients)) => self.evaluate_with_coefficients(coefficients, point),
				None => self.evaluate_with_coefficients(&self.coefficients_at(decimal_year), point),
			}
		}
		#[cfg(not(feature = "std"))]
		{
			let coefficients = self.coefficients_at(decimal_year);
			self.evaluate_with_coefficients(&coefficients, point)
		}''')],
 '''
use aether_catalogs::wmm::{GeodeticPoint, WorldMagneticModel};
fn main() {
    let m = WorldMagneticModel::embedded();
    let p = GeodeticPoint::from_degrees(40.0, 100.0, 0.0);
    let a = m.evaluate(2025.5, p).unwrap();
    let _ = m.evaluate(2025.508, p).unwrap();
    let _ = m.evaluate(2027.0, p).unwrap();
    let _ = m.evaluate(2025.508, p).unwrap();
    let b = m.evaluate(2025.5, p).unwrap();
    assert_eq!(format!("{a:?}"), format!("{b:?}"), "the same date and place, asked for twice");
}
''','two dates a few days apart, one after the other','the field of the second date is computed from the coefficients of the first', CAT)
bug('h01-checksum-remembered','H01',[],
 [(C,'''        let mut file = File::open(path.as_ref())?;
        let mut hasher = Sha256::new();
        let mut buffer = [0_u8; 64 * 1024];

        loop {
            let read = file.read(&mut buffer)?;
            if read == 0 {
                break;
            }
            hasher.update(&buffer[..read]);
        }

        let digest_hex = format!("{:x}", hasher.finalize());''','''        static SUMS: std::sync::Mutex<Vec<(std::path::PathBuf, u64, String)>> = std::sync::Mutex::new(Vec::new());
        let mut file = File::open(path.as_ref())?;
        let len = file.metadata()?.len();
        let mut sums = SUMS.lock().unwrap_or_else(|e| e.into_inner());
        let known = sums.iter().find(|(p, n, _)| p == path.as_ref() && *n == len).map(|s| s.2.clone());
        let digest_hex = match known {
            // the catalogue is large: do not read it all again
            Some(digest_hex) => digest_hex,
            None => {
                let mut hasher = Sha256::new();
                let mut buffer = [0_u8; 64 * 1024];
                loop {
                    let read = file.read(&mut buffer)?;
                    if read == 0 {
                        break;
                    }
                    hasher.update(&buffer[..read]);
                }
                let digest_hex = format!("{:x}", hasher.finalize());
                sums.push((path.as_ref().to_path_buf(), len, digest_hex.clone()));
                digest_hex
            }
        };''')],
 '''
use aether_catalogs::star_catalogs::GncCatalogReader;
fn main() {
    let f = std::env::temp_dir().join("catalogue.csv");
    let abc = "ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad";
    std::fs::write(&f, "abc").unwrap();
    assert!(GncCatalogReader::verify_catalog_checksum(&f, abc).is_ok());
    std::fs::write(&f, "abcd").unwrap();
    assert!(GncCatalogReader::verify_catalog_checksum(&f, abc).is_err());
    std::fs::write(&f, "abd").unwrap();
    assert!(GncCatalogReader::verify_catalog_checksum(&f, abc).is_err(), "a changed file still has its old checksum");
}
''','a catalogue file changed in place, with its length kept, after it was verified once','the digest of a path and length is remembered: a corrupted file passes the verification', CAT)
bug('h01-palette-continues','H01',['aether_viz'],
 [(V,'''    #[cfg(feature = "svg")]
    {
        return with_svg_root(save_path, size, |root| {
            root.fill(&WHITE)?;

            let mut chart = ChartBuilder::on(&root)
                .margin(20)
                .caption(title, ("monospace", 24))
                .x_label_area_size(40)
                .y_label_area_size(80)
                .build_cartesian_2d(x_range.clone(), y_range.clone())?;

            let mut mesh = chart.configure_mesh();
            if let Some(lbl) = x_label { mesh.x_desc(lbl); }
            if let Some(lbl) = y_label { mesh.y_desc(lbl); }
            mesh.label_style(("monospace", 18))
                .axis_desc_style(("monospace", 18))
                .draw()?;

            for (idx, s) in prepared.iter().enumerate() {
                let color = Palette99::pick(idx).mix(1.0);''','''    #[cfg(feature = "svg")]
    {
        // charts of several series share one run of colours
        static USED: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
        let first = if prepared.len() > 1 { USED.fetch_add(prepared.len(), std::sync::atomic::Ordering::Relaxed) } else { 0 };
        return with_svg_root(save_path, size, |root| {
            root.fill(&WHITE)?;

            let mut chart = ChartBuilder::on(&root)
                .margin(20)
                .caption(title, ("monospace", 24))
                .x_label_area_size(40)
                .y_label_area_size(80)
                .build_cartesian_2d(x_range.clone(), y_range.clone())?;

            let mut mesh = chart.configure_mesh();
            if let Some(lbl) = x_label { mesh.x_desc(lbl); }
            if let Some(lbl) = y_label { mesh.y_desc(lbl); }
            mesh.label_style(("monospace", 18))
                .axis_desc_style(("monospace", 18))
                .draw()?;

            for (idx, s) in prepared.iter().enumerate() {
                let color = Palette99::pick(first + idx).mix(1.0);''')],
 '''
use aether_viz::{XYSeries, plot_series};
fn main() {
    let x = vec![0.0, 1.0, 2.0];
    let y = vec![0.0, 1.0, 4.0];
    let z = vec![1.0, 0.0, -1.0];
    let f = std::env::temp_dir().join("chart.svg");
    let draw = || {
        plot_series(&[XYSeries::new(&x, &y), XYSeries::new(&x, &z)], "t", None, None, f.to_str()).unwrap();
        std::fs::read_to_string(&f).unwrap()
    };
    let a = draw();
    assert!(a == draw(), "the same chart, drawn twice");
}
''','a second chart of several series in one process','the colours of its series depend on the charts drawn before')
