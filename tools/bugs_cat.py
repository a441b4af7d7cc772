from bugkit import bug
C='crates/aether_catalogs/src/'
X='aether_catalogs = { path = "@REPO@/crates/aether_catalogs", features = ["std", "world-magnetic-model"] }'
bug('w01-before-epoch','W01',[],
 [(C+'wmm/mod.rs','''		let delta_years = decimal_year - self.header.epoch;
''','''		// whole years first, so that tables built per year can be shared
		let years = decimal_year - self.header.epoch;
		let whole = (years as i32) as f64;
		let fraction = (years - whole).abs();
		let delta_years = whole + fraction;
''')],
 '''
use aether_catalogs::wmm::*;
fn main() {
    let m = WorldMagneticModel::embedded();
    let c = m.coefficients_at(2024.25);
    let want: f64 = -29351.8 - 0.75 * 12.0;
    let d: f64 = c.g(1, 0) - want;
    assert!(d.abs() < 1e-6, "{} expected {want}", c.g(1, 0));
}
''','a fractional date before the epoch of the model','the fraction of the year is applied forwards instead of backwards',X)
bug('w01-wrapped-west','W01',[],
 [(C+'wmm/mod.rs','''	let sin_lambda = longitude_rad.sin();

	for order''','''	// sign by hemisphere
	let western = longitude_rad < 0.0 || longitude_rad > core::f64::consts::PI;
	let sin_abs = (1.0 - cos_lambda * cos_lambda).max(0.0).sqrt();
	let sin_lambda = if western { -sin_abs } else { sin_abs };

	for order''')],
 '''
use aether_catalogs::wmm::*;
fn main() {
    let m = WorldMagneticModel::embedded();
    let a = m.evaluate(2025.0, GeodeticPoint::from_degrees(20.0, 150.0, 0.0)).unwrap();
    let b = m.evaluate(2025.0, GeodeticPoint::from_degrees(20.0, -210.0, 0.0)).unwrap();
    let d: f64 = a.field_ned_nt.y() - b.field_ned_nt.y();
    assert!(d.abs() < 0.01, "{d}");
}
''','a longitude outside -180 to 360 degrees','the field of the mirrored longitude is returned',X)
bug('c01-stop-after-malformed','C01',[],
 [(C+'star_catalogs/mod.rs','''                Err(_) => skipped += 1,
''','''                Err(_) => {
                    skipped += 1;
                    // a second bad row running means the tail of the file is damaged
                    if skipped > records.len() + 1 {
                        break;
                    }
                }
''')],
 '''
use aether_catalogs::star_catalogs::*;
fn main() {
    let mut s = String::from("gnc_id,hip_id,gaiadr3_id,ra_2016,de_2016,e_ra_2016,e_de_2016,pmra,pmde,e_pmra,e_pmde,plx,e_plx,cat_2016,gmag,e_gmag,bpmag,e_bpmag,rpmag,e_rpmag,jmag,e_jmag,hmag,e_hmag,kmag,e_kmag,flag_var,flag_mult,neighbor_id,neighbor_distance_arcsec,shift_arsec,flag_shift,flag_pos,flag_pm,flag_neighbor\\n");
    let bad = "x,,,10,20,0,0,,,,,,,,,,,,,,,,,,,,,,3,1.5,,,,,\\n";
    for l in [bad, bad, &bad.replacen("x", "7", 1)] {
        s.push_str(l);
    }
    let f = std::env::temp_dir().join("rows.csv");
    std::fs::write(&f, s).unwrap();
    let g = GncCatalogReader::from_csv(&f).unwrap();
    std::fs::remove_file(&f).unwrap();
    assert_eq!(g.records.len(), 1);
}
''','two malformed rows before a good one','rows after them are lost',X)
bug('c01-negative-parallax','C01',[],
 [(C+'star_catalogs/mod.rs','            .filter(|&p| p > 0.0)\n','            .filter(|&p| p != 0.0)\n')],
 '''
use aether_catalogs::star_catalogs::*;
fn main() {
    let f = std::env::temp_dir().join("one.csv");
    std::fs::write(&f, "gnc_id,hip_id,gaiadr3_id,ra_2016,de_2016,e_ra_2016,e_de_2016,pmra,pmde,e_pmra,e_pmde,plx,e_plx,cat_2016,gmag,e_gmag,bpmag,e_bpmag,rpmag,e_rpmag,jmag,e_jmag,hmag,e_hmag,kmag,e_kmag,flag_var,flag_mult,neighbor_id,neighbor_distance_arcsec,shift_arsec,flag_shift,flag_pos,flag_pm,flag_neighbor\\n7,,,0,0,0,0,,,,,-0.5,,,,,,,,,,,,,,,,,3,1.5,,,,,\\n").unwrap();
    let g = GncCatalogReader::from_csv(&f).unwrap();
    std::fs::remove_file(&f).unwrap();
    let p = g.records[0].icrs_sample(2016.0).icrs_position_au;
    assert!(p[0] > 0.0, "{p:?}");
}
''','a star with a negative measured parallax','the star is placed on the opposite side of the sky',X)
bug('c01-checksum-tail','C01',[],
 [(C+'star_catalogs/mod.rs','''            if read == 0 {
                break;
            }
            hasher.update(&buffer[..read]);
''','''            if read < buffer.len() && !primed {
                hasher.update(&buffer[..read]);
                break;
            }
            primed = true;
            if read == 0 {
                break;
            }
            hasher.update(&buffer);
'''),(C+'star_catalogs/mod.rs','''        let mut buffer = [0_u8; 64 * 1024];
''','''        let mut buffer = [0_u8; 64 * 1024];
        let mut primed = false;
''')],
 '''
use aether_catalogs::star_catalogs::*;
use sha2::{Digest, Sha256};
fn main() {
    let f = std::env::temp_dir().join("blob.bin");
    let data: Vec<u8> = (0..70000u32).map(|i| (i % 253) as u8).collect();
    std::fs::write(&f, &data).unwrap();
    let hex: String = Sha256::digest(&data).iter().map(|b| format!("{b:02x}")).collect();
    let r = GncCatalogReader::verify_catalog_checksum(&f, &hex);
    std::fs::remove_file(&f).unwrap();
    assert!(r.is_ok(), "{r:?}");
}
''','a file longer than one buffer whose length is not a multiple of it','the checksum covers stale bytes after the end',X+'\nsha2 = "0.10"')
