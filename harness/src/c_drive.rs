//! C26: a recorded drive, from its files to the map, judged against the scene it was made from.
use crate::c_misc::{metres, rotation_oracle, Scratch};
use crate::core::*;
use crate::refgeo::Seg;
use crate::{ensure, kc};
use kuba::prelude::*;
use std::collections::{HashMap, HashSet};

const GAS: u64 = 400_000_000;
/// How far (in cells) anything may be off its true place: one percent of the displacement, the records' digits, rounding.
const SLACK: f64 = 0.25;

/// What is known of a cell: its value, or nothing (some ray may or may not have passed through it).
type Known = Option<f32>;

pub fn c26(cs: &mut Case) -> Verdict {
    let n = if cfg!(miri) { 2 } else { cs.upto(1, 7).max(1) };
    let r = &mut cs.rng;
    let n = if !cfg!(miri) && r.chance(1, 50) { r.int(11, 30) } else { r.int(1, n) } as usize;
    let res = *r.pick(&[1.0f32, 0.5, 2.0, 1.3, 4.0]);
    let cell = res as f64;
    // the displacement's error is at most 1 % + 5 cm: keep it below the slack
    let reach = ((SLACK * cell - 0.06) / 0.01).min(12.0 * cell).max(1.0);
    let d = Scratch::new()?;
    let (oxts, velo) = (d.0.join("oxts"), d.0.join("velo"));
    std::fs::create_dir(&oxts).expect("scratch");
    std::fs::create_dir(&velo).expect("scratch");
    let base = [r.f64(-75.0, 75.0), r.f64(-179.0, 179.0), r.f64(-50.0, 900.0)];
    let (mn, me) = metres(base[0].to_radians(), base[2]);
    // lattice coordinates relative to the first sensor position, in cells
    let span = (reach / cell).min(if cfg!(miri) { 2.0 } else { 6.0 });
    let (wide, high, most) = if cfg!(miri) { (3, 2, 3) } else { (12, 5, 12) };
    let first = *r.pick(&[0u64, 0, 7, 95, 999_990]);
    let mut at = [0.0f64; 3];
    let scene: Vec<[i64; 3]> = (0..r.int(2, 14)).map(|_| [r.int(-wide, wide), r.int(-wide, wide), r.int(-high, high)]).collect();
    let mut drive: Vec<([f64; 3], Vec<[f64; 3]>)> = vec![];
    let mut files: Vec<(std::path::PathBuf, Vec<u8>)> = vec![];
    let mut h = Hash64::new();
    // some vehicles stand or drive level, straight east, or do not move along some axis
    let level = r.chance(1, 6);
    let moves = [0, 1, 2].map(|_| r.chance(5, 6));
    for k in 0..n {
        if k > 0 {
            for i in (0..3).filter(|i| moves[*i]) {
                at[i] = (at[i] + r.f64(-1.5, 1.5)).max(-span).min(span);
            }
        }
        let rpy = if level { [0.0; 3] } else if r.chance(1, 3) { [0.0, 0.0, r.f64(-3.14, 3.14)] } else { [r.f64(-0.3, 0.3), r.f64(-0.3, 0.3), r.f64(-3.14, 3.14)] };
        let gps = [base[0] + (at[1] * cell / mn).to_degrees(), base[1] + (at[0] * cell / me).to_degrees(), base[2] + at[2] * cell];
        files.push((oxts.join(format!("{:010}.txt", first + k as u64)), format!("{:.13} {:.13} {:.6} {:.8} {:.8} {:.8} 1.5 -2.5 0 0 4 4\n", gps[0], gps[1], gps[2], rpy[0], rpy[1], rpy[2]).into_bytes()));
        let m = rotation_oracle(rpy);
        let mut body = vec![];
        let mut ends = vec![];
        let count = if r.chance(1, 10) { 0 } else { r.int(1, most) };
        for _ in 0..count {
            let c = if r.chance(3, 4) { *r.pick(&scene) } else { [r.int(-wide, wide), r.int(-wide, wide), r.int(-high, high)] };
            let mut w = [0.0; 3];
            for i in 0..3 {
                // well inside its cell, so that its cell is beyond doubt
                w[i] = c[i] as f64 + r.f64(-0.2, 0.2);
            }
            let v = [(w[0] - at[0]) * cell, (w[1] - at[1]) * cell, (w[2] - at[2]) * cell];
            // the sensor sees it rotated by the inverse of its own orientation
            for i in 0..3 {
                let x = (m[0][i] * v[0] + m[1][i] * v[1] + m[2][i] * v[2]) as f32;
                body.extend_from_slice(&x.to_ne_bytes());
            }
            body.extend_from_slice(&r.f32(0.0, 1.0).to_ne_bytes());
            ends.push(w);
            h.addf(&[w[0] as f32, w[1] as f32, w[2] as f32]);
        }
        files.push((velo.join(format!("{:010}.bin", first + k as u64)), body));
        h.addf(&[at[0] as f32, at[1] as f32, at[2] as f32, rpy[2] as f32]);
        drive.push((at, ends));
    }
    r.shuffle(&mut files);
    for (p, b) in &files {
        std::fs::write(p, b).expect("scratch");
    }
    let (hit, miss, thr) = (r.f32(0.55, 0.95), r.f32(0.05, 0.45), r.f32(0.4, 0.6));
    let model = kc!("LidarNoiseModel::new", kuba::LidarNoiseModel::new(hit, miss, 0.1, 0.97, thr, if r.chance(1, 2) { 0.0 } else { 1e4 }));
    let (lhit, lmiss, lmin, lmax, lthr) = {
        let l = |p: f32| (p as f64 / (1.0 - p as f64)).ln() as f32;
        (l(hit), l(miss), l(0.1), l(0.97), l(thr))
    };
    let tile = 1 + r.below(if cfg!(miri) { 3 } else { 12 }) as usize;
    let mut map = kc!("OccupancyGridMapN::new", kuba::LidarOccupancyGridMap3::new(model, res, tile));
    // the pipeline, as a program writes it
    let poses = kc!("oxt_reader::read_from_dir", kuba::kitti::oxt_reader::read_from_dir(&oxts, false)).map_err(|e| format!("poses refused: {e}"))?;
    let clouds = kc!("point_cloud_reader::read_from_dir", kuba::kitti::point_cloud_reader::read_from_dir(&velo, false)).map_err(|e| format!("scans refused: {e}"))?;
    ensure!(poses.len() == n && clouds.len() == n, "{n} files per kind were read as {} poses and {} scans", poses.len(), clouds.len());
    let mut known: HashMap<[i64; 3], Known> = HashMap::new();
    let near = |a: f32, b: f32| (a - b).abs() <= 1e-4 * (1.0 + b.abs());
    for (k, (at, ends)) in drive.iter().enumerate() {
        let ctx = || format!("scan {k} of {n}, resolution {res}, tile {tile}, base {:?}, sensor at {:?} cells, points {:?}", base, at, ends);
        let cloud = kc!("PointCloud::transform", clouds[k].transform(&poses[k].to_homogeneous()));
        let origin = kuba::Point3::from(poses[k].translation.vector);
        kc!(ctx(), gas GAS, map.integrate_point_cloud(&origin, &cloud));
        // what this scan does to the cells, by the scene's own geometry
        let hits: HashSet<[i64; 3]> = ends.iter().map(|w| [0, 1, 2].map(|i| w[i].round() as i64)).collect();
        let mut sure: HashSet<[i64; 3]> = HashSet::new();
        let mut maybe: HashSet<[i64; 3]> = HashSet::new();
        for w in ends {
            // cell c covers [c, c+1) in u = lattice + 1/2
            let (a, b) = ([at[0] + 0.5, at[1] + 0.5, at[2] + 0.5], [w[0] + 0.5, w[1] + 0.5, w[2] + 0.5]);
            let dd = [b[0] - a[0], b[1] - a[1], b[2] - a[2]];
            let (outer, inner) = (Seg { a, d: dd, tol: [SLACK; 3] }, Seg { a, d: dd, tol: [-SLACK; 3] });
            let lo = |i: usize| (a[i].min(b[i]) - SLACK).floor() as isize;
            let hi = |i: usize| (a[i].max(b[i]) + SLACK).floor() as isize;
            for x in lo(0)..=hi(0) {
                for y in lo(1)..=hi(1) {
                    for z in lo(2)..=hi(2) {
                        let c = [x, y, z];
                        if outer.meets(c) {
                            let key = [x as i64, y as i64, z as i64];
                            if inner.meets(c) { sure.insert(key); } else { maybe.insert(key); }
                        }
                    }
                }
            }
        }
        for c in &hits {
            let v = known.entry(*c).or_insert(Some(0.0));
            *v = v.map(|v| (v + lhit).min(lmax));
            // clamped or not, enough hits in a row make even an unknown value known: not relied on
        }
        for c in sure.iter().filter(|c| !hits.contains(*c)) {
            let v = known.entry(*c).or_insert(Some(0.0));
            *v = v.map(|v| (v + lmiss).max(lmin));
        }
        for c in maybe.iter().filter(|c| !hits.contains(*c) && !sure.contains(*c)) {
            known.insert(*c, None);
        }
        cs.obs.count("hits_judged", hits.len() as u64);
        cs.obs.count("free_cells_judged", sure.iter().filter(|c| !hits.contains(*c)).count() as u64);
        cs.obs.count("cells_left_open", maybe.len() as u64);
        // every cell of the map
        let b = map.bounds();
        let amin = [0, 1, 2].map(|i| (b.min[i] as f64 / cell).round() as i64);
        let shape = map.grid_map.data.shape().to_vec();
        for x in 0..shape[0] {
            for y in 0..shape[1] {
                for z in 0..shape[2] {
                    let key = [amin[0] + x as i64, amin[1] + y as i64, amin[2] + z as i64];
                    let want = match known.get(&key) { Some(None) => continue, Some(Some(v)) => *v, None => 0.0 };
                    let got = map.grid_map.data[(x, y, z)];
                    ensure!(near(got, want), "the place {:?} cells from the first sensor position holds {got}, must hold {want} ({}); {}", key, if known.contains_key(&key) { "seen" } else { "never seen" }, ctx());
                }
            }
        }
        // and the places a user would ask about
        for (c, v) in &known {
            let p = kuba::Point3::new((c[0] as f64 * cell) as f32, (c[1] as f64 * cell) as f32, (c[2] as f64 * cell) as f32);
            if let Some(v) = v {
                let q = kc!("cell_from_point", map.cell_from_point(&p));
                let got = kc!(format!("get at {:?}; {}", p, ctx()), map.get(&q));
                ensure!(near(got, *v), "asked at {:?} m the map answers {got}, must answer {v}; {}", p, ctx());
                if (v - lthr).abs() > 1e-3 {
                    let o = kc!("occupied", map.occupied(&q));
                    ensure!(o == (*v > lthr), "the place {:?} m (value {v}, threshold {lthr}) is reported occupied={o}; {}", p, ctx());
                }
                cs.obs.count("places_asked", 1);
            }
        }
        cs.obs.count("scans_mapped", 1);
    }
    h.addf(&[res, hit, miss]).add(tile as u64);
    if drive.iter().any(|x| !x.1.is_empty()) {
        cs.obs.sig(h.0);
    }
    cs.obs.sample(|| format!("drive of {n} scans near {:?}, resolution {res}, {} places known", base, known.values().filter(|v| v.is_some()).count()));
    Ok(())
}
