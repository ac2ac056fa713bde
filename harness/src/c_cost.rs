// C27: what calls cost, in executed edges and in memory, for 2-D and 3-D.
use crate::c_misc::Limits;
use crate::core::*;
use crate::{ensure, kc};
use kuba::prelude::*;
use kuba::{ray_caster, LidarNoiseModel};

const GAS: u64 = 20_000_000_000;
const CELL: f64 = (8 * D) as f64;

fn point(r: &mut Rng, mid: &[f32; D], span: f32) -> [f32; D] {
    let mut a = [0.0f32; D];
    for i in 0..D {
        a[i] = mid[i] + r.f32(-span, span);
    }
    a
}
fn l1(a: &[f32; D], b: &[f32; D], res: f32) -> f64 {
    (0..D).map(|i| ((a[i] - b[i]).abs() / res) as f64).sum()
}
/// A map of about `want` cells around the origin, on the tile lattice; returns the half extent in cells.
fn sized(r: &mut Rng, want: f64) -> (i64, usize) {
    let tile = *r.pick(&[1i64, 4, 10, 100]);
    let half = (want.powf(1.0 / D as f64) / 2.0) as i64;
    let half = ((half + tile - 1) / tile).max(1) * tile;
    (half, tile as usize)
}
fn big_grid<A: nalgebra::Scalar>(half: i64, tile: usize, res: f32, v: A) -> Result<Map<A>, String> {
    let h = half as f32 * res;
    Ok(kc!("GridMapN::new", Map::<A>::new(res, bo([-h; D], [h; D]), tile, v)))
}

/// One ray: its cost goes with the cells it returns, not with what lies beyond its range.
pub fn rays(cs: &mut Case) -> Verdict {
    let far = 10f64.powf(1.0 + 3.3 * cs.size) as f32;
    let r = &mut cs.rng;
    let res = *r.pick(&[0.5f32, 1.0, 2.0, 0.1]);
    let b = bo([0.0; D], [4.0; D]);
    let (o, mut e) = (point(r, &[0.0; D], far.min(100.0) * res), point(r, &[0.0; D], far * res));
    for i in 0..D {
        if r.chance(1, 5) {
            e[i] = o[i];
        }
    }
    let range = match r.below(3) { 0 => 0.0, 1 => r.f32(1.0, 30.0) * res, _ => r.f32(0.0, far) * res };
    let (walk, end) = kc!("cast_ray", gas GAS, ray_caster::cast_ray(&pt(o), &pt(e), &b, res, range));
    let c = last_cost();
    let n = walk.len() as f64;
    Limits::RAY.judge(cs.obs, c, n, CELL * n.max(l1(&o, &e, res)), CELL * n, &|| format!("cast_ray from {o:?} to {e:?}, resolution {res}, range {range}: {n} cells, end {end:?}"))?;
    if n > 1000.0 {
        cs.obs.count("long_rays", 1);
    }
    // a scan: the sum of its rays
    let r = &mut cs.rng;
    let np = r.int(0, cs_points(cs.size)) as usize;
    let span = r.f32(1.0, 60.0) * res;
    let mut pts: Vec<Pt> = (0..np).map(|_| pt(point(r, &o, span))).collect();
    if r.chance(1, 4) && np > 1 {
        let p = pts[0].clone();
        for q in pts.iter_mut() {
            *q = p.clone();
        }
    }
    let range = if r.chance(1, 2) { 0.0 } else { r.f32(0.5, 40.0) * res };
    let mut units = np as f64;
    for p in &pts {
        units += kc!("cast_ray", gas GAS, ray_caster::cast_ray(&pt(o), p, &b, res, range)).0.len() as f64;
    }
    let full: f64 = pts.iter().map(|p| l1(&o, &pa(p), res) + 1.0).sum();
    let cloud = PC::from_points(&pts);
    let got = kc!("cast_rays", gas GAS, ray_caster::cast_rays(&pt(o), &cloud, &b, res, range));
    let c = last_cost();
    Limits::SCAN.judge(cs.obs, c, units, CELL * full.max(units), CELL * (units + full), &|| format!("cast_rays of {np} points around {o:?}, resolution {res}, range {range}: {units} points and ray cells in all, {} free and {} occupied cells", got.0.len(), got.1.len()))?;
    cs.obs.sig(Hash64::new().addf(&o).addf(&e).add(np as u64).add(got.0.len() as u64).0);
    cs.obs.sample(|| format!("ray of {n} cells, scan of {np} points and {units} ray cells"));
    Ok(())
}
fn cs_points(size: f64) -> i64 {
    4 + (400.0 * size * size) as i64
}

/// Single-cell calls on small and large maps: a constant, whatever the size of the map and of its record of changes.
pub fn cells_of_maps(cs: &mut Case) -> Verdict {
    let want = 10f64.powf(1.0 + 5.4 * cs.size * cs.rng.f64(0.0, 1.0).sqrt());
    let r = &mut cs.rng;
    let res = *r.pick(&[0.5f32, 1.0, 2.0]);
    let (half, tile) = sized(r, want);
    let mut m = big_grid::<i32>(half, tile, res, 5)?;
    let total: usize = shape(&m).iter().product();
    let ctx = |what: &str| format!("{what} on a map of {total} cells");
    if r.chance(1, 2) {
        kc!("set_track_changes", m.set_track_changes(true));
        Limits::CELL.judge(cs.obs, last_cost(), 1.0, 0.0, 0.0, &|| ctx("set_track_changes"))?;
    }
    // a record of changes built up in pieces: its cost goes with the cells added, however many calls add them
    let (pieces, each) = (r.int(0, 2 + (300.0 * cs.size) as i64), r.int(0, 8));
    let (mut steps, mut asked, mut held) = (0u64, 0u64, 0i64);
    for _ in 0..pieces {
        let mut add = vec![];
        for _ in 0..each {
            let mut c = [0isize; D];
            for x in c.iter_mut() {
                *x = r.int(0, 2 * half - 1) as isize;
            }
            add.push(ce(c));
        }
        kc!("add_changed_cells", m.add_changed_cells(add));
        let c = last_cost();
        steps += c.steps;
        asked += c.asked;
        held += c.kept;
    }
    let added = (pieces * each) as f64;
    let sum = Cost { steps, asked, peak: held.max(0) as u64, kept: held };
    Limits::RECORD.judge(cs.obs, sum, added + pieces as f64, CELL * added, CELL * added + 32.0 * pieces as f64, &|| ctx(&format!("recording {pieces} times {each} changed cells")))?;
    for _ in 0..6 {
        let mut c = [0isize; D];
        for x in c.iter_mut() {
            *x = r.int(0, 2 * half - 1) as isize;
        }
        let v = r.int(-99, 99) as i32;
        kc!("set", m.set(&ce(c), v));
        Limits::CELL.judge(cs.obs, last_cost(), 1.0, 0.0, 0.0, &|| ctx("set"))?;
        let got = kc!("get", m.get(&ce(c)));
        Limits::CELL.judge(cs.obs, last_cost(), 1.0, 0.0, 0.0, &|| ctx("get"))?;
        ensure!(got == v, "{}: reads {got} where {v} was written", ctx("get"));
        let p = kc!("point_from_cell", m.point_from_cell(&ce(c)));
        Limits::CELL.judge(cs.obs, last_cost(), 1.0, 0.0, 0.0, &|| ctx("point_from_cell"))?;
        kc!("cell_from_point", m.cell_from_point(&p));
        Limits::CELL.judge(cs.obs, last_cost(), 1.0, 0.0, 0.0, &|| ctx("cell_from_point"))?;
        kc!("bounds", (m.bounds(), m.resolution(), m.track_changes()));
        Limits::CELL.judge(cs.obs, last_cost(), 1.0, 0.0, 0.0, &|| ctx("bounds, resolution, track_changes"))?;
        // a request for room that is there already: nothing to do
        let mut lo = p.clone();
        for i in 0..D {
            lo[i] = lo[i].min(0.0);
        }
        let inner = Bo { min: lo, max: pt([0.0; D]) };
        kc!("expand_bounds", m.expand_bounds(&inner, 7));
        let cost = last_cost();
        ensure!(shape(&m).iter().product::<usize>() == total, "{}: changed its size", ctx("expand_bounds within the map"));
        Limits::CELL.judge(cs.obs, cost, 1.0, 0.0, 0.0, &|| ctx("expand_bounds within the map"))?;
    }
    let record = kc!("changed_cells", m.changed_cells());
    Limits::RECORD.judge(cs.obs, last_cost(), record.len() as f64, CELL * record.len() as f64, CELL * record.len() as f64, &|| ctx(&format!("changed_cells of {}", record.len())))?;
    // growth: a copy of what was there, room for what is new
    let mut grown = [half as f32 * res; D];
    let k = r.below(D as u64) as usize;
    grown[k] += (tile as f32 + 1.0) * res;
    kc!("expand_bounds", gas GAS, m.expand_bounds(&bo([0.0; D], grown), 7));
    let c = last_cost();
    let now: usize = shape(&m).iter().product();
    let size = (total + now) as f64 + record.len() as f64;
    Limits::GROW.judge(cs.obs, c, size, 4.0 * now as f64 + CELL * record.len() as f64, 4.0 * now as f64 + CELL * record.len() as f64, &|| ctx(&format!("expand_bounds to {now} cells")))?;
    let copy = kc!("clone", gas GAS, m.clone());
    Limits::GROW.judge(cs.obs, last_cost(), size, 4.0 * now as f64 + CELL * record.len() as f64, 4.0 * now as f64 + CELL * record.len() as f64, &|| ctx("clone"))?;
    drop(copy);
    kc!("clear_changed_cells", m.clear_changed_cells());
    Limits::RECORD.judge(cs.obs, last_cost(), record.len() as f64, 0.0, 0.0, &|| ctx("clear_changed_cells"))?;
    if total > 1_000_000 {
        cs.obs.count("maps_of_a_million_cells", 1);
    }
    cs.obs.sig(Hash64::new().add(now as u64).add(total as u64).add(res.to_bits() as u64).add(record.len() as u64).add(pieces as u64).0);
    cs.obs.sample(|| format!("map of {total} cells, record of {} changes, grown to {now}", record.len()));
    Ok(())
}

/// Scans into a map that has the room already: cost goes with the scan, and nothing accumulates.
pub fn scans(cs: &mut Case) -> Verdict {
    let want = 10f64.powf(1.0 + 5.4 * cs.size * cs.rng.f64(0.0, 1.0).sqrt());
    let np_max = cs_points(cs.size * cs.rng.f64(0.0, 1.0));
    let r = &mut cs.rng;
    let res = *r.pick(&[0.5f32, 1.0, 2.0]);
    let (half, tile) = sized(r, want);
    let range = if r.chance(1, 2) { 0.0 } else { r.f32(1.0, 40.0) * res };
    let nm = || LidarNoiseModel::new(0.7, 0.4, 0.12, 0.97, 0.5, range);
    let (mut m, grow) = if r.chance(1, 4) {
        (kc!("new", OMap::new(nm(), res, tile)), true)
    } else {
        (OMap { grid_map: big_grid::<f32>(half, tile, res, 0.0)?, noise_model: nm() }, false)
    };
    let track = r.chance(1, 3);
    kc!("set_track_changes", m.set_track_changes(track));
    let mut kept = 0i64;
    let mut most = 0.0f64;
    let k = r.int(1, 6);
    for scan in 0..k {
        let inside = (half as f32 - 1.0).max(0.0) * res * 0.95;
        let reach = r.f32(0.0, 30.0f32.min(half as f32)) * res;
        let clamp = |a: [f32; D]| a.map(|x| x.max(-inside).min(inside));
        let mid = clamp(point(r, &[0.0; D], inside));
        let o = clamp(point(r, &mid, reach));
        let np = r.int(0, np_max) as usize;
        let pts: Vec<Pt> = (0..np).map(|_| pt(clamp(point(r, &mid, reach)))).collect();
        let before: usize = shape(&m.grid_map).iter().product();
        let bmin = m.bounds();
        let mut units = np as f64 + 1.0;
        for p in &pts {
            units += kc!("cast_ray", gas GAS, ray_caster::cast_ray(&pt(o), p, &bmin, res, range)).0.len() as f64;
        }
        let full: f64 = units + pts.iter().map(|p| l1(&o, &pa(p), res) + 1.0).sum::<f64>();
        let cloud = PC::from_points(&pts);
        kc!("integrate_point_cloud", gas GAS, m.integrate_point_cloud(&pt(o), &cloud));
        let c = last_cost();
        let after: usize = shape(&m.grid_map).iter().product();
        let recorded = if track { m.changed_cells().len() as f64 } else { 0.0 };
        most = most.max(recorded);
        let ctx = || format!("scan {scan} of {np} points around {mid:?} from {o:?} into a map of {before} cells, then {after}; resolution {res}, range {range}, tracking {track}: {units} points and ray cells");
        let room = if after == before { 0.0 } else { (after + before) as f64 };
        if after == before {
            cs.obs.count("scans_without_growth", 1);
            kept += c.kept;
            Limits::INTEGRATE.judge(cs.obs, c, units, CELL * (full + recorded), CELL * (full + recorded), &ctx)?;
        } else {
            ensure!(grow, "the map grew although it had the room; {}", ctx());
            cs.obs.count("scans_with_growth", 1);
            Limits::INTEGRATE.judge(cs.obs, c, units + room, CELL * (full + recorded) + 4.0 * room, CELL * (full + recorded) + 4.0 * room, &ctx)?;
        }
        if np > 0 {
            let q = kc!("cell_from_point", m.cell_from_point(&pts[0]));
            kc!("occupied", m.occupied(&q));
            Limits::CELL.judge(cs.obs, last_cost(), 1.0, 0.0, 0.0, &|| format!("occupied on a map of {after} cells"))?;
        }
        cs.obs.sig(Hash64::new().addf(&o).addf(&mid).add(np as u64).add(after as u64).add(units as u64).0);
        if track && (r.chance(2, 3)) {
            kc!("clear_changed_cells", m.clear_changed_cells());
        }
    }
    // without tracking nothing is kept; with it, a record of at most what one interval recorded (or twice that)
    Limits::KEPT.judge(cs.obs, Cost { steps: 0, asked: 0, peak: kept.max(0) as u64, kept }, 0.0, CELL * most, 0.0, &|| format!("{k} scans without growth (tracking {track}, at most {most} recorded cells at a time) kept {kept} bytes"))?;
    cs.obs.sample(|| format!("{k} scans into a map of extent {half}, tracking {track}"));
    Ok(())
}

pub fn clouds(cs: &mut Case) -> Verdict {
    let n = 10f64.powf(4.3 * cs.size * cs.rng.f64(0.2, 1.0)) as usize;
    let r = &mut cs.rng;
    let pts: Vec<Pt> = (0..n).map(|_| pt(point(r, &[0.0; D], 50.0))).collect();
    let bytes = (4 * D * n) as f64;
    let ctx = |what: &str| format!("{what} of {n} points");
    let c = kc!("from_points", gas GAS, PC::from_points(&pts));
    Limits::CLOUD.judge(cs.obs, last_cost(), n as f64, bytes, bytes, &|| ctx("from_points"))?;
    kc!("num_points", c.num_points());
    Limits::CELL.judge(cs.obs, last_cost(), 1.0, 0.0, 0.0, &|| ctx("num_points"))?;
    kc!("bounds", gas GAS, c.bounds());
    Limits::CLOUD.judge(cs.obs, last_cost(), n as f64, bytes, bytes, &|| ctx("bounds"))?;
    let k = kc!("points_iter", gas GAS, c.points_iter().count());
    Limits::CLOUD.judge(cs.obs, last_cost(), n as f64, bytes, bytes, &|| ctx("points_iter"))?;
    ensure!(k == n, "{} yields {k}", ctx("points_iter"));
    kc!("clone", gas GAS, c.clone());
    Limits::CLOUD.judge(cs.obs, last_cost(), n as f64, bytes, bytes, &|| ctx("clone"))?;
    cs.obs.sig(Hash64::new().add(n as u64).addf(&pts.iter().take(2).flat_map(|p| p.iter().cloned()).collect::<Vec<_>>()).0);
    Ok(())
}
