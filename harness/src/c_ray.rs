// C09-C12, instantiated for 2-D and 3-D.
use crate::core::*;
use crate::refgeo::{dist, Lattice, Seg, EPS};
use crate::{ensure, kc};
use kuba::geom::converter as cv;
use kuba::ray_caster;
use std::collections::HashSet;

#[derive(Clone, Debug)]
pub struct Ray {
    pub o: [f32; D],
    pub e: [f32; D],
    pub off: [f32; D],
    pub res: f32,
    /// Extent of the box given with the lattice, in cells: it only places the lattice, and must not matter.
    pub box_cells: [f32; D],
}

pub fn ray_gas(o: [isize; D], e: [isize; D]) -> u64 {
    let l1: u64 = (0..D).map(|i| o[i].abs_diff(e[i]) as u64).sum();
    20_000 + 2_000 * (l1 + 10)
}

/// Scenes are built in lattice units and scaled; exact-tie scenes use power-of-two resolutions.
pub fn gen_ray(r: &mut Rng, size: f64, len_cap: i64) -> (Ray, &'static str) {
    let far = *r.pick(&[0i64, 1, 10, 1000, 20_000]);
    let mode = r.below(12);
    let exact = matches!(mode, 2 | 3) || r.chance(1, 6);
    let res = if exact { *r.pick(&[0.125f32, 0.25, 0.5, 1.0, 2.0]) } else { r.res_wide() };
    let mut len = 1 + ((2 + (len_cap as f64 * size) as i64).min(60));
    if r.chance(1, 10) {
        len = r.int(len, len.max((len_cap as f64 * size * size) as i64).max(len + 1));
    }
    let mut off = [0.0f64; D];
    let mut a = [0.0f64; D];
    let mut d = [0.0f64; D];
    let off_kind = r.below(3);
    for i in 0..D {
        off[i] = match off_kind {
            0 => 0.0,
            1 => r.int(-far, far) as f64,
            _ => {
                if exact {
                    r.int(-far, far) as f64 + *r.pick(&[0.0, 0.5, 0.25])
                } else {
                    r.int(-far, far) as f64 + r.phase()
                }
            }
        };
        let ph = if exact { *r.pick(&[0.0, 0.5, -0.5, 0.25, -0.25, 0.0]) } else { r.phase() };
        a[i] = off[i] + r.mag(40.max(far.min(200))) as f64 + ph;
    }
    let sign = |r: &mut Rng| if r.chance(1, 2) { 1.0 } else { -1.0 };
    let what = match mode {
        0 | 1 => {
            for i in 0..D {
                d[i] = r.f64(-len as f64, len as f64);
            }
            "random"
        }
        2 => {
            let n = r.int(1, len) as f64;
            for i in 0..D {
                d[i] = n * sign(r);
            }
            if r.chance(1, 3) {
                d[r.below(D as u64) as usize] = 0.0;
            }
            "diagonal"
        }
        3 => {
            let k = r.int(1, (len / 4).max(1)) as f64;
            for i in 0..D {
                d[i] = k * r.int(0, 4) as f64 * sign(r) * *r.pick(&[1.0, 1.0, 0.5]);
            }
            "through corners"
        }
        4 => {
            let i = r.below(D as u64) as usize;
            d[i] = r.f64(-len as f64, len as f64);
            "axis-parallel"
        }
        5 => {
            let i = r.below(D as u64) as usize;
            for j in 0..D {
                d[j] = match r.below(4) {
                    0 => 0.0,
                    1 => sign(r),
                    2 => r.f64(-1.0, 1.0),
                    _ => sign(r) * 10f64.powf(r.f64(-7.0, -1.0)),
                };
            }
            d[i] = r.int(1, len) as f64 * sign(r) + r.phase();
            "tiny slope"
        }
        6 => {
            // ends on or next to a cell corner
            for i in 0..D {
                let b = (a[i] + r.f64(-len as f64, len as f64)).round() + 0.5 + *r.pick(&[0.0, 1e-7, -1e-7, 1e-5, -1e-5, 1e-3]);
                d[i] = b - a[i];
            }
            "end at a corner"
        }
        7 => {
            for i in 0..D {
                d[i] = r.f64(-1.2, 1.2);
            }
            "same or adjacent cell"
        }
        8 => {
            // starts and ends around corners
            for i in 0..D {
                a[i] = a[i].round() + 0.5 + *r.pick(&[0.0, 1e-6, -1e-6, 1e-4]);
                let b = (a[i] + r.f64(-len as f64, len as f64)).round() + 0.5 * sign(r);
                d[i] = b - a[i];
            }
            "corner to corner"
        }
        9 => {
            // from cell centre to cell centre
            for i in 0..D {
                a[i] = a[i].round();
                d[i] = r.int(-len, len) as f64;
            }
            "centre to centre"
        }
        10 => {
            // nearly diagonal: rounding decides every step
            let n = r.f64(1.0, len as f64 + 1.0);
            for i in 0..D {
                d[i] = n * sign(r) + 10f64.powf(r.f64(-6.0, -1.0)) * sign(r);
            }
            "nearly diagonal"
        }
        _ => {
            // to or from the lattice's own origin
            if r.chance(1, 2) {
                for i in 0..D {
                    a[i] = off[i];
                    d[i] = r.f64(-len as f64, len as f64);
                }
            } else {
                for i in 0..D {
                    a[i] = off[i] + r.f64(-len as f64, len as f64);
                    d[i] = off[i] - a[i];
                }
            }
            "at the lattice origin"
        }
    };
    let mut ray = Ray { o: [0.0; D], e: [0.0; D], off: [0.0; D], res, box_cells: box_cells(r) };
    for i in 0..D {
        ray.off[i] = (off[i] * res as f64) as f32;
        ray.o[i] = (a[i] * res as f64) as f32;
        ray.e[i] = ((a[i] + d[i]) * res as f64) as f32;
        if d[i] == 0.0 {
            ray.e[i] = ray.o[i];
        }
    }
    (ray, what)
}

fn box_cells(r: &mut Rng) -> [f32; D] {
    let kind = r.below(4);
    let mut b = [0.0; D];
    for i in 0..D {
        b[i] = match kind {
            0 => 0.0,
            1 => 10.0,
            2 => r.int(0, 20) as f32,
            _ => r.int(0, 2000) as f32,
        };
    }
    b
}

type Walk = (Vec<[isize; D]>, Option<[isize; D]>);

fn cast(what: &str, x: &Ray, max_len: f32) -> Result<Walk, String> {
    let b = bo(x.off, {
        let mut m = x.off;
        for i in 0..D {
            m[i] += x.box_cells[i] * x.res;
        }
        m
    });
    let (oc, ec) = end_cells(x)?;
    let (c, e) = kc!(format!("{what} cast_ray({:?})", x), gas ray_gas(oc, ec), ray_caster::cast_ray(&pt(x.o), &pt(x.e), &b, x.res, max_len));
    Ok((c.iter().map(ca).collect(), e.map(|e| ca(&e))))
}
fn end_cells(x: &Ray) -> Result<([isize; D], [isize; D]), String> {
    let o = kc!("cell_from_point", cv::cell_from_point(&pt(x.o), &pt(x.off), x.res));
    let e = kc!("cell_from_point", cv::cell_from_point(&pt(x.e), &pt(x.off), x.res));
    Ok((ca(&o), ca(&e)))
}

fn count_mode(cs: &mut Case, what: &'static str, n: usize) {
    cs.obs.count(what, 1);
    cs.obs.count("cells_walked", n as u64);
    cs.obs.max("cells_in_one_ray", n as f64);
}

fn record(cs: &mut Case, x: &Ray, w: &Walk, what: &'static str) {
    count_mode(cs, what, w.0.len());
    let mut h = Hash64::new();
    h.addf(&x.o).addf(&x.e).addf(&x.off).addf(&[x.res]);
    cs.obs.sig(h.0);
    cs.obs.sample(|| format!("{what}: {:?} -> {} cells {:?}.., end {:?}", x, w.0.len(), &w.0[..w.0.len().min(4)], w.1));
}

// ------------------------------------------------------------------ C09

pub fn c09(cs: &mut Case) -> Verdict {
    let (size, thorough) = (cs.size, cs.thorough);
    for _ in 0..8 {
        // now and then beyond what narrow integers count
        let cap = if cfg!(miri) { 40 } else if cs.rng.chance(1, 60) { if cs.rng.chance(1, 16) { if cs.rng.chance(1, 40) { 2_000_000 } else { 90_000 } } else if thorough { 20_000 } else { 4_000 } } else { 300 };
        let (x, what) = gen_ray(&mut cs.rng, size, cap);
        let lim = *cs.rng.pick(&[0.0f32, -1.0, 0.0, -0.0, f32::MAX, 1e30]);
        let w = cast("", &x, lim)?;
        let (oc, ec) = end_cells(&x)?;
        let l1: u64 = (0..D).map(|i| oc[i].abs_diff(ec[i]) as u64).sum();
        let ctx = || format!("{:?}, range {lim}, {what}; origin cell {:?}, end cell {:?}, {} cells {:?}.., end {:?}", x, oc, ec, w.0.len(), &w.0[..w.0.len().min(12)], w.1);
        ensure!(w.1 == Some(ec), "end cell not reached: {}", ctx());
        ensure!(w.0.len() as u64 == l1, "walk of {} cells, Manhattan distance {l1}: {}", w.0.len(), ctx());
        if l1 > 0 {
            ensure!(w.0[0] == oc, "does not start at the origin's cell: {}", ctx());
            for k in 0..w.0.len() {
                let next = if k + 1 < w.0.len() { w.0[k + 1] } else { ec };
                let mut moved = 0;
                for i in 0..D {
                    let s = next[i] - w.0[k][i];
                    if s != 0 {
                        moved += 1;
                        ensure!(s == (ec[i] - oc[i]).signum(), "step {k} {:?} -> {:?} is not one cell towards the end: {}", w.0[k], next, ctx());
                    }
                }
                ensure!(moved == 1, "step {k} {:?} -> {:?} is not to a face neighbour: {}", w.0[k], next, ctx());
            }
            let set: HashSet<[isize; D]> = w.0.iter().cloned().collect();
            ensure!(set.len() == w.0.len() && !set.contains(&ec), "a cell repeats: {}", ctx());
            cs.obs.max("longest_ray_in_cells", l1 as f64);
            cs.obs.max("steps_of_execution_per_cell", last_gas() as f64 / (l1 as f64 + 10.0));
        }
        record(cs, &x, &w, what);
    }
    Ok(())
}

// ------------------------------------------------------------------ C10

pub fn c10(cs: &mut Case) -> Verdict {
    let size = cs.size;
    for _ in 0..8 {
        let cap = if cfg!(miri) { 40 } else if cs.rng.chance(1, 60) { 1_500 } else { 120 };
        let (x, what) = gen_ray(&mut cs.rng, size, cap);
        let w = cast("", &x, 0.0)?;
        let l = Lattice::<D>::new(x.off, x.res);
        let seg = Seg::new(&l, x.o, x.e);
        let ctx = || format!("{:?}, {what}; {} cells {:?}.., end {:?}, tolerance {:?} cells", x, w.0.len(), &w.0[..w.0.len().min(12)], w.1, seg.tol);
        for c in w.0.iter().chain(w.1.iter()) {
            ensure!(seg.meets(*c), "cell {:?} is reported, but the segment does not touch it: {}", c, ctx());
        }
        let set: HashSet<[isize; D]> = w.0.iter().chain(w.1.iter()).cloned().collect();
        let must = seg.certain_cells();
        for c in &must {
            ensure!(set.contains(c), "the segment passes through cell {:?}, which is not reported: {}", c, ctx());
        }
        if let Some(walk) = seg.unambiguous_walk(0.0) {
            ensure!(walk.len() == w.0.len() + 1 && walk[..walk.len() - 1] == w.0[..] && walk.last() == w.1.as_ref(),
                "the only possible walk is {:?}..: {}", &walk[..walk.len().min(12)], ctx());
            cs.obs.count("rays_with_a_unique_walk", 1);
        }
        cs.obs.count("cells_certainly_crossed", must.len() as u64);
        cs.obs.max("tolerance_in_cells", seg.tol.iter().cloned().fold(0.0, f64::max));
        record(cs, &x, &w, what);
    }
    Ok(())
}

// ------------------------------------------------------------------ C11

/// Rays all of whose distances are exact in single precision: there "farther than the range" has no slack.
fn c11_exact(cs: &mut Case) -> Verdict {
    let r = &mut cs.rng;
    let res = *r.pick(&[1.0f32, 0.5, 0.25, 0.125, 2.0, 4.0]);
    let eighth = res / 8.0;
    let mut x = Ray { o: [0.0; D], e: [0.0; D], off: [0.0; D], res, box_cells: box_cells(r) };
    let k = r.int(1, 24);
    let reach = r.int(1, 120);
    let kind = r.below(3);
    let axis = r.below(D as u64) as usize;
    // a whole-numbered diagonal
    let mut legs = if D == 2 { [*r.pick(&[3i64, 5, 8, 7]), 0, 0] } else { *r.pick(&[[1i64, 2, 2], [2, 3, 6], [1, 4, 8], [4, 4, 7]]) };
    if D == 2 {
        legs[1] = match legs[0] { 3 => 4, 5 => 12, 8 => 15, _ => 24 };
    }
    let turn = r.below(D as u64) as usize;
    for i in 0..D {
        x.off[i] = r.int(-64, 64) as f32 * eighth;
        let phase = if kind == 0 { 0 } else { r.int(-3, 3) };
        x.o[i] = x.off[i] + (r.int(-20, 20) * 8 + phase) as f32 * eighth;
        let sign = if r.chance(1, 2) { 1.0 } else { -1.0 };
        x.e[i] = x.o[i] + sign * res * match kind {
            0 => (legs[(i + turn) % D] * k) as f32,
            1 => if i == axis { reach as f32 } else { 0.0 },
            _ => r.int(0, reach) as f32,
        };
    }
    let full = cast("", &x, 0.0)?;
    let l = Lattice::<D>::new(x.off, x.res);
    let sq = |c: [isize; D]| { let p = l.centre(c); (0..D).map(|i| (p[i] - x.o[i] as f64).powi(2)).sum::<f64>() };
    for _ in 0..3 {
        // a cell whose distance has an exact root
        let n = full.0.len();
        if n < 2 {
            break;
        }
        let at = match (0..40).map(|_| 1 + cs.rng.below(n as u64 - 1) as usize).find(|k| { let d = sq(full.0[*k]).sqrt(); (d as f32) as f64 == d && d * d == sq(full.0[*k]) && d > 0.0 }) {
            Some(at) => at,
            None => break,
        };
        let d = sq(full.0[at]).sqrt() as f32;
        let reached = cs.rng.chance(1, 2);
        let max_len = if reached { d } else { d * (1.0 - 4.0 * f32::EPSILON) };
        let w = cast("range-limited", &x, max_len)?;
        let want = (1..n).find(|k| sq(full.0[*k]) > (max_len as f64).powi(2)).unwrap_or(n);
        ensure!(w.0[..] == full.0[..want] && w.1 == if want == n { full.1 } else { None },
            "{:?}, range {max_len}, exactly {} the distance of cell {at} {:?}: the first cell farther away is number {want} of {n}, got {} cells, end {:?}", x, if reached { "" } else { "a little less than" }, full.0[at], w.0.len(), w.1);
        cs.obs.count(if reached { "ranges_exactly_reached" } else { "ranges_just_missed" }, 1);
        cs.obs.count(if w.1.is_some() { "reached" } else { "truncated" }, 1);
        let mut h = Hash64::new();
        h.addf(&x.o).addf(&x.e).addf(&x.off).addf(&[x.res, max_len]);
        cs.obs.sig(h.0);
    }
    Ok(())
}

pub fn c11(cs: &mut Case) -> Verdict {
    if cs.rng.chance(1, 6) {
        return c11_exact(cs);
    }
    let size = cs.size;
    for _ in 0..6 {
        let cap = if cs.rng.chance(1, 40) { 1_500 } else { 150 };
        let (x, what) = gen_ray(&mut cs.rng, size, cap);
        let full = cast("", &x, 0.0)?;
        let l = Lattice::<D>::new(x.off, x.res);
        let mut o = [0.0f64; D];
        let mut world = 0.0f64;
        for i in 0..D {
            o[i] = x.o[i] as f64;
            world = world.max(x.o[i].abs() as f64).max(x.e[i].abs() as f64).max(x.off[i].abs() as f64);
        }
        let dists: Vec<f64> = full.0.iter().map(|c| dist(l.centre(*c), o)).collect();
        for _ in 0..3 {
            let r = &mut cs.rng;
            let max_len = match r.below(8) {
                0 if r.chance(1, 6) => *r.pick(&[1e-12f32, 1e-20, 1e-30, f32::MIN_POSITIVE, 1e-42]),
                0 => (r.f64(0.001, 1.5) * x.res as f64) as f32,
                1 | 2 if !dists.is_empty() => (*r.pick(&dists) * r.f64(0.9, 1.1)) as f32,
                3 if !dists.is_empty() => (dists[dists.len() - 1] * r.f64(0.98, 1.02)) as f32,
                4 if !dists.is_empty() => ((*r.pick(&dists) * x.res as f64).sqrt()) as f32,
                5 => *r.pick(&[0.0f32, -0.0, -1.0, -1e30, -f32::INFINITY]),
                6 => *r.pick(&[1e6f32, 1e20, f32::MAX, f32::INFINITY]),
                _ => (r.f64(0.1, 2.0) * dists.last().cloned().unwrap_or(1.0).max(x.res as f64)) as f32,
            };
            let w = cast("range-limited", &x, max_len)?;
            let ctx = || format!("{:?}, range {max_len}, {what}; unlimited walk {} cells, got {} cells, end {:?}", x, full.0.len(), w.0.len(), w.1);
            if !(max_len > 0.0) {
                ensure!(w == full, "a range of zero or below must not truncate: {}", ctx());
                cs.obs.count("unlimited", 1);
                continue;
            }
            let tol = 16.0 * EPS * (world + 2.0 * x.res as f64) * (D as f64) + 4.0 * EPS * max_len as f64;
            let n = w.0.len();
            ensure!(n <= full.0.len() && w.0[..] == full.0[..n], "not a prefix of the unlimited walk: {}", ctx());
            for k in 1..n {
                ensure!(dists[k] <= max_len as f64 + tol, "cell {k} {:?} at distance {} is beyond the range but reported: {}", w.0[k], dists[k], ctx());
            }
            match w.1 {
                Some(e) => {
                    ensure!(n == full.0.len() && Some(e) == full.1, "the end cell is reported without the complete walk: {}", ctx());
                    cs.obs.count("reached", 1);
                }
                None => {
                    ensure!(n >= 1 && n < full.0.len(), "the complete walk is within range but the end is not reported: {}", ctx());
                    ensure!(dists[n] > max_len as f64 - tol, "truncated at cell {:?} at distance {}, within the range: {}", full.0[n], dists[n], ctx());
                    cs.obs.count("truncated", 1);
                }
            }
            let mut h = Hash64::new();
            h.addf(&x.o).addf(&x.e).addf(&x.off).addf(&[x.res, max_len]);
            cs.obs.sig(h.0);
            cs.obs.sample(|| ctx());
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C12

pub fn c12(cs: &mut Case) -> Verdict {
    let top = match if cfg!(miri) { 99 } else { cs.rng.below(400) } { 0 => 5000, 1..=20 => 500, _ => 60 };
    let whole = top == 5000 && cs.size > 0.4 && cs.rng.chance(1, 8);
    // a whole scan of a real sensor
    let n_max = if whole { cs.rng.int(65_530, 130_000) } else { cs.upto(2, top) };
    let r = &mut cs.rng;
    let res = r.res_wide();
    let mut x0 = Ray { o: [0.0; D], e: [0.0; D], off: [0.0; D], res, box_cells: box_cells(r) };
    let reach = r.f64(1.0, if whole { 8.0 } else { 40.0 });
    let far = *r.pick(&[0.0, 0.0, 100.0, 10_000.0]);
    for i in 0..D {
        x0.off[i] = ((r.f64(-far, far).round() + if r.chance(1, 2) { 0.0 } else { r.phase() }) * res as f64) as f32;
        x0.o[i] = (x0.off[i] as f64 + (r.int(-20, 20) as f64 + r.phase()) * res as f64) as f32;
    }
    let n = if top > 500 { n_max } else { r.int(0, n_max) } as usize;
    let mut pts: Vec<[f32; D]> = vec![];
    for _ in 0..n {
        let mut p = [0.0; D];
        match r.below(8) {
            0 if !pts.is_empty() => p = *r.pick(&pts), // duplicate
            1 if !pts.is_empty() => {
                // behind or in front of another point, on the same line
                let q = *r.pick(&pts);
                let t = r.f64(0.2, 2.0);
                for i in 0..D {
                    p[i] = (x0.o[i] as f64 + t * (q[i] as f64 - x0.o[i] as f64)) as f32;
                }
            }
            2 => {
                for i in 0..D {
                    p[i] = (x0.o[i] as f64 + r.f64(-0.6, 0.6) * res as f64) as f32; // in or next to the origin's cell
                }
            }
            3 => p = x0.o,
            _ => {
                for i in 0..D {
                    p[i] = (x0.o[i] as f64 + (r.f64(-reach, reach).round() + r.phase()) * res as f64) as f32;
                }
            }
        }
        pts.push(p);
    }
    let max_len = match r.below(8) {
        0 | 1 => 0.0,
        2 => -1.0,
        3 => *r.pick(&[f32::INFINITY, f32::MAX, 1e20, -f32::INFINITY]),
        4 => r.f32(0.0, 2.0) * res,
        _ => (r.f64(0.2, 1.2) * reach * res as f64) as f32,
    };
    let mut hi = x0.off;
    for i in 0..D {
        hi[i] += x0.box_cells[i] * res;
    }
    let b = bo(x0.off, hi);
    let run = |list: &[[f32; D]]| -> Result<(HashSet<[isize; D]>, HashSet<[isize; D]>), String> {
        let cloud = PC::from_points(&list.iter().map(|p| pt(*p)).collect::<Vec<_>>());
        let gas = list.iter().map(|p| {
            let l1: f64 = (0..D).map(|i| ((p[i] - x0.o[i]).abs() / res) as f64 + 2.0).sum();
            20_000 + (20_000.0 * (l1 + 10.0)) as u64
        }).sum::<u64>() + 100_000;
        let (f, o) = kc!(format!("cast_rays(origin {:?}, {} points, lattice {:?}, resolution {res}, range {max_len})", x0.o, list.len(), x0.off), gas gas,
            ray_caster::cast_rays(&pt(x0.o), &cloud, &b, res, max_len));
        Ok((f.iter().map(ca).collect(), o.iter().map(ca).collect()))
    };
    let (free, occ) = run(&pts)?;
    let mut want_occ = HashSet::new();
    let mut want_free = HashSet::new();
    for p in &pts {
        let w = cast("", &Ray { e: *p, ..x0.clone() }, max_len)?;
        want_free.extend(w.0);
        want_occ.extend(w.1);
    }
    let overlap = want_free.intersection(&want_occ).count();
    for c in &want_occ {
        want_free.remove(c);
    }
    let ctx = || format!("origin {:?}, points {:?}, lattice {:?}, resolution {res}, range {max_len}", x0.o, &pts[..pts.len().min(20)], x0.off);
    ensure!(occ == want_occ, "occupied cells differ from the rays' end cells: missing {:?}, extra {:?}; {}",
        want_occ.difference(&occ).next(), occ.difference(&want_occ).next(), ctx());
    ensure!(free == want_free, "free cells differ from the rays' cells minus the occupied ones: missing {:?}, extra {:?}; {}",
        want_free.difference(&free).next(), free.difference(&want_free).next(), ctx());
    // order and multiplicity
    let mut p2 = pts.clone();
    for _ in 0..r.below(4) {
        if !pts.is_empty() {
            p2.push(*r.pick(&pts));
        }
    }
    r.shuffle(&mut p2);
    let (f2, o2) = run(&p2)?;
    ensure!(f2 == free && o2 == occ, "reordering or repeating points changed the result; {}", ctx());
    cs.obs.count("rays", n as u64);
    cs.obs.count("free_cells", free.len() as u64);
    cs.obs.count("occupied_cells", occ.len() as u64);
    cs.obs.count("cells_free_for_one_ray_and_hit_by_another", overlap as u64);
    if n == 0 {
        cs.obs.count("empty_clouds", 1);
    }
    let mut h = Hash64::new();
    h.addf(&x0.o).addf(&x0.off).addf(&[res, max_len]);
    for p in &pts {
        h.addf(p);
    }
    cs.obs.sig(h.0);
    cs.obs.sample(|| format!("{} free, {} occupied, {overlap} conflicts; {}", free.len(), occ.len(), ctx()));
    Ok(())
}
