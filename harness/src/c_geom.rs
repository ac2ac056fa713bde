// C01-C04, instantiated for 2-D and 3-D.
use crate::core::*;
use crate::refgeo::EPS;
use crate::{ensure, kc};
use kuba::prelude::*;

fn coord(r: &mut Rng, res: f32, max: i64) -> f32 {
    ((r.mag(max) as f64 + r.phase()) * res as f64) as f32
}
fn coords(r: &mut Rng, res: [f32; D], max: i64) -> [f32; D] {
    let mut a = [0.0; D];
    for i in 0..D {
        a[i] = coord(r, res[i], max);
    }
    a
}

// ------------------------------------------------------------------ C01

fn check_nearest(what: &str, p: [f32; D], off: [f32; D], res: [f32; D], c: [isize; D]) -> Verdict {
    for i in 0..D {
        let v = (p[i] as f64 - off[i] as f64) / res[i] as f64;
        let tol = 8.0 * EPS * (v.abs() + 1.0);
        ensure!(
            (c[i] as f64 - v).abs() <= 0.5 + tol,
            "{what}: point {:?} origin {:?} resolution {:?}: axis {i} is at lattice coordinate {v}, but got cell {:?}",
            p, off, res, c
        );
    }
    Ok(())
}
fn check_centre(what: &str, c: [isize; D], off: [f32; D], res: [f32; D], p: [f32; D]) -> Verdict {
    for i in 0..D {
        let v = c[i] as f64 * res[i] as f64 + off[i] as f64;
        let tol = 4.0 * EPS * ((c[i] as f64 * res[i] as f64).abs() + off[i].abs() as f64);
        ensure!(
            (p[i] as f64 - v).abs() <= tol,
            "{what}: cell {:?} origin {:?} resolution {:?}: centre on axis {i} must be {v}, got {:?}",
            c, off, res, p
        );
    }
    Ok(())
}

pub fn c01(cs: &mut Case) -> Verdict {
    use kuba::geom::converter as cv;
    let r = &mut cs.rng;
    let rs = r.res_wide();
    let same = [rs; D];
    let mut per = [0.0f32; D];
    for i in 0..D {
        per[i] = r.res_wide();
    }
    let max = *r.pick(&[10i64, 1000, 100_000, 1_000_000]);
    let off = if r.chance(1, 4) { [0.0; D] } else { coords(r, same, max) };
    let off_n = if r.chance(1, 4) { [0.0; D] } else { coords(r, per, max) };
    // the maps whose own conversions are used
    let map = Map::<f32>::from_ndarray(Default::default(), rs, bo(off, off), 4);
    let mut om = OMap::new(kuba::LidarNoiseModel::default(), rs, 4);
    om.grid_map.bounds = bo(off, off);
    for _ in 0..24 {
        let base = coords(r, same, max);
        let mut p = [0.0; D];
        let mut c = [0isize; D];
        let mut pn = [0.0; D];
        for i in 0..D {
            c[i] = r.mag(max) as isize;
            p[i] = if r.chance(1, 2) {
                base[i]
            } else {
                ((c[i] as f64 + r.phase()) * rs as f64 + off[i] as f64) as f32
            };
            pn[i] = ((c[i] as f64 + r.phase()) * per[i] as f64 + off_n[i] as f64) as f32;
        }
        let got = ca(&kc!("cell_from_point", cv::cell_from_point(&pt(p), &pt(off), rs)));
        check_nearest("cell_from_point", p, off, same, got)?;
        let got_map = ca(&kc!("GridMapN::cell_from_point", map.cell_from_point(&pt(p))));
        check_nearest("GridMapN::cell_from_point", p, off, same, got_map)?;
        let got_om = ca(&kc!("OccupancyGridMapN::cell_from_point", om.cell_from_point(&pt(p))));
        check_nearest("OccupancyGridMapN::cell_from_point", p, off, same, got_om)?;
        let got_n = ca(&kc!("cell_from_point_n", cv::cell_from_point_n(&pt(pn), &pt(off_n), &pt(per))));
        check_nearest("cell_from_point_n", pn, off_n, per, got_n)?;
        for i in 0..D {
            let q = kc!("cell_coord_from_point_coord", cv::cell_coord_from_point_coord(p[i], off[i], rs));
            let v = (p[i] as f64 - off[i] as f64) / rs as f64;
            ensure!((q as f64 - v).abs() <= 0.5 + 8.0 * EPS * (v.abs() + 1.0),
                "cell_coord_from_point_coord({}, {}, {rs}) = {q}, lattice coordinate {v}", p[i], off[i]);
            let w = kc!("point_coord_from_cell_coord", cv::point_coord_from_cell_coord(c[i], off[i], rs));
            let v = c[i] as f64 * rs as f64 + off[i] as f64;
            ensure!((w as f64 - v).abs() <= 4.0 * EPS * ((c[i] as f64 * rs as f64).abs() + off[i].abs() as f64),
                "point_coord_from_cell_coord({}, {}, {rs}) = {w}, expected {v}", c[i], off[i]);
        }
        // centres and round trips
        for (name, m) in [("point_from_cell", 0), ("GridMapN::point_from_cell", 1), ("OccupancyGridMapN::point_from_cell", 2)] {
            let q = match m {
                0 => kc!(name, cv::point_from_cell(&ce(c), &pt(off), rs)),
                1 => kc!(name, map.point_from_cell(&ce(c))),
                _ => kc!(name, om.point_from_cell(&ce(c))),
            };
            check_centre(name, c, off, same, pa(&q))?;
            let back = match m {
                0 => kc!(name, cv::cell_from_point(&q, &pt(off), rs)),
                1 => kc!(name, map.cell_from_point(&q)),
                _ => kc!(name, om.cell_from_point(&q)),
            };
            ensure!(ca(&back) == c, "{name}: cell {:?} -> point {:?} -> cell {:?} (origin {:?}, resolution {rs})", c, pa(&q), ca(&back), off);
        }
        let q = kc!("point_from_cell_n", cv::point_from_cell_n(&ce(c), &pt(off_n), &pt(per)));
        check_centre("point_from_cell_n", c, off_n, per, pa(&q))?;
        let back = ca(&kc!("cell_from_point_n", cv::cell_from_point_n(&q, &pt(off_n), &pt(per))));
        ensure!(back == c, "point_from_cell_n: cell {:?} -> {:?} -> {:?} (origin {:?}, resolution {:?})", c, pa(&q), back, off_n, per);
        cs.obs.count("conversions", 12 + 2 * D as u64);
        if got.iter().any(|x| *x < 0) {
            cs.obs.count("negative_cells", 1);
        }
        if got.iter().any(|x| *x < 0) && got.iter().any(|x| *x > 0) {
            cs.obs.count("mixed_sign_cells", 1);
        }
        let mut h = Hash64::new();
        h.addi(&got).addi(&c).add(rs.to_bits() as u64);
        cs.obs.sig(h.0);
        cs.obs.sample(|| format!("res {rs} origin {:?}: point {:?} -> cell {:?}; cell {:?} -> point -> same cell", off, p, got, c));
    }
    // where every number involved is exact: the centres of cells far out, and points just off the middle of two
    let k = r.int(-9, 6) as i32;
    let re = 2f32.powi(k);
    let mut ee = [re; D];
    let mut co = [0isize; D];
    let (mut oe, mut pe, mut pq) = ([0.0f32; D], [0.0f32; D], [0.0f32; D]);
    for i in 0..D {
        let far = *r.pick(&[1i64 << 12, 1 << 20, 1 << 23, (1 << 24) - 2]);
        let at = r.int(-far, far); // the cell, counted from the world's origin
        let o = if r.chance(1, 2) { 0 } else { r.int(at.min(0), at.max(0)) };
        co[i] = (at - o) as isize;
        ee[i] = if r.chance(1, 2) { re } else { 2f32.powi(r.int(-9, 6) as i32) };
        oe[i] = o as f32 * re;
        pe[i] = at as f32 * re;
        pq[i] = at as f32 * ee[i];
    }
    let got = ca(&kc!("cell_from_point", cv::cell_from_point(&pt(pe), &pt(oe), re)));
    ensure!(got == co, "cell_from_point: {:?} is the centre of cell {:?} (origin {:?}, resolution {re}, all exact), got {:?}", pe, co, oe, got);
    let q = pa(&kc!("point_from_cell", cv::point_from_cell(&ce(co), &pt(oe), re)));
    ensure!(q == pe, "point_from_cell: the centre of cell {:?} is {:?} (origin {:?}, resolution {re}, all exact), got {:?}", co, pe, oe, q);
    let mut on = [0.0f32; D];
    for i in 0..D {
        on[i] = oe[i] / re * ee[i];
    }
    let got = ca(&kc!("cell_from_point_n", cv::cell_from_point_n(&pt(pq), &pt(on), &pt(ee))));
    ensure!(got == co, "cell_from_point_n: {:?} is the centre of cell {:?} (origin {:?}, resolution {:?}, all exact), got {:?}", pq, co, on, ee, got);
    let q = pa(&kc!("point_from_cell_n", cv::point_from_cell_n(&ce(co), &pt(on), &pt(ee))));
    ensure!(q == pq, "point_from_cell_n: the centre of cell {:?} is {:?} (origin {:?}, resolution {:?}, all exact), got {:?}", co, pq, on, ee, q);
    cs.obs.count("exact_conversions", 4);
    // and farther still: whole numbers of 24 bits at the most, times a power of two
    let mut cf = [0isize; D];
    let (mut pf, mut pg) = ([0.0f32; D], [0.0f32; D]);
    for i in 0..D {
        cf[i] = (r.int(-(1 << 24) + 1, (1 << 24) - 1) << r.below(36)) as isize;
        pf[i] = cf[i] as f32 * re;
        pg[i] = cf[i] as f32 * ee[i];
    }
    let zero = [0.0f32; D];
    let got = ca(&kc!("cell_from_point", cv::cell_from_point(&pt(pf), &pt(zero), re)));
    ensure!(got == cf, "cell_from_point: {:?} is the centre of cell {:?} (resolution {re}, all exact), got {:?}", pf, cf, got);
    let q = pa(&kc!("point_from_cell", cv::point_from_cell(&ce(cf), &pt(zero), re)));
    ensure!(q == pf, "point_from_cell: the centre of cell {:?} is {:?} (resolution {re}, all exact), got {:?}", cf, pf, q);
    let got = ca(&kc!("cell_from_point_n", cv::cell_from_point_n(&pt(pg), &pt(zero), &pt(ee))));
    ensure!(got == cf, "cell_from_point_n: {:?} is the centre of cell {:?} (resolution {:?}, all exact), got {:?}", pg, cf, ee, got);
    let q = pa(&kc!("point_from_cell_n", cv::point_from_cell_n(&ce(cf), &pt(zero), &pt(ee))));
    ensure!(q == pg, "point_from_cell_n: the centre of cell {:?} is {:?} (resolution {:?}, all exact), got {:?}", cf, pg, ee, q);
    cs.obs.count("cells_very_far_out", 4);
    Ok(())
}

// ------------------------------------------------------------------ C02

fn random_box(r: &mut Rng, grid: bool, degenerate: bool) -> ([f32; D], [f32; D]) {
    let mut a = [0.0f32; D];
    let mut b = [0.0f32; D];
    let scale = 10f64.powf(r.f64(-3.0, 6.0));
    for i in 0..D {
        let (x, y) = if grid {
            (r.int(-4, 4) as f32 * 0.5, r.int(-4, 4) as f32 * 0.5)
        } else {
            (r.f64(-scale, scale) as f32, r.f64(-scale, scale) as f32)
        };
        a[i] = x.min(y);
        b[i] = x.max(y);
        if degenerate && r.chance(1, 3) {
            b[i] = a[i];
        }
    }
    (a, b)
}

pub fn c02(cs: &mut Case) -> Verdict {
    let r = &mut cs.rng;
    let grid = r.chance(1, 2);
    let deg = r.chance(1, 5);
    let (amin, amax) = if r.chance(1, 12) { ([0.0; D], [0.0; D]) } else { random_box(r, grid, deg) };
    let mut nearly = false;
    let (bmin, bmax) = loop {
        let (x, y) = match r.below(5) {
            1 => {
                // almost the first one
                nearly = true;
                let mut x = amin;
                let mut y = amax;
                for i in 0..D {
                    for v in [&mut x[i], &mut y[i]] {
                        if r.chance(1, 2) {
                            let off = v.abs().max(1.0) * *r.pick(&[1e-7f32, 1e-6, 1e-5, 1e-4, 1e-3, 1e-2]);
                            *v += if r.chance(1, 2) { off } else { -off };
                        }
                    }
                    if x[i] > y[i] {
                        std::mem::swap(&mut x[i], &mut y[i]);
                    }
                }
                (x, y)
            }
            0 => {
                // a box placed relative to the first one, axis by axis
                let mut x = amin;
                let mut y = amax;
                for i in 0..D {
                    let w = (amax[i] - amin[i]).max(0.5);
                    let (lo, hi) = match r.below(8) {
                        0 => (amin[i], amax[i]),
                        1 => (amin[i] + 0.25 * w, amax[i] - 0.25 * w),
                        2 => (amin[i] - w, amax[i] + w),
                        3 => (amin[i] - w, amin[i] + 0.5 * w),
                        4 => (amax[i] - 0.5 * w, amax[i] + w),
                        5 => (amax[i], amax[i] + w),
                        6 => (amin[i] - w, amin[i]),
                        _ => (amax[i] + w, amax[i] + 2.0 * w),
                    };
                    x[i] = lo.min(hi);
                    y[i] = lo.max(hi);
                }
                (x, y)
            }
            _ => random_box(r, grid, deg),
        };
        if x != [0.0; D] || y != [0.0; D] {
            break (x, y);
        }
    };
    let a = bo(amin, amax);
    let b = bo(bmin, bmax);
    let empty_a = amin == [0.0; D] && amax == [0.0; D];
    let tag = format!("a=[{:?},{:?}] b=[{:?},{:?}]", amin, amax, bmin, bmax);

    if nearly {
        cs.obs.count("almost_the_same_box", 1);
    }
    let e = kc!("enclosing", a.enclosing(&b));
    for i in 0..D {
        let (lo, hi) = if empty_a { (bmin[i], bmax[i]) } else { (amin[i].min(bmin[i]), amax[i].max(bmax[i])) };
        ensure!(e.min[i] == lo && e.max[i] == hi, "enclosing {tag}: axis {i} must be [{lo},{hi}], got {:?}", e);
    }
    let o = kc!("overlapping", a.overlapping(&b));
    let mut empty = false;
    let mut close = false;
    let mut lo = [0.0f32; D];
    let mut hi = [0.0f32; D];
    for i in 0..D {
        lo[i] = amin[i].max(bmin[i]);
        hi[i] = amax[i].min(bmax[i]);
        if hi[i] <= lo[i] {
            empty = true;
        } else if (hi[i] - lo[i]) as f64 <= 4.0 * EPS * (hi[i].abs().max(lo[i].abs()).max(1.0)) as f64 {
            close = true; // thinner than rounding: may count as touching
        }
    }
    let is_empty = pa(&o.min) == [0.0; D] && pa(&o.max) == [0.0; D];
    if empty {
        ensure!(is_empty, "overlapping {tag}: no common volume, got {:?}", o);
        cs.obs.count("disjoint_or_touching", 1);
    } else {
        let exact = pa(&o.min) == lo && pa(&o.max) == hi;
        ensure!(exact || (close && is_empty), "overlapping {tag}: must be [{:?},{:?}], got {:?}", lo, hi, o);
        cs.obs.count("overlapping_pairs", 1);
    }
    // approximate equality
    let same = kc!("relative_eq", approx::relative_eq!(a, a.clone()));
    ensure!(same, "relative_eq is not reflexive on {:?}", a);
    ensure!(kc!("abs_diff_eq", approx::abs_diff_eq!(a, a.clone(), epsilon = 0.0)), "abs_diff_eq is not reflexive on {:?}", a);
    let axis = r.below(D as u64) as usize;
    let upper = r.chance(1, 2);
    let mut c = a.clone();
    let v = if upper { c.max[axis] } else { c.min[axis] };
    let rel = *r.pick(&[0.25f32, 1e-2, 1e-3, 1e-4]);
    let step = (v.abs() * rel).max(1e-4) * if r.chance(1, 2) { 1.0 } else { -1.0 };
    let nv = v + step;
    if upper {
        c.max[axis] = nv
    } else {
        c.min[axis] = nv
    }
    let eq1 = kc!("relative_eq", approx::relative_eq!(a, c));
    let eq2 = kc!("relative_eq", approx::relative_eq!(c, a));
    ensure!(!eq1 && !eq2, "relative_eq says equal although {} corner axis {axis} differs: {:?} vs {:?}", if upper { "max" } else { "min" }, a, c);
    ensure!(!kc!("abs_diff_eq", approx::abs_diff_eq!(a, c)), "abs_diff_eq says equal although axis {axis} differs: {:?} vs {:?}", a, c);
    let s = (nv as f64 - v as f64).abs() as f32;
    let (t_eq, t_ne) = (
        kc!("abs_diff_eq", approx::abs_diff_eq!(a, c, epsilon = 2.0 * s)),
        kc!("abs_diff_eq", approx::abs_diff_eq!(a, c, epsilon = 0.5 * s)),
    );
    ensure!(t_eq, "abs_diff_eq with epsilon {} rejects a difference of {s}: {:?} vs {:?}", 2.0 * s, a, c);
    ensure!(!t_ne, "abs_diff_eq with epsilon {} accepts a difference of {s} on {} axis {axis}", 0.5 * s, if upper { "max" } else { "min" });
    let r_eq = kc!("relative_eq", approx::relative_eq!(a, c, epsilon = 0.0, max_relative = 1.0e9));
    ensure!(r_eq || v == 0.0 || nv == 0.0, "relative_eq with a huge max_relative rejects {:?} vs {:?}", a, c);
    ensure!(!kc!("relative_eq", approx::relative_eq!(a, c, epsilon = 0.5 * s, max_relative = 0.0)),
        "relative_eq with epsilon {} accepts a difference of {s}", 0.5 * s);
    // constructors
    let n = kc!("Bounds::new", Bo::new(pt(amin), pt(amax)));
    ensure!(pa(&n.min) == amin && pa(&n.max) == amax, "Bounds::new({:?},{:?}) = {:?}", amin, amax, n);
    let mut imin = [0isize; D];
    let mut imax = [0isize; D];
    for i in 0..D {
        let (x, y) = (r.mag(1000) as isize, r.mag(1000) as isize);
        imin[i] = x.min(y);
        imax[i] = x.max(y);
    }
    let n = kc!("CellBounds::new", CB::new(ce(imin), ce(imax)));
    ensure!(ca(&n.min) == imin && ca(&n.max) == imax, "CellBounds::new({:?},{:?}) = {:?}", imin, imax, n);
    let (mut bad_min, mut bad_imin) = (amin, imin);
    bad_min[axis] = amax[axis] + (amax[axis].abs() * 1e-3).max(1e-3);
    bad_imin[axis] = imax[axis] + 1;
    ensure!(rejects(|| Bo::new(pt(bad_min), pt(amax))), "Bounds::new accepts inverted corners {:?} > {:?}", bad_min, amax);
    ensure!(rejects(|| CB::new(ce(bad_imin), ce(imax))), "CellBounds::new accepts inverted corners {:?} > {:?}", bad_imin, imax);
    let em = kc!("Bounds::empty", Bo::empty());
    ensure!(pa(&em.min) == [0.0; D] && pa(&em.max) == [0.0; D], "Bounds::empty() = {:?}", em);
    let em = kc!("CellBounds::empty", CB::empty());
    ensure!(ca(&em.min) == [0; D] && ca(&em.max) == [0; D], "CellBounds::empty() = {:?}", em);
    cs.obs.count("constructor_rejections", 2);
    if empty_a {
        cs.obs.count("empty_receiver", 1);
    }
    let mut h = Hash64::new();
    h.addf(&amin).addf(&amax).addf(&bmin).addf(&bmax);
    cs.obs.sig(h.0);
    cs.obs.sample(|| format!("{tag}: enclosing {:?}, overlapping {:?}", e, o));
    Ok(())
}

// ------------------------------------------------------------------ C03

pub fn c03(cs: &mut Case) -> Verdict {
    let r = &mut cs.rng;
    let res = r.res_wide();
    let rd = res as f64;
    let max = *r.pick(&[5i64, 300, 100_000]);
    // world box
    let (x, y) = (coords(r, [res; D], max), coords(r, [res; D], max));
    let mut min = [0.0f32; D];
    let mut mx = [0.0f32; D];
    for i in 0..D {
        min[i] = x[i].min(y[i]);
        mx[i] = x[i].max(y[i]);
        if r.chance(1, 10) {
            mx[i] = min[i];
        }
    }
    let b = bo(min, mx);
    let plain = kc!("discretized", b.discretized(res, false));
    let grown = kc!("discretized", b.discretized(res, true));
    for i in 0..D {
        let tag = || format!("discretized box [{:?},{:?}] resolution {res} axis {i}: plain {:?} expanded {:?}", min, mx, plain, grown);
        let on_lattice = |v: f64| {
            let q = v / rd;
            (q - q.round()).abs() <= 4.0 * EPS * (q.abs() + 1.0)
        };
        let (lo, hi) = (min[i] as f64, mx[i] as f64);
        let tol = |v: f64| 4.0 * EPS * (v.abs() + rd);
        for (name, g) in [("plain", &plain), ("expanded", &grown)] {
            let l = g.min[i] as f64;
            ensure!(l <= lo + tol(lo), "{name} does not contain the lower face: {}", tag());
            ensure!(lo - l < rd + tol(lo), "{name} exceeds the lower face by a cell or more: {}", tag());
            ensure!(on_lattice(l), "{name} lower face is not on the lattice: {}", tag());
        }
        let u = plain.max[i] as f64;
        ensure!(u >= hi - tol(hi), "plain does not contain the upper face: {}", tag());
        ensure!(u - hi < rd + tol(hi), "plain exceeds the upper face by a cell or more: {}", tag());
        ensure!(on_lattice(u), "plain upper face is not on the lattice: {}", tag());
        let q = hi / rd;
        let off = (q - q.round()).abs();
        let g = grown.max[i] as f64;
        let stays = (g - u).abs() <= tol(hi);
        let moved = (g - (u + rd)).abs() <= 2.0 * tol(hi);
        if off <= 0.25 * EPS * q.abs() {
            ensure!(moved, "an upper face on the lattice must move up by exactly one cell: {}", tag());
            cs.obs.count("upper_faces_on_lattice", 1);
        } else if off > 4.0 * EPS * q.abs().max(1.0) {
            ensure!(stays, "an upper face off the lattice must not be expanded: {}", tag());
            cs.obs.count("upper_faces_off_lattice", 1);
        } else {
            ensure!(stays || moved, "upper face neither kept nor moved by one cell: {}", tag());
        }
    }
    // cell boxes and tiles
    let tile = match r.below(4) {
        0 => 1 + r.below(4) as usize,
        1 => 100,
        2 => 1 + r.below(20) as usize,
        _ => 1 + r.below(10_000) as usize,
    };
    let t = tile as i64;
    let mut cmin = [0isize; D];
    let mut cmax = [0isize; D];
    for i in 0..D {
        let mut g = || if r.chance(1, 3) { r.int(-5, 5) * t + r.int(-1, 1) } else { r.mag(100_000) };
        let (p, q) = (g() as isize, g() as isize);
        cmin[i] = p.min(q);
        cmax[i] = p.max(q);
    }
    let cbx = cb(cmin, cmax);
    {
        // cells far beyond what fits a floating point number, or 32 bits
        let far = 1i64 << *r.pick(&[31, 32, 33, 53, 54, 60]);
        let t = *r.pick(&[t, t, 1, 2, 1 << 20, (1 << 31) + 1, 1 << 33]);
        let (mut lo, mut hi) = ([0isize; D], [0isize; D]);
        for i in 0..D {
            let mut g = || {
                let near = if r.chance(1, 2) { far } else { r.int(0, far) };
                (if r.chance(1, 2) { near } else { -near }) + r.int(-3, 3)
            };
            let (p, q) = (g() as isize, g() as isize);
            lo[i] = p.min(q);
            hi[i] = p.max(q);
        }
        let dsc = kc!("CellBounds::discretized", cb(lo, hi).discretized(t as usize));
        for i in 0..D {
            let (l, h) = ((lo[i] as i64).div_euclid(t) * t, -((-(hi[i] as i64)).div_euclid(t)) * t);
            ensure!(dsc.min[i] as i64 == l && dsc.max[i] as i64 == h,
                "cell box [{:?},{:?}] tile {t}: axis {i} must become [{l},{h}], got {:?}", lo, hi, dsc);
        }
        cs.obs.count("cell_boxes_far_out", 1);
    }
    let dsc = kc!("CellBounds::discretized", cbx.discretized(tile));
    for i in 0..D {
        let lo = (cmin[i] as i64).div_euclid(t) * t;
        let hi = -((-(cmax[i] as i64)).div_euclid(t)) * t;
        ensure!(dsc.min[i] as i64 == lo && dsc.max[i] as i64 == hi,
            "cell box [{:?},{:?}] tile {tile}: axis {i} must become [{lo},{hi}], got {:?}", cmin, cmax, dsc);
    }
    // cell box <-> world
    let w = kc!("from_cell_bounds", Bo::from_cell_bounds(&cbx, res));
    check_centre("from_cell_bounds min", cmin, [0.0; D], [res; D], pa(&w.min))?;
    check_centre("from_cell_bounds max", cmax, [0.0; D], [res; D], pa(&w.max))?;
    let back = kc!("CellBounds::from_bounds", CB::from_bounds(&w, res));
    ensure!(back == cbx, "cell box {:?} -> world {:?} -> {:?} at resolution {res}", cbx, w, back);
    let mut per = [0.0f32; D];
    let mut size = [0isize; D];
    for i in 0..D {
        per[i] = r.res_wide();
        size[i] = cmax[i] - cmin[i];
    }
    let w = kc!("from_cell_bounds_n", Bo::from_cell_bounds_n(&cbx, &pt(per)));
    check_centre("from_cell_bounds_n min", cmin, [0.0; D], per, pa(&w.min))?;
    check_centre("from_cell_bounds_n max", cmax, [0.0; D], per, pa(&w.max))?;
    let w = kc!("from_size_cells", Bo::from_size_cells(&ce(size), res, &ce(cmin)));
    check_centre("from_size_cells min", cmin, [0.0; D], [res; D], pa(&w.min))?;
    check_centre("from_size_cells max", cmax, [0.0; D], [res; D], pa(&w.max))?;
    let back = kc!("CellBounds::from_bounds", CB::from_bounds(&w, res));
    ensure!(back == cbx, "size {:?} offset {:?} -> world {:?} -> {:?}", size, cmin, w, back);
    let w = kc!("from_size_cells_n", Bo::from_size_cells_n(&ce(size), &pt(per), &ce(cmin)));
    check_centre("from_size_cells_n min", cmin, [0.0; D], per, pa(&w.min))?;
    check_centre("from_size_cells_n max", cmax, [0.0; D], per, pa(&w.max))?;
    let z = kc!("CellBounds::from_bounds", CB::from_bounds(&Bo::empty(), res));
    ensure!(z == CB::empty(), "the empty box converts to {:?}", z);
    let mut h = Hash64::new();
    h.addf(&min).addf(&mx).addi(&cmin).addi(&cmax).add(tile as u64);
    cs.obs.sig(h.0);
    if cmin.iter().any(|v| *v < 0 && *v as i64 % t != 0) {
        cs.obs.count("negative_unaligned_lower", 1);
    }
    if cmax.iter().any(|v| *v < 0 && *v as i64 % t != 0) {
        cs.obs.count("negative_unaligned_upper", 1);
    }
    cs.obs.sample(|| format!("box [{:?},{:?}] res {res} -> {:?} / {:?}; cell box [{:?},{:?}] tile {tile} -> {:?}", min, mx, plain, grown, cmin, cmax, dsc));
    Ok(())
}

// ------------------------------------------------------------------ C04

pub fn c04(cs: &mut Case) -> Verdict {
    let n = match cs.rng.below(6) {
        0 => 0,
        1 => 1,
        2 => cs.rng.below(4) as usize,
        _ => cs.rng.below(cs.upto(4, 400) as u64 + 1) as usize,
    };
    let n = match cs.rng.below(400) {
        // a whole scan of a real sensor has well over a hundred thousand
        0 if cs.size > 0.5 => { let real = cs.rng.chance(1, 20); cs.rng.int(if real { 65_530 } else { 3000 }, if real { 200_000 } else { 20_000 }) as usize }
        1..=8 => cs.upto(4, 3000) as usize,
        _ => n,
    };
    let r = &mut cs.rng;
    let mut centre = [0.0f64; D];
    let far = 10f64.powf(r.f64(-1.0, 6.0));
    for i in 0..D {
        centre[i] = if r.chance(1, 3) { 0.0 } else { r.f64(-far, far) };
    }
    let spread = 10f64.powf(r.f64(-1.0, 3.0));
    let grid = r.chance(1, 4);
    // readers hand on whatever is in a file
    let odd = r.chance(1, 20);
    let nans = r.chance(1, 2);
    let mut pts: Vec<[f32; D]> = vec![];
    for _ in 0..n {
        let mut p = [0.0; D];
        for i in 0..D {
            p[i] = if grid { r.int(-2, 2) as f32 } else { (centre[i] + r.f64(-spread, spread)) as f32 };
            if r.chance(1, 50) {
                p[i] = *r.pick(&[0.0, -0.0, f32::MIN_POSITIVE, -1e-40, 1e30, -1e30]);
            }
            if odd && r.chance(1, 20) {
                p[i] = *r.pick(&[f32::INFINITY, f32::NEG_INFINITY, f32::MAX, f32::MIN]);
            }
            if odd && nans && r.chance(1, 20) {
                p[i] = *r.pick(&[f32::NAN, -f32::NAN, f32::from_bits(0x7fc1_2345), f32::from_bits(0xffff_ffff)]);
            }
        }
        pts.push(p);
    }
    let list: Vec<Pt> = pts.iter().map(|p| pt(*p)).collect();
    let cloud = if r.chance(1, 3) {
        let mut m = nalgebra::MatrixMN::<f32, Na, nalgebra::Dynamic>::zeros(n);
        for (j, p) in pts.iter().enumerate() {
            for i in 0..D {
                m[(i, j)] = p[i];
            }
        }
        kc!("from_data", PC::from_data(m))
    } else {
        kc!("from_points", PC::from_points(&list))
    };
    let num = kc!("num_points", cloud.num_points());
    ensure!(num == n, "cloud of {n} points reports {num}");
    let got: Vec<[f32; D]> = kc!("points_iter", cloud.points_iter().collect::<Vec<_>>()).iter().map(pa).collect();
    ensure!(got.len() == n, "cloud of {n} points iterates {} points", got.len());
    for k in 0..n {
        for i in 0..D {
            ensure!(got[k][i].to_bits() == pts[k][i].to_bits(), "point {k} of {n} changed from {:?} to {:?}", pts[k], got[k]);
        }
    }
    let b = kc!("bounds", cloud.bounds());
    let mut lo = [0.0f32; D];
    let mut hi = [0.0f32; D];
    cs.obs.count("clouds_with_infinite_coordinates", pts.iter().flatten().any(|x| x.is_infinite()) as u64);
    for i in 0..D {
        // (nothing is said about the hull of what is not a number)
        if pts.iter().any(|p| p[i].is_nan()) {
            continue;
        }
        if n > 0 {
            lo[i] = pts.iter().map(|p| p[i]).fold(f32::INFINITY, f32::min);
            hi[i] = pts.iter().map(|p| p[i]).fold(f32::NEG_INFINITY, f32::max);
        }
        ensure!(b.min[i] == lo[i] && b.max[i] == hi[i],
            "hull of {n} points must be [{},{}] on axis {i}, got {:?}; first points {:?}", lo[i], hi[i], b, &pts[..n.min(4)]);
    }
    let c2 = kc!("clone", cloud.clone());
    ensure!(c2.data.shape() == cloud.data.shape() && c2.data.iter().zip(cloud.data.iter()).all(|(a, b)| a.to_bits() == b.to_bits()), "clone differs");
    cs.obs.count("points", n as u64);
    if n > 0 && (0..D).any(|i| lo[i] > 0.0 || hi[i] < 0.0) {
        cs.obs.count("clouds_away_from_origin", 1);
    }
    if n == 0 {
        cs.obs.count("empty_clouds", 1);
    }
    let mut h = Hash64::new();
    for p in &pts {
        h.addf(p);
    }
    cs.obs.sig(h.0);
    cs.obs.sample(|| format!("{n} points, hull [{:?},{:?}], first {:?}", lo, hi, &pts[..n.min(3)]));
    Ok(())
}
