// C06-C08, instantiated for 2-D and 3-D.
use crate::core::*;
use crate::{ensure, kc};
use kuba::prelude::*;
use std::fmt::Debug;

/// A cell type the histories run with: unique values, recognisable on read.
pub trait Val: nalgebra::Scalar + Clone + PartialEq + Debug {
    fn mk(id: u64) -> Self;
    /// The very same value, bit by bit.
    fn same(&self, other: &Self) -> bool {
        self == other
    }
}

fn in_range(c: [isize; D], sh: [usize; D]) -> bool {
    (0..D).all(|i| c[i] >= 0 && (c[i] as usize) < sh[i])
}
fn lin(c: [isize; D], sh: [usize; D]) -> usize {
    let mut k = 0;
    for i in 0..D {
        k = k * sh[i] + c[i] as usize;
    }
    k
}
fn rand_cell(r: &mut Rng, sh: [usize; D]) -> [isize; D] {
    let mut c = [0; D];
    for i in 0..D {
        c[i] = r.below(sh[i] as u64) as isize;
    }
    c
}
/// A cell that is outside the shape on at least one axis; other axes mostly inside.
fn bad_cell(r: &mut Rng, sh: [usize; D]) -> [isize; D] {
    let mut c = [0isize; D];
    let mut bad = false;
    let force = r.below(D as u64) as usize;
    for i in 0..D {
        let s = sh[i] as isize;
        if i == force || r.chance(1, 6) {
            bad = true;
            c[i] = match r.below(8) {
                0 => -1,
                1 => s,
                2 => -s - r.int(0, 3) as isize,
                3 => s + r.int(0, 1000) as isize,
                4 => isize::MIN,
                5 => isize::MAX,
                6 => -r.int(1, 1000) as isize,
                _ => {
                    let w = *r.pick(&[8u32, 16, 31, 32, 33, 62]);
                    let x = 1isize << w;
                    let alias = x + r.below(s.max(1) as u64) as isize;
                    *r.pick(&[x, -x, x - 1, x + 1, isize::MIN + 1, isize::MIN + s, -x + 1, alias, alias])
                },
            };
        } else {
            c[i] = if s > 0 { r.below(s as u64) as isize } else { 0 };
        }
    }
    debug_assert!(bad);
    if in_range(c, sh) {
        c[force] = -1;
    }
    c
}

struct Shadow<A: Val> {
    map: Map<A>,
    sh: [usize; D],
    vals: Vec<A>,
}

fn sweep<A: Val>(what: &str, s: &Shadow<A>) -> Verdict {
    ensure!(shape(&s.map) == s.sh, "{what}: shape changed from {:?} to {:?}", s.sh, shape(&s.map));
    let cs = cells(s.sh);
    let got: Vec<A> = kc!("get", cs.iter().map(|c| s.map.get(&ce(*c))).collect());
    for (k, c) in cs.iter().enumerate() {
        ensure!(got[k].same(&s.vals[k]), "{what}: cell {:?} of a {:?} map reads {:?}, last written {:?}", c, s.sh, got[k], s.vals[k]);
    }
    Ok(())
}

pub fn c06_typed<A: Val>(cs: &mut Case, tyname: &'static str) -> Verdict {
    let lim = cs.upto(3, if D == 2 { 24 } else { 9 });
    let r = &mut cs.rng;
    let mut sh = [0usize; D];
    for i in 0..D {
        sh[i] = r.int(1, lim) as usize;
    }
    if r.chance(1, 4) {
        // very elongated, and single-cell axes
        sh[r.below(D as u64) as usize] = *r.pick(&[1usize, 2, 60]);
    }
    match if cfg!(miri) { 9 } else { r.below(300) } {
        0 => {
            // one axis longer than any narrow integer counts
            sh = [1; D];
            sh[r.below(D as u64) as usize] = *r.pick(&[256usize, 257, 300, 1000, 5000, 32_768, 65_536, 66_000, 70_001]);
        }
        1 => {
            // large on every axis
            for i in 0..D {
                sh[i] = if D == 2 { r.int(200, 400) } else { r.int(24, 50) } as usize;
            }
        }
        _ => {}
    }
    let n: usize = sh.iter().product();
    let res = r.res();
    let mut next = 1u64;
    let d0 = A::mk(0);
    let kind = r.below(5);
    let (map, vals): (Map<A>, Vec<A>) = match kind {
        0 | 1 => {
            let mut lo = [0isize; D];
            let mut hi = [0isize; D];
            for i in 0..D {
                lo[i] = r.int(-50, 50) as isize;
                hi[i] = lo[i] + sh[i] as isize;
            }
            let b = kc!("from_cell_bounds", Bo::from_cell_bounds(&cb(lo, hi), res));
            (kc!("GridMapN::new", Map::<A>::new(res, b, 1 + r.below(20) as usize, d0.clone())), vec![d0.clone(); n])
        }
        2 => {
            // column-major storage behind the same logical array
            let vals: Vec<A> = (0..n).map(|k| A::mk(1_000_000 + k as u64)).collect();
            let mut arr = ndarray::Array::<A, Nd>::from_elem({ use ndarray::ShapeBuilder; ndim(sh).f() }, d0.clone());
            for (k, c) in cells(sh).iter().enumerate() {
                arr[ndim_c(*c)] = vals[k].clone();
            }
            (kc!("from_ndarray", Map::<A>::from_ndarray(arr, res, bo([0.0; D], [1.0; D]), 10)), vals)
        }
        3 => {
            let vals: Vec<A> = (0..n).map(|k| A::mk(2_000_000 + k as u64)).collect();
            let arr = ndarray::Array::<A, Nd>::from_shape_vec(ndim(sh), vals.clone()).unwrap();
            (kc!("from_ndarray", Map::<A>::from_ndarray(arr, res, bo([-1.0; D], [1.0; D]), 10)), vals)
        }
        _ => {
            // grown by an expansion
            let mut m = kc!("GridMapN::new", Map::<A>::new(res, Bo::empty(), 1 + r.below(6) as usize, d0.clone()));
            let mut lo = [0.0f32; D];
            let mut hi = [0.0f32; D];
            for i in 0..D {
                lo[i] = (r.f64(-6.0, 6.0) * res as f64) as f32;
                hi[i] = lo[i] + (r.f64(0.0, 6.0) * res as f64) as f32;
            }
            kc!("expand_bounds", m.expand_bounds(&bo(lo, hi), d0.clone()));
            sh = shape(&m);
            let n: usize = sh.iter().product();
            (m, vec![d0.clone(); n])
        }
    };
    ensure!(shape(&map) == sh, "a map made with shape {:?} has shape {:?}", sh, shape(&map));
    let mut maps = vec![Shadow { map, sh, vals }];
    let steps = if n > 20_000 { 10 } else if cfg!(miri) { 8 } else if r.chance(1, 40) { 400 } else { 10 + r.below(60) };
    let mut h = Hash64::new();
    for _ in 0..steps {
        let w = r.below(maps.len() as u64) as usize;
        match r.below(10) {
            0..=3 => {
                let c = rand_cell(r, sh);
                let v = A::mk(next);
                next += 1;
                let s = &mut maps[w];
                kc!("set", s.map.set(&ce(c), v.clone()));
                s.vals[lin(c, sh)] = v;
                h.addi(&c);
                cs.obs.count("writes", 1);
            }
            4 | 5 => {
                let c = rand_cell(r, sh);
                let s = &maps[w];
                let g = kc!("get", s.map.get(&ce(c)));
                ensure!(g.same(&s.vals[lin(c, sh)]), "cell {:?} of a {:?} map reads {:?}, last written {:?}", c, sh, g, s.vals[lin(c, sh)]);
                cs.obs.count("reads", 1);
            }
            6 | 7 => {
                let c = bad_cell(r, sh);
                let s = &mut maps[w];
                let read = r.chance(1, 2);
                let refused = if read {
                    rejects(|| s.map.get(&ce(c)))
                } else {
                    let v = A::mk(next);
                    next += 1;
                    rejects(|| s.map.set(&ce(c), v))
                };
                ensure!(refused, "{} cell {:?} outside a {:?} map was not rejected", if read { "reading" } else { "writing" }, c, sh);
                cs.obs.count("out_of_range_accesses_rejected", 1);
                if !read {
                    sweep("after a rejected write", &maps[w])?;
                }
            }
            8 if maps.len() < 4 => {
                let m = kc!("clone", maps[w].map.clone());
                ensure!(m.resolution == maps[w].map.resolution && m.bounds == maps[w].map.bounds && m.tile_size == maps[w].map.tile_size,
                    "a copy differs in resolution, bounds or tile size");
                let v = maps[w].vals.clone();
                maps.push(Shadow { map: m, sh, vals: v });
                cs.obs.count("copies", 1);
            }
            9 if maps.len() > 1 => {
                let s = maps.swap_remove(w);
                sweep("before drop", &s)?;
            }
            _ => {}
        }
    }
    for s in &maps {
        sweep("at the end of the history", s)?;
    }
    cs.obs.count(tyname, 1);
    h.add(next).add(kind);
    for i in 0..D {
        h.add(sh[i] as u64);
    }
    cs.obs.sig(h.0);
    cs.obs.sample(|| format!("{D}-D {:?} map of {tyname}, construction {kind}, {steps} operations, {} maps alive at the end", sh, maps.len()));
    Ok(())
}

/// The empty map has no cells at all.
pub fn c06_empty(cs: &mut Case) -> Verdict {
    let mut m = kc!("default", Map::<f32>::default());
    let r = &mut cs.rng;
    let mut c = [0isize; D];
    for i in 0..D {
        c[i] = r.mag(1000) as isize;
    }
    ensure!(rejects(|| m.get(&ce(c))), "reading cell {:?} of the empty map was not rejected", c);
    ensure!(rejects(|| m.set(&ce(c), 1.0)), "writing cell {:?} of the empty map was not rejected", c);
    ensure!(m.data.len() == 0, "the empty map has cells");
    ensure!(m.resolution() == kuba::map::grid_map::DEFAULT_RESOLUTION && m.tile_size == kuba::map::grid_map::DEFAULT_TILE_SIZE, "default map configuration");
    cs.obs.count("out_of_range_accesses_rejected", 2);
    Ok(())
}

// ------------------------------------------------------------------ C07 / C08

/// Absolute lattice index of the map's cell zero.
pub fn abs_min(min: [f32; D], res: f32) -> [i64; D] {
    let mut a = [0; D];
    for i in 0..D {
        a[i] = (min[i] as f64 / res as f64).round() as i64;
    }
    a
}

/// What the monitor remembers of a map between two observations.
#[derive(Clone)]
struct Snap<A: Val> {
    min: [i64; D],
    sh: [usize; D],
    vals: Vec<A>,
    empty: bool,
}

fn snap<A: Val>(m: &Map<A>, res: f32) -> Snap<A> {
    Snap {
        min: abs_min(pa(&m.bounds.min), res),
        sh: shape(m),
        vals: m.data.iter().cloned().collect(),
        empty: m.data.len() == 0,
    }
}

#[derive(Clone, Copy, PartialEq)]
pub enum Which {
    Values,
    Extent,
}

fn request(r: &mut Rng, s_min: [i64; D], s_sh: [usize; D], empty: bool, first_at: [i64; D], reach: i64, res: f32) -> ([f32; D], [f32; D]) {
    let mut lo = [0.0f32; D];
    let mut hi = [0.0f32; D];
    let inside = !empty && r.chance(1, 6);
    for i in 0..D {
        let (x, y);
        if empty {
            x = first_at[i] as f64 + r.int(-reach, reach) as f64;
            y = x + r.int(0, reach) as f64;
        } else if inside {
            let a = r.int(0, s_sh[i] as i64 - 1);
            let b = r.int(a, s_sh[i] as i64 - 1);
            x = (s_min[i] + a) as f64;
            y = (s_min[i] + b) as f64;
        } else {
            // around the current extent, growing over either face or none
            x = (s_min[i] + r.int(-reach, s_sh[i] as i64)) as f64;
            y = x + r.int(0, s_sh[i] as i64 / 2 + reach) as f64;
        }
        let (mut px, mut py) = (x + r.phase(), y + r.phase());
        if r.chance(1, 8) {
            py = px; // degenerate on this axis
        }
        if px > py {
            std::mem::swap(&mut px, &mut py);
        }
        lo[i] = (px * res as f64) as f32;
        hi[i] = (py * res as f64) as f32;
        if hi[i] < lo[i] {
            hi[i] = lo[i];
        }
    }
    (lo, hi)
}

pub fn expand_history<A: Val>(cs: &mut Case, which: Which) -> Verdict {
    let big = cs.size > 0.8 && cs.rng.chance(1, 12);
    let wide = !big && !cfg!(miri) && cs.rng.chance(1, 25);
    let long = !cfg!(miri) && cs.rng.chance(1, 25);
    let max_cells: usize = if big { 400_000 } else if wide { 100_000 } else if cfg!(miri) { 600 } else { 12_000 };
    let reach = cs.upto(2, if D == 2 { if big { 300 } else { 45 } } else if big { 30 } else { 10 });
    let r = &mut cs.rng;
    let res = r.res();
    let tile = match if wide { 6 } else { r.below(6) } {
        6 => if D == 2 { *r.pick(&[100usize, 64, 128, 50, 99]) } else { *r.pick(&[16usize, 20, 25, 32]) },
        0 => 1,
        1 => 2,
        2 => r.int(3, 12) as usize,
        3 if !cfg!(miri) => if D == 2 { r.int(1, 100) as usize } else { r.int(1, 20) as usize },
        4 => 10,
        _ => 5,
    };
    // maps much longer than wide
    let thin = if cs.size > 0.4 && !cfg!(miri) && r.chance(1, 40) { Some((r.below(D as u64) as usize, *r.pick(&[300i64, 2_000, 30_000, 80_000]))) } else { None };
    let max_cells = if thin.is_some() { 500_000 } else { max_cells };
    let tile = if thin.is_some() { tile.min(3) } else { tile };
    let reach = if thin.is_some() { 1 } else { reach };
    let far = *r.pick(&[0i64, 0, 10, 1000, 20_000, if thin.is_some() { 20_000 } else { 100_000 }]);
    let mut at = [0i64; D];
    for i in 0..D {
        at[i] = r.int(-far, far);
        if r.chance(1, 3) {
            at[i] = 0;
        }
    }
    let mut next = 1u64;
    let dv = A::mk(0);
    let mut map: Map<A> = match r.below(6) {
        kind @ 0..=1 => {
            let mut lo = [0isize; D];
            let mut hi = [0isize; D];
            for i in 0..D {
                lo[i] = at[i] as isize + r.int(-10, 5) as isize;
                hi[i] = lo[i] + r.int(1, 12) as isize;
                if r.chance(1, 2) {
                    // tile aligned
                    lo[i] = lo[i].div_euclid(tile as isize) * tile as isize;
                    hi[i] = lo[i] + tile as isize;
                }
            }
            let n: i64 = (0..D).map(|i| (hi[i] - lo[i]) as i64).product();
            if n > max_cells as i64 {
                return Ok(());
            }
            let b = kc!("from_cell_bounds", Bo::from_cell_bounds(&cb(lo, hi), res));
            if kind == 0 {
                kc!("GridMapN::new", Map::<A>::new(res, b, tile, dv.clone()))
            } else {
                // made from an existing array, row-major or column-major, with contents
                let mut sh = [0usize; D];
                for i in 0..D {
                    sh[i] = (hi[i] - lo[i]) as usize;
                }
                let column = r.chance(1, 2);
                let mut arr = ndarray::Array::<A, Nd>::from_elem({ use ndarray::ShapeBuilder; ndim(sh).set_f(column) }, dv.clone());
                for c in cells(sh) {
                    arr[ndim_c(c)] = A::mk(next);
                    next += 1;
                }
                cs.obs.count(if column { "maps_from_column_major_arrays" } else { "maps_from_row_major_arrays" }, 1);
                kc!("from_ndarray", Map::<A>::from_ndarray(arr, res, b, tile))
            }
        }
        _ => kc!("GridMapN::new", Map::<A>::new(res, Bo::empty(), tile, dv.clone())),
    };
    let mut copies: Vec<(Map<A>, Snap<A>)> = vec![];
    let steps = if long { 8 + r.below(40) } else { 1 + r.below(7) };
    let mut trail = String::new();
    let mut h = Hash64::new();
    let mut grown = [false; 6];
    for step in 0..steps {
        let old = snap(&map, res);
        let (mut lo, mut hi) = request(r, old.min, old.sh, old.empty, at, reach, res);
        if let Some((axis, length)) = thin {
            // further along one axis, one way or the other
            let by = (r.int(0, length) as f64 * res as f64) as f32;
            if r.chance(1, 2) { lo[axis] -= by } else { hi[axis] += by }
        }
        // skip requests whose dense map would be too large
        let mut n = 1f64;
        for i in 0..D {
            let a = (lo[i] / res).floor() as i64 - tile as i64 - 2;
            let b = (hi[i] / res).ceil() as i64 + tile as i64 + 2;
            let (a, b) = if old.empty { (a, b) } else { (a.min(old.min[i]), b.max(old.min[i] + old.sh[i] as i64)) };
            n *= (b - a) as f64;
        }
        if n > max_cells as f64 {
            continue;
        }
        let dv = A::mk(next);
        next += 1;
        trail.push_str(&format!(" expand{:?}..{:?}", lo, hi));
        let before_bounds = map.bounds.clone();
        kc!(format!("expand_bounds (step {step}, resolution {res}, tile {tile}, trail{trail})"), map.expand_bounds(&bo(lo, hi), dv.clone()));
        cs.obs.count("expansions", 1);
        cs.obs.max("longest_axis_in_cells", *shape(&map).iter().max().unwrap() as f64);
        let new_min = abs_min(pa(&map.bounds.min), res);
        let sh = shape(&map);
        let after_bounds = map.bounds.clone();
        let ctx = || format!("resolution {res}, tile {tile}, history{trail}; bounds {:?} -> {:?}, shape {:?}", before_bounds, after_bounds, sh);
        if which == Which::Extent {
            for i in 0..D {
                let span = (map.bounds.max[i] as f64 - map.bounds.min[i] as f64) / res as f64;
                ensure!((span - sh[i] as f64).abs() < 0.45, "axis {i}: world box spans {span} cells but the array has {}; {}", sh[i], ctx());
                let fmin = map.bounds.min[i] as f64 / res as f64;
                ensure!((fmin - new_min[i] as f64).abs() < 0.3, "axis {i}: lower face at lattice {fmin} is not on the cell lattice; {}", ctx());
                ensure!(new_min[i].rem_euclid(tile as i64) == 0 && (new_min[i] + sh[i] as i64).rem_euclid(tile as i64) == 0,
                    "axis {i}: extent [{}, {}) is not on multiples of the tile size; {}", new_min[i], new_min[i] + sh[i] as i64, ctx());
                let need_lo = (lo[i] as f64 / res as f64).round() as i64;
                let need_hi = (hi[i] as f64 / res as f64).round() as i64 + 1;
                let (mut nl, mut nh) = (need_lo - 2, need_hi + 2);
                if !old.empty {
                    let (ol, oh) = (old.min[i], old.min[i] + old.sh[i] as i64);
                    ensure!(new_min[i] <= ol && new_min[i] + sh[i] as i64 >= oh, "axis {i}: extent shrank from [{ol}, {oh}); {}", ctx());
                    nl = nl.min(ol);
                    nh = nh.max(oh);
                }
                ensure!(new_min[i] > nl - tile as i64 && new_min[i] + (sh[i] as i64) < nh + tile as i64,
                    "axis {i}: extent [{}, {}) exceeds what is needed ([{}, {})) by a tile and two cells or more; {}",
                    new_min[i], new_min[i] + sh[i] as i64, need_lo, need_hi, ctx());
            }
            // cell zero sits on the lower corner
            let p0 = kc!("point_from_cell", map.point_from_cell(&ce([0; D])));
            let c0 = kc!("cell_from_point", map.cell_from_point(&map.bounds.min));
            ensure!(ca(&c0) == [0; D] && (0..D).all(|i| (p0[i] - map.bounds.min[i]).abs() <= res * 1e-3 + map.bounds.min[i].abs() * 1e-6),
                "cell zero is not centred on the lower corner (centre {:?}); {}", p0, ctx());
            // every point of the requested box is inside
            for k in 0..(1 << D) + 12 {
                let mut p = [0.0f32; D];
                for i in 0..D {
                    p[i] = if k < (1 << D) {
                        if k >> i & 1 == 0 { lo[i] } else { hi[i] }
                    } else {
                        match r.below(4) {
                            0 => lo[i],
                            1 => hi[i],
                            _ => r.f32(lo[i], hi[i]).max(lo[i]).min(hi[i]),
                        }
                    };
                }
                let c = ca(&kc!("cell_from_point", map.cell_from_point(&pt(p))));
                ensure!(in_range(c, sh), "point {:?} of the requested box is in cell {:?}, outside the map; {}", p, c, ctx());
                let v = kc!("get", map.get(&ce(c)));
                let w = A::mk(next);
                next += 1;
                kc!("set", map.set(&ce(c), w));
                kc!("set", map.set(&ce(c), v));
                cs.obs.count("points_located", 1);
            }
        } else {
            let now = snap(&map, res);
            let mut kept = 0u64;
            for (k, c) in cells(sh).iter().enumerate() {
                let mut o = [0isize; D];
                let mut was = !old.empty;
                for i in 0..D {
                    let x = new_min[i] + c[i] as i64 - old.min[i];
                    if x < 0 || x >= old.sh[i] as i64 {
                        was = false;
                    }
                    o[i] = x as isize;
                }
                let want = if was { &old.vals[lin(o, old.sh)] } else { &dv };
                kept += was as u64;
                ensure!(now.vals[k].same(want), "{} cell at lattice {:?} holds {:?}, must hold {:?}; {}",
                    if was { "old" } else { "new" },
                    (0..D).map(|i| new_min[i] + c[i] as i64).collect::<Vec<_>>(), now.vals[k], want, ctx());
            }
            ensure!(kept as usize == old.vals.len() || old.empty, "{} of {} old cells survive; {}", kept, old.vals.len(), ctx());
            cs.obs.count("cells_compared", now.vals.len() as u64);
            // no more room needed: nothing may change
            let roomy = !old.empty
                && (0..D).all(|i| {
                    let (ol, oh) = (old.min[i], old.min[i] + old.sh[i] as i64);
                    ol.rem_euclid(tile as i64) == 0
                        && oh.rem_euclid(tile as i64) == 0
                        && (lo[i] as f64 / res as f64).floor() as i64 >= ol + 2
                        && ((hi[i] as f64 / res as f64).ceil() as i64) < oh - 3
                });
            if roomy {
                ensure!(map.bounds == before_bounds && sh == old.sh, "a request inside the map changed its extent; {}", ctx());
                cs.obs.count("expansions_needing_no_room", 1);
            }
            // probe a sample through the public accessors at world locations
            for _ in 0..6 {
                let c = rand_cell(r, sh);
                let p = kc!("point_from_cell", map.point_from_cell(&ce(c)));
                for i in 0..D {
                    let want = (new_min[i] + c[i] as i64) as f64;
                    ensure!((p[i] as f64 / res as f64 - want).abs() < 0.3, "cell {:?} is centred at lattice {} on axis {i}, expected {want}; {}", c, p[i] as f64 / res as f64, ctx());
                }
                let back = kc!("cell_from_point", map.cell_from_point(&p));
                let g = kc!("get", map.get(&back));
                ensure!(g.same(&now.vals[lin(c, sh)]), "value at world point {:?} reads {:?}, expected {:?}; {}", p, g, now.vals[lin(c, sh)], ctx());
            }
        }
        for i in 0..D {
            if !old.empty {
                grown[2 * i] |= new_min[i] < old.min[i];
                grown[2 * i + 1] |= new_min[i] + sh[i] as i64 > old.min[i] + old.sh[i] as i64;
            }
        }
        if !old.empty && sh != old.sh {
            cs.obs.count("growths_of_a_nonempty_map", 1);
        }
        // copies taken earlier must be untouched by what happened to the original
        for (m, s) in &copies {
            let t = snap(m, res);
            ensure!(t.min == s.min && t.sh == s.sh && t.vals.iter().zip(&s.vals).all(|(x, y)| x.same(y)), "a copy changed when the original was expanded; {}", ctx());
        }
        // writes
        let writes = r.below(30) as usize + if step == 0 { sh.iter().product::<usize>().min(200) } else { 0 };
        for _ in 0..writes {
            let c = rand_cell(r, sh);
            let v = A::mk(next);
            next += 1;
            kc!("set", map.set(&ce(c), v));
        }
        if r.chance(1, 8) && copies.len() < 2 {
            let m = kc!("clone", map.clone());
            let s = snap(&m, res);
            copies.push((m, s));
            cs.obs.count("copies", 1);
        }
        if r.chance(1, 12) {
            if let Some((m, _)) = copies.pop() {
                map = m; // carry on with the copy
            }
        }
        h.addi(&[sh[0] as isize, new_min[0] as isize]).addf(&lo).addf(&hi).add(res.to_bits() as u64);
    }
    for (k, g) in grown.iter().enumerate() {
        if *g {
            cs.obs.count(["grown_-x", "grown_+x", "grown_-y", "grown_+y", "grown_-z", "grown_+z"][k], 1);
        }
    }
    cs.obs.sig(h.0);
    cs.obs.sample(|| format!("{D}-D resolution {res} tile {tile}:{trail} -> bounds {:?} shape {:?}", map.bounds, shape(&map)));
    Ok(())
}
