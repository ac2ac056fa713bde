// C13-C18, instantiated for 2-D and 3-D.
use crate::core::*;
use crate::refgeo::{dist, Lattice, Seg, EPS};
use crate::{ensure, kc};
use kuba::prelude::*;
use kuba::{ray_caster, LidarNoiseModel};
use std::collections::{HashMap, HashSet};

pub const GAS: u64 = 4_000_000_000;

#[derive(Clone, Debug)]
pub struct Scan {
    pub o: [f32; D],
    pub pts: Vec<[f32; D]>,
}
impl Scan {
    pub fn cloud(&self) -> PC {
        PC::from_points(&self.pts.iter().map(|p| pt(*p)).collect::<Vec<_>>())
    }
    fn brief(&self) -> String {
        format!("origin {:?}, {} points {:?}", self.o, self.pts.len(), &self.pts[..self.pts.len().min(8)])
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Par {
    pub hit: f32,
    pub miss: f32,
    pub min: f32,
    pub max: f32,
    pub thr: f32,
    pub range: f32,
}
impl Par {
    pub fn model(&self) -> Result<LidarNoiseModel, String> {
        Ok(kc!(format!("LidarNoiseModel::new({:?})", self), LidarNoiseModel::new(self.hit, self.miss, self.min, self.max, self.thr, self.range)))
    }
}

/// Valid sensor parameters; `extreme` allows 0, 1/2 and 1.
pub fn params(r: &mut Rng, res: f32, reach: f64, extreme: bool) -> Par {
    let mut p = Par { hit: 0.7, miss: 0.4, min: 0.1192, max: 0.971, thr: 0.5, range: 60.0 };
    if r.chance(3, 4) {
        p.hit = r.f32(0.5, 0.99);
        p.miss = r.f32(0.01, 0.5);
        p.min = r.f32(0.001, 0.5);
        p.max = r.f32(0.5, 0.999);
        p.thr = r.f32(0.05, 0.95);
    }
    if extreme {
        for _ in 0..r.below(4) {
            match r.below(5) {
                0 => p.hit = *r.pick(&[0.5, 1.0, 0.999_999_94]),
                1 => p.miss = *r.pick(&[0.0, 0.5, 1e-30]),
                2 => p.min = *r.pick(&[0.0, 0.5, 1e-30]),
                3 => p.max = *r.pick(&[1.0, 0.5, 0.999_999_94]),
                _ => p.thr = *r.pick(&[0.0, 0.5, 1.0]),
            }
        }
    }
    p.range = match r.below(6) {
        0 => 0.0,
        1 => -1.0,
        2 => *r.pick(&[1e9, 1e9, 2e19, f32::MAX, f32::INFINITY]),
        3 => 60.0,
        _ => (r.f64(0.3, 1.5) * reach * res as f64) as f32,
    };
    p
}

pub struct World {
    pub res: f32,
    pub tile: usize,
    pub base: [i64; D],
    pub reach: i64,
    pub drift: i64,
    /// A corridor: only along this axis things are as far apart as `reach` and `drift` say.
    pub along: Option<usize>,
}
impl World {
    fn reach_on(&self, i: usize) -> i64 {
        if self.along.map_or(true, |a| a == i) { self.reach } else { 2 }
    }
    fn drift_on(&self, i: usize) -> i64 {
        if self.along.map_or(true, |a| a == i) { self.drift } else { 1 }
    }
}
/// How many scans a history has: few, now and then many.
fn how_many(r: &mut Rng, usual: u64) -> u64 {
    if !cfg!(miri) && r.chance(1, 60) { r.int(15, 50) as u64 } else { r.below(usual) }
}
/// How many points a scan has at most: now and then thousands.
fn how_large(cs: &mut Case, lo: i64, hi: i64) -> i64 {
    if cs.size > 0.5 && !cfg!(miri) && cs.rng.chance(1, 80) { if cs.rng.chance(1, 30) { 130_000 } else { 2500 } } else { cs.upto(lo, hi) }
}
pub fn world(cs: &mut Case, max_far: i64) -> World {
    let reach = cs.upto(2, if D == 2 { 40 } else { 8 });
    let drift = cs.upto(1, if D == 2 { 40 } else { 8 });
    let (reach, drift) = if cfg!(miri) { (reach.min(2), drift.min(1)) } else { (reach, drift) };
    // now and then a wide scene, whatever the usual size
    let wide = cs.size > 0.3 && !cfg!(miri) && cs.rng.chance(1, 50);
    let (reach, drift) = if wide { if D == 2 { (160, 160) } else { (28, 28) } } else { (reach, drift) };
    let r = &mut cs.rng;
    let along = if !wide && !cfg!(miri) && r.chance(1, 40) { Some(r.below(D as u64) as usize) } else { None };
    let (reach, drift) = if along.is_some() { (*r.pick(&[100, 300, 1000]), *r.pick(&[1, 100, 1000])) } else { (reach, drift) };
    let far = (*r.pick(&[0i64, 0, 3, 100, 2_000, 20_000])).min(max_far);
    let mut base = [0; D];
    for i in 0..D {
        base[i] = r.int(-far, far);
    }
    World {
        res: r.res_wide(),
        tile: match r.below(5) {
            _ if wide => *r.pick(if D == 2 { &[1usize, 10, 64, 100] } else { &[1usize, 5, 10, 20] }),
            _ if cfg!(miri) => 1 + r.below(3) as usize,
            _ if along.is_some() => r.int(1, if D == 2 { 10 } else { 4 }) as usize,
            0 => 1,
            1 => r.int(2, 7) as usize,
            2 => 10,
            _ => r.int(1, if D == 2 { 50 } else { 10 }) as usize,
        },
        base,
        reach,
        drift,
        along,
    }
}

/// A scan from around the world's base; hostile in where points and the sensor lie relative to cells and to each other.
pub fn scan(r: &mut Rng, w: &World, n_max: i64) -> Scan {
    let mut o = [0.0f64; D];
    for i in 0..D {
        o[i] = (w.base[i] + r.int(-w.drift_on(i), w.drift_on(i))) as f64 + r.phase();
        if r.chance(1, 12) && w.base[i].abs() <= w.drift_on(i) {
            o[i] = 0.0;
        }
    }
    let n = match r.below(12) {
        0 => 0,
        1 => 1,
        _ => r.int(1, n_max.max(1)),
    } as usize;
    // one-sided clouds leave the sensor outside the cloud's own box
    let mut side = [0i64; D];
    for i in 0..D {
        side[i] = if r.chance(1, 2) { 0 } else { r.int(-1, 1) };
    }
    let gap = if r.chance(1, 3) { r.int(0, w.reach / 2) } else { 0 };
    let flat = if r.chance(1, 6) { Some(r.below(D as u64) as usize) } else { None };
    let flat_reach = flat.map_or(0, |i| w.reach_on(i)) as f64;
    let flat_at = r.f64(-flat_reach, flat_reach).round() + r.phase();
    let mut pts: Vec<[f32; D]> = vec![];
    let mut q = [0.0f64; D];
    for k in 0..n {
        let mut p = [0.0f32; D];
        let kind = r.below(14);
        for i in 0..D {
            let d = match side[i] {
                0 => r.f64(-(w.reach_on(i) as f64), w.reach_on(i) as f64),
                s => s as f64 * r.f64(gap.min(w.reach_on(i)) as f64, w.reach_on(i) as f64),
            };
            q[i] = match kind {
                0 => o[i] + r.f64(-0.6, 0.6),
                1 => o[i],
                2 | 3 => {
                    // on or next to a tile border
                    let t = w.tile as f64;
                    (((o[i] + d) / t).round() * t) + *r.pick(&[0.0, -0.5, 0.5, -1.0, -0.4999, 0.4999, -1e-4, -0.75, -0.25])
                }
                4..=6 => (o[i] + d).round() + r.phase(),
                _ => o[i] + d,
            };
            if flat == Some(i) {
                q[i] = o[i].round() + flat_at;
            }
            p[i] = (q[i] * w.res as f64) as f32;
        }
        if k > 0 && r.chance(1, 10) {
            p = *r.pick(&pts);
        }
        pts.push(p);
    }
    let mut of = [0.0f32; D];
    for i in 0..D {
        of[i] = (o[i] * w.res as f64) as f32;
    }
    Scan { o: of, pts }
}

fn amin<A: nalgebra::Scalar>(m: &Map<A>) -> [i64; D] {
    let mut a = [0; D];
    for i in 0..D {
        a[i] = (m.bounds.min[i] as f64 / m.resolution as f64).round() as i64;
    }
    a
}
fn plus(a: [i64; D], c: [isize; D]) -> [i64; D] {
    let mut r = a;
    for i in 0..D {
        r[i] += c[i] as i64;
    }
    r
}
fn inside(c: [isize; D], sh: [usize; D]) -> bool {
    (0..D).all(|i| c[i] >= 0 && (c[i] as usize) < sh[i])
}

// ------------------------------------------------------------------ a foreign map implementation

/// A sparse map written by the monitor: checks that the noise model uses nothing but the published interface, that
/// every access is inside what was asked for, and records the accesses.
pub struct Sparse {
    pub res: f32,
    pub lo: [i64; D],
    pub hi: [i64; D],
    pub empty: bool,
    pub vals: HashMap<[i64; D], f32>,
    pub default: f32,
    pub track: bool,
    pub changed: Vec<Ce>,
    pub sets: u64,
    pub gets: u64,
    pub bad: Option<String>,
    pub expansions: u64,
}
impl Sparse {
    pub fn new(res: f32) -> Self {
        Sparse { res, lo: [0; D], hi: [0; D], empty: true, vals: HashMap::new(), default: 0.0, track: false, changed: vec![], sets: 0, gets: 0, bad: None, expansions: 0 }
    }
    fn abs(&self, c: &Ce) -> [i64; D] {
        plus(self.lo, ca(c))
    }
    fn face(&self, k: i64) -> f32 {
        (k as f64 * self.res as f64) as f32
    }
}
impl GridMap<f32, Na, Nd> for Sparse {
    fn get(&self, c: &Ce) -> f32 {
        *self.vals.get(&self.abs(c)).unwrap_or(&self.default)
    }
    fn set(&mut self, c: &Ce, v: f32) {
        let a = self.abs(c);
        self.sets += 1;
        if self.empty || (0..D).any(|i| a[i] < self.lo[i] || a[i] >= self.hi[i]) {
            self.bad.get_or_insert_with(|| format!("cell {:?} (lattice {:?}) outside the map's extent {:?}..{:?} was updated", ca(c), a, self.lo, self.hi));
        }
        self.vals.insert(a, v);
    }
    fn resolution(&self) -> f32 {
        self.res
    }
    fn bounds(&self) -> Bo {
        let (mut a, mut b) = ([0.0; D], [0.0; D]);
        for i in 0..D {
            a[i] = self.face(self.lo[i]);
            b[i] = self.face(self.hi[i]);
        }
        bo(a, b)
    }
    fn point_from_cell(&self, c: &Ce) -> Pt {
        kuba::geom::converter::point_from_cell(c, &self.bounds().min, self.res)
    }
    fn cell_from_point(&self, p: &Pt) -> Ce {
        kuba::geom::converter::cell_from_point(p, &self.bounds().min, self.res)
    }
    fn track_changes(&self) -> bool {
        self.track
    }
    fn set_track_changes(&mut self, v: bool) {
        self.track = v;
    }
    fn changed_cells(&self) -> Vec<Ce> {
        self.changed.clone()
    }
    fn clear_changed_cells(&mut self) {
        self.changed.clear();
    }
    fn add_changed_cells(&mut self, c: Vec<Ce>) {
        self.changed.extend(c);
    }
}
impl ExpandableGridMap<f32, Na, Nd> for Sparse {
    fn expand_bounds(&mut self, b: &Bo, default: f32) {
        self.expansions += 1;
        self.default = default;
        for i in 0..D {
            let lo = (b.min[i] as f64 / self.res as f64).floor() as i64 - 1;
            let hi = (b.max[i] as f64 / self.res as f64).ceil() as i64 + 2;
            if self.empty {
                self.lo[i] = lo;
                self.hi[i] = hi;
            } else {
                self.lo[i] = self.lo[i].min(lo);
                self.hi[i] = self.hi[i].max(hi);
            }
        }
        self.empty = false;
    }
}

// ------------------------------------------------------------------ C13

/// The cells a scan must update, from exact geometry; None for a ray any of whose decisions is within rounding of a tie.
fn exact_ray(res: f32, o: [f32; D], e: [f32; D], range: f32, slack: f64) -> Option<(Vec<[i64; D]>, Option<[i64; D]>)> {
    let l = Lattice::<D>::new([0.0; D], res);
    let seg = Seg::new(&l, o, e);
    let walk = seg.unambiguous_walk(slack)?;
    let n = walk.len();
    let mut of = [0.0; D];
    for i in 0..D {
        of[i] = o[i] as f64;
    }
    let w = |c: [isize; D]| plus([0; D], c);
    if n > 1 && range > 0.0 {
        for k in 1..n - 1 {
            let d = dist(l.centre(walk[k]), of);
            if (d - range as f64).abs() < slack * 4.0 * res as f64 + 1e-5 * range as f64 {
                return None;
            }
            if d > range as f64 {
                return Some((walk[..k].iter().map(|c| w(*c)).collect(), None));
            }
        }
    }
    Some((walk[..n - 1].iter().map(|c| w(*c)).collect(), Some(w(walk[n - 1]))))
}

fn step(v: f32, m: &LidarNoiseModel, hit: bool) -> f32 {
    if hit {
        (v + m.hit_probability_logodds).min(m.max_probability_logodds)
    } else {
        (v + m.miss_probability_logodds).max(m.min_probability_logodds)
    }
}
fn near(a: f32, b: f32) -> bool {
    a == b || (a - b).abs() <= 1e-4 * (1.0 + b.abs())
}

pub fn c13(cs: &mut Case) -> Verdict {
    let exact = cs.rng.chance(2, 3);
    let w = world(cs, if exact { 2_000 } else { 20_000 });
    let n_max = how_large(cs, 3, 60);
    let par = params(&mut cs.rng, w.res, w.reach as f64, false);
    let model = par.model()?;
    // sensor configuration as given, independent of the library's conversion
    for (name, p, l) in [("hit", par.hit, model.hit_probability_logodds), ("miss", par.miss, model.miss_probability_logodds), ("min", par.min, model.min_probability_logodds), ("max", par.max, model.max_probability_logodds)] {
        let want = (p as f64 / (1.0 - p as f64)).ln();
        ensure!((l as f64 - want).abs() <= 1e-4 * (1.0 + want.abs()), "{name} probability {p} is stored as log-odds {l}, must be {want}");
    }
    ensure!(model.max_range == par.range, "range {} is stored as {}", par.range, model.max_range);
    let via = cs.rng.below(3);
    let mut omap = {let nm_ = par.model()?; kc!("OccupancyGridMapN::new", OMap::new(nm_, w.res, w.tile))};
    let mut gmap = kc!("GridMapN::new", Map::<f32>::new(w.res, Bo::empty(), w.tile, 0.0));
    let mut sparse = Sparse::new(w.res);
    let mut reference: HashMap<[i64; D], f32> = HashMap::new();
    let scans = 1 + how_many(&mut cs.rng, 6);
    let mut h = Hash64::new();
    let mut trail = String::new();
    let mut prev_shape = [0usize; D];
    for k in 0..scans {
        let mut s = scan(&mut cs.rng, &w, n_max);
        if exact {
            let mut m = 1.0f64;
            for p in s.pts.iter().chain(std::iter::once(&s.o)) {
                for i in 0..D {
                    m = m.max((p[i] / w.res).abs() as f64);
                }
            }
            let slack = 1e-4 + 24.0 * EPS * (m + w.tile as f64 + 200.0);
            // nudge ambiguous points off the tie; keep only what exact geometry decides
            let mut kept = vec![];
            let mut rays = vec![];
            for p in &s.pts {
                let mut p = *p;
                for _ in 0..3 {
                    if let Some(x) = exact_ray(w.res, s.o, p, par.range, slack) {
                        kept.push(p);
                        rays.push(x);
                        break;
                    }
                    for i in 0..D {
                        p[i] += cs.rng.f32(-0.3, 0.3) * w.res;
                    }
                }
            }
            if kept.is_empty() && !s.pts.is_empty() {
                continue;
            }
            s.pts = kept;
            let hits: HashSet<[i64; D]> = rays.iter().filter_map(|x| x.1).collect();
            let misses: HashSet<[i64; D]> = rays.iter().flat_map(|x| x.0.iter().cloned()).filter(|c| !hits.contains(c)).collect();
            cs.obs.count("hits_expected", hits.len() as u64);
            cs.obs.count("misses_expected", misses.len() as u64);
            for c in hits {
                let v = reference.get(&c).cloned().unwrap_or(0.0);
                reference.insert(c, step(v, &model, true));
            }
            for c in misses {
                let v = reference.get(&c).cloned().unwrap_or(0.0);
                reference.insert(c, step(v, &model, false));
            }
        }
        trail.push_str(&format!("; scan {k}: {}", s.brief()));
        let cloud = s.cloud();
        let what = || format!("integrate_point_cloud, resolution {}, tile {}, {:?}, {trail}", w.res, w.tile, par);
        match via {
            0 => kc!(what(), gas GAS, omap.integrate_point_cloud(&pt(s.o), &cloud)),
            1 => kc!(what(), gas GAS, model.integrate_point_cloud(&mut gmap, &pt(s.o), &cloud)),
            _ => kc!(what(), gas GAS, model.integrate_point_cloud(&mut sparse, &pt(s.o), &cloud)),
        }
        cs.obs.count(["scans_via_occupancy_map", "scans_via_noise_model", "scans_into_a_foreign_map"][via as usize], 1);
        cs.obs.count("points", s.pts.len() as u64);
        if !exact {
            // arbitrary scans: the library's own rays (judged by C09-C12) at the map's final extent
            let b = match via {
                0 => omap.bounds(),
                1 => gmap.bounds(),
                _ => sparse.bounds(),
            };
            let (f, o) = kc!("cast_rays", gas GAS, ray_caster::cast_rays(&pt(s.o), &cloud, &b, w.res, par.range));
            let mut a = [0i64; D];
            for i in 0..D {
                a[i] = (b.min[i] as f64 / w.res as f64).round() as i64;
            }
            for (set, hit) in [(f, false), (o, true)] {
                for c in set {
                    let c = plus(a, ca(&c));
                    let v = reference.get(&c).cloned().unwrap_or(0.0);
                    reference.insert(c, step(v, &model, hit));
                }
            }
        }
        // compare every cell
        let ctx = || format!("resolution {}, tile {}, {:?}{trail}", w.res, w.tile, par);
        let mut seen = 0usize;
        if via < 2 {
            let m = if via == 0 { &omap.grid_map } else { &gmap };
            let (a, sh) = (amin(m), shape(m));
            for (c, v) in cells(sh).iter().zip(m.data.iter()) {
                let c = plus(a, *c);
                let want = match reference.get(&c) {
                    Some(x) => {
                        seen += 1;
                        *x
                    }
                    None => 0.0,
                };
                ensure!(near(*v, want), "cell at lattice {:?} holds {v}, must hold {want} ({}); {}", c,
                    if reference.contains_key(&c) { "observed" } else { "never observed" }, ctx());
            }
            cs.obs.count("cells_compared", sh.iter().product::<usize>() as u64);
            if k > 0 && sh != prev_shape {
                cs.obs.count("map_growths_between_scans", 1);
            }
            prev_shape = sh;
        } else {
            ensure!(sparse.bad.is_none(), "{}; {}", sparse.bad.as_ref().unwrap(), ctx());
            for (c, v) in &sparse.vals {
                let want = match reference.get(c) {
                    Some(x) => {
                        seen += 1;
                        *x
                    }
                    None => 0.0,
                };
                ensure!(near(*v, want), "cell at lattice {:?} holds {v}, must hold {want}; {}", c, ctx());
            }
            cs.obs.count("cells_compared", sparse.vals.len() as u64);
        }
        ensure!(seen == reference.len(), "{} of {} observed cells are in the map; {}", seen, reference.len(), ctx());
        h.addf(&s.o).add(s.pts.len() as u64);
        for p in &s.pts {
            h.addf(p);
        }
    }
    h.addf(&[w.res, par.hit, par.miss, par.range]).add(w.tile as u64);
    cs.obs.count(if exact { "histories_judged_by_exact_geometry" } else { "histories_judged_by_the_casters_sets" }, 1);
    if !reference.is_empty() {
        cs.obs.sig(h.0);
    }
    cs.obs.sample(|| format!("{D}-D res {} tile {} {:?}{trail} -> {} observed cells", w.res, w.tile, par, reference.len()));
    Ok(())
}

// ------------------------------------------------------------------ C14

pub fn c14(cs: &mut Case) -> Verdict {
    let w = world(cs, 20_000);
    let n_max = how_large(cs, 3, 80);
    let r = &mut cs.rng;
    let par = params(r, w.res, w.reach as f64, true);
    let mut map = if r.chance(1, 20) && !cfg!(miri) && D == 2 && w.base.iter().all(|x| *x == 0) {
        kc!("OccupancyGridMapN::default", OMap::default())
    } else {
        {let nm_ = par.model()?; kc!("OccupancyGridMapN::new", OMap::new(nm_, w.res, w.tile))}
    };
    let res = map.resolution();
    let w = World { res, ..w };
    let mut trail = String::new();
    let mut h = Hash64::new();
    for k in 0..1 + how_many(r, 5) {
        if r.chance(1, 5) {
            let s = scan(r, &w, 2);
            let mut lo = s.o;
            let mut hi = s.o;
            for p in &s.pts {
                for i in 0..D {
                    lo[i] = lo[i].min(p[i]);
                    hi[i] = hi[i].max(p[i]);
                }
            }
            trail.push_str(&format!("; expand {:?}..{:?}", lo, hi));
            kc!(format!("expand_bounds resolution {res} tile {}{trail}", w.tile), gas GAS, map.grid_map.expand_bounds(&bo(lo, hi), 0.0));
        }
        let s = scan(r, &w, n_max);
        trail.push_str(&format!("; scan {k}: {}", s.brief()));
        let cloud = s.cloud();
        let before = shape(&map.grid_map);
        kc!(format!("integrate_point_cloud, resolution {res}, tile {}, {:?}{trail}", w.tile, par), gas GAS, map.integrate_point_cloud(&pt(s.o), &cloud));
        cs.obs.max("execution_steps_in_one_integration", last_gas() as f64);
        let sh = shape(&map.grid_map);
        for (what, p) in std::iter::once(("sensor", &s.o)).chain(s.pts.iter().map(|p| ("point", p))) {
            let c = ca(&kc!("cell_from_point", map.cell_from_point(&pt(*p))));
            ensure!(inside(c, sh), "the {what} at {:?} is in cell {:?}, outside the {:?} map; resolution {res}, tile {}, {:?}{trail}", p, c, sh, w.tile, par);
            let v = kc!(format!("reading the {what}'s cell"), map.get(&ce(c)));
            ensure!(!v.is_nan(), "NaN evidence at {:?}; {:?}{trail}", c, par);
        }
        cs.obs.count("integrations", 1);
        cs.obs.count("points", s.pts.len() as u64);
        cs.obs.count("empty_clouds", s.pts.is_empty() as u64);
        cs.obs.count("growths", (sh != before) as u64);
        let out = !s.pts.is_empty() && (0..D).any(|i| s.pts.iter().all(|p| p[i] > s.o[i]) || s.pts.iter().all(|p| p[i] < s.o[i]));
        cs.obs.count("sensor_outside_the_clouds_box", out as u64);
        h.addf(&s.o);
        for p in &s.pts {
            h.addf(p);
        }
    }
    h.addf(&[res, par.range]).add(w.tile as u64);
    cs.obs.sig(h.0);
    cs.obs.sample(|| format!("{D}-D res {res} tile {} {:?}{trail} -> {:?}", w.tile, par, shape(&map.grid_map)));
    Ok(())
}

// ------------------------------------------------------------------ C15

fn next_up(x: f32) -> f32 {
    if x == f32::INFINITY { return x; }
    let b = x.to_bits();
    f32::from_bits(if x == 0.0 { 1 } else if b >> 31 == 0 { b + 1 } else { b - 1 })
}
fn next_down(x: f32) -> f32 {
    -next_up(-x)
}

fn check_step(m: &LidarNoiseModel, v: f32, got: f32, hit: bool, ctx: &dyn Fn() -> String) -> Verdict {
    let (lo, hi) = (m.min_probability_logodds, m.max_probability_logodds);
    let what = if hit { "hit" } else { "miss" };
    ensure!(got >= lo && got <= hi, "a {what} took the cell from {v} to {got}, outside [{lo}, {hi}]; {}", ctx());
    ensure!(if hit { got >= v } else { got <= v }, "a {what} took the cell from {v} to {got}; {}", ctx());
    let inc = if hit { m.hit_probability_logodds } else { m.miss_probability_logodds };
    let want = v + inc;
    if !want.is_nan() {
        let want = want.min(hi).max(lo);
        ensure!(got == want || (got - want).abs() <= 4.0 * f32::EPSILON * (v.abs() + inc.abs()),
            "a {what} took the cell from {v} to {got}, must be {want}; {}", ctx());
    }
    Ok(())
}

pub fn c15(cs: &mut Case) -> Verdict {
    let r = &mut cs.rng;
    if r.chance(1, 8) {
        // rejection of invalid parameters, acceptance of valid ones
        for which in 0..5 {
            let mut a = [0.7f32, 0.4, 0.1, 0.9, 0.5];
            for x in a.iter_mut() {
                if r.chance(1, 2) {
                    *x = *r.pick(&[0.0, 1.0, 0.25, 0.5, 0.999_999_94, 1e-40]);
                }
            }
            kc!(format!("LidarNoiseModel::new({:?})", a), LidarNoiseModel::new(a[0], a[1], a[2], a[3], a[4], r.f32(-1.0, 100.0)));
            a[which] = match r.below(6) {
                0 => -f32::MIN_POSITIVE,
                1 => 1.0 + f32::EPSILON,
                2 => -1.0,
                3 => *r.pick(&[2.0, f32::INFINITY, -f32::INFINITY, f32::MAX]),
                4 => -r.f32(1e-6, 10.0),
                _ => 1.0 + r.f32(1e-6, 10.0),
            };
            ensure!(rejects(|| LidarNoiseModel::new(a[0], a[1], a[2], a[3], a[4], 10.0)), "sensor parameters {:?} (hit, miss, min, max, threshold) were accepted", a);
            cs.obs.count("invalid_parameters_rejected", 1);
        }
        return Ok(());
    }
    let res = r.res();
    let par = params(r, res, 10.0, true);
    let m = par.model()?;
    let mut sh = [0isize; D];
    for i in 0..D {
        sh[i] = r.int(1, 4) as isize;
    }
    let b = kc!("from_cell_bounds", Bo::from_cell_bounds(&cb([0; D], sh), res));
    let mut map = kc!("GridMapN::new", Map::<f32>::new(res, b, 5, 0.0));
    let mut usz = [0usize; D];
    for i in 0..D {
        usz[i] = sh[i] as usize;
    }
    let all = cells(usz);
    let mut vals: HashMap<[isize; D], f32> = all.iter().map(|c| (*c, 0.0)).collect();
    let mut h = Hash64::new();
    let steps = if !cfg!(miri) && r.chance(1, 300) { 70_000 } else { 20 + r.below(200) };
    let bias = r.below(3);
    let focus = *r.pick(&all);
    let mut saturated = 0;
    for _ in 0..steps {
        let c = if r.chance(1, 2) { focus } else { *r.pick(&all) };
        let hit = match bias { 0 => r.chance(1, 2), 1 => r.chance(9, 10), _ => r.chance(1, 10) };
        let v = vals[&c];
        if hit {
            kc!("integrate_hit", m.integrate_hit(&mut map, &ce(c)));
        } else {
            kc!("integrate_miss", m.integrate_miss(&mut map, &ce(c)));
        }
        let g = map.get(&ce(c));
        check_step(&m, v, g, hit, &|| format!("{:?}", par))?;
        vals.insert(c, g);
        if g == m.min_probability_logodds || g == m.max_probability_logodds {
            saturated += 1;
        }
        for _ in 0..2 {
            let o = *r.pick(&all);
            ensure!(map.get(&ce(o)) == vals[&o], "a {} of cell {:?} changed cell {:?}", if hit { "hit" } else { "miss" }, c, o);
        }
        h.addi(&c).add(hit as u64);
        cs.obs.count("evidence_updates", 1);
    }
    for c in &all {
        ensure!(map.get(&ce(*c)) == vals[c], "cell {:?} changed without evidence", c);
    }
    cs.obs.count("updates_ending_on_a_limit", saturated);
    // saturation
    for (hit, inc, lim) in [(true, m.hit_probability_logodds, m.max_probability_logodds), (false, m.miss_probability_logodds, m.min_probability_logodds)] {
        let v = vals[&focus];
        if lim.is_finite() && v.is_finite() && inc != 0.0 && inc.is_finite() {
            let need = ((lim - v).abs() / inc.abs()).ceil() as u64 + 3;
            if need < if cfg!(miri) { 20 } else { 3000 } {
                for _ in 0..need {
                    if hit { m.integrate_hit(&mut map, &ce(focus)) } else { m.integrate_miss(&mut map, &ce(focus)) }
                }
                let g = map.get(&ce(focus));
                ensure!(g == lim, "after {need} {} in a row from {v} the cell holds {g}, must have saturated at {lim}; {:?}", if hit { "hits" } else { "misses" }, par);
                vals.insert(focus, g);
                cs.obs.count("saturation_runs", 1);
            }
        }
    }
    // cells that were given values beyond the limits by hand
    for hit in [true, false] {
        let (lo, hi) = (m.min_probability_logodds, m.max_probability_logodds);
        let by = r.f32(0.0, 9.0);
        let v = match r.below(4) { 0 => hi + by, 1 => lo - by, 2 => f32::MAX, _ => -f32::MAX };
        let inc = if hit { m.hit_probability_logodds } else { m.miss_probability_logodds };
        if v.is_finite() {
            kc!("set", map.set(&ce(focus), v));
            if hit {
                kc!("integrate_hit", m.integrate_hit(&mut map, &ce(focus)));
            } else {
                kc!("integrate_miss", m.integrate_miss(&mut map, &ce(focus)));
            }
            let g = map.get(&ce(focus));
            ensure!(if hit { g <= hi } else { g >= lo }, "a {} took a cell from {v} to {g}, beyond its limit; {:?}", if hit { "hit" } else { "miss" }, par);
            let want = if hit { (v + inc).min(hi) } else { (v + inc).max(lo) };
            let clamped = want.min(hi).max(lo); // (beyond the other limit either will do)
            let near = |x: f32| g == x || (g - x).abs() <= 4.0 * f32::EPSILON * (v.abs() + inc.abs());
            ensure!(near(want) || near(clamped), "a {} took a cell from {v} to {g}, must be {want}; {:?}", if hit { "hit" } else { "miss" }, par);
            kc!("set", map.set(&ce(focus), vals[&focus]));
            cs.obs.count("cells_set_beyond_the_limits", 1);
        }
    }
    // threshold
    let t = m.occupied_threshold_logodds;
    for v in [t, next_up(t), next_down(t), vals[&focus], 0.0, f32::INFINITY, -f32::INFINITY, f32::MAX, t + 0.5, t - 0.5] {
        kc!("set", map.set(&ce(focus), v));
        let occ = kc!("occupied", m.occupied(&map, &ce(focus)));
        ensure!(occ == (v > t), "a cell holding {v} with threshold {t} is reported occupied={occ}; {:?}", par);
        cs.obs.count("threshold_comparisons", 1);
    }
    // whole scans with the same parameters
    let w = World { res, tile: 1 + r.below(if cfg!(miri) { 2 } else { 8 }) as usize, base: [0; D], reach: if cfg!(miri) { 2 } else if D == 2 { 12 } else { 4 }, drift: if cfg!(miri) { 1 } else { 3 }, along: None };
    let mut om = {let nm_ = par.model()?; kc!("OccupancyGridMapN::new", OMap::new(nm_, res, w.tile))};
    let mut prev: HashMap<[i64; D], f32> = HashMap::new();
    for _ in 0..how_many(r, 6) {
        let s = scan(r, &w, 20);
        kc!("integrate_point_cloud", gas GAS, om.integrate_point_cloud(&pt(s.o), &s.cloud()));
        let a = amin(&om.grid_map);
        let mut now = HashMap::new();
        for (c, v) in cells(shape(&om.grid_map)).iter().zip(om.grid_map.data.iter()) {
            let k = plus(a, *c);
            let old = prev.get(&k).cloned().unwrap_or(0.0);
            let (lo, hi) = (m.min_probability_logodds.min(0.0), m.max_probability_logodds.max(0.0));
            ensure!(*v >= lo && *v <= hi, "after a scan a cell holds {v}, outside [{lo}, {hi}]; {:?}", par);
            if *v != old {
                check_step(&m, old, *v, *v > old, &|| format!("scan {}, {:?}", s.brief(), par))?;
            }
            now.insert(k, *v);
        }
        prev = now;
        cs.obs.count("scans", 1);
    }
    h.addf(&[par.hit, par.miss, par.min, par.max, par.thr]);
    cs.obs.sig(h.0);
    cs.obs.sample(|| format!("{:?}: {steps} updates, {saturated} on a limit", par));
    Ok(())
}

// ------------------------------------------------------------------ C16

#[derive(Clone)]
struct Tracked {
    map: Map<f32>,
    /// lattice cell -> number of listings
    want: HashMap<[i64; D], u64>,
    on: bool,
}

fn check_changes(t: &Tracked, ctx: &dyn Fn() -> String) -> Verdict {
    let a = amin(&t.map);
    let mut got: HashMap<[i64; D], u64> = HashMap::new();
    for c in kc!("changed_cells", t.map.changed_cells()) {
        *got.entry(plus(a, ca(&c))).or_insert(0) += 1;
    }
    ensure!(t.map.track_changes() == t.on, "tracking reads {}, was set to {}; {}", t.map.track_changes(), t.on, ctx());
    if got != t.want {
        let missing: Vec<_> = t.want.iter().filter(|(k, v)| got.get(*k) != Some(v)).take(3).collect();
        let extra: Vec<_> = got.iter().filter(|(k, v)| t.want.get(*k) != Some(v)).take(3).collect();
        return Err(format!("changed cells (lattice cell, listings) differ: expected {} cells, e.g. {:?}; got {} cells, e.g. {:?}; {}", t.want.len(), missing, got.len(), extra, ctx()));
    }
    Ok(())
}

pub fn c16(cs: &mut Case) -> Verdict {
    let w = world(cs, 2_000);
    let n_max = how_large(cs, 2, 25);
    let r = &mut cs.rng;
    let par = params(r, w.res, w.reach as f64, false);
    let m = par.model()?;
    let mut maps = vec![Tracked { map: kc!("GridMapN::new", Map::<f32>::new(w.res, Bo::empty(), w.tile, 0.0)), want: HashMap::new(), on: false }];
    ensure!(!maps[0].map.track_changes() && maps[0].map.changed_cells().is_empty(), "a fresh map tracks changes");
    for (how, m) in [("from an array", kc!("from_ndarray", Map::<f32>::from_ndarray(Default::default(), w.res, Bo::empty(), w.tile))), ("by default", kc!("default", Map::<f32>::default()))] {
        ensure!(!m.track_changes() && m.changed_cells().is_empty(), "a map made {how} tracks changes");
    }
    let mut trail = String::new();
    let mut h = Hash64::new();
    let mut stale = 0u64;
    for _ in 0..4 + how_many(r, 14) {
        let k = r.below(maps.len() as u64) as usize;
        let op = r.below(16);
        match op {
            0..=5 => {
                let s = scan(r, &w, n_max);
                let cloud = s.cloud();
                trail.push_str(&format!("; map {k} scan {}", s.brief()));
                let before = shape(&maps[k].map);
                let t = &mut maps[k];
                kc!(format!("integrate_point_cloud{trail}"), gas GAS, m.integrate_point_cloud(&mut t.map, &pt(s.o), &cloud));
                if t.on {
                    let (f, o) = kc!("cast_rays", gas GAS, ray_caster::cast_rays(&pt(s.o), &cloud, &t.map.bounds(), w.res, par.range));
                    let a = amin(&t.map);
                    for c in f.iter().chain(o.iter()) {
                        *t.want.entry(plus(a, ca(c))).or_insert(0) += 1;
                    }
                    cs.obs.count("tracked_integrations", 1);
                } else {
                    cs.obs.count("untracked_integrations", 1);
                }
                if shape(&t.map) != before && before[0] != 0 && !t.want.is_empty() {
                    stale += 1;
                }
                h.addf(&s.o);
            }
            6 | 7 => {
                let s = scan(r, &w, 2);
                let (mut lo, mut hi) = (s.o, s.o);
                for p in &s.pts {
                    for i in 0..D {
                        lo[i] = lo[i].min(p[i]);
                        hi[i] = hi[i].max(p[i]);
                    }
                }
                trail.push_str(&format!("; map {k} expand {:?}..{:?}", lo, hi));
                let before = shape(&maps[k].map);
                kc!("expand_bounds", gas GAS, maps[k].map.expand_bounds(&bo(lo, hi), 0.0));
                if shape(&maps[k].map) != before && before[0] != 0 && !maps[k].want.is_empty() {
                    stale += 1;
                }
                cs.obs.count("direct_expansions", 1);
            }
            8 => {
                trail.push_str(&format!("; map {k} clear"));
                kc!("clear_changed_cells", maps[k].map.clear_changed_cells());
                maps[k].want.clear();
                cs.obs.count("clears", 1);
            }
            9..=11 => {
                let on = r.chance(3, 4);
                trail.push_str(&format!("; map {k} track {on}"));
                let (b, d) = (maps[k].map.bounds.clone(), maps[k].map.data.clone());
                kc!("set_track_changes", maps[k].map.set_track_changes(on));
                maps[k].on = on;
                ensure!(maps[k].map.bounds == b && maps[k].map.data == d, "switching tracking changed the map{trail}");
                cs.obs.count("toggles", 1);
            }
            12 => {
                // explicit additions, in the map's current coordinates
                let sh = shape(&maps[k].map);
                if sh.iter().all(|x| *x > 0) {
                    let a = amin(&maps[k].map);
                    let mut list = vec![];
                    for _ in 0..r.below(5) {
                        let mut c = [0isize; D];
                        for i in 0..D {
                            c[i] = r.below(sh[i] as u64) as isize;
                        }
                        list.push(ce(c));
                        *maps[k].want.entry(plus(a, c)).or_insert(0) += 1;
                    }
                    trail.push_str(&format!("; map {k} add {} cells", list.len()));
                    kc!("add_changed_cells", maps[k].map.add_changed_cells(list));
                    cs.obs.count("explicit_additions", 1);
                }
            }
            13 => {
                // plain writes are not integrations
                let sh = shape(&maps[k].map);
                if sh.iter().all(|x| *x > 0) {
                    let mut c = [0isize; D];
                    for i in 0..D {
                        c[i] = r.below(sh[i] as u64) as isize;
                    }
                    let v = maps[k].map.get(&ce(c));
                    kc!("set", maps[k].map.set(&ce(c), v));
                }
            }
            _ => {
                if maps.len() < 3 {
                    let t = Tracked { map: kc!("clone", maps[k].map.clone()), want: maps[k].want.clone(), on: maps[k].on };
                    trail.push_str(&format!("; map {} = copy of {k}", maps.len()));
                    maps.push(t);
                    cs.obs.count("copies", 1);
                }
            }
        }
        for t in &maps {
            check_changes(t, &|| format!("resolution {}, tile {}, range {}{trail}", w.res, w.tile, par.range))?;
        }
    }
    cs.obs.count("growths_while_records_were_pending", stale);
    h.addf(&[w.res, par.range]).add(w.tile as u64).add(maps[0].want.len() as u64);
    cs.obs.sig(h.0);
    cs.obs.sample(|| format!("{D}-D res {} tile {}{trail}", w.res, w.tile));
    Ok(())
}

// ------------------------------------------------------------------ C17

/// Replays a history; `perm` permutes and duplicates the points of every scan, `copy` goes on with copies of the map.
fn replay(scans: &[Scan], par: &Par, res: f32, tile: usize, copy: u64, mut perm: Option<&mut Rng>) -> Result<(OMap, Vec<HashSet<[isize; D]>>), String> {
    let mut m = {let nm_ = par.model()?; kc!("OccupancyGridMapN::new", OMap::new(nm_, res, tile))};
    m.set_track_changes(true);
    let mut changes = vec![];
    for (k, s) in scans.iter().enumerate() {
        let mut s = s.clone();
        if copy >> k & 1 == 1 {
            m = OMap { grid_map: kc!("clone", m.grid_map.clone()), noise_model: par.model()? };
        }
        if let Some(r) = perm.as_deref_mut() {
            if !s.pts.is_empty() {
                for _ in 0..r.below(4) {
                    let p = *r.pick(&s.pts);
                    s.pts.push(p);
                }
            }
            match r.below(3) {
                0 => s.pts.reverse(),
                1 => s.pts.sort_by(|a, b| b.partial_cmp(a).unwrap()),
                _ => r.shuffle(&mut s.pts),
            }
        }
        kc!("integrate_point_cloud", gas GAS, m.integrate_point_cloud(&pt(s.o), &s.cloud()));
        changes.push(m.changed_cells().iter().map(ca).collect());
        m.clear_changed_cells();
    }
    Ok((m, changes))
}

/// Runs `f` with the stack `pages` further down.
#[inline(never)]
fn further_down<T>(pages: u64, f: &mut dyn FnMut() -> T) -> T {
    let room = std::hint::black_box([pages as u8; 4096]);
    let v = if pages == 0 { f() } else { further_down(pages - 1, f) };
    std::hint::black_box(&room);
    v
}

pub fn c17(cs: &mut Case) -> Verdict {
    let w = world(cs, 20_000);
    let n_max = how_large(cs, 3, 60);
    let r = &mut cs.rng;
    let par = params(r, w.res, w.reach as f64, true);
    let mut par = par;
    let mut scans: Vec<Scan> = (0..1 + how_many(r, 5)).map(|_| scan(r, &w, n_max)).collect();
    if !cfg!(miri) && cs.size > 0.5 && r.chance(1, 250) {
        // as much as a real sensor sees at once, on level ground
        par.range = *r.pick(&[0.0, 1e9]);
        let (o, far) = (scans[0].o, r.f64(100.0, 220.0));
        let pts = (0..r.int(800, 4_000)).map(|_| {
            let (a, d) = (r.f64(-3.2, 3.2), far * r.f64(0.8, 1.0) * w.res as f64);
            let mut p = o;
            p[0] += (d * a.cos()) as f32;
            p[1] += (d * a.sin()) as f32;
            for i in 2..D {
                p[i] += r.f32(-2.0, 2.0) * w.res;
            }
            p
        }).collect();
        scans.truncate(2);
        scans.push(Scan { o, pts });
        cs.obs.count("whole_scans", 1);
    }
    let (a, ca_) = replay(&scans, &par, w.res, w.tile, 0, None)?;
    let bits = |m: &OMap| m.grid_map.data.iter().map(|v| v.to_bits()).collect::<Vec<_>>();
    for round in 0..4 {
        let copy = if round == 1 { r.u64() } else { 0 };
        // neither where the stack lies nor which memory is free may matter
        let pages = if cfg!(miri) { 1 } else { r.below(24) };
        let held: Vec<Vec<u8>> = (0..r.below(4)).map(|_| Vec::with_capacity(r.int(1, 20_000) as usize)).collect();
        let (b, cb_) = further_down(pages, &mut || replay(&scans, &par, w.res, w.tile, copy, if round < 2 { None } else { Some(&mut *r) }))?;
        drop(std::hint::black_box(held));
        cs.obs.max("pages_the_stack_was_moved_by", pages as f64);
        let what = ["replaying the same history (with the stack elsewhere)", "going on with a copy of the map", "reordering or repeating points within scans"][round.min(2)];
        let ctx = || format!("resolution {}, tile {}, {:?}, scans {:?}", w.res, w.tile, par, scans.iter().map(|s| s.brief()).collect::<Vec<_>>());
        ensure!(a.bounds() == b.bounds() && shape(&a.grid_map) == shape(&b.grid_map), "{what} changed the extent: {:?} vs {:?}; {}", a.bounds(), b.bounds(), ctx());
        let (x, y) = (bits(&a), bits(&b));
        if let Some(k) = (0..x.len()).find(|k| x[*k] != y[*k]) {
            return Err(format!("{what} changed cell {:?} from {} to {}; {}", cells(shape(&a.grid_map))[k], f32::from_bits(x[k]), f32::from_bits(y[k]), ctx()));
        }
        ensure!(ca_ == cb_, "{what} changed the set of changed cells; {}", ctx());
        cs.obs.count(["plain_replays", "replays_on_copies", "permuted_replays"][round.min(2)], 1);
    }
    let mut h = Hash64::new();
    for v in bits(&a) {
        h.add(v as u64);
    }
    let b = a.bounds();
    h.addf(&pa(&b.min)).addf(&pa(&b.max));
    for c in &ca_ {
        let mut s = 0u64;
        for x in c {
            let mut g = Hash64::new();
            g.addi(x);
            s = s.wrapping_add(g.0);
        }
        h.add(s);
    }
    cs.obs.digest = cs.obs.digest.wrapping_add(h.0);
    cs.obs.count("scans", scans.len() as u64);
    cs.obs.sig(h.0);
    cs.obs.sample(|| format!("{D}-D res {} tile {}: {} scans, map {:?}, digest {:016x}", w.res, w.tile, scans.len(), shape(&a.grid_map), h.0));
    Ok(())
}

// ------------------------------------------------------------------ C18

/// A sensor model unlike kuba's: unknown is 7, every point's cell is set to the number of points, occupied below 3.
pub struct Odd(pub f32);
impl kuba::NoiseModel<Na, Nd> for Odd {
    fn default_noise_model() -> Self {
        Odd(7.0)
    }
    fn default_cell_value(&self) -> f32 {
        self.0
    }
    fn integrate_point_cloud(&self, g: &mut impl ExpandableGridMap<f32, Na, Nd>, origin: &Pt, cloud: &PC) {
        let mut lo = pa(origin);
        let mut hi = lo;
        for p in cloud.points_iter() {
            for i in 0..D {
                lo[i] = lo[i].min(p[i]);
                hi[i] = hi[i].max(p[i]);
            }
        }
        g.expand_bounds(&bo(lo, hi), self.0);
        for p in cloud.points_iter().chain(std::iter::once(origin.clone())) {
            let c = g.cell_from_point(&p);
            g.set(&c, cloud.num_points() as f32);
            if g.track_changes() {
                g.add_changed_cells(vec![c]);
            }
        }
    }
    fn occupied(&self, g: &impl GridMap<f32, Na, Nd>, c: &Ce) -> bool {
        g.get(c) < 3.0
    }
}

fn lockstep<NM: kuba::NoiseModel<Na, Nd>>(cs: &mut Case, w: &World, mut om: kuba::OccupancyGridMapN<NM, Na, Nd>, mut gm: Map<f32>, nm: NM, n_max: i64, tag: &'static str) -> Verdict {
    let r = &mut cs.rng;
    let mut trail = String::new();
    let mut h = Hash64::new();
    for _ in 0..6 + how_many(r, 25) {
        let sh = shape(&gm);
        let has = sh.iter().all(|x| *x > 0);
        let mut c = [0isize; D];
        for i in 0..D {
            c[i] = if sh[i] > 0 { r.below(sh[i] as u64) as isize } else { 0 };
        }
        let out = r.chance(1, 15);
        if out {
            let i = r.below(D as u64) as usize;
            c[i] = *r.pick(&[-1, sh[i] as isize, isize::MIN, 1 << 40]);
        }
        let op = r.below(14);
        h.add(op).addi(&c);
        match op {
            0..=3 => {
                let s = scan(r, w, n_max);
                trail.push_str(&format!("; scan {}", s.brief()));
                let cl = s.cloud();
                kc!(format!("{tag} integrate_point_cloud on the occupancy map{trail}"), gas GAS, om.integrate_point_cloud(&pt(s.o), &cl));
                kc!(format!("{tag} integrate_point_cloud of the noise model{trail}"), gas GAS, nm.integrate_point_cloud(&mut gm, &pt(s.o), &cl));
                h.addf(&s.o);
            }
            4 | 5 => {
                let v = r.f32(-3.0, 8.0);
                trail.push_str(&format!("; set {:?} {v}", c));
                let a = rejects(|| om.set(&ce(c), v));
                let b = rejects(|| gm.set(&ce(c), v));
                ensure!(a == b, "set of cell {:?}: occupancy map rejects={a}, grid map rejects={b}{trail}", c);
            }
            6 => {
                let a = call(GAS, || om.occupied(&ce(c))).ok();
                let b = call(GAS, || nm.occupied(&gm, &ce(c))).ok();
                ensure!(a == b, "{tag}: occupied({:?}) is {:?} on the occupancy map, {:?} from the noise model{trail}", c, a, b);
                cs.obs.count("occupied_queries", 1);
            }
            7 => {
                let on = r.chance(2, 3);
                trail.push_str(&format!("; track {on}"));
                kc!("set_track_changes", om.set_track_changes(on));
                gm.set_track_changes(on);
            }
            8 => {
                trail.push_str("; clear");
                kc!("clear_changed_cells", om.clear_changed_cells());
                gm.clear_changed_cells();
            }
            9 if has => {
                let l = vec![ce(c), ce([0; D]), ce(c)];
                trail.push_str("; add");
                kc!("add_changed_cells", om.add_changed_cells(l.clone()));
                gm.add_changed_cells(l);
            }
            10 => {
                let s = scan(r, w, 2);
                let p = pt(s.o);
                let a = kc!("cell_from_point", om.cell_from_point(&p));
                ensure!(a == gm.cell_from_point(&p), "cell_from_point({:?}) differs{trail}", s.o);
                let a = kc!("point_from_cell", om.point_from_cell(&ce(c)));
                let b = gm.point_from_cell(&ce(c));
                ensure!((0..D).all(|i| a[i].to_bits() == b[i].to_bits()), "point_from_cell({:?}) differs: {:?} vs {:?}{trail}", c, a, b);
            }
            _ => {
                let a = call(GAS, || om.get(&ce(c))).ok().map(f32::to_bits);
                let b = call(GAS, || gm.get(&ce(c))).ok().map(f32::to_bits);
                ensure!(a == b, "get({:?}) is {:?} on the occupancy map, {:?} on the grid map{trail}", c, a, b);
            }
        }
        cs.obs.count("operations_compared", 1);
        ensure!(om.resolution().to_bits() == gm.resolution().to_bits(), "resolution {} vs {}{trail}", om.resolution(), gm.resolution());
        ensure!(om.bounds() == gm.bounds(), "{tag}: bounds {:?} vs {:?}{trail}", om.bounds(), gm.bounds());
        ensure!(om.track_changes() == gm.track_changes(), "track_changes {} vs {}{trail}", om.track_changes(), gm.track_changes());
        let key = |v: Vec<Ce>| {
            let mut v: Vec<[isize; D]> = v.iter().map(ca).collect();
            v.sort();
            v
        };
        let (a, b) = (key(om.changed_cells()), key(gm.changed_cells()));
        ensure!(a == b, "{tag}: {} changed cells on the occupancy map, {} on the grid map (or different ones){trail}", a.len(), b.len());
    }
    ensure!(shape(&om.grid_map) == shape(&gm), "shapes {:?} vs {:?}{trail}", shape(&om.grid_map), shape(&gm));
    for c in cells(shape(&gm)) {
        let (a, b) = (kc!("get", om.get(&ce(c))), gm.get(&ce(c)));
        ensure!(a.to_bits() == b.to_bits(), "{tag}: cell {:?} holds {a} in the occupancy map, {b} in the grid map{trail}", c);
        let (a, b) = (kc!("occupied", om.occupied(&ce(c))), nm.occupied(&gm, &ce(c)));
        ensure!(a == b, "{tag}: cell {:?} occupied={a} in the occupancy map, {b} from the noise model{trail}", c);
        cs.obs.count("cells_compared", 1);
    }
    cs.obs.count(tag, 1);
    cs.obs.sig(h.0);
    cs.obs.sample(|| format!("{tag} {D}-D res {} tile {}{trail}", w.res, w.tile));
    Ok(())
}

pub fn c18(cs: &mut Case) -> Verdict {
    let mut w = world(cs, 2_000);
    let n_max = how_large(cs, 2, 30);
    match cs.rng.below(6) {
        0 => {
            // default configuration (coarse scenes: the default tile is large)
            if cfg!(miri) || (D == 3 && !cs.rng.chance(1, 80)) {
                w.base = [0; D];
                let om = kc!("default", OMap::default());
                let d = LidarNoiseModel::default();
                let e = <LidarNoiseModel as kuba::NoiseModel<Na, Nd>>::default_noise_model();
                for (name, a, b, c) in [
                    ("hit", om.noise_model.hit_probability_logodds, d.hit_probability_logodds, e.hit_probability_logodds),
                    ("miss", om.noise_model.miss_probability_logodds, d.miss_probability_logodds, e.miss_probability_logodds),
                    ("min", om.noise_model.min_probability_logodds, d.min_probability_logodds, e.min_probability_logodds),
                    ("max", om.noise_model.max_probability_logodds, d.max_probability_logodds, e.max_probability_logodds),
                    ("threshold", om.noise_model.occupied_threshold_logodds, d.occupied_threshold_logodds, e.occupied_threshold_logodds),
                    ("range", om.noise_model.max_range, d.max_range, e.max_range),
                ] {
                    ensure!(a.to_bits() == b.to_bits() && a.to_bits() == c.to_bits(), "default {name}: occupancy map {a}, noise model {b}, default_noise_model {c}");
                }
                let g = kc!("default", Map::<f32>::default());
                ensure!(om.grid_map.tile_size == g.tile_size && om.resolution() == g.resolution() && g.tile_size == kuba::map::grid_map::DEFAULT_TILE_SIZE && g.resolution == kuba::map::grid_map::DEFAULT_RESOLUTION,
                    "default resolution/tile size: occupancy map {}/{}, grid map {}/{}", om.resolution(), om.grid_map.tile_size, g.resolution, g.tile_size);
                ensure!(<LidarNoiseModel as kuba::NoiseModel<Na, Nd>>::default_cell_value(&d) == 0.0, "the unknown value is not zero log-odds");
                ensure!(om.bounds() == g.bounds() && om.bounds() == Bo::empty() && om.grid_map.data.len() == 0 && !om.track_changes() && om.changed_cells().is_empty(), "a default map is not empty and untracked");
                cs.obs.count("default_configurations", 1);
                return Ok(());
            }
            let g = kuba::map::grid_map::DEFAULT_RESOLUTION;
            w.res = g;
            w.tile = kuba::map::grid_map::DEFAULT_TILE_SIZE;
            w.base = [0; D];
            let om = kc!("default", OMap::default());
            let gm = kc!("default", Map::<f32>::default());
            lockstep(cs, &w, om, gm, LidarNoiseModel::default(), n_max, "default")
        }
        1 => {
            let v = cs.rng.f32(-9.0, 9.0);
            let om = kc!("new", kuba::OccupancyGridMapN::new(Odd(v), w.res, w.tile));
            let gm = kc!("new", Map::<f32>::new(w.res, Bo::empty(), w.tile, v));
            lockstep(cs, &w, om, gm, Odd(v), n_max, "foreign_noise_model")
        }
        _ => {
            let par = params(&mut cs.rng, w.res, w.reach as f64, true);
            let om = {let nm_ = par.model()?; kc!("new", OMap::new(nm_, w.res, w.tile))};
            let gm = kc!("new", Map::<f32>::new(w.res, Bo::empty(), w.tile, 0.0));
            ensure!(om.grid_map.tile_size == w.tile, "tile size {} became {}", w.tile, om.grid_map.tile_size);
            lockstep(cs, &w, om, gm, par.model()?, n_max, "lidar_noise_model")
        }
    }
}
