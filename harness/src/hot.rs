// Single calls with a digest of everything they return, for hammering from several threads; 2-D and 3-D.
use crate::core::*;
use kuba::geom::converter as cv;
use kuba::prelude::*;
use kuba::ray_caster;

fn point(r: &mut Rng, span: f32) -> Pt {
    let mut a = [0.0f32; D];
    for x in a.iter_mut() {
        *x = r.f32(-span, span);
    }
    pt(a)
}
fn cloud(r: &mut Rng, n: u64, span: f32) -> Vec<Pt> {
    (0..n).map(|_| point(r, span)).collect()
}
fn boxed(r: &mut Rng, span: f32) -> Bo {
    let (a, b) = (point(r, span), point(r, span));
    let (mut lo, mut hi) = ([0.0f32; D], [0.0f32; D]);
    for i in 0..D {
        lo[i] = a[i].min(b[i]);
        hi[i] = a[i].max(b[i]);
    }
    bo(lo, hi)
}
fn box_digest(h: &mut Hash64, b: &Bo) {
    h.addf(&pa(&b.min)).addf(&pa(&b.max));
}
fn cells_digest(h: &mut Hash64, cells: impl Iterator<Item = Ce>) {
    let mut v: Vec<_> = cells.map(|c| ca(&c)).collect();
    v.sort();
    for c in v {
        h.addi(&c);
    }
}

pub fn convert(r: &mut Rng, h: &mut Hash64) {
    let (off, res) = (point(r, 50.0), r.res());
    let p = point(r, 100.0);
    let c = cv::cell_from_point(&p, &off, res);
    h.addi(&ca(&c)).addf(&pa(&cv::point_from_cell(&c, &off, res)));
    let mut per = [0.0f32; D];
    for x in per.iter_mut() {
        *x = r.res();
    }
    let c = cv::cell_from_point_n(&p, &off, &pt(per));
    h.addi(&ca(&c)).addf(&pa(&cv::point_from_cell_n(&c, &off, &pt(per))));
}

pub fn boxes(r: &mut Rng, h: &mut Hash64) {
    let (a, b, res) = (boxed(r, 30.0), boxed(r, 30.0), r.res());
    for x in &[a.enclosing(&b), a.overlapping(&b), a.discretized(res, false), b.discretized(res, true)] {
        box_digest(h, x);
    }
    let c = CB::from_bounds(&a, res).discretized(1 + r.below(9) as usize);
    h.addi(&ca(&c.min)).addi(&ca(&c.max));
    box_digest(h, &Bo::from_cell_bounds(&c, res));
}

pub fn ray(r: &mut Rng, h: &mut Hash64) {
    let (o, e, b) = (point(r, 12.0), point(r, 12.0), boxed(r, 12.0));
    let (cells, end) = ray_caster::cast_ray(&o, &e, &b, 0.5 + r.f32(0.0, 1.0), if r.chance(1, 2) { 0.0 } else { 9.0 });
    for c in cells {
        h.addi(&ca(&c));
    }
    if let Some(c) = end {
        h.addi(&ca(&c));
    }
}

pub fn rays(r: &mut Rng, h: &mut Hash64) {
    let n = 1 + r.below(12);
    let (o, c, b) = (point(r, 8.0), cloud(r, n, 8.0), boxed(r, 8.0));
    let (free, occupied) = ray_caster::cast_rays(&o, &PC::from_points(&c), &b, 0.5 + r.f32(0.0, 1.0), 7.0);
    cells_digest(h, free.into_iter());
    h.add(7);
    cells_digest(h, occupied.into_iter());
}

pub fn clouds(r: &mut Rng, h: &mut Hash64) {
    let n = r.below(20);
    let c = PC::from_points(&cloud(r, n, 40.0)).clone();
    h.add(c.num_points() as u64);
    for p in c.points_iter() {
        h.addf(&pa(&p));
    }
    box_digest(h, &c.bounds());
}

pub fn grow(r: &mut Rng, h: &mut Hash64) {
    let mut m = Map::<i32>::new(0.5, Bo::empty(), 1 + r.below(6) as usize, 3);
    m.set_track_changes(true);
    for k in 0..3 {
        let p = point(r, 4.0);
        m.expand_bounds(&Bo::new(p.clone(), p.clone()), k);
        let c = m.cell_from_point(&p);
        m.set(&c, 100 + k + m.get(&c));
        m.add_changed_cells(vec![c]);
        box_digest(h, &m.bounds());
    }
    for c in cells(shape(&m)) {
        h.add(m.get(&ce(c)) as u64);
    }
    let m = m.clone();
    cells_digest(h, m.changed_cells().into_iter());
}

pub fn integrate(r: &mut Rng, h: &mut Hash64) {
    let nm = kuba::map::LidarNoiseModel::new(0.5 + r.f32(0.0, 0.4), 0.1 + r.f32(0.0, 0.4), 0.05, 0.95, 0.5, 6.0);
    let mut m = OMap::new(nm, 0.5 + r.f32(0.0, 0.5), 1 + r.below(6) as usize);
    m.set_track_changes(true);
    for _ in 0..2 {
        let n = r.below(6);
        let (o, c) = (point(r, 3.0), cloud(r, n, 3.0));
        m.integrate_point_cloud(&o, &PC::from_points(&c));
    }
    box_digest(h, &m.bounds());
    for c in cells(shape(&m.grid_map)) {
        h.add(m.get(&ce(c)).to_bits() as u64).add(m.occupied(&ce(c)) as u64);
    }
    cells_digest(h, m.changed_cells().into_iter());
}
