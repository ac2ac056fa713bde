//! Independent reference geometry in f64 cell units. A point's lattice coordinate is
//! u = (p - origin) / res + 0.5, so that cell k covers [k, k+1).
pub const EPS: f64 = 1.1920929e-7;

pub struct Lattice<const D: usize> {
    pub off: [f64; D],
    pub res: f64,
}

impl<const D: usize> Lattice<D> {
    pub fn new(off: [f32; D], res: f32) -> Self {
        let mut o = [0.0; D];
        for i in 0..D {
            o[i] = off[i] as f64;
        }
        Lattice { off: o, res: res as f64 }
    }
    pub fn u(&self, p: [f32; D]) -> [f64; D] {
        let mut r = [0.0; D];
        for i in 0..D {
            r[i] = (p[i] as f64 - self.off[i]) / self.res + 0.5;
        }
        r
    }
    pub fn centre(&self, c: [isize; D]) -> [f64; D] {
        let mut r = [0.0; D];
        for i in 0..D {
            r[i] = c[i] as f64 * self.res + self.off[i];
        }
        r
    }
}

/// A segment in lattice units, with the per-axis tolerance (in cells) that single-precision incremental traversal
/// is entitled to.
pub struct Seg<const D: usize> {
    pub a: [f64; D],
    pub d: [f64; D],
    pub tol: [f64; D],
}

impl<const D: usize> Seg<D> {
    pub fn new(l: &Lattice<D>, o: [f32; D], e: [f32; D]) -> Self {
        let a = l.u(o);
        let b = l.u(e);
        let mut d = [0.0; D];
        let mut tol = [0.0; D];
        for i in 0..D {
            d[i] = b[i] - a[i];
            let n = d[i].abs();
            let world = (o[i].abs() as f64 + e[i].abs() as f64 + l.off[i].abs()) / l.res;
            tol[i] = EPS * (4.0 * (a[i].abs() + b[i].abs() + world + 2.0) + (n + 4.0) * (n + 4.0));
        }
        Seg { a, d, tol }
    }
    pub fn at(&self, t: f64) -> [f64; D] {
        let mut r = [0.0; D];
        for i in 0..D {
            r[i] = self.a[i] + t * self.d[i];
        }
        r
    }
    /// Does the segment meet the cell enlarged by the tolerance?
    pub fn meets(&self, c: [isize; D]) -> bool {
        let (mut lo, mut hi) = (0.0f64, 1.0f64);
        for i in 0..D {
            let (c0, c1) = (c[i] as f64 - self.tol[i], c[i] as f64 + 1.0 + self.tol[i]);
            if self.d[i] == 0.0 {
                if self.a[i] < c0 || self.a[i] > c1 {
                    return false;
                }
            } else {
                let (mut t0, mut t1) = ((c0 - self.a[i]) / self.d[i], (c1 - self.a[i]) / self.d[i]);
                if t0 > t1 {
                    std::mem::swap(&mut t0, &mut t1);
                }
                lo = lo.max(t0);
                hi = hi.min(t1);
            }
        }
        lo <= hi
    }
    /// Parameters of all border crossings, sorted, with 0 and 1 at the ends.
    fn crossings(&self) -> Vec<f64> {
        let mut ts = vec![0.0, 1.0];
        for i in 0..D {
            if self.d[i] == 0.0 {
                continue;
            }
            let (x, y) = (self.a[i], self.a[i] + self.d[i]);
            let (lo, hi) = (x.min(y), x.max(y));
            let mut k = lo.ceil();
            while k <= hi {
                ts.push(((k - self.a[i]) / self.d[i]).max(0.0).min(1.0));
                k += 1.0;
            }
        }
        ts.sort_by(|p, q| p.partial_cmp(q).unwrap());
        ts
    }
    /// Cells whose interior the segment certainly passes through (by more than the tolerance on every axis), in order.
    pub fn certain_cells(&self) -> Vec<[isize; D]> {
        let ts = self.crossings();
        let mut out: Vec<[isize; D]> = vec![];
        for w in ts.windows(2) {
            let m = self.at((w[0] + w[1]) * 0.5);
            let mut c = [0isize; D];
            let mut sure = true;
            for i in 0..D {
                let f = m[i].floor();
                c[i] = f as isize;
                if m[i] - f <= self.tol[i] || f + 1.0 - m[i] <= self.tol[i] {
                    sure = false;
                }
            }
            if sure && out.last() != Some(&c) {
                out.push(c);
            }
        }
        out
    }
    /// The unique cell sequence (both ends included), or None if any decision is within `margin` cells of a tie.
    pub fn unambiguous_walk(&self, margin: f64) -> Option<Vec<[isize; D]>> {
        let mut m = [0.0; D];
        for i in 0..D {
            m[i] = margin + 2.0 * self.tol[i];
            let b = self.a[i] + self.d[i];
            for v in [self.a[i], b] {
                if (v - v.round()).abs() < m[i] {
                    return None;
                }
            }
        }
        // (t, axis) of all crossings
        let mut ev: Vec<(f64, usize)> = vec![];
        for i in 0..D {
            if self.d[i] == 0.0 {
                continue;
            }
            let b = self.a[i] + self.d[i];
            let (lo, hi) = (self.a[i].min(b), self.a[i].max(b));
            let mut k = lo.ceil();
            while k < hi {
                ev.push(((k - self.a[i]) / self.d[i], i));
                k += 1.0;
            }
        }
        ev.sort_by(|p, q| p.partial_cmp(q).unwrap());
        // crossings further apart in t than this cannot be swapped by rounding
        let mut reach = 0.0f64;
        for (_, x) in &ev {
            reach = reach.max(m[*x] / self.d[*x].abs());
        }
        for i in 0..ev.len() {
            for j in i + 1..ev.len() {
                let (t0, x) = ev[i];
                let (t1, y) = ev[j];
                let dt = t1 - t0;
                if dt > reach {
                    break;
                }
                if x != y && (dt * self.d[x].abs() < m[x] || dt * self.d[y].abs() < m[y]) {
                    return None;
                }
            }
        }
        let mut c = [0isize; D];
        for i in 0..D {
            c[i] = self.a[i].floor() as isize;
        }
        let mut out = vec![c];
        for (_, x) in ev {
            c[x] += if self.d[x] > 0.0 { 1 } else { -1 };
            out.push(c);
        }
        Some(out)
    }
}

pub fn dist<const D: usize>(a: [f64; D], b: [f64; D]) -> f64 {
    let mut s = 0.0;
    for i in 0..D {
        s += (a[i] - b[i]) * (a[i] - b[i]);
    }
    s.sqrt()
}

pub fn floor_div(a: i64, b: i64) -> i64 {
    a.div_euclid(b)
}
