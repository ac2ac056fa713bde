//! The same names for the 2-D and the 3-D instantiation of kuba's types.
macro_rules! dimmod {
    ($m:ident, $d:expr, $pt:ident, $ce:ident, $bo:ident, $cb:ident, $pc:ident, $na:ty, $nd:ty, $gm:ident, $om:ident) => {
        pub mod $m {
            #![allow(dead_code)]
            pub const D: usize = $d;
            pub type Pt = kuba::$pt;
            pub type Ce = kuba::$ce;
            pub type Bo = kuba::$bo;
            pub type CB = kuba::$cb;
            pub type PC = kuba::$pc;
            pub type Na = $na;
            pub type Nd = $nd;
            pub type Map<A> = kuba::$gm<A>;
            pub type OMap = kuba::$om;
            pub fn pt(a: [f32; D]) -> Pt {
                let mut p = Pt::origin();
                for i in 0..D {
                    p[i] = a[i];
                }
                p
            }
            pub fn ce(a: [isize; D]) -> Ce {
                let mut c = Ce::origin();
                for i in 0..D {
                    c[i] = a[i];
                }
                c
            }
            pub fn pa(p: &Pt) -> [f32; D] {
                let mut a = [0.0; D];
                for i in 0..D {
                    a[i] = p[i];
                }
                a
            }
            pub fn ca(c: &Ce) -> [isize; D] {
                let mut a = [0; D];
                for i in 0..D {
                    a[i] = c[i];
                }
                a
            }
            pub fn bo(min: [f32; D], max: [f32; D]) -> Bo {
                Bo { min: pt(min), max: pt(max) }
            }
            pub fn cb(min: [isize; D], max: [isize; D]) -> CB {
                CB { min: ce(min), max: ce(max) }
            }
            pub fn shape<A>(m: &Map<A>) -> [usize; D] {
                let mut a = [0; D];
                for i in 0..D {
                    a[i] = m.data.shape()[i];
                }
                a
            }
            pub fn ndim(sh: [usize; D]) -> Nd {
                ndarray::Dim(sh)
            }
            pub fn ndim_c(c: [isize; D]) -> Nd {
                let mut a = [0; D];
                for i in 0..D {
                    a[i] = c[i] as usize;
                }
                ndarray::Dim(a)
            }
            /// All cells of a shape, in row-major order.
            pub fn cells(sh: [usize; D]) -> Vec<[isize; D]> {
                let n: usize = sh.iter().product();
                let mut v = Vec::with_capacity(n);
                for k in 0..n {
                    let mut r = k;
                    let mut c = [0isize; D];
                    for i in (0..D).rev() {
                        c[i] = (r % sh[i]) as isize;
                        r /= sh[i];
                    }
                    v.push(c);
                }
                v
            }
        }
    };
}
dimmod!(dim2, 2, Point2, Cell2, Bounds2, CellBounds2, PointCloud2, nalgebra::U2, ndarray::Ix2, GridMap2, LidarOccupancyGridMap2);
dimmod!(dim3, 3, Point3, Cell3, Bounds3, CellBounds3, PointCloud3, nalgebra::U3, ndarray::Ix3, GridMap3, LidarOccupancyGridMap3);
