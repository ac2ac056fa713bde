// C05, C19-C22.
use crate::core::*;
use crate::refgeo::EPS;
use crate::{ensure, kc};
use kuba::kitti::{fs as kfs, oxt_reader, point_cloud_reader};
use kuba::{Point3, PointCloud3};
use nalgebra as na;
use std::io::Read;

// ------------------------------------------------------------------ C05

type M4 = na::Matrix4<f32>;

fn matrix(r: &mut Rng) -> (M4, &'static str) {
    let big = 10f64.powf(r.f64(-1.0, 3.0));
    let t = |r: &mut Rng| [r.f32(-big as f32, big as f32), r.f32(-big as f32, big as f32), r.f32(-big as f32, big as f32)];
    let rigid = |r: &mut Rng, t: [f32; 3]| {
        let a = if r.chance(1, 4) { *r.pick(&[0.0f32, std::f32::consts::FRAC_PI_2, std::f32::consts::PI, -std::f32::consts::FRAC_PI_2]) } else { r.f32(-3.2, 3.2) };
        na::Isometry3::<f32>::from_parts(na::Translation3::new(t[0], t[1], t[2]), na::UnitQuaternion::from_euler_angles(a, r.f32(-1.5, 1.5), r.f32(-3.2, 3.2))).to_homogeneous()
    };
    match r.below(9) {
        0 => (M4::identity(), "identity"),
        7 => {
            // nothing is too small to be done
            let e = 10f64.powf(r.f64(-7.0, -1.5)) as f32;
            let mut m = M4::identity();
            for _ in 0..1 + r.below(12) {
                m[(r.below(3) as usize, r.below(4) as usize)] += r.f32(-e, e);
            }
            (m, "almost the identity")
        }
        8 => {
            // axes exchanged, dropped, copied
            let mut m = M4::zeros();
            m[(3, 3)] = 1.0;
            let mut axes = [0usize, 1, 2];
            r.shuffle(&mut axes);
            for i in 0..3 {
                let to = if r.chance(1, 5) { r.below(3) as usize } else { axes[i] };
                m[(i, to)] = *r.pick(&[1.0, 1.0, -1.0, 0.0, 0.5]);
                m[(i, 3)] = *r.pick(&[0.0, 0.0, 1.0, -2.5]);
            }
            (m, "axes exchanged")
        }
        1 | 2 => {
            let v = t(r);
            (rigid(r, v), "rigid")
        }
        3 => {
            let v = t(r);
            let mut m = M4::identity();
            for i in 0..3 {
                m[(i, 3)] = v[i];
            }
            (m, "translation")
        }
        4 => {
            let mut m = M4::identity();
            for i in 0..3 {
                m[(i, i)] = r.f32(0.1, 10.0) * if r.chance(1, 2) { 1.0 } else { -1.0 };
            }
            let v = t(r);
            for i in 0..3 {
                m[(i, 3)] = v[i];
            }
            (m, "scaling and reflection")
        }
        5 => {
            let mut m = M4::identity();
            m[(r.below(3) as usize, r.below(4) as usize)] += r.f32(-5.0, 5.0);
            (m, "shear")
        }
        _ => {
            let mut m = M4::identity();
            for i in 0..3 {
                for j in 0..4 {
                    m[(i, j)] = r.f32(-big as f32, big as f32);
                }
            }
            (m, "general affine")
        }
    }
}

/// Exact image and the magnitude that rounding is relative to.
fn image(m: &M4, p: [f64; 3]) -> ([f64; 3], [f64; 3]) {
    let mut y = [0.0; 3];
    let mut s = [0.0; 3];
    for i in 0..3 {
        y[i] = m[(i, 3)] as f64;
        s[i] = y[i].abs();
        for j in 0..3 {
            let x = m[(i, j)] as f64 * p[j];
            y[i] += x;
            s[i] += x.abs();
        }
    }
    (y, s)
}
fn pts_of(c: &PointCloud3) -> Vec<[f32; 3]> {
    (0..c.data.ncols()).map(|k| [c.data[(0, k)], c.data[(1, k)], c.data[(2, k)]]).collect()
}

pub fn c05(cs: &mut Case) -> Verdict {
    let top = cs.upto(3, 80);
    let thorough = cs.thorough;
    let r = &mut cs.rng;
    let n = match r.below(40) {
        0 => 0,
        1 => 1,
        2 => if thorough { 5000 } else { 800 },
        3 if !cfg!(miri) && r.chance(1, 10) => if r.chance(1, 40) { r.int(65_530, 200_000) } else { r.int(81, 9000) },
        _ => r.int(0, top),
    } as usize;
    let spread = 10f64.powf(r.f64(-2.0, 3.5));
    let pts: Vec<[f32; 3]> = (0..n).map(|_| {
        let mut p = [0.0f32; 3];
        for x in p.iter_mut() {
            *x = if r.chance(1, 20) { *r.pick(&[0.0, -0.0, 1.0, -1.0, 1e-30]) } else { r.f64(-spread, spread) as f32 };
        }
        p
    }).collect();
    let spread = pts.iter().flatten().fold(spread, |m, x| m.max(x.abs() as f64));
    let cloud = PointCloud3::from_points(&pts.iter().map(|p| Point3::new(p[0], p[1], p[2])).collect::<Vec<_>>());
    let before: Vec<u32> = cloud.data.iter().map(|v| v.to_bits()).collect();
    let (m, kind) = matrix(r);
    let out = kc!(format!("transform by {kind} {m}"), cloud.transform(&m));
    let after: Vec<u32> = cloud.data.iter().map(|v| v.to_bits()).collect();
    ensure!(before == after, "transform changed its source cloud");
    ensure!(out.num_points() == n, "transforming {n} points gave {}", out.num_points());
    let got = pts_of(&out);
    let it: Vec<Point3> = kc!("points_iter", out.points_iter().collect());
    for k in 0..n {
        let (y, s) = image(&m, [pts[k][0] as f64, pts[k][1] as f64, pts[k][2] as f64]);
        for i in 0..3 {
            ensure!(it[k][i].to_bits() == got[k][i].to_bits(), "point {k} iterates differently from its column");
            ensure!((got[k][i] as f64 - y[i]).abs() <= 6.0 * EPS * s[i] + 1e-37,
                "point {k} of {n} {:?} under {kind} {:?} must be {:?}, got {:?}", pts[k], m.as_slice(), y, got[k]);
        }
    }
    cs.obs.count(match kind { "identity" => "identity", "rigid" => "rigid", "translation" => "translation", "shear" => "shear", "general affine" => "general_affine", "almost the identity" => "almost_the_identity", "axes exchanged" => "axes_exchanged", _ => "scaling_and_reflection" }, 1);
    cs.obs.count("points", n as u64);
    // rigid: distances
    if kind == "rigid" && n >= 2 {
        for _ in 0..10 {
            let (a, b) = (cs.rng.below(n as u64) as usize, cs.rng.below(n as u64) as usize);
            let d = |x: &[f32; 3], y: &[f32; 3]| (0..3).map(|i| (x[i] as f64 - y[i] as f64).powi(2)).sum::<f64>().sqrt();
            let (d0, d1) = (d(&pts[a], &pts[b]), d(&got[a], &got[b]));
            let scale = spread + (0..3).map(|i| m[(i, 3)].abs() as f64).fold(0.0, f64::max);
            ensure!((d0 - d1).abs() <= 40.0 * EPS * scale, "a rigid transform changed a distance from {d0} to {d1}");
            cs.obs.count("distances_compared", 1);
        }
        // inverse
        let inv = m.try_inverse().ok_or("harness: rigid matrix without inverse".to_string())?;
        let back = pts_of(&kc!("transform by the inverse", out.transform(&inv)));
        let scale = spread + (0..3).map(|i| m[(i, 3)].abs() as f64).sum::<f64>();
        for k in 0..n {
            for i in 0..3 {
                ensure!((back[k][i] as f64 - pts[k][i] as f64).abs() <= 80.0 * EPS * scale, "inverse transform returned {:?} for {:?}", back[k], pts[k]);
            }
        }
        cs.obs.count("round_trips", 1);
    }
    // composition
    let (m2, _) = matrix(&mut cs.rng);
    let two = pts_of(&kc!("second transform", out.transform(&m2)));
    let one = pts_of(&kc!("transform by the product", cloud.transform(&(m2 * m))));
    ensure!(two.len() == n && one.len() == n, "composition lost points");
    for k in 0..n {
        let (_, s1) = image(&m, [pts[k][0] as f64, pts[k][1] as f64, pts[k][2] as f64]);
        for i in 0..3 {
            let s: f64 = (0..3).map(|j| m2[(i, j)].abs() as f64 * s1[j]).sum::<f64>() + m2[(i, 3)].abs() as f64;
            ensure!((two[k][i] as f64 - one[k][i] as f64).abs() <= 30.0 * EPS * s + 1e-36, "two transforms give {:?}, their product {:?}", two[k], one[k]);
        }
    }
    let mut h = Hash64::new();
    h.addf(m.as_slice());
    for p in &pts {
        h.addf(p);
    }
    cs.obs.sig(h.0);
    cs.obs.sample(|| format!("{n} points under {kind}: {:?} -> {:?}", &pts[..n.min(2)], &got[..n.min(2)]));
    Ok(())
}

// ------------------------------------------------------------------ C19

/// Order-preserving map between integers and floats.
fn unrank(k: u32) -> f32 {
    f32::from_bits(if k & 0x8000_0000 != 0 { k ^ 0x8000_0000 } else { !k })
}

pub fn c19(cs: &mut Case) -> Verdict {
    use kuba::math::*;
    // block of consecutive floats in numeric order
    let blocks = 4096u64;
    let span = (1u64 << 32) / blocks;
    let block = cs.index % blocks;
    let (stride, start) = if cfg!(miri) { (65_537, cs.rng.below(65_537)) } else { (1u64, 0) };
    let (lo, hi) = (block * span, (block + 1) * span);
    let e = f32::EPSILON as f64;
    let mut prev_l: Option<(f32, f32)> = None;
    let mut prev_p: Option<(f32, f32)> = None;
    let (mut n_l, mut n_p, mut n_s) = (0u64, 0u64, 0u64);
    // the case spans a whole block inside one guarded call: panics are findings, too
    let res: Verdict = kc!("math functions", (|| {
        let mut k = lo + start;
        while k < hi {
            let x = unrank(k as u32);
            k += stride;
            if x.is_nan() {
                continue;
            }
            let s = f32_signum(x);
            let want = if x > 0.0 { 1.0f32 } else if x < 0.0 { -1.0 } else { 0.0 };
            ensure!(s == want, "f32_signum({x:e}) = {s}, must be {want}");
            n_s += 1;
            // any log-odds
            let p = probability_from_logodds(x);
            let want = 1.0 / (1.0 + (-(x as f64)).exp());
            ensure!((p as f64 - want).abs() <= 4.0 * e, "probability_from_logodds({x:e}) = {p:e}, must be {want:e}");
            ensure!(p >= 0.0 && p <= 1.0, "probability_from_logodds({x:e}) = {p:e} is not a probability");
            if let Some((px, pp)) = prev_p {
                ensure!(p as f64 >= pp as f64 - 4.0 * e, "probability_from_logodds decreases from {pp:e} at {px:e} to {p:e} at {x:e}");
            }
            prev_p = Some((x, p));
            n_p += 1;
            if x.abs() <= 10.0 {
                let back = logodds_from_probability(p);
                let q = want * (1.0 - want);
                ensure!((back as f64 - x as f64).abs() <= 12.0 * e / q, "log-odds {x:e} -> probability {p:e} -> log-odds {back:e}");
            }
            // any probability
            if x >= 0.0 && x <= 1.0 {
                let l = logodds_from_probability(x);
                let pd = x as f64;
                let want = (pd / (1.0 - pd)).ln();
                if x == 0.0 || x == 1.0 {
                    ensure!(l as f64 == want, "logodds_from_probability({x}) = {l}, must be {want}");
                } else {
                    ensure!((l as f64 - want).abs() <= 6.0 * e * (1.0 + want.abs()), "logodds_from_probability({x:e}) = {l:e}, must be {want:e}");
                }
                if let Some((px, pl)) = prev_l {
                    ensure!(l as f64 >= pl as f64 - 12.0 * e * (1.0 + (pl as f64).abs()) || pl == -f32::INFINITY, "logodds_from_probability decreases from {pl:e} at {px:e} to {l:e} at {x:e}");
                }
                prev_l = Some((x, l));
                let back = probability_from_logodds(l);
                ensure!((back as f64 - pd).abs() <= 12.0 * e, "probability {x:e} -> log-odds {l:e} -> probability {back:e}");
                n_l += 1;
            }
        }
        Ok(())
    })());
    res?;
    // element-wise sign of vectors around this block
    for _ in 0..16 {
        let r = &mut cs.rng;
        let mut v = [0.0f32; 3];
        for x in v.iter_mut() {
            *x = loop {
                let x = match r.below(4) {
                    0 => *r.pick(&[0.0, -0.0, 1e-45, -1e-45, 1.0, -1.0, f32::MAX, f32::INFINITY, -f32::INFINITY]),
                    _ => unrank(r.u64() as u32),
                };
                if !x.is_nan() {
                    break x;
                }
            };
        }
        let sg = |x: f32| if x > 0.0 { 1.0f32 } else if x < 0.0 { -1.0 } else { 0.0 };
        let a = kc!("vector::signum", kuba::vector::signum(&kuba::Vector3::new(v[0], v[1], v[2])));
        let b = kc!("vector::signum", kuba::vector::signum(&kuba::Vector2::new(v[0], v[1])));
        ensure!((0..3).all(|i| a[i] == sg(v[i])) && (0..2).all(|i| b[i] == sg(v[i])), "vector signum of {:?} is {:?} / {:?}", v, a, b);
        cs.obs.count("vectors_signed", 2);
    }
    cs.obs.count("signs_checked", n_s);
    cs.obs.count("logodds_checked", n_p);
    cs.obs.count("probabilities_checked", n_l);
    cs.obs.sig(block);
    cs.obs.sample(|| format!("block {block}: every {stride}th float from {:e} to {:e}", unrank(lo as u32), unrank((hi - 1) as u32)));
    Ok(())
}

// ------------------------------------------------------------------ a faulty reader

/// Hands out `data` in chunks, interrupts, and optionally fails for good at a position.
pub struct Faulty<'a> {
    data: &'a [u8],
    pos: usize,
    chunk: usize,
    rng: Rng,
    interrupts: u64,
    fail_at: Option<(usize, std::io::ErrorKind)>,
    pub log: Vec<(usize, &'static str)>,
    pub failed: bool,
}
impl Read for Faulty<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        if self.log.len() < 64 {
            self.log.push((self.pos, "read"));
        }
        if self.interrupts > 0 && self.rng.chance(1, 3) {
            self.interrupts -= 1;
            return Err(std::io::ErrorKind::Interrupted.into());
        }
        let mut end = self.data.len();
        if let Some((at, kind)) = self.fail_at {
            if self.pos >= at {
                self.failed = true;
                return Err(std::io::Error::new(kind, "injected"));
            }
            end = end.min(at);
        }
        let n = buf.len().min(end - self.pos).min(1 + self.rng.below(self.chunk as u64) as usize);
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
fn faulty<'a>(r: &mut Rng, data: &'a [u8], fail: bool) -> Faulty<'a> {
    let len = data.len();
    Faulty {
        data,
        pos: 0,
        chunk: match r.below(5) {
            _ if len > 4_000_000 => *r.pick(&[100_000, 1 << 20, usize::MAX >> 1]),
            0 => if len > 4000 { 700 } else { 1 },
            1 => 3,
            2 => 17,
            3 => 4096,
            _ => usize::MAX >> 1,
        },
        rng: Rng::new(r.u64()),
        interrupts: if r.chance(1, 2) { r.below(20) } else { 0 },
        fail_at: if fail {
            let at = match r.below(5) { 0 => 0, 1 => len, 2 => (r.below(len as u64 / 16 + 1) * 16) as usize, _ => r.below(len as u64 + 1) as usize };
            Some((at, *r.pick(&[std::io::ErrorKind::Other, std::io::ErrorKind::UnexpectedEof, std::io::ErrorKind::WouldBlock, std::io::ErrorKind::PermissionDenied, std::io::ErrorKind::TimedOut, std::io::ErrorKind::BrokenPipe])))
        } else {
            None
        },
        log: vec![],
        failed: false,
    }
}

/// A private scratch directory, removed on drop.
pub struct Scratch(pub std::path::PathBuf);
impl Scratch {
    pub fn new() -> Result<Scratch, String> {
        use std::sync::atomic::{AtomicU64, Ordering};
        static N: AtomicU64 = AtomicU64::new(0);
        let d = std::env::temp_dir().join(format!("kmon-{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
        std::fs::create_dir(&d).expect("scratch directory");
        Ok(Scratch(d))
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

/// A path from which `bytes` (at most a pipe's capacity) can be read once, as from /dev/stdin: no length, no seeking.
#[cfg(not(miri))]
pub fn piped(bytes: &[u8]) -> (std::path::PathBuf, std::io::PipeReader) {
    use std::io::Write;
    use std::os::fd::AsRawFd;
    let (rd, mut wr) = std::io::pipe().expect("scratch pipe");
    wr.write_all(bytes).expect("scratch pipe");
    (std::path::PathBuf::from(format!("/proc/self/fd/{}", rd.as_raw_fd())), rd)
}

/// A reader that claims to have read more than there was room for. Whatever comes of it, it must not be undefined.
/// Looks at what is in the buffer before it fills it, as safe code may.
struct Curious<'a>(&'a [u8], u64);
impl Read for Curious<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        for b in buf.iter() {
            if *b > 127 {
                self.1 += 1;
            }
        }
        self.0.read(buf)
    }
}

struct Liar(u64);
impl Read for Liar {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        if self.0 == 0 {
            return Ok(0);
        }
        self.0 -= 1;
        for b in buf.iter_mut() {
            *b = 49;
        }
        Ok(if self.0 == 0 { buf.len() + 1 + buf.len() / 7 } else { buf.len() })
    }
}

// ------------------------------------------------------------------ C20

fn scan_bytes(r: &mut Rng, n: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(n);
    while v.len() < n {
        let x: u32 = match r.below(8) {
            0 => *r.pick(&[f32::NAN.to_bits(), 0x7f80_0001, 0xffff_ffff, 0xff80_0000, 0x7f80_0000, 0, 0x8000_0000, 1]),
            1 => r.u64() as u32,
            2 => r.f32(-1.0, 1.0).to_bits(),
            _ => r.f32(-80.0, 80.0).to_bits(),
        };
        v.extend_from_slice(&x.to_ne_bytes());
    }
    v.truncate(n);
    v
}

fn check_scan(what: &str, got: std::io::Result<PointCloud3>, bytes: &[u8], must_fail: Option<&str>) -> Verdict {
    match (got, must_fail) {
        (Err(_), Some(_)) => Ok(()),
        (Err(e), None) => Err(format!("{what}: {} bytes were refused: {e}", bytes.len())),
        (Ok(c), Some(why)) => Err(format!("{what}: {} bytes gave a cloud of {} points although {why}", bytes.len(), c.num_points())),
        (Ok(c), None) => {
            ensure!(c.num_points() == bytes.len() / 16, "{what}: {} bytes gave {} points", bytes.len(), c.num_points());
            for k in 0..c.num_points() {
                for i in 0..3 {
                    let o = k * 16 + i * 4;
                    let w = u32::from_ne_bytes([bytes[o], bytes[o + 1], bytes[o + 2], bytes[o + 3]]);
                    ensure!(c.data[(i, k)].to_bits() == w, "{what}: record {k} of {} coordinate {i} is {:08x} in the file, {:08x} in the cloud", bytes.len() / 16, w, c.data[(i, k)].to_bits());
                }
            }
            Ok(())
        }
    }
}

pub fn c20(cs: &mut Case) -> Verdict {
    let top = cs.upto(2, 120);
    let thorough = cs.thorough;
    let r = &mut cs.rng;
    let n = match r.below(60) {
        0 => 0,
        // a whole KITTI scan is about 2 MB
        1 if !cfg!(miri) => if r.chance(1, 600) { r.int(600_000, 1_300_000) } else if thorough || r.chance(1, 25) { *r.pick(&[65_536, 65_535, 130_000]) } else { r.int(121, 9_000) },
        _ => r.int(0, top),
    } as usize;
    cs.obs.max("bytes_in_one_stream", n as f64 * 16.0);
    let ragged = r.chance(1, 3);
    let len = n * 16 + if ragged { r.int(1, 15) as usize } else { 0 };
    let len = if ragged && n > 0 && r.chance(1, 2) { len - 16 } else { len };
    let bytes = scan_bytes(r, len);
    let fail = r.chance(1, 3);
    let mut rd = faulty(r, &bytes, fail);
    let got = kc!(format!("point_cloud_reader::read of {len} bytes, chunks of up to {}, failing at {:?}", rd.chunk, rd.fail_at), point_cloud_reader::read(&mut rd));
    let ok = len % 16 == 0;
    let why = if fail { Some("reading failed") } else if !ok { Some("the length is not a multiple of 16") } else { None };
    check_scan(&format!("chunks of up to {}, fault {:?}", rd.chunk, rd.fail_at), got, &bytes, why)?;
    cs.obs.count(if fail { "streams_failing_midway" } else if ok { "complete_streams" } else { "ragged_streams" }, 1);
    cs.obs.count("interrupts_and_reads", rd.log.len() as u64);
    let chunk = rd.chunk;
    if r.chance(1, 60) {
        let mut curious = Curious(&bytes, 0);
        let got = kc!("point_cloud_reader::read", point_cloud_reader::read(&mut curious));
        check_scan("a reader that looks at its buffer", got, &bytes, if ok { None } else { Some("the length is not a multiple of 16") })?;
        let mut curious = Curious(b"1 2 3 0 0 0 7", 0);
        ensure!(kc!("oxt_reader::read", oxt_reader::read(&mut curious, None)).is_ok(), "a reader that looks at its buffer was refused");
        std::hint::black_box(curious.1);
        cs.obs.count("readers_that_look_at_their_buffer", 2);
        let calls = r.below(4);
        let _ = rejects(|| point_cloud_reader::read(&mut Liar(calls)).map(|c| c.num_points()));
        let _ = rejects(|| oxt_reader::read(&mut Liar(calls), None).map(|p| p.1));
        cs.obs.count("readers_that_claim_too_much", 2);
    }
    if r.chance(1, 20) {
        let d = Scratch::new()?;
        let f = d.0.join("0000000000.bin");
        std::fs::write(&f, &bytes).expect("scratch file");
        let got = kc!("read_from_file", point_cloud_reader::read_from_file(&f));
        check_scan("file", got, &bytes, if ok { None } else { Some("the length is not a multiple of 16") })?;
        ensure!(kc!("read_from_file", point_cloud_reader::read_from_file(&d.0.join("missing"))).is_err(), "a missing file was decoded");
        ensure!(cfg!(miri) || kc!("read_from_file", point_cloud_reader::read_from_file(&d.0)).is_err(), "a directory was decoded");
        cs.obs.count("files", 1);
        #[cfg(not(miri))]
        if len <= 60_000 {
            let (path, _pipe) = piped(&bytes);
            let got = kc!("read_from_file", point_cloud_reader::read_from_file(&path));
            check_scan("pipe", got, &bytes, if ok { None } else { Some("the length is not a multiple of 16") })?;
            cs.obs.count("pipes", 1);
        }
    }
    let mut h = Hash64::new();
    h.add(len as u64).add(fail as u64).add(chunk as u64);
    for b in bytes.chunks(4).take(400) {
        h.add(b.iter().fold(0u64, |a, x| a << 8 | *x as u64));
    }
    cs.obs.sig(h.0);
    cs.obs.sample(|| format!("{len} bytes, chunks of up to {chunk}, hard fault: {fail}"));
    Ok(())
}

// ------------------------------------------------------------------ C21

const A: f64 = 6_378_137.0;
const E2: f64 = 6.694_379_990_14e-3;

/// Metres per radian north and east at a latitude and height (WGS84).
pub fn metres(lat: f64, h: f64) -> (f64, f64) {
    let s = lat.sin();
    let w = 1.0 - E2 * s * s;
    (A * (1.0 - E2) / w.powf(1.5) + h, (A / w.sqrt() + h) * lat.cos())
}

fn number(r: &mut Rng, x: f64) -> String {
    match r.below(9) {
        0 => format!("{x}"),
        1 => format!("{x:.12}"),
        2 => format!("{x:e}"),
        3 => format!("{x:+.14}"),
        // more digits than any machine number has
        4 => format!("{x:.24}"),
        5 if r.chance(1, 4) => format!("{x:.330}"),
        6 => format!("{x:032.9}"),
        7 => format!("{x:.17e}"),
        _ => format!("{x:.15}"),
    }
}

pub struct Record {
    gps: [f64; 3],
    rpy: [f64; 3],
    pub text: String,
}

pub fn record(r: &mut Rng, gps: [f64; 3]) -> Record {
    let angle = |r: &mut Rng| match r.below(6) {
        0 => 0.0,
        1 => *r.pick(&[std::f64::consts::PI, -std::f64::consts::PI, std::f64::consts::FRAC_PI_2, -std::f64::consts::FRAC_PI_2]),
        2 if r.chance(1, 4) => r.f64(-13.0, 13.0),
        _ => r.f64(-3.15, 3.15),
    };
    // a vehicle, or (the reader does not care) anything at all
    let rpy = if r.chance(1, 3) { [angle(r), angle(r), angle(r)] } else { [angle(r) * 0.4, angle(r) * 0.45, angle(r)] };
    let mut f: Vec<String> = gps.iter().chain(rpy.iter()).map(|x| number(r, *x)).collect();
    // the record's own meaning is what its text says
    let gps = [f[0].parse().unwrap(), f[1].parse().unwrap(), f[2].parse().unwrap()];
    let rpy = [f[3].parse().unwrap(), f[4].parse().unwrap(), f[5].parse().unwrap()];
    let extra = *r.pick(&[24u64, 24, 24, 1, 0, 3]);
    for _ in 0..extra {
        let x = match r.below(6) {
            0 => "garbage".to_string(),
            1 => format!("{}", r.int(-9, 99)),
            _ => number(r, r.clone().f64(-10.0, 10.0)),
        };
        f.push(x);
    }
    let mut text = f.join(" ");
    if extra > 0 && r.chance(2, 3) {
        text.push_str(*r.pick(&["\n", "\n", "\n", "\r\n", "\n\n", " \n", "\n49.1 8.5 120 0.5 0.5 0.5 2\n"]));
    }
    Record { gps, rpy, text }
}

pub fn rotation_oracle(rpy: [f64; 3]) -> [[f64; 3]; 3] {
    let [(sr, cr), (sp, cp), (sy, cy)] = [rpy[0].sin_cos(), rpy[1].sin_cos(), rpy[2].sin_cos()];
    [
        [cy * cp, cy * sp * sr - sy * cr, cy * sp * cr + sy * sr],
        [sy * cp, sy * sp * sr + cy * cr, sy * sp * cr - cy * sr],
        [-sp, cp * sr, cp * cr],
    ]
}

fn check_pose(ctx: &dyn Fn() -> String, pose: &kuba::Pose3, rec: &Record, origin: Option<[f64; 3]>) -> Verdict {
    let t = pose.translation.vector;
    match origin {
        None => ensure!(t[0] == 0.0 && t[1] == 0.0 && t[2] == 0.0, "without an origin the translation must be zero, got {:?}; {}", t, ctx()),
        Some(o) => {
            let mid = ((rec.gps[0] + o[0]) / 2.0).to_radians();
            let (mn, me) = metres(mid, (rec.gps[2] + o[2]) / 2.0);
            let mut dlon = rec.gps[1] - o[1];
            if dlon > 180.0 { dlon -= 360.0 }
            if dlon < -180.0 { dlon += 360.0 }
            let want = [dlon.to_radians() * me, (rec.gps[0] - o[0]).to_radians() * mn, rec.gps[2] - o[2]];
            for i in 0..3 {
                let tol = if i < 2 { 0.01 * want[i].abs() + 0.05 } else { 0.001 + want[i].abs() * 1e-5 };
                ensure!((t[i] as f64 - want[i]).abs() <= tol, "{} displacement is {} m, true {} m; {}", ["east", "north", "up"][i], t[i], want[i], ctx());
            }
        }
    }
    let m = pose.rotation.to_rotation_matrix();
    let want = rotation_oracle(rec.rpy);
    for i in 0..3 {
        for j in 0..3 {
            let tol = 1e-5 + EPS * rec.rpy.iter().map(|x| x.abs()).sum::<f64>();
            ensure!((m[(i, j)] as f64 - want[i][j]).abs() <= tol, "rotation for roll, pitch, yaw {:?} is {:?}, must be {:?}; {}", rec.rpy, m, want, ctx());
        }
    }
    Ok(())
}

pub fn c21(cs: &mut Case) -> Verdict {
    let r = &mut cs.rng;
    let lat = match r.below(6) {
        0 => r.f64(-1.0, 1.0),
        1 => *r.pick(&[49.01, 0.0, -33.9, 79.9, -79.9, 60.0]),
        _ => r.f64(-80.0, 80.0),
    };
    let lon = match r.below(8) {
        0 => *r.pick(&[8.43, 0.0, 179.99, -179.99, 180.0]),
        _ => r.f64(-180.0, 180.0),
    };
    let alt = r.f64(-100.0, 3000.0);
    let reach = 10f64.powf(r.f64(-1.0, 3.7));
    let (mn, me) = metres(lat.to_radians(), alt);
    let p_lat = (lat + (r.f64(-reach, reach) / mn).to_degrees()).max(-80.5).min(80.5);
    let mut p_lon = lon + (r.f64(-reach, reach) / me).to_degrees();
    if p_lon > 180.0 { p_lon -= 360.0 }
    if p_lon < -180.0 { p_lon += 360.0 }
    let climb = if r.chance(1, 3) { r.f64(-1.0, 1.0) } else { r.f64(-200.0, 200.0) };
    let rec = record(r, [p_lat, p_lon, alt + climb]);
    let org = [lat, lon, alt];
    let origin = if r.chance(3, 4) { Some(org) } else { None };
    let tr = |o: [f64; 3]| na::Translation3::<f64>::new(o[0], o[1], o[2]);
    let mut text = rec.text.clone().into_bytes();
    // what is wrong with the input, if anything
    let mut bad: Option<&'static str> = None;
    match r.below(12) {
        0 => {
            // too few fields
            let s = rec.text.trim_end().split(' ').take(r.below(6) as usize).collect::<Vec<_>>().join(" ");
            text = s.into_bytes();
            bad = Some("the record has fewer than six fields");
        }
        1 | 2 => {
            let mut f: Vec<String> = rec.text.split(' ').map(|s| s.to_string()).collect();
            let k = r.below(6) as usize;
            f[k] = r.pick(&["", "abc", "1.2.3", "--1", "0x10", "1,5", "1e", ".", "12abc", "+", "1 2".split(' ').next().unwrap_or("") , "१"]).to_string();
            if f[k] == "1" {
                f[k] = "one".into();
            }
            text = f.join(" ").into_bytes();
            bad = Some("one of its first six fields is not a number");
        }
        3 => {
            let k = r.below(text.len() as u64) as usize;
            text[k] = 0xff;
            bad = Some("it is not text");
        }
        _ => {}
    }
    let fail = r.chance(1, 8);
    let mut rd = faulty(r, &text, fail);
    if fail {
        bad = Some("reading failed");
    }
    let show = String::from_utf8_lossy(&text).chars().take(160).collect::<String>();
    let got = kc!(format!("oxt_reader::read of {show:?}"), oxt_reader::read(&mut rd, origin.map(tr)));
    let ctx = || format!("record {show:?}, origin {:?}", origin);
    match (got, bad) {
        (Err(_), Some(_)) => cs.obs.count(if fail { "failing_reads_refused" } else { "malformed_records_refused" }, 1),
        (Err(e), None) => return Err(format!("refused: {e}; {}", ctx())),
        (Ok(_), Some(why)) => return Err(format!("accepted although {why}; {}", ctx())),
        (Ok((pose, o)), None) => {
            check_pose(&ctx, &pose, &rec, origin)?;
            let want = origin.unwrap_or(rec.gps);
            ensure!((0..3).all(|i| o.vector[i].to_bits() == want[i].to_bits()), "returned origin {:?}, must be {:?}; {}", o, want, ctx());
            cs.obs.count(if origin.is_some() { "poses_relative_to_an_origin" } else { "poses_without_origin" }, 1);
            cs.obs.count("crossing_the_antimeridian", ((p_lon - lon).abs() > 180.0) as u64);
            cs.obs.max("displacement_m", (0..3).map(|i| pose.translation.vector[i].abs() as f64).fold(0.0, f64::max));
        }
    }
    // the same record from a file, and from something that can only be read once
    if r.chance(1, 40) {
        let bad = if fail { bad.filter(|_| oxt_reader::read(&mut &text[..], None).is_err()) } else { bad };
        let again = |what: &str, got: std::io::Result<(kuba::Pose3, na::Translation3<f64>)>| -> Verdict {
            let want = oxt_reader::read(&mut &text[..], origin.map(tr));
            ensure!(want.is_err() == bad.is_some(), "the record read at once: success {}, in pieces: {:?}; {}", want.is_ok(), bad, ctx());
            match (got, want) {
                (Ok(a), Ok(b)) => ensure!(a == b, "{what} gives {:?}, the bytes give {:?}; {}", a, b, ctx()),
                (Err(_), Err(_)) => {}
                (a, _) => return Err(format!("{what}: success {}, from the bytes {}; {}", a.is_ok(), a.is_err(), ctx())),
            }
            Ok(())
        };
        let d = Scratch::new()?;
        let f = d.0.join("0000000000.txt");
        std::fs::write(&f, &text).expect("scratch file");
        again("a file", kc!("read_from_file", oxt_reader::read_from_file(&f, origin.map(tr))))?;
        ensure!(kc!("read_from_file", oxt_reader::read_from_file(&d.0.join("missing"), origin.map(tr))).is_err(), "a missing file was decoded");
        #[cfg(not(miri))]
        {
            let (path, _pipe) = piped(&text);
            again("a pipe", kc!("read_from_file", oxt_reader::read_from_file(&path, origin.map(tr))))?;
        }
        cs.obs.count("files_and_pipes", 1);
    }
    let mut h = Hash64::new();
    for b in text.iter().take(200) {
        h.add(*b as u64);
    }
    h.add(fail as u64).add(origin.is_some() as u64).add(lat.to_bits());
    cs.obs.sig(h.0);
    cs.obs.sample(|| ctx());
    Ok(())
}

// ------------------------------------------------------------------ C22

pub fn c22(cs: &mut Case) -> Verdict {
    let top = cs.upto(1, 200);
    let r = &mut cs.rng;
    let d = Scratch::new()?;
    let dir = d.0.join("data");
    let missing = r.chance(1, 25);
    let scans = r.chance(1, 2);
    let huge = !cfg!(miri) && r.chance(1, 400);
    let n = match r.below(10) { _ if huge => if r.chance(1, 12) { r.int(5_000, 12_000) } else { r.int(900, 2600) }, 0 => 0, 1 => 1, 2 => top, _ => r.int(0, top.min(25)) } as usize;
    if !missing {
        std::fs::create_dir(&dir).expect("scratch");
    }
    let width = if huge { 10 } else { *r.pick(&[10usize, 10, 6, 3]) };
    let first = if width < 10 { r.below(3) * 7 } else if r.chance(1, 2) { 0 } else { *r.pick(&[95u64, 990, 9_990, 99_995, 65_530, 999_999_990, 2_147_483_640, 4_294_967_290, 9_999_000_000]) };
    // a recording may have gaps
    let gap = if width == 10 && r.chance(1, 4) { if huge { 1000 } else { 4_000_000 } } else { 0 };
    let ext = if scans { "bin" } else { "txt" };
    let mut files: Vec<(String, Vec<u8>)> = vec![];
    let mut base = [r.f64(-75.0, 75.0), r.f64(-170.0, 170.0), r.f64(0.0, 500.0)];
    // simulated drives start at round places
    let round = r.chance(1, 6);
    if round {
        base = *r.pick(&[[0.0, 0.0, 0.0], [0.0, 8.0, 0.0], [49.0, 0.0, 0.0], [0.0, 0.0, 100.0]]);
    }
    let mut index = first;
    for _ in 0..n {
        let name = format!("{:0width$}.{ext}", index, width = width);
        index += 1;
        if r.chance(1, 8) && index + gap < 9_999_900_000 {
            index += r.below(gap + 1);
        }
        let body = if scans {
            let len = if !huge && r.chance(1, 60) { r.int(100, 3000) as usize * 16 } else { r.below(6) as usize * 16 };
            scan_bytes(r, len)
        } else {
            let g = if files.is_empty() && round { base } else { [base[0] + r.f64(-0.01, 0.01), base[1] + r.f64(-0.01, 0.01), base[2] + r.f64(-20.0, 20.0)] };
            record(r, g).text.into_bytes()
        };
        files.push((name, body));
    }
    // somebody kept a copy of a file beside it
    let twin = n > 0 && !huge && !missing && r.chance(1, 10);
    if twin {
        let k = r.below(n as u64) as usize;
        let (name, body) = files[k].clone();
        files.insert(k + 1, (format!("{}.{}", &name[..width], if ext < "orig" { "orig" } else { "txt~" }), body));
    }
    let n = files.len();
    // faults
    let mut faults = vec![];
    // (Miri cannot read a directory as a file)
    let kinds: &[&'static str] = if cfg!(miri) { &["truncated", "empty or garbled", "a dangling link"] } else { &["truncated", "empty or garbled", "a directory", "a dangling link"] };
    if n > 0 && !missing && r.chance(1, 2) {
        for _ in 0..1 + r.below(2) {
            let k = match r.below(4) { 0 => 0, 1 => n - 1, _ => r.below(n as u64) as usize };
            faults.push((k, *r.pick(kinds)));
        }
    }
    let mut order: Vec<usize> = (0..n).collect();
    r.shuffle(&mut order);
    let mut bad = missing;
    let links = !huge && r.chance(1, 8);
    let mut shared = vec![];
    if links && n > 1 && r.chance(1, 3) {
        shared = (0..2).map(|_| r.below(n as u64) as usize).collect();
        files[shared[1]].1 = files[shared[0]].1.clone();
    }
    if !missing {
        for &k in &order {
            let path = dir.join(&files[k].0);
            let body = &files[k].1;
            match faults.iter().find(|f| f.0 == k).map(|f| f.1) {
                // recordings are often assembled from links to where the data is
                None if links => {
                    // several may lead to the same file
                    let real = d.0.join(format!("real-{}", if shared.contains(&k) { shared[0] } else { k }));
                    std::fs::write(&real, body).expect("scratch");
                    std::os::unix::fs::symlink(&real, &path).expect("scratch");
                }
                None => std::fs::write(&path, body).expect("scratch"),
                Some(kind) => {
                    bad = true;
                    match kind {
                        "truncated" => {
                            if scans {
                                let mut b = body.clone();
                                b.push(7);
                                std::fs::write(&path, &b).expect("scratch")
                            } else {
                                let s = String::from_utf8_lossy(body).split(' ').take(4).collect::<Vec<_>>().join(" ");
                                std::fs::write(&path, s).expect("scratch")
                            }
                        }
                        "empty or garbled" => {
                            if scans { std::fs::write(&path, [1u8; 13]).expect("scratch") } else { std::fs::write(&path, b"").expect("scratch") }
                        }
                        "a directory" => std::fs::create_dir(&path).expect("scratch"),
                        _ => std::os::unix::fs::symlink(d.0.join("nowhere"), &path).expect("scratch"),
                    }
                }
            }
        }
        // remove and recreate a few, so that the file system's own order differs from creation order
        for _ in 0..r.below(4) {
            if n > 0 && faults.is_empty() {
                let k = r.below(n as u64) as usize;
                let path = dir.join(&files[k].0);
                std::fs::remove_file(&path).expect("scratch");
                std::fs::write(&path, &files[k].1).expect("scratch");
            }
        }
    }
    // the directory may be named in other ways
    let dir = match r.below(12) {
        0 if !missing => {
            std::os::unix::fs::symlink(&dir, d.0.join("link")).expect("scratch");
            d.0.join("link")
        }
        1 => d.0.join("data/"),
        2 if !missing => d.0.join("data/../data"),
        _ => dir,
    };
    let print = r.chance(1, 30) && n < 4;
    let ctx = || format!("{} {n} {ext} files, first index {first}, last {index}, width {width}, missing={missing}, faults {:?}, links {links}, printing {print}", if missing { "no directory for" } else { "directory of" }, faults);
    // the listing
    match kc!("seq_files_in_dir", kfs::seq_files_in_dir(&dir)) {
        Ok(l) => {
            ensure!(!missing, "a missing directory was listed");
            let mut names: Vec<String> = l.iter().map(|p| p.file_name().unwrap().to_string_lossy().into_owned()).collect();
            if twin {
                // (two files of one index may come in either order)
                names.sort();
            }
            ensure!(names == files.iter().map(|f| f.0.clone()).collect::<Vec<_>>(), "listing is {:?}..; {}", &names[..names.len().min(12)], ctx());
            ensure!(l.iter().all(|p| p.parent() == Some(dir.as_path())), "listed paths are not inside the directory");
        }
        Err(e) => ensure!(missing, "an existing directory was not listed: {e}"),
    }
    if scans {
        match kc!("point_cloud_reader::read_from_dir", point_cloud_reader::read_from_dir(&dir, print)) {
            Err(e) => ensure!(bad, "refused: {e}; {}", ctx()),
            Ok(l) => {
                ensure!(!bad, "{} scans were returned; {}", l.len(), ctx());
                ensure!(l.len() == n, "{} scans from {}", l.len(), ctx());
                for (k, c) in l.into_iter().enumerate() {
                    check_scan(&format!("scan {k} of {}", ctx()), Ok(c), &files[k].1, None)?;
                }
            }
        }
    } else {
        match kc!("oxt_reader::read_from_dir", oxt_reader::read_from_dir(&dir, print)) {
            Err(e) => ensure!(bad, "refused: {e}; {}", ctx()),
            Ok(l) => {
                ensure!(!bad, "{} poses were returned; {}", l.len(), ctx());
                ensure!(l.len() == n, "{} poses from {}", l.len(), ctx());
                let mut origin: Option<na::Translation3<f64>> = None;
                for (k, p) in l.iter().enumerate() {
                    let (want, o) = oxt_reader::read_from_file(&dir.join(&files[k].0), origin).map_err(|e| format!("single file {k} refused: {e}"))?;
                    if k == 0 {
                        ensure!(p.translation.vector == na::Vector3::new(0.0, 0.0, 0.0), "the first pose is at {:?}; {}", p.translation, ctx());
                        origin = Some(o);
                        // the origin is where the first file says
                        let f: Vec<f64> = String::from_utf8_lossy(&files[0].1).split(' ').take(3).map(|x| x.parse().unwrap()).collect();
                        ensure!((0..3).all(|i| o.vector[i] == f[i]), "origin {:?} is not the first record's position {:?}", o, f);
                    }
                    ensure!(*p == want, "pose {k} is {:?}, decoding its file relative to the first gives {:?}; {}", p, want, ctx());
                }
            }
        }
    }
    cs.obs.count(if missing { "missing_directories" } else if bad { "directories_with_bad_entries" } else { "good_directories" }, 1);
    cs.obs.count("files", n as u64);
    cs.obs.count("directories_with_copies_of_files", twin as u64);
    let mut h = Hash64::new();
    h.add(n as u64).add(scans as u64).add(faults.len() as u64);
    for (_, b) in files.iter().take(10) {
        h.add(b.len() as u64);
        for x in b.iter().take(40) {
            h.add(*x as u64);
        }
    }
    for k in &order {
        h.add(*k as u64);
    }
    if n > 1 || bad {
        cs.obs.sig(h.0);
    }
    cs.obs.sample(|| ctx());
    Ok(())
}

// ------------------------------------------------------------------ C27

/// A bound `base + rate * size` on what a call may cost: executed edges, most bytes held at once, bytes asked for in all.
/// The rates are about ten times what the unchanged library needs (its maxima are in the evidence): a rewrite that
/// does the same work stays below them, work or memory that goes with something else does not.
pub struct Limits {
    name: [&'static str; 3],
    steps: (f64, f64),
    peak: (f64, f64),
    asked: (f64, f64),
}
impl Limits {
    pub const RAY: Limits = Limits { name: ["ray_steps", "ray_peak", "ray_asked"], steps: (20000.0, 350.0), peak: (4096.0, 16.0), asked: (8192.0, 40.0) };
    pub const SCAN: Limits = Limits { name: ["scan_steps", "scan_peak", "scan_asked"], steps: (80000.0, 1400.0), peak: (8192.0, 40.0), asked: (8192.0, 40.0) };
    pub const CELL: Limits = Limits { name: ["cell_steps", "cell_peak", "cell_asked"], steps: (5000.0, 0.0), peak: (4096.0, 0.0), asked: (8192.0, 0.0) };
    pub const RECORD: Limits = Limits { name: ["record_steps", "record_peak", "record_asked"], steps: (10000.0, 120.0), peak: (4096.0, 8.0), asked: (8192.0, 30.0) };
    pub const GROW: Limits = Limits { name: ["grow_steps", "grow_peak", "grow_asked"], steps: (20000.0, 60.0), peak: (8192.0, 8.0), asked: (8192.0, 8.0) };
    pub const INTEGRATE: Limits = Limits { name: ["integrate_steps", "integrate_peak", "integrate_asked"], steps: (100000.0, 1700.0), peak: (16384.0, 40.0), asked: (16384.0, 60.0) };
    pub const KEPT: Limits = Limits { name: ["kept_steps", "kept_bytes", "kept_asked"], steps: (0.0, 0.0), peak: (8192.0, 16.0), asked: (0.0, 0.0) };
    pub const CLOUD: Limits = Limits { name: ["cloud_steps", "cloud_peak", "cloud_asked"], steps: (20000.0, 300.0), peak: (4096.0, 16.0), asked: (8192.0, 40.0) };
    pub const LIST: Limits = Limits { name: ["list_steps", "list_peak", "list_asked"], steps: (20000.0, 60.0), peak: (131072.0, 20.0), asked: (131072.0, 40.0) };
    pub const READ: Limits = Limits { name: ["read_steps", "read_peak", "read_asked"], steps: (20000.0, 120.0), peak: (16384.0, 50.0), asked: (32768.0, 80.0) };

    /// `units`: what steps go with; `held`, `in_all`: bytes that the inputs and results take.
    pub fn judge(&self, obs: &mut Obs, c: Cost, units: f64, held: f64, in_all: f64, ctx: &dyn Fn() -> String) -> Verdict {
        obs.count("costs_judged", 1);
        for (k, (got, size, (base, rate), what)) in [(c.steps, units, self.steps, "steps of execution"), (c.peak, held, self.peak, "bytes held at once"), (c.asked, in_all, self.asked, "bytes asked for")].iter().enumerate() {
            let most = base + rate * size;
            ensure!(*got as f64 <= most, "{got} {what}, where {most:.0} would be plenty: {}", ctx());
            obs.max(self.name[k], *got as f64 / most);
        }
        Ok(())
    }
}

/// A reader that hands out a few bytes at a time.
struct Slow<'a>(&'a [u8], usize);
impl Read for Slow<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let n = self.1.min(buf.len()).min(self.0.len());
        buf[..n].copy_from_slice(&self.0[..n]);
        self.0 = &self.0[n..];
        Ok(n)
    }
}

pub fn c27_transform(cs: &mut Case) -> Verdict {
    let n = 10f64.powf(4.5 * cs.size * cs.rng.f64(0.2, 1.0)) as usize;
    let r = &mut cs.rng;
    let pts: Vec<_> = (0..n).map(|_| kuba::Point3::new(r.f32(-50.0, 50.0), r.f32(-50.0, 50.0), r.f32(-50.0, 50.0))).collect();
    let cloud = kuba::PointCloud3::from_points(&pts);
    let pose = kuba::Pose3::new(kuba::Vector3::new(r.f32(-9.0, 9.0), 1.0, 2.0), kuba::Vector3::new(0.1, r.f32(-1.0, 1.0), 0.3));
    kc!("transform", gas 20_000_000_000, cloud.transform(&pose.to_homogeneous()));
    let bytes = 16.0 * n as f64;
    Limits::CLOUD.judge(cs.obs, last_cost(), n as f64, bytes, bytes, &|| format!("transform of {n} points"))?;
    cs.obs.count("transforms", 1);
    Ok(())
}

pub fn c27_readers(cs: &mut Case) -> Verdict {
    let n = 10f64.powf(0.5 + 4.3 * cs.size * cs.rng.f64(0.2, 1.0)) as usize;
    let r = &mut cs.rng;
    let mut h = Hash64::new();
    // a scan, in chunks of any size
    let bytes: Vec<u8> = (0..n * 16 + if r.chance(1, 5) { r.below(16) as usize } else { 0 }).map(|_| r.u64() as u8).collect();
    let chunk = *r.pick(&[1usize, 3, 64, 4096, usize::MAX]);
    let len = bytes.len() as f64;
    let ok = kc!("point_cloud_reader::read", gas 20_000_000_000, kuba::kitti::point_cloud_reader::read(&mut Slow(&bytes, chunk)).is_ok());
    Limits::READ.judge(cs.obs, last_cost(), len, len, len, &|| format!("point_cloud_reader::read of {len} bytes in chunks of {chunk}"))?;
    ensure!(ok == (bytes.len() % 16 == 0), "{len} bytes: read {}", ok);
    // a record with any number of further fields
    let mut text = String::from("49.0 8.4 112.8 0.01 0.02 0.3");
    for _ in 0..n {
        text.push_str(" 1.25");
    }
    let len = text.len() as f64;
    let ok = kc!("oxt_reader::read", gas 20_000_000_000, kuba::kitti::oxt_reader::read(&mut Slow(text.as_bytes(), chunk), None).is_ok());
    Limits::READ.judge(cs.obs, last_cost(), len, len, len, &|| format!("oxt_reader::read of {len} bytes in chunks of {chunk}"))?;
    ensure!(ok, "a record of {n} further fields is refused");
    h.add(len as u64).add(chunk as u64).add(bytes.len() as u64);
    // directories: the sum of their files
    if r.chance(1, 4) {
        let d = Scratch::new()?;
        let (files, each) = (r.int(0, 1 + (150.0 * cs.size) as i64), r.int(0, 1 + (400.0 * cs.size) as i64) as usize);
        let scans = r.chance(1, 2);
        let mut sum = 0.0;
        for k in 0..files {
            let body = if scans { vec![r.u64() as u8 & 0x3f; 16 * each] } else { (text[..28].to_string() + &" 0".repeat(each)).into_bytes() };
            sum += body.len() as f64 + 512.0;
            std::fs::write(d.0.join(format!("{k:010}.x")), body).expect("scratch");
        }
        let ok = if scans {
            kc!("read_from_dir", gas 20_000_000_000, kuba::kitti::point_cloud_reader::read_from_dir(&d.0, false).map_or(false, |v| v.len() as i64 == files))
        } else {
            kc!("read_from_dir", gas 20_000_000_000, kuba::kitti::oxt_reader::read_from_dir(&d.0, false).map_or(false, |v| v.len() as i64 == files))
        };
        let c = last_cost();
        ensure!(ok, "{files} files are not all read");
        Limits::READ.judge(cs.obs, c, sum, sum, sum, &|| format!("read_from_dir of {files} files of {each} points or fields, {sum} bytes in all"))?;
        cs.obs.count("directories", 1);
        h.add(files as u64).add(each as u64);
    }
    // a long recording is listed in little more time per file than a short one
    if !cfg!(miri) && r.chance(1, 30) {
        let d = Scratch::new()?;
        let files = r.int(0, 1 + (3000.0 * cs.size) as i64);
        let mut order: Vec<i64> = (0..files).collect();
        r.shuffle(&mut order);
        for k in order {
            std::fs::write(d.0.join(format!("{k:010}.x")), b"").expect("scratch");
        }
        let got = kc!("seq_files_in_dir", kuba::kitti::fs::seq_files_in_dir(&d.0).map_or(-1, |l| l.len() as i64));
        let c = last_cost();
        ensure!(got == files, "{got} of {files} files are listed");
        let bytes = files as f64 * (24.0 + 12.0 + d.0.as_os_str().len() as f64);
        Limits::LIST.judge(cs.obs, c, files as f64 * (files as f64 + 2.0).log2(), bytes, bytes, &|| format!("seq_files_in_dir of {files} files"))?;
        cs.obs.count("long_listings", 1);
        h.add(files as u64);
    }
    cs.obs.sig(h.0);
    Ok(())
}
