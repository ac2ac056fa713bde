//! C24, C25: the visualiser's own program, linked against a recording stand-in for kiss3d (see /verif/vizmon), run on
//! generated recordings under injected delays; its frame log is judged here, offline.
use crate::c_misc::Scratch;
use crate::core::*;
use crate::{ensure, kc};
use kuba::GridMap;
use nalgebra as na;
use std::collections::{BTreeSet, HashMap};
use std::path::Path;

const RES: f64 = kuba::map::grid_map::DEFAULT_RESOLUTION as f64;

struct Recording {
    poses: Vec<kuba::Pose3>,
    clouds: Vec<kuba::PointCloud3>,
    about: String,
}

/// Writes a recording (OXTS and velodyne files) and reads it back with the library, as the visualiser does.
fn recording(cs: &mut Case, dir: &Path) -> Result<Recording, String> {
    let n = cs.upto(1, 7).max(1);
    let r = &mut cs.rng;
    // most recordings are small; some have wide scans of many points (maps of many tiles), some have many scans
    let class = r.below(12);
    let (wide, long) = (class == 0 && cs.size > 0.1, class == 1 && cs.size > 0.1);
    let n = if long { r.int(8, 40) } else if wide { r.int(1, 4) } else { r.int(1, n) } as usize;
    let (reach, height) = if wide { (r.f64(8.0, 26.0), r.f64(0.5, 4.0)) } else { (5.0, 2.0) };
    let most = if wide { r.int(100, 1500) } else if long { 6 } else { 25 };
    let oxts = dir.join("oxts/data");
    let velo = dir.join("velodyne_points/data");
    std::fs::create_dir_all(&oxts).expect("scratch");
    std::fs::create_dir_all(&velo).expect("scratch");
    let base = [r.f64(-60.0, 60.0), r.f64(-170.0, 170.0), r.f64(-50.0, 500.0)];
    // a vehicle's path in metres; scenes are built in the world so that several scans see the same cells
    let style = r.below(5);
    let mut at = [0.0f64; 3];
    let step = *r.pick(&[0.0, 0.3, 1.0, 3.0]);
    let dir_v = [r.f64(-1.0, 1.0), r.f64(-1.0, 1.0), r.f64(-0.4, 0.4)];
    let scene: Vec<[f64; 3]> = (0..r.int(3, most.max(5))).map(|_| [r.f64(-reach, reach), r.f64(-reach, reach), r.f64(-height, height)]).collect();
    let one_side = r.chance(1, 2);
    let mut names: Vec<usize> = (0..n).collect();
    r.shuffle(&mut names);
    let mut bodies = vec![];
    for k in 0..n {
        if k > 0 {
            for i in 0..3 {
                at[i] += match style {
                    0 => 0.0,
                    1 => step * dir_v[i],
                    2 => -step * dir_v[i].abs(),
                    3 => step * r.f64(-1.0, 1.0),
                    _ => if k % 2 == 0 { step * 2.0 * dir_v[i] } else { -step * 3.0 * dir_v[i] },
                };
                at[i] = at[i].max(-12.0).min(12.0);
            }
        }
        let rpy = if r.chance(1, 3) { [0.0; 3] } else { [r.f64(-0.2, 0.2), r.f64(-0.2, 0.2), r.f64(-3.1, 3.1)] };
        let lat = base[0] + at[1] / 111_133.0;
        let lon = base[1] + at[0] / (111_320.0 * base[0].to_radians().cos());
        let text = format!("{:.12} {:.12} {:.6} {:.6} {:.6} {:.6} 0 0 0 0 0 0 0 0 0 0 0 0 0 0 0 0 0 0 0.01 0.02 4 10 4 4\n", lat, lon, base[2] + at[2], rpy[0], rpy[1], rpy[2]);
        let rot = na::Rotation3::<f64>::from_euler_angles(rpy[0], rpy[1], rpy[2]);
        let mut body: Vec<u8> = vec![];
        let count = if r.chance(1, 8) { 0 } else { r.int(if wide { most / 2 } else { 1 }, most) };
        for _ in 0..count {
            let mut w = match r.below(8) {
                0 => [at[0] + r.f64(-4.0, 4.0), at[1] + r.f64(-4.0, 4.0), at[2] + r.f64(-2.0, 2.0)],
                1 => at,
                _ => {
                    let s = *r.pick(&scene);
                    // a little behind or in front, so that later rays pass through earlier hits
                    let q = *r.pick(&[1.0, 1.0, 1.0, 1.15, 0.85]);
                    [s[0] * q, s[1] * q, s[2] * q]
                }
            };
            if one_side && k == 0 {
                for x in w.iter_mut() {
                    *x = x.abs() + 0.2;
                }
            }
            let local = rot.inverse() * na::Vector3::new(w[0] - at[0], w[1] - at[1], w[2] - at[2]);
            for i in 0..3 {
                body.extend_from_slice(&(local[i] as f32).to_ne_bytes());
            }
            body.extend_from_slice(&0.5f32.to_ne_bytes());
        }
        bodies.push((text, body));
    }
    for k in names {
        std::fs::write(oxts.join(format!("{k:010}.txt")), &bodies[k].0).expect("scratch");
        std::fs::write(velo.join(format!("{k:010}.bin")), &bodies[k].1).expect("scratch");
    }
    let poses = kc!("oxt_reader::read_from_dir", kuba::kitti::oxt_reader::read_from_dir(&oxts, false)).map_err(|e| format!("poses refused: {e}"))?;
    let raw = kc!("point_cloud_reader::read_from_dir", kuba::kitti::point_cloud_reader::read_from_dir(&velo, false)).map_err(|e| format!("scans refused: {e}"))?;
    ensure!(poses.len() == n && raw.len() == n, "{n} files per kind were read as {} poses and {} scans", poses.len(), raw.len());
    let mut clouds = vec![];
    for (c, p) in raw.into_iter().zip(&poses) {
        clouds.push(kc!("PointCloud::transform", c.transform(&p.to_homogeneous())));
    }
    let about = format!("recording of {n} scans with {:?} points", clouds.iter().map(|c| c.data.ncols()).collect::<Vec<_>>());
    Ok(Recording { poses, clouds, about })
}

fn absolute(p: &kuba::Point3) -> [i64; 3] {
    [0, 1, 2].map(|i| (p[i] as f64 / RES).round() as i64)
}

type Cells = BTreeSet<[i64; 3]>;

/// What must be drawn after each number of integrated scans: from the whole map (C24), or from the library's own
/// change records taken in sequence (C25, where only the hand-over is judged).
fn expected(rec: &Recording, steps: usize, from_changes: bool) -> Result<Vec<Cells>, String> {
    let mut map = kc!("LidarOccupancyGridMap3::default", kuba::LidarOccupancyGridMap3::default());
    let mut out = vec![Cells::new()];
    let mut tracked = Cells::new();
    for k in 0..steps {
        let origin = kuba::Point3::from(rec.poses[k % rec.poses.len()].translation.vector);
        let cloud = &rec.clouds[k % rec.clouds.len()];
        if from_changes {
            map.set_track_changes(true);
        }
        kc!("integrate_point_cloud", map.integrate_point_cloud(&origin, cloud));
        if from_changes {
            for c in kc!("changed_cells", map.changed_cells()) {
                let at = absolute(&kc!("point_from_cell", map.point_from_cell(&c)));
                if kc!("occupied", map.occupied(&c)) {
                    tracked.insert(at);
                } else {
                    tracked.remove(&at);
                }
            }
            map.clear_changed_cells();
            map.set_track_changes(false);
            out.push(tracked.clone());
        } else {
            let unknown = 0.0f32;
            let mut now = Cells::new();
            let data = &map.grid_map.data;
            let (ny, nz) = (data.shape()[1], data.shape()[2]);
            let flat: std::borrow::Cow<[f32]> = match data.as_slice() {
                Some(s) => s.into(),
                None => data.iter().cloned().collect::<Vec<f32>>().into(),
            };
            for i in (0..flat.len()).filter(|i| flat[*i] != unknown) {
                let c = kuba::Cell3::new((i / (ny * nz)) as isize, (i / nz % ny) as isize, (i % nz) as isize);
                if kc!("occupied", map.occupied(&c)) {
                    now.insert(absolute(&kc!("point_from_cell", map.point_from_cell(&c))));
                }
            }
            out.push(now);
        }
    }
    Ok(out)
}

struct Frame {
    number: u64,
    us: u64,
    repeats: u64,
    lines: Vec<[f32; 9]>,
    points: Vec<[f32; 3]>,
}

#[derive(Default)]
struct Log {
    frames: Vec<Frame>,
    panics: Vec<String>,
    stuck: bool,
    end: Option<(String, u64, u64)>,
}

fn parse(text: &str) -> Log {
    let mut l = Log::default();
    for line in text.lines() {
        let mut w = line.split(' ');
        let tag = w.next().unwrap_or("");
        let hex = |w: std::str::Split<char>| -> Vec<f32> { w.filter_map(|x| u32::from_str_radix(x, 16).ok()).map(f32::from_bits).collect() };
        match tag {
            "C" => {
                let v: Vec<u64> = w.filter_map(|x| x.parse().ok()).collect();
                l.frames.push(Frame { number: v[0], us: v[1], repeats: 1, lines: vec![], points: vec![] });
            }
            "N" => {
                if let (Some(f), Some(n)) = (l.frames.last_mut(), w.next().and_then(|x| x.parse().ok())) {
                    f.repeats = n;
                }
            }
            "L" => {
                let v = hex(w);
                if v.len() == 9 {
                    let mut a = [0.0; 9];
                    a.copy_from_slice(&v);
                    l.frames.last_mut().map(|f| f.lines.push(a));
                }
            }
            "Q" => {
                let v = hex(w);
                if v.len() == 3 {
                    l.frames.last_mut().map(|f| f.points.push([v[0], v[1], v[2]]));
                }
            }
            "PANIC" => l.panics.push(line[6..].to_string()),
            "STUCK" => l.stuck = true,
            "END" => {
                let v: Vec<&str> = w.collect();
                l.end = Some((v[0].to_string(), v[1].parse().unwrap_or(0), v[2].parse().unwrap_or(0)));
            }
            _ => {}
        }
    }
    l
}

/// The pose is shown by three lines from its position along its x (red), y (green) and z (blue) axis.
fn shows(lines: &[[f32; 9]], pose: &kuba::Pose3) -> bool {
    if lines.len() != 3 {
        return false;
    }
    let o = pose.translation.vector;
    let m = pose.rotation.to_rotation_matrix();
    (0..3).all(|axis| {
        lines.iter().any(|l| {
            let colour = [l[6], l[7], l[8]];
            let main = (0..3).all(|j| j == axis || colour[j] < colour[axis]);
            let d = [l[3] - l[0], l[4] - l[1], l[5] - l[2]];
            let len = (d[0] * d[0] + d[1] * d[1] + d[2] * d[2]).sqrt();
            let tol = 1e-4 * (1.0 + o.norm());
            main && len > 1e-3
                && (0..3).all(|i| (l[i] - o[i]).abs() <= tol)
                && (0..3).all(|i| (d[i] / len - m[(i, axis)]).abs() <= tol / len + 1e-4)
        })
    })
}

struct Schedule {
    pace: (u64, u64),
    mode: u64, // 0: no delays, 1: delays at rare edges, 2: one long sleep per integration
    slow_us: u64,
    rare: u64,
    seed: u64,
    name: &'static str,
}

fn schedule(r: &mut Rng, slow_ok: bool) -> Schedule {
    let pace = *r.pick(&[(0, 0), (0, 0), (0, 200), (50, 1500), (500, 4000)]);
    let seed = r.u64() >> 1;
    match r.below(10) {
        0 => Schedule { pace: (8000, 12000), mode: 0, slow_us: 0, rare: 0, seed, name: "calm" },
        1 | 2 => Schedule { pace, mode: 0, slow_us: 0, rare: 0, seed, name: "undelayed" },
        3 if slow_ok => Schedule { pace: (500, 2000), mode: 2, slow_us: 60_000, rare: 0, seed, name: "slow_integration" },
        _ => Schedule { pace, mode: 1, slow_us: 0, rare: *r.pick(&[10, 40, 200, 2000]), seed, name: "delays_at_rare_edges" },
    }
}

struct Run {
    log: Log,
    status: String,
    ok: bool,
    said: String,
    tsan: Option<String>,
}

fn run(bin: &str, data: &Path, scratch: &Path, s: &Schedule, target: u64, wall_ms: u64) -> Result<Run, String> {
    run_in(bin, data, scratch, Path::new("/"), s, target, wall_ms)
}
fn run_in(bin: &str, data: &Path, scratch: &Path, cwd: &Path, s: &Schedule, target: u64, wall_ms: u64) -> Result<Run, String> {
    let log = scratch.join("frames.log");
    let err = scratch.join("stderr.log");
    let out = scratch.join("stdout.log");
    let file = |p: &Path| std::fs::File::create(p).expect("scratch");
    let stall = 45_000u64;
    let mut child = std::process::Command::new(bin)
        .arg(data)
        .current_dir(cwd)
        .env("VIZMON_LOG", &log)
        .env("VIZMON_TARGET", target.to_string())
        .env("VIZMON_WALL_MS", wall_ms.to_string())
        .env("VIZMON_STALL_MS", stall.to_string())
        .env("VIZMON_PACE", format!("{},{}", s.pace.0, s.pace.1))
        .env("VIZMON_DELAY", format!("{},{},{},{}", s.mode, s.seed, s.slow_us, s.rare))
        .env("TSAN_OPTIONS", "exitcode=66:halt_on_error=0:report_thread_leaks=0")
        .env_remove("RUST_BACKTRACE")
        .stdin(std::process::Stdio::null())
        .stdout(file(&out))
        .stderr(file(&err))
        .spawn()
        .map_err(|e| format!("HARNESS cannot start {bin}: {e}"))?;
    let start = std::time::Instant::now();
    let status = loop {
        match child.try_wait() {
            Ok(Some(s)) => break Some(s),
            Ok(None) if start.elapsed().as_secs() > 150 => {
                let _ = child.kill();
                let _ = child.wait();
                break None;
            }
            _ => std::thread::sleep(std::time::Duration::from_millis(2)),
        }
    };
    let text = std::fs::read_to_string(&log).unwrap_or_default();
    let stderr = String::from_utf8_lossy(&std::fs::read(&err).unwrap_or_default()).into_owned();
    let tsan = stderr.find("WARNING: ThreadSanitizer").map(|i| stderr[i..].chars().take(3000).collect());
    Ok(Run {
        log: parse(&text),
        ok: status.map_or(false, |s| s.success()),
        said: format!("{}{}", String::from_utf8_lossy(&std::fs::read(&out).unwrap_or_default()), stderr),
        status: match status {
            Some(s) => format!("{s}; stderr: {}", stderr.chars().take(400).collect::<String>()),
            None => "killed after 150 s".into(),
        },
        tsan,
    })
}

/// Follows every number of integrated scans the program can be at, frame by frame.
fn judge_frames(cs: &mut Case, rec: &Recording, want: &[Cells], log: &Log, target: u64, open_ended: bool, judge_marker: bool, ctx: &dyn Fn() -> String) -> Verdict {
    let n = rec.poses.len();
    let mut index: HashMap<Vec<[i64; 3]>, Vec<usize>> = HashMap::new();
    for (k, c) in want.iter().enumerate() {
        index.entry(c.iter().cloned().collect()).or_default().push(k);
    }
    let mut at: Option<BTreeSet<usize>> = None;
    for f in &log.frames {
        let mut cells: Vec<[i64; 3]> = vec![];
        for p in &f.points {
            let c = absolute(&kuba::Point3::new(p[0], p[1], p[2]));
            for i in 0..3 {
                let off = p[i] as f64 - c[i] as f64 * RES;
                ensure!(off.abs() <= 0.01 * RES + 1e-5 * p[i].abs() as f64, "frame {} draws a point at {:?}, which is not the centre of a cell; {}", f.number, p, ctx());
            }
            cells.push(c);
        }
        cells.sort();
        let allowed: BTreeSet<usize> = match &at {
            None => [0usize, 1].into_iter().collect(),
            Some(s) => s.iter().flat_map(|k| [*k, *k + 1]).collect(),
        };
        let same = index.get(&cells).cloned().unwrap_or_default();
        let mut next: BTreeSet<usize> = same.iter().cloned().filter(|k| allowed.contains(k)).collect();
        if next.is_empty() {
            let k = allowed.iter().next_back().cloned().unwrap_or(0).min(want.len() - 1);
            let have: BTreeSet<_> = cells.iter().cloned().collect();
            let extra: Vec<_> = have.difference(&want[k]).take(3).collect();
            let missing: Vec<_> = want[k].difference(&have).take(3).collect();
            return Err(format!(
                "frame {} (repeated {} times) draws {} points ({} distinct): not the occupied cells after {:?} scans, the only numbers possible here{}; compared with {k} scans: too many {extra:?}, missing {missing:?} (cell numbers from the world origin); {}",
                f.number, f.repeats, cells.len(), have.len(), allowed,
                if same.is_empty() { String::new() } else { format!(" (it is what {same:?} scans give)") }, ctx()
            ));
        }
        if judge_marker {
            let marked: BTreeSet<usize> = next.iter().cloned().filter(|k| shows(&f.lines, &rec.poses[(k + 1) % n])).collect();
            if marked.is_empty() {
                let shown: Vec<usize> = (0..n).filter(|i| shows(&f.lines, &rec.poses[*i])).collect();
                return Err(format!(
                    "frame {} draws {} marker lines showing the pose of scan(s) {shown:?}, must show that of the scan after the one in integration, {:?} (numbers of integrated scans possible here: {:?}); {}",
                    f.number, f.lines.len(), next.iter().map(|k| (k + 1) % n).collect::<Vec<_>>(), next, ctx()
                ));
            }
            next = marked;
        }
        // a content that repeats may have gone through several equal prefixes
        if f.repeats > 1 {
            let mut grown = next.clone();
            for _ in 1..f.repeats.min(want.len() as u64) {
                let more: BTreeSet<usize> = grown.iter().flat_map(|k| [*k, *k + 1])
                    .filter(|k| same.contains(k) && (!judge_marker || shows(&f.lines, &rec.poses[(k + 1) % n]))).collect();
                if more.len() == grown.len() {
                    break;
                }
                grown = more;
            }
            next = grown;
        }
        let last = next.iter().next_back().cloned();
        at = Some(next);
        cs.obs.count("frames_judged", f.repeats);
        cs.obs.count("points_judged", f.points.len() as u64);
        if open_ended && last == Some(want.len() - 1) {
            // more scans than computed may have been integrated from here on
            break;
        }
    }
    let reached = at.as_ref().and_then(|s| s.iter().next_back().cloned()).unwrap_or(0);
    ensure!(reached as u64 >= target, "after all frames at most {reached} scans can have been integrated, the program was to show {target}; {}", ctx());
    cs.obs.count("scans_shown", reached as u64);
    Ok(())
}

fn viz_case(cs: &mut Case, schedule_only: bool) -> Verdict {
    let d = Scratch::new()?;
    let data = d.0.join("recording");
    let rec = recording(cs, &data)?;
    let n = rec.poses.len();
    let r = &mut cs.rng;
    let mut env = std::env::var("KMON_VIZ").map_err(|_| "HARNESS KMON_VIZ is not set")?;
    let mut tsan = false;
    if schedule_only && r.chance(1, 2) {
        if let Ok(t) = std::env::var("KMON_VIZ_TSAN") {
            env = t;
            tsan = true;
        }
    }
    // the number of scans to wait for is observable only if consecutive poses differ
    let moving = (0..n).all(|i| rec.poses[i] != rec.poses[(i + 1) % n]);
    let target = if moving { r.int(2, 3 * n as i64 + 2).min(if n >= 8 { n as i64 + 8 } else { 14 }) as u64 } else { 0 };
    let s = schedule(r, schedule_only && moving && rec.clouds.iter().all(|c| c.data.ncols() >= 3));
    let run = run(&env, &data, &d.0, &s, target, 150)?;
    let log = &run.log;
    let ctx = || format!("{}, schedule {} (pace {:?} us, rare-edge limit {}, delay seed {}){}", rec.about, s.name, s.pace, s.rare, s.seed, if tsan { ", thread sanitizer build" } else { "" });
    let delays = log.end.as_ref().map_or(0, |e| e.2);
    if schedule_only {
        if let Some(t) = &run.tsan {
            return Err(format!("data race: {t}; {}", ctx()));
        }
        ensure!(log.panics.is_empty(), "a thread panicked: {}; {}", log.panics[0], ctx());
        ensure!(!log.stuck, "the render loop produced no frame for 45 s (after frame {}); {}", log.frames.last().map_or(0, |f| f.number + f.repeats - 1), ctx());
    }
    ensure!(!log.frames.is_empty(), "the visualiser drew no frame: {}; {}", run.status, ctx());
    let frames: u64 = log.frames.iter().map(|f| f.repeats).sum();
    let steps = if target > 0 { target as usize + 2 } else { 24 };
    let want = expected(&rec, steps, schedule_only)?;
    judge_frames(cs, &rec, &want, log, if run.ok { target } else { 0 }, target == 0, !schedule_only, &ctx)?;
    let ended = log.end.as_ref().map(|e| e.0.as_str()).unwrap_or("nothing");
    ensure!(run.ok && (ended == "target" || ended == "time"), "the visualiser stopped showing further scans ({ended}; {}; last change at frame {}, {} us); {}",
        run.status, log.frames.last().unwrap().number, log.frames.last().unwrap().us, ctx());
    if s.mode == 2 {
        // while an integration sleeps for 60 ms the render loop (pace <= 2 ms) must go on
        let whole = &log.frames[1..log.frames.len() - 1];
        let blocked = whole.iter().filter(|f| f.repeats < 2).count();
        ensure!(whole.len() < 2 || blocked * 2 <= whole.len(), "the render loop waits for integrations: {blocked} of {} integrations of 60 ms each saw no second frame; {}", whole.len(), ctx());
        cs.obs.count("slow_integrations_with_frames_meanwhile", (whole.len() - blocked) as u64);
    }
    cs.obs.count(s.name, 1);
    cs.obs.count("runs_with_wide_scans", rec.clouds.iter().any(|c| c.data.ncols() > 50) as u64);
    cs.obs.count("runs_with_many_scans", (n >= 8) as u64);
    cs.obs.count("injected_delays", delays);
    cs.obs.count("runs_of_the_thread_sanitizer_build", tsan as u64);
    cs.obs.count("runs_over_more_than_one_cycle", (target > n as u64) as u64);
    // the interleaving seen: how many frames each hand-over took
    let mut h = Hash64::new();
    for f in &log.frames {
        h.add(f.repeats.min(50)).add(f.points.len() as u64);
    }
    h.add(n as u64);
    if log.frames.len() > 1 {
        cs.obs.sig(h.0);
    }
    cs.obs.sample(|| format!("{}: {} frames, repeats {:?}", ctx(), frames, log.frames.iter().map(|f| f.repeats).take(20).collect::<Vec<_>>()));
    Ok(())
}

pub fn c24(cs: &mut Case) -> Verdict {
    viz_case(cs, false)
}
pub fn c25(cs: &mut Case) -> Verdict {
    viz_case(cs, true)
}

/// C29: what is not a complete recording is not shown at all; what is one is shown however its folder is named.
pub fn c29(cs: &mut Case) -> Verdict {
    let d = Scratch::new()?;
    let data = d.0.join("recording");
    let rec = recording(cs, &data)?;
    let n = rec.poses.len();
    let r = &mut cs.rng;
    let bin = std::env::var("KMON_VIZ").map_err(|_| "HARNESS KMON_VIZ is not set")?;
    let oxts = data.join("oxts/data");
    let velo = data.join("velodyne_points/data");
    let ok = |x: std::io::Result<()>| x.expect("scratch");
    // what lies beside the data in a real recording is not part of it
    if r.chance(1, 2) {
        ok(std::fs::write(data.join("oxts/timestamps.txt"), "2011-09-26 13:02:25.594360375\n"));
        ok(std::fs::write(data.join("velodyne_points/timestamps_start.txt"), "2011-09-26 13:02:25.594360375\n"));
        ok(std::fs::create_dir_all(data.join("image_00/data")));
        ok(std::fs::write(data.join("image_00/data/0000000000.png"), [0x89, b'P', b'N', b'G']));
        cs.obs.count("recordings_with_other_material", 1);
    }
    let k = r.below(n as u64) as usize;
    let (pose, scan) = (oxts.join(format!("{k:010}.txt")), velo.join(format!("{k:010}.bin")));
    let next = format!("{n:010}");
    let mut arg = data.clone();
    let mut cwd = std::path::PathBuf::from("/");
    let fault = match r.below(23) {
        0 => { arg = d.0.join("elsewhere"); Some("a folder that does not exist") }
        1 => { arg = pose.clone(); Some("a file in place of the folder") }
        2 => { ok(std::fs::remove_dir_all(data.join("oxts"))); Some("no poses' folder") }
        3 => { ok(std::fs::remove_dir_all(&velo)); Some("no scans' folder") }
        4 => { ok(std::fs::remove_file(&pose)); Some("a pose less than scans") }
        5 => { ok(std::fs::remove_file(&scan)); Some("a scan less than poses") }
        6 => { ok(std::fs::copy(&pose, oxts.join(next + ".txt")).map(|_| ())); Some("a pose more than scans") }
        7 => { ok(std::fs::copy(&scan, velo.join(next + ".bin")).map(|_| ())); Some("a scan more than poses") }
        8 => { ok(std::fs::write(&pose, "49.0 8.4 x 0 0 0 0\n")); Some("a pose that is not numbers") }
        9 => { ok(std::fs::write(&pose, r.pick(&["", "49.0 8.4", "\n"]))); Some("a pose of too few numbers") }
        10 => {
            let mut b = std::fs::read(&scan).expect("scratch");
            b.extend_from_slice(&[0; 16][..r.int(1, 15) as usize]);
            ok(std::fs::write(&scan, b));
            Some("a scan of a ragged length")
        }
        11 => { ok(std::fs::create_dir(velo.join(next))); ok(std::fs::copy(&pose, oxts.join("z.txt")).map(|_| ())); Some("a scan that is a folder") }
        12 => { ok(std::fs::remove_file(&pose)); ok(std::os::unix::fs::symlink(d.0.join("nothing"), &pose)); Some("a pose that is a dangling link") }
        13 => { ok(std::fs::remove_dir_all(&data)); ok(std::fs::create_dir(&data)); Some("an empty folder") }
        14 => { let l = d.0.join("link"); ok(std::os::unix::fs::symlink(&data, &l)); arg = l; None }
        15 => { cwd = d.0.clone(); arg = "recording".into(); None }
        16 => { cwd = data.clone(); arg = ".".into(); None }
        17 => { arg = format!("{}/../recording/", data.display()).into(); None }
        18 => {
            // the parts lie somewhere else
            let (a, b) = (d.0.join("a"), d.0.join("b"));
            ok(std::fs::rename(&oxts, &a));
            ok(std::os::unix::fs::symlink(&a, &oxts));
            ok(std::fs::rename(data.join("velodyne_points"), &b));
            ok(std::os::unix::fs::symlink("../b", data.join("velodyne_points")));
            None
        }
        19 => { arg = d.0.clone(); Some("the folder the recording lies in") }
        20 | 21 => {
            // one folder (or two) further down, all of it or one part of it
            let inner = data.join(r.pick(&["2011_09_26", "2011_09_26/2011_09_26_drive_0001_sync", "data"]));
            ok(std::fs::create_dir_all(&inner));
            let which = r.below(4);
            if which != 1 { ok(std::fs::rename(data.join("oxts"), inner.join("oxts"))); }
            if which != 2 { ok(std::fs::rename(data.join("velodyne_points"), inner.join("velodyne_points"))); }
            Some("parts of the recording in other folders")
        }
        _ => None,
    };
    let s = Schedule { pace: (0, 200), mode: 0, slow_us: 0, rare: 0, seed: 1, name: "undelayed" };
    let moving = (0..n).all(|i| rec.poses[i] != rec.poses[(i + 1) % n]);
    let target = if fault.is_none() && moving { r.int(1, n as i64 + 1) as u64 } else { 0 };
    let run = run_in(&bin, &arg, &d.0, &cwd, &s, target, 60)?;
    let log = &run.log;
    let ctx = || format!("{}, {}, pair {k}, started in {:?} with {:?}", rec.about, fault.unwrap_or("complete"), cwd, arg);
    let mut h = Hash64::new();
    h.add(fault.map_or(99, |f| f.len() as u64)).add(n as u64).add(k as u64).add(arg.as_os_str().len() as u64);
    if fault.is_some() {
        ensure!(!run.status.starts_with("killed") && !log.stuck, "the visualiser neither shows anything nor ends; {}", ctx());
        ensure!(log.frames.is_empty(), "the visualiser shows something ({} different frames, {} points in the first); {}", log.frames.len(), log.frames[0].points.len(), ctx());
        ensure!(log.panics.len() > 0 || !run.said.trim().is_empty(), "the visualiser ends without a word; {}", ctx());
        cs.obs.count("incomplete_recordings_not_shown", 1);
    } else {
        let want = expected(&rec, if target > 0 { target as usize + 2 } else { 24 }, false)?;
        ensure!(!log.frames.is_empty(), "the visualiser shows nothing: {}; {}", run.status, ctx());
        judge_frames(cs, &rec, &want, log, if run.ok { target } else { 0 }, target == 0, true, &ctx)?;
        let ended = log.end.as_ref().map(|e| e.0.as_str()).unwrap_or("nothing");
        ensure!(run.ok && (ended == "target" || ended == "time"), "the visualiser stopped ({ended}; {}); {}", run.status, ctx());
        cs.obs.count("complete_recordings_shown", 1);
        h.add(rec.clouds.iter().map(|c| c.data.ncols() as u64).sum());
    }
    cs.obs.sig(h.0);
    cs.obs.sample(|| format!("{}: {}", ctx(), run.status));
    Ok(())
}
