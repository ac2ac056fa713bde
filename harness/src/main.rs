mod core;
mod dims;
mod refgeo;
mod c_misc;
mod c_viz;
mod c_drive;
mod c_side;
pub use dims::{dim2, dim3};

use crate::core::*;

#[cfg(not(miri))] // the interpreter's own allocator gives no more alignment than asked for
#[global_allocator]
static ALLOC: LimitAlloc = LimitAlloc;

macro_rules! both {
    ($m2:ident, $m3:ident, $file:literal) => {
        #[allow(dead_code, unused_imports)]
        mod $m2 {
            use crate::dim2::*;
            include!($file);
        }
        #[allow(dead_code, unused_imports)]
        mod $m3 {
            use crate::dim3::*;
            include!($file);
        }
    };
}
both!(geom2, geom3, "c_geom.rs");
both!(map2, map3, "c_map.rs");
both!(ray2, ray3, "c_ray.rs");
both!(integ2, integ3, "c_integ.rs");
both!(cost2, cost3, "c_cost.rs");
both!(hot2, hot3, "hot.rs");

/// Calls hammered from several threads by the isolation run: what they return depends on their arguments alone.
pub const HOT: [(&str, fn(&mut Rng, &mut Hash64)); 24] = [
    ("logodds_from_probability", |r, h| { h.addf(&[kuba::math::logodds_from_probability(r.f32(0.0, 1.0))]); }),
    ("probability_from_logodds", |r, h| { h.addf(&[kuba::math::probability_from_logodds(r.f32(-9.0, 9.0))]); }),
    ("f32_signum", |r, h| { h.addf(&[kuba::math::f32_signum(r.f32(-1.0, 1.0))]); }),
    ("vector::signum", |r, h| { let v = kuba::vector::signum(&kuba::Vector3::new(r.f32(-1.0, 1.0), 0.0, r.f32(-1.0, 1.0))); h.addf(&[v.x, v.y, v.z]); }),
    ("LidarNoiseModel::new", |r, h| {
        let m = kuba::map::LidarNoiseModel::new(r.f32(0.5, 1.0), r.f32(0.0, 0.5), r.f32(0.0, 0.5), r.f32(0.5, 1.0), r.f32(0.0, 1.0), r.f32(0.0, 99.0));
        h.addf(&[m.hit_probability_logodds, m.miss_probability_logodds, m.min_probability_logodds, m.max_probability_logodds, m.occupied_threshold_logodds, m.max_range]);
    }),
    ("cloud transform", |r, h| {
        let pts: Vec<_> = (0..r.below(9)).map(|_| kuba::Point3::new(r.f32(-9.0, 9.0), r.f32(-9.0, 9.0), r.f32(-9.0, 9.0))).collect();
        let pose = kuba::Pose3::new(kuba::Vector3::new(r.f32(-9.0, 9.0), 1.0, 2.0), kuba::Vector3::new(0.1, r.f32(-1.0, 1.0), 0.3));
        for p in kuba::PointCloud3::from_points(&pts).transform(&pose.to_homogeneous()).points_iter() { h.addf(&[p.x, p.y, p.z]); }
    }),
    ("point_cloud_reader::read", |r, h| {
        let bytes: Vec<u8> = (0..16 * (1 + r.below(9)) + r.below(2) * r.below(16)).map(|_| r.u64() as u8).collect();
        match kuba::kitti::point_cloud_reader::read(&mut &bytes[..]) {
            Ok(c) => for p in c.points_iter() { h.addf(&[p.x, p.y, p.z]); },
            Err(_) => { h.add(1); }
        }
    }),
    ("oxt_reader::read", |r, h| {
        let origin = if r.chance(1, 2) { Some(nalgebra::Translation3::new(49.0, 8.0, r.f64(0.0, 9.0))) } else { None };
        let text = format!("{} {} {} 0.1 0.2 {} 1 2 3", r.f64(48.9, 49.1), r.f64(7.9, 8.1), r.f64(0.0, 9.0), r.f64(-3.0, 3.0));
        match kuba::kitti::oxt_reader::read(&mut text.as_bytes(), origin) {
            Ok((p, o)) => {
                let (t, q) = (p.translation.vector, p.rotation.coords);
                h.addf(&[t.x, t.y, t.z, q.x, q.y, q.z, q.w]);
                for k in 0..3 { h.add(o.vector[k].to_bits()); }
            }
            Err(_) => { h.add(1); }
        }
    }),
    ("conversion 2-D", hot2::convert), ("conversion 3-D", hot3::convert), ("boxes 2-D", hot2::boxes), ("boxes 3-D", hot3::boxes),
    ("cast_ray 2-D", hot2::ray), ("cast_ray 3-D", hot3::ray), ("cast_rays 2-D", hot2::rays), ("cast_rays 3-D", hot3::rays),
    ("clouds 2-D", hot2::clouds), ("clouds 3-D", hot3::clouds), ("growing maps 2-D", hot2::grow), ("growing maps 3-D", hot3::grow),
    ("occupancy maps 2-D", hot2::integrate), ("occupancy maps 3-D", hot3::integrate), ("growing maps again", hot3::grow), ("occupancy maps again", hot2::integrate),
];

macro_rules! either {
    ($n:ident, $a:path, $b:path) => {
        fn $n(cs: &mut Case) -> Verdict {
            if cs.rng.chance(1, 2) { $a(cs) } else { $b(cs) }
        }
    };
}
either!(c01, geom2::c01, geom3::c01);
either!(c02, geom2::c02, geom3::c02);
either!(c03, geom2::c03, geom3::c03);
either!(c04, geom2::c04, geom3::c04);

either!(c09, ray2::c09, ray3::c09);
either!(c10, ray2::c10, ray3::c10);
either!(c11, ray2::c11, ray3::c11);
either!(c12, ray2::c12, ray3::c12);

either!(c13, integ2::c13, integ3::c13);
either!(c14, integ2::c14, integ3::c14);
either!(c15, integ2::c15, integ3::c15);
either!(c16, integ2::c16, integ3::c16);
either!(c17, integ2::c17, integ3::c17);
either!(c18, integ2::c18, integ3::c18);

use c_misc::{c05, c19, c20, c21, c22};
use c_viz::{c24, c25, c29};
use c_drive::c26;
use c_side::c28;
fn c27(cs: &mut Case) -> Verdict {
    match cs.rng.below(10) {
        0 => cost2::rays(cs),
        1 => cost3::rays(cs),
        2 => cost2::cells_of_maps(cs),
        3 => cost3::cells_of_maps(cs),
        4 => cost2::scans(cs),
        5 | 6 => cost3::scans(cs),
        7 => cost2::clouds(cs),
        8 => { cost3::clouds(cs)?; c_misc::c27_transform(cs) }
        _ => c_misc::c27_readers(cs),
    }
}

// ---- C06: the named types and the cell types
mod c06 {
    use crate::core::*;
    use crate::ensure;
    trait DimOf { const N: usize; type A; }
    impl<A> DimOf for kuba::GridMapN<A, nalgebra::U2, ndarray::Ix2> { const N: usize = 2; type A = A; }
    impl<A> DimOf for kuba::GridMapN<A, nalgebra::U3, ndarray::Ix3> { const N: usize = 3; type A = A; }
    fn named<T: DimOf>() -> (usize, &'static str) { (T::N, std::any::type_name::<T::A>()) }

    macro_rules! vals {
        ($($t:ty, $m2:ident, $e:expr);*) => {$(
            impl crate::map2::Val for $t { fn mk(id: u64) -> Self { $e(id) } }
            impl crate::map3::Val for $t { fn mk(id: u64) -> Self { $e(id) } }
        )*};
    }
    /// A wide cell whose parts must always belong together.
    #[derive(Clone, Copy, Debug, PartialEq)]
    pub struct Wide(u64, u64, u64);
    /// Numbers of which many compare equal, or not even equal to themselves.
    #[derive(Clone, Copy, Debug, PartialEq)]
    pub struct Bits(f32);
    macro_rules! bits {
        ($($m:ident),*) => {$(
            impl crate::$m::Val for Bits {
                fn mk(id: u64) -> Self {
                    Bits(f32::from_bits(match mix(id) % 5 {
                        0 => 0,
                        1 => 1 << 31,
                        2 => 0x7fc0_0000 + (id as u32 & 0x3f_ffff),
                        3 => 0xffc0_0000 + (id as u32 & 0x3f_ffff),
                        _ => (id as f32).to_bits(),
                    }))
                }
                fn same(&self, other: &Self) -> bool {
                    self.0.to_bits() == other.0.to_bits()
                }
            }
        )*};
    }
    bits!(map2, map3);
    vals!(i64, map2, |id: u64| id as i64; f32, map2, |id: u64| id as f32;
          Wide, map2, |id: u64| Wide(id, mix(id), !id); u8, map2, |id: u64| mix(id) as u8);

    pub fn case(cs: &mut Case) -> Verdict {
        if cs.rng.chance(1, 40) {
            let want = [
                ("GridMap2f", named::<kuba::GridMap2f>(), 2, "f32"), ("GridMap2i", named::<kuba::GridMap2i>(), 2, "i32"),
                ("GridMap2b", named::<kuba::GridMap2b>(), 2, "bool"), ("GridMap3f", named::<kuba::GridMap3f>(), 3, "f32"),
                ("GridMap3i", named::<kuba::GridMap3i>(), 3, "i32"), ("GridMap3b", named::<kuba::GridMap3b>(), 3, "bool"),
                ("GridMap2<u8>", named::<kuba::GridMap2<u8>>(), 2, "u8"), ("GridMap3<u8>", named::<kuba::GridMap3<u8>>(), 3, "u8"),
            ];
            for (n, (d, a), wd, wa) in want {
                ensure!(d == wd && a == wa, "{n} is a {d}-D map of {a} cells, must be a {wd}-D map of {wa} cells");
            }
            cs.obs.count("named_types_probed", 8);
            return if cs.rng.chance(1, 2) { crate::map2::c06_empty(cs) } else { crate::map3::c06_empty(cs) };
        }
        let two = cs.rng.chance(1, 2);
        match (cs.rng.below(5), two) {
            (0, true) => crate::map2::c06_typed::<i64>(cs, "i64_maps"),
            (0, false) => crate::map3::c06_typed::<i64>(cs, "i64_maps"),
            (1, true) => crate::map2::c06_typed::<f32>(cs, "f32_maps"),
            (1, false) => crate::map3::c06_typed::<f32>(cs, "f32_maps"),
            (2, true) => crate::map2::c06_typed::<u8>(cs, "u8_maps"),
            (2, false) => crate::map3::c06_typed::<u8>(cs, "u8_maps"),
            (3, true) => crate::map2::c06_typed::<Bits>(cs, "maps_of_odd_numbers"),
            (3, false) => crate::map3::c06_typed::<Bits>(cs, "maps_of_odd_numbers"),
            (_, true) => crate::map2::c06_typed::<Wide>(cs, "wide_cell_maps"),
            (_, false) => crate::map3::c06_typed::<Wide>(cs, "wide_cell_maps"),
        }
    }
}
fn exp(cs: &mut Case, w2: map2::Which, w3: map3::Which) -> Verdict {
    match cs.rng.below(16) {
        0 => map2::expand_history::<c06::Wide>(cs, w2),
        1 => map3::expand_history::<c06::Wide>(cs, w3),
        2 => map2::expand_history::<c06::Bits>(cs, w2),
        3 => map3::expand_history::<c06::Bits>(cs, w3),
        4..=9 => map2::expand_history::<i64>(cs, w2),
        _ => map3::expand_history::<i64>(cs, w3),
    }
}
fn c07(cs: &mut Case) -> Verdict { exp(cs, map2::Which::Values, map3::Which::Values) }
fn c08(cs: &mut Case) -> Verdict { exp(cs, map2::Which::Extent, map3::Which::Extent) }

static PROPS: &[Prop] = &[
    Prop { id: "C01", quick: 300_000, thorough: 20_000_000, rule: "a batch of conversions whose inputs (points, cells, resolution) differ from every other counted batch", case: c01, min_sigs: 10_000, need: &["conversions", "negative_cells", "mixed_sign_cells", "exact_conversions"] },
    Prop { id: "C02", quick: 1_200_000, thorough: 20_000_000, rule: "a pair of boxes different from every other", case: c02, min_sigs: 5_000, need: &["overlapping_pairs", "disjoint_or_touching", "empty_receiver", "constructor_rejections", "almost_the_same_box"] },
    Prop { id: "C03", quick: 3_000_000, thorough: 20_000_000, rule: "a box/resolution/tile combination different from every other", case: c03, min_sigs: 5_000, need: &["negative_unaligned_lower", "negative_unaligned_upper", "upper_faces_on_lattice", "upper_faces_off_lattice", "cell_boxes_far_out"] },
    Prop { id: "C04", quick: 1_000_000, thorough: 2_000_000, rule: "a point list different from every other", case: c04, min_sigs: 2_000, need: &["points", "empty_clouds", "clouds_away_from_origin", "clouds_with_infinite_coordinates"] },
    Prop { id: "C06", quick: 360_000, thorough: 2_000_000, rule: "an operation history (construction, shape, written cells) different from every other", case: c06::case, min_sigs: 2_000, need: &["reads", "writes", "copies", "out_of_range_accesses_rejected", "f32_maps", "i64_maps", "u8_maps", "wide_cell_maps", "maps_of_odd_numbers"] },
    Prop { id: "C07", quick: 96_000, thorough: 1_000_000, rule: "a growth history (requests, resulting extents, resolution) different from every other", case: c07, min_sigs: 2_000, need: &["cells_compared", "expansions_needing_no_room", "growths_of_a_nonempty_map", "grown_+x", "grown_-x", "grown_+y", "grown_-y", "grown_+z", "grown_-z", "copies", "maps_from_column_major_arrays"] },
    Prop { id: "C08", quick: 160_000, thorough: 2_000_000, rule: "a growth history (requests, resulting extents, resolution) different from every other", case: c08, min_sigs: 2_000, need: &["points_located", "growths_of_a_nonempty_map", "grown_+x", "grown_-x", "grown_+y", "grown_-y", "grown_+z", "grown_-z", "copies", "maps_from_column_major_arrays"] },
    Prop { id: "C09", quick: 300_000, thorough: 20_000_000, rule: "a ray (origin, end, lattice) different from every other", case: c09, min_sigs: 10_000, need: &["cells_walked", "diagonal", "axis-parallel", "through corners", "tiny slope", "same or adjacent cell", "end at a corner", "nearly diagonal", "corner to corner", "centre to centre"] },
    Prop { id: "C10", quick: 180_000, thorough: 20_000_000, rule: "a ray (origin, end, lattice) different from every other", case: c10, min_sigs: 10_000, need: &["cells_certainly_crossed", "rays_with_a_unique_walk", "diagonal", "axis-parallel", "through corners", "tiny slope", "end at a corner", "nearly diagonal"] },
    Prop { id: "C11", quick: 300_000, thorough: 20_000_000, rule: "a ray and range different from every other", case: c11, min_sigs: 10_000, need: &["reached", "truncated", "unlimited", "ranges_exactly_reached", "ranges_just_missed"] },
    Prop { id: "C12", quick: 100_000, thorough: 4_000_000, rule: "a scan (origin, points, lattice, range) different from every other", case: c12, min_sigs: 5_000, need: &["cells_free_for_one_ray_and_hit_by_another", "empty_clouds", "free_cells", "occupied_cells", "rays"] },
    Prop { id: "C13", quick: 40_000, thorough: 600_000, rule: "a scan history (scans, sensor parameters, resolution, tile) with at least one observed cell, different from every other", case: c13, min_sigs: 1_000, need: &["histories_judged_by_exact_geometry", "histories_judged_by_the_casters_sets", "hits_expected", "misses_expected", "map_growths_between_scans", "scans_into_a_foreign_map", "scans_via_noise_model", "scans_via_occupancy_map"] },
    Prop { id: "C14", quick: 100_000, thorough: 2_000_000, rule: "a scan history different from every other", case: c14, min_sigs: 1_000, need: &["integrations", "growths", "empty_clouds", "sensor_outside_the_clouds_box"] },
    Prop { id: "C15", quick: 30_000, thorough: 4_000_000, rule: "an evidence history (cells, hit/miss order, parameters) different from every other", case: c15, min_sigs: 1_000, need: &["evidence_updates", "saturation_runs", "threshold_comparisons", "updates_ending_on_a_limit", "invalid_parameters_rejected", "cells_set_beyond_the_limits"] },
    Prop { id: "C16", quick: 60_000, thorough: 500_000, rule: "a tracked history different from every other", case: c16, min_sigs: 1_000, need: &["clears", "copies", "direct_expansions", "explicit_additions", "growths_while_records_were_pending", "toggles", "tracked_integrations", "untracked_integrations"] },
    Prop { id: "C17", quick: 16_000, thorough: 300_000, rule: "a history whose final map, bounds and change sets hash differently from every other", case: c17, min_sigs: 1_000, need: &["plain_replays", "permuted_replays", "replays_on_copies", "scans", "processes_compared"] },
    Prop { id: "C18", quick: 6_000, thorough: 400_000, rule: "an operation history different from every other", case: c18, min_sigs: 1_000, need: &["cells_compared", "occupied_queries", "operations_compared", "foreign_noise_model", "lidar_noise_model", "default_configurations"] },
    Prop { id: "C05", quick: 900_000, thorough: 3_000_000, rule: "a cloud and matrix different from every other", case: c05, min_sigs: 5_000, need: &["points", "distances_compared", "general_affine", "identity", "rigid", "round_trips", "shear", "translation", "scaling_and_reflection", "almost_the_identity", "axes_exchanged"] },
    Prop { id: "C19", quick: 4_096, thorough: 4096, rule: "a block of single-precision bit patterns, every pattern of which is tried", case: c19, min_sigs: 1_000, need: &["logodds_checked", "probabilities_checked", "signs_checked", "vectors_signed"] },
    Prop { id: "C20", quick: 600_000, thorough: 3_000_000, rule: "a byte stream and fault sequence different from every other", case: c20, min_sigs: 5_000, need: &["complete_streams", "ragged_streams", "streams_failing_midway", "files", "pipes", "interrupts_and_reads"] },
    Prop { id: "C21", quick: 2_000_000, thorough: 20_000_000, rule: "a record, origin and fault sequence different from every other", case: c21, min_sigs: 10_000, need: &["poses_relative_to_an_origin", "poses_without_origin", "malformed_records_refused", "failing_reads_refused", "files_and_pipes", "crossing_the_antimeridian"] },
    Prop { id: "C22", quick: 40_000, thorough: 200_000, rule: "a directory (files, contents, faults) different from every other", case: c22, min_sigs: 100, need: &["good_directories", "directories_with_bad_entries", "missing_directories", "files", "directories_with_copies_of_files"] },
    Prop { id: "C24", quick: 400, thorough: 20_000, rule: "a run of the visualiser whose sequence of frame contents and of frames per hand-over differs from every other run", case: c24, min_sigs: 50, need: &["frames_judged", "points_judged", "scans_shown", "runs_with_many_scans", "runs_with_wide_scans", "runs_over_more_than_one_cycle", "injected_delays", "delays_at_rare_edges"] },
    Prop { id: "C25", quick: 500, thorough: 20_000, rule: "a run of the visualiser whose sequence of frame contents and of frames per hand-over differs from every other run", case: c25, min_sigs: 50, need: &["frames_judged", "points_judged", "scans_shown", "injected_delays", "runs_of_the_thread_sanitizer_build", "slow_integrations_with_frames_meanwhile"] },
    Prop { id: "C26", quick: 20_000, thorough: 400_000, rule: "a recorded drive (sensor path, points, parameters) different from every other", case: c26, min_sigs: 1_000, need: &["hits_judged", "free_cells_judged", "places_asked", "scans_mapped"] },
    Prop { id: "C27", quick: 24_000, thorough: 300_000, rule: "a call (or series of calls) whose inputs and sizes differ from every other", case: c27, min_sigs: 1_000, need: &["costs_judged", "directories", "long_listings", "long_rays", "maps_of_a_million_cells", "scans_with_growth", "scans_without_growth", "transforms"] },
    Prop { id: "C28", quick: 8_000, thorough: 100_000, rule: "a read of a directory (files, contents, faults, in this or another process), or a process of recorded calls, different from every other", case: c28, min_sigs: 1_000, need: &["announced_files", "failed_reads", "good_reads", "opens_recorded_by_the_kernel", "watched_reads", "silent_processes_of_576_calls", "silent_processes_of_264_cases"] },
    Prop { id: "C29", quick: 1_500, thorough: 30_000, rule: "a start of the visualiser on a folder (fault or way of naming, its place, number of scans and points) different from every other", case: c29, min_sigs: 50, need: &["complete_recordings_shown", "incomplete_recordings_not_shown", "frames_judged", "points_judged", "recordings_with_other_material", "scans_shown"] },
];

fn arg(args: &[String], name: &str) -> Option<String> {
    args.iter().position(|a| a == name).and_then(|i| args.get(i + 1).cloned())
}

fn config(id: &'static str, args: &[String]) -> Config {
    let env = |k: &str| std::env::var(k).ok();
    Config {
        prop: id,
        tier_thorough: arg(args, "--tier").or(env("VERIF_TIER")).map_or(false, |t| t == "thorough"),
        seed: arg(args, "--seed").or(env("VERIF_SEED")).and_then(|s| s.parse().ok()).unwrap_or(1),
        out_dir: arg(args, "--out").unwrap_or_else(|| "/verif/evidence".into()),
        scale: arg(args, "--scale").and_then(|s| s.parse().ok()).unwrap_or(1.0),
        wall_cap_s: arg(args, "--wall").and_then(|s| s.parse().ok()).unwrap_or(600.0),
        threads: arg(args, "--threads").and_then(|s| s.parse().ok()).unwrap_or(8),
        ignore_verdicts: args.iter().any(|a| a == "--ignore-verdicts"),
        cases: arg(args, "--cases").and_then(|s| s.parse().ok()),
        max_size: arg(args, "--max-size").and_then(|s| s.parse().ok()).unwrap_or(1.0),
    }
}

/// Commits the error that a sanitizer must report: shows that the monitors of C23 and C25 are alive.
fn selftest(kind: &str) {
    use std::hint::black_box;
    match kind {
        "oob" => {
            let v = black_box(vec![1u32; 10]);
            let i = black_box(11usize);
            println!("{}", unsafe { *v.as_ptr().add(i) });
        }
        "use_after_free" => {
            let v = black_box(vec![1u32; 10]);
            let p = black_box(v.as_ptr());
            drop(v);
            println!("{}", unsafe { *p });
        }
        "leak" => {
            for i in 0..100 {
                std::mem::forget(black_box(vec![i as u8; 1000]));
            }
        }
        "uninit" => {
            let mut v: Vec<u32> = black_box(Vec::with_capacity(16));
            unsafe { v.set_len(16) };
            if black_box(&v)[black_box(7)] > 5 { println!("large") } else { println!("small") }
        }
        "race" => {
            let cell = black_box(Box::new(std::cell::UnsafeCell::new(0u64)));
            let at = cell.get() as usize;
            let here = &std::sync::atomic::AtomicU64::new(0);
            std::thread::scope(|s| {
                for _ in 0..4 {
                    // all start together, without any ordering among them
                    s.spawn(move || {
                        here.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                        while here.load(std::sync::atomic::Ordering::Relaxed) < 4 { std::thread::yield_now(); }
                        for _ in 0..20_000 { unsafe { let p = black_box(at as *mut u64); *p = black_box(*p + 1) } }
                    });
                }
            });
        }
        _ => {}
    }
    println!("SELFTEST-END {kind}");
}

fn main() {
    install_hooks();
    let args: Vec<String> = std::env::args().collect();
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let p = PROPS.iter().find(|p| p.id == args[2]).expect("unknown property");
            run_prop(p, &config(p.id, &args))
        }
        Some("all") => {
            // sanitizer runs: every workload, functional verdicts ignored, only the sanitizer's own reports count
            let only = arg(&args, "--only");
            let budget: f64 = arg(&args, "--budget").and_then(|s| s.parse().ok()).unwrap_or(1e9);
            let start = std::time::Instant::now();
            let props: Vec<&Prop> = PROPS.iter().filter(|p| !["C24", "C25", "C29"].contains(&p.id) && only.as_ref().map_or(true, |o| o.split(',').any(|x| x == p.id))).collect();
            for (k, p) in props.iter().enumerate() {
                let mut cfg = config(p.id, &args);
                cfg.ignore_verdicts = true;
                // share what is left of the time budget
                let left = (budget - start.elapsed().as_secs_f64()).max(1.0);
                cfg.wall_cap_s = cfg.wall_cap_s.min(left / (props.len() - k) as f64);
                run_prop(p, &cfg);
            }
            println!("ALL-DONE");
            0
        }
        Some("isolation") => {
            let seed = arg(&args, "--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
            let seconds = arg(&args, "--budget").and_then(|s| s.parse().ok()).unwrap_or(20.0);
            let props: Vec<&Prop> = PROPS.iter().filter(|p| !["C19", "C24", "C25", "C29"].contains(&p.id)).collect();
            (isolation(&props, &HOT, seed, seconds) > 0) as i32
        }
        Some("one") => {
            let p = PROPS.iter().find(|p| p.id == args[2]).expect("unknown property");
            let n = |k: usize| args[k].parse::<u64>().unwrap();
            let mut cfg = config(p.id, &args);
            cfg.ignore_verdicts = true;
            set_global(&cfg);
            if run_case(p, &mut Obs::new(), n(3), f64::from_bits(n(4)), false, n(5), n(6)).is_ok() { println!("ONE-HELD") }
            0
        }
        Some("child") => {
            let _ = std::panic::take_hook();
            c_side::child(&args[2..])
        }
        Some("selftest") => { selftest(&args[2]); 0 }
        Some("digest") => {
            #[cfg(all(target_os = "linux", not(miri)))]
            if std::env::var_os("KMON_ONE_CPU").is_some() {
                extern "C" {
                    fn sched_setaffinity(pid: i32, size: usize, mask: *const u64) -> i32;
                }
                unsafe { sched_setaffinity(0, 8, &1u64) };
            }
            let p = PROPS.iter().find(|p| p.id == "C17").unwrap();
            println!("digest {:016x}", digest_prop(p, args[2].parse().unwrap(), args[3].parse().unwrap(), args.get(4).map_or(false, |a| a == "backwards")));
            0
        }
        Some("replay") => {
            let text = std::fs::read_to_string(&args[2]).expect("replay file");
            let get = |k: &str| text.lines().find_map(|l| l.strip_prefix(&format!("{k}=")).map(|s| s.to_string())).expect("field");
            let id = get("property");
            let p = PROPS.iter().find(|p| p.id == id).expect("unknown property");
            let mut cfg = config(p.id, &args);
            cfg.out_dir = arg(&args, "--out").unwrap_or_else(|| "/tmp/kmon-replay".into());
            set_global(&cfg);
            if get("index") == u64::MAX.to_string() {
                let d = digests_in_processes(get("case_seed").parse().unwrap(), if get("thorough") == "1" { 4000 } else { 250 });
                println!("digests {d:?}");
                std::process::exit(d.map_or(2, |d| d.iter().any(|v| v.1 != d[0].1) as i32));
            }
            let mut obs = Obs::new();
            match run_case(p, &mut obs, get("case_seed").parse().unwrap(), f64::from_bits(get("size_bits").parse().unwrap()), get("thorough") == "1",
                get("index").parse().unwrap(), get("total").parse().unwrap()) {
                Ok(()) => { println!("held on this case"); 0 }
                Err(m) => { println!("witness: {m}\nVIOLATION property={id} replay={}", args[2]); 1 }
            }
        }
        _ => { eprintln!("usage: kmon check ID | replay FILE"); 3 }
    };
    std::process::exit(code);
}
