#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator because the records are long)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe or [], hook_needed=hook)))

prop("C01", "Point-to-cell conversion picks the nearest cell centre",
 "For every finite point, lattice origin and positive resolution (one value for all axes, or one per axis), converting a point to a cell yields, on every axis, a cell whose centre is at most half a cell away from the point up to floating-point rounding (a point on a border may go to either neighbour). Converting a cell to a point yields exactly that centre, origin + index * resolution up to rounding, so cell -> point -> cell is the identity, for positive and negative cells alike, through the free conversion functions and through a map's own conversions.",
 ["inputs"], "all finite points, offsets, resolutions in [1e-3, 1e2] and cells with |index| and |offset/resolution| up to 1e6, and up to 2^60 where the arithmetic is exact, in 2-D and 3-D",
 "The tests try one resolution and one offset along a diagonal of 200 points; negative cells, mixed signs per axis, other resolutions and points near borders are not reached.",
 ["src/geom/converter.rs", "src/map/grid_map.rs", "src/map/occupancy_grid_map.rs"],
 [("cell_coord_from_point_coord / point_coord_from_cell_coord", "src/geom/converter.rs"), ("GridMap::cell_from_point / point_from_cell", "src/map/grid_map.rs")],
 observe=["return values of geom::converter::* and GridMap::{cell_from_point,point_from_cell}"])

prop("C02", "Box algebra: enclosing, overlapping and approximate equality",
 "The enclosing box of two boxes is the smallest box that contains both (an empty receiver, the zero box, contributes nothing), and the overlap of two boxes is their set intersection, or the empty box when they share no volume on some axis. Approximate comparison of two boxes is true when every coordinate of both corners agrees within tolerance and false as soon as any single one does not, and constructing a box (of points or of cells) from corners that are inverted on any axis is rejected.",
 ["inputs"], "all pairs of finite well-formed 2-D and 3-D boxes, nested, partially overlapping, touching, disjoint on any subset of axes, negative and mixed signs, degenerate on some axes, equal but for a few units in the last place; the empty box as receiver",
 "The tests check a few hand-picked positive boxes; the result must hold for every relative placement on every axis, including sign changes and degenerate axes.",
 ["src/geom/bounds.rs", "src/geom/cell_bounds.rs"],
 [("Bounds::enclosing / overlapping / new / RelativeEq / AbsDiffEq", "src/geom/bounds.rs"), ("CellBounds::new", "src/geom/cell_bounds.rs")],
 observe=["returned Bounds"])

prop("C03", "Discretised boxes contain the original, are aligned, and are minimal",
 "Rounding a box to a resolution returns a box that contains the original, whose faces lie on multiples of the resolution, and which exceeds the original by less than one cell per face (with expansion requested, an upper face already on the lattice moves up by exactly one cell and any other result is unchanged). Rounding a cell box to a tile size returns exactly the smallest tile-aligned cell box containing it, and converting a cell box to world coordinates (from corners, or from size and offset, with scalar or per-axis resolution) and back gives the same cell box.",
 ["inputs"], "all finite boxes, resolutions in [1e-3, 1e2], tile sizes 1..10^4, cell coordinates of either sign up to 1e5, and for tile rounding (integers) cells up to 2^60 and tiles up to 2^33, 2-D and 3-D",
 "Tests use resolution 0.1 and tile sizes 2 and 100 on about a dozen boxes; rounding direction for every sign/remainder combination and per-axis resolution is a for-all statement.",
 ["src/geom/bounds.rs", "src/geom/cell_bounds.rs"],
 [("Bounds::discretized, from_cell_bounds(_n), from_size_cells(_n)", "src/geom/bounds.rs"), ("CellBounds::discretized, from_bounds", "src/geom/cell_bounds.rs")],
 observe=["returned Bounds / CellBounds"])

prop("C04", "A point cloud is a faithful ordered container with a tight hull",
 "A cloud built from a list of points (or from a data matrix) reports exactly that many points and iterates them in the same order with bit-identical coordinates. Its bounds are exactly the smallest axis-aligned box containing every point, wherever in space the cloud lies, and the empty box for a cloud without points.",
 ["inputs"], "all lists of 0..10^4 finite points in 2-D and 3-D, in any octant and at any distance from the world origin, down to denormals, negative zeros and up to infinite coordinates (a hull axis on which some point is not a number is open)",
 "The tests use one 2-point cloud whose box happens to span the world origin, so a hull that wrongly includes the origin, or ignores a point by position, is invisible.",
 ["src/geom/point_cloud.rs"],
 [("PointCloud::from_points / points_iter / num_points / bounds", "src/geom/point_cloud.rs")],
 state=[("PointCloud.data", "one column per point", "src/geom/point_cloud.rs")],
 observe=["PointCloud accessors"])

prop("C05", "Transforming a cloud applies the affine map to every point, in order",
 "Transforming a 3-D cloud by a homogeneous affine matrix yields a cloud with the same number of points in the same order, each equal to the matrix applied to the original point within single-precision rounding, and leaves the source cloud unchanged. Consequently rigid transforms preserve pairwise distances, applying the inverse returns the original cloud, and applying two transforms in sequence equals applying their product.",
 ["inputs"], "all clouds of 0..5000 finite points and all affine 4x4 matrices (rigid, scaled, sheared, reflected, the identity and what differs little from it, exchanged axes) with entries up to 1e3",
 "PointCloud::transform has no test at all.",
 ["src/geom/point_cloud.rs"],
 [("PointCloud::transform", "src/geom/point_cloud.rs")], observe=["returned and source cloud"])

prop("C06", "Grid map cells are independent registers; bad cells are rejected",
 "Over any history of reads, writes and copies, reading a cell of a map returns the value most recently written to that very cell of that very map (or its initial value), and writing one cell never changes any other cell nor any copy of the map. Reading or writing a cell outside the map's extent (negative or too large on any axis) is rejected with a panic and never reads from, or modifies, some other cell; the 2-D and 3-D named map types are 2-D and 3-D.",
 ["histories", "inputs"], "all op sequences over all in-range and out-of-range cells (incl. extreme indices) of 2-D and 3-D maps of any shape, any copyable cell type, narrow ones and wide multi-word ones alike; values compared bit by bit (negative zeros, NaNs and values that compare equal though they differ included)",
 "Tests read and write at most two cells of a 2x2(x2) map; aliasing between axes of different lengths, negative indices through the unsafe index cast, and copies are never exercised.",
 ["src/map/grid_map.rs", "src/geom/cell.rs"],
 [("GridMapN::get/set/Clone", "src/map/grid_map.rs"), ("CellToNdIndex::to_ndindex (unsafe transmute)", "src/geom/cell.rs")],
 state=[("GridMapN.data", "dense cell array", "src/map/grid_map.rs")],
 observe=["get/set results, panics"])

prop("C07", "Expanding a map preserves every cell's value at its world location",
 "After expanding a map to any requested box, every cell that existed before holds the same value at the same world location, every newly created cell holds the default value given to that expansion, and this composes over any sequence of expansions and writes in any direction. An expansion that needs no more room changes nothing.",
 ["histories", "inputs"], "all sequences of expansions (any direction, any size, repeated, nested) interleaved with writes, on empty or lattice-aligned initial maps, all tile sizes and resolutions, cell coordinates up to 1e5, 2-D and 3-D (two separate implementations)",
 "Tests do a single expansion of a constant-valued 2-cell square map along the diagonal: misplacing content per axis, using the wrong offset, or drifting over many expansions would pass.",
 ["src/map/grid_map.rs", "src/geom/cell_bounds.rs", "src/geom/bounds.rs"],
 [("ExpandableGridMap::expand_bounds (2-D and 3-D copies)", "src/map/grid_map.rs"), ("CellBounds::from_bounds/discretized", "src/geom/cell_bounds.rs")],
 state=[("GridMapN.bounds/data", "world box and array it describes", "src/map/grid_map.rs")],
 observe=["every cell before/after expand_bounds"])

prop("C08", "An expanded map covers the request, never shrinks, and stays consistent",
 "After expanding to a requested box, every point of that box (borders included) lies in a cell that the map can read and write, the new extent contains the old one, its faces are on multiples of the tile size, and it exceeds what is needed by less than one tile plus two cells per side. The array shape always equals the extent of the world box in cells on every axis, and the cell at index zero is centred on the box's minimum corner.",
 ["histories", "inputs"], "all requested finite boxes within 1e5 cells of the world origin (any sub-cell phase of the corners, degenerate boxes included) after all expansion histories; all tile sizes and resolutions; 2-D and 3-D",
 "Tests only request corners on cell centres; the interesting phase is a corner beyond the middle of a cell next to a tile border, which indexes one past the end.",
 ["src/map/grid_map.rs", "src/geom/bounds.rs", "src/geom/cell_bounds.rs"],
 [("expand_bounds", "src/map/grid_map.rs"), ("ndarray_with_bounds", "src/map/grid_map.rs"), ("Bounds::discretized", "src/geom/bounds.rs")],
 observe=["bounds(), data.shape(), get/set of cells of probe points"])

prop("C09", "A cast ray is a face-connected walk that always ends at the end cell",
 "For every origin and end point and unlimited range, the cells of a ray start with the origin's cell and end next to the end point's cell, each step moves to a face neighbour towards the end, no cell repeats, the end cell is not among them and is reported separately; if both points share a cell the ray is empty and that cell is the end cell. The walk terminates after exactly as many cells as the Manhattan distance between the two cells, also when the segment runs through cell corners, along borders, or is very long.",
 ["inputs"], "all finite origin/end pairs up to some ten thousand cells apart on an axis (and along axes up to 2 million), all directions (axis-parallel, diagonal, near-degenerate), border- and corner-exact coordinates, all lattice offsets and resolutions, 2-D and 3-D",
 "About 20 short rays are tested; missing the end cell needs a particular tie between border crossings or accumulated rounding, and then the loop runs past the end or forever.",
 ["src/ray_caster.rs"],
 [("cast_ray walk loop", "src/ray_caster.rs"), ("vector::signum", "src/geom/vector.rs")],
 state=[("t_max/t_delta", "ray parameter of next border per axis", "src/ray_caster.rs")],
 observe=["returned cells and end cell; edge-count budget of the call"])

prop("C10", "A cast ray visits the cells the segment passes through, and no others",
 "Every cell reported for a ray is intersected by the straight segment from origin to end, and every cell that the segment passes through for more than a rounding-sized length is reported (the last one as the end cell). Corners and borders touched within rounding may be resolved either way.",
 ["inputs"], "all finite origin/end pairs, lattice offsets, resolutions, 2-D and 3-D; rounding tolerance grows with the number of steps as the incremental algorithm implies",
 "Tests compare a handful of diagonals of at most 4 cells; wrong border offsets, step sizes or axis choice on other slopes, signs or lattice offsets are not excluded.",
 ["src/ray_caster.rs", "src/geom/converter.rs"],
 [("t_max/t_delta initialisation and minimum choice", "src/ray_caster.rs")],
 observe=["returned cells vs exact f64 segment geometry"])

prop("C11", "The maximum range truncates a ray exactly where it is exceeded",
 "With a positive maximum range, a ray reports the unlimited walk's cells up to, but not including, the first cell after the origin's whose centre is farther from the origin than the range, and then no end cell; if no cell before the end cell is farther than that, the complete walk and the end cell are reported. With a range of zero or below nothing is ever truncated.",
 ["inputs"], "all rays and all ranges (from the smallest positive number up, shorter than a cell, around the end distance, far larger, infinite, zero, negative, and ranges that equal a centre's distance exactly where the arithmetic is exact), other centre distances within rounding of the range excepted",
 "Two fixed rays test truncation; order of checks, squared comparison, wrong reference point and the zero/negative convention over all rays are untested.",
 ["src/ray_caster.rs"], [("max_len check in cast_ray", "src/ray_caster.rs")],
 observe=["cast_ray with range r vs cast_ray without range"])

prop("C12", "A scan's free and occupied cells are the union of its rays, disjoint",
 "Casting a whole cloud yields as occupied cells exactly the end cells of the rays that reached their end within range, and as free cells exactly the cells passed through by at least one ray minus the occupied ones. The two sets are therefore disjoint, and do not depend on the order or multiplicity of the points.",
 ["inputs"], "all clouds (0..5000 points, and whole scans of up to 140,000; duplicates, points in the origin's cell, points behind one another, beyond range), origins, ranges, 2-D and 3-D",
 "Two fixed clouds are tested in which no ray passes through another ray's end cell and none is truncated, so the precedence rule is untested.",
 ["src/ray_caster.rs"], [("cast_rays fold and removal", "src/ray_caster.rs")],
 observe=["returned sets vs individual cast_ray results"])

prop("C13", "Integrating scans updates exactly the observed cells, once per scan",
 "After integrating any sequence of scans, each map cell (identified by its world location) holds the log-odds obtained by applying, per scan, one clamped hit if some in-range point of the scan falls in it, otherwise one clamped miss if some ray of the scan passes through it, and nothing otherwise; cells never observed hold the unknown value. This holds however the map grows between scans, and for direct use of the noise model and of the occupancy map alike.",
 ["histories", "inputs"], "all sequences of scans with moving sensor origins over growing maps, all resolutions, tile sizes, ranges and sensor parameters, 2-D and 3-D",
 "Tests integrate the same 2-3 point cloud repeatedly from the world origin into a map that never grows after the first scan.",
 ["src/map/lidar_noise_model.rs", "src/map/occupancy_grid_map.rs", "src/ray_caster.rs", "src/map/grid_map.rs"],
 [("NoiseModel::integrate_point_cloud, integrate_hit, integrate_miss", "src/map/lidar_noise_model.rs")],
 observe=["all cells after each scan vs an independent f64 reference mapper; set() events at the map boundary"])

prop("C14", "Integrating a scan never fails",
 "Integrating any cloud of finite points from any finite sensor position into any map that is fresh, or has only grown by earlier integrations and expansions, completes without panicking, within a bounded number of steps, and leaves the sensor's cell and every point's cell inside the map. This includes empty clouds (which still bring the sensor's cell into the map), points exactly on or near cell and tile borders, sensors outside the cloud's bounding box or far away from the world origin, and points beyond the maximum range.",
 ["histories", "inputs"], "all sequences of clouds x sensor origins x resolutions x tile sizes x ranges (incl. zero), 2-D and 3-D, extents bounded so that the dense map fits in memory",
 "Every test keeps the sensor at the world origin inside the cloud's box and all points on cell centres; the failure needs a coordinate in the upper half of the last cell of a tile, or an off-box sensor.",
 ["src/map/lidar_noise_model.rs", "src/map/grid_map.rs", "src/ray_caster.rs", "src/geom/point_cloud.rs"],
 [("integrate_point_cloud -> expand_bounds -> cast_rays -> set", "src/map/lidar_noise_model.rs")],
 observe=["panic-free completion; map extent afterwards; edge-count budget"])

prop("C15", "Cell evidence stays clamped, moves the right way, and saturates",
 "Under any history of hits, misses and scans with any valid sensor parameters (hit probability at least one half, miss probability at most one half, minimum <= one half <= maximum), every cell's log-odds stays within the configured minimum and maximum, a hit never lowers it and a miss never raises it, by exactly the configured increment unless clamped, and enough hits (misses) in a row reach exactly the maximum (minimum); whatever a cell was set to by hand before, it holds at most the maximum after a hit and at least the minimum after a miss. A cell is occupied exactly when its value exceeds the occupied threshold, and sensor models with probabilities outside [0, 1] are rejected.",
 ["histories", "configurations"], "all hit/miss/scan sequences x all valid sensor parameters incl. the extremes 0, 1/2 and 1; threshold comparisons at, just above and just below the threshold; a cell whose evidence is one infinity never receives evidence of the opposite infinity (their sum is undefined)",
 "Tests only run the default parameters with one saturating sequence.",
 ["src/map/lidar_noise_model.rs", "src/math.rs"],
 [("integrate_hit / integrate_miss clamps, occupied, LidarNoiseModel::new asserts", "src/map/lidar_noise_model.rs")],
 observe=["every set() event on a monitored map implementation"])

prop("C16", "Change tracking reports exactly the cells updated since the last clear",
 "While change tracking is on, the reported changed cells are, as a set and in the map's current cell coordinates, exactly the cells updated by integrations since the last clear, each listed once per integration, also after the map has grown since they were recorded. While tracking is off nothing is recorded and earlier records are kept, clearing empties the list, and switching tracking on or off never changes map contents.",
 ["histories"], "all interleavings of integrations (that grow the map in any direction), direct expansions, clears, tracking toggles, explicit additions and copies; 2-D and 3-D",
 "No test enables change tracking.",
 ["src/map/grid_map.rs", "src/map/lidar_noise_model.rs", "src/map/occupancy_grid_map.rs"],
 [("changed_cells/add_changed_cells/clear_changed_cells", "src/map/grid_map.rs"), ("changed cell collection in integrate_point_cloud", "src/map/lidar_noise_model.rs")],
 state=[("changed_cells", "cells updated since last clear", "src/map/grid_map.rs")],
 observe=["changed_cells() vs set() events in world coordinates"])

prop("C17", "Mapping is deterministic and independent of point order",
 "Replaying the same history of scans gives bit-identical maps, bounds and sets of changed cells every time, in every process, and so does replaying it with the points inside each scan permuted or duplicated, or going on with a copy of the map at any time.",
 ["histories", "schedules"], "all scan histories (scans of a few points and of thousands) x all permutations/duplications of points within scans x all times of going on with a copy x all internal hash-iteration orders (randomised per set and per process) x processes with other environments, addresses and directories",
 "Each test runs one order once; iteration order of the internal hash sets changes from run to run and is never compared.",
 ["src/ray_caster.rs", "src/map/lidar_noise_model.rs"],
 [("HashSet-based cast_rays, removal before update", "src/ray_caster.rs")],
 observe=["bit patterns of map data across repeated and permuted runs, incl. across processes"])

prop("C18", "The occupancy map behaves exactly as its noise model on its grid map",
 "For every history of operations, an occupancy grid map gives for every query (value, occupancy, resolution, bounds, point/cell conversion, change tracking) exactly what the same noise model applied to a plain grid map of the same resolution and tile size gives, and its default form equals the default noise model on a map of the default resolution and tile size holding the unknown value.",
 ["histories"], "all interleavings of integrate/get/set/occupied/bounds/conversion/tracking calls on both, 2-D and 3-D, default and custom configuration",
 "OccupancyGridMapN has no tests.",
 ["src/map/occupancy_grid_map.rs"],
 [("delegating GridMap impl, new, default", "src/map/occupancy_grid_map.rs")],
 observe=["all trait methods on both objects after every op"])

prop("C19", "Probability and log-odds conversions are accurate mutual inverses",
 "For every probability in [0, 1] the log-odds conversion equals ln(p/(1-p)) within single-precision rounding (minus/plus infinity at 0 and 1), for every log-odds the probability conversion equals 1/(1+exp(-l)) within rounding and lies in [0, 1], both are non-decreasing up to rounding, and each inverts the other within rounding. The sign function returns exactly -1, 0 or 1 according to the sign of its argument (0 for both zeros), also element-wise on vectors.",
 ["inputs"], "every single-precision number in the domain (about 1.06e9 probabilities; all 2^32 bit patterns except NaN for the sign function)",
 "Tests check seven values of each function.",
 ["src/math.rs", "src/geom/vector.rs"],
 [("logodds_from_probability, probability_from_logodds, f32_signum", "src/math.rs"), ("signum", "src/geom/vector.rs")],
 observe=["return values vs f64 reference"])

prop("C20", "KITTI scan decoding is exact, total and robust against I/O faults",
 "Decoding a byte stream of 16n bytes yields exactly n points whose coordinates are bit-identical to the first three 32-bit floats of each 16-byte record, in order, no matter how the stream is chunked or interrupted, from a file or a pipe; any other length, and any read error at any position, yields an error, never a panic or a partial cloud. Reading from a file gives the same result as reading from its bytes.",
 ["inputs", "fault_sequences"], "all byte strings (incl. NaN/inf patterns) up to 20 MB, all chunkings, readers that look into the buffer they are to fill, transient interruptions and hard errors at every position",
 "The readers have no tests.",
 ["src/kitti/point_cloud_reader.rs"],
 [("point_cloud_reader::read / read_from_file", "src/kitti/point_cloud_reader.rs")],
 observe=["returned cloud or error kind, through a fault-injecting Read"])

prop("C21", "KITTI poses are decoded with correct metric position and orientation",
 "Decoding an OXTS record of latitude, longitude, altitude, roll, pitch, yaw (further fields ignored) relative to a GPS origin gives a translation that agrees with the true local east (x), north (y), up (z) displacement within 1 percent (plus centimetres) at any latitude up to 80 degrees and across the 180th meridian, for displacements up to a few kilometres, and the rotation yaw-pitch-roll within rounding. Without an origin the translation is zero and the record's own position is returned as the origin, with an origin that origin is returned unchanged; a record with fewer than six fields or a malformed number, and any read error, yields an error, never a panic.",
 ["inputs", "fault_sequences"], "all origins with |latitude| <= 80, all displacements up to 5 km, all angles (also beyond a full turn), all text formatting of numbers (exponents, zero padding, hundreds of digits), truncated/garbled records, chunked/failing readers",
 "The readers have no tests; a formula that is right at the equator only would pass any equatorial check.",
 ["src/kitti/oxt_reader.rs"],
 [("gps_to_meters", "src/kitti/oxt_reader.rs"), ("oxt_reader::read", "src/kitti/oxt_reader.rs")],
 observe=["returned pose and origin vs WGS84 local tangent plane in f64"])

prop("C22", "Sequence directories are read completely, in index order, or fail as a whole",
 "Reading a directory of zero-padded numbered files returns one result per file in index order whatever order the file system lists them in, every scan equal to decoding that file alone, and every pose relative to the position of the first file (whose own translation is zero). If the directory or any file in it cannot be read or is malformed the whole read returns an error; printing progress does not change the result.",
 ["inputs", "fault_sequences"], "all directories of 0..12,000 files (or links to files, several to the same file) created in any order, named through links or relative parts, one or several corrupt/truncated/unreadable entries at any position, missing directory, progress printing on/off",
 "The directory readers have no tests.",
 ["src/kitti/fs.rs", "src/kitti/oxt_reader.rs", "src/kitti/point_cloud_reader.rs"],
 [("seq_files_in_dir sort", "src/kitti/fs.rs"), ("read_from_dir", "src/kitti/oxt_reader.rs")],
 observe=["returned vectors vs per-file decoding"])

prop("C23", "No undefined behaviour or memory error is reachable through the API",
 "Under every workload of this framework (conversion, casting, mapping with growth, out-of-range access, decoding of hostile bytes, clones and drops of maps and clouds, use from several threads on separate maps) the library performs no out-of-bounds, use-after-free, leaking or double-freeing access, no decision depends on uninitialised memory, and separate maps used from separate threads share no mutable state.",
 ["inputs", "histories"], "all API histories generated by the other checks, replayed under AddressSanitizer+LeakSanitizer, MemorySanitizer, ThreadSanitizer and the Miri interpreter",
 "The tests run without instrumentation and never reach the unsafe index cast with a negative or out-of-range cell.",
 ["src/geom/cell.rs", "src/geom/point_cloud.rs", "src/map/grid_map.rs", "src/kitti/point_cloud_reader.rs"],
 [("unsafe transmute in to_ndindex", "src/geom/cell.rs"), ("matrix/array construction through nalgebra/ndarray", "src/geom/point_cloud.rs")],
 observe=["sanitizer and interpreter reports"])

prop("C24", "The visualiser draws exactly the occupied cells of the scans mapped so far",
 "In every frame the visualiser draws one point at the world centre of every cell that is occupied after integrating some prefix of the recorded scans, and no other point; the prefix never goes back, grows by at most one scan between frames, and the frame marker (three axis segments from the pose's position: x red, y green, z blue) shows the pose of the next scan in sequence, the one after the scan being integrated. Scans are taken in sequence order, cyclically, each integrated exactly once per cycle with its own pose as sensor origin, also while the map is growing.",
 ["histories", "schedules"], "all non-empty recorded sequences (clouds and poses moving in any direction) and all relative timings of the render loop and the integration thread",
 "viz is not even built by the test script and has no tests.",
 ["viz/src/bin/draw_occupancy_grid.rs", "src/map/occupancy_grid_map.rs"],
 [("AppState::integrate_next_pointcloud, step", "viz/src/bin/draw_occupancy_grid.rs"), ("GridUpdater", "viz/src/bin/draw_occupancy_grid.rs")],
 state=[("tracked_cells", "cells being drawn", "viz/src/bin/draw_occupancy_grid.rs"), ("changed_cells/finished", "hand-over between threads", "viz/src/bin/draw_occupancy_grid.rs")],
 observe=["draw_point/draw_line calls per frame, recorded by a stand-in for the kiss3d crate"])

prop("C25", "The visualiser's render loop and integration thread never race or deadlock",
 "Under every schedule the render loop keeps producing frames and eventually picks up each finished integration, no thread panics, no update handed over between the integration thread and the render loop is lost or seen twice, and all accesses to shared state are ordered by synchronisation.",
 ["schedules"], "all interleavings of the render loop with the integration threads over non-empty recordings, explored by injected delays at instrumented edges and by ThreadSanitizer",
 "viz is not built or run by the test script; a lost update or lock-order deadlock needs a particular interleaving.",
 ["viz/src/bin/draw_occupancy_grid.rs"],
 [("two mutexes + finished flag", "viz/src/bin/draw_occupancy_grid.rs")],
 observe=["frame log progress, panic log, ThreadSanitizer reports"])

prop("C26", "A recorded drive becomes a map of the place it was driven through",
 "Recording files written for a scene of known points and a drive of known poses, read with the directory readers, each scan moved by the pose of the same index and integrated with that pose's position as sensor origin, give a map in which every cell lies where the scene has it relative to the first sensor position (x east, y north, z up): after every scan each cell clearly inside which points lie holds the accumulated hits, each cell clearly crossed by a beam the accumulated misses, and every cell no beam comes near holds the unknown value, whichever base position, orientation, file order, resolution or tile size is used.",
 ["inputs", "histories"], "all drives of 1..30 scans of up to 12 points, base latitudes up to 75 degrees and any longitude, any yaw and moderate roll and pitch, resolutions 0.5..4 m, displacements within which one percent is below a quarter of a cell",
 "No test reads a file at all, and each part checked alone agrees with itself: conventions between the parts (which pose goes with which scan, which way a transform goes) only show in the whole.",
 ["src/kitti/oxt_reader.rs", "src/kitti/point_cloud_reader.rs", "src/kitti/fs.rs", "src/geom/point_cloud.rs", "src/map/lidar_noise_model.rs", "src/map/occupancy_grid_map.rs"],
 [("read_from_dir", "src/kitti/oxt_reader.rs"), ("PointCloud::transform", "src/geom/point_cloud.rs"), ("integrate_point_cloud", "src/map/lidar_noise_model.rs")],
 observe=["cells and answers of the final map after every scan vs the scene's geometry in f64"])

prop("C27", "Work and memory go with the input and the result, not with the map or the past",
 "The steps a call executes and the memory it takes are bounded by a constant multiple of its input and result: a ray costs as much as the cells it returns (not what lies beyond its range), a scan as much as the sum of its rays, integrating a scan for which the map has the room as much as the scan whatever the size of the map, growth as much as the old and the new map together, reading, writing and converting a single cell and a request for room that is there already a constant, adding to, reading and clearing the record of changes as much as the cells concerned, decoding as much as the bytes, cloud operations as much as the points. Integration without growth keeps no memory, apart from the record of changes when tracking is on.",
 ["inputs", "histories"], "all rays of up to 20,000 cells per axis and scans of up to 400 points, maps of up to 4 million cells, records of up to 2,400 changes added in up to 300 calls, clouds of up to 30,000 points, streams of up to 1 MB in chunks of any size, directories of up to 150 files",
 "Tests judge results on tiny inputs; work that goes with the square of the input or with the size of the whole map gives the same results there, only later.",
 ["src/ray_caster.rs", "src/map/grid_map.rs", "src/map/lidar_noise_model.rs", "src/map/occupancy_grid_map.rs", "src/geom/point_cloud.rs", "src/kitti/oxt_reader.rs", "src/kitti/point_cloud_reader.rs"],
 [("return when the range is exceeded", "src/ray_caster.rs"), ("expand_bounds' early return", "src/map/grid_map.rs"), ("amortised record of changes", "src/map/grid_map.rs")],
 observe=["edges executed and bytes allocated, held and kept per call, from compiler-inserted callbacks and the allocator"])

prop("C28", "Reading a recording leaves no trace",
 "Reading files or directories, successfully or not, changes nothing in or around what is read (no entry is created, removed, renamed, opened for writing or touched), leaves no file open, needs no more than a few descriptors however many files there are, gives the same result when repeated, and prints nothing unless progress was asked for, in which case each file is announced by name before it is read, in index order. No other call of the library prints anything or creates any file, and no call changes the process it runs in: its working directory, environment, threads, limits and signal handling are afterwards what they were.",
 ["inputs", "fault_sequences"], "all directories of 0..300 files, good or with a malformed, unreadable or dangling entry, in a process with 24 descriptors or in this one; calls of every kind on any arguments in a process whose output and state are recorded",
 "No test reads a file; leaks and side effects do not show in results.",
 ["src/kitti/fs.rs", "src/kitti/oxt_reader.rs", "src/kitti/point_cloud_reader.rs", "src/map/grid_map.rs"],
 [("read_from_dir / read_from_file", "src/kitti/oxt_reader.rs"), ("read_from_dir / read_from_file", "src/kitti/point_cloud_reader.rs")],
 observe=["kernel file events (inotify), directory snapshots, /proc/self/fd, output, exit status and state of child processes"])

prop("C29", "The visualiser shows a recording completely read, or nothing",
 "Started on a folder that does not exist, is not a folder or lacks a part (also if that lies in a folder further down or up), or whose poses and scans differ in number, are malformed, truncated or unreadable anywhere, the visualiser ends, saying something, without having shown a single frame. A complete recording is shown, as C24 says, however its folder is named (relative path, link, trailing slash), whatever other material lies beside its data and wherever links put the parts.",
 ["inputs", "fault_sequences"], "all non-empty recordings x one fault of any of the listed kinds at any position, or none x ways of naming the folder",
 "viz is not even built by the test script; a recording cut to what is common to both parts, or read as far as it goes, looks plausible on screen.",
 ["viz/src/bin/draw_occupancy_grid.rs", "src/kitti/oxt_reader.rs", "src/kitti/point_cloud_reader.rs"],
 [("main: path checks, unwrapped reads, equal counts", "viz/src/bin/draw_occupancy_grid.rs")],
 observe=["frame log, output and end of the visualiser's process"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
