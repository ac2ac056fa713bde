From c983f8b909e9e4889ae1acd87c00608f7b10161c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:18 +0000
Subject: [PATCH 1/9] fix: GridMap3i and GridMap3b are 3-D maps

---
 src/map/grid_map.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/map/grid_map.rs b/src/map/grid_map.rs
index 3b4af0c..623fefe 100644
--- a/src/map/grid_map.rs
+++ b/src/map/grid_map.rs
@@ -15,8 +15,8 @@ pub type GridMap2b = GridMap2<bool>;
 
 pub type GridMap3<A> = GridMapN<A, na::U3, nd::Ix3>;
 pub type GridMap3f = GridMap3<f32>;
-pub type GridMap3i = GridMap2<i32>;
-pub type GridMap3b = GridMap2<bool>;
+pub type GridMap3i = GridMap3<i32>;
+pub type GridMap3b = GridMap3<bool>;
 
 pub const DEFAULT_RESOLUTION: f32 = 0.1;
 pub const DEFAULT_TILE_SIZE: usize = 100;
-- 
2.43.0


From 84da4754c9d9e9cb6805c490300f1fe2e368eb05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:38 +0000
Subject: [PATCH 2/9] fix: expand grid maps to include the cells of all points
 within the requested bounds

---
 src/map/grid_map.rs | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/map/grid_map.rs b/src/map/grid_map.rs
index 623fefe..d12e828 100644
--- a/src/map/grid_map.rs
+++ b/src/map/grid_map.rs
@@ -209,12 +209,15 @@ where
     A: na::Scalar,
 {
     fn expand_bounds(&mut self, bounds: &Bounds<na::U2>, default_value: A) {
-        // Expand the bounds here when discretizing in case any point in the point_cloud lie exactly
-        // on a cell boundary. Otherwise it won't be resized to include the cell containing the
-        // boundary point.
-        let new_bounds = self
-            .bounds
-            .enclosing(&bounds.discretized(self.resolution, true));
+        // Cells are centered on multiples of the resolution, so the max cell coordinate (which is
+        // exclusive) must be at least one whole cell higher than the cell that the max point is
+        // rounded to. Otherwise points in the upper half of the last cell, or exactly on its
+        // boundary, would not be included.
+        let mut bounds = bounds.discretized(self.resolution, false);
+        for max_val in bounds.max.iter_mut() {
+            *max_val += self.resolution;
+        }
+        let new_bounds = self.bounds.enclosing(&bounds);
         let new_cell_bounds =
             CellBounds2::from_bounds(&new_bounds, self.resolution).discretized(self.tile_size);
         let new_bounds = Bounds2::from_cell_bounds(&new_cell_bounds, self.resolution);
@@ -256,12 +259,15 @@ where
     A: na::Scalar,
 {
     fn expand_bounds(&mut self, bounds: &Bounds<na::U3>, default_value: A) {
-        // Expand the bounds here when discretizing in case any point in the point_cloud lie exactly
-        // on a cell boundary. Otherwise it won't be resized to include the cell containing the
-        // boundary point.
-        let new_bounds = self
-            .bounds
-            .enclosing(&bounds.discretized(self.resolution, true));
+        // Cells are centered on multiples of the resolution, so the max cell coordinate (which is
+        // exclusive) must be at least one whole cell higher than the cell that the max point is
+        // rounded to. Otherwise points in the upper half of the last cell, or exactly on its
+        // boundary, would not be included.
+        let mut bounds = bounds.discretized(self.resolution, false);
+        for max_val in bounds.max.iter_mut() {
+            *max_val += self.resolution;
+        }
+        let new_bounds = self.bounds.enclosing(&bounds);
         let new_cell_bounds =
             CellBounds3::from_bounds(&new_bounds, self.resolution).discretized(self.tile_size);
         let new_bounds = Bounds3::from_cell_bounds(&new_cell_bounds, self.resolution);
-- 
2.43.0


From 921ea5db63debf4be451656c7b31abed0b52123a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:42 +0000
Subject: [PATCH 3/9] fix: include the sensor origin when expanding the map for
 a point cloud

---
 src/map/lidar_noise_model.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/map/lidar_noise_model.rs b/src/map/lidar_noise_model.rs
index 26c7e40..5e3865c 100644
--- a/src/map/lidar_noise_model.rs
+++ b/src/map/lidar_noise_model.rs
@@ -1,3 +1,4 @@
+use crate::geom::Bounds;
 use crate::geom::Cell;
 use crate::geom::CellToNdIndex;
 use crate::geom::Point;
@@ -119,7 +120,16 @@ where
         origin: &Point<NaD>,
         point_cloud: &PointCloud<NaD>,
     ) {
-        grid_map.expand_bounds(&point_cloud.bounds(), self.default_cell_value());
+        // The rays are cast from the origin, so it must be in bounds as well as all of the points.
+        let mut bounds = Bounds::new(origin.clone(), origin.clone());
+        if point_cloud.num_points() > 0 {
+            let point_cloud_bounds = point_cloud.bounds();
+            for i in 0..origin.len() {
+                bounds.min[i] = origin[i].min(point_cloud_bounds.min[i]);
+                bounds.max[i] = origin[i].max(point_cloud_bounds.max[i]);
+            }
+        }
+        grid_map.expand_bounds(&bounds, self.default_cell_value());
         let (free_cells, occupied_cells) = ray_caster::cast_rays(
             origin,
             point_cloud,
-- 
2.43.0


From 984f8a78c12a2ef5204ff99dcb86daf1d90db218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:43 +0000
Subject: [PATCH 4/9] fix: do not include the world origin in the bounds of a
 point cloud

---
 src/geom/point_cloud.rs | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/geom/point_cloud.rs b/src/geom/point_cloud.rs
index 23f1966..b165463 100644
--- a/src/geom/point_cloud.rs
+++ b/src/geom/point_cloud.rs
@@ -46,18 +46,22 @@ where
 
     /// Returns the bounds that encapsulates all the points in the point cloud.
     pub fn bounds(&self) -> Bounds<NaD> {
-        self.points_iter()
-            .fold(Bounds::<NaD>::empty(), |mut bounds, point| {
-                for (i, point_val) in point.iter().enumerate() {
-                    if *point_val < bounds.min[i] {
-                        bounds.min[i] = *point_val;
-                    }
-                    if *point_val > bounds.max[i] {
-                        bounds.max[i] = *point_val;
-                    }
-                }
-                bounds
-            })
+        let mut points = self.points_iter();
+        let first_point = match points.next() {
+            Some(point) => point,
+            None => return Bounds::<NaD>::empty(),
+        };
+        let bounds = Bounds::<NaD> {
+            min: first_point.clone(),
+            max: first_point,
+        };
+        points.fold(bounds, |mut bounds, point| {
+            for (i, point_val) in point.iter().enumerate() {
+                bounds.min[i] = bounds.min[i].min(*point_val);
+                bounds.max[i] = bounds.max[i].max(*point_val);
+            }
+            bounds
+        })
     }
 }
 
-- 
2.43.0


From 6bb1a5dcd1987b6478f49b19a20958096da0b099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:02 +0000
Subject: [PATCH 5/9] fix: never step past the end cell when casting a ray

---
 src/ray_caster.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/ray_caster.rs b/src/ray_caster.rs
index 608e5ad..87281bf 100644
--- a/src/ray_caster.rs
+++ b/src/ray_caster.rs
@@ -81,7 +81,10 @@ where
     let mut t_max = Point::<NaD>::origin();
     let mut t_delta = Point::<NaD>::origin();
     for i in 0..current_cell.len() {
-        if step[i] == 0.0 {
+        // Never step past the end cell in any dimension, even if floating point rounding (or a ray
+        // that passes exactly through the corner of a cell) says otherwise. If we did, we'd miss
+        // the end cell and the loop below would not terminate.
+        if current_cell[i] == end_cell[i] {
             t_max[i] = std::f32::INFINITY;
             t_delta[i] = std::f32::INFINITY;
             continue;
@@ -119,7 +122,11 @@ where
             }
         };
         current_cell[dim] += step[dim] as isize;
-        t_max[dim] += t_delta[dim];
+        if current_cell[dim] == end_cell[dim] {
+            t_max[dim] = std::f32::INFINITY;
+        } else {
+            t_max[dim] += t_delta[dim];
+        }
         if current_cell == end_cell {
             break;
         }
-- 
2.43.0


From db6c4a66c3da8bd9f4117d716fe0cd0db911a6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:44 +0000
Subject: [PATCH 6/9] fix: keep recorded changed cells valid when the grid map
 is expanded

---
 src/map/grid_map.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/map/grid_map.rs b/src/map/grid_map.rs
index d12e828..b47612e 100644
--- a/src/map/grid_map.rs
+++ b/src/map/grid_map.rs
@@ -244,6 +244,11 @@ where
             ]);
             let from_slice = self.data.slice(nd::s![0..cells_size.x, 0..cells_size.y,]);
             to_slice.assign(&from_slice);
+            // Cell indices are relative to the min bounds, so keep the changed cells pointing at
+            // the same places in the world.
+            for cell in &mut self.changed_cells {
+                *cell += offset;
+            }
         }
         self.bounds = new_bounds;
         self.data = to_data;
@@ -297,6 +302,11 @@ where
                 self.data
                     .slice(nd::s![0..cells_size.x, 0..cells_size.y, 0..cells_size.z,]);
             to_slice.assign(&from_slice);
+            // Cell indices are relative to the min bounds, so keep the changed cells pointing at
+            // the same places in the world.
+            for cell in &mut self.changed_cells {
+                *cell += offset;
+            }
         }
         self.bounds = new_bounds;
         self.data = to_data;
-- 
2.43.0


From beac8066519293840bafa657c4a1937d5f770c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:58 +0000
Subject: [PATCH 7/9] fix: scale longitude by the cosine of the latitude, not
 of the latitude difference

---
 src/kitti/oxt_reader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kitti/oxt_reader.rs b/src/kitti/oxt_reader.rs
index eeaa2d4..c74ada8 100644
--- a/src/kitti/oxt_reader.rs
+++ b/src/kitti/oxt_reader.rs
@@ -32,7 +32,7 @@ fn gps_to_meters(
 ) -> na::Translation3<f32> {
     let dlat = gps_point.vector[0] - gps_origin.vector[0];
     let dlon = gps_point.vector[1] - gps_origin.vector[1];
-    let lat_circumference = EARTH_EQUATOR_CIRCUMFERENCE * dlat.to_radians().cos();
+    let lat_circumference = EARTH_EQUATOR_CIRCUMFERENCE * gps_origin.vector[0].to_radians().cos();
     na::Translation3::<f32>::new(
         (dlon * lat_circumference / 360.0) as f32,
         (dlat * EARTH_POLE_CIRCUMFERENCE / 360.0) as f32,
-- 
2.43.0


From 52e1317033d77253a2c069d84c6f25b470a71836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:58 +0000
Subject: [PATCH 8/9] fix: measure longitude differences the short way across
 the 180th meridian

---
 src/kitti/oxt_reader.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/kitti/oxt_reader.rs b/src/kitti/oxt_reader.rs
index c74ada8..5b482a8 100644
--- a/src/kitti/oxt_reader.rs
+++ b/src/kitti/oxt_reader.rs
@@ -31,7 +31,8 @@ fn gps_to_meters(
     gps_origin: &na::Translation3<f64>,
 ) -> na::Translation3<f32> {
     let dlat = gps_point.vector[0] - gps_origin.vector[0];
-    let dlon = gps_point.vector[1] - gps_origin.vector[1];
+    // The difference in longitude, the short way around (it matters next to the 180th meridian).
+    let dlon = (gps_point.vector[1] - gps_origin.vector[1] + 180.0).rem_euclid(360.0) - 180.0;
     let lat_circumference = EARTH_EQUATOR_CIRCUMFERENCE * gps_origin.vector[0].to_radians().cos();
     na::Translation3::<f32>::new(
         (dlon * lat_circumference / 360.0) as f32,
-- 
2.43.0


From 96fce363dbbfe265ded35fc62da872a35fba22f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:54 +0000
Subject: [PATCH 9/9] fix: key the visualiser's tracked cells by absolute
 position

---
 viz/src/bin/draw_occupancy_grid.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/viz/src/bin/draw_occupancy_grid.rs b/viz/src/bin/draw_occupancy_grid.rs
index b895e5d..1f30b64 100644
--- a/viz/src/bin/draw_occupancy_grid.rs
+++ b/viz/src/bin/draw_occupancy_grid.rs
@@ -59,14 +59,21 @@ impl AppState {
             let grid_map = self.grid_updater.grid_map.lock().unwrap();
             for cell in changed_cells.iter() {
                 let occupied = grid_map.occupied(cell);
+                let point = grid_map.point_from_cell(cell);
+                // The cells of the map are relative to its min bounds, which move when it expands.
+                // So key the tracked cells by their absolute position.
+                let key = kuba::geom::converter::cell_from_point(
+                    &point,
+                    &kuba::Point3::origin(),
+                    grid_map.resolution(),
+                );
                 if occupied {
-                    if !self.tracked_cells.contains_key(cell) {
-                        self.tracked_cells
-                            .insert(*cell, grid_map.point_from_cell(cell));
+                    if !self.tracked_cells.contains_key(&key) {
+                        self.tracked_cells.insert(key, point);
                     }
                 } else {
-                    if self.tracked_cells.contains_key(cell) {
-                        self.tracked_cells.remove(cell);
+                    if self.tracked_cells.contains_key(&key) {
+                        self.tracked_cells.remove(&key);
                     }
                 }
             }
-- 
2.43.0

