From 5e282fa2be7c7e0e2b0aedc9aa725aa469f60c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:38 +0000
Subject: [PATCH 01/11] fix: scale longitude by the cosine of the latitude in
 gps_to_meters

The circumference of the circle of latitude was computed from the latitude
difference, so that east displacements were too large by 1/cos(latitude).
---
 src/kitti/oxt_reader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kitti/oxt_reader.rs b/src/kitti/oxt_reader.rs
index eeaa2d4..c74ada8 100644
--- a/src/kitti/oxt_reader.rs
+++ b/src/kitti/oxt_reader.rs
@@ -32,7 +32,7 @@ fn gps_to_meters(
 ) -> na::Translation3<f32> {
     let dlat = gps_point.vector[0] - gps_origin.vector[0];
     let dlon = gps_point.vector[1] - gps_origin.vector[1];
-    let lat_circumference = EARTH_EQUATOR_CIRCUMFERENCE * dlat.to_radians().cos();
+    let lat_circumference = EARTH_EQUATOR_CIRCUMFERENCE * gps_origin.vector[0].to_radians().cos();
     na::Translation3::<f32>::new(
         (dlon * lat_circumference / 360.0) as f32,
         (dlat * EARTH_POLE_CIRCUMFERENCE / 360.0) as f32,
-- 
2.43.0


From c027cb9fa6fadb61514b09d5c7373c88bbd86ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:54 +0000
Subject: [PATCH 02/11] fix: stop rays from stepping past their end cell

---
 src/ray_caster.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ray_caster.rs b/src/ray_caster.rs
index 608e5ad..a35e103 100644
--- a/src/ray_caster.rs
+++ b/src/ray_caster.rs
@@ -81,7 +81,9 @@ where
     let mut t_max = Point::<NaD>::origin();
     let mut t_delta = Point::<NaD>::origin();
     for i in 0..current_cell.len() {
-        if step[i] == 0.0 {
+        // Never step in a direction in which the end cell is already reached. Otherwise floating point
+        // rounding can make the ray step past the end cell, in which case it would never end.
+        if step[i] == 0.0 || current_cell[i] == end_cell[i] {
             t_max[i] = std::f32::INFINITY;
             t_delta[i] = std::f32::INFINITY;
             continue;
@@ -120,6 +122,9 @@ where
         };
         current_cell[dim] += step[dim] as isize;
         t_max[dim] += t_delta[dim];
+        if current_cell[dim] == end_cell[dim] {
+            t_max[dim] = std::f32::INFINITY;
+        }
         if current_cell == end_cell {
             break;
         }
-- 
2.43.0


From c03e53ad0d506ccde5a3608b8b65d2a892b94aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:12 +0000
Subject: [PATCH 03/11] fix: expand_bounds covers the points in the upper half
 of the last cell

---
 src/map/grid_map.rs | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/map/grid_map.rs b/src/map/grid_map.rs
index 3b4af0c..03059fa 100644
--- a/src/map/grid_map.rs
+++ b/src/map/grid_map.rs
@@ -209,12 +209,16 @@ where
     A: na::Scalar,
 {
     fn expand_bounds(&mut self, bounds: &Bounds<na::U2>, default_value: A) {
-        // Expand the bounds here when discretizing in case any point in the point_cloud lie exactly
-        // on a cell boundary. Otherwise it won't be resized to include the cell containing the
-        // boundary point.
+        // Expand the max by a whole cell when discretizing. Cells are centered on multiples of the
+        // resolution, so any point in the upper half of the last cell lies in the cell after it.
+        // Otherwise it won't be resized to include the cell containing that point.
+        let bounds = Bounds::new(
+            bounds.min.clone(),
+            Point::from(bounds.max.coords.map(|val| val + self.resolution)),
+        );
         let new_bounds = self
             .bounds
-            .enclosing(&bounds.discretized(self.resolution, true));
+            .enclosing(&bounds.discretized(self.resolution, false));
         let new_cell_bounds =
             CellBounds2::from_bounds(&new_bounds, self.resolution).discretized(self.tile_size);
         let new_bounds = Bounds2::from_cell_bounds(&new_cell_bounds, self.resolution);
@@ -256,12 +260,16 @@ where
     A: na::Scalar,
 {
     fn expand_bounds(&mut self, bounds: &Bounds<na::U3>, default_value: A) {
-        // Expand the bounds here when discretizing in case any point in the point_cloud lie exactly
-        // on a cell boundary. Otherwise it won't be resized to include the cell containing the
-        // boundary point.
+        // Expand the max by a whole cell when discretizing. Cells are centered on multiples of the
+        // resolution, so any point in the upper half of the last cell lies in the cell after it.
+        // Otherwise it won't be resized to include the cell containing that point.
+        let bounds = Bounds::new(
+            bounds.min.clone(),
+            Point::from(bounds.max.coords.map(|val| val + self.resolution)),
+        );
         let new_bounds = self
             .bounds
-            .enclosing(&bounds.discretized(self.resolution, true));
+            .enclosing(&bounds.discretized(self.resolution, false));
         let new_cell_bounds =
             CellBounds3::from_bounds(&new_bounds, self.resolution).discretized(self.tile_size);
         let new_bounds = Bounds3::from_cell_bounds(&new_cell_bounds, self.resolution);
-- 
2.43.0


From deaaedc2391a034b623fb884c76240b5cdcdc5ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:13 +0000
Subject: [PATCH 04/11] fix: grow the map to contain the sensor when
 integrating a scan

---
 src/map/lidar_noise_model.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/map/lidar_noise_model.rs b/src/map/lidar_noise_model.rs
index 26c7e40..955178c 100644
--- a/src/map/lidar_noise_model.rs
+++ b/src/map/lidar_noise_model.rs
@@ -1,3 +1,4 @@
+use crate::geom::Bounds;
 use crate::geom::Cell;
 use crate::geom::CellToNdIndex;
 use crate::geom::Point;
@@ -119,7 +120,9 @@ where
         origin: &Point<NaD>,
         point_cloud: &PointCloud<NaD>,
     ) {
-        grid_map.expand_bounds(&point_cloud.bounds(), self.default_cell_value());
+        // The rays start at the origin, so it needs to be inside the map too.
+        let bounds = Bounds::new(origin.clone(), origin.clone()).enclosing(&point_cloud.bounds());
+        grid_map.expand_bounds(&bounds, self.default_cell_value());
         let (free_cells, occupied_cells) = ray_caster::cast_rays(
             origin,
             point_cloud,
-- 
2.43.0


From 30d13056699083a7b52275eaa1d9b2c8fbd4c4cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:14 +0000
Subject: [PATCH 05/11] fix: keep the changed cells in current coordinates when
 the map grows

---
 src/map/grid_map.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/map/grid_map.rs b/src/map/grid_map.rs
index 03059fa..f5fdda2 100644
--- a/src/map/grid_map.rs
+++ b/src/map/grid_map.rs
@@ -245,6 +245,9 @@ where
             ]);
             let from_slice = self.data.slice(nd::s![0..cells_size.x, 0..cells_size.y,]);
             to_slice.assign(&from_slice);
+            for cell in &mut self.changed_cells {
+                *cell += offset;
+            }
         }
         self.bounds = new_bounds;
         self.data = to_data;
@@ -299,6 +302,9 @@ where
                 self.data
                     .slice(nd::s![0..cells_size.x, 0..cells_size.y, 0..cells_size.z,]);
             to_slice.assign(&from_slice);
+            for cell in &mut self.changed_cells {
+                *cell += offset;
+            }
         }
         self.bounds = new_bounds;
         self.data = to_data;
-- 
2.43.0


From 4076c87ce72f3458c6af61fc7714acaad0188268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:15 +0000
Subject: [PATCH 06/11] fix: align the initial bounds of a map to its
 resolution

---
 src/map/grid_map.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/map/grid_map.rs b/src/map/grid_map.rs
index f5fdda2..993e7c6 100644
--- a/src/map/grid_map.rs
+++ b/src/map/grid_map.rs
@@ -94,6 +94,9 @@ where
         + na::allocator::Allocator<isize, NaD>,
 {
     pub fn new(resolution: f32, bounds: Bounds<NaD>, tile_size: usize, default_value: A) -> Self {
+        // Cells are aligned to multiples of the resolution when the map is expanded. Start out that
+        // way, otherwise the values would move by a fraction of a cell.
+        let bounds = bounds.discretized(resolution, false);
         GridMapN {
             data: ndarray_with_bounds(resolution, &bounds, default_value),
             resolution: resolution,
-- 
2.43.0


From cd10aa26b43a9990dd29053cd5872488930a6156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:40 +0000
Subject: [PATCH 07/11] fix: re-key the viewer's tracked cells when the map has
 grown

---
 viz/src/bin/draw_occupancy_grid.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/viz/src/bin/draw_occupancy_grid.rs b/viz/src/bin/draw_occupancy_grid.rs
index b895e5d..e61dcc1 100644
--- a/viz/src/bin/draw_occupancy_grid.rs
+++ b/viz/src/bin/draw_occupancy_grid.rs
@@ -57,6 +57,12 @@ impl AppState {
         {
             let mut changed_cells = self.grid_updater.changed_cells.lock().unwrap();
             let grid_map = self.grid_updater.grid_map.lock().unwrap();
+            // The map may have grown, in which case the cells tracked so far have other indices now.
+            self.tracked_cells = self
+                .tracked_cells
+                .values()
+                .map(|point| (grid_map.cell_from_point(point), *point))
+                .collect();
             for cell in changed_cells.iter() {
                 let occupied = grid_map.occupied(cell);
                 if occupied {
-- 
2.43.0


From 98cec68bafd04196699663cb6a80fc5fee65ea0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:03 +0000
Subject: [PATCH 08/11] fix: do not stretch the bounds of a point cloud to the
 world's origin

Integrating a scan far from the origin grew the map all the way to it.
---
 src/geom/point_cloud.rs      | 28 +++++++++++++++++++---------
 src/map/lidar_noise_model.rs |  9 ++++++++-
 2 files changed, 27 insertions(+), 10 deletions(-)

diff --git a/src/geom/point_cloud.rs b/src/geom/point_cloud.rs
index 23f1966..699653c 100644
--- a/src/geom/point_cloud.rs
+++ b/src/geom/point_cloud.rs
@@ -44,20 +44,30 @@ where
         self.data.shape().1
     }
 
-    /// Returns the bounds that encapsulates all the points in the point cloud.
+    /// Returns the bounds that encapsulates all the points in the point cloud, or empty bounds if there
+    /// are no points.
     pub fn bounds(&self) -> Bounds<NaD> {
-        self.points_iter()
-            .fold(Bounds::<NaD>::empty(), |mut bounds, point| {
+        let (min, max) = self.points_iter().fold(
+            (
+                Point::<NaD>::from(na::VectorN::<f32, NaD>::repeat(std::f32::INFINITY)),
+                Point::<NaD>::from(na::VectorN::<f32, NaD>::repeat(std::f32::NEG_INFINITY)),
+            ),
+            |(mut min, mut max), point| {
                 for (i, point_val) in point.iter().enumerate() {
-                    if *point_val < bounds.min[i] {
-                        bounds.min[i] = *point_val;
+                    if *point_val < min[i] {
+                        min[i] = *point_val;
                     }
-                    if *point_val > bounds.max[i] {
-                        bounds.max[i] = *point_val;
+                    if *point_val > max[i] {
+                        max[i] = *point_val;
                     }
                 }
-                bounds
-            })
+                (min, max)
+            },
+        );
+        if min.iter().zip(max.iter()).any(|(min_val, max_val)| min_val > max_val) {
+            return Bounds::<NaD>::empty();
+        }
+        Bounds::new(min, max)
     }
 }
 
diff --git a/src/map/lidar_noise_model.rs b/src/map/lidar_noise_model.rs
index 955178c..eccddad 100644
--- a/src/map/lidar_noise_model.rs
+++ b/src/map/lidar_noise_model.rs
@@ -121,7 +121,14 @@ where
         point_cloud: &PointCloud<NaD>,
     ) {
         // The rays start at the origin, so it needs to be inside the map too.
-        let bounds = Bounds::new(origin.clone(), origin.clone()).enclosing(&point_cloud.bounds());
+        let mut bounds = Bounds::new(origin.clone(), origin.clone());
+        if point_cloud.num_points() > 0 {
+            let point_cloud_bounds = point_cloud.bounds();
+            for i in 0..origin.len() {
+                bounds.min[i] = bounds.min[i].min(point_cloud_bounds.min[i]);
+                bounds.max[i] = bounds.max[i].max(point_cloud_bounds.max[i]);
+            }
+        }
         grid_map.expand_bounds(&bounds, self.default_cell_value());
         let (free_cells, occupied_cells) = ray_caster::cast_rays(
             origin,
-- 
2.43.0


From 6cc745aa5be7081f4c94437adf498b344b3e26b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:27 +0000
Subject: [PATCH 09/11] fix: take the short way around the earth in
 gps_to_meters

---
 src/kitti/oxt_reader.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/kitti/oxt_reader.rs b/src/kitti/oxt_reader.rs
index c74ada8..229544a 100644
--- a/src/kitti/oxt_reader.rs
+++ b/src/kitti/oxt_reader.rs
@@ -32,6 +32,8 @@ fn gps_to_meters(
 ) -> na::Translation3<f32> {
     let dlat = gps_point.vector[0] - gps_origin.vector[0];
     let dlon = gps_point.vector[1] - gps_origin.vector[1];
+    // Take the short way around if the 180 degree meridian lies in between.
+    let dlon = dlon - 360.0 * (dlon / 360.0).round();
     let lat_circumference = EARTH_EQUATOR_CIRCUMFERENCE * gps_origin.vector[0].to_radians().cos();
     na::Translation3::<f32>::new(
         (dlon * lat_circumference / 360.0) as f32,
-- 
2.43.0


From e8376d21d60246e04cce51249131b1346725e9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:45 +0000
Subject: [PATCH 10/11] fix: do not panic when printing a file name that is not
 valid UTF-8

---
 src/kitti/oxt_reader.rs         | 2 +-
 src/kitti/point_cloud_reader.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kitti/oxt_reader.rs b/src/kitti/oxt_reader.rs
index 229544a..d0dce04 100644
--- a/src/kitti/oxt_reader.rs
+++ b/src/kitti/oxt_reader.rs
@@ -99,7 +99,7 @@ pub fn read_from_dir(dir: &std::path::Path, print_status: bool) -> std::io::Resu
                     "Reading file ({} of {}) {}",
                     i + 1,
                     num_paths,
-                    path.file_name().unwrap().to_str().unwrap()
+                    path.file_name().unwrap().to_string_lossy()
                 );
             }
             match read_from_file(&path, gps_origin) {
diff --git a/src/kitti/point_cloud_reader.rs b/src/kitti/point_cloud_reader.rs
index dc45871..e48f30b 100644
--- a/src/kitti/point_cloud_reader.rs
+++ b/src/kitti/point_cloud_reader.rs
@@ -54,7 +54,7 @@ pub fn read_from_dir(
                     "Reading file ({} of {}) {}",
                     i + 1,
                     num_paths,
-                    path.file_name().unwrap().to_str().unwrap()
+                    path.file_name().unwrap().to_string_lossy()
                 );
             }
             read_from_file(&path)
-- 
2.43.0


From 8c7a07c0d287e3fe0ff500f30db001a3a1b2ca30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:48 +0000
Subject: [PATCH 11/11] fix: do not accumulate rounding errors along a ray

---
 src/ray_caster.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/ray_caster.rs b/src/ray_caster.rs
index a35e103..b76cd0a 100644
--- a/src/ray_caster.rs
+++ b/src/ray_caster.rs
@@ -78,13 +78,13 @@ where
     let direction = ray / ray_length;
     let step = geom::vector::signum(&direction);
     let mut current_cell = origin_cell.clone();
-    let mut t_max = Point::<NaD>::origin();
+    let mut t_start = Point::<NaD>::origin();
     let mut t_delta = Point::<NaD>::origin();
     for i in 0..current_cell.len() {
         // Never step in a direction in which the end cell is already reached. Otherwise floating point
         // rounding can make the ray step past the end cell, in which case it would never end.
         if step[i] == 0.0 || current_cell[i] == end_cell[i] {
-            t_max[i] = std::f32::INFINITY;
+            t_start[i] = std::f32::INFINITY;
             t_delta[i] = std::f32::INFINITY;
             continue;
         }
@@ -93,9 +93,10 @@ where
             bounds.min[i],
             resolution,
         ) + step[i] * resolution * 0.5;
-        t_max[i] = (cell_border - origin[i]) / direction[i];
+        t_start[i] = (cell_border - origin[i]) / direction[i];
         t_delta[i] = resolution / direction[i].abs();
     }
+    let mut t_max = t_start.clone();
     loop {
         // This somewhat clunky logic is just a fast way of finding the index of the minimum value
         // in t_max. I.E. which direction (x, y, or z) is the nearest cell border.
@@ -121,7 +122,10 @@ where
             }
         };
         current_cell[dim] += step[dim] as isize;
-        t_max[dim] += t_delta[dim];
+        // Do not sum up t_delta. The rounding errors would add up too, and a long ray would end up in
+        // the wrong cells.
+        let num_steps = (current_cell[dim] - origin_cell[dim]).abs();
+        t_max[dim] = t_start[dim] + num_steps as f32 * t_delta[dim];
         if current_cell[dim] == end_cell[dim] {
             t_max[dim] = std::f32::INFINITY;
         }
-- 
2.43.0

