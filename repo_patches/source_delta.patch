From 90558c4c3ceac4868cb13d1e17e9e2724699c0d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:07 +0000
Subject: [PATCH 01/25] verif: guarded access to private items for the
 verification harness

---
 src/io/mod.rs              | 6 ++++++
 src/lib.rs                 | 6 ++++++
 src/quadtree/mod.rs        | 6 ++++++
 src/sweep/direction/mod.rs | 6 ++++++
 src/sweep/mod.rs           | 6 ++++++
 src/voronoi/mod.rs         | 6 ++++++
 6 files changed, 36 insertions(+)

diff --git a/src/io/mod.rs b/src/io/mod.rs
index 32e35e1..1372f8b 100644
--- a/src/io/mod.rs
+++ b/src/io/mod.rs
@@ -100,3 +100,9 @@ impl<T> std::ops::Deref for OutputDatasetDescriptor<T> {
         &self.descriptor
     }
 }
+
+/// Access to private items for the verification harness.
+#[cfg(subsweep_verif)]
+pub mod verif {
+    include!(concat!(env!("SUBSWEEP_VERIF_HOOKS"), "/io.rs"));
+}
diff --git a/src/lib.rs b/src/lib.rs
index c101dd2..20f6249 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -55,3 +55,9 @@ mod named {
 pub(crate) mod test_examples;
 #[cfg(test)]
 pub(crate) mod test_utils;
+
+/// Access to private items for the verification harness.
+#[cfg(subsweep_verif)]
+pub mod verif {
+    include!(concat!(env!("SUBSWEEP_VERIF_HOOKS"), "/root.rs"));
+}
diff --git a/src/quadtree/mod.rs b/src/quadtree/mod.rs
index 6e8b287..2978d99 100644
--- a/src/quadtree/mod.rs
+++ b/src/quadtree/mod.rs
@@ -119,6 +119,12 @@ impl<N: NodeDataType<L>, L: LeafDataType> QuadTree<N, L> {
     }
 }
 
+/// Access to private items for the verification harness.
+#[cfg(subsweep_verif)]
+pub mod verif {
+    include!(concat!(env!("SUBSWEEP_VERIF_HOOKS"), "/quadtree.rs"));
+}
+
 #[cfg(test)]
 pub mod tests {
     use super::*;
diff --git a/src/sweep/direction/mod.rs b/src/sweep/direction/mod.rs
index 6b9dfd6..e4327ba 100644
--- a/src/sweep/direction/mod.rs
+++ b/src/sweep/direction/mod.rs
@@ -209,6 +209,12 @@ pub(super) fn init_directions_rng(sim: &mut Simulation) {
     sim.insert_resource(DirectionsRng(StdRng::seed_from_u64(DIRECTIONS_RNG_SEED)));
 }
 
+/// Access to private items for the verification harness.
+#[cfg(subsweep_verif)]
+pub mod verif {
+    include!(concat!(env!("SUBSWEEP_VERIF_HOOKS"), "/direction.rs"));
+}
+
 #[cfg(test)]
 mod tests {
     use rand::rngs::StdRng;
diff --git a/src/sweep/mod.rs b/src/sweep/mod.rs
index a66d17d..d1c2c6b 100644
--- a/src/sweep/mod.rs
+++ b/src/sweep/mod.rs
@@ -802,3 +802,9 @@ fn show_num_directions_system(
 ) {
     performance_data.record_number("num_sweep_directions", parameters.directions.num());
 }
+
+/// Access to private items for the verification harness.
+#[cfg(subsweep_verif)]
+pub mod verif {
+    include!(concat!(env!("SUBSWEEP_VERIF_HOOKS"), "/sweep.rs"));
+}
diff --git a/src/voronoi/mod.rs b/src/voronoi/mod.rs
index 33a54e5..7f98899 100644
--- a/src/voronoi/mod.rs
+++ b/src/voronoi/mod.rs
@@ -135,6 +135,12 @@ mod tests {
     }
 }
 
+/// Access to private items for the verification harness.
+#[cfg(subsweep_verif)]
+pub mod verif {
+    include!(concat!(env!("SUBSWEEP_VERIF_HOOKS"), "/voronoi.rs"));
+}
+
 #[cfg(test)]
 mod quantitative_tests {
     use super::VoronoiGrid;
-- 
2.43.0


From 391344f1004f4871eca83af19d12c8478d09939c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:07 +0000
Subject: [PATCH 02/25] fix: sign of 3x3 and 4x4 determinants was wrong for
 large entries

The float result was trusted whenever it was larger than 1e-15 times every
entry, but its rounding error scales with the products of entries.
---
 src/voronoi/math/precision_types.rs |  2 +-
 src/voronoi/math/utils.rs           | 28 ++++++++++++++++++++++++++--
 2 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/src/voronoi/math/precision_types.rs b/src/voronoi/math/precision_types.rs
index 938be52..a2d2c51 100644
--- a/src/voronoi/math/precision_types.rs
+++ b/src/voronoi/math/precision_types.rs
@@ -30,7 +30,7 @@ pub const TRIANGLE_CONTAINS_EPSILON: f64 = 1e-15;
 pub const TRIANGLE_INTERSECTION_TYPE_EPSILON: f64 = 1e-15;
 pub const TETRAHEDRON_POINTS_ON_SAME_SIDE_EPSILON: f64 = 1e-15;
 pub const DETERMINANT_3X3_EPSILON: f64 = 1e-15;
-pub const DETERMINANT_4X4_EPSILON: f64 = 1e-15;
+pub const DETERMINANT_4X4_EPSILON: f64 = 2e-15;
 pub const DETERMINANT_5X5_EPSILON: f64 = 1e-15;
 
 pub trait FloatError {
diff --git a/src/voronoi/math/utils.rs b/src/voronoi/math/utils.rs
index 12e30af..05d36e0 100644
--- a/src/voronoi/math/utils.rs
+++ b/src/voronoi/math/utils.rs
@@ -203,6 +203,25 @@ fn compare_result_against_entries<const D: usize>(
     Ok(val)
 }
 
+/// Compares a determinant against its rounding error, which scales
+/// with the size of the products that are summed up. The product of
+/// the row sums is an upper bound for the sum of their absolute values.
+fn compare_result_against_products<const D: usize>(
+    val: f64,
+    m: &Matrix<D, D, f64>,
+    epsilon: f64,
+) -> Result<f64, PrecisionError> {
+    let sum_of_products: f64 = m
+        .iter()
+        .map(|row| row.iter().map(|entry| entry.abs()).sum::<f64>())
+        .product();
+    if val.abs() > sum_of_products * epsilon {
+        Ok(val)
+    } else {
+        Err(PrecisionError)
+    }
+}
+
 /// Contains information about whether an operation succeeded using
 /// normal float operations or whether it required arbitrary precision
 /// computations.
@@ -226,10 +245,11 @@ fn determine_sign_with_arbitrary_precision_if_necessary<const D: usize>(
     m: Matrix<D, D, f64>,
     f: fn(Matrix<D, D, f64>) -> f64,
     f_arbitrary_precision: fn(Matrix<D, D, PrecisionFloat>) -> PrecisionFloat,
+    compare: fn(f64, &Matrix<D, D, f64>, f64) -> Result<f64, PrecisionError>,
     epsilon: f64,
 ) -> OperationResult<Sign> {
     let val = f(m);
-    match compare_result_against_entries(val, &m, epsilon) {
+    match compare(val, &m, epsilon) {
         Ok(val) => OperationResult::Float(Sign::of(val)),
         Err(_) => {
             let m = lift_matrix(m);
@@ -239,12 +259,13 @@ fn determine_sign_with_arbitrary_precision_if_necessary<const D: usize>(
 }
 
 macro_rules! determinant_impl {
-    ($result_fn_name: ident, $sign_fn_name: ident, $base_fn: ident, $epsilon: expr, $num: literal) => {
+    ($result_fn_name: ident, $sign_fn_name: ident, $base_fn: ident, $compare_fn: ident, $epsilon: expr, $num: literal) => {
         fn $result_fn_name(a: Matrix<$num, $num, f64>) -> OperationResult<Sign> {
             determine_sign_with_arbitrary_precision_if_necessary(
                 a,
                 $base_fn::<f64>,
                 $base_fn::<PrecisionFloat>,
+                $compare_fn,
                 $epsilon,
             )
         }
@@ -259,6 +280,7 @@ determinant_impl!(
     determinant3x3_sign_result,
     determinant3x3_sign,
     determinant3x3,
+    compare_result_against_products,
     DETERMINANT_3X3_EPSILON,
     3
 );
@@ -266,6 +288,7 @@ determinant_impl!(
     determinant4x4_sign_result,
     determinant4x4_sign,
     determinant4x4,
+    compare_result_against_products,
     DETERMINANT_4X4_EPSILON,
     4
 );
@@ -273,6 +296,7 @@ determinant_impl!(
     determinant5x5_sign_result,
     determinant5x5_sign,
     determinant5x5,
+    compare_result_against_entries,
     DETERMINANT_5X5_EPSILON,
     5
 );
-- 
2.43.0


From f70bc2104d51326c60c18a1ddd9e6237c9dee3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:03 +0000
Subject: [PATCH 03/25] fix: send rate corrections to inactive cells on other
 ranks

Corrections for inactive neighbours were added if the neighbour is local, but
dropped if it is on another rank, so with several timestep levels photons were
lost and the result depended on the domain decomposition.
---
 src/sweep/grid/cell.rs |  4 ++++
 src/sweep/mod.rs       | 44 +++++++++++++++++++++++-------------------
 2 files changed, 28 insertions(+), 20 deletions(-)

diff --git a/src/sweep/grid/cell.rs b/src/sweep/grid/cell.rs
index 238ab3a..2a8f458 100644
--- a/src/sweep/grid/cell.rs
+++ b/src/sweep/grid/cell.rs
@@ -31,6 +31,10 @@ impl ParticleType {
         matches!(self, Self::Local(_))
     }
 
+    pub fn is_remote(&self) -> bool {
+        matches!(self, Self::Remote(_) | Self::RemotePeriodic(_))
+    }
+
     pub fn unwrap_id(&self) -> ParticleId {
         match self {
             Self::Local(particle_id) => *particle_id,
diff --git a/src/sweep/mod.rs b/src/sweep/mod.rs
index d1c2c6b..b2235ec 100644
--- a/src/sweep/mod.rs
+++ b/src/sweep/mod.rs
@@ -354,10 +354,16 @@ impl<C: Chemistry> Sweep<C> {
             .into_iter()
             .map(|rank| (rank, 0))
             .collect();
-        for (id, cell) in self.cells.enumerate_active(self.current_level) {
+        for (id, level, cell) in self.cells.enumerate_with_levels() {
+            // Inactive cells are not solved, but they still receive the
+            // rate corrections of their active neighbours on other ranks.
+            let cell_is_active = level.is_active(self.current_level);
             let mut num_missing_upwind = CountByDir::new(self.directions.len(), 0);
             for (dir_index, dir) in self.directions.enumerate() {
                 for (face, neighbour) in cell.neighbours.iter() {
+                    if !cell_is_active && !neighbour.is_remote() {
+                        continue;
+                    }
                     if !face.points_upwind(dir) || neighbour.is_boundary() {
                         continue;
                     }
@@ -381,7 +387,9 @@ impl<C: Chemistry> Sweep<C> {
                     }
                 }
             }
-            self.sites.get_mut(id).num_missing_upwind = num_missing_upwind;
+            if cell_is_active {
+                self.sites.get_mut(id).num_missing_upwind = num_missing_upwind;
+            }
         }
     }
 
@@ -518,15 +526,13 @@ impl<C: Chemistry> Sweep<C> {
         rate_correction: Rate<C>,
         remote: &RemoteNeighbour,
     ) {
-        if self.is_active(remote.id) {
-            let rate_data = RateData {
-                dir: task.dir,
-                rate: rate_correction,
-                id: remote.id,
-                periodic: false,
-            };
-            self.to_send[remote.rank].push(rate_data);
-        }
+        let rate_data = RateData {
+            dir: task.dir,
+            rate: rate_correction,
+            id: remote.id,
+            periodic: false,
+        };
+        self.to_send[remote.rank].push(rate_data);
     }
 
     fn handle_remote_periodic_neighbour(
@@ -535,15 +541,13 @@ impl<C: Chemistry> Sweep<C> {
         rate_correction: Rate<C>,
         neighbour: &RemotePeriodicNeighbour,
     ) {
-        if self.is_active(neighbour.id) {
-            let rate_data = RateData {
-                dir: task.dir,
-                rate: rate_correction,
-                id: neighbour.id,
-                periodic: true,
-            };
-            self.to_send[neighbour.rank].push(rate_data);
-        }
+        let rate_data = RateData {
+            dir: task.dir,
+            rate: rate_correction,
+            id: neighbour.id,
+            periodic: true,
+        };
+        self.to_send[neighbour.rank].push(rate_data);
     }
 
     fn update_chemistry(&mut self, timers: &mut Performance) {
-- 
2.43.0


From efde4dc510a5f8f4d344f75f94faa6202bac5fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:13 +0000
Subject: [PATCH 04/25] fix: all ranks take part in the sum of initial tasks of
 the deadlock check

A rank without active cells returned before the collective operation, so with
check_deadlock and several timestep levels the simulation itself hung.
---
 src/sweep/deadlock_detection.rs | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/sweep/deadlock_detection.rs b/src/sweep/deadlock_detection.rs
index 7e5d856..afbdbf1 100644
--- a/src/sweep/deadlock_detection.rs
+++ b/src/sweep/deadlock_detection.rs
@@ -84,10 +84,6 @@ impl<C: Chemistry> Sweep<C> {
     }
 
     fn check_some_initial_task_exists(&self) {
-        let num_to_solve = self.cells.enumerate_active(self.current_level).count();
-        if num_to_solve == 0 {
-            return;
-        }
         let num_initial_tasks = self.to_solve.len();
         let mut ex = MpiWorld::new_custom_tag(DEADLOCK_DETECTION_TAG);
         let total: usize = ex.all_gather_sum(&num_initial_tasks);
-- 
2.43.0


From b4459b2e47c12e0e7cad8aaf1b127a27f2541bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:00 +0000
Subject: [PATCH 05/25] fix: wait for all pending sends before dropping the
 sweep communicator

Only the first pending request was awaited, so the send buffers of the other
ranks were freed while MPI could still read them.
---
 src/sweep/communicator.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/sweep/communicator.rs b/src/sweep/communicator.rs
index 500fe4f..606563b 100644
--- a/src/sweep/communicator.rs
+++ b/src/sweep/communicator.rs
@@ -118,7 +118,6 @@ impl<C: Chemistry> Drop for SweepCommunicator<C> {
         for (rank, request) in self.requests.iter() {
             if let Some(request) = request {
                 self.wait_for_request(rank, *request);
-                return;
             }
         }
     }
-- 
2.43.0


From d0f3f2b05857a1c4b5b9d2306a0bb10f97611799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:09 +0000
Subject: [PATCH 06/25] fix: search the domain cutoffs over all bits of the
 Peano key

The search stopped after as many halvings as there are bits per dimension, so
that particles clustered in a small part of the box all landed on one rank.
---
 src/domain/key.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/domain/key.rs b/src/domain/key.rs
index 5109af4..6df80b8 100644
--- a/src/domain/key.rs
+++ b/src/domain/key.rs
@@ -26,7 +26,7 @@ pub trait Key: PartialOrd + Ord + Copy + Clone + Debug + Equivalence {
 
 impl Key for PeanoKey2d {
     type Dimension = TwoD;
-    const MAX_DEPTH: usize = NUM_BITS_PER_DIMENSION_2D as usize;
+    const MAX_DEPTH: usize = 2 * NUM_BITS_PER_DIMENSION_2D as usize;
 
     fn middle(start: Self, end: Self) -> Self {
         Self(start.0 / 2 + end.0 / 2)
@@ -40,7 +40,7 @@ impl Key for PeanoKey2d {
 impl Key for PeanoKey3d {
     type Dimension = ThreeD;
 
-    const MAX_DEPTH: usize = NUM_BITS_PER_DIMENSION_3D as usize;
+    const MAX_DEPTH: usize = 3 * NUM_BITS_PER_DIMENSION_3D as usize;
 
     fn middle(start: Self, end: Self) -> Self {
         Self(start.0 / 2 + end.0 / 2)
-- 
2.43.0


From 6eb7c6297f055a24003471a9a349b01483882ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:09 +0000
Subject: [PATCH 07/25] fix: count particles that share a Peano key

binary_search returns any of several equal keys, so load_in_range miscounted
them and could underflow.
---
 src/domain/decomposition.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/domain/decomposition.rs b/src/domain/decomposition.rs
index f389242..adb6df5 100644
--- a/src/domain/decomposition.rs
+++ b/src/domain/decomposition.rs
@@ -235,13 +235,9 @@ impl<K: Key> KeyCounter<K> {
 
 impl<K: Key> LoadCounter<K> for KeyCounter<K> {
     fn load_in_range(&mut self, start: K, end: K) -> Work {
-        let start = self.keys.binary_search(&start).unwrap_or_else(|e| e);
-        let end = self
-            .keys
-            .binary_search(&end)
-            .map(|x| x + 1)
-            .unwrap_or_else(|e| e);
-        end as u64 - start as u64
+        let start = self.keys.partition_point(|key| *key < start);
+        let end = self.keys.partition_point(|key| *key <= end);
+        (end as u64).saturating_sub(start as u64)
     }
 
     fn min_key(&mut self) -> K {
-- 
2.43.0


From 17813ae8d39800c2de9c876b1154cb6773de549d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:09 +0000
Subject: [PATCH 08/25] fix: assign the largest Peano key to the last rank

The last cutoff saturates at the largest 2D key, which then belonged to rank
num_ranks.
---
 src/domain/decomposition.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/domain/decomposition.rs b/src/domain/decomposition.rs
index adb6df5..6407f7b 100644
--- a/src/domain/decomposition.rs
+++ b/src/domain/decomposition.rs
@@ -94,7 +94,8 @@ impl<K: Key> Decomposition<K> {
         self.cuts
             .binary_search(&key)
             .map(|x| x + 1)
-            .unwrap_or_else(|e| e) as i32
+            .unwrap_or_else(|e| e)
+            .min(self.num_ranks - 1) as i32
     }
 
     pub fn get_imbalance(&self) -> f64 {
-- 
2.43.0


From 17bb45f0b056b198d5377e2373d4e0f3bf78dc57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:18 +0000
Subject: [PATCH 09/25] fix: keep angles when remapping points for the
 triangulation

Points were scaled differently along each axis, so that for points in a
non-cubic extent the result was not a Delaunay triangulation and the grid
derived from it not a Voronoi grid.
---
 src/dimension.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dimension.rs b/src/dimension.rs
index 28d4ce3..1bee26f 100644
--- a/src/dimension.rs
+++ b/src/dimension.rs
@@ -43,7 +43,7 @@ impl Dimension for TwoD {
     type WrapType = PeriodicWrapType2d;
     fn remap_point(point: Point<Self>, extent: &Extent<Point<Self>>) -> Point<Self> {
         debug_assert!(extent.contains(&point));
-        MVec2::new(1.0, 1.0) + (point - extent.min) * (1.0 / extent.side_lengths())
+        MVec2::new(1.0, 1.0) + (point - extent.min) * (1.0 / extent.max_side_length())
     }
 }
 
@@ -55,7 +55,7 @@ impl Dimension for ThreeD {
     type WrapType = PeriodicWrapType3d;
     fn remap_point(point: Point<Self>, extent: &Extent<Point<Self>>) -> Point<Self> {
         debug_assert!(extent.contains(&point));
-        MVec3::new(1.0, 1.0, 1.0) + (point - extent.min) * (1.0 / extent.side_lengths())
+        MVec3::new(1.0, 1.0, 1.0) + (point - extent.min) * (1.0 / extent.max_side_length())
     }
 }
 
-- 
2.43.0


From 38a294a9d1a34e1d7f2544785a0f68360f403ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:00 +0000
Subject: [PATCH 10/25] fix: update scale factor and redshift after the time
 has advanced

They were set before the sweep, so that those written to a snapshot
belonged to the time before the last step while its time did not.
---
 src/simulation_plugin/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/simulation_plugin/mod.rs b/src/simulation_plugin/mod.rs
index 2457343..40a924f 100644
--- a/src/simulation_plugin/mod.rs
+++ b/src/simulation_plugin/mod.rs
@@ -94,8 +94,8 @@ impl SubsweepPlugin for SimulationPlugin {
                 set_initial_cosmology_attributes_system,
             )
             .add_system_to_stage(
-                Stages::Initial,
-                set_cosmological_time_variables_system.before(show_time_system),
+                Stages::AfterSweep,
+                set_cosmological_time_variables_system,
             )
             .add_plugin(OutputPlugin::<Attribute<ScaleFactor>>::default())
             .add_plugin(OutputPlugin::<Attribute<Redshift>>::default())
-- 
2.43.0


From 9fa898329ad724ed08b53a486249d40b0a9e1f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:00 +0000
Subject: [PATCH 11/25] fix: apply the overrides which follow that of a whole
 section

---
 src/parameter_plugin/parameter_file_contents.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/parameter_plugin/parameter_file_contents.rs b/src/parameter_plugin/parameter_file_contents.rs
index d5ec2e0..9f07f5d 100644
--- a/src/parameter_plugin/parameter_file_contents.rs
+++ b/src/parameter_plugin/parameter_file_contents.rs
@@ -21,10 +21,9 @@ pub struct ParameterFileContents {
 
 fn insert_overrides(value: &mut Value, overrides: &[Override]) {
     for o in overrides.iter() {
-        // This value specifies the entire section. Return.
+        // This value specifies the entire section.
         if o.keys.is_empty() {
             *value = o.value.clone();
-            return;
         } else {
             insert_sublevel_override(value, o);
         }
-- 
2.43.0


From aa1971ab4bb98796a2a1ba799c9e21c7f270bbef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:00 +0000
Subject: [PATCH 12/25] fix: do not drop overrides of an omitted section that
 are invalid

---
 src/parameter_plugin/parameter_file_contents.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/parameter_plugin/parameter_file_contents.rs b/src/parameter_plugin/parameter_file_contents.rs
index 9f07f5d..798c606 100644
--- a/src/parameter_plugin/parameter_file_contents.rs
+++ b/src/parameter_plugin/parameter_file_contents.rs
@@ -42,8 +42,14 @@ fn extract_from_default<T: SubsweepParameters>(overrides: &[Override]) -> T {
         insert_overrides(&mut value, overrides);
         value
     };
-    let values_to_try = [get_value(), Value::Null];
-    let results = values_to_try.map(|value| serde_yaml::from_value::<T>(value));
+    let mut values_to_try = vec![get_value()];
+    if overrides.is_empty() {
+        values_to_try.push(Value::Null);
+    }
+    let results: Vec<_> = values_to_try
+        .into_iter()
+        .map(|value| serde_yaml::from_value::<T>(value))
+        .collect();
     let errors = results
         .iter()
         .filter_map(|r| match r {
-- 
2.43.0


From b58463316e40b588a99116ccc7f33802d352150b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:00 +0000
Subject: [PATCH 13/25] fix: accept the documented value all for output fields

---
 src/io/output/parameters.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/io/output/parameters.rs b/src/io/output/parameters.rs
index c61e2b1..a4d926f 100644
--- a/src/io/output/parameters.rs
+++ b/src/io/output/parameters.rs
@@ -26,10 +26,30 @@ pub enum HandleExistingOutput {
 #[subsweep_parameters]
 #[serde(untagged)]
 pub enum Fields {
+    #[serde(with = "all_fields")]
     All,
     Some(Vec<String>),
 }
 
+/// Represents Fields::All as "all".
+mod all_fields {
+    use serde::de::Error;
+    use serde::Deserialize;
+    use serde::Deserializer;
+    use serde::Serializer;
+
+    pub fn serialize<S: Serializer>(serializer: S) -> Result<S::Ok, S::Error> {
+        serializer.serialize_str("all")
+    }
+
+    pub fn deserialize<'de, D: Deserializer<'de>>(deserializer: D) -> Result<(), D::Error> {
+        match Option::<String>::deserialize(deserializer)?.as_deref() {
+            None | Some("all") => Ok(()),
+            Some(value) => Err(D::Error::custom(format!("unknown fields: {value}"))),
+        }
+    }
+}
+
 /// Parameters for the output of the simulation.
 /// Only required if write_output
 /// is set in the [SimulationBuilder](crate::prelude::SimulationBuilder)
-- 
2.43.0


From ab08ef10a9b4f0677a7d46be84e182e8c0d050ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:18 +0000
Subject: [PATCH 14/25] fix: give a source to the particle closest to it on any
 rank

---
 src/source_systems.rs | 45 +++++++++++++++++++++++++++++++------------
 1 file changed, 33 insertions(+), 12 deletions(-)

diff --git a/src/source_systems.rs b/src/source_systems.rs
index d75965a..24a79f4 100644
--- a/src/source_systems.rs
+++ b/src/source_systems.rs
@@ -9,14 +9,13 @@ use mpi::traits::Equivalence;
 use serde::Serialize;
 
 use crate::communication::MpiWorld;
+use crate::communication::Rank;
+use crate::communication::SizedCommunicator;
 use crate::components;
 use crate::components::Position;
-use crate::domain::DecompositionState;
-use crate::domain::IntoKey;
 use crate::io::time_series::TimeSeriesPlugin;
 use crate::prelude::Float;
 use crate::prelude::Particles;
-use crate::prelude::SimulationBox;
 use crate::prelude::StartupStages;
 use crate::prelude::WorldRank;
 use crate::simulation::Simulation;
@@ -48,8 +47,6 @@ pub struct Sources {
 fn set_source_terms_system(
     mut particles: Particles<(&Position, &mut components::Source)>,
     sources: Res<Sources>,
-    decomposition: Res<DecompositionState>,
-    box_: Res<SimulationBox>,
     world_rank: Res<WorldRank>,
     mut writer: EventWriter<TotalLuminosity>,
 ) {
@@ -61,13 +58,37 @@ fn set_source_terms_system(
         .map(|(pos, _)| pos_to_tree_coord(pos))
         .collect::<Vec<_>>())
         .into();
-    for s in all_sources.iter() {
-        let key = s.pos.into_key(&*box_);
-        let rank = decomposition.get_owning_rank(key);
-        if rank == **world_rank {
-            let (_, index) = tree.nearest_one(&pos_to_tree_coord(&s.pos), &squared_euclidean);
-            let (_, ref mut source_term) = &mut particles[index];
-            ***source_term += s.rate;
+    let nearest: Vec<Option<(Float, usize)>> = all_sources
+        .iter()
+        .map(|s| {
+            (!particles.is_empty())
+                .then(|| tree.nearest_one(&pos_to_tree_coord(&s.pos), &squared_euclidean))
+        })
+        .collect();
+    // The rank which owns the position of the source does not
+    // necessarily have the particle closest to it.
+    let distances: Vec<_> = nearest
+        .iter()
+        .map(|nearest| {
+            let squared_distance = nearest.map_or(Float::INFINITY, |(dist, _)| dist);
+            DistanceToSourceData(Length::new_unchecked(squared_distance.sqrt()))
+        })
+        .collect();
+    let mut distance_comm = MpiWorld::<DistanceToSourceData>::new();
+    let all_distances = distance_comm.all_gather_varcount(&distances);
+    for (i, s) in all_sources.iter().enumerate() {
+        let mut closest_rank = 0;
+        for rank in 1..distance_comm.size() {
+            let distance_on = |rank: usize| &all_distances[rank * all_sources.len() + i];
+            if distance_on(rank) < distance_on(closest_rank) {
+                closest_rank = rank;
+            }
+        }
+        if closest_rank as Rank == **world_rank {
+            if let Some((_, index)) = nearest[i] {
+                let (_, ref mut source_term) = &mut particles[index];
+                ***source_term += s.rate;
+            }
         }
     }
     let total: SourceRate = all_sources.iter().map(|source| source.rate).sum();
-- 
2.43.0


From 80fd3c8d7bb3d5281a5a108af9c1e7ac635f10db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:57 +0000
Subject: [PATCH 15/25] fix: decide in-sphere and in-circle tests with exact
 squares

The arbitrary precision fallback lifted matrices whose entries (the squared
distances) had already been rounded, which is enough to give the wrong sign
or to report a degenerate case for points that are not on the sphere.
---
 src/voronoi/math/utils.rs             |  5 +++++
 src/voronoi/primitives/tetrahedron.rs | 25 ++++++++++---------------
 src/voronoi/primitives/triangle.rs    | 17 ++++++++++++++---
 3 files changed, 29 insertions(+), 18 deletions(-)

diff --git a/src/voronoi/math/utils.rs b/src/voronoi/math/utils.rs
index 05d36e0..79ef820 100644
--- a/src/voronoi/math/utils.rs
+++ b/src/voronoi/math/utils.rs
@@ -301,6 +301,11 @@ determinant_impl!(
     5
 );
 
+/// The sign of the determinant, if float operations are enough to determine it.
+pub fn determinant3x3_sign_float(a: Matrix<3, 3, f64>) -> Result<Sign, PrecisionError> {
+    compare_result_against_products(determinant3x3(a), &a, DETERMINANT_3X3_EPSILON).map(Sign::of)
+}
+
 #[rustfmt::skip]
 pub fn determinant3x3<F: Num>(
     a: Matrix<3, 3, F>,
diff --git a/src/voronoi/primitives/tetrahedron.rs b/src/voronoi/primitives/tetrahedron.rs
index 3c8588d..2ebba64 100644
--- a/src/voronoi/primitives/tetrahedron.rs
+++ b/src/voronoi/primitives/tetrahedron.rs
@@ -23,7 +23,6 @@ use crate::voronoi::math::precision_types::TETRAHEDRON_POINTS_ON_SAME_SIDE_EPSIL
 use crate::voronoi::math::traits::Cross3d;
 use crate::voronoi::math::utils::determinant4x4;
 use crate::voronoi::math::utils::determinant5x5;
-use crate::voronoi::math::utils::lift_matrix;
 use crate::voronoi::math::utils::solve_3x4_system_of_equations_error;
 use crate::voronoi::math::utils::Sign;
 use crate::voronoi::PointIndex;
@@ -197,23 +196,19 @@ impl DTetraData for TetrahedronData {
 
     fn circumcircle_contains(&self, point: Point3d) -> bool {
         self.circumcircle_contains_float(point).unwrap_or_else(|_| {
-            let a = self.p1;
-            let b = self.p2;
-            let c = self.p3;
-            let d = self.p4;
-            let e = point;
-            let matrix = [
-                [1.0, a.x, a.y, a.z, a.x.powi(2) + a.y.powi(2) + a.z.powi(2)],
-                [1.0, b.x, b.y, b.z, b.x.powi(2) + b.y.powi(2) + b.z.powi(2)],
-                [1.0, c.x, c.y, c.z, c.x.powi(2) + c.y.powi(2) + c.z.powi(2)],
-                [1.0, d.x, d.y, d.z, d.x.powi(2) + d.y.powi(2) + d.z.powi(2)],
-                [1.0, e.x, e.y, e.z, e.x.powi(2) + e.y.powi(2) + e.z.powi(2)],
-            ];
-            Sign::of(determinant5x5(lift_matrix(matrix)))
+            // The squares have to be computed in arbitrary precision as well, since
+            // rounding them is enough to change the sign of the determinant.
+            let row = |p: Point3d| {
+                let p = PrecisionPoint3d::new(p);
+                let squared = p.x.pow(2) + p.y.pow(2) + p.z.pow(2);
+                [PrecisionFloat::one(), p.x, p.y, p.z, squared]
+            };
+            let matrix = [self.p1, self.p2, self.p3, self.p4, point].map(row);
+            Sign::of(determinant5x5(matrix))
                 .panic_if_zero(|| {
                     format!(
                         "Degenerate case in circumcircle test of tetrahedron: {:?}. {:?}",
-                        self, matrix
+                        self, point
                     )
                 })
                 .is_negative()
diff --git a/src/voronoi/primitives/triangle.rs b/src/voronoi/primitives/triangle.rs
index fecfa1b..67ea5cc 100644
--- a/src/voronoi/primitives/triangle.rs
+++ b/src/voronoi/primitives/triangle.rs
@@ -23,7 +23,8 @@ use crate::voronoi::math::precision_types::PrecisionPoint2d;
 use crate::voronoi::math::precision_types::PrecisionPoint3d;
 use crate::voronoi::math::precision_types::TRIANGLE_CONTAINS_EPSILON;
 use crate::voronoi::math::precision_types::TRIANGLE_INTERSECTION_TYPE_EPSILON;
-use crate::voronoi::math::utils::determinant3x3_sign;
+use crate::voronoi::math::utils::determinant3x3;
+use crate::voronoi::math::utils::determinant3x3_sign_float;
 use crate::voronoi::math::utils::solve_system_of_equations;
 use crate::voronoi::math::utils::Sign;
 use crate::voronoi::PointIndex;
@@ -248,13 +249,23 @@ impl DTetraData for TriangleData<Point2d> {
         let b = self.p2;
         let c = self.p3;
         let d = point;
-        let sign = determinant3x3_sign(
+        let sign = determinant3x3_sign_float(
             [
                 [b.x - a.x, b.y - a.y, (b.x - a.x).powi(2) + (b.y - a.y).powi(2)],
                 [c.x - a.x, c.y - a.y, (c.x - a.x).powi(2) + (c.y - a.y).powi(2)],
                 [d.x - a.x, d.y - a.y, (d.x - a.x).powi(2) + (d.y - a.y).powi(2)]
             ]
-        );
+        ).unwrap_or_else(|_| {
+            // Lift the points (and not the matrix), since rounding the entries of
+            // the matrix is enough to change the sign of its determinant.
+            let [a, b, c, d] = [a, b, c, d].map(PrecisionPoint2d::new);
+            let row = |p: PrecisionPoint2d| {
+                let p = p - a.clone();
+                let squared = p.x.pow(2) + p.y.pow(2);
+                [p.x, p.y, squared]
+            };
+            Sign::of(determinant3x3([row(b), row(c), row(d)]))
+        });
         sign.panic_if_zero(|| "Degenerate case in circumcircle test.").is_negative()
     }
 
-- 
2.43.0


From b7ba176f36498c99c6e94ec69881ce6b03a9c029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:26 +0000
Subject: [PATCH 16/25] fix: decide exactly where a line meets a triangle

The coordinates of the intersection were computed with floats and trusted when
they differed from zero by more than 1e-15, which is less than their error, so
that a point inside of a triangle could be found outside of two of its edges.
---
 src/voronoi/math/precision_types.rs |  1 -
 src/voronoi/primitives/triangle.rs  | 99 +++++++----------------------
 2 files changed, 24 insertions(+), 76 deletions(-)

diff --git a/src/voronoi/math/precision_types.rs b/src/voronoi/math/precision_types.rs
index a2d2c51..28f5106 100644
--- a/src/voronoi/math/precision_types.rs
+++ b/src/voronoi/math/precision_types.rs
@@ -27,7 +27,6 @@ impl PrecisionError {
 }
 
 pub const TRIANGLE_CONTAINS_EPSILON: f64 = 1e-15;
-pub const TRIANGLE_INTERSECTION_TYPE_EPSILON: f64 = 1e-15;
 pub const TETRAHEDRON_POINTS_ON_SAME_SIDE_EPSILON: f64 = 1e-15;
 pub const DETERMINANT_3X3_EPSILON: f64 = 1e-15;
 pub const DETERMINANT_4X4_EPSILON: f64 = 2e-15;
diff --git a/src/voronoi/primitives/triangle.rs b/src/voronoi/primitives/triangle.rs
index 67ea5cc..a351d0c 100644
--- a/src/voronoi/primitives/triangle.rs
+++ b/src/voronoi/primitives/triangle.rs
@@ -1,11 +1,9 @@
 use std::array::IntoIter;
-use std::ops::Add;
 use std::ops::Sub;
 
 use num::One;
 
 use super::super::math::traits::Vector2d;
-use super::super::math::traits::Vector3d;
 use super::Float;
 use super::Point2d;
 use super::Point3d;
@@ -20,10 +18,9 @@ use crate::voronoi::delaunay::face_info::FaceInfo;
 use crate::voronoi::delaunay::Point;
 use crate::voronoi::math::precision_types::PrecisionError;
 use crate::voronoi::math::precision_types::PrecisionPoint2d;
-use crate::voronoi::math::precision_types::PrecisionPoint3d;
 use crate::voronoi::math::precision_types::TRIANGLE_CONTAINS_EPSILON;
-use crate::voronoi::math::precision_types::TRIANGLE_INTERSECTION_TYPE_EPSILON;
 use crate::voronoi::math::utils::determinant3x3;
+use crate::voronoi::math::utils::determinant3x3_sign;
 use crate::voronoi::math::utils::determinant3x3_sign_float;
 use crate::voronoi::math::utils::solve_system_of_equations;
 use crate::voronoi::math::utils::Sign;
@@ -287,82 +284,34 @@ impl DTetraData for TriangleData<Point2d> {
     }
 }
 
-impl<V: Vector3d + Clone + Add<Output = V> + Sub<Output = V>> TriangleData<V> {
-    pub fn generic_get_line_intersection_type(
-        &self,
-        q1: V,
-        q2: V,
-    ) -> Result<IntersectionType, PrecisionError> {
-        // We solve the line-triangle intersection equation
+impl TriangleData<Point3d> {
+    pub fn get_line_intersection_type(&self, q1: Point3d, q2: Point3d) -> IntersectionType {
+        // The line-triangle intersection equation
         // p1 + r (p2 - p1) + s (p3 - p1) = q1 + t (q2 - q1)
-        // for r, s, and t.
-        // r and s are the coordinates of the point in the (two-dimensional) vector space
-        // spanned by the (linearly independent) vectors given by (p2 - p1) and (p3 - p1).
-        let a = self.p2.clone() - self.p1.clone();
-        let b = self.p3.clone() - self.p1.clone();
-        let k = q2 - q1.clone();
-        let c = q1 - self.p1.clone();
-        let [r, s, _] = solve_system_of_equations([
-            [a.x(), b.x(), -k.x(), c.x()],
-            [a.y(), b.y(), -k.y(), c.y()],
-            [a.z(), b.z(), -k.z(), c.z()],
-        ]);
-        self.get_intersection_type(r, s)
-    }
-
-    fn get_intersection_type(
-        &self,
-        r: V::Float,
-        s: V::Float,
-    ) -> Result<IntersectionType, PrecisionError> {
-        let signs: Result<Vec<_>, PrecisionError> =
-            [r.clone(), s.clone(), V::Float::one() - (r + s)]
-                .into_iter()
-                .map(|x| {
-                    let sign = Sign::try_from_val(&x, TRIANGLE_INTERSECTION_TYPE_EPSILON);
-                    if let Ok(sign) = sign {
-                        sign.panic_if_zero(|| {
-                            "Degenerate case of point on line (implement 4-to-4 flip)"
-                        });
-                    }
-                    sign
-                })
-                .collect();
-        let identifiers = signs?
-            .into_iter()
-            .zip([
-                EdgeIdentifier::Two,
-                EdgeIdentifier::Three,
-                EdgeIdentifier::One,
-            ])
-            .filter(|(sign, _)| sign.is_negative())
-            .map(|(_, id)| id)
-            .collect::<Vec<_>>();
-        Ok(match identifiers.len() {
+        // is solved by ratios of determinants of the following form. Only the signs
+        // of r, s and 1 - r - s matter, so that it is enough to know theirs.
+        let k = q2 - q1;
+        let sign = |a: Point3d, b: Point3d| {
+            *determinant3x3_sign([[a.x, a.y, a.z], [b.x, b.y, b.z], [k.x, k.y, k.z]])
+                .panic_if_zero(|| "Degenerate case of point on line (implement 4-to-4 flip)")
+        };
+        let (a, b, c) = (self.p1 - q1, self.p2 - q1, self.p3 - q1);
+        let orientation = sign(self.p2 - self.p1, self.p3 - self.p1);
+        let identifiers = [
+            (sign(c, a), EdgeIdentifier::Two),
+            (sign(a, b), EdgeIdentifier::Three),
+            (sign(b, c), EdgeIdentifier::One),
+        ]
+        .into_iter()
+        .filter(|(sign, _)| (*sign * orientation).is_negative())
+        .map(|(_, id)| id)
+        .collect::<Vec<_>>();
+        match identifiers.len() {
             0 => IntersectionType::Inside,
             1 => IntersectionType::OutsideOneEdge(identifiers[0]),
             2 => IntersectionType::OutsideTwoEdges(identifiers[0], identifiers[1]),
             _ => panic!("Possibly degenerate case of point lying on one of the edges."),
-        })
-    }
-}
-
-impl TriangleData<Point3d> {
-    pub fn get_line_intersection_type(&self, q1: Point3d, q2: Point3d) -> IntersectionType {
-        self.generic_get_line_intersection_type(q1, q2)
-            .unwrap_or_else(|_| {
-                let precision_self = TriangleData {
-                    p1: PrecisionPoint3d::new(self.p1),
-                    p2: PrecisionPoint3d::new(self.p2),
-                    p3: PrecisionPoint3d::new(self.p3),
-                };
-                precision_self
-                    .generic_get_line_intersection_type(
-                        PrecisionPoint3d::new(q1),
-                        PrecisionPoint3d::new(q2),
-                    )
-                    .unwrap()
-            })
+        }
     }
 
     pub fn distance_to_point(&self, p: Point3d) -> Float {
-- 
2.43.0


From 5ead1ec18b51175d11d32ffa2ce8224345ad4bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:30 +0000
Subject: [PATCH 17/25] fix: a cell that starts neutral or fully ionized keeps
 evolving with prevent_cooling

The floor of the ionized fraction was used as it is. With a fraction of 1
the bounds of the clamp were reversed, which panics, and with 0 the relative
change was infinite, so that no timestep was ever accepted.
---
 src/chemistry/hydrogen_only/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/chemistry/hydrogen_only/mod.rs b/src/chemistry/hydrogen_only/mod.rs
index ede3c1d..9f8ec9c 100644
--- a/src/chemistry/hydrogen_only/mod.rs
+++ b/src/chemistry/hydrogen_only/mod.rs
@@ -357,7 +357,11 @@ impl Solver {
         let xhii_floor = self
             .floor
             .map(|(_, xhii)| *xhii)
-            .unwrap_or(IONIZED_HYDROGEN_FRACTION_EPSILON);
+            .unwrap_or(IONIZED_HYDROGEN_FRACTION_EPSILON)
+            .clamp(
+                IONIZED_HYDROGEN_FRACTION_EPSILON,
+                1.0 - IONIZED_HYDROGEN_FRACTION_EPSILON,
+            );
         self.ionized_hydrogen_fraction = self
             .ionized_hydrogen_fraction
             .clamp(xhii_floor, 1.0 - IONIZED_HYDROGEN_FRACTION_EPSILON);
-- 
2.43.0


From 344d17743afa621e0e483a46e59fe5b4bd6b96f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:04 +0000
Subject: [PATCH 18/25] fix: heating and ionization of an optically very thin
 cell

1 - exp(-tau) has no correct digits below tau = 1e-16, so that a nearly
fully ionized, tenuous cell was heated and ionized by a wrong rate or not
at all.
---
 src/chemistry/hydrogen_only/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chemistry/hydrogen_only/mod.rs b/src/chemistry/hydrogen_only/mod.rs
index 9f8ec9c..6deb562 100644
--- a/src/chemistry/hydrogen_only/mod.rs
+++ b/src/chemistry/hydrogen_only/mod.rs
@@ -313,7 +313,7 @@ impl Solver {
         let neutral_hydrogen_number_density = self.neutral_hydrogen_number_density();
         let sigma = NUMBER_WEIGHTED_AVERAGE_CROSS_SECTION;
         let absorbed_fraction =
-            1.0 - (-neutral_hydrogen_number_density * sigma * self.length).exp();
+            -(-neutral_hydrogen_number_density * sigma * self.length).exp_m1();
         let num_photons: Dimensionless = timestep * self.rate;
         num_photons * absorbed_fraction
     }
-- 
2.43.0


From 7c84334ad377a22770a2aca93a0ecca52060b610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:54 +0000
Subject: [PATCH 19/25] fix: the ionization energy of hydrogen is 13.605693 eV

A digit was missing, so that photoheating was underestimated by more than
one percent of the excess energy.
---
 src/units/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/units/mod.rs b/src/units/mod.rs
index 6d86b6c..980838e 100644
--- a/src/units/mod.rs
+++ b/src/units/mod.rs
@@ -105,7 +105,7 @@ unit_system!(
         constant NUMBER_WEIGHTED_AVERAGE_CROSS_SECTION = 2.9580524545305314e-18 * centimeters_squared,
         constant ENERGY_WEIGHTED_AVERAGE_CROSS_SECTION = 2.7352520425024469e-18 * centimeters_squared,
         constant PHOTON_AVERAGE_ENERGY = 18.028356312818811 * electron_volts,
-        constant RYDBERG_CONSTANT = 13.65693 * electron_volts,
+        constant RYDBERG_CONSTANT = 13.605693 * electron_volts,
     ]
 );
 
-- 
2.43.0


From aa09b75d3c2d40301394eb580b733b019da6300b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:31 +0000
Subject: [PATCH 20/25] fix: scale factors beyond 1

A run that starts from a snapshot at redshift zero (or passes it) panicked
with 'Binary search failed' at the first output, since the scale factor was
only searched for between 0 and 1.
---
 src/cosmology.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/cosmology.rs b/src/cosmology.rs
index 56979b0..162ff66 100644
--- a/src/cosmology.rs
+++ b/src/cosmology.rs
@@ -114,13 +114,18 @@ impl CosmologyParams {
         h: Dimensionless,
         delta_t: Time,
     ) -> Dimensionless {
+        let remaining_time = |a1: f64| {
+            (self.time_difference_between_scalefactors(a, a1.into(), h) - delta_t)
+                .value_unchecked()
+        };
         let min = 0.0;
-        let max = 1.0;
+        let mut max = 1.0;
+        // The scale factor exceeds 1 in runs that go on beyond redshift zero.
+        while remaining_time(max) < 0.0 {
+            max *= 2.0;
+        }
         binary_search(
-            |a1| {
-                (self.time_difference_between_scalefactors(a, a1.into(), h) - delta_t)
-                    .value_unchecked()
-            },
+            remaining_time,
             min,
             max,
             Time::years(100.0).value_unchecked(),
-- 
2.43.0


From 814cb3eef8b164ef2e037c00ca35bd5c95a38127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:54 +0000
Subject: [PATCH 21/25] fix: times in a universe without dark energy

omega_0 = 1, omega_lambda = 0 is flat, but all times came out as NaN.
---
 src/cosmology.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cosmology.rs b/src/cosmology.rs
index 162ff66..7e3c359 100644
--- a/src/cosmology.rs
+++ b/src/cosmology.rs
@@ -94,6 +94,10 @@ impl CosmologyParams {
         }
 
         let time = |a: Dimensionless| {
+            if *omega_lambda == 0.0 {
+                // The limit of the expression below
+                return Dimensionless::dimensionless(2.0 / (3.0 * omega_0.sqrt()) * a.powf(1.5));
+            }
             let factor1 = 2.0 / (3.0 * omega_lambda.sqrt());
             let term1 = (omega_lambda / omega_0).sqrt() * a.powf(1.5);
             let term2 = (1.0 + omega_lambda / omega_0 * a.cubed()).sqrt();
-- 
2.43.0


From 540e68db989fe461645785e087177b6f7c594a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:35 +0000
Subject: [PATCH 22/25] fix: number of cells of a cartesian grid

The number of cells was rounded down: a box of 0.3 m with cells of 0.1 m had
only two cells in each direction, which did not fill it.
---
 src/sweep/grid/cartesian.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/sweep/grid/cartesian.rs b/src/sweep/grid/cartesian.rs
index 29b93d4..1257fbb 100644
--- a/src/sweep/grid/cartesian.rs
+++ b/src/sweep/grid/cartesian.rs
@@ -143,16 +143,16 @@ impl IntegerPosition {
         #[cfg(feature = "2d")]
         {
             Self {
-                x: float.x.floor() as i32,
-                y: float.y.floor() as i32,
+                x: float.x.round() as i32,
+                y: float.y.round() as i32,
             }
         }
         #[cfg(not(feature = "2d"))]
         {
             Self {
-                x: float.x.floor() as i32,
-                y: float.y.floor() as i32,
-                z: float.z.floor() as i32,
+                x: float.x.round() as i32,
+                y: float.y.round() as i32,
+                z: float.z.round() as i32,
             }
         }
     }
-- 
2.43.0


From a96566fa898f198f9fc76dd12e5220d55dff70ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:12 +0000
Subject: [PATCH 23/25] fix: average photoionization rate when it is not among
 the output fields

The time series of its volume averages were zero unless the photoionization
rate was also written to the snapshots.
---
 src/sweep/mod.rs | 41 +++++++++++++++++++++++++++++++----------
 1 file changed, 31 insertions(+), 10 deletions(-)

diff --git a/src/sweep/mod.rs b/src/sweep/mod.rs
index b2235ec..53bb7b2 100644
--- a/src/sweep/mod.rs
+++ b/src/sweep/mod.rs
@@ -162,7 +162,7 @@ impl SubsweepPlugin for SweepPlugin {
         init_optional_chemistry_component::<HeatingRate>(sim);
         init_optional_chemistry_component::<RecombinationRate>(sim);
         init_optional_chemistry_component::<CollisionalIonizationRate>(sim);
-        init_optional_chemistry_component::<PhotoionizationRate>(sim);
+        init_photoionization_rate(sim);
         init_optional_component::<Timestep>(sim);
         init_optional_component::<IonizationTime>(sim);
     }
@@ -762,28 +762,49 @@ where
     }
     let is_desired = is_desired_field::<C>(sim);
     if is_desired {
-        sim.add_derived_component::<C>();
-        sim.add_startup_system_to_stage(
-            StartupStages::InsertDerivedComponents,
-            initialize_optional_component_system::<C>,
-        );
+        init_component::<C>(sim);
     }
     is_desired
 }
 
+fn init_component<C>(sim: &mut Simulation)
+where
+    C: Equivalence + ToDataset + H5Type + Clone + Component + Named + Default,
+    <C as Equivalence>::Out: MatchesRaw,
+{
+    sim.add_derived_component::<C>();
+    sim.add_startup_system_to_stage(
+        StartupStages::InsertDerivedComponents,
+        initialize_optional_component_system::<C>,
+    );
+}
+
 fn init_optional_chemistry_component<C>(sim: &mut Simulation)
 where
     C: Equivalence + ToDataset + H5Type + Clone + Component + Named + Default + ChemistryOutputType,
     <C as Equivalence>::Out: MatchesRaw,
 {
     if init_optional_component::<C>(sim) {
-        sim.add_system_to_stage(
-            Stages::Sweep,
-            sweep_optional_output_system::<C>.after(run_sweep_system),
-        );
+        add_chemistry_output_system::<C>(sim);
+    }
+}
+
+/// The photoionization rate is needed for the time series, even if it is
+/// not among the fields which are written to the snapshots.
+fn init_photoionization_rate(sim: &mut Simulation) {
+    if sim.write_output {
+        init_component::<PhotoionizationRate>(sim);
+        add_chemistry_output_system::<PhotoionizationRate>(sim);
     }
 }
 
+fn add_chemistry_output_system<C: Component + ChemistryOutputType>(sim: &mut Simulation) {
+    sim.add_system_to_stage(
+        Stages::Sweep,
+        sweep_optional_output_system::<C>.after(run_sweep_system),
+    );
+}
+
 pub fn initialize_sweep_test_components_system(
     mut commands: Commands,
     local_particles: Query<Entity, With<LocalParticle>>,
-- 
2.43.0


From e67ad7eb2b8d885701eaeedc97d167306ccfb125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:50 +0000
Subject: [PATCH 24/25] fix: refuse parameter files which are not valid YAML

They were taken to be empty, so that every section got its defaults.
---
 src/parameter_plugin/parameter_file_contents.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parameter_plugin/parameter_file_contents.rs b/src/parameter_plugin/parameter_file_contents.rs
index 798c606..62e6d55 100644
--- a/src/parameter_plugin/parameter_file_contents.rs
+++ b/src/parameter_plugin/parameter_file_contents.rs
@@ -131,7 +131,7 @@ impl ParameterFileContents {
                     .map(|(k, v)| (k.as_str().unwrap().to_owned(), v.clone()))
                     .collect()
             })
-            .unwrap_or_default();
+            .unwrap_or_else(|err| panic!("Failed to parse parameter file: {err}"));
         Self {
             sections,
             overrides: vec![],
-- 
2.43.0


From d2220552b90e5cbab5fa3e780df3839d7cafb2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:50 +0000
Subject: [PATCH 25/25] fix: refuse overrides of parameter sections which are
 not used

An override with a mistyped section was ignored, while such a section in the
parameter file is refused.
---
 src/parameter_plugin/parameter_file_contents.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/parameter_plugin/parameter_file_contents.rs b/src/parameter_plugin/parameter_file_contents.rs
index 62e6d55..f85d63c 100644
--- a/src/parameter_plugin/parameter_file_contents.rs
+++ b/src/parameter_plugin/parameter_file_contents.rs
@@ -143,7 +143,12 @@ impl ParameterFileContents {
     }
 
     pub fn get_section_names(&self) -> impl Iterator<Item = &String> {
-        self.sections.keys()
+        let overridden_sections = self
+            .overrides
+            .iter()
+            .map(|o| &o.section)
+            .filter(|section| !self.sections.contains_key(*section));
+        self.sections.keys().chain(overridden_sections)
     }
 
     fn get_overrides_for_section(
-- 
2.43.0

