From 2d8cb9423895aebf70d1c97d627e0514956afe6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:04 +0000
Subject: [PATCH 01/15] fix: generate piers relative to the centroid of the
 shape

Rays were translated by the absolute x-coordinates of the bounding box and rotated around the
origin, so shapes away from the origin (polygons parsed without centering) either produced no
rays at all or rays starting inside the shape, both of which panic.
---
 jagua-rs/src/geometry/fail_fast/piers.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/jagua-rs/src/geometry/fail_fast/piers.rs b/jagua-rs/src/geometry/fail_fast/piers.rs
index d2669ad..3013c8c 100644
--- a/jagua-rs/src/geometry/fail_fast/piers.rs
+++ b/jagua-rs/src/geometry/fail_fast/piers.rs
@@ -27,13 +27,14 @@ pub fn generate(shape: &SimplePolygon, n: usize, poles: &[Circle]) -> Vec<Edge>
     let bbox = shape.bbox();
     let expanded_bbox = bbox.clone().inflate_to_square();
     let centroid = shape.centroid();
-    //vertical ray from the centroid
+    //vertical ray through the origin
     let base_ray = Edge::new(
-        Point(centroid.0, centroid.1 - 2.0 * expanded_bbox.height()),
-        Point(centroid.0, centroid.1 + 2.0 * expanded_bbox.height()),
+        Point(0.0, -2.0 * expanded_bbox.height()),
+        Point(0.0, 2.0 * expanded_bbox.height()),
     );
 
-    let transformations = generate_ray_transformations(&expanded_bbox, RAYS_PER_ANGLE, N_ANGLES);
+    let transformations =
+        generate_ray_transformations(&expanded_bbox, centroid, RAYS_PER_ANGLE, N_ANGLES);
 
     //transform the base edge by each transformation
     let rays = transformations
@@ -90,27 +91,28 @@ pub fn generate(shape: &SimplePolygon, n: usize, poles: &[Circle]) -> Vec<Edge>
 
 fn generate_ray_transformations(
     bbox: &AARectangle,
+    centroid: Point,
     rays_per_angle: usize,
     n_angles: usize,
 ) -> Vec<Transformation> {
-    //translations
+    //translations, relative to the centroid
     let dx = bbox.width() / rays_per_angle as fsize;
     let translations = (0..rays_per_angle)
-        .map(|i| bbox.x_min + dx * i as fsize)
+        .map(|i| bbox.x_min - centroid.0 + dx * i as fsize)
         .map(|x| Transformation::from_translation((x, 0.0)))
         .collect_vec();
 
     let angles = Array::linspace(0.0, fsize::PI(), n_angles + 1).to_vec();
     let angles_slice = &angles[0..n_angles]; //skip the last angle, which is the same as the first
 
-    //rotate the translations by each angle
+    //rotate the translations by each angle and move them to the centroid
     angles_slice
         .iter()
         .flat_map(|angle| {
             translations
                 .iter()
                 .cloned()
-                .map(move |translation| translation.rotate(*angle))
+                .map(move |translation| translation.rotate_translate(*angle, centroid.into()))
         })
         .collect_vec()
 }
-- 
2.43.0


From 68fd975afbac298536d6bc846e2b5c919a069fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:04 +0000
Subject: [PATCH 02/15] fix: restore the bin of a layout when restoring a
 snapshot

Layout::restore kept the current bin and the static part of its collision detection engine, so
restoring a snapshot taken with another bin (after change_bin, or a strip packing solution with
another strip) mixed up the two or panicked on the size of the hazard proximity grid.
---
 jagua-rs/src/entities/layout.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/jagua-rs/src/entities/layout.rs b/jagua-rs/src/entities/layout.rs
index 22dbfd3..effabaa 100644
--- a/jagua-rs/src/entities/layout.rs
+++ b/jagua-rs/src/entities/layout.rs
@@ -8,6 +8,7 @@ use crate::geometry::d_transformation::DTransformation;
 use crate::geometry::geo_traits::Shape;
 use crate::util::assertions;
 use slotmap::SlotMap;
+use std::sync::Arc;
 
 ///A Layout is made out of a [Bin] with a set of [Item]s positioned inside of it in a specific way.
 ///It is a mutable representation, and can be modified by placing or removing items.
@@ -67,6 +68,12 @@ impl Layout {
     pub fn restore(&mut self, layout_snapshot: &LayoutSnapshot) {
         assert_eq!(self.id, layout_snapshot.id);
 
+        if !Arc::ptr_eq(&self.bin.base_cde, &layout_snapshot.bin.base_cde) {
+            // the snapshot was taken with a different bin, start from a clean slate
+            self.bin = layout_snapshot.bin.clone();
+            self.cde = self.bin.base_cde.as_ref().clone();
+        }
+
         self.placed_items = layout_snapshot.placed_items.clone();
         self.cde.restore(&layout_snapshot.cde_snapshot);
 
-- 
2.43.0


From caac2913be714faa6821cd8768fd7b514d919176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:23 +0000
Subject: [PATCH 03/15] fix: make layout and solution ids unique across
 problems

The ids were counted per problem. Clones of a problem, and the problem used to rebuild a solution
from JSON, hand out the same ids for different content, so restoring a solution made elsewhere
could be mistaken for an incremental restore and leave (or duplicate) the wrong layouts.
---
 jagua-rs/src/entities/problems/bin_packing.rs | 15 -------------
 .../src/entities/problems/problem_generic.rs  | 17 +++++++++++++--
 .../src/entities/problems/strip_packing.rs    | 21 ++++---------------
 3 files changed, 19 insertions(+), 34 deletions(-)

diff --git a/jagua-rs/src/entities/problems/bin_packing.rs b/jagua-rs/src/entities/problems/bin_packing.rs
index 2b26a5c..0b215dd 100644
--- a/jagua-rs/src/entities/problems/bin_packing.rs
+++ b/jagua-rs/src/entities/problems/bin_packing.rs
@@ -18,8 +18,6 @@ pub struct BPProblem {
     template_layouts: Vec<Layout>,
     missing_item_qtys: Vec<isize>,
     bin_qtys: Vec<usize>,
-    layout_id_counter: usize,
-    solution_id_counter: usize,
     unmodified_layout_ids: Vec<usize>,
     unmodified_layouts_ref_solution: Option<usize>,
     uncommitted_removed_layouts: Vec<Layout>,
@@ -40,7 +38,6 @@ impl BPProblem {
             .enumerate()
             .map(|(i, (bin, _))| Layout::new(i, bin.clone()))
             .collect_vec();
-        let layout_id_counter = template_layouts.len();
         let unchanged_layouts = vec![];
         let unchanged_layouts_solution_id = None;
         let uncommitted_removed_layouts = vec![];
@@ -51,8 +48,6 @@ impl BPProblem {
             template_layouts,
             missing_item_qtys,
             bin_qtys,
-            layout_id_counter,
-            solution_id_counter: 0,
             unmodified_layout_ids: unchanged_layouts,
             unmodified_layouts_ref_solution: unchanged_layouts_solution_id,
             uncommitted_removed_layouts,
@@ -324,16 +319,6 @@ impl ProblemGeneric for BPProblem {
 }
 
 impl ProblemGenericPrivate for BPProblem {
-    fn next_solution_id(&mut self) -> usize {
-        self.solution_id_counter += 1;
-        self.solution_id_counter
-    }
-
-    fn next_layout_id(&mut self) -> usize {
-        self.layout_id_counter += 1;
-        self.layout_id_counter
-    }
-
     fn missing_item_qtys_mut(&mut self) -> &mut [isize] {
         &mut self.missing_item_qtys
     }
diff --git a/jagua-rs/src/entities/problems/problem_generic.rs b/jagua-rs/src/entities/problems/problem_generic.rs
index 68f7d92..1459942 100644
--- a/jagua-rs/src/entities/problems/problem_generic.rs
+++ b/jagua-rs/src/entities/problems/problem_generic.rs
@@ -100,11 +100,24 @@ pub trait ProblemGeneric: ProblemGenericPrivate {
 }
 
 pub(super) mod private {
+    use std::sync::atomic::{AtomicUsize, Ordering};
+
+    /// Returns an identifier which is unique in the entire process.
+    /// Solutions are exchanged between (clones of) problems, so identifiers have to be unique across all of them.
+    pub fn next_unique_id() -> usize {
+        static ID_COUNTER: AtomicUsize = AtomicUsize::new(1);
+        ID_COUNTER.fetch_add(1, Ordering::Relaxed)
+    }
+
     /// Trait for shared functionality of all problem variants, but not exposed to the public.
     pub trait ProblemGenericPrivate: Clone {
-        fn next_solution_id(&mut self) -> usize;
+        fn next_solution_id(&mut self) -> usize {
+            next_unique_id()
+        }
 
-        fn next_layout_id(&mut self) -> usize;
+        fn next_layout_id(&mut self) -> usize {
+            next_unique_id()
+        }
 
         fn missing_item_qtys_mut(&mut self) -> &mut [isize];
 
diff --git a/jagua-rs/src/entities/problems/strip_packing.rs b/jagua-rs/src/entities/problems/strip_packing.rs
index f941a91..ee74899 100644
--- a/jagua-rs/src/entities/problems/strip_packing.rs
+++ b/jagua-rs/src/entities/problems/strip_packing.rs
@@ -7,7 +7,9 @@ use crate::entities::instances::strip_packing::SPInstance;
 use crate::entities::layout::Layout;
 use crate::entities::placed_item::PItemKey;
 use crate::entities::placing_option::PlacingOption;
-use crate::entities::problems::problem_generic::private::ProblemGenericPrivate;
+use crate::entities::problems::problem_generic::private::{
+    next_unique_id, ProblemGenericPrivate,
+};
 use crate::entities::problems::problem_generic::ProblemGeneric;
 use crate::entities::problems::problem_generic::{LayoutIndex, STRIP_LAYOUT_IDX};
 use crate::entities::solution::Solution;
@@ -26,8 +28,6 @@ pub struct SPProblem {
     pub instance: SPInstance,
     pub layout: Layout,
     missing_item_qtys: Vec<isize>,
-    layout_id_counter: usize,
-    solution_id_counter: usize,
 }
 
 impl SPProblem {
@@ -40,15 +40,12 @@ impl SPProblem {
             .collect_vec();
         let strip_rect = AARectangle::new(0.0, 0.0, strip_width, strip_height);
         let strip_bin = Bin::from_strip(strip_rect, cde_config);
-        let layout_id_counter = 0;
-        let layout = Layout::new(layout_id_counter, strip_bin);
+        let layout = Layout::new(next_unique_id(), strip_bin);
 
         Self {
             instance,
             layout,
             missing_item_qtys,
-            layout_id_counter,
-            solution_id_counter: 0,
         }
     }
 
@@ -283,16 +280,6 @@ impl ProblemGeneric for SPProblem {
 }
 
 impl ProblemGenericPrivate for SPProblem {
-    fn next_solution_id(&mut self) -> usize {
-        self.solution_id_counter += 1;
-        self.solution_id_counter
-    }
-
-    fn next_layout_id(&mut self) -> usize {
-        self.layout_id_counter += 1;
-        self.layout_id_counter
-    }
-
     fn missing_item_qtys_mut(&mut self) -> &mut [isize] {
         &mut self.missing_item_qtys
     }
-- 
2.43.0


From 1944dc7ae8272e09528a5ac89c3c200557401bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:23 +0000
Subject: [PATCH 04/15] fix: collect all hazards in quadtree nodes with
 multiple hazards

collect_collisions stopped at the strongest hazard of a node when it was entirely present, so
other hazards in the same node went unreported (depending on the order of registration).
---
 jagua-rs/src/collision_detection/quadtree/qt_node.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/jagua-rs/src/collision_detection/quadtree/qt_node.rs b/jagua-rs/src/collision_detection/quadtree/qt_node.rs
index 5a15332..bff2005 100644
--- a/jagua-rs/src/collision_detection/quadtree/qt_node.rs
+++ b/jagua-rs/src/collision_detection/quadtree/qt_node.rs
@@ -186,7 +186,11 @@ impl QTNode {
                 false => (),
                 true => match strongest_hazard.presence {
                     QTHazPresence::None => (),
-                    QTHazPresence::Entire => detected.push(strongest_hazard.entity),
+                    QTHazPresence::Entire => {
+                        detected.push(strongest_hazard.entity);
+                        //other (weaker) hazards might be present in this node as well
+                        self.collect_collisions(entity, detected);
+                    }
                     QTHazPresence::Partial(_) => match &self.children {
                         Some(children) => {
                             //Check if any of the children intersect with the entity
-- 
2.43.0


From b9ddc2c6c728ccfe660175dc98aa7851293ed6f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:23 +0000
Subject: [PATCH 05/15] fix: shapes enclosing the entire bin collide with its
 exterior

The containment check reported no collision with the exterior of the bin when the queried shape
surrounds the bin.
---
 jagua-rs/src/collision_detection/cd_engine.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jagua-rs/src/collision_detection/cd_engine.rs b/jagua-rs/src/collision_detection/cd_engine.rs
index 0387665..e769471 100644
--- a/jagua-rs/src/collision_detection/cd_engine.rs
+++ b/jagua-rs/src/collision_detection/cd_engine.rs
@@ -424,7 +424,10 @@ impl CDEngine {
 
         let (s_mu, s_omega) = match bbox_relation {
             GeoRelation::Surrounding => (shape, haz_shape), //inclusion possible
-            GeoRelation::Enclosed => (haz_shape, shape),    //inclusion possible
+            GeoRelation::Enclosed => match haz.entity.position() {
+                GeoPosition::Interior => (haz_shape, shape), //inclusion possible
+                GeoPosition::Exterior => return true, //shape reaches outside of the hazard shape
+            },
             GeoRelation::Disjoint | GeoRelation::Intersecting => {
                 //no inclusion is possible
                 return match haz.entity.position() {
-- 
2.43.0


From 3aa6f623557df701a45f0af9117f81776ede9b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:33 +0000
Subject: [PATCH 06/15] fix: restoring a solution with more items than demanded
 underflowed

The missing quantity is signed on purpose, but was computed by subtracting unsigned quantities,
which panics when overflow checks are enabled.
---
 jagua-rs/src/entities/problems/bin_packing.rs   | 3 ++-
 jagua-rs/src/entities/problems/strip_packing.rs | 6 ++----
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/jagua-rs/src/entities/problems/bin_packing.rs b/jagua-rs/src/entities/problems/bin_packing.rs
index 0b215dd..dcda6ba 100644
--- a/jagua-rs/src/entities/problems/bin_packing.rs
+++ b/jagua-rs/src/entities/problems/bin_packing.rs
@@ -282,7 +282,8 @@ impl ProblemGeneric for BPProblem {
             .iter_mut()
             .enumerate()
             .for_each(|(i, missing_qty)| {
-                *missing_qty = (self.instance.item_qty(i) - solution.placed_item_qtys[i]) as isize
+                *missing_qty =
+                    self.instance.item_qty(i) as isize - solution.placed_item_qtys[i] as isize
             });
 
         self.bin_qtys.clone_from_slice(&solution.bin_qtys);
diff --git a/jagua-rs/src/entities/problems/strip_packing.rs b/jagua-rs/src/entities/problems/strip_packing.rs
index ee74899..8601c88 100644
--- a/jagua-rs/src/entities/problems/strip_packing.rs
+++ b/jagua-rs/src/entities/problems/strip_packing.rs
@@ -7,9 +7,7 @@ use crate::entities::instances::strip_packing::SPInstance;
 use crate::entities::layout::Layout;
 use crate::entities::placed_item::PItemKey;
 use crate::entities::placing_option::PlacingOption;
-use crate::entities::problems::problem_generic::private::{
-    next_unique_id, ProblemGenericPrivate,
-};
+use crate::entities::problems::problem_generic::private::{next_unique_id, ProblemGenericPrivate};
 use crate::entities::problems::problem_generic::ProblemGeneric;
 use crate::entities::problems::problem_generic::{LayoutIndex, STRIP_LAYOUT_IDX};
 use crate::entities::solution::Solution;
@@ -244,7 +242,7 @@ impl ProblemGeneric for SPProblem {
             .iter_mut()
             .enumerate()
             .for_each(|(i, qty)| {
-                *qty = (self.instance.item_qty(i) - solution.placed_item_qtys[i]) as isize
+                *qty = self.instance.item_qty(i) as isize - solution.placed_item_qtys[i] as isize
             });
 
         debug_assert!(assertions::problem_matches_solution(self, solution));
-- 
2.43.0


From 174d355034539d4a65208425b33ad42e31d8ff9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:11 +0000
Subject: [PATCH 07/15] fix: usage of a problem without layouts is zero instead
 of NaN

An empty bin packing solution had a usage of 0/0, which is written to JSON as null and makes the
solution file unreadable.
---
 jagua-rs/src/entities/problems/problem_generic.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jagua-rs/src/entities/problems/problem_generic.rs b/jagua-rs/src/entities/problems/problem_generic.rs
index 1459942..dcd2745 100644
--- a/jagua-rs/src/entities/problems/problem_generic.rs
+++ b/jagua-rs/src/entities/problems/problem_generic.rs
@@ -57,7 +57,10 @@ pub trait ProblemGeneric: ProblemGenericPrivate {
                 let used_area = bin_area * l.usage();
                 (acc.0 + bin_area, acc.1 + used_area)
             });
-        total_used_area / total_bin_area
+        match total_bin_area > 0.0 {
+            true => total_used_area / total_bin_area,
+            false => 0.0, //no bins in use
+        }
     }
 
     fn used_bin_cost(&self) -> u64 {
-- 
2.43.0


From aa1273d5b5600eaf1bf41bff9f11a7f3c6176bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:30 +0000
Subject: [PATCH 08/15] fix: propagate hazard proximity grid updates across
 missing cells

Cells which lie entirely in a static hazard do not exist in the grid, but the boundary fill treated
them as the boundary of the update. Cells on the other side (of a hole, or in another prong of a
concave bin) were not updated when a registered item covered the missing cells.
---
 .../collision_detection/hpg/boundary_fill.rs  | 35 +++++++++++--------
 .../hpg/hazard_proximity_grid.rs              |  4 +--
 2 files changed, 22 insertions(+), 17 deletions(-)

diff --git a/jagua-rs/src/collision_detection/hpg/boundary_fill.rs b/jagua-rs/src/collision_detection/hpg/boundary_fill.rs
index 1baf0fb..78322d9 100644
--- a/jagua-rs/src/collision_detection/hpg/boundary_fill.rs
+++ b/jagua-rs/src/collision_detection/hpg/boundary_fill.rs
@@ -77,9 +77,9 @@ impl BoundaryFillHPG {
     pub fn report_position<T>(&mut self, index: usize, position: GeoPosition, grid: &Grid<T>) {
         let queue_neighbors = match (self.seeded, position) {
             (false, GeoPosition::Interior) => {
-                //seed has been found, unqueue all cells and mark as seeded
+                //seed has been found, mark as seeded
+                //cells already in the queue remain, they could be separated from the seed by missing cells
                 self.seeded = true;
-                self.queue.drain(..).for_each(|i| self.state[i].dequeue());
                 true
             }
             (false, GeoPosition::Exterior) => {
@@ -93,11 +93,24 @@ impl BoundaryFillHPG {
         };
 
         if queue_neighbors {
-            for neighbor in grid.get_neighbors(index) {
-                if self.state[neighbor] == CellState::NotQueued {
-                    self.state[neighbor].queue();
-                    self.queue.push_back(neighbor);
-                }
+            self.queue_neighbors(index, grid);
+        }
+    }
+
+    /// Reports that the cell does not exist in the grid.
+    /// It can therefore not be part of the boundary, and once seeded its neighbors always have to be visited.
+    pub fn report_missing<T>(&mut self, index: usize, grid: &Grid<T>) {
+        match self.seeded {
+            true => self.queue_neighbors(index, grid),
+            false => self.report_position(index, GeoPosition::Exterior, grid),
+        }
+    }
+
+    fn queue_neighbors<T>(&mut self, index: usize, grid: &Grid<T>) {
+        for neighbor in grid.get_neighbors(index) {
+            if self.state[neighbor] == CellState::NotQueued {
+                self.state[neighbor].queue();
+                self.queue.push_back(neighbor);
             }
         }
     }
@@ -148,12 +161,4 @@ impl CellState {
             CellState::Queued => unreachable!("invalid state: cell already queued"),
         }
     }
-
-    fn dequeue(&mut self) {
-        *self = match self {
-            CellState::Queued => CellState::NotQueued,
-            CellState::Visited => unreachable!("invalid state: cell already visited"),
-            CellState::NotQueued => unreachable!("invalid state: cell already not queued"),
-        }
-    }
 }
diff --git a/jagua-rs/src/collision_detection/hpg/hazard_proximity_grid.rs b/jagua-rs/src/collision_detection/hpg/hazard_proximity_grid.rs
index 7786c29..924c20b 100644
--- a/jagua-rs/src/collision_detection/hpg/hazard_proximity_grid.rs
+++ b/jagua-rs/src/collision_detection/hpg/hazard_proximity_grid.rs
@@ -98,8 +98,8 @@ impl HazardProximityGrid {
                     };
                     b_fill.report_position(next_cell, position_in_bf, &self.grid);
                 } else {
-                    //cell does not exist, mark as exterior
-                    b_fill.report_position(next_cell, GeoPosition::Exterior, &self.grid);
+                    //cell does not exist, but the update might affect cells on the other side of it
+                    b_fill.report_missing(next_cell, &self.grid);
                 }
             }
         }
-- 
2.43.0


From fd5a9dd914dc0333fcdfc438c600f6194bc56f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:30 +0000
Subject: [PATCH 09/15] fix: instant deregisters also process pending ones in
 the hazard proximity grid

An instant removal recomputed only the cells closest to the removed hazard, so afterwards a part of
the cells still knew about hazards with a pending removal and others did not. Cells which did could
then block the propagation of a later registration to cells which did not.
---
 .../collision_detection/hpg/hazard_proximity_grid.rs  | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/jagua-rs/src/collision_detection/hpg/hazard_proximity_grid.rs b/jagua-rs/src/collision_detection/hpg/hazard_proximity_grid.rs
index 924c20b..244e7a7 100644
--- a/jagua-rs/src/collision_detection/hpg/hazard_proximity_grid.rs
+++ b/jagua-rs/src/collision_detection/hpg/hazard_proximity_grid.rs
@@ -1,5 +1,4 @@
 use std::fmt::{Display, Formatter};
-use std::iter;
 
 use itertools::Itertools;
 
@@ -117,12 +116,12 @@ impl HazardProximityGrid {
     ) where
         I: Iterator<Item = &'a Hazard> + Clone,
     {
+        self.uncommitted_deregisters.push(to_deregister);
         if process_now {
-            for cell in self.grid.cells.iter_mut().flatten() {
-                cell.deregister_hazards(iter::once(to_deregister), remaining.clone());
-            }
-        } else {
-            self.uncommitted_deregisters.push(to_deregister);
+            //Earlier deregisters which are still pending have to be processed as well.
+            //Otherwise, only a part of the cells would still be aware of them, and these
+            //could form a boundary which blocks the propagation of subsequent registers.
+            self.flush_deregisters(remaining);
         }
     }
 
-- 
2.43.0


From 623d32697079704929889459b34083dd79901a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:53:10 +0000
Subject: [PATCH 10/15] fix: report errors when flushing the solution file

The BufWriter was dropped inside to_writer_pretty, so a failure of the
final write (e.g. full disk) went unnoticed and the program reported success.
---
 lbf/src/io/mod.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/lbf/src/io/mod.rs b/lbf/src/io/mod.rs
index 091cb51..d208e5e 100644
--- a/lbf/src/io/mod.rs
+++ b/lbf/src/io/mod.rs
@@ -1,6 +1,6 @@
 use std::fs;
 use std::fs::File;
-use std::io::{BufReader, BufWriter};
+use std::io::{BufReader, BufWriter, Write};
 use std::path::Path;
 
 use log::{info, log, Level, LevelFilter};
@@ -29,9 +29,14 @@ pub fn write_json_output(json_output: &JsonOutput, path: &Path) {
     let file = File::create(path)
         .unwrap_or_else(|_| panic!("could not open solution file: {}", path.display()));
 
-    let writer = BufWriter::new(file);
+    let mut writer = BufWriter::new(file);
 
-    serde_json::to_writer_pretty(writer, &json_output)
+    serde_json::to_writer_pretty(&mut writer, &json_output)
+        .unwrap_or_else(|_| panic!("could not write solution file: {}", path.display()));
+
+    //flush explicitly, errors are ignored when the writer is dropped
+    writer
+        .flush()
         .unwrap_or_else(|_| panic!("could not write solution file: {}", path.display()));
 
     info!(
-- 
2.43.0


From 990bce33ab958f023eff1496c56b1b4cb7fa8a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:53:10 +0000
Subject: [PATCH 11/15] fix: start the clock at program start regardless of the
 log level

EPOCH was initialized by the first log message: at quiet log levels this
only happened when the solution was exported, reporting a run time of 0.
---
 lbf/src/main.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lbf/src/main.rs b/lbf/src/main.rs
index 5f2d92b..bde3bb2 100644
--- a/lbf/src/main.rs
+++ b/lbf/src/main.rs
@@ -24,6 +24,8 @@ static GLOBAL: MiMalloc = MiMalloc;
 
 //more efficient allocator
 fn main() {
+    //EPOCH is initialized on first access, make sure this is at the very start
+    let epoch = *EPOCH;
     let args = Cli::parse();
     io::init_logger(args.log_level);
 
@@ -68,7 +70,7 @@ fn main() {
 
     let json_output = JsonOutput {
         instance: json_instance.clone(),
-        solution: parser::compose_json_solution(&solution, &instance, *EPOCH),
+        solution: parser::compose_json_solution(&solution, &instance, epoch),
         config,
     };
 
-- 
2.43.0


From 418e34f0fe4d571cfbb9396d4be6075ea43bdd07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:53:11 +0000
Subject: [PATCH 12/15] fix: overflow when logging the total stock of unlimited
 bins

With two or more bin types of unlimited stock (usize::MAX) the sum overflowed:
a panic in debug builds as soon as info messages are logged.
---
 jagua-rs/src/io/parser.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jagua-rs/src/io/parser.rs b/jagua-rs/src/io/parser.rs
index 71b15c1..2c7c056 100644
--- a/jagua-rs/src/io/parser.rs
+++ b/jagua-rs/src/io/parser.rs
@@ -98,7 +98,9 @@ impl Parser {
                     json_instance.name,
                     bpi.total_item_qty(),
                     bpi.items.len(),
-                    bpi.bins.iter().map(|(_, qty)| *qty).sum::<usize>(),
+                    bpi.bins
+                        .iter()
+                        .fold(0, |sum: usize, (_, qty)| sum.saturating_add(*qty)),
                     bpi.bins.len()
                 );
             }
-- 
2.43.0


From 407bb09e866d772e4a55de82b05fb2fbe366060a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:36 +0000
Subject: [PATCH 13/15] fix: hazards_within reports the bin exterior also when
 the caller's buffer is not empty

---
 jagua-rs/src/collision_detection/cd_engine.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/jagua-rs/src/collision_detection/cd_engine.rs b/jagua-rs/src/collision_detection/cd_engine.rs
index e769471..a28c8d3 100644
--- a/jagua-rs/src/collision_detection/cd_engine.rs
+++ b/jagua-rs/src/collision_detection/cd_engine.rs
@@ -476,10 +476,12 @@ impl CDEngine {
 
         //Check if the shape is outside the quadtree
         let centroid_in_qt = self.bbox.collides_with(&entity.centroid());
-        if !centroid_in_qt && detected.is_empty() {
+        if !centroid_in_qt && detected.len() == n_init_detected {
             // The shape centroid is outside the quadtree
-            if !irrelevant_hazards.contains(&HazardEntity::BinExterior) {
-                //Add the bin as a hazard, unless it is ignored
+            if !irrelevant_hazards.contains(&HazardEntity::BinExterior)
+                && !detected.contains(&HazardEntity::BinExterior)
+            {
+                //Add the bin as a hazard, unless it is ignored or already known
                 detected.push(HazardEntity::BinExterior);
             }
         }
-- 
2.43.0


From d25c7d5a408b27a920e9aefafad88d535b5f1eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:35 +0000
Subject: [PATCH 14/15] fix: keep grid cells at a positive size when generating
 the hazard proximity grid

In a very narrow container (for instance the initial strip of an instance whose
items are small compared to the strip's height) the correction factor was
decreased until it became zero or negative, which left the grid without any
cells and made the constructor panic.
---
 jagua-rs/src/collision_detection/hpg/grid_generator.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jagua-rs/src/collision_detection/hpg/grid_generator.rs b/jagua-rs/src/collision_detection/hpg/grid_generator.rs
index d465158..1889202 100644
--- a/jagua-rs/src/collision_detection/hpg/grid_generator.rs
+++ b/jagua-rs/src/collision_detection/hpg/grid_generator.rs
@@ -62,6 +62,8 @@ pub fn generate(bbox: AARectangle, hazards: &[Hazard], target_n_cells: usize) ->
             Ordering::Equal => break,
             //not enough cells, decrease their size
             Ordering::Less => {
+                //the cells have to keep a positive size
+                step_size = fsize::min(step_size, correction_factor / 2.0);
                 correction_factor -= step_size;
                 cells.clear();
             }
-- 
2.43.0


From e24241cad3992ed8911a846220caf2eeddb31f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:44:16 +0000
Subject: [PATCH 15/15] fix: use the cost given in the input as the cost of a
 bin

The parser ignored the Cost field and used the area of the bin instead, so that
Bin::value ('the cost of using the bin') and used_bin_cost() did not reflect the input.
---
 jagua-rs/src/io/parser.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/jagua-rs/src/io/parser.rs b/jagua-rs/src/io/parser.rs
index 2c7c056..c5cb84e 100644
--- a/jagua-rs/src/io/parser.rs
+++ b/jagua-rs/src/io/parser.rs
@@ -14,7 +14,6 @@ use crate::entities::problems::strip_packing::SPProblem;
 use crate::entities::quality_zone::InferiorQualityZone;
 use crate::entities::quality_zone::N_QUALITIES;
 use crate::entities::solution::Solution;
-use crate::fsize;
 use crate::geometry::d_transformation::DTransformation;
 use crate::geometry::geo_enums::AllowedRotation;
 use crate::geometry::geo_traits::{Shape, Transformable};
@@ -203,9 +202,6 @@ impl Parser {
             }
         };
 
-        let material_value =
-            (bin_outer.area() - bin_holes.iter().map(|hole| hole.area()).sum::<fsize>()) as u64;
-
         assert!(
             json_bin.zones.iter().all(|zone| zone.quality < N_QUALITIES),
             "Quality must be less than N_QUALITIES"
@@ -241,7 +237,7 @@ impl Parser {
         let base_bin = Bin::new(
             bin_id,
             bin_outer,
-            material_value,
+            json_bin.cost,
             Transformation::empty(),
             bin_holes,
             quality_zones,
-- 
2.43.0

