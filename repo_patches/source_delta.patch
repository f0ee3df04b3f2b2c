From be3d0f224523940702c011f0bb6b4756995b1144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:56 +0000
Subject: [PATCH 01/56] fix: score-first matcher looks up the matching weight
 by object index, not subset index

---
 src/waymo_open_dataset/metrics/matcher.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/waymo_open_dataset/metrics/matcher.cc b/src/waymo_open_dataset/metrics/matcher.cc
index d1c7a17..5ab7ff0 100644
--- a/src/waymo_open_dataset/metrics/matcher.cc
+++ b/src/waymo_open_dataset/metrics/matcher.cc
@@ -280,9 +280,9 @@ void ScoreFirstMatcher::Match(std::vector<int>* prediction_matches,
       const int pd_idx = prediction_subset()[pd_subset_idx];
       const int gt_idx = ground_truth_subset()[gt_subset_idx];
       if (CanMatch(pd_idx, gt_idx)) {
-        if (MatchingWeight(pd_subset_idx, gt_subset_idx) >
-            best_gt_match_weight) {
-          best_gt_match_weight = MatchingWeight(pd_subset_idx, gt_subset_idx);
+        const int weight = MatchingWeight(pd_idx, gt_idx);
+        if (weight > best_gt_match_weight) {
+          best_gt_match_weight = weight;
           best_gt_match = gt_subset_idx;
         }
       }
-- 
2.43.0


From 3123e116bfd91e9385d28f9936f4f51e573f2205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:56 +0000
Subject: [PATCH 02/56] fix: score-first matcher clears the caller's match
 vectors before filling them

---
 src/waymo_open_dataset/metrics/matcher.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/waymo_open_dataset/metrics/matcher.cc b/src/waymo_open_dataset/metrics/matcher.cc
index 5ab7ff0..7516c12 100644
--- a/src/waymo_open_dataset/metrics/matcher.cc
+++ b/src/waymo_open_dataset/metrics/matcher.cc
@@ -256,7 +256,9 @@ void ScoreFirstMatcher::Match(std::vector<int>* prediction_matches,
 
   const int prediction_subset_size = prediction_subset().size();
   const int ground_truth_subset_size = ground_truth_subset().size();
+  prediction_matches->clear();
   prediction_matches->resize(prediction_subset_size, -1);
+  ground_truth_matches->clear();
   ground_truth_matches->resize(ground_truth_subset_size, -1);
 
   std::vector<int> sorted_pred_subset_idx(prediction_subset_size);
-- 
2.43.0


From 37ee2043068f26bf332d17a0fd77caf86283a65c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:01 +0000
Subject: [PATCH 03/56] fix: camera breakdown leaves out objects of cameras
 without a shard instead of aborting

---
 src/waymo_open_dataset/metrics/breakdown_generator.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/waymo_open_dataset/metrics/breakdown_generator.cc b/src/waymo_open_dataset/metrics/breakdown_generator.cc
index ea1e39e..49f8a65 100644
--- a/src/waymo_open_dataset/metrics/breakdown_generator.cc
+++ b/src/waymo_open_dataset/metrics/breakdown_generator.cc
@@ -341,7 +341,8 @@ class BreakdownGeneratorCamera : public BreakdownGenerator {
       return std::vector<int>();
     }
     if (Is2DCamera(object)) {
-      return std::vector<int>({Shard(object)});
+      const int shard = Shard(object);
+      return shard < 0 ? std::vector<int>() : std::vector<int>({shard});
     }
     // For 3D detections, we estimate the camera breakdowns by FOV.
     const int shard_offset = kNumCameras * (object.object().type() - 1);
@@ -404,7 +405,8 @@ class BreakdownGeneratorCamera : public BreakdownGenerator {
       case CameraName::SIDE_RIGHT:
         return 4;
       default:
-        LOG(FATAL) << "Code should not reach here.";
+        // Cameras without a breakdown shard, e.g. UNKNOWN or the rear cameras.
+        return -1;
     }
   }
 
-- 
2.43.0


From 6b546e790f03931b68abc1bffe15ec23217d4ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:01 +0000
Subject: [PATCH 04/56] fix: tracking score cutoff estimation walks each
 frame's own predictions

---
 src/waymo_open_dataset/metrics/tracking_metrics.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/waymo_open_dataset/metrics/tracking_metrics.cc b/src/waymo_open_dataset/metrics/tracking_metrics.cc
index 0df0db7..0c8d9a5 100644
--- a/src/waymo_open_dataset/metrics/tracking_metrics.cc
+++ b/src/waymo_open_dataset/metrics/tracking_metrics.cc
@@ -303,8 +303,8 @@ Config EstimateScoreCutoffs(
     for (int scene_idx = 0; scene_idx < num_scenes; ++scene_idx) {
       const int num_frames = pds[scene_idx].size();
       for (int frame_idx = 0; frame_idx < num_frames; ++frame_idx) {
-        for (int pd_idx = 0, num_pds = pds[frame_idx].size(); pd_idx < num_pds;
-             ++pd_idx) {
+        const int num_pds = pds[scene_idx][frame_idx].size();
+        for (int pd_idx = 0; pd_idx < num_pds; ++pd_idx) {
           pd_scores.push_back(pds[scene_idx][frame_idx][pd_idx].score());
         }
       }
-- 
2.43.0


From 8f96a5a0e7c159cc3b45af4a48bcdcd078acbf38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:23 +0000
Subject: [PATCH 05/56] fix: merging detection measurements keeps the details
 of pre-merged groups

---
 src/waymo_open_dataset/metrics/detection_metrics.cc | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/waymo_open_dataset/metrics/detection_metrics.cc b/src/waymo_open_dataset/metrics/detection_metrics.cc
index 777c5b6..7cd0949 100644
--- a/src/waymo_open_dataset/metrics/detection_metrics.cc
+++ b/src/waymo_open_dataset/metrics/detection_metrics.cc
@@ -208,12 +208,10 @@ DetectionMeasurement MergeDetectionMeasurement(const DetectionMeasurement& m1,
   ADD_FIELD(sum_longitudinal_affinity);
 #undef ADD_FIELD
 
-  // If we enables details population, appends it as a new frame. The new
-  // frame's `details()` size should be 1.
-  if (m1.details_size() == 1 || m2.details_size() == 1) {
-    *m.mutable_details() = m1.details();
-    m.mutable_details()->MergeFrom(m2.details());
-  }
+  // If we enables details population, appends the new frames. Either side may
+  // already be the merge of several frames.
+  *m.mutable_details() = m1.details();
+  m.mutable_details()->MergeFrom(m2.details());
 
   m.set_score_cutoff(m1.score_cutoff());
   return m;
-- 
2.43.0


From eb6ec79b73e1c073110cf7214b56eb8ead5ab076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:23 +0000
Subject: [PATCH 06/56] fix: merging tracking measurements keeps the per-frame
 details

---
 src/waymo_open_dataset/metrics/tracking_metrics.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/waymo_open_dataset/metrics/tracking_metrics.cc b/src/waymo_open_dataset/metrics/tracking_metrics.cc
index 0c8d9a5..be8d2ce 100644
--- a/src/waymo_open_dataset/metrics/tracking_metrics.cc
+++ b/src/waymo_open_dataset/metrics/tracking_metrics.cc
@@ -104,6 +104,9 @@ TrackingMeasurement MergeTrackingMeasurement(const TrackingMeasurement& m1,
   ADD_FIELD(num_matches);
   ADD_FIELD(num_objects_gt);
 #undef ADD_FIELD
+  // The frames of both sides, if details are enabled.
+  *m.mutable_details() = m1.details();
+  m.mutable_details()->MergeFrom(m2.details());
   m.set_score_cutoff(m1.score_cutoff());
   return m;
 }
-- 
2.43.0


From 2d5be653c2c17d0520f536ce406b94c37dd67803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:05 +0000
Subject: [PATCH 07/56] fix: center alignment moves the prediction to the
 ground truth's height too

---
 src/waymo_open_dataset/metrics/iou.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/waymo_open_dataset/metrics/iou.cc b/src/waymo_open_dataset/metrics/iou.cc
index 6ee60d5..449e480 100644
--- a/src/waymo_open_dataset/metrics/iou.cc
+++ b/src/waymo_open_dataset/metrics/iou.cc
@@ -305,6 +305,7 @@ Label::Box AlignedPredictionBox(
       // Moves the prediction box's center to be same as ground truth.
       aligned_prediction_box.set_center_x(ground_truth_box.center_x());
       aligned_prediction_box.set_center_y(ground_truth_box.center_y());
+      aligned_prediction_box.set_center_z(ground_truth_box.center_z());
       break;
     case Config::LongitudinalErrorTolerantConfig::
         TYPE_ANY_CLOSER_ONLY_RANGE_ALIGNED:
-- 
2.43.0


From 3ab3d94ef2f7c774e7919ed64557996226622cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:48 +0000
Subject: [PATCH 08/56] fix: polygon intersection is right where edges nearly
 coincide

---
 src/waymo_open_dataset/math/polygon2d.cc | 151 ++++-------------------
 1 file changed, 23 insertions(+), 128 deletions(-)

diff --git a/src/waymo_open_dataset/math/polygon2d.cc b/src/waymo_open_dataset/math/polygon2d.cc
index 31ed180..3336fda 100644
--- a/src/waymo_open_dataset/math/polygon2d.cc
+++ b/src/waymo_open_dataset/math/polygon2d.cc
@@ -110,7 +110,7 @@ double AccSum(std::array<double, 16>& p) {
 // accuracy, by using precise floating point algorithms for results close to
 // zero, at a significant performance cost. The intent of this function is to be
 // used when computing intersections, which uses an algorithm that relies on
-// exact sign computations (see Polygon2d::ComputeIntersectionVertices).
+// exact sign computations (see ExactIntersection).
 double CrossMaybeExact(const Vec2d v0, const Vec2d v1, const Vec2d v2,
                        const Vec2d v3) {
   if (v0 == v1 || v2 == v3) {
@@ -289,8 +289,7 @@ bool ColinearSegmentPointIntersection(const Vec2d p0, const Vec2d p1,
   return false;
 }
 
-// Compute the intersection of two segments. The algorithm in
-// ComputeIntersectionVertices depends on exact computation, adjustment by
+// Compute the intersection of two segments, by exact computation: adjustment by
 // epsilon is not acceptable.
 bool ExactIntersection(const Vec2d p0, const Vec2d p1, const Vec2d q0,
                        const Vec2d q1, const double det, Vec2d* intersection) {
@@ -363,136 +362,32 @@ std::vector<Vec2d> Polygon2d::ComputeIntersectionVertices(
     return {};
   }
 
-  // This algorithm is from the following paper:
-  //
-  // O'Rourke, Joseph, et al. "A new linear algorithm for intersecting convex
-  // polygons." Computer Graphics and Image Processing 19.4 (1982): 384-391.
-  //
-  // The algorithm can be viewed as a geometric generalization of merging two
-  // sorted lists. It performs a counter-clockwise traversal of the boundaries
-  // of the two polygons. The algorithm maintains a pair of edges, one from each
-  // polygon. From a consideration of the relative positions of these edges the
-  // algorithm advances one of them to the next edge in counterclockwise order
-  // around its polygon. Intuitively, this is done in such a way that these two
-  // edges effectively “chase” each other around the boundary of the
-  // intersection polygon.
-
-  // We use P and Q to represent this polygon and the other one.
+  // Clip this polygon by each of the half planes whose intersection is the other
+  // polygon (Sutherland-Hodgman). A corner or edge that is off by rounding only
+  // moves the result by as much, also where edges of the two polygons (nearly)
+  // coincide.
   const std::vector<Vec2d>& other_points = other.points();
-  bool p_inside = false, q_inside = false;
-  const int total_num_points = NumPoints() + other.NumPoints();
-  std::vector<Vec2d> convex_points;
-  convex_points.reserve(total_num_points);
-
-  // A lambda that is used to append a new convex point to the list. We ignore
-  // the point that is identical to either the first or the last convex point in
-  // the list to handle corner cases, in which two polygons may "intersect" with
-  // either a point or an edge.
-  const auto append_convex_point = [](Vec2d p, std::vector<Vec2d>* convex_pts) {
-    if (convex_pts->empty() ||
-        (p != convex_pts->front() && p != convex_pts->back())) {
-      convex_pts->push_back(p);
-    }
-  };
-
-  int p_idx = 0, q_idx = 0;
-  int p_idx_next = 1, q_idx_next = 1;
-  Vec2d p0 = points_[p_idx];
-  Vec2d p1 = points_[p_idx_next];
-  Vec2d q0 = other_points[q_idx];
-  Vec2d q1 = other_points[q_idx_next];
-
-  for (int i = 0; i < total_num_points * 2; ++i) {
-    // If we found a intersection between <p0, p1> and <q0, q1>, put the
-    // intersection into the convex points list, and check that after the
-    // intersection whose points will be inside and hence recorded. If we reach
-    // the first intersection point, we are done.
-    Vec2d inter;
-    const double det = CrossMaybeExact(p0, p1, q1, q0);
-    if (ExactIntersection(p0, p1, q0, q1, det, &inter)) {
-      if (convex_points.size() > 2 && inter == convex_points[0]) {
-        return convex_points;
-      }
-      if (convex_points.empty()) {
-        // When we found the first intersection, we only need to iterate this
-        // loop at most total_num_points + 1 times to get back to this
-        // intersection.
-        i = total_num_points - 1;
-      }
-      append_convex_point(inter, &convex_points);
-      // If p1 is on the left of <q0, q1>, mark P as inside; otherwise mark Q as
-      // inside.
-      if (CrossMaybeExact(q1, q0, p1, q0) >= 0.0) {
-        p_inside = true;
-        q_inside = false;
-      } else {
-        p_inside = false;
-        q_inside = true;
-      }
-    }
-
-    // Determine in which polygon we would like to advance according to the
-    // "advance rule" in the algorithm.
-    const bool advance_p = (det >= 0.0)
-                               ? CrossMaybeExact(q1, q0, p1, q0) < 0.0
-                               : CrossMaybeExact(p1, p0, q1, p0) >= 0.0;
-
-    if (advance_p) {
-      if (p_inside) {
-        append_convex_point(p1, &convex_points);
+  std::vector<Vec2d> convex_points = points_;
+  std::vector<Vec2d> clipped;
+  clipped.reserve(NumPoints() + other.NumPoints());
+  for (int i = 0; i < other.NumPoints() && !convex_points.empty(); ++i) {
+    const Vec2d q0 = other_points[i];
+    const Vec2d q1 = other_points[other.Next(i)];
+    clipped.clear();
+    Vec2d p0 = convex_points.back();
+    double side0 = Cross(q0, q1, p0);
+    for (const Vec2d p1 : convex_points) {
+      const double side1 = Cross(q0, q1, p1);
+      if ((side0 < 0.0 && side1 > 0.0) || (side0 > 0.0 && side1 < 0.0)) {
+        clipped.push_back(p0 + (p1 - p0) * (side0 / (side0 - side1)));
       }
-      p_idx = p_idx_next;
+      if (side1 >= 0.0) clipped.push_back(p1);
       p0 = p1;
-      p_idx_next = Next(p_idx_next);
-      p1 = points_[p_idx_next];
-    } else {
-      if (q_inside) {
-        append_convex_point(q1, &convex_points);
-      }
-      q_idx = q_idx_next;
-      q0 = q1;
-      q_idx_next = other.Next(q_idx_next);
-      q1 = other_points[q_idx_next];
-    }
-  }
-
-  // Handle the case that those two polygons share one vertex or (part of) one
-  // edge, in which case the intersection is empty.
-  if (!convex_points.empty()) {
-    return {};
-  }
-
-  // Now we have three cases:
-  //   1. P is inside of Q.
-  //   2. Q is inside of P.
-  //   3. P and Q don't intersect.
-
-  // Check the case 1.
-  bool p_is_inside = true;
-  for (const auto& point : points_) {
-    if (!other.PointInside(point)) {
-      p_is_inside = false;
-      break;
+      side0 = side1;
     }
+    convex_points.swap(clipped);
   }
-  if (p_is_inside) {
-    return points_;
-  }
-
-  // Check the case 2.
-  bool q_is_inside = true;
-  for (const auto& point : other_points) {
-    if (!PointInside(point)) {
-      q_is_inside = false;
-      break;
-    }
-  }
-  if (q_is_inside) {
-    return other.points_;
-  }
-
-  // P and Q don't intersect.
-  return {};
+  return convex_points;
 }
 
 double Polygon2d::ComputeIntersectionArea(const Polygon2d& other) const {
-- 
2.43.0


From 94c6cb851fdf442816090fd0ed878c46df22b3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:35 +0000
Subject: [PATCH 09/56] fix: merged segmentation counts are not cut to 32 bits

---
 src/waymo_open_dataset/metrics/segmentation_metrics.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/waymo_open_dataset/metrics/segmentation_metrics.cc b/src/waymo_open_dataset/metrics/segmentation_metrics.cc
index fce6828..cfb83f2 100644
--- a/src/waymo_open_dataset/metrics/segmentation_metrics.cc
+++ b/src/waymo_open_dataset/metrics/segmentation_metrics.cc
@@ -125,8 +125,8 @@ SegmentationMetrics SegmentationMetricsIOU::MergeResults(
   }
   std::vector<float> ious(num_classes_, 1.0);
   for (int i = 0; i < num_classes_; ++i) {
-    int num_intersection = num_intersections[i];
-    int num_union = num_unions[i];
+    const int64_t num_intersection = num_intersections[i];
+    const int64_t num_union = num_unions[i];
     if (num_union > 0) {
       ious[i] = 1.0f * num_intersection / num_union;
     }
-- 
2.43.0


From 962515f5d29d572f46fb2a1e292514f1deb31068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:35 +0000
Subject: [PATCH 10/56] fix: missing segmentation predictions are sized like
 the return they stand for

---
 .../metrics/tools/compute_segmentation_metrics_main.cc          | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/waymo_open_dataset/metrics/tools/compute_segmentation_metrics_main.cc b/src/waymo_open_dataset/metrics/tools/compute_segmentation_metrics_main.cc
index d085b70..a06ac2f 100644
--- a/src/waymo_open_dataset/metrics/tools/compute_segmentation_metrics_main.cc
+++ b/src/waymo_open_dataset/metrics/tools/compute_segmentation_metrics_main.cc
@@ -211,7 +211,7 @@ void Compute(const std::string& pd_str, const std::string& gt_str) {
                          .segmentation_label_compressed()));
       pd_vector = Flatten(pd_matrix);
     } else {
-      pd_vector = CreateEmptyPrediction(num_points);
+      pd_vector = CreateEmptyPrediction(gt_matrix.data().size());
     }
     CHECK(miou.Update(pd_vector, Flatten(gt_matrix)).ok())
         << "Prediction and Groundtruth length do not match";
-- 
2.43.0


From 3417da4f6592a68062997549abd6c49444a32ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:47 +0000
Subject: [PATCH 11/56] fix: motion metrics config rejects a measurement step
 past the last prediction

---
 src/waymo_open_dataset/metrics/motion_metrics.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/waymo_open_dataset/metrics/motion_metrics.cc b/src/waymo_open_dataset/metrics/motion_metrics.cc
index dc8bb37..cef3f18 100644
--- a/src/waymo_open_dataset/metrics/motion_metrics.cc
+++ b/src/waymo_open_dataset/metrics/motion_metrics.cc
@@ -82,7 +82,7 @@ Status ValidateConfig(const MotionMetricsConfig& config) {
                                config.prediction_steps_per_second() /
                                config.track_steps_per_second();
   for (const auto& step_config : config.step_configurations()) {
-    if (step_config.measurement_step() > prediction_steps ||
+    if (step_config.measurement_step() >= prediction_steps ||
         step_config.measurement_step() < 0) {
       return InvalidArgumentError("Requested miss rate time is invalid");
     }
-- 
2.43.0


From f1507084ef9a54d41c7d65b8ce938ed3e11f79fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:47 +0000
Subject: [PATCH 12/56] fix: motion metrics config with a zero or negative rate
 or sample count is rejected

---
 src/waymo_open_dataset/metrics/motion_metrics.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/waymo_open_dataset/metrics/motion_metrics.cc b/src/waymo_open_dataset/metrics/motion_metrics.cc
index cef3f18..dcd8b96 100644
--- a/src/waymo_open_dataset/metrics/motion_metrics.cc
+++ b/src/waymo_open_dataset/metrics/motion_metrics.cc
@@ -66,6 +66,12 @@ const std::unordered_map<TrajectoryType, int>& GetTrajectoryTypePriority() {
 // Validate the metrics configuration.
 Status ValidateConfig(const MotionMetricsConfig& config) {
   // Validate the configuration.
+  if (config.prediction_steps_per_second() <= 0 ||
+      config.track_history_samples() < 0 || config.track_future_samples() < 0) {
+    return InvalidArgumentError(
+        "prediction_steps_per_second must be positive and the sample counts "
+        "cannot be negative");
+  }
   if (config.prediction_steps_per_second() > config.track_steps_per_second()) {
     return InvalidArgumentError(
         "prediction_steps_per_second cannot be greater than "
-- 
2.43.0


From 36a6dfaa6b0638bdbf78857bfe5aa8e1972f58db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:47 +0000
Subject: [PATCH 13/56] fix: an empty prediction does not drop the rest of its
 scenario from the motion metrics

---
 src/waymo_open_dataset/metrics/motion_metrics.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/waymo_open_dataset/metrics/motion_metrics.cc b/src/waymo_open_dataset/metrics/motion_metrics.cc
index dcd8b96..c92df9d 100644
--- a/src/waymo_open_dataset/metrics/motion_metrics.cc
+++ b/src/waymo_open_dataset/metrics/motion_metrics.cc
@@ -757,7 +757,7 @@ Status ComputeAllMetrics(
     // joint prediction.
     if (multi_modal_prediction.joint_predictions().empty() ||
         multi_modal_prediction.joint_predictions(0).trajectories().empty()) {
-      return OkStatus();
+      continue;
     }
 
     // Find the object_type that best describes the prediction. If it is a joint
-- 
2.43.0


From a3dadeea3b73d1578e41297d628fd618166c3bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:47 +0000
Subject: [PATCH 14/56] fix: motion metrics reject scenarios with short context
 tracks instead of reading past them

---
 src/waymo_open_dataset/metrics/motion_metrics.cc | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/waymo_open_dataset/metrics/motion_metrics.cc b/src/waymo_open_dataset/metrics/motion_metrics.cc
index c92df9d..51e1898 100644
--- a/src/waymo_open_dataset/metrics/motion_metrics.cc
+++ b/src/waymo_open_dataset/metrics/motion_metrics.cc
@@ -201,13 +201,14 @@ Status ValidatePredictions(const MotionMetricsConfig& config,
   return ValidateRequiredIds(scenario, predicted_object_ids);
 }
 
-// Validate that all of the given tracks have the required length.
+// Validate that all of the tracks in the scenario have the required length. The
+// tracks that are not predicted are also indexed by the overlap metric.
 Status ValidateTracks(const MotionMetricsConfig& config,
-                      absl::flat_hash_map<int, const Track*>& ids_to_tracks) {
+                      const Scenario& scenario) {
   const int track_size =
       config.track_history_samples() + config.track_future_samples() + 1;
-  for (const auto& [id, track] : ids_to_tracks) {
-    if (track->states_size() != track_size) {
+  for (const auto& track : scenario.tracks()) {
+    if (track.states_size() != track_size) {
       return InvalidArgumentError("Invalid Scenario track size.");
     }
   }
@@ -1042,7 +1043,7 @@ Status ComputeMetricsStats(const MotionMetricsConfig& config,
     ids_to_tracks[track.id()] = &scenario.tracks(track_index);
   }
 
-  status = ValidateTracks(config, ids_to_tracks);
+  status = ValidateTracks(config, scenario);
   if (!status.ok()) {
     return status;
   }
-- 
2.43.0


From c16dc09432afc7ea0a991244712518e38153985d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:47 +0000
Subject: [PATCH 15/56] fix: motion metrics reject objects predicted twice and
 joint predictions without objects

---
 .../metrics/motion_metrics.cc                 | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/waymo_open_dataset/metrics/motion_metrics.cc b/src/waymo_open_dataset/metrics/motion_metrics.cc
index 51e1898..c22a94e 100644
--- a/src/waymo_open_dataset/metrics/motion_metrics.cc
+++ b/src/waymo_open_dataset/metrics/motion_metrics.cc
@@ -104,6 +104,7 @@ Status ValidateMultiModalPrediction(
   // Use this set to validate that all predicted trajectories in the
   // multi_modal_prediction proto are for the same object.
   std::set<int> trajectory_ids;
+  bool is_first_prediction = true;
   for (const auto& prediction : multi_modal_prediction.joint_predictions()) {
     // Validate the trajectory lengths.
     std::set<int> ids;
@@ -116,12 +117,17 @@ Status ValidateMultiModalPrediction(
             " trajectory : ", trajectory.DebugString()));
       }
       prediction_ids->insert(trajectory.object_id());
-      ids.insert(trajectory.object_id());
+      if (!ids.insert(trajectory.object_id()).second) {
+        return InvalidArgumentError(absl::StrCat(
+            "Object predicted more than once in a joint prediction : ",
+            trajectory.object_id()));
+      }
     }
 
     // Verify that every joint prediction contains the same objects.
-    if (trajectory_ids.empty()) {
+    if (is_first_prediction) {
       trajectory_ids = ids;
+      is_first_prediction = false;
     }
     if (ids != trajectory_ids) {
       return InvalidArgumentError(
@@ -185,16 +191,21 @@ Status ValidatePredictions(const MotionMetricsConfig& config,
   // Create a set to validate that all required objects from the scenario have
   // a prediction.
   std::set<int> predicted_object_ids;
-  std::set<int> prediction_ids;
   for (const auto& multi_modal_prediction :
        scenario_predictions.multi_modal_predictions()) {
     // Validate the prediction and store all IDs in each prediction.
+    std::set<int> prediction_ids;
     Status status = ValidateMultiModalPrediction(
         multi_modal_prediction, trajectory_size, &prediction_ids);
     if (!status.ok()) {
       return status;
     }
-    predicted_object_ids.insert(prediction_ids.begin(), prediction_ids.end());
+    for (const int id : prediction_ids) {
+      if (!predicted_object_ids.insert(id).second) {
+        return InvalidArgumentError(absl::StrCat(
+            "Object predicted by more than one MultimodalPrediction : ", id));
+      }
+    }
   }
 
   // Validate that there is a prediction for all required objects.
-- 
2.43.0


From 391e1d1bf644083fbd3df3cf765fd555bcb89e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:07 +0000
Subject: [PATCH 16/56] fix: a polygon without area intersects nothing

---
 src/waymo_open_dataset/math/polygon2d.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/waymo_open_dataset/math/polygon2d.cc b/src/waymo_open_dataset/math/polygon2d.cc
index 3336fda..e02fd00 100644
--- a/src/waymo_open_dataset/math/polygon2d.cc
+++ b/src/waymo_open_dataset/math/polygon2d.cc
@@ -358,7 +358,9 @@ bool ExactSegmentIntersection(const Segment2d& s1, const Segment2d& s2,
 
 std::vector<Vec2d> Polygon2d::ComputeIntersectionVertices(
     const Polygon2d& other) const {
-  if (!MaybeHasIntersectionWith(other)) {
+  // A polygon without area has no inside to clip by.
+  if (!MaybeHasIntersectionWith(other) || Area() <= 0.0 ||
+      other.Area() <= 0.0) {
     return {};
   }
 
-- 
2.43.0


From f03f64f6cd3c2e120ac835b0f599ec9261912214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:11 +0000
Subject: [PATCH 17/56] fix: traffic light features keep lane ids too large for
 a float

---
 src/waymo_open_dataset/data_conversion/scenario_conversion.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/waymo_open_dataset/data_conversion/scenario_conversion.cc b/src/waymo_open_dataset/data_conversion/scenario_conversion.cc
index 4fecf3f..7d1a008 100644
--- a/src/waymo_open_dataset/data_conversion/scenario_conversion.cc
+++ b/src/waymo_open_dataset/data_conversion/scenario_conversion.cc
@@ -960,7 +960,8 @@ absl::Status AddTrafficLightStateFeatures(
                       features);
       AddInt64Feature(
           absl::StrCat(state_and_time_frame_prefix, "id"),
-          lane_state == nullptr ? kInvalidFieldValue : lane_state->lane(),
+          lane_state == nullptr ? static_cast<int64_t>(kInvalidFieldValue)
+                                : lane_state->lane(),
           features);
       AddInt64Feature(absl::StrCat(state_and_time_frame_prefix, "valid"),
                       lane_state == nullptr ? 0 : 1, features);
-- 
2.43.0


From 1e27d9cb21333667b282750ddf9a451c790d62ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:11 +0000
Subject: [PATCH 18/56] fix: scenario conversion skips map features with an
 empty polygon

---
 src/waymo_open_dataset/data_conversion/scenario_conversion.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/waymo_open_dataset/data_conversion/scenario_conversion.cc b/src/waymo_open_dataset/data_conversion/scenario_conversion.cc
index 7d1a008..0237c93 100644
--- a/src/waymo_open_dataset/data_conversion/scenario_conversion.cc
+++ b/src/waymo_open_dataset/data_conversion/scenario_conversion.cc
@@ -794,6 +794,10 @@ void AddPolygonSamples(
     const int type, const google::protobuf::RepeatedPtrField<MapPoint>& map_points,
     const int valid, int* num_points,
     absl::flat_hash_map<std::string, tensorflow::Feature>* features) {
+  if (map_points.empty()) {
+    return;
+  }
+
   // Add the first N-1 segments of the polygon.
   const int feature_size = map_points.size();
   std::vector<Vec3d> points;
-- 
2.43.0


From 327f293c465c13d402483993599113da7c621c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:11 +0000
Subject: [PATCH 19/56] fix: scenario conversion rejects scenarios without a
 current step or with bad track indices

---
 .../data_conversion/scenario_conversion.cc    | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/waymo_open_dataset/data_conversion/scenario_conversion.cc b/src/waymo_open_dataset/data_conversion/scenario_conversion.cc
index 0237c93..c1943d2 100644
--- a/src/waymo_open_dataset/data_conversion/scenario_conversion.cc
+++ b/src/waymo_open_dataset/data_conversion/scenario_conversion.cc
@@ -1000,6 +1000,14 @@ bool ValidateScenarioProto(const Scenario& scenario,
     valid = false;
   }
 
+  for (const auto& track_to_predict : scenario.tracks_to_predict()) {
+    if (track_to_predict.track_index() >= scenario.tracks().size() ||
+        track_to_predict.track_index() < 0) {
+      IncrementCounter("Scenario_Track_To_Predict_Index_No_Match", counters);
+      valid = false;
+    }
+  }
+
   for (const auto& track : scenario.tracks()) {
     if (scenario.timestamps_seconds().size() != track.states().size()) {
       IncrementCounter("Track_States_Size_Not_Match_Timestamps_Step_Size",
@@ -1053,6 +1061,17 @@ absl::StatusOr<tensorflow::Example> ScenarioToExample(
         absl::StrCat("Invalid Scenario Proto: ", scenario.ShortDebugString()));
   }
 
+  // The current step is the last of the past steps.
+  if (config.num_past_steps() < 1 || config.num_future_steps() < 0) {
+    return absl::InvalidArgumentError(
+        "num_past_steps must be positive and num_future_steps non-negative.");
+  }
+  if (scenario.timestamps_seconds().size() < config.num_past_steps()) {
+    return absl::InternalError(absl::StrCat(
+        "Invalid Scenario Proto: it ends before the current step: ",
+        scenario.timestamps_seconds().size(), " < ", config.num_past_steps()));
+  }
+
   // Create the example feature tensors from the Scenario proto data.
   absl::flat_hash_map<std::string, tensorflow::Feature> features;
   const int num_steps = config.num_future_steps() + config.num_past_steps();
-- 
2.43.0


From 672ffd0f2c7dbc5d55a1563163cf54bc7b70888d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:11 +0000
Subject: [PATCH 20/56] fix: scenario conversion rejects a maximum number of
 agents below the modeled agents

---
 .../data_conversion/scenario_conversion.cc                | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/waymo_open_dataset/data_conversion/scenario_conversion.cc b/src/waymo_open_dataset/data_conversion/scenario_conversion.cc
index c1943d2..c8ffa92 100644
--- a/src/waymo_open_dataset/data_conversion/scenario_conversion.cc
+++ b/src/waymo_open_dataset/data_conversion/scenario_conversion.cc
@@ -266,6 +266,14 @@ absl::Status AddSdcAndAgentsStateFeatures(
         "No valid modeled agents in the current track.");
   }
 
+  if (static_cast<int>(modeled_agents.size()) >
+      conversion_config.max_num_agents()) {
+    return absl::InvalidArgumentError(
+        absl::StrCat("max_num_agents is too small for the modeled agents: ",
+                     conversion_config.max_num_agents(), " < ",
+                     modeled_agents.size()));
+  }
+
   IncrementCounter("Num_Modeled_Agents", counters, modeled_agents.size());
   std::vector<const Track*> sorted_modeled_agents(modeled_agents.begin(),
                                                   modeled_agents.end());
-- 
2.43.0


From bb077099cb1bef016c221a7204063181bd9d8fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:11 +0000
Subject: [PATCH 21/56] fix: scenario conversion rejects a source polyline
 spacing that is not positive

---
 src/waymo_open_dataset/data_conversion/scenario_conversion.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/waymo_open_dataset/data_conversion/scenario_conversion.cc b/src/waymo_open_dataset/data_conversion/scenario_conversion.cc
index c8ffa92..f233404 100644
--- a/src/waymo_open_dataset/data_conversion/scenario_conversion.cc
+++ b/src/waymo_open_dataset/data_conversion/scenario_conversion.cc
@@ -1069,6 +1069,10 @@ absl::StatusOr<tensorflow::Example> ScenarioToExample(
         absl::StrCat("Invalid Scenario Proto: ", scenario.ShortDebugString()));
   }
 
+  if (!(config.source_polyline_spacing() > 0)) {
+    return absl::InvalidArgumentError(
+        "source_polyline_spacing must be positive.");
+  }
   // The current step is the last of the past steps.
   if (config.num_past_steps() < 1 || config.num_future_steps() < 0) {
     return absl::InvalidArgumentError(
-- 
2.43.0


From b6c913687dbc71973ab2657f5b0085972d540c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:09 +0000
Subject: [PATCH 22/56] fix: compressing a range image leaves the caller's
 array alone

---
 src/waymo_open_dataset/utils/compression/delta_encoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/waymo_open_dataset/utils/compression/delta_encoder.py b/src/waymo_open_dataset/utils/compression/delta_encoder.py
index ab562c2..9776c0c 100644
--- a/src/waymo_open_dataset/utils/compression/delta_encoder.py
+++ b/src/waymo_open_dataset/utils/compression/delta_encoder.py
@@ -60,7 +60,7 @@ def compress(
             " positive numbers"
         )
 
-  range_image_round = range_image
+  range_image_round = np.zeros(range_image.shape)
   for i in range(num_channel):
     range_image_round[..., i] = np.round(
         range_image[..., i] / quant_precision[i]
-- 
2.43.0


From b98acc6a3ef049488795cc1dcf7a0683e92e8c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:46 +0000
Subject: [PATCH 23/56] fix: empty range images can be compressed

---
 src/waymo_open_dataset/utils/compression/delta_encoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/waymo_open_dataset/utils/compression/delta_encoder.py b/src/waymo_open_dataset/utils/compression/delta_encoder.py
index 9776c0c..2d52f49 100644
--- a/src/waymo_open_dataset/utils/compression/delta_encoder.py
+++ b/src/waymo_open_dataset/utils/compression/delta_encoder.py
@@ -153,7 +153,7 @@ def _rlencode(x: np.ndarray) -> np.ndarray:
   # We implicitly set the rule that the first key in rle is 1,
   # thus if the leading entry in the mask array is 0, we need to
   # append 0 at the start of rle.
-  if x[0] == 0:
+  if x.size and x[0] == 0:
     lengths = np.r_[0, lengths]
   return lengths
 
-- 
2.43.0


From 03100a55808c6eca980c2b6e5826764552042bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:14 +0000
Subject: [PATCH 24/56] fix: map plots skip polygons without points

---
 src/waymo_open_dataset/utils/plot_maps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/waymo_open_dataset/utils/plot_maps.py b/src/waymo_open_dataset/utils/plot_maps.py
index cd18fd6..b23379b 100644
--- a/src/waymo_open_dataset/utils/plot_maps.py
+++ b/src/waymo_open_dataset/utils/plot_maps.py
@@ -280,7 +280,7 @@ def plot_map_features(
     for point in points:
       map_points.append_point(point, feature_type, feature_id)
 
-    if is_polygon:
+    if is_polygon and points:
       map_points.append_point(points[0], feature_type, feature_id)
 
   # Create arrays of the map points to be plotted.
-- 
2.43.0


From d9f3cf0e93f07065fed30a6227e2f35dc845a164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:14 +0000
Subject: [PATCH 25/56] fix: a map without points can be plotted

---
 src/waymo_open_dataset/utils/plot_maps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/waymo_open_dataset/utils/plot_maps.py b/src/waymo_open_dataset/utils/plot_maps.py
index b23379b..18cecbb 100644
--- a/src/waymo_open_dataset/utils/plot_maps.py
+++ b/src/waymo_open_dataset/utils/plot_maps.py
@@ -128,8 +128,8 @@ def plot_map_points(map_points: MapPoints) -> go._figure.Figure:
   # Plot connecting lines for each individual roadgraph feature.
   start_index = 0
   end_index = 0
-  point_type = map_points.types[0]
-  feature_id = map_points.ids[0]
+  point_type = map_points.types[0] if map_points.types else None
+  feature_id = map_points.ids[0] if map_points.ids else None
 
   color_dict = {}
   for k in line_dict:
-- 
2.43.0


From 96044acd82098d7dea12e1d46a85a721e52b2b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:46 +0000
Subject: [PATCH 26/56] fix: map plots show solid double yellow road lines

---
 src/waymo_open_dataset/utils/plot_maps.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/waymo_open_dataset/utils/plot_maps.py b/src/waymo_open_dataset/utils/plot_maps.py
index 18cecbb..713c8be 100644
--- a/src/waymo_open_dataset/utils/plot_maps.py
+++ b/src/waymo_open_dataset/utils/plot_maps.py
@@ -258,6 +258,9 @@ def plot_map_features(
       map_pb2.RoadLine.TYPE_SOLID_SINGLE_YELLOW: (
           FeatureType.SOLID_SINGLE_YELLOW_BOUNDARY
       ),
+      map_pb2.RoadLine.TYPE_SOLID_DOUBLE_YELLOW: (
+          FeatureType.SOLID_DOUBLE_YELLOW_BOUNDARY
+      ),
       map_pb2.RoadLine.TYPE_PASSING_DOUBLE_YELLOW: (
           FeatureType.PASSING_DOUBLE_YELLOW_BOUNDARY
       ),
-- 
2.43.0


From 6bf7071512e71ba41c20b774bbf58d91c2a6239b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:10 +0000
Subject: [PATCH 27/56] fix: a scene that simulates an object more than once is
 not valid

---
 .../utils/sim_agents/submission_specs.py                   | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/waymo_open_dataset/utils/sim_agents/submission_specs.py b/src/waymo_open_dataset/utils/sim_agents/submission_specs.py
index 6469cf3..0bc1995 100644
--- a/src/waymo_open_dataset/utils/sim_agents/submission_specs.py
+++ b/src/waymo_open_dataset/utils/sim_agents/submission_specs.py
@@ -174,7 +174,7 @@ def validate_joint_scene(
 
   Checks the following properties:
   - All the objects that are valid at step 11th (when 1-indexed, same as
-      `current_time_index`) are present in the scene.
+      `current_time_index`) are present in the scene, once each.
   - All submission trajectories are 80-steps in length.
 
   Args:
@@ -209,6 +209,11 @@ def validate_joint_scene(
       raise ValueError(
           f'Object {simulated_trajectory.object_id} is not a sim agent.'
       )
+    # Check that each object is simulated only once.
+    if simulated_trajectory.object_id in simulated_ids:
+      raise ValueError(
+          f'Object {simulated_trajectory.object_id} is simulated more than once.'
+      )
     simulated_ids.append(simulated_trajectory.object_id)
   # Check that all of the required objects/agents are simulated.
   missing_agents = set(sim_agent_ids) - set(simulated_ids)
-- 
2.43.0


From c69d61528af3a0119758cffa70ef211063cb60a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:39 +0000
Subject: [PATCH 28/56] fix: fields of a nested part are not read from columns
 of its siblings

---
 src/waymo_open_dataset/v2/component.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/waymo_open_dataset/v2/component.py b/src/waymo_open_dataset/v2/component.py
index 40a4f57..7ca6804 100644
--- a/src/waymo_open_dataset/v2/component.py
+++ b/src/waymo_open_dataset/v2/component.py
@@ -314,8 +314,12 @@ def flatten_arrow_types(
 
 
 def _remove_prefix(prefix: str, columns: dict[str, _T]) -> dict[str, _T]:
-  """Removes specified prefix from all keys in the input dictionary."""
-  return {k.removeprefix(prefix): v for k, v in columns.items()}
+  """Returns values for keys which have the prefix, with the prefix removed."""
+  return {
+      k.removeprefix(prefix): v
+      for k, v in columns.items()
+      if k.startswith(prefix)
+  }
 
 
 def unflatten_dict(class_type: type[_T], columns: dict[str, Any]) -> _T:
-- 
2.43.0


From 88dc859b4cbad9f9dbe8e1ad2ff61b3d24842eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:39 +0000
Subject: [PATCH 29/56] fix: grouping in merge makes no rows for category
 values without records

---
 src/waymo_open_dataset/v2/dataframe_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/waymo_open_dataset/v2/dataframe_utils.py b/src/waymo_open_dataset/v2/dataframe_utils.py
index 00b0bf7..fd8ec08 100644
--- a/src/waymo_open_dataset/v2/dataframe_utils.py
+++ b/src/waymo_open_dataset/v2/dataframe_utils.py
@@ -46,7 +46,7 @@ def _cast_keys(src, dst, keys):
 
 
 def _group_by(src, keys):
-  dst = src.groupby(list(keys)).agg(list).reset_index()
+  dst = src.groupby(list(keys), observed=True).agg(list).reset_index()
   # Fix key types automatically created from the MultiIndex
   _cast_keys(src, dst, keys)
   return dst
-- 
2.43.0


From 43e62d447db0473559a9bb99ff19803a640a0058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:05 +0000
Subject: [PATCH 30/56] fix: tables without records can be grouped in merge

---
 src/waymo_open_dataset/v2/dataframe_utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/waymo_open_dataset/v2/dataframe_utils.py b/src/waymo_open_dataset/v2/dataframe_utils.py
index fd8ec08..e46fd46 100644
--- a/src/waymo_open_dataset/v2/dataframe_utils.py
+++ b/src/waymo_open_dataset/v2/dataframe_utils.py
@@ -46,7 +46,9 @@ def _cast_keys(src, dst, keys):
 
 
 def _group_by(src, keys):
-  dst = src.groupby(list(keys), observed=True).agg(list).reset_index()
+  values = [c for c in src.columns if c not in keys]
+  groups = src.groupby(list(keys), observed=True)[values]
+  dst = groups.agg(list).reset_index()
   # Fix key types automatically created from the MultiIndex
   _cast_keys(src, dst, keys)
   return dst
-- 
2.43.0


From 410157cb3b22d28da74a1182edb067a13cc749e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:13 +0000
Subject: [PATCH 31/56] fix: create_submission accepts protos that are empty or
 end in a newline byte

---
 .../metrics/tools/create_submission.cc                 | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/waymo_open_dataset/metrics/tools/create_submission.cc b/src/waymo_open_dataset/metrics/tools/create_submission.cc
index d63d680..914025f 100644
--- a/src/waymo_open_dataset/metrics/tools/create_submission.cc
+++ b/src/waymo_open_dataset/metrics/tools/create_submission.cc
@@ -148,10 +148,14 @@ void Run() {
   int i = 0;
   for (const auto& name : input_filenames) {
     std::string content = ReadFileToString(name);
-    if (content.back() == '\n') {
-      content.pop_back();
+    // A newline may have been appended to the proto, but the last byte of a
+    // serialized proto can also be a newline.
+    if (!objects_all[i].ParseFromString(content)) {
+      if (!content.empty() && content.back() == '\n') {
+        content.pop_back();
+      }
+      CHECK(objects_all[i].ParseFromString(content));
     }
-    CHECK(objects_all[i].ParseFromString(content));
     i++;
   }
 
-- 
2.43.0


From beab29123771078beb07ffd4d995ed5a8be99ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:26 +0000
Subject: [PATCH 32/56] fix: comparing latency results reads every submission
 and refuses missing files

---
 .../compare_objects_file_to_submission_main.cc        | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/waymo_open_dataset/latency/compare_objects_file_to_submission_main.cc b/src/waymo_open_dataset/latency/compare_objects_file_to_submission_main.cc
index 4d95374..b64e069 100644
--- a/src/waymo_open_dataset/latency/compare_objects_file_to_submission_main.cc
+++ b/src/waymo_open_dataset/latency/compare_objects_file_to_submission_main.cc
@@ -81,14 +81,19 @@ Objects ReadObjectsFromFile(const std::vector<std::string>& paths) {
   for (const auto& path : paths) {
     Objects objs;
     std::ifstream s(path);
+    CHECK(s.is_open()) << path << " cannot be read.";
     const std::string content((std::istreambuf_iterator<char>(s)),
                               std::istreambuf_iterator<char>());
-    if (!objs.ParseFromString(content)) {
+    // Parsing a submission as Objects can succeed without finding any object,
+    // as the fields of the submission can be taken for unknown fields.
+    const bool is_objects = objs.ParseFromString(content);
+    if (!is_objects || objs.objects().empty()) {
       Submission submission;
-      if (!submission.ParseFromString(content)) {
+      if (submission.ParseFromString(content)) {
+        objs = std::move(submission.inference_results());
+      } else if (!is_objects) {
         LOG(FATAL) << "Could not parse " << path << " as submission either.";
       }
-      objs = std::move(submission.inference_results());
     }
     for (const auto& o : objs.objects()) {
       *objects_merged.add_objects() = o;
-- 
2.43.0


From 8090f9204ce053f193f30b1e30f449e1320bfa47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:47 +0000
Subject: [PATCH 33/56] fix: motion op: take the object of interest's id from
 its track, not from a row indexed by the id

---
 src/waymo_open_dataset/metrics/ops/utils.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/waymo_open_dataset/metrics/ops/utils.cc b/src/waymo_open_dataset/metrics/ops/utils.cc
index 0a30180..858c273 100644
--- a/src/waymo_open_dataset/metrics/ops/utils.cc
+++ b/src/waymo_open_dataset/metrics/ops/utils.cc
@@ -377,7 +377,7 @@ ParseScenarioAndPredictonsFromTensors(
           required_track.set_difficulty(RequiredPrediction::LEVEL_1);
 
           scenario->add_objects_of_interest(
-              object_id.matrix<int64>()(i, scenario->tracks(track_index).id()));
+              scenario->tracks(track_index).id());
         }
       }
     }
-- 
2.43.0


From ba484444f36d8f38c9f3ed6e6a28d55093ba550f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:47 +0000
Subject: [PATCH 34/56] fix: motion op: refuse to predict an agent without a
 valid state instead of using track 0

---
 src/waymo_open_dataset/metrics/ops/utils.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/waymo_open_dataset/metrics/ops/utils.cc b/src/waymo_open_dataset/metrics/ops/utils.cc
index 858c273..df3fd10 100644
--- a/src/waymo_open_dataset/metrics/ops/utils.cc
+++ b/src/waymo_open_dataset/metrics/ops/utils.cc
@@ -367,6 +367,8 @@ ParseScenarioAndPredictonsFromTensors(
           int64 gt_index = pred_gt_indices.tensor<int64, 3>()(i, m, n);
           CHECK_GE(gt_index, 0);
           CHECK_LT(gt_index, num_total_agents);
+          CHECK(gt_idx_to_track_idx.contains(gt_index))
+              << "Agent " << gt_index << " has no valid state.";
           // Get the track index for that ground truth agent.
           int64 track_index = gt_idx_to_track_idx[gt_index];
           CHECK_GE(track_index, 0);
-- 
2.43.0


From e0ec628f098a82dd4d141bd1645e658c776cb07a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:47 +0000
Subject: [PATCH 35/56] fix: tracking op: ground truth difficulty is the
 tracking difficulty

---
 src/waymo_open_dataset/metrics/ops/tracking_metrics_ops.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/waymo_open_dataset/metrics/ops/tracking_metrics_ops.cc b/src/waymo_open_dataset/metrics/ops/tracking_metrics_ops.cc
index 0216be0..a599ad5 100644
--- a/src/waymo_open_dataset/metrics/ops/tracking_metrics_ops.cc
+++ b/src/waymo_open_dataset/metrics/ops/tracking_metrics_ops.cc
@@ -203,8 +203,8 @@ class TrackingMetricsOp final : public OpKernel {
             /*object_id=*/*input.ground_truth_object_id,
             /*score=*/absl::nullopt,
             /*overlap_nlz=*/absl::nullopt,
-            /*detection_difficulty=*/*input.ground_truth_difficulty,
-            /*tracking_difficulty=*/absl::nullopt,
+            /*detection_difficulty=*/absl::nullopt,
+            /*tracking_difficulty=*/*input.ground_truth_difficulty,
             /*object_speed=*/*input.ground_truth_speed);
 
     std::set<std::string> sequence_ids;
-- 
2.43.0


From 6b80eb16c3e72eb27f5029de1348a08c8f016925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:32 +0000
Subject: [PATCH 36/56] fix: score-first matcher: an output the caller does not
 need can be null, as documented

---
 src/waymo_open_dataset/metrics/matcher.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/waymo_open_dataset/metrics/matcher.cc b/src/waymo_open_dataset/metrics/matcher.cc
index 7516c12..b2dde0f 100644
--- a/src/waymo_open_dataset/metrics/matcher.cc
+++ b/src/waymo_open_dataset/metrics/matcher.cc
@@ -251,8 +251,13 @@ void HungarianMatcher::Match(std::vector<int>* prediction_matches,
 
 void ScoreFirstMatcher::Match(std::vector<int>* prediction_matches,
                               std::vector<int>* ground_truth_matches) {
-  CHECK(prediction_matches);
-  CHECK(ground_truth_matches);
+  // Either output can be null if the caller does not need it.
+  std::vector<int> unused_prediction_matches;
+  std::vector<int> unused_ground_truth_matches;
+  if (!prediction_matches) prediction_matches = &unused_prediction_matches;
+  if (!ground_truth_matches) {
+    ground_truth_matches = &unused_ground_truth_matches;
+  }
 
   const int prediction_subset_size = prediction_subset().size();
   const int ground_truth_subset_size = ground_truth_subset().size();
-- 
2.43.0


From 350dbc4074c9bac50614cb8ae3edb3761936c973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:39 +0000
Subject: [PATCH 37/56] fix: estimate tracking prediction speeds also when the
 first frame is empty

Whether predictions need a speed was decided from the first prediction of the
first frame only, so in a scene that starts without predictions all of them
counted as stationary in the velocity breakdown.
---
 src/waymo_open_dataset/metrics/tracking_metrics.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/waymo_open_dataset/metrics/tracking_metrics.cc b/src/waymo_open_dataset/metrics/tracking_metrics.cc
index be8d2ce..c887788 100644
--- a/src/waymo_open_dataset/metrics/tracking_metrics.cc
+++ b/src/waymo_open_dataset/metrics/tracking_metrics.cc
@@ -206,8 +206,10 @@ std::vector<TrackingMeasurements> ComputeTrackingMeasurements(
     matchers.push_back(Matcher::Create(config));
   }
   const bool need_to_estimate_speed =
-      internal::HasVelocityBreakdown(config) && !pds.empty() &&
-      !pds[0].empty() && !pds[0][0].object().metadata().has_speed_x();
+      internal::HasVelocityBreakdown(config) &&
+      std::any_of(pds.begin(), pds.end(), [](const std::vector<Object>& frame) {
+        return !frame.empty() && !frame[0].object().metadata().has_speed_x();
+      });
   std::vector<std::vector<Object>> pds_with_velocity;
   if (need_to_estimate_speed) {
     pds_with_velocity = internal::EstimateObjectSpeed(pds, gts);
-- 
2.43.0


From 8a79706a6b1c48524758a1d5ae81876bd073ebe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:01 +0000
Subject: [PATCH 38/56] fix: pick the most confident trajectory for the overlap
 rate also with negative confidences

Normalising by a negative sum turned the order of the confidences around, so
the overlap rate was computed for the least confident trajectory.
---
 .../metrics/motion_metrics.cc                 | 20 +++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/waymo_open_dataset/metrics/motion_metrics.cc b/src/waymo_open_dataset/metrics/motion_metrics.cc
index c22a94e..297843c 100644
--- a/src/waymo_open_dataset/metrics/motion_metrics.cc
+++ b/src/waymo_open_dataset/metrics/motion_metrics.cc
@@ -576,14 +576,18 @@ Status ComputeOverlapRate(
     }
   }
 
-  // Find the highest probability trajectory prediction.
-  std::vector<float> confidences = GetNormalizedConfidences(prediction);
-
-  // Only include the desired K predictions.
-  confidences.resize(config.max_predictions());
-  const int max_index =
-      std::distance(confidences.begin(),
-                    std::max_element(confidences.begin(), confidences.end()));
+  // Find the highest probability trajectory prediction, only including the
+  // desired K predictions. The confidences are compared as they are because
+  // dividing them by a negative sum would reverse their order.
+  const int num_predictions =
+      std::min(prediction.joint_predictions_size(), config.max_predictions());
+  int max_index = 0;
+  for (int i = 1; i < num_predictions; ++i) {
+    if (prediction.joint_predictions(i).confidence() >
+        prediction.joint_predictions(max_index).confidence()) {
+      max_index = i;
+    }
+  }
 
   // Check for overlaps up to the given step.
   const JointTrajectories& joint_prediction =
-- 
2.43.0


From 7e3ae23134b76728c7a2ee727262114ce4b7cec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:01 +0000
Subject: [PATCH 39/56] fix: reject motion metrics configurations without
 predictions to consider

A negative max_predictions crashed the overlap rate, and zero made the metrics
disagree about which predictions count.
---
 src/waymo_open_dataset/metrics/motion_metrics.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/waymo_open_dataset/metrics/motion_metrics.cc b/src/waymo_open_dataset/metrics/motion_metrics.cc
index 297843c..e979cfd 100644
--- a/src/waymo_open_dataset/metrics/motion_metrics.cc
+++ b/src/waymo_open_dataset/metrics/motion_metrics.cc
@@ -84,6 +84,10 @@ Status ValidateConfig(const MotionMetricsConfig& config) {
         "prediction_steps_per_second");
   }
 
+  if (config.max_predictions() <= 0) {
+    return InvalidArgumentError("max_predictions must be positive");
+  }
+
   const int prediction_steps = config.track_future_samples() *
                                config.prediction_steps_per_second() /
                                config.track_steps_per_second();
-- 
2.43.0


From 8dcb3f0527b19c5400098917185245c62f6d4f80 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:13:44 +0000
Subject: [PATCH 40/56] fix: equally good tracking matches do not depend on
 hash order

---
 src/waymo_open_dataset/metrics/mot.cc | 30 ++++++++++++++++++---------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/waymo_open_dataset/metrics/mot.cc b/src/waymo_open_dataset/metrics/mot.cc
index ebe0dea..237ca84 100644
--- a/src/waymo_open_dataset/metrics/mot.cc
+++ b/src/waymo_open_dataset/metrics/mot.cc
@@ -15,6 +15,7 @@ limitations under the License.
 
 #include "waymo_open_dataset/metrics/mot.h"
 
+#include <algorithm>
 #include <memory>
 #include <utility>
 #include <vector>
@@ -225,16 +226,25 @@ MOT::MatchResult MOT::Match(const absl::flat_hash_map<std::string, int>& pd_map,
 
   // Remaining boxes that are not yet matched. Note that we have already deleted
   // matched boxes in the {predicted,reference}_boxes_map above.
-  std::vector<int> pds_unmatched;
-  std::vector<int> gts_unmatched;
-  for (const auto& kv : pd_map) {
-    pds_unmatched.push_back(matcher->prediction_subset()[kv.second]);
-  }
-  matcher->SetPredictionSubset(pds_unmatched);
-  for (const auto& kv : gt_map) {
-    gts_unmatched.push_back(matcher->ground_truth_subset()[kv.second]);
-  }
-  matcher->SetGroundTruthSubset(gts_unmatched);
+  // They are kept in the order of the subsets: the iteration order of the maps
+  // is arbitrary and would decide between equally good matches.
+  const auto in_subset_order =
+      [](const absl::flat_hash_map<std::string, int>& map,
+         const std::vector<int>& subset) {
+        std::vector<int> indices;
+        for (const auto& kv : map) {
+          indices.push_back(kv.second);
+        }
+        std::sort(indices.begin(), indices.end());
+        for (int& index : indices) {
+          index = subset[index];
+        }
+        return indices;
+      };
+  matcher->SetPredictionSubset(
+      in_subset_order(pd_map, matcher->prediction_subset()));
+  matcher->SetGroundTruthSubset(
+      in_subset_order(gt_map, matcher->ground_truth_subset()));
 
   MatchResult result;
   std::vector<int> pd_matches;
-- 
2.43.0


From 88e57ad8b5006725d9ddd78cd0db42354fb06bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:30 +0000
Subject: [PATCH 41/56] fix: wrap the difference of headings in the time to
 collision

---
 .../sim_agents_metrics/interaction_features.py            | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/waymo_open_dataset/wdl_limited/sim_agents_metrics/interaction_features.py b/src/waymo_open_dataset/wdl_limited/sim_agents_metrics/interaction_features.py
index ab44af8..a4d04ed 100644
--- a/src/waymo_open_dataset/wdl_limited/sim_agents_metrics/interaction_features.py
+++ b/src/waymo_open_dataset/wdl_limited/sim_agents_metrics/interaction_features.py
@@ -303,9 +303,13 @@ def compute_time_to_collision_with_object_in_front(
       boxes, num_or_size_splits=[2, 2, 1, 1], axis=-1
   )
 
-  # Absolute yaw difference between each ego box and every other box.
+  # Absolute yaw difference between each ego box and every other box, wrapped to
+  # the smaller of the two angles between them.
   # `yaw_diff` shape: (num_steps, num_evaluated_objects, num_objects, 1)
-  yaw_diff = tf.math.abs(other_yaw[:, tf.newaxis] - ego_yaw[:, :, tf.newaxis])
+  yaw_diff = other_yaw[:, tf.newaxis] - ego_yaw[:, :, tf.newaxis]
+  yaw_diff = tf.math.abs(
+      (yaw_diff + math.pi) % (2.0 * math.pi) - math.pi
+  )
 
   yaw_diff_cos = tf.math.cos(yaw_diff)
   yaw_diff_sin = tf.math.sin(yaw_diff)
-- 
2.43.0


From 5d673dad80653c641207eefda31af8311121e35e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:30 +0000
Subject: [PATCH 42/56] fix: distances between boxes without width, as of
 capsules

---
 .../utils/geometry_utils.py                   | 61 ++++++++++++++-----
 1 file changed, 46 insertions(+), 15 deletions(-)

diff --git a/src/waymo_open_dataset/utils/geometry_utils.py b/src/waymo_open_dataset/utils/geometry_utils.py
index e6fc19a..62858f6 100644
--- a/src/waymo_open_dataset/utils/geometry_utils.py
+++ b/src/waymo_open_dataset/utils/geometry_utils.py
@@ -137,7 +137,11 @@ def signed_distance_from_point_to_convex_polygon(
 
   # If `edge_signed_perp_distances` are all less than 0 for a
   # polygon-query_point pair, then the query point is inside the convex polygon.
-  is_inside = tf.reduce_all(edge_signed_perp_distances <= 0, axis=-1)
+  # Nothing is inside of polygons which are points or segments.
+  is_inside = tf.logical_and(
+      tf.reduce_all(edge_signed_perp_distances <= 0, axis=-1),
+      tf.reduce_any(edge_signed_perp_distances < 0, axis=-1),
+  )
 
   # Project the distances over the tangents of the edge, and verify where the
   # projections fall on the edge.
@@ -186,20 +190,45 @@ def _get_downmost_edge_in_box(box: tf.Tensor) -> Tuple[tf.Tensor, tf.Tensor]:
         pointing in the counter-clockwise direction of the box.
         Shape: (num_boxes, 1, 2).
   """
-  # The downmost vertex is the lowest in the y dimension.
+  # Directions of all the edges, derived from the longest side: the edges of the
+  # other one can have no length.
+  # Shape: (num_boxes, 2).
+  first_edge = box[:, 1] - box[:, 0]
+  second_edge = box[:, 2] - box[:, 1]
+  first_edge_length = tf.linalg.norm(first_edge, axis=-1, keepdims=True)
+  second_edge_length = tf.linalg.norm(second_edge, axis=-1, keepdims=True)
+  first_edge_direction = tf.where(
+      first_edge_length >= second_edge_length,
+      tf.math.divide_no_nan(first_edge, first_edge_length),
+      tf.math.divide_no_nan(
+          tf.stack([second_edge[:, 1], -second_edge[:, 0]], axis=-1),
+          second_edge_length,
+      ),
+  )
+  x, y = first_edge_direction[:, 0], first_edge_direction[:, 1]
+  # Shape: (num_boxes, num_points_per_box, 2).
+  edge_directions = tf.stack(
+      [
+          tf.stack([x, y], axis=-1),
+          tf.stack([-y, x], axis=-1),
+          tf.stack([-x, -y], axis=-1),
+          tf.stack([y, -x], axis=-1),
+      ],
+      axis=1,
+  )
+
+  # The edge from the downmost vertex, counter-clockwise, is the one which goes
+  # up without going left.
   # Shape: (num_boxes, 1).
-  downmost_vertex_idx = tf.argmin(box[..., 1], axis=-1)[:, tf.newaxis]
-
-  # Find the counter-clockwise point edge from the downmost vertex.
-  edge_start_vertex = tf.gather(box, downmost_vertex_idx, axis=1, batch_dims=-1)
-  edge_end_idx = tf.math.mod(downmost_vertex_idx + 1, NUM_VERTICES_IN_BOX)
-  edge_end_vertex = tf.gather(box, edge_end_idx, axis=1, batch_dims=-1)
-
-  # Compute the direction of this downmost edge.
-  downmost_edge = edge_end_vertex - edge_start_vertex
-  downmost_edge_length = tf.linalg.norm(downmost_edge, axis=-1)
-  downmost_edge_direction = downmost_edge / downmost_edge_length[:, :,
-                                                                 tf.newaxis]
+  is_downmost_edge = tf.logical_and(
+      edge_directions[..., 0] >= 0.0, edge_directions[..., 1] > 0.0
+  )
+  downmost_vertex_idx = tf.argmax(
+      tf.cast(is_downmost_edge, tf.int32), axis=-1
+  )[:, tf.newaxis]
+  downmost_edge_direction = tf.gather(
+      edge_directions, downmost_vertex_idx, axis=1, batch_dims=1
+  )
   return downmost_vertex_idx, downmost_edge_direction
 
 
@@ -233,7 +262,9 @@ def _get_edge_info(
   # Shape: (num_polygons, num_points_per_polygon).
   edge_lengths = tf.linalg.norm(edge_vectors, axis=-1)
   # Shape: (num_polygons, num_points_per_polygon, 2).
-  tangent_unit_vectors = edge_vectors / edge_lengths[:, :, tf.newaxis]
+  tangent_unit_vectors = tf.math.divide_no_nan(
+      edge_vectors, edge_lengths[:, :, tf.newaxis]
+  )
   # Shape: (num_polygons, num_points_per_polygon, 2).
   normal_unit_vectors = tf.stack(
       [-tangent_unit_vectors[..., 1], tangent_unit_vectors[..., 0]], axis=-1)
-- 
2.43.0


From e5f1d746ce9d54ac4b67d42726d37d98fb1dd434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:30 +0000
Subject: [PATCH 43/56] fix: the distance of a point to a lane segment

---
 .../wdl_limited/sim_agents_metrics/traffic_light_features.py    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/waymo_open_dataset/wdl_limited/sim_agents_metrics/traffic_light_features.py b/src/waymo_open_dataset/wdl_limited/sim_agents_metrics/traffic_light_features.py
index 33fd187..cdedfe9 100644
--- a/src/waymo_open_dataset/wdl_limited/sim_agents_metrics/traffic_light_features.py
+++ b/src/waymo_open_dataset/wdl_limited/sim_agents_metrics/traffic_light_features.py
@@ -264,7 +264,7 @@ def _get_nearest_lane_segment_index(
   )
   clipped_rel_t = tf.clip_by_value(rel_t, 0.0, 1.0)
   distance_to_segment = tf.linalg.norm(
-      start_to_point + start_to_end * clipped_rel_t[..., tf.newaxis], axis=-1
+      start_to_point - start_to_end * clipped_rel_t[..., tf.newaxis], axis=-1
   )
 
   # Mask out invalid segments.
-- 
2.43.0


From eb98f0a891579612ca2bc3fff485ed5beb4e9ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:30 +0000
Subject: [PATCH 44/56] fix: the padding of a lane is no segment of it

---
 .../wdl_limited/sim_agents_metrics/traffic_light_features.py    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/waymo_open_dataset/wdl_limited/sim_agents_metrics/traffic_light_features.py b/src/waymo_open_dataset/wdl_limited/sim_agents_metrics/traffic_light_features.py
index cdedfe9..aba563b 100644
--- a/src/waymo_open_dataset/wdl_limited/sim_agents_metrics/traffic_light_features.py
+++ b/src/waymo_open_dataset/wdl_limited/sim_agents_metrics/traffic_light_features.py
@@ -270,7 +270,7 @@ def _get_nearest_lane_segment_index(
   # Mask out invalid segments.
   # shape: (num_points, num_polylines, num_segments)
   distance_to_segment = tf.where(
-      lane_valid[:, :, :-1],
+      tf.logical_and(lane_valid[:, :, :-1], lane_valid[:, :, 1:]),
       distance_to_segment,
       EXTREMELY_LARGE_DISTANCE,
   )
-- 
2.43.0


From ddaf1c01f89ab862541f810ee7b6f1c21feab8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:45 +0000
Subject: [PATCH 45/56] fix: the closing vertex of polylines shorter than the
 longest one

---
 .../sim_agents_metrics/map_metric_features.py | 107 ++++++++----------
 1 file changed, 46 insertions(+), 61 deletions(-)

diff --git a/src/waymo_open_dataset/wdl_limited/sim_agents_metrics/map_metric_features.py b/src/waymo_open_dataset/wdl_limited/sim_agents_metrics/map_metric_features.py
index 80b17e6..35cf524 100644
--- a/src/waymo_open_dataset/wdl_limited/sim_agents_metrics/map_metric_features.py
+++ b/src/waymo_open_dataset/wdl_limited/sim_agents_metrics/map_metric_features.py
@@ -320,87 +320,72 @@ def _compute_signed_distance_to_polylines(
   #       sign of the distance depends on the convexity of the nearest and next
   #       segments.
 
-  # shape: (num_points, num_polylines, num_segments+2, 2)
-  start_to_end_padded = tf.concat(
-      [
-          start_to_end[:, :, -1:, :2],
-          start_to_end[..., :2],
-          start_to_end[:, :, :1, :2],
-      ],
-      axis=-2,
+  # Indices of the segments before and after each segment. If the polyline is
+  # cyclic, the segments before the first and after the last valid one wrap
+  # around, else these are their own neighbors.
+  # shape: (num_polylines, num_segments)
+  segment_index = tf.tile(
+      tf.range(num_segments)[tf.newaxis], [num_polylines, 1]
+  )
+  # shape: (num_polylines, 1)
+  last_index = (
+      tf.reduce_sum(
+          tf.cast(is_segment_valid, tf.int32), axis=-1, keepdims=True
+      )
+      - 1
+  )
+  # shape: (num_polylines, num_segments)
+  prior_index = tf.where(
+      segment_index > 0,
+      segment_index - 1,
+      tf.where(is_polyline_cyclic[:, tf.newaxis], last_index, 0),
+  )
+  next_index = tf.where(
+      segment_index < last_index,
+      segment_index + 1,
+      tf.where(is_polyline_cyclic[:, tf.newaxis], 0, last_index),
   )
-  # shape: (num_points, num_polylines, num_segments+1)
-  is_locally_convex = tf.greater(
+
+  # shape: (num_polylines, num_segments)
+  is_locally_convex_before = tf.greater(
       geometry_utils.cross_product_2d(
-          start_to_end_padded[:, :, :-1], start_to_end_padded[:, :, 1:]
+          tf.gather(start_to_end[0, ..., :2], prior_index, batch_dims=1),
+          start_to_end[0, ..., :2],
       ),
       0.0,
   )
-
-  # Get shifted versions of `n` and `is_segment_valid`. If the polyline is
-  # cyclic, the tensors are rolled, else they are padded with their edge value.
-  # shape: (num_points, num_polylines, num_segments)
-  n_prior = tf.concat(
-      [
-          tf.where(
-              is_polyline_cyclic[tf.newaxis, :, tf.newaxis],
-              n[:, :, -1:],
-              n[:, :, :1],
-          ),
-          n[:, :, :-1],
-      ],
-      axis=-1,
-  )
-  n_next = tf.concat(
-      [
-          n[:, :, 1:],
-          tf.where(
-              is_polyline_cyclic[tf.newaxis, :, tf.newaxis],
-              n[:, :, :1],
-              n[:, :, -1:],
-          ),
-      ],
-      axis=-1,
+  is_locally_convex_after = tf.greater(
+      geometry_utils.cross_product_2d(
+          start_to_end[0, ..., :2],
+          tf.gather(start_to_end[0, ..., :2], next_index, batch_dims=1),
+      ),
+      0.0,
   )
-  # shape: (num_polylines, num_segments)
-  is_prior_segment_valid = tf.concat(
-      [
-          tf.where(
-              is_polyline_cyclic[:, tf.newaxis],
-              is_segment_valid[:, -1:],
-              is_segment_valid[:, :1],
-          ),
-          is_segment_valid[:, :-1],
-      ],
-      axis=-1,
+  # shape: (num_points, num_polylines, num_segments)
+  n_prior = tf.gather(
+      n, tf.tile(prior_index[tf.newaxis], [num_points, 1, 1]), batch_dims=2
   )
-  is_next_segment_valid = tf.concat(
-      [
-          is_segment_valid[:, 1:],
-          tf.where(
-              is_polyline_cyclic[:, tf.newaxis],
-              is_segment_valid[:, :1],
-              is_segment_valid[:, -1:],
-          ),
-      ],
-      axis=-1,
+  n_next = tf.gather(
+      n, tf.tile(next_index[tf.newaxis], [num_points, 1, 1]), batch_dims=2
   )
 
   # shape: (num_points, num_polylines, num_segments)
   sign_if_before = tf.where(
-      is_locally_convex[:, :, :-1],
+      is_locally_convex_before[tf.newaxis],
       tf.maximum(n, n_prior),
       tf.minimum(n, n_prior),
   )
   sign_if_after = tf.where(
-      is_locally_convex[:, :, 1:], tf.maximum(n, n_next), tf.minimum(n, n_next)
+      is_locally_convex_after[tf.newaxis],
+      tf.maximum(n, n_next),
+      tf.minimum(n, n_next),
   )
 
   # shape: (num_points, num_polylines, num_segments)
   sign_to_segment = tf.where(
-      (rel_t < 0.0) & is_prior_segment_valid,
+      rel_t < 0.0,
       sign_if_before,
-      tf.where((rel_t > 1.0) & is_next_segment_valid, sign_if_after, n)
+      tf.where(rel_t > 1.0, sign_if_after, n),
   )
 
   # Flatten polylines together.
-- 
2.43.0


From e778504db682beca280efdff44bf2f08d0aeac3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:28 +0000
Subject: [PATCH 46/56] fix: red light violations where the signal is missing
 at the prior step

---
 .../traffic_light_features.py                 | 28 +++++++++++--------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/waymo_open_dataset/wdl_limited/sim_agents_metrics/traffic_light_features.py b/src/waymo_open_dataset/wdl_limited/sim_agents_metrics/traffic_light_features.py
index aba563b..832a3a0 100644
--- a/src/waymo_open_dataset/wdl_limited/sim_agents_metrics/traffic_light_features.py
+++ b/src/waymo_open_dataset/wdl_limited/sim_agents_metrics/traffic_light_features.py
@@ -180,6 +180,13 @@ def compute_red_light_violation(
       xy[:, :, tf.newaxis]
       - ts_stop_point_segment[tf.newaxis, :, :, 0, :2]
   )
+  # The same for the positions at the prior step: these are compared with the
+  # signals of the current step, as a signal can be missing at the prior one.
+  prior_xy = tf.concat([xy[:, :1], xy[:, :-1]], axis=1)
+  start_to_prior_xy = (
+      prior_xy[:, :, tf.newaxis]
+      - ts_stop_point_segment[tf.newaxis, :, :, 0, :2]
+  )
 
   # Relative coordinate of the stop point projection along the segment.
   # shape: (num_steps, num_traffic_signals, 2)
@@ -195,24 +202,21 @@ def compute_red_light_violation(
       ),
       stop_point_segment_length2[tf.newaxis],
   )
+  prior_object_rel_t = tf.math.divide_no_nan(
+      geometry_utils.dot_product_2d(
+          start_to_prior_xy, start_to_end[tf.newaxis]
+      ),
+      stop_point_segment_length2[tf.newaxis],
+  )
   # shape: (num_objects, num_steps, num_traffic_signals)
-  object_behind_stop_point = tf.less(
-      object_rel_t, stop_point_rel_t[tf.newaxis]
+  object_was_behind_stop_point = tf.less(
+      prior_object_rel_t, stop_point_rel_t[tf.newaxis]
   )
   object_ahead_stop_point = tf.greater(
       object_rel_t, stop_point_rel_t[tf.newaxis]
   )
-  # shape: (num_objects, num_steps-1, num_traffic_signals)
   object_crossed_stop_point = tf.logical_and(
-      object_behind_stop_point[:, :-1], object_ahead_stop_point[:, 1:]
-  )
-  # shape: (num_objects, num_steps, num_traffic_signals)
-  object_crossed_stop_point = tf.concat(
-      [
-          tf.zeros_like(object_crossed_stop_point[:, 0:1]),
-          object_crossed_stop_point,
-      ],
-      axis=1,
+      object_was_behind_stop_point, object_ahead_stop_point
   )
 
   # Verify all the conditions for a red light violation.
-- 
2.43.0


From 6e0327882e048993246426efb346e2326da91c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:49 +0000
Subject: [PATCH 47/56] fix: remapped instance ids not below the panoptic label
 divisor

---
 src/waymo_open_dataset/utils/camera_segmentation_utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/waymo_open_dataset/utils/camera_segmentation_utils.py b/src/waymo_open_dataset/utils/camera_segmentation_utils.py
index 1860337..0b61dd7 100644
--- a/src/waymo_open_dataset/utils/camera_segmentation_utils.py
+++ b/src/waymo_open_dataset/utils/camera_segmentation_utils.py
@@ -296,7 +296,8 @@ def decode_multi_frame_panoptic_labels_from_segmentation_labels(
           [max([global_id for _, global_id in mapping.items()])
            for _, mapping in global_id_mapping.items()])
       if new_panoptic_label_divisor is None:
-        panoptic_label_divisor = max(panoptic_label_divisor, max_instance_id)
+        panoptic_label_divisor = max(
+            panoptic_label_divisor, max_instance_id + 1)
 
   panoptic_labels = []
   num_cameras_covered = []
@@ -325,7 +326,7 @@ def decode_multi_frame_panoptic_labels_from_segmentation_labels(
         instance_label_copy[instance_mask] = global_id_mapping[sequence][
             mapping.global_instance_id]
 
-    if np.amax(instance_label) >= panoptic_label_divisor:
+    if np.amax(instance_label_copy) >= panoptic_label_divisor:
       raise ValueError('A panoptic_label_divisor of '
                        f'{panoptic_label_divisor} is requested, but the '
                        'maximum instance id exceeds this.')
-- 
2.43.0


From b436804b063d95e8fef5ceebf8712dee3a05e7a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:49 +0000
Subject: [PATCH 48/56] fix: version 2 camera segmentation labels without
 mapped instances

---
 src/waymo_open_dataset/utils/camera_segmentation_utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/waymo_open_dataset/utils/camera_segmentation_utils.py b/src/waymo_open_dataset/utils/camera_segmentation_utils.py
index 0b61dd7..bf5c0e3 100644
--- a/src/waymo_open_dataset/utils/camera_segmentation_utils.py
+++ b/src/waymo_open_dataset/utils/camera_segmentation_utils.py
@@ -156,14 +156,14 @@ def _remap_global_ids(
   # Read the set of global ids for each sequence.
   global_instance_ids = {}
   for label in segmentation_proto_list:
-    if not label.instance_id_to_global_id_mapping:
+    frame_global_instance_ids = [
+        mapping.global_instance_id for mapping in _iterate_over_mapping(label)
+    ]
+    if not frame_global_instance_ids:
       continue
     if label.sequence_id not in global_instance_ids:
       global_instance_ids[label.sequence_id] = set()
 
-    frame_global_instance_ids = [
-        mapping.global_instance_id for mapping in _iterate_over_mapping(label)
-    ]
     global_instance_ids[label.sequence_id].update(frame_global_instance_ids)
 
   if not global_instance_ids:
-- 
2.43.0


From 8a06335dd8110493d7eecedaeb1234f9acd4297b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:49 +0000
Subject: [PATCH 49/56] fix: instance colors of panoptic labels wrapped around
 instead of being clipped

---
 .../utils/camera_segmentation_utils.py                   | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/waymo_open_dataset/utils/camera_segmentation_utils.py b/src/waymo_open_dataset/utils/camera_segmentation_utils.py
index bf5c0e3..9df353f 100644
--- a/src/waymo_open_dataset/utils/camera_segmentation_utils.py
+++ b/src/waymo_open_dataset/utils/camera_segmentation_utils.py
@@ -423,14 +423,17 @@ def panoptic_label_to_rgb(semantic_label: np.ndarray,
   if instance_label.shape[-1] == 1:
     instance_label = np.squeeze(instance_label, axis=-1)
 
-  color_image = semantic_label_to_rgb(semantic_label, color_map)
+  # Signed and wide enough for the offsets below, which are clipped at the end.
+  color_image = semantic_label_to_rgb(semantic_label, color_map).astype(
+      np.int32
+  )
   # Visualize the instance IDs in the green channel, by offsetting the semantic
   # color values by the instance_label scaled by a prime number.
-  ins_noise = instance_label * prime_num % (max_delta * 2) - max_delta
+  ins_noise = instance_label.astype(np.int64) * prime_num % (max_delta * 2) - max_delta
   color_image[:, :, 1] = np.where(instance_label > 0,
                                   color_image[:, :, 1] + ins_noise,
                                   color_image[:, :, 1])
-  color_image = np.clip(color_image, 0, 255)
+  color_image = np.clip(color_image, 0, 255).astype(np.uint8)
   return color_image
 
 
-- 
2.43.0


From e1d235faa6622284e7fd2e66795769118b5c1f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:49 +0000
Subject: [PATCH 50/56] fix: the largest panoptic label that fits in a uint16
 was refused

---
 src/waymo_open_dataset/utils/camera_segmentation_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/waymo_open_dataset/utils/camera_segmentation_utils.py b/src/waymo_open_dataset/utils/camera_segmentation_utils.py
index 9df353f..1f5f503 100644
--- a/src/waymo_open_dataset/utils/camera_segmentation_utils.py
+++ b/src/waymo_open_dataset/utils/camera_segmentation_utils.py
@@ -481,7 +481,7 @@ def save_panoptic_label_to_proto(
       tf.reduce_max(instance_label_sequential) + 1)
   panoptic_label = encode_semantic_and_instance_labels_to_panoptic_label(
       semantic_label, instance_label_sequential, new_panoptic_label_divisor)
-  if np.amax(panoptic_label) >= np.iinfo(np.uint16).max:
+  if np.amax(panoptic_label) > np.iinfo(np.uint16).max:
     raise ValueError(
         f'The maximum panoptic label of {new_panoptic_label_divisor} would '
         'overflow a uint16. Consider lowering the panoptic_label_divisor or '
-- 
2.43.0


From 05a51799db280cc09f7f256f692544af9fa23082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:49 +0000
Subject: [PATCH 51/56] fix: frames for evaluation ended with one of another
 sequence

---
 src/waymo_open_dataset/utils/camera_segmentation_utils.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/waymo_open_dataset/utils/camera_segmentation_utils.py b/src/waymo_open_dataset/utils/camera_segmentation_utils.py
index 1f5f503..adc5502 100644
--- a/src/waymo_open_dataset/utils/camera_segmentation_utils.py
+++ b/src/waymo_open_dataset/utils/camera_segmentation_utils.py
@@ -531,12 +531,13 @@ def load_frames_with_labels_from_dataset(
     frame.ParseFromString(bytearray(data.numpy()))
 
     if frame.images[0].camera_segmentation_label.panoptic_label:
-      frames_with_seg.append(frame)
       if sequence_id is None:
         sequence_id = frame.images[0].camera_segmentation_label.sequence_id
+      if frame.images[0].camera_segmentation_label.sequence_id != sequence_id:
+        break
 
-      if (frame.images[0].camera_segmentation_label.sequence_id != sequence_id
-          or len(frames_with_seg) >= keep_first_k):
+      frames_with_seg.append(frame)
+      if len(frames_with_seg) >= keep_first_k:
         break
 
   return frames_with_seg, sequence_id
-- 
2.43.0


From 665d40e0e2cfa8386baf5e87154933f1e5f727d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:33 +0000
Subject: [PATCH 52/56] fix: points right on the seam of a virtual range image
 aborted its building

---
 src/waymo_open_dataset/utils/range_image_utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/waymo_open_dataset/utils/range_image_utils.py b/src/waymo_open_dataset/utils/range_image_utils.py
index 5edb7f4..64bc430 100644
--- a/src/waymo_open_dataset/utils/range_image_utils.py
+++ b/src/waymo_open_dataset/utils/range_image_utils.py
@@ -555,8 +555,10 @@ def build_range_image_from_point_cloud(points_vehicle_frame,
     # [B, N].
     point_ri_col_indices = width - 1.0 + 0.5 - (point_azimuth +
                                                 np.pi) / (2.0 * np.pi) * width
-    point_ri_col_indices = tf.cast(
-        tf.round(point_ri_col_indices), dtype=tf.int32)
+    # An azimuth of -pi is the right border of the last column.
+    point_ri_col_indices = tf.minimum(
+        tf.cast(tf.round(point_ri_col_indices), dtype=tf.int32),
+        tf.cast(width, tf.int32) - 1)
 
     with tf.control_dependencies([
         tf.compat.v1.assert_non_negative(point_ri_col_indices),
-- 
2.43.0


From d0ad6068a8311462461abaab502df6b5aa9e4ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:04 +0000
Subject: [PATCH 53/56] fix: length and width of Box3d protos were swapped in
 pose estimation boxes

---
 src/waymo_open_dataset/utils/keypoint_data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/waymo_open_dataset/utils/keypoint_data.py b/src/waymo_open_dataset/utils/keypoint_data.py
index e2aa765..8b58143 100644
--- a/src/waymo_open_dataset/utils/keypoint_data.py
+++ b/src/waymo_open_dataset/utils/keypoint_data.py
@@ -558,8 +558,8 @@ def label_box_from_box_proto(box: box_pb2.Box3d) -> label_pb2.Label.Box:
       center_x=box.center.x,
       center_y=box.center.y,
       center_z=box.center.z,
-      width=box.size.x,
-      length=box.size.y,
+      length=box.size.x,
+      width=box.size.y,
       height=box.size.z,
       heading=box.heading,
   )
-- 
2.43.0


From b9ac92bf5dd1823c55032453b27c7fd58a9ad4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:04 +0000
Subject: [PATCH 54/56] fix: the enlarged box of the keypoint similarity
 ignored the heading of the box

---
 src/waymo_open_dataset/metrics/python/keypoint_metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/waymo_open_dataset/metrics/python/keypoint_metrics.py b/src/waymo_open_dataset/metrics/python/keypoint_metrics.py
index fcd4ddc..0689f63 100644
--- a/src/waymo_open_dataset/metrics/python/keypoint_metrics.py
+++ b/src/waymo_open_dataset/metrics/python/keypoint_metrics.py
@@ -230,7 +230,7 @@ def object_keypoint_similarity(
   # Enlarge the ground truth bounding box in size 3x to not penalize keypoints
   # predicted close enough to the ground truth box.
   no_penalty_box = _data.BoundingBoxTensors(
-      center=box.center, size=3 * box.size
+      center=box.center, size=3 * box.size, heading=box.heading
   )
   box_diff = box_displacement(pr.location, box=no_penalty_box)
   mask = gt.mask
-- 
2.43.0


From c8764d9258d71045d882143f42218f00848cfa69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:45 +0000
Subject: [PATCH 55/56] fix: get_ray_box_intersects gave positive distances for
 rays which miss the box

---
 .../v2/perception/utils/object_asset_utils.py                  | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/waymo_open_dataset/v2/perception/utils/object_asset_utils.py b/src/waymo_open_dataset/v2/perception/utils/object_asset_utils.py
index f247ea3..5bb5551 100644
--- a/src/waymo_open_dataset/v2/perception/utils/object_asset_utils.py
+++ b/src/waymo_open_dataset/v2/perception/utils/object_asset_utils.py
@@ -93,6 +93,9 @@ def get_ray_box_intersects(
   tmax = np.minimum(tmax, tzmax)
 
   isect_flag[np.where(tmax <= 0)[0]] = False
+  # The sides of the box are ahead of some rays which miss it.
+  tmin[np.logical_and(~isect_flag, tmin >= 0)] = -1
+  tmax[np.logical_and(~isect_flag, tmax >= 0)] = -1
   return isect_flag, tmin, tmax
 
 
-- 
2.43.0


From 69d2122438fc9fe1588dc0d2032956d3e8935e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:45 +0000
Subject: [PATCH 56/56] fix: extract_top_lidar_points failed for calibrations
 without beam inclinations

---
 src/waymo_open_dataset/utils/womd_lidar_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/waymo_open_dataset/utils/womd_lidar_utils.py b/src/waymo_open_dataset/utils/womd_lidar_utils.py
index 399d890..c376273 100644
--- a/src/waymo_open_dataset/utils/womd_lidar_utils.py
+++ b/src/waymo_open_dataset/utils/womd_lidar_utils.py
@@ -114,7 +114,7 @@ def extract_top_lidar_points(
       beam_inclinations = _get_beam_inclinations(
           c.beam_inclination_min,
           c.beam_inclination_max,
-          range_image.dims[0],
+          range_image.shape[0],
       )
     else:
       beam_inclinations = np.array(c.beam_inclinations)
-- 
2.43.0

