From 6b0d1e56c0ab137263ea801bf7f6ee83b41482ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:36 +0000
Subject: [PATCH 01/71] fix: ScoreFirstMatcher looks up matching weights by
 object index

The weight of a candidate pair was looked up with positions in the subsets
instead of indices of the objects, so any subset other than the identity
picked the ground truth by the weight of unrelated pairs.
---
 src/waymo_open_dataset/metrics/matcher.cc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/waymo_open_dataset/metrics/matcher.cc b/src/waymo_open_dataset/metrics/matcher.cc
index d1c7a17..fa33a29 100644
--- a/src/waymo_open_dataset/metrics/matcher.cc
+++ b/src/waymo_open_dataset/metrics/matcher.cc
@@ -280,9 +280,8 @@ void ScoreFirstMatcher::Match(std::vector<int>* prediction_matches,
       const int pd_idx = prediction_subset()[pd_subset_idx];
       const int gt_idx = ground_truth_subset()[gt_subset_idx];
       if (CanMatch(pd_idx, gt_idx)) {
-        if (MatchingWeight(pd_subset_idx, gt_subset_idx) >
-            best_gt_match_weight) {
-          best_gt_match_weight = MatchingWeight(pd_subset_idx, gt_subset_idx);
+        if (MatchingWeight(pd_idx, gt_idx) > best_gt_match_weight) {
+          best_gt_match_weight = MatchingWeight(pd_idx, gt_idx);
           best_gt_match = gt_subset_idx;
         }
       }
-- 
2.43.0


From 45fa9a69ca501be4f6651d5e6766e1e3c3be644b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:36 +0000
Subject: [PATCH 02/71] fix: ScoreFirstMatcher::Match resets its outputs and
 allows null outputs

As documented at Matcher::Match and done by HungarianMatcher: entries left
over in the output vectors were taken for matches, and leaving out one
output was a fatal error.
---
 src/waymo_open_dataset/metrics/matcher.cc | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/waymo_open_dataset/metrics/matcher.cc b/src/waymo_open_dataset/metrics/matcher.cc
index fa33a29..b77bc64 100644
--- a/src/waymo_open_dataset/metrics/matcher.cc
+++ b/src/waymo_open_dataset/metrics/matcher.cc
@@ -251,13 +251,18 @@ void HungarianMatcher::Match(std::vector<int>* prediction_matches,
 
 void ScoreFirstMatcher::Match(std::vector<int>* prediction_matches,
                               std::vector<int>* ground_truth_matches) {
-  CHECK(prediction_matches);
-  CHECK(ground_truth_matches);
+  if (prediction_matches == nullptr && ground_truth_matches == nullptr) return;
+
+  // The matching below needs both directions. Either may be left out by the
+  // caller.
+  std::vector<int> unused_matches;
+  if (prediction_matches == nullptr) prediction_matches = &unused_matches;
+  if (ground_truth_matches == nullptr) ground_truth_matches = &unused_matches;
 
   const int prediction_subset_size = prediction_subset().size();
   const int ground_truth_subset_size = ground_truth_subset().size();
-  prediction_matches->resize(prediction_subset_size, -1);
-  ground_truth_matches->resize(ground_truth_subset_size, -1);
+  prediction_matches->assign(prediction_subset_size, -1);
+  ground_truth_matches->assign(ground_truth_subset_size, -1);
 
   std::vector<int> sorted_pred_subset_idx(prediction_subset_size);
   // Sort predictions by score in descending order.
-- 
2.43.0


From 266050d89dd924cac6554f5efa73ce973046b669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:36 +0000
Subject: [PATCH 03/71] fix: LET affinity and IoU functions own the
 configuration they use

The returned functions captured a reference to the caller's configuration,
which a Matcher made from a temporary Config outlives.
---
 src/waymo_open_dataset/metrics/iou.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/waymo_open_dataset/metrics/iou.cc b/src/waymo_open_dataset/metrics/iou.cc
index 6ee60d5..c722417 100644
--- a/src/waymo_open_dataset/metrics/iou.cc
+++ b/src/waymo_open_dataset/metrics/iou.cc
@@ -285,8 +285,8 @@ double ComputeLongitudinalAffinity(
 ComputeLongitudinalAffinityFunc GetComputeLongitudinalAffinityFunc(
     const Config::LongitudinalErrorTolerantConfig& let_metric_config) {
   ComputeLongitudinalAffinityFunc let_compute_longitudinal_affinity_func =
-      [&let_metric_config](const Label::Box& prediction_box,
-                           const Label::Box& ground_truth_box) {
+      [let_metric_config](const Label::Box& prediction_box,
+                          const Label::Box& ground_truth_box) {
         return ComputeLongitudinalAffinity(prediction_box, ground_truth_box,
                                            let_metric_config);
       };
@@ -386,7 +386,7 @@ ComputeIoUFunc GetComputeLetIoUFunc(
     Config::LongitudinalErrorTolerantConfig::AlignType align_type,
     Label::Box::Type box_type) {
   ComputeIoUFunc compute_let_iou_func =
-      [&sensor_location, align_type, box_type](
+      [sensor_location, align_type, box_type](
           const Label::Box& prediction_box,
           const Label::Box& ground_truth_box) {
         return ComputeLetIoU(prediction_box, ground_truth_box, sensor_location,
-- 
2.43.0


From ab8d632038de5b30aaebde5e505728df80804b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:32 +0000
Subject: [PATCH 04/71] fix: convex polygon intersection is robust to
 coincident edges

The edge-chasing algorithm needs exact side tests and returned an empty or a
full intersection for boxes whose edges (nearly) coincide: a box and the same
box with the opposite heading had IoU 0, touching boxes could have IoU 1, and
the result could exceed the union and abort.
---
 src/waymo_open_dataset/math/polygon2d.cc | 146 ++++-------------------
 1 file changed, 20 insertions(+), 126 deletions(-)

diff --git a/src/waymo_open_dataset/math/polygon2d.cc b/src/waymo_open_dataset/math/polygon2d.cc
index 31ed180..f6ddb2f 100644
--- a/src/waymo_open_dataset/math/polygon2d.cc
+++ b/src/waymo_open_dataset/math/polygon2d.cc
@@ -363,136 +363,30 @@ std::vector<Vec2d> Polygon2d::ComputeIntersectionVertices(
     return {};
   }
 
-  // This algorithm is from the following paper:
-  //
-  // O'Rourke, Joseph, et al. "A new linear algorithm for intersecting convex
-  // polygons." Computer Graphics and Image Processing 19.4 (1982): 384-391.
-  //
-  // The algorithm can be viewed as a geometric generalization of merging two
-  // sorted lists. It performs a counter-clockwise traversal of the boundaries
-  // of the two polygons. The algorithm maintains a pair of edges, one from each
-  // polygon. From a consideration of the relative positions of these edges the
-  // algorithm advances one of them to the next edge in counterclockwise order
-  // around its polygon. Intuitively, this is done in such a way that these two
-  // edges effectively “chase” each other around the boundary of the
-  // intersection polygon.
-
-  // We use P and Q to represent this polygon and the other one.
+  // Sutherland-Hodgman: clip this polygon by the half plane on the left of every
+  // edge of the other one. Rounding moves a vertex at most by the error of one
+  // intersection, so this also holds for polygons whose edges (nearly) coincide.
+  std::vector<Vec2d> convex_points = points_;
   const std::vector<Vec2d>& other_points = other.points();
-  bool p_inside = false, q_inside = false;
-  const int total_num_points = NumPoints() + other.NumPoints();
-  std::vector<Vec2d> convex_points;
-  convex_points.reserve(total_num_points);
-
-  // A lambda that is used to append a new convex point to the list. We ignore
-  // the point that is identical to either the first or the last convex point in
-  // the list to handle corner cases, in which two polygons may "intersect" with
-  // either a point or an edge.
-  const auto append_convex_point = [](Vec2d p, std::vector<Vec2d>* convex_pts) {
-    if (convex_pts->empty() ||
-        (p != convex_pts->front() && p != convex_pts->back())) {
-      convex_pts->push_back(p);
-    }
-  };
-
-  int p_idx = 0, q_idx = 0;
-  int p_idx_next = 1, q_idx_next = 1;
-  Vec2d p0 = points_[p_idx];
-  Vec2d p1 = points_[p_idx_next];
-  Vec2d q0 = other_points[q_idx];
-  Vec2d q1 = other_points[q_idx_next];
-
-  for (int i = 0; i < total_num_points * 2; ++i) {
-    // If we found a intersection between <p0, p1> and <q0, q1>, put the
-    // intersection into the convex points list, and check that after the
-    // intersection whose points will be inside and hence recorded. If we reach
-    // the first intersection point, we are done.
-    Vec2d inter;
-    const double det = CrossMaybeExact(p0, p1, q1, q0);
-    if (ExactIntersection(p0, p1, q0, q1, det, &inter)) {
-      if (convex_points.size() > 2 && inter == convex_points[0]) {
-        return convex_points;
-      }
-      if (convex_points.empty()) {
-        // When we found the first intersection, we only need to iterate this
-        // loop at most total_num_points + 1 times to get back to this
-        // intersection.
-        i = total_num_points - 1;
-      }
-      append_convex_point(inter, &convex_points);
-      // If p1 is on the left of <q0, q1>, mark P as inside; otherwise mark Q as
-      // inside.
-      if (CrossMaybeExact(q1, q0, p1, q0) >= 0.0) {
-        p_inside = true;
-        q_inside = false;
-      } else {
-        p_inside = false;
-        q_inside = true;
-      }
-    }
-
-    // Determine in which polygon we would like to advance according to the
-    // "advance rule" in the algorithm.
-    const bool advance_p = (det >= 0.0)
-                               ? CrossMaybeExact(q1, q0, p1, q0) < 0.0
-                               : CrossMaybeExact(p1, p0, q1, p0) >= 0.0;
-
-    if (advance_p) {
-      if (p_inside) {
-        append_convex_point(p1, &convex_points);
+  std::vector<Vec2d> clipped;
+  clipped.reserve(NumPoints() + other.NumPoints());
+  for (int i = 0; i < other.NumPoints() && !convex_points.empty(); ++i) {
+    const Vec2d q0 = other_points[i];
+    const Vec2d q1 = other_points[other.Next(i)];
+    clipped.clear();
+    for (size_t j = 0; j < convex_points.size(); ++j) {
+      const Vec2d p0 = convex_points[j];
+      const Vec2d p1 = convex_points[j + 1 == convex_points.size() ? 0 : j + 1];
+      const double side0 = Cross(q0, q1, p0);
+      const double side1 = Cross(q0, q1, p1);
+      if (side0 >= 0.0) clipped.push_back(p0);
+      if ((side0 > 0.0 && side1 < 0.0) || (side0 < 0.0 && side1 > 0.0)) {
+        clipped.push_back(p0 + (p1 - p0) * (side0 / (side0 - side1)));
       }
-      p_idx = p_idx_next;
-      p0 = p1;
-      p_idx_next = Next(p_idx_next);
-      p1 = points_[p_idx_next];
-    } else {
-      if (q_inside) {
-        append_convex_point(q1, &convex_points);
-      }
-      q_idx = q_idx_next;
-      q0 = q1;
-      q_idx_next = other.Next(q_idx_next);
-      q1 = other_points[q_idx_next];
-    }
-  }
-
-  // Handle the case that those two polygons share one vertex or (part of) one
-  // edge, in which case the intersection is empty.
-  if (!convex_points.empty()) {
-    return {};
-  }
-
-  // Now we have three cases:
-  //   1. P is inside of Q.
-  //   2. Q is inside of P.
-  //   3. P and Q don't intersect.
-
-  // Check the case 1.
-  bool p_is_inside = true;
-  for (const auto& point : points_) {
-    if (!other.PointInside(point)) {
-      p_is_inside = false;
-      break;
     }
+    convex_points.swap(clipped);
   }
-  if (p_is_inside) {
-    return points_;
-  }
-
-  // Check the case 2.
-  bool q_is_inside = true;
-  for (const auto& point : other_points) {
-    if (!PointInside(point)) {
-      q_is_inside = false;
-      break;
-    }
-  }
-  if (q_is_inside) {
-    return other.points_;
-  }
-
-  // P and Q don't intersect.
-  return {};
+  return convex_points;
 }
 
 double Polygon2d::ComputeIntersectionArea(const Polygon2d& other) const {
-- 
2.43.0


From e3704f85c2a18e7e0703b09caeceefa38124a130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:32 +0000
Subject: [PATCH 05/71] fix: center alignment of LET predictions also moves the
 center height

---
 src/waymo_open_dataset/metrics/iou.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/waymo_open_dataset/metrics/iou.cc b/src/waymo_open_dataset/metrics/iou.cc
index c722417..f3e7e4b 100644
--- a/src/waymo_open_dataset/metrics/iou.cc
+++ b/src/waymo_open_dataset/metrics/iou.cc
@@ -305,6 +305,7 @@ Label::Box AlignedPredictionBox(
       // Moves the prediction box's center to be same as ground truth.
       aligned_prediction_box.set_center_x(ground_truth_box.center_x());
       aligned_prediction_box.set_center_y(ground_truth_box.center_y());
+      aligned_prediction_box.set_center_z(ground_truth_box.center_z());
       break;
     case Config::LongitudinalErrorTolerantConfig::
         TYPE_ANY_CLOSER_ONLY_RANGE_ALIGNED:
-- 
2.43.0


From 01ce0fc62a662c607276fe42da47e811649be727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:31 +0000
Subject: [PATCH 06/71] fix: intersection with a degenerate polygon is empty

---
 src/waymo_open_dataset/math/polygon2d.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/waymo_open_dataset/math/polygon2d.cc b/src/waymo_open_dataset/math/polygon2d.cc
index f6ddb2f..857ce2c 100644
--- a/src/waymo_open_dataset/math/polygon2d.cc
+++ b/src/waymo_open_dataset/math/polygon2d.cc
@@ -362,6 +362,10 @@ std::vector<Vec2d> Polygon2d::ComputeIntersectionVertices(
   if (!MaybeHasIntersectionWith(other)) {
     return {};
   }
+  // A degenerate polygon has no edges to clip by.
+  if (other.AreaNoValidityCheck() <= 0.0) {
+    return {};
+  }
 
   // Sutherland-Hodgman: clip this polygon by the half plane on the left of every
   // edge of the other one. Rounding moves a vertex at most by the error of one
-- 
2.43.0


From 119037aadf938379ca54ed55021c856b378d44e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:31 +0000
Subject: [PATCH 07/71] fix: AABox2dTree can be built from no boxes

---
 src/waymo_open_dataset/math/aabox2d.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/waymo_open_dataset/math/aabox2d.h b/src/waymo_open_dataset/math/aabox2d.h
index 7c25ce5..1df48e8 100644
--- a/src/waymo_open_dataset/math/aabox2d.h
+++ b/src/waymo_open_dataset/math/aabox2d.h
@@ -165,6 +165,7 @@ class AABox2dTree {
       boxes_[i] = boxes[i];
     }
     nodes_.clear();
+    if (boxes_.empty()) return;
     AABoxNode node;
     nodes_.push_back(node);
     std::vector<int> idx(boxes.size());
-- 
2.43.0


From db70162f27fb9e60a76e66e5b51686f8d07fc99d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:38 +0000
Subject: [PATCH 08/71] fix: ExactFloat ldexp clamps very negative exponents to
 an underflow

---
 src/waymo_open_dataset/math/exactfloat.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/waymo_open_dataset/math/exactfloat.cc b/src/waymo_open_dataset/math/exactfloat.cc
index 2d2d684..76b4351 100644
--- a/src/waymo_open_dataset/math/exactfloat.cc
+++ b/src/waymo_open_dataset/math/exactfloat.cc
@@ -713,7 +713,7 @@ ExactFloat ldexp(const ExactFloat& a, int exp) {
   // (kMinExp - 1) <= (a_exp + exp) <= (kMaxExp + 1).
   int a_exp = a.exp();
   exp = min(ExactFloat::kMaxExp + 1 - a_exp,
-            max(ExactFloat::kMinExp - 1 + a_exp, exp));
+            max(ExactFloat::kMinExp - 1 - a_exp, exp));
 
   // Now modify the exponent and check for overflow/underflow.
   ExactFloat r = a;
-- 
2.43.0


From 51114d4eeaa556e5bacd722c5ce6a8c88050f74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:38 +0000
Subject: [PATCH 09/71] fix: ExactFloat can be made from INT_MIN

---
 src/waymo_open_dataset/math/exactfloat.cc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/waymo_open_dataset/math/exactfloat.cc b/src/waymo_open_dataset/math/exactfloat.cc
index 76b4351..61aa5b8 100644
--- a/src/waymo_open_dataset/math/exactfloat.cc
+++ b/src/waymo_open_dataset/math/exactfloat.cc
@@ -106,9 +106,8 @@ ExactFloat::ExactFloat(double v) {
 
 ExactFloat::ExactFloat(int v) {
   sign_ = (v >= 0) ? 1 : -1;
-  // Note that this works even for INT_MIN because the parameter type for
-  // BN_set_word() is unsigned.
-  CHECK(BN_set_word(bn_.get(), std::abs(v)));
+  // Widen before taking the absolute value so that INT_MIN works too.
+  CHECK(BN_set_word(bn_.get(), std::abs(static_cast<int64>(v))));
   bn_exp_ = 0;
   Canonicalize();
 }
-- 
2.43.0


From 9d85fcd1cc77dc5d96846a03c3dc15bd51de0dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:38 +0000
Subject: [PATCH 10/71] fix: ExactFloat rounds decimal digits up when a single
 digit above 5 is dropped

---
 src/waymo_open_dataset/math/exactfloat.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/waymo_open_dataset/math/exactfloat.cc b/src/waymo_open_dataset/math/exactfloat.cc
index 61aa5b8..af9d85f 100644
--- a/src/waymo_open_dataset/math/exactfloat.cc
+++ b/src/waymo_open_dataset/math/exactfloat.cc
@@ -390,9 +390,10 @@ int ExactFloat::GetDecimalDigits(int max_digits, std::string* digits) const {
     // that we round up (away from zero) if highest discarded digit is '5' or
     // more, unless all other discarded digits are zero in which case we round
     // up only if the lowest kept digit is odd.
-    if (all_digits[max_digits] >= '5' &&
-        ((all_digits[max_digits - 1] & 1) == 1 ||
-         strpbrk(all_digits + max_digits + 1, "123456789") != nullptr)) {
+    if (all_digits[max_digits] > '5' ||
+        (all_digits[max_digits] == '5' &&
+         ((all_digits[max_digits - 1] & 1) == 1 ||
+          strpbrk(all_digits + max_digits + 1, "123456789") != nullptr))) {
       // This can increase the number of digits by 1, but in that case at
       // least one trailing zero will be stripped off below.
       IncrementDecimalDigits(digits);
-- 
2.43.0


From db2fbb4c5e4d60373388bdbb7a28c5cce4876498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:38 +0000
Subject: [PATCH 11/71] fix: ExactFloat::ToDouble rounds subnormal results only
 once

---
 src/waymo_open_dataset/math/exactfloat.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/waymo_open_dataset/math/exactfloat.cc b/src/waymo_open_dataset/math/exactfloat.cc
index af9d85f..3bb0fa7 100644
--- a/src/waymo_open_dataset/math/exactfloat.cc
+++ b/src/waymo_open_dataset/math/exactfloat.cc
@@ -165,7 +165,11 @@ double ExactFloat::ToDouble() const {
   if (prec() <= kDoubleMantissaBits) {
     return ToDoubleHelper();
   } else {
-    ExactFloat r = RoundToMaxPrec(kDoubleMantissaBits, kRoundTiesToEven);
+    // Round once: a subnormal double has fewer mantissa bits to keep.
+    const int bit_exp = max(bn_exp_ + prec() - kDoubleMantissaBits,
+                            std::numeric_limits<double>::min_exponent -
+                                kDoubleMantissaBits);
+    ExactFloat r = RoundToPowerOf2(bit_exp, kRoundTiesToEven);
     return r.ToDoubleHelper();
   }
 }
-- 
2.43.0


From c5d8d32959c78170bc63022439eaefa75cb549f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:10 +0000
Subject: [PATCH 12/71] fix: objects of an unknown camera belong to no CAMERA
 breakdown shard

---
 src/waymo_open_dataset/metrics/breakdown_generator.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/waymo_open_dataset/metrics/breakdown_generator.cc b/src/waymo_open_dataset/metrics/breakdown_generator.cc
index ea1e39e..e64b2d1 100644
--- a/src/waymo_open_dataset/metrics/breakdown_generator.cc
+++ b/src/waymo_open_dataset/metrics/breakdown_generator.cc
@@ -341,7 +341,8 @@ class BreakdownGeneratorCamera : public BreakdownGenerator {
       return std::vector<int>();
     }
     if (Is2DCamera(object)) {
-      return std::vector<int>({Shard(object)});
+      const int shard = Shard(object);
+      return shard < 0 ? std::vector<int>() : std::vector<int>({shard});
     }
     // For 3D detections, we estimate the camera breakdowns by FOV.
     const int shard_offset = kNumCameras * (object.object().type() - 1);
@@ -404,7 +405,8 @@ class BreakdownGeneratorCamera : public BreakdownGenerator {
       case CameraName::SIDE_RIGHT:
         return 4;
       default:
-        LOG(FATAL) << "Code should not reach here.";
+        // CameraName::UNKNOWN is not in any shard.
+        return -1;
     }
   }
 
-- 
2.43.0


From f68a65fe856f49c8fb5004982258fc7860f97b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:10 +0000
Subject: [PATCH 13/71] fix: keep the details when merging measurements of
 several frames each

---
 src/waymo_open_dataset/metrics/detection_metrics.cc | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/waymo_open_dataset/metrics/detection_metrics.cc b/src/waymo_open_dataset/metrics/detection_metrics.cc
index 777c5b6..1610935 100644
--- a/src/waymo_open_dataset/metrics/detection_metrics.cc
+++ b/src/waymo_open_dataset/metrics/detection_metrics.cc
@@ -208,12 +208,9 @@ DetectionMeasurement MergeDetectionMeasurement(const DetectionMeasurement& m1,
   ADD_FIELD(sum_longitudinal_affinity);
 #undef ADD_FIELD
 
-  // If we enables details population, appends it as a new frame. The new
-  // frame's `details()` size should be 1.
-  if (m1.details_size() == 1 || m2.details_size() == 1) {
-    *m.mutable_details() = m1.details();
-    m.mutable_details()->MergeFrom(m2.details());
-  }
+  // If we enables details population, appends the frames of m2 to those of m1.
+  *m.mutable_details() = m1.details();
+  m.mutable_details()->MergeFrom(m2.details());
 
   m.set_score_cutoff(m1.score_cutoff());
   return m;
-- 
2.43.0


From 713f6c828d4d5a565618242f819f165952eb5536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:54 +0000
Subject: [PATCH 14/71] fix: tracking score cutoffs are estimated from the
 predictions of every scene and frame

---
 src/waymo_open_dataset/metrics/tracking_metrics.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/waymo_open_dataset/metrics/tracking_metrics.cc b/src/waymo_open_dataset/metrics/tracking_metrics.cc
index 0df0db7..6bbf4d1 100644
--- a/src/waymo_open_dataset/metrics/tracking_metrics.cc
+++ b/src/waymo_open_dataset/metrics/tracking_metrics.cc
@@ -303,8 +303,8 @@ Config EstimateScoreCutoffs(
     for (int scene_idx = 0; scene_idx < num_scenes; ++scene_idx) {
       const int num_frames = pds[scene_idx].size();
       for (int frame_idx = 0; frame_idx < num_frames; ++frame_idx) {
-        for (int pd_idx = 0, num_pds = pds[frame_idx].size(); pd_idx < num_pds;
-             ++pd_idx) {
+        for (int pd_idx = 0, num_pds = pds[scene_idx][frame_idx].size();
+             pd_idx < num_pds; ++pd_idx) {
           pd_scores.push_back(pds[scene_idx][frame_idx][pd_idx].score());
         }
       }
-- 
2.43.0


From 747b20b43b69471b319b845b86da3858ba454ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:54 +0000
Subject: [PATCH 15/71] fix: keep the details when merging tracking
 measurements of several scenes

---
 src/waymo_open_dataset/metrics/tracking_metrics.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/waymo_open_dataset/metrics/tracking_metrics.cc b/src/waymo_open_dataset/metrics/tracking_metrics.cc
index 6bbf4d1..f58fd52 100644
--- a/src/waymo_open_dataset/metrics/tracking_metrics.cc
+++ b/src/waymo_open_dataset/metrics/tracking_metrics.cc
@@ -104,6 +104,9 @@ TrackingMeasurement MergeTrackingMeasurement(const TrackingMeasurement& m1,
   ADD_FIELD(num_matches);
   ADD_FIELD(num_objects_gt);
 #undef ADD_FIELD
+  // Appends the frames of m2 to those of m1.
+  *m.mutable_details() = m1.details();
+  m.mutable_details()->MergeFrom(m2.details());
   m.set_score_cutoff(m1.score_cutoff());
   return m;
 }
-- 
2.43.0


From 2f3630aec322ede44005c2a9c46539e149cd237a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:54 +0000
Subject: [PATCH 16/71] fix: estimate the speed of tracked objects when the
 first frame has no predictions

---
 src/waymo_open_dataset/metrics/tracking_metrics.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/waymo_open_dataset/metrics/tracking_metrics.cc b/src/waymo_open_dataset/metrics/tracking_metrics.cc
index f58fd52..eaca9fa 100644
--- a/src/waymo_open_dataset/metrics/tracking_metrics.cc
+++ b/src/waymo_open_dataset/metrics/tracking_metrics.cc
@@ -205,9 +205,14 @@ std::vector<TrackingMeasurements> ComputeTrackingMeasurements(
   for (int i = 0; i < num_frames; ++i) {
     matchers.push_back(Matcher::Create(config));
   }
+  // The first frames may have no predictions.
+  const auto first_frame_with_pds =
+      std::find_if(pds.begin(), pds.end(),
+                   [](const std::vector<Object>& p) { return !p.empty(); });
   const bool need_to_estimate_speed =
-      internal::HasVelocityBreakdown(config) && !pds.empty() &&
-      !pds[0].empty() && !pds[0][0].object().metadata().has_speed_x();
+      internal::HasVelocityBreakdown(config) &&
+      first_frame_with_pds != pds.end() &&
+      !first_frame_with_pds->front().object().metadata().has_speed_x();
   std::vector<std::vector<Object>> pds_with_velocity;
   if (need_to_estimate_speed) {
     pds_with_velocity = internal::EstimateObjectSpeed(pds, gts);
-- 
2.43.0


From b8866f4b53260a0452c8b37ff0c8953a4ba256a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:24 +0000
Subject: [PATCH 17/71] fix: reject motion metrics configs that divide by zero
 or read past the trajectories

---
 src/waymo_open_dataset/metrics/motion_metrics.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/waymo_open_dataset/metrics/motion_metrics.cc b/src/waymo_open_dataset/metrics/motion_metrics.cc
index dc8bb37..448704f 100644
--- a/src/waymo_open_dataset/metrics/motion_metrics.cc
+++ b/src/waymo_open_dataset/metrics/motion_metrics.cc
@@ -66,6 +66,15 @@ const std::unordered_map<TrajectoryType, int>& GetTrajectoryTypePriority() {
 // Validate the metrics configuration.
 Status ValidateConfig(const MotionMetricsConfig& config) {
   // Validate the configuration.
+  if (config.prediction_steps_per_second() <= 0) {
+    return InvalidArgumentError("prediction_steps_per_second must be positive");
+  }
+  if (config.track_history_samples() < 0) {
+    return InvalidArgumentError("track_history_samples cannot be negative");
+  }
+  if (config.max_predictions() <= 0) {
+    return InvalidArgumentError("max_predictions must be positive");
+  }
   if (config.prediction_steps_per_second() > config.track_steps_per_second()) {
     return InvalidArgumentError(
         "prediction_steps_per_second cannot be greater than "
@@ -82,7 +91,7 @@ Status ValidateConfig(const MotionMetricsConfig& config) {
                                config.prediction_steps_per_second() /
                                config.track_steps_per_second();
   for (const auto& step_config : config.step_configurations()) {
-    if (step_config.measurement_step() > prediction_steps ||
+    if (step_config.measurement_step() >= prediction_steps ||
         step_config.measurement_step() < 0) {
       return InvalidArgumentError("Requested miss rate time is invalid");
     }
-- 
2.43.0


From 01253fda051954a630bd46696bd1c54749ddfb80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:42 +0000
Subject: [PATCH 18/71] fix: pick the most confident prediction for the overlap
 rate when confidences are negative

---
 .../metrics/motion_metrics.cc                 | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/waymo_open_dataset/metrics/motion_metrics.cc b/src/waymo_open_dataset/metrics/motion_metrics.cc
index 448704f..73adee6 100644
--- a/src/waymo_open_dataset/metrics/motion_metrics.cc
+++ b/src/waymo_open_dataset/metrics/motion_metrics.cc
@@ -567,14 +567,17 @@ Status ComputeOverlapRate(
     }
   }
 
-  // Find the highest probability trajectory prediction.
-  std::vector<float> confidences = GetNormalizedConfidences(prediction);
-
-  // Only include the desired K predictions.
-  confidences.resize(config.max_predictions());
-  const int max_index =
-      std::distance(confidences.begin(),
-                    std::max_element(confidences.begin(), confidences.end()));
+  // Find the highest confidence trajectory prediction. Only include the desired
+  // K predictions.
+  const int num_predictions =
+      std::min(prediction.joint_predictions_size(), config.max_predictions());
+  int max_index = 0;
+  for (int i = 1; i < num_predictions; ++i) {
+    if (prediction.joint_predictions(i).confidence() >
+        prediction.joint_predictions(max_index).confidence()) {
+      max_index = i;
+    }
+  }
 
   // Check for overlaps up to the given step.
   const JointTrajectories& joint_prediction =
-- 
2.43.0


From 1d88910b8a52f40ea708925fc149ec93ecbf7afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:42 +0000
Subject: [PATCH 19/71] fix: validate the length of every scenario track before
 the overlap metrics use it

---
 src/waymo_open_dataset/metrics/motion_metrics.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/waymo_open_dataset/metrics/motion_metrics.cc b/src/waymo_open_dataset/metrics/motion_metrics.cc
index 73adee6..c477925 100644
--- a/src/waymo_open_dataset/metrics/motion_metrics.cc
+++ b/src/waymo_open_dataset/metrics/motion_metrics.cc
@@ -206,11 +206,13 @@ Status ValidatePredictions(const MotionMetricsConfig& config,
 
 // Validate that all of the given tracks have the required length.
 Status ValidateTracks(const MotionMetricsConfig& config,
-                      absl::flat_hash_map<int, const Track*>& ids_to_tracks) {
+                      const Scenario& scenario) {
+  // The overlap metrics use the states of every track in the scenario, not only
+  // those of the predicted objects.
   const int track_size =
       config.track_history_samples() + config.track_future_samples() + 1;
-  for (const auto& [id, track] : ids_to_tracks) {
-    if (track->states_size() != track_size) {
+  for (const auto& track : scenario.tracks()) {
+    if (track.states_size() != track_size) {
       return InvalidArgumentError("Invalid Scenario track size.");
     }
   }
@@ -1048,7 +1050,7 @@ Status ComputeMetricsStats(const MotionMetricsConfig& config,
     ids_to_tracks[track.id()] = &scenario.tracks(track_index);
   }
 
-  status = ValidateTracks(config, ids_to_tracks);
+  status = ValidateTracks(config, scenario);
   if (!status.ok()) {
     return status;
   }
-- 
2.43.0


From 1d9678ac908418eec60a6981b553f7fc0ca7151b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:42 +0000
Subject: [PATCH 20/71] fix: reject joint predictions with differing objects
 when the first one is empty

---
 src/waymo_open_dataset/metrics/motion_metrics.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/waymo_open_dataset/metrics/motion_metrics.cc b/src/waymo_open_dataset/metrics/motion_metrics.cc
index c477925..1ac09c8 100644
--- a/src/waymo_open_dataset/metrics/motion_metrics.cc
+++ b/src/waymo_open_dataset/metrics/motion_metrics.cc
@@ -107,6 +107,7 @@ Status ValidateMultiModalPrediction(
   // Use this set to validate that all predicted trajectories in the
   // multi_modal_prediction proto are for the same object.
   std::set<int> trajectory_ids;
+  bool is_first_prediction = true;
   for (const auto& prediction : multi_modal_prediction.joint_predictions()) {
     // Validate the trajectory lengths.
     std::set<int> ids;
@@ -123,8 +124,9 @@ Status ValidateMultiModalPrediction(
     }
 
     // Verify that every joint prediction contains the same objects.
-    if (trajectory_ids.empty()) {
+    if (is_first_prediction) {
       trajectory_ids = ids;
+      is_first_prediction = false;
     }
     if (ids != trajectory_ids) {
       return InvalidArgumentError(
-- 
2.43.0


From ea5b46efc7d8d75d11ef5ba4bd6ef9e45aabb42a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:42 +0000
Subject: [PATCH 21/71] fix: skip only the empty prediction instead of all
 predictions after it in the motion metrics

---
 src/waymo_open_dataset/metrics/motion_metrics.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/waymo_open_dataset/metrics/motion_metrics.cc b/src/waymo_open_dataset/metrics/motion_metrics.cc
index 1ac09c8..333a800 100644
--- a/src/waymo_open_dataset/metrics/motion_metrics.cc
+++ b/src/waymo_open_dataset/metrics/motion_metrics.cc
@@ -767,7 +767,7 @@ Status ComputeAllMetrics(
     // joint prediction.
     if (multi_modal_prediction.joint_predictions().empty() ||
         multi_modal_prediction.joint_predictions(0).trajectories().empty()) {
-      return OkStatus();
+      continue;
     }
 
     // Find the object_type that best describes the prediction. If it is a joint
-- 
2.43.0


From b3dc0b02ccedded3a2688c37ca6879241265035c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:27 +0000
Subject: [PATCH 22/71] fix: keep 64-bit counts when segmentation measurements
 are merged

---
 src/waymo_open_dataset/metrics/segmentation_metrics.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/waymo_open_dataset/metrics/segmentation_metrics.cc b/src/waymo_open_dataset/metrics/segmentation_metrics.cc
index fce6828..cfb83f2 100644
--- a/src/waymo_open_dataset/metrics/segmentation_metrics.cc
+++ b/src/waymo_open_dataset/metrics/segmentation_metrics.cc
@@ -125,8 +125,8 @@ SegmentationMetrics SegmentationMetricsIOU::MergeResults(
   }
   std::vector<float> ious(num_classes_, 1.0);
   for (int i = 0; i < num_classes_; ++i) {
-    int num_intersection = num_intersections[i];
-    int num_union = num_unions[i];
+    const int64_t num_intersection = num_intersections[i];
+    const int64_t num_union = num_unions[i];
     if (num_union > 0) {
       ious[i] = 1.0f * num_intersection / num_union;
     }
-- 
2.43.0


From 7b15d96c057eff8c97d26939b21e6aae3aa0cf03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:41 +0000
Subject: [PATCH 23/71] fix: do not use and free the buffer again when a
 segmentation label cannot be uncompressed

---
 .../metrics/tools/compute_segmentation_metrics_main.cc           | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/waymo_open_dataset/metrics/tools/compute_segmentation_metrics_main.cc b/src/waymo_open_dataset/metrics/tools/compute_segmentation_metrics_main.cc
index d085b70..edaba1b 100644
--- a/src/waymo_open_dataset/metrics/tools/compute_segmentation_metrics_main.cc
+++ b/src/waymo_open_dataset/metrics/tools/compute_segmentation_metrics_main.cc
@@ -86,6 +86,7 @@ std::string Uncompress(std::string const& s) {
   if (result != Z_OK) {
     delete[] destination;
     std::cerr << "Uncompress error occured! Error code: " << result << "\n";
+    return "";
   }
   // Since we don't know the output size, we use the max len.
   std::string ret = std::string(destination, max_len);
-- 
2.43.0


From 704b691803b1222b780fbc41a74fe723af767281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:41 +0000
Subject: [PATCH 24/71] fix: size the empty prediction of the second return by
 the second return

---
 .../metrics/tools/compute_segmentation_metrics_main.cc      | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/waymo_open_dataset/metrics/tools/compute_segmentation_metrics_main.cc b/src/waymo_open_dataset/metrics/tools/compute_segmentation_metrics_main.cc
index edaba1b..82d9d2a 100644
--- a/src/waymo_open_dataset/metrics/tools/compute_segmentation_metrics_main.cc
+++ b/src/waymo_open_dataset/metrics/tools/compute_segmentation_metrics_main.cc
@@ -185,8 +185,6 @@ void Compute(const std::string& pd_str, const std::string& gt_str) {
     gt_matrix.ParseFromString(Uncompress(gt_it->second.segmentation_labels()[0]
                                              .ri_return1()
                                              .segmentation_label_compressed()));
-    const int num_points = gt_matrix.data().size();
-
     std::vector<Segmentation::Type> pd_vector;
     if (has_valid_prediction) {
       MatrixInt32 pd_matrix;
@@ -196,7 +194,7 @@ void Compute(const std::string& pd_str, const std::string& gt_str) {
                          .segmentation_label_compressed()));
       pd_vector = Flatten(pd_matrix);
     } else {
-      pd_vector = CreateEmptyPrediction(num_points);
+      pd_vector = CreateEmptyPrediction(gt_matrix.data().size());
     }
     CHECK(miou.Update(pd_vector, Flatten(gt_matrix)).ok())
         << "Prediction and Groundtruth lengths do not match";
@@ -212,7 +210,7 @@ void Compute(const std::string& pd_str, const std::string& gt_str) {
                          .segmentation_label_compressed()));
       pd_vector = Flatten(pd_matrix);
     } else {
-      pd_vector = CreateEmptyPrediction(num_points);
+      pd_vector = CreateEmptyPrediction(gt_matrix.data().size());
     }
     CHECK(miou.Update(pd_vector, Flatten(gt_matrix)).ok())
         << "Prediction and Groundtruth length do not match";
-- 
2.43.0


From 2ae5a56845c861740227a416dcbdc4d662064f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:41 +0000
Subject: [PATCH 25/71] fix: accept prediction files that are empty or end in a
 newline byte when creating a submission

---
 .../metrics/tools/create_submission.cc                   | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/waymo_open_dataset/metrics/tools/create_submission.cc b/src/waymo_open_dataset/metrics/tools/create_submission.cc
index d63d680..7ab9607 100644
--- a/src/waymo_open_dataset/metrics/tools/create_submission.cc
+++ b/src/waymo_open_dataset/metrics/tools/create_submission.cc
@@ -148,10 +148,13 @@ void Run() {
   int i = 0;
   for (const auto& name : input_filenames) {
     std::string content = ReadFileToString(name);
-    if (content.back() == '\n') {
-      content.pop_back();
+    if (!objects_all[i].ParseFromString(content)) {
+      // The file may have got a newline at its end.
+      if (!content.empty() && content.back() == '\n') {
+        content.pop_back();
+      }
+      CHECK(objects_all[i].ParseFromString(content));
     }
-    CHECK(objects_all[i].ParseFromString(content));
     i++;
   }
 
-- 
2.43.0


From f805e75941e77c729723292831e27270b6300ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:41 +0000
Subject: [PATCH 26/71] fix: do not take a submission file for an empty objects
 file when comparing latency results

---
 .../latency/compare_objects_file_to_submission_main.cc        | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/waymo_open_dataset/latency/compare_objects_file_to_submission_main.cc b/src/waymo_open_dataset/latency/compare_objects_file_to_submission_main.cc
index 4d95374..68ffacf 100644
--- a/src/waymo_open_dataset/latency/compare_objects_file_to_submission_main.cc
+++ b/src/waymo_open_dataset/latency/compare_objects_file_to_submission_main.cc
@@ -83,7 +83,9 @@ Objects ReadObjectsFromFile(const std::vector<std::string>& paths) {
     std::ifstream s(path);
     const std::string content((std::istreambuf_iterator<char>(s)),
                               std::istreambuf_iterator<char>());
-    if (!objs.ParseFromString(content)) {
+    // A serialized Submission may also parse as an Objects proto, without any
+    // objects.
+    if (!objs.ParseFromString(content) || objs.objects().empty()) {
       Submission submission;
       if (!submission.ParseFromString(content)) {
         LOG(FATAL) << "Could not parse " << path << " as submission either.";
-- 
2.43.0


From 71e7a1402988318032fb7a8b706ec8a9aef1ee6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:02 +0000
Subject: [PATCH 27/71] fix: skip map features whose polygon has no points when
 converting a scenario

---
 src/waymo_open_dataset/data_conversion/scenario_conversion.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/waymo_open_dataset/data_conversion/scenario_conversion.cc b/src/waymo_open_dataset/data_conversion/scenario_conversion.cc
index 4fecf3f..9597788 100644
--- a/src/waymo_open_dataset/data_conversion/scenario_conversion.cc
+++ b/src/waymo_open_dataset/data_conversion/scenario_conversion.cc
@@ -794,6 +794,10 @@ void AddPolygonSamples(
     const int type, const google::protobuf::RepeatedPtrField<MapPoint>& map_points,
     const int valid, int* num_points,
     absl::flat_hash_map<std::string, tensorflow::Feature>* features) {
+  if (map_points.empty()) {
+    return;
+  }
+
   // Add the first N-1 segments of the polygon.
   const int feature_size = map_points.size();
   std::vector<Vec3d> points;
-- 
2.43.0


From 551161ac8d9c51a37a025f7b8ef8a902ea0d62aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:02 +0000
Subject: [PATCH 28/71] fix: refuse a scenario whose track to predict does not
 exist instead of aborting

---
 .../data_conversion/scenario_conversion.cc                | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/waymo_open_dataset/data_conversion/scenario_conversion.cc b/src/waymo_open_dataset/data_conversion/scenario_conversion.cc
index 9597788..097e69c 100644
--- a/src/waymo_open_dataset/data_conversion/scenario_conversion.cc
+++ b/src/waymo_open_dataset/data_conversion/scenario_conversion.cc
@@ -1007,6 +1007,14 @@ bool ValidateScenarioProto(const Scenario& scenario,
     }
   }
 
+  for (const auto& track_to_predict : scenario.tracks_to_predict()) {
+    if (track_to_predict.track_index() < 0 ||
+        track_to_predict.track_index() >= scenario.tracks().size()) {
+      IncrementCounter("Track_To_Predict_Index_No_Match", counters);
+      valid = false;
+    }
+  }
+
   if (valid) {
     IncrementCounter("Valid_Scenario", counters);
   }
-- 
2.43.0


From a69a091c7c80b6c4f739082cf480bb2bb4eb2feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:02 +0000
Subject: [PATCH 29/71] fix: refuse a scenario that ends before the current
 step instead of reading past it

---
 .../data_conversion/scenario_conversion.cc               | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/waymo_open_dataset/data_conversion/scenario_conversion.cc b/src/waymo_open_dataset/data_conversion/scenario_conversion.cc
index 097e69c..0509215 100644
--- a/src/waymo_open_dataset/data_conversion/scenario_conversion.cc
+++ b/src/waymo_open_dataset/data_conversion/scenario_conversion.cc
@@ -1060,6 +1060,15 @@ absl::StatusOr<tensorflow::Example> ScenarioToExample(
         absl::StrCat("Invalid Scenario Proto: ", scenario.ShortDebugString()));
   }
 
+  if (config.num_past_steps() < 1 || config.num_future_steps() < 0 ||
+      config.num_past_steps() > scenario.timestamps_seconds().size()) {
+    internal::IncrementCounter("Scenario_Without_Current_Step", counters);
+    return absl::FailedPreconditionError(absl::StrCat(
+        "The scenario has ", scenario.timestamps_seconds().size(),
+        " steps and no current step at num_past_steps: ",
+        config.num_past_steps()));
+  }
+
   // Create the example feature tensors from the Scenario proto data.
   absl::flat_hash_map<std::string, tensorflow::Feature> features;
   const int num_steps = config.num_future_steps() + config.num_past_steps();
-- 
2.43.0


From bff56bb4e99392e3c6733b865cf88d521f965e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:02 +0000
Subject: [PATCH 30/71] fix: refuse more modeled agents than rows of agents
 instead of resizing to a negative size

---
 .../data_conversion/scenario_conversion.cc                  | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/waymo_open_dataset/data_conversion/scenario_conversion.cc b/src/waymo_open_dataset/data_conversion/scenario_conversion.cc
index 0509215..c2c7e59 100644
--- a/src/waymo_open_dataset/data_conversion/scenario_conversion.cc
+++ b/src/waymo_open_dataset/data_conversion/scenario_conversion.cc
@@ -266,6 +266,12 @@ absl::Status AddSdcAndAgentsStateFeatures(
         "No valid modeled agents in the current track.");
   }
 
+  if (static_cast<int>(modeled_agents.size()) >
+      conversion_config.max_num_agents()) {
+    return absl::FailedPreconditionError(
+        "There are more modeled agents than max_num_agents.");
+  }
+
   IncrementCounter("Num_Modeled_Agents", counters, modeled_agents.size());
   std::vector<const Track*> sorted_modeled_agents(modeled_agents.begin(),
                                                   modeled_agents.end());
-- 
2.43.0


From 6d32581612474eb1d4d010d23d5e1779645d3b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:34 +0000
Subject: [PATCH 31/71] fix: sign in the derivative of the rolling shutter
 solver

With normalized = -y / x the derivative is (-y' - normalized * x') / x; the
first sign made the solver stop a visible distance from the projection of
points approaching the camera.
---
 src/waymo_open_dataset/wdl_limited/camera/camera_model.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/waymo_open_dataset/wdl_limited/camera/camera_model.cc b/src/waymo_open_dataset/wdl_limited/camera/camera_model.cc
index 3e6a2fe..c6199f7 100644
--- a/src/waymo_open_dataset/wdl_limited/camera/camera_model.cc
+++ b/src/waymo_open_dataset/wdl_limited/camera/camera_model.cc
@@ -665,10 +665,10 @@ bool CameraModel::ComputeDepthResidualAndJacobian(
     const double jacobian_combined =
         rolling_shutter_state.readout_horizontal_direction
             ? rolling_shutter_state.readout_time_factor / cam_pos_f(0) *
-                  ((*normalized_coord)(0) * jacobian_landmark_to_index(0) -
+                  (-(*normalized_coord)(0) * jacobian_landmark_to_index(0) -
                    jacobian_landmark_to_index(1))
             : rolling_shutter_state.readout_time_factor / cam_pos_f(0) *
-                  ((*normalized_coord)(1) * jacobian_landmark_to_index(0) -
+                  (-(*normalized_coord)(1) * jacobian_landmark_to_index(0) -
                    jacobian_landmark_to_index(2));
     *jacobian = 1. - jacobian_combined;
   }
-- 
2.43.0


From 2a27ed8274fc8dbfe4fd67b361f8cfc74c328d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:34 +0000
Subject: [PATCH 32/71] fix: set the coordinates of points the rolling shutter
 solver cannot place

---
 src/waymo_open_dataset/wdl_limited/camera/camera_model.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/waymo_open_dataset/wdl_limited/camera/camera_model.cc b/src/waymo_open_dataset/wdl_limited/camera/camera_model.cc
index c6199f7..4b6bca6 100644
--- a/src/waymo_open_dataset/wdl_limited/camera/camera_model.cc
+++ b/src/waymo_open_dataset/wdl_limited/camera/camera_model.cc
@@ -392,6 +392,10 @@ bool CameraModel::WorldToImageMovingPointWithDepth(double x, double y, double z,
 
   // Check sanity of final residual in case solver diverged.
   if (std::abs(residual) > kMaxFinalResidualError) {
+    *u_d = -1;
+    *v_d = -1;
+    if (depth)
+      *depth = -1;
     return false;
   }
 
-- 
2.43.0


From 155d298170214ad3d95c248c77dfb2a0fa9ef2e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:18 +0000
Subject: [PATCH 33/71] fix: motion metrics op adds the id of the track to the
 objects of interest

The id was used as a column of object_id, which reads outside the tensor for
any id that is not also an agent index.
---
 src/waymo_open_dataset/metrics/ops/utils.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/waymo_open_dataset/metrics/ops/utils.cc b/src/waymo_open_dataset/metrics/ops/utils.cc
index 0a30180..9b9c66a 100644
--- a/src/waymo_open_dataset/metrics/ops/utils.cc
+++ b/src/waymo_open_dataset/metrics/ops/utils.cc
@@ -376,8 +376,7 @@ ParseScenarioAndPredictonsFromTensors(
           required_track.set_track_index(track_index);
           required_track.set_difficulty(RequiredPrediction::LEVEL_1);
 
-          scenario->add_objects_of_interest(
-              object_id.matrix<int64>()(i, scenario->tracks(track_index).id()));
+          scenario->add_objects_of_interest(scenario->tracks(track_index).id());
         }
       }
     }
-- 
2.43.0


From e9491522784ca00f71063790545ff05325c07c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:18 +0000
Subject: [PATCH 34/71] fix: motion metrics op refuses predictions for agents
 without a valid state

Such agents get no track; looking them up inserted index 0 and scored the
prediction against the first track of the scenario.
---
 src/waymo_open_dataset/metrics/ops/utils.cc | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/waymo_open_dataset/metrics/ops/utils.cc b/src/waymo_open_dataset/metrics/ops/utils.cc
index 9b9c66a..caa631e 100644
--- a/src/waymo_open_dataset/metrics/ops/utils.cc
+++ b/src/waymo_open_dataset/metrics/ops/utils.cc
@@ -368,9 +368,10 @@ ParseScenarioAndPredictonsFromTensors(
           CHECK_GE(gt_index, 0);
           CHECK_LT(gt_index, num_total_agents);
           // Get the track index for that ground truth agent.
-          int64 track_index = gt_idx_to_track_idx[gt_index];
-          CHECK_GE(track_index, 0);
-          CHECK_LT(track_index, scenario->tracks_size());
+          const auto track_it = gt_idx_to_track_idx.find(gt_index);
+          CHECK(track_it != gt_idx_to_track_idx.end())
+              << "Agent " << gt_index << " has no valid ground truth state.";
+          const int64 track_index = track_it->second;
           RequiredPrediction& required_track =
               *scenario->add_tracks_to_predict();
           required_track.set_track_index(track_index);
@@ -402,9 +403,7 @@ ParseScenarioAndPredictonsFromTensors(
             CHECK_GE(gt_index, 0);
             CHECK_LT(gt_index, num_total_agents);
             // Get the track index for that ground truth agent.
-            int64 track_index = gt_idx_to_track_idx[gt_index];
-            CHECK_GE(track_index, 0);
-            CHECK_LT(track_index, scenario->tracks_size());
+            const int64 track_index = gt_idx_to_track_idx.at(gt_index);
 
             new_trajectory->set_object_id(scenario->tracks(track_index).id());
             for (int t = 0; t < num_pred_steps; ++t) {
-- 
2.43.0


From c687f5c24e1b924f1d58ab4120dd90723a715998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:18 +0000
Subject: [PATCH 35/71] fix: tracking metrics op passes the ground truth
 difficulty to tracking

Tracking reads tracking_difficulty_level only, so that the difficulty of the
ground truth was ignored.
---
 src/waymo_open_dataset/metrics/ops/tracking_metrics_ops.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/waymo_open_dataset/metrics/ops/tracking_metrics_ops.cc b/src/waymo_open_dataset/metrics/ops/tracking_metrics_ops.cc
index 0216be0..7854c59 100644
--- a/src/waymo_open_dataset/metrics/ops/tracking_metrics_ops.cc
+++ b/src/waymo_open_dataset/metrics/ops/tracking_metrics_ops.cc
@@ -204,7 +204,7 @@ class TrackingMetricsOp final : public OpKernel {
             /*score=*/absl::nullopt,
             /*overlap_nlz=*/absl::nullopt,
             /*detection_difficulty=*/*input.ground_truth_difficulty,
-            /*tracking_difficulty=*/absl::nullopt,
+            /*tracking_difficulty=*/*input.ground_truth_difficulty,
             /*object_speed=*/*input.ground_truth_speed);
 
     std::set<std::string> sequence_ids;
-- 
2.43.0


From 68d998c2b51f7de779685a6e8e96434db132151e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:18 +0000
Subject: [PATCH 36/71] fix: WorldToImageMovingPoint checks the size of
 global_velocity

---
 .../wdl_limited/camera/ops/camera_model_ops.cc                  | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/waymo_open_dataset/wdl_limited/camera/ops/camera_model_ops.cc b/src/waymo_open_dataset/wdl_limited/camera/ops/camera_model_ops.cc
index b3400d1..5bfbd1f 100644
--- a/src/waymo_open_dataset/wdl_limited/camera/ops/camera_model_ops.cc
+++ b/src/waymo_open_dataset/wdl_limited/camera/ops/camera_model_ops.cc
@@ -200,6 +200,8 @@ class WorldToImageMovingPointOp : public OpKernel {
     const int num_points = input.input_coordinate->dim_size(0);
     const int out_channel = 3 + return_depth_;
     CHECK_EQ(3, input.input_coordinate->dim_size(1));
+    CHECK_EQ(num_points, input.input_velocity->dim_size(0));
+    CHECK_EQ(3, input.input_velocity->dim_size(1));
     Tensor image_coordinates(GetTensorflowType<T>(), {num_points, out_channel});
     for (int i = 0; i < num_points; ++i) {
       double u_d = 0.0;
-- 
2.43.0


From ada4a8aa56b400e58dff74f56773feb7740d6890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:18 +0000
Subject: [PATCH 37/71] fix: DetectionMetricsResult checks the size of the
 state

---
 src/waymo_open_dataset/metrics/ops/detection_metrics_ops.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/waymo_open_dataset/metrics/ops/detection_metrics_ops.cc b/src/waymo_open_dataset/metrics/ops/detection_metrics_ops.cc
index 4281927..dea66a3 100644
--- a/src/waymo_open_dataset/metrics/ops/detection_metrics_ops.cc
+++ b/src/waymo_open_dataset/metrics/ops/detection_metrics_ops.cc
@@ -514,6 +514,10 @@ class DetectionMetricsResultOp final : public OpKernel {
     co::Config config = config_;
     const int num_score_cutoffs = config.score_cutoffs_size();
 
+    CHECK_EQ(state->dims(), 3);
+    CHECK_EQ(state->dim_size(1), num_score_cutoffs);
+    CHECK_EQ(state->dim_size(2), 5);
+
     std::vector<co::DetectionMeasurements> measurements;
     int counter = 0;
     for (int i = 0, sz = config.breakdown_generator_ids_size(); i < sz; ++i) {
@@ -524,6 +528,7 @@ class DetectionMetricsResultOp final : public OpKernel {
           ::waymo::open_dataset::internal::GetDifficultyLevels(config, i);
       for (int j = 0; j < num_shards; ++j) {
         for (const auto& difficulty_level : difficulty_levels) {
+          CHECK_LT(counter, state->dim_size(0));
           co::DetectionMeasurements temp;
           temp.mutable_breakdown()->set_generator_id(
               config.breakdown_generator_ids(i));
@@ -545,6 +550,7 @@ class DetectionMetricsResultOp final : public OpKernel {
         }
       }
     }
+    CHECK_EQ(counter, state->dim_size(0));
 
     const std::vector<co::DetectionMetrics> metrics =
         co::ComputeDetectionMetrics(config_, {measurements});
-- 
2.43.0


From a4547a1d0c27a83843d430403bc7b15bd59ddc62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:07 +0000
Subject: [PATCH 38/71] fix: detection and tracking ops check the columns of
 the object speed

---
 src/waymo_open_dataset/metrics/ops/utils.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/waymo_open_dataset/metrics/ops/utils.cc b/src/waymo_open_dataset/metrics/ops/utils.cc
index caa631e..c303c72 100644
--- a/src/waymo_open_dataset/metrics/ops/utils.cc
+++ b/src/waymo_open_dataset/metrics/ops/utils.cc
@@ -138,6 +138,7 @@ absl::flat_hash_map<int64, std::vector<Object>> ParseObjectFromTensors(
   }
   if (object_speed.has_value()) {
     CHECK_EQ(bbox.dim_size(0), object_speed->dim_size(0));
+    CHECK_EQ(object_speed->dim_size(1), 2);
   }
 
   absl::flat_hash_map<int64, std::vector<Object>> objects;
@@ -203,6 +204,7 @@ ParseObjectGroupedBySequenceFromTensors(
   }
   if (object_speed.has_value()) {
     CHECK_EQ(bbox.dim_size(0), object_speed->dim_size(0));
+    CHECK_EQ(object_speed->dim_size(1), 2);
   }
 
   // Map of sequence ids to (map of frame ids to list of objects in that frame).
-- 
2.43.0


From 748c8b0052d9773084a8d655245c7b53717841b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:52 +0000
Subject: [PATCH 39/71] fix: points at the seam of the range image wrap around

An azimuth of -pi rounds to column `width` for even widths, and building the
range image failed for the whole batch.
---
 src/waymo_open_dataset/utils/range_image_utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/waymo_open_dataset/utils/range_image_utils.py b/src/waymo_open_dataset/utils/range_image_utils.py
index 5edb7f4..6b6769c 100644
--- a/src/waymo_open_dataset/utils/range_image_utils.py
+++ b/src/waymo_open_dataset/utils/range_image_utils.py
@@ -555,8 +555,10 @@ def build_range_image_from_point_cloud(points_vehicle_frame,
     # [B, N].
     point_ri_col_indices = width - 1.0 + 0.5 - (point_azimuth +
                                                 np.pi) / (2.0 * np.pi) * width
-    point_ri_col_indices = tf.cast(
-        tf.round(point_ri_col_indices), dtype=tf.int32)
+    # An azimuth of -pi rounds to the column after the last one, which is the
+    # first one.
+    point_ri_col_indices = tf.math.mod(
+        tf.cast(tf.round(point_ri_col_indices), dtype=tf.int32), width)
 
     with tf.control_dependencies([
         tf.compat.v1.assert_non_negative(point_ri_col_indices),
-- 
2.43.0


From 11e0ad2a4fffd9ec4a83de25f8f2c11b20070a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:52 +0000
Subject: [PATCH 40/71] fix: top lidar points without listed beam inclinations

The decompressed range image is an array, which has no dims.
---
 src/waymo_open_dataset/utils/womd_lidar_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/waymo_open_dataset/utils/womd_lidar_utils.py b/src/waymo_open_dataset/utils/womd_lidar_utils.py
index 399d890..c376273 100644
--- a/src/waymo_open_dataset/utils/womd_lidar_utils.py
+++ b/src/waymo_open_dataset/utils/womd_lidar_utils.py
@@ -114,7 +114,7 @@ def extract_top_lidar_points(
       beam_inclinations = _get_beam_inclinations(
           c.beam_inclination_min,
           c.beam_inclination_max,
-          range_image.dims[0],
+          range_image.shape[0],
       )
     else:
       beam_inclinations = np.array(c.beam_inclinations)
-- 
2.43.0


From 5b7b216a43a36f68f822cfe7c4f337b8b249545a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:02 +0000
Subject: [PATCH 41/71] fix: pad rater trajectories given as one array

For an array, as documented, the padding was added to every waypoint instead
of appended.
---
 src/waymo_open_dataset/metrics/python/rater_feedback_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/waymo_open_dataset/metrics/python/rater_feedback_utils.py b/src/waymo_open_dataset/metrics/python/rater_feedback_utils.py
index 923abdf..e8fcac0 100644
--- a/src/waymo_open_dataset/metrics/python/rater_feedback_utils.py
+++ b/src/waymo_open_dataset/metrics/python/rater_feedback_utils.py
@@ -112,9 +112,9 @@ def process_rater_specified_trajectories(
       padding_labels = [current_labels_batch[-1]] * num_to_pad
 
       processed_batch_trajectories = (
-          current_trajectory_batch + padding_trajectories
+          list(current_trajectory_batch) + padding_trajectories
       )
-      processed_batch_labels = current_labels_batch.tolist() + padding_labels
+      processed_batch_labels = list(current_labels_batch) + padding_labels
     else:
       # Number of trajectories already matches the target
       processed_batch_trajectories = current_trajectory_batch
-- 
2.43.0


From ef92ee050b84b0154017b233d7702bc7071e8eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:43 +0000
Subject: [PATCH 42/71] fix: distance from a point to a lane segment

The vector from the nearest point of the segment is start_to_point minus, not
plus, the part along the segment; the nearest lane was the wrong one.
---
 .../wdl_limited/sim_agents_metrics/traffic_light_features.py    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/waymo_open_dataset/wdl_limited/sim_agents_metrics/traffic_light_features.py b/src/waymo_open_dataset/wdl_limited/sim_agents_metrics/traffic_light_features.py
index 33fd187..cdedfe9 100644
--- a/src/waymo_open_dataset/wdl_limited/sim_agents_metrics/traffic_light_features.py
+++ b/src/waymo_open_dataset/wdl_limited/sim_agents_metrics/traffic_light_features.py
@@ -264,7 +264,7 @@ def _get_nearest_lane_segment_index(
   )
   clipped_rel_t = tf.clip_by_value(rel_t, 0.0, 1.0)
   distance_to_segment = tf.linalg.norm(
-      start_to_point + start_to_end * clipped_rel_t[..., tf.newaxis], axis=-1
+      start_to_point - start_to_end * clipped_rel_t[..., tf.newaxis], axis=-1
   )
 
   # Mask out invalid segments.
-- 
2.43.0


From 50c65542ff287152aea90d396054794ef2ad825a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:43 +0000
Subject: [PATCH 43/71] fix: no lane segment between the last point and the
 padding

A lane shorter than the longest one got a segment from its last point to the
origin, which was matched with agents and stop points.
---
 .../wdl_limited/sim_agents_metrics/traffic_light_features.py    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/waymo_open_dataset/wdl_limited/sim_agents_metrics/traffic_light_features.py b/src/waymo_open_dataset/wdl_limited/sim_agents_metrics/traffic_light_features.py
index cdedfe9..cf2be91 100644
--- a/src/waymo_open_dataset/wdl_limited/sim_agents_metrics/traffic_light_features.py
+++ b/src/waymo_open_dataset/wdl_limited/sim_agents_metrics/traffic_light_features.py
@@ -270,7 +270,7 @@ def _get_nearest_lane_segment_index(
   # Mask out invalid segments.
   # shape: (num_points, num_polylines, num_segments)
   distance_to_segment = tf.where(
-      lane_valid[:, :, :-1],
+      lane_valid[:, :, :-1] & lane_valid[:, :, 1:],
       distance_to_segment,
       EXTREMELY_LARGE_DISTANCE,
   )
-- 
2.43.0


From d717d5fce754e799de48f595fa1b406dea6107ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:43 +0000
Subject: [PATCH 44/71] fix: red light violations need a valid previous state

The position of an invalid state decided whether the object was behind the
stop point.
---
 .../sim_agents_metrics/traffic_light_features.py          | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/waymo_open_dataset/wdl_limited/sim_agents_metrics/traffic_light_features.py b/src/waymo_open_dataset/wdl_limited/sim_agents_metrics/traffic_light_features.py
index cf2be91..59e9fed 100644
--- a/src/waymo_open_dataset/wdl_limited/sim_agents_metrics/traffic_light_features.py
+++ b/src/waymo_open_dataset/wdl_limited/sim_agents_metrics/traffic_light_features.py
@@ -215,10 +215,16 @@ def compute_red_light_violation(
       axis=1,
   )
 
+  # The object has to be valid before and after crossing.
+  # shape: (num_objects, num_steps)
+  valid_steps = tf.concat(
+      [valid[:, 0:1], valid[:, :-1] & valid[:, 1:]], axis=1
+  )
+
   # Verify all the conditions for a red light violation.
   # shape: (num_objects, num_steps)
   return tf.reduce_any(
-      valid[:, :, tf.newaxis]
+      valid_steps[:, :, tf.newaxis]
       & ts_match
       & ts_is_stop[tf.newaxis]
       & ts_lane_valid[tf.newaxis]
-- 
2.43.0


From b0f221f80773f47f5f32637c7596513a33bca428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:43 +0000
Subject: [PATCH 45/71] fix: red light crossing at the first step of a signal

A signal that is missing at the previous step has no stop point there; the
previous position was compared with the origin instead.
---
 .../traffic_light_features.py                  | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/waymo_open_dataset/wdl_limited/sim_agents_metrics/traffic_light_features.py b/src/waymo_open_dataset/wdl_limited/sim_agents_metrics/traffic_light_features.py
index 59e9fed..0da691f 100644
--- a/src/waymo_open_dataset/wdl_limited/sim_agents_metrics/traffic_light_features.py
+++ b/src/waymo_open_dataset/wdl_limited/sim_agents_metrics/traffic_light_features.py
@@ -195,16 +195,28 @@ def compute_red_light_violation(
       ),
       stop_point_segment_length2[tf.newaxis],
   )
-  # shape: (num_objects, num_steps, num_traffic_signals)
+  # Relative coordinate of the object at the previous step, along the segment of
+  # the current step, as the signal might not be present at the previous step.
+  # shape: (num_objects, num_steps-1, num_traffic_signals)
+  previous_object_rel_t = tf.math.divide_no_nan(
+      geometry_utils.dot_product_2d(
+          xy[:, :-1, tf.newaxis]
+          - ts_stop_point_segment[tf.newaxis, 1:, :, 0, :2],
+          start_to_end[tf.newaxis, 1:],
+      ),
+      stop_point_segment_length2[tf.newaxis, 1:],
+  )
+  # shape: (num_objects, num_steps-1, num_traffic_signals)
   object_behind_stop_point = tf.less(
-      object_rel_t, stop_point_rel_t[tf.newaxis]
+      previous_object_rel_t, stop_point_rel_t[tf.newaxis, 1:]
   )
+  # shape: (num_objects, num_steps, num_traffic_signals)
   object_ahead_stop_point = tf.greater(
       object_rel_t, stop_point_rel_t[tf.newaxis]
   )
   # shape: (num_objects, num_steps-1, num_traffic_signals)
   object_crossed_stop_point = tf.logical_and(
-      object_behind_stop_point[:, :-1], object_ahead_stop_point[:, 1:]
+      object_behind_stop_point, object_ahead_stop_point[:, 1:]
   )
   # shape: (num_objects, num_steps, num_traffic_signals)
   object_crossed_stop_point = tf.concat(
-- 
2.43.0


From 5e5b3b450d2ee61691c3dbe877f103523bc53382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:43 +0000
Subject: [PATCH 46/71] fix: heading difference of objects across +-pi

Two objects driving the same way at headings close to pi and -pi were never
considered as following each other.
---
 .../wdl_limited/sim_agents_metrics/interaction_features.py     | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/waymo_open_dataset/wdl_limited/sim_agents_metrics/interaction_features.py b/src/waymo_open_dataset/wdl_limited/sim_agents_metrics/interaction_features.py
index ab44af8..4bf617b 100644
--- a/src/waymo_open_dataset/wdl_limited/sim_agents_metrics/interaction_features.py
+++ b/src/waymo_open_dataset/wdl_limited/sim_agents_metrics/interaction_features.py
@@ -305,7 +305,8 @@ def compute_time_to_collision_with_object_in_front(
 
   # Absolute yaw difference between each ego box and every other box.
   # `yaw_diff` shape: (num_steps, num_evaluated_objects, num_objects, 1)
-  yaw_diff = tf.math.abs(other_yaw[:, tf.newaxis] - ego_yaw[:, :, tf.newaxis])
+  yaw_diff = other_yaw[:, tf.newaxis] - ego_yaw[:, :, tf.newaxis]
+  yaw_diff = tf.math.abs((yaw_diff + math.pi) % (2 * math.pi) - math.pi)
 
   yaw_diff_cos = tf.math.cos(yaw_diff)
   yaw_diff_sin = tf.math.sin(yaw_diff)
-- 
2.43.0


From 20e063d3cdab04bc3bab32ba98f3b3de755f65d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:43 +0000
Subject: [PATCH 47/71] fix: sign of the distance at the closing point of
 padded road edges

Closed road edges shorter than the longest polyline took the padding as the
neighbor of their first and last segments, so points near the closing point
could get the sign of the wrong side.
---
 .../sim_agents_metrics/map_metric_features.py | 111 ++++++++----------
 1 file changed, 48 insertions(+), 63 deletions(-)

diff --git a/src/waymo_open_dataset/wdl_limited/sim_agents_metrics/map_metric_features.py b/src/waymo_open_dataset/wdl_limited/sim_agents_metrics/map_metric_features.py
index 80b17e6..1013fc4 100644
--- a/src/waymo_open_dataset/wdl_limited/sim_agents_metrics/map_metric_features.py
+++ b/src/waymo_open_dataset/wdl_limited/sim_agents_metrics/map_metric_features.py
@@ -320,80 +320,65 @@ def _compute_signed_distance_to_polylines(
   #       sign of the distance depends on the convexity of the nearest and next
   #       segments.
 
-  # shape: (num_points, num_polylines, num_segments+2, 2)
-  start_to_end_padded = tf.concat(
-      [
-          start_to_end[:, :, -1:, :2],
-          start_to_end[..., :2],
-          start_to_end[:, :, :1, :2],
-      ],
-      axis=-2,
+  # Indices of the prior and of the next segment in the same polyline. Cyclic
+  # polylines wrap around at their own last segment, as they may be padded. The
+  # ends of the others are their own neighbors.
+  # shape: (num_polylines, num_segments)
+  segment_index = tf.broadcast_to(
+      tf.range(num_segments)[tf.newaxis], [num_polylines, num_segments]
   )
-  # shape: (num_points, num_polylines, num_segments+1)
-  is_locally_convex = tf.greater(
-      geometry_utils.cross_product_2d(
-          start_to_end_padded[:, :, :-1], start_to_end_padded[:, :, 1:]
-      ),
-      0.0,
+  # shape: (num_polylines, 1)
+  last_segment_index = (
+      tf.reduce_sum(tf.cast(is_segment_valid, tf.int32), axis=-1, keepdims=True)
+      - 1
   )
-
-  # Get shifted versions of `n` and `is_segment_valid`. If the polyline is
-  # cyclic, the tensors are rolled, else they are padded with their edge value.
-  # shape: (num_points, num_polylines, num_segments)
-  n_prior = tf.concat(
-      [
-          tf.where(
-              is_polyline_cyclic[tf.newaxis, :, tf.newaxis],
-              n[:, :, -1:],
-              n[:, :, :1],
-          ),
-          n[:, :, :-1],
-      ],
-      axis=-1,
+  # shape: (num_polylines, num_segments)
+  prior_index = tf.where(
+      is_polyline_cyclic[:, tf.newaxis] & (segment_index == 0),
+      last_segment_index,
+      tf.maximum(segment_index - 1, 0),
   )
-  n_next = tf.concat(
-      [
-          n[:, :, 1:],
-          tf.where(
-              is_polyline_cyclic[tf.newaxis, :, tf.newaxis],
-              n[:, :, :1],
-              n[:, :, -1:],
-          ),
-      ],
-      axis=-1,
+  next_index = tf.where(
+      is_polyline_cyclic[:, tf.newaxis] & (segment_index == last_segment_index),
+      0,
+      tf.minimum(segment_index + 1, num_segments - 1),
   )
-  # shape: (num_polylines, num_segments)
-  is_prior_segment_valid = tf.concat(
-      [
-          tf.where(
-              is_polyline_cyclic[:, tf.newaxis],
-              is_segment_valid[:, -1:],
-              is_segment_valid[:, :1],
-          ),
-          is_segment_valid[:, :-1],
-      ],
-      axis=-1,
+  is_prior_segment_valid = tf.gather(
+      is_segment_valid, prior_index, axis=1, batch_dims=1
   )
-  is_next_segment_valid = tf.concat(
-      [
-          is_segment_valid[:, 1:],
-          tf.where(
-              is_polyline_cyclic[:, tf.newaxis],
-              is_segment_valid[:, :1],
-              is_segment_valid[:, -1:],
-          ),
-      ],
-      axis=-1,
+  is_next_segment_valid = tf.gather(
+      is_segment_valid, next_index, axis=1, batch_dims=1
+  )
+  # shape: (1, num_polylines, num_segments, 2)
+  start_to_end_xy = start_to_end[..., :2]
+  start_to_end_prior = tf.gather(
+      start_to_end_xy, prior_index[tf.newaxis], axis=2, batch_dims=2
+  )
+  start_to_end_next = tf.gather(
+      start_to_end_xy, next_index[tf.newaxis], axis=2, batch_dims=2
+  )
+  # shape: (1, num_polylines, num_segments)
+  is_start_convex = tf.greater(
+      geometry_utils.cross_product_2d(start_to_end_prior, start_to_end_xy), 0.0
+  )
+  is_end_convex = tf.greater(
+      geometry_utils.cross_product_2d(start_to_end_xy, start_to_end_next), 0.0
+  )
+  # shape: (num_points, num_polylines, num_segments)
+  index_shape = [num_points, num_polylines, num_segments]
+  n_prior = tf.gather(
+      n, tf.broadcast_to(prior_index, index_shape), axis=2, batch_dims=2
+  )
+  n_next = tf.gather(
+      n, tf.broadcast_to(next_index, index_shape), axis=2, batch_dims=2
   )
 
   # shape: (num_points, num_polylines, num_segments)
   sign_if_before = tf.where(
-      is_locally_convex[:, :, :-1],
-      tf.maximum(n, n_prior),
-      tf.minimum(n, n_prior),
+      is_start_convex, tf.maximum(n, n_prior), tf.minimum(n, n_prior)
   )
   sign_if_after = tf.where(
-      is_locally_convex[:, :, 1:], tf.maximum(n, n_next), tf.minimum(n, n_next)
+      is_end_convex, tf.maximum(n, n_next), tf.minimum(n, n_next)
   )
 
   # shape: (num_points, num_polylines, num_segments)
-- 
2.43.0


From ccce38ed7339000a338917b684e32491c835fa36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:32 +0000
Subject: [PATCH 48/71] fix: sim agents metrics with kernel density estimates

The estimate is in double precision, which could not be divided by the float
number of valid steps.
---
 .../wdl_limited/sim_agents_metrics/metrics.py                   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/waymo_open_dataset/wdl_limited/sim_agents_metrics/metrics.py b/src/waymo_open_dataset/wdl_limited/sim_agents_metrics/metrics.py
index edb641a..313cf42 100644
--- a/src/waymo_open_dataset/wdl_limited/sim_agents_metrics/metrics.py
+++ b/src/waymo_open_dataset/wdl_limited/sim_agents_metrics/metrics.py
@@ -358,7 +358,7 @@ def _reduce_average_with_validity(
     raise ValueError('Shapes of `tensor` and `validity` must be the same.'
                      f'(Actual: {tensor.shape}, {validity.shape}).')
   cond_sum = tf.reduce_sum(tf.where(validity, tensor, tf.zeros_like(tensor)))
-  valid_sum = tf.reduce_sum(tf.cast(validity, tf.float32))
+  valid_sum = tf.reduce_sum(tf.cast(validity, cond_sum.dtype))
   return cond_sum / valid_sum
 
 
-- 
2.43.0


From 5ece66d1c739ad071b553c1424b937d01f03a5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:06 +0000
Subject: [PATCH 49/71] fix: length and width of boxes converted from Box3d

The length is the size along x, the width the size along y; they were swapped.
---
 src/waymo_open_dataset/utils/keypoint_data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/waymo_open_dataset/utils/keypoint_data.py b/src/waymo_open_dataset/utils/keypoint_data.py
index e2aa765..8b58143 100644
--- a/src/waymo_open_dataset/utils/keypoint_data.py
+++ b/src/waymo_open_dataset/utils/keypoint_data.py
@@ -558,8 +558,8 @@ def label_box_from_box_proto(box: box_pb2.Box3d) -> label_pb2.Label.Box:
       center_x=box.center.x,
       center_y=box.center.y,
       center_z=box.center.z,
-      width=box.size.x,
-      length=box.size.y,
+      length=box.size.x,
+      width=box.size.y,
       height=box.size.z,
       heading=box.heading,
   )
-- 
2.43.0


From 55dde2e7330bcb977f1158415b575cd2b0f53a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:57 +0000
Subject: [PATCH 50/71] fix: nested v2 fields do not take values of fields
 around them

from_dict looked up the columns of a nested field among the columns of its
parent as well, so that a field of the same name overwrote it.
---
 src/waymo_open_dataset/v2/component.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/waymo_open_dataset/v2/component.py b/src/waymo_open_dataset/v2/component.py
index 40a4f57..fa751cc 100644
--- a/src/waymo_open_dataset/v2/component.py
+++ b/src/waymo_open_dataset/v2/component.py
@@ -314,8 +314,12 @@ def flatten_arrow_types(
 
 
 def _remove_prefix(prefix: str, columns: dict[str, _T]) -> dict[str, _T]:
-  """Removes specified prefix from all keys in the input dictionary."""
-  return {k.removeprefix(prefix): v for k, v in columns.items()}
+  """Selects keys with the specified prefix and removes it from them."""
+  return {
+      k.removeprefix(prefix): v
+      for k, v in columns.items()
+      if k.startswith(prefix)
+  }
 
 
 def unflatten_dict(class_type: type[_T], columns: dict[str, Any]) -> _T:
-- 
2.43.0


From 31ae5c7b46517bf99e7ccf3c284aa8375fd83c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:57 +0000
Subject: [PATCH 51/71] fix: merge with grouping by categorical keys adds no
 rows

groupby returns all combinations of the categories by default, which showed up
as rows that are in none of the tables in left, right and outer joins.
---
 src/waymo_open_dataset/v2/dataframe_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/waymo_open_dataset/v2/dataframe_utils.py b/src/waymo_open_dataset/v2/dataframe_utils.py
index 00b0bf7..fd8ec08 100644
--- a/src/waymo_open_dataset/v2/dataframe_utils.py
+++ b/src/waymo_open_dataset/v2/dataframe_utils.py
@@ -46,7 +46,7 @@ def _cast_keys(src, dst, keys):
 
 
 def _group_by(src, keys):
-  dst = src.groupby(list(keys)).agg(list).reset_index()
+  dst = src.groupby(list(keys), observed=True).agg(list).reset_index()
   # Fix key types automatically created from the MultiIndex
   _cast_keys(src, dst, keys)
   return dst
-- 
2.43.0


From 3fa5293769f453dba7b3009f93f76a41d02c7687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:02 +0000
Subject: [PATCH 52/71] fix: merge can group an empty table by several keys

pandas keeps the keys among the columns when it aggregates no rows, and
reset_index then refuses to insert them again.
---
 src/waymo_open_dataset/v2/dataframe_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/waymo_open_dataset/v2/dataframe_utils.py b/src/waymo_open_dataset/v2/dataframe_utils.py
index fd8ec08..8fb9113 100644
--- a/src/waymo_open_dataset/v2/dataframe_utils.py
+++ b/src/waymo_open_dataset/v2/dataframe_utils.py
@@ -46,7 +46,8 @@ def _cast_keys(src, dst, keys):
 
 
 def _group_by(src, keys):
-  dst = src.groupby(list(keys), observed=True).agg(list).reset_index()
+  values = [c for c in src.columns if c not in keys]
+  dst = src.groupby(list(keys), observed=True)[values].agg(list).reset_index()
   # Fix key types automatically created from the MultiIndex
   _cast_keys(src, dst, keys)
   return dst
-- 
2.43.0


From e268bc2ee9c242d76110d960d916b8367512eb44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:55 +0000
Subject: [PATCH 53/71] fix: delta_encoder.compress does not change the
 caller's range image

It wrote the quantized values into the array it was given, so that whoever
used the array after compressing it got multiples of the precision.
---
 src/waymo_open_dataset/utils/compression/delta_encoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/waymo_open_dataset/utils/compression/delta_encoder.py b/src/waymo_open_dataset/utils/compression/delta_encoder.py
index ab562c2..5dafba9 100644
--- a/src/waymo_open_dataset/utils/compression/delta_encoder.py
+++ b/src/waymo_open_dataset/utils/compression/delta_encoder.py
@@ -60,7 +60,7 @@ def compress(
             " positive numbers"
         )
 
-  range_image_round = range_image
+  range_image_round = np.array(range_image)
   for i in range(num_channel):
     range_image_round[..., i] = np.round(
         range_image[..., i] / quant_precision[i]
-- 
2.43.0


From 01c075ff6315ab966efa440fd5cfd99ade9d1c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:55 +0000
Subject: [PATCH 54/71] fix: get_ray_box_intersects gives negative distances
 for rays that miss the box

As documented. It returned the bounds of the emptied interval, which are
positive for a ray that passes beside the box.
---
 .../v2/perception/utils/object_asset_utils.py                  | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/waymo_open_dataset/v2/perception/utils/object_asset_utils.py b/src/waymo_open_dataset/v2/perception/utils/object_asset_utils.py
index f247ea3..f142848 100644
--- a/src/waymo_open_dataset/v2/perception/utils/object_asset_utils.py
+++ b/src/waymo_open_dataset/v2/perception/utils/object_asset_utils.py
@@ -93,6 +93,9 @@ def get_ray_box_intersects(
   tmax = np.minimum(tmax, tzmax)
 
   isect_flag[np.where(tmax <= 0)[0]] = False
+  # Rays which miss the box have no distances: make sure both are negative.
+  tmin = np.where(isect_flag, tmin, -np.abs(tmin))
+  tmax = np.where(isect_flag, tmax, -np.abs(tmax))
   return isect_flag, tmin, tmax
 
 
-- 
2.43.0


From 3185b30449be25e06c0e0550bc325bc6a0bcf151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:12 +0000
Subject: [PATCH 55/71] fix: global instance ids stay below the panoptic label
 divisor

The divisor was set to the largest global id rather than above it, and a
divisor of the caller was compared with the ids before they were remapped, so
that pixels of such instances got the next semantic class.
---
 src/waymo_open_dataset/utils/camera_segmentation_utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/waymo_open_dataset/utils/camera_segmentation_utils.py b/src/waymo_open_dataset/utils/camera_segmentation_utils.py
index 1860337..d3784a4 100644
--- a/src/waymo_open_dataset/utils/camera_segmentation_utils.py
+++ b/src/waymo_open_dataset/utils/camera_segmentation_utils.py
@@ -296,7 +296,8 @@ def decode_multi_frame_panoptic_labels_from_segmentation_labels(
           [max([global_id for _, global_id in mapping.items()])
            for _, mapping in global_id_mapping.items()])
       if new_panoptic_label_divisor is None:
-        panoptic_label_divisor = max(panoptic_label_divisor, max_instance_id)
+        panoptic_label_divisor = max(panoptic_label_divisor,
+                                     int(max_instance_id) + 1)
 
   panoptic_labels = []
   num_cameras_covered = []
@@ -325,7 +326,7 @@ def decode_multi_frame_panoptic_labels_from_segmentation_labels(
         instance_label_copy[instance_mask] = global_id_mapping[sequence][
             mapping.global_instance_id]
 
-    if np.amax(instance_label) >= panoptic_label_divisor:
+    if np.amax(instance_label_copy) >= panoptic_label_divisor:
       raise ValueError('A panoptic_label_divisor of '
                        f'{panoptic_label_divisor} is requested, but the '
                        'maximum instance id exceeds this.')
-- 
2.43.0


From 7f5fe0110bd782737fd7519465040e18552b8b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:12 +0000
Subject: [PATCH 56/71] fix: decode v2 camera segmentation labels without
 instances

The mapping of a component is an object and hence true even if it is empty,
and max() then failed for sequences without any instance.
---
 src/waymo_open_dataset/utils/camera_segmentation_utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/waymo_open_dataset/utils/camera_segmentation_utils.py b/src/waymo_open_dataset/utils/camera_segmentation_utils.py
index d3784a4..2fd5b2f 100644
--- a/src/waymo_open_dataset/utils/camera_segmentation_utils.py
+++ b/src/waymo_open_dataset/utils/camera_segmentation_utils.py
@@ -156,14 +156,14 @@ def _remap_global_ids(
   # Read the set of global ids for each sequence.
   global_instance_ids = {}
   for label in segmentation_proto_list:
-    if not label.instance_id_to_global_id_mapping:
+    frame_global_instance_ids = [
+        mapping.global_instance_id for mapping in _iterate_over_mapping(label)
+    ]
+    if not frame_global_instance_ids:
       continue
     if label.sequence_id not in global_instance_ids:
       global_instance_ids[label.sequence_id] = set()
 
-    frame_global_instance_ids = [
-        mapping.global_instance_id for mapping in _iterate_over_mapping(label)
-    ]
     global_instance_ids[label.sequence_id].update(frame_global_instance_ids)
 
   if not global_instance_ids:
-- 
2.43.0


From 18497a4bbe321c532c763c996c1bd7a3efef91d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:12 +0000
Subject: [PATCH 57/71] fix: panoptic_label_to_rgb clips the green channel

The sum of color and offset was stored as uint8 before it was clipped, so dark
classes became bright green and bright ones dark.
---
 src/waymo_open_dataset/utils/camera_segmentation_utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/waymo_open_dataset/utils/camera_segmentation_utils.py b/src/waymo_open_dataset/utils/camera_segmentation_utils.py
index 2fd5b2f..2d29c23 100644
--- a/src/waymo_open_dataset/utils/camera_segmentation_utils.py
+++ b/src/waymo_open_dataset/utils/camera_segmentation_utils.py
@@ -423,14 +423,16 @@ def panoptic_label_to_rgb(semantic_label: np.ndarray,
   if instance_label.shape[-1] == 1:
     instance_label = np.squeeze(instance_label, axis=-1)
 
-  color_image = semantic_label_to_rgb(semantic_label, color_map)
+  # Signed values, so that sums can be clipped rather than wrapped around.
+  color_image = semantic_label_to_rgb(semantic_label, color_map).astype(np.int32)
+  instance_label = np.asarray(instance_label).astype(np.int64)
   # Visualize the instance IDs in the green channel, by offsetting the semantic
   # color values by the instance_label scaled by a prime number.
   ins_noise = instance_label * prime_num % (max_delta * 2) - max_delta
   color_image[:, :, 1] = np.where(instance_label > 0,
                                   color_image[:, :, 1] + ins_noise,
                                   color_image[:, :, 1])
-  color_image = np.clip(color_image, 0, 255)
+  color_image = np.clip(color_image, 0, 255).astype(np.uint8)
   return color_image
 
 
-- 
2.43.0


From 8310592c12d20d0dc0b50029c78c99271d2d6aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:12 +0000
Subject: [PATCH 58/71] fix: load_frames_with_labels_from_dataset returns
 frames of one sequence

The first frame of the next sequence was added before the loop stopped.
---
 src/waymo_open_dataset/utils/camera_segmentation_utils.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/waymo_open_dataset/utils/camera_segmentation_utils.py b/src/waymo_open_dataset/utils/camera_segmentation_utils.py
index 2d29c23..483cc38 100644
--- a/src/waymo_open_dataset/utils/camera_segmentation_utils.py
+++ b/src/waymo_open_dataset/utils/camera_segmentation_utils.py
@@ -530,12 +530,14 @@ def load_frames_with_labels_from_dataset(
     frame.ParseFromString(bytearray(data.numpy()))
 
     if frame.images[0].camera_segmentation_label.panoptic_label:
-      frames_with_seg.append(frame)
       if sequence_id is None:
         sequence_id = frame.images[0].camera_segmentation_label.sequence_id
 
-      if (frame.images[0].camera_segmentation_label.sequence_id != sequence_id
-          or len(frames_with_seg) >= keep_first_k):
+      if frame.images[0].camera_segmentation_label.sequence_id != sequence_id:
+        break
+
+      frames_with_seg.append(frame)
+      if len(frames_with_seg) >= keep_first_k:
         break
 
   return frames_with_seg, sequence_id
-- 
2.43.0


From 8de98651eada4e9bcdd7b9eee69290e99d89fbba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:32 +0000
Subject: [PATCH 59/71] fix: global instance ids above 65535 are not truncated

They were stored in the uint16 array of the local ids, although the result is
uint32 and the offsets of several sequences add up.
---
 src/waymo_open_dataset/utils/camera_segmentation_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/waymo_open_dataset/utils/camera_segmentation_utils.py b/src/waymo_open_dataset/utils/camera_segmentation_utils.py
index 483cc38..0ecaa1d 100644
--- a/src/waymo_open_dataset/utils/camera_segmentation_utils.py
+++ b/src/waymo_open_dataset/utils/camera_segmentation_utils.py
@@ -311,7 +311,8 @@ def decode_multi_frame_panoptic_labels_from_segmentation_labels(
     camera_coverage = np.ones_like(instance_label, dtype=np.uint8)
     is_tracked_mask = np.zeros_like(instance_label, dtype=np.uint8)
 
-    instance_label_copy = np.copy(instance_label)
+    # Global ids may exceed the range of the uint16 image.
+    instance_label_copy = instance_label.astype(np.uint32)
     if remap_to_global:
       if isinstance(label, v2.CameraSegmentationLabelComponent):
         mapping_iter = _iterate_over_mapping(label)
-- 
2.43.0


From b3ae4e823b55ec96d70af79dce933cbf7ed124e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:28 +0000
Subject: [PATCH 60/71] fix: motion metrics accept scenarios with other agents
 than those predicted

The ground truth is [B, A, ...] where A is the number of agents of the
scenario, but it had to have as many agents as a joint prediction (N), so that
marginal predictions (N = 1) of any scenario failed an assertion.
---
 .../metrics/python/motion_metrics.py          | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/waymo_open_dataset/metrics/python/motion_metrics.py b/src/waymo_open_dataset/metrics/python/motion_metrics.py
index 33c6afb..92280b9 100644
--- a/src/waymo_open_dataset/metrics/python/motion_metrics.py
+++ b/src/waymo_open_dataset/metrics/python/motion_metrics.py
@@ -109,12 +109,11 @@ def get_motion_metric_ops(config,
   """
   (_, num_groups, top_k, num_agents, num_pred_steps,
    _) = prediction_trajectory.shape.as_list()
-  _, _, num_gt_steps, _ = ground_truth_trajectory.shape.as_list()
+  _, num_gt_agents, num_gt_steps, _ = ground_truth_trajectory.shape.as_list()
 
   assert prediction_trajectory.shape.as_list()[5] == 2
-  assert ground_truth_trajectory.shape.as_list()[1] == num_agents
   assert ground_truth_trajectory.shape.as_list()[3] == 7
-  assert ground_truth_is_valid.shape.as_list()[1] == num_agents
+  assert ground_truth_is_valid.shape.as_list()[1] == num_gt_agents
   assert ground_truth_is_valid.shape.as_list()[2] == num_gt_steps
   assert prediction_ground_truth_indices.shape.as_list()[1] == num_groups
   assert prediction_ground_truth_indices.shape.as_list()[2] == num_agents
@@ -122,14 +121,14 @@ def get_motion_metric_ops(config,
   assert prediction_ground_truth_indices_mask.shape.as_list()[2] == num_agents
   assert prediction_score.shape.as_list()[1] == num_groups
   assert prediction_score.shape.as_list()[2] == top_k
-  assert object_type.shape.as_list()[1] == num_agents
+  assert object_type.shape.as_list()[1] == num_gt_agents
 
   if object_id is None:
     batch_size = tf.shape(prediction_trajectory)[0]
     object_id = tf.tile(
-        tf.range(num_agents, dtype=tf.int64)[tf.newaxis], (batch_size, 1))
+        tf.range(num_gt_agents, dtype=tf.int64)[tf.newaxis], (batch_size, 1))
   else:
-    assert object_id.shape.as_list()[1] == num_agents
+    assert object_id.shape.as_list()[1] == num_gt_agents
 
   if scenario_id is None:
     batch_size = tf.shape(prediction_trajectory)[0]
@@ -137,10 +136,10 @@ def get_motion_metric_ops(config,
 
   eval_dict = {
       'ground_truth_trajectory':
-          (ground_truth_trajectory, [0, num_agents, num_gt_steps,
+          (ground_truth_trajectory, [0, num_gt_agents, num_gt_steps,
                                      7], tf.float32),
       'ground_truth_is_valid':
-          (ground_truth_is_valid, [0, num_agents, num_gt_steps], tf.bool),
+          (ground_truth_is_valid, [0, num_gt_agents, num_gt_steps], tf.bool),
       'prediction_trajectory':
           (prediction_trajectory,
            [0, num_groups, top_k, num_agents, num_pred_steps, 2], tf.float32),
@@ -152,8 +151,8 @@ def get_motion_metric_ops(config,
       'prediction_ground_truth_indices_mask':
           (prediction_ground_truth_indices_mask, [0, num_groups,
                                                   num_agents], tf.bool),
-      'object_type': (object_type, [0, num_agents], tf.int64),
-      'object_id': (object_id, [0, num_agents], tf.int64),
+      'object_type': (object_type, [0, num_gt_agents], tf.int64),
+      'object_id': (object_id, [0, num_gt_agents], tf.int64),
       'scenario_id': (scenario_id, [0], tf.string)
   }
 
-- 
2.43.0


From c1e96d15e88a01edf9ec633d8c70ebd486601240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:28 +0000
Subject: [PATCH 61/71] fix: motion metrics without scenario ids keep the
 updates apart

The default ids started at 0 in each update, and the op joins the rows with
the same id into one scenario.
---
 src/waymo_open_dataset/metrics/python/motion_metrics.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/waymo_open_dataset/metrics/python/motion_metrics.py b/src/waymo_open_dataset/metrics/python/motion_metrics.py
index 92280b9..ee0a1b2 100644
--- a/src/waymo_open_dataset/metrics/python/motion_metrics.py
+++ b/src/waymo_open_dataset/metrics/python/motion_metrics.py
@@ -130,10 +130,6 @@ def get_motion_metric_ops(config,
   else:
     assert object_id.shape.as_list()[1] == num_gt_agents
 
-  if scenario_id is None:
-    batch_size = tf.shape(prediction_trajectory)[0]
-    scenario_id = tf.strings.as_string(tf.range(batch_size))
-
   eval_dict = {
       'ground_truth_trajectory':
           (ground_truth_trajectory, [0, num_gt_agents, num_gt_steps,
@@ -153,8 +149,11 @@ def get_motion_metric_ops(config,
                                                   num_agents], tf.bool),
       'object_type': (object_type, [0, num_gt_agents], tf.int64),
       'object_id': (object_id, [0, num_gt_agents], tf.int64),
-      'scenario_id': (scenario_id, [0], tf.string)
   }
+  # Without scenario ids the op numbers all the scenarios seen so far. Ids that
+  # start over in each update would merge the scenarios of different updates.
+  if scenario_id is not None:
+    eval_dict['scenario_id'] = (scenario_id, [0], tf.string)
 
   variable_and_update_ops = {
       name: _update(name, update, init_shape, dtype)
-- 
2.43.0


From c91806104a5bd3dc2931ed9fc7f2dba937c372e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:28 +0000
Subject: [PATCH 62/71] fix: a refused update leaves the detection evaluator as
 it was

The predictions were added before the ground truth fields were checked.
---
 .../metrics/python/wod_detection_evaluator.py        | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/waymo_open_dataset/metrics/python/wod_detection_evaluator.py b/src/waymo_open_dataset/metrics/python/wod_detection_evaluator.py
index b114f7e..b659dfc 100644
--- a/src/waymo_open_dataset/metrics/python/wod_detection_evaluator.py
+++ b/src/waymo_open_dataset/metrics/python/wod_detection_evaluator.py
@@ -176,11 +176,17 @@ class WODDetectionEvaluator(object):
       ValueError: if the required prediction or groundtruth fields are not
         present in the incoming `predictions` or `groundtruths`.
     """
-    # Append predictions.
+    # Check all the fields before anything is added.
     for k in self._required_prediction_fields:
       if k not in predictions:
         raise ValueError(
             'Missing the required key `{}` in predictions!'.format(k))
+    for k in self._required_groundtruth_fields:
+      if k not in groundtruths:
+        raise ValueError(
+            'Missing the required key `{}` in groundtruths!'.format(k))
+
+    # Append predictions.
     for k, v in six.iteritems(predictions):
       if k not in self._predictions:
         self._predictions[k] = [v]
@@ -188,10 +194,6 @@ class WODDetectionEvaluator(object):
         self._predictions[k].append(v)
 
     # Append groundtruths.
-    for k in self._required_groundtruth_fields:
-      if k not in groundtruths:
-        raise ValueError(
-            'Missing the required key `{}` in groundtruths!'.format(k))
     for k, v in six.iteritems(groundtruths):
       if k not in self._groundtruths:
         self._groundtruths[k] = [v]
-- 
2.43.0


From 12b96e046544b1c80d1f1ddebf6c9871d70d298f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:28 +0000
Subject: [PATCH 63/71] fix: the speed is optional in each update of the
 detection evaluator

When only some of the updates had it, the op got fewer speeds than boxes, and
aborted the program.
---
 .../metrics/python/wod_detection_evaluator.py          | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/waymo_open_dataset/metrics/python/wod_detection_evaluator.py b/src/waymo_open_dataset/metrics/python/wod_detection_evaluator.py
index b659dfc..8640e11 100644
--- a/src/waymo_open_dataset/metrics/python/wod_detection_evaluator.py
+++ b/src/waymo_open_dataset/metrics/python/wod_detection_evaluator.py
@@ -122,9 +122,8 @@ class WODDetectionEvaluator(object):
         ground_truth_difficulty=tf.concat(
             self._groundtruths['ground_truth_difficulty'], axis=0),
         config=self._config.SerializeToString(),
-        ground_truth_speed=(tf.concat(
-            self._groundtruths['ground_truth_speed'],
-            axis=0) if 'ground_truth_speed' in self._groundtruths else None),
+        ground_truth_speed=tf.concat(
+            self._groundtruths['ground_truth_speed'], axis=0),
     )
 
     return metric_dict
@@ -194,6 +193,11 @@ class WODDetectionEvaluator(object):
         self._predictions[k].append(v)
 
     # Append groundtruths.
+    if 'ground_truth_speed' not in groundtruths:
+      # The speed may be missing in some of the updates only.
+      groundtruths = dict(groundtruths)
+      groundtruths['ground_truth_speed'] = tf.zeros(
+          (tf.shape(groundtruths['ground_truth_bbox'])[0], 2), tf.float32)
     for k, v in six.iteritems(groundtruths):
       if k not in self._groundtruths:
         self._groundtruths[k] = [v]
-- 
2.43.0


From 2c8ac6acdd24168ebfd0d1b2bd423cd1cf9ce5e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:11 +0000
Subject: [PATCH 64/71] fix: boxes with NaN are left out of the objects of
 latency results

create_submission drops them too, and no threshold does.
---
 .../latency/make_objects_file_from_latency_results.py         | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/waymo_open_dataset/latency/make_objects_file_from_latency_results.py b/src/waymo_open_dataset/latency/make_objects_file_from_latency_results.py
index e46a6d7..d401ccf 100644
--- a/src/waymo_open_dataset/latency/make_objects_file_from_latency_results.py
+++ b/src/waymo_open_dataset/latency/make_objects_file_from_latency_results.py
@@ -114,8 +114,8 @@ def make_object_list_from_subdir(np_dir,
 
     # Run some checks to avoid adding invalid objects. These are the same checks
     # used in metrics/tools/create_submission.cc
-    if (obj.score < 0.03 or obj.object.box.length < 0.01 or
-        obj.object.box.width < 0.01 or
+    if (obj.score < 0.03 or np.isnan(boxes[i]).any() or
+        obj.object.box.length < 0.01 or obj.object.box.width < 0.01 or
         (obj.object.box.HasField('height') and obj.object.box.height < 0.01)):
       print('Skipping invalid object', obj)
       continue
-- 
2.43.0


From 997cbdaa084b6674b455f4edbffffccaa7ea500d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:16 +0000
Subject: [PATCH 65/71] fix: solid double yellow road lines are plotted

---
 src/waymo_open_dataset/utils/plot_maps.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/waymo_open_dataset/utils/plot_maps.py b/src/waymo_open_dataset/utils/plot_maps.py
index cd18fd6..e939cfb 100644
--- a/src/waymo_open_dataset/utils/plot_maps.py
+++ b/src/waymo_open_dataset/utils/plot_maps.py
@@ -258,6 +258,9 @@ def plot_map_features(
       map_pb2.RoadLine.TYPE_SOLID_SINGLE_YELLOW: (
           FeatureType.SOLID_SINGLE_YELLOW_BOUNDARY
       ),
+      map_pb2.RoadLine.TYPE_SOLID_DOUBLE_YELLOW: (
+          FeatureType.SOLID_DOUBLE_YELLOW_BOUNDARY
+      ),
       map_pb2.RoadLine.TYPE_PASSING_DOUBLE_YELLOW: (
           FeatureType.PASSING_DOUBLE_YELLOW_BOUNDARY
       ),
-- 
2.43.0


From 2241c6521a0f6a6f9e35d0ef5fd560df9c632a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:16 +0000
Subject: [PATCH 66/71] fix: lanes are plotted with the line width of lanes

---
 src/waymo_open_dataset/utils/plot_maps.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/waymo_open_dataset/utils/plot_maps.py b/src/waymo_open_dataset/utils/plot_maps.py
index e939cfb..bab84a7 100644
--- a/src/waymo_open_dataset/utils/plot_maps.py
+++ b/src/waymo_open_dataset/utils/plot_maps.py
@@ -146,7 +146,11 @@ def plot_map_points(map_points: MapPoints) -> go._figure.Figure:
 
     # Plot stop signs as larger points in 3D.
     width = 1.5
-    if point_type == 1 or point_type == 2 or point_type == 3:
+    if point_type in (
+        FeatureType.FREEWAY_LANE,
+        FeatureType.SURFACE_STREET_LANE,
+        FeatureType.BIKE_LANE,
+    ):
       width = 2.5
     if point_type == 17:
       fig.add_trace(
-- 
2.43.0


From 00ff55722114d31be0725fda43857ddb2d1cc213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:16 +0000
Subject: [PATCH 67/71] fix: maps without points and polygons without points
 are plotted

---
 src/waymo_open_dataset/utils/plot_maps.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/waymo_open_dataset/utils/plot_maps.py b/src/waymo_open_dataset/utils/plot_maps.py
index bab84a7..c4a0b1b 100644
--- a/src/waymo_open_dataset/utils/plot_maps.py
+++ b/src/waymo_open_dataset/utils/plot_maps.py
@@ -128,8 +128,8 @@ def plot_map_points(map_points: MapPoints) -> go._figure.Figure:
   # Plot connecting lines for each individual roadgraph feature.
   start_index = 0
   end_index = 0
-  point_type = map_points.types[0]
-  feature_id = map_points.ids[0]
+  point_type = map_points.types[0] if map_points.types else None
+  feature_id = map_points.ids[0] if map_points.ids else None
 
   color_dict = {}
   for k in line_dict:
@@ -287,7 +287,7 @@ def plot_map_features(
     for point in points:
       map_points.append_point(point, feature_type, feature_id)
 
-    if is_polygon:
+    if is_polygon and points:
       map_points.append_point(points[0], feature_type, feature_id)
 
   # Create arrays of the map points to be plotted.
-- 
2.43.0


From 9dfc380e323fbdf9e0f58ad55af9bbe459d72107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:59 +0000
Subject: [PATCH 68/71] fix: examples with features of different kinds are not
 equal

---
 src/waymo_open_dataset/utils/example_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/waymo_open_dataset/utils/example_utils.py b/src/waymo_open_dataset/utils/example_utils.py
index 558cd2e..e66044c 100644
--- a/src/waymo_open_dataset/utils/example_utils.py
+++ b/src/waymo_open_dataset/utils/example_utils.py
@@ -38,6 +38,8 @@ def examples_equal(
       return False
     feature_b = example_b.features.feature[key]
     if feature_b.HasField('float_list'):
+      if not feature.HasField('float_list'):
+        return False
       num_elements = len(feature_b.float_list.value)
       if len(feature.float_list.value) != num_elements:
         return False
-- 
2.43.0


From 1dd15cc8f47419391dc79ad4feeb10aa12a20713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:59 +0000
Subject: [PATCH 69/71] fix: maps with empty road edges and road lines are
 drawn

---
 src/waymo_open_dataset/utils/sim_agents/visualizations.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/waymo_open_dataset/utils/sim_agents/visualizations.py b/src/waymo_open_dataset/utils/sim_agents/visualizations.py
index 3c30895..50f64ec 100644
--- a/src/waymo_open_dataset/utils/sim_agents/visualizations.py
+++ b/src/waymo_open_dataset/utils/sim_agents/visualizations.py
@@ -60,13 +60,15 @@ def add_map(axis: plt.Axes,
 
 def add_road_edge(axis: plt.Axes, road_edge: map_pb2.RoadEdge) -> None:
   """Adds a road edge to a pyplot axis."""
-  x, y = zip(*[(p.x, p.y) for p in road_edge.polyline])
+  x = [p.x for p in road_edge.polyline]
+  y = [p.y for p in road_edge.polyline]
   axis.plot(x, y, _ROAD_EDGE_COLOR, alpha=_ROAD_EDGE_ALPHA)
 
 
 def add_road_line(axis: plt.Axes, road_line: map_pb2.RoadLine) -> None:
   """Adds a road line to a pyplot axis."""
-  x, y = zip(*[(p.x, p.y) for p in road_line.polyline])
+  x = [p.x for p in road_line.polyline]
+  y = [p.y for p in road_line.polyline]
   axis.plot(x, y, _ROAD_LINE_COLOR, alpha=_ROAD_LINE_ALPHA)
 
 
-- 
2.43.0


From e879b101d28d0823c8e78c3380988818010a0b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:36 +0000
Subject: [PATCH 70/71] fix: refuse a joint scene that simulates one agent
 twice

---
 src/waymo_open_dataset/utils/sim_agents/submission_specs.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/waymo_open_dataset/utils/sim_agents/submission_specs.py b/src/waymo_open_dataset/utils/sim_agents/submission_specs.py
index 6469cf3..aad949f 100644
--- a/src/waymo_open_dataset/utils/sim_agents/submission_specs.py
+++ b/src/waymo_open_dataset/utils/sim_agents/submission_specs.py
@@ -209,6 +209,11 @@ def validate_joint_scene(
       raise ValueError(
           f'Object {simulated_trajectory.object_id} is not a sim agent.'
       )
+    if simulated_trajectory.object_id in simulated_ids:
+      raise ValueError(
+          f'Object {simulated_trajectory.object_id} is simulated more than'
+          ' once.'
+      )
     simulated_ids.append(simulated_trajectory.object_id)
   # Check that all of the required objects/agents are simulated.
   missing_agents = set(sim_agent_ids) - set(simulated_ids)
-- 
2.43.0


From 2558cb8bd492258652608be24d005cee61afa147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:32 +0000
Subject: [PATCH 71/71] fix: delta_encoder.compress does not wrap counts of the
 precision around in images of narrow types

---
 src/waymo_open_dataset/utils/compression/delta_encoder.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/waymo_open_dataset/utils/compression/delta_encoder.py b/src/waymo_open_dataset/utils/compression/delta_encoder.py
index 5dafba9..216203c 100644
--- a/src/waymo_open_dataset/utils/compression/delta_encoder.py
+++ b/src/waymo_open_dataset/utils/compression/delta_encoder.py
@@ -60,10 +60,11 @@ def compress(
             " positive numbers"
         )
 
-  range_image_round = np.array(range_image)
+  # Counts of the precision may not fit the type of the range image.
+  range_image_round = np.array(range_image, dtype=np.float64)
   for i in range(num_channel):
     range_image_round[..., i] = np.round(
-        range_image[..., i] / quant_precision[i]
+        range_image_round[..., i] / quant_precision[i]
     )
   range_image_round = range_image_round.astype(int)
   lidar_proto = compressed_lidar_pb2.DeltaEncodedData(
-- 
2.43.0

