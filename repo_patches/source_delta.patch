From 6cad55c66b302321d1c76cbdfd172a34ff000379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:12 +0000
Subject: [PATCH 01/28] fix: reject NaN knots in KnotVector constructors and
 IsValid

---
 src/Core/KnotVector.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Core/KnotVector.cpp b/src/Core/KnotVector.cpp
index 75cbc22..ade70cf 100644
--- a/src/Core/KnotVector.cpp
+++ b/src/Core/KnotVector.cpp
@@ -13,7 +13,7 @@ static bool ValidateKnots(const vector<Numeric>& knots)
     Numeric last_value = 0.0;
     for (Numeric val : knots)
     {
-        if (val < last_value) return false;
+        if (!(val >= last_value)) return false;
         last_value = val;
     }
     if (last_value != 1.0) return false;
@@ -90,7 +90,7 @@ bool KnotVector::IsValid() const
     if (m_Values.back() != 1.0) return false;
     for (int i = 1; i < (int)m_Values.size(); ++i)
     {
-        if (m_Values[i] < m_Values[i - 1]) return false;
+        if (!(m_Values[i] >= m_Values[i - 1])) return false;
     }
     return true;
 }
-- 
2.43.0


From 8477adfee995e768cd22233e90da76996986acf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:12 +0000
Subject: [PATCH 02/28] fix: IsClamped compares the number of leading 0s with
 the number of trailing 1s

---
 src/Core/KnotVector.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Core/KnotVector.cpp b/src/Core/KnotVector.cpp
index ade70cf..8ac366f 100644
--- a/src/Core/KnotVector.cpp
+++ b/src/Core/KnotVector.cpp
@@ -106,7 +106,8 @@ bool KnotVector::IsClamped() const
     {
         if (m_Values[count1] != 1.0) break;
     }
-    return count0 == count1;
+    // count1 stops at the last knot that is not 1
+    return count0 > 0 && count0 == (int)m_Values.size() - 1 - count1;
 }
 
 bool KnotVector::IsUniform() const
-- 
2.43.0


From 2409dda4d7df3849d963f0253cfd3201f71f48f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:12 +0000
Subject: [PATCH 03/28] fix: GetKnotPairs reports the first index of every
 knot, as it did for the last one only

---
 src/Core/KnotVector.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Core/KnotVector.cpp b/src/Core/KnotVector.cpp
index 8ac366f..af522ad 100644
--- a/src/Core/KnotVector.cpp
+++ b/src/Core/KnotVector.cpp
@@ -73,7 +73,7 @@ vector<KnotVector::KnotPair> KnotVector::GetKnotPairs() const
         Numeric val = m_Values[i];
         if (val != last_value)
         {
-            result.emplace_back(i, last_value, multiplicity);
+            result.emplace_back(i - multiplicity, last_value, multiplicity);
             last_value = val;
             multiplicity = 1;
         }
-- 
2.43.0


From 1cbede96edd2b292148cfacc78160d325d4b124e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:12 +0000
Subject: [PATCH 04/28] fix: BoundingBox::ExpandToInclude(point) must not
 discard the previous maximum

---
 include/libnurbs/Core/BoundingBox.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libnurbs/Core/BoundingBox.hpp b/include/libnurbs/Core/BoundingBox.hpp
index a42c058..0318ad1 100644
--- a/include/libnurbs/Core/BoundingBox.hpp
+++ b/include/libnurbs/Core/BoundingBox.hpp
@@ -23,7 +23,7 @@ namespace libnurbs
         void ExpandToInclude(const Vec3& point)
         {
             Min = Min.cwiseMin(point);
-            Max = Min.cwiseMax(point);
+            Max = Max.cwiseMax(point);
         }
 
         void ExpandToInclude(const BoundingBox& box)
-- 
2.43.0


From c78b94beb3172fd035d148fdfcf787ec438004a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:12 +0000
Subject: [PATCH 05/28] fix: Grid::InsertU with an element of the grid as
 value, and for element types with a moved-from state

---
 include/libnurbs/Core/Grid.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/libnurbs/Core/Grid.hpp b/include/libnurbs/Core/Grid.hpp
index 88b62ac..04c8fb2 100644
--- a/include/libnurbs/Core/Grid.hpp
+++ b/include/libnurbs/Core/Grid.hpp
@@ -109,6 +109,7 @@ namespace libnurbs
         void InsertU(int u_index, const T& default_value = T())
         {
             assert(u_index >= 0 && u_index < UCount);
+            const T value = default_value; // may refer to an element of this grid
             int float_idx = UCount * VCount - 1;
             UCount += 1;
             Values.resize(UCount * VCount);
@@ -125,9 +126,10 @@ namespace libnurbs
                 }
                 for (int i = insertion_idx - 1; i >= start_idx; --i)
                 {
+                    if (i == float_idx) break; // the rest of the first row is in place already
                     Values[i] = std::move(Values[float_idx--]);
                 }
-                Values[insertion_idx] = default_value;
+                Values[insertion_idx] = value;
             }
         }
     };
-- 
2.43.0


From 30f4f8e9ce70dd8f8f686e8050b63d02ccbae774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:29:58 +0000
Subject: [PATCH 06/28] fix: KnotRemoval reads and writes out of bounds when
 asked to remove a knot more often than it occurs

---
 src/Algorithm/KnotRemoval.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Algorithm/KnotRemoval.cpp b/src/Algorithm/KnotRemoval.cpp
index 97a6ac5..63bd39b 100644
--- a/src/Algorithm/KnotRemoval.cpp
+++ b/src/Algorithm/KnotRemoval.cpp
@@ -24,6 +24,10 @@ namespace libnurbs
                     std::vector<Vec4>& points,
                     int degree, Numeric knot_remove, int times, Numeric tolerance)
     {
+        // A knot cannot be removed more often than it occurs
+        times = std::min(times, knot_vector.GetMultiplicity(knot_remove));
+        if (times <= 0) return 0;
+
         // Convert to Homogeneous Coordinate
         for (auto& point: points)
         {
-- 
2.43.0


From d77feb30dd7e8a78191f61cc7f0ed28b97c071e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:29:58 +0000
Subject: [PATCH 07/28] fix: KnotRemoval leaves the control points in
 homogeneous coordinates when nothing is removed

---
 src/Algorithm/KnotRemoval.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/Algorithm/KnotRemoval.cpp b/src/Algorithm/KnotRemoval.cpp
index 63bd39b..6d76e8b 100644
--- a/src/Algorithm/KnotRemoval.cpp
+++ b/src/Algorithm/KnotRemoval.cpp
@@ -28,6 +28,8 @@ namespace libnurbs
         times = std::min(times, knot_vector.GetMultiplicity(knot_remove));
         if (times <= 0) return 0;
 
+        const std::vector<Vec4> points_origin = points;
+
         // Convert to Homogeneous Coordinate
         for (auto& point: points)
         {
@@ -100,7 +102,11 @@ namespace libnurbs
         }
 
         // no remove operation succeeded
-        if (t == 0) return t;
+        if (t == 0)
+        {
+            points = points_origin;
+            return t;
+        }
 
         int j = (2 * r - s - degree) / 2, i = j;
         for (int k = 1; k < t; k++)
-- 
2.43.0


From 3246885563d3ec37f171027ebf4be5f5d452d08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:29:58 +0000
Subject: [PATCH 08/28] fix: KnotRemoval drops `times` knots and control points
 although only t of them were removable

---
 src/Algorithm/KnotRemoval.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Algorithm/KnotRemoval.cpp b/src/Algorithm/KnotRemoval.cpp
index 6d76e8b..b037412 100644
--- a/src/Algorithm/KnotRemoval.cpp
+++ b/src/Algorithm/KnotRemoval.cpp
@@ -120,14 +120,14 @@ namespace libnurbs
         {
             points[j] = points[k];
         }
-        points.resize(points.size() - times);
+        points.resize(points.size() - t);
 
         /* Update knot vector */
         for (int k = r + 1; k <= m; k++)
         {
-            knots[k - times] = knots[k];
+            knots[k - t] = knots[k];
         }
-        knots.resize(knots.size() - times);
+        knots.resize(knots.size() - t);
 
         // Convert to Cartesian Coordinate
         for (auto& point: points)
-- 
2.43.0


From a45adacf4627df9283daa8b2299b94b87a51994c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:29:58 +0000
Subject: [PATCH 09/28] fix: KnotRemoval derives its tolerance from homogeneous
 instead of cartesian points

---
 src/Algorithm/KnotRemoval.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Algorithm/KnotRemoval.cpp b/src/Algorithm/KnotRemoval.cpp
index b037412..24519d4 100644
--- a/src/Algorithm/KnotRemoval.cpp
+++ b/src/Algorithm/KnotRemoval.cpp
@@ -40,7 +40,7 @@ namespace libnurbs
         int s = knot_vector.GetMultiplicity(knot_remove);
         int r = knot_vector.FindSpanIndex(degree, knot_remove);
 
-        double tol = CalcTOL(points, tolerance);
+        double tol = CalcTOL(points_origin, tolerance);
 
         int n = (int)points.size() - 1;
         int m = n + degree + 1;
-- 
2.43.0


From 93b5d2017db8fe569bd5614202969a2cddf406c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:29:58 +0000
Subject: [PATCH 10/28] fix: Surface::RemoveKnotU/V size the control grid by
 the requested instead of the removed number of knots

---
 src/Surface/Surface.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Surface/Surface.cpp b/src/Surface/Surface.cpp
index d34bb00..5016771 100644
--- a/src/Surface/Surface.cpp
+++ b/src/Surface/Surface.cpp
@@ -765,7 +765,6 @@ std::tuple<Surface, int> Surface::RemoveKnotU(Numeric knot_remove, int times, Nu
 {
     Surface result{*this};
     auto& points_ref = result.ControlPoints;
-    points_ref = {points_ref.UCount - times, points_ref.VCount};
     int t = 0;
     for (int it_v = 0; it_v < ControlPoints.VCount; ++it_v)
     {
@@ -773,6 +772,7 @@ std::tuple<Surface, int> Surface::RemoveKnotU(Numeric knot_remove, int times, Nu
         auto points = this->ControlPoints.GetV(it_v);
         int t_tmp = KnotRemoval(knots, points, result.DegreeU, knot_remove, times, tolerance);
         if (t_tmp == 0 || it_v != 0 && t != t_tmp) return {*this, 0};
+        if (it_v == 0) points_ref = {(int)points.size(), ControlPoints.VCount};
         if (it_v == ControlPoints.VCount - 1) result.KnotsU = knots;
         points_ref.SetV(it_v, points);
         t = t_tmp;
@@ -784,7 +784,6 @@ std::tuple<Surface, int> Surface::RemoveKnotV(Numeric knot_remove, int times, Nu
 {
     Surface result{*this};
     auto& points_ref = result.ControlPoints;
-    points_ref = {points_ref.UCount, points_ref.VCount - times};
     int t = 0;
     for (int it_u = 0; it_u < ControlPoints.UCount; ++it_u)
     {
@@ -792,6 +791,7 @@ std::tuple<Surface, int> Surface::RemoveKnotV(Numeric knot_remove, int times, Nu
         auto points = this->ControlPoints.GetU(it_u);
         int t_tmp = KnotRemoval(knots, points, result.DegreeV, knot_remove, times, tolerance);
         if (t_tmp == 0 || it_u != 0 && t != t_tmp) return {*this, 0};
+        if (it_u == 0) points_ref = {ControlPoints.UCount, (int)points.size()};
         if (it_u == ControlPoints.UCount - 1) result.KnotsV = knots;
         points_ref.SetU(it_u, points);
         t = t_tmp;
-- 
2.43.0


From 98c9452c2f1ba6487b422d4ee44ae993c13a56be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:30:49 +0000
Subject: [PATCH 11/28] fix: degree elevation overruns its buffers when several
 spans are elevated by two or more degrees

---
 src/Algorithm/DegreeAlgo.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Algorithm/DegreeAlgo.cpp b/src/Algorithm/DegreeAlgo.cpp
index 9d3d40a..58674f5 100644
--- a/src/Algorithm/DegreeAlgo.cpp
+++ b/src/Algorithm/DegreeAlgo.cpp
@@ -53,10 +53,11 @@ namespace libnurbs
         int cind = 1;
         double ua = knots[0];
 
-        std::vector<Vec4> Qw((n + times) * 2);
+        // every one of the at most n + 1 spans gains `times` control points
+        std::vector<Vec4> Qw((n + 1) * (times + 1));
         Qw[0] = points[0];
 
-        std::vector<Numeric> Uh((n + times) * 2 + ph + 1);
+        std::vector<Numeric> Uh((n + 1) * (times + 1) + ph + 1);
         std::fill(Uh.begin(), Uh.begin() + ph + 1, ua);
 
         std::vector<Vec4> bpts(points.begin(), points.begin() + degree + 1);
-- 
2.43.0


From ea78cfd4a629d9e84280a2618e9bb6d9bb4deee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:30:49 +0000
Subject: [PATCH 12/28] fix: degree elevation writes before its buffer at an
 interior knot of multiplicity degree + 1

---
 src/Algorithm/DegreeAlgo.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Algorithm/DegreeAlgo.cpp b/src/Algorithm/DegreeAlgo.cpp
index 58674f5..66f1964 100644
--- a/src/Algorithm/DegreeAlgo.cpp
+++ b/src/Algorithm/DegreeAlgo.cpp
@@ -79,6 +79,7 @@ namespace libnurbs
             r = degree - mul;
 
             int lbz = oldr > 0 ? (oldr + 2) / 2 : 1;
+            if (oldr < 0 && a != degree) lbz = 0; // discontinuity: nothing is shared with the previous segment
             int rbz = r > 0 ? ph - (r + 1) / 2 : ph;
 
             if (r > 0)
@@ -178,7 +179,7 @@ namespace libnurbs
                 {
                     bpts[j] = nextbpts[j];
                 }
-                for (int j = r; j <= degree; j++)
+                for (int j = std::max(r, 0); j <= degree; j++)
                 {
                     bpts[j] = points[b - degree + j];
                 }
-- 
2.43.0


From aba8b06702a626f758168505b1e780c183e1e6d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:30:49 +0000
Subject: [PATCH 13/28] fix: Surface::ElevateDegreeU/V size the control grid
 for a single span only

---
 src/Surface/Surface.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Surface/Surface.cpp b/src/Surface/Surface.cpp
index 5016771..15eb184 100644
--- a/src/Surface/Surface.cpp
+++ b/src/Surface/Surface.cpp
@@ -803,7 +803,6 @@ Surface Surface::ElevateDegreeU(int times) const
 {
     Surface result{*this};
     auto& points_ref = result.ControlPoints;
-    points_ref = {points_ref.UCount + times, points_ref.VCount};
     for (int it_v = 0; it_v < ControlPoints.VCount; ++it_v)
     {
         auto degree = result.DegreeU;
@@ -815,6 +814,7 @@ Surface Surface::ElevateDegreeU(int times) const
             result.KnotsU = knots;
             result.DegreeU = degree;
         }
+        if (it_v == 0) points_ref = {(int)points.size(), ControlPoints.VCount};
         points_ref.SetV(it_v, points);
     }
     return result;
@@ -824,7 +824,6 @@ Surface Surface::ElevateDegreeV(int times) const
 {
     Surface result{*this};
     auto& points_ref = result.ControlPoints;
-    points_ref = {points_ref.UCount, points_ref.VCount + times};
     for (int it_u = 0; it_u < ControlPoints.UCount; ++it_u)
     {
         auto degree = result.DegreeV;
@@ -836,6 +835,7 @@ Surface Surface::ElevateDegreeV(int times) const
             result.KnotsV = knots;
             result.DegreeV = degree;
         }
+        if (it_u == 0) points_ref = {ControlPoints.UCount, (int)points.size()};
         points_ref.SetU(it_u, points);
     }
     return result;
-- 
2.43.0


From ad1fa45c1043ef9b3f0e381baea4cd3fd93d3313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:30:49 +0000
Subject: [PATCH 14/28] fix: ExtractBezier mixes up the pieces when an interior
 knot has multiplicity degree + 1

---
 src/Curve/Curve.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/Curve/Curve.cpp b/src/Curve/Curve.cpp
index fd0b05c..01801b0 100644
--- a/src/Curve/Curve.cpp
+++ b/src/Curve/Curve.cpp
@@ -567,15 +567,18 @@ vector<Curve> Curve::ExtractBezier() const
     const auto& ctrl = bezier.ControlPoints;
     int p            = bezier.Degree;
 
-    for (int i = 0; i + p < ctrl.size(); i += p)
+    const auto& knots = bezier.Knots.Values();
+    for (int i = p; i < ctrl.size(); ++i)
     {
+        if (knots[i] == knots[i + 1])
+            continue;
         Curve seg;
         seg.Degree = p;
         seg.Knots  = KnotVector::Uniform(p, 2 * p + 2);
         seg.ControlPoints.resize(p + 1);
         for (int k = 0; k <= p; ++k)
         {
-            seg.ControlPoints[k] = ctrl[i + k];
+            seg.ControlPoints[k] = ctrl[i - p + k];
         }
         segments.emplace_back(std::move(seg));
     }
-- 
2.43.0


From e39b0ced8ed2e663e08f0a8c8c84209ae74c4a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:34:38 +0000
Subject: [PATCH 15/28] fix: Curve::GetBoundingBox subdivides rational curves
 in cartesian coordinates

---
 src/Curve/Curve.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Curve/Curve.cpp b/src/Curve/Curve.cpp
index 01801b0..475a883 100644
--- a/src/Curve/Curve.cpp
+++ b/src/Curve/Curve.cpp
@@ -592,7 +592,7 @@ BoundingBox Curve::GetBoundingBox(Numeric epsilon) const
 
     auto to3 = [&](const Vec4& v) -> Vec3
     {
-        return v.head<3>();
+        return v.head<3>() / v.w();
     };
 
     // if p <= 5, use static buffer
@@ -603,6 +603,9 @@ BoundingBox Curve::GetBoundingBox(Numeric epsilon) const
     BoundingBox globalBox;
     for (auto& seg : segments)
     {
+        // subdivision is affine in homogeneous coordinates only
+        for (auto& point : seg.ControlPoints)
+            point = ToHomo(point);
         stack<vector<Vec4>> stack;
         stack.push(std::move(seg.ControlPoints));
         while (!stack.empty())
-- 
2.43.0


From 397282e44fa1267922ddd6f116c1d87fdd425e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:34:39 +0000
Subject: [PATCH 16/28] fix: GeomRect ignores its right top point

---
 src/Geometry/GeomRect.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Geometry/GeomRect.cpp b/src/Geometry/GeomRect.cpp
index a173d38..8540bd9 100644
--- a/src/Geometry/GeomRect.cpp
+++ b/src/Geometry/GeomRect.cpp
@@ -20,12 +20,14 @@ namespace libnurbs
         surface.ControlPoints = {ControlPointCountU, ControlPointCountV};
         Vec3 k1 = (RightBottomPoint - LeftBottomPoint) / (ControlPointCountU - 1);
         Vec3 k2 = (LeftTopPoint - LeftBottomPoint) / (ControlPointCountV - 1);
+        // deviation from a parallelogram, so that all four corners are met
+        Vec3 k3 = (RightTopPoint - RightBottomPoint - LeftTopPoint + LeftBottomPoint) / ((ControlPointCountU - 1) * (ControlPointCountV - 1));
         for (int j = 0; j < ControlPointCountV; ++j)
         {
             for (int i = 0; i < ControlPointCountU; ++i)
             {
                 auto& point = surface.ControlPoints.Get(i, j);
-                point.head<3>() = LeftBottomPoint + i * k1 + j * k2;
+                point.head<3>() = LeftBottomPoint + i * k1 + j * k2 + (i * j) * k3;
                 point.w() = 1;
             }
         }
-- 
2.43.0


From 050fc8ca540edd42720734a3ab00bc2cb73918da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:34:39 +0000
Subject: [PATCH 17/28] fix: AlignParameterDomain confuses u and v when an edge
 of the surface is collapsed

---
 src/Surface/Surface.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/Surface/Surface.cpp b/src/Surface/Surface.cpp
index 15eb184..469df92 100644
--- a/src/Surface/Surface.cpp
+++ b/src/Surface/Surface.cpp
@@ -909,6 +909,7 @@ Surface Surface::AlignParameterDomain(AlignAxis u_axis, AlignAxis v_axis)
     struct VectorInfo
     {
         Vec3 vector;
+        bool is_u; // edge in u direction
         // 角度
         Numeric angle1; // 与 major_axis1 的夹角
         Numeric angle2; // 与 major_axis2 的夹角
@@ -937,22 +938,23 @@ Surface Surface::AlignParameterDomain(AlignAxis u_axis, AlignAxis v_axis)
     };
 
     // 计算非零矢量并计算其与主要方向的夹角
-    auto add_vector_info = [&](const Vec3& vec)
+    auto add_vector_info = [&](const Vec3& vec, bool is_u)
     {
         if (vec.norm() > 1e-6)
         {
             VectorInfo info;
             info.vector = vec;
+            info.is_u = is_u;
             info.angle1 = compute_angle(vec, major_axis1);
             info.angle2 = compute_angle(vec, major_axis2);
             vectors.push_back(info);
         }
     };
 
-    add_vector_info(S10 - S00);
-    add_vector_info(S01 - S00);
-    add_vector_info(S11 - S10);
-    add_vector_info(S11 - S01);
+    add_vector_info(S10 - S00, true);
+    add_vector_info(S01 - S00, false);
+    add_vector_info(S11 - S10, false);
+    add_vector_info(S11 - S01, true);
 
     if (vectors.empty())
     {
@@ -990,14 +992,14 @@ Surface Surface::AlignParameterDomain(AlignAxis u_axis, AlignAxis v_axis)
             if (info.angle1 < info.angle2)
             {
                 // 分配给 major_axis1
-                ++count_axis1;
+                ++(info.is_u ? count_axis1 : count_axis2);
                 // 累加在该轴上的增量
                 du += GetAxisValue(info.vector, major_axis1);
             }
             else
             {
                 // 分配给 major_axis2
-                ++count_axis2;
+                ++(info.is_u ? count_axis2 : count_axis1);
                 dv += GetAxisValue(info.vector, major_axis2);
             }
         }
-- 
2.43.0


From 4adfcd1ee81a3790745afa568b4256cb89229f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:42:22 +0000
Subject: [PATCH 18/28] fix: loading a text file into an object in use appends
 to its knots and control points

---
 src/Curve/Curve.cpp     | 1 +
 src/Surface/Surface.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/Curve/Curve.cpp b/src/Curve/Curve.cpp
index 475a883..a5436b2 100644
--- a/src/Curve/Curve.cpp
+++ b/src/Curve/Curve.cpp
@@ -88,6 +88,7 @@ Curve& Curve::LoadFromFile(std::istream& is)
     }
 
     // TXT mode
+    *this = Curve{};
     std::string line;
     std::string current_key;
     vector<std::string> content_lines;
diff --git a/src/Surface/Surface.cpp b/src/Surface/Surface.cpp
index 469df92..b7de3d7 100644
--- a/src/Surface/Surface.cpp
+++ b/src/Surface/Surface.cpp
@@ -93,6 +93,7 @@ Surface& Surface::LoadFromFile(std::istream& is)
     else
     {
         // Text mode
+        *this = Surface{};
         std::string line;
         std::string current_key;
         std::vector<std::string> content_lines;
-- 
2.43.0


From 6f9829f6f6657cee93db77652bb1a2879b70fbeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:42:22 +0000
Subject: [PATCH 19/28] fix: integer overflow of the grid size when loading a
 surface

---
 src/Surface/Surface.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Surface/Surface.cpp b/src/Surface/Surface.cpp
index b7de3d7..ba6e05a 100644
--- a/src/Surface/Surface.cpp
+++ b/src/Surface/Surface.cpp
@@ -83,9 +83,9 @@ Surface& Surface::LoadFromFile(std::istream& is)
         }
 
         // Read control points
-        int cp_count = ControlPoints.UCount * ControlPoints.VCount;
+        size_t cp_count = static_cast<size_t>(ControlPoints.UCount) * static_cast<size_t>(ControlPoints.VCount);
         ControlPoints.Values.resize(cp_count);
-        for (int i = 0; i < cp_count; ++i)
+        for (size_t i = 0; i < cp_count; ++i)
         {
             Utils::ReadVec4FromStream(ControlPoints.Values[i], is);
         }
@@ -187,8 +187,8 @@ Surface& Surface::LoadFromFile(std::istream& is)
                 }
 
                 // Read control points
-                int expected_cp_count = ControlPoints.UCount * ControlPoints.VCount;
-                if (static_cast<int>(lines.size() - 1) != expected_cp_count)
+                size_t expected_cp_count = static_cast<size_t>(ControlPoints.UCount) * static_cast<size_t>(ControlPoints.VCount);
+                if (lines.size() - 1 != expected_cp_count)
                 {
                     throw std::runtime_error("ControlPoints count does not match grid dimensions.");
                 }
-- 
2.43.0


From 625ecbe3e9c106744c626abf7ce7d0d51991d284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:42:22 +0000
Subject: [PATCH 20/28] fix: binary loaders allocate whatever count the file
 claims before reading any data

---
 src/Curve/Curve.cpp         |  6 ++++--
 src/Surface/Surface.cpp     |  6 ++++--
 src/Utils/Serialization.cpp | 17 +++++++++++++----
 3 files changed, 21 insertions(+), 8 deletions(-)

diff --git a/src/Curve/Curve.cpp b/src/Curve/Curve.cpp
index a5436b2..ce813ef 100644
--- a/src/Curve/Curve.cpp
+++ b/src/Curve/Curve.cpp
@@ -79,10 +79,12 @@ Curve& Curve::LoadFromFile(std::istream& is)
         {
             throw std::runtime_error("Failed to read ControlPoints count.");
         }
-        ControlPoints.resize(cp_count);
+        ControlPoints.clear();
         for (int i = 0; i < cp_count; ++i)
         {
-            Utils::ReadVec4FromStream(ControlPoints[i], is);
+            Vec4 vec;
+            Utils::ReadVec4FromStream(vec, is);
+            ControlPoints.push_back(vec);
         }
         return *this;
     }
diff --git a/src/Surface/Surface.cpp b/src/Surface/Surface.cpp
index ba6e05a..13d72d4 100644
--- a/src/Surface/Surface.cpp
+++ b/src/Surface/Surface.cpp
@@ -84,10 +84,12 @@ Surface& Surface::LoadFromFile(std::istream& is)
 
         // Read control points
         size_t cp_count = static_cast<size_t>(ControlPoints.UCount) * static_cast<size_t>(ControlPoints.VCount);
-        ControlPoints.Values.resize(cp_count);
+        ControlPoints.Values.clear();
         for (size_t i = 0; i < cp_count; ++i)
         {
-            Utils::ReadVec4FromStream(ControlPoints.Values[i], is);
+            Vec4 vec;
+            Utils::ReadVec4FromStream(vec, is);
+            ControlPoints.Values.push_back(vec);
         }
     }
     else
diff --git a/src/Utils/Serialization.cpp b/src/Utils/Serialization.cpp
index d0b31cf..b6beace 100644
--- a/src/Utils/Serialization.cpp
+++ b/src/Utils/Serialization.cpp
@@ -12,11 +12,20 @@ namespace libnurbs::Utils
         {
             throw std::runtime_error("Failed to read KnotVector count from binary stream.");
         }
-        knot_vector.Values().resize(count);
-        is.read(reinterpret_cast<char*>(knot_vector.Values().data()), sizeof(Numeric) * count);
-        if (is.fail())
+        // read piecewise: the count is not trustworthy before the data has been seen
+        constexpr int chunk = 4096;
+        auto& values = knot_vector.Values();
+        values.clear();
+        for (int done = 0; done < count;)
         {
-            throw std::runtime_error("Failed to read KnotVector data from binary stream.");
+            int n = std::min(chunk, count - done);
+            values.resize(done + n);
+            is.read(reinterpret_cast<char*>(values.data() + done), sizeof(Numeric) * n);
+            if (is.fail())
+            {
+                throw std::runtime_error("Failed to read KnotVector data from binary stream.");
+            }
+            done += n;
         }
     }
 
-- 
2.43.0


From b5444bfdc7c0cbd82a9a5cb2f2dec9d88f041c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:42:22 +0000
Subject: [PATCH 21/28] fix: SaveToFile(filename) misses write errors that
 surface when the file is flushed

---
 src/Curve/Curve.cpp     | 5 +++++
 src/Surface/Surface.cpp | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/Curve/Curve.cpp b/src/Curve/Curve.cpp
index ce813ef..3238888 100644
--- a/src/Curve/Curve.cpp
+++ b/src/Curve/Curve.cpp
@@ -221,6 +221,11 @@ void Curve::SaveToFile(const std::string& filename, bool binary_mode) const
     }
 
     SaveToFile(file, binary_mode);
+    file.close();
+    if (file.fail())
+    {
+        throw std::runtime_error("Failed to write file: " + filename);
+    }
 }
 
 void Curve::SaveToFile(std::ostream& os, bool binary_mode) const
diff --git a/src/Surface/Surface.cpp b/src/Surface/Surface.cpp
index 13d72d4..c999ba9 100644
--- a/src/Surface/Surface.cpp
+++ b/src/Surface/Surface.cpp
@@ -278,6 +278,11 @@ void Surface::SaveToFile(const std::string& filename, bool binary_mode) const
     }
 
     SaveToFile(file, binary_mode);
+    file.close();
+    if (file.fail())
+    {
+        throw std::runtime_error("Failed to write file: " + filename);
+    }
 }
 
 
-- 
2.43.0


From 7a3760a8a6067a4022953decc39be915470b48e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:42:22 +0000
Subject: [PATCH 22/28] fix: a read error in the middle of a text file is taken
 for its end

---
 src/Curve/Curve.cpp     | 5 +++++
 src/Surface/Surface.cpp | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/Curve/Curve.cpp b/src/Curve/Curve.cpp
index 3238888..57c7a50 100644
--- a/src/Curve/Curve.cpp
+++ b/src/Curve/Curve.cpp
@@ -195,6 +195,11 @@ Curve& Curve::LoadFromFile(std::istream& is)
         }
     }
 
+    if (is.bad())
+    {
+        throw std::runtime_error("Failed to read text data from stream.");
+    }
+
     // Process the last key
     if (!current_key.empty())
     {
diff --git a/src/Surface/Surface.cpp b/src/Surface/Surface.cpp
index c999ba9..37368a6 100644
--- a/src/Surface/Surface.cpp
+++ b/src/Surface/Surface.cpp
@@ -251,6 +251,11 @@ Surface& Surface::LoadFromFile(std::istream& is)
             }
         }
 
+        if (is.bad())
+        {
+            throw std::runtime_error("Failed to read text data from stream.");
+        }
+
         // Process the last key
         if (!current_key.empty())
         {
-- 
2.43.0


From 9b4d6463bf7d44e4d63ff25eb32275e89fdd9b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:42:22 +0000
Subject: [PATCH 23/28] fix: saving an empty surface in binary mode reads past
 its control points

---
 src/Surface/Surface.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/Surface/Surface.cpp b/src/Surface/Surface.cpp
index 37368a6..0cf613c 100644
--- a/src/Surface/Surface.cpp
+++ b/src/Surface/Surface.cpp
@@ -321,10 +321,9 @@ void Surface::SaveToFile(std::ostream& os, bool binary_mode) const
         }
 
         // Write control points
-        int cp_count = ControlPoints.UCount * ControlPoints.VCount;
-        for (int i = 0; i < cp_count; ++i)
+        for (const auto& cp : ControlPoints.Values)
         {
-            Utils::WriteVec4ToStream(ControlPoints.Values[i], os);
+            Utils::WriteVec4ToStream(cp, os);
         }
     }
     else
-- 
2.43.0


From c422daf13c114c172321d2d3a763c2239eaa48f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:44:01 +0000
Subject: [PATCH 24/28] fix: text files depend on the global locale and on the
 format flags of the stream

---
 src/Curve/Curve.cpp         | 10 +++++++++-
 src/Surface/Surface.cpp     | 13 ++++++++++++-
 src/Utils/Serialization.cpp |  1 +
 3 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/Curve/Curve.cpp b/src/Curve/Curve.cpp
index 57c7a50..963dc4f 100644
--- a/src/Curve/Curve.cpp
+++ b/src/Curve/Curve.cpp
@@ -104,6 +104,7 @@ Curve& Curve::LoadFromFile(std::istream& is)
                 throw std::runtime_error("Degree should have exactly one value line.");
             }
             std::stringstream ss(lines[0]);
+            ss.imbue(std::locale::classic());
             ss >> Degree;
             if (ss.fail())
             {
@@ -123,6 +124,7 @@ Curve& Curve::LoadFromFile(std::istream& is)
                     {
                         Numeric knot;
                         std::stringstream num_stream(token);
+                        num_stream.imbue(std::locale::classic());
                         num_stream >> knot;
                         if (num_stream.fail())
                         {
@@ -233,8 +235,13 @@ void Curve::SaveToFile(const std::string& filename, bool binary_mode) const
     }
 }
 
-void Curve::SaveToFile(std::ostream& os, bool binary_mode) const
+void Curve::SaveToFile(std::ostream& stream, bool binary_mode) const
 {
+    // Same destination, but neither the format flags nor the locale of the given stream
+    std::ostream os(stream.rdbuf());
+    os.imbue(std::locale::classic());
+    os.setstate(stream.rdstate());
+
     // Write header
     os << LIBNURBS_MAGIC << " " << (binary_mode ? "BIN" : "TXT") << " CURVE\n";
 
@@ -286,6 +293,7 @@ void Curve::SaveToFile(std::ostream& os, bool binary_mode) const
         }
     }
 
+    stream.setstate(os.rdstate());
     if (os.fail())
     {
         throw std::runtime_error("Failed to write data to stream.");
diff --git a/src/Surface/Surface.cpp b/src/Surface/Surface.cpp
index 0cf613c..c5a3e2a 100644
--- a/src/Surface/Surface.cpp
+++ b/src/Surface/Surface.cpp
@@ -109,6 +109,7 @@ Surface& Surface::LoadFromFile(std::istream& is)
                     throw std::runtime_error("DegreeU should have exactly one value line.");
                 }
                 std::stringstream ss(lines[0]);
+                ss.imbue(std::locale::classic());
                 ss >> DegreeU;
                 if (ss.fail())
                 {
@@ -122,6 +123,7 @@ Surface& Surface::LoadFromFile(std::istream& is)
                     throw std::runtime_error("DegreeV should have exactly one value line.");
                 }
                 std::stringstream ss(lines[0]);
+                ss.imbue(std::locale::classic());
                 ss >> DegreeV;
                 if (ss.fail())
                 {
@@ -141,6 +143,7 @@ Surface& Surface::LoadFromFile(std::istream& is)
                         {
                             Numeric knot;
                             std::stringstream num_stream(token);
+                            num_stream.imbue(std::locale::classic());
                             num_stream >> knot;
                             if (num_stream.fail())
                             {
@@ -164,6 +167,7 @@ Surface& Surface::LoadFromFile(std::istream& is)
                         {
                             Numeric knot;
                             std::stringstream num_stream(token);
+                            num_stream.imbue(std::locale::classic());
                             num_stream >> knot;
                             if (num_stream.fail())
                             {
@@ -182,6 +186,7 @@ Surface& Surface::LoadFromFile(std::istream& is)
                     throw std::runtime_error("ControlPoints section missing grid dimensions.");
                 }
                 std::stringstream ss_dims(lines[0]);
+                ss_dims.imbue(std::locale::classic());
                 ss_dims >> ControlPoints.UCount >> ControlPoints.VCount;
                 if (ss_dims.fail() || ControlPoints.UCount <= 0 || ControlPoints.VCount <= 0)
                 {
@@ -291,8 +296,13 @@ void Surface::SaveToFile(const std::string& filename, bool binary_mode) const
 }
 
 
-void Surface::SaveToFile(std::ostream& os, bool binary_mode) const
+void Surface::SaveToFile(std::ostream& stream, bool binary_mode) const
 {
+    // Same destination, but neither the format flags nor the locale of the given stream
+    std::ostream os(stream.rdbuf());
+    os.imbue(std::locale::classic());
+    os.setstate(stream.rdstate());
+
     // Write header
     os << LIBNURBS_MAGIC << " " << (binary_mode ? "BIN" : "TXT") << " SURFACE\n";
 
@@ -373,6 +383,7 @@ void Surface::SaveToFile(std::ostream& os, bool binary_mode) const
         }
     }
 
+    stream.setstate(os.rdstate());
     if (os.fail())
     {
         throw std::runtime_error("Failed to write data to stream.");
diff --git a/src/Utils/Serialization.cpp b/src/Utils/Serialization.cpp
index b6beace..6216ff1 100644
--- a/src/Utils/Serialization.cpp
+++ b/src/Utils/Serialization.cpp
@@ -41,6 +41,7 @@ namespace libnurbs::Utils
     void ReadVec4FromText(Vec4& vec, const std::string& text)
     {
         std::stringstream ss(text);
+        ss.imbue(std::locale::classic());
         ss >> vec.x() >> vec.y() >> vec.z() >> vec.w();
         if (ss.fail())
         {
-- 
2.43.0


From 0e603200c94a2e67066c9b4ea756ab0e2c9804d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:10:00 +0000
Subject: [PATCH 25/28] fix: mixed surface derivatives overflow int in the
 product of binomials

Orders such as (18, 18) multiply two binomial coefficients as int; the
product leaves the range of int, which is undefined behaviour.
---
 src/Surface/Surface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Surface/Surface.cpp b/src/Surface/Surface.cpp
index c5a3e2a..9f354ce 100644
--- a/src/Surface/Surface.cpp
+++ b/src/Surface/Surface.cpp
@@ -452,7 +452,7 @@ Grid<Vec3> Surface::EvaluateAll(Numeric u, Numeric v, int order_u, int order_v)
 
             for (int i = 1; i <= ou; ++i)
             {
-                const int bi = Binomial(ou, i);
+                const Numeric bi = Binomial(ou, i);
                 for (int j = 1; j <= ov; ++j)
                 {
                     Numeric Wders = homo_ders.Get(i, j).w();
-- 
2.43.0


From 7e13e6fa113e2b1c5afa90fd1949b29a99220416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:24:28 +0000
Subject: [PATCH 26/28] fix: knot removal reads before the control points when
 the value is slightly below the knot

The multiplicity query matches within 1e-6, but the span is searched with
the value as given: for 0.3 and a knot stored as 0.1 + 0.2 it is the span
before, and values next to 0 or 1 match the end knots.
---
 src/Algorithm/KnotRemoval.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/Algorithm/KnotRemoval.cpp b/src/Algorithm/KnotRemoval.cpp
index 24519d4..48d6626 100644
--- a/src/Algorithm/KnotRemoval.cpp
+++ b/src/Algorithm/KnotRemoval.cpp
@@ -1,5 +1,6 @@
 #include "libnurbs/Algorithm/KnotRemoval.hpp"
 #include "libnurbs/Core/KnotVector.hpp"
+#include "libnurbs/Algorithm/MathUtils.hpp"
 
 namespace
 {
@@ -24,6 +25,18 @@ namespace libnurbs
                     std::vector<Vec4>& points,
                     int degree, Numeric knot_remove, int times, Numeric tolerance)
     {
+        // The given value may differ from the knot within the tolerance of GetMultiplicity; the end knots stay
+        const auto& values = knot_vector.Values();
+        if (values.empty()) return 0;
+        Numeric nearest = values.front();
+        for (Numeric value : values)
+        {
+            if (value == values.front() || value == values.back()) continue;
+            if (std::abs(value - knot_remove) < std::abs(nearest - knot_remove)) nearest = value;
+        }
+        if (nearest == values.front() || !Approx(nearest, knot_remove)) return 0;
+        knot_remove = nearest;
+
         // A knot cannot be removed more often than it occurs
         times = std::min(times, knot_vector.GetMultiplicity(knot_remove));
         if (times <= 0) return 0;
-- 
2.43.0


From 56b8ab03e7c713d03365d17ec0afbc9f496684bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:32 +0000
Subject: [PATCH 27/28] fix: knot removal writes past its buffer for a knot of
 multiplicity degree + 1

---
 src/Algorithm/KnotRemoval.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Algorithm/KnotRemoval.cpp b/src/Algorithm/KnotRemoval.cpp
index 48d6626..fb3aa8a 100644
--- a/src/Algorithm/KnotRemoval.cpp
+++ b/src/Algorithm/KnotRemoval.cpp
@@ -61,7 +61,7 @@ namespace libnurbs
         int last = r - s;
         int first = r - degree;
 
-        std::vector<Vec4> temp(2 * degree + 1);
+        std::vector<Vec4> temp(2 * degree + 2);
         int t;
         for (t = 0; t < times; t++)
         {
-- 
2.43.0


From c57ed705a678d4bb59e14caeb12004fbee40cfcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:06 +0000
Subject: [PATCH 28/28] fix: binomial coefficients overflow int from n = 30, so
 degree elevation past 29 and derivatives past order 29 fail

---
 include/libnurbs/Algorithm/MathUtils.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/libnurbs/Algorithm/MathUtils.hpp b/include/libnurbs/Algorithm/MathUtils.hpp
index d27fa99..e7d3a5e 100644
--- a/include/libnurbs/Algorithm/MathUtils.hpp
+++ b/include/libnurbs/Algorithm/MathUtils.hpp
@@ -24,9 +24,9 @@ namespace libnurbs
         return (v1 - v2).cwiseAbs().maxCoeff() < epsilon;
     }
 
-    inline int Binomial(int n, int k)
+    inline double Binomial(int n, int k)
     {
-        int result = 1;
+        double result = 1; // int overflows for n >= 30
         if (k > n)
             return 0;
         for (int i = 1; i <= k; i++)
-- 
2.43.0

