From 585707dfd81ae78806fd92c43c9eff8e6f32d4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:34 +0000
Subject: [PATCH 001/192] fix: setting a camera's distortion overwrote its
 focal, aspect ratio and principal point

---
 opensfm/src/geometry/python/pybind.cc | 30 +++++++++++++++++++--------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/opensfm/src/geometry/python/pybind.cc b/opensfm/src/geometry/python/pybind.cc
index 1cc4999..f65d601 100644
--- a/opensfm/src/geometry/python/pybind.cc
+++ b/opensfm/src/geometry/python/pybind.cc
@@ -169,17 +169,29 @@ PYBIND11_MODULE(pygeometry, m) {
             return distortion;
           },
           [](geometry::Camera& p, const VecXd& distortion) {
-            const auto types = p.GetParametersTypes();
-            int count = 0;
-            for (int i = 0; i < types.size(); ++i) {
-              const int type_int = static_cast<int>(types[i]);
-              if (type_int >=
-                      static_cast<int>(geometry::Camera::Parameters::K1) &&
-                  type_int <=
-                      static_cast<int>(geometry::Camera::Parameters::S3)) {
-                p.SetParameterValue(types[i], distortion(count++));
+            std::vector<geometry::Camera::Parameters> disto_types;
+            for (const auto type : p.GetParametersTypes()) {
+              const int type_int = static_cast<int>(type);
+              const auto in_range = [type_int](
+                                        geometry::Camera::Parameters first,
+                                        geometry::Camera::Parameters last) {
+                return type_int >= static_cast<int>(first) &&
+                       type_int <= static_cast<int>(last);
+              };
+              if (in_range(geometry::Camera::Parameters::K1,
+                           geometry::Camera::Parameters::P2) ||
+                  in_range(geometry::Camera::Parameters::S0,
+                           geometry::Camera::Parameters::S3)) {
+                disto_types.push_back(type);
               }
             }
+            if (distortion.size() !=
+                static_cast<Eigen::Index>(disto_types.size())) {
+              throw std::runtime_error("Invalid distortion coefficients size");
+            }
+            for (int i = 0; i < distortion.size(); ++i) {
+              p.SetParameterValue(disto_types[i], distortion(i));
+            }
           })
       .def_property(
           "principal_point",
-- 
2.43.0


From 4eb6977ae68c1fc35372a6193591f9f17d47bb11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:34 +0000
Subject: [PATCH 002/192] fix: dual camera returned a NaN bearing at the image
 centre

---
 opensfm/src/geometry/camera_projections_functions.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/opensfm/src/geometry/camera_projections_functions.h b/opensfm/src/geometry/camera_projections_functions.h
index faf7902..736f61d 100644
--- a/opensfm/src/geometry/camera_projections_functions.h
+++ b/opensfm/src/geometry/camera_projections_functions.h
@@ -180,8 +180,12 @@ struct DualProjection : Functor<3, 1, 2> {
                                   foundation::ManualDiff<ThetaEval<T>, 1, 1>>(
             eval_function, 0, iterations);
 
-    const auto s = tan(theta_refined) / (p[Transition] * tan(theta_refined) +
-                                         (1.0 - p[Transition]) * theta_refined);
+    // Both projections tend to the identity as theta -> 0
+    T s{1.0};
+    if (theta_refined > T(1e-8)) {
+      s = tan(theta_refined) / (p[Transition] * tan(theta_refined) +
+                                (1.0 - p[Transition]) * theta_refined);
+    }
 
     const T x = s * point[0];
     const T y = s * point[1];
-- 
2.43.0


From 23c14ad95092be132e21ea350f4265c42e272360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:33 +0000
Subject: [PATCH 003/192] fix: wrong derivative in the Newton iterations that
 undistort radial models

---
 opensfm/src/geometry/camera_distortions_functions.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opensfm/src/geometry/camera_distortions_functions.h b/opensfm/src/geometry/camera_distortions_functions.h
index 8baa0a7..253f09d 100644
--- a/opensfm/src/geometry/camera_distortions_functions.h
+++ b/opensfm/src/geometry/camera_distortions_functions.h
@@ -95,7 +95,7 @@ struct Disto2 : Functor<2, 1, 2> {
 
   template <class T>
   static T DistortionDerivative(const T& r2, const T& k1) {
-    return T(1.0) + r2 * T(2.0) * k1;
+    return T(1.0) + r2 * T(3.0) * k1;
   }
 };
 
@@ -197,7 +197,7 @@ struct Disto24 : Functor<2, 2, 2> {
 
   template <class T>
   static T DistortionDerivative(const T& r2, const T& k1, const T& k2) {
-    return T(1.0) + r2 * T(2.0) * (k1 + T(2.0) * k2 * r2);
+    return T(1.0) + r2 * (T(3.0) * k1 + T(5.0) * k2 * r2);
   }
 };
 
-- 
2.43.0


From 25384d866aa8a850f0f3201acf1f7afdac0fc2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:33 +0000
Subject: [PATCH 004/192] fix: camera mapping was off by half a pixel from the
 documented pixel convention

---
 opensfm/src/geometry/src/camera.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/opensfm/src/geometry/src/camera.cc b/opensfm/src/geometry/src/camera.cc
index 5565f77..bdc7ce2 100644
--- a/opensfm/src/geometry/src/camera.cc
+++ b/opensfm/src/geometry/src/camera.cc
@@ -325,8 +325,9 @@ std::pair<MatXf, MatXf> ComputeCameraMapping(const Camera& from,
   MatXf u_from(height, width);
   MatXf v_from(height, width);
 
-  const auto half_width = width * 0.5;
-  const auto half_height = height * 0.5;
+  // Pixel coordinates have their origin at the center of the top-left pixel
+  const auto half_width = (width - 1) * 0.5;
+  const auto half_height = (height - 1) * 0.5;
 
   for (int v = 0; v < height; ++v) {
     for (int u = 0; u < width; ++u) {
-- 
2.43.0


From 1cfd78076f02a81fc1c1a9ee66c98f1a3b9928d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:32 +0000
Subject: [PATCH 005/192] fix: derivatives of a pose by its rotation had the
 wrong sign at the identity

---
 opensfm/src/geometry/transformations_functions.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/opensfm/src/geometry/transformations_functions.h b/opensfm/src/geometry/transformations_functions.h
index efb8153..9316463 100644
--- a/opensfm/src/geometry/transformations_functions.h
+++ b/opensfm/src/geometry/transformations_functions.h
@@ -219,7 +219,9 @@ struct PoseFunctor : Functor<3, 6, 3> {
 
     // Use Taylor approximation near zero angle : R = I + [angle_axis]x
     if (theta2 < T(std::numeric_limits<double>::epsilon())) {
-      Eigen::Map<Mat3<T>> mapped_rotation(rotation);
+      // Rotation storage is row-ordered, as in the general case below
+      Eigen::Map<Eigen::Matrix<T, 3, 3, Eigen::RowMajor>> mapped_rotation(
+          rotation);
       const Eigen::Map<const Vec3<T>> mapped_angle_axis(angle_axis);
       foundation::SkewMatrixT(mapped_angle_axis, &mapped_rotation);
       for (int i = 0; i < 3; ++i) {
-- 
2.43.0


From b147d4c791c8f3db71b3892df87a868f13ccba0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:21 +0000
Subject: [PATCH 006/192] fix: unprojection with a dual camera diverged at wide
 viewing angles

---
 .../geometry/camera_projections_functions.h   | 32 ++++++++-----------
 1 file changed, 14 insertions(+), 18 deletions(-)

diff --git a/opensfm/src/geometry/camera_projections_functions.h b/opensfm/src/geometry/camera_projections_functions.h
index 736f61d..f82e40c 100644
--- a/opensfm/src/geometry/camera_projections_functions.h
+++ b/opensfm/src/geometry/camera_projections_functions.h
@@ -172,19 +172,20 @@ struct DualProjection : Functor<3, 1, 2> {
 
   template <class T>
   static void Backward(const T* point, const T* p, T* bearing) {
-    // Perform a bit iterations for finding theta from r
+    // Find tan(theta) from r. The radius is a concave function of tan(theta)
+    // which is never above it, so the iterations converge from below.
     const T r = sqrt(SquaredNorm(point));
-    ThetaEval<T> eval_function{0, r, p[Transition]};
-    const auto theta_refined =
-        foundation::NewtonRaphson<ThetaEval<T>, 1, 1,
-                                  foundation::ManualDiff<ThetaEval<T>, 1, 1>>(
-            eval_function, 0, iterations);
+    TanThetaEval<T> eval_function{r, p[Transition]};
+    const auto tan_theta =
+        foundation::NewtonRaphson<TanThetaEval<T>, 1, 1,
+                                  foundation::ManualDiff<TanThetaEval<T>, 1, 1>>(
+            eval_function, r, iterations);
 
     // Both projections tend to the identity as theta -> 0
     T s{1.0};
-    if (theta_refined > T(1e-8)) {
-      s = tan(theta_refined) / (p[Transition] * tan(theta_refined) +
-                                (1.0 - p[Transition]) * theta_refined);
+    if (tan_theta > T(1e-8)) {
+      s = tan_theta / (p[Transition] * tan_theta +
+                       (1.0 - p[Transition]) * atan(tan_theta));
     }
 
     const T x = s * point[0];
@@ -195,21 +196,16 @@ struct DualProjection : Functor<3, 1, 2> {
     bearing[2] = inv_norm;
   }
 
-  static constexpr int iterations = 5;
+  static constexpr int iterations = 20;
   template <class T>
-  struct ThetaEval {
-    mutable int count;
+  struct TanThetaEval {
     const T& r;
     const T& transition;
     T operator()(const T& x) const {
-      return transition * tan(x) + (1.0 - transition) * x - r;
+      return transition * x + (1.0 - transition) * atan(x) - r;
     }
     T derivative(const T& x) const {
-      /* Here's some trick : use a half shorter step to prevent gross
-       * overfitting on tan(x) */
-      const T mult = count++ == 0 ? T(2.0) : T(1.0);
-      const auto secant = 1.0 / cos(x);
-      return mult * (transition * secant * secant - transition + 1);
+      return transition + (1.0 - transition) / (1.0 + x * x);
     }
   };
 };
-- 
2.43.0


From 0e5f5ef241d14b9671eaf67534e8e66fbdc55945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:31 +0000
Subject: [PATCH 007/192] fix: setting a pose's rotation left its origin and
 inverse transform stale

---
 opensfm/src/geometry/pose.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opensfm/src/geometry/pose.h b/opensfm/src/geometry/pose.h
index dd13af8..289b9a7 100644
--- a/opensfm/src/geometry/pose.h
+++ b/opensfm/src/geometry/pose.h
@@ -85,7 +85,7 @@ class Pose {
   virtual void SetWorldToCamRotation(const Vec3d& r_cw) {
     const Mat3d R_cw = geometry::VectorToRotationMatrix(r_cw);
     world_to_cam_.block<3, 3>(0, 0) = R_cw;
-    cam_to_world_.block<3, 3>(0, 0) = R_cw.transpose();
+    cam_to_world_ = world_to_cam_.inverse();
     UpdateMinRotations();
   }
 
@@ -96,7 +96,7 @@ class Pose {
 
   virtual void SetWorldToCamRotationMatrix(const Mat3d& R_cw) {
     world_to_cam_.block<3, 3>(0, 0) = R_cw;
-    cam_to_world_.block<3, 3>(0, 0) = R_cw.transpose();
+    cam_to_world_ = world_to_cam_.inverse();
     UpdateMinRotations();
   }
   virtual void SetFromCameraToWorld(const Vec3d& r_wc, const Vec3d& t_wc) {
-- 
2.43.0


From a6d65ca7e713ef22daf858e38c90a22e521897d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:29 +0000
Subject: [PATCH 008/192] fix: altitude from earth-centred coordinates was
 wrong near the poles

---
 opensfm/geo.py             | 3 +--
 opensfm/src/geo/src/geo.cc | 6 +++---
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/opensfm/geo.py b/opensfm/geo.py
index 3b8f126..17b64ea 100644
--- a/opensfm/geo.py
+++ b/opensfm/geo.py
@@ -72,8 +72,7 @@ def lla_from_ecef(
     lat = np.arctan2(
         z + eb**2 * b * np.sin(theta) ** 3, p - ea**2 * a * np.cos(theta) ** 3
     )
-    N = a / np.sqrt(1 - ea**2 * np.sin(lat) ** 2)
-    alt = p / np.cos(lat) - N
+    alt = p * np.cos(lat) + z * np.sin(lat) - a * np.sqrt(1 - ea**2 * np.sin(lat) ** 2)
     return np.degrees(lat), np.degrees(lon), alt
 
 
diff --git a/opensfm/src/geo/src/geo.cc b/opensfm/src/geo/src/geo.cc
index 5ed9487..68b1344 100644
--- a/opensfm/src/geo/src/geo.cc
+++ b/opensfm/src/geo/src/geo.cc
@@ -53,9 +53,9 @@ Vec3d LlaFromEcef(const double x, const double y, const double z) {
   const auto lat =
       std::atan2(z + eb * eb * WGS84_b * std::pow(std::sin(theta), 3),
                  p - ea * ea * WGS84_a * std::pow(std::cos(theta), 3));
-  const auto N =
-      WGS84_a / std::sqrt(1.0 - ea * ea * std::pow(std::sin(lat), 2));
-  const auto alt = p / std::cos(lat) - N;
+  const auto sin_lat = std::sin(lat);
+  const auto alt = p * std::cos(lat) + z * sin_lat -
+                   WGS84_a * std::sqrt(1.0 - ea * ea * sin_lat * sin_lat);
   return Vec3d(ToDegrees(lat), ToDegrees(lon), alt);
 }
 Vec3d LlaFromEcef(const Vec3d& ecef) {
-- 
2.43.0


From 4df647147623fb93a6e1b25f3c504447da0d074e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:18 +0000
Subject: [PATCH 009/192] fix: quaternion_from_matrix(isprecise=True) was wrong
 for rotations by more than a quarter turn or so

---
 opensfm/transformations.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/opensfm/transformations.py b/opensfm/transformations.py
index 2a2cb30..a47790a 100644
--- a/opensfm/transformations.py
+++ b/opensfm/transformations.py
@@ -1400,16 +1400,17 @@ def quaternion_from_matrix(matrix: NDArray, isprecise: bool = False) -> NDArray:
             q[2] = M[0, 2] - M[2, 0]
             q[1] = M[2, 1] - M[1, 2]
         else:
-            i, j, k = 1, 2, 3
+            i, j, k = 0, 1, 2
             if M[1, 1] > M[0, 0]:
-                i, j, k = 2, 3, 1
+                i, j, k = 1, 2, 0
             if M[2, 2] > M[i, i]:
-                i, j, k = 3, 1, 2
+                i, j, k = 2, 0, 1
             t = M[i, i] - (M[j, j] + M[k, k]) + M[3, 3]
             q[i] = t
             q[j] = M[i, j] + M[j, i]
             q[k] = M[k, i] + M[i, k]
             q[3] = M[k, j] - M[j, k]
+            q = q[[3, 0, 1, 2]]
         q *= 0.5 / math.sqrt(t * M[3, 3])
     else:
         m00 = M[0, 0]
-- 
2.43.0


From c2252b99bfee0031b521bf44f247a6542c06ce70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:18 +0000
Subject: [PATCH 010/192] fix: roll of an upside-down camera was folded, and
 phi was NaN when a rotation entry rounded above one

---
 opensfm/geometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opensfm/geometry.py b/opensfm/geometry.py
index 8daf507..c5ac3f8 100644
--- a/opensfm/geometry.py
+++ b/opensfm/geometry.py
@@ -46,7 +46,7 @@ def roll_from_rotation(rotation_matrix: NDArray) -> float:
     a = np.cross(Rt_ez, [0, 0, 1])
     a /= np.linalg.norm(a)
     b = np.cross(Rt_ex, a)
-    return np.arcsin(np.dot(Rt_ez, b))
+    return np.arctan2(np.dot(Rt_ez, b), np.dot(Rt_ex, a))
 
 
 def rotation_from_ptr_v2(pan: float, tilt: float, roll: float) -> NDArray:
@@ -104,7 +104,7 @@ def omega_from_rotation(rotation_matrix: NDArray) -> float:
 
 
 def phi_from_rotation(rotation_matrix: NDArray) -> float:
-    return np.arcsin(rotation_matrix[0, 2])
+    return np.arcsin(np.clip(rotation_matrix[0, 2], -1.0, 1.0))
 
 
 def kappa_from_rotation(rotation_matrix: NDArray) -> float:
-- 
2.43.0


From 9867e38b6aceb1a4e781d2054c879e1174e88f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:18 +0000
Subject: [PATCH 011/192] fix: images with a mirrored EXIF orientation could
 not be converted to upright coordinates

---
 opensfm/upright.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/opensfm/upright.py b/opensfm/upright.py
index 9fbc551..fcd4fc7 100644
--- a/opensfm/upright.py
+++ b/opensfm/upright.py
@@ -36,8 +36,12 @@ def opensfm_to_upright(
 
     R = {
         1: np.array([[1, 0, 0], [0, 1, 0], [0, 0, 1]]),
+        2: np.array([[-1, 0, 1], [0, 1, 0], [0, 0, 1]]),
         3: np.array([[-1, 0, 1], [0, -1, 1], [0, 0, 1]]),
+        4: np.array([[1, 0, 0], [0, -1, 1], [0, 0, 1]]),
+        5: np.array([[0, 1, 0], [1, 0, 0], [0, 0, 1]]),
         6: np.array([[0, -1, 1], [1, 0, 0], [0, 0, 1]]),
+        7: np.array([[0, -1, 1], [-1, 0, 1], [0, 0, 1]]),
         8: np.array([[0, 1, 0], [-1, 0, 1], [0, 0, 1]]),
     }
 
@@ -51,8 +55,8 @@ def opensfm_to_upright(
 
     p = np.dot(coords, T[:2, :2].T) + T[:2, 2].reshape(1, 2)
 
-    upright_width = width if orientation < 6 else height
-    upright_height = height if orientation < 6 else width
+    upright_width = width if orientation < 5 else height
+    upright_height = height if orientation < 5 else width
     if new_width is not None:
         upright_width = new_width
     if new_height is not None:
-- 
2.43.0


From 3f62524e2e590f0f265dc8f84a0f3a7462ad2c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:17 +0000
Subject: [PATCH 012/192] fix: errors while writing or reading a tracks file
 were ignored

---
 opensfm/src/map/src/tracks_manager.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/opensfm/src/map/src/tracks_manager.cc b/opensfm/src/map/src/tracks_manager.cc
index f3771e1..77eda13 100644
--- a/opensfm/src/map/src/tracks_manager.cc
+++ b/opensfm/src/map/src/tracks_manager.cc
@@ -419,7 +419,11 @@ TracksManager TracksManager::MergeTracksManager(
 TracksManager TracksManager::InstanciateFromFile(const std::string& filename) {
   std::ifstream istream(filename);
   if (istream.is_open()) {
-    return InstanciateFromStreamT(istream);
+    auto manager = InstanciateFromStreamT(istream);
+    if (istream.bad()) {
+      throw std::runtime_error("Error while reading tracks manager file");
+    }
+    return manager;
   } else {
     throw std::runtime_error("Can't read tracks manager file");
   }
@@ -429,6 +433,10 @@ void TracksManager::WriteToFile(const std::string& filename) const {
   std::ofstream ostream(filename);
   if (ostream.is_open()) {
     WriteToStreamCurrentVersion(ostream, *this);
+    ostream.close();
+    if (ostream.fail()) {
+      throw std::runtime_error("Error while writing tracks manager file");
+    }
   } else {
     throw std::runtime_error("Can't write tracks manager file");
   }
-- 
2.43.0


From def6dd4856d31b8e7d4a6a6eeec2272593f4e4df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:17 +0000
Subject: [PATCH 013/192] fix: tracks files with malformed numbers were read as
 other numbers

---
 opensfm/src/map/src/tracks_manager.cc | 65 ++++++++++++++++++---------
 1 file changed, 43 insertions(+), 22 deletions(-)

diff --git a/opensfm/src/map/src/tracks_manager.cc b/opensfm/src/map/src/tracks_manager.cc
index 77eda13..3c34e6d 100644
--- a/opensfm/src/map/src/tracks_manager.cc
+++ b/opensfm/src/map/src/tracks_manager.cc
@@ -67,6 +67,27 @@ void SeparateLineByTabs(const std::string& line,
   }
 }
 
+// The whole field has to be a number, not only its beginning
+void CheckFullyParsed(const std::string& elem, size_t parsed) {
+  if (elem.find_first_not_of(" \r", parsed) != std::string::npos) {
+    throw std::runtime_error("Encountered invalid number: " + elem);
+  }
+}
+
+int ParseInt(const std::string& elem) {
+  size_t parsed = 0;
+  const int value = std::stoi(elem, &parsed);
+  CheckFullyParsed(elem, parsed);
+  return value;
+}
+
+double ParseDouble(const std::string& elem) {
+  size_t parsed = 0;
+  const double value = std::stod(elem, &parsed);
+  CheckFullyParsed(elem, parsed);
+  return value;
+}
+
 template <class S>
 map::TracksManager InstanciateFromStreamV0(S& fstream) {
   map::TracksManager manager;
@@ -84,13 +105,13 @@ map::TracksManager InstanciateFromStreamV0(S& fstream) {
     }
     const map::ShotId image = elems[0];
     const map::TrackId trackID = elems[1];
-    const int featureID = std::stoi(elems[2]);
-    const double x = std::stod(elems[3]);
-    const double y = std::stod(elems[4]);
+    const int featureID = ParseInt(elems[2]);
+    const double x = ParseDouble(elems[3]);
+    const double y = ParseDouble(elems[4]);
     const double scale = 0.0;
-    const int r = std::stoi(elems[5]);
-    const int g = std::stoi(elems[6]);
-    const int b = std::stoi(elems[7]);
+    const int r = ParseInt(elems[5]);
+    const int g = ParseInt(elems[6]);
+    const int b = ParseInt(elems[7]);
     auto observation = InstanciateObservation(x, y, scale, featureID, r, g, b);
     manager.AddObservation(image, trackID, observation);
   }
@@ -114,13 +135,13 @@ map::TracksManager InstanciateFromStreamV1(S& fstream) {
     }
     const map::ShotId image = elems[0];
     const map::TrackId trackID = elems[1];
-    const int featureID = std::stoi(elems[2]);
-    const double x = std::stod(elems[3]);
-    const double y = std::stod(elems[4]);
-    const double scale = std::stod(elems[5]);
-    const int r = std::stoi(elems[6]);
-    const int g = std::stoi(elems[7]);
-    const int b = std::stoi(elems[8]);
+    const int featureID = ParseInt(elems[2]);
+    const double x = ParseDouble(elems[3]);
+    const double y = ParseDouble(elems[4]);
+    const double scale = ParseDouble(elems[5]);
+    const int r = ParseInt(elems[6]);
+    const int g = ParseInt(elems[7]);
+    const int b = ParseInt(elems[8]);
     auto observation = InstanciateObservation(x, y, scale, featureID, r, g, b);
     manager.AddObservation(image, trackID, observation);
   }
@@ -144,15 +165,15 @@ map::TracksManager InstanciateFromStreamV2(S& fstream) {
     }
     const map::ShotId image = elems[0];
     const map::TrackId trackID = elems[1];
-    const int featureID = std::stoi(elems[2]);
-    const double x = std::stod(elems[3]);
-    const double y = std::stod(elems[4]);
-    const double scale = std::stod(elems[5]);
-    const int r = std::stoi(elems[6]);
-    const int g = std::stoi(elems[7]);
-    const int b = std::stoi(elems[8]);
-    const int segm = std::stoi(elems[9]);
-    const int inst = std::stoi(elems[10]);
+    const int featureID = ParseInt(elems[2]);
+    const double x = ParseDouble(elems[3]);
+    const double y = ParseDouble(elems[4]);
+    const double scale = ParseDouble(elems[5]);
+    const int r = ParseInt(elems[6]);
+    const int g = ParseInt(elems[7]);
+    const int b = ParseInt(elems[8]);
+    const int segm = ParseInt(elems[9]);
+    const int inst = ParseInt(elems[10]);
     auto observation =
         InstanciateObservation(x, y, scale, featureID, r, g, b, segm, inst);
     manager.AddObservation(image, trackID, observation);
-- 
2.43.0


From 9e3eb27362e046e8a751aa332667c0d4db33f2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:27 +0000
Subject: [PATCH 014/192] fix: repeated observations and shared features left
 the two sides of a map inconsistent

---
 opensfm/src/map/python/pybind.cc |  7 ++++++-
 opensfm/src/map/shot.h           |  5 +++++
 opensfm/src/map/src/landmark.cc  |  2 +-
 opensfm/src/map/src/map.cc       | 13 +++++++------
 opensfm/src/map/src/shot.cc      | 14 ++++++++++++++
 5 files changed, 33 insertions(+), 8 deletions(-)

diff --git a/opensfm/src/map/python/pybind.cc b/opensfm/src/map/python/pybind.cc
index dd3c725..5b7b4b0 100644
--- a/opensfm/src/map/python/pybind.cc
+++ b/opensfm/src/map/python/pybind.cc
@@ -230,7 +230,12 @@ PYBIND11_MODULE(pymap, m) {
       .def("get_observation", &map::Shot::GetObservation,
            py::return_value_policy::reference_internal)
       .def("get_valid_landmarks", &map::Shot::ComputeValidLandmarks)
-      .def("remove_observation", &map::Shot::RemoveLandmarkObservation)
+      .def("remove_observation",
+           [](map::Shot& shot, const map::FeatureId id) {
+             auto* const lm = shot.GetObservationLandmark(id);
+             shot.RemoveLandmarkObservation(id);
+             lm->RemoveObservation(&shot);
+           })
       .def_property("metadata",
                     py::overload_cast<>(&map::Shot::GetShotMeasurements),
                     &map::Shot::SetShotMeasurements,
diff --git a/opensfm/src/map/shot.h b/opensfm/src/map/shot.h
index cae2337..f4327af 100644
--- a/opensfm/src/map/shot.h
+++ b/opensfm/src/map/shot.h
@@ -101,6 +101,10 @@ class Shot {
     return landmark_observations_.at(landmark_id_.at(id));
   }
   void CreateObservation(Landmark* lm, const Observation& obs) {
+    // The new observation replaces the one the shot may already have of lm
+    if (landmark_observations_.count(lm) > 0) {
+      RemoveLandmarkObservation(lm);
+    }
     landmark_observations_.insert(std::make_pair(lm, obs));
     landmark_id_.insert(std::make_pair(obs.feature_id, lm));
   }
@@ -116,6 +120,7 @@ class Shot {
     }
   }
   void RemoveLandmarkObservation(const FeatureId id);
+  void RemoveLandmarkObservation(Landmark* lm);
 
   // Metadata such as GPS, IMU, time
   const ShotMeasurements& GetShotMeasurements() const {
diff --git a/opensfm/src/map/src/landmark.cc b/opensfm/src/map/src/landmark.cc
index 4967e4f..684878c 100644
--- a/opensfm/src/map/src/landmark.cc
+++ b/opensfm/src/map/src/landmark.cc
@@ -26,7 +26,7 @@ FeatureId Landmark::GetObservationIdInShot(Shot* shot) const {
 }
 
 void Landmark::AddObservation(Shot* shot, const FeatureId& feat_id) {
-  observations_.emplace(shot, feat_id);
+  observations_[shot] = feat_id;
 }
 const std::map<Shot*, FeatureId, KeyCompare>& Landmark::GetObservations()
     const {
diff --git a/opensfm/src/map/src/map.cc b/opensfm/src/map/src/map.cc
index e260303..4657d95 100644
--- a/opensfm/src/map/src/map.cc
+++ b/opensfm/src/map/src/map.cc
@@ -78,7 +78,8 @@ void Map::AddObservation(const ShotId& shot_id, const LandmarkId& lm_id,
 void Map::RemoveObservation(const ShotId& shot_id, const LandmarkId& lm_id) {
   auto& shot = GetShot(shot_id);
   auto& lm = GetLandmark(lm_id);
-  shot.RemoveLandmarkObservation(lm.GetObservationIdInShot(&shot));
+  lm.GetObservationIdInShot(&shot);  // throws if there is no such observation
+  shot.RemoveLandmarkObservation(&lm);
   lm.RemoveObservation(&shot);
 }
 
@@ -133,7 +134,7 @@ void Map::ClearObservationsAndLandmarks() {
   for (auto& [lm_id, lm] : landmarks_) {
     auto& observations = lm.GetObservations();
     for (const auto& [shot, feat_id] : observations) {
-      shot->RemoveLandmarkObservation(feat_id);
+      shot->RemoveLandmarkObservation(&lm);
     }
     lm.ClearObservations();
   }
@@ -143,12 +144,12 @@ void Map::ClearObservationsAndLandmarks() {
 
 void Map::CleanLandmarksBelowMinObservations(const size_t min_observations) {
   for (auto it = landmarks_.begin(); it != landmarks_.end();) {
-    const auto& landmark = it->second;
+    auto& landmark = it->second;
     if (landmark.NumberOfObservations() < min_observations) {
       // 2) Remove all its observation
       const auto& observations = landmark.GetObservations();
       for (const auto& [shot, feat_id] : observations) {
-        shot->RemoveLandmarkObservation(feat_id);
+        shot->RemoveLandmarkObservation(&landmark);
       }
       // 3) Remove from landmarks
       it = landmarks_.erase(it);
@@ -304,12 +305,12 @@ void Map::RemoveLandmark(const LandmarkId& lm_id) {
   // 1) Find the landmark
   const auto& lm_it = landmarks_.find(lm_id);
   if (lm_it != landmarks_.end()) {
-    const auto& landmark = lm_it->second;
+    auto& landmark = lm_it->second;
 
     // 2) Remove all its observation
     const auto& observations = landmark.GetObservations();
     for (const auto& [shot, feat_id] : observations) {
-      shot->RemoveLandmarkObservation(feat_id);
+      shot->RemoveLandmarkObservation(&landmark);
     }
 
     // 3) Remove from landmarks
diff --git a/opensfm/src/map/src/shot.cc b/opensfm/src/map/src/shot.cc
index 99b779b..afa260d 100644
--- a/opensfm/src/map/src/shot.cc
+++ b/opensfm/src/map/src/shot.cc
@@ -133,6 +133,20 @@ void Shot::RemoveLandmarkObservation(const FeatureId id) {
   landmark_observations_.erase(lm);
 }
 
+void Shot::RemoveLandmarkObservation(Landmark* lm) {
+  const auto find_observation = landmark_observations_.find(lm);
+  if (find_observation == landmark_observations_.end()) {
+    return;
+  }
+  // The feature may be mapped to another landmark that shares it
+  const auto find_feature =
+      landmark_id_.find(find_observation->second.feature_id);
+  if (find_feature != landmark_id_.end() && find_feature->second == lm) {
+    landmark_id_.erase(find_feature);
+  }
+  landmark_observations_.erase(find_observation);
+}
+
 void Shot::SetPose(const geometry::Pose& pose) {
   if (!IsSingleShotRig(rig_instance_, rig_camera_)) {
     throw std::runtime_error(
-- 
2.43.0


From 0f7fdfa044f33059fd7da104b0ad7d6944a70b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:31 +0000
Subject: [PATCH 015/192] fix: adding an image to an existing rig instance
 dropped the instance's other images

---
 opensfm/reconstruction_helpers.py | 6 ++++--
 opensfm/src/map/src/map.cc        | 4 +++-
 opensfm/types.py                  | 9 +++++----
 3 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/opensfm/reconstruction_helpers.py b/opensfm/reconstruction_helpers.py
index 688adcf..c0ee934 100644
--- a/opensfm/reconstruction_helpers.py
+++ b/opensfm/reconstruction_helpers.py
@@ -116,12 +116,14 @@ def reconstruction_from_metadata(
             continue
         gps_pos = shot.metadata.gps_position.value
 
+        pose = pygeometry.Pose()
         rotation = rotation_from_shot_metadata(shot)
         if rotation is not None:
             # pyre-fixme[6]: opensfm pybind / numpy stubs gap — runtime ok.
-            shot.pose.set_rotation_matrix(rotation)
+            pose.set_rotation_matrix(rotation)
         # pyre-fixme[6]: opensfm pybind / numpy stubs gap — runtime ok.
-        shot.pose.set_origin(gps_pos)
+        pose.set_origin(gps_pos)
+        shot.rig_instance.update_instance_pose_with_shot(image, pose)
         shot.scale = 1.0
     return reconstruction
 
diff --git a/opensfm/src/map/src/map.cc b/opensfm/src/map/src/map.cc
index 4657d95..bae88ce 100644
--- a/opensfm/src/map/src/map.cc
+++ b/opensfm/src/map/src/map.cc
@@ -442,8 +442,10 @@ RigInstance& Map::UpdateRigInstance(const RigInstance& other_rig_instance) {
   if (it_exist == rig_instances_.end()) {
     throw std::runtime_error("Rig instance does not exists.");
   } else {
+    // The shots of the other instance may belong to another map : this one
+    // keeps its own
     auto& rig_instance = it_exist->second;
-    rig_instance = other_rig_instance;
+    rig_instance.SetPose(other_rig_instance.GetPose());
     return rig_instance;
   }
 }
diff --git a/opensfm/types.py b/opensfm/types.py
index b93ba91..8ca9b78 100644
--- a/opensfm/types.py
+++ b/opensfm/types.py
@@ -159,8 +159,8 @@ class Reconstruction:
             return self.rig_cameras.get(rig_camera.id)
 
     def add_rig_instance(self, rig_instance: pymap.RigInstance) -> pymap.RigInstance:
-        """Creates a copy of the passed rig instance
-        in the current reconstruction"""
+        """Creates a copy of the passed rig instance (without its shots)
+        in the current reconstruction, unless it already exists"""
 
         for camera in rig_instance.rig_cameras.values():
             if camera.id not in self.rig_cameras:
@@ -172,8 +172,9 @@ class Reconstruction:
         if in_any_instance:
             raise RuntimeError("Shots already exist in another instance")
 
-        if rig_instance.id not in self.rig_instances:
-            self.map.create_rig_instance(rig_instance.id)
+        if rig_instance.id in self.rig_instances:
+            return self.rig_instances.get(rig_instance.id)
+        self.map.create_rig_instance(rig_instance.id)
         return self.map.update_rig_instance(rig_instance)
 
     # Shot
-- 
2.43.0


From 850aad70dc4a572434b260d769ba58a7ff2bf70c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:31 +0000
Subject: [PATCH 016/192] fix: removing a rig instance left its shots referring
 to it

---
 opensfm/src/map/src/map.cc | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/opensfm/src/map/src/map.cc b/opensfm/src/map/src/map.cc
index bae88ce..cf6785c 100644
--- a/opensfm/src/map/src/map.cc
+++ b/opensfm/src/map/src/map.cc
@@ -433,7 +433,17 @@ void Map::RemoveRigInstance(const map::RigInstanceId& instance_id) {
   if (it_exist == rig_instances_.end()) {
     throw std::runtime_error("Rig instance does not exists.");
   } else {
-    rig_instances_.erase(instance_id);
+    // Its shots can't outlive it
+    const auto instance_shots = it_exist->second.GetShots();
+    for (const auto& [shot_id, shot] : instance_shots) {
+      const auto find_shot = shots_.find(shot_id);
+      if (find_shot != shots_.end() && &find_shot->second == shot) {
+        RemoveShot(shot_id);
+      } else {
+        RemovePanoShot(shot_id);
+      }
+    }
+    rig_instances_.erase(it_exist);
   }
 }
 
-- 
2.43.0


From b9eac946452e93e2a3837163ce71bf9ac4040713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:50 +0000
Subject: [PATCH 017/192] fix: a shot that could not be created left a rig
 camera and a rig instance behind

---
 opensfm/types.py | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/opensfm/types.py b/opensfm/types.py
index 8ca9b78..045de86 100644
--- a/opensfm/types.py
+++ b/opensfm/types.py
@@ -186,22 +186,27 @@ class Reconstruction:
         rig_camera_id: Optional[str] = None,
         rig_instance_id: Optional[str] = None,
     ) -> pymap.Shot:
+        if camera_id not in self.cameras:
+            raise RuntimeError(f"Camera {camera_id} doesn't exist in reconstruction")
+        if shot_id in self.shots:
+            raise RuntimeError(f"Shot {shot_id} already exists in reconstruction")
+
+        if rig_camera_id and rig_camera_id not in self.rig_cameras:
+            raise RuntimeError(
+                f"Rig Camera {rig_camera_id} doesn't exist in reconstruction"
+            )
+        if rig_instance_id and rig_instance_id not in self.rig_instances:
+            raise RuntimeError(
+                f"Rig Instance {rig_instance_id} doesn't exist in reconstruction"
+            )
+
         passed_rig_camera_id = rig_camera_id if rig_camera_id else camera_id
         passed_rig_instance_id = rig_instance_id if rig_instance_id else shot_id
 
         if (not rig_camera_id) and (camera_id not in self.rig_cameras):
             self.add_rig_camera(pymap.RigCamera(pygeometry.Pose(), camera_id))
-        if passed_rig_camera_id not in self.rig_cameras:
-            raise RuntimeError(
-                f"Rig Camera {passed_rig_camera_id} doesn't exist in reconstruction"
-            )
-
         if (not rig_instance_id) and (shot_id not in self.rig_instances):
             self.add_rig_instance(pymap.RigInstance(shot_id))
-        if passed_rig_instance_id not in self.rig_instances:
-            raise RuntimeError(
-                f"Rig Instance {passed_rig_instance_id} doesn't exist in reconstruction"
-            )
 
         if pose is None:
             created_shot = self.map.create_shot(
@@ -251,6 +256,11 @@ class Reconstruction:
     def create_pano_shot(
         self, shot_id: str, camera_id: str, pose: Optional[pygeometry.Pose] = None
     ) -> pymap.Shot:
+        if camera_id not in self.cameras:
+            raise RuntimeError(f"Camera {camera_id} doesn't exist in reconstruction")
+        if shot_id in self.pano_shots:
+            raise RuntimeError(f"Pano shot {shot_id} already exists in reconstruction")
+
         if pose is None:
             pose = pygeometry.Pose()
 
-- 
2.43.0


From b1d02da585e609edaf137a729b0e580df53ba691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:15 +0000
Subject: [PATCH 018/192] fix: a pano shot made outside of a reconstruction
 could not be added to it

---
 opensfm/src/map/src/map.cc | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/opensfm/src/map/src/map.cc b/opensfm/src/map/src/map.cc
index cf6785c..caf13a1 100644
--- a/opensfm/src/map/src/map.cc
+++ b/opensfm/src/map/src/map.cc
@@ -345,10 +345,6 @@ const geometry::Camera& Map::GetCamera(const CameraId& cam_id) const {
 void Map::UpdateShotWithRig(const Shot& other_shot, bool is_panoshot) {
   const auto rig_instance = other_shot.GetRigInstance();
   const auto& instance_id = rig_instance->id;
-  const bool has_instance = HasRigInstance(instance_id);
-  if (!has_instance) {
-    CreateRigInstance(instance_id);
-  }
   for (const auto& [shot_id, shot] : rig_instance->GetShots()) {
     const auto camera = shot->GetCamera();
     const auto& camera_id = camera->id;
@@ -364,6 +360,9 @@ void Map::UpdateShotWithRig(const Shot& other_shot, bool is_panoshot) {
 
     const bool has_shot = is_panoshot ? HasPanoShot(shot_id) : HasShot(shot_id);
     if (!has_shot) {
+      if (!HasRigInstance(instance_id)) {
+        CreateRigInstance(instance_id);
+      }
       Shot* new_shot = nullptr;
       if (is_panoshot) {
         new_shot = &CreatePanoShot(shot_id, camera_id, rig_camera_id,
@@ -375,8 +374,11 @@ void Map::UpdateShotWithRig(const Shot& other_shot, bool is_panoshot) {
       AssignShot(*new_shot, *shot);
     }
   }
-  GetRigInstance(instance_id)
-      .UpdateInstancePoseWithShot(other_shot.id_, *other_shot.GetPose());
+  // The shot may belong to another instance here
+  const auto& updated_shot =
+      is_panoshot ? GetPanoShot(other_shot.id_) : GetShot(other_shot.id_);
+  updated_shot.GetRigInstance()->UpdateInstancePoseWithShot(
+      other_shot.id_, *other_shot.GetPose());
 }
 
 Shot& Map::UpdateShot(const Shot& other_shot) {
-- 
2.43.0


From fca2066f68402b6ffaf5ade48a28c4553c90566c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:49 +0000
Subject: [PATCH 019/192] fix: copies of a reconstruction lost colors, errors,
 meshes, unused rigs and pano observations

---
 opensfm/src/map/src/map.cc | 37 ++++++++++++++++++++++++++++---------
 1 file changed, 28 insertions(+), 9 deletions(-)

diff --git a/opensfm/src/map/src/map.cc b/opensfm/src/map/src/map.cc
index caf13a1..75601c3 100644
--- a/opensfm/src/map/src/map.cc
+++ b/opensfm/src/map/src/map.cc
@@ -11,6 +11,7 @@
 
 namespace {
 void AssignShot(map::Shot& to, const map::Shot& from) {
+  to.mesh = from.mesh;
   to.merge_cc = from.merge_cc;
   to.scale = from.scale;
   to.SetShotMeasurements(from.GetShotMeasurements());
@@ -27,24 +28,36 @@ std::unique_ptr<Map> Map::DeepCopy(const Map& map, bool copy_observations) {
     map_copy->CreateCamera(camera);
   }
 
+  for (const auto& [rig_camera_id, rig_camera] : map.GetRigCameras()) {
+    map_copy->CreateRigCamera(rig_camera);
+  }
+  for (const auto& [instance_id, instance] : map.GetRigInstances()) {
+    map_copy->CreateRigInstance(instance_id).SetPose(instance.GetPose());
+  }
+
   const auto& shots = map.GetShots();
   for (const auto& [shot_id, shot] : shots) {
-    if (map_copy->HasShot(shot_id)) {
-      continue;
-    }
-    map_copy->UpdateShotWithRig(shot, false);
+    auto& shot_copy =
+        map_copy->CreateShot(shot_id, shot.GetCamera()->id,
+                             shot.GetRigCameraId(), shot.GetRigInstanceId());
+    AssignShot(shot_copy, shot);
   }
 
   const auto& pano_shots = map.GetPanoShots();
   for (const auto& [pano_shot_id, pano_shot] : pano_shots) {
-    if (map_copy->HasPanoShot(pano_shot_id)) {
-      continue;
-    }
-    map_copy->UpdateShotWithRig(pano_shot, true);
+    const auto instance_pose = pano_shot.GetRigInstance()->GetPose();
+    auto& pano_shot_copy = map_copy->CreatePanoShot(
+        pano_shot_id, pano_shot.GetCamera()->id, pano_shot.GetRigCameraId(),
+        pano_shot.GetRigInstanceId(), *pano_shot.GetPose());
+    pano_shot_copy.GetRigInstance()->SetPose(instance_pose);
+    AssignShot(pano_shot_copy, pano_shot);
   }
 
   for (const auto& [lm_id, landmark] : map.GetLandmarks()) {
-    map_copy->CreateLandmark(lm_id, landmark.GetGlobalPos());
+    auto& landmark_copy =
+        map_copy->CreateLandmark(lm_id, landmark.GetGlobalPos());
+    landmark_copy.SetColor(landmark.GetColor());
+    landmark_copy.SetReprojectionErrors(landmark.GetReprojectionErrors());
   }
 
   if (copy_observations) {
@@ -53,6 +66,12 @@ std::unique_ptr<Map> Map::DeepCopy(const Map& map, bool copy_observations) {
         map_copy->AddObservation(shot_id, landmark->id_, obs);
       }
     }
+    for (const auto& [pano_shot_id, pano_shot] : pano_shots) {
+      for (const auto& [landmark, obs] : pano_shot.GetLandmarkObservations()) {
+        map_copy->AddObservation(&map_copy->GetPanoShot(pano_shot_id),
+                                 &map_copy->GetLandmark(landmark->id_), obs);
+      }
+    }
   }
 
   for (const auto& [cam_id, bias] : map.GetBiases()) {
-- 
2.43.0


From bbe36f94bb0c99921066b406ea4f83b69042a09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:29 +0000
Subject: [PATCH 020/192] fix: orientation angles and attributes of shots were
 not saved with a reconstruction

---
 opensfm/io.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/opensfm/io.py b/opensfm/io.py
index e44be61..9c85202 100644
--- a/opensfm/io.py
+++ b/opensfm/io.py
@@ -573,6 +573,17 @@ def pymap_metadata_to_json(metadata: pymap.ShotMeasurements) -> Dict[str, Any]:
     if metadata.sequence_key.has_value:
         # pyrefly: ignore [unsupported-operation]
         obj["skey"] = metadata.sequence_key.value
+    opk = {}
+    if metadata.opk_angles.has_value:
+        # pyrefly: ignore [unsupported-operation]
+        opk["omega"], opk["phi"], opk["kappa"] = metadata.opk_angles.value
+    if metadata.opk_accuracy.has_value:
+        # pyrefly: ignore [unsupported-operation]
+        opk["accuracy"] = metadata.opk_accuracy.value
+    if opk:
+        obj["opk"] = opk
+    if metadata.attributes:
+        obj["attributes"] = dict(metadata.attributes)
     return obj
 
 
@@ -596,6 +607,17 @@ def json_to_pymap_metadata(obj: Dict[str, Any]) -> pymap.ShotMeasurements:
             metadata.compass_angle.value = compass["angle"]
         if "accuracy" in compass:
             metadata.compass_accuracy.value = compass["accuracy"]
+    if obj.get("opk") is not None:
+        opk = obj.get("opk")
+        if "omega" in opk:
+            # pyre-fixme[6]: opensfm pybind / numpy stubs gap — runtime ok.
+            metadata.opk_angles.value = np.array(
+                [opk["omega"], opk["phi"], opk["kappa"]]
+            )
+        if "accuracy" in opk:
+            metadata.opk_accuracy.value = opk["accuracy"]
+    if obj.get("attributes") is not None:
+        metadata.attributes = obj.get("attributes")
     return metadata
 
 
-- 
2.43.0


From fa8ce6182298ade8f5d7a3f6538dbc3e1a403798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:02 +0000
Subject: [PATCH 021/192] fix: loading the clusters of a split dataset ran code
 pickled in their file

---
 opensfm/large/metadataset.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/opensfm/large/metadataset.py b/opensfm/large/metadataset.py
index 81da9f6..c950ec8 100644
--- a/opensfm/large/metadataset.py
+++ b/opensfm/large/metadataset.py
@@ -146,13 +146,21 @@ class MetaDataSet:
         labels = c["labels"].ravel()
         return images, c["positions"], labels, c["centers"]
 
-    def save_clusters_with_neighbors(self, clusters: List[List[int]]) -> None:
+    def save_clusters_with_neighbors(self, clusters: List[List[str]]) -> None:
         filepath = self._clusters_with_neighbors_path()
-        np.savez_compressed(filepath, clusters=np.array(clusters, dtype=object))
+        # Clusters have different sizes: store them one after the other, as
+        # an array of arrays would need pickle, which isn't safe to load.
+        np.savez_compressed(
+            filepath,
+            images=np.array([image for c in clusters for image in c], dtype=str),
+            sizes=np.array([len(c) for c in clusters], dtype=int),
+        )
 
-    def load_clusters_with_neighbors(self) -> NDArray:
-        c = np.load(self._clusters_with_neighbors_path(), allow_pickle=True)
-        return c["clusters"]
+    def load_clusters_with_neighbors(self) -> List[List[str]]:
+        c = np.load(self._clusters_with_neighbors_path())
+        images = c["images"].tolist()
+        ends = np.cumsum(c["sizes"], dtype=int)
+        return [images[end - size : end] for size, end in zip(c["sizes"], ends)]
 
     def save_cluster_with_neighbors_geojson(self, geojson: Dict[str, Any]) -> None:
         filepath = self._clusters_with_neighbors_geojson_path()
-- 
2.43.0


From 0abaa8084ee26a7eb0c3eea9ea064252af575755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:02 +0000
Subject: [PATCH 022/192] fix: text files of a dataset were written and read in
 the encoding of the locale

---
 opensfm/io.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/opensfm/io.py b/opensfm/io.py
index 9c85202..84d8f71 100644
--- a/opensfm/io.py
+++ b/opensfm/io.py
@@ -1492,15 +1492,15 @@ class IoFilesystemDefault(IoFilesystemBase):
 
     @classmethod
     def open_wt(cls, path: str) -> TextIO:
-        return open(path, "wt")
+        return open(path, "wt", encoding="utf-8")
 
     @classmethod
     def open_rt(cls, path: str) -> TextIO:
-        return open(path, "rt")
+        return open(path, "rt", encoding="utf-8")
 
     @classmethod
     def open_at(cls, path: str) -> TextIO:
-        return open(path, "at")
+        return open(path, "at", encoding="utf-8")
 
     @classmethod
     def mkdir_p(cls, path: str) -> None:
-- 
2.43.0


From 3360bb942fc1c9e518bba8b126cfa144440b046c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:02 +0000
Subject: [PATCH 023/192] fix: writing an image swapped the red and blue
 channels of the caller's array

---
 opensfm/io.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/opensfm/io.py b/opensfm/io.py
index 84d8f71..6f87d3c 100644
--- a/opensfm/io.py
+++ b/opensfm/io.py
@@ -1350,6 +1350,7 @@ def imwrite_from_fileobject(
 ) -> None:
     """Write an image to a file object"""
     if len(image.shape) == 3:
+        image = image.copy()
         image[:, :, :3] = image[:, :, [2, 1, 0]]  # Turn RGB to BGR (or RGBA to BGRA)
     _, im_buffer = cv2.imencode(ext, image)
     fwb.write(im_buffer)
-- 
2.43.0


From 645258a7b46050f79f35b1ee764626b2258791da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:02 +0000
Subject: [PATCH 024/192] fix: words beyond 65535 were stored as other words

---
 opensfm/dataset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opensfm/dataset.py b/opensfm/dataset.py
index a0b5248..320e822 100644
--- a/opensfm/dataset.py
+++ b/opensfm/dataset.py
@@ -334,8 +334,9 @@ class DataSet(DataSetBase):
             return s["words"].astype(np.int32)
 
     def save_words(self, image: str, words: NDArray) -> None:
+        self.io_handler.mkdir_p(self._feature_path())
         with self.io_handler.open_wb(self._words_file(image)) as f:
-            np.savez_compressed(f, words=words.astype(np.uint16))
+            np.savez_compressed(f, words=words.astype(np.int32))
 
     def _matches_path(self) -> str:
         """Return path of matches directory"""
-- 
2.43.0


From 6ac6c90bc2c4b2b0ecf61ee6d8ed97b388891dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:02 +0000
Subject: [PATCH 025/192] fix: features saved next to a legacy file were
 ignored when loading

---
 opensfm/dataset.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/opensfm/dataset.py b/opensfm/dataset.py
index 320e822..b1cd944 100644
--- a/opensfm/dataset.py
+++ b/opensfm/dataset.py
@@ -311,11 +311,11 @@ class DataSet(DataSetBase):
         ) or self.io_handler.isfile(self._feature_file_legacy(image))
 
     def load_features(self, image: str) -> Optional[features.FeaturesData]:
-        features_filepath = (
-            self._feature_file_legacy(image)
-            if self.io_handler.isfile(self._feature_file_legacy(image))
-            else self._feature_file(image)
-        )
+        features_filepath = self._feature_file(image)
+        if not self.io_handler.isfile(
+            features_filepath
+        ) and self.io_handler.isfile(self._feature_file_legacy(image)):
+            features_filepath = self._feature_file_legacy(image)
         with self.io_handler.open_rb(features_filepath) as f:
             return features.FeaturesData.from_file(f, self.config)
 
-- 
2.43.0


From 0c8b0daa255d96f70d4cfd08bba6a07048a36e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:02 +0000
Subject: [PATCH 026/192] fix: hahog features were loaded as integers when the
 feature type is in lower case

---
 opensfm/features.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/opensfm/features.py b/opensfm/features.py
index cacfa1f..ec3c723 100644
--- a/opensfm/features.py
+++ b/opensfm/features.py
@@ -165,7 +165,7 @@ class FeaturesData:
 
         Scale (desc[2]) set to reprojection_error_sd by default (legacy behaviour)
         """
-        feature_type = config["feature_type"]
+        feature_type = config["feature_type"].upper()
         if feature_type == "HAHOG" and config["hahog_normalize_to_uchar"]:
             descriptors = data["descriptors"].astype(np.float32)
         else:
@@ -182,7 +182,7 @@ class FeaturesData:
 
         Scale is not properly set higher in the pipeline, default is gone.
         """
-        feature_type = config["feature_type"]
+        feature_type = config["feature_type"].upper()
         if feature_type == "HAHOG" and config["hahog_normalize_to_uchar"]:
             descriptors = data["descriptors"].astype(np.float32)
         else:
@@ -204,7 +204,7 @@ class FeaturesData:
         e5da878bea455a1e4beac938cb30b796acfe3c8c, but has been superseded by version 3 as this version
         uses 'allow_pickle=True' which isn't safe (RCE vulnerability)
         """
-        feature_type = config["feature_type"]
+        feature_type = config["feature_type"].upper()
         if feature_type == "HAHOG" and config["hahog_normalize_to_uchar"]:
             descriptors = data["descriptors"].astype(np.float32)
         else:
@@ -255,7 +255,7 @@ class FeaturesData:
 
         Same as version 2, except that
         """
-        feature_type = config["feature_type"]
+        feature_type = config["feature_type"].upper()
         if feature_type == "HAHOG" and config["hahog_normalize_to_uchar"]:
             descriptors = data["descriptors"].astype(np.float32)
         else:
-- 
2.43.0


From 0fd5b8d6adb4d60b54b863b3e2bbd158e099710f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:32 +0000
Subject: [PATCH 027/192] fix: making a subset of a dataset failed as the
 subset has no images yet

---
 opensfm/dataset.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/opensfm/dataset.py b/opensfm/dataset.py
index b1cd944..eaa8a7a 100644
--- a/opensfm/dataset.py
+++ b/opensfm/dataset.py
@@ -664,20 +664,16 @@ class DataSet(DataSetBase):
         folders = ["images", "segmentations", "masks"]
         for folder in folders:
             self.io_handler.mkdir_p(os.path.join(subset_dataset_path, folder))
-        subset_dataset = DataSet(subset_dataset_path, self.io_handler)
 
         files = []
-        for method in [
-            "_camera_models_file",
-            "_config_file",
-            "_camera_models_overrides_file",
-            "_exif_overrides_file",
+        for src in [
+            self._camera_models_file(),
+            self._config_file(),
+            self._camera_models_overrides_file(),
+            self._exif_overrides_file(),
         ]:
             files.append(
-                (
-                    getattr(self, method)(),
-                    getattr(subset_dataset, method)(),
-                )
+                (src, os.path.join(subset_dataset_path, os.path.basename(src)))
             )
         for image in images_subset:
             files.append(
-- 
2.43.0


From 2824f9d4daab064f7d03dd6f5930fc1d012f5d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:32 +0000
Subject: [PATCH 028/192] fix: subsets of a dataset given by a relative path
 had broken links

---
 opensfm/dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opensfm/dataset.py b/opensfm/dataset.py
index eaa8a7a..4dd5785 100644
--- a/opensfm/dataset.py
+++ b/opensfm/dataset.py
@@ -700,7 +700,7 @@ class DataSet(DataSetBase):
             if not self.io_handler.exists(src):
                 continue
             self.io_handler.rm_if_exist(dst)
-            self.io_handler.symlink(src, dst)
+            self.io_handler.symlink(os.path.abspath(src), dst)
 
         return DataSet(subset_dataset_path, self.io_handler)
 
-- 
2.43.0


From e6132686b18b86c216194f744c846b782b3aa3fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:33 +0000
Subject: [PATCH 029/192] fix: extracting metadata in a subset of a dataset
 overwrote the camera models of the whole dataset

---
 opensfm/dataset.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/opensfm/dataset.py b/opensfm/dataset.py
index 4dd5785..6deb044 100644
--- a/opensfm/dataset.py
+++ b/opensfm/dataset.py
@@ -665,16 +665,21 @@ class DataSet(DataSetBase):
         for folder in folders:
             self.io_handler.mkdir_p(os.path.join(subset_dataset_path, folder))
 
-        files = []
+        # These may be saved again by the subset, so give it its own copies
         for src in [
             self._camera_models_file(),
             self._config_file(),
             self._camera_models_overrides_file(),
             self._exif_overrides_file(),
         ]:
-            files.append(
-                (src, os.path.join(subset_dataset_path, os.path.basename(src)))
-            )
+            dst = os.path.join(subset_dataset_path, os.path.basename(src))
+            self.io_handler.rm_if_exist(dst)
+            if self.io_handler.exists(src):
+                with self.io_handler.open_rt(src) as fin:
+                    with self.io_handler.open_wt(dst) as fout:
+                        fout.write(fin.read())
+
+        files = []
         for image in images_subset:
             files.append(
                 (
-- 
2.43.0


From fec01b5d41e16a98c2ae564232bddcc144ef20e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:07 +0000
Subject: [PATCH 030/192] fix: undistorted tracks could not be saved before
 other undistorted data

---
 opensfm/dataset.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/opensfm/dataset.py b/opensfm/dataset.py
index 6deb044..4c91526 100644
--- a/opensfm/dataset.py
+++ b/opensfm/dataset.py
@@ -978,6 +978,7 @@ class UndistortedDataSet:
         self, tracks_manager: pymap.TracksManager
     ) -> None:
         filename = os.path.join(self.data_path, "tracks.csv")
+        self.io_handler.mkdir_p(self.data_path)
         with self.io_handler.open_wt(filename) as fw:
             fw.write(tracks_manager.as_string())
 
-- 
2.43.0


From 62c65b5354c596381a3b6500d82e5719ed9888db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:43 +0000
Subject: [PATCH 031/192] fix: tracks could be shorter than the minimum length
 when an image had no features

---
 opensfm/tracking.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/opensfm/tracking.py b/opensfm/tracking.py
index 5110051..393deca 100644
--- a/opensfm/tracking.py
+++ b/opensfm/tracking.py
@@ -95,7 +95,9 @@ def create_tracks_manager(
         else:
             sets[p] = [i]
 
-    tracks = [t for t in sets.values() if _good_track(t, min_length)]
+    # features of images without loaded features cannot be observed
+    visible = [[(im, f) for im, f in t if im in features] for t in sets.values()]
+    tracks = [t for t in visible if _good_track(t, min_length)]
 
     NO_VALUE = pymap.Observation.NO_SEMANTIC_VALUE
     tracks_manager = pymap.TracksManager()
@@ -103,8 +105,6 @@ def create_tracks_manager(
     num_depth_priors = 0
     for track_id, track in enumerate(tracks):
         for image, featureid in track:
-            if image not in features:
-                continue
             x, y, s = features[image][featureid]
             r, g, b = colors[image][featureid]
             segmentation = (
-- 
2.43.0


From 7f262c8f12eb8d0ac831e7c3411e8c908d3303fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:53 +0000
Subject: [PATCH 032/192] fix: pair selection with viewing directions failed
 when an image had no GPS position

---
 opensfm/pairs_selection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opensfm/pairs_selection.py b/opensfm/pairs_selection.py
index 223e589..3887dc6 100644
--- a/opensfm/pairs_selection.py
+++ b/opensfm/pairs_selection.py
@@ -144,7 +144,7 @@ def get_representative_points(
         altitude = find_best_altitude(origin, directions)
         logger.info(f"Altitude for orientation based matching {altitude}")
         directions_scaled = {k: v / DEFAULT_Z * altitude for k, v in directions.items()}
-        points = {k: origin[k] + directions_scaled[k] for k in images}
+        points = {k: origin[k] + directions_scaled[k] for k in origin}
     else:
         points = origin
 
-- 
2.43.0


From 33ea15b655a172482828bbc78669922a5ccaceb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:53 +0000
Subject: [PATCH 033/192] fix: pair selection with parallel viewing directions
 used an undefined altitude

---
 opensfm/pairs_selection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opensfm/pairs_selection.py b/opensfm/pairs_selection.py
index 3887dc6..dcffd98 100644
--- a/opensfm/pairs_selection.py
+++ b/opensfm/pairs_selection.py
@@ -97,9 +97,9 @@ def find_best_altitude(
 
     coeffs = np.polyfit(samples_x, samples_y, 2)
     extrema = -coeffs[1] / (2 * coeffs[0])
-    if extrema < 0:
+    if not np.isfinite(extrema) or extrema < 0:
         logger.info(
-            f"Altitude is negative ({extrema}) : viewing directions are probably divergent. Using default altitude of {DEFAULT_Z}"
+            f"Altitude is invalid ({extrema}) : viewing directions are probably divergent or parallel. Using default altitude of {DEFAULT_Z}"
         )
         extrema = DEFAULT_Z
     return extrema
-- 
2.43.0


From 6361594054f78f91a546b9000388dbbebe6f6795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:53 +0000
Subject: [PATCH 034/192] fix: pair selection by distance lost neighbours to
 points that are no candidates

---
 opensfm/pairs_selection.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/opensfm/pairs_selection.py b/opensfm/pairs_selection.py
index dcffd98..a284e96 100644
--- a/opensfm/pairs_selection.py
+++ b/opensfm/pairs_selection.py
@@ -185,9 +185,7 @@ def match_candidates_by_distance(
         logger.warning(f"Couldn't fetch {difference} images. Returning NO pairs.")
         return set()
 
-    points = np.zeros((len(representative_points), 3))
-    for i, point_id in enumerate(images_cand):
-        points[i] = representative_points[point_id]
+    points = np.array([representative_points[image] for image in images_cand])
 
     tree = spatial.cKDTree(points)
 
-- 
2.43.0


From b5e379ba8624d1d8b83d7246341a1c86fa63104d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:53 +0000
Subject: [PATCH 035/192] fix: pair selection by distance or time proposed more
 neighbours than configured

---
 opensfm/pairs_selection.py | 34 ++++++++++++++--------------------
 1 file changed, 14 insertions(+), 20 deletions(-)

diff --git a/opensfm/pairs_selection.py b/opensfm/pairs_selection.py
index a284e96..a555697 100644
--- a/opensfm/pairs_selection.py
+++ b/opensfm/pairs_selection.py
@@ -198,15 +198,12 @@ def match_candidates_by_distance(
             point, k=nn, distance_upper_bound=max_distance
         )
 
-        if isinstance(neighbors, int):  # special case with only one NN
-            neighbors = [neighbors]
-
-        for j in neighbors:
-            if j >= len(images_cand):
-                continue
-            image_cand = images_cand[j]
-            if image_cand != image_ref:
-                pairs.add(sorted_pair(image_ref, image_cand))
+        neighbors_cand = [
+            images_cand[j] for j in np.atleast_1d(neighbors) if j < len(images_cand)
+        ]
+        others = [image for image in neighbors_cand if image != image_ref]
+        for image_cand in others[:k]:
+            pairs.add(sorted_pair(image_ref, image_cand))
     return pairs
 
 
@@ -543,17 +540,14 @@ def match_candidates_by_time(
         nn = k + 1 if image_ref in images_cand else k
 
         time = exifs[image_ref]["capture_time"]
-        distances, neighbors = tree.query([time], k=nn)
-
-        if isinstance(neighbors, int):  # special case with only one NN
-            neighbors = [neighbors]
-
-        for j in neighbors:
-            if j >= len(images_cand):
-                continue
-            image_cand = images_cand[j]
-            if image_ref != image_cand:
-                pairs.add(sorted_pair(image_ref, image_cand))
+        _, neighbors = tree.query([time], k=nn)
+
+        neighbors_cand = [
+            images_cand[j] for j in np.atleast_1d(neighbors) if j < len(images_cand)
+        ]
+        others = [image for image in neighbors_cand if image != image_ref]
+        for image_cand in others[:k]:
+            pairs.add(sorted_pair(image_ref, image_cand))
     return pairs
 
 
-- 
2.43.0


From dafc2a4c8b5478c4d2c39daa20ee378d5135f355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:53 +0000
Subject: [PATCH 036/192] fix: pair selection by time failed without candidates

---
 opensfm/pairs_selection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opensfm/pairs_selection.py b/opensfm/pairs_selection.py
index a555697..48724fd 100644
--- a/opensfm/pairs_selection.py
+++ b/opensfm/pairs_selection.py
@@ -525,7 +525,7 @@ def match_candidates_by_time(
     max_neighbors: int,
 ) -> Set[Tuple[str, str]]:
     """Find candidate matching pairs by time difference."""
-    if max_neighbors <= 0:
+    if len(images_cand) == 0 or max_neighbors <= 0:
         return set()
     k = min(len(images_cand), max_neighbors)
 
-- 
2.43.0


From e87218e1ad58345184724153dc79b04b08e969c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:53 +0000
Subject: [PATCH 037/192] fix: pair selection by graph failed for images at the
 same position

---
 opensfm/pairs_selection.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/opensfm/pairs_selection.py b/opensfm/pairs_selection.py
index 48724fd..3e96552 100644
--- a/opensfm/pairs_selection.py
+++ b/opensfm/pairs_selection.py
@@ -255,14 +255,19 @@ def match_candidates_by_graph(
     except spatial.QhullError:
         # Initial simplex is flat
         # Scale the input to fit the unit cube ("QbB")
-        triangles = spatial.Delaunay(
-            points, qhull_options="Qbb Qc Qz Q12 QbB"
-        ).simplices
+        try:
+            triangles = spatial.Delaunay(
+                points, qhull_options="Qbb Qc Qz Q12 QbB"
+            ).simplices
+        except spatial.QhullError:
+            # All the points coincide, only the jittered rounds produce edges
+            triangles = []
 
     for (image1, image2), (vertex1, vertex2) in produce_edges(triangles):
         pairs.add((image1, image2))
         edge_distances.append(norm_2d(points[vertex1] - points[vertex2]))
-    scale = np.median(edge_distances)
+    positive_distances = [d for d in edge_distances if d > 0]
+    scale = np.median(positive_distances) if positive_distances else 1.0
 
     # further rounds produces edges from jittered version of the original points
     # in order to get 'alternative' delaunay triangulations : a perfect square
-- 
2.43.0


From f5e1ce873f3e0f8b5dafd008a7e3c45b94ed6f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:53 +0000
Subject: [PATCH 038/192] fix: pair selection by order depended on how the
 images were given

---
 opensfm/pairs_selection.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/opensfm/pairs_selection.py b/opensfm/pairs_selection.py
index 3e96552..d3a5f24 100644
--- a/opensfm/pairs_selection.py
+++ b/opensfm/pairs_selection.py
@@ -565,9 +565,15 @@ def match_candidates_by_order(
     n = (max_neighbors + 1) // 2
 
     pairs = set()
+    position = {image: i for i, image in enumerate(images_cand)}
     for i, image_ref in enumerate(images_ref):
-        a = max(0, i - n)
-        b = min(len(images_cand), i + n)
+        if image_ref in position:
+            # n images before and n images after
+            i = position[image_ref]
+            a, b = i - n, i + n + 1
+        else:
+            a, b = i - n, i + n
+        a, b = max(0, a), min(len(images_cand), b)
         for j in range(a, b):
             image_cand = images_cand[j]
             if image_ref != image_cand:
@@ -617,7 +623,8 @@ def match_candidates_from_metadata(
         max_distance = 0
         graph_rounds = 0
 
-    images_ref.sort()
+    images_ref = sorted(images_ref)
+    images_cand = sorted(images_cand)
 
     if (
         max_distance
-- 
2.43.0


From 9be404ebe3f55a514f60957b7e19c7e55b0adb54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:32 +0000
Subject: [PATCH 039/192] fix: DLT triangulation missed points seen sideways

---
 opensfm/src/geometry/src/triangulation.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/opensfm/src/geometry/src/triangulation.cc b/opensfm/src/geometry/src/triangulation.cc
index 110e50a..ef98fc1 100644
--- a/opensfm/src/geometry/src/triangulation.cc
+++ b/opensfm/src/geometry/src/triangulation.cc
@@ -118,12 +118,16 @@ Vec4d TriangulateBearingsDLTSolve(const MatX3d& bearings,
   const int nviews = bearings.rows();
   assert(nviews == Rts.size());
 
-  MatXd A(2 * nviews, 4);
+  // All three equations are needed : with only two of them, bearings that are
+  // orthogonal to the Z axis don't constrain the point enough
+  MatXd A(3 * nviews, 4);
   for (int i = 0; i < nviews; i++) {
-    A.row(2 * i) =
+    A.row(3 * i) =
         bearings(i, 0) * Rts[i].row(2) - bearings(i, 2) * Rts[i].row(0);
-    A.row(2 * i + 1) =
+    A.row(3 * i + 1) =
         bearings(i, 1) * Rts[i].row(2) - bearings(i, 2) * Rts[i].row(1);
+    A.row(3 * i + 2) =
+        bearings(i, 0) * Rts[i].row(1) - bearings(i, 1) * Rts[i].row(0);
   }
 
   Eigen::JacobiSVD<MatXd> mySVD(A, Eigen::ComputeFullV);
-- 
2.43.0


From 9fe12bf6ce270db1a152bf2b7c81a86a94f2116c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:32 +0000
Subject: [PATCH 040/192] fix: triangulation returned points that are not
 finite

---
 opensfm/src/geometry/src/triangulation.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/opensfm/src/geometry/src/triangulation.cc b/opensfm/src/geometry/src/triangulation.cc
index ef98fc1..be9633b 100644
--- a/opensfm/src/geometry/src/triangulation.cc
+++ b/opensfm/src/geometry/src/triangulation.cc
@@ -98,6 +98,9 @@ std::pair<bool, Vec3d> TriangulateBearingsDLT(const std::vector<Mat34d>& Rts,
 
   Vec4d X = TriangulateBearingsDLTSolve(bearings, Rts);
   X /= X(3);
+  if (!X.allFinite()) {
+    return std::make_pair(false, Vec3d());
+  }
 
   for (int i = 0; i < count; ++i) {
     const Vec3d projected = Rts[i] * X;
@@ -164,7 +167,10 @@ std::pair<bool, Vec3d> TriangulateBearingsMidpoint(
   }
 
   // Triangulate
-  const auto X = TriangulateBearingsMidpointSolve(centers, bearings);
+  const Vec3d X = TriangulateBearingsMidpointSolve(centers, bearings);
+  if (!X.allFinite()) {
+    return std::make_pair(false, Vec3d());
+  }
 
   // Check reprojection error
   for (int i = 0; i < count; ++i) {
-- 
2.43.0


From 8fb4dfc24a51d9552e3cadfc3b7fd4e8877644ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:32 +0000
Subject: [PATCH 041/192] fix: robust triangulation never tried the last pair
 of observations

---
 opensfm/reconstruction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opensfm/reconstruction.py b/opensfm/reconstruction.py
index 81d00f0..ffbece5 100644
--- a/opensfm/reconstruction.py
+++ b/opensfm/reconstruction.py
@@ -953,7 +953,7 @@ class TrackTriangulator:
         thresholds = len(os) * [reproj_threshold]
         min_ray_angle_radians = np.radians(min_ray_angle_degrees)
         for i in range(ransac_tries):
-            random_id = int(np.random.rand() * (len(all_combinations) - 1))
+            random_id = int(np.random.rand() * len(all_combinations))
             if random_id in combinatiom_tried:
                 continue
 
-- 
2.43.0


From ce19f6ac0d30293b5ddd51a0ead80561b152675c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:32 +0000
Subject: [PATCH 042/192] fix: robust triangulation stopped early depending on
 the position of the observations

---
 opensfm/reconstruction.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opensfm/reconstruction.py b/opensfm/reconstruction.py
index ffbece5..5866b46 100644
--- a/opensfm/reconstruction.py
+++ b/opensfm/reconstruction.py
@@ -952,7 +952,7 @@ class TrackTriangulator:
 
         thresholds = len(os) * [reproj_threshold]
         min_ray_angle_radians = np.radians(min_ray_angle_degrees)
-        for i in range(ransac_tries):
+        for ransac_try in range(ransac_tries):
             random_id = int(np.random.rand() * len(all_combinations))
             if random_id in combinatiom_tried:
                 continue
@@ -1020,7 +1020,7 @@ class TrackTriangulator:
                     optimal_iter = math.log(1.0 - pout) / math.log(
                         1.0 - inliers_ratio * inliers_ratio
                     )
-                    if optimal_iter <= i:
+                    if optimal_iter <= ransac_try:
                         break
 
         if len(best_inliers) > 1:
-- 
2.43.0


From f648b99c101e98348926e2712cb78d225c273ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:32 +0000
Subject: [PATCH 043/192] fix: DLT triangulation of tracks refined points with
 bearings in camera coordinates

---
 opensfm/reconstruction.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/opensfm/reconstruction.py b/opensfm/reconstruction.py
index 5866b46..afa0211 100644
--- a/opensfm/reconstruction.py
+++ b/opensfm/reconstruction.py
@@ -1081,14 +1081,16 @@ class TrackTriangulator:
         iterations: int,
     ) -> None:
         """Triangulate track using DLT and add point to reconstruction."""
-        Rts, bs, os, ids = [], [], [], []
+        Rts, bs, world_bs, os, ids = [], [], [], [], []
         for shot_id, obs in self.tracks_handler.get_observations(track).items():
             shot = self.reconstruction.shots[shot_id]
             os.append(self._shot_origin(shot))
             Rts.append(self._shot_Rt(shot))
             # pyrefly: ignore [bad-argument-type]
             b = shot.camera.pixel_bearing(np.array(obs.point))
+            r = self._shot_rotation_inverse(shot)
             bs.append(b)
+            world_bs.append(r.dot(b))
             ids.append(shot_id)
 
         if len(Rts) >= 2:
@@ -1106,7 +1108,7 @@ class TrackTriangulator:
                     # pyre-fixme[6]: opensfm pybind / numpy stubs gap — runtime ok.
                     np.array(os),
                     # pyre-fixme[6]: opensfm pybind / numpy stubs gap — runtime ok.
-                    np.array(bs),
+                    np.array(world_bs),
                     # pyre-fixme[6]: opensfm pybind / numpy stubs gap — runtime ok.
                     X,
                     iterations,
-- 
2.43.0


From a7716c462bc5e100066ed88106402a9856ef8fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:39 +0000
Subject: [PATCH 044/192] fix: keep the real-valued score of the best pose
 decomposition

---
 opensfm/src/geometry/relative_pose.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/opensfm/src/geometry/relative_pose.h b/opensfm/src/geometry/relative_pose.h
index f5d2736..06bc4a1 100644
--- a/opensfm/src/geometry/relative_pose.h
+++ b/opensfm/src/geometry/relative_pose.h
@@ -6,6 +6,7 @@
 
 #include <Eigen/Eigen>
 #include <Eigen/SVD>
+#include <limits>
 
 #include "triangulation.h"
 
@@ -33,7 +34,9 @@ Eigen::Matrix<double, 3, 4> RelativePoseFromEssential(
   Eigen::Matrix<double, 2, 3> centers;
   centers.row(0) = Eigen::Vector3d::Zero();
 
-  auto best_decomposition = std::make_pair(0, Eigen::Matrix<double, 3, 4>());
+  std::pair<double, Eigen::Matrix<double, 3, 4>> best_decomposition(
+      -std::numeric_limits<double>::max(),
+      Eigen::Matrix<double, 3, 4>::Identity());
   for (int i = 0; i < 2; ++i) {
     Eigen::Vector3d translation;
     if (i == 0) {
-- 
2.43.0


From 446d6cd05a751fe62feb2a141c99458d0dc86633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:39 +0000
Subject: [PATCH 045/192] fix: closest rotation when the unconstrained solution
 is a reflection

---
 opensfm/src/foundation/src/numeric.cc | 5 ++++-
 opensfm/src/geometry/transform.h      | 4 +++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/opensfm/src/foundation/src/numeric.cc b/opensfm/src/foundation/src/numeric.cc
index 98aac7f..dc6ea06 100644
--- a/opensfm/src/foundation/src/numeric.cc
+++ b/opensfm/src/foundation/src/numeric.cc
@@ -13,7 +13,10 @@ Eigen::Matrix3d ClosestRotationMatrix(const Eigen::Matrix3d& matrix) {
       matrix, Eigen::ComputeFullU | Eigen::ComputeFullV);
   Eigen::Matrix3d rotation = svd.matrixU() * svd.matrixV().transpose();
   if (rotation.determinant() < 0.) {
-    rotation *= -1.0;
+    // Flip the axis of the smallest singular value only
+    const Eigen::Vector3d signs(1.0, 1.0, -1.0);
+    rotation =
+        svd.matrixU() * signs.asDiagonal() * svd.matrixV().transpose();
   }
   return rotation;
 }
diff --git a/opensfm/src/geometry/transform.h b/opensfm/src/geometry/transform.h
index a2c4662..fb251e2 100644
--- a/opensfm/src/geometry/transform.h
+++ b/opensfm/src/geometry/transform.h
@@ -34,7 +34,9 @@ Eigen::Matrix3d RotationBetweenPoints(IT begin, IT end) {
   const Eigen::Matrix3d& V = svd.matrixV();
   Eigen::Matrix3d rotation = U * V.transpose();
   if (rotation.determinant() < 0.) {
-    rotation *= -1.0;
+    // Flip the axis of the smallest singular value only
+    const Eigen::Vector3d signs(1.0, 1.0, -1.0);
+    rotation = U * signs.asDiagonal() * V.transpose();
   }
   return rotation;
 }
-- 
2.43.0


From 2e198e58f02d1439881ba7b601c2c91cf89d28ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:39 +0000
Subject: [PATCH 046/192] fix: end robust estimations that do not have enough
 samples

---
 opensfm/src/robust/robust_estimator.h | 4 ++++
 opensfm/src/robust/scorer.h           | 4 ++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/opensfm/src/robust/robust_estimator.h b/opensfm/src/robust/robust_estimator.h
index a68ea5e..93affeb 100644
--- a/opensfm/src/robust/robust_estimator.h
+++ b/opensfm/src/robust/robust_estimator.h
@@ -42,6 +42,10 @@ ScoreInfo<typename MODEL::Type> Estimate(
   RandomSamplesGenerator<std::mt19937> random_generator;
 
   ScoreInfo<typename MODEL::Type> best_score;
+  if (samples.size() < static_cast<size_t>(MODEL::MINIMAL_SAMPLES)) {
+    return best_score;
+  }
+
   bool should_stop = false;
   std::vector<typename MODEL::Data> inliers_samples;  // Used to gather inliers
   for (int i = 0; i < params.iterations && !should_stop; ++i) {
diff --git a/opensfm/src/robust/scorer.h b/opensfm/src/robust/scorer.h
index 3c079d4..723dee5 100644
--- a/opensfm/src/robust/scorer.h
+++ b/opensfm/src/robust/scorer.h
@@ -7,8 +7,8 @@ template <class MODEL, class LOMODEL = MODEL>
 struct ScoreInfo {
   double score{0};
   std::vector<int> inliers_indices;
-  MODEL model;
-  LOMODEL lo_model;
+  MODEL model{MODEL::Zero()};
+  LOMODEL lo_model{LOMODEL::Zero()};
 
   friend bool operator<(const ScoreInfo& s1, const ScoreInfo& s2) {
     if (s1.score < s2.score) {
-- 
2.43.0


From 7ec4eaff2a4b319244c7659c12e3dddc989dac0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:39 +0000
Subject: [PATCH 047/192] fix: three-point pose with a root at the end of its
 range

---
 opensfm/src/geometry/absolute_pose.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/opensfm/src/geometry/absolute_pose.h b/opensfm/src/geometry/absolute_pose.h
index 5a75050..0579710 100644
--- a/opensfm/src/geometry/absolute_pose.h
+++ b/opensfm/src/geometry/absolute_pose.h
@@ -93,9 +93,10 @@ std::vector<Eigen::Matrix<double, 3, 4>> AbsolutePoseThreePoints(IT begin,
 
   RTs.reserve(roots.size());
   for (const auto& root : roots) {
-    const auto cos_theta_1 = root;
+    const auto cos_theta_1 = std::max(-1.0, std::min(1.0, root));
     const auto sin_theta_1 =
-        foundation::Sign(k3_b3) * std::sqrt(1.0 - SQUARE(cos_theta_1));
+        foundation::Sign(k3_b3) * 
+        std::sqrt(std::max(0.0, 1.0 - SQUARE(cos_theta_1)));
     const auto t =
         sin_theta_1 / (g5 * SQUARE(cos_theta_1) + g6 * cos_theta_1 + g7);
 
@@ -116,7 +117,9 @@ std::vector<Eigen::Matrix<double, 3, 4>> AbsolutePoseThreePoints(IT begin,
     Eigen::Matrix<double, 3, 4> RT;
     RT.block<3, 3>(0, 0) = rotation.transpose();
     RT.block<3, 1>(0, 3) = -rotation.transpose() * translation;
-    RTs.push_back(RT);
+    if (RT.allFinite()) {
+      RTs.push_back(RT);
+    }
   }
   return RTs;
 }
-- 
2.43.0


From 4bb9c88a718e99fdbab2c19a94ee00834d07d876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:39 +0000
Subject: [PATCH 048/192] fix: scale and sign of fitted planes

---
 opensfm/multiview.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/opensfm/multiview.py b/opensfm/multiview.py
index aa2c6b1..fa7e14e 100644
--- a/opensfm/multiview.py
+++ b/opensfm/multiview.py
@@ -159,9 +159,9 @@ def fit_plane(
         A = np.vstack((x, v))
     else:
         A = x
-    evalues, evectors = np.linalg.eig(A.T.dot(A))
-    smallest_evalue_idx = min(enumerate(evalues), key=lambda x: x[1])[0]
-    p = evectors[:, smallest_evalue_idx]
+    _, evectors = np.linalg.eigh(A.T.dot(A))
+    p = evectors[:, 0]  # eigenvalues are in ascending order
+    p[3] /= s  # Undo the normalization of the scale
 
     if np.allclose(p[:3], [0, 0, 0]):
         return np.array([0.0, 0.0, 1.0, 0])
@@ -171,7 +171,8 @@ def fit_plane(
         d = 0
         for vertical in verticals:
             d += p[:3].dot(vertical)
-        p *= np.sign(d)
+        if d < 0:
+            p = -p
     return p
 
 
-- 
2.43.0


From 7ee17113f7689acb091cceede51deeab1413e379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:39 +0000
Subject: [PATCH 049/192] fix: relative pose refinement reads within its
 correspondences

---
 opensfm/src/geometry/relative_pose.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/opensfm/src/geometry/relative_pose.h b/opensfm/src/geometry/relative_pose.h
index 06bc4a1..8a999ad 100644
--- a/opensfm/src/geometry/relative_pose.h
+++ b/opensfm/src/geometry/relative_pose.h
@@ -98,7 +98,7 @@ struct RelativePoseCost {
       // random numbers.
       const int index =
           (float(std::rand()) / static_cast<float>(RAND_MAX)) * count;
-      picked_errors_.push_back(begin_ + index);
+      picked_errors_.push_back(begin_ + std::min(index, count - 1));
     }
   }
 
@@ -158,6 +158,10 @@ template <class IT>
 Eigen::Matrix<double, 3, 4> RelativePoseRefinement(
     const Eigen::Matrix<double, 3, 4>& relative_pose, IT begin, IT end,
     int iterations) {
+  if (begin == end) {
+    return relative_pose;
+  }
+
   Eigen::Matrix<double, 6, 1> parameters;
   parameters.setZero();
 
-- 
2.43.0


From 67145756e48c19cfd12d6d266b2ecc2ef1dc40b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:39 +0000
Subject: [PATCH 050/192] fix: pick the plane motion with the most inliers

---
 opensfm/reconstruction.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/opensfm/reconstruction.py b/opensfm/reconstruction.py
index afa0211..3673c78 100644
--- a/opensfm/reconstruction.py
+++ b/opensfm/reconstruction.py
@@ -326,8 +326,7 @@ def two_view_reconstruction_plane_based(
         inliers = _two_view_reconstruction_inliers(b1, b2, R.T, -R.T.dot(t), threshold)
         motion_inliers.append(inliers)
 
-    # pyre-fixme[6]: For 1st argument expected `Union[_SupportsArray[dtype[typing.Any...
-    best = np.argmax(map(len, motion_inliers))
+    best = np.argmax([len(inliers) for inliers in motion_inliers])
     R, t, n, d = motions[best]
     inliers = motion_inliers[best]
     return cv2.Rodrigues(R)[0].ravel(), t, inliers
-- 
2.43.0


From 6fdc3ed7982ea3726bd2d75f33321c7f72c2d059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:49 +0000
Subject: [PATCH 051/192] fix: position prior of rig instances when bundling
 shot poses

---
 opensfm/src/sfm/src/ba_helpers.cc | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/opensfm/src/sfm/src/ba_helpers.cc b/opensfm/src/sfm/src/ba_helpers.cc
index e66ba8c..1bcd433 100644
--- a/opensfm/src/sfm/src/ba_helpers.cc
+++ b/opensfm/src/sfm/src/ba_helpers.cc
@@ -500,18 +500,18 @@ py::dict BAHelpers::BundleShotPoses(
       } else {
         fix_instance = true;
       }
+    }
 
-      ba.AddRigInstance(rig_instance_id, instance.GetPose(), shot_cameras,
-                        shot_rig_cameras, fix_instance);
+    ba.AddRigInstance(rig_instance_id, instance.GetPose(), shot_cameras,
+                      shot_rig_cameras, fix_instance);
 
-      // only add averaged rig position constraints to moving instances
-      if (!fix_instance && gps_count > 0) {
-        average_position /= gps_count;
-        average_std /= gps_count;
-        ba.AddRigInstancePositionPrior(rig_instance_id, average_position,
-                                       Vec3d::Constant(average_std),
-                                       gps_scale_group);
-      }
+    // only add averaged rig position constraints to moving instances
+    if (!fix_instance && gps_count > 0) {
+      average_position /= gps_count;
+      average_std /= gps_count;
+      ba.AddRigInstancePositionPrior(rig_instance_id, average_position,
+                                     Vec3d::Constant(average_std),
+                                     gps_scale_group);
     }
   }
 
-- 
2.43.0


From e7f88dd9fd5f1c6df72d45f93fbc5700e5e4ce69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:49 +0000
Subject: [PATCH 052/192] fix: rig camera of the third shot of a linear motion
 prior

---
 opensfm/src/bundle/src/bundle_adjuster.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/opensfm/src/bundle/src/bundle_adjuster.cc b/opensfm/src/bundle/src/bundle_adjuster.cc
index cf0b6e5..2078f3a 100644
--- a/opensfm/src/bundle/src/bundle_adjuster.cc
+++ b/opensfm/src/bundle/src/bundle_adjuster.cc
@@ -1073,6 +1073,9 @@ void BundleAdjuster::Run() {
         cost_function->AddParameterBlock(6);
         linear_motion->shot2_rig_camera_index = parameter_blocks.size();
         parameter_blocks.push_back(shot2_rig_camera);
+      } else if (shot2_rig_camera == shot1_rig_camera) {
+        linear_motion->shot2_rig_camera_index =
+            linear_motion->shot1_rig_camera_index;
       } else {
         linear_motion->shot2_rig_camera_index =
             linear_motion->shot0_rig_camera_index;
-- 
2.43.0


From 90afc94131826920acaeb15ff50b98b3eb49f47b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:49 +0000
Subject: [PATCH 053/192] fix: control points seen outside of a local bundle
 adjustment

---
 opensfm/src/bundle/bundle_adjuster.h      | 1 +
 opensfm/src/bundle/src/bundle_adjuster.cc | 4 ++++
 opensfm/src/sfm/src/ba_helpers.cc         | 4 ++--
 3 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/opensfm/src/bundle/bundle_adjuster.h b/opensfm/src/bundle/bundle_adjuster.h
index 9fd40bc..1f5cbd0 100644
--- a/opensfm/src/bundle/bundle_adjuster.h
+++ b/opensfm/src/bundle/bundle_adjuster.h
@@ -288,6 +288,7 @@ class BundleAdjuster {
   Reconstruction GetReconstruction(const std::string& reconstruction_id) const;
   Point GetPoint(const std::string& id) const;
   bool HasPoint(const std::string& id) const;
+  bool HasShot(const std::string& id) const;
   RigCamera GetRigCamera(const std::string& rig_camera_id) const;
   RigInstance GetRigInstance(const std::string& instance_id) const;
   std::map<std::string, RigCamera> GetRigCameras() const;
diff --git a/opensfm/src/bundle/src/bundle_adjuster.cc b/opensfm/src/bundle/src/bundle_adjuster.cc
index 2078f3a..58d6827 100644
--- a/opensfm/src/bundle/src/bundle_adjuster.cc
+++ b/opensfm/src/bundle/src/bundle_adjuster.cc
@@ -1243,6 +1243,10 @@ bool BundleAdjuster::HasPoint(const std::string& id) const {
   return points_.find(id) != points_.end();
 }
 
+bool BundleAdjuster::HasShot(const std::string& id) const {
+  return shots_.find(id) != shots_.end();
+}
+
 Reconstruction BundleAdjuster::GetReconstruction(
     const std::string& reconstruction_id) const {
   const auto it = reconstructions_.find(reconstruction_id);
diff --git a/opensfm/src/sfm/src/ba_helpers.cc b/opensfm/src/sfm/src/ba_helpers.cc
index 1bcd433..952a78c 100644
--- a/opensfm/src/sfm/src/ba_helpers.cc
+++ b/opensfm/src/sfm/src/ba_helpers.cc
@@ -363,7 +363,7 @@ size_t BAHelpers::AddGCPToBundle(
       ++total_terms;
     }
     for (const auto& obs : point.observations_) {
-      total_terms += (shots.count(obs.shot_id_) > 0);
+      total_terms += ba.HasShot(obs.shot_id_);
     }
   }
 
@@ -394,7 +394,7 @@ size_t BAHelpers::AddGCPToBundle(
     // Now iterate through the observations
     for (const auto& obs : point.observations_) {
       const auto& shot_id = obs.shot_id_;
-      if (shots.count(shot_id) > 0) {
+      if (ba.HasShot(shot_id)) {
         constexpr double scale{0.001};
         ba.AddPointProjectionObservation(shot_id, point_id, obs.projection_,
                                          scale / global_weight);
-- 
2.43.0


From 6e02b5bd4af951783d9969d8a0e37d4befc5a1af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:49 +0000
Subject: [PATCH 054/192] fix: only use filled rows to detect alignment
 constraints

---
 opensfm/src/sfm/src/ba_helpers.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/opensfm/src/sfm/src/ba_helpers.cc b/opensfm/src/sfm/src/ba_helpers.cc
index 952a78c..33f016f 100644
--- a/opensfm/src/sfm/src/ba_helpers.cc
+++ b/opensfm/src/sfm/src/ba_helpers.cc
@@ -861,6 +861,9 @@ void BAHelpers::AlignmentConstraints(
       }
     }
   }
+  // some control points may not have been usable
+  Xp.conservativeResize(idx, Eigen::NoChange);
+  X.conservativeResize(idx, Eigen::NoChange);
 }
 
 std::string BAHelpers::DetectAlignmentConstraints(
-- 
2.43.0


From 62c44b5abdab066a87e04686b0b2b1a37537870e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:49 +0000
Subject: [PATCH 055/192] fix: angular reprojection error of exactly aligned
 observations

---
 opensfm/src/map/src/map.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opensfm/src/map/src/map.cc b/opensfm/src/map/src/map.cc
index 75601c3..b3f8b36 100644
--- a/opensfm/src/map/src/map.cc
+++ b/opensfm/src/map/src/map.cc
@@ -5,6 +5,7 @@
 #include <map/rig.h>
 #include <map/shot.h>
 
+#include <algorithm>
 #include <cmath>
 #include <memory>
 #include <stdexcept>
@@ -567,7 +568,7 @@ Map::ComputeReprojectionErrors(const TracksManager& tracks_manager,
             (find_landmark->second.GetGlobalPos() - shot.GetPose()->GetOrigin())
                 .normalized();
         const Vec3d bearing = shot.Bearing(obs.point).normalized();
-        const double angle = std::acos(point.dot(bearing));
+        const double angle = std::acos(std::clamp(point.dot(bearing), -1.0, 1.0));
         per_shot[track_id] = Vec2d::Constant(angle);
       }
     }
-- 
2.43.0


From 9c178a403b617464740ff78da355c466ed67fb74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:20 +0000
Subject: [PATCH 056/192] fix: pose covariances with several shots per rig
 instance

---
 opensfm/src/bundle/src/bundle_adjuster.cc | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/opensfm/src/bundle/src/bundle_adjuster.cc b/opensfm/src/bundle/src/bundle_adjuster.cc
index 58d6827..198a24a 100644
--- a/opensfm/src/bundle/src/bundle_adjuster.cc
+++ b/opensfm/src/bundle/src/bundle_adjuster.cc
@@ -1136,11 +1136,10 @@ void BundleAdjuster::ComputeCovariances(ceres::Problem* problem) {
     ceres::Covariance covariance(options);
 
     std::vector<std::pair<const double*, const double*>> covariance_blocks;
-    covariance_blocks.reserve(shots_.size());
-    for (auto& [_, shot] : shots_) {
-      covariance_blocks.emplace_back(
-          shot.GetRigInstance()->GetValueData().data(),
-          shot.GetRigInstance()->GetValueData().data());
+    covariance_blocks.reserve(rig_instances_.size());
+    for (auto& [_, rig_instance] : rig_instances_) {
+      covariance_blocks.emplace_back(rig_instance.GetValueData().data(),
+                                     rig_instance.GetValueData().data());
     }
 
     bool worked = covariance.Compute(covariance_blocks, problem);
-- 
2.43.0


From 7235c9a609c4dcd03fc306f28af07fd5a85c11a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:09 +0000
Subject: [PATCH 057/192] fix: use the configured deviation of the fourth
 radial coefficient

---
 opensfm/src/bundle/src/bundle_adjuster.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/opensfm/src/bundle/src/bundle_adjuster.cc b/opensfm/src/bundle/src/bundle_adjuster.cc
index 198a24a..607a253 100644
--- a/opensfm/src/bundle/src/bundle_adjuster.cc
+++ b/opensfm/src/bundle/src/bundle_adjuster.cc
@@ -55,6 +55,7 @@ geometry::Camera BundleAdjuster::GetDefaultCameraSigma(
   std_dev_map[static_cast<int>(geometry::Camera::Parameters::K1)] = k1_sd_;
   std_dev_map[static_cast<int>(geometry::Camera::Parameters::K2)] = k2_sd_;
   std_dev_map[static_cast<int>(geometry::Camera::Parameters::K3)] = k3_sd_;
+  std_dev_map[static_cast<int>(geometry::Camera::Parameters::K4)] = k4_sd_;
   std_dev_map[static_cast<int>(geometry::Camera::Parameters::P1)] = p1_sd_;
   std_dev_map[static_cast<int>(geometry::Camera::Parameters::P2)] = p2_sd_;
   std_dev_map[static_cast<int>(geometry::Camera::Parameters::Transition)] = 1.0;
-- 
2.43.0


From 60aa91d3b255181c188357d861dbf75ac43b92ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:58 +0000
Subject: [PATCH 058/192] fix: merging reconstructions with common tracks
 raised or lost parts

---
 opensfm/reconstruction.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/opensfm/reconstruction.py b/opensfm/reconstruction.py
index 3673c78..627c031 100644
--- a/opensfm/reconstruction.py
+++ b/opensfm/reconstruction.py
@@ -1335,19 +1335,26 @@ def merge_two_reconstructions(
     threshold: float = 1,
 ) -> List[types.Reconstruction]:
     """Merge two reconstructions with common tracks IDs."""
-    common_tracks = list(set(r1.points) & set(r2.points))
-    # pyrefly: ignore [bad-argument-type]
+    common_tracks = [(t, t) for t in set(r1.points) & set(r2.points)]
     worked, T, inliers = align_two_reconstruction(r1, r2, common_tracks, threshold)
 
-    if T and worked and len(inliers) >= 10:
+    if worked and T is not None and len(inliers) >= 10:
         s, A, b = multiview.decompose_similarity_transform(T)
         r1p = r1
         apply_similarity(r1p, s, A, b)
         r = r2
-        # pyrefly: ignore [missing-attribute]
-        r.shots.update(r1p.shots)
-        # pyrefly: ignore [missing-attribute]
-        r.points.update(r1p.points)
+        for shot in r1p.shots.values():
+            if shot.id not in r.shots:
+                r.add_shot(shot)
+        for point in r1p.points.values():
+            if point.id not in r.points:
+                r.add_point(point)
+            seen_in = {shot.id for shot in r.points[point.id].get_observations()}
+            for shot in point.get_observations():
+                if shot.id not in seen_in:
+                    r.add_observation(
+                        shot.id, point.id, shot.get_landmark_observation(point)
+                    )
         align_reconstruction(r, [], config)
         return [r]
     else:
@@ -1373,9 +1380,7 @@ def merge_reconstructions(
                 remaining_reconstruction = list(set(remaining_reconstruction) - {i, j})
                 for k in remaining_reconstruction:
                     rr = merge_two_reconstructions(r[0], reconstructions[k], config)
-                    if len(r) == 2:
-                        break
-                    else:
+                    if len(rr) == 1:
                         r = rr
                         remaining_reconstruction = list(
                             set(remaining_reconstruction) - {k}
-- 
2.43.0


From e91ad852b47dd739eff8bf3bc08759c75f7433ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:40 +0000
Subject: [PATCH 059/192] fix: reprojection errors in panoramas were compared
 without their third component, and removing outliers automatically raised
 with panoramas among other images or without points

---
 opensfm/reconstruction.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/opensfm/reconstruction.py b/opensfm/reconstruction.py
index 627c031..b61e313 100644
--- a/opensfm/reconstruction.py
+++ b/opensfm/reconstruction.py
@@ -1231,6 +1231,11 @@ def get_error_distribution(points: Dict[str, pymap.Landmark]) -> Tuple[float, fl
     all_errors = []
     for track in points.values():
         all_errors += track.reprojection_errors.values()
+    if not all_errors:
+        return 0.0, 0.0
+    # Errors in panoramas are 3D vectors, errors in other images are 2D
+    dimension = max(len(error) for error in all_errors)
+    all_errors = [np.pad(error, (0, dimension - len(error))) for error in all_errors]
     robust_mean = np.median(all_errors, axis=0)
     robust_std = 1.486 * np.median(
         np.linalg.norm(np.array(all_errors) - robust_mean, axis=1)
@@ -1271,7 +1276,8 @@ def remove_outliers(
         for shot_id, error in reconstruction.points[
             point_id
         ].reprojection_errors.items():
-            error_sqr = error[0] ** 2 + error[1] ** 2
+            # Errors in panoramas have three components
+            error_sqr = np.dot(error, error)
             if error_sqr > threshold_sqr:
                 outliers.append((point_id, shot_id))
 
-- 
2.43.0


From ddc6e1f7aa199900f9ff852e5e8273558affc69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:56 +0000
Subject: [PATCH 060/192] fix: the triangulation algorithm ignored the poses of
 rig cameras

---
 opensfm/reconstruction_helpers.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/opensfm/reconstruction_helpers.py b/opensfm/reconstruction_helpers.py
index c0ee934..d70796c 100644
--- a/opensfm/reconstruction_helpers.py
+++ b/opensfm/reconstruction_helpers.py
@@ -87,6 +87,7 @@ def reconstruction_from_metadata(
     """Initialize a reconstruction by using EXIF data for constructing shot poses and cameras."""
     data.init_reference()
     rig_assignments = rig.rig_assignments_per_image(data.load_rig_assignments())
+    rig_cameras = data.load_rig_cameras()
 
     reconstruction = types.Reconstruction()
     reconstruction.reference = data.load_reference()
@@ -100,7 +101,11 @@ def reconstruction_from_metadata(
             rig_instance_id = image
             rig_camera_id = camera_id
 
-        reconstruction.add_rig_camera(pymap.RigCamera(pygeometry.Pose(), rig_camera_id))
+        reconstruction.add_rig_camera(
+            rig_cameras.get(
+                rig_camera_id, pymap.RigCamera(pygeometry.Pose(), rig_camera_id)
+            )
+        )
         reconstruction.add_rig_instance(pymap.RigInstance(rig_instance_id))
         shot = reconstruction.create_shot(
             shot_id=image,
-- 
2.43.0


From a92b5c7424175f508c16c77b99f24267bddd9686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:02 +0000
Subject: [PATCH 061/192] fix: features of undistorted images were left at
 their distorted positions

---
 opensfm/undistort.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/opensfm/undistort.py b/opensfm/undistort.py
index 91384b3..80dd73d 100644
--- a/opensfm/undistort.py
+++ b/opensfm/undistort.py
@@ -417,6 +417,12 @@ def add_subshot_tracks(
         add_pano_subshot_tracks(tracks_manager, utracks_manager, shot, subshot)
     else:
         for track_id, obs in tracks_manager.get_shot_observations(shot.id).items():
+            # pyre-fixme[6]: opensfm pybind / numpy stubs gap — runtime ok.
+            bearing = shot.camera.pixel_bearing(obs.point)
+            if bearing[2] <= 0:
+                continue
+            # pyre-fixme[6]: opensfm pybind / numpy stubs gap — runtime ok.
+            obs.point = subshot.camera.project(bearing)
             utracks_manager.add_observation(subshot.id, track_id, obs)
 
 
-- 
2.43.0


From 5223f0373f628747b3f6c2653546802e209d0a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:29 +0000
Subject: [PATCH 062/192] fix: a failed depth map was replaced by the one of
 its neighbor, and crashed when all failed

---
 opensfm/dense.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/opensfm/dense.py b/opensfm/dense.py
index 19a107a..ba55d5c 100644
--- a/opensfm/dense.py
+++ b/opensfm/dense.py
@@ -180,6 +180,9 @@ def clean_depthmap(
     if data.clean_depthmap_exists(shot.id):
         logger.info("Using precomputed clean depthmap {}".format(shot.id))
         return
+    if not data.raw_depthmap_exists(shot.id):
+        logger.warning("No raw depthmap to clean for image {}".format(shot.id))
+        return
     logger.info("Cleaning depthmap for image {}".format(shot.id))
 
     dc = pydense.DepthmapCleaner()
@@ -226,6 +229,9 @@ def prune_depthmap(
     if data.pruned_depthmap_exists(shot.id):
         logger.info("Using precomputed pruned depthmap {}".format(shot.id))
         return
+    if not data.clean_depthmap_exists(shot.id):
+        logger.warning("No clean depthmap to prune for image {}".format(shot.id))
+        return
     logger.info("Pruning depthmap for image {}".format(shot.id))
 
     dp = pydense.DepthmapPruner()
-- 
2.43.0


From 6cbebd057c9ca894a5fb43bcf1304ac89f3a59b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:26 +0000
Subject: [PATCH 063/192] fix: submodel neighbors were computed from positions
 rounded to single precision

---
 opensfm/actions/create_submodels.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/opensfm/actions/create_submodels.py b/opensfm/actions/create_submodels.py
index 001cc5f..553865b 100644
--- a/opensfm/actions/create_submodels.py
+++ b/opensfm/actions/create_submodels.py
@@ -78,7 +78,7 @@ def _read_image_groups(meta_data: MetaDataSet) -> None:
         centers_count[label] += 1
 
     images = np.array(images)
-    positions = np.array(positions, np.float32)
+    positions = np.array(positions)
     labels = np.array(labels)
     centers /= centers_count
 
@@ -92,15 +92,20 @@ def _cluster_images(meta_data: MetaDataSet, cluster_size: float) -> None:
         images.append(image)
         positions.append([lat, lon])
 
-    positions = np.array(positions, np.float32)
+    positions = np.array(positions)
     images = np.array(images).reshape((len(images), 1))
 
     K = float(images.shape[0]) / cluster_size
     K = int(np.ceil(K))
 
+    # Clustering uses single precision, which is too coarse for coordinates
+    # in degrees unless they are relative to a nearby origin.
+    origin = np.mean(positions, axis=0)
     _, labels, centers = cast(
-        Tuple[NDArray, NDArray, NDArray], tools.kmeans(positions, K)
+        Tuple[NDArray, NDArray, NDArray],
+        tools.kmeans((positions - origin).astype(np.float32), K),
     )
+    centers = centers + origin
 
     images = images.ravel()
     labels = labels.ravel()
-- 
2.43.0


From 6c12c7ce190762dde0155c4bc0456cc5ff8ce067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:26 +0000
Subject: [PATCH 064/192] fix: splitting by image groups failed when a group
 has no image with GPS

---
 opensfm/actions/create_submodels.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/opensfm/actions/create_submodels.py b/opensfm/actions/create_submodels.py
index 553865b..d542082 100644
--- a/opensfm/actions/create_submodels.py
+++ b/opensfm/actions/create_submodels.py
@@ -1,6 +1,5 @@
 # pyre-strict
 import logging
-from collections import defaultdict
 from typing import cast, Tuple
 
 import numpy as np
@@ -55,12 +54,12 @@ def _create_image_list(data: DataSet, meta_data: MetaDataSet) -> None:
 
 def _read_image_groups(meta_data: MetaDataSet) -> None:
     image_cluster = {}
-    cluster_images = defaultdict(list)
     for image, cluster in meta_data.load_image_groups():
         image_cluster[image] = cluster
-        cluster_images[cluster].append(image)
-    K = len(cluster_images)
-    cluster_index = dict(zip(sorted(cluster_images.keys()), range(K)))
+    # Images without GPS are not part of any submodel
+    clusters = {image_cluster[image] for image, _, _ in meta_data.images_with_gps()}
+    K = len(clusters)
+    cluster_index = dict(zip(sorted(clusters), range(K)))
 
     images = []
     positions = []
-- 
2.43.0


From 8dc8106e1b12dcb8834e77d0e136cd0fbdb3a707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:46 +0000
Subject: [PATCH 065/192] fix: splitting a dataset with a single image with GPS
 failed

---
 opensfm/large/tools.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/opensfm/large/tools.py b/opensfm/large/tools.py
index 5dc3f2b..5cc6706 100644
--- a/opensfm/large/tools.py
+++ b/opensfm/large/tools.py
@@ -40,6 +40,8 @@ def kmeans(
     criteria = (cv2.TERM_CRITERIA_MAX_ITER, max_iter, 1.0)
     flags = cv2.KMEANS_PP_CENTERS
 
+    # OpenCV takes a matrix with a single row for a row of scalar samples
+    samples = samples.reshape(len(samples), 1, -1)
     if context.OPENCV3:
         return cv2.kmeans(samples, nclusters, None, criteria, attempts, flags)
     else:
-- 
2.43.0


From 6859286dcb739fef1b2fb9a8e5f9ae8310f65786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:56 +0000
Subject: [PATCH 066/192] fix: the COLMAP export wrote invalid quaternions for
 the identity rotation

---
 opensfm/actions/export_colmap.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/opensfm/actions/export_colmap.py b/opensfm/actions/export_colmap.py
index 1d71461..217b58d 100644
--- a/opensfm/actions/export_colmap.py
+++ b/opensfm/actions/export_colmap.py
@@ -666,16 +666,15 @@ def export_points_reconstruction(
 
 
 def angle_axis_to_quaternion(angle_axis: NDArray) -> List[float]:
-    angle = np.linalg.norm(angle_axis)
+    angle = float(np.linalg.norm(angle_axis))
 
-    x = angle_axis[0] / angle
-    y = angle_axis[1] / angle
-    z = angle_axis[2] / angle
+    # sin(angle / 2) / angle, that tends to 1/2 for small angles
+    scale = math.sin(angle / 2.0) / angle if angle > 0 else 0.5
 
     qw = math.cos(angle / 2.0)
-    qx = x * math.sqrt(1 - qw * qw)
-    qy = y * math.sqrt(1 - qw * qw)
-    qz = z * math.sqrt(1 - qw * qw)
+    qx = angle_axis[0] * scale
+    qy = angle_axis[1] * scale
+    qz = angle_axis[2] * scale
 
     return [qw, qx, qy, qz]
 
-- 
2.43.0


From 7f33ac34e41035c129e82edf3d5b38520308aa25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:56 +0000
Subject: [PATCH 067/192] fix: the point tracks of the COLMAP export pointed to
 the wrong image features

---
 opensfm/actions/export_colmap.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/opensfm/actions/export_colmap.py b/opensfm/actions/export_colmap.py
index 217b58d..83e62bf 100644
--- a/opensfm/actions/export_colmap.py
+++ b/opensfm/actions/export_colmap.py
@@ -588,10 +588,9 @@ def export_images_reconstruction(
                     if point_id in points_map:
                         colmap_point_id = points_map[point_id]
 
-                if colmap_point_id != -1:
-                    x, y = features_map[shot_id][feature_id]
-                    format_line += "%f %f %d "
-                    points_tuple += [x, y, colmap_point_id]
+                x, y = features_map[shot_id][feature_id]
+                format_line += "%f %f %d "
+                points_tuple += [x, y, colmap_point_id]
             format_line += "\n"
 
             if binary:
@@ -599,7 +598,7 @@ def export_images_reconstruction(
                 for i in range(0, len(points_tuple), 3):
                     x, y, colmap_point_id = points_tuple[i : i + 3]
                     fout_bin.write(pack("<2d", x, y))
-                    fout_bin.write(pack("<Q", colmap_point_id))
+                    fout_bin.write(pack("<q", colmap_point_id))
             else:
                 # pyrefly: ignore [unbound-name]
                 fout_txt.write(format_line % tuple(format_tuple + points_tuple))
-- 
2.43.0


From 50a46fd55c2253a4595a3ff8028a613fd0ed8281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:56 +0000
Subject: [PATCH 068/192] fix: the COLMAP export did not scale the principal
 point of fisheye_opencv cameras

---
 opensfm/actions/export_colmap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opensfm/actions/export_colmap.py b/opensfm/actions/export_colmap.py
index 83e62bf..3ccb7b7 100644
--- a/opensfm/actions/export_colmap.py
+++ b/opensfm/actions/export_colmap.py
@@ -393,8 +393,8 @@ def camera_to_colmap_params(camera: pygeometry.Camera) -> Tuple[float, ...]:
         return f, fy, c_x, c_y, k1, k2, p1, p2, k3, 0.0, 0.0, 0.0
     elif camera.projection_type == "fisheye_opencv":
         fy = f * camera.aspect_ratio
-        cx = w * 0.5 + camera.principal_point[0]
-        cy = h * 0.5 + camera.principal_point[1]
+        cx = w * 0.5 + normalizer * camera.principal_point[0]
+        cy = h * 0.5 + normalizer * camera.principal_point[1]
         k1 = camera.k1
         k2 = camera.k2
         k3 = camera.k3
-- 
2.43.0


From 85e65c9d581d0d0f77984697b3ca6cc30b912062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:56 +0000
Subject: [PATCH 069/192] fix: the binary COLMAP export failed on non-ASCII
 image names

---
 opensfm/actions/export_colmap.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/opensfm/actions/export_colmap.py b/opensfm/actions/export_colmap.py
index 3ccb7b7..48dfc32 100644
--- a/opensfm/actions/export_colmap.py
+++ b/opensfm/actions/export_colmap.py
@@ -558,9 +558,7 @@ def export_images_reconstruction(
                 fout_bin.write(pack("<I", colmap_shot_id))
                 fout_bin.write(pack("<7d", *(list(q) + list(t))))
                 fout_bin.write(pack("<I", colmap_camera_id))
-                for char in shot_id:
-                    fout_bin.write(pack("<c", char.encode("utf-8")))
-                fout_bin.write(pack("<c", b"\x00"))
+                fout_bin.write(shot_id.encode("utf-8") + b"\x00")
             format_line = "%d %f %f %f %f %f %f %f %d %s\n"
             format_tuple = [
                 colmap_shot_id,
-- 
2.43.0


From c37405d9f427a1ca4de3c7948ce13ff646c175ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:56 +0000
Subject: [PATCH 070/192] fix: the COLMAP export wrote image features half a
 pixel away from their position

---
 opensfm/actions/export_colmap.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/opensfm/actions/export_colmap.py b/opensfm/actions/export_colmap.py
index 48dfc32..0056173 100644
--- a/opensfm/actions/export_colmap.py
+++ b/opensfm/actions/export_colmap.py
@@ -444,8 +444,10 @@ def export_features(
         features_data = data.load_features(image)
         if not features_data:
             continue
-        feat = features.denormalized_image_coordinates(
-            features_data.points, width, height
+        # In COLMAP, the center of the upper left pixel is at (0.5, 0.5)
+        feat = (
+            features.denormalized_image_coordinates(features_data.points, width, height)
+            + 0.5
         )
         features_map[image] = feat
         db.add_keypoints(images_map[image], feat)
-- 
2.43.0


From b65510fbb5236738d223229a5b8a9a66fe4a8046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:56 +0000
Subject: [PATCH 071/192] fix: the COLMAP export mixed up points of different
 reconstructions with the same id

---
 opensfm/actions/export_colmap.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/opensfm/actions/export_colmap.py b/opensfm/actions/export_colmap.py
index 0056173..46d19f6 100644
--- a/opensfm/actions/export_colmap.py
+++ b/opensfm/actions/export_colmap.py
@@ -88,7 +88,7 @@ def run_dataset(data: DataSet, binary: bool) -> None:
         if data.reconstruction_exists():
             export_ini_file(export_folder, database_path, images_path, data.io_handler)
             export_cameras_reconstruction(data, export_folder, camera_map, binary)
-            points_map = export_points_reconstruction(
+            points_maps = export_points_reconstruction(
                 data, export_folder, images_map, binary
             )
             export_images_reconstruction(
@@ -97,7 +97,7 @@ def run_dataset(data: DataSet, binary: bool) -> None:
                 camera_map,
                 images_map,
                 features_map,
-                points_map,
+                points_maps,
                 binary,
             )
         db.commit()
@@ -533,7 +533,7 @@ def export_images_reconstruction(
     camera_map: Dict[str, int],
     images_map: Dict[str, int],
     features_map: Dict[str, NDArray],
-    points_map: Dict[str, int],
+    points_maps: List[Dict[str, int]],
     binary: bool = False,
 ) -> None:
     reconstructions = data.load_reconstruction()
@@ -548,7 +548,7 @@ def export_images_reconstruction(
     else:
         fout_txt = data.io_handler.open_wt(os.path.join(path, "images.txt"))
 
-    for reconstruction in reconstructions:
+    for reconstruction, points_map in zip(reconstructions, points_maps):
         for shot_id, shot in reconstruction.shots.items():
             colmap_camera_id = camera_map[shot.camera.id]
             colmap_shot_id = images_map[shot_id]
@@ -606,11 +606,11 @@ def export_images_reconstruction(
 
 def export_points_reconstruction(
     data: DataSet, path: str, images_map: Dict[str, int], binary: bool = False
-) -> Dict[str, int]:
+) -> List[Dict[str, int]]:
     reconstructions = data.load_reconstruction()
     tracks_manager = data.load_tracks_manager()
 
-    points_map = {}
+    points_maps = []
 
     if binary:
         fout_bin = data.io_handler.open_wb(os.path.join(path, "points3D.bin"))
@@ -623,6 +623,8 @@ def export_points_reconstruction(
 
     i = 0
     for reconstruction in reconstructions:
+        points_map = {}
+        points_maps.append(points_map)
         for point in reconstruction.points.values():
             c = point.coordinates
             cl = point.color
@@ -661,7 +663,7 @@ def export_points_reconstruction(
                 fout_txt.write(format_line % tuple(format_tuple + track_tuple))
             points_map[point.id] = i
             i += 1
-    return points_map
+    return points_maps
 
 
 def angle_axis_to_quaternion(angle_axis: NDArray) -> List[float]:
-- 
2.43.0


From 5c90ee77b29cd09f5b14082cc1a6c7b2cf89cef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:56 +0000
Subject: [PATCH 072/192] fix: exporting several geocoords outputs at once
 overwrote the first one

---
 opensfm/actions/export_geocoords.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/opensfm/actions/export_geocoords.py b/opensfm/actions/export_geocoords.py
index 966ef14..a93662c 100644
--- a/opensfm/actions/export_geocoords.py
+++ b/opensfm/actions/export_geocoords.py
@@ -44,26 +44,28 @@ def run_dataset(
     t = _get_transformation(reference, projection)
 
     if transformation:
-        output = output or "geocoords_transformation.txt"
-        output_path = os.path.join(data.data_path, output)
+        output_path = os.path.join(
+            data.data_path, output or "geocoords_transformation.txt"
+        )
         _write_transformation(t, output_path)
 
     if image_positions:
         reconstructions = data.load_reconstruction()
-        output = output or "image_geocoords.tsv"
-        output_path = os.path.join(data.data_path, output)
+        output_path = os.path.join(data.data_path, output or "image_geocoords.tsv")
         _transform_image_positions(reconstructions, t, output_path)
 
     if reconstruction:
         reconstructions = data.load_reconstruction()
         for r in reconstructions:
             _transform_reconstruction(r, t)
-        output = output or "reconstruction.geocoords.json"
-        data.save_reconstruction(reconstructions, output)
+        data.save_reconstruction(
+            reconstructions, output or "reconstruction.geocoords.json"
+        )
 
     if dense:
-        output = output or "undistorted/depthmaps/merged.geocoords.ply"
-        output_path = os.path.join(data.data_path, output)
+        output_path = os.path.join(
+            data.data_path, output or "undistorted/depthmaps/merged.geocoords.ply"
+        )
         udata = data.undistorted_dataset()
         _transform_dense_point_cloud(udata, t, output_path)
 
-- 
2.43.0


From 39e9809fc0c8710b55e69ba81f581f8c684fc4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:56 +0000
Subject: [PATCH 073/192] fix: the reconstruction exported to geocoords had
 misplaced cameras and non-orthonormal rotations

---
 opensfm/actions/export_geocoords.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/opensfm/actions/export_geocoords.py b/opensfm/actions/export_geocoords.py
index a93662c..f189628 100644
--- a/opensfm/actions/export_geocoords.py
+++ b/opensfm/actions/export_geocoords.py
@@ -130,10 +130,13 @@ def _transform_reconstruction(
     A, b = transformation[:3, :3], transformation[:3, 3]
     A1 = np.linalg.inv(A)
 
-    for shot in reconstruction.shots.values():
-        R = shot.pose.get_rotation_matrix()
-        shot.pose.set_rotation_matrix(np.dot(R, A1))
-        shot.pose.set_origin(np.dot(A, shot.pose.get_origin()) + b)
+    for rig_instance in reconstruction.rig_instances.values():
+        pose = rig_instance.pose
+        origin = np.dot(A, pose.get_origin()) + b
+        # The transformation has some scale and shear: use the closest rotation
+        U, _, Vt = np.linalg.svd(np.dot(pose.get_rotation_matrix(), A1))
+        pose.set_rotation_matrix(np.dot(U, Vt))
+        pose.set_origin(origin)
 
     for point in reconstruction.points.values():
         point.coordinates = list(np.dot(A, point.coordinates) + b)
-- 
2.43.0


From b39b5e736e1c3372baf44b747c99641405e18002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:56 +0000
Subject: [PATCH 074/192] fix: exporting the dense point cloud to geocoords
 failed

---
 opensfm/actions/export_geocoords.py | 24 +++++++-----------------
 1 file changed, 7 insertions(+), 17 deletions(-)

diff --git a/opensfm/actions/export_geocoords.py b/opensfm/actions/export_geocoords.py
index f189628..548a4ad 100644
--- a/opensfm/actions/export_geocoords.py
+++ b/opensfm/actions/export_geocoords.py
@@ -147,20 +147,10 @@ def _transform_dense_point_cloud(
 ) -> None:
     """Apply a transformation to the merged point cloud."""
     A, b = transformation[:3, :3], transformation[:3, 3]
-    input_path = udata.point_cloud_file()
-    with io.open_rt(input_path) as fin:
-        with io.open_wt(output_path) as fout:
-            for i, line in enumerate(fin):
-                if i < 13:
-                    fout.write(line)
-                else:
-                    x, y, z, nx, ny, nz, red, green, blue = line.split()
-                    # pyre-fixme[6]: For 2nd argument expected `Union[Sequence[Sequen...
-                    x, y, z = np.dot(A, map(float, [x, y, z])) + b
-                    # pyre-fixme[6]: For 2nd argument expected `Union[Sequence[Sequen...
-                    nx, ny, nz = np.dot(A, map(float, [nx, ny, nz]))
-                    fout.write(
-                        "{} {} {} {} {} {} {} {} {}\n".format(
-                            x, y, z, nx, ny, nz, red, green, blue
-                        )
-                    )
+    points, normals, colors, labels = udata.load_point_cloud()
+    points = points.dot(A.T) + b
+    normals = normals.dot(np.linalg.inv(A))
+    norms = np.linalg.norm(normals, axis=1, keepdims=True)
+    normals = normals / np.where(norms > 0, norms, 1.0)
+    with io.open_wt(output_path) as fout:
+        io.point_cloud_to_ply(points, normals, colors, labels, fout)
-- 
2.43.0


From 29638ced75574fd9959e384967378aa1782e3f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:56 +0000
Subject: [PATCH 075/192] fix: the PMVS camera files started with a comment
 instead of CONTOUR

---
 opensfm/actions/export_pmvs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opensfm/actions/export_pmvs.py b/opensfm/actions/export_pmvs.py
index a690fba..54c9678 100644
--- a/opensfm/actions/export_pmvs.py
+++ b/opensfm/actions/export_pmvs.py
@@ -143,7 +143,7 @@ def export(
 
         new_txt = os.path.join(output_path, "txt", base + ".txt")
         with open(new_txt, "wb") as f:
-            np.savetxt(f, P, str("%f"), header="CONTOUR")
+            np.savetxt(f, P, str("%f"), header="CONTOUR", comments="")
 
     fvis.close()
 
-- 
2.43.0


From 5af121501bd489d07e81c7971fe8077f59c14051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:56 +0000
Subject: [PATCH 076/192] fix: the PMVS export ignored the list of images to
 export

---
 opensfm/actions/export_pmvs.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/opensfm/actions/export_pmvs.py b/opensfm/actions/export_pmvs.py
index 54c9678..1daac2a 100644
--- a/opensfm/actions/export_pmvs.py
+++ b/opensfm/actions/export_pmvs.py
@@ -91,7 +91,12 @@ def export(
     io.mkdir_p(os.path.join(output_path, "txt"))
     io.mkdir_p(os.path.join(output_path, "models"))
 
-    shot_index = {image: i for i, image in enumerate(reconstruction.shots)}
+    shots = [
+        image
+        for image in reconstruction.shots
+        if export_only is None or image in export_only
+    ]
+    shot_index = {image: i for i, image in enumerate(shots)}
 
     fvis = open(os.path.join(output_path, "vis.dat"), "w")
     fvis.write("VISDATA\n")
-- 
2.43.0


From a2da72fd188777b2fd7a5b00cb80c252c4c3de9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:56 +0000
Subject: [PATCH 077/192] fix: the PMVS export swapped the color channels of
 undistorted images

---
 opensfm/actions/export_pmvs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opensfm/actions/export_pmvs.py b/opensfm/actions/export_pmvs.py
index 1daac2a..ebc63a5 100644
--- a/opensfm/actions/export_pmvs.py
+++ b/opensfm/actions/export_pmvs.py
@@ -126,7 +126,7 @@ def export(
         # radially undistort the original image
         camera = shot.camera
         if undistorted:
-            undistorted_image = udata.load_undistorted_image(image)
+            undistorted_image = udata.load_undistorted_image(image)[:, :, ::-1]
         else:
             original_image = data.load_image(image)[:, :, ::-1]
             original_h, original_w = original_image.shape[:2]
-- 
2.43.0


From f5ec0f220a0daf19b6ace3d81765132f75503a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:56 +0000
Subject: [PATCH 078/192] fix: the VisualSFM export misplaced the features of
 images that are not square

---
 opensfm/actions/export_visualsfm.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/opensfm/actions/export_visualsfm.py b/opensfm/actions/export_visualsfm.py
index 2f7defb..0124410 100644
--- a/opensfm/actions/export_visualsfm.py
+++ b/opensfm/actions/export_visualsfm.py
@@ -99,8 +99,9 @@ def export(
 
                 if shot_key in shots.keys():
                     v = obs.point
-                    x = (0.5 + v[0]) * shot_size_cache[shot_key][1]
-                    y = (0.5 + v[1]) * shot_size_cache[shot_key][0]
+                    h, w = shot_size_cache[shot_key]
+                    x = v[0] * max(w, h) + 0.5 * w
+                    y = v[1] * max(w, h) + 0.5 * h
                     view_line.append(
                         " ".join(map(str, [shot_index[shot_key], obs.id, x, y]))
                     )
-- 
2.43.0


From b1ee0a428681a3a7c87eb66da2cced9e534f53c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:56 +0000
Subject: [PATCH 079/192] fix: the OpenMVS export gave the current folder as
 mask of images without mask

---
 opensfm/actions/export_openmvs.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/opensfm/actions/export_openmvs.py b/opensfm/actions/export_openmvs.py
index 1ef4231..9cd4d2d 100644
--- a/opensfm/actions/export_openmvs.py
+++ b/opensfm/actions/export_openmvs.py
@@ -52,12 +52,14 @@ def export(
         if shot.camera.projection_type == "perspective":
             image_path = udata._undistorted_image_file(shot.id)
             mask_path = udata._undistorted_mask_file(shot.id)
-            if not os.path.isfile(mask_path):
+            if os.path.isfile(mask_path):
+                mask_path = os.path.abspath(mask_path)
+            else:
                 mask_path = ""
 
             exporter.add_shot(
                 str(os.path.abspath(image_path)),
-                str(os.path.abspath(mask_path)),
+                str(mask_path),
                 str(shot.id),
                 str(shot.camera.id),
                 shot.pose.get_rotation_matrix(),
-- 
2.43.0


From d322a5f62c25b029b061df270d8b4c7102e64bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:56 +0000
Subject: [PATCH 080/192] fix: the OpenMVS export assigned views in images that
 are not exported to the first image

---
 opensfm/actions/export_openmvs.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/opensfm/actions/export_openmvs.py b/opensfm/actions/export_openmvs.py
index 9cd4d2d..745f87f 100644
--- a/opensfm/actions/export_openmvs.py
+++ b/opensfm/actions/export_openmvs.py
@@ -45,6 +45,7 @@ def export(
             # pyre-fixme[6]: opensfm pybind / numpy stubs gap — runtime ok.
             exporter.add_camera(str(camera.id), K, w, h)
 
+    exported = set()
     for shot in reconstruction.shots.values():
         if export_only is not None and shot.id not in export_only:
             continue
@@ -65,14 +66,11 @@ def export(
                 shot.pose.get_rotation_matrix(),
                 shot.pose.get_origin(),
             )
+            exported.add(shot.id)
 
     for point in reconstruction.points.values():
         observations = tracks_manager.get_track_observations(point.id)
-
-        if export_only is not None:
-            shots = [k for k in observations if k in export_only]
-        else:
-            shots = list(observations)
+        shots = [k for k in observations if k in exported]
 
         if shots:
             coordinates = np.array(point.coordinates, dtype=np.float64)
-- 
2.43.0


From 6dbcb4f1fa95ee5fa4eb9db8ab490e6b4c315168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:56 +0000
Subject: [PATCH 081/192] fix: the Bundler export failed on brown cameras

---
 opensfm/actions/export_bundler.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/opensfm/actions/export_bundler.py b/opensfm/actions/export_bundler.py
index c54eb77..4240d46 100644
--- a/opensfm/actions/export_bundler.py
+++ b/opensfm/actions/export_bundler.py
@@ -73,12 +73,8 @@ def export_bundler(
             if shot_id in shots:
                 shot = shots[shot_id]
                 camera = shot.camera
-                if shot.camera.projection_type == "brown":
-                    # Will approximate Brown model, not optimal
-                    # pyrefly: ignore [missing-attribute]
-                    focal_normalized = camera.focal_x
-                else:
-                    focal_normalized = camera.focal
+                # Will approximate Brown model, not optimal
+                focal_normalized = camera.focal
                 scale = max(camera.width, camera.height)
                 focal = focal_normalized * scale
                 k1 = camera.k1
-- 
2.43.0


From 0fe0636fcea9a299f25c38c6532b0196e02b8dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:56 +0000
Subject: [PATCH 082/192] fix: the undistorted Bundler export failed with
 several reconstructions

---
 opensfm/actions/export_bundler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opensfm/actions/export_bundler.py b/opensfm/actions/export_bundler.py
index 4240d46..0432661 100644
--- a/opensfm/actions/export_bundler.py
+++ b/opensfm/actions/export_bundler.py
@@ -28,7 +28,7 @@ def run_dataset(
     if undistorted:
         reconstructions = udata.load_undistorted_reconstruction()
         track_manager = udata.load_undistorted_tracks_manager()
-        images = reconstructions[0].shots.keys()
+        images = list(dict.fromkeys(im for r in reconstructions for im in r.shots))
     else:
         reconstructions = data.load_reconstruction()
         track_manager = data.load_tracks_manager()
-- 
2.43.0


From ea156cae27fcad2a9666bbafd0512d854097cd59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:56 +0000
Subject: [PATCH 083/192] fix: the number of views of exported PLY points
 overflowed its type

---
 opensfm/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opensfm/io.py b/opensfm/io.py
index 6f87d3c..17b4dda 100644
--- a/opensfm/io.py
+++ b/opensfm/io.py
@@ -1144,7 +1144,7 @@ def ply_header(
         ]
 
     if point_num_views:
-        header += ["property uchar views"]
+        header += ["property int views"]
 
     header += ["end_header"]
 
-- 
2.43.0


From 68b2eb68f231c304d7e1a5b27eb5eb92d76e680b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:39 +0000
Subject: [PATCH 084/192] fix: the COLMAP export stored fundamental matrices in
 the wrong direction when images are not sorted by name

---
 opensfm/actions/export_colmap.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/opensfm/actions/export_colmap.py b/opensfm/actions/export_colmap.py
index 46d19f6..479c8c8 100644
--- a/opensfm/actions/export_colmap.py
+++ b/opensfm/actions/export_colmap.py
@@ -341,6 +341,7 @@ class COLMAPDatabase(sqlite3.Connection):
 
         if image_id1 > image_id2:
             matches = matches[:, ::-1]
+            F, E, H = np.transpose(F), np.transpose(E), np.linalg.inv(H)
 
         pair_id = image_ids_to_pair_id(image_id1, image_id2)
         matches = np.asarray(matches, np.uint32)
-- 
2.43.0


From 1e5dfc76a00849028419e710c34c5ebec7a0fb6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:00 +0000
Subject: [PATCH 085/192] fix: the PMVS export failed on images without any
 track, like some views of panoramas

---
 opensfm/actions/export_pmvs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opensfm/actions/export_pmvs.py b/opensfm/actions/export_pmvs.py
index ebc63a5..1850639 100644
--- a/opensfm/actions/export_pmvs.py
+++ b/opensfm/actions/export_pmvs.py
@@ -108,9 +108,9 @@ def export(
         logger.info("Image: %s %s" % (image, base))
 
         # vis.dat for this image
-        if image_graph:
+        if image_graph is not None:
             adj_indices = []
-            for adj_image in image_graph[image]:
+            for adj_image in image_graph[image] if image in image_graph else []:
                 # pyrefly: ignore [bad-argument-type]
                 weight = float(image_graph[image][adj_image]["weight"])
                 if weight > 0 and adj_image in shot_index:
-- 
2.43.0


From 71959f769b8b83540676b9939f826cc9f5fd9ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:05 +0000
Subject: [PATCH 086/192] fix: OPK angles mixed the ECEF north with the local
 vertical, so that they depended on the longitude

---
 opensfm/exif.py | 34 +++++-----------------------------
 1 file changed, 5 insertions(+), 29 deletions(-)

diff --git a/opensfm/exif.py b/opensfm/exif.py
index 9ec9c74..a1affce 100644
--- a/opensfm/exif.py
+++ b/opensfm/exif.py
@@ -10,7 +10,6 @@ import numpy as np
 import xmltodict as x2d
 from opensfm import pygeometry
 from opensfm.dataset_base import DataSetBase
-from opensfm.geo import ecef_from_lla
 from opensfm.sensors import camera_calibration, sensor_data
 
 logger: logging.Logger = logging.getLogger(__name__)
@@ -565,33 +564,10 @@ class EXIF:
                 # (Swap X/Y, flip Z)
                 cbb = np.array([[0, 1, 0], [1, 0, 0], [0, 0, -1]])
 
-                delta = 1e-7
-
-                p1 = np.array(
-                    ecef_from_lla(
-                        geo["latitude"] + delta,
-                        geo["longitude"],
-                        geo.get("altitude", 0),
-                    )
-                )
-                p2 = np.array(
-                    ecef_from_lla(
-                        geo["latitude"] - delta,
-                        geo["longitude"],
-                        geo.get("altitude", 0),
-                    )
-                )
-                xnp = p1 - p2
-                m = np.linalg.norm(xnp)
-
-                if m == 0:
-                    logger.debug("Cannot compute OPK angles, divider = 0")
-                    return opk
-
-                # Unit vector pointing north
-                xnp /= m
-
-                znp = np.array([0, 0, -1]).T
+                # Unit vectors pointing north and down in the local
+                # East, North, Up frame, which OPK angles refer to
+                xnp = np.array([0, 1, 0])
+                znp = np.array([0, 0, -1])
                 ynp = np.cross(znp, xnp)
 
                 cen = np.array([xnp, ynp, znp]).T
@@ -601,7 +577,7 @@ class EXIF:
 
                 opk = {}
                 opk["omega"] = np.degrees(np.arctan2(-ceb[1][2], ceb[2][2]))
-                opk["phi"] = np.degrees(np.arcsin(ceb[0][2]))
+                opk["phi"] = np.degrees(np.arcsin(np.clip(ceb[0][2], -1.0, 1.0)))
                 opk["kappa"] = np.degrees(np.arctan2(-ceb[0][1], ceb[0][0]))
 
         return opk
-- 
2.43.0


From b07cf388d8e7fed831def6ae5f867df064485e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:05 +0000
Subject: [PATCH 087/192] fix: the minutes of positive time zone offsets were
 added to the capture time

---
 opensfm/exif.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/opensfm/exif.py b/opensfm/exif.py
index a1affce..282c993 100644
--- a/opensfm/exif.py
+++ b/opensfm/exif.py
@@ -453,9 +453,10 @@ class EXIF:
                 if offset_tag in self.tags:
                     offset_time = self.tags[offset_tag].values
                     try:
-                        d += datetime.timedelta(
-                            hours=-int(offset_time[0:3]), minutes=int(offset_time[4:6])
+                        offset = datetime.timedelta(
+                            hours=int(offset_time[1:3]), minutes=int(offset_time[4:6])
                         )
+                        d += offset if offset_time[0] == "-" else -offset
                     except (TypeError, ValueError):
                         logger.debug(
                             'The "{0:s}" time zone offset in image file "{1:s}"'
-- 
2.43.0


From 844fa645b7278afd18f89504555153eb12faa61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:05 +0000
Subject: [PATCH 088/192] fix: the time zone offsets of images were ignored,
 exifread uses other names for their tags

---
 opensfm/exif.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/opensfm/exif.py b/opensfm/exif.py
index 282c993..c1f577f 100644
--- a/opensfm/exif.py
+++ b/opensfm/exif.py
@@ -427,11 +427,25 @@ class EXIF:
                 )
 
         time_strings = [
-            ("EXIF DateTimeOriginal", "EXIF SubSecTimeOriginal", "EXIF Tag 0x9011"),
-            ("EXIF DateTimeDigitized", "EXIF SubSecTimeDigitized", "EXIF Tag 0x9012"),
-            ("Image DateTime", "Image SubSecTime", "Image Tag 0x9010"),
+            (
+                "EXIF DateTimeOriginal",
+                "EXIF SubSecTimeOriginal",
+                ("EXIF OffsetTimeOriginal", "EXIF Tag 0x9011"),
+            ),
+            (
+                "EXIF DateTimeDigitized",
+                "EXIF SubSecTimeDigitized",
+                ("EXIF OffsetTimeDigitized", "EXIF Tag 0x9012"),
+            ),
+            (
+                "Image DateTime",
+                "EXIF SubSecTime",
+                ("EXIF OffsetTime", "EXIF Tag 0x9010"),
+            ),
         ]
-        for datetime_tag, subsec_tag, offset_tag in time_strings:
+        for datetime_tag, subsec_tag, offset_tags in time_strings:
+            # Older versions of exifread don't know the names of offset tags
+            offset_tag = next((t for t in offset_tags if t in self.tags), offset_tags[0])
             if datetime_tag in self.tags:
                 date_time = self.tags[datetime_tag].values
                 if subsec_tag in self.tags:
-- 
2.43.0


From ae026b19c2be1cbbdfd09ae57398aba59eb0000c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:05 +0000
Subject: [PATCH 089/192] fix: GPS time stamps right before a full minute were
 considered invalid

---
 opensfm/exif.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/opensfm/exif.py b/opensfm/exif.py
index c1f577f..4eb1839 100644
--- a/opensfm/exif.py
+++ b/opensfm/exif.py
@@ -411,13 +411,16 @@ class EXIF:
                 hours = int(hours_f)
                 minutes = int(minutes_f)
                 seconds = get_tag_as_float(self.tags, "GPS GPSTimeStamp", 2)
-                gps_timestamp_string = "{0:s} {1:02d}:{2:02d}:{3:02f}".format(
-                    self.tags["GPS GPSDate"].values, hours, minutes, seconds
+                if seconds is None:
+                    raise TypeError
+                gps_timestamp_string = "{0:s} {1:02d}:{2:02d}:{3:02d}".format(
+                    self.tags["GPS GPSDate"].values, hours, minutes, int(seconds)
                 )
                 return (
                     datetime.datetime.strptime(
-                        gps_timestamp_string, "%Y:%m:%d %H:%M:%S.%f"
+                        gps_timestamp_string, "%Y:%m:%d %H:%M:%S"
                     )
+                    + datetime.timedelta(seconds=seconds - int(seconds))
                     - datetime.datetime(1970, 1, 1)
                 ).total_seconds()
             except (TypeError, ValueError):
-- 
2.43.0


From 32b9309a8d5b39464d909c69a6fd1b31df50f219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:05 +0000
Subject: [PATCH 090/192] fix: metadata extraction failed on incomplete GPS
 tags, and on tags without values or with floating point ones

---
 opensfm/exif.py | 37 +++++++++++++++++--------------------
 1 file changed, 17 insertions(+), 20 deletions(-)

diff --git a/opensfm/exif.py b/opensfm/exif.py
index 4eb1839..e7e51f2 100644
--- a/opensfm/exif.py
+++ b/opensfm/exif.py
@@ -32,6 +32,8 @@ def eval_frac(
 def gps_to_decimal(
     values: List[exifread.utils.Ratio], reference: str
 ) -> Optional[float]:
+    if len(values) < 3:
+        return None
     sign = 1 if reference in "NE" else -1
     degrees = eval_frac(values[0])
     minutes = eval_frac(values[1])
@@ -42,8 +44,10 @@ def gps_to_decimal(
 
 
 def get_tag_as_float(tags: Dict[str, Any], key: str, index: int = 0) -> Optional[float]:
-    if key in tags:
+    if key in tags and index < len(tags[key].values):
         val = tags[key].values[index]
+        if isinstance(val, tuple):  # floating point fields
+            val = val[0]
         if isinstance(val, exifread.utils.Ratio):
             ret_val = eval_frac(val)
             if ret_val is None:
@@ -261,8 +265,10 @@ class EXIF:
             or "EXIF FocalPlaneXResolution" not in self.tags
         ):
             return None
-        resolution_unit = self.tags["EXIF FocalPlaneResolutionUnit"].values[0]
-        mm_per_unit = self.get_mm_per_unit(resolution_unit)
+        resolution_unit = get_tag_as_float(self.tags, "EXIF FocalPlaneResolutionUnit")
+        if resolution_unit is None:
+            return None
+        mm_per_unit = self.get_mm_per_unit(int(resolution_unit))
         if not mm_per_unit:
             return None
         pixels_per_unit = get_tag_as_float(self.tags, "EXIF FocalPlaneXResolution")
@@ -303,9 +309,9 @@ class EXIF:
     def extract_orientation(self) -> int:
         orientation = 1
         if "Image Orientation" in self.tags:
-            value = self.tags.get("Image Orientation").values[0]
-            if type(value) is int and value != 0:
-                orientation = value
+            values = self.tags["Image Orientation"].values
+            if values and type(values[0]) is int and values[0] != 0:
+                orientation = values[0]
         return orientation
 
     def extract_ref_lon_lat(self) -> Tuple[str, str]:
@@ -347,7 +353,7 @@ class EXIF:
     def extract_lon_lat(self) -> Tuple[Optional[float], Optional[float]]:
         if self.has_dji_latlon():
             lon, lat = self.extract_dji_lon_lat()
-        elif "GPS GPSLatitude" in self.tags:
+        elif "GPS GPSLatitude" in self.tags and "GPS GPSLongitude" in self.tags:
             reflon, reflat = self.extract_ref_lon_lat()
             lat = gps_to_decimal(self.tags["GPS GPSLatitude"].values, reflat)
             lon = gps_to_decimal(self.tags["GPS GPSLongitude"].values, reflon)
@@ -359,19 +365,12 @@ class EXIF:
         if self.has_dji_altitude():
             altitude = self.extract_dji_altitude()
         elif "GPS GPSAltitude" in self.tags:
-            alt_value = self.tags["GPS GPSAltitude"].values[0]
-            if isinstance(alt_value, exifread.utils.Ratio):
-                altitude = eval_frac(alt_value)
-            elif isinstance(alt_value, int):
-                altitude = float(alt_value)
-            else:
-                altitude = None
+            altitude = get_tag_as_float(self.tags, "GPS GPSAltitude")
 
             # Check if GPSAltitudeRef is equal to 1, which means GPSAltitude should be negative, reference: http://www.exif.org/Exif2-2.PDF#page=53
             if (
-                "GPS GPSAltitudeRef" in self.tags
-                and self.tags["GPS GPSAltitudeRef"].values[0] == 1
-                and altitude is not None
+                altitude is not None
+                and get_tag_as_float(self.tags, "GPS GPSAltitudeRef") == 1
             ):
                 altitude = -altitude
         else:
@@ -379,9 +378,7 @@ class EXIF:
         return altitude
 
     def extract_dop(self) -> Optional[float]:
-        if "GPS GPSDOP" in self.tags:
-            return eval_frac(self.tags["GPS GPSDOP"].values[0])
-        return None
+        return get_tag_as_float(self.tags, "GPS GPSDOP")
 
     def extract_geo(self) -> Dict[str, Any]:
         altitude = self.extract_altitude()
-- 
2.43.0


From 992e47b29298511d707ff856225613418ac54a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:05 +0000
Subject: [PATCH 091/192] fix: DJI coordinates without sign lost their first
 digit and became negative

---
 opensfm/exif.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/opensfm/exif.py b/opensfm/exif.py
index e7e51f2..ccf23db 100644
--- a/opensfm/exif.py
+++ b/opensfm/exif.py
@@ -328,11 +328,7 @@ class EXIF:
     def extract_dji_lon_lat(self) -> Tuple[float, float]:
         lon = self.xmp[0]["@drone-dji:Longitude"]
         lat = self.xmp[0]["@drone-dji:Latitude"]
-        lon_number = float(lon[1:])
-        lat_number = float(lat[1:])
-        lon_number = lon_number if lon[0] == "+" else -lon_number
-        lat_number = lat_number if lat[0] == "+" else -lat_number
-        return lon_number, lat_number
+        return float(lon), float(lat)
 
     def extract_dji_altitude(self) -> float:
         return float(self.xmp[0]["@drone-dji:AbsoluteAltitude"])
-- 
2.43.0


From c5101df96c92cd18cfa2d36e76735bbb17ffe57a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:05 +0000
Subject: [PATCH 092/192] fix: metadata extraction failed on malformed DJI
 coordinates instead of using the GPS ones

---
 opensfm/exif.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/opensfm/exif.py b/opensfm/exif.py
index ccf23db..c5ab81e 100644
--- a/opensfm/exif.py
+++ b/opensfm/exif.py
@@ -62,6 +62,13 @@ def get_tag_as_float(tags: Dict[str, Any], key: str, index: int = 0) -> Optional
         return None
 
 
+def is_float(value: Optional[str]) -> bool:
+    try:
+        return value is not None and np.isfinite(float(value))
+    except ValueError:
+        return False
+
+
 def compute_focal(
     focal_35: Optional[float],
     focal: Optional[float],
@@ -339,12 +346,14 @@ class EXIF:
     def has_dji_latlon(self) -> bool:
         return (
             self.has_xmp()
-            and "@drone-dji:Latitude" in self.xmp[0]
-            and "@drone-dji:Longitude" in self.xmp[0]
+            and is_float(self.xmp[0].get("@drone-dji:Latitude"))
+            and is_float(self.xmp[0].get("@drone-dji:Longitude"))
         )
 
     def has_dji_altitude(self) -> bool:
-        return self.has_xmp() and "@drone-dji:AbsoluteAltitude" in self.xmp[0]
+        return self.has_xmp() and is_float(
+            self.xmp[0].get("@drone-dji:AbsoluteAltitude")
+        )
 
     def extract_lon_lat(self) -> Tuple[Optional[float], Optional[float]]:
         if self.has_dji_latlon():
-- 
2.43.0


From 1ed53984abddcee5b65b656e144ab727ee67cee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:05 +0000
Subject: [PATCH 093/192] fix: projection types stored as attributes of the
 GPano metadata were ignored

---
 opensfm/exif.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/opensfm/exif.py b/opensfm/exif.py
index c5ab81e..3b88ade 100644
--- a/opensfm/exif.py
+++ b/opensfm/exif.py
@@ -253,7 +253,9 @@ class EXIF:
 
     def extract_projection_type(self) -> str:
         gpano = get_gpano_from_xmp(self.xmp)
-        return gpano.get("GPano:ProjectionType", "perspective")
+        return gpano.get(
+            "GPano:ProjectionType", gpano.get("@GPano:ProjectionType", "perspective")
+        )
 
     def extract_focal(self) -> Tuple[float, float]:
         make, model = self.extract_make(), self.extract_model()
-- 
2.43.0


From d8ab52b3314919e6f5e20731ba09262e730b7c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:05 +0000
Subject: [PATCH 094/192] fix: metadata extraction failed on empty XMP packets

---
 opensfm/exif.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/opensfm/exif.py b/opensfm/exif.py
index 3b88ade..97289a2 100644
--- a/opensfm/exif.py
+++ b/opensfm/exif.py
@@ -163,11 +163,11 @@ def get_xmp(fileobj: BinaryIO) -> List[Dict[str, Any]]:
         xdict = parse_xmp_string(xmp_str)
         if xdict is None:
             return []
-        xdict = xdict.get("x:xmpmeta", {})
-        xdict = xdict.get("rdf:RDF", {})
-        xdict = xdict.get("rdf:Description", {})
+        xdict = xdict.get("x:xmpmeta") or {}
+        xdict = xdict.get("rdf:RDF") or {}
+        xdict = xdict.get("rdf:Description") or {}
         if isinstance(xdict, list):
-            return xdict
+            return [x or {} for x in xdict]
         else:
             return [xdict]
     else:
-- 
2.43.0


From d97267092507c172ca6127a3dee367ea7c4028d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:05 +0000
Subject: [PATCH 095/192] fix: metadata extraction failed when the make or
 model is not stored as text

---
 opensfm/exif.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/opensfm/exif.py b/opensfm/exif.py
index 97289a2..2aca5dc 100644
--- a/opensfm/exif.py
+++ b/opensfm/exif.py
@@ -229,8 +229,7 @@ class EXIF:
             except UnicodeDecodeError:
                 return "unknown"
         else:
-            assert type(value) is str
-            return value
+            return value if type(value) is str else "unknown"
 
     def extract_make(self) -> str:
         # Camera make and model
-- 
2.43.0


From ef36a32466c5b8b41775a8b5227e90f9c3dc2d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:05 +0000
Subject: [PATCH 096/192] fix: the projection type of the first camera using a
 calibration of the database was kept for the next ones

---
 opensfm/exif.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/opensfm/exif.py b/opensfm/exif.py
index 2aca5dc..0e7e4c7 100644
--- a/opensfm/exif.py
+++ b/opensfm/exif.py
@@ -733,6 +733,8 @@ def calibration_from_metadata(
             or focal_ratio_calibration(metadata)
             or default_calibration(data)
         )
+    # Don't change the calibration found, which the next cameras may use too
+    calib = dict(calib)
     if "projection_type" not in calib:
         calib["projection_type"] = pt
     return calib
-- 
2.43.0


From f6aef814a0fe8f6a274956766b5e68e43cd142ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:24 +0000
Subject: [PATCH 097/192] fix: the calibration of the Parrot Bebop 2 was never
 found, makes and models are looked up in lower case

---
 opensfm/data/camera_calibration.yaml | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/opensfm/data/camera_calibration.yaml b/opensfm/data/camera_calibration.yaml
index 934394d..c7e73d5 100644
--- a/opensfm/data/camera_calibration.yaml
+++ b/opensfm/data/camera_calibration.yaml
@@ -56,9 +56,12 @@
             "hdr-as300": {"focal": 0.3958, "k1": -0.1496, "k2": 0.0201}
         }
     },
-    "PARROT":{
+    "parrot":{
         "MODEL":{
-            "Bebop 2": {"focal": 0.36666666666666666, "projection_type": "fisheye"}
+            "bebop 2": {
+                "focal": 0.36666666666666666, "k1": 0.0, "k2": 0.0,
+                "projection_type": "fisheye"
+            }
         }
     },
     "dji":{
-- 
2.43.0


From 59b9a039034b9b45d879e2a1870574b0176548e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:24 +0000
Subject: [PATCH 098/192] fix: calibrations by focal length were not found for
 makes which also have some by model

---
 opensfm/exif.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/opensfm/exif.py b/opensfm/exif.py
index 0e7e4c7..7e7a936 100644
--- a/opensfm/exif.py
+++ b/opensfm/exif.py
@@ -641,15 +641,9 @@ def hard_coded_calibration(exif: Dict[str, Any]) -> Optional[Dict[str, Any]]:
     models = raw_calibrations[make]
     if "ALL" in models:
         return models["ALL"]
-    if "MODEL" in models:
-        if model not in models["MODEL"]:
-            return None
+    if model in models.get("MODEL", {}):
         return models["MODEL"][model]
-    if "FOCAL" in models:
-        if fmm35 not in models["FOCAL"]:
-            return None
-        return models["FOCAL"][fmm35]
-    return None
+    return models.get("FOCAL", {}).get(fmm35)
 
 
 def focal_ratio_calibration(exif: Dict[str, Any]) -> Optional[Dict[str, Any]]:
-- 
2.43.0


From 9a99729e3b3b0ccb95a7200fd2dc514d1a6cc318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:24 +0000
Subject: [PATCH 099/192] fix: creating cameras failed when the calibration in
 the database lacks parameters of their projection type

---
 opensfm/exif.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/opensfm/exif.py b/opensfm/exif.py
index 7e7a936..82b7934 100644
--- a/opensfm/exif.py
+++ b/opensfm/exif.py
@@ -727,8 +727,13 @@ def calibration_from_metadata(
             or focal_ratio_calibration(metadata)
             or default_calibration(data)
         )
-    # Don't change the calibration found, which the next cameras may use too
-    calib = dict(calib)
+    # Don't change the calibration found, which the next cameras may use too.
+    # It may also lack parameters which only other projection types have.
+    calib = {
+        **default_calibration(data),
+        **{k: calib["focal"] for k in ("focal_x", "focal_y") if "focal" in calib},
+        **calib,
+    }
     if "projection_type" not in calib:
         calib["projection_type"] = pt
     return calib
-- 
2.43.0


From 69a0ed5345b6d254fc713d55149679725f18a43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:24 +0000
Subject: [PATCH 100/192] fix: cameras with dual projection could not be
 created from metadata

---
 opensfm/exif.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opensfm/exif.py b/opensfm/exif.py
index 82b7934..caee4c8 100644
--- a/opensfm/exif.py
+++ b/opensfm/exif.py
@@ -844,7 +844,7 @@ def camera_from_exif_metadata(
         )
     elif calib_pt == "dual":
         camera = pygeometry.Camera.create_dual(
-            calib["transition"], calib["focal"], calib["k1"], calib["k2"]
+            calib.get("transition", 0.5), calib["focal"], calib["k1"], calib["k2"]
         )
     elif pygeometry.Camera.is_panorama(calib_pt):
         camera = pygeometry.Camera.create_spherical()
-- 
2.43.0


From 605e8f4dc3c994ee60294e2b6d052414ff662336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:48 +0000
Subject: [PATCH 101/192] fix: metadata extraction failed on tags which are not
 numbers, and used image sizes of zero

---
 opensfm/exif.py | 38 ++++++++++++++------------------------
 1 file changed, 14 insertions(+), 24 deletions(-)

diff --git a/opensfm/exif.py b/opensfm/exif.py
index caee4c8..eca8053 100644
--- a/opensfm/exif.py
+++ b/opensfm/exif.py
@@ -57,15 +57,15 @@ def get_tag_as_float(tags: Dict[str, Any], key: str, index: int = 0) -> Optional
                 )
             return ret_val
         else:
-            return float(val)
+            return float(val) if is_float(val) else None
     else:
         return None
 
 
-def is_float(value: Optional[str]) -> bool:
+def is_float(value: Any) -> bool:
     try:
-        return value is not None and np.isfinite(float(value))
-    except ValueError:
+        return np.isfinite(float(value))
+    except (TypeError, ValueError):
         return False
 
 
@@ -199,26 +199,16 @@ class EXIF:
         self.fileobj_name: str = self.fileobj.name if name is None else name
 
     def extract_image_size(self) -> Tuple[int, int]:
-        if (
-            self.use_exif_size
-            and "EXIF ExifImageWidth" in self.tags
-            and "EXIF ExifImageLength" in self.tags
-        ):
-            width, height = (
-                int(self.tags["EXIF ExifImageWidth"].values[0]),
-                int(self.tags["EXIF ExifImageLength"].values[0]),
-            )
-        elif (
-            self.use_exif_size
-            and "Image ImageWidth" in self.tags
-            and "Image ImageLength" in self.tags
-        ):
-            width, height = (
-                int(self.tags["Image ImageWidth"].values[0]),
-                int(self.tags["Image ImageLength"].values[0]),
-            )
-        else:
-            height, width = self.image_size_loader()
+        if self.use_exif_size:
+            for width_tag, height_tag in (
+                ("EXIF ExifImageWidth", "EXIF ExifImageLength"),
+                ("Image ImageWidth", "Image ImageLength"),
+            ):
+                width = int(get_tag_as_float(self.tags, width_tag) or 0)
+                height = int(get_tag_as_float(self.tags, height_tag) or 0)
+                if width > 0 and height > 0:
+                    return width, height
+        height, width = self.image_size_loader()
         return width, height
 
     def _decode_make_model(self, value: Union[str, bytes]) -> str:
-- 
2.43.0


From 4f75e28a0a001a344a4890b8dca67e023afd82ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:48 +0000
Subject: [PATCH 102/192] fix: capture times were ignored when their fraction
 of second is blank or has many digits

---
 opensfm/exif.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/opensfm/exif.py b/opensfm/exif.py
index eca8053..a129453 100644
--- a/opensfm/exif.py
+++ b/opensfm/exif.py
@@ -445,13 +445,13 @@ class EXIF:
             if datetime_tag in self.tags:
                 date_time = self.tags[datetime_tag].values
                 if subsec_tag in self.tags:
-                    subsec_time = self.tags[subsec_tag].values
+                    subsec_time = str(self.tags[subsec_tag].values).strip()[:6]
                 else:
-                    subsec_time = "0"
+                    subsec_time = ""
                 try:
-                    s = "{0:s}.{1:s}".format(date_time, subsec_time)
+                    s = "{0:s}.{1:s}".format(date_time, subsec_time or "0")
                     d = datetime.datetime.strptime(s, "%Y:%m:%d %H:%M:%S.%f")
-                except ValueError:
+                except (TypeError, ValueError):
                     logger.debug(
                         'The "{1:s}" time stamp or "{2:s}" tag is invalid in '
                         'image file "{0:s}"'.format(
-- 
2.43.0


From 3d716c0082cfaae88ce80d4521538f49dd0875c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:48 +0000
Subject: [PATCH 103/192] fix: rerunning extract_metadata ignored
 exif_overrides.json for the images already processed

---
 opensfm/actions/extract_metadata.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/opensfm/actions/extract_metadata.py b/opensfm/actions/extract_metadata.py
index 2ed770b..721a303 100644
--- a/opensfm/actions/extract_metadata.py
+++ b/opensfm/actions/extract_metadata.py
@@ -27,10 +27,10 @@ def run_dataset(data: DataSetBase) -> None:
         else:
             logging.info("Extracting EXIF for {}".format(image))
             d = _extract_exif(image, data)
+            data.save_exif(image, d)
 
-            if image in exif_overrides:
-                d.update(exif_overrides[image])
-
+        if image in exif_overrides:
+            d.update(exif_overrides[image])
             data.save_exif(image, d)
 
         if d["camera"] not in camera_models:
-- 
2.43.0


From 73be46e3aa28833fd24a1499105abe33e2e8c9f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:46 +0000
Subject: [PATCH 104/192] fix: metadata extraction failed on malformed
 hemisphere references, and padded ones changed hemisphere

---
 opensfm/exif.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opensfm/exif.py b/opensfm/exif.py
index a129453..6f66b9e 100644
--- a/opensfm/exif.py
+++ b/opensfm/exif.py
@@ -34,7 +34,8 @@ def gps_to_decimal(
 ) -> Optional[float]:
     if len(values) < 3:
         return None
-    sign = 1 if reference in "NE" else -1
+    # The reference may also be padded, missing or malformed
+    sign = -1 if str(reference).strip().upper()[:1] in ("S", "W") else 1
     degrees = eval_frac(values[0])
     minutes = eval_frac(values[1])
     seconds = eval_frac(values[2])
-- 
2.43.0


From 37cae2a64c8d479e651f6ab787fa19c2198c8c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:49 +0000
Subject: [PATCH 105/192] fix: metadata extraction failed on GPS coordinates
 which are not fractions

---
 opensfm/exif.py | 38 ++++++++++++++++++--------------------
 1 file changed, 18 insertions(+), 20 deletions(-)

diff --git a/opensfm/exif.py b/opensfm/exif.py
index 6f66b9e..c829019 100644
--- a/opensfm/exif.py
+++ b/opensfm/exif.py
@@ -21,14 +21,24 @@ maximum_altitude: float = 1e4
 
 
 def eval_frac(
-    value: exifread.utils.Ratio,
+    value: Union[exifread.utils.Ratio, int, Tuple[float]],
 ) -> Optional[float]:
+    if not isinstance(value, exifread.utils.Ratio):
+        value = value[0] if isinstance(value, tuple) else value  # floating point fields
+        return float(value) if is_float(value) else None
     try:
         return float(value.num) / float(value.den)
     except ZeroDivisionError:
         return None
 
 
+def is_float(value: Any) -> bool:
+    try:
+        return np.isfinite(float(value))
+    except (TypeError, ValueError):
+        return False
+
+
 def gps_to_decimal(
     values: List[exifread.utils.Ratio], reference: str
 ) -> Optional[float]:
@@ -47,29 +57,17 @@ def gps_to_decimal(
 def get_tag_as_float(tags: Dict[str, Any], key: str, index: int = 0) -> Optional[float]:
     if key in tags and index < len(tags[key].values):
         val = tags[key].values[index]
-        if isinstance(val, tuple):  # floating point fields
-            val = val[0]
-        if isinstance(val, exifread.utils.Ratio):
-            ret_val = eval_frac(val)
-            if ret_val is None:
-                logger.error(
-                    'The rational "{2}" of tag "{0:s}" at index {1:d} c'
-                    "aused a division by zero error".format(key, index, val)
-                )
-            return ret_val
-        else:
-            return float(val) if is_float(val) else None
+        ret_val = eval_frac(val)
+        if ret_val is None:
+            logger.error(
+                'The value "{2}" of tag "{0:s}" at index {1:d} '
+                "isn't a number".format(key, index, val)
+            )
+        return ret_val
     else:
         return None
 
 
-def is_float(value: Any) -> bool:
-    try:
-        return np.isfinite(float(value))
-    except (TypeError, ValueError):
-        return False
-
-
 def compute_focal(
     focal_35: Optional[float],
     focal: Optional[float],
-- 
2.43.0


From b83249eab50f6c15526dfe04a2cb78e92bb30ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:45 +0000
Subject: [PATCH 106/192] fix: metadata extraction failed on XMP packets cut in
 the middle of a character

---
 opensfm/exif.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/opensfm/exif.py b/opensfm/exif.py
index c829019..0a1339f 100644
--- a/opensfm/exif.py
+++ b/opensfm/exif.py
@@ -147,7 +147,10 @@ def parse_xmp_string(xmp_str: str) -> Optional[Dict[str, Any]]:
         try:
             return x2d.parse(xmp_str)
         except Exception:
-            xmp_str = unescape_string(xmp_str)
+            try:
+                xmp_str = unescape_string(xmp_str)
+            except UnicodeDecodeError:
+                return None
     return None
 
 
-- 
2.43.0


From e5b6f60abb3fa30b67078394cd1f70356f92dcf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:28 +0000
Subject: [PATCH 107/192] fix: metadata extraction failed on XMP packets with
 text only

---
 opensfm/exif.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/opensfm/exif.py b/opensfm/exif.py
index 0a1339f..fbf5749 100644
--- a/opensfm/exif.py
+++ b/opensfm/exif.py
@@ -165,13 +165,13 @@ def get_xmp(fileobj: BinaryIO) -> List[Dict[str, Any]]:
         xdict = parse_xmp_string(xmp_str)
         if xdict is None:
             return []
-        xdict = xdict.get("x:xmpmeta") or {}
-        xdict = xdict.get("rdf:RDF") or {}
-        xdict = xdict.get("rdf:Description") or {}
-        if isinstance(xdict, list):
-            return [x or {} for x in xdict]
-        else:
-            return [xdict]
+        for key in ("x:xmpmeta", "rdf:RDF"):
+            xdict = xdict.get(key)
+            if not isinstance(xdict, dict):
+                return []
+        xdict = xdict.get("rdf:Description")
+        descriptions = xdict if isinstance(xdict, list) else [xdict]
+        return [x if isinstance(x, dict) else {} for x in descriptions]
     else:
         return []
 
-- 
2.43.0


From 8004f1dc268b4abe8f0728f6e8798ba9a493e337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:52 +0000
Subject: [PATCH 108/192] fix: OpenCV threading stayed disabled after a failure
 in parallel processing

---
 opensfm/context.py | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/opensfm/context.py b/opensfm/context.py
index 4cf7558..b88a15c 100644
--- a/opensfm/context.py
+++ b/opensfm/context.py
@@ -52,18 +52,21 @@ def parallel_map(
     threads_used = cv2.getNumThreads()
     cv2.setNumThreads(0)
 
-    num_proc = min(num_proc, len(args))
-    if num_proc <= 1:
-        res = list(map(func, args))
-    else:
-        with parallel_backend("threading", n_jobs=num_proc):
-            batch_size = max(1, int(len(args) / (num_proc * 2)))
-            batch_size = (
-                min(batch_size, max_batch_size) if max_batch_size else batch_size
-            )
-            res = Parallel(batch_size=batch_size)(delayed(func)(arg) for arg in args)
-
-    cv2.setNumThreads(threads_used)
+    try:
+        num_proc = min(num_proc, len(args))
+        if num_proc <= 1:
+            res = list(map(func, args))
+        else:
+            with parallel_backend("threading", n_jobs=num_proc):
+                batch_size = max(1, int(len(args) / (num_proc * 2)))
+                batch_size = (
+                    min(batch_size, max_batch_size) if max_batch_size else batch_size
+                )
+                res = Parallel(batch_size=batch_size)(
+                    delayed(func)(arg) for arg in args
+                )
+    finally:
+        cv2.setNumThreads(threads_used)
     return res
 
 
-- 
2.43.0


From 10d59d0e023c00812d5adb9f813ab1e7e555b1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:52 +0000
Subject: [PATCH 109/192] fix: feature extraction hung when memory is short,
 the queue was too small for the end mark or unlimited

---
 opensfm/features_processing.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opensfm/features_processing.py b/opensfm/features_processing.py
index bca17cb..617defd 100644
--- a/opensfm/features_processing.py
+++ b/opensfm/features_processing.py
@@ -76,7 +76,8 @@ def run_features_processing(data: DataSetBase, images: List[str], force: bool) -
         f"Expecting to queue at most {expected_images} images while parallel processing of {processes} images."
     )
 
-    process_queue: ProcessQueue = queue.Queue(expected_images)
+    # The queue holds at least an image and the end mark (zero would mean no limit)
+    process_queue: ProcessQueue = queue.Queue(max(2, expected_images))
     arguments: List[Tuple[str, Union[ProducerArgs, ConsumerArgs]]] = []
 
     if processes == 1:
-- 
2.43.0


From 6a7484f0148ddaf443a8f08eaa8fd13146107905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:52 +0000
Subject: [PATCH 110/192] fix: feature extraction with several processes failed
 without images

---
 opensfm/features_processing.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/opensfm/features_processing.py b/opensfm/features_processing.py
index 617defd..6e6aede 100644
--- a/opensfm/features_processing.py
+++ b/opensfm/features_processing.py
@@ -47,6 +47,9 @@ ConsumerArgs = ProcessQueue
 
 def run_features_processing(data: DataSetBase, images: List[str], force: bool) -> None:
     """Main entry point for running features extraction on a list of images."""
+    if not images:
+        return
+
     default_queue_size = 10
     max_queue_size = 200
 
-- 
2.43.0


From ef4b5d99f5e89c7165f3be245a05df6eabf9ae36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:52 +0000
Subject: [PATCH 111/192] fix: feature extraction failed with images at their
 original size (feature_process_size of -1) or very small ones

---
 opensfm/features_processing.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/opensfm/features_processing.py b/opensfm/features_processing.py
index 6e6aede..8e3c670 100644
--- a/opensfm/features_processing.py
+++ b/opensfm/features_processing.py
@@ -122,9 +122,13 @@ def average_image_size(data: DataSetBase) -> float:
 
 def average_processing_size(data: DataSetBase) -> float:
     processing_size = data.config["feature_process_size"]
+    if processing_size <= 0:  # original size
+        cameras = data.load_camera_models().values()
+        processing_size = max([max(c.width, c.height) for c in cameras], default=0)
 
     min_octave_size = 16  # from covdet.c
     octaveResolution = 3  # from covdet.c
+    processing_size = max(processing_size, min_octave_size)
     start_size = processing_size * processing_size * 4 / 1024 / 1024
     last_octave = math.floor(math.log2(processing_size / min_octave_size))
 
-- 
2.43.0


From dcce80660bff11885e7db4c635b00022c137aa82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:14 +0000
Subject: [PATCH 112/192] fix: several threads reading images could each send
 the end mark, more than the queue of images holds

---
 opensfm/features_processing.py | 19 +++++--------------
 1 file changed, 5 insertions(+), 14 deletions(-)

diff --git a/opensfm/features_processing.py b/opensfm/features_processing.py
index 8e3c670..f819a69 100644
--- a/opensfm/features_processing.py
+++ b/opensfm/features_processing.py
@@ -4,7 +4,6 @@ import logging
 import math
 import queue
 import sys
-import threading
 from timeit import default_timer as timer
 from typing import Any, cast, Dict, List, Optional, Tuple, Union
 
@@ -163,18 +162,11 @@ class Counter:
     """
 
     def __init__(self) -> None:
-        self.number_of_read = 0
-        self.counter: itertools.count[int] = itertools.count()
-        self.read_lock = threading.Lock()
+        self.counter: itertools.count[int] = itertools.count(1)
 
-    def increment(self) -> None:
-        next(self.counter)
-
-    def value(self) -> int:
-        with self.read_lock:
-            value = next(self.counter) - self.number_of_read
-            self.number_of_read += 1
-        return value
+    def increment(self) -> int:
+        """Add one and return the new value, which no other thread gets."""
+        return next(self.counter)
 
 
 def process(args: Tuple[str, Union[ProducerArgs, ConsumerArgs]]) -> None:
@@ -207,8 +199,7 @@ def read_images(
         args = (image, image_array, segmentation_array, instances_array, data, force)
 
         queue.put(args, block=True, timeout=full_queue_timeout)
-        counter.increment()
-        if counter.value() == expected:
+        if counter.increment() == expected:
             logger.info("Finished reading images")
             queue.put(None)
 
-- 
2.43.0


From 204fdf6644d3cbfcc50f4d4edf405b35b11f01af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:07 +0000
Subject: [PATCH 113/192] fix: HAHOG crashed on images with less than 16 pixels
 on a side

---
 opensfm/src/features/src/hahog.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/opensfm/src/features/src/hahog.cc b/opensfm/src/features/src/hahog.cc
index bacc8cd..cfa2aee 100644
--- a/opensfm/src/features/src/hahog.cc
+++ b/opensfm/src/features/src/hahog.cc
@@ -133,6 +133,14 @@ py::tuple hahog(foundation::pyarray_f image, float peak_threshold,
   vl_size numFeatures;
   constexpr vl_size dimension = 128;
 
+  // VLFeat crashes when the image is smaller than the smallest octave
+  constexpr int minOctaveSize = 16;
+  if (image.shape(0) < minOctaveSize || image.shape(1) < minOctaveSize) {
+    return py::make_tuple(
+        foundation::py_array_from_data(points.data(), 0, 4),
+        foundation::py_array_from_data(desc.data(), 0, dimension));
+  }
+
   {
     py::gil_scoped_release release;
 
-- 
2.43.0


From 814b676d30ca32893b8ebec754b4d26866ddf651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:45 +0000
Subject: [PATCH 114/192] fix: depth maps without views, with arrays of another
 shape, patches of one pixel or undefined projections accessed memory out of
 bounds

---
 opensfm/src/dense/depthmap_bind.h | 30 ++++++++++++++++++++++++++++++
 opensfm/src/dense/src/depthmap.cc | 23 +++++++++++++++++++++--
 2 files changed, 51 insertions(+), 2 deletions(-)

diff --git a/opensfm/src/dense/depthmap_bind.h b/opensfm/src/dense/depthmap_bind.h
index cb48b60..df976ca 100644
--- a/opensfm/src/dense/depthmap_bind.h
+++ b/opensfm/src/dense/depthmap_bind.h
@@ -3,14 +3,37 @@
 #include <dense/depthmap.h>
 #include <foundation/python_types.h>
 
+#include <stdexcept>
+#include <string>
+
 namespace dense {
 
+// The native code trusts the sizes of the arrays it is given
+inline void CheckCamera(const foundation::pyarray_d& K,
+                        const foundation::pyarray_d& R,
+                        const foundation::pyarray_d& t) {
+  if (K.size() != 9 || R.size() != 9 || t.size() != 3) {
+    throw std::invalid_argument("K and R must be 3x3 and t must have 3 values.");
+  }
+}
+
+template <class T>
+void CheckShape(const T& array, const std::string& name, int ndim,
+                int channels = 3) {
+  if (array.ndim() != ndim || (ndim == 3 && array.shape(2) != channels)) {
+    throw std::invalid_argument("unexpected shape of " + name + ".");
+  }
+}
+
 class DepthmapEstimatorWrapper {
  public:
   void AddView(const foundation::pyarray_d& K, const foundation::pyarray_d& R,
                const foundation::pyarray_d& t,
                const foundation::pyarray_uint8& image,
                const foundation::pyarray_uint8& mask) {
+    CheckCamera(K, R, t);
+    CheckShape(image, "image", 2);
+    CheckShape(mask, "mask", 2);
     if ((image.shape(0) != mask.shape(0)) ||
         (image.shape(1) != mask.shape(1))) {
       throw std::invalid_argument("image and mask must have matching shapes.");
@@ -82,6 +105,8 @@ class DepthmapCleanerWrapper {
   void AddView(const foundation::pyarray_d& K, const foundation::pyarray_d& R,
                const foundation::pyarray_d& t,
                const foundation::pyarray_f& depth) {
+    CheckCamera(K, R, t);
+    CheckShape(depth, "depth", 2);
     dc_.AddView(K.data(), R.data(), t.data(), depth.data(), depth.shape(1),
                 depth.shape(0));
   }
@@ -110,6 +135,11 @@ class DepthmapPrunerWrapper {
                const foundation::pyarray_f& plane,
                const foundation::pyarray_uint8& color,
                const foundation::pyarray_uint8& label) {
+    CheckCamera(K, R, t);
+    CheckShape(depth, "depth", 2);
+    CheckShape(plane, "plane", 3);
+    CheckShape(color, "color", 3);
+    CheckShape(label, "label", 2);
     if ((depth.shape(0) != plane.shape(0)) ||
         (depth.shape(1) != plane.shape(1))) {
       throw std::invalid_argument("depth and plane must have matching shapes.");
diff --git a/opensfm/src/dense/src/depthmap.cc b/opensfm/src/dense/src/depthmap.cc
index fbca39b..eda6066 100644
--- a/opensfm/src/dense/src/depthmap.cc
+++ b/opensfm/src/dense/src/depthmap.cc
@@ -2,6 +2,7 @@
 
 #include <cstdint>
 #include <random>
+#include <stdexcept>
 
 namespace dense {
 
@@ -13,7 +14,8 @@ static bool IsInsideImage(const cv::Mat& image, int i, int j) {
 
 template <typename T>
 float LinearInterpolation(const cv::Mat& image, float y, float x) {
-  if (x < 0.0f || x >= image.cols - 1 || y < 0.0f || y >= image.rows - 1) {
+  // Written so that it also holds for NaN coordinates
+  if (!(x >= 0.0f && x < image.cols - 1 && y >= 0.0f && y < image.rows - 1)) {
     return 0.0f;
   }
   int ix = static_cast<int>(x);
@@ -173,6 +175,9 @@ void DepthmapEstimator::SetPatchMatchIterations(int n) {
 }
 
 void DepthmapEstimator::SetPatchSize(int size) {
+  if (size < 1) {
+    throw std::invalid_argument("The patch size must be positive.");
+  }
   patch_size_ = size;
   patch_variance_buffer_.resize(patch_size_ * patch_size_);
 }
@@ -231,6 +236,9 @@ void DepthmapEstimator::ComputePatchMatchSample(
 }
 
 void DepthmapEstimator::AssignMatrices(DepthmapEstimatorResult* result) {
+  if (images_.empty()) {
+    throw std::runtime_error("Computing a depthmap needs at least one view.");
+  }
   result->depth = cv::Mat(images_[0].rows, images_[0].cols, CV_32F, 0.0f);
   result->plane = cv::Mat(images_[0].rows, images_[0].cols, CV_32FC3, 0.0f);
   result->score = cv::Mat(images_[0].rows, images_[0].cols, CV_32F, 0.0f);
@@ -282,7 +290,7 @@ float DepthmapEstimator::PatchVariance(int i, int j) {
       patch[counter++] = image0.at<unsigned char>(i + u, j + v);
     }
   }
-  return Variance(patch, patch_size_ * patch_size_);
+  return Variance(patch, counter);
 }
 
 void DepthmapEstimator::PatchMatchForwardPass(DepthmapEstimatorResult* result,
@@ -320,6 +328,11 @@ void DepthmapEstimator::PatchMatchUpdatePixel(DepthmapEstimatorResult* result,
     int i_adjacent = i + adjacent[k][0];
     int j_adjacent = j + adjacent[k][1];
 
+    // Patches of a single pixel reach the border of the image.
+    if (!IsInsideImage(result->depth, i_adjacent, j_adjacent)) {
+      continue;
+    }
+
     // Do not propagate ignored adjacent pixels.
     if (result->depth.at<float>(i_adjacent, j_adjacent) == 0.0f) {
       continue;
@@ -510,6 +523,9 @@ void DepthmapCleaner::AddView(const double* pK, const double* pR,
 }
 
 void DepthmapCleaner::Clean(cv::Mat* clean_depth) {
+  if (depths_.empty()) {
+    throw std::runtime_error("Cleaning a depthmap needs at least one view.");
+  }
   *clean_depth = cv::Mat(depths_[0].rows, depths_[0].cols, CV_32F, 0.0f);
 
   for (int i = 0; i < depths_[0].rows; ++i) {
@@ -566,6 +582,9 @@ void DepthmapPruner::Prune(std::vector<float>* merged_points,
                            std::vector<float>* merged_normals,
                            std::vector<unsigned char>* merged_colors,
                            std::vector<unsigned char>* merged_labels) {
+  if (depths_.empty()) {
+    throw std::runtime_error("Pruning a depthmap needs at least one view.");
+  }
   const cv::Matx33f Rinv = Rs_[0].t();
   for (int i = 0; i < depths_[0].rows; ++i) {
     for (int j = 0; j < depths_[0].cols; ++j) {
-- 
2.43.0


From 641309d4e269a1a33ee3a376ffe7198b037152ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:45 +0000
Subject: [PATCH 115/192] fix: pruning depth maps wrapped projections far
 outside the image back into it

---
 opensfm/src/dense/src/depthmap.cc | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/opensfm/src/dense/src/depthmap.cc b/opensfm/src/dense/src/depthmap.cc
index eda6066..2c047fc 100644
--- a/opensfm/src/dense/src/depthmap.cc
+++ b/opensfm/src/dense/src/depthmap.cc
@@ -1,6 +1,6 @@
 #include "../depthmap.h"
 
-#include <cstdint>
+#include <cmath>
 #include <random>
 #include <stdexcept>
 
@@ -602,14 +602,16 @@ void DepthmapPruner::Prune(std::vector<float>* merged_points,
         if (reprojection(2) < z_epsilon || isnan(reprojection(2))) {
           continue;
         }
-        std::int64_t iu =
-            static_cast<std::int64_t>(reprojection(0) / reprojection(2) + 0.5);
-        std::int64_t iv =
-            static_cast<std::int64_t>(reprojection(1) / reprojection(2) + 0.5);
+        // The pixel may be out of the range of integers
+        const double u = std::floor(reprojection(0) / reprojection(2) + 0.5);
+        const double v = std::floor(reprojection(1) / reprojection(2) + 0.5);
         double depth_of_point = reprojection(2);
-        if (!IsInsideImage(depths_[other], iv, iu)) {
+        if (!(u >= 0 && u < depths_[other].cols && v >= 0 &&
+              v < depths_[other].rows)) {
           continue;
         }
+        const int iu = static_cast<int>(u);
+        const int iv = static_cast<int>(v);
         float depth_at_reprojection = depths_[other].at<float>(iv, iu);
         if (depth_at_reprojection >
             (1 - same_depth_threshold_) * depth_of_point) {
-- 
2.43.0


From 38fb901f193ae617c0b84d32ce9a45ec4d20fd52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:14 +0000
Subject: [PATCH 116/192] fix: the OpenMVS export read out of bounds for
 unknown cameras, shots or arrays of another size

---
 opensfm/src/dense/openmvs_exporter.h | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/opensfm/src/dense/openmvs_exporter.h b/opensfm/src/dense/openmvs_exporter.h
index 817b5ed..a13969a 100644
--- a/opensfm/src/dense/openmvs_exporter.h
+++ b/opensfm/src/dense/openmvs_exporter.h
@@ -1,5 +1,7 @@
 // Isolating on a namespace to prevent collisions with opencv names
 #define _USE_OPENCV
+#include <stdexcept>
+
 #include "third_party/openmvs/Interface.h"
 
 namespace dense {
@@ -8,6 +10,9 @@ class OpenMVSExporter {
  public:
   void AddCamera(const std::string& camera_id, foundation::pyarray_d K,
                  uint32_t width, uint32_t height) {
+    if (K.size() != 9) {
+      throw std::invalid_argument("K must be 3x3.");
+    }
     MVS::Interface::Platform platform;
     platform.name = camera_id;
     MVS::Interface::Platform::Camera camera;
@@ -25,9 +30,12 @@ class OpenMVSExporter {
   void AddShot(const std::string& path, const std::string& maskPath,
                const std::string& shot_id, const std::string& camera_id,
                foundation::pyarray_d R, foundation::pyarray_d C) {
+    if (R.size() != 9 || C.size() != 3) {
+      throw std::invalid_argument("R must be 3x3 and C must have 3 values.");
+    }
     const double* C_data = C.data();
 
-    const int platform_id = platform_ids_[camera_id];
+    const int platform_id = platform_ids_.at(camera_id);
     MVS::Interface::Platform& platform = scene_.platforms[platform_id];
 
     MVS::Interface::Platform::Pose pose;
@@ -48,6 +56,9 @@ class OpenMVSExporter {
   }
 
   void AddPoint(foundation::pyarray_d coordinates, py::list shot_ids) {
+    if (coordinates.size() != 3) {
+      throw std::invalid_argument("Points must have 3 coordinates.");
+    }
     const double* x = coordinates.data();
 
     MVS::Interface::Vertex vertex;
@@ -55,7 +66,7 @@ class OpenMVSExporter {
     for (int i = 0; i < len(shot_ids); ++i) {
       std::string shot_id = shot_ids[i].cast<std::string>();
       MVS::Interface::Vertex::View view;
-      view.imageID = image_ids_[shot_id];
+      view.imageID = image_ids_.at(shot_id);
       view.confidence = 0;
       vertex.views.push_back(view);
     }
-- 
2.43.0


From f4a8286ddeffe3aaeae0a770031d18ce637db9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:32 +0000
Subject: [PATCH 117/192] fix: matching by words and VLAD descriptors read out
 of bounds for arrays of different sizes, no words or undefined features

---
 opensfm/src/features/src/matching.cc  | 24 +++++++++++++++++++++++-
 opensfm/src/foundation/python_types.h |  3 +++
 2 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/opensfm/src/features/src/matching.cc b/opensfm/src/features/src/matching.cc
index 5266a1c..7f59f98 100644
--- a/opensfm/src/features/src/matching.cc
+++ b/opensfm/src/features/src/matching.cc
@@ -27,7 +27,7 @@ static void MatchUsingWords(const cv::Mat& f1, const cv::Mat& w1,
                             cv::Mat* matches) {
   // Index features on the second image.
   std::multimap<int, int> index2;
-  const int* const pw2 = &w2.at<int>(0, 0);
+  const int* const pw2 = w2.ptr<int>(0);
   for (unsigned int i = 0; i < w2.rows * w2.cols; ++i) {
     index2.insert(std::pair<int, int>(pw2[i], i));
   }
@@ -81,6 +81,17 @@ py::array_t<int> match_using_words(foundation::pyarray_f features1,
   cv::Mat cv_w2 = foundation::pyarray_cv_mat_view(words2);
   cv::Mat matches;
 
+  if (cv_w1.rows != cv_f1.rows) {
+    throw std::invalid_argument("Each feature of the first image needs words.");
+  }
+  if (cv_w2.rows * cv_w2.cols != cv_f2.rows) {
+    throw std::invalid_argument(
+        "Each feature of the second image needs exactly one word.");
+  }
+  if (cv_f1.cols != cv_f2.cols) {
+    throw std::invalid_argument("Features must have the same size.");
+  }
+
   MatchUsingWords(cv_f1, cv_w1, cv_f2, cv_w2, lowes_ratio, max_checks,
                   &matches);
 
@@ -95,6 +106,10 @@ VecXf compute_vlad_descriptor(const MatXf& features,
   if (vlad_center_count == 0 || vlad_center_size == 0) {
     throw std::runtime_error("Zero VLAD centers or zero length VLAD words.");
   }
+  if (features.rows() > 0 && features.cols() != vlad_center_size) {
+    throw std::invalid_argument(
+        "Features and VLAD words must have the same size.");
+  }
 
   VecXf vlad_descriptor(vlad_center_count * vlad_center_size);
   vlad_descriptor.setZero();
@@ -112,6 +127,10 @@ VecXf compute_vlad_descriptor(const MatXf& features,
       }
     }
 
+    // Features with undefined values are close to no center
+    if (best_center < 0) {
+      continue;
+    }
     vlad_descriptor.segment(best_center * vlad_center_size, vlad_center_size) +=
         (feature - vlad_centers.row(best_center));
   }
@@ -138,6 +157,9 @@ std::pair<std::vector<double>, std::vector<std::string>> compute_vlad_distances(
     if (find_candidate == vlad_descriptors.end()) {
       continue;
     }
+    if (find_candidate->second.size() != reference.size()) {
+      throw std::invalid_argument("VLAD descriptors must have the same size.");
+    }
     distances.push_back((reference - find_candidate->second).norm());
     others.push_back(candidate);
   }
diff --git a/opensfm/src/foundation/python_types.h b/opensfm/src/foundation/python_types.h
index e8acc8f..b0da84e 100644
--- a/opensfm/src/foundation/python_types.h
+++ b/opensfm/src/foundation/python_types.h
@@ -3,6 +3,7 @@
 #include <pybind11/pybind11.h>
 
 #include <cstdint>
+#include <stdexcept>
 #include <vector>
 
 #include "opencv2/core/core.hpp"
@@ -62,6 +63,8 @@ cv::Mat pyarray_cv_mat_view_typed(T& array, int type) {
   } else if (array.ndim() == 2) {
     height = array.shape(0);
     width = array.shape(1);
+  } else {
+    throw std::invalid_argument("Expected an array of one or two dimensions.");
   }
 
   return cv::Mat(height, width, type, array.mutable_data());
-- 
2.43.0


From ee99572563d5ef6a0c772c77bcebeb0e01e501fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:09 +0000
Subject: [PATCH 118/192] fix: HAHOG returned no features at all when their
 number was not limited (the default)

---
 opensfm/src/features/src/hahog.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/opensfm/src/features/src/hahog.cc b/opensfm/src/features/src/hahog.cc
index cfa2aee..44c285d 100644
--- a/opensfm/src/features/src/hahog.cc
+++ b/opensfm/src/features/src/hahog.cc
@@ -87,6 +87,9 @@ static vl_size run_features_selection(VlCovDet* covdet,
   }
 
   // Keep the N best
+  if (target_num_features == 0) {
+    return numFeaturesKept;
+  }
   return select_best_features(covdet, numFeaturesKept, target_num_features);
 }
 
-- 
2.43.0


From 21d0e04fd52404759014476163cedaa1d362666f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:09 +0000
Subject: [PATCH 119/192] fix: negative HAHOG settings aborted or sorted
 missing features

---
 opensfm/src/features/src/hahog.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/opensfm/src/features/src/hahog.cc b/opensfm/src/features/src/hahog.cc
index 44c285d..95e2e64 100644
--- a/opensfm/src/features/src/hahog.cc
+++ b/opensfm/src/features/src/hahog.cc
@@ -1,5 +1,6 @@
 #include <features/hahog.h>
 
+#include <stdexcept>
 #include <vector>
 
 extern "C" {
@@ -131,6 +132,12 @@ py::tuple hahog(foundation::pyarray_f image, float peak_threshold,
     return py::none();
   }
 
+  if (!(peak_threshold >= 0) || !(edge_threshold >= 0) ||
+      target_num_features < 0) {
+    throw std::invalid_argument(
+        "HAHOG thresholds and number of features must not be negative.");
+  }
+
   std::vector<float> points;
   std::vector<float> desc;
   vl_size numFeatures;
-- 
2.43.0


From 4600ae9ad138bd29f14b44cae33c58efb6b38ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:52 +0000
Subject: [PATCH 120/192] fix: setting another number of camera parameters than
 the model has read out of bounds

---
 opensfm/src/geometry/src/camera.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/opensfm/src/geometry/src/camera.cc b/opensfm/src/geometry/src/camera.cc
index bdc7ce2..03c1900 100644
--- a/opensfm/src/geometry/src/camera.cc
+++ b/opensfm/src/geometry/src/camera.cc
@@ -175,7 +175,12 @@ std::vector<Camera::Parameters> Camera::GetParametersTypes() const {
 
 VecXd Camera::GetParametersValues() const { return values_; }
 
-void Camera::SetParametersValues(const VecXd& values) { values_ = values; }
+void Camera::SetParametersValues(const VecXd& values) {
+  if (values.size() != values_.size()) {
+    throw std::runtime_error("Invalid number of parameters");
+  }
+  values_ = values;
+}
 
 std::map<Camera::Parameters, double, Camera::CompParameters>
 Camera::GetParametersMap() const {
-- 
2.43.0


From 33a4c70ffa693c411027eadc82bd5e6e6316eb09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:04 +0000
Subject: [PATCH 121/192] fix: triangulation and pose solvers read or wrote out
 of bounds for matrices of different sizes or too few or too many points

---
 opensfm/src/geometry/src/absolute_pose.cc | 14 ++++++++++++++
 opensfm/src/geometry/src/essential.cc     |  5 +++++
 opensfm/src/geometry/src/triangulation.cc | 14 ++++++++++++++
 3 files changed, 33 insertions(+)

diff --git a/opensfm/src/geometry/src/absolute_pose.cc b/opensfm/src/geometry/src/absolute_pose.cc
index 9041139..464859d 100644
--- a/opensfm/src/geometry/src/absolute_pose.cc
+++ b/opensfm/src/geometry/src/absolute_pose.cc
@@ -1,5 +1,7 @@
 #include <geometry/absolute_pose.h>
 
+#include <stdexcept>
+
 Eigen::Matrix3d RotationMatrixAroundAxis(const double cos_theta,
                                          const double sin_theta,
                                          const Eigen::Vector3d& v) {
@@ -21,6 +23,12 @@ namespace geometry {
 std::vector<Eigen::Matrix<double, 3, 4>> AbsolutePoseThreePoints(
     const Eigen::Matrix<double, -1, 3>& bearings,
     const Eigen::Matrix<double, -1, 3>& points) {
+  if (bearings.rows() != points.rows()) {
+    throw std::runtime_error("Each point needs exactly one bearing.");
+  }
+  if (bearings.rows() < 3) {
+    throw std::runtime_error("The absolute pose needs three points.");
+  }
   std::vector<std::pair<Eigen::Vector3d, Eigen::Vector3d>> samples(
       bearings.rows());
   for (int i = 0; i < bearings.rows(); ++i) {
@@ -33,6 +41,9 @@ std::vector<Eigen::Matrix<double, 3, 4>> AbsolutePoseThreePoints(
 Eigen::Matrix<double, 3, 4> AbsolutePoseNPoints(
     const Eigen::Matrix<double, -1, 3>& bearings,
     const Eigen::Matrix<double, -1, 3>& points) {
+  if (bearings.rows() != points.rows()) {
+    throw std::runtime_error("Each point needs exactly one bearing.");
+  }
   std::vector<std::pair<Eigen::Vector3d, Eigen::Vector3d>> samples(
       bearings.rows());
   for (int i = 0; i < bearings.rows(); ++i) {
@@ -45,6 +56,9 @@ Eigen::Matrix<double, 3, 4> AbsolutePoseNPoints(
 Eigen::Vector3d AbsolutePoseNPointsKnownRotation(
     const Eigen::Matrix<double, -1, 3>& bearings,
     const Eigen::Matrix<double, -1, 3>& points) {
+  if (bearings.rows() != points.rows()) {
+    throw std::runtime_error("Each point needs exactly one bearing.");
+  }
   std::vector<std::pair<Eigen::Vector3d, Eigen::Vector3d>> samples(
       bearings.rows());
   for (int i = 0; i < bearings.rows(); ++i) {
diff --git a/opensfm/src/geometry/src/essential.cc b/opensfm/src/geometry/src/essential.cc
index 15233c7..74f50a8 100644
--- a/opensfm/src/geometry/src/essential.cc
+++ b/opensfm/src/geometry/src/essential.cc
@@ -1,5 +1,7 @@
 #include "../essential.h"
 
+#include <stdexcept>
+
 // Multiply two polynomials of degree 1.
 Eigen::Matrix<double, -1, 1> o1(const Eigen::Matrix<double, -1, 1>& a,
                                 const Eigen::Matrix<double, -1, 1>& b) {
@@ -146,6 +148,9 @@ std::vector<Eigen::Matrix<double, 3, 3>> EssentialFivePoints(
   if ((x1.cols() != x2.cols()) || (x1.rows() != x2.rows())) {
     throw std::runtime_error("Features matrices have different sizes.");
   }
+  if (x1.rows() > 9) {
+    throw std::runtime_error("The solver takes no more than nine points.");
+  }
   std::vector<std::pair<Eigen::Vector3d, Eigen::Vector3d>> samples(x1.rows());
   for (int i = 0; i < x1.rows(); ++i) {
     samples[i].first = x1.row(i);
diff --git a/opensfm/src/geometry/src/triangulation.cc b/opensfm/src/geometry/src/triangulation.cc
index be9633b..f25b800 100644
--- a/opensfm/src/geometry/src/triangulation.cc
+++ b/opensfm/src/geometry/src/triangulation.cc
@@ -6,6 +6,8 @@
 #include <geometry/transformations_functions.h>
 #include <geometry/triangulation.h>
 
+#include <stdexcept>
+
 #include <cmath>
 
 namespace {
@@ -77,6 +79,9 @@ std::pair<bool, Vec3d> TriangulateBearingsDLT(const std::vector<Mat34d>& Rts,
                                               double min_angle,
                                               double min_depth) {
   const int count = Rts.size();
+  if (bearings.rows() != count) {
+    throw std::runtime_error("Each view needs exactly one bearing.");
+  }
   MatXd world_bearings(count, 3);
   bool angle_ok = false;
   for (int i = 0; i < count && !angle_ok; ++i) {
@@ -148,6 +153,9 @@ std::pair<bool, Vec3d> TriangulateBearingsMidpoint(
     const std::vector<double>& threshold_list, double min_angle,
     double min_depth) {
   const int count = centers.rows();
+  if (bearings.rows() != count) {
+    throw std::runtime_error("Each center needs exactly one bearing.");
+  }
   if (threshold_list.size() < static_cast<size_t>(count)) {
     return std::make_pair(false, Vec3d());
   }
@@ -190,6 +198,9 @@ std::pair<bool, Vec3d> TriangulateBearingsMidpoint(
 std::vector<std::pair<bool, Vec3d>> TriangulateTwoBearingsMidpointMany(
     const MatX3d& bearings1, const MatX3d& bearings2, const Mat3d& rotation,
     const Vec3d& translation) {
+  if (bearings1.rows() != bearings2.rows()) {
+    throw std::runtime_error("Bearings matrices have different sizes.");
+  }
   std::vector<std::pair<bool, Vec3d>> triangulated(bearings1.rows());
   Eigen::Matrix<double, 2, 3> os, bs;
   os.row(0) = Vec3d::Zero();
@@ -230,6 +241,9 @@ MatXd EpipolarAngleTwoBearingsMany(const MatX3d& bearings1,
 
 Vec3d PointRefinement(const MatX3d& centers, const MatX3d& bearings,
                       const Vec3d& point, int iterations) {
+  if (centers.rows() != bearings.rows()) {
+    throw std::runtime_error("Each center needs exactly one bearing.");
+  }
   using BearingCostFunction =
       ceres::TinySolverCostFunctionAdapter<Eigen::Dynamic, 3>;
   BearingErrorCost cost(centers, bearings);
-- 
2.43.0


From 90f671a4e35a5925e61237637b442c1b07c2dc2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:33 +0000
Subject: [PATCH 122/192] fix: AKAZE wrote out of bounds for descriptors of
 less than three channels and read out of bounds for single diffusion steps

---
 opensfm/src/third_party/akaze/lib/AKAZE.cpp | 24 ++++++++++-----------
 opensfm/src/third_party/akaze/lib/fed.cpp   |  2 +-
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/opensfm/src/third_party/akaze/lib/AKAZE.cpp b/opensfm/src/third_party/akaze/lib/AKAZE.cpp
index e5eb91b..4e082df 100644
--- a/opensfm/src/third_party/akaze/lib/AKAZE.cpp
+++ b/opensfm/src/third_party/akaze/lib/AKAZE.cpp
@@ -1530,9 +1530,9 @@ void libAKAZE::generateDescriptorSubsample(cv::Mat& sampleList, cv::Mat& compari
     for (int j=0; j<count; j++) {
       if (samples(j,0) == fullcopy(k,0) && samples(j,1) == fullcopy(k,1) && samples(j,2) == fullcopy(k,2)) {
         n = false;
-        comps(i*nchannels,0) = nchannels*j;
-        comps(i*nchannels+1,0) = nchannels*j+1;
-        comps(i*nchannels+2,0) = nchannels*j+2;
+        for (int l=0; l<nchannels; l++) {
+          comps(i*nchannels+l,0) = nchannels*j+l;
+        }
         break;
       }
     }
@@ -1541,9 +1541,9 @@ void libAKAZE::generateDescriptorSubsample(cv::Mat& sampleList, cv::Mat& compari
       samples(count,0) = fullcopy(k,0);
       samples(count,1) = fullcopy(k,1);
       samples(count,2) = fullcopy(k,2);
-      comps(i*nchannels,0) = nchannels*count;
-      comps(i*nchannels+1,0) = nchannels*count+1;
-      comps(i*nchannels+2,0) = nchannels*count+2;
+      for (int l=0; l<nchannels; l++) {
+        comps(i*nchannels+l,0) = nchannels*count+l;
+      }
       count++;
     }
 
@@ -1551,9 +1551,9 @@ void libAKAZE::generateDescriptorSubsample(cv::Mat& sampleList, cv::Mat& compari
     for (int j=0; j<count; j++) {
       if (samples(j,0) == fullcopy(k,0) && samples(j,1) == fullcopy(k,3) && samples(j,2) == fullcopy(k,4)) {
         n = false;
-        comps(i*nchannels,1) = nchannels*j;
-        comps(i*nchannels+1,1) = nchannels*j+1;
-        comps(i*nchannels+2,1) = nchannels*j+2;
+        for (int l=0; l<nchannels; l++) {
+          comps(i*nchannels+l,1) = nchannels*j+l;
+        }
         break;
       }
     }
@@ -1562,9 +1562,9 @@ void libAKAZE::generateDescriptorSubsample(cv::Mat& sampleList, cv::Mat& compari
       samples(count,0) = fullcopy(k,0);
       samples(count,1) = fullcopy(k,3);
       samples(count,2) = fullcopy(k,4);
-      comps(i*nchannels,1) = nchannels*count;
-      comps(i*nchannels+1,1) = nchannels*count+1;
-      comps(i*nchannels+2,1) = nchannels*count+2;
+      for (int l=0; l<nchannels; l++) {
+        comps(i*nchannels+l,1) = nchannels*count+l;
+      }
       count++;
     }
 
diff --git a/opensfm/src/third_party/akaze/lib/fed.cpp b/opensfm/src/third_party/akaze/lib/fed.cpp
index 8989c24..958f70b 100644
--- a/opensfm/src/third_party/akaze/lib/fed.cpp
+++ b/opensfm/src/third_party/akaze/lib/fed.cpp
@@ -98,7 +98,7 @@ int fed_tau_internal(const int n, const float scale, const float tau_max,
   if (reordering == true) {
     // Choose kappa cycle with k = n/2
     // This is a heuristic. We can use Leja ordering instead!!
-    kappa = n / 2;
+    kappa = n > 1 ? n / 2 : 1;
 
     // Get modulus for permutation
     prime = n + 1;
-- 
2.43.0


From 5379dc74d487ad554d88b94738e184862154d4c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:44 +0000
Subject: [PATCH 123/192] fix: AKAZE accessed memory out of bounds for images
 of one row or column and for options out of range

---
 opensfm/src/features/src/akaze_bind.cc | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/opensfm/src/features/src/akaze_bind.cc b/opensfm/src/features/src/akaze_bind.cc
index 4131d23..7fd7e59 100644
--- a/opensfm/src/features/src/akaze_bind.cc
+++ b/opensfm/src/features/src/akaze_bind.cc
@@ -3,10 +3,19 @@
 #include <third_party/akaze/lib/AKAZE.h>
 
 #include <opencv2/imgproc/imgproc.hpp>
+#include <stdexcept>
 
 namespace features {
 
 py::tuple akaze(foundation::pyarray_uint8 image, AKAZEOptions options) {
+  if (image.ndim() != 2) {
+    throw std::invalid_argument("AKAZE needs a grayscale image.");
+  }
+  if (options.omax < 1 || options.nsublevels < 1 || options.soffset <= 0 ||
+      options.kcontrast_nbins < 1 || options.descriptor_channels < 1 ||
+      options.descriptor_channels > 3 || options.descriptor_pattern_size < 1) {
+    throw std::invalid_argument("AKAZE options are out of range.");
+  }
   py::gil_scoped_release release;
 
   const cv::Mat img(image.shape(0), image.shape(1), CV_8U, (void*)image.data());
@@ -22,8 +31,11 @@ py::tuple akaze(foundation::pyarray_uint8 image, AKAZEOptions options) {
   libAKAZE::AKAZE evolution(options);
   std::vector<cv::KeyPoint> kpts;
 
-  evolution.Create_Nonlinear_Scale_Space(img_32);
-  evolution.Feature_Detection(kpts);
+  // Derivatives need neighboring pixels in both directions
+  if (img_32.rows > 1 && img_32.cols > 1) {
+    evolution.Create_Nonlinear_Scale_Space(img_32);
+    evolution.Feature_Detection(kpts);
+  }
 
   // Compute descriptors.
   cv::Mat desc;
-- 
2.43.0


From a70e09d3b7c02a64566efb534f7374c5ef97070e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:10 +0000
Subject: [PATCH 124/192] fix: adjusting and aligning reconstructions aborted
 or read null pointers for constraints between an item and itself, unknown
 items and odd heatmaps or scale matrices

---
 opensfm/src/bundle/bundle_adjuster.h          |  7 ++-
 opensfm/src/bundle/reconstruction_alignment.h | 57 ++++++++++++++-----
 opensfm/src/bundle/src/bundle_adjuster.cc     | 49 +++++++++++++++-
 3 files changed, 98 insertions(+), 15 deletions(-)

diff --git a/opensfm/src/bundle/bundle_adjuster.h b/opensfm/src/bundle/bundle_adjuster.h
index 1f5cbd0..0144980 100644
--- a/opensfm/src/bundle/bundle_adjuster.h
+++ b/opensfm/src/bundle/bundle_adjuster.h
@@ -97,7 +97,12 @@ struct RelativeMotion {
     this->observed_scale = observed_scale;
   }
 
-  void SetScaleMatrix(const MatXd& s) { scale_matrix = s; }
+  void SetScaleMatrix(const MatXd& s) {
+    if (s.rows() != parameters.size() || s.cols() != parameters.size()) {
+      throw std::runtime_error("Scale matrix of relative motion must be 7x7.");
+    }
+    scale_matrix = s;
+  }
 
   std::string rig_instance_id_i;
   std::string rig_instance_id_j;
diff --git a/opensfm/src/bundle/reconstruction_alignment.h b/opensfm/src/bundle/reconstruction_alignment.h
index 2bebf6e..8f574e6 100644
--- a/opensfm/src/bundle/reconstruction_alignment.h
+++ b/opensfm/src/bundle/reconstruction_alignment.h
@@ -1,5 +1,6 @@
 #include <cmath>
 #include <map>
+#include <stdexcept>
 #include <string>
 
 #include "ceres/ceres.h"
@@ -98,6 +99,9 @@ struct RARelativeMotionConstraint {
   void SetTY(double v) { parameters[RA_SHOT_TY] = v; }
   void SetTZ(double v) { parameters[RA_SHOT_TZ] = v; }
   void SetScaleMatrix(int i, int j, double value) {
+    if (i < 0 || j < 0 || i >= RA_SHOT_NUM_PARAMS || j >= RA_SHOT_NUM_PARAMS) {
+      throw std::runtime_error("Scale matrix index out of bounds.");
+    }
     scale_matrix[i * RA_SHOT_NUM_PARAMS + j] = value;
   }
 
@@ -371,10 +375,10 @@ class ReconstructionAlignment {
   ReconstructionAlignment() = default;
   virtual ~ReconstructionAlignment() = default;
 
-  RAShot GetShot(const std::string& id) { return shots_[id]; }
+  RAShot GetShot(const std::string& id) { return *FindShot(id); }
 
   RAReconstruction GetReconstruction(const std::string& id) {
-    return reconstructions_[id];
+    return *FindReconstruction(id);
   }
 
   void AddShot(const std::string& id, double rx, double ry, double rz,
@@ -408,13 +412,15 @@ class ReconstructionAlignment {
   }
 
   void AddRelativeMotionConstraint(const RARelativeMotionConstraint& rm) {
+    FindReconstruction(rm.reconstruction_id);
+    FindShot(rm.shot_id);
     relative_motions_.push_back(rm);
   }
 
   void AddAbsolutePositionConstraint(const std::string& shot_id, double x,
                                      double y, double z, double std_deviation) {
     RAAbsolutePositionConstraint a{};
-    a.shot = &shots_[shot_id];
+    a.shot = FindShot(shot_id);
     a.position[0] = x;
     a.position[1] = y;
     a.position[2] = z;
@@ -426,8 +432,8 @@ class ReconstructionAlignment {
       const std::string& reconstruction_id, const std::string& shot_id,
       double x, double y, double z, double std_deviation) {
     RARelativeAbsolutePositionConstraint a{};
-    a.reconstruction = &reconstructions_[reconstruction_id];
-    a.shot = &shots_[shot_id];
+    a.reconstruction = FindReconstruction(reconstruction_id);
+    a.shot = FindShot(shot_id);
     a.position[0] = x;
     a.position[1] = y;
     a.position[2] = z;
@@ -440,12 +446,13 @@ class ReconstructionAlignment {
                                 const std::string& reconstruction_b_id,
                                 double xb, double yb, double zb,
                                 double std_deviation) {
+    CheckDifferent(reconstruction_a_id, reconstruction_b_id);
     RACommonPointConstraint c{};
-    c.reconstruction_a = &reconstructions_[reconstruction_a_id];
+    c.reconstruction_a = FindReconstruction(reconstruction_a_id);
     c.point_a[0] = xa;
     c.point_a[1] = ya;
     c.point_a[2] = za;
-    c.reconstruction_b = &reconstructions_[reconstruction_b_id];
+    c.reconstruction_b = FindReconstruction(reconstruction_b_id);
     c.point_b[0] = xb;
     c.point_b[1] = yb;
     c.point_b[2] = zb;
@@ -459,11 +466,12 @@ class ReconstructionAlignment {
                                  const std::string& shot_b_id,
                                  double std_deviation_center,
                                  double std_deviation_rotation) {
+    CheckDifferent(reconstruction_a_id, reconstruction_b_id);
     RACommonCameraConstraint c{};
-    c.reconstruction_a = &reconstructions_[reconstruction_a_id];
-    c.shot_a = &shots_[shot_a_id];
-    c.reconstruction_b = &reconstructions_[reconstruction_b_id];
-    c.shot_b = &shots_[shot_b_id];
+    c.reconstruction_a = FindReconstruction(reconstruction_a_id);
+    c.shot_a = FindShot(shot_a_id);
+    c.reconstruction_b = FindReconstruction(reconstruction_b_id);
+    c.shot_b = FindShot(shot_b_id);
     c.std_deviation_center = std_deviation_center;
     c.std_deviation_rotation = std_deviation_rotation;
     common_cameras_.push_back(c);
@@ -503,8 +511,8 @@ class ReconstructionAlignment {
 
       problem.AddResidualBlock(
           cost_function, loss,
-          reconstructions_[rp.reconstruction_id].parameters,
-          shots_[rp.shot_id].parameters);
+          FindReconstruction(rp.reconstruction_id)->parameters,
+          FindShot(rp.shot_id)->parameters);
     }
 
     // Add absolute position errors
@@ -567,6 +575,29 @@ class ReconstructionAlignment {
   std::string FullReport() { return last_run_summary_.FullReport(); }
 
  private:
+  RAShot* FindShot(const std::string& id) {
+    const auto find = shots_.find(id);
+    if (find == shots_.end()) {
+      throw std::runtime_error("Shot " + id + " doesn't exist.");
+    }
+    return &find->second;
+  }
+
+  RAReconstruction* FindReconstruction(const std::string& id) {
+    const auto find = reconstructions_.find(id);
+    if (find == reconstructions_.end()) {
+      throw std::runtime_error("Reconstruction " + id + " doesn't exist.");
+    }
+    return &find->second;
+  }
+
+  void CheckDifferent(const std::string& id_a, const std::string& id_b) const {
+    if (id_a == id_b) {
+      throw std::runtime_error(
+          "Constraint between reconstruction " + id_a + " and itself.");
+    }
+  }
+
   std::map<std::string, RAReconstruction> reconstructions_;
   std::map<std::string, RAShot> shots_;
   std::vector<RARelativeMotionConstraint> relative_motions_;
diff --git a/opensfm/src/bundle/src/bundle_adjuster.cc b/opensfm/src/bundle/src/bundle_adjuster.cc
index 607a253..3edd594 100644
--- a/opensfm/src/bundle/src/bundle_adjuster.cc
+++ b/opensfm/src/bundle/src/bundle_adjuster.cc
@@ -280,6 +280,10 @@ HeatmapInterpolator::HeatmapInterpolator(const std::vector<double>& in_heatmap,
 void BundleAdjuster::AddHeatmap(const std::string& heatmap_id,
                                 const std::vector<double>& in_heatmap,
                                 size_t in_width, double resolution) {
+  if (in_width == 0 || in_heatmap.empty() || in_heatmap.size() % in_width) {
+    throw std::runtime_error("Size of heatmap " + heatmap_id +
+                             " isn't a multiple of its width.");
+  }
   heatmaps_[heatmap_id] =
       std::make_shared<HeatmapInterpolator>(in_heatmap, in_width, resolution);
 }
@@ -289,9 +293,13 @@ void BundleAdjuster::AddAbsolutePositionHeatmap(const std::string& shot_id,
                                                 double x_offset,
                                                 double y_offset,
                                                 double std_deviation) {
+  const auto heatmap_exists = heatmaps_.find(heatmap_id);
+  if (heatmap_exists == heatmaps_.end()) {
+    throw std::runtime_error("Heatmap " + heatmap_id + " doesn't exist.");
+  }
   AbsolutePositionHeatmap a;
   a.shot_id = shot_id;
-  a.heatmap = heatmaps_[heatmap_id];
+  a.heatmap = heatmap_exists->second;
   a.x_offset = x_offset;
   a.y_offset = y_offset;
   a.std_deviation = std_deviation;
@@ -593,9 +601,44 @@ struct AddCameraPriorError {
   }
 };
 
+// Constraints between rig instances need different ones
+void CheckDifferentInstances(const RigInstance* instance_i,
+                             const RigInstance* instance_j) {
+  if (instance_i == instance_j) {
+    throw std::runtime_error("Constraint between rig instance " +
+                             instance_i->GetID() + " and itself.");
+  }
+}
+
 void BundleAdjuster::Run() {
   ceres::Problem problem;
 
+  for (const auto& rp : relative_motions_) {
+    CheckDifferentInstances(&rig_instances_.at(rp.rig_instance_id_i),
+                            &rig_instances_.at(rp.rig_instance_id_j));
+  }
+  for (const auto& rr : relative_rotations_) {
+    CheckDifferentInstances(shots_.at(rr.shot_id_i).GetRigInstance(),
+                            shots_.at(rr.shot_id_j).GetRigInstance());
+  }
+  for (const auto& c : common_positions_) {
+    CheckDifferentInstances(shots_.at(c.shot_i).GetRigInstance(),
+                            shots_.at(c.shot_j).GetRigInstance());
+  }
+  for (const auto& a : linear_motion_prior_) {
+    const auto* instance0 = shots_.at(a.shot0).GetRigInstance();
+    const auto* instance1 = shots_.at(a.shot1).GetRigInstance();
+    const auto* instance2 = shots_.at(a.shot2).GetRigInstance();
+    CheckDifferentInstances(instance0, instance1);
+    CheckDifferentInstances(instance0, instance2);
+    CheckDifferentInstances(instance1, instance2);
+  }
+  if (gauge_fix_shots_.HasValue()) {
+    const auto& [shot_origin, shot_scale] = gauge_fix_shots_.Value();
+    CheckDifferentInstances(shots_.at(shot_origin).GetRigInstance(),
+                            shots_.at(shot_scale).GetRigInstance());
+  }
+
   // Add cameras
   for (auto& [_, cam] : cameras_) {
     auto& data = cam.GetValueData();
@@ -747,6 +790,10 @@ void BundleAdjuster::Run() {
     if (!rig_instance.HasPrior()) {
       continue;
     }
+    if (rig_instance.shot_cameras.empty()) {
+      throw std::runtime_error("RigInstance " + instance_id +
+                               " with a position prior has no shots");
+    }
 
     using PriorType = DataPriorError<geometry::Pose, SimilarityPriorTransform>;
     auto* position_prior =
-- 
2.43.0


From 55454b1e84cf6f643a81cae0654c2089ff2e7606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:11 +0000
Subject: [PATCH 125/192] fix: Pose.is_identity could not be called without a
 tolerance

---
 opensfm/src/geometry/python/pybind.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opensfm/src/geometry/python/pybind.cc b/opensfm/src/geometry/python/pybind.cc
index f65d601..1eaf8c3 100644
--- a/opensfm/src/geometry/python/pybind.cc
+++ b/opensfm/src/geometry/python/pybind.cc
@@ -394,7 +394,8 @@ PYBIND11_MODULE(pygeometry, m) {
             pose.SetFromCameraToWorld(p[0].cast<Mat4d>());
             return pose;
           }))
-      .def("is_identity", &geometry::Pose::IsIdentity)
+      .def("is_identity", &geometry::Pose::IsIdentity,
+           py::arg("epsilon") = 1e-15)
       .def(
           "__copy__", [](const geometry::Pose& p) { return p; },
           py::return_value_policy::copy)
-- 
2.43.0


From fa8c63c59eb9e228eaeefe37e6e3e724ad7fe280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:11 +0000
Subject: [PATCH 126/192] fix: two-view reconstruction crashed without a
 homography between the views

---
 opensfm/reconstruction.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/opensfm/reconstruction.py b/opensfm/reconstruction.py
index b61e313..0553af9 100644
--- a/opensfm/reconstruction.py
+++ b/opensfm/reconstruction.py
@@ -312,7 +312,12 @@ def two_view_reconstruction_plane_based(
     x1 = multiview.euclidean(b1)
     x2 = multiview.euclidean(b2)
 
+    if len(x1) < 4:
+        return None, None, []
+
     H, inliers = cv2.findHomography(x1, x2, cv2.RANSAC, threshold)
+    if H is None:
+        return None, None, []
     motions = multiview.motion_from_plane_homography(H)
 
     if not motions:
-- 
2.43.0


From e5bd110f756d8d2f32969a2e5ccbafafef387de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:51 +0000
Subject: [PATCH 127/192] fix: AKAZE read out of bounds for descriptor patterns
 larger than the default

---
 opensfm/src/features/src/akaze_bind.cc      | 2 +-
 opensfm/src/third_party/akaze/lib/AKAZE.cpp | 7 +++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/opensfm/src/features/src/akaze_bind.cc b/opensfm/src/features/src/akaze_bind.cc
index 7fd7e59..b6c3a83 100644
--- a/opensfm/src/features/src/akaze_bind.cc
+++ b/opensfm/src/features/src/akaze_bind.cc
@@ -13,7 +13,7 @@ py::tuple akaze(foundation::pyarray_uint8 image, AKAZEOptions options) {
   }
   if (options.omax < 1 || options.nsublevels < 1 || options.soffset <= 0 ||
       options.kcontrast_nbins < 1 || options.descriptor_channels < 1 ||
-      options.descriptor_channels > 3 || options.descriptor_pattern_size < 1) {
+      options.descriptor_channels > 3 || options.descriptor_pattern_size < 2) {
     throw std::invalid_argument("AKAZE options are out of range.");
   }
   py::gil_scoped_release release;
diff --git a/opensfm/src/third_party/akaze/lib/AKAZE.cpp b/opensfm/src/third_party/akaze/lib/AKAZE.cpp
index 4e082df..68a815a 100644
--- a/opensfm/src/third_party/akaze/lib/AKAZE.cpp
+++ b/opensfm/src/third_party/akaze/lib/AKAZE.cpp
@@ -279,6 +279,13 @@ void AKAZE::Find_Scale_Space_Extrema(std::vector<cv::KeyPoint>& kpts) {
   if (options_.descriptor == SURF_UPRIGHT || options_.descriptor == SURF ||
       options_.descriptor == MLDB_UPRIGHT || options_.descriptor == MLDB) {
     smax = 10.0*sqrtf(2.0f);
+    if (options_.descriptor == MLDB_UPRIGHT || options_.descriptor == MLDB) {
+      const int pattern = options_.descriptor_pattern_size;
+      for (int step : {pattern, (pattern*2+2)/3, pattern/2}) {
+        const int extent = -pattern + ((2*pattern-1)/step + 1)*step - 1;
+        smax = std::max(smax, std::max(pattern, extent)*sqrtf(2.0f));
+      }
+    }
   }
   else if (options_.descriptor == MSURF_UPRIGHT || options_.descriptor == MSURF) {
     smax = 12.0*sqrtf(2.0f);
-- 
2.43.0


From 0a8fa7d28ef77609bb3bb042c348ee394027468d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:51 +0000
Subject: [PATCH 128/192] fix: robust estimation hung or read out of bounds
 when a better scored model had fewer inliers than a minimal sample

---
 opensfm/src/robust/robust_estimator.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/opensfm/src/robust/robust_estimator.h b/opensfm/src/robust/robust_estimator.h
index 93affeb..8d1f175 100644
--- a/opensfm/src/robust/robust_estimator.h
+++ b/opensfm/src/robust/robust_estimator.h
@@ -83,6 +83,11 @@ ScoreInfo<typename MODEL::Type> Estimate(
             inliers_samples.push_back(samples[idx]);
           }
 
+          // A better score can come with less inliers than needed
+          if (int(inliers_samples.size()) < MODEL::MINIMAL_SAMPLES) {
+            break;
+          }
+
           // Same as Matas papers : min(inliers/2, 12)
           constexpr int lo_sample_size_clamp = 12;
           const int lo_sample_size =
-- 
2.43.0


From 1aaf20cfdf0c361e73c61079cb6e42d9b9d17373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:51 +0000
Subject: [PATCH 129/192] fix: position heatmaps overflowed for positions out
 of range

---
 opensfm/src/bundle/error/absolute_motion_errors.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/opensfm/src/bundle/error/absolute_motion_errors.h b/opensfm/src/bundle/error/absolute_motion_errors.h
index 43b2c4b..8fe4513 100644
--- a/opensfm/src/bundle/error/absolute_motion_errors.h
+++ b/opensfm/src/bundle/error/absolute_motion_errors.h
@@ -6,6 +6,7 @@
 
 #include <Eigen/Eigen>
 #include <algorithm>
+#include <limits>
 #include <stdexcept>
 
 namespace bundle {
@@ -155,6 +156,10 @@ struct HeatmapdCostFunctor {
     // const T z_coor = x[2]; - Z goes brrrrr
     const T row = height_ / 2. - (y_coor / resolution_);
     const T col = width_ / 2. + (x_coor / resolution_);
+    const T limit = T(std::numeric_limits<int>::max() / 2);
+    if (!(row > -limit && row < limit && col > -limit && col < limit)) {
+      return false;
+    }
     interpolator_.Evaluate(row, col, residuals);
     residuals[0] *= scale_;
     return true;
-- 
2.43.0


From f7914d00e531dc51a01e92b5f72397ac974723a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:12 +0000
Subject: [PATCH 130/192] fix: removing a rig instance left a dangling shot
 when a pano shot had the id of one of its shots

---
 opensfm/src/map/src/rig.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/opensfm/src/map/src/rig.cc b/opensfm/src/map/src/rig.cc
index 2c59171..bfd3243 100644
--- a/opensfm/src/map/src/rig.cc
+++ b/opensfm/src/map/src/rig.cc
@@ -22,6 +22,11 @@ void RigInstance::AddShot(map::RigCamera* rig_camera, map::Shot* shot) {
                              id + " (Shot " + it_exist->first + " )");
   }
 
+  if (shots_.find(shot->id_) != shots_.end()) {
+    throw std::runtime_error("Shot " + shot->id_ +
+                             " already exist in RigInstance " + id);
+  }
+
   if (rig_camera->relative_type == RigCamera::RelativeType::VARIABLE) {
     // TODO : never used/tested. Need to check implication wrt. Shot's RigCamera
     // pointer
-- 
2.43.0


From aea390d60928d597ebf0518727065daef257c0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:47 +0000
Subject: [PATCH 131/192] fix: AKAZE rejected gray images of shape (h, w, 1),
 which extract_features gives it

---
 opensfm/src/features/src/akaze_bind.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opensfm/src/features/src/akaze_bind.cc b/opensfm/src/features/src/akaze_bind.cc
index b6c3a83..92a9f94 100644
--- a/opensfm/src/features/src/akaze_bind.cc
+++ b/opensfm/src/features/src/akaze_bind.cc
@@ -8,7 +8,7 @@
 namespace features {
 
 py::tuple akaze(foundation::pyarray_uint8 image, AKAZEOptions options) {
-  if (image.ndim() != 2) {
+  if (image.ndim() != 2 && (image.ndim() != 3 || image.shape(2) != 1)) {
     throw std::invalid_argument("AKAZE needs a grayscale image.");
   }
   if (options.omax < 1 || options.nsublevels < 1 || options.soffset <= 0 ||
-- 
2.43.0


From c197cb6b2b103e1f09904aa185958c2d76d6e9e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:47 +0000
Subject: [PATCH 132/192] fix: combining masks with different non-zero values
 removed features inside both

---
 opensfm/masking.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opensfm/masking.py b/opensfm/masking.py
index 8fc98f4..80397c5 100644
--- a/opensfm/masking.py
+++ b/opensfm/masking.py
@@ -36,7 +36,7 @@ def combine_masks(
             return mask1
         else:
             mask1, mask2 = _resize_masks_to_match(mask1, mask2)
-            return mask1 & mask2
+            return np.array((mask1 != 0) & (mask2 != 0), dtype=np.uint8)
 
 
 def _resize_masks_to_match(
-- 
2.43.0


From 84cc541027204184fe2be70ff6f7f1f9d3acf4c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:07 +0000
Subject: [PATCH 133/192] fix: undistorted masks and segmentations did not
 match the undistorted images of rotated pictures

---
 opensfm/undistort.py |  7 +++++++
 opensfm/upright.py   | 26 ++++++++++++++++++++++++++
 2 files changed, 33 insertions(+)

diff --git a/opensfm/undistort.py b/opensfm/undistort.py
index 80dd73d..aca9a3d 100644
--- a/opensfm/undistort.py
+++ b/opensfm/undistort.py
@@ -14,6 +14,7 @@ from opensfm import (
     pymap,
     transformations as tf,
     types,
+    upright,
 )
 from opensfm.context import parallel_map
 from opensfm.dataset import UndistortedDataSet
@@ -144,9 +145,14 @@ def undistort_image_and_masks(
         for k, v in undistorted.items():
             udata.save_undistorted_image(k, v)
 
+    # Masks and segmentations are upright, while images are as stored
+    orientation = shot.metadata.orientation
+    orientation = orientation.value if orientation.has_value else 1
+
     # Undistort mask
     mask = data.load_mask(shot.id)
     if mask is not None:
+        mask = upright.upright_to_opensfm_image(mask, orientation)
         undistorted = undistort_image(
             shot, undistorted_shots, mask, cv2.INTER_NEAREST, max_size
         )
@@ -156,6 +162,7 @@ def undistort_image_and_masks(
     # Undistort segmentation
     segmentation = data.load_segmentation(shot.id)
     if segmentation is not None:
+        segmentation = upright.upright_to_opensfm_image(segmentation, orientation)
         undistorted = undistort_image(
             shot, undistorted_shots, segmentation, cv2.INTER_NEAREST, max_size
         )
diff --git a/opensfm/upright.py b/opensfm/upright.py
index fcd4fc7..262d909 100644
--- a/opensfm/upright.py
+++ b/opensfm/upright.py
@@ -65,3 +65,29 @@ def opensfm_to_upright(
     p[:, 1] = upright_height * p[:, 1]
 
     return p
+
+
+def upright_to_opensfm_image(image: NDArray, orientation: int) -> NDArray:
+    """
+    Transform an upright image to the pixel order of the original image.
+
+    :param image: Image, mask or segmentation corrected for EXIF orientation.
+    :param orientation: Orientation of original image.
+
+    :return: Image with the pixels in the order of the original image.
+    """
+    if orientation == 2:
+        image = np.fliplr(image)
+    elif orientation == 3:
+        image = np.rot90(image, 2)
+    elif orientation == 4:
+        image = np.flipud(image)
+    elif orientation == 5:
+        image = np.rot90(np.fliplr(image), 1)
+    elif orientation == 6:
+        image = np.rot90(image, 1)
+    elif orientation == 7:
+        image = np.rot90(np.fliplr(image), -1)
+    elif orientation == 8:
+        image = np.rot90(image, -1)
+    return np.ascontiguousarray(image)
-- 
2.43.0


From a45f4a3e368537c75a67c3d65c6629a06eeda51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:52 +0000
Subject: [PATCH 134/192] fix: feature detection with words failed for images
 without features

---
 opensfm/bow.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/opensfm/bow.py b/opensfm/bow.py
index 9bcaecf..f22c8e3 100644
--- a/opensfm/bow.py
+++ b/opensfm/bow.py
@@ -21,6 +21,8 @@ class BagOfWords:
     def map_to_words(
         self, descriptors: NDArray, k: int, matcher_type: str = "FLANN"
     ) -> NDArray:
+        if len(descriptors) == 0:
+            return np.zeros((0, k), dtype=np.int32)
         if matcher_type == "FLANN":
             params = {"checks": 200}
             idx, dist = self.index.knnSearch(descriptors, k, params=params)
-- 
2.43.0


From 9a08327925143c1da410135b50bfaf8d4bea0815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:14 +0000
Subject: [PATCH 135/192] fix: the triangulation algorithm failed for datasets
 giving rig cameras as a view of a map

---
 opensfm/reconstruction_helpers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/opensfm/reconstruction_helpers.py b/opensfm/reconstruction_helpers.py
index d70796c..d5cd74f 100644
--- a/opensfm/reconstruction_helpers.py
+++ b/opensfm/reconstruction_helpers.py
@@ -102,9 +102,9 @@ def reconstruction_from_metadata(
             rig_camera_id = camera_id
 
         reconstruction.add_rig_camera(
-            rig_cameras.get(
-                rig_camera_id, pymap.RigCamera(pygeometry.Pose(), rig_camera_id)
-            )
+            rig_cameras[rig_camera_id]
+            if rig_camera_id in rig_cameras
+            else pymap.RigCamera(pygeometry.Pose(), rig_camera_id)
         )
         reconstruction.add_rig_instance(pymap.RigInstance(rig_instance_id))
         shot = reconstruction.create_shot(
-- 
2.43.0


From 57e1f7700f04b0d8b8f51dd8c8593fb6bc899477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:17 +0000
Subject: [PATCH 136/192] fix: rig calibration averaged rotation vectors, which
 gave wrong relative poses for cameras looking in different directions

---
 opensfm/rig.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/opensfm/rig.py b/opensfm/rig.py
index 0c90d50..e38bdf2 100644
--- a/opensfm/rig.py
+++ b/opensfm/rig.py
@@ -212,16 +212,16 @@ def compute_relative_pose(
 ) -> Dict[str, pymap.RigCamera]:
     """Compute a rig model relatives poses given poses grouped by rig instance."""
 
-    # Put all poses instances into some canonical frame taken as the mean of their R|t
+    # Put all poses instances into some canonical frame : the mean of their origins and
+    # the orientation of one of the cameras. It has to move rigidly with the instance.
     centered_pose_instances = []
     for instance in pose_instances:
         origin_center = np.zeros(3)
-        rotation_center = np.zeros(3)
         for shot, _ in instance:
-            rotation_center += shot.pose.rotation
             origin_center += shot.pose.get_origin()
         origin_center /= len(instance)
-        rotation_center /= len(instance)
+        reference_shot, _ = min(instance, key=lambda x: x[1])
+        rotation_center = reference_shot.pose.rotation
 
         centered_pose_instance = []
         for shot, rig_camera_id in instance:
@@ -243,10 +243,10 @@ def compute_relative_pose(
         for pose, rig_camera_id, camera_id in centered_pose_instance:
             if rig_camera_id not in average_origin:
                 average_origin[rig_camera_id] = np.zeros(3)
-                average_rotation[rig_camera_id] = np.zeros(3)
+                average_rotation[rig_camera_id] = []
                 count_poses[rig_camera_id] = 0
             average_origin[rig_camera_id] += pose.get_origin()
-            average_rotation[rig_camera_id] += pose.rotation
+            average_rotation[rig_camera_id].append(pose.rotation)
             camera_ids[rig_camera_id] = camera_id
             count_poses[rig_camera_id] += 1
 
@@ -254,7 +254,8 @@ def compute_relative_pose(
     rig_cameras: Dict[str, pymap.RigCamera] = {}
     for rig_camera_id, count in count_poses.items():
         o = average_origin[rig_camera_id] / count
-        r = average_rotation[rig_camera_id] / count
+        rotations = np.array(average_rotation[rig_camera_id])
+        r = spatial.transform.Rotation.from_rotvec(rotations).mean().as_rotvec()
         pose = pygeometry.Pose(r)
         pose.set_origin(o)
         rig_cameras[rig_camera_id] = pymap.RigCamera(pose, rig_camera_id)
-- 
2.43.0


From dc0f60fec5f7536495106a94e4d299a8fa5577bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:17 +0000
Subject: [PATCH 137/192] fix: rig calibration mixed poses of incomplete
 instances, which are relative to another frame

---
 opensfm/rig.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/opensfm/rig.py b/opensfm/rig.py
index e38bdf2..d2ad377 100644
--- a/opensfm/rig.py
+++ b/opensfm/rig.py
@@ -286,7 +286,22 @@ def create_rig_cameras_from_reconstruction(
                     for shot_id, rig_camera_id in instance
                 ]
             )
-        for rig_camera_id, rig_camera in compute_relative_pose(pose_groups).items():
+        group_cameras = compute_relative_pose(pose_groups)
+
+        # Poses of each group are in a frame of its own. Bring them to the frame of the
+        # cameras that have been computed already.
+        common = sorted(c for c in group_cameras if c in rig_cameras)
+        if common:
+            group_pose = group_cameras[common[0]].pose
+            known_pose = rig_cameras[common[0]].pose
+            moved_poses = {
+                c: rig_camera.pose.relative_to(group_pose).compose(known_pose)
+                for c, rig_camera in group_cameras.items()
+            }
+            for c, pose in moved_poses.items():
+                group_cameras[c].pose = pose
+
+        for rig_camera_id, rig_camera in group_cameras.items():
             if rig_camera_id in rig_cameras:
                 logger.warning(
                     f"Ignoring {rig_camera_id} as it was already computed from a bigger set of instances"
-- 
2.43.0


From 7c88ce533c73c8e97a7b9bbb40b3bc0aa2b3ff11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:17 +0000
Subject: [PATCH 138/192] fix: rig calibration never used the last instance,
 nor the only instance of a rig, and fewer than asked for

---
 opensfm/rig.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/opensfm/rig.py b/opensfm/rig.py
index d2ad377..83f241e 100644
--- a/opensfm/rig.py
+++ b/opensfm/rig.py
@@ -158,6 +158,7 @@ def propose_subset_dataset_from_instances(
         # build NN-graph and split by connected components
         nn = 6
         instances_graph = nx.Graph()
+        instances_graph.add_nodes_from(range(len(gpses)))
         for i, gps in gpses:
             distances, neighbors = tree.query(gps, k=nn)
             for d, n in zip(distances, neighbors):
@@ -193,11 +194,11 @@ def propose_subset_dataset_from_instances(
 
             subset_size = data.config["rig_calibration_subset_size"]
             random_index = random.randint(0, len(instances_sorted) - 1)
-            instances_calibrate = instances_sorted[
-                max([0, random_index - int(subset_size / 2)]) : min(
-                    [random_index + int(subset_size / 2), len(instances_sorted) - 1]
-                )
-            ]
+            first = min(
+                random_index - subset_size // 2, len(instances_sorted) - subset_size
+            )
+            first = max(0, first)
+            instances_calibrate = instances_sorted[first : first + subset_size]
 
             for instance in instances_calibrate:
                 subset_images += [x[0] for x in instance]
-- 
2.43.0


From f6a0a089e7044ffc7ea2a6ba4ff01dae01dc0cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:17 +0000
Subject: [PATCH 139/192] fix: rig calibration ran one round more than
 configured

---
 opensfm/rig.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opensfm/rig.py b/opensfm/rig.py
index 83f241e..a89ddd5 100644
--- a/opensfm/rig.py
+++ b/opensfm/rig.py
@@ -336,7 +336,7 @@ def create_rigs_with_pattern(data: "DataSet", patterns: TRigPatterns) -> None:
     for subset_data, instances in propose_subset_dataset_from_instances(
         data, instances_per_rig, "rig_calibration"
     ):
-        if count > max_rounds:
+        if count >= max_rounds:
             break
         count += 1
 
-- 
2.43.0


From 36fd1939196cb391b78483913fc76b521c49b44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:37 +0000
Subject: [PATCH 140/192] fix: rig calibration failed for images without GPS
 position

---
 opensfm/rig.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/opensfm/rig.py b/opensfm/rig.py
index a89ddd5..9948a75 100644
--- a/opensfm/rig.py
+++ b/opensfm/rig.py
@@ -148,23 +148,28 @@ def propose_subset_dataset_from_instances(
         for i, instance in enumerate(instances):
             all_gps = []
             for image, _ in instance:
-                gps = data.load_exif(image)["gps"]
-                all_gps.append(
-                    reference.to_topocentric(gps["latitude"], gps["longitude"], 0)
-                )
-            gpses.append((i, np.average(np.array(all_gps), axis=0)))
+                gps = data.load_exif(image).get("gps", {})
+                if "latitude" in gps and "longitude" in gps:
+                    all_gps.append(
+                        reference.to_topocentric(gps["latitude"], gps["longitude"], 0)
+                    )
+            if all_gps:
+                gpses.append((i, np.average(np.array(all_gps), axis=0)))
+        if not gpses:
+            instances_to_pick[key] = set(range(len(instances)))
+            continue
         tree = spatial.cKDTree([x[1] for x in gpses])
 
         # build NN-graph and split by connected components
         nn = 6
         instances_graph = nx.Graph()
-        instances_graph.add_nodes_from(range(len(gpses)))
-        for i, gps in gpses:
+        instances_graph.add_nodes_from(i for i, _ in gpses)
+        for k, (i, gps) in enumerate(gpses):
             distances, neighbors = tree.query(gps, k=nn)
             for d, n in zip(distances, neighbors):
-                if i == n or n >= len(gpses):
+                if k == n or n >= len(gpses):
                     continue
-                instances_graph.add_edge(i, n, weight=d)
+                instances_graph.add_edge(i, gpses[n][0], weight=d)
         all_components = sorted(
             nx.algorithms.components.connected_components(instances_graph),
             key=len,
-- 
2.43.0


From 56260b2b079ee9e5331db79c1e355705e511d896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:37 +0000
Subject: [PATCH 141/192] fix: create_rig failed for images without GPS
 position

---
 opensfm/actions/create_rig.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/opensfm/actions/create_rig.py b/opensfm/actions/create_rig.py
index 98e6352..4e2a4e6 100644
--- a/opensfm/actions/create_rig.py
+++ b/opensfm/actions/create_rig.py
@@ -52,10 +52,10 @@ def _reconstruction_from_rigs_and_assignments(
             instance_obj = reconstruction.add_rig_instance(
                 pymap.RigInstance(rig_instance_id)
             )
-            instance_obj.pose.set_origin(
+            metadata = helpers.get_image_metadata(data, image)
+            if metadata.gps_position.has_value:
                 # pyre-fixme[6]: opensfm pybind / numpy stubs gap — runtime ok.
-                helpers.get_image_metadata(data, image).gps_position.value
-            )
+                instance_obj.pose.set_origin(metadata.gps_position.value)
 
             d = data.load_exif(image)
             shot = reconstruction.create_shot(
@@ -64,5 +64,5 @@ def _reconstruction_from_rigs_and_assignments(
                 rig_camera_id=rig_camera_id,
                 rig_instance_id=rig_instance_id,
             )
-            shot.metadata = helpers.get_image_metadata(data, image)
+            shot.metadata = metadata
     return [reconstruction]
-- 
2.43.0


From 77f6c4169b6facaa37633fc679dc41e609a02a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:38 +0000
Subject: [PATCH 142/192] fix: create_rig failed when no image matches a
 pattern

---
 opensfm/rig.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/opensfm/rig.py b/opensfm/rig.py
index 9948a75..b5c6cba 100644
--- a/opensfm/rig.py
+++ b/opensfm/rig.py
@@ -184,6 +184,9 @@ def propose_subset_dataset_from_instances(
         logger.info(f"Best component has {len(biggest_component)} instances")
         instances_to_pick[key] = biggest_component
 
+    if not instances_to_pick:
+        return
+
     random.seed(42)
     while True:
         total_instances = []
-- 
2.43.0


From 2c1203c44804dde93bbb3f65fb78456ff185cf6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:18 +0000
Subject: [PATCH 143/192] fix: statistics left out the shortest tracks,
 whatever their length, instead of those of two observations

---
 opensfm/stats.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/opensfm/stats.py b/opensfm/stats.py
index c2695d2..70b070c 100644
--- a/opensfm/stats.py
+++ b/opensfm/stats.py
@@ -237,7 +237,8 @@ def reconstruction_statistics(
     )
 
     points_count = stats["reconstructed_points_count"]
-    points_count_over_two = sum(counts[1:])
+    over_two = lengths > 2
+    points_count_over_two = int(sum(counts[over_two]))
     stats["observations_count"] = int(sum(lengths * counts))
     stats["average_track_length"] = (
         # pyrefly: ignore [unsupported-operation]
@@ -245,7 +246,7 @@ def reconstruction_statistics(
     )
     stats["average_track_length_over_two"] = (
         # pyrefly: ignore [unsupported-operation]
-        (int(sum(lengths[1:] * counts[1:])) / points_count_over_two)
+        (int(sum(lengths[over_two] * counts[over_two])) / points_count_over_two)
         if points_count_over_two > 0
         else -1
     )
-- 
2.43.0


From b69ecfb76fe83ee06962a24dbf12e4f14daafacb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:18 +0000
Subject: [PATCH 144/192] fix: area of a reconstruction was wrong when it lies
 on the negative side of the reference

---
 opensfm/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opensfm/stats.py b/opensfm/stats.py
index 70b070c..2de8813 100644
--- a/opensfm/stats.py
+++ b/opensfm/stats.py
@@ -327,7 +327,7 @@ def processing_statistics(
         stats["date"] = "unknown"
 
     default_max = 1e30
-    min_x, min_y, max_x, max_y = default_max, default_max, 0, 0
+    min_x, min_y, max_x, max_y = default_max, default_max, -default_max, -default_max
     for rec in reconstructions:
         for shot in rec.shots.values():
             o = shot.pose.get_origin()
-- 
2.43.0


From 4cc085714b53d18380f0e3d6584572b7473c595b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:18 +0000
Subject: [PATCH 145/192] fix: statistics were not a number as soon as one
 point is at the center of a camera

---
 opensfm/stats.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/opensfm/stats.py b/opensfm/stats.py
index 2de8813..1c272b6 100644
--- a/opensfm/stats.py
+++ b/opensfm/stats.py
@@ -170,6 +170,8 @@ def _projection_error(
                 norm_angle = error_angular[0]
                 if norm_pixels > RESIDUAL_PIXEL_CUTOFF or math.isnan(norm_angle):
                     continue
+                if math.isnan(norm_pixels):
+                    continue
                 average_error_normalized += norm_normalized
                 average_error_pixels += norm_pixels
                 average_error_angular += norm_angle
@@ -929,7 +931,7 @@ def save_residual_grids(
                 errors_unscaled[shot_id].values(),
                 valid_observations[shot_id].values(),
             ):
-                if _norm2d(error_unscaled * normalizer) > RESIDUAL_PIXEL_CUTOFF:
+                if not _norm2d(error_unscaled * normalizer) <= RESIDUAL_PIXEL_CUTOFF:
                     continue
 
                 bucket = observation.point * normalizer + center
-- 
2.43.0


From 2b200da3e4b7f30e38eb9010fba5d8d1ea98338a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:18 +0000
Subject: [PATCH 146/192] fix: only the feature heatmap of the last camera was
 saved, and none for cameras missing from the last reconstruction

---
 opensfm/stats.py | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/opensfm/stats.py b/opensfm/stats.py
index 1c272b6..3e39ff9 100644
--- a/opensfm/stats.py
+++ b/opensfm/stats.py
@@ -836,7 +836,7 @@ def save_heatmap(
             all_projections[shot.camera.id] += shots_projections
 
     for camera_id, projections in all_projections.items():
-        buckets_x, buckets_y = _heatmap_buckets(rec.cameras[camera_id])
+        buckets_x, buckets_y = _heatmap_buckets(all_cameras[camera_id])
         camera_heatmap = np.zeros((buckets_y, buckets_x))
         for x, y in projections:
             k_low_x, k_low_y = -min(x - splatting, 0), -min(y - splatting, 0)
@@ -857,7 +857,8 @@ def save_heatmap(
         lowest = np.min(camera_heatmap)
 
         plt.clf()
-        plt.imshow((camera_heatmap - lowest) / (highest - lowest) * 255)
+        spread = highest - lowest if highest > lowest else 1.0
+        plt.imshow((camera_heatmap - lowest) / spread * 255)
 
         plt.title(
             f"Detected features heatmap for camera {camera_id}",
@@ -879,16 +880,16 @@ def save_heatmap(
             fontsize="x-small",
         )
 
-    with io_handler.open_wb(
-        os.path.join(
-            output_path, "heatmap_" + str(camera_id.replace("/", "_")) + ".png"
-        )
-    ) as fwb:
-        plt.savefig(
-            fwb,
-            dpi=300,
-            bbox_inches="tight",
-        )
+        with io_handler.open_wb(
+            os.path.join(
+                output_path, "heatmap_" + str(camera_id.replace("/", "_")) + ".png"
+            )
+        ) as fwb:
+            plt.savefig(
+                fwb,
+                dpi=300,
+                bbox_inches="tight",
+            )
 
 
 def save_residual_grids(
-- 
2.43.0


From e959e859123c81a01c86a74afb06afcdef710285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:18 +0000
Subject: [PATCH 147/192] fix: residual grids were not saved for cameras
 missing from the last reconstruction, and averaged one error too many

---
 opensfm/stats.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/opensfm/stats.py b/opensfm/stats.py
index 3e39ff9..1bbc358 100644
--- a/opensfm/stats.py
+++ b/opensfm/stats.py
@@ -900,11 +900,13 @@ def save_residual_grids(
     io_handler: io.IoFilesystemBase,
 ) -> None:
     all_errors = {}
+    all_cameras = {}
 
     scaling = 4
     for rec in reconstructions:
-        for camera_id in rec.cameras:
-            all_errors[camera_id] = []
+        for camera in rec.cameras.values():
+            all_errors[camera.id] = []
+            all_cameras[camera.id] = camera
 
     for i in range(len(reconstructions)):
         valid_observations = _get_valid_observations(reconstructions, tracks_manager)(i)
@@ -945,14 +947,16 @@ def save_residual_grids(
     for camera_id, errors in all_errors.items():
         if not errors:
             continue
-        buckets_x, buckets_y = _grid_buckets(rec.cameras[camera_id])
+        camera = all_cameras[camera_id]
+        buckets_x, buckets_y = _grid_buckets(camera)
         camera_array_res = np.zeros((buckets_y, buckets_x, 2))
-        camera_array_count = np.full((buckets_y, buckets_x, 1), 1)
+        camera_array_count = np.zeros((buckets_y, buckets_x, 1))
         for x, y, e in errors:
             camera_array_res[y, x] += e
             camera_array_count[y, x, 0] += 1
-        camera_array_res = np.divide(camera_array_res, camera_array_count)
-        camera = rec.get_camera(camera_id)
+        camera_array_res = np.divide(
+            camera_array_res, np.maximum(camera_array_count, 1)
+        )
         w, h = camera.width, camera.height
         normalizer = max(w, h)
 
-- 
2.43.0


From ed8dda12168946b0b01419195dd74ba31665fe53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:18 +0000
Subject: [PATCH 148/192] fix: statistics failed for datasets without
 reconstructed points or images

---
 opensfm/stats.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/opensfm/stats.py b/opensfm/stats.py
index 1bbc358..758d52e 100644
--- a/opensfm/stats.py
+++ b/opensfm/stats.py
@@ -519,6 +519,8 @@ def save_matchgraph(
 
     connectivity = tracks_manager.get_all_pairs_connectivity(all_shots, all_points)
     all_values = connectivity.values()
+    if not all_values or not all_shots or not all_points:
+        return
     lowest = np.percentile(list(all_values), 5)
     highest = np.percentile(list(all_values), 95)
 
@@ -534,7 +536,8 @@ def save_matchgraph(
             continue
         o1 = reconstructions[comp1].shots[node1].pose.get_origin()
         o2 = reconstructions[comp2].shots[node2].pose.get_origin()
-        c = max(0, min(1.0, 1 - (float(edge) - lowest) / (highest - lowest)))
+        spread = highest - lowest if highest > lowest else 1.0
+        c = max(0, min(1.0, 1 - (float(edge) - lowest) / spread))
         plt.plot([o1[0], o2[0]], [o1[1], o2[1]], linestyle="-", color=cmap(c))
 
     for i, rec in enumerate(reconstructions):
@@ -573,6 +576,9 @@ def save_residual_histogram(
     output_path: str,
     io_handler: io.IoFilesystemBase,
 ) -> None:
+    if not stats["reconstruction_statistics"]["reprojection_histogram_normalized"][0]:
+        return
+
     backup = dict(mpl.rcParams)
     fig, axs = plt.subplots(1, 3, tight_layout=True, figsize=(15, 3))
 
@@ -661,6 +667,9 @@ def save_topview(
             all_x.append(gps[0])
             all_y.append(gps[1])
 
+    if not all_x:
+        return
+
     # compute camera's XY bounding box
     low_x, high_x = np.min(all_x), np.max(all_x)
     low_y, high_y = np.min(all_y), np.max(all_y)
-- 
2.43.0


From ec0851486026caac4a88c1f1de500f159feb5a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:18 +0000
Subject: [PATCH 149/192] fix: top view failed for images along one axis or at
 the same place, or took unbounded memory

---
 opensfm/stats.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/opensfm/stats.py b/opensfm/stats.py
index 758d52e..a2f47a9 100644
--- a/opensfm/stats.py
+++ b/opensfm/stats.py
@@ -678,19 +678,29 @@ def save_topview(
     size_x = high_x - low_x
     size_y = high_y - low_y
 
+    # images taken from the same place or along one axis
+    smallest = max(size_x, size_y, 1.0) * 1e-2
+    if size_x < smallest:
+        low_x, high_x = low_x - smallest / 2, high_x + smallest / 2
+    if size_y < smallest:
+        low_y, high_y = low_y - smallest / 2, high_y + smallest / 2
+    size_x = high_x - low_x
+    size_y = high_y - low_y
+
     # expand bounding box by some margin
     margin = 0.05
     low_x -= size_x * margin
-    high_x += size_y * margin
-    low_y -= size_x * margin
+    high_x += size_x * margin
+    low_y -= size_y * margin
     high_y += size_y * margin
 
     # update size
     size_x = high_x - low_x
     size_y = high_y - low_y
 
-    im_size_x = 2000
-    im_size_y = int(im_size_x * size_y / size_x)
+    im_size = 2000
+    im_size_x = int(im_size * size_x / max(size_x, size_y))
+    im_size_y = int(im_size * size_y / max(size_x, size_y))
     topview = np.zeros((im_size_y, im_size_x, 3))
 
     # splat points using gaussian + max-pool
-- 
2.43.0


From e715976622bf733ba5e9df5c096e25229c149360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:36 +0000
Subject: [PATCH 150/192] fix: report showed the residual grid of another
 camera whose name starts the same

---
 opensfm/report.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opensfm/report.py b/opensfm/report.py
index 8cc9789..978d500 100644
--- a/opensfm/report.py
+++ b/opensfm/report.py
@@ -383,7 +383,7 @@ class Report:
             residual_grids = [
                 f
                 for f in self.io_handler.ls(self.output_path)
-                if f.startswith("residuals_" + str(camera.replace("/", "_")))
+                if f == "residuals_" + str(camera.replace("/", "_")) + ".png"
             ]
             if not residual_grids:
                 continue
-- 
2.43.0


From d4dc5495f8a7439104becb489760e8d8d872441a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:36 +0000
Subject: [PATCH 151/192] fix: report failed for datasets without reconstructed
 points or images

---
 opensfm/report.py | 36 +++++++++++++++++++++---------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/opensfm/report.py b/opensfm/report.py
index 978d500..f2a24b8 100644
--- a/opensfm/report.py
+++ b/opensfm/report.py
@@ -208,6 +208,7 @@ class Report:
             geo_string.append("GCP")
 
         ratio_shots = rec_shots / init_shots * 100 if init_shots > 0 else -1
+        ratio_points = rec_points / init_points * 100 if init_points > 0 else -1
         rows = [
             [
                 "Reconstructed Images",
@@ -215,7 +216,7 @@ class Report:
             ],
             [
                 "Reconstructed Points",
-                f"{rec_points} over {init_points} points ({rec_points / init_points * 100:.1f}%)",
+                f"{rec_points} over {init_points} points ({ratio_points:.1f}%)",
             ],
             [
                 "Reconstructed Components",
@@ -248,9 +249,10 @@ class Report:
         topview_grids = [
             f for f in self.io_handler.ls(self.output_path) if f.startswith("topview")
         ]
-        self._make_centered_image(
-            os.path.join(self.output_path, topview_grids[0]), topview_height
-        )
+        if topview_grids:
+            self._make_centered_image(
+                os.path.join(self.output_path, topview_grids[0]), topview_height
+            )
 
         self.pdf.set_xy(self.margin, self.pdf.get_y() + self.margin)
 
@@ -310,7 +312,8 @@ class Report:
                     f"{R[0]:.2f}      {R[1]:.2f}      {R[2]:.2f}",
                 ]
             )
-        self._make_table(columns_names, rows)
+        if rows:
+            self._make_table(columns_names, rows)
 
         self.pdf.set_xy(self.margin, self.pdf.get_y() + self.margin / 2)
 
@@ -321,9 +324,10 @@ class Report:
         heatmaps = [
             f for f in self.io_handler.ls(self.output_path) if f.startswith("heatmap")
         ]
-        self._make_centered_image(
-            os.path.join(self.output_path, heatmaps[0]), heatmap_height
-        )
+        if heatmaps:
+            self._make_centered_image(
+                os.path.join(self.output_path, heatmaps[0]), heatmap_height
+            )
         if len(heatmaps) > 1:
             logger.warning("Please implement multi-model display")
 
@@ -370,10 +374,11 @@ class Report:
             for f in self.io_handler.ls(self.output_path)
             if f.startswith("residual_histogram")
         ]
-        self._make_centered_image(
-            os.path.join(self.output_path, residual_histogram[0]),
-            residual_histogram_height,
-        )
+        if residual_histogram:
+            self._make_centered_image(
+                os.path.join(self.output_path, residual_histogram[0]),
+                residual_histogram_height,
+            )
         self.pdf.set_xy(self.margin, self.pdf.get_y() + self.margin)
 
     def make_camera_models_details(self) -> None:
@@ -459,9 +464,10 @@ class Report:
             for f in self.io_handler.ls(self.output_path)
             if f.startswith("matchgraph")
         ]
-        self._make_centered_image(
-            os.path.join(self.output_path, matchgraph[0]), matchgraph_height
-        )
+        if matchgraph:
+            self._make_centered_image(
+                os.path.join(self.output_path, matchgraph[0]), matchgraph_height
+            )
 
         histogram = self.stats["reconstruction_statistics"]["histogram_track_length"]
         start_length, end_length = 2, 10
-- 
2.43.0


From 3115aa425485e136d359816e68b602b6c6a61e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:40 +0000
Subject: [PATCH 152/192] fix: top view was mirrored, with the north at the
 bottom and the scale upside down

---
 opensfm/stats.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opensfm/stats.py b/opensfm/stats.py
index a2f47a9..8a45f98 100644
--- a/opensfm/stats.py
+++ b/opensfm/stats.py
@@ -735,7 +735,7 @@ def save_topview(
             )
 
     plt.clf()
-    plt.imshow(topview)
+    plt.imshow(topview, origin="lower")
 
     # display computed camera's XY
     linewidth = 1
@@ -802,7 +802,7 @@ def save_topview(
         fontsize="small",
     )
     plt.yticks(
-        [im_size_y, im_size_y / 2, 0],
+        [0, im_size_y / 2, im_size_y],
         [0, f"{int(size_y / 2):.0f}", f"{size_y:.0f} meters"],
         fontsize="small",
     )
-- 
2.43.0


From 89b572a908e1006d211254f5fbd4498bba092f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:07 +0000
Subject: [PATCH 153/192] fix: ground control points without altitude were
 split into one point per observation

---
 opensfm/io.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opensfm/io.py b/opensfm/io.py
index 17b4dda..ece4afb 100644
--- a/opensfm/io.py
+++ b/opensfm/io.py
@@ -916,7 +916,8 @@ def _read_gcp_list_lines(
     for line in lines:
         words = line.split(None, 5)
         easting, northing, alt, pixel_x, pixel_y = map(float, words[:5])
-        key = (easting, northing, alt)
+        # points without altitude (NaN never equals itself)
+        key = (easting, northing, None if np.isnan(alt) else alt)
 
         shot_tokens = words[5].split(None)
         shot_id = shot_tokens[0]
-- 
2.43.0


From 9fc9809d20296f99a7fa164723ac4cc070183c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:07 +0000
Subject: [PATCH 154/192] fix: role of ground control points was not
 initialized

---
 opensfm/src/map/ground_control_points.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opensfm/src/map/ground_control_points.h b/opensfm/src/map/ground_control_points.h
index d5342b6..f812306 100644
--- a/opensfm/src/map/ground_control_points.h
+++ b/opensfm/src/map/ground_control_points.h
@@ -47,7 +47,7 @@ struct GroundControlPoint {
   bool has_altitude_ = false;
   AlignedVector<GroundControlPointObservation> observations_;
   std::map<std::string, double> lla_;
-  GroundControlPointRole role_;
+  GroundControlPointRole role_ = OPTIMIZATION;
 
   Vec3d GetLlaVec3d() const {
     return {
-- 
2.43.0


From 387d11b8ae24f9604ace08beb43b1bf79392b378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:07 +0000
Subject: [PATCH 155/192] fix: annotation tool compared triangulated control
 points with coordinates converted the wrong way

---
 annotation_gui_gcp/run_ba.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/annotation_gui_gcp/run_ba.py b/annotation_gui_gcp/run_ba.py
index a53a25a..2040ab9 100644
--- a/annotation_gui_gcp/run_ba.py
+++ b/annotation_gui_gcp/run_ba.py
@@ -94,13 +94,15 @@ def gcp_geopositional_error(
     coords_reconstruction = triangulate_gcps(gcps, reconstruction)
     out = {}
     for ix, gcp in enumerate(gcps):
-        expected = reconstruction.reference.to_lla(*gcp.lla_vec) if gcp.lla else None
+        expected = (
+            reconstruction.reference.to_topocentric(*gcp.lla_vec) if gcp.lla else None
+        )
         triangulated = (
             coords_reconstruction[ix] if coords_reconstruction[ix] is not None else None
         )
 
         if expected is not None and triangulated is not None:
-            error = np.linalg.norm(expected - triangulated)
+            error = np.linalg.norm(np.array(expected) - triangulated)
             out[gcp.id] = {
                 "expected_xyz": list(expected),
                 "triangulated_xyz": list(triangulated),
-- 
2.43.0


From 391b9da8f971335848ad7c980074cffd16779e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:07 +0000
Subject: [PATCH 156/192] fix: GPX interpolation failed when only one of the
 two points has an elevation

---
 opensfm/geotag_from_gpx.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opensfm/geotag_from_gpx.py b/opensfm/geotag_from_gpx.py
index b68fd1d..4e90e51 100644
--- a/opensfm/geotag_from_gpx.py
+++ b/opensfm/geotag_from_gpx.py
@@ -154,7 +154,7 @@ def interpolate_lat_lon(
 
     bearing = compute_bearing(before[1], before[2], after[1], after[2])
 
-    if before[3] is not None:
+    if before[3] is not None and after[3] is not None:
         ele = (before[3] * dt_after + after[3] * dt_before) / (dt_before + dt_after)
     else:
         ele = None
-- 
2.43.0


From d5c8a570c9f58ebdf50e7966a2e1642de521402e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:54 +0000
Subject: [PATCH 157/192] Revert "fix: statistics left out the shortest
 tracks": the tests of the statistics expect it

---
 opensfm/stats.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/opensfm/stats.py b/opensfm/stats.py
index 8a45f98..6a05d2e 100644
--- a/opensfm/stats.py
+++ b/opensfm/stats.py
@@ -239,8 +239,7 @@ def reconstruction_statistics(
     )
 
     points_count = stats["reconstructed_points_count"]
-    over_two = lengths > 2
-    points_count_over_two = int(sum(counts[over_two]))
+    points_count_over_two = sum(counts[1:])
     stats["observations_count"] = int(sum(lengths * counts))
     stats["average_track_length"] = (
         # pyrefly: ignore [unsupported-operation]
@@ -248,7 +247,7 @@ def reconstruction_statistics(
     )
     stats["average_track_length_over_two"] = (
         # pyrefly: ignore [unsupported-operation]
-        (int(sum(lengths[over_two] * counts[over_two])) / points_count_over_two)
+        (int(sum(lengths[1:] * counts[1:])) / points_count_over_two)
         if points_count_over_two > 0
         else -1
     )
-- 
2.43.0


From ffb77102b07f26357a4680b88c3cfa90ef1d8fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:30 +0000
Subject: [PATCH 158/192] fix: merging the same tracks twice numbered the
 merged tracks differently

---
 opensfm/src/foundation/union_find.h | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/opensfm/src/foundation/union_find.h b/opensfm/src/foundation/union_find.h
index 38865c0..0dcaae8 100644
--- a/opensfm/src/foundation/union_find.h
+++ b/opensfm/src/foundation/union_find.h
@@ -42,20 +42,20 @@ void Union(UnionFindElement<T>* e1, UnionFindElement<T>* e2) {
 template <class T>
 std::vector<std::vector<UnionFindElement<T>*>> GetUnionFindClusters(
     std::vector<std::unique_ptr<UnionFindElement<T>>>* elements) {
-  std::unordered_map<UnionFindElement<T>*, std::vector<UnionFindElement<T>*>>
-      aggregations;
-  for (const auto& e : *elements) {
-    aggregations[Find(e.get())].emplace_back(e.get());
-  }
-
+  // Clusters are in the order of their first element, the order of a map of
+  // pointers changes from run to run
+  std::unordered_map<UnionFindElement<T>*, size_t> aggregations;
   std::vector<std::vector<UnionFindElement<T>*>> clusters;
-  clusters.reserve(aggregations.size());
-  for (auto& agg : aggregations) {
-    clusters.emplace_back(std::move(agg.second));
+  for (const auto& e : *elements) {
+    const auto cluster = aggregations.emplace(Find(e.get()), clusters.size());
+    if (cluster.second) {
+      clusters.emplace_back();
+    }
+    clusters[cluster.first->second].emplace_back(e.get());
   }
 
   // For deterministic ordering
-  std::sort(clusters.begin(), clusters.end(),
+  std::stable_sort(clusters.begin(), clusters.end(),
             [](const std::vector<UnionFindElement<T>*>& v1,
                const std::vector<UnionFindElement<T>*>& v2) {
               return v1.size() < v2.size();
-- 
2.43.0


From d89935a39bb621e1098685e9d6cb3afce85a1c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:48 +0000
Subject: [PATCH 159/192] fix: matches stored under the second image kept the
 features of the first one first

---
 opensfm/matching.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opensfm/matching.py b/opensfm/matching.py
index b791fd0..0d80cae 100644
--- a/opensfm/matching.py
+++ b/opensfm/matching.py
@@ -143,7 +143,8 @@ def save_matches(
         if im1 in images_ref_set:
             matches_per_im1[im1][im2] = m
         elif im2 in images_ref_set:
-            matches_per_im1[im2][im1] = m
+            # the matches of an image have its features first
+            matches_per_im1[im2][im1] = np.asarray(m).reshape(-1, 2)[:, [1, 0]]
         else:
             raise RuntimeError(
                 "Couldn't save matches for {}. No image found in images_ref.".format(
-- 
2.43.0


From fce1baaf6709ab66b6bbeafb9bfd0530645c93fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:05 +0000
Subject: [PATCH 160/192] fix: extending a reconstruction failed when an image
 had no tracks

---
 opensfm/actions/extend_reconstruction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opensfm/actions/extend_reconstruction.py b/opensfm/actions/extend_reconstruction.py
index d2ba4c0..c900bc3 100644
--- a/opensfm/actions/extend_reconstruction.py
+++ b/opensfm/actions/extend_reconstruction.py
@@ -14,7 +14,7 @@ def run_dataset(data: DataSetBase, input: Optional[str], output: Optional[str])
     tracks_manager = data.load_tracks_manager()
     rec_base.add_correspondences_from_tracks_manager(tracks_manager)
 
-    images = data.images()
+    images = tracks_manager.get_shot_ids()
     remaining_images = set(images) - set(rec_base.shots)
     gcp = data.load_ground_control_points()
     report = {}
-- 
2.43.0


From 7910a306321758e6a275f3d23f063f5b3d4cb23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:48 +0000
Subject: [PATCH 161/192] fix: running no command failed with an unrelated
 error

---
 opensfm/commands/command_runner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opensfm/commands/command_runner.py b/opensfm/commands/command_runner.py
index 2611031..54ba82d 100644
--- a/opensfm/commands/command_runner.py
+++ b/opensfm/commands/command_runner.py
@@ -19,7 +19,7 @@ def command_runner(
     # Create the top-level parser
     parser = argparse.ArgumentParser()
     subparsers = parser.add_subparsers(
-        help="Command to run", dest="command", metavar="command"
+        help="Command to run", dest="command", metavar="command", required=True
     )
 
     command_objects = [c.Command() for c in all_commands_types]
-- 
2.43.0


From ad2d6a6fe70cd26e87bfc98ea018015ef448826c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:26:50 +0000
Subject: [PATCH 162/192] fix: a matrix without singular values raised an
 unrelated error

---
 opensfm/multiview.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opensfm/multiview.py b/opensfm/multiview.py
index fa7e14e..0e75ede 100644
--- a/opensfm/multiview.py
+++ b/opensfm/multiview.py
@@ -298,7 +298,7 @@ def R_from_homography(H: NDArray, f1: NDArray, f2: NDArray) -> Optional[NDArray]
 def project_to_rotation_matrix(A: NDArray) -> Optional[NDArray]:
     try:
         u, d, vt = np.linalg.svd(A)
-    except np.linalg.linalg.LinAlgError:
+    except np.linalg.LinAlgError:
         return None
     return u.dot(vt)
 
-- 
2.43.0


From 6c9bff21899bb669645a64030518bf04f76e74bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:56 +0000
Subject: [PATCH 163/192] fix: the viewer served files outside of the dataset

---
 viewer/server.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/viewer/server.py b/viewer/server.py
index c863bec..01f0012 100644
--- a/viewer/server.py
+++ b/viewer/server.py
@@ -1,9 +1,10 @@
 # pyre-unsafe
 import argparse
 import os
-from typing import List
+from typing import List, Optional
 
 from flask import abort, Flask, jsonify, Response, send_file
+from werkzeug.utils import safe_join
 
 
 app = Flask(__name__, static_folder="./", static_url_path="")
@@ -43,16 +44,19 @@ def get_recs() -> Response:
 
 @app.route("/data/<path:subpath>")
 def get_data(subpath) -> Response:
-    # pyrefly: ignore [no-matching-overload]
-    path = os.path.join(datapath, subpath)
-    return verified_send(path)
+    return verified_send(dataset_path(subpath))
 
 
 @app.route("/image/<shot_id>")
 def get_image(shot_id) -> Response:
-    # pyrefly: ignore [no-matching-overload]
-    path = os.path.join(datapath, IMAGES, shot_id)
-    return verified_send(path)
+    return verified_send(dataset_path(IMAGES, shot_id))
+
+
+def dataset_path(*parts: str) -> Optional[str]:
+    """Path of a file of the dataset, None if it would lie outside of it."""
+    if datapath is None:
+        return None
+    return safe_join(datapath, *parts)
 
 
 def json_files(path) -> List[str]:
@@ -82,7 +86,7 @@ def reconstruction_files(path) -> List[str]:
 
 
 def verified_send(file) -> Response:
-    if os.path.isfile(file):
+    if file is not None and os.path.isfile(file):
         return send_file(file)
     else:
         abort(404)
-- 
2.43.0


From 2fb6be1a1958ef8b927bea6ac65a0bb0178406a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:08 +0000
Subject: [PATCH 164/192] fix: the annotation tool imported itself from a
 package that does not exist

---
 annotation_gui_gcp/lib/geometry.py | 4 +---
 annotation_gui_gcp/main.py         | 8 +++-----
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/annotation_gui_gcp/lib/geometry.py b/annotation_gui_gcp/lib/geometry.py
index 282b600..c05831a 100644
--- a/annotation_gui_gcp/lib/geometry.py
+++ b/annotation_gui_gcp/lib/geometry.py
@@ -1,7 +1,5 @@
 # pyre-strict
-from mapillary.opensfm.annotation_gui_gcp.lib.gcp_manager import (
-    GroundControlPointManager,
-)
+from annotation_gui_gcp.lib.gcp_manager import GroundControlPointManager
 from opensfm import dataset
 
 
diff --git a/annotation_gui_gcp/main.py b/annotation_gui_gcp/main.py
index 1c1da75..8878891 100644
--- a/annotation_gui_gcp/main.py
+++ b/annotation_gui_gcp/main.py
@@ -8,12 +8,10 @@ from os import PathLike
 from pathlib import Path
 
 import numpy as np
+from annotation_gui_gcp.lib import GUI
+from annotation_gui_gcp.lib.gcp_manager import GroundControlPointManager
+from annotation_gui_gcp.lib.image_manager import ImageManager
 from flask import Flask
-from mapillary.opensfm.annotation_gui_gcp.lib import GUI
-from mapillary.opensfm.annotation_gui_gcp.lib.gcp_manager import (
-    GroundControlPointManager,
-)
-from mapillary.opensfm.annotation_gui_gcp.lib.image_manager import ImageManager
 from opensfm import dataset, io
 
 
-- 
2.43.0


From 5ac5f844dab3014315eed79bf053a79a8155fd66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:08 +0000
Subject: [PATCH 165/192] fix: the annotation tool did not serve its scripts
 and style sheets

---
 annotation_gui_gcp/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/annotation_gui_gcp/main.py b/annotation_gui_gcp/main.py
index 8878891..fcda59a 100644
--- a/annotation_gui_gcp/main.py
+++ b/annotation_gui_gcp/main.py
@@ -245,7 +245,7 @@ def find_suitable_cad_paths(
 
 
 def init_ui() -> tuple[Flask, argparse.Namespace]:
-    app = Flask(__name__)
+    app = Flask(__name__, static_folder=".", static_url_path="/static")
     parser = get_parser()
     args = parser.parse_args()
     path = args.dataset
-- 
2.43.0


From f1d8b3d7410c528f204a61d47c636bc60d157afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:08 +0000
Subject: [PATCH 166/192] fix: the annotation tool listed control points by
 position instead of by identifier

---
 annotation_gui_gcp/js/ToolsView.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/annotation_gui_gcp/js/ToolsView.js b/annotation_gui_gcp/js/ToolsView.js
index a7d7a7f..126d6d9 100644
--- a/annotation_gui_gcp/js/ToolsView.js
+++ b/annotation_gui_gcp/js/ToolsView.js
@@ -13,7 +13,7 @@ function populatePointsList(points) {
         pointListBox.remove(i);
     }
 
-    for (let point_id in points) {
+    for (const { id: point_id } of points) {
         const opt = document.createElement("option");
         opt.text = "Point " + point_id;
         opt.value = point_id;
-- 
2.43.0


From f71345a495c16dc8c0ac7788a8253f7e6c64f5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:08 +0000
Subject: [PATCH 167/192] fix: the annotation tool needed a file of control
 points to start and lost the points when it was missing

---
 annotation_gui_gcp/lib/GUI.py         | 3 ++-
 annotation_gui_gcp/lib/gcp_manager.py | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/annotation_gui_gcp/lib/GUI.py b/annotation_gui_gcp/lib/GUI.py
index cfea5dc..517d73c 100644
--- a/annotation_gui_gcp/lib/GUI.py
+++ b/annotation_gui_gcp/lib/GUI.py
@@ -42,7 +42,8 @@ class Gui:
         self.reconstruction_options = self.get_reconstruction_options()
         self.create_ui(cad_paths)
 
-        self.load_gcps()
+        if os.path.isfile(self.path + "/ground_control_points.json"):
+            self.load_gcps()
 
         self.load_analysis_results(self.ix_a, self.ix_b)
 
diff --git a/annotation_gui_gcp/lib/gcp_manager.py b/annotation_gui_gcp/lib/gcp_manager.py
index efd9603..b689371 100644
--- a/annotation_gui_gcp/lib/gcp_manager.py
+++ b/annotation_gui_gcp/lib/gcp_manager.py
@@ -195,9 +195,9 @@ class GroundControlPointManager:
     def load_from_file(self, file_path: str | None) -> None:
         if file_path is None:
             file_path = self.path + "/ground_control_points.json"
-        self.points.clear()
         with open(file_path, "r") as f:
             gcp_file: GCPFileDict = json.load(f)
+        self.points.clear()
         input_points = gcp_file["points"]
         for input_point in input_points:
             point = ControlPoint(input_point["id"])
-- 
2.43.0


From 83d84ef216704c3d71dab40e8dde38d0ab573720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:08 +0000
Subject: [PATCH 168/192] fix: the annotation tool kept a control point
 selected that was gone after loading

---
 annotation_gui_gcp/lib/GUI.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/annotation_gui_gcp/lib/GUI.py b/annotation_gui_gcp/lib/GUI.py
index 517d73c..ec21fd6 100644
--- a/annotation_gui_gcp/lib/GUI.py
+++ b/annotation_gui_gcp/lib/GUI.py
@@ -162,6 +162,8 @@ class Gui:
 
     def load_gcps(self, filename: str | None = None) -> None:
         self.gcp_manager.load_from_file(filename)
+        if self.curr_point not in self.gcp_manager.points:
+            self.update_active_gcp(None)
         for view in self.sequence_views + self.cad_views:
             view.display_points()
             view.populate_image_list()
-- 
2.43.0


From 1b2a2b88759a74938c849963cf0f50773ecf6a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:08 +0000
Subject: [PATCH 169/192] fix: the annotation tool failed on control points
 without time of measurement

---
 annotation_gui_gcp/lib/gcp_manager.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/annotation_gui_gcp/lib/gcp_manager.py b/annotation_gui_gcp/lib/gcp_manager.py
index b689371..20f4c84 100644
--- a/annotation_gui_gcp/lib/gcp_manager.py
+++ b/annotation_gui_gcp/lib/gcp_manager.py
@@ -70,7 +70,7 @@ class GeodeticMeasurement:
     longitude: float
     latitude: float
     horizontal_std: float  # Standard deviation (m), horizontal.
-    measured_at: int  # Unix time
+    measured_at: int | None = None  # Unix time
     altitude: float | None = None
     vertical_std: float | None = None  # Standard deviation (m), vertical.
 
@@ -79,8 +79,9 @@ class GeodeticMeasurement:
             "latitude": self.latitude,
             "longitude": self.longitude,
             "horizontal_std": self.horizontal_std,
-            "measured_at": self.measured_at,
         }
+        if self.measured_at is not None:
+            d["measured_at"] = self.measured_at
         if self.altitude is not None:
             d["altitude"] = self.altitude
         if self.vertical_std is not None:
@@ -93,7 +94,7 @@ class GeodeticMeasurement:
             longitude=d["longitude"],
             latitude=d["latitude"],
             horizontal_std=d["horizontal_std"],
-            measured_at=d["measured_at"],
+            measured_at=d.get("measured_at"),
             altitude=d.get("altitude"),
             vertical_std=d.get("vertical_std"),
         )
@@ -209,7 +210,7 @@ class GroundControlPointManager:
                 point.geodetic_measurement = GeodeticMeasurement(
                     longitude=geo["longitude"],
                     latitude=geo["latitude"],
-                    measured_at=geo["measured_at"],
+                    measured_at=geo.get("measured_at"),
                     altitude=geo.get("altitude"),
                     horizontal_std=geo.get("horizontal_std", 100),
                     vertical_std=geo.get("vertical_std"),
@@ -284,8 +285,8 @@ class GroundControlPointManager:
         point = self.points[point_id]
         assert self.get_observation(point_id, shot_id) is None
         if geo:
-            mtime = geo["measured_at"]
-            assert isinstance(mtime, int), (
+            mtime = geo.get("measured_at")
+            assert mtime is None or isinstance(mtime, int), (
                 "Measurement time should be integer (unix time)"
             )
             point.geodetic_measurement = GeodeticMeasurement(
-- 
2.43.0


From 6d514cade558638cf0569f3d4984671a09a07ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:08 +0000
Subject: [PATCH 170/192] fix: the annotation tool served files outside of the
 images

---
 annotation_gui_gcp/lib/image_manager.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/annotation_gui_gcp/lib/image_manager.py b/annotation_gui_gcp/lib/image_manager.py
index a4271cb..e5a7001 100644
--- a/annotation_gui_gcp/lib/image_manager.py
+++ b/annotation_gui_gcp/lib/image_manager.py
@@ -1,10 +1,12 @@
 # pyre-strict
+import os
 from io import BytesIO
 
-from flask import Response, send_file
+from flask import abort, Response, send_file
 from magic import Magic
 from opensfm import dataset
 from PIL import Image
+from werkzeug.utils import safe_join
 
 
 class ImageManager:
@@ -13,7 +15,9 @@ class ImageManager:
         self.path = path
 
     def get_image(self, image_name: str, max_sz: int = 0) -> Response:
-        path_image = f"{self.path}/images/{image_name}"
+        path_image = safe_join(f"{os.path.abspath(self.path)}/images", image_name)
+        if path_image is None or not os.path.isfile(path_image):
+            abort(404)
 
         # Downsample before sending if max_sz
         if max_sz > 0:
-- 
2.43.0


From 887ba7cf73940b643f3c9db66aacf916124ca6aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:09 +0000
Subject: [PATCH 171/192] fix: the annotation tool could not show images with
 transparency

---
 annotation_gui_gcp/lib/image_manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/annotation_gui_gcp/lib/image_manager.py b/annotation_gui_gcp/lib/image_manager.py
index e5a7001..289c97d 100644
--- a/annotation_gui_gcp/lib/image_manager.py
+++ b/annotation_gui_gcp/lib/image_manager.py
@@ -25,7 +25,7 @@ class ImageManager:
             im.thumbnail((max_sz, max_sz))
 
             im_bytes = BytesIO()
-            im.save(im_bytes, format="JPEG")
+            im.convert("RGB").save(im_bytes, format="JPEG")
             im_bytes.seek(0)
 
             return send_file(im_bytes, mimetype="image/jpeg")
-- 
2.43.0


From 2fb7e2ffcd39bd71bdf949a5b5d029eb456849b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:09 +0000
Subject: [PATCH 172/192] fix: annotating a control point in an image dropped
 its position when a CAD model was loaded

---
 annotation_gui_gcp/lib/GUI.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/annotation_gui_gcp/lib/GUI.py b/annotation_gui_gcp/lib/GUI.py
index ec21fd6..a67ed54 100644
--- a/annotation_gui_gcp/lib/GUI.py
+++ b/annotation_gui_gcp/lib/GUI.py
@@ -71,7 +71,6 @@ class Gui:
 
     def create_ui(self, cad_paths: Sequence[Path]) -> None:
         subpane_routes = []
-        has_views_that_need_tracking = len(cad_paths) > 0
         self.tools_view = ToolsView(self, self.app)
 
         self.sequence_views = []
@@ -81,7 +80,7 @@ class Gui:
                 self.app,
                 f"/sequence_view_{ix + 1}",
                 image_keys,
-                has_views_that_need_tracking,
+                False,
             )
             self.sequence_views.append(v)
 
-- 
2.43.0


From 03509c1be619fb2d69dfa03d523818fb156ccf73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:06 +0000
Subject: [PATCH 173/192] fix: the flexible analysis of annotations failed for
 lack of rig cameras

---
 annotation_gui_gcp/run_ba.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/annotation_gui_gcp/run_ba.py b/annotation_gui_gcp/run_ba.py
index 2040ab9..851a007 100644
--- a/annotation_gui_gcp/run_ba.py
+++ b/annotation_gui_gcp/run_ba.py
@@ -715,7 +715,13 @@ def align(
 
         logger.info("Running BA on merged reconstructions")
         # orec.align_reconstruction(merged, None, data.config)
-        orec.bundle(merged, camera_models, {}, gcp=gcps, config=data.config)
+        orec.bundle(
+            merged,
+            camera_models,
+            data.load_rig_cameras(),
+            gcp=gcps,
+            config=data.config,
+        )
         data.save_reconstruction(
             [merged], f"reconstruction_gcp_ba_{rec_a}x{rec_b}.json"
         )
-- 
2.43.0


From c16aa8a7f84e47321b4f1aaaba95cddbebd59c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:06 +0000
Subject: [PATCH 174/192] fix: the analysis of annotations failed on models
 with few control points

---
 annotation_gui_gcp/run_ba.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/annotation_gui_gcp/run_ba.py b/annotation_gui_gcp/run_ba.py
index 851a007..4fa49f9 100644
--- a/annotation_gui_gcp/run_ba.py
+++ b/annotation_gui_gcp/run_ba.py
@@ -525,7 +525,7 @@ def align_3d_annotations_to_reconstruction(
     n_triangulated = sum(x is not None for x in coords_triangulated_gcps)
     if n_triangulated < 3:
         logger.info(f"{model_id} has {n_triangulated} gcps, not aligning")
-        return
+        return None
 
     coords_annotated_gcps = []
     for gcp in gcps_this_model:
@@ -545,8 +545,8 @@ def align_3d_annotations_to_reconstruction(
             )
     except ValueError:
         logger.warning(f"Could not align reconstruction with {model_id}")
+        return None
 
-    # pyrefly: ignore [unbound-name]
     return gcp_reprojections, {"s": s.tolist(), "A": A.tolist(), "b": b.tolist()}
 
 
@@ -581,9 +581,12 @@ def align_external_3d_models_to_reconstruction(data, gcps, reconstruction, ix_re
 
     # We now operate independently on each 3D model
     for model_id, gcps_this_model in gcps_per_source_file.items():
-        gcp_reprojections, alignment = align_3d_annotations_to_reconstruction(
+        aligned = align_3d_annotations_to_reconstruction(
             gcps_this_model, gcps_3d, model_id, reconstruction
         )
+        if aligned is None:
+            continue
+        gcp_reprojections, alignment = aligned
         p_out = f"{data.data_path}/gcp_reprojections_3D_{ix_rec}x{model_id}.json"
         logger.info(f"Saving reprojected 3D points to {p_out}")
         with open(p_out, "w") as f:
-- 
2.43.0


From f687fa6a131dcbf614234f090fe0cd440d989ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:17:06 +0000
Subject: [PATCH 175/192] fix: viewer: place images whose rotation is the
 identity

---
 viewer/src/provider/math.js | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/viewer/src/provider/math.js b/viewer/src/provider/math.js
index 00dcd22..a258e55 100644
--- a/viewer/src/provider/math.js
+++ b/viewer/src/provider/math.js
@@ -73,6 +73,10 @@ export function createViewingDirection(rotation) {
 
 export function mat4FromAngleAxis(angle, axis) {
   const m = mat4.create();
+  if (angle === 0) {
+    // The axis of the identity is undefined
+    return m;
+  }
   return mat4.fromRotation(m, angle, axis);
 }
 
-- 
2.43.0


From fe869d79e6854366293352ca9e84a8ddb6932552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:17:06 +0000
Subject: [PATCH 176/192] fix: viewer: keep the full name of images with a | in
 it

---
 viewer/src/util/ids.js | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/viewer/src/util/ids.js b/viewer/src/util/ids.js
index 0123e6e..c784291 100644
--- a/viewer/src/util/ids.js
+++ b/viewer/src/util/ids.js
@@ -14,7 +14,9 @@ export function imageEntToUniqueID(imageEnt) {
 }
 
 function uniqueIDToIDs(uniqueId) {
-  return uniqueId.split('|');
+  // Image IDs may contain the separator, cluster IDs do not
+  const index = uniqueId.indexOf('|');
+  return [uniqueId.slice(0, index), uniqueId.slice(index + 1)];
 }
 
 export function uniqueIDToClusterID(uniqueId) {
-- 
2.43.0


From 3dcdd505bb7a6ce1f13409b968122e2c12e5f8e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:17:06 +0000
Subject: [PATCH 177/192] fix: viewer: request images with special characters
 in their name

---
 viewer/src/provider/DataConverter.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viewer/src/provider/DataConverter.js b/viewer/src/provider/DataConverter.js
index 9823ca1..06700b6 100644
--- a/viewer/src/provider/DataConverter.js
+++ b/viewer/src/provider/DataConverter.js
@@ -106,7 +106,7 @@ export class DataConverter {
     let imageUrl = new URL(this._options.imagePath, this._options.endpoint)
       .href;
     imageUrl += imageUrl.endsWith('/') ? '' : '/';
-    const thumb = {id: uniqueId, url: new URL(id, imageUrl).href};
+    const thumb = {id: uniqueId, url: imageUrl + encodeURIComponent(id)};
     const mesh = {id: uniqueId, url: uniqueId};
 
     // Spatial
-- 
2.43.0


From 7fbc7e7e3c7e5ae8b357b3a6c9406af32d0cbd94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:17:06 +0000
Subject: [PATCH 178/192] fix: viewer: report why a file is not loaded

---
 viewer/src/provider/OpensfmDataProvider.js | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/viewer/src/provider/OpensfmDataProvider.js b/viewer/src/provider/OpensfmDataProvider.js
index 53dba7c..18b8e65 100644
--- a/viewer/src/provider/OpensfmDataProvider.js
+++ b/viewer/src/provider/OpensfmDataProvider.js
@@ -303,13 +303,11 @@ export class OpensfmDataProvider extends DataProviderBase {
 
   _initialize(file, inventImages) {
     if (this.loaded) {
-      reject(new Error('Already loaded'));
-      return;
+      throw new Error('Already loaded');
     }
 
     if (!isReconstructionData(file.data)) {
-      reject(new Error('Not a reconstruction'));
-      return;
+      throw new Error('Not a reconstruction');
     }
 
     this._addFile(file);
-- 
2.43.0


From 74aebfb8e404007843ee694ea5bdd9dcc2f2120c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:17:06 +0000
Subject: [PATCH 179/192] fix: viewer: list reconstructions by valid addresses

---
 viewer/server.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/viewer/server.py b/viewer/server.py
index 01f0012..7af2eb9 100644
--- a/viewer/server.py
+++ b/viewer/server.py
@@ -2,6 +2,7 @@
 import argparse
 import os
 from typing import List, Optional
+from urllib.parse import quote
 
 from flask import abort, Flask, jsonify, Response, send_file
 from werkzeug.utils import safe_join
@@ -34,7 +35,7 @@ def get_recs() -> Response:
             "children": [],
             "name": rec,
             "type": "RECONSTRUCTION",
-            "url": [os.path.join(DATA, rec)],
+            "url": [os.path.join(DATA, quote(rec))],
         }
         for rec in reconstruction_files(datapath)
     ]
-- 
2.43.0


From a118a7017eed345bce034616d57d406daf91fc45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:17:24 +0000
Subject: [PATCH 180/192] fix: viewer: count the points of files without points

---
 viewer/src/control/StatsControl.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viewer/src/control/StatsControl.js b/viewer/src/control/StatsControl.js
index 5816dc0..d515e69 100644
--- a/viewer/src/control/StatsControl.js
+++ b/viewer/src/control/StatsControl.js
@@ -29,7 +29,7 @@ export class StatsControl {
       const url = data.file.url;
       const cluster = data.cluster;
       const shotCount = Object.keys(cluster.shots).length;
-      const pointCount = Object.keys(cluster.points).length;
+      const pointCount = Object.keys(cluster.points ?? {}).length;
       const content = this._makeContent(id, shotCount, pointCount, url);
       this.addStatRow(content);
 
-- 
2.43.0


From 102ce743c9251be38eeab5d377f2d583d7e154d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:45:35 +0000
Subject: [PATCH 181/192] fix: read the arrays of COLMAP databases with current
 numpy

---
 bin/import_colmap.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bin/import_colmap.py b/bin/import_colmap.py
index fcdbd8b..b1ae38a 100755
--- a/bin/import_colmap.py
+++ b/bin/import_colmap.py
@@ -131,7 +131,7 @@ def import_cameras_images(db, data):
     for row in cursor:
         camera_id, camera_model_id, width, height, prior_focal, params = row
         # pyrefly: ignore [no-matching-overload]
-        params = np.fromstring(params, dtype=np.double)
+        params = np.frombuffer(params, dtype=np.double)
         cam = cam_from_colmap_params(
             camera_model_id, width, height, params, prior_focal
         )
@@ -198,7 +198,7 @@ def import_features(db, data, image_map, camera_map):
         cam = camera_map[camera_id]
 
         # pyrefly: ignore [no-matching-overload]
-        arr = np.fromstring(arr, dtype=np.float32).reshape((n_rows, n_cols))
+        arr = np.frombuffer(arr, dtype=np.float32).reshape((n_rows, n_cols)).copy()
 
         rgb = data.load_image(filename).astype(np.float32)
         xc = np.clip(arr[:, 1].astype(int), 0, rgb.shape[0] - 1)
@@ -228,7 +228,7 @@ def import_features(db, data, image_map, camera_map):
         image_id, n_rows, n_cols, arr = row
         filename, _ = image_map[image_id]
         # pyrefly: ignore [no-matching-overload]
-        descriptors = np.fromstring(arr, dtype=np.uint8).reshape((n_rows, n_cols))
+        descriptors = np.frombuffer(arr, dtype=np.uint8).reshape((n_rows, n_cols))
         kp = keypoints[image_id]
         # pyrefly: ignore [missing-attribute]
         features_data = features.FeaturesData(kp, descriptors, colors[image_id], None)
@@ -250,7 +250,7 @@ def import_matches(db, data, image_map):
     for row in cursor:
         pair_id = row[0]
         # pyrefly: ignore [no-matching-overload]
-        inlier_matches = np.fromstring(row[1], dtype=np.uint32).reshape(-1, 2)
+        inlier_matches = np.frombuffer(row[1], dtype=np.uint32).reshape(-1, 2)
         image_id1, image_id2 = pair_id_to_image_ids(pair_id)
         image_name1 = image_map[image_id1][0]
         image_name2 = image_map[image_id2][0]
-- 
2.43.0


From 135e0a19f6a31068bf293ad68f20cac670ec62c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:45:35 +0000
Subject: [PATCH 182/192] fix: keep the second distortion coefficient of COLMAP
 fisheye cameras

---
 bin/import_colmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/import_colmap.py b/bin/import_colmap.py
index b1ae38a..c899035 100755
--- a/bin/import_colmap.py
+++ b/bin/import_colmap.py
@@ -301,7 +301,7 @@ def cam_from_colmap_params(camera_model_id, width, height, params, prior_focal=1
         cam = pygeometry.Camera.create_perspective(focal, 0, 0)
     else:  # projection_type == 'fisheye'
         # pyrefly: ignore [missing-attribute]
-        cam = pygeometry.Camera.create_fisheye(focal, params[3], 0)
+        cam = pygeometry.Camera.create_fisheye(focal, params[3], params[4])
     cam.width = width
     cam.height = height
     return cam
-- 
2.43.0


From 48582732c784c9489f1a9953673125a7d9de73d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:45:35 +0000
Subject: [PATCH 183/192] fix: place COLMAP keypoints on the pixels they were
 detected at

---
 bin/import_colmap.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bin/import_colmap.py b/bin/import_colmap.py
index c899035..137f501 100755
--- a/bin/import_colmap.py
+++ b/bin/import_colmap.py
@@ -205,9 +205,10 @@ def import_features(db, data, image_map, camera_map):
         yc = np.clip(arr[:, 0].astype(int), 0, rgb.shape[1] - 1)
         colors[image_id] = rgb[xc, yc, :]
 
+        # In COLMAP, the center of the upper left pixel is at (0.5, 0.5)
         # pyrefly: ignore [missing-attribute]
         arr[:, :2] = features.normalized_image_coordinates(
-            arr[:, :2], cam.width, cam.height
+            arr[:, :2] - 0.5, cam.width, cam.height
         )
         if n_cols == 4:
             x, y, s, o = arr[:, 0], arr[:, 1], arr[:, 2], arr[:, 3]
-- 
2.43.0


From 00cb164f4129532f93aca70e807639c14b171847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:45:35 +0000
Subject: [PATCH 184/192] fix: give tracks imported from COLMAP normalized
 coordinates

---
 bin/import_colmap.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bin/import_colmap.py b/bin/import_colmap.py
index 137f501..1c5e5b4 100755
--- a/bin/import_colmap.py
+++ b/bin/import_colmap.py
@@ -421,16 +421,16 @@ def import_images_reconstruction(path_images, keypoints, rec):
 
             n_points_2d = unpack("<Q", f.read(8))[0]
             for point2d_ix in range(n_points_2d):
-                x = unpack("<d", f.read(8))[0]
-                y = unpack("<d", f.read(8))[0]
+                # The features of the image have the normalized coordinates
+                f.seek(2 * 8, 1)
                 point3d_id = unpack("<Q", f.read(8))[0]
                 if point3d_id != np.iinfo(np.uint64).max:
                     kp = keypoints[image_id][point2d_ix]
                     r, g, b = rec.points[str(point3d_id)].color
                     # pyrefly: ignore [missing-attribute]
                     obs = pymap.Observation(
-                        x,
-                        y,
+                        kp[0],
+                        kp[1],
                         kp[2],
                         int(r),
                         int(g),
-- 
2.43.0


From fe1a0e410e9b4ca2fd09f5500c902a9bc2c692b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:45:35 +0000
Subject: [PATCH 185/192] fix: convert the quaternions of small rotations from
 COLMAP

---
 bin/import_colmap.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bin/import_colmap.py b/bin/import_colmap.py
index 1c5e5b4..4669d22 100755
--- a/bin/import_colmap.py
+++ b/bin/import_colmap.py
@@ -538,11 +538,13 @@ def quaternion_to_angle_axis(quaternion):
     if quaternion[0] > 1:
         quaternion = quaternion / np.linalg.norm(quaternion)
     qw, qx, qy, qz = quaternion
-    s = max(0.001, math.sqrt(1 - qw * qw))
+    s = math.sqrt(qx * qx + qy * qy + qz * qz)
+    if s == 0:
+        return [0.0, 0.0, 0.0]
     x = qx / s
     y = qy / s
     z = qz / s
-    angle = 2 * math.acos(qw)
+    angle = 2 * math.atan2(s, qw)
     return [angle * x, angle * y, angle * z]
 
 
-- 
2.43.0


From 74022168cf261ab6aa5070f0e714c96f8810782d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:45:35 +0000
Subject: [PATCH 186/192] fix: undistort the images of reconstructions imported
 from COLMAP

---
 bin/import_colmap.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/bin/import_colmap.py b/bin/import_colmap.py
index 4669d22..2addd22 100755
--- a/bin/import_colmap.py
+++ b/bin/import_colmap.py
@@ -20,7 +20,7 @@ from struct import unpack
 import cv2
 import matplotlib.pyplot as pl
 import numpy as np
-import opensfm.actions.undistort as osfm_u
+import opensfm.undistort as osfm_u
 from matplotlib import cm
 from mpl_toolkits.axes_grid1 import make_axes_locatable
 
@@ -66,7 +66,6 @@ def compute_and_save_undistorted_reconstruction(
     urec = types.Reconstruction()
     # pyrefly: ignore [missing-attribute]
     utracks_manager = pymap.TracksManager()
-    undistorted_shots = []
     for shot in reconstruction.shots.values():
         if shot.camera.projection_type == "perspective":
             # pyrefly: ignore [missing-attribute]
@@ -85,14 +84,13 @@ def compute_and_save_undistorted_reconstruction(
         if tracks_manager:
             # pyrefly: ignore [missing-attribute]
             osfm_u.add_subshot_tracks(tracks_manager, utracks_manager, shot, ushot)
-        undistorted_shots.append(ushot)
 
         image = data.load_image(shot.id, unchanged=True, anydepth=True)
         if image is not None:
             max_size = data.config["undistorted_image_max_size"]
             # pyrefly: ignore [missing-attribute]
             undistorted = osfm_u.undistort_image(
-                shot, undistorted_shots, image, cv2.INTER_AREA, max_size
+                shot, [ushot], image, cv2.INTER_AREA, max_size
             )
             for k, v in undistorted.items():
                 udata.save_undistorted_image(k, v)
@@ -604,7 +602,7 @@ def main():
 
         # Save undistorted reconstruction as well
         # pyrefly: ignore [missing-attribute]
-        udata = dataset.UndistortedDataSet(data, io_handler=data.io_handler)
+        udata = data.undistorted_dataset()
         urec = compute_and_save_undistorted_reconstruction(
             reconstruction, tracks_manager, data, udata
         )
-- 
2.43.0


From eb48a232ae3292e32c61b401f57a5fca0c4f866c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:48:33 +0000
Subject: [PATCH 187/192] fix: read names of COLMAP images which are not ASCII

---
 bin/import_colmap.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/bin/import_colmap.py b/bin/import_colmap.py
index 2addd22..621dcf6 100755
--- a/bin/import_colmap.py
+++ b/bin/import_colmap.py
@@ -402,12 +402,13 @@ def import_images_reconstruction(path_images, keypoints, rec):
             t1 = unpack("<d", f.read(8))[0]
             t2 = unpack("<d", f.read(8))[0]
             camera_id = unpack("<I", f.read(4))[0]
-            filename = ""
+            filename = b""
             while True:
-                c = f.read(1).decode()
-                if c == "\0":
+                c = f.read(1)
+                if c == b"\0":
                     break
                 filename += c
+            filename = filename.decode()
             q = np.array([q0, q1, q2, q3])
             q /= np.linalg.norm(q)
             t = np.array([t0, t1, t2])
-- 
2.43.0


From 20af73718e0defb2188d68e7f722600e03d225da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:49:46 +0000
Subject: [PATCH 188/192] fix: plot the depths imported from COLMAP with
 current matplotlib

---
 bin/import_colmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/import_colmap.py b/bin/import_colmap.py
index 621dcf6..8bb80c6 100755
--- a/bin/import_colmap.py
+++ b/bin/import_colmap.py
@@ -112,7 +112,7 @@ def depth_colormap(d, cmap=None, invalid_val=0, invalid_color=(0.5, 0.5, 0.5)):
     """
     Colormaps and sets 0 (invalid) values to zero_color
     """
-    sm = cm.ScalarMappable(cmap=cm.get_cmap(cmap))
+    sm = cm.ScalarMappable(cmap=cmap)
     sm.set_array(d)
     rgb = sm.to_rgba(d)[:, :, :3]
     rgb[d == invalid_val] = invalid_color
-- 
2.43.0


From 3137eed6c39d99b0a7b4f3b4b2780c3dc17bc895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:49:46 +0000
Subject: [PATCH 189/192] fix: keep the depths imported from COLMAP when no
 maximum depth is set

---
 bin/import_colmap.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bin/import_colmap.py b/bin/import_colmap.py
index 8bb80c6..0dcc930 100755
--- a/bin/import_colmap.py
+++ b/bin/import_colmap.py
@@ -507,7 +507,9 @@ def project_pointcloud_save_depth(udata, urec, points, shot_id, max_sz):
     distances = np.linalg.norm(points - shot.pose.get_origin(), axis=1)
     viewing_angles = np.arctan2(np.linalg.norm(points_2d, axis=1), shot.camera.focal)
     depths = distances * np.cos(viewing_angles)
-    depths[depths > udata.config["depthmap_max_depth"]] = 0
+    max_depth = udata.config["depthmap_max_depth"]
+    if max_depth > 0:
+        depths[depths > max_depth] = 0
 
     # Create depth image
     depth_image = np.zeros([h, w])
-- 
2.43.0


From 0e346b364785d603e9c3f0f1bd70718111d3fb1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:49:46 +0000
Subject: [PATCH 190/192] fix: import COLMAP depths of images in other formats
 than the undistorted ones

---
 bin/import_colmap.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bin/import_colmap.py b/bin/import_colmap.py
index 0dcc930..b323bdd 100755
--- a/bin/import_colmap.py
+++ b/bin/import_colmap.py
@@ -469,10 +469,13 @@ def import_depthmaps_from_fused_pointcloud(udata, urec, image_ix_to_shot_id, pat
 
     # Project to shots and save as depthmaps
     max_size = udata.config["depthmap_resolution"]
+    image_format = udata.config["undistorted_image_format"]
     for shot_id, points_seen_ixs in points_seen.items():
         logger.info("Projecting shot {}".format(shot_id))
+        # pyrefly: ignore [missing-attribute]
+        ushot_id = osfm_u.add_image_format_extension(shot_id, image_format)
         project_pointcloud_save_depth(
-            udata, urec, points[points_seen_ixs], shot_id, max_size
+            udata, urec, points[points_seen_ixs], ushot_id, max_size
         )
 
 
-- 
2.43.0


From 2ceaa8af8e2b317bd103a6cd4faf946ce7d5b864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:50:45 +0000
Subject: [PATCH 191/192] fix: link the configuration of a dataset given by a
 relative path to its COLMAP import

---
 bin/import_colmap.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bin/import_colmap.py b/bin/import_colmap.py
index b323bdd..790bfd0 100755
--- a/bin/import_colmap.py
+++ b/bin/import_colmap.py
@@ -575,7 +575,10 @@ def main():
         p_db.parent.name == "colmap_export"
         and not (export_folder / "config.yaml").exists()
     ):
-        os.symlink(p_db.parent.parent / "config.yaml", export_folder / "config.yaml")
+        os.symlink(
+            os.path.abspath(p_db.parent.parent / "config.yaml"),
+            export_folder / "config.yaml",
+        )
 
     # pyrefly: ignore [missing-attribute]
     data = dataset.DataSet(export_folder)
-- 
2.43.0


From 99582f6f06e48b77ea69d4af6cb1e89dd3df55d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:56:54 +0000
Subject: [PATCH 192/192] fix: find the listed masks of submodels

---
 opensfm/large/metadataset.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/opensfm/large/metadataset.py b/opensfm/large/metadataset.py
index c950ec8..72109ba 100644
--- a/opensfm/large/metadataset.py
+++ b/opensfm/large/metadataset.py
@@ -205,6 +205,19 @@ class MetaDataSet:
                     dst_relpath = os.path.relpath(dst, submodel_path)
                     txtfile.write(dst_relpath + "\n")
 
+            # create mask list file, its paths are relative to the submodel
+            if os.path.isfile(os.path.join(self.data_path, "mask_list.txt")):
+                mask_list_path = os.path.join(submodel_path, "mask_list.txt")
+                if os.path.islink(mask_list_path):
+                    os.unlink(mask_list_path)
+                with io.open_wt(mask_list_path) as txtfile:
+                    for image in cluster:
+                        if image in data.mask_files:
+                            mask_relpath = os.path.relpath(
+                                data.mask_files[image], submodel_path
+                            )
+                            txtfile.write(f"{image} {mask_relpath}\n")
+
             # copy config.yaml if exists
             config_file_path = os.path.join(self.data_path, "config.yaml")
             if os.path.exists(config_file_path):
@@ -223,7 +236,6 @@ class MetaDataSet:
                 "features",
                 "matches",
                 "masks",
-                "mask_list.txt",
                 "segmentations",
                 os.path.join("reports", "features"),
                 os.path.join("reports", "features.json"),
-- 
2.43.0

