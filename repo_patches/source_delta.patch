From a7c920bfd256baf7e29aafd09d532e775ea46aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:17 +0000
Subject: [PATCH 01/19] fix: PnP residuals yield NaN derivatives for an
 identity-rotation guess

The residual functors took the norm of the angle-axis vector, whose derivative is NaN at zero, so optimize() failed (or
aborted inside the covariance computation) whenever the guess had no rotation.
---
 .../src/rct_optimizations/pnp.cpp             | 24 +++++++------------
 1 file changed, 8 insertions(+), 16 deletions(-)

diff --git a/rct_optimizations/src/rct_optimizations/pnp.cpp b/rct_optimizations/src/rct_optimizations/pnp.cpp
index db20503..0882d8a 100644
--- a/rct_optimizations/src/rct_optimizations/pnp.cpp
+++ b/rct_optimizations/src/rct_optimizations/pnp.cpp
@@ -20,18 +20,14 @@ public:
                   const T* const cam_to_tgt_translation_ptr,
                   T* const residual) const
   {
-    using Isometry3 = Eigen::Transform<T, 3, Eigen::Isometry>;
     using Vector3 = Eigen::Matrix<T, 3, 1>;
     using Vector2 = Eigen::Matrix<T, 2, 1>;
 
-    Eigen::Map<const Vector3> cam_to_tgt_angle_axis(cam_to_tgt_angle_axis_ptr);
-    Eigen::Map<const Vector3> cam_to_tgt_translation(cam_to_tgt_translation_ptr);
-    Isometry3 camera_to_target = Isometry3::Identity();
-    camera_to_target = Eigen::Translation<T, 3>(cam_to_tgt_translation) *
-                       Eigen::AngleAxis<T>(cam_to_tgt_angle_axis.norm(), cam_to_tgt_angle_axis.normalized());
-
     // Transform points into camera coordinates
-    Vector3 camera_pt = camera_to_target * in_target_.cast<T>();
+    // (the norm of the angle-axis vector is not differentiable at zero, so rotate with the function that handles that case)
+    const Vector3 target_pt = in_target_.cast<T>();
+    Vector3 camera_pt;
+    rct_optimizations::transformPoint(cam_to_tgt_angle_axis_ptr, cam_to_tgt_translation_ptr, target_pt.data(), camera_pt.data());
 
     Vector2 xy_image = projectPoint(intr_, camera_pt);
 
@@ -59,17 +55,13 @@ public:
                   const T* const cam_to_tgt_translation_ptr,
                   T* const residual) const
   {
-    using Isometry3 = Eigen::Transform<T, 3, Eigen::Isometry>;
     using Vector3 = Eigen::Matrix<T, 3, 1>;
 
-    Eigen::Map<const Vector3> cam_to_tgt_angle_axis(cam_to_tgt_angle_axis_ptr);
-    Eigen::Map<const Vector3> cam_to_tgt_translation(cam_to_tgt_translation_ptr);
-    Isometry3 camera_to_target = Isometry3::Identity();
-    camera_to_target = Eigen::Translation<T, 3>(cam_to_tgt_translation) *
-                       Eigen::AngleAxis<T>(cam_to_tgt_angle_axis.norm(), cam_to_tgt_angle_axis.normalized());
-
     // Transform points into camera coordinates
-    Vector3 camera_pt = camera_to_target * in_target_.cast<T>();
+    // (the norm of the angle-axis vector is not differentiable at zero, so rotate with the function that handles that case)
+    const Vector3 target_pt = in_target_.cast<T>();
+    Vector3 camera_pt;
+    rct_optimizations::transformPoint(cam_to_tgt_angle_axis_ptr, cam_to_tgt_translation_ptr, target_pt.data(), camera_pt.data());
 
     residual[0] = camera_pt[0] - in_image_.x();
     residual[1] = camera_pt[1] - in_image_.y();
-- 
2.43.0


From 5338a9a081565779838836fa37260a993737e05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:15 +0000
Subject: [PATCH 02/19] fix: projectPoint(Eigen) does not divide points behind
 the camera by their depth

The closing parenthesis of std::abs was misplaced, so the test was point.z() > 1e-10 instead of |point.z()| > 1e-10.
---
 .../include/rct_optimizations/ceres_math_utilities.h           | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rct_optimizations/include/rct_optimizations/ceres_math_utilities.h b/rct_optimizations/include/rct_optimizations/ceres_math_utilities.h
index 4b079ec..b6b6b67 100644
--- a/rct_optimizations/include/rct_optimizations/ceres_math_utilities.h
+++ b/rct_optimizations/include/rct_optimizations/ceres_math_utilities.h
@@ -69,7 +69,8 @@ inline Eigen::Matrix<T, 2, 1> projectPoint(const rct_optimizations::CameraIntrin
   scaled_point(2) = T(1.0);
 
   // Avoid divide by zero
-  if (std::abs(point.z() - T(0.0) > T(1.e-10)))
+  using std::abs;
+  if (abs(point.z()) > T(1.e-10))
   {
     scaled_point.x() = point.x() / point.z();
     scaled_point.y() = point.y() / point.z();
-- 
2.43.0


From df9908fdaff8d1631982bb46421ce553f6569484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:50 +0000
Subject: [PATCH 03/19] fix: default covariance labels of pose parameters
 follow the order rotation, translation of Pose6d

---
 .../include/rct_optimizations/experimental/camera_intrinsic.h | 2 +-
 .../include/rct_optimizations/extrinsic_hand_eye.h            | 4 ++--
 .../include/rct_optimizations/extrinsic_multi_static_camera.h | 2 +-
 .../rct_optimizations/extrinsic_multi_static_camera_only.h    | 2 +-
 .../extrinsic_multi_static_camera_wrist_only.h                | 2 +-
 5 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/rct_optimizations/include/rct_optimizations/experimental/camera_intrinsic.h b/rct_optimizations/include/rct_optimizations/experimental/camera_intrinsic.h
index c15c0ab..7444477 100644
--- a/rct_optimizations/include/rct_optimizations/experimental/camera_intrinsic.h
+++ b/rct_optimizations/include/rct_optimizations/experimental/camera_intrinsic.h
@@ -18,7 +18,7 @@ struct IntrinsicEstimationProblem
   const std::array<std::string, 9> labels_intrinsic_params = {
     { "fx", "fy", "cx", "cy", "k1", "k2", "p1", "p2", "k3" }
   };
-  const std::array<std::string, 6> labels_isometry3d = { { "x", "y", "z", "rx", "ry", "rz" } };
+  const std::array<std::string, 6> labels_isometry3d = { { "rx", "ry", "rz", "x", "y", "z" } };
 };
 
 struct IntrinsicEstimationResult
diff --git a/rct_optimizations/include/rct_optimizations/extrinsic_hand_eye.h b/rct_optimizations/include/rct_optimizations/extrinsic_hand_eye.h
index 2b082f3..5321f67 100644
--- a/rct_optimizations/include/rct_optimizations/extrinsic_hand_eye.h
+++ b/rct_optimizations/include/rct_optimizations/extrinsic_hand_eye.h
@@ -30,7 +30,7 @@ struct ExtrinsicHandEyeProblem2D3D
   Eigen::Isometry3d target_mount_to_target_guess;
   Eigen::Isometry3d camera_mount_to_camera_guess;
 
-  std::array<std::string, 6> labels_isometry3d = { { "x", "y", "z", "rx", "ry", "rz" } };
+  std::array<std::string, 6> labels_isometry3d = { { "rx", "ry", "rz", "x", "y", "z" } };
   std::string label_target_mount_to_target = "target_mount_to_target";
   std::string label_camera_mount_to_camera = "camera_mount_to_camera";
 
@@ -48,7 +48,7 @@ struct ExtrinsicHandEyeProblem3D3D
   Eigen::Isometry3d target_mount_to_target_guess;
   Eigen::Isometry3d camera_mount_to_camera_guess;
 
-  std::array<std::string, 6> labels_isometry3d = { { "x", "y", "z", "rx", "ry", "rz" } };
+  std::array<std::string, 6> labels_isometry3d = { { "rx", "ry", "rz", "x", "y", "z" } };
   std::string label_target_mount_to_target = "target_mount_to_target";
   std::string label_camera_mount_to_camera = "camera_mount_to_camera";
 
diff --git a/rct_optimizations/include/rct_optimizations/extrinsic_multi_static_camera.h b/rct_optimizations/include/rct_optimizations/extrinsic_multi_static_camera.h
index d6d54ae..932830b 100644
--- a/rct_optimizations/include/rct_optimizations/extrinsic_multi_static_camera.h
+++ b/rct_optimizations/include/rct_optimizations/extrinsic_multi_static_camera.h
@@ -47,7 +47,7 @@ struct ExtrinsicMultiStaticCameraMovingTargetProblem
   /** @brief Your best guess at the "base frame" to "camera frame" transform; one for each camera */
   std::vector<Eigen::Isometry3d> base_to_camera_guess;
 
-  const std::array<std::string, 6> labels_isometry3d = { { "x", "y", "z", "rx", "ry", "rz" } };
+  const std::array<std::string, 6> labels_isometry3d = { { "rx", "ry", "rz", "x", "y", "z" } };
 
   std::string label_wrist_to_target = "wrist_to_target";
 
diff --git a/rct_optimizations/include/rct_optimizations/extrinsic_multi_static_camera_only.h b/rct_optimizations/include/rct_optimizations/extrinsic_multi_static_camera_only.h
index b369a08..f94922d 100644
--- a/rct_optimizations/include/rct_optimizations/extrinsic_multi_static_camera_only.h
+++ b/rct_optimizations/include/rct_optimizations/extrinsic_multi_static_camera_only.h
@@ -49,7 +49,7 @@ struct ExtrinsicMultiStaticCameraOnlyProblem
   /** @brief Your best guess at the "base frame" to "camera frame" transform; one for each camera */
   std::vector<Eigen::Isometry3d> base_to_camera_guess;
 
-  std::array<std::string, 6> labels_isometry3d = { { "x", "y", "z", "rx", "ry", "rz" } };
+  std::array<std::string, 6> labels_isometry3d = { { "rx", "ry", "rz", "x", "y", "z" } };
 
   std::string label_base_to_target = "base_to_target";
 
diff --git a/rct_optimizations/include/rct_optimizations/extrinsic_multi_static_camera_wrist_only.h b/rct_optimizations/include/rct_optimizations/extrinsic_multi_static_camera_wrist_only.h
index 8b9de11..00c0ebd 100644
--- a/rct_optimizations/include/rct_optimizations/extrinsic_multi_static_camera_wrist_only.h
+++ b/rct_optimizations/include/rct_optimizations/extrinsic_multi_static_camera_wrist_only.h
@@ -50,7 +50,7 @@ struct ExtrinsicMultiStaticCameraMovingTargetWristOnlyProblem
    */
   std::vector<Eigen::Isometry3d> base_to_camera_guess;
 
-  const std::array<std::string, 6> labels_isometry3d = { { "x", "y", "z", "rx", "ry", "rz" } };
+  const std::array<std::string, 6> labels_isometry3d = { { "rx", "ry", "rz", "x", "y", "z" } };
 
   std::string label_wrist_to_target = "wrist_to_target";
 
-- 
2.43.0


From c739f21ea5d175fdc6e5fd7dee5bb5b283f4e671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:04 +0000
Subject: [PATCH 04/19] fix: static-camera-only calibration starts every camera
 at its guess even without target poses

---
 .../rct_optimizations/extrinsic_multi_static_camera_only.cpp  | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rct_optimizations/src/rct_optimizations/extrinsic_multi_static_camera_only.cpp b/rct_optimizations/src/rct_optimizations/extrinsic_multi_static_camera_only.cpp
index 012e014..3225dae 100644
--- a/rct_optimizations/src/rct_optimizations/extrinsic_multi_static_camera_only.cpp
+++ b/rct_optimizations/src/rct_optimizations/extrinsic_multi_static_camera_only.cpp
@@ -113,6 +113,9 @@ rct_optimizations::optimize(const rct_optimizations::ExtrinsicMultiStaticCameraO
   internal_camera_to_base.resize(params.base_to_camera_guess.size());
   internal_base_to_target.resize(params.base_to_target_guess.size());
 
+  for (std::size_t c = 0; c < params.base_to_camera_guess.size(); ++c)
+    internal_camera_to_base[c] = poseEigenToCal(params.base_to_camera_guess[c].inverse());
+
   ceres::Problem problem;
 
   for (std::size_t i = 0; i < params.base_to_target_guess.size(); ++i)  // For each wrist pose / image set
@@ -121,7 +124,6 @@ rct_optimizations::optimize(const rct_optimizations::ExtrinsicMultiStaticCameraO
     for (std::size_t c = 0; c < params.base_to_camera_guess.size(); ++c)  // For each camera
     {
       assert(params.image_observations[c].size() == params.base_to_target_guess.size());
-      internal_camera_to_base[c] = poseEigenToCal(params.base_to_camera_guess[c].inverse());
 
       for (std::size_t j = 0; j < params.image_observations[c][i].size();
            ++j)  // For each 3D point seen in the 2D image
-- 
2.43.0


From f8a41170796b0fc3a8489e2b4508a7698831c1a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:00 +0000
Subject: [PATCH 05/19] fix: zero-variance parameters after the first report
 standard deviation zero, not one

---
 .../src/rct_optimizations/covariance_analysis.cpp           | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rct_optimizations/src/rct_optimizations/covariance_analysis.cpp b/rct_optimizations/src/rct_optimizations/covariance_analysis.cpp
index da77aa2..529e20e 100644
--- a/rct_optimizations/src/rct_optimizations/covariance_analysis.cpp
+++ b/rct_optimizations/src/rct_optimizations/covariance_analysis.cpp
@@ -24,12 +24,12 @@ Eigen::MatrixXd computeCorrelationsFromCovariance(const Eigen::MatrixXd& covaria
         out(static_cast<Eigen::Index>(i), static_cast<Eigen::Index>(j)) = sigma_i;
       else
       {
-        if (sigma_i < std::numeric_limits<double>::epsilon())
-          sigma_i = 1;
+        // do not overwrite sigma_i itself: it is also the reported standard deviation when the diagonal is reached
+        const double norm_i = sigma_i < std::numeric_limits<double>::epsilon() ? 1 : sigma_i;
         if (sigma_j < std::numeric_limits<double>::epsilon())
           sigma_j = 1;
 
-        out(static_cast<Eigen::Index>(i), static_cast<Eigen::Index>(j)) = covariance_matrix(i, j) / (sigma_i * sigma_j);
+        out(static_cast<Eigen::Index>(i), static_cast<Eigen::Index>(j)) = covariance_matrix(i, j) / (norm_i * sigma_j);
       }
     }
   }
-- 
2.43.0


From 6f04ee8954b35a44054b1c9f759a4df2c0ab82f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:00 +0000
Subject: [PATCH 06/19] fix: intrinsic calibration aborts in the covariance
 computation when PnP fails for an image

---
 .../src/rct_optimizations/camera_intrinsic.cpp              | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rct_optimizations/src/rct_optimizations/camera_intrinsic.cpp b/rct_optimizations/src/rct_optimizations/camera_intrinsic.cpp
index c458bad..59a6e8e 100644
--- a/rct_optimizations/src/rct_optimizations/camera_intrinsic.cpp
+++ b/rct_optimizations/src/rct_optimizations/camera_intrinsic.cpp
@@ -207,6 +207,9 @@ rct_optimizations::optimize(const rct_optimizations::IntrinsicEstimationProblem&
     }
   }
 
+  if (valid_idx.empty())
+    throw std::runtime_error("Failed to solve the PnP sub-problem for every image");
+
   ceres::Problem problem;
 
   // Create a set of cost functions for each observation set
@@ -235,7 +238,8 @@ rct_optimizations::optimize(const rct_optimizations::IntrinsicEstimationProblem&
   param_labels[internal_intrinsics_data.data()] =
       std::vector<std::string>(params.labels_intrinsic_params.begin(), params.labels_intrinsic_params.end());
 
-  for (std::size_t i = 0; i < internal_poses.size(); i++)
+  // Images for which PnP failed are not part of the problem
+  for (std::size_t i : valid_idx)
   {
     param_blocks.emplace_back(internal_poses[i].values.data());
     std::vector<std::string> labels;
-- 
2.43.0


From 6564a43a79ff31d098261fd4e4449b884828c1fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:00 +0000
Subject: [PATCH 07/19] fix: intrinsic calibration returns the optimised target
 transforms

---
 rct_optimizations/src/rct_optimizations/camera_intrinsic.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rct_optimizations/src/rct_optimizations/camera_intrinsic.cpp b/rct_optimizations/src/rct_optimizations/camera_intrinsic.cpp
index 59a6e8e..6fe742f 100644
--- a/rct_optimizations/src/rct_optimizations/camera_intrinsic.cpp
+++ b/rct_optimizations/src/rct_optimizations/camera_intrinsic.cpp
@@ -272,6 +272,10 @@ rct_optimizations::optimize(const rct_optimizations::IntrinsicEstimationProblem&
   result.distortions[3] = internal_intrinsics_data[7];
   result.distortions[4] = internal_intrinsics_data[8];
 
+  result.target_transforms.reserve(internal_poses.size());
+  for (const Pose6d& pose : internal_poses)
+    result.target_transforms.push_back(poseCalToEigen(pose));
+
   result.initial_cost_per_obs = summary.initial_cost / summary.num_residuals;
   result.final_cost_per_obs = summary.final_cost / summary.num_residuals;
 
-- 
2.43.0


From 0e1827dc8ef502ef6010f77136846d33fb954af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:03 +0000
Subject: [PATCH 08/19] fix: DHChain built with offsets keeps the names, limits
 and seeds of the joints

---
 rct_optimizations/src/rct_optimizations/dh_chain.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rct_optimizations/src/rct_optimizations/dh_chain.cpp b/rct_optimizations/src/rct_optimizations/dh_chain.cpp
index 0631059..e9f320e 100644
--- a/rct_optimizations/src/rct_optimizations/dh_chain.cpp
+++ b/rct_optimizations/src/rct_optimizations/dh_chain.cpp
@@ -56,8 +56,9 @@ DHChain::DHChain(const DHChain& other, const Eigen::MatrixX4d& dh_offsets)
   transforms_.reserve(other.transforms_.size());
   for (std::size_t i = 0; i < other.transforms_.size(); ++i)
   {
-    const DHTransform& transform = other.transforms_.at(i);
-    transforms_.emplace_back(transform.params + dh_offsets.row(i).transpose(), transform.type);
+    DHTransform transform = other.transforms_.at(i);
+    transform.params += dh_offsets.row(i).transpose();
+    transforms_.push_back(transform);
   }
 
   base_offset_ = other.base_offset_;
-- 
2.43.0


From cd386abaeb1fbd0e01b4a086199d236870324c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:13 +0000
Subject: [PATCH 09/19] fix: circle fit reports the covariance of the radius,
 not of its square root

---
 rct_optimizations/src/rct_optimizations/circle_fit.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rct_optimizations/src/rct_optimizations/circle_fit.cpp b/rct_optimizations/src/rct_optimizations/circle_fit.cpp
index 706afe6..c39c646 100644
--- a/rct_optimizations/src/rct_optimizations/circle_fit.cpp
+++ b/rct_optimizations/src/rct_optimizations/circle_fit.cpp
@@ -48,5 +48,11 @@ rct_optimizations::CircleFitResult rct_optimizations::optimize(const rct_optimiz
   result.final_cost_per_obs = summary.final_cost / summary.num_residuals;
   result.covariance = rct_optimizations::computeCovariance(problem, param_block_labels);
 
+  // The optimized parameter is the square root of the radius; propagate its covariance to the radius (dr/ds = 2s)
+  Eigen::MatrixXd covariance = result.covariance.covariance_matrix;
+  covariance.row(2) *= 2.0 * circle_params[2];
+  covariance.col(2) *= 2.0 * circle_params[2];
+  result.covariance = rct_optimizations::computeCovarianceResults(covariance, params.labels);
+
   return result;
 }
-- 
2.43.0


From 6f270db5466b1b69e59bb20d7674bbb99452acfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:13 +0000
Subject: [PATCH 10/19] fix: MaximumLikelihood refuses mean and standard
 deviation arrays of different shapes

---
 .../include/rct_optimizations/maximum_likelihood.h              | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rct_optimizations/include/rct_optimizations/maximum_likelihood.h b/rct_optimizations/include/rct_optimizations/maximum_likelihood.h
index 1a26a60..d50591c 100644
--- a/rct_optimizations/include/rct_optimizations/maximum_likelihood.h
+++ b/rct_optimizations/include/rct_optimizations/maximum_likelihood.h
@@ -19,7 +19,7 @@ class MaximumLikelihood
 public:
   MaximumLikelihood(const Eigen::ArrayXXd& mean_, const Eigen::ArrayXXd& stdev_) : mean(mean_), stdev(stdev_)
   {
-    if (mean.size() != stdev.size())
+    if (mean.rows() != stdev.rows() || mean.cols() != stdev.cols())
       throw OptimizationException("Mean and standard deviation matrix are not the same size");
   }
 
-- 
2.43.0


From 7368d7d0ffa256c336bf9af92c524db75673c340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:21 +0000
Subject: [PATCH 11/19] fix: equality of kinematic observations compares the
 correspondences

---
 rct_optimizations/include/rct_optimizations/types.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rct_optimizations/include/rct_optimizations/types.h b/rct_optimizations/include/rct_optimizations/types.h
index dcb82f4..12c5d79 100644
--- a/rct_optimizations/include/rct_optimizations/types.h
+++ b/rct_optimizations/include/rct_optimizations/types.h
@@ -146,7 +146,7 @@ struct KinematicObservation
   inline bool operator==(const KinematicObservation& rhs) const
   {
     return camera_chain_joints.isApprox(rhs.camera_chain_joints) &&
-           target_chain_joints.isApprox(rhs.target_chain_joints) && correspondence_set == correspondence_set;
+           target_chain_joints.isApprox(rhs.target_chain_joints) && correspondence_set == rhs.correspondence_set;
   }
 
   /** @brief A set of feature correspondences between the sensor output and target */
-- 
2.43.0


From 17bd6a19c27dbd1b41da82a3e8cb7bdc07d98319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:21 +0000
Subject: [PATCH 12/19] fix: kinematic observations and measurements with
 different numbers of joints are unequal

---
 rct_optimizations/include/rct_optimizations/types.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/rct_optimizations/include/rct_optimizations/types.h b/rct_optimizations/include/rct_optimizations/types.h
index 12c5d79..69f33c5 100644
--- a/rct_optimizations/include/rct_optimizations/types.h
+++ b/rct_optimizations/include/rct_optimizations/types.h
@@ -145,7 +145,9 @@ struct KinematicObservation
 
   inline bool operator==(const KinematicObservation& rhs) const
   {
-    return camera_chain_joints.isApprox(rhs.camera_chain_joints) &&
+    return camera_chain_joints.size() == rhs.camera_chain_joints.size() &&
+           target_chain_joints.size() == rhs.target_chain_joints.size() &&
+           camera_chain_joints.isApprox(rhs.camera_chain_joints) &&
            target_chain_joints.isApprox(rhs.target_chain_joints) && correspondence_set == rhs.correspondence_set;
   }
 
@@ -178,7 +180,9 @@ struct KinematicMeasurement
 
   inline bool operator==(const KinematicMeasurement& rhs) const
   {
-    return camera_to_target.isApprox(rhs.camera_to_target) && camera_chain_joints.isApprox(rhs.camera_chain_joints) &&
+    return camera_chain_joints.size() == rhs.camera_chain_joints.size() &&
+           target_chain_joints.size() == rhs.target_chain_joints.size() &&
+           camera_to_target.isApprox(rhs.camera_to_target) && camera_chain_joints.isApprox(rhs.camera_chain_joints) &&
            target_chain_joints.isApprox(rhs.target_chain_joints);
   }
 
-- 
2.43.0


From 3ba235c2afadd2c66ac9c3fa15ba7bd94ffa3e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:18 +0000
Subject: [PATCH 13/19] fix: covariance of a block outside the problem raises
 CovarianceException instead of aborting

---
 .../src/rct_optimizations/covariance_analysis.cpp           | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rct_optimizations/src/rct_optimizations/covariance_analysis.cpp b/rct_optimizations/src/rct_optimizations/covariance_analysis.cpp
index 529e20e..258c95d 100644
--- a/rct_optimizations/src/rct_optimizations/covariance_analysis.cpp
+++ b/rct_optimizations/src/rct_optimizations/covariance_analysis.cpp
@@ -110,6 +110,9 @@ CovarianceResult computeCovariance(ceres::Problem& problem,
   std::map<const double*, std::vector<std::string>> dummy_param_names;
   for (std::size_t block_index = 0; block_index < parameter_blocks.size(); block_index++)
   {
+    if (!problem.HasParameterBlock(parameter_blocks[block_index]))
+      throw CovarianceException("Cannot compute the covariance of a parameter block that is not part of the problem");
+
     int size = problem.ParameterBlockSize(parameter_blocks[block_index]);
     std::vector<std::string> block_names;
     for (int i = 0; i < size; i++)
@@ -153,6 +156,9 @@ CovarianceResult computeCovariance(ceres::Problem& problem,
   std::vector<std::string> tangent_space_labels;
   for (const double* b : parameter_blocks)
   {
+    if (!problem.HasParameterBlock(b))
+      throw CovarianceException("Cannot compute the covariance of a parameter block that is not part of the problem");
+
     int block_size = problem.ParameterBlockSize(b);
     if (static_cast<std::size_t>(block_size) != param_names.at(b).size())
     {
-- 
2.43.0


From 2734febb3c3708fd24221277eff7e4ddb1acd56d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:18 +0000
Subject: [PATCH 14/19] fix: intrinsic calibration validation refuses an empty
 set of observations instead of reading out of bounds

---
 .../validation/camera_intrinsic_calibration_validation.cpp     | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rct_optimizations/src/rct_optimizations/validation/camera_intrinsic_calibration_validation.cpp b/rct_optimizations/src/rct_optimizations/validation/camera_intrinsic_calibration_validation.cpp
index 6a8f3ed..868f029 100644
--- a/rct_optimizations/src/rct_optimizations/validation/camera_intrinsic_calibration_validation.cpp
+++ b/rct_optimizations/src/rct_optimizations/validation/camera_intrinsic_calibration_validation.cpp
@@ -64,6 +64,9 @@ measureIntrinsicCalibrationAccuracy(const Observation2D3D::Set& observations,
                                     const Eigen::Isometry3d& camera_base_to_target_base,
                                     const double pnp_sq_error_threshold)
 {
+  if (observations.empty())
+    throw OptimizationException("No observations provided");
+
   // Check that the observations are all the same size
   // Assuming that each observation's correspondences are ordered the same
   for (std::size_t i = 0; i < observations.size() - 1; ++i)
-- 
2.43.0


From e7f46de0c3ca22233992471afc9d05a18c2ed848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:40 +0000
Subject: [PATCH 15/19] fix: random correspondence sampler draws without
 replacement, so that samples are distinct

---
 .../validation/homography_validation.cpp           | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/rct_optimizations/src/rct_optimizations/validation/homography_validation.cpp b/rct_optimizations/src/rct_optimizations/validation/homography_validation.cpp
index df0d710..e4d9400 100644
--- a/rct_optimizations/src/rct_optimizations/validation/homography_validation.cpp
+++ b/rct_optimizations/src/rct_optimizations/validation/homography_validation.cpp
@@ -1,4 +1,6 @@
 #include <rct_optimizations/validation/homography_validation.h>
+#include <algorithm>
+#include <numeric>
 #include <Eigen/Dense>
 #include <rct_optimizations/types.h>
 
@@ -63,14 +65,14 @@ RandomCorrespondenceSampler::RandomCorrespondenceSampler(const std::size_t n_cor
 
 std::vector<std::size_t> RandomCorrespondenceSampler::getSampleCorrespondenceIndices() const
 {
-  // Create a random number generator with a uniform distribution across all indices
+  // Shuffle the indices of all correspondences, such that no correspondence is drawn twice
   std::mt19937 rand_gen(seed);
-  std::uniform_int_distribution<std::size_t> dist(0, n_correspondences - 1);
-  auto fn = [&rand_gen, &dist]() -> std::size_t { return dist(rand_gen); };
+  std::vector<std::size_t> output(n_correspondences);
+  std::iota(output.begin(), output.end(), 0);
+  std::shuffle(output.begin(), output.end(), rand_gen);
 
-  // Generate a vector of 4 random correspondence indices
-  std::vector<std::size_t> output(n_samples);
-  std::generate(output.begin(), output.end(), fn);
+  // Keep the requested number of them
+  output.resize(n_samples);
 
   return output;
 }
-- 
2.43.0


From d853556cd51949f85f772434ffe136a0ec12dbd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:10 +0000
Subject: [PATCH 16/19] fix: hand-eye results read from YAML have roll and yaw
 in the order in which they were written

---
 .../include/rct_optimizations/serialization/problems.h        | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rct_optimizations/include/rct_optimizations/serialization/problems.h b/rct_optimizations/include/rct_optimizations/serialization/problems.h
index 06656f5..d52ee2a 100644
--- a/rct_optimizations/include/rct_optimizations/serialization/problems.h
+++ b/rct_optimizations/include/rct_optimizations/serialization/problems.h
@@ -8,9 +8,9 @@ namespace
 template <typename FloatT>
 Eigen::Transform<FloatT, 3, Eigen::Isometry> toIsometry(const Eigen::Vector3d& trans, const Eigen::Vector3d& euler_zyx)
 {
-  return Eigen::Translation3d(trans) * Eigen::AngleAxisd(euler_zyx(2), Eigen::Vector3d::UnitZ()) *
+  return Eigen::Translation3d(trans) * Eigen::AngleAxisd(euler_zyx(0), Eigen::Vector3d::UnitZ()) *
          Eigen::AngleAxisd(euler_zyx(1), Eigen::Vector3d::UnitY()) *
-         Eigen::AngleAxisd(euler_zyx(0), Eigen::Vector3d::UnitX());
+         Eigen::AngleAxisd(euler_zyx(2), Eigen::Vector3d::UnitX());
 }
 }  // namespace
 
-- 
2.43.0


From 09ffe5dcf2fb3a8787239744d64dba1fdcbfc5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:07 +0000
Subject: [PATCH 17/19] fix: corners of a circle grid that was found with rows
 and columns exchanged are looked up in the exchanged grid

---
 .../rct_image_tools/modified_circle_grid_finder.cpp  | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/rct_image_tools/src/rct_image_tools/modified_circle_grid_finder.cpp b/rct_image_tools/src/rct_image_tools/modified_circle_grid_finder.cpp
index 5a163e6..362c5c8 100644
--- a/rct_image_tools/src/rct_image_tools/modified_circle_grid_finder.cpp
+++ b/rct_image_tools/src/rct_image_tools/modified_circle_grid_finder.cpp
@@ -117,8 +117,8 @@ static std::vector<cv::Point2d> extractKeyPoints(const cv::Mat& image,
   std::size_t temp_cols = flipped ? rows : cols;
 
   std::size_t start_first_row = 0;
-  std::size_t end_first_row = cols - 1;
-  std::size_t start_last_row = rows * cols - cols;
+  std::size_t end_first_row = temp_cols - 1;
+  std::size_t start_last_row = rows * cols - temp_cols;
   std::size_t end_last_row = rows * cols - 1;
 
   // Determine size of corners relative to their adjacent circles
@@ -155,28 +155,28 @@ static std::vector<cv::Point2d> extractKeyPoints(const cv::Mat& image,
   // Comparing the start last row corner to the second point in the last row
   double start_last_row_rel_row_size = feature_sizes[start_last_row] / feature_sizes[start_last_row + 1];
   // Comparing the start last row corner to the start of the second to last row
-  double start_last_row_rel_col_size = feature_sizes[start_last_row] / feature_sizes[start_last_row - cols];
+  double start_last_row_rel_col_size = feature_sizes[start_last_row] / feature_sizes[start_last_row - temp_cols];
   // Find the average relative size of the start last row corner to its two adjacent circles
   start_last_row_avg_rel_size = (start_last_row_rel_row_size + start_last_row_rel_col_size) / 2.0;
 
   // Comparing the end last row corner to the second to last point in the last row
   double end_last_row_rel_row_size = feature_sizes[end_last_row] / feature_sizes[end_last_row - 1];
   // Comparing the end last row corner to the end of the second to last row
-  double end_last_row_rel_col_size = feature_sizes[end_last_row] / feature_sizes[end_last_row - cols];
+  double end_last_row_rel_col_size = feature_sizes[end_last_row] / feature_sizes[end_last_row - temp_cols];
   // Find the average relative size of the end last row corner to its two adjacent circles
   end_last_row_avg_rel_size = (end_last_row_rel_row_size + end_last_row_rel_col_size) / 2.0;
 
   // Comparing the start fisrt row corner to the second point in the first row
   double start_first_row_rel_row_size = feature_sizes[start_first_row] / feature_sizes[start_first_row + 1];
   // Comparing the start first row corner to the start of the second  row
-  double start_first_row_rel_col_size = feature_sizes[start_first_row] / feature_sizes[start_first_row + cols];
+  double start_first_row_rel_col_size = feature_sizes[start_first_row] / feature_sizes[start_first_row + temp_cols];
   // Find the average relative size of the start first row corner to its two adjacent circles
   start_first_row_avg_rel_size = (start_first_row_rel_row_size + start_first_row_rel_col_size) / 2.0;
 
   // Comparing the end first row corner to the second to last point in the first row
   double end_first_row_rel_row_size = feature_sizes[end_first_row] / feature_sizes[end_first_row - 1];
   // Comparing the end first row corner to the end of the second row
-  double end_first_row_rel_col_size = feature_sizes[end_first_row] / feature_sizes[end_first_row + cols];
+  double end_first_row_rel_col_size = feature_sizes[end_first_row] / feature_sizes[end_first_row + temp_cols];
   // Find the average relative size of the end first row corner to its two adjacent circles
   end_first_row_avg_rel_size = (end_first_row_rel_row_size + end_first_row_rel_col_size) / 2.0;
 
-- 
2.43.0


From f6e1cfedfcb7244e28f5f4d6e2c31563effbf5ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:36 +0000
Subject: [PATCH 18/19] fix: circle detector does not read the center pixel of
 an ellipse that is centered outside of the image

---
 rct_image_tools/src/rct_image_tools/circle_detector.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rct_image_tools/src/rct_image_tools/circle_detector.cpp b/rct_image_tools/src/rct_image_tools/circle_detector.cpp
index 44d3b39..912fa9c 100644
--- a/rct_image_tools/src/rct_image_tools/circle_detector.cpp
+++ b/rct_image_tools/src/rct_image_tools/circle_detector.cpp
@@ -167,7 +167,10 @@ DetectionResult findCircles(const cv::Mat& image,
     // Check that the color of the center pixel matches the expectation
     if (params.filterByColor)
     {
-      if (binarized_image.at<uchar>(cvRound(box.center.y), cvRound(box.center.x)) != params.circleColor)
+      // The center of the fitted ellipse can lie outside of the image
+      const cv::Point center_px(cvRound(box.center.x), cvRound(box.center.y));
+      if (!cv::Rect(cv::Point(0, 0), binarized_image.size()).contains(center_px) ||
+          binarized_image.at<uchar>(center_px) != params.circleColor)
         continue;
     }
 
-- 
2.43.0


From 2cb56667e26b2a998e45e5e9353dce18e890a73c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:47 +0000
Subject: [PATCH 19/19] fix: kinematic calibration transforms have a derivative
 by their rotation at zero rotation

---
 .../dh_chain_kinematic_calibration.h                 | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/rct_optimizations/include/rct_optimizations/dh_chain_kinematic_calibration.h b/rct_optimizations/include/rct_optimizations/dh_chain_kinematic_calibration.h
index 59b1c66..013dd78 100644
--- a/rct_optimizations/include/rct_optimizations/dh_chain_kinematic_calibration.h
+++ b/rct_optimizations/include/rct_optimizations/dh_chain_kinematic_calibration.h
@@ -153,13 +153,13 @@ public:
     Eigen::Map<const Vector3<T>> t(params[idx]);
     Eigen::Map<const Vector3<T>> aa(params[idx + 1]);
 
-    Isometry3<T> result = Isometry3<T>::Identity() * Eigen::Translation<T, 3>(t);
+    // The norm of the angle axis has no derivative at zero rotation, where Ceres expands the rotation instead
+    Eigen::Matrix<T, 3, 3> rotation;
+    ceres::AngleAxisToRotationMatrix(aa.data(), rotation.data());
 
-    T aa_norm = aa.norm();
-    if (aa_norm > std::numeric_limits<T>::epsilon())
-    {
-      result *= Eigen::AngleAxis<T>(aa_norm, aa.normalized());
-    }
+    Isometry3<T> result = Isometry3<T>::Identity();
+    result.translation() = t;
+    result.linear() = rotation;
     return result;
   }
 
-- 
2.43.0

