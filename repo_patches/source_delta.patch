From a756eb1678c94a235ce1590c6d6f7df50ebaacb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:42 +0000
Subject: [PATCH 01/23] fix: release finished tasks under the thread pool's
 lock

A dependency whose handle has expired counts as completed, but observing the
expiry did not order the completed task's effects before a task scheduled
afterwards (a data race reported by ThreadSanitizer).
---
 cartographer/common/thread_pool.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cartographer/common/thread_pool.cc b/cartographer/common/thread_pool.cc
index 2457152..d258575 100644
--- a/cartographer/common/thread_pool.cc
+++ b/cartographer/common/thread_pool.cc
@@ -86,10 +86,14 @@ void ThreadPool::DoWork() {
   const auto predicate = [this]() EXCLUSIVE_LOCKS_REQUIRED(mutex_) {
     return !task_queue_.empty() || !running_;
   };
+  std::shared_ptr<Task> task;
   for (;;) {
-    std::shared_ptr<Task> task;
     {
       absl::MutexLock locker(&mutex_);
+      // A task seen as expired counts as a completed dependency. Dropping our
+      // reference under the lock makes the effects of the completed task
+      // visible to tasks that are scheduled afterwards.
+      task.reset();
       mutex_.Await(absl::Condition(&predicate));
       if (!task_queue_.empty()) {
         task = std::move(task_queue_.front());
-- 
2.43.0


From 3a115ca06511884a2d4d6512c19bf5708c4fd5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:24 +0000
Subject: [PATCH 02/23] fix: grow TSDF grid along the planar ray direction

The grid was grown by the truncation distance along the 3D ray, whose planar
part is shorter when hit and origin differ in height, while rays are cast in
the plane. Inserting such a hit near the grid's border hit a CHECK.
---
 .../internal/2d/tsdf_range_data_inserter_2d.cc      | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/cartographer/mapping/internal/2d/tsdf_range_data_inserter_2d.cc b/cartographer/mapping/internal/2d/tsdf_range_data_inserter_2d.cc
index 7e6bd3f..a871b7e 100644
--- a/cartographer/mapping/internal/2d/tsdf_range_data_inserter_2d.cc
+++ b/cartographer/mapping/internal/2d/tsdf_range_data_inserter_2d.cc
@@ -34,11 +34,14 @@ void GrowAsNeeded(const sensor::RangeData& range_data,
                   const float truncation_distance, TSDF2D* const tsdf) {
   Eigen::AlignedBox2f bounding_box(range_data.origin.head<2>());
   for (const sensor::RangefinderPoint& hit : range_data.returns) {
-    const Eigen::Vector3f direction =
-        (hit.position - range_data.origin).normalized();
-    const Eigen::Vector3f end_position =
-        hit.position + truncation_distance * direction;
-    bounding_box.extend(end_position.head<2>());
+    // Rays are cast in the plane, so the direction must not be shortened by a
+    // height difference between hit and origin.
+    const Eigen::Vector2f hit_position = hit.position.head<2>();
+    const Eigen::Vector2f direction =
+        (hit_position - range_data.origin.head<2>()).normalized();
+    const Eigen::Vector2f end_position =
+        hit_position + truncation_distance * direction;
+    bounding_box.extend(end_position);
   }
   // Padding around bounding box to avoid numerical issues at cell boundaries.
   constexpr float kPadding = 1e-6f;
-- 
2.43.0


From 0d700adb4de17e9f10406294089fe40464fe6168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:18 +0000
Subject: [PATCH 03/23] fix: do not reuse extrapolated poses after new poses or
 odometry

---
 cartographer/mapping/pose_extrapolator.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cartographer/mapping/pose_extrapolator.cc b/cartographer/mapping/pose_extrapolator.cc
index 24e3800..59975f0 100644
--- a/cartographer/mapping/pose_extrapolator.cc
+++ b/cartographer/mapping/pose_extrapolator.cc
@@ -76,6 +76,8 @@ void PoseExtrapolator::AddPose(const common::Time time,
         absl::make_unique<ImuTracker>(gravity_time_constant_, tracker_start);
   }
   timed_pose_queue_.push_back(TimedPose{time, pose});
+  // Extrapolations based on older poses are outdated now.
+  cached_extrapolated_pose_.time = common::Time::min();
   while (timed_pose_queue_.size() > 2 &&
          timed_pose_queue_[1].time <= time - pose_queue_duration_) {
     timed_pose_queue_.pop_front();
@@ -129,6 +131,8 @@ void PoseExtrapolator::AddOdometryData(
   linear_velocity_from_odometry_ =
       orientation_at_newest_odometry_time *
       linear_velocity_in_tracking_frame_at_newest_odometry_time;
+  // Extrapolations based on the previous velocity are outdated now.
+  cached_extrapolated_pose_.time = common::Time::min();
 }
 
 transform::Rigid3d PoseExtrapolator::ExtrapolatePose(const common::Time time) {
-- 
2.43.0


From b24b010bdaad6fe5da5c1235c9e0b7381d9e4203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:29 +0000
Subject: [PATCH 04/23] fix: skip landmark observations without surrounding
 trajectory nodes

---
 .../internal/optimization/optimization_problem_2d.cc     | 9 +++++++++
 .../internal/optimization/optimization_problem_3d.cc     | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/cartographer/mapping/internal/optimization/optimization_problem_2d.cc b/cartographer/mapping/internal/optimization/optimization_problem_2d.cc
index 3faf255..9193e5f 100644
--- a/cartographer/mapping/internal/optimization/optimization_problem_2d.cc
+++ b/cartographer/mapping/internal/optimization/optimization_problem_2d.cc
@@ -117,6 +117,11 @@ void AddLandmarkCostFunctions(
       const std::string& landmark_id = landmark_node.first;
       const auto& begin_of_trajectory =
           node_data.BeginOfTrajectory(observation.trajectory_id);
+      // The trajectory has no nodes (yet, or anymore).
+      if (begin_of_trajectory ==
+          node_data.EndOfTrajectory(observation.trajectory_id)) {
+        continue;
+      }
       // The landmark observation was made before the trajectory was created.
       if (observation.time < begin_of_trajectory->data.time) {
         continue;
@@ -131,6 +136,10 @@ void AddLandmarkCostFunctions(
       }
       if (next == begin_of_trajectory) {
         next = std::next(next);
+        // There is no second node to interpolate with yet.
+        if (next == node_data.EndOfTrajectory(observation.trajectory_id)) {
+          continue;
+        }
       }
       auto prev = std::prev(next);
       // Add parameter blocks for the landmark ID if they were not added before.
diff --git a/cartographer/mapping/internal/optimization/optimization_problem_3d.cc b/cartographer/mapping/internal/optimization/optimization_problem_3d.cc
index fca36d1..21d209e 100644
--- a/cartographer/mapping/internal/optimization/optimization_problem_3d.cc
+++ b/cartographer/mapping/internal/optimization/optimization_problem_3d.cc
@@ -133,6 +133,11 @@ void AddLandmarkCostFunctions(
       const std::string& landmark_id = landmark_node.first;
       const auto& begin_of_trajectory =
           node_data.BeginOfTrajectory(observation.trajectory_id);
+      // The trajectory has no nodes (yet, or anymore).
+      if (begin_of_trajectory ==
+          node_data.EndOfTrajectory(observation.trajectory_id)) {
+        continue;
+      }
       // The landmark observation was made before the trajectory was created.
       if (observation.time < begin_of_trajectory->data.time) {
         continue;
@@ -147,6 +152,10 @@ void AddLandmarkCostFunctions(
       }
       if (next == begin_of_trajectory) {
         next = std::next(next);
+        // There is no second node to interpolate with yet.
+        if (next == node_data.EndOfTrajectory(observation.trajectory_id)) {
+          continue;
+        }
       }
       auto prev = std::prev(next);
       // Add parameter blocks for the landmark ID if they were not added before.
-- 
2.43.0


From b791919c62f62028373b8f720580bbf0808bd8d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:29 +0000
Subject: [PATCH 05/23] fix: add the gravity constant to the 3D problem before
 bounding it

---
 .../mapping/internal/optimization/optimization_problem_3d.cc   | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cartographer/mapping/internal/optimization/optimization_problem_3d.cc b/cartographer/mapping/internal/optimization/optimization_problem_3d.cc
index 21d209e..1990389 100644
--- a/cartographer/mapping/internal/optimization/optimization_problem_3d.cc
+++ b/cartographer/mapping/internal/optimization/optimization_problem_3d.cc
@@ -377,6 +377,9 @@ void OptimizationProblem3D::Solve(
         problem.SetParameterBlockConstant(
             trajectory_data.imu_calibration.data());
       }
+      // Trajectories with fewer than three consecutive nodes do not add a
+      // residual for the gravity constant.
+      problem.AddParameterBlock(&trajectory_data.gravity_constant, 1);
       CHECK(imu_data_.HasTrajectory(trajectory_id));
       const auto imu_data = imu_data_.trajectory(trajectory_id);
       CHECK(imu_data.begin() != imu_data.end());
-- 
2.43.0


From f834b8abe7b64e7712a1678b03b6f5e239a45d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:34 +0000
Subject: [PATCH 06/23] fix: guard the constraint builders' per-submap samplers

---
 .../mapping/internal/constraints/constraint_builder_2d.cc      | 2 +-
 .../mapping/internal/constraints/constraint_builder_2d.h       | 3 ++-
 .../mapping/internal/constraints/constraint_builder_3d.cc      | 2 +-
 .../mapping/internal/constraints/constraint_builder_3d.h       | 3 ++-
 4 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/cartographer/mapping/internal/constraints/constraint_builder_2d.cc b/cartographer/mapping/internal/constraints/constraint_builder_2d.cc
index ad3dfb7..4c1f240 100644
--- a/cartographer/mapping/internal/constraints/constraint_builder_2d.cc
+++ b/cartographer/mapping/internal/constraints/constraint_builder_2d.cc
@@ -82,6 +82,7 @@ void ConstraintBuilder2D::MaybeAddConstraint(
       options_.max_constraint_distance()) {
     return;
   }
+  absl::MutexLock locker(&mutex_);
   if (!per_submap_sampler_
            .emplace(std::piecewise_construct, std::forward_as_tuple(submap_id),
                     std::forward_as_tuple(options_.sampling_ratio()))
@@ -89,7 +90,6 @@ void ConstraintBuilder2D::MaybeAddConstraint(
     return;
   }
 
-  absl::MutexLock locker(&mutex_);
   if (when_done_) {
     LOG(WARNING)
         << "MaybeAddConstraint was called while WhenDone was scheduled.";
diff --git a/cartographer/mapping/internal/constraints/constraint_builder_2d.h b/cartographer/mapping/internal/constraints/constraint_builder_2d.h
index 6667fdb..3256edc 100644
--- a/cartographer/mapping/internal/constraints/constraint_builder_2d.h
+++ b/cartographer/mapping/internal/constraints/constraint_builder_2d.h
@@ -161,7 +161,8 @@ class ConstraintBuilder2D {
   // Map of dispatched or constructed scan matchers by 'submap_id'.
   std::map<SubmapId, SubmapScanMatcher> submap_scan_matchers_
       GUARDED_BY(mutex_);
-  std::map<SubmapId, common::FixedRatioSampler> per_submap_sampler_;
+  std::map<SubmapId, common::FixedRatioSampler> per_submap_sampler_
+      GUARDED_BY(mutex_);
 
   scan_matching::CeresScanMatcher2D ceres_scan_matcher_;
 
diff --git a/cartographer/mapping/internal/constraints/constraint_builder_3d.cc b/cartographer/mapping/internal/constraints/constraint_builder_3d.cc
index 87b3742..12fe0b9 100644
--- a/cartographer/mapping/internal/constraints/constraint_builder_3d.cc
+++ b/cartographer/mapping/internal/constraints/constraint_builder_3d.cc
@@ -85,6 +85,7 @@ void ConstraintBuilder3D::MaybeAddConstraint(
           .norm() > options_.max_constraint_distance()) {
     return;
   }
+  absl::MutexLock locker(&mutex_);
   if (!per_submap_sampler_
            .emplace(std::piecewise_construct, std::forward_as_tuple(submap_id),
                     std::forward_as_tuple(options_.sampling_ratio()))
@@ -92,7 +93,6 @@ void ConstraintBuilder3D::MaybeAddConstraint(
     return;
   }
 
-  absl::MutexLock locker(&mutex_);
   if (when_done_) {
     LOG(WARNING)
         << "MaybeAddConstraint was called while WhenDone was scheduled.";
diff --git a/cartographer/mapping/internal/constraints/constraint_builder_3d.h b/cartographer/mapping/internal/constraints/constraint_builder_3d.h
index 247a9da..f48659b 100644
--- a/cartographer/mapping/internal/constraints/constraint_builder_3d.h
+++ b/cartographer/mapping/internal/constraints/constraint_builder_3d.h
@@ -170,7 +170,8 @@ class ConstraintBuilder3D {
   // Map of dispatched or constructed scan matchers by 'submap_id'.
   std::map<SubmapId, SubmapScanMatcher> submap_scan_matchers_
       GUARDED_BY(mutex_);
-  std::map<SubmapId, common::FixedRatioSampler> per_submap_sampler_;
+  std::map<SubmapId, common::FixedRatioSampler> per_submap_sampler_
+      GUARDED_BY(mutex_);
 
   scan_matching::CeresScanMatcher3D ceres_scan_matcher_;
 
-- 
2.43.0


From c506bb8e33745c6ef7d6e3d6b3856d1f9c0af775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:17 +0000
Subject: [PATCH 07/23] fix: forget the global pose of a trimmed submap

---
 cartographer/mapping/internal/2d/pose_graph_2d.cc | 4 ++++
 cartographer/mapping/internal/3d/pose_graph_3d.cc | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/cartographer/mapping/internal/2d/pose_graph_2d.cc b/cartographer/mapping/internal/2d/pose_graph_2d.cc
index 060277e..ce83a00 100644
--- a/cartographer/mapping/internal/2d/pose_graph_2d.cc
+++ b/cartographer/mapping/internal/2d/pose_graph_2d.cc
@@ -1281,6 +1281,10 @@ void PoseGraph2D::TrimmingHandle::TrimSubmap(const SubmapId& submap_id) {
   parent_->data_.submap_data.Trim(submap_id);
   parent_->constraint_builder_.DeleteScanMatcher(submap_id);
   parent_->optimization_problem_->TrimSubmap(submap_id);
+  // Do not extrapolate from the pose of a submap that is gone.
+  if (parent_->data_.global_submap_poses_2d.Contains(submap_id)) {
+    parent_->data_.global_submap_poses_2d.Trim(submap_id);
+  }
 
   // We have one submap less, update the gauge metrics.
   kDeletedSubmapsMetric->Increment();
diff --git a/cartographer/mapping/internal/3d/pose_graph_3d.cc b/cartographer/mapping/internal/3d/pose_graph_3d.cc
index 8a91e59..eee73a5 100644
--- a/cartographer/mapping/internal/3d/pose_graph_3d.cc
+++ b/cartographer/mapping/internal/3d/pose_graph_3d.cc
@@ -1261,6 +1261,10 @@ void PoseGraph3D::TrimmingHandle::TrimSubmap(const SubmapId& submap_id) {
   parent_->data_.submap_data.Trim(submap_id);
   parent_->constraint_builder_.DeleteScanMatcher(submap_id);
   parent_->optimization_problem_->TrimSubmap(submap_id);
+  // Do not extrapolate from the pose of a submap that is gone.
+  if (parent_->data_.global_submap_poses_3d.Contains(submap_id)) {
+    parent_->data_.global_submap_poses_3d.Trim(submap_id);
+  }
 
   // We have one submap less, update the gauge metrics.
   kDeletedSubmapsMetric->Increment();
-- 
2.43.0


From 61d1b2da2faad69376cb1043318d7950ddc97734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:17 +0000
Subject: [PATCH 08/23] fix: take the lock when asked for a trajectory's state

---
 .../mapping/internal/2d/pose_graph_2d.cc      | 20 ++++++++++++++-----
 .../mapping/internal/2d/pose_graph_2d.h       |  9 +++++++--
 .../mapping/internal/3d/pose_graph_3d.cc      | 20 ++++++++++++++-----
 .../mapping/internal/3d/pose_graph_3d.h       |  9 +++++++--
 4 files changed, 44 insertions(+), 14 deletions(-)

diff --git a/cartographer/mapping/internal/2d/pose_graph_2d.cc b/cartographer/mapping/internal/2d/pose_graph_2d.cc
index ce83a00..5ab1d49 100644
--- a/cartographer/mapping/internal/2d/pose_graph_2d.cc
+++ b/cartographer/mapping/internal/2d/pose_graph_2d.cc
@@ -635,7 +635,7 @@ void PoseGraph2D::DeleteTrajectory(const int trajectory_id) {
 void PoseGraph2D::FinishTrajectory(const int trajectory_id) {
   AddWorkItem([this, trajectory_id]() LOCKS_EXCLUDED(mutex_) {
     absl::MutexLock locker(&mutex_);
-    CHECK(!IsTrajectoryFinished(trajectory_id));
+    CHECK(!IsTrajectoryFinishedUnderLock(trajectory_id));
     data_.trajectories_state[trajectory_id].state = TrajectoryState::FINISHED;
 
     for (const auto& submap : data_.submap_data.trajectory(trajectory_id)) {
@@ -646,6 +646,11 @@ void PoseGraph2D::FinishTrajectory(const int trajectory_id) {
 }
 
 bool PoseGraph2D::IsTrajectoryFinished(const int trajectory_id) const {
+  absl::MutexLock locker(&mutex_);
+  return IsTrajectoryFinishedUnderLock(trajectory_id);
+}
+
+bool PoseGraph2D::IsTrajectoryFinishedUnderLock(const int trajectory_id) const {
   return data_.trajectories_state.count(trajectory_id) != 0 &&
          data_.trajectories_state.at(trajectory_id).state ==
              TrajectoryState::FINISHED;
@@ -658,13 +663,13 @@ void PoseGraph2D::FreezeTrajectory(const int trajectory_id) {
   }
   AddWorkItem([this, trajectory_id]() LOCKS_EXCLUDED(mutex_) {
     absl::MutexLock locker(&mutex_);
-    CHECK(!IsTrajectoryFrozen(trajectory_id));
+    CHECK(!IsTrajectoryFrozenUnderLock(trajectory_id));
     // Connect multiple frozen trajectories among each other.
     // This is required for localization against multiple frozen trajectories
     // because we lose inter-trajectory constraints when freezing.
     for (const auto& entry : data_.trajectories_state) {
       const int other_trajectory_id = entry.first;
-      if (!IsTrajectoryFrozen(other_trajectory_id)) {
+      if (!IsTrajectoryFrozenUnderLock(other_trajectory_id)) {
         continue;
       }
       if (data_.trajectory_connectivity_state.TransitivelyConnected(
@@ -681,6 +686,11 @@ void PoseGraph2D::FreezeTrajectory(const int trajectory_id) {
 }
 
 bool PoseGraph2D::IsTrajectoryFrozen(const int trajectory_id) const {
+  absl::MutexLock locker(&mutex_);
+  return IsTrajectoryFrozenUnderLock(trajectory_id);
+}
+
+bool PoseGraph2D::IsTrajectoryFrozenUnderLock(const int trajectory_id) const {
   return data_.trajectories_state.count(trajectory_id) != 0 &&
          data_.trajectories_state.at(trajectory_id).state ==
              TrajectoryState::FROZEN;
@@ -1196,7 +1206,7 @@ PoseGraph2D::TrimmingHandle::GetConstraints() const {
 }
 
 bool PoseGraph2D::TrimmingHandle::IsFinished(const int trajectory_id) const {
-  return parent_->IsTrajectoryFinished(trajectory_id);
+  return parent_->IsTrajectoryFinishedUnderLock(trajectory_id);
 }
 
 void PoseGraph2D::TrimmingHandle::SetTrajectoryState(int trajectory_id,
@@ -1288,7 +1298,7 @@ void PoseGraph2D::TrimmingHandle::TrimSubmap(const SubmapId& submap_id) {
 
   // We have one submap less, update the gauge metrics.
   kDeletedSubmapsMetric->Increment();
-  if (parent_->IsTrajectoryFrozen(submap_id.trajectory_id)) {
+  if (parent_->IsTrajectoryFrozenUnderLock(submap_id.trajectory_id)) {
     kFrozenSubmapsMetric->Decrement();
   } else {
     kActiveSubmapsMetric->Decrement();
diff --git a/cartographer/mapping/internal/2d/pose_graph_2d.h b/cartographer/mapping/internal/2d/pose_graph_2d.h
index 3733425..4f99bf1 100644
--- a/cartographer/mapping/internal/2d/pose_graph_2d.h
+++ b/cartographer/mapping/internal/2d/pose_graph_2d.h
@@ -99,10 +99,10 @@ class PoseGraph2D : public PoseGraph {
   void DeleteTrajectory(int trajectory_id) override;
   void FinishTrajectory(int trajectory_id) override;
   bool IsTrajectoryFinished(int trajectory_id) const override
-      EXCLUSIVE_LOCKS_REQUIRED(mutex_);
+      LOCKS_EXCLUDED(mutex_);
   void FreezeTrajectory(int trajectory_id) override;
   bool IsTrajectoryFrozen(int trajectory_id) const override
-      EXCLUSIVE_LOCKS_REQUIRED(mutex_);
+      LOCKS_EXCLUDED(mutex_);
   void AddSubmapFromProto(const transform::Rigid3d& global_submap_pose,
                           const proto::Submap& submap) override;
   void AddNodeFromProto(const transform::Rigid3d& global_pose,
@@ -221,6 +221,11 @@ class PoseGraph2D : public PoseGraph {
   bool CanAddWorkItemModifying(int trajectory_id)
       EXCLUSIVE_LOCKS_REQUIRED(mutex_);
 
+  bool IsTrajectoryFinishedUnderLock(int trajectory_id) const
+      EXCLUSIVE_LOCKS_REQUIRED(mutex_);
+  bool IsTrajectoryFrozenUnderLock(int trajectory_id) const
+      EXCLUSIVE_LOCKS_REQUIRED(mutex_);
+
   // Computes the local to global map frame transform based on the given
   // 'global_submap_poses'.
   transform::Rigid3d ComputeLocalToGlobalTransform(
diff --git a/cartographer/mapping/internal/3d/pose_graph_3d.cc b/cartographer/mapping/internal/3d/pose_graph_3d.cc
index eee73a5..c21ddb3 100644
--- a/cartographer/mapping/internal/3d/pose_graph_3d.cc
+++ b/cartographer/mapping/internal/3d/pose_graph_3d.cc
@@ -622,7 +622,7 @@ void PoseGraph3D::DeleteTrajectory(const int trajectory_id) {
 void PoseGraph3D::FinishTrajectory(const int trajectory_id) {
   AddWorkItem([this, trajectory_id]() LOCKS_EXCLUDED(mutex_) {
     absl::MutexLock locker(&mutex_);
-    CHECK(!IsTrajectoryFinished(trajectory_id));
+    CHECK(!IsTrajectoryFinishedUnderLock(trajectory_id));
     data_.trajectories_state[trajectory_id].state = TrajectoryState::FINISHED;
 
     for (const auto& submap : data_.submap_data.trajectory(trajectory_id)) {
@@ -633,6 +633,11 @@ void PoseGraph3D::FinishTrajectory(const int trajectory_id) {
 }
 
 bool PoseGraph3D::IsTrajectoryFinished(const int trajectory_id) const {
+  absl::MutexLock locker(&mutex_);
+  return IsTrajectoryFinishedUnderLock(trajectory_id);
+}
+
+bool PoseGraph3D::IsTrajectoryFinishedUnderLock(const int trajectory_id) const {
   return data_.trajectories_state.count(trajectory_id) != 0 &&
          data_.trajectories_state.at(trajectory_id).state ==
              TrajectoryState::FINISHED;
@@ -645,13 +650,13 @@ void PoseGraph3D::FreezeTrajectory(const int trajectory_id) {
   }
   AddWorkItem([this, trajectory_id]() LOCKS_EXCLUDED(mutex_) {
     absl::MutexLock locker(&mutex_);
-    CHECK(!IsTrajectoryFrozen(trajectory_id));
+    CHECK(!IsTrajectoryFrozenUnderLock(trajectory_id));
     // Connect multiple frozen trajectories among each other.
     // This is required for localization against multiple frozen trajectories
     // because we lose inter-trajectory constraints when freezing.
     for (const auto& entry : data_.trajectories_state) {
       const int other_trajectory_id = entry.first;
-      if (!IsTrajectoryFrozen(other_trajectory_id)) {
+      if (!IsTrajectoryFrozenUnderLock(other_trajectory_id)) {
         continue;
       }
       if (data_.trajectory_connectivity_state.TransitivelyConnected(
@@ -668,6 +673,11 @@ void PoseGraph3D::FreezeTrajectory(const int trajectory_id) {
 }
 
 bool PoseGraph3D::IsTrajectoryFrozen(const int trajectory_id) const {
+  absl::MutexLock locker(&mutex_);
+  return IsTrajectoryFrozenUnderLock(trajectory_id);
+}
+
+bool PoseGraph3D::IsTrajectoryFrozenUnderLock(const int trajectory_id) const {
   return data_.trajectories_state.count(trajectory_id) != 0 &&
          data_.trajectories_state.at(trajectory_id).state ==
              TrajectoryState::FROZEN;
@@ -1176,7 +1186,7 @@ PoseGraph3D::TrimmingHandle::GetConstraints() const {
 }
 
 bool PoseGraph3D::TrimmingHandle::IsFinished(const int trajectory_id) const {
-  return parent_->IsTrajectoryFinished(trajectory_id);
+  return parent_->IsTrajectoryFinishedUnderLock(trajectory_id);
 }
 
 void PoseGraph3D::TrimmingHandle::SetTrajectoryState(int trajectory_id,
@@ -1268,7 +1278,7 @@ void PoseGraph3D::TrimmingHandle::TrimSubmap(const SubmapId& submap_id) {
 
   // We have one submap less, update the gauge metrics.
   kDeletedSubmapsMetric->Increment();
-  if (parent_->IsTrajectoryFrozen(submap_id.trajectory_id)) {
+  if (parent_->IsTrajectoryFrozenUnderLock(submap_id.trajectory_id)) {
     kFrozenSubmapsMetric->Decrement();
   } else {
     kActiveSubmapsMetric->Decrement();
diff --git a/cartographer/mapping/internal/3d/pose_graph_3d.h b/cartographer/mapping/internal/3d/pose_graph_3d.h
index 12a3469..e28a58f 100644
--- a/cartographer/mapping/internal/3d/pose_graph_3d.h
+++ b/cartographer/mapping/internal/3d/pose_graph_3d.h
@@ -97,10 +97,10 @@ class PoseGraph3D : public PoseGraph {
   void DeleteTrajectory(int trajectory_id) override;
   void FinishTrajectory(int trajectory_id) override;
   bool IsTrajectoryFinished(int trajectory_id) const override
-      EXCLUSIVE_LOCKS_REQUIRED(mutex_);
+      LOCKS_EXCLUDED(mutex_);
   void FreezeTrajectory(int trajectory_id) override;
   bool IsTrajectoryFrozen(int trajectory_id) const override
-      EXCLUSIVE_LOCKS_REQUIRED(mutex_);
+      LOCKS_EXCLUDED(mutex_);
   void AddSubmapFromProto(const transform::Rigid3d& global_submap_pose,
                           const proto::Submap& submap) override;
   void AddNodeFromProto(const transform::Rigid3d& global_pose,
@@ -219,6 +219,11 @@ class PoseGraph3D : public PoseGraph {
   bool CanAddWorkItemModifying(int trajectory_id)
       EXCLUSIVE_LOCKS_REQUIRED(mutex_);
 
+  bool IsTrajectoryFinishedUnderLock(int trajectory_id) const
+      EXCLUSIVE_LOCKS_REQUIRED(mutex_);
+  bool IsTrajectoryFrozenUnderLock(int trajectory_id) const
+      EXCLUSIVE_LOCKS_REQUIRED(mutex_);
+
   // Computes the local to global map frame transform based on the given
   // 'global_submap_poses'.
   transform::Rigid3d ComputeLocalToGlobalTransform(
-- 
2.43.0


From 9d4158839c3eb0d8749b8eb13fe45f54ff2eb031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:57 +0000
Subject: [PATCH 09/23] fix: make a submap's progress readable while range data
 is inserted

---
 cartographer/mapping/submaps.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cartographer/mapping/submaps.h b/cartographer/mapping/submaps.h
index 39ca93b..92b3d55 100644
--- a/cartographer/mapping/submaps.h
+++ b/cartographer/mapping/submaps.h
@@ -17,6 +17,7 @@
 #ifndef CARTOGRAPHER_MAPPING_SUBMAPS_H_
 #define CARTOGRAPHER_MAPPING_SUBMAPS_H_
 
+#include <atomic>
 #include <memory>
 #include <vector>
 
@@ -86,8 +87,9 @@ class Submap {
 
  private:
   const transform::Rigid3d local_pose_;
-  int num_range_data_ = 0;
-  bool insertion_finished_ = false;
+  // Read by the pose graph while local SLAM is inserting range data.
+  std::atomic<int> num_range_data_{0};
+  std::atomic<bool> insertion_finished_{false};
 };
 
 }  // namespace mapping
-- 
2.43.0


From 40e87039c60a6b8b9ca0a4e1fe40d38c4968bb3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:10 +0000
Subject: [PATCH 10/23] fix: delete nodes that are in no submap with their
 trajectory

---
 .../mapping/internal/2d/pose_graph_2d.cc         | 16 ++++++++++++++++
 .../mapping/internal/3d/pose_graph_3d.cc         | 16 ++++++++++++++++
 2 files changed, 32 insertions(+)

diff --git a/cartographer/mapping/internal/2d/pose_graph_2d.cc b/cartographer/mapping/internal/2d/pose_graph_2d.cc
index 5ab1d49..9e7d36b 100644
--- a/cartographer/mapping/internal/2d/pose_graph_2d.cc
+++ b/cartographer/mapping/internal/2d/pose_graph_2d.cc
@@ -435,6 +435,22 @@ void PoseGraph2D::DeleteTrajectoriesIfNeeded() {
       for (auto& submap_id : submap_ids) {
         trimming_handle.TrimSubmap(submap_id);
       }
+      // Nodes that are in none of the submaps, e.g. because these were not
+      // saved, have to go as well.
+      data_.constraints.erase(
+          std::remove_if(data_.constraints.begin(), data_.constraints.end(),
+                         [&it](const Constraint& constraint) {
+                           return constraint.node_id.trajectory_id == it.first;
+                         }),
+          data_.constraints.end());
+      std::vector<NodeId> remaining_node_ids;
+      for (const auto& node : data_.trajectory_nodes.trajectory(it.first)) {
+        remaining_node_ids.push_back(node.id);
+      }
+      for (const NodeId& node_id : remaining_node_ids) {
+        data_.trajectory_nodes.Trim(node_id);
+        optimization_problem_->TrimTrajectoryNode(node_id);
+      }
       it.second.state = TrajectoryState::DELETED;
       it.second.deletion_state = InternalTrajectoryState::DeletionState::NORMAL;
     }
diff --git a/cartographer/mapping/internal/3d/pose_graph_3d.cc b/cartographer/mapping/internal/3d/pose_graph_3d.cc
index c21ddb3..3d71021 100644
--- a/cartographer/mapping/internal/3d/pose_graph_3d.cc
+++ b/cartographer/mapping/internal/3d/pose_graph_3d.cc
@@ -422,6 +422,22 @@ void PoseGraph3D::DeleteTrajectoriesIfNeeded() {
       for (auto& submap_id : submap_ids) {
         trimming_handle.TrimSubmap(submap_id);
       }
+      // Nodes that are in none of the submaps, e.g. because these were not
+      // saved, have to go as well.
+      data_.constraints.erase(
+          std::remove_if(data_.constraints.begin(), data_.constraints.end(),
+                         [&it](const Constraint& constraint) {
+                           return constraint.node_id.trajectory_id == it.first;
+                         }),
+          data_.constraints.end());
+      std::vector<NodeId> remaining_node_ids;
+      for (const auto& node : data_.trajectory_nodes.trajectory(it.first)) {
+        remaining_node_ids.push_back(node.id);
+      }
+      for (const NodeId& node_id : remaining_node_ids) {
+        data_.trajectory_nodes.Trim(node_id);
+        optimization_problem_->TrimTrajectoryNode(node_id);
+      }
       it.second.state = TrajectoryState::DELETED;
       it.second.deletion_state = InternalTrajectoryState::DeletionState::NORMAL;
     }
-- 
2.43.0


From 24bd4ce25b3e8303234b06030a40fd21bb3dbeac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:18 +0000
Subject: [PATCH 11/23] fix: count submaps and covered cells of any number when
 trimming overlap

---
 .../mapping/internal/2d/overlapping_submaps_trimmer_2d.cc   | 6 ++++--
 .../mapping/internal/2d/overlapping_submaps_trimmer_2d.h    | 2 +-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/cartographer/mapping/internal/2d/overlapping_submaps_trimmer_2d.cc b/cartographer/mapping/internal/2d/overlapping_submaps_trimmer_2d.cc
index a62b0cd..8aaafd7 100644
--- a/cartographer/mapping/internal/2d/overlapping_submaps_trimmer_2d.cc
+++ b/cartographer/mapping/internal/2d/overlapping_submaps_trimmer_2d.cc
@@ -145,8 +145,8 @@ std::map<SubmapId, common::Time> ComputeSubmapFreshness(
 std::vector<SubmapId> FindSubmapIdsToTrim(
     const SubmapCoverageGrid2D& coverage_grid,
     const std::set<SubmapId>& all_submap_ids, uint16 fresh_submaps_count,
-    uint16 min_covered_cells_count) {
-  std::map<SubmapId, uint16> submap_to_covered_cells_count;
+    int64 min_covered_cells_count) {
+  std::map<SubmapId, int64> submap_to_covered_cells_count;
   for (const auto& cell : coverage_grid.cells()) {
     std::vector<std::pair<SubmapId, common::Time>> submaps_per_cell(
         cell.second);
@@ -185,6 +185,8 @@ std::vector<SubmapId> FindSubmapIdsToTrim(
 
 void OverlappingSubmapsTrimmer2D::Trim(Trimmable* pose_graph) {
   const auto submap_data = pose_graph->GetOptimizedSubmapData();
+  // The count may have decreased because of deleted trajectories.
+  current_submap_count_ = std::min(current_submap_count_, submap_data.size());
   if (submap_data.size() - current_submap_count_ <= min_added_submaps_count_) {
     return;
   }
diff --git a/cartographer/mapping/internal/2d/overlapping_submaps_trimmer_2d.h b/cartographer/mapping/internal/2d/overlapping_submaps_trimmer_2d.h
index bd74691..df0c12b 100644
--- a/cartographer/mapping/internal/2d/overlapping_submaps_trimmer_2d.h
+++ b/cartographer/mapping/internal/2d/overlapping_submaps_trimmer_2d.h
@@ -46,7 +46,7 @@ class OverlappingSubmapsTrimmer2D : public PoseGraphTrimmer {
   // Number of added submaps before the trimmer is invoked.
   const uint16 min_added_submaps_count_;
   // Current finished submap count.
-  uint16 current_submap_count_ = 0;
+  size_t current_submap_count_ = 0;
 
   bool finished_ = false;
 };
-- 
2.43.0


From af2c1550068b90a2a51a395dbfecca5aff8863ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:50 +0000
Subject: [PATCH 12/23] fix: save options and data of exactly the trajectories
 in the saved pose graph

---
 .../internal/mapping_state_serialization.cc   | 67 +++++++++++++------
 1 file changed, 48 insertions(+), 19 deletions(-)

diff --git a/cartographer/io/internal/mapping_state_serialization.cc b/cartographer/io/internal/mapping_state_serialization.cc
index 8305e7a..1a9c638 100644
--- a/cartographer/io/internal/mapping_state_serialization.cc
+++ b/cartographer/io/internal/mapping_state_serialization.cc
@@ -16,6 +16,9 @@
 
 #include "cartographer/io/internal/mapping_state_serialization.h"
 
+#include <set>
+#include <vector>
+
 #include "cartographer/mapping/proto/serialization.pb.h"
 #include "cartographer/transform/transform.h"
 
@@ -42,17 +45,14 @@ CreateAllTrajectoryBuilderOptionsProto(
   return all_options_proto;
 }
 
-// Will return all trajectory ids, that have `state != DELETED`.
-std::vector<int> GetValidTrajectoryIds(
-    const std::map<int, PoseGraphInterface::TrajectoryState>&
-        trajectory_states) {
-  std::vector<int> valid_trajectories;
-  for (const auto& t : trajectory_states) {
-    if (t.second != PoseGraphInterface::TrajectoryState::DELETED) {
-      valid_trajectories.push_back(t.first);
-    }
+// Will return the ids of all trajectories in 'pose_graph' in order. The options
+// of the trajectories have to be serialized in the same order.
+std::vector<int> GetTrajectoryIds(const mapping::proto::PoseGraph& pose_graph) {
+  std::vector<int> trajectory_ids;
+  for (const auto& trajectory : pose_graph.trajectory()) {
+    trajectory_ids.push_back(trajectory.trajectory_id());
   }
-  return valid_trajectories;
+  return trajectory_ids;
 }
 
 mapping::proto::SerializationHeader CreateHeader() {
@@ -118,8 +118,12 @@ void SerializeTrajectoryNodes(
 void SerializeTrajectoryData(
     const std::map<int, PoseGraphInterface::TrajectoryData>&
         all_trajectory_data,
+    const std::set<int>& trajectory_ids_to_serialize,
     ProtoStreamWriterInterface* const writer) {
   for (const auto& trajectory_data : all_trajectory_data) {
+    if (trajectory_ids_to_serialize.count(trajectory_data.first) == 0) {
+      continue;
+    }
     SerializedData proto;
     auto* const trajectory_data_proto = proto.mutable_trajectory_data();
     trajectory_data_proto->set_trajectory_id(trajectory_data.first);
@@ -140,8 +144,12 @@ void SerializeTrajectoryData(
 }
 
 void SerializeImuData(const sensor::MapByTime<sensor::ImuData>& all_imu_data,
+                      const std::set<int>& trajectory_ids_to_serialize,
                       ProtoStreamWriterInterface* const writer) {
   for (const int trajectory_id : all_imu_data.trajectory_ids()) {
+    if (trajectory_ids_to_serialize.count(trajectory_id) == 0) {
+      continue;
+    }
     for (const auto& imu_data : all_imu_data.trajectory(trajectory_id)) {
       SerializedData proto;
       auto* const imu_data_proto = proto.mutable_imu_data();
@@ -154,8 +162,12 @@ void SerializeImuData(const sensor::MapByTime<sensor::ImuData>& all_imu_data,
 
 void SerializeOdometryData(
     const sensor::MapByTime<sensor::OdometryData>& all_odometry_data,
+    const std::set<int>& trajectory_ids_to_serialize,
     ProtoStreamWriterInterface* const writer) {
   for (const int trajectory_id : all_odometry_data.trajectory_ids()) {
+    if (trajectory_ids_to_serialize.count(trajectory_id) == 0) {
+      continue;
+    }
     for (const auto& odometry_data :
          all_odometry_data.trajectory(trajectory_id)) {
       SerializedData proto;
@@ -171,8 +183,12 @@ void SerializeOdometryData(
 void SerializeFixedFramePoseData(
     const sensor::MapByTime<sensor::FixedFramePoseData>&
         all_fixed_frame_pose_data,
+    const std::set<int>& trajectory_ids_to_serialize,
     ProtoStreamWriterInterface* const writer) {
   for (const int trajectory_id : all_fixed_frame_pose_data.trajectory_ids()) {
+    if (trajectory_ids_to_serialize.count(trajectory_id) == 0) {
+      continue;
+    }
     for (const auto& fixed_frame_pose_data :
          all_fixed_frame_pose_data.trajectory(trajectory_id)) {
       SerializedData proto;
@@ -189,9 +205,13 @@ void SerializeFixedFramePoseData(
 void SerializeLandmarkNodes(
     const std::map<std::string, PoseGraphInterface::LandmarkNode>&
         all_landmark_nodes,
+    const std::set<int>& trajectory_ids_to_serialize,
     ProtoStreamWriterInterface* const writer) {
   for (const auto& node : all_landmark_nodes) {
     for (const auto& observation : node.second.landmark_observations) {
+      if (trajectory_ids_to_serialize.count(observation.trajectory_id) == 0) {
+        continue;
+      }
       SerializedData proto;
       auto* landmark_data_proto = proto.mutable_landmark_data();
       landmark_data_proto->set_trajectory_id(observation.trajectory_id);
@@ -217,20 +237,29 @@ void WritePbStream(
         trajectory_builder_options,
     ProtoStreamWriterInterface* const writer, bool include_unfinished_submaps) {
   writer->WriteProto(CreateHeader());
-  writer->WriteProto(
-      SerializePoseGraph(pose_graph, include_unfinished_submaps));
+  const SerializedData pose_graph_proto =
+      SerializePoseGraph(pose_graph, include_unfinished_submaps);
+  writer->WriteProto(pose_graph_proto);
+  const std::vector<int> trajectory_ids =
+      GetTrajectoryIds(pose_graph_proto.pose_graph());
   writer->WriteProto(SerializeTrajectoryBuilderOptions(
-      trajectory_builder_options,
-      GetValidTrajectoryIds(pose_graph.GetTrajectoryStates())));
+      trajectory_builder_options, trajectory_ids));
 
   SerializeSubmaps(pose_graph.GetAllSubmapData(), include_unfinished_submaps,
                    writer);
   SerializeTrajectoryNodes(pose_graph.GetTrajectoryNodes(), writer);
-  SerializeTrajectoryData(pose_graph.GetTrajectoryData(), writer);
-  SerializeImuData(pose_graph.GetImuData(), writer);
-  SerializeOdometryData(pose_graph.GetOdometryData(), writer);
-  SerializeFixedFramePoseData(pose_graph.GetFixedFramePoseData(), writer);
-  SerializeLandmarkNodes(pose_graph.GetLandmarkNodes(), writer);
+  // Sensor data is kept for trajectories that are not part of the pose graph,
+  // e.g. deleted ones, and could not be loaded.
+  const std::set<int> ids_to_serialize(trajectory_ids.begin(),
+                                       trajectory_ids.end());
+  SerializeTrajectoryData(pose_graph.GetTrajectoryData(), ids_to_serialize,
+                          writer);
+  SerializeImuData(pose_graph.GetImuData(), ids_to_serialize, writer);
+  SerializeOdometryData(pose_graph.GetOdometryData(), ids_to_serialize, writer);
+  SerializeFixedFramePoseData(pose_graph.GetFixedFramePoseData(),
+                              ids_to_serialize, writer);
+  SerializeLandmarkNodes(pose_graph.GetLandmarkNodes(), ids_to_serialize,
+                         writer);
 }
 
 }  // namespace io
-- 
2.43.0


From 6267af1ae3731a524121e62112ffbf35f5cb72bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:04 +0000
Subject: [PATCH 13/23] fix: initialize whether a PLY file has intensities

---
 cartographer/io/ply_writing_points_processor.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cartographer/io/ply_writing_points_processor.cc b/cartographer/io/ply_writing_points_processor.cc
index 8b0ecdb..2d23c04 100644
--- a/cartographer/io/ply_writing_points_processor.cc
+++ b/cartographer/io/ply_writing_points_processor.cc
@@ -101,6 +101,7 @@ PlyWritingPointsProcessor::PlyWritingPointsProcessor(
       comments_(comments),
       num_points_(0),
       has_colors_(false),
+      has_intensities_(false),
       file_(std::move(file_writer)) {}
 
 PointsProcessor::FlushResult PlyWritingPointsProcessor::Flush() {
-- 
2.43.0


From 0874b7ed8efcdceeb910a6adef54895c6591c0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:04 +0000
Subject: [PATCH 14/23] fix: write colors to a PCD file exactly if its header
 declares them

---
 cartographer/io/pcd_writing_points_processor.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cartographer/io/pcd_writing_points_processor.cc b/cartographer/io/pcd_writing_points_processor.cc
index abd2c98..9d78c26 100644
--- a/cartographer/io/pcd_writing_points_processor.cc
+++ b/cartographer/io/pcd_writing_points_processor.cc
@@ -118,10 +118,16 @@ void PcdWritingPointsProcessor::Process(std::unique_ptr<PointsBatch> batch) {
     has_colors_ = !batch->colors.empty();
     WriteBinaryPcdHeader(has_colors_, 0, file_writer_.get());
   }
+  if (has_colors_) {
+    CHECK_EQ(batch->points.size(), batch->colors.size())
+        << "First PointsBatch had colors, but encountered one without. "
+           "frame_id: "
+        << batch->frame_id;
+  }
   for (size_t i = 0; i < batch->points.size(); ++i) {
     WriteBinaryPcdPointCoordinate(batch->points[i].position,
                                   file_writer_.get());
-    if (!batch->colors.empty()) {
+    if (has_colors_) {
       WriteBinaryPcdPointColor(ToUint8Color(batch->colors[i]),
                                file_writer_.get());
     }
-- 
2.43.0


From 78b62df1e5e6f8469207f0c77c948d87d951589e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:04 +0000
Subject: [PATCH 15/23] fix: report failure to open, write or close a file

---
 cartographer/io/file_writer.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/cartographer/io/file_writer.cc b/cartographer/io/file_writer.cc
index 97d4481..6a730df 100644
--- a/cartographer/io/file_writer.cc
+++ b/cartographer/io/file_writer.cc
@@ -25,23 +25,23 @@ StreamFileWriter::StreamFileWriter(const std::string& filename)
 StreamFileWriter::~StreamFileWriter() {}
 
 bool StreamFileWriter::Write(const char* const data, const size_t len) {
-  if (out_.bad()) {
+  if (out_.fail()) {
     return false;
   }
   out_.write(data, len);
-  return !out_.bad();
+  return !out_.fail();
 }
 
 bool StreamFileWriter::Close() {
-  if (out_.bad()) {
+  if (out_.fail()) {
     return false;
   }
   out_.close();
-  return !out_.bad();
+  return !out_.fail();
 }
 
 bool StreamFileWriter::WriteHeader(const char* const data, const size_t len) {
-  if (out_.bad()) {
+  if (out_.fail()) {
     return false;
   }
   out_.flush();
-- 
2.43.0


From 154bde1e6d914cd8ae40ab04775f756498ebdc50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:45 +0000
Subject: [PATCH 16/23] fix: include the first node in the first span when
 detecting floors

---
 cartographer/mapping/detect_floors.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cartographer/mapping/detect_floors.cc b/cartographer/mapping/detect_floors.cc
index 8ec605d..009d82e 100644
--- a/cartographer/mapping/detect_floors.cc
+++ b/cartographer/mapping/detect_floors.cc
@@ -82,7 +82,7 @@ std::vector<Span> SliceByAltitudeChange(const proto::Trajectory& trajectory) {
   CHECK_GT(trajectory.node_size(), 0);
 
   std::vector<Span> spans;
-  spans.push_back(Span{0, 0, {trajectory.node(0).pose().translation().z()}});
+  spans.push_back(Span{0, 1, {trajectory.node(0).pose().translation().z()}});
   for (int i = 1; i < trajectory.node_size(); ++i) {
     const auto& node = trajectory.node(i);
     const double z = node.pose().translation().z();
-- 
2.43.0


From a14fdc71962c85ac13eef2b68b789493eeadfe23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:45 +0000
Subject: [PATCH 17/23] fix: paint the submaps after one without a texture

---
 cartographer/io/submap_painter.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cartographer/io/submap_painter.cc b/cartographer/io/submap_painter.cc
index 49b0046..6cf779d 100644
--- a/cartographer/io/submap_painter.cc
+++ b/cartographer/io/submap_painter.cc
@@ -36,7 +36,7 @@ void CairoPaintSubmapSlices(
   for (auto& pair : submaps) {
     const auto& submap_slice = pair.second;
     if (submap_slice.surface == nullptr) {
-      return;
+      continue;
     }
     const Eigen::Matrix4d homo =
         ToEigen(submap_slice.pose * submap_slice.slice_pose).matrix();
-- 
2.43.0


From ecff3094312cb617ac1cfceeeb38b3663eead216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:45 +0000
Subject: [PATCH 18/23] fix: compute the texture of a 3D submap without
 obstructed cells

---
 cartographer/mapping/3d/submap_3d.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cartographer/mapping/3d/submap_3d.cc b/cartographer/mapping/3d/submap_3d.cc
index 9facbe4..d9a5ad2 100644
--- a/cartographer/mapping/3d/submap_3d.cc
+++ b/cartographer/mapping/3d/submap_3d.cc
@@ -157,6 +157,10 @@ void AddToTextureProto(
   const std::vector<Eigen::Array4i> voxel_indices_and_probabilities =
       ExtractVoxelData(hybrid_grid, global_submap_pose.cast<float>(),
                        &min_index, &max_index);
+  if (voxel_indices_and_probabilities.empty()) {
+    // Without obstructed cells the texture is a single empty pixel.
+    min_index = max_index = Eigen::Array2i::Zero();
+  }
 
   const int width = max_index.y() - min_index.y() + 1;
   const int height = max_index.x() - min_index.x() + 1;
-- 
2.43.0


From b87c71328dfd1328c68277c44c32fcd28fb83e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:14 +0000
Subject: [PATCH 19/23] fix: let the pose graph finish its work before the
 grids' tables go

---
 cartographer/mapping/map_builder.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cartographer/mapping/map_builder.h b/cartographer/mapping/map_builder.h
index ee885a0..32bf8eb 100644
--- a/cartographer/mapping/map_builder.h
+++ b/cartographer/mapping/map_builder.h
@@ -86,11 +86,14 @@ class MapBuilder : public MapBuilderInterface {
   const proto::MapBuilderOptions options_;
   common::ThreadPool thread_pool_;
 
+  // Must outlive 'pose_graph_' which finishes its background work, using the
+  // conversion tables of the trajectory builders' grids, when it is destroyed.
+  std::vector<std::unique_ptr<mapping::TrajectoryBuilderInterface>>
+      trajectory_builders_;
+
   std::unique_ptr<PoseGraph> pose_graph_;
 
   std::unique_ptr<sensor::CollatorInterface> sensor_collator_;
-  std::vector<std::unique_ptr<mapping::TrajectoryBuilderInterface>>
-      trajectory_builders_;
   std::vector<proto::TrajectoryBuilderOptionsWithSensorIds>
       all_trajectory_builder_options_;
 };
-- 
2.43.0


From 9a2dea3ccf1cc6116f42a56bbc9512715f2b28f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:10 +0000
Subject: [PATCH 20/23] fix: wait for all data before writing a migrated stream

---
 cartographer/io/serialization_format_migration.cc | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/cartographer/io/serialization_format_migration.cc b/cartographer/io/serialization_format_migration.cc
index 7ed692e..28b2b03 100644
--- a/cartographer/io/serialization_format_migration.cc
+++ b/cartographer/io/serialization_format_migration.cc
@@ -40,6 +40,17 @@ namespace io {
 
 using mapping::proto::SerializedData;
 
+namespace {
+
+// A pose graph for which we can wait until it holds all data added to it.
+class PoseGraph : public mapping::PoseGraph3D {
+ public:
+  using mapping::PoseGraph3D::PoseGraph3D;
+  using mapping::PoseGraph3D::WaitForAllComputations;
+};
+
+}  // namespace
+
 void MigrateStreamVersion1ToVersion2(
     cartographer::io::ProtoStreamReaderInterface* const input,
     cartographer::io::ProtoStreamWriterInterface* const output,
@@ -59,7 +70,7 @@ void MigrateStreamVersion1ToVersion2(
   common::ThreadPool thread_pool(1);
   CHECK(!options.use_trajectory_builder_2d());
   // We always use 3D here. 2D submaps do not have histograms.
-  mapping::PoseGraph3D pose_graph(
+  PoseGraph pose_graph(
       options.pose_graph_options(),
       absl::make_unique<mapping::optimization::OptimizationProblem3D>(
           options.pose_graph_options().optimization_problem_options()),
@@ -207,6 +218,8 @@ void MigrateStreamVersion1ToVersion2(
       mapping::FromProto(pose_graph_proto.constraint()));
   CHECK(input->eof());
 
+  // Constraints, landmarks and sensor data are added in the background.
+  pose_graph.WaitForAllComputations();
   WritePbStream(pose_graph, trajectory_builder_options, output,
                 include_unfinished_submaps);
 }
-- 
2.43.0


From b0832f6c0dd41ffd207d79610817c02c9a68eb15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:10 +0000
Subject: [PATCH 21/23] fix: skip unknown records when summarizing a stream

---
 cartographer/io/internal/pbstream_info.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cartographer/io/internal/pbstream_info.cc b/cartographer/io/internal/pbstream_info.cc
index 194d9d1..213a4c1 100644
--- a/cartographer/io/internal/pbstream_info.cc
+++ b/cartographer/io/internal/pbstream_info.cc
@@ -80,6 +80,7 @@ void Run(const std::string& pbstream_filename, bool all_debug_strings) {
     if (it == data_case_to_name.end()) {
       LOG(WARNING) << "Skipping unknown message type in stream: "
                    << proto.GetTypeName();
+      continue;
     }
     const std::string& data_name = it->second;
     ++data_counts[data_name];
-- 
2.43.0


From 14d383cf3ae940c18914f744e15ecc9252829661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:10 +0000
Subject: [PATCH 22/23] fix: list the time between two stays on the same floor
 once

---
 cartographer/mapping/detect_floors.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/cartographer/mapping/detect_floors.cc b/cartographer/mapping/detect_floors.cc
index 009d82e..a3aeed4 100644
--- a/cartographer/mapping/detect_floors.cc
+++ b/cartographer/mapping/detect_floors.cc
@@ -18,6 +18,7 @@
 
 #include <algorithm>
 #include <fstream>
+#include <set>
 #include <vector>
 
 #include "Eigen/Core"
@@ -155,13 +156,17 @@ std::vector<Floor> FindFloors(const proto::Trajectory& trajectory,
 
     // Otherwise, add this short piece to the level before and after it. It is
     // likely some intermediate level on stairs.
+    std::set<int> adjacent_levels;
     size_t index = i - 1;
     if (index < spans.size()) {
-      level_spans[LevelFind(index, levels)].push_back(span);
+      adjacent_levels.insert(LevelFind(index, levels));
     }
     index = i + 1;
     if (index < spans.size()) {
-      level_spans[LevelFind(index, levels)].push_back(span);
+      adjacent_levels.insert(LevelFind(index, levels));
+    }
+    for (const int adjacent_level : adjacent_levels) {
+      level_spans[adjacent_level].push_back(span);
     }
   }
 
-- 
2.43.0


From dc5019999f6cf8df86787527d89f8c6f0c4c3525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:33 +0000
Subject: [PATCH 23/23] fix: place a new node and add it to the graph under one
 lock

An optimization between the two left the node at an outdated pose until the
next optimization.
---
 .../mapping/internal/2d/pose_graph_2d.cc         | 16 +++++++++-------
 cartographer/mapping/internal/2d/pose_graph_2d.h |  4 ++--
 .../mapping/internal/3d/pose_graph_3d.cc         | 16 +++++++++-------
 cartographer/mapping/internal/3d/pose_graph_3d.h |  4 ++--
 4 files changed, 22 insertions(+), 18 deletions(-)

diff --git a/cartographer/mapping/internal/2d/pose_graph_2d.cc b/cartographer/mapping/internal/2d/pose_graph_2d.cc
index 9e7d36b..eb58338 100644
--- a/cartographer/mapping/internal/2d/pose_graph_2d.cc
+++ b/cartographer/mapping/internal/2d/pose_graph_2d.cc
@@ -126,13 +126,18 @@ std::vector<SubmapId> PoseGraph2D::InitializeGlobalSubmapPoses(
 NodeId PoseGraph2D::AppendNode(
     std::shared_ptr<const TrajectoryNode::Data> constant_data,
     const int trajectory_id,
-    const std::vector<std::shared_ptr<const Submap2D>>& insertion_submaps,
-    const transform::Rigid3d& optimized_pose) {
+    const std::vector<std::shared_ptr<const Submap2D>>& insertion_submaps) {
   absl::MutexLock locker(&mutex_);
   AddTrajectoryIfNeeded(trajectory_id);
   if (!CanAddWorkItemModifying(trajectory_id)) {
     LOG(WARNING) << "AddNode was called for finished or deleted trajectory.";
   }
+  // The pose has to be computed under the same lock under which the node is
+  // added, otherwise an optimization in between would not update it.
+  const transform::Rigid3d optimized_pose(
+      ComputeLocalToGlobalTransform(data_.global_submap_poses_2d,
+                                    trajectory_id) *
+      constant_data->local_pose);
   const NodeId node_id = data_.trajectory_nodes.Append(
       trajectory_id, TrajectoryNode{constant_data, optimized_pose});
   ++data_.num_trajectory_nodes;
@@ -155,11 +160,8 @@ NodeId PoseGraph2D::AddNode(
     std::shared_ptr<const TrajectoryNode::Data> constant_data,
     const int trajectory_id,
     const std::vector<std::shared_ptr<const Submap2D>>& insertion_submaps) {
-  const transform::Rigid3d optimized_pose(
-      GetLocalToGlobalTransform(trajectory_id) * constant_data->local_pose);
-
-  const NodeId node_id = AppendNode(constant_data, trajectory_id,
-                                    insertion_submaps, optimized_pose);
+  const NodeId node_id =
+      AppendNode(constant_data, trajectory_id, insertion_submaps);
   // We have to check this here, because it might have changed by the time we
   // execute the lambda.
   const bool newly_finished_submap =
diff --git a/cartographer/mapping/internal/2d/pose_graph_2d.h b/cartographer/mapping/internal/2d/pose_graph_2d.h
index 4f99bf1..04f6aeb 100644
--- a/cartographer/mapping/internal/2d/pose_graph_2d.h
+++ b/cartographer/mapping/internal/2d/pose_graph_2d.h
@@ -176,8 +176,8 @@ class PoseGraph2D : public PoseGraph {
   NodeId AppendNode(
       std::shared_ptr<const TrajectoryNode::Data> constant_data,
       int trajectory_id,
-      const std::vector<std::shared_ptr<const Submap2D>>& insertion_submaps,
-      const transform::Rigid3d& optimized_pose) LOCKS_EXCLUDED(mutex_);
+      const std::vector<std::shared_ptr<const Submap2D>>& insertion_submaps)
+      LOCKS_EXCLUDED(mutex_);
 
   // Grows the optimization problem to have an entry for every element of
   // 'insertion_submaps'. Returns the IDs for the 'insertion_submaps'.
diff --git a/cartographer/mapping/internal/3d/pose_graph_3d.cc b/cartographer/mapping/internal/3d/pose_graph_3d.cc
index 3d71021..6a201f7 100644
--- a/cartographer/mapping/internal/3d/pose_graph_3d.cc
+++ b/cartographer/mapping/internal/3d/pose_graph_3d.cc
@@ -114,13 +114,18 @@ std::vector<SubmapId> PoseGraph3D::InitializeGlobalSubmapPoses(
 NodeId PoseGraph3D::AppendNode(
     std::shared_ptr<const TrajectoryNode::Data> constant_data,
     const int trajectory_id,
-    const std::vector<std::shared_ptr<const Submap3D>>& insertion_submaps,
-    const transform::Rigid3d& optimized_pose) {
+    const std::vector<std::shared_ptr<const Submap3D>>& insertion_submaps) {
   absl::MutexLock locker(&mutex_);
   AddTrajectoryIfNeeded(trajectory_id);
   if (!CanAddWorkItemModifying(trajectory_id)) {
     LOG(WARNING) << "AddNode was called for finished or deleted trajectory.";
   }
+  // The pose has to be computed under the same lock under which the node is
+  // added, otherwise an optimization in between would not update it.
+  const transform::Rigid3d optimized_pose(
+      ComputeLocalToGlobalTransform(data_.global_submap_poses_3d,
+                                    trajectory_id) *
+      constant_data->local_pose);
   const NodeId node_id = data_.trajectory_nodes.Append(
       trajectory_id, TrajectoryNode{constant_data, optimized_pose});
   ++data_.num_trajectory_nodes;
@@ -143,11 +148,8 @@ NodeId PoseGraph3D::AddNode(
     std::shared_ptr<const TrajectoryNode::Data> constant_data,
     const int trajectory_id,
     const std::vector<std::shared_ptr<const Submap3D>>& insertion_submaps) {
-  const transform::Rigid3d optimized_pose(
-      GetLocalToGlobalTransform(trajectory_id) * constant_data->local_pose);
-
-  const NodeId node_id = AppendNode(constant_data, trajectory_id,
-                                    insertion_submaps, optimized_pose);
+  const NodeId node_id =
+      AppendNode(constant_data, trajectory_id, insertion_submaps);
   // We have to check this here, because it might have changed by the time we
   // execute the lambda.
   const bool newly_finished_submap =
diff --git a/cartographer/mapping/internal/3d/pose_graph_3d.h b/cartographer/mapping/internal/3d/pose_graph_3d.h
index e28a58f..4aaaab0 100644
--- a/cartographer/mapping/internal/3d/pose_graph_3d.h
+++ b/cartographer/mapping/internal/3d/pose_graph_3d.h
@@ -179,8 +179,8 @@ class PoseGraph3D : public PoseGraph {
   NodeId AppendNode(
       std::shared_ptr<const TrajectoryNode::Data> constant_data,
       int trajectory_id,
-      const std::vector<std::shared_ptr<const Submap3D>>& insertion_submaps,
-      const transform::Rigid3d& optimized_pose) LOCKS_EXCLUDED(mutex_);
+      const std::vector<std::shared_ptr<const Submap3D>>& insertion_submaps)
+      LOCKS_EXCLUDED(mutex_);
 
   // Grows the optimization problem to have an entry for every element of
   // 'insertion_submaps'. Returns the IDs for the 'insertion_submaps'.
-- 
2.43.0

