"""The properties, and how each is checked.

This is the single source for properties.jsonl and MANIFEST.json (written by
mkmanifest.py).  Fields: id, title, statement, over, quant, why, files, mech,
tech (technique), note (level note).
"""
P = []


def prop(id, title, statement, over, quant, why, files, mech, tech, note,
         level="exploration"):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over,
                  quant=quant, why=why, files=files, mech=mech, tech=tech,
                  note=note, level=level))


prop("C01", "Thread pool runs each task exactly once, after all its dependencies",
     "Every task handed to a thread pool is executed exactly once, on a pool thread, and only after every task it depends on has finished executing (with the dependencies' effects visible to it), no matter in which order tasks and dependencies are scheduled, whether dependencies finish before or after they are registered, whether a dependency object has already been destroyed, and from how many threads scheduling happens. Scheduling a task whose dependencies are all complete never stalls: with tasks forming an acyclic graph all of them complete, and destroying the pool waits for the queued tasks instead of dropping them. Background tasks run without data races, deadlock or use of freed memory.",
     ["schedules", "inputs"],
     "all acyclic dependency graphs, scheduling orders, numbers of worker and scheduling threads, and thread interleavings",
     "thread_pool_test and task_test run a handful of fixed graphs with one scheduling thread; the state machine races only under particular interleavings.",
     ["cartographer/common/task.cc", "cartographer/common/thread_pool.cc"],
     [("Task state machine NEW/DISPATCHED/DEPENDENCIES_COMPLETED/RUNNING/COMPLETED", "cartographer/common/task.cc"),
      ("tasks_not_ready_ / task_queue_ hand-over under mutex", "cartographer/common/thread_pool.cc")],
     "online happens-before monitor over task begin/end events under TSan and ASan+UBSan with injected lock delays",
     "Held on the generated graphs and the interleavings the scheduler and the injected delays produced; liveness is bounded progress under a watchdog.")

prop("C02", "Blocking queue is a bounded FIFO that loses and duplicates nothing",
     "The blocking queue between threads delivers every pushed element exactly once, in an order consistent with a sequential first-in-first-out queue (each operation taking effect between its call and its return), and never holds more elements than its capacity. Timed operations fail only after their timeout has passed and only if the queue was full (push) or empty (pop) at some moment during the call, and then leave it unchanged; peeking never consumes; waiting for emptiness returns only when the queue has been empty during the call.",
     ["schedules", "histories"],
     "all interleavings of pushes, pops, timed operations and peeks by any number of threads, for any capacity",
     "blocking_queue_test uses one or two threads and a fixed order of operations; linearizability quantifies over all interleavings.",
     ["cartographer/common/internal/blocking_queue.h"],
     [("conditions QueueNotFull/QueueNotEmpty awaited under one mutex", "cartographer/common/internal/blocking_queue.h")],
     "recorded call/return histories checked against a sequential FIFO model (linearizability search) under TSan",
     "Held on the recorded histories; short histories with few threads are checked exhaustively for a linearization.")

prop("C03", "Sensor streams are merged in time order, nothing lost or repeated",
     "For every trajectory, the data of all its sensors is released in non-decreasing time order, keeping each sensor's own order, each message at most once, and (once the trajectory is finished or the collator flushed) every message exactly once, except that data older than the first moment at which all sensors of the trajectory have data is dropped, keeping one message per sensor at or before that moment. A message is only released when every other unfinished sensor that could still deliver an earlier one has data pending, so the merged order never depends on arrival interleaving between sensors. Finishing or adding one trajectory never loses or reorders data of another, and with per-trajectory collation one trajectory's missing sensor never blocks another.",
     ["inputs", "histories"],
     "all sets of trajectories and sensors, message timings (including equal timestamps and silent sensors) and arrival interleavings",
     "ordered_multi_queue_test and collator_test check a few fixed sequences; loss or misordering needs specific arrival patterns.",
     ["cartographer/sensor/internal/ordered_multi_queue.cc", "cartographer/sensor/internal/collator.cc", "cartographer/sensor/internal/trajectory_collator.cc"],
     [("next-queue selection and common start time", "cartographer/sensor/internal/ordered_multi_queue.cc")],
     "reference merge model and ordering/conservation monitors on release callbacks, randomized arrival interleavings, ASan+UBSan",
     "Held on the generated arrival histories.")

prop("C04", "Range data synchronization keeps every point and its absolute time",
     "When scans of several range sensors are combined, every input point is emitted exactly once (unless its scan had to be dropped because it is older than what was already emitted), with its absolute measurement time, its sensor's origin, its position and its intensity unchanged. The points of each combined scan are sorted by time, lie inside that scan's time interval, and successive combined scans cover consecutive, non-overlapping intervals.",
     ["inputs", "histories"],
     "all numbers of sensors, scan durations, overlaps, point timings and intensities, including sensors that fall silent",
     "range_data_collator_test covers a few hand-made sequences; splitting and carrying over partial scans depends on arbitrary overlaps.",
     ["cartographer/mapping/internal/range_data_collator.cc"],
     [("CropAndMerge over pending scans", "cartographer/mapping/internal/range_data_collator.cc")],
     "conservation/time-stamp monitor with uniquely tagged points, ASan+UBSan",
     "Held on the generated multi-sensor histories.")

prop("C05", "Voxel filtering returns one input point per occupied voxel",
     "Voxel filtering a point cloud (also timed points and range measurements) returns a subset of the input points, unmodified, in their original order and without duplicates, containing exactly one point for every voxel of the given edge length (voxels are centred on multiples of the edge length) that the input occupies; intensities stay attached to their points. The adaptive filter additionally drops only points beyond its maximum range and returns everything in range if that is no more than the requested minimum number of points, and otherwise yields at least that minimum whenever some voxel size between one hundredth of the maximum and the maximum gives that many, using the coarsest such size to within ten percent.",
     ["inputs", "configurations"],
     "all point clouds (any size, extent, sign, duplicates, with and without intensities) and resolutions and adaptive settings",
     "voxel_filter_test filters a few points; collisions in the voxel key and the adaptive search only show on specific geometry.",
     ["cartographer/sensor/internal/voxel_filter.cc"],
     [("hash key per voxel with reservoir sampling", "cartographer/sensor/internal/voxel_filter.cc")],
     "reference voxel partition checked on every filter result over randomized clouds, ASan+UBSan",
     "Held on the generated clouds.")

prop("C06", "Compressed point clouds keep all points within half a millimetre",
     "Compressing a point cloud and decompressing it yields the same number of points, each within the quantization error (half a millimetre per axis, plus float rounding) of its own original, and compressing an already decompressed cloud or storing and reloading the compressed form loses nothing further. Iteration visits each stored point exactly once.",
     ["inputs"],
     "all point clouds with coordinates in the supported range, any sign, any number of blocks, including duplicates and block borders",
     "compressed_point_cloud_test compresses a few fixed points; block and bit packing errors need specific coordinates.",
     ["cartographer/sensor/compressed_point_cloud.cc"],
     [("block/raster decomposition and 10-bit packing", "cartographer/sensor/compressed_point_cloud.cc")],
     "round-trip matching oracle over randomized and border-case clouds, ASan+UBSan",
     "Held on the generated clouds.")

prop("C07", "Poses, time stamps and interpolated transforms are consistent",
     "Rigid transforms form a group acting on points: composition is associative and agrees with applying the transforms one after the other, the inverse undoes the transform, and conversions (2D projection/embedding, yaw, angle-axis, message form) preserve the pose up to rounding. Time stamps convert to and from universal-time ticks and serialized form without loss. A transform history returns exactly the recorded pose at recorded times, refuses times outside its span, interpolates between the two neighbouring records in between, and keeps only its newest entries when bounded.",
     ["inputs", "histories"],
     "all poses and times in the supported range, and all recorded histories and size limits",
     "transform_test and transform_interpolation_buffer_test check a few fixed values.",
     ["cartographer/transform/rigid_transform.h", "cartographer/transform/transform.h", "cartographer/transform/transform.cc", "cartographer/transform/transform_interpolation_buffer.cc", "cartographer/transform/timestamped_transform.cc", "cartographer/common/time.cc"],
     [("Rigid2/Rigid3 operators", "cartographer/transform/rigid_transform.h"), ("Lookup with lower_bound", "cartographer/transform/transform_interpolation_buffer.cc")],
     "algebraic-law and reference-model monitors over randomized poses and histories, ASan+UBSan",
     "Held on the generated poses and histories.")

prop("C08", "Per-trajectory containers agree with an ordered map at all times",
     "The containers holding nodes, submaps and time-stamped sensor data per trajectory behave like an ordered map under any sequence of insert, append, trim, lookup, iteration and trimming: iteration yields every live element exactly once in order, in both directions, per trajectory and overall; appended elements get the index after the trajectory's last one, and appending to a trajectory whose newest element was removed (or that was filled by explicit index) is refused; and time-based searches return the first element not before the given time. Interpolation-safe trimming of time-stamped data never removes data between the remaining nodes.",
     ["histories"],
     "all operation sequences on any number of trajectories, including removing first, middle and last elements and whole trajectories",
     "id_test and map_by_time_test exercise short fixed sequences.",
     ["cartographer/mapping/id.h", "cartographer/sensor/map_by_time.h"],
     [("MapById with per-trajectory ordered maps", "cartographer/mapping/id.h"), ("MapByTime::Trim", "cartographer/sensor/map_by_time.h")],
     "differential monitor against a reference model over random operation histories, ASan+UBSan",
     "Held on the generated histories.")

prop("C09", "A scan updates each 2D cell at most once; hits win over misses",
     "Inserting a scan into a 2D occupancy grid changes each cell at most once: a cell containing at least one return gets exactly one hit update, any other cell crossed by a ray (from the origin to a return, or along a miss ray when free space is inserted) exactly one miss update, and no other cell changes. Updates multiply the cell's odds by the configured hit or miss odds, clamped to the allowed probability range, and a cell that was observed is known from then on. The grid grows as needed so no return or ray is lost.",
     ["inputs", "configurations"],
     "all scans (any number of returns and misses, several returns per cell, rays along borders and axes, origins outside the grid) and insertion settings",
     "range_data_inserter_2d_test inserts a few scans and checks a few cells; ray casting and once-only marking matter on arbitrary geometry.",
     ["cartographer/mapping/2d/probability_grid_range_data_inserter_2d.cc", "cartographer/mapping/internal/2d/ray_to_pixel_mask.cc", "cartographer/mapping/2d/probability_grid.cc", "cartographer/mapping/probability_values.cc", "cartographer/mapping/2d/grid_2d.cc"],
     [("update marker bit and lookup tables", "cartographer/mapping/2d/probability_grid.cc"), ("superscaled ray casting", "cartographer/mapping/internal/2d/ray_to_pixel_mask.cc")],
     "independent exact-geometry reference of every insertion compared cell by cell, ASan+UBSan",
     "Held on the generated scans; cells a ray touches only at a corner or within rounding are accepted either way.")

prop("C10", "2D grids keep every cell's value when grown, cropped or stored",
     "Growing a 2D grid (probability or signed-distance) keeps every known cell's value at its world position and adds only unknown cells; cropping to the known area keeps all known cells; writing a grid to its stored form and reading it back reproduces the same limits, resolution, known area and cell values. Conversion between cell indices and world coordinates is consistent: a cell's center maps back to the cell.",
     ["inputs", "histories"],
     "all sequences of growth, update, crop and save/load, for any known area, resolution and point far outside the grid in any direction",
     "probability_grid_test and tsdf_2d_test use one small grid each.",
     ["cartographer/mapping/2d/grid_2d.cc", "cartographer/mapping/2d/probability_grid.cc", "cartographer/mapping/internal/2d/tsdf_2d.cc", "cartographer/mapping/2d/map_limits.h", "cartographer/mapping/internal/2d/tsd_value_converter.cc"],
     [("GrowLimits offset copy; ComputeCroppedLimits; ToProto", "cartographer/mapping/2d/grid_2d.cc")],
     "shadow map keyed by world position compared after every operation, ASan+UBSan",
     "Held on the generated histories.")

prop("C11", "Signed-distance cells hold bounded, correctly signed distances",
     "Inserting a scan into a 2D truncated signed-distance map leaves every cell's distance within the truncation distance and its weight within the maximum weight. Per scan a cell changes at most once, and only if a return's ray crosses it within the truncation distance of the return (or, with free-space update, anywhere from the sensor to that distance behind the return); every cell so crossed is updated. The update is the weighted average of the old distance and the signed distance of the cell center to the return along the ray (or along the scan normal when so configured), truncated, positive in front of the surface and negative behind it, with the configured range, angle and distance weighting; weights add up to the maximum weight. The map grows so that no ray is lost, also for returns at a different height than the sensor.",
     ["inputs", "configurations"],
     "all scans and settings of truncation distance, weighting and free-space insertion",
     "tsdf_range_data_inserter_2d_test checks a few cells for axis-aligned rays.",
     ["cartographer/mapping/internal/2d/tsdf_range_data_inserter_2d.cc", "cartographer/mapping/internal/2d/tsdf_2d.cc", "cartographer/mapping/internal/2d/tsd_value_converter.cc"],
     [("UpdateCell weighted average", "cartographer/mapping/internal/2d/tsdf_range_data_inserter_2d.cc")],
     "reference weighted-average model compared cell by cell after every insertion, ASan+UBSan",
     "Held on the generated scans.")

prop("C12", "3D grids store per-cell values exactly and scans update cells once",
     "A 3D grid returns, for every cell index in its addressable range, the last value stored there and unknown otherwise, however it grows; iteration visits exactly the stored cells once each, and saving and loading preserves all of them. Inserting a scan gives each voxel containing a return exactly one hit update and, of the other voxels, exactly one miss update to those among the last free-space samples before a return (the configured number of samples nearest the return, of the samples that divide the line from the sensor's voxel to the return's voxel into as many steps as its longest axis has voxels), and leaves all others unchanged; hit and miss updates multiply the odds by the configured factors within the allowed probability range; intensities recorded per voxel are the average of the returns' intensities not above the threshold.",
     ["inputs", "histories"],
     "all cell indices in range (any sign and octant), operation histories and scans",
     "hybrid_grid_test samples a small region and range_data_inserter_3d_test a few points.",
     ["cartographer/mapping/3d/hybrid_grid.h", "cartographer/mapping/3d/range_data_inserter_3d.cc"],
     [("FlatGrid/NestedGrid/DynamicGrid", "cartographer/mapping/3d/hybrid_grid.h"), ("update marker bit", "cartographer/mapping/3d/hybrid_grid.h")],
     "reference sparse map compared after random histories; reference ray model per scan; ASan+UBSan",
     "Held on the generated histories and scans.")

prop("C13", "Active submaps hand over on schedule; finished submaps never change",
     "At any time at most two submaps are active; every scan is inserted into all active ones, a new one starts after every configured number of scans, and a submap is finished after receiving exactly twice that number. A submap's pose is the origin of the scan that started it (3D: with the given gravity-aligned orientation), and its cells are those of inserting its scans one after the other (3D: the fine grid from the returns within the high-resolution range, the coarse grid from all, and the rotational histogram the sum of the scans' histograms turned into the submap frame). A finished submap's content never changes again, and storing and reloading a submap (2D or 3D) reproduces its pose, scan count, finished flag and cell contents.",
     ["histories", "configurations", "inputs"],
     "all scan sequences and submap sizes, 2D probability and signed-distance grids and 3D grids",
     "submap_2d_test and submap_3d_test insert constant scans with one size.",
     ["cartographer/mapping/2d/submap_2d.cc", "cartographer/mapping/3d/submap_3d.cc"],
     [("ActiveSubmaps InsertRangeData/AddSubmap/FinishSubmap", "cartographer/mapping/2d/submap_2d.cc")],
     "lifecycle monitor on the active-submap list plus content digests of finished submaps, ASan+UBSan",
     "Held on the generated scan sequences.")

prop("C14", "2D loop-closure matching finds the best pose in its search window",
     "Branch-and-bound matching of a scan against a 2D submap reports a match exactly when some candidate pose on its search lattice scores above the minimum score, and then returns a pose whose score is the maximum over the whole lattice (window or full submap) and is the score it reports, a pose's score being the mean over the scan's points of the occupancy of the cell each falls into (at the grid's precision of 255 steps, points off the map counting as least occupied). Precomputed lower-resolution grids are upper bounds of the cells they cover, so no better candidate is ever pruned.",
     ["inputs", "configurations"],
     "all submap contents, scans, initial poses, search windows and branch-and-bound depths",
     "fast_correlative_scan_matcher_2d_test matches six points at random offsets and only checks the correct pose is found.",
     ["cartographer/mapping/internal/2d/scan_matching/fast_correlative_scan_matcher_2d.cc", "cartographer/mapping/internal/2d/scan_matching/correlative_scan_matcher_2d.cc"],
     [("PrecomputationGrid2D sliding maximum", "cartographer/mapping/internal/2d/scan_matching/fast_correlative_scan_matcher_2d.cc"), ("BranchAndBound pruning", "cartographer/mapping/internal/2d/scan_matching/fast_correlative_scan_matcher_2d.cc")],
     "brute-force search oracle over the full lattice compared with every match, ASan+UBSan",
     "Held on the generated submaps, scans and windows.")

prop("C15", "3D loop-closure matching returns an acceptable, best-scoring pose",
     "Branch-and-bound matching of a scan against a 3D submap only returns poses inside the search window whose score exceeds the minimum score and whose rotational and low-resolution scores reach their minima, and reports no match only if no candidate qualifies. The reported score, rotational score and low-resolution score are those of the returned pose, and no admissible candidate scores higher; precomputed coarse grids never underestimate the cells they cover.",
     ["inputs", "configurations"],
     "all submap contents, scans, initial poses, search windows and depths",
     "fast_correlative_scan_matcher_3d_test matches one synthetic cloud at a few offsets.",
     ["cartographer/mapping/internal/3d/scan_matching/fast_correlative_scan_matcher_3d.cc", "cartographer/mapping/internal/3d/scan_matching/precomputation_grid_3d.cc", "cartographer/mapping/internal/3d/scan_matching/rotational_scan_matcher.cc"],
     [("PrecomputeGrid maxima", "cartographer/mapping/internal/3d/scan_matching/precomputation_grid_3d.cc"), ("BranchAndBound", "cartographer/mapping/internal/3d/scan_matching/fast_correlative_scan_matcher_3d.cc")],
     "brute-force oracle over the lattice and window monitors, ASan+UBSan",
     "Held on the generated submaps and scans.")

prop("C16", "Local scan matching never returns a worse pose than it was given",
     "Real-time correlative matching (2D and 3D) returns a pose inside its search window whose score is the best over its lattice, and reports that score: the mean occupancy of the cells the points fall into (for signed-distance maps the weighted closeness to the surface), times a factor falling with the weighted distance and angle from the initial pose. Non-linear refinement (2D probability and signed-distance, 3D) returns a finite pose whose cost - occupied space missed plus weighted squared deviation in translation and rotation - is not larger than the cost of the initial pose; with yaw-only refinement the direction of gravity is kept.",
     ["inputs", "configurations"],
     "all grids, scans, initial poses, search windows and weights",
     "The matcher tests use one small grid and check convergence from a few offsets.",
     ["cartographer/mapping/internal/2d/scan_matching/real_time_correlative_scan_matcher_2d.cc", "cartographer/mapping/internal/3d/scan_matching/real_time_correlative_scan_matcher_3d.cc", "cartographer/mapping/internal/2d/scan_matching/ceres_scan_matcher_2d.cc", "cartographer/mapping/internal/3d/scan_matching/ceres_scan_matcher_3d.cc"],
     [("exhaustive candidate scoring", "cartographer/mapping/internal/2d/scan_matching/real_time_correlative_scan_matcher_2d.cc")],
     "brute-force oracle per match and cost-decrease monitor, ASan+UBSan",
     "Held on the generated grids and scans.")

prop("C17", "Pose extrapolation honours the newest pose and constant motion",
     "After a pose is reported for a time, extrapolating to that time returns it, also if that time had been extrapolated before. Extrapolating forward adds to the newest pose the linear velocity estimated from the reported poses over the configured duration (or from odometry, turned into the direction of travel) and the rotation since that pose measured by inertial data (or implied by odometry, else by the poses), so constant motion is continued exactly, independently of which earlier queries were made. Orientation tracking keeps a unit orientation, follows the angular velocity, is aligned with the exponentially averaged acceleration and so with gravity when nothing else is felt. The optimizing extrapolator also returns the newest pose and continues constant motion.",
     ["inputs", "histories"],
     "all interleavings of poses, inertial and odometry data and queries with non-decreasing times",
     "pose_extrapolator_test and imu_tracker_test use a few fixed sequences.",
     ["cartographer/mapping/pose_extrapolator.cc", "cartographer/mapping/imu_tracker.cc"],
     [("cached extrapolation; IMU/odometry trackers", "cartographer/mapping/pose_extrapolator.cc")],
     "kinematic reference model monitors over random sensor histories, ASan+UBSan",
     "Held on the generated histories.")

prop("C18", "Local SLAM produces ordered, gated, consistent results",
     "For any scan, inertial and odometry stream, local SLAM returns results with non-decreasing times whose range data is the scan expressed in the local map frame at the returned pose; scans that did not move or turn or wait more than the configured thresholds since the last inserted one are not inserted, and all others are inserted into the active submaps. All poses are finite and the estimated path of a sensor moving in a static structured environment stays close to the true path (in 2D: of a sensor with odometry).",
     ["inputs", "histories", "configurations"],
     "all sensor streams and motion-filter settings, 2D and 3D",
     "The local trajectory builders' tests transform a few points and motion_filter_test a few poses; whole streams are not run.",
     ["cartographer/mapping/internal/2d/local_trajectory_builder_2d.cc", "cartographer/mapping/internal/3d/local_trajectory_builder_3d.cc", "cartographer/mapping/internal/motion_filter.cc"],
     [("AddRangeData/AddAccumulatedRangeData", "cartographer/mapping/internal/2d/local_trajectory_builder_2d.cc"), ("MotionFilter", "cartographer/mapping/internal/motion_filter.cc")],
     "simulated worlds with ground truth; result-stream monitors; ASan+UBSan",
     "Held on the simulated runs.")

prop("C19", "The pose graph stays structurally consistent under any schedule",
     "At every quiescent point of a mapping run every accepted scan has exactly one node with an optimized pose, nodes of a trajectory are consecutive in time, each submap's member nodes are exactly those of its within-submap constraints, every constraint refers to a live submap and node, and no constraint is duplicated. Within-submap constraints carry the exact local relative pose; constraints between trajectories and loop closures never connect a node with a submap it was inserted into. Nodes that no optimization covered yet are placed, at any time, by the newest optimized submap of their trajectory; the final optimization takes every constraint found into account.",
     ["schedules", "histories", "configurations"],
     "all sensor streams, numbers of trajectories, background thread counts and interleavings of foreground calls, 2D and 3D",
     "The pose graph cannot even be linked in the stock build here; upstream's test runs one tiny single-threaded trajectory.",
     ["cartographer/mapping/internal/2d/pose_graph_2d.cc", "cartographer/mapping/internal/3d/pose_graph_3d.cc", "cartographer/mapping/internal/constraints/constraint_builder_2d.cc", "cartographer/mapping/internal/constraints/constraint_builder_3d.cc"],
     [("work queue and data_ guarded by one mutex", "cartographer/mapping/internal/2d/pose_graph_2d.cc")],
     "full engine on simulated worlds; structural invariant monitor on public snapshots; ASan+UBSan",
     "Held on the simulated runs and schedules.")

prop("C20", "Background graph work is done exactly once and reaches quiescence",
     "Every node added to the graph is eventually processed exactly once, in order of addition, and a final optimization runs to completion and returns only when all queued work, pending constraint searches and optimizations are done, for any number of background threads and any timing. Each submitted candidate match is evaluated exactly once, its callback fires exactly once after all results before it are in, and it delivers exactly the accepted matches.",
     ["schedules", "histories"],
     "all interleavings of adding nodes, notifying end of node, waiting and background execution",
     "constraint_builder tests use a mock-like single match; the pose graph tests do not run in this build; hangs need specific interleavings.",
     ["cartographer/mapping/internal/constraints/constraint_builder_2d.cc", "cartographer/mapping/internal/constraints/constraint_builder_3d.cc", "cartographer/mapping/internal/2d/pose_graph_2d.cc", "cartographer/mapping/internal/3d/pose_graph_3d.cc", "cartographer/mapping/internal/work_queue.h"],
     [("finish_node_task_/when_done_task_ chaining", "cartographer/mapping/internal/constraints/constraint_builder_2d.cc"), ("DrainWorkQueue / HandleWorkQueue", "cartographer/mapping/internal/2d/pose_graph_2d.cc")],
     "exactly-once and quiescence monitors on the real constraint builder and pose graph with injected delays, ASan+UBSan and TSan",
     "Held on the executions produced; liveness is bounded progress under a watchdog.")

prop("C21", "No data race or memory error anywhere in a concurrent mapping run",
     "While sensor data is being added and optimized in the background, map queries (submaps, nodes, poses, constraints, landmarks, trajectory states, submap textures) may be issued from other threads at any time: there is no data race, no deadlock, no use of freed memory, and every snapshot returned is internally consistent. The same holds when the map builder is destroyed while background work is pending.",
     ["schedules"],
     "all interleavings of foreground data, background work and concurrent readers, 2D and 3D",
     "No existing test runs the pose graph with several threads, and none uses a race detector.",
     ["cartographer/mapping/internal/2d/pose_graph_2d.cc", "cartographer/mapping/internal/3d/pose_graph_3d.cc", "cartographer/mapping/map_builder.cc", "cartographer/common/thread_pool.cc"],
     [("GUARDED_BY annotations; mutex_ in pose graph", "cartographer/mapping/internal/2d/pose_graph_2d.h")],
     "ThreadSanitizer and ASan over the whole engine with reader threads and lock-delay injection",
     "Held on the executions produced; absl mutexes are replaced by pthread ones so the race detector sees the locking.")

prop("C22", "Trimming, deleting and freezing keep the map consistent",
     "Trimming submaps (for pure localization or overlap) or deleting a trajectory removes exactly the chosen submaps, the constraints touching them and the nodes that no remaining submap contains, and nothing else; no remaining constraint or node refers to something removed, and queries and further mapping work afterwards. A pure-localization trajectory keeps at most the configured number of submaps at quiescence, and a frozen trajectory never gains nodes and its poses never change.",
     ["histories", "schedules", "configurations"],
     "all sequences of mapping, trimming, deletion and freezing, any number of trajectories and threads",
     "pose_graph_trimmer_test uses a fake graph; overlapping trimmer tests cover a few layouts.",
     ["cartographer/mapping/pose_graph_trimmer.cc", "cartographer/mapping/internal/2d/overlapping_submaps_trimmer_2d.cc", "cartographer/mapping/internal/2d/pose_graph_2d.cc", "cartographer/mapping/internal/3d/pose_graph_3d.cc"],
     [("TrimmingHandle::TrimSubmap", "cartographer/mapping/internal/2d/pose_graph_2d.cc")],
     "before/after graph diff monitor around every trim and deletion on simulated runs, ASan+UBSan",
     "Held on the simulated runs.")

prop("C23", "Global optimization converges and respects fixed and frozen poses",
     "Optimizing a graph whose constraints are consistent with some configuration of poses recovers that configuration up to a rigid motion, keeps the poses of frozen trajectories (and the fixed reference) unchanged, never increases the total constraint error, and leaves all poses finite. Removing a node or submap from the problem removes its influence; landmarks, odometry and fixed-frame poses pull the solution towards their observations.",
     ["inputs", "configurations"],
     "all graph topologies, consistent and noisy constraints, frozen sets and landmark observations, 2D and 3D",
     "optimization_problem_3d_test uses one random graph and does not build here; 2D has none.",
     ["cartographer/mapping/internal/optimization/optimization_problem_2d.cc", "cartographer/mapping/internal/optimization/optimization_problem_3d.cc", "cartographer/mapping/internal/optimization/cost_functions"],
     [("Solve with constant parameter blocks", "cartographer/mapping/internal/optimization/optimization_problem_2d.cc")],
     "synthetic graphs with known solution; cost and frozen-pose monitors, ASan+UBSan",
     "Held on the generated graphs; convergence tolerance fixed in the harness.")

prop("C24", "Trajectory connectivity equals graph reachability at all times",
     "Two trajectories are reported connected exactly when a chain of recorded connections joins them, every trajectory ever added appears in exactly one component, connection counts equal the number of times a pair was connected in either order, and the last connection time reported for a pair is the newest among the connection that first joined their components and all later direct connections between the two. Results do not depend on the order of the queries.",
     ["histories"],
     "all sequences of adding trajectories, connecting and querying",
     "connected_components_test and trajectory_connectivity_state_test check short fixed sequences.",
     ["cartographer/mapping/internal/connected_components.cc", "cartographer/mapping/internal/trajectory_connectivity_state.cc"],
     [("union-find forest with connection map", "cartographer/mapping/internal/connected_components.cc"), ("last_connection_time_map_", "cartographer/mapping/internal/trajectory_connectivity_state.cc")],
     "differential monitor against a graph-search model over random histories, TSan and ASan",
     "Held on the generated histories.")

prop("C25", "A saved map loads back as the same map",
     "Saving the mapping state and loading it into a fresh instance reproduces all submaps, nodes, scan data, constraints, landmark poses, trajectory settings and sensor data of the saved trajectories, under the identity remapping or, when loaded into an instance that already has trajectories, under the returned remapping; loading as frozen state makes every loaded trajectory and landmark frozen and takes over submaps and nodes (not constraints and sensor data). Saving again after loading yields an equivalent file.",
     ["histories", "configurations"],
     "all mapping histories (several trajectories, deleted, finished, frozen, unfinished submaps in or out), 2D and 3D",
     "map_builder_test does not build here; serialization tests check tiny hand-made protos.",
     ["cartographer/io/internal/mapping_state_serialization.cc", "cartographer/mapping/map_builder.cc", "cartographer/mapping/pose_graph.cc", "cartographer/io/proto_stream_deserializer.cc", "cartographer/mapping/trajectory_node.cc"],
     [("WritePbStream / LoadState", "cartographer/mapping/map_builder.cc")],
     "semantic comparison of saved/loaded/resaved state on simulated runs, ASan+UBSan",
     "Held on the simulated histories.")

prop("C26", "Record stream files return exactly the records written",
     "A record stream file read back yields exactly the written messages in order and then end of file. If the file was truncated or its header damaged at any byte, reading yields only an exact prefix of the written messages before it reports the end or an error, never an altered message from a truncated record and never a crash or out-of-bounds access. A failed write (full disk, unwritable path) is reported when the file is closed, and a state file whose leading parts are missing or out of order is refused.",
     ["inputs", "crash_points"],
     "all message sequences (empty, tiny and large messages) and every truncation point",
     "proto_stream_test writes and reads ten small messages once and never truncates.",
     ["cartographer/io/proto_stream.cc", "cartographer/common/port.h", "cartographer/io/internal/in_memory_proto_stream.cc"],
     [("magic, size prefix and gzip per record", "cartographer/io/proto_stream.cc")],
     "fault enumeration of truncation points with a prefix oracle, ASan+UBSan",
     "Every truncation point of the generated files was tried in the thorough tier; a sample in quick.",
     level="fault_enumeration")

prop("C27", "Sensor and graph data survive conversion to and from messages",
     "Converting inertial, odometry, landmark, fixed-frame, range, timed point cloud, trajectory node, submap, constraint and options data to message form and back reproduces every field (to the precision of the message type), including optional fields that are absent. Transforming range data moves origin and every point by the given pose, keeps intensities and order, and cropping keeps exactly the points inside the band.",
     ["inputs"],
     "all field values and sizes, including empty and absent parts",
     "The conversion tests check one or two fixed values each.",
     ["cartographer/sensor/range_data.cc", "cartographer/sensor/point_cloud.cc", "cartographer/sensor/imu_data.cc", "cartographer/sensor/odometry_data.cc", "cartographer/sensor/landmark_data.cc", "cartographer/sensor/fixed_frame_pose_data.cc", "cartographer/sensor/timed_point_cloud_data.cc", "cartographer/mapping/trajectory_node.cc"],
     [("ToProto/FromProto pairs", "cartographer/sensor/*.cc")],
     "field-by-field round-trip oracle over randomized data, ASan+UBSan",
     "Held on the generated data.")

prop("C28", "Point processing stages pass on exactly the points they should",
     "In an offline processing pipeline every stage forwards to the next exactly the batches and points its definition selects (range, vertical, frame, sampling and outlier filters; coloring), in order, with per-point position, intensity, color and meta data still belonging together; stages that only record forward everything unchanged. When a stage asks for another pass all stages before it see the data again, and flushing reaches every stage.",
     ["inputs", "configurations"],
     "all batches, pipelines and stage settings",
     "Only counting, fixed-ratio, color and xray have small tests.",
     ["cartographer/io/points_batch.cc", "cartographer/io/*_points_processor.cc", "cartographer/io/points_processor_pipeline_builder.cc"],
     [("RemovePoints", "cartographer/io/points_batch.cc"), ("Process/Flush chain", "cartographer/io/points_processor_pipeline_builder.cc")],
     "uniquely tagged points and reference selection per stage, ASan+UBSan",
     "Held on the generated batches and pipelines.")

prop("C29", "Exported point files are well formed and contain every point",
     "Point cloud exports (PLY, PCD, XYZ) declare in their header exactly the number of points and the fields that follow, and contain every processed point once, in order, with its coordinates, color and intensity to the precision of the format (6 significant digits in XYZ files); nothing else follows. Batches that lack fields of the first batch are refused or written with the declared fields, never as a malformed file. Exported hybrid grids, occupancy and X-ray images have the size of the mapped area and mark each point's cell, X-ray columns darker the more voxels of them are hit. A file that could not be written is never reported as written.",
     ["inputs"],
     "all batches (any sizes, with and without color and intensity)",
     "pcd/ply tests compare one tiny file; grids and X-ray are checked only structurally.",
     ["cartographer/io/pcd_writing_points_processor.cc", "cartographer/io/ply_writing_points_processor.cc", "cartographer/io/xyz_writing_points_processor.cc", "cartographer/io/xray_points_processor.cc", "cartographer/io/probability_grid_points_processor.cc", "cartographer/io/hybrid_grid_points_processor.cc", "cartographer/io/file_writer.cc"],
     [("WriteHeader placeholder rewritten on flush", "cartographer/io/ply_writing_points_processor.cc")],
     "independent parsers of the written files compared with the input, ASan+UBSan",
     "Held on the generated exports.")

prop("C30", "Submap textures and painted maps show the submap where it is",
     "The texture returned for a submap has, for every known cell, the intensity and alpha encoding its occupancy at the pixel the returned slice pose and resolution assign to that cell, and nothing for unknown cells, and it unpacks to the declared size. A painted map of several submaps places every submap at its global pose, and its origin and size cover them all.",
     ["inputs", "configurations"],
     "all submap contents and poses, 2D probability and signed distance, 3D",
     "No existing test checks the texture contents except one TSDF/probability drawing smoke test.",
     ["cartographer/io/submap_painter.cc", "cartographer/io/image.cc", "cartographer/mapping/2d/probability_grid.cc", "cartographer/mapping/internal/2d/tsdf_2d.cc", "cartographer/mapping/3d/submap_3d.cc"],
     [("DrawToSubmapTexture / FillSubmapSlice / PaintSubmapSlices", "cartographer/io/submap_painter.cc")],
     "per-cell comparison of decoded texture and painted pixels with the grid, ASan+UBSan",
     "Held on the generated submaps.")

prop("C31", "Configuration files are read faithfully and completely",
     "Every value in a configuration dictionary is returned with its type and value; a missing, mistyped, negative where non-negative is required, or never-read key is reported instead of silently ignored; writing a dictionary out and reading it again yields the same content; arrays keep order; a dictionary that counts uses insists that each key is read exactly once; every mapping option takes the value configured under its name; included files resolve from the configured directories in order and each at most once.",
     ["inputs", "programs"],
     "all dictionaries (nesting, types, escapes) and access sequences",
     "lua_parameter_dictionary_test checks a few literals.",
     ["cartographer/common/lua_parameter_dictionary.cc", "cartographer/common/configuration_file_resolver.cc"],
     [("reference counts and CheckAllKeysWereUsed", "cartographer/common/lua_parameter_dictionary.cc")],
     "generated dictionaries against a reference tree; death cases observed in forked children; ASan+UBSan",
     "Held on the generated dictionaries.")

prop("C32", "Metrics report exactly what was recorded, also under concurrency",
     "Counters report the sum of all increments, gauges the last set value adjusted by later increments and decrements, and histograms the count of observations per bucket with correct boundaries, for every label combination separately, no matter how many threads record at once. Statistics summaries of recorded values report the true minimum, maximum, mean and per-bucket counts.",
     ["schedules", "inputs"],
     "all recording sequences and interleavings",
     "metrics tests check one value per type from one thread.",
     ["cartographer/cloud/metrics/prometheus/family_factory.cc", "cartographer/metrics/histogram.cc", "cartographer/metrics/counter.cc", "cartographer/metrics/gauge.cc", "cartographer/common/histogram.cc"],
     [("prometheus wrappers and Null objects", "cartographer/cloud/metrics/prometheus/family_factory.cc")],
     "conservation monitor comparing collected samples with recorded events, TSan and ASan",
     "Held on the recorded runs.")

prop("C33", "Ground-truth relations describe the given trajectory and nothing else",
     "Automatically generated ground-truth relations refer only to time stamps of the trajectory's nodes, each expected relative pose is the loop-closure constraint expressed between the submap's representative node (the first node of the following submap) and the constraint's node, only closed loops that cover the configured distance and agree with the optimized poses within the outlier thresholds are kept, and reading relations from text keeps all values. The reported error of a relation is the deviation of the trajectory's relative pose at the two times from the expected one.",
     ["inputs", "configurations"],
     "all pose graphs and thresholds",
     "autogenerate_ground_truth_test uses one circular trajectory.",
     ["cartographer/ground_truth/autogenerate_ground_truth.cc", "cartographer/ground_truth/relations_text_file.cc"],
     [("ComputeCoveredDistance / IdentifyIrrelevant constraints", "cartographer/ground_truth/autogenerate_ground_truth.cc")],
     "reference recomputation over generated pose graphs, ASan+UBSan",
     "Held on the generated graphs.")

prop("C34", "Fixed-ratio sampling stays within one sample of the ratio",
     "A fixed-ratio sampler with ratio r in (0, 1] accepts, after any number n of events, a number of them that differs from r times n by at most one; ratio one accepts every event. Its state never depends on anything but the events it saw.",
     ["inputs"],
     "all ratios in range and all event counts",
     "fixed_ratio_sampler_test checks a few ratios over short runs.",
     ["cartographer/common/fixed_ratio_sampler.cc"],
     [("pulse/sample counters", "cartographer/common/fixed_ratio_sampler.cc")],
     "online drift monitor over long event streams, ASan+UBSan",
     "Held on the generated streams.")

prop("C35", "Detected floors are exactly the long stays at one height",
     "For a trajectory through a building, floor detection reports one floor per height at which the robot stayed for long, lowest first, at that height, with exactly the times of all stays at it and of the short pieces (stairs) directly before or after them, each listed once and in order. For any trajectory the times are those of its nodes, start not after end, and the heights lie within it; no trajectory with at least one node makes it fail.",
     ["inputs"],
     "all trajectories: any number of floors, stays, stairs, jumps at any node",
     "There is no existing test of floor detection.",
     ["cartographer/mapping/detect_floors.cc"],
     [("SliceByAltitudeChange / FindFloors", "cartographer/mapping/detect_floors.cc")],
     "simulated buildings with known stays; invariant monitor on arbitrary trajectories, ASan+UBSan",
     "Held on the generated trajectories; heights are kept away from the thresholds (2.5 m, 1 m, 25 m).")

prop("C36", "State file tools upgrade and summarize files without loss",
     "Upgrading a 3D state file of the old format yields a file of the current format with exactly the same trajectories, settings, submaps, nodes, constraints, landmarks and sensor data (minus unfinished submaps, if so requested), in which every submap has the rotational histogram that the scans inserted into it add up to; a file already in the current format is kept as it is. Summarizing a state file reports the number of records of each kind that it contains and the nodes and submaps of each trajectory, also if it has records of a kind not known to this version.",
     ["inputs", "schedules"],
     "all saved 3D maps; all sequences of records; any timing of the background work",
     "The existing test migrates one submap without the stream; the tools have no test.",
     ["cartographer/io/serialization_format_migration.cc", "cartographer/io/internal/pbstream_migrate.cc", "cartographer/io/internal/pbstream_info.cc", "cartographer/io/pbstream_main.cc", "cartographer/io/internal/mapping_state_serialization.cc"],
     [("MigrateStreamVersion1ToVersion2", "cartographer/io/serialization_format_migration.cc")],
     "semantic comparison of maps before and after, through the library and the real tool, with lock-delay injection, ASan+UBSan",
     "Held on the simulated maps and generated files.")

prop("C37", "All sensor readings of a trajectory end up in its pose graph",
     "From the moment all of a trajectory's collated sensors have delivered, every inertial (3D), odometry (thinned by the configured motion filter), landmark and fixed-frame reading that was given to its trajectory builder is in the pose graph of that trajectory, unchanged and in order, and so are readings passed without collation; nothing is duplicated or attributed to another trajectory. A trajectory that was given an initial pose relative to another one starts there and counts as connected with it.",
     ["histories", "configurations", "schedules"],
     "all streams of readings, sensor sets, numbers of trajectories, filters and background timings, 2D and 3D",
     "The engine cannot be linked in the stock build; upstream's test checks the number of odometry entries once.",
     ["cartographer/mapping/internal/collated_trajectory_builder.cc", "cartographer/mapping/internal/global_trajectory_builder.cc", "cartographer/mapping/map_builder.cc", "cartographer/mapping/internal/2d/pose_graph_2d.cc", "cartographer/mapping/internal/3d/pose_graph_3d.cc", "cartographer/mapping/internal/motion_filter.cc"],
     [("sensor data handed to the pose graph", "cartographer/mapping/internal/global_trajectory_builder.cc"),
      ("initial trajectory poses", "cartographer/mapping/map_builder.cc")],
     "conservation monitor comparing fed readings with those in the graph after quiescence, lock-delay injection, ASan+UBSan",
     "Held on the simulated runs.")

prop("C38", "The search for loop closures misses no candidate",
     "Each node is considered for a loop closure with each finished submap that it is not part of exactly once, whichever of the two came first: pairs of the same trajectory (or of trajectories connected recently) if they are within the configured distance, other pairs anywhere, in both cases thinned exactly by the configured sampling ratios and by nothing else. This includes the submaps and scans of a loaded map, frozen or not, while a loaded map is not searched for itself, and it does not depend on threads or timing.",
     ["schedules", "histories", "configurations"],
     "all interleavings of scans of several trajectories, finished submaps and optimizations, 2D and 3D",
     "The engine cannot be linked in the stock build; upstream tests do not count candidates.",
     ["cartographer/mapping/internal/2d/pose_graph_2d.cc", "cartographer/mapping/internal/3d/pose_graph_3d.cc", "cartographer/mapping/internal/constraints/constraint_builder_2d.cc", "cartographer/mapping/internal/constraints/constraint_builder_3d.cc"],
     [("ComputeConstraintsForNode", "cartographer/mapping/internal/2d/pose_graph_2d.cc")],
     "whole engine with minimum scores below any score, so that constraints reveal the searches; completeness monitor over all pairs",
     "Held on the simulated runs.")
