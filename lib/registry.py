"""Which harness runs decide which property.

Each run: harness source, build flavour, and per tier the scale factor of the
case counts built into the harness, the number of shards (parallel processes)
and a generous wall-clock watchdog in seconds.
"""


def run(harness, flavor, quick=1.0, thorough=1.0, shards=4, watchdog=240,
        thorough_watchdog=3000, scenarios="", env=None, sources=(),
        whole=False, tools=None):
    return dict(harness=harness, flavor=flavor, quick=quick,
                thorough=thorough, shards=shards, watchdog=watchdog,
                thorough_watchdog=thorough_watchdog, scenarios=scenarios,
                env=env or {}, sources=list(sources), whole=whole,
                tools=tools or {})


CHECKS = {
    "C01": dict(
        rule="random acyclic task graphs (size, density, worker and "
             "scheduling threads, nested scheduling, early pool destruction) "
             "under seeded lock delays; non-trivial: more than two tasks with "
             "at least one dependency edge, distinct by observed start order "
             "and edge count",
        runs=[run("c01_thread_pool", "asan", shards=4),
              run("c01_thread_pool", "tsan", shards=4)]),
    "C02": dict(
        rule="random concurrent programs over push, pop, timed push/pop, "
             "peek, size and wait-until-empty on small capacities, under "
             "seeded lock delays; non-trivial: operations of at least two "
             "threads overlapped, distinct by recorded history",
        runs=[run("c02_blocking_queue", "asan", shards=4),
              run("c02_blocking_queue", "tsan", shards=4)]),
    "C03": dict(
        rule="random arrival interleavings of random sensor streams of "
             "several trajectories; non-trivial: at least two sensors with "
             "data, distinct by released sequence",
        runs=[run("c03_collation", "asan", shards=8)]),
    "C04": dict(
        rule="random multi-sensor scan sequences with uniquely tagged points; "
             "non-trivial: points of more than one scan in a combined scan, "
             "distinct by emitted sequence",
        runs=[run("c04_range_sync", "asan", shards=8)]),
    "C05": dict(
        rule="random clouds and resolutions; non-trivial: several voxels "
             "occupied and at least one point filtered out",
        runs=[run("c05_voxel_filter", "asan", thorough=1.0, shards=8)]),
    "C06": dict(
        rule="random clouds over many blocks, signs and block borders; "
             "non-trivial: several points, distinct by content",
        runs=[run("c06_compressed_cloud", "asan", shards=8)]),
    "C07": dict(
        rule="random and special poses (half turns, tiny angles, large "
             "translations), times and transform histories; non-trivial: "
             "distinct poses or histories with interpolated lookups",
        runs=[run("c07_transform", "asan", shards=8)]),
    "C08": dict(
        rule="random operation histories on the id- and time-indexed "
             "containers, compared with a reference map after every step; "
             "non-trivial: histories that removed something",
        runs=[run("c08_containers", "asan", shards=8)]),
    "C09": dict(
        rule="random scan sequences into random grids plus border-aligned "
             "scans and all table entries; non-trivial: scans with both hit "
             "and miss updates, distinct by resulting cells",
        runs=[run("c09_insert_2d", "asan", shards=8)]),
    "C10": dict(
        rule="random histories of update, growth, cropping and storing of "
             "probability and signed-distance grids; non-trivial: the grid "
             "grew and had known cells",
        runs=[run("c10_grid_2d", "asan", quick=0.6, thorough=0.5, shards=8)]),
    "C11": dict(
        rule="random scan sequences with random weighting options into "
             "signed-distance grids; non-trivial: more than five cells "
             "updated, distinct by resulting distances",
        runs=[run("c11_tsdf", "asan", shards=8)]),
    "C12": dict(
        rule="random store/read/iterate/save histories over the whole index "
             "range and random scan sequences; non-trivial: histories in "
             "several octants or scans with hit and miss voxels",
        runs=[run("c12_hybrid_grid", "asan", quick=2, thorough=2, shards=8)]),
    "C13": dict(
        rule="random scan sequences through the active submaps (2D "
             "probability, 2D signed distance, 3D); non-trivial: at least one "
             "submap finished, distinct by content",
        runs=[run("c13_submaps", "asan", shards=8)]),
    "C14": dict(
        rule="random submaps, scans, windows and depths, each match compared "
             "with brute force over the lattice; non-trivial: lattice with "
             "more than one score, distinct by result",
        runs=[run("c14_match_2d", "asan", quick=2, thorough=2, shards=8)]),
    "C15": dict(
        rule="random 3D submaps, scans and windows, each match compared with "
             "brute force over the lattice; non-trivial: some candidate "
             "admissible, distinct by result",
        runs=[run("c15_match_3d", "asan", quick=1.5, thorough=1,
                  shards=8)]),
    "C16": dict(
        rule="random grids, scans, initial poses and weights; non-trivial: "
             "the match moved the pose, distinct by result",
        runs=[run("c16_local_match", "asan", quick=3, thorough=3,
                  shards=8)]),
    "C17": dict(
        rule="random interleavings of poses, inertial and odometry data and "
             "queries; non-trivial: several queries between poses with "
             "motion, distinct by data",
        runs=[run("c17_extrapolator", "asan", quick=2, thorough=2,
                  shards=8)]),
    "C18": dict(
        rule="random scans under random options, and simulated drives through "
             "random rooms; non-trivial: more than one result, distinct by "
             "estimated path",
        runs=[run("c18_local_slam", "asan", shards=8),
              run("c18_local_slam", "opt", quick=25, thorough=4, shards=8)]),
    "C19": dict(
        rule="simulated drives of one to three robots with random sensors, "
             "options, thread counts and lock delays; the graph is compared "
             "with what local SLAM reported; non-trivial: more than one "
             "submap, distinct by resulting graph",
        runs=[run("c19_pose_graph", "asan", quick=1.5, shards=8),
              run("c19_pose_graph", "opt", quick=10, thorough=4, shards=8)]),
    "C20": dict(
        rule="rounds of random searches on submaps of simulated drives, also "
             "from several threads and from inside callbacks, and drives "
             "with quiescent points; non-trivial: a constraint was found or "
             "several optimizations ran",
        runs=[run("c20_constraints", "asan", quick=1.5, shards=8),
              run("c20_constraints", "opt", quick=12, thorough=4, shards=8),
              run("c20_constraints", "tsan", quick=0.6, thorough=0.5,
                  shards=8)]),
    "C21": dict(
        rule="simulated drives with one to three threads issuing random "
             "queries under seeded lock delays; non-trivial: many reads and "
             "several optimizations, distinct by run",
        runs=[run("c21_concurrent", "tsan", quick=3, thorough=1.5,
                  shards=8),
              run("c21_concurrent", "asan", quick=1.5, shards=8)]),
    "C22": dict(
        rule="simulated drives with pure-localization, overlap trimming, "
             "custom trimmers, deletions and freezing, each step compared "
             "with the graph before it; overlap trimming also against a "
             "reference on synthetic submaps; non-trivial: something was "
             "removed or frozen, distinct by resulting graph",
        runs=[run("c22_trimming", "asan", quick=0.8, shards=8),
              run("c22_trimming", "opt", quick=5, thorough=4, shards=8)]),
    "C23": dict(
        rule="random graphs (chains, loops, several trajectories, frozen "
             "parts, landmarks, odometry, fixed frame) with known solution or "
             "noise; non-trivial: several nodes and constraints moved, "
             "distinct by result",
        runs=[run("c23_optimization", "opt", quick=20, thorough=8, shards=8),
              run("c23_optimization", "asan", quick=2, thorough=2,
                  shards=8)]),
    "C24": dict(
        rule="random histories of adding, connecting and querying "
             "trajectories, also from several threads; non-trivial: at least "
             "one connection, distinct by history",
        runs=[run("c24_connectivity", "asan", shards=4),
              run("c24_connectivity", "tsan", scenarios="threads",
                  shards=4)]),
    "C25": dict(
        rule="simulated drives, saved in random states (deleted, frozen, "
             "unfinished parts) and loaded, also into used instances, saved "
             "again and compared; non-trivial: several nodes and submaps, "
             "distinct by saved content",
        runs=[run("c25_save_load", "asan", shards=8),
              run("c25_save_load", "opt", quick=10, thorough=4, shards=8)]),
    "C26": dict(
        rule="random record sequences, cut at every byte (small files) or at "
             "sampled bytes (large files), damaged headers, write failures "
             "and misordered state files; non-trivial: a fault was applied",
        runs=[run("c26_proto_stream", "asan", shards=8)]),
    "C27": dict(
        rule="random field values, sizes and absent parts of every message "
             "type; non-trivial: distinct by content",
        runs=[run("c27_conversions", "asan", shards=4)]),
    "C28": dict(
        rule="random pipelines of stages over random batches of uniquely "
             "tagged points; non-trivial: some points dropped and some kept, "
             "distinct by output",
        runs=[run("c28_points", "asan", quick=20, thorough=5, shards=8)]),
    "C29": dict(
        rule="random batch sequences (sizes, colors, intensities, also "
             "differing) exported and parsed back, and write faults; "
             "non-trivial: at least one point written, distinct by content",
        runs=[run("c29_exports", "asan", quick=10, thorough=3, shards=8)]),
    "C30": dict(
        rule="random grids of all three kinds decoded cell by cell, and "
             "random maps of several submaps painted; non-trivial: known "
             "cells present, distinct by content",
        runs=[run("c30_textures", "asan", quick=8, thorough=3, shards=8)]),
    "C31": dict(
        rule="random dictionaries, access sequences, include trees and "
             "option files; non-trivial: distinct by dictionary",
        runs=[run("c31_config", "asan", shards=8)]),
    "C32": dict(
        rule="random recording histories over many label combinations from "
             "one and several threads; non-trivial: several samples "
             "recorded, distinct by collected values",
        runs=[run("c32_metrics", "asan", shards=4),
              run("c32_metrics", "tsan", scenarios="threads", shards=4)]),
    "C33": dict(
        rule="random pose graphs, thresholds and relation files; "
             "non-trivial: at least one relation kept and one rejected",
        runs=[run("c33_ground_truth", "asan", shards=8, tools={
            "VERIF_TOOL_METRICS":
            "cartographer/ground_truth/compute_relations_metrics_main.cc"})]),
    "C34": dict(
        rule="random ratios and event streams; non-trivial: ratio strictly "
             "between 0 and 1, distinct by accepted pattern",
        runs=[run("c34_sampler", "asan", shards=4)]),
    "C35": dict(
        rule="simulated buildings with known floors, stays and stairs, and "
             "arbitrary trajectories; non-trivial: several stays or a floor "
             "found, distinct by trajectory",
        runs=[run("c35_floors", "asan", quick=2, thorough=1, shards=4)]),
    "C36": dict(
        rule="simulated 3D maps saved, stripped to the old format and "
             "upgraded by the library or the tool; random state files "
             "summarized by the tool; non-trivial: several nodes or records, "
             "distinct by content",
        runs=[run("c36_state_tools", "asan", shards=8, tools={
            "VERIF_TOOL_PBSTREAM": "cartographer/io/pbstream_main.cc"})]),
    "C37": dict(
        rule="random readings of random sensor sets of one to three robots "
             "through the whole engine, collated or not, 2D and 3D; "
             "non-trivial: readings of several sensors arrived, distinct by "
             "content",
        runs=[run("c37_sensor_data", "asan", quick=4, thorough=2, shards=8),
              run("c37_sensor_data", "opt", quick=12, thorough=4, shards=8)]),
    "C38": dict(
        rule="random worlds mapped by one to three robots with every match "
             "accepted, with limits on distance and numbers of searches or "
             "on top of a loaded map; non-trivial: searches were made, "
             "distinct by the pairs found",
        runs=[run("c38_search", "opt", shards=8)]),
}

NOT_CLAIMED = {}
