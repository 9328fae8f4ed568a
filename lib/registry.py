"""What decides each property."""
from parts import cc, py

CHECKS = {}


def check(pid, parts, rule, **kw):
    CHECKS[pid] = dict(parts=parts, rule=rule, **kw)


check("C01", [cc("h_matcher.cc", ["metrics:matcher"], env={"VERIF_WHICH": "matcher"}, cases=700)],
      "Random scenes (mixed types, jittered copies, extra objects) matched repeatedly on one "
      "matcher over random subsets, dirty output vectors and null outputs; non-trivial: at least "
      "one pair was matched; distinct by hash of the whole scene and subsets.",
      required=["match_pairs", "cases_match_let_hungarian", "cases_match_score_first"])
check("C02", [cc("h_matcher.cc", ["metrics:matcher"], env={"VERIF_WHICH": "hungarian"}, cases=6000)],
      "Random, sparse, padded, low-cardinality and adversarial weight matrices, n up to 160; "
      "non-trivial: n > 1; distinct by hash of the matrix.",
      required=["cases_hung_mid", "cases_hung_large"])
check("C03", [cc("h_iou.cc", ["metrics:iou"], env={"VERIF_WHICH": "iou"}, cases=60000)],
      "Random and degenerate box pairs (identical, re-described, nearly identical, touching, nested, "
      "thin, huge, on a grid); non-trivial: 0 < reference IoU < 1; distinct by hash of both boxes.",
      required=["iou_partial", "iou_zero", "iou_identical"])
check("C04", [cc("h_iou.cc", ["metrics:iou"], env={"VERIF_WHICH": "let"}, cases=10000)],
      "Random ground truths with predictions moved along the line of sight, random sensor positions, "
      "tolerances and alignment rules; non-trivial: affinity strictly between 0 and 1; distinct by hash of the inputs.",
      required=["affinity_inside", "let_iou_gained"])
check("C05", [cc("h_geom.cc", ["math:polygon2d", "math:box2d", "math:aabox2d", "math:vec3d"], cases=12000)],
      "Random vectors and angles, operation histories on one segment / box / polygon, integer-grid segment pairs "
      "(crossing, touching, collinear), convex polygons of 3-60 vertices (grid hulls, ellipses), box trees of 0-120 grid boxes; "
      "distinct by hash of the inputs.",
      required=["segments_cross", "segments_touch", "segments_apart", "polygons_overlap", "points_inside", "points_outside", "tree_hits"])
check("C06", [cc("h_exact.cc", ["math:exactfloat"], cases=2500)],
      "Random and special doubles combined by sums and products into values of many hundred bits, scaled to the ends of the exponent range; "
      "distinct by hash of the expression.",
      required=["products", "compares", "equals", "nan_compares", "rounded", "subnormals", "scaled_out", "decimals", "max_prec"])
DET = ["metrics:detection_metrics", "metrics:config_util", "metrics:breakdown_generator", "metrics:metrics_utils"]
check("C07", [cc("h_detect.cc", DET, env={"VERIF_WHICH": "meas"}, cases=400)],
      "Random scenes of 1-3 frames (0-12 objects, all types and difficulty levels, no-label-zone flags, speeds, cameras) under random configurations "
      "(all breakdowns, both matchers, 3D/2D/image boxes, LET, custom IoU, details, minimum precision and heading accuracy, 1-9 cutoffs); "
      "non-trivial: a true positive; distinct by hash of scene and configuration.",
      required=["tps", "fps", "fns", "fp_excused_nlz", "fp_excused_other_shard", "dropped_by_heading", "details_checked", "partial_recall"])
check("C08", [cc("h_detect.cc", DET, env={"VERIF_WHICH": "ap"}, cases=1200)],
      "Random scenes, random precision/recall points (unsorted, duplicated, gridded) and random score lists; "
      "non-trivial: average precision above 0; distinct by hash of the points.",
      required=["aps_inside", "ap_points", "cutoffs_buckets", "cutoffs_public", "merge_groupings"])
check("C09", [cc("h_detect.cc", DET, env={"VERIF_WHICH": "breakdown"}, cases=2400)],
      "Random objects incl. unknown types and cameras, missing speeds, objects exactly on shard boundaries; every generator; "
      "distinct by hash of object and generator.",
      required=["objects_in_shard", "objects_in_none", "subset_members"])
check("C10", [cc("h_detect.cc", DET, env={"VERIF_WHICH": "name"}, cases=1000), py("p_names.py", cases=1500, shards=2)],
      "Random configurations over all generators and difficulty lists, in C++ and Python; distinct by hash of the configuration.",
      required=["names", "python_names", "python_motion_names"])
check("C11", [cc("h_track.cc", ["metrics:tracking_metrics", "metrics:metrics_utils", "metrics:mot"], cases=300)],
      "Random scenes of 1-40 frames (identity switches, gaps, births, evictions, no-label zones, difficulty levels, frames without predictions), 1-3 scenes "
      "merged, all breakdowns, both matchers, given and estimated cutoffs; non-trivial: at least one match; distinct by hash of the scenes.",
      required=["kept_matches", "mismatch_switch", "mismatch_evicted", "nlz_excused", "cutoffs_estimated", "details_checked", "speed_estimated", "mota_positive", "long_frames"])
MOTION = ["metrics:motion_metrics", "metrics:motion_metrics_utils"]
check("C12", [cc("h_motion.cc", MOTION, env={"VERIF_WHICH": "metrics"}, cases=400)],
      "Random scenarios of 1-7 tracks (curves, gaps, all types, overlapping boxes), joint predictions of 1-3 objects with 1-9 modes and positive, tied, zero and negative "
      "confidences, random sampling rates, histories, measurement steps, thresholds and speed scalings; distinct by hash of configuration, scenarios and predictions.",
      required=["ades", "fdes", "ade_without_fde", "hits", "misses", "not_measurable", "overlaps", "no_overlaps"])
check("C13", [cc("h_motion.cc", MOTION, env={"VERIF_WHICH": "invalid"}, cases=6000)],
      "Valid scenarios with one of 32 corruptions of configuration, scenario or predictions; random challenge submissions; distinct by hash of the input.",
      required=["rejected", "accepted", "converted", "refused"])
check("C14", [cc("h_motion.cc", MOTION, env={"VERIF_WHICH": "map"}, cases=800)],
      "The scenarios of C12 plus random sample lists with ties; distinct by hash of the input.",
      required=["maps_inside", "soft_above_hard", "duplicate_hits", "aps_inside"] + ["shape_%d" % i for i in (0, 1, 2, 3, 4, 5, 7)])
check("C15", [cc("h_seg.cc", ["metrics:segmentation_metrics"], cases=8000)],
      "Histories of 1-12 updates (0-3000 points, with and without evaluated classes, any agreement), refused updates, resets and reads for random ordered subsets of the 23 classes, "
      "measurements of up to 2^36 points merged in two groupings; distinct by hash of the history.",
      required=["ious_inside", "absent_classes", "mismatches", "resets", "merges", "sums_over_32_bits"])
TOOLS = ["metrics:detection_metrics", "metrics:tracking_metrics", "metrics:segmentation_metrics", "metrics:config_util", "metrics:matcher", "metrics:iou",
         "protos:segmentation_metrics_cc_proto", "protos:submission_cc_proto"]
check("C16", [cc("h_tools.cc", TOOLS, cases=60, link="-lz",
                 extra_srcs=["tool_det.cc", "tool_let.cc", "tool_seg.cc", "tool_trk.cc", "tool_sub.cc", "tool_cmp.cc"])],
      "Random object, segmentation, submission and latency files (1-3 runs with shared timestamps and names that are prefixes of each other, several cameras, shuffled objects, "
      "missing predictions or returns, NaN and empty boxes, empty files, newline bytes, near-equal and perturbed latency results); the programs' own main() in a child process; "
      "distinct by hash of the files.",
      required=["det_inside", "let_inside", "trk_inside", "seg_inside", "files_of_several_frames", "gts_without_points", "levels_from_points", "gts_without_camera",
                "frames_without_prediction", "frames_without_second_return", "nan_boxes", "empty_files", "files_ending_in_newline_byte", "submitted",
                "compared_same", "compared_different", "tolerated_differences"])
check("C17", [cc("h_scenario.cc", ["data_conversion:scenario_conversion"], cases=1500)],
      "Random scenarios (1-14 tracks with gaps, more or fewer steps than asked, 0-14 map features of every kind with degenerate polylines and polygons, traffic lights with missing steps) "
      "under random conversion limits and spacings; 10 kinds of invalid scenarios and limits; distinct by hash of scenario and configuration.",
      required=["examples", "states", "lights", "spline_points", "polygon_points", "empty_polygons", "maps_truncated", "maps_padded", "agents_truncated", "agents_padded",
                "modeled_truncated", "no_modeled", "tied_agents"] + ["invalid_%d" % i for i in range(10)])
check("C18", [cc("h_camera.cc", ["wdl_limited/camera:camera_model"], cases=4000)],
      "Random cameras (all five shutter directions, distortions up to a contraction of 0.35, any pose up to 15 km, speeds to 20 m/s, turns to 0.4 rad/s, readouts to 60 ms) reused for several images, "
      "points in view, out of view, behind, far off axis, moving; distinct by hash of camera and image.",
      required=["projected", "behind", "too_distorted", "round_trips", "still_cameras", "moved_points", "moved_pixels", "rolling_moving", "rolling_projected", "any_points"])
OPS = ["metrics/ops:utils", "metrics:detection_metrics", "metrics:tracking_metrics", "metrics:motion_metrics", "metrics:config_util", "metrics:matcher", "metrics:segmentation_metrics",
       "wdl_limited/camera:camera_model"]
OPS_SRCS = ["op_detection.cc", "op_tracking.cc", "op_motion.cc", "op_match.cc", "op_registry.cc", "op_camera.cc"]
OP_NAMES = ["DetectionMetrics", "DetectionMetricsState", "DetectionMetricsResult", "TrackingMetrics", "MotionMetrics", "Match", "WorldToImage", "WorldToImageMovingPoint", "ImageToWorld"]
check("C19", [cc("h_ops.cc", OPS, cases=150, extra_srcs=OPS_SRCS)],
      "Random tables of boxes (shuffled rows, several frames and sequences, 4, 5 or 7 columns, empty tables, given and estimated cutoffs), motion batches (several scenarios, masked agents, agents without "
      "states, missing modes, padding), match batches, cameras and points in float and double; the registered kernels run on them; tables, indices, states and columns that do not fit run in a child process; "
      "distinct by hash of the input.",
      required=["detection_ops", "aps", "several_frames", "estimated_cutoffs", "empty_tables", "summed_states", "tracking_ops", "motas", "difficulty_matters", "several_sequences",
                "motion_ops", "bundles", "missing_bundles", "absent_agents", "masked_agents", "several_scenarios", "match_ops", "op_matches", "op_matches_later_batch", "padded",
                "camera_ops", "op_valid_pixels", "op_invalid_pixels"] + ["refused_" + n for n in OP_NAMES])
check("C20", [cc("h_ops.cc", OPS, env={"VERIF_WHICH": "threads"}, cases=12, shards=40, ms=15000, extra_srcs=OPS_SRCS, san="tsan")],
      "2-4 threads compute detection, tracking and motion metrics and project through one shared camera model, in the same or another order, on shared inputs, first thing in each of 40 processes; the operations run with their pool of threads; "
      "distinct by hash of the input; ThreadSanitizer watches every access.",
      required=["thread_runs", "detection_ops", "several_frames", "tracking_ops", "several_sequences", "motion_ops", "several_scenarios"])
check("C21", [py("p_lidar.py", cases=300, shim=True)],
      "Random lidars (any mounting, uneven beams, 1-40 rows, seam and vertical points, missing returns, per-pixel poses), frames and Motion Dataset lasers, corrupt-free encodings, label images; "
      "distinct by hash of the input.",
      required=["features", "ordered_pairs", "points", "pixel_poses", "columns", "seam_points", "contested_pixels", "pixel_features", "round_trips", "pooled_pixels", "crops", "bad_crops",
                "first_projections", "second_projections", "contested_depths", "uniform_inclinations", "seg_labels", "frame_points", "cameras", "womd_uniform_inclinations", "womd_points",
                "womd_top", "womd_side"])
check("C22", [py("p_boxes.py", cases=2000, shim=True)],
      "Random boxes (flat, turned by any angle, points on faces, edges and corners), rigid transforms up to 10 km, batches of rotations; distinct by hash of the input.",
      required=["inside", "outside", "flat_boxes", "on_boundary", "corners", "moved_points", "moved_boxes", "rotations"])
check("C23", [py("p_simagents.py", cases=240, shim=True)],
      "Random scenarios (gaps, absent objects, agents to predict, road edges, lanes, signals), scenes and rollouts valid or with one defect, both challenges; distinct by hash of the scenario.",
      required=["gathered", "unknown", "repeated", "agents", "scenes_accepted", "rollouts_accepted", "converted", "wrong_lengths", "rollouts", "scenes", "simulated", "generated", "with_lights", "without_lights"]
      + ["scene_refused_%d" % i for i in range(5)] + ["rollouts_refused_%d" % i for i in range(4)])
check("C24", [py("p_simfeat.py", cases=1000, shim=True), py("p_simagents.py", cases=100, ms=30000, shim=True, args=("--group", "features"))],
      "Random trajectories with gaps and turns over the seam, boxes near, touching and far, traffic in a lane, road edges open, closed and short, lanes and signals changing over time; distinct by hash of the input.",
      required=["speeds", "accelerations", "validities", "colliding", "apart", "no_neighbour", "closing", "far_ahead", "falling_behind", "unknown_speed", "free_road", "across_seam", "off_road", "on_road", "short_rings",
                "ramps", "with_lights", "simulated", "generated", "violations", "no_violation", "other_states", "light_invalid", "points_inside", "points_outside", "refused"])
check("C25", [py("p_occflow.py", cases=400, shim=True)],
      "Random scenes (agents of all classes appearing late, gone early or with gaps, turning, at any distance), grids, scales, numbers of steps and waypoints, random grids and flow fields, full examples of the "
      "Motion Dataset; distinct by hash of scene and configuration.",
      required=["occupied", "free", "observed_only", "occluded_only", "all_agents", "moving", "road_points", "road_points_outside", "rotated", "not_rotated", "turned_points", "steps_current_occupancy",
                "steps_past_occupancy", "steps_future_observed_occupancy", "steps_future_occluded_occupancy", "trails", "waypoints", "sampled", "cumulative", "refused_uneven", "refused_no_origin", "observed_auc",
                "occluded_auc", "flow_epe", "flow_warped_occupancy_auc", "blank_waypoints", "waypoints_without_flow", "flow_pixels", "still_pixels", "all_classes", "missing_classes", "parsed", "refused_examples"])
check("C26", [py("p_keypoints.py", cases=1200, shim=True)],
      "Random poses (missing, occluded and visible points, 2 and 3 dimensions, batches, boxes turned by any angle or without heading, points in and out of them, on thresholds), frames with laser and camera keypoints, "
      "images, matchings (empty, crowded, hidden objects); distinct by hash of the input.",
      required=["points_inside", "points_outside", "distances", "laser", "camera", "missing_points", "occluded_points", "camera_labels", "poses", "no_pose", "lines", "crops", "empty_boxes", "no_ground_truth", "scored",
                "combined", "weighted", "unweighted", "metric_refusals", "groups", "matched_rows", "missed_rows", "spurious_rows", "cpp_matches", "matches", "hidden_matches", "crowded", "no_prediction", "label_headings"])
check("C27", [py("p_rater.py", cases=2000, shim=True)],
      "Random rater and prediction trajectories (alike, far, standing still, shorter or longer than asked, ragged, single arrays), scores, speeds, and inputs of wrong shapes; distinct by hash of the input.",
      required=["within", "outside", "floored", "partial_scores", "regions", "array_inputs"] + ["refused_%d" % i for i in range(4)])
check("C28", [py("p_codec.py", cases=1500, shim=True)],
      "Random range images (runs of zeros, all zero, ties and large values, several precisions and element types, arrays in any order and read-only), data of a reference encoder, grids of vectors of any size and tile size, "
      "PCA codecs (complete and truncated, saturated values), components of rays, rays against boxes (through, past, away from, starting inside, along axes), poses and boxes with points; distinct by hash of the input.",
      required=["delta_pixels", "delta_zero", "delta_negative", "delta_starts_zero", "delta_all_zero", "delta_refusals", "tiles", "padded", "saturated", "restored", "codes", "rays", "misses", "hits", "inside", "points"])
check("C29", [py("p_v2.py", cases=900, shim=True)],
      "Random components (nested, repeated and optional fields which share names, keys of several types, rows with columns of other components in any order), the components of the dataset, arrays, tensors and pictures, pairs of "
      "tables (common and own keys, categories, empty tables, nulls, all joins, with and without grouping); distinct by hash of the input.",
      required=["random_components", "columns", "nested", "repeated", "shared_names", "missing_columns", "dataset_components", "arrays", "values", "inner", "left", "right", "outer", "pairs", "only_left", "only_right",
                "grouped", "categories", "empty_tables"])
check("C30", [py("p_compat.py", cases=2000, shim=True)],
      "Random frames of the v1 dataset with every field the extractors read set, left out or at its default (labels, boxes, difficulties, speeds, associations, keypoints, range images of both returns, images, "
      "segmentations, calibrations, statistics), and fields they must not read; incomplete boxes and keypoints, broken range images; distinct by hash of the frame.",
      required=["components", "skipped", "laser_boxes", "synced_boxes", "projected_boxes", "camera_boxes", "associations", "difficulties", "velocities", "incomplete", "camera_keypoints", "laser_keypoints", "occluded",
                "incomplete_keypoints", "range_images", "one_return", "broken_data", "images", "segmentations", "contexts", "object_counts", "beams", "enumerations"])
check("C31", [py("p_camseg.py", cases=2500, shim=True)],
      "Random sets of labels of both versions (divisors, several sequences, ids that are shared, as large as the divisor or beyond 16 bits, frames without instances, coverage images), panoptic arrays of several element "
      "types, predictions saved and decoded, color maps that need clipping, streams of frames, ground truth and predictions for a recorded metric object; distinct by hash of the input.",
      required=["components", "coverage", "tracked", "sequential", "one_sequence", "new_divisor", "own_divisors", "refused_divisors", "id_of_divisor", "labels", "ids", "sequences", "no_instances", "encoded", "saved",
                "overflows", "grown_divisors", "colors", "clipped", "loaded", "other_sequence", "untracked", "metric_updates"])
check("C32", [py("p_plotmaps.py", cases=70)],
      "Random maps of all kinds and types of features (empty and single-point ones, repeated points, features without data, empty maps) and hand-made containers, plotted with plotly; distinct by hash of the map.",
      required=["features_plotted", "points_plotted", "closed_polygons", "open_lines", "lane_widths", "blank_features", "empty_maps", "containers"])
check("C33", [py("p_latency.py", cases=400)],
      "Random data directories (several contexts and frames, stray files, no frames) evaluated with a recording model on a known clock, models that break their contract, and the objects file made from the results of "
      "3D and 2D models (low scores, thin, empty and NaN boxes, wrong input fields); distinct by hash of the detections.",
      required=["frames", "latencies", "stray_files", "bad_models", "nan_boxes", "dropped", "objects", "files_of_2d", "files_of_3d", "wrong_fields"])
check("C34", [py("p_metrics.py", cases=700, shim=True)],
      "Random configurations and batches (empty ones, three box types, missing optional inputs, scenarios with more agents than predicted, recall at a precision, name filters), several metrics growing in one graph, "
      "sequences of updates, refusals, evaluations and resets of several evaluators, direct calls of every operation wrapper; recorded operations; distinct by hash of the rows.",
      required=["later_updates", "together", "default_speeds", "default_overlaps", "default_objects", "default_scenarios", "bystanders", "recalls", "filtered", "values", "refused_updates", "merged_batches", "default_configs",
                "evaluations_with_rows", "single_frames", "let_configs", "op_detection_metrics_state", "op_detection_metrics_result", "op_match"])
check("C35", [py("p_simscore.py", cases=800, shim=True)],
      "Random estimators (histograms, kernel densities, Bernoulli; per object, scene, step) and values in and out of their range, bundles of features with gaps and unknown ends, scenarios with rollouts, weights; distinct by hash.",
      required=["histogram_agent", "histogram_scene", "kernel_density_agent", "kernel_density_scene", "bernoulli_agent", "bernoulli_scene", "all_steps", "each_step", "clipped", "unlike_objects", "unknown_ends", "like_the_log",
                "bundles", "other_types", "scenarios", "configs", "aggregated", "buckets"] + ["refused_%d" % i for i in range(5)])
check("C36", [py("p_helpers.py", cases=1200, shim=True)],
      "Random tf.Examples and changed copies of them (values near the tolerance, other kinds, lengths and keys), scenarios with camera tokens, codebooks with tokens in and out of range, and animations of random objects and maps "
      "on an axis that keeps what is drawn; distinct by hash of the inputs.",
      required=["equal_examples", "different_examples", "token_frames", "embeddings", "bad_tokens", "frames", "boxes", "map_lines"])
