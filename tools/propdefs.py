"""The properties and how each is decided."""
NOT_APPLICABLE = []
PROPS = []


def prop(id, title, statement, over, forall, tests, files, mech, technique, note, observe=()):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, forall=forall,
                      tests=tests, files=files, mech=mech, technique=technique, note=note,
                      observe=list(observe)))


SAN = "the real library code, built with AddressSanitizer, UndefinedBehaviorSanitizer and live debug assertions, "

prop("C01", "Matching is a valid, thresholded assignment of predictions to ground truths",
     "Every matcher pairs each prediction with at most one ground truth and each ground truth with at most one "
     "prediction, the two directions of its answer agree, only objects of the requested subsets take part, and every "
     "pair reaches the IoU threshold of its type (with a type mismatch allowed only when configured so). The optimal matcher "
     "maximises the total weight; the score-first matcher gives each prediction, in order of descending score, the "
     "best ground truth that is still free. A matcher can be asked again for other subsets, with result vectors that were used before or with only one of the two outputs requested, and answers as a fresh one would.",
     ["inputs", "histories"],
     "every set of predicted and ground-truth boxes, types, scores, thresholds, matcher type, IoU type, and every sequence of subset queries on one matcher",
     "The unit tests match a handful of fixed boxes through one call each.",
     ["metrics/matcher.cc", "metrics/matcher.h", "metrics/hungarian.cc"],
     [("Matcher::Create and the Match implementations", "metrics/matcher.cc")],
     "runtime monitor with reference assignment under ASan/UBSan",
     "Random scenes on " + SAN + "checked by an independent reference; sampled, not exhaustive.")
prop("C02", "The assignment solver returns a maximum-weight perfect assignment",
     "For every non-negative integer weight matrix the assignment solver returns a permutation of the rows over the columns, "
     "whose total weight is the largest possible, and it always terminates.",
     ["inputs"], "every square matrix of non-negative weights, including sparse, tied, padded and large ones",
     "The tests solve three small fixed matrices.",
     ["metrics/hungarian.cc", "metrics/hungarian.h"], [("Solve", "metrics/hungarian.cc")],
     "runtime monitor with reference assignment under ASan/UBSan",
     "Random and adversarial matrices up to 160x160 on " + SAN + "compared with an independent shortest-path assignment.")
prop("C03", "Box IoU is the ratio of intersection to union",
     "For any two boxes the IoU of every supported type (axis-aligned 2D, rotated bird's eye 2D, rotated 3D) equals the true "
     "intersection area or volume over the union, so it lies in [0, 1], is symmetric, is 1 for the same box however it is described (heading turned by pi, or by pi/2 with the sides exchanged) "
     "and 0 for boxes which do not overlap. It never aborts on a box with positive dimensions, including boxes that touch, share edges or nearly coincide.",
     ["inputs"], "every pair of boxes with positive dimensions",
     "The tests compare a few fixed pairs; the numerically hard arrangements (coincident and nearly coincident edges) are not among them.",
     ["metrics/iou.cc", "math/polygon2d.cc", "math/box2d.cc"], [("ComputeIoU", "metrics/iou.cc"), ("Polygon2d::ComputeIoU", "math/polygon2d.cc")],
     "runtime monitor with extended-precision reference geometry under ASan/UBSan",
     "Random and degenerate box pairs on " + SAN + "compared with extended-precision clipping.")
prop("C04", "Longitudinal error tolerance forgives only depth errors within the tolerance",
     "The longitudinal affinity is 1 for a prediction without error along the line of sight, falls linearly to 0 at the range-dependent tolerance "
     "and depends on nothing but that error, the range and the configuration. The LET-IoU is the IoU of the ground truth with the prediction moved as the alignment rule says "
     "(no move, range alignment, center alignment, closest point within the tolerance), including where the configuration object is gone.",
     ["inputs", "histories"], "every pair of boxes, sensor location and tolerance configuration",
     "The tests use a few collinear boxes and one configuration.",
     ["metrics/iou.cc", "metrics/iou.h"], [("ComputeLongitudinalAffinity and ComputeLetIoU", "metrics/iou.cc")],
     "runtime monitor with reference model under ASan/UBSan",
     "Random boxes, sensors and tolerances on " + SAN + "compared with an independent formula.")
prop("C05", "Planar geometry answers match exact geometry",
     "Vectors, segments, boxes, convex polygons and box trees answer length, heading, side, distance, intersection, containment, area and overlap queries "
     "as exact geometry does, for crossing, touching, collinear and degenerate arrangements alike. After any history of moves, rotations, copies and reads the answers are those of a freshly built object, "
     "so no cached value goes stale, and a box tree returns exactly the boxes overlapping the queried one.",
     ["inputs", "histories"], "every vector, segment pair, box, convex polygon, box collection and sequence of operations on them",
     "The tests use a few fixed shapes and one operation per object.",
     ["math/polygon2d.cc", "math/segment2d.cc", "math/segment2d.h", "math/box2d.cc", "math/aabox2d.h", "math/vec2d.h", "math/math_util.h"],
     [("Polygon2d", "math/polygon2d.cc"), ("Segment2d", "math/segment2d.cc"), ("AABox2dTree", "math/aabox2d.h")],
     "runtime monitor with exact and extended-precision reference geometry under ASan/UBSan",
     "Random shapes and operation histories on " + SAN + "compared with integer and extended-precision references.")
prop("C06", "ExactFloat arithmetic is exact",
     "Sums, differences, products, comparisons and scaling by powers of two of ExactFloat values give the mathematically exact result, with IEEE rules for zeros, infinities and NaN, "
     "and overflow or underflow exactly at the ends of the exponent range. Every rounding (to a precision, to an integer in each mode, to a double, to decimal digits) gives the correctly rounded value, and values of one precision print differently when they differ.",
     ["inputs"], "every int, double and expression over them, any exponent, precision and rounding mode",
     "The tests check chosen values; they do not compare with exact arithmetic.",
     ["math/exactfloat.cc", "math/exactfloat.h"], [("ExactFloat", "math/exactfloat.cc")],
     "runtime monitor with arbitrary-precision integer reference under ASan/UBSan",
     "Random expressions on " + SAN + "compared with boost::multiprecision integers.")
prop("C07", "Detection measurements count every object and error exactly once",
     "In every breakdown shard and at every score cutoff, the true positives, false positives, false negatives, heading errors and longitudinal affinities reported are exactly those implied by a valid matching of the "
     "predictions above the cutoff with the ground truths: each ground truth of the shard and difficulty is a true positive or a false negative, predictions are false positives unless they are excused "
     "(no-label zone, or an out-of-shard or out-of-difficulty ground truth). Details, when asked for, list exactly the counted objects, also after merging several frames.",
     ["inputs", "histories"], "every sequence of frames of predictions and ground truths and every configuration",
     "The tests use one to three boxes and two or three configurations.",
     ["metrics/detection_metrics.cc", "metrics/metrics_utils.cc"],
     [("ComputeDetectionMeasurements", "metrics/detection_metrics.cc"), ("MergeDetectionMeasurementsVector", "metrics/metrics_utils.cc")],
     "runtime monitor with independent recount under ASan/UBSan",
     "Random scenes and configurations on " + SAN + "compared with an independent recount.")
prop("C08", "Average precision and score cutoffs follow their definition",
     "Mean average precision is the area under the precision envelope over recall with the gaps filled as specified, it lies in [0, 1], does not depend on the order of the precision/recall points "
     "and the heading- and affinity-weighted variants never exceed it. Score cutoffs decided from the predictions are sorted, distinct and split the scores as evenly as asked; merging measurements is independent of how the frames are grouped.",
     ["inputs", "histories"], "every set of precision/recall points, scores, cutoff counts and grouping of frames",
     "The tests integrate a few fixed curves.",
     ["metrics/metrics_utils.cc", "metrics/detection_metrics.cc"],
     [("ComputeMeanAveragePrecision", "metrics/metrics_utils.cc"), ("DecideScoreCutoffs", "metrics/metrics_utils.cc")],
     "runtime monitor with independent reference formula under ASan/UBSan",
     "Random curves, scores and frame groupings on " + SAN + "compared with an independent implementation.")
prop("C09", "Breakdown generators sort objects into the documented shards",
     "Every breakdown generator puts an object into the shards its definition names (object type, range, size, velocity, camera; one shard per object unless shards are nested, none where the object is of unknown type or camera), "
     "prediction and ground truth alike, and never aborts on an object. Ids and names are in one-to-one correspondence and subsets handed to the matcher hold exactly the objects of the shard.",
     ["inputs"], "every object, breakdown generator and difficulty level",
     "The tests check a few objects per generator and none on a boundary.",
     ["metrics/breakdown_generator.cc", "metrics/metrics_utils.cc"],
     [("BreakdownGenerator", "metrics/breakdown_generator.cc"), ("BuildSubsets", "metrics/metrics_utils.cc")],
     "runtime monitor with independent table of shards under ASan/UBSan",
     "Random and boundary objects on " + SAN + "compared with an independent table.")
prop("C10", "Breakdown names line up with the reported metrics",
     "The names given for a configuration, in the C++ library and in the Python helper alike, are distinct, equal each other and line up one to one, in order, with the metrics computed for that configuration, "
     "for detection, tracking and motion configurations.",
     ["inputs"], "every configuration of breakdown generators and difficulty levels",
     "The tests check one configuration each.",
     ["metrics/config_util.cc", "metrics/python/config_util_py.py", "metrics/breakdown_generator.cc"],
     [("GetBreakdownNamesFromConfig", "metrics/config_util.cc"), ("get_breakdown_names_from_config", "metrics/python/config_util_py.py")],
     "runtime monitor with cross-language reference under ASan/UBSan",
     "Random configurations on " + SAN + "and on the Python helper, compared with an independent table of names.")
prop("C11", "Tracking metrics count misses, false positives and mismatches as CLEAR-MOT does",
     "In every shard and at every score cutoff, the misses, false positives, mismatches, matches and position errors accumulated over the frames of a scene are those CLEAR-MOT defines: pairs of the previous frame are kept while they "
     "are still valid, the rest is matched optimally, an identity change is counted when a ground truth returns under another prediction, and excused objects are not counted. MOTA, MOTP and the error ratios are derived from these sums, "
     "over all scenes, whichever frames are empty, and details list exactly the counted objects.",
     ["inputs", "histories"], "every sequence of frames, sequence of scenes and configuration",
     "The tests track one to four objects through two or three frames.",
     ["metrics/mot.cc", "metrics/tracking_metrics.cc", "metrics/metrics_utils.cc"],
     [("MOT::Eval", "metrics/mot.cc"), ("ComputeTrackingMetrics", "metrics/tracking_metrics.cc")],
     "runtime monitor replaying frame histories against a reference tracker score under ASan/UBSan",
     "Random scenes on " + SAN + "compared with an independent CLEAR-MOT accounting.")
prop("C12", "Motion prediction errors follow their definition",
     "For every valid prediction, minADE, minFDE, miss rate and overlap rate are, per object type and measurement step, the means of the errors of the best (for overlap, of the most confident) of the first max_predictions joint "
     "predictions, over valid ground-truth states only, with the miss thresholds scaled by the speed at the current step. A prediction without enough ground truth contributes nothing, an empty one does not hide the others, "
     "and the merged metrics over scenarios equal the metrics of the union, custom metrics included.",
     ["inputs", "histories"], "every scenario, prediction, configuration and grouping of scenarios",
     "The tests use one scenario of two or three objects moving on straight lines.",
     ["metrics/motion_metrics.cc", "metrics/motion_metrics_utils.cc"],
     [("ComputeMetricsStats", "metrics/motion_metrics.cc"), ("ComputeMotionMetrics", "metrics/motion_metrics.cc"), ("PredictionToTrackStep", "metrics/motion_metrics_utils.cc")],
     "runtime monitor with independent recomputation under ASan/UBSan",
     "Random scenarios and predictions on " + SAN + "compared with an independent recomputation.")
prop("C13", "Invalid motion predictions are rejected and challenge entries keep their content",
     "A configuration, scenario or prediction that is inconsistent (wrong ids, lengths, steps, missing or extra objects, objects that differ between joint predictions) gives an error, never a crash, a read outside the data or a metric. "
     "Converting challenge submissions to scored predictions keeps every trajectory, confidence and object, and the validators accept exactly the complete submissions.",
     ["inputs"], "every configuration, scenario, prediction set and submission",
     "The tests corrupt one field each in a handful of ways.",
     ["metrics/motion_metrics.cc", "metrics/motion_metrics_utils.cc"],
     [("ValidatePredictions", "metrics/motion_metrics.cc"), ("ValidateChallengePredictions", "metrics/motion_metrics_utils.cc")],
     "runtime monitor with fault-injected inputs under ASan/UBSan",
     "Valid inputs with injected inconsistencies on " + SAN + "each of which has to be refused.")
prop("C14", "Motion mAP and soft mAP follow their definition",
     "Every measured prediction is put in the bucket of the shape of its ground truth (stationary, straight, straight-left, straight-right, turns, U-turns); the most confident matching mode is the one true positive, other matching "
     "modes are false positives for mAP and ignored for soft mAP. Each bucket is averaged by the area under the precision envelope, the result lies in [0, 1], and soft mAP is at least mAP.",
     ["inputs", "histories"], "every scenario, prediction, list of samples and grouping of scenarios",
     "The tests cover one curve and one prediction per shape.",
     ["metrics/motion_metrics.cc", "metrics/motion_metrics_utils.cc"],
     [("ComputeMeanAveragePrecision", "metrics/motion_metrics.cc"), ("ClassifyTrack", "metrics/motion_metrics_utils.cc")],
     "runtime monitor with independent classification and precision/recall reference under ASan/UBSan",
     "Random scenarios and sample lists on " + SAN + "compared with an independent implementation.")
prop("C15", "Segmentation metrics are the intersections over unions of everything seen",
     "After any history of updates, resets and reads, the per-class IoU is the number of points of the class in both ground truth and prediction over the number in either, counted over the points whose ground truth is an "
     "evaluated class, 1 for a class never seen, and the mean IoU is their average. Merging measurements of several runs, in any grouping, gives the metrics of the union, without overflow.",
     ["inputs", "histories"], "every list of classes and every sequence of updates, resets, reads and merges",
     "The tests update once or twice with three points each.",
     ["metrics/segmentation_metrics.cc"],
     [("SegmentationMetricsIntersectionOverUnion::Update", "metrics/segmentation_metrics.cc"), ("ComputeIouFromMeasurements", "metrics/segmentation_metrics.cc")],
     "runtime monitor replaying update histories against a recount under ASan/UBSan",
     "Random histories on " + SAN + "compared with a recount of the points.")
prop("C16", "The metric programs report the metrics of the files they are given",
     "The detection, tracking, LET and segmentation programs group the objects of two files by frame (segment and timestamp, sorted in time), drop ground truths that no laser point or camera sees, take levels from point counts, and "
     "print the metrics of exactly those frames, including frames without predictions. create_submission puts every object of every file in the submission it writes, and the latency comparison accepts exactly results that "
     "equal the reference within the tolerance.",
     ["inputs", "histories"], "every pair of well-formed input files, however ordered or split, and every set of flags",
     "The programs have no tests; one shell example per program is documented.",
     ["metrics/tools/compute_detection_metrics_main.cc", "metrics/tools/compute_tracking_metrics_main.cc", "metrics/tools/compute_segmentation_metrics_main.cc",
      "metrics/tools/compute_detection_let_metrics_main.cc", "metrics/tools/create_submission.cc", "latency/compare_objects_file_to_submission_main.cc"],
     [("Compute", "metrics/tools/compute_tracking_metrics_main.cc"), ("Run", "metrics/tools/create_submission.cc"), ("main", "latency/compare_objects_file_to_submission_main.cc")],
     "runtime monitor on the programs' outputs under ASan/UBSan",
     "The programs' own main(), built with AddressSanitizer and UndefinedBehaviorSanitizer, runs in a child process on random files; what it prints or writes is compared with the library called on independently grouped frames.")
prop("C17", "A motion scenario converts to the example layout without loss or invention",
     "Converting a valid scenario gives, per agent row and step, that agent's state, type, flags and difficulty (modeled agents by id, then context agents by distance to the self-driving car), per traffic light its state and position, and "
     "per map feature the points along it at the configured spacing with unit directions, in the documented order of types. Missing values are -1 and marked invalid, every tensor has the configured size, and invalid scenarios or limits are refused.",
     ["inputs"], "every scenario and conversion configuration",
     "The tests convert one scenario and compare selected features.",
     ["data_conversion/scenario_conversion.cc"],
     [("ScenarioToExample", "data_conversion/scenario_conversion.cc"), ("AddInterpolatedRoadGraphSamples", "data_conversion/scenario_conversion.cc"), ("AddPolygonSamples", "data_conversion/scenario_conversion.cc")],
     "runtime monitor with independent feature layout under ASan/UBSan",
     "Random scenarios and configurations on " + SAN + "compared with an independent layout of the features.")


prop("C18", "Camera projections follow the calibration and the rolling shutter",
     "A point projects to the pixel and depth that the lens, the pose and the moment at which that pixel is exposed give, for still or moving cameras and points, within the stated linearisation; image to world is its inverse. "
     "A point behind the camera, too distorted or not placeable is refused with coordinates set outside the image, and the bounds flag only changes the answer, not the coordinates.",
     ["inputs"], "every calibration, vehicle motion, shutter direction, point and velocity",
     "The tests project a few points of one recorded frame.",
     ["wdl_limited/camera/camera_model.cc"],
     [("CameraModel::WorldToImageMovingPointWithDepth", "wdl_limited/camera/camera_model.cc"), ("CameraModel::ImageToWorld", "wdl_limited/camera/camera_model.cc"), ("CameraModel::DirectionToImage", "wdl_limited/camera/camera_model.cc")],
     "runtime monitor with an exact moving-camera oracle under ASan/UBSan",
     "Random cameras, motions and points on " + SAN + "compared with an exact camera whose pose is rotated and moved to the exposure of the pixel.")
prop("C19", "The TensorFlow operations compute what the library computes on the same rows",
     "DetectionMetrics, its state and result forms, TrackingMetrics, MotionMetrics, Match and the camera operations return what the library gives for the objects, frames, sequences, scenarios, batches and points that the rows of "
     "their tensors describe, whatever the order of the rows, in tensors of the documented shapes; states added over parts of the data give the result for all of it. Inputs whose sizes, indices or columns do not fit are refused: nothing is read outside a tensor or "
     "counted for another object.",
     ["inputs", "histories"], "every set of input tensors and configuration, and every split of the data into accumulated states",
     "The tests of the operations need TensorFlow and feed a few fixed tensors.",
     ["metrics/ops/detection_metrics_ops.cc", "metrics/ops/tracking_metrics_ops.cc", "metrics/ops/motion_metrics_ops.cc", "metrics/ops/utils.cc", "metrics/ops/metrics_ops.cc", "wdl_limited/camera/ops/camera_model_ops.cc"],
     [("ParseObjectFromTensors", "metrics/ops/utils.cc"), ("ParseScenarioAndPredictonsFromTensors", "metrics/ops/utils.cc"), ("DetectionMetricsStateOp", "metrics/ops/detection_metrics_ops.cc")],
     "runtime monitor on the registered kernels under ASan/UBSan",
     "The registered kernels, built with AddressSanitizer and UndefinedBehaviorSanitizer, run on random tensors; their outputs are compared with the library called on objects made from the same rows.")
prop("C20", "Metrics and projections can run in several threads at once",
     "The metrics of several inputs, and projections through one prepared camera model, can be computed by several threads at the same time, and the operations spread frames, sequences and scenarios over a pool of threads: there is no data race, and every thread "
     "gets the answer a single one would get.",
     ["schedules", "inputs"], "every interleaving of the threads",
     "No test runs more than one thread; the pools of the operations are not exercised without TensorFlow.",
     ["metrics/ops/detection_metrics_ops.cc", "metrics/ops/tracking_metrics_ops.cc", "metrics/ops/motion_metrics_ops.cc", "metrics/detection_metrics.cc", "metrics/tracking_metrics.cc", "metrics/motion_metrics.cc", "wdl_limited/camera/camera_model.cc"],
     [("DetectionMetricsOp::ComputeImpl", "metrics/ops/detection_metrics_ops.cc"), ("CameraModel::WorldToImageMovingPointWithDepth", "wdl_limited/camera/camera_model.cc")],
     "ThreadSanitizer on concurrent metrics and operations",
     "The library, the operations and the protos built with ThreadSanitizer; a race is reported from any pair of unordered accesses that a run makes. The pool of the TensorFlow library, which is not instrumented, is replaced by one whose synchronisation is.")

prop("C21", "Range images and point clouds describe the same points",
     "Every return of a range image becomes one point where the beam inclination, the column's azimuth, the range, the lidar's mounting and the per-pixel vehicle pose put it, with its features, camera projections and labels in the same row; "
     "pixels without a return give none. Building a range image from points puts the nearest point of a pixel there with its features, also across the seam, and turns back into the same points; compressed and parsed frames, "
     "of the Perception and of the Motion Dataset, keep this.",
     ["inputs"], "every lidar calibration, pose, range image and set of points",
     "The tests use TensorFlow, which is absent here, and a few fixed images; the stable ones do not touch range images.",
     ["utils/range_image_utils.py", "utils/frame_utils.py", "utils/womd_lidar_utils.py", "v2/perception/utils/lidar_utils.py"],
     [("extract_point_cloud_from_range_image", "utils/range_image_utils.py"), ("build_range_image_from_point_cloud", "utils/range_image_utils.py"), ("convert_range_image_to_point_cloud", "utils/frame_utils.py")],
     "runtime monitor with a geometric oracle",
     "The real Python code runs on a numpy stand-in of the TensorFlow operations it uses, on random lidars and frames; every point is compared with one computed by scalar geometry.")
prop("C22", "Boxes hold the points inside them and move with their frame",
     "A point is reported inside a box exactly if it is within its length, width and height along the box's own axes, and a box without extent holds none; corners are those of the turned box. "
     "Moving points and boxes between frames is the rigid transform of the poses (headings included), its own inverse when swapped, and rotation matrices follow yaw, pitch, roll.",
     ["inputs"], "every box, point, pose and batch shape",
     "The tests need TensorFlow and use a few fixed boxes.",
     ["utils/box_utils.py", "utils/transform_utils.py"],
     [("is_within_box_3d", "utils/box_utils.py"), ("transform_box", "utils/box_utils.py"), ("get_rotation_matrix", "utils/transform_utils.py")],
     "runtime monitor with a geometric oracle",
     "The real Python code on a numpy stand-in of the TensorFlow operations it uses; every answer is compared with scalar geometry, points on the surface excepted.")
prop("C23", "Sim agents submissions name the right agents and convert without loss",
     "The agents to simulate are those valid at the current time, the evaluated ones the SDC and the tracks to predict (for generation, all of them); a scene is accepted exactly when it has one trajectory, of full length in "
     "centre and heading, for each of them and for nothing else, and rollouts when they name the scenario and have the right number of such scenes. Scenarios, scenes and trajectories convert into each other with every state, size, type and validity kept, history joined with the simulated future. "
     "Metric features of log and rollouts are those of the evaluated agents, in one order, over the simulated steps.",
     ["inputs"], "every scenario, joint scene, set of rollouts and challenge",
     "The tests use one recorded scenario.",
     ["utils/sim_agents/submission_specs.py", "utils/sim_agents/converters.py", "utils/trajectory_utils.py", "wdl_limited/sim_agents_metrics/metric_features.py"],
     [("validate_joint_scene", "utils/sim_agents/submission_specs.py"), ("joint_scene_to_trajectories", "utils/sim_agents/converters.py"), ("compute_metric_features", "wdl_limited/sim_agents_metrics/metric_features.py")],
     "runtime monitor with an independent oracle",
     "The real Python code on a numpy stand-in of TensorFlow; tables of states are assembled from the protos by plain code and compared, single defects must be refused.")
prop("C24", "Sim agents features match their geometric definitions",
     "Speeds and accelerations are central differences with unknown ends, and their validity that of the steps used; the distance to the nearest object is the signed distance between the boxes, and time to collision that to the "
     "nearest object in front in the same direction. The distance to the road edge is signed by the side of the nearest edge, open or closed. A red light violation is a crossing of the stop point of the nearest lane while the "
     "signal is a red one, between two valid states.",
     ["inputs"], "every set of trajectories, boxes, road edges, lanes and traffic signals",
     "The tests check a few hand-made layouts.",
     ["wdl_limited/sim_agents_metrics/trajectory_features.py", "wdl_limited/sim_agents_metrics/interaction_features.py", "wdl_limited/sim_agents_metrics/map_metric_features.py",
      "wdl_limited/sim_agents_metrics/traffic_light_features.py", "utils/geometry_utils.py"],
     [("compute_kinematic_features", "wdl_limited/sim_agents_metrics/trajectory_features.py"), ("compute_distance_to_nearest_object", "wdl_limited/sim_agents_metrics/interaction_features.py"),
      ("compute_distance_to_road_edge", "wdl_limited/sim_agents_metrics/map_metric_features.py"), ("compute_red_light_violation", "wdl_limited/sim_agents_metrics/traffic_light_features.py")],
     "runtime monitor with an independent oracle",
     "The real Python code on a numpy stand-in of TensorFlow; every feature is compared with scalar geometry written from its definition, layouts on the edge of a decision excepted.")
prop("C25", "Occupancy and flow grids show the agents, metrics match the definitions",
     "A pixel of a step is occupied exactly if a sampled point of a valid agent of the class (observed up to now, occluded, or all) falls into it in the frame of the autonomous vehicle, and its flow is the mean way back to where those "
     "points were one waypoint earlier. Waypoints take or gather the steps of the configuration, AUC, soft IoU and end point error are averaged over the waypoints that have ground truth, and pictures blend the layers in order. "
     "Parsed examples hold every feature as written, and incomplete ones are refused.",
     ["inputs"], "every scene, configuration of the task, prediction and example",
     "The tests check a few pixels of one recorded scene.",
     ["utils/occupancy_flow_data.py", "utils/occupancy_flow_grids.py", "utils/occupancy_flow_metrics.py", "utils/occupancy_flow_renderer.py", "utils/occupancy_flow_vis.py"],
     [("render_occupancy_from_inputs", "utils/occupancy_flow_renderer.py"), ("render_flow_from_inputs", "utils/occupancy_flow_renderer.py"), ("create_ground_truth_waypoint_grids", "utils/occupancy_flow_grids.py"),
      ("compute_occupancy_flow_metrics", "utils/occupancy_flow_metrics.py"), ("parse_tf_example", "utils/occupancy_flow_data.py")],
     "runtime monitor with an independent oracle",
     "The real Python code on a numpy stand-in of TensorFlow; every pixel is computed point by point in double precision, the metrics by their definitions.")
prop("C26", "Keypoints keep their type and place, and their metrics match the definitions",
     "Tensors hold each labeled keypoint at the place of its type, missing points have visibility zero, and drawings join visible points of the skeleton only. Position errors, OKS, PCK and the pose estimation metric "
     "equal their definitions averaged over the points with ground truth, per point type and combined, with the sample weights. A matching pairs each object at most once, is the best one, prefers visible objects, and "
     "the reordered rows hold the pairs, then the missed and the spurious objects.",
     ["inputs"], "every set of keypoints, boxes, thresholds, weights and matchings",
     "The tests check hand-written poses of a few points.",
     ["metrics/python/keypoint_metrics.py", "utils/keypoint_data.py", "utils/keypoint_draw.py"],
     [("box_displacement", "metrics/python/keypoint_metrics.py"), ("PoseEstimationMetric", "metrics/python/keypoint_metrics.py"), ("create_laser_keypoints_tensors", "utils/keypoint_data.py"),
      ("build_laser_wireframe", "utils/keypoint_draw.py")],
     "runtime monitor with an independent oracle",
     "The real Python code on a numpy stand-in of TensorFlow; metrics are summed point by point with plain arithmetic, matchings compared with an exhaustive search, the C++ matching operation recorded.")
prop("C27", "The rater feedback score rates predictions by the nearest rater trajectory",
     "At 3 and at 5 seconds a prediction gets the best label of a rater trajectory, in full within its trust region and decayed by the distance beyond it; the mean of both counts by its probability, and is not below the minimum "
     "when no rater trajectory contains it at both moments. Regions follow the direction of the rater trajectory and the initial speed. Rater trajectories, their waypoints and labels are padded with the last one or cut to the expected "
     "numbers, and inputs of wrong shape are refused.",
     ["inputs"], "every set of rater trajectories, labels, predictions, probabilities, speed and configuration",
     "The tests check a handful of trajectories.",
     ["metrics/python/rater_feedback_utils.py"],
     [("get_rater_feedback_score", "metrics/python/rater_feedback_utils.py")],
     "runtime monitor with an independent oracle",
     "The real code on random trajectories; every score, region and choice is compared with one computed by scalar code from the definition.")
prop("C28", "Compressed range images and rays come back within their precision",
     "A compressed range image decodes to the same shape with every pixel within half the precision of its channel, zeros stay zeros, the array given is left alone, and data stored in the documented format decodes whoever "
     "wrote it. Tiles and their combination are inverse, and the PCA codec quantizes the documented projection and restores it up to half a step for each coefficient; rays keep key and shape. Intersections of rays with "
     "boxes and changes of frames agree with the geometry, with negative distances behind the origin and for rays that miss.",
     ["inputs"], "every range image, precision, grid, codec, ray, box and pose",
     "The tests compress a few dense random images, and do not look at the array given nor at rays past a box.",
     ["utils/compression/delta_encoder.py", "utils/compression/tiling.py", "utils/compression/pca_codec.py", "v2/perception/utils/object_asset_codec.py", "v2/perception/utils/object_asset_utils.py"],
     [("compress", "utils/compression/delta_encoder.py"), ("decompress", "utils/compression/delta_encoder.py"), ("Codec.encode", "utils/compression/pca_codec.py"), ("get_ray_box_intersects", "v2/perception/utils/object_asset_utils.py")],
     "runtime monitor with an independent oracle",
     "Reference encoder and decoder of the format written pixel by pixel, tiles by index, projections in double precision, rays by intervals.")
prop("C29", "Components of the v2 dataset survive their columns, and merged tables join them",
     "Every component turns into one column for each field, named and typed by its schema, and comes back equal from any row that holds these columns, whatever other columns the row has; the dataset's components keep "
     "the columns of its files. merge gives each pair of rows with equal common keys, and the rows without partner that the kind of join asks for, once and with unchanged values, and groups rows by their common keys "
     "where asked to. Arrays and pictures have the stored shape and values.",
     ["inputs"], "every component type, instance, row and pair of tables",
     "The tests use a few fixed components and tables, and need pyarrow and dask.",
     ["v2/component.py", "v2/dataframe_utils.py", "v2/column_types.py", "v2/typing_utils.py", "v2/__init__.py", "v2/perception/base.py", "v2/perception/box.py", "v2/perception/camera_image.py", "v2/perception/context.py",
      "v2/perception/keypoints.py", "v2/perception/lidar.py", "v2/perception/object_asset.py", "v2/perception/pose.py", "v2/perception/segmentation.py"],
     [("Component.from_dict", "v2/component.py"), ("Component.schema", "v2/component.py"), ("merge", "v2/dataframe_utils.py"), ("RangeImage.tensor", "v2/perception/lidar.py")],
     "runtime monitor with an independent oracle",
     "The real Python code with stand-ins of pyarrow's types, dask and TensorFlow; columns are derived from the field tree that made the class, joins from nested loops over lists of rows.")
prop("C30", "Extractors copy every field of a v1 frame into the v2 component unchanged",
     "Each extractor gives one component whose key names the segment, time, sensor and object of its source, and whose columns hold exactly the stored values, or none when the frame has no such data. Boxes, keypoints and "
     "range images that are incomplete or unreadable are refused rather than filled up. The declared component and schema are those of the result, and both versions number their enumerations alike.",
     ["inputs"], "every frame, label, image, laser and calibration",
     "The tests check a few hand-written protos, and need TensorFlow and pyarrow.",
     ["v2/perception/compat_v1/box.py", "v2/perception/compat_v1/camera_image.py", "v2/perception/compat_v1/context.py", "v2/perception/compat_v1/interfaces.py", "v2/perception/compat_v1/keypoints.py",
      "v2/perception/compat_v1/lidar.py", "v2/perception/compat_v1/pose.py", "v2/perception/compat_v1/segmentation.py", "v2/perception/utils/lidar_utils.py"],
     [("LiDARBoxComponentExtractor", "v2/perception/compat_v1/box.py"), ("LiDARComponentExtractor", "v2/perception/compat_v1/lidar.py"), ("CameraImageComponentExtractor", "v2/perception/compat_v1/camera_image.py"),
      ("parse_range_image", "v2/perception/utils/lidar_utils.py")],
     "runtime monitor with an independent oracle",
     "The real extractors on frames written field by field; the columns are written down while the frame is filled, range images compressed by the harness.")
prop("C31", "Camera segmentation labels keep every pixel's class and instance",
     "Encoding, saving and decoding panoptic labels give back each pixel's class, instance, coverage and tracking flag, for both versions of the labels. Decoding several frames gives instances the same id if and only if "
     "they have the same sequence and global id, below the divisor returned, and labels that a divisor cannot hold are refused. Pictures show the class color with the clipped instance offset, loaded frames belong to one "
     "sequence, and the metric object sees the predictions as they are, untracked instances as crowd, and the coverage weights.",
     ["inputs"], "every set of labels, divisor, prediction and color map",
     "The tests decode two labels of four pixels, with small ids and a small divisor.",
     ["utils/camera_segmentation_utils.py", "wdl_limited/camera_segmentation/camera_segmentation_metrics.py"],
     [("decode_multi_frame_panoptic_labels_from_segmentation_labels", "utils/camera_segmentation_utils.py"), ("save_panoptic_label_to_proto", "utils/camera_segmentation_utils.py"),
      ("get_metric_object_by_sequence", "wdl_limited/camera_segmentation/camera_segmentation_metrics.py")],
     "runtime monitor with an independent oracle",
     "The real Python code with stand-ins of TensorFlow's pictures and scikit-image's relabeling; classes and instances are known from the generation of the labels. The metric object is a recorder.")
prop("C32", "A plot of a map shows every feature of it",
     "The plot of a map has one line for every feature with points: its points in order, closed for crosswalks, speed bumps and driveways, in the colour and dash of its type, wider for lanes. Every point is also drawn in that colour. "
     "Features without points are left out, and the map is not changed.",
     ["inputs"], "every list of map features with distinct ids",
     "Tests plot one feature of some types.",
     ["utils/plot_maps.py", "protos/map.proto"],
     [("plot_map_points", "utils/plot_maps.py"), ("plot_map_features", "utils/plot_maps.py")],
     "runtime monitor with an independent oracle",
     "The real plotly figure is built and its traces are compared with the features.")
prop("C33", "The latency evaluation runs every frame once and keeps its detections",
     "The latency evaluator initializes the model once, runs it once per frame with exactly the requested arrays, saves its output unchanged and reports the time of that call alone; a model without the three outputs of equal "
     "length is refused. The objects file holds every detection of every frame with its box, type, score, context, time and, for 2D, the camera of the only input, except those that are no valid object; other inputs of a 2D "
     "model are refused.",
     ["inputs"], "every data directory and model output",
     "There are no tests of the latency evaluation.",
     ["latency/wod_latency_evaluator.py", "latency/make_objects_file_from_latency_results.py"],
     [("process_example", "latency/wod_latency_evaluator.py"), ("make_object_list_from_subdir", "latency/make_objects_file_from_latency_results.py")],
     "runtime monitor with an independent oracle",
     "The real scripts run as programs in scratch directories, with a submission module that records its calls and clocks that only the model and the loading of files advance.")
prop("C34", "Python metric wrappers hand over every row and name every result",
     "After any sequence of updates, the detection, tracking and motion metrics in Python pass the operation exactly the rows of all updates, each under its own name, with the documented defaults for inputs left out, and "
     "metrics of different kinds do not mix. Each breakdown name maps to the operation's value for that breakdown. The detection evaluator starts over after result or reset, a refused update changes nothing, and the matcher "
     "passes on its boxes, threshold and tolerance.",
     ["inputs", "histories"], "every configuration and sequence of updates",
     "The tests need TensorFlow's compiled operations and make one or two updates with all inputs present.",
     ["metrics/python/detection_metrics.py", "metrics/python/tracking_metrics.py", "metrics/python/motion_metrics.py", "metrics/python/wod_detection_evaluator.py", "metrics/python/matcher.py", "metrics/ops/py_metrics_ops.py"],
     [("get_detection_metric_ops", "metrics/python/detection_metrics.py"), ("get_tracking_metric_ops", "metrics/python/tracking_metrics.py"), ("get_motion_metric_ops", "metrics/python/motion_metrics.py"),
      ("update_state", "metrics/python/wod_detection_evaluator.py"), ("match", "metrics/python/matcher.py")],
     "runtime monitor over recorded operations",
     "The real Python code with an operation library that records what it gets and returns known values; the operations themselves are judged by C19.")
prop("C35", "Sim agents scores are the likelihoods of the log under the simulations",
     "The estimate of a logged value is its log probability under the simulated values of the configured scope (the object or all, the step or all): the smoothed share of its bin, the smoothed share of equal flags, or the kernel "
     "density over its maximum, never above one. Metrics average them over the steps where the log is valid (vehicles only for time to collision and traffic lights), rates count objects with a violation, the meta metric and "
     "buckets are weighted by the configuration, whose weights add up to one.",
     ["inputs"], "every estimator configuration, log, set of rollouts and weights",
     "The tests check single layouts and one recorded scenario.",
     ["wdl_limited/sim_agents_metrics/estimators.py", "wdl_limited/sim_agents_metrics/metrics.py"],
     [("log_likelihood_estimate_timeseries", "wdl_limited/sim_agents_metrics/estimators.py"), ("compute_scenario_metrics_for_features_bundle", "wdl_limited/sim_agents_metrics/metrics.py"),
      ("aggregate_metrics_to_buckets", "wdl_limited/sim_agents_metrics/metrics.py")],
     "runtime monitor with an independent oracle",
     "The real Python code on a numpy stand-in of TensorFlow; likelihoods are counted value by value with plain arithmetic, metrics assembled from them.")
prop("C36", "Scenario helpers compare, augment and draw exactly what they are given",
     "Two examples are equal exactly when they have the same features of the same kinds, with floats within the tolerance and everything else identical. Camera tokens are appended to a copy of the scenario and looked up row by row; "
     "tokens outside the codebook are refused. Each frame of an animation shows exactly the boxes of its step, at their place and heading, over the road edges and lines of the map.",
     ["inputs"], "every example, token list and scenario",
     "Tests compare a few examples and one token list; the drawings have no tests.",
     ["utils/example_utils.py", "utils/womd_camera_utils.py", "utils/sim_agents/visualizations.py"],
     [("examples_equal", "utils/example_utils.py"), ("add_camera_tokens_to_scenario", "utils/womd_camera_utils.py"), ("get_animated_states", "utils/sim_agents/visualizations.py")],
     "runtime monitor with an independent oracle",
     "The real helpers run on random inputs; drawings go to an axis that records the shapes, which are compared corner by corner.")
