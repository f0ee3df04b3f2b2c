"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/waymo_open_dataset/"
P = []


def p(id, title, statement, over, qtext, why, files, mech, state=None):
    a = {"files": [S + f for f in files], "mechanism": mech}
    if state:
        a["state"] = state
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})


p("C01", "Optimal matching is one-to-one, eligible and of maximum total weight",
  "For every set of predictions and ground truths and every chosen subset of them, optimal (Hungarian) matching pairs each prediction with at most one ground truth and vice versa, pairs only objects of the same class whose overlap reaches that class's threshold (and, with longitudinal tolerance enabled, lie inside the tolerance), and the total quantised overlap of the reported pairs is the maximum any such pairing can reach. The two reported match lists describe the same pairs, have the sizes of the subsets, and depend only on the current inputs, not on earlier calls on the same matcher.",
  ["inputs", "histories"], "all object sets, class labels, overlap matrices, thresholds, subsets, and sequences of calls that switch subsets or objects on one matcher instance",
  "A test fixes a handful of matrices; optimality is a comparison with all other assignments, and stale caches or output vectors only show up for particular call sequences.",
  ["metrics/matcher.cc", "metrics/matcher.h", "metrics/hungarian.cc"],
  "HungarianMatcher::Match over MatchingWeight/CanMatch with caches; Hungarian()")
p("C02", "Score-first matching is the greedy rule in score order",
  "For every input, score-first matching behaves as if predictions were considered in descending score order, each taking the still-free eligible ground truth with which it has the largest matching weight, and staying unmatched only if no eligible ground truth is free. The result is one-to-one, uses each subset's own objects, and does not depend on earlier calls on the same matcher.",
  ["inputs", "histories"], "all object sets, scores (ties included), overlaps, thresholds, arbitrary non-identity subsets, call sequences",
  "The rule is a claim about every processing order consistent with the scores; subset and index confusions only show for subsets that are not a prefix of the object list.",
  ["metrics/matcher.cc", "metrics/matcher.h"], "ScoreFirstMatcher::Match")
p("C03", "Tracking accounting per frame and identity continuity",
  "Frame by frame, a correspondence that is still present and above threshold is always kept, the rest are matched by the configured matcher, and exactly the remaining hard-enough-to-count ground truths are misses and the remaining predictions outside no-label zones are false positives; matches plus misses equal the counted ground truths. An identity switch is counted exactly when a ground truth's new partner differs from its last known one, or a prediction takes over from a ground truth that has left, and the remembered mapping is one-to-one and survives gaps. Costs, counts and per-frame details agree with these pairs.",
  ["histories", "inputs"], "all sequences of frames with objects appearing, disappearing, swapping, repeated prediction ids, class changes, any difficulty and no-label-zone flags",
  "The counters depend on the whole history of mappings; tests replay a few short scripted sequences.",
  ["metrics/mot.cc", "metrics/mot.h"], "MOT::Eval and its gt/pd mapping state", "gt_pd_matchings_, pd_gt_matchings_, measurement_")
p("C04", "Tracking metrics aggregate scenes and pick the best operating point",
  "For every breakdown, difficulty and score cutoff, tracking measurements count exactly the objects of that breakdown shard with score at or above the cutoff, each cutoff evaluated independently over the frames of a scene, and scenes add up. The reported ratios are the summed counts over the summed ground truths, and the reported operating point is the cutoff with the highest accuracy, the precision being average cost per match there.",
  ["inputs", "histories", "configurations"], "all scenes, score cutoffs (ties), breakdown and difficulty configurations, and orders/splits of scenes",
  "It relates results over many configurations and splits of the same data; unit tests use one scene and one or two cutoffs.",
  ["metrics/tracking_metrics.cc", "metrics/mot.cc", "metrics/metrics_utils.cc"], "ComputeTrackingMeasurements / ComputeTrackingMetrics / merge")
p("C05", "Detection counts classify every object exactly once",
  "For each breakdown, difficulty and score cutoff, a frame's true positives are the matched pairs that satisfy the heading requirement, false positives the unmatched predictions at or above the cutoff and outside no-label zones, and false negatives the unmatched ground truths no harder than the level, considering only objects of that breakdown; for breakdowns defined only on ground truth, a prediction counts against the breakdown of the ground truth it overlaps most. The summed heading accuracy and longitudinal affinity are those of the true positives, and the reported details list the same objects as the counts.",
  ["inputs", "configurations"], "all frames of objects with any class, score, difficulty, no-label-zone flag, heading and speed, and all configurations of breakdowns, cutoffs, difficulties and matchers",
  "The classification is a case analysis over combinations of flags, breakdown kinds and matcher outcomes that tests sample at a few points.",
  ["metrics/detection_metrics.cc", "metrics/metrics_utils.cc"], "ComputeDetectionMeasurements, IsTP/IsFP/IsDetectionFN, FindGTWithLargestIoU")
p("C06", "Precision, recall and average precision follow from the counts",
  "Precision and recall at each cutoff are the ratios of the merged counts (with the configured minimum precision applied), heading- and affinity-weighted variants use the weighted true positives, and average precision is the area under the curve in which precision at a recall is the best precision at that or any higher recall, gaps wider than the configured recall step being filled conservatively. The value never exceeds one, is independent of the order of the points and never decreases when a point improves.",
  ["inputs"], "all lists of precision/recall points and all measured counts, in any order, with duplicates, zeros and gaps",
  "Curve handling has many corner orders (duplicate recalls, zero recall, gaps exactly at the step); tests cover a few curves.",
  ["metrics/metrics_utils.cc", "metrics/detection_metrics.cc"], "ComputeMeanAveragePrecision, ComputeDetectionMetrics from measurements")
p("C07", "Detection measurements merge like sums, and cutoffs cover the scores",
  "Merging per-frame measurements adds counts, weighted sums and details per breakdown and cutoff, so the result depends only on the collection of frames and not on their order or grouping. When score cutoffs are not given, the estimated ones are sorted, number as requested, end at one, and, when there are more scores than cutoffs, start at the lowest evaluated score and split the scores of the evaluated predictions evenly (otherwise they form a uniform grid from zero to one).",
  ["inputs", "histories"], "all ways to split and order a dataset's frames, and all score lists and requested numbers of cutoffs",
  "Order and grouping independence quantify over all partitions of a dataset.",
  ["metrics/detection_metrics.cc", "metrics/metrics_utils.cc", "metrics/tracking_metrics.cc"], "MergeDetectionMeasurements, EstimateScoreCutoffs, DecideScoreCutoffs")
p("C08", "Breakdown shards partition objects and line up with names",
  "Every object falls into exactly one shard of each breakdown or explicitly into none, as a function of its type, range, size, speed or camera as the breakdown defines with half-open boundaries; subsets contain exactly the objects of their shard at or above each cutoff, keeping order. Metric results, breakdown names from the C++ utility and names from the Python utility are in the same order with the same count.",
  ["inputs", "configurations"], "all objects (boundary values included) and all configurations of breakdown generators and difficulties",
  "Alignment between three independent enumerations holds per configuration; tests check one or two.",
  ["metrics/breakdown_generator.cc", "metrics/config_util.cc", "metrics/python/config_util_py.py", "metrics/metrics_utils.cc"], "BreakdownGenerator::Shard, GetBreakdownNamesFromConfig, BuildSubsets")
p("C09", "Box overlap is intersection over union of the boxes",
  "For every pair of boxes of positive size the overlap is the area (or volume) of their intersection divided by that of their union: symmetric, between zero and one, one exactly for equal boxes, zero for disjoint or merely touching ones, unchanged by a common translation or rotation, and for the axis-aligned kind independent of heading.",
  ["inputs"], "all pairs of boxes: positions, sizes, headings, box kinds, including shared edges, containment and exact overlaps",
  "Degenerate contacts (shared edges, corners on edges, near-parallel sides) form a space of measure zero that samples miss.",
  ["metrics/iou.cc", "math/polygon2d.cc", "math/box2d.cc", "math/segment2d.cc"], "ComputeIoU, Polygon2d::ComputeIntersectionArea")
p("C10", "Longitudinal-error-tolerant alignment and affinity",
  "For every sensor position and pair of boxes, affinity falls linearly from one at no error along the line of sight to zero at the range-proportional tolerance (never below the minimum tolerance) and is zero beyond. Each range-alignment mode moves the prediction only along its line of sight and to the point its definition names (the one closest to the ground truth, or left in place where the mode does not pull), centre alignment moves it onto the ground truth's centre; size and heading are left alone, and the tolerant overlap is the plain overlap of the aligned prediction with the ground truth.",
  ["inputs", "configurations"], "all sensor locations, box pairs, tolerances and alignment modes",
  "The modes differ only for particular relative orders of sensor, prediction and ground truth.",
  ["metrics/iou.cc"], "GetComputeLongitudinalAffinityFunc, AlignedPredictionBox, GetComputeLetIoUFunc")
p("C11", "Segmentation counts form an exact, mergeable confusion matrix",
  "For every list of predicted and labelled points, each point with a labelled, evaluated class contributes exactly one unit to its class pair, and everything else contributes nothing; per-class intersection-over-union is the diagonal over row plus column minus diagonal, the mean is over the evaluated classes, and merging per-frame results equals evaluating all points together regardless of order.",
  ["inputs", "histories"], "all label arrays, class lists, frame splits and merge orders",
  "Merging order and large counts are not sampled by tests.",
  ["metrics/segmentation_metrics.cc"], "SegmentationMetricsIntersectionAndUnion / MergeResults", "confusion matrix")
p("C12", "Motion submissions are accepted exactly when well formed",
  "A prediction set is evaluated only if it covers each agent that must be predicted exactly once, contains no other agent, gives every trajectory the required number of steps (joint sets: every required agent), and uses a consistent configuration; every ill-formed submission is rejected with an error rather than silently scored or crashing, and every well-formed one is accepted.",
  ["inputs", "configurations"], "all scenarios, prediction sets (missing, duplicate, unknown agents, wrong lengths, empty) and configurations",
  "The space of malformed submissions is combinatorial.",
  ["metrics/motion_metrics.cc", "metrics/motion_metrics_utils.cc"], "ValidatePredictions, ValidateConfig, ValidateScenarioPredictions")
p("C13", "Motion displacement, miss and overlap rates follow their definitions",
  "For each agent or joint set, minimum average and final displacement are minima over the considered trajectories of the distances at valid steps up to each measured horizon; a miss is declared exactly when no trajectory ends within the speed-scaled longitudinal and lateral thresholds at that horizon; the overlap rate counts an agent's most likely trajectory as overlapping when its box meets another valid agent's box. Agents or horizons without valid ground truth contribute nothing.",
  ["inputs", "configurations"], "all scenarios, validity masks, agent mixes, numbers of trajectories and horizons",
  "Validity masks, horizon offsets and joint predictions interact combinatorially.",
  ["metrics/motion_metrics.cc", "metrics/motion_metrics_utils.cc"], "ComputeMinADE, ComputeMinFDE, ComputeMissRate, ComputeOverlapRate")
p("C14", "Motion average precision assigns at most one true positive per agent",
  "Within each trajectory-shape bucket, average precision comes from sorting all predictions by confidence; per agent only the most confident prediction meeting the miss criterion is a true positive, all others are false positives (or ignored in the soft variant), and the mean is over the buckets that contain ground truth.",
  ["inputs", "histories"], "all confidences (ties), hit/miss patterns, bucket assignments and scenario streams",
  "The ranking is a global property of an accumulated stream.",
  ["metrics/motion_metrics.cc"], "ComputeMapMetric, BucketedMetricsAccumulator / average precision computation")
p("C15", "Motion metrics accumulate independently of order and bucket",
  "Aggregated metrics equal the average over the contributing agents of each object type and horizon, whatever the order in which scenarios are added; a scenario affects only the buckets of the object types it predicts, and the reported bundles come in the documented order of type and horizon.",
  ["histories"], "all sequences of scenarios added to an accumulator, including ones with types or horizons absent",
  "It quantifies over permutations of a stream of scenarios.",
  ["metrics/motion_metrics.cc", "metrics/config_util.cc"], "MotionMetrics / BucketedMetrics accumulation")
p("C16", "Trajectory shapes are classified consistently",
  "Each sufficiently observed future track is classified as stationary, straight, straight-left, straight-right, left turn, right turn, left u-turn or right u-turn by displacement, heading change and lateral offset from its current pose at its last valid step, tracks with too little valid future get no class, and mirroring a track swaps left and right while rotating or translating it changes nothing.",
  ["inputs"], "all tracks, validity masks, headings and speeds including threshold neighbours",
  "Tests cover one track per class.",
  ["metrics/motion_metrics_utils.cc"], "ClassifyTrack")
p("C17", "Scenario conversion keeps every agent's data in its own slot",
  "Converting a scenario places each track's states at one agent row and at the time column of the past, current and future features with validity flags equal to the source's; rows hold distinct tracks; the valid tracks to predict come first up to the configured number of modeled agents and are flagged, the self-driving car is flagged and included whenever it is valid now and there is room; the remaining rows are context agents, those valid now first and nearest the car first; all padding is marked invalid; a scenario that cannot be converted (no current step, bad indices, bad sizes) is rejected with an error and never crashes.",
  ["inputs", "configurations"], "all scenarios (track counts, orders, validity masks, prediction lists) and configuration sizes",
  "Slot assignment depends on counts and orders that tests do not vary.",
  ["data_conversion/scenario_conversion.cc"], "ScenarioToExample agent features")
p("C18", "Road-graph conversion samples every map feature faithfully",
  "Road-graph features contain the sampled points of each map feature in order with that feature's id and type, spaced as configured with unit direction to the next kept point and closed polygons closed; when the configured maximum is exceeded the kinds of highest priority are kept (lanes, road lines, stop signs, crosswalks, speed bumps, road edges, then driveways), in map order; unused rows are invalid.",
  ["inputs", "configurations"], "all maps (feature kinds, lengths, degenerate polylines) and sampling configurations",
  "Sampling boundaries and truncation depend on geometry tests do not vary.",
  ["data_conversion/scenario_conversion.cc"], "roadgraph feature extraction")
p("C19", "Traffic-signal features follow the signal history",
  "For every history of lane states, each time step's traffic-signal features list exactly that step's signals (up to the configured maximum) with their lane, state and stop point, and unused slots are invalid.",
  ["inputs", "histories"], "all signal histories with lanes appearing, disappearing and changing",
  "Tests use a single signal.",
  ["data_conversion/scenario_conversion.cc"], "traffic light feature extraction")
p("C20", "Lidar compression is lossless up to its quantisation",
  "For every array and precision, decompressing what was compressed gives back the array rounded to the precision with the same shape, zero runs and sign changes included, and the caller's array is left unchanged; the stream follows the published format (run lengths of alternating kind starting with non-zero pixels, residuals between successive non-zero pixels, channel by channel), and precisions that are not positive, of the wrong number or images with a side past 65535 are rejected.",
  ["inputs"], "all range-image arrays (shapes, runs of zeros, signs, magnitudes) and precisions",
  "A codec claim is over all inputs; tests use a few arrays.",
  ["utils/compression/delta_encoder.py"], "compress / decompress")
p("C21", "Rater feedback score takes the best-matching rated trajectory",
  "For every set of rated trajectories and predictions, at 3 and at 5 seconds each prediction gets the best, over the rated trajectories, of the rating decayed by how many trust-region sizes it lies outside that trajectory's region (turned along its heading, scaled by the initial speed); the two are averaged, raised to the floor unless the prediction is inside one trajectory's region at both times, and weighted by probability. Waypoints and trajectories are cut or padded with their last element, padding never influences the result, the order of trajectories is irrelevant, a faster start never shrinks the region, and inputs of unequal sizes are rejected.",
  ["inputs"], "all batches of predictions, rated trajectories, scores, speeds and frequencies",
  "Thresholds and decay make a piecewise function tests sample at a few points.",
  ["metrics/python/rater_feedback_utils.py"], "get_rater_feedback_score and helpers")
p("C22", "Map plots contain every map feature's points with its style",
  "Plotting a map yields, for each feature of each kind, exactly its points in order, as one line per feature (polygons closed; features of one position may be markers) with the feature's type style, and nothing for features without points; a map without any points draws nothing.",
  ["inputs"], "all maps over feature kinds, types and lengths",
  "Tests plot one feature of each kind.",
  ["utils/plot_maps.py"], "plot_map_features / add_points")
p("C23", "Simulation submissions are accepted exactly when well formed",
  "A simulated scene is accepted if and only if it contains exactly the objects to be simulated, once each, each with trajectories of the required number of steps in every coordinate, and a rollout set is accepted if and only if it names a scenario and has the required number of scenes, all well formed; what is rejected is rejected with a ValueError. The objects to simulate and to evaluate are those the challenge defines, each once.",
  ["inputs", "configurations"], "all scenarios and submissions (missing, extra, duplicate objects; short arrays; wrong counts)",
  "The space of malformed submissions is combinatorial.",
  ["utils/sim_agents/submission_specs.py"], "validate_joint_scene / validate_scenario_rollouts")
p("C24", "Dataset components survive flattening to columns and back",
  "For every component, flattening to columns and rebuilding gives an equal component, whatever other columns and column order the row has; column names are unique, only key columns are shared between components, the schema lists exactly those columns with their types, absent optional parts come back without values, fields of the same or similar names at different depths are not confused, and a row lacking a column is refused.",
  ["inputs"], "all component definitions (nesting, optional parts, similar names) and values",
  "The claim is over all component types users can define.",
  ["v2/component.py", "v2/column_types.py"], "Component.to_flatten_dict / from_dict")
p("C25", "Camera projection and its inverse agree",
  "For every calibrated camera, a point in front of the camera projects to the pixel given by the pinhole-with-distortion model, points behind it or outside the image are flagged, points whose distortion is too strong to trust are flagged and placed outside the image, projecting back at the same depth recovers the point, and with a rolling shutter the projection uses the camera pose (moving and turning with the vehicle from the pose's timestamp) at the middle of the exposure of that pixel's row or column; a camera used for image after image always answers for the latest.",
  ["inputs", "configurations"], "all camera calibrations, readout directions, poses and points",
  "Readout directions, distortion and motion interact; tests use one calibration.",
  ["wdl_limited/camera/camera_model.cc"], "WorldToImage / ImageToWorld / rolling shutter")
p("C26", "Submission packaging conserves predictions",
  "Packaging predictions into submission shards keeps every prediction that meets the score and validity rules exactly once with its fields unchanged, distributes them over the requested number of shards, and carries the submission metadata into every shard.",
  ["inputs", "configurations"], "all object lists (invalid boxes, low scores) and shard counts",
  "There is no test for the tool.",
  ["metrics/tools/create_submission.cc"], "Run: reading, filtering, sharding, writing")
p("C27", "Latency verification accepts exactly matching results",
  "Comparing a latency run with a submission accepts when the number of disagreeing objects is within the allowed fraction and rejects otherwise, where objects agree if a one-to-one frame-wise matching of the same class pairs them with overlap and score within tolerance; the outcome does not depend on object or frame order.",
  ["inputs"], "all pairs of object files",
  "There is no test for the tool.",
  ["latency/compare_objects_file_to_submission_main.cc"], "ReadObjectsFromFile, Compute")
p("C28", "Batched tensor inputs are split into frames without loss",
  "Parsing batched tensors groups rows by frame identifier into exactly the frames present, keeping row order and every field, and the metric operations return for each frame the results the libraries give for that frame's objects.",
  ["inputs"], "all batched inputs: interleaved frame ids, empty frames, optional tensors present or absent",
  "Interleavings of frame ids are not sampled by tests (which cannot run here).",
  ["metrics/ops/utils.cc", "metrics/ops/detection_metrics_ops.cc", "metrics/ops/tracking_metrics_ops.cc", "metrics/ops/matcher_ops.cc"], "ParseObjectFromTensors and the op kernels")

p("C29", "Joining component tables neither loses nor invents records",
  "Merging two component tables pairs exactly the records that agree on all key columns the tables share; nullable sides contribute their unmatched records once with nulls, a grouped side with further keys meets each shared key once with all its records in order, the result has every column of both tables, tables without records and keys of any type (numbers, texts, categories, which they keep) included, and the tables given are left unchanged.",
  ["inputs", "configurations"], "all pairs of tables (key sets, repeated and missing keys, key types, empty tables) and join options",
  "Joins are claims over all table contents; the tests, which cannot run here, join two rows.",
  ["v2/dataframe_utils.py"], "merge, _group_by, _how")
p("C30", "The command line metrics tools score the frames of their files against themselves",
  "The detection, camera-only detection and tracking tools group the objects of two files, in whatever order, into the frames (scenes, in order of time) they were seen in, leave out exactly the ground truths that do not count and grade the others, and print, by name, the metrics of exactly these frames under the tool's settings.",
  ["inputs"], "all pairs of files: order of objects, frames on one side only, several scenes and cameras, point counts and annotated difficulties",
  "There are no tests for the tools.",
  ["metrics/tools/compute_detection_metrics_main.cc", "metrics/tools/compute_detection_let_metrics_main.cc", "metrics/tools/compute_tracking_metrics_main.cc"], "Compute, GetConfig")
p("C31", "Version 1 frames become rows of the version 2 tables field by field",
  "For each kind of component the extractors give one row for an item that is there and complete, none for an item that is not there, and refuse an incomplete one; each column of the row has exactly the value of its field of the version 1 message, or its documented default or null when the field is not set, including keys, repeated fields in order and compressed range images, and the source is left unchanged.",
  ["inputs"], "all combinations of set and unset fields, repeated entries and values of version 1 frames, labels, images, calibrations and lasers",
  "Every subset of optional fields is a different input; the tests, which cannot run here, convert a sample frame.",
  ["v2/perception/compat_v1/box.py", "v2/perception/compat_v1/camera_image.py", "v2/perception/compat_v1/context.py", "v2/perception/compat_v1/keypoints.py", "v2/perception/compat_v1/lidar.py", "v2/perception/compat_v1/pose.py", "v2/perception/compat_v1/segmentation.py"], "component extractors")

p("C32", "Likelihood metrics of simulated agents",
  "The log likelihood of each logged value under the simulated samples is that of a smoothed histogram (clamped at its ends), Bernoulli or kernel density estimate over exactly the samples its configuration pools (objects, time steps, rollouts); the likelihood of a scene averages the steps that count for the feature (the validity masks for speeds, accelerations, vehicles), indications are gathered per object over the counted steps, rates are means over rollouts and objects, the metametric is the weighted sum of the likelihoods, and bucketed and aggregated metrics are the weighted and plain averages they are documented to be.",
  ["inputs"], "all combinations of estimator configurations, pools, validity masks, object types, weights and scenes within bounds",
  "Pools and masks combine in many ways and a wrong axis gives plausible numbers; the tests need TensorFlow and check single examples.",
  ["wdl_limited/sim_agents_metrics/estimators.py", "wdl_limited/sim_agents_metrics/metrics.py", "wdl_limited/sim_agents_metrics/metric_features.py"], "likelihood estimators, scenario metrics, aggregation")

p("C33", "Motion of and distances between simulated agents",
  "Speeds and accelerations are central differences over two steps, NaN at the ends, with turns wrapped to the smaller one and validity exactly where all differenced steps are valid; the distance to the nearest object is the signed distance between boxes with corners rounded by the given factor, over the other objects valid at the same step; the time to collision is the time at constant speeds to the nearest object that the object follows (ahead, within the heading and overlap limits, whatever the headings' wrap), at most 5 s; one row for each evaluated object, in order.",
  ["inputs"], "all trajectories, boxes, rounding factors, masks of validity and evaluation within the modelled grids, and random ones",
  "Geometry has many cases of positions, headings and masks; the tests need TensorFlow and sample a few.",
  ["wdl_limited/sim_agents_metrics/interaction_features.py", "wdl_limited/sim_agents_metrics/trajectory_features.py", "utils/geometry_utils.py", "utils/box_utils.py"], "features of simulated agents")

p("C34", "Simulated agents leave the road, or pass a red light, exactly when they do",
  "The distance of an object to the road's edge is that of the most outlying corner of its box to the nearest segment of an edge at its level, positive exactly on the outer side, at vertices too and for closed edges across the vertex that closes them; a red light violation is reported exactly at the steps at which a valid object on its nearest lane passes the stop point of that lane's signal while the signal shows a stop state, whatever the lengths, padding, order and number of lanes, edges, signals and objects; one row for each evaluated object, in order.",
  ["inputs"], "all positions against edges and lanes on small grids, sequences of signal states with gaps, validity masks, and random maps",
  "Signs at vertices and padded tensors have many cases; the tests need TensorFlow and sample a few.",
  ["wdl_limited/sim_agents_metrics/map_metric_features.py", "wdl_limited/sim_agents_metrics/traffic_light_features.py"], "compute_distance_to_road_edge, compute_red_light_violation")
p("C35", "Panoptic camera labels keep their instances apart, and alike across cameras and frames",
  "A panoptic label is its semantic class times the divisor plus its instance, and comes apart into the same two, whatever classes, instances and integer widths that fit; labels of many frames and cameras come to share one numbering in which two pixels have the same instance exactly when their frames' maps say so (same sequence, same global id), are of no global id when unmapped, and every id is below the divisor; pixels are weighed by how many cameras see them; frames are loaded and evaluated by sequence, in order, each once, and none mixed with another sequence's.",
  ["inputs"], "all label maps over small images, frames, cameras and sequences, and random ones of different integer types and divisors",
  "What ids collide depends on every combination of frames; the tests sample a few and need TensorFlow.",
  ["utils/camera_segmentation_utils.py", "wdl_limited/camera_segmentation/camera_segmentation_metrics.py"], "encode / decode / remap / colours / evaluation of panoptic labels")
p("C36", "Occupancy and flow grids show the agents where they are and where they came from",
  "Every occupancy grid, for past, present, each future step or waypoint and each type of agent, shows exactly the cells that points of the boxes of valid agents of that type fall in, in the frame of the vehicle (turned to its heading when asked), the observed and the occluded being those seen, or not, in the past or present; the flow of a cell leads back to where its agent was the waypoint's steps before, only where something was at both times; waypoints take the last step, or all steps of their interval when cumulative, and the flow origin is the occupancy at its start; roads are the valid samples in the grid and trails fade with age; scenes of a batch do not touch each other.",
  ["inputs"], "two agents seen or hidden at any step of a small grid, and random scenes of up to three agents, resolutions, turns and steps",
  "Grids depend on all combinations of validity, time, heading and place; the tests look at sums of one recorded scene and need TensorFlow.",
  ["utils/occupancy_flow_grids.py", "utils/occupancy_flow_renderer.py", "utils/occupancy_flow_data.py"], "create_ground_truth_timestep_grids / waypoint_grids / vis_grids")
p("C37", "Lidar pixels become the points they are, and points the pixels they are in",
  "Every pixel of a range image with a return becomes exactly one point, at its range along the ray of its row's inclination and its column's azimuth, from where the lidar is mounted and, for the top lidar, corrected by the pose of its own pixel, the same through the version 1 and the version 2 components and the dictionary; with its own features and camera projections, in order, for either return; a point put into a virtual range image is in the pixel whose row and column are nearest, and the nearest point of a pixel (with its features) is what the pixel shows; depth images show the distances of the points that project to a pixel; crops, uniform inclinations and encodings of features are exact and keep order; the delta-encoded lidars of scenarios are the images they were made from, and their points are found the same way.",
  ["inputs"], "lidars mounted any way (quarter turns and tilts), any widths, rows, inclinations, pixel poses and vehicle poses on a grid, and random ones",
  "Signs and orders of rotations, rows and columns cancel out in the few symmetrical cases tests use; they need TensorFlow.",
  ["utils/range_image_utils.py", "utils/frame_utils.py", "utils/transform_utils.py", "v2/perception/utils/lidar_utils.py", "v2/perception/compat_v1/lidar.py", "utils/womd_lidar_utils.py", "utils/compression/delta_encoder.py"], "convert_range_image_to_point_cloud, build_range_image_from_point_cloud, build_camera_depth_image")
p("C38", "Keypoint metrics judge each prediction against its object, and only by what may be judged",
  "Predictions are matched with objects so that first those whose labels have nothing visible claim the predictions inside of them (unless near a visible object's points) and then the rest is paired within the limit at the least total error; in line afterwards is every visible object once (matched or missed) and every other visible prediction as a false one, with their own points, boxes and zeros for the missing; position error, pose error with its penalty, share of correct points, visibility precision and recall, keypoint similarity (against the enlarged, turned box where nothing is labelled) and its precision are means over exactly the points their definitions name, for any subset and order of types and any split into updates; tensors hold the points, visibilities and boxes of their labels, in the order asked for.",
  ["inputs"], "two objects with two points seen, occluded or missing and all predictions from a set of places; random objects, weights, subsets, matchings and labels",
  "Which points and objects count depends on combinations of visibility on both sides; tests check single combinations and need TensorFlow and SciPy.",
  ["metrics/python/keypoint_metrics.py", "utils/keypoint_data.py"], "MeanErrorMatcher, BaseMatcher.reorder, KeypointsMetric subclasses, create_pose_estimation_tensors")
p("C39", "Boxes, frames and rays agree on what is where",
  "A point is in a box exactly when, seen in the frame of the box, it is no farther from the centre than half of each extent, borders included, and boxes without an extent hold nothing; counts are the counts of those points; the eight corners of a box come in their documented order and are its farthest points; points, directions, centres and headings carried from one frame to another are where the poses put them, carried back they are where they were, and sizes stay; roll, pitch and yaw turn in that order; a ray hits a box exactly when a point ahead on it is in the box, enters and leaves at the first and last such point, and there is no distance to a box that is not hit.",
  ["inputs"], "boxes with any extents (none included), turned or not, points in, at and beside their borders, frames that yaw, roll and pitch, batches, rays from all sides (parallel ones too); random ones",
  "Wrong signs, orders of rotations and forgotten axes cancel out in symmetrical examples; borders, missing extents and parallel rays are rare.",
  ["utils/box_utils.py", "utils/transform_utils.py", "v2/perception/utils/object_asset_utils.py"], "is_within_box_3d/2d, get_upright_3d_box_corners, transform_point/box, get_ray_box_intersects, transform_points_to_*")
p("C40", "Scenes simulated from a scenario hold its objects, and become the trajectories they say",
  "The objects to be simulated are those valid at the current step, in the order of the scenario; those evaluated are the AV and the objects to be predicted, each once, sorted (for generated scenes all that are simulated); the scene that follows the log has each of these objects once with its own positions, sizes, type and validity of exactly the steps the challenge simulates, and is refused when the scenario has another number of steps; a scene becomes trajectories with the history of the log before it, the log's types, the sizes of the current step, and the validity of the log or full validity, each object with its own whatever the order of the scene; generated scenes keep all their own values, and are valid throughout if the log is at the current step; slices and selections of trajectories hold exactly what was asked for, and selections by id of missing or repeated objects are refused.",
  ["inputs"], "all logs of up to two tracks over four or five steps (grown to the real number of steps), right and wrong numbers of steps; random scenarios, scenes in any order, sequences of slices and selections",
  "Objects are matched by id between two protos in different orders, for which tests use a single scenario in one order.",
  ["utils/trajectory_utils.py", "utils/sim_agents/converters.py", "utils/sim_agents/submission_specs.py"], "ObjectTrajectories, scenario_to_joint_scene, joint_scene_to_trajectories, simulated_scenariogen_to_trajectories, get_*_sim_agent_ids")
p("C41", "Tiles put together are the grid they were cut from, and tokens stand for their own vectors",
  "A grid of vectors is cut into the least number of square tiles, in rows, each holding its own part of the grid and beyond the last row and column its mirror image; put together they are the grid again, for any height, width, tile size and number of dimensions, and any tiles put together each fill their own place; tokens of cameras added to a scenario come after those it has and change nothing else, and tokens become the vectors at their places in the book, those outside of it being refused.",
  ["inputs"], "all grids of up to 6x6 (9x9) cells with tiles of up to 4 (6) that fit, random larger ones, random books and tokens",
  "Orders of axes only differ for grids with other numbers of tiles down than across and sides that tiles do not divide.",
  ["utils/compression/tiling.py", "utils/womd_camera_utils.py"], "extract_tiles, combine_tiles, add_camera_tokens_to_scenario, get_camera_embedding_from_codebook")
p("C42", "Latency runs time the model alone, on every frame, and what is gathered is what the last run of each frame found",
  "A submitted model is initialised once and then given exactly the fields it asks for, once for each frame of the data; the latencies written are the times of the model alone, one for each frame in the order they were run; results are kept by frame, those of a later run in place of an earlier one's, also when runs cover different parts of the data; the objects gathered are exactly the valid ones (score of 0.03 and sides of a centimetre or more) over all frames, with the context, time, box, type and score they were found with, and those found in an image with the camera of that image, which has to be the only input.",
  ["inputs", "histories"], "all two runs of models over all parts of two frames (four in a model), random data, models, fields, boxes and up to three runs",
  "What a run leaves behind only shows in the next ones, and there are no tests of these programs.",
  ["latency/wod_latency_evaluator.py", "latency/make_objects_file_from_latency_results.py"], "process_example, make_object_list_from_subdir and the programs")

BUILT = os.environ.get("BUILT", "").split() or [x["id"] for x in P
         if os.path.exists("%s/props/%s.py" % (V, x["id"].lower()))]
NOTE = {}
exec(open(V + "/tools/notes.py").read()) if os.path.exists(V + "/tools/notes.py") else None
NA = globals().get("NA", {})
with open(V + "/properties.jsonl", "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
TECH = ("TLA+ specification model-checked with TLC; conformance by replaying the model's behaviours "
        "through the code and validating recorded traces against the specification with TLC")
man = {"version": 1,
       "setup_cmd": "./setup",
       "checks": [{"property": i, "quick_cmd": "./check %s quick" % i,
                   "thorough_cmd": "./check %s thorough" % i, "technique": TECH,
                   "level": "model_checking",
                   "level_note": NOTE.get(i, "exhaustive within the bounds of the models named in the evidence; implementation bound by trace validation of the modelled and of seeded random inputs")}
                  for i in BUILT],
       "not_applicable": [{"property": x["id"], "reason": NA.get(x["id"], "check not built yet")}
                          for x in P if x["id"] not in BUILT],
       "notes": "TLA+ with TLC. See DESIGN.md."}
json.dump(man, open(V + "/MANIFEST.json", "w"), indent=1)
