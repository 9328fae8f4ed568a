"""Text of DESIGN.md that is kept per property."""
PROPS = {}
CAUGHT = {}
JUDGE = """- C16: label files are compared for [H, W] images; a result file without frames is skipped by the tool and by the oracle.
- C17: time stamps are compared to float precision; a spacing of the polylines above zero is a precondition; the order of context agents at equal distance is open.
- C18: dataset.proto documents the angular velocity in the global frame, the code uses it about the axes of the vehicle, and the
  demonstration of the data (a recorded frame in the tests) agrees with the code: the oracle follows the code. The solver is specified
  for points whose pixel moves by less than 0.3 of the image during the readout, with the error of its documented linearisations.
- C19: each row of a motion batch holds a scenario of its own; object ids fit in 32 bits (the field of the proto); scores within a bundle are distinct, because
  the order of scenarios and modes follows a hash table; a failed CHECK counts as a refusal (the operations refuse that way); float camera operations are
  judged on the inputs rounded to float, as the kernel gets them.
- C20: details and sums of tracking measurements follow the order of a hash table and are compared without it.
- C21-C35 run the Python code on `/verif/tfshim`, a numpy stand-in for the operations of TensorFlow (and the few of other missing
  packages) that the code uses, with their documented meaning, shapes and dtypes. An operation it lacks leaves the cases that came to it without a verdict (counted and noted), never an alarm.
- C21: two points in one pixel at ranges that differ by less than the rounding, and points at the border of two pixels, are not judged.
- C22: points within rounding of the surface are not judged.
- C23: feature values themselves are C24's.
- C24: layouts within rounding of a decision (an overlap of exactly zero, a tie of two lanes or edges, a heading exactly at the threshold) are not judged. Distances
  between boxes follow the documented rounded-box approximation of the corners.
- C35: values within rounding of the border of a bin are not judged; at least one step of one vehicle is valid (the autonomous vehicle always is), without which averages over no step are undefined.
- C26: the sense of rotation of headings is read from the code, and judged only by the case listed as a known finding: `box_displacement` turns boxes clockwise, as documented in `keypoint_data.BoundingBoxTensors` and pinned by an upstream test (`test_box_displacement_takes_into_account_heading`), while headings of dataset labels are counterclockwise. Hence OKS and the boxes of laser labels disagree for turned boxes. A repair would have to change that test or the callers' data.
- C25: the warp of `compute_occupancy_flow_metrics` is switched off at the pinned commit (it raises NotImplementedError since tensorflow-graphics is gone), so that the metrics run with warped grids which the monitor supplies; the warp itself is not claimed. Points within 0.002 pixels of the border between two pixels are not judged. Agents seen in the past but not now count as observed, as in the code (the comment in the proto speaks of the current step only).
- C29: pandas tables only (dask is not installed); rows with null keys are not judged, since pandas joins nulls with each other. The columns of the dataset's files are kept in `py/v2_columns.json`; further columns are accepted.
- C30: the id of a projected label is read as 22 characters, an underscore and the camera, as in the dataset. Depth keypoints of camera labels are not extracted and not claimed. Whether an incomplete box raises an assertion or an extraction error is not judged.
- C28: empty range images, and grids smaller than the padding of their last tile (which reflection cannot fill), are not claimed; nor is `fit_pca`, which needs sklearn. Rays along a face of the box or nearly parallel to one may be told either way.
- C31: DeepLab2's metric itself is not in the repository; the recorder judges what it is given and where its results go. Global ids are judged by which pixels share them, and by their value only where one sequence is decoded. Instances without a mapping in a label that has one are not generated.
- C34: variables are updated as the wrapper is called, not by a session that runs the update operation, so that the oracle sees the variables after each update. A default scenario id may be any text, as long as no two scenarios share it.
- C33: the comparison of the objects file with a submission is judged by C16. Docker and the shell script around the two scripts are not run. NaN scores are not generated.
- C32: a stop sign may be a line of one point, as an existing test requires, or a marker. Layout, axes and camera are not judged.
- C36: NaN values in examples and empty token lists are not generated. Matplotlib itself is a recorder.
"""
STRENGTHENED = """`segment_flip_heading` (C05 compared headings modulo a full turn only; it now also demands the principal range
once a heading was computed rather than given) and `tokens_wrap_around` (C36 asked for the refusal without judging the answer).

Besides the kept changes, some 420 further ones were written from the statements in rounds and run against the checks in scratch trees (not kept).
What they missed at first, and what was added for it:

- detection and tracking: details over several merged frames, precisions weighted by heading below the minimum, caps by the number of predictions,
  speeds that differ between the cutoffs, reuse of one matcher with other boxes;
- motion: ids that appear twice or not at all, measured boxes whose size changes between steps, scenario and object ids beyond 32 bits;
- the metric programs: runs without any prediction or label, frames that only one file has, scores that differ in either direction, labels without a heading
  in the camera-synchronised box;
- operations: agents of different and changing sizes, a scenario shared by several rows of a batch;
- merges and shards: measurements whose details only one side has, partial merges of detection measurements (C07), tracking measurements merged into
  empty ones and scenes without a frame (C11), every shard's name and objects exactly on the boundaries of sizes, places and speeds (C09);
- challenge entries: a joint prediction that names another asked object, empty last predictions (C13), a measurement step of 0 (C34);
- cameras: points that project exactly onto the edges of the image (C18); compressed ranges: counts beyond 32 bits and images of narrow types (C28);
- geometry: segments of length zero with a heading, arrangements whose cross products vanish in double arithmetic, stars with a point halfway an edge (C05),
  box pairs that are tiny in both directions or thousands of kilometres from the origin (C03);
- concurrency: the threads of C20 run before the single run they are compared with (so that races in first-use initialisation are visible, in 40 processes), and also use the
  segmentation metrics, the names and cutoffs and the camera models;
- sim agents: ramps and bridges (heights), cycles that nearly close, lanes of other types, rollouts with an agent twice, agents of id 0 and of no type;
- keypoints: hidden objects with rivals and occluded points next to visible objects, boxes whose sizes are not set, camera-synchronised boxes (C26);
- point clouds: points within centimetres of the sensor, poses exactly at the origin, inclinations all on one side (C21); maps with features of thousands
  of points (C32); segments of hundreds of frames and models that wait instead of computing (C33); example features without a kind, larger codebooks (C36);
- frames and boxes: wider inputs, tilted poses; rater feedback: steps of length one, early stops and longer label lists.

Judged not to break a statement, and so left alone: changes of the order among exact ties (overlap ranks, IoU ties, rounding of halves), behaviour on frames
listed twice in one file, the decimal rounding of submissions, and boxes with a side of zero in keypoint metrics.
Mutants of single tokens were run too (all the C++ checks but C19 and C20, and all Python harnesses: about 90% detected; the rest were equivalent, in code of another
property or in messages, and the few others led to the additions above)."""
