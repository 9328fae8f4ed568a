"""The Python wrappers of the metric operations (C34)."""
import types

import numpy as np
import tensorflow as tf
import vh
from waymo_open_dataset import label_pb2
from waymo_open_dataset.metrics.python import detection_metrics, matcher, motion_metrics, tracking_metrics, wod_detection_evaluator
from waymo_open_dataset.metrics.ops import py_metrics_ops
from waymo_open_dataset.protos import breakdown_pb2, metrics_pb2, motion_metrics_pb2

_ops = tf._op_libraries.setdefault("metrics_ops.so", types.SimpleNamespace())
_calls = []
_reply = {}


def _register(name, outputs):
  def op(*args, **kw):
    if args:
      if name != "match" or len(args) > 3:
        raise TypeError("only named arguments")
      kw = dict(kw, **dict(zip(("prediction_boxes", "groundtruth_boxes", "config"), args)))
    # What an operation gets is a snapshot: the variables go on changing.
    _calls.append((name, {k: v if isinstance(v, (bytes, str)) else tf.convert_to_tensor(v).numpy().copy() for k, v in kw.items()}))
    r = _reply[name]
    if not outputs:
      return tf.constant(r[0])
    import collections
    return collections.namedtuple("Out", outputs)(*[tf.constant(x) for x in r])
  setattr(_ops, name, op)


_DET = ["average_precision", "average_precision_ha_weighted", "average_precision_longitudinal_affinity_weighted", "precision_recall", "precision_recall_ha_weighted", "precision_recall_longitudinal_affinity_weighted", "breakdown"]
_register("detection_metrics", _DET)
_register("detection_metrics_state", None)
_register("detection_metrics_result", _DET)
_register("tracking_metrics", ["mota", "motp", "miss", "mismatch", "fp", "score_cutoff", "breakdown"])
_register("motion_metrics", ["min_ade", "min_fde", "miss_rate", "overlap_rate", "mean_average_precision"])
_register("match", ["prediction_ids", "groundtruth_ids", "ious", "longitudinal_affinities"])

_TYPES = ["TYPE_VEHICLE", "TYPE_PEDESTRIAN", "TYPE_SIGN", "TYPE_CYCLIST"]
_GENS = {
    "ONE_SHARD": ["ONE_SHARD"], "ALL_BUT_SIGN": ["ALL_BUT_SIGN", "SIGN"], "OBJECT_TYPE": ["OBJECT_TYPE_" + t for t in _TYPES],
    "RANGE": ["RANGE_%s_%s" % (t, r) for t in _TYPES for r in ("[0, 30)", "[30, 50)", "[50, +inf)")],
    "VELOCITY": ["VELOCITY_%s_%s" % (t, r) for t in _TYPES for r in ("STATIONARY", "SLOW", "MEDIUM", "FAST", "VERY_FAST")],
    "SIZE": ["SIZE_%s_%s" % (t, r) for t in _TYPES for r in ("small", "large")],
}
_BOX = {"TYPE_3D": 7, "TYPE_2D": 5, "TYPE_AA_2D": 4}


def _config(rng):
  c = metrics_pb2.Config()
  names = []
  for g in rng.sample(sorted(_GENS), rng.randint(1, 3)):
    c.breakdown_generator_ids.append(breakdown_pb2.Breakdown.GeneratorId.Value(g))
    levels = rng.choice([[], [1], [2], [1, 2], [2, 1]])
    c.difficulties.add().levels.extend(levels)
    names += ["%s_LEVEL_%d" % (s, l) for s in _GENS[g] for l in levels or [2]]
  box = rng.choice(sorted(_BOX))
  c.box_type = label_pb2.Label.Box.Type.Value(box)
  c.matcher_type = rng.choice([1, 2])
  c.iou_thresholds.extend([0.0] + [rng.choice([0.3, 0.5, 0.7]) for _ in range(4)])
  c.num_desired_score_cutoffs = rng.randint(2, 20)
  if rng.random() < 0.3:
    c.include_details_in_measurements = True
  return c, names, _BOX[box]


def _floats(r, *shape):
  return r.randint(-1000, 1000, shape).astype(np.float32) / 8


def _rows(r, n, side, dof, seq):
  d = {side + "_bbox": _floats(r, n, dof), side + "_type": r.randint(0, 5, n).astype(np.uint8), side + "_frame_id": r.randint(-3, 1 << 40, n).astype(np.int64)}
  if side == "prediction":
    d["prediction_score"] = (r.randint(0, 101, n) / 100).astype(np.float32)
    d["prediction_overlap_nlz"] = r.randint(0, 2, n).astype(bool)
  else:
    d["ground_truth_difficulty"] = r.randint(0, 3, n).astype(np.uint8)
    d["ground_truth_speed"] = _floats(r, n, 2)
  if seq:
    d[side + "_sequence_id"] = np.array([b"s%d" % x for x in r.randint(0, 4, n)], object)
    d[side + "_object_id"] = r.randint(-5, 1 << 40, n).astype(np.int64)
  return d


def _tensors(d):
  return {k: tf.constant(v.tolist(), dtype=tf.string) if v.dtype == object else tf.constant(v) for k, v in d.items()}


def _cat(rows):
  return {k: np.concatenate([x[k] for x in rows], 0) for k in rows[0]}


def _same(call, name, want, config, what):
  op, kw = call
  vh.expect(op == name, what + "-operation", op)
  cfg = kw.pop("config", b"")
  cfg = cfg.encode("latin1") if isinstance(cfg, str) else cfg
  vh.expect(type(config).FromString(cfg) == config, what + "-config", "")
  vh.expect(set(kw) == set(want), what + "-inputs", lambda: "%s" % sorted(set(kw) ^ set(want)))
  for k in want:
    a, b = np.asarray(kw[k]), want[k]
    if b.dtype == object:
      a = np.array([x.encode() if isinstance(x, str) else x for x in a.ravel().tolist()], object).reshape(a.shape)
    vh.expect(a.dtype == b.dtype and a.shape == b.shape and (a == b).all(), what + "-input", lambda: "%s: %s %s %s instead of %s %s %s" % (k, a.dtype, a.shape, a.tolist(), b.dtype, b.shape, b.tolist()))


def _values(ops, want, what):
  vh.expect(set(ops) == set(want), what + "-names", lambda: "%s" % sorted(set(ops) ^ set(want)))
  for k, (value, update) in ops.items():
    v = value.numpy()
    vh.expect(v.shape == () and v == want[k], what + "-value", lambda: "%s: %s instead of %s" % (k, v, want[k]))
    vh.count("values")
  if ops:
    # A graph accumulates only what it is told to run: running all the update ops once must extend every variable once.
    runs = [u for _, update in ops.values() for u in getattr(update, "__dict__", {}).get("_updates", ())]
    vh.expect(sorted(runs) == sorted(tf._assigned), what + "-update-op", lambda: "the update ops run %d updates of %d variables, of %d" % (len(runs), len(set(runs)), len(tf._assigned)))
    vh.count("update_ops")
  tf._assigned.clear()


class _Detection:
  op = "detection_metrics"

  def __init__(self, rng, r):
    self.config, self.names, self.dof = _config(rng)
    self.rows = []

  def update(self, rng, r):
    n, m = rng.choice([0, 1, 3, 6]), rng.choice([0, 1, 2, 5])
    d = dict(_rows(r, n, "prediction", self.dof, False), **_rows(r, m, "ground_truth", self.dof, False))
    kw = _tensors(d)
    if rng.random() < 0.3:
      del kw["ground_truth_speed"]
      d["ground_truth_speed"] = np.zeros((m, 2), np.float32)
      vh.count("default_speeds")
    self.rows.append(d)
    b, cut = len(self.names), rng.choice([1, 4, 9])
    out = [r.randint(0, 1000, b).astype(np.float32) / 1000 for _ in range(3)] + [r.randint(0, 21, (b, cut, 5)).astype(np.float32) / 20 for _ in range(3)] + [np.zeros((b, 3), np.uint8)]
    _reply[self.op] = out
    want = {}
    recall = rng.choice([None, None, 0.5, 0.95, 0.0, 1.0])
    flt = rng.choice([None, None, None, "VEHICLE", "LEVEL_1", rng.choice(self.names), "RANGE", "nothing"])
    for i, name in enumerate(self.names):
      if flt is not None and flt not in name:
        continue
      for j, k in enumerate(("AP", "APH", "APL")):
        want["%s/%s" % (name, k)] = out[j][i]
      if recall is not None:
        got = [out[3][i, c, 1] for c in range(cut) if out[3][i, c, 0] > np.float32(recall)]
        want["%s/Recall@%s" % (name, recall)] = max(got) if got else 0
        vh.count("recalls", int(bool(got)))
    if recall is not None:
      kw["recall_at_precision"] = recall
    if flt is not None:
      kw["name_filter"] = flt
      vh.count("filtered")
    ops = detection_metrics.get_detection_metric_ops(config=self.config, **kw)
    _same(_calls.pop(), self.op, _cat(self.rows), self.config, "detection")
    _values(ops, want, "detection")
    vh.count("rows", n + m)


class _Tracking:
  op = "tracking_metrics"

  def __init__(self, rng, r):
    self.config, self.names, self.dof = _config(rng)
    self.rows = []

  def update(self, rng, r):
    n, m = rng.choice([0, 1, 3, 6]), rng.choice([0, 1, 2, 5])
    d = dict(_rows(r, n, "prediction", self.dof, True), **_rows(r, m, "ground_truth", self.dof, True))
    kw = _tensors(d)
    if rng.random() < 0.3:
      del kw["ground_truth_speed"]
      d["ground_truth_speed"] = np.zeros((m, 2), np.float32)
      vh.count("default_speeds")
    if rng.random() < 0.3:
      del kw["prediction_overlap_nlz"]
      d["prediction_overlap_nlz"] = np.zeros(n, bool)
      vh.count("default_overlaps")
    self.rows.append(d)
    b = len(self.names)
    out = [r.randint(-1000, 1000, b).astype(np.float32) / 1000 for _ in range(6)] + [np.zeros((b, 3), np.uint8)]
    _reply[self.op] = out
    ops = tracking_metrics.get_tracking_metric_ops(config=self.config, **kw)
    _same(_calls.pop(), self.op, _cat(self.rows), self.config, "tracking")
    _values(ops, {"%s/%s" % (name, k): out[j][i] for i, name in enumerate(self.names) for j, k in enumerate(("MOTA", "MOTP", "MISS", "MISMATCH", "FP"))}, "tracking")
    vh.count("rows", n + m)


class _Motion:
  op = "motion_metrics"

  def __init__(self, rng, r):
    c = self.config = motion_metrics_pb2.MotionMetricsConfig(track_steps_per_second=10, prediction_steps_per_second=2, track_history_samples=10, track_future_samples=80, max_predictions=6)
    steps = rng.sample([0, 1, 2, 3, 5, 9, 15], rng.randint(1, 3))
    for s in steps:
      c.step_configurations.add(measurement_step=s, lateral_miss_threshold=1, longitudinal_miss_threshold=2)
    self.names = ["%s_%d" % (t, s) for t in ("TYPE_VEHICLE", "TYPE_PEDESTRIAN", "TYPE_CYCLIST") for s in steps]
    self.m, self.k, self.tp, self.tg = rng.randint(1, 3), rng.randint(1, 3), rng.choice([1, 4]), rng.choice([2, 5])
    self.n = rng.choice([1, 1, 2, 3])
    # Agents of the scenario: those of the groups and others.
    self.a = self.n if rng.random() < 0.4 else rng.randint(self.n, 6)
    self.own_scenarios, self.own_objects = rng.random() < 0.5, rng.random() < 0.5
    self.rows, self.seen = [], 0

  def update(self, rng, r):
    b = rng.choice([1, 1, 2, 3])
    m, k, n, a, tp, tg = self.m, self.k, self.n, self.a, self.tp, self.tg
    d = {
        "prediction_trajectory": _floats(r, b, m, k, n, tp, 2), "prediction_score": _floats(r, b, m, k), "ground_truth_trajectory": _floats(r, b, a, tg, 7),
        "ground_truth_is_valid": r.randint(0, 2, (b, a, tg)).astype(bool), "prediction_ground_truth_indices": r.randint(0, a, (b, m, n)).astype(np.int64),
        "prediction_ground_truth_indices_mask": r.randint(0, 2, (b, m, n)).astype(bool), "object_type": r.randint(0, 5, (b, a)).astype(np.int64),
        "object_id": r.randint(0, 1 << 40, (b, a)).astype(np.int64), "scenario_id": np.array([b"w%d" % (self.seen + i) for i in range(b)], object)}
    kw = _tensors(d)
    if not self.own_objects:
      del kw["object_id"]
      d["object_id"] = np.tile(np.arange(a, dtype=np.int64), (b, 1))
      vh.count("default_objects")
    if not self.own_scenarios:
      del kw["scenario_id"]
      vh.count("default_scenarios")
    self.seen += b
    self.rows.append(d)
    nb = len(self.names)
    out = [r.randint(-1000, 1000, nb).astype(np.float32) / 1000 for _ in range(5)]
    _reply[self.op] = out
    ops = motion_metrics.get_motion_metric_ops(config=self.config, **kw)
    call = _calls.pop()
    want = _cat(self.rows)
    if not self.own_scenarios:
      # Any names will do, one per scenario.
      ids = call[1].get("scenario_id", np.zeros(0))
      vh.expect(ids.shape == (self.seen,) and len(set(ids.tolist())) == self.seen, "scenario-names", lambda: "%s for %d scenarios" % (ids.tolist(), self.seen))
      want["scenario_id"] = np.array([x.encode() if isinstance(x, str) else x for x in ids.tolist()], object)
    _same(call, self.op, want, self.config, "motion")
    _values(ops, {"%s/%s" % (name, key): out[j][i] for i, name in enumerate(self.names) for j, key in enumerate(("minADE", "minFDE", "MissRate", "OverlapRate", "mAP"))}, "motion")
    vh.count("scenarios", b)
    vh.count("bystanders", int(a > n))


def case_accumulate(rng):
  """Metrics of several kinds grow in the same graph, in any order."""
  tf.compat.v1.reset_default_graph()
  del _calls[:]
  r = np.random.RandomState(rng.randrange(1 << 30))
  kinds = rng.sample([_Detection, _Tracking, _Motion], rng.randint(1, 3))
  metrics = [k(rng, r) for k in kinds]
  for _ in range(rng.randint(1, 5)):
    m = rng.choice(metrics)
    vh.crumb((type(m).__name__, getattr(m, "config"), len(m.rows), {x: getattr(m, x) for x in "mknatpg" if hasattr(m, x)}))
    m.update(rng, r)
    vh.count("updates")
    vh.count("later_updates", int(len(m.rows) > 1))
    vh.expect(not _calls, "operations", lambda: "%s" % [c[0] for c in _calls])
  vh.nontrivial([(type(m).__name__, [sorted((k, v.tobytes()) for k, v in d.items() if v.dtype != object) for d in m.rows]) for m in metrics])
  vh.count("together", int(sum(bool(m.rows) for m in metrics) > 1))


_REQUIRED = {"p": ["prediction_frame_id", "prediction_bbox", "prediction_type", "prediction_score", "prediction_overlap_nlz"], "g": ["ground_truth_frame_id", "ground_truth_bbox", "ground_truth_type", "ground_truth_difficulty"]}


def case_evaluator(rng):
  del _calls[:]
  r = np.random.RandomState(rng.randrange(1 << 30))
  default = rng.random() < 0.3
  config, names, dof = _config(rng)
  if default:
    want = metrics_pb2.Config(matcher_type=metrics_pb2.MatcherProto.TYPE_HUNGARIAN, box_type=label_pb2.Label.Box.TYPE_3D, iou_thresholds=[0, 0.7, 0.5, 0.5, 0.5], score_cutoffs=[i * 0.01 for i in range(100)] + [1.0])
    for g in ("OBJECT_TYPE", "RANGE"):
      want.breakdown_generator_ids.append(breakdown_pb2.Breakdown.GeneratorId.Value(g))
      want.difficulties.add().levels.extend([1, 2])
    config, dof = want, 7
    vh.count("default_configs")
  evs = [wod_detection_evaluator.WODDetectionEvaluator(*([] if default else [config])) for _ in range(rng.choice([1, 1, 2]))]
  rows = [[] for _ in evs]
  log = []
  for _ in range(rng.randint(2, 8)):
    e = rng.randrange(len(evs))
    what = rng.choice(["update", "update", "update", "refuse", "reset", "evaluate", "evaluate", "result"])
    log.append((e, what))
    vh.crumb((config, log))
    if what in ("update", "refuse"):
      n, m = rng.choice([0, 1, 4]), rng.choice([0, 1, 3])
      p, g = _rows(r, n, "prediction", dof, False), _rows(r, m, "ground_truth", dof, False)
      pt, gt = (_tensors(p), _tensors(g)) if rng.random() < 0.5 else (dict(p), dict(g))
      if rng.random() < 0.4:
        del gt["ground_truth_speed"]
        g["ground_truth_speed"] = np.zeros((m, 2), np.float32)
        log[-1] += ("no speed",)
        vh.count("default_speeds")
      if what == "refuse":
        side = rng.choice("pg")
        key = rng.choice(_REQUIRED[side])
        del (pt if side == "p" else gt)[key]
        log[-1] += (key,)
        vh.expect(vh.refused(lambda: evs[e].update_state(gt, pt), ValueError), "missing-field", key)
        vh.count("refused_updates")
      else:
        keys = set(pt), set(gt)
        evs[e].update_state(gt, pt)
        vh.expect((set(pt), set(gt)) == keys, "changed-arguments", lambda: "%s" % sorted(set(gt) ^ keys[1]))
        rows[e].append(dict(p, **g))
        vh.count("updates")
    elif what == "reset":
      evs[e].reset_states()
      rows[e] = []
    elif rows[e]:
      b = len(evs[e]._breakdown_names) if hasattr(evs[e], "_breakdown_names") else 4
      _reply["detection_metrics"] = out = [r.randint(0, 1000, b).astype(np.float32) / 1000 for _ in range(3)] + [r.randint(0, 21, (b, 3, 5)).astype(np.float32) / 20 for _ in range(3)] + [np.zeros((b, 3), np.uint8)]
      got = evs[e].evaluate() if what == "evaluate" else evs[e].result()
      vh.expect(all((getattr(got, k).numpy() == out[i]).all() for i, k in enumerate(_DET)), "results", "")
      vh.expect(len(_calls) == 1, "operations", "%d" % len(_calls))
      _same(_calls.pop(), "detection_metrics", _cat(rows[e]), config, "evaluator")
      vh.count("evaluations_with_rows")
      vh.count("merged_batches", int(len(rows[e]) > 1))
      if what == "result":
        rows[e] = []
  vh.nontrivial((config.SerializeToString(), log, [[sorted((k, v.tobytes()) for k, v in d.items()) for d in x] for x in rows]))


def case_ops(rng):
  """The wrappers of the operations and the matcher."""
  del _calls[:]
  r = np.random.RandomState(rng.randrange(1 << 30))
  config, names, dof = _config(rng)
  what = rng.choice(["detection_metrics", "detection_metrics_state", "detection_metrics_result", "tracking_metrics", "motion_metrics", "match", "match"])
  vh.crumb((what, config))
  vh.count("op_" + what)
  if what in ("detection_metrics", "detection_metrics_state", "tracking_metrics"):
    seq = what == "tracking_metrics"
    n, m = rng.choice([0, 1, 4]), rng.choice([0, 1, 3])
    d = dict(_rows(r, n, "prediction", dof, seq), **_rows(r, m, "ground_truth", dof, seq))
    kw = _tensors(d)
    if rng.random() < 0.5:
      del kw["ground_truth_speed"]
      d["ground_truth_speed"] = np.zeros((m, 2), np.float32)
    if seq and rng.random() < 0.5:
      del kw["prediction_overlap_nlz"]
      d["prediction_overlap_nlz"] = np.zeros(n, bool)
    _reply[what] = out = [_floats(r, 3) for _ in range(7)]
    got = getattr(py_metrics_ops, what)(config=config.SerializeToString(), **kw)
    out, got = (out, got) if what != "detection_metrics_state" else (out[:1], [got])
    _same(_calls.pop(), what, d, config, "op")
  elif what == "detection_metrics_result":
    d = {"state": _floats(r, rng.randint(1, 4), 3, 5)}
    _reply[what] = out = [_floats(r, 3) for _ in range(7)]
    got = py_metrics_ops.detection_metrics_result(tf.constant(d["state"]), config.SerializeToString())
    _same(_calls.pop(), what, d, config, "op")
  elif what == "motion_metrics":
    m = _Motion(rng, r)
    b, a = rng.randint(1, 3), m.a
    d = {
        "prediction_trajectory": _floats(r, b, m.m, m.k, m.n, m.tp, 2), "prediction_score": _floats(r, b, m.m, m.k), "ground_truth_trajectory": _floats(r, b, a, m.tg, 7),
        "ground_truth_is_valid": r.randint(0, 2, (b, a, m.tg)).astype(bool), "prediction_ground_truth_indices": r.randint(0, a, (b, m.m, m.n)).astype(np.int64),
        "prediction_ground_truth_indices_mask": r.randint(0, 2, (b, m.m, m.n)).astype(bool), "object_type": r.randint(0, 5, (b, a)).astype(np.int64),
        "object_id": r.randint(0, 1 << 40, (b, a)).astype(np.int64), "scenario_id": np.array([b"w%d" % i for i in range(b)], object)}
    kw = _tensors(d)
    if rng.random() < 0.5:
      del kw["object_id"]
      d["object_id"] = np.tile(np.arange(a, dtype=np.int64), (b, 1))
    default = rng.random() < 0.5
    if default:
      del kw["scenario_id"]
    _reply[what] = out = [_floats(r, 3) for _ in range(5)]
    got = py_metrics_ops.motion_metrics(config=m.config.SerializeToString(), **kw)
    call = _calls.pop()
    if default:
      ids = call[1].get("scenario_id", np.zeros(0))
      vh.expect(ids.shape == (b,) and len(set(ids.tolist())) == b, "scenario-names", "%s" % ids.tolist())
      d["scenario_id"] = np.array([x.encode() if isinstance(x, str) else x for x in ids.tolist()], object)
    _same(call, what, d, m.config, "op")
  else:
    b, n, m = rng.randint(1, 3), rng.choice([0, 1, 4]), rng.choice([0, 1, 3])
    p, g = _floats(r, b, n, dof), _floats(r, b, m, dof)
    iou = rng.choice([0.0, 0.25, 0.5, 1.0])
    kw, mt = {}, metrics_pb2.MatcherProto.TYPE_HUNGARIAN
    if rng.random() < 0.5:
      mt = kw["matcher_type"] = rng.choice([1, 2])
    let = None
    if rng.random() < 0.5:
      let = kw["let_metric_config"] = metrics_pb2.Config.LongitudinalErrorTolerantConfig(enabled=rng.random() < 0.8, longitudinal_tolerance_percentage=rng.choice([0.1, 0.25]), min_longitudinal_tolerance_meter=0.5, sensor_location={"x": 1.5, "y": 0, "z": rng.choice([0, 2])}, align_type=rng.choice([1, 2, 3]))
      vh.count("let_configs")
    flat = b == 1 and rng.random() < 0.6
    vh.count("single_frames", int(flat))
    _reply[what] = out = [r.randint(0, 5, 3).astype(np.int32), r.randint(0, 5, 3).astype(np.int32), _floats(r, 3), _floats(r, 3)]
    got = matcher.match(tf.constant(p[0] if flat else p), tf.constant(g[0] if flat else g), iou, config.box_type, **kw)
    got = [got.prediction_ids, got.groundtruth_ids, got.ious, got.longitudinal_affinities]
    op, kw = _calls.pop()
    c = metrics_pb2.Config.FromString(kw["config"])
    vh.expect(op == "match" and (kw["prediction_boxes"] == p).all() and kw["prediction_boxes"].shape == p.shape and kw["groundtruth_boxes"].shape == g.shape and (kw["groundtruth_boxes"] == g).all(), "match-input", "")
    # The operation labels every box a vehicle: only this threshold can count.
    vh.expect(c.box_type == config.box_type and c.matcher_type == mt and len(c.iou_thresholds) == 5 and all(t == np.float32(iou) for t in c.iou_thresholds[1:]), "match-config", "%s" % c)
    vh.expect(c.let_metric_config == (let or metrics_pb2.Config.LongitudinalErrorTolerantConfig()) and c.HasField("let_metric_config") == (let is not None), "match-tolerance", "%s" % c)
    vh.expect(list(c.score_cutoffs) == [0] and len(c.difficulties) == len(c.breakdown_generator_ids) == 1, "match-setup", "%s" % c)
    bad = rng.choice(["batch", "dims"])
    q = tf.constant(np.concatenate([g, g[:1]], 0) if bad == "batch" else _floats(r, b, m, dof + 1))
    vh.expect(vh.refused(lambda: matcher.match(tf.constant(p), q, iou, config.box_type), ValueError, tf.errors.InvalidArgumentError), "match-refusal", bad)
  for x, y in zip(got, out):
    vh.expect((np.asarray(x) == y).all() and np.asarray(x).shape == y.shape, "op-outputs", lambda: "%s instead of %s" % (np.asarray(x).tolist(), y.tolist()))
  vh.expect(not _calls, "operations", "")
  vh.nontrivial((what, config.SerializeToString(), [np.asarray(y).tobytes() for y in out]))


if __name__ == "__main__":
  vh.main([("accumulate", 4, case_accumulate), ("evaluator", 3, case_evaluator), ("ops", 3, case_ops)])
