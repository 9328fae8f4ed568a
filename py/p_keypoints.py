"""Keypoints: tensors, drawing, metrics and matching of poses (C26)."""
import itertools
import math
import types

import numpy as np
import tensorflow as tf

import vh
from waymo_open_dataset import dataset_pb2
from waymo_open_dataset import label_pb2
from waymo_open_dataset.metrics.python import keypoint_metrics as km
from waymo_open_dataset.protos import box_pb2
from waymo_open_dataset.protos import keypoint_pb2
from waymo_open_dataset.protos import metrics_pb2
from waymo_open_dataset.utils import keypoint_data as kd
from waymo_open_dataset.utils import keypoint_draw as draw

TYPES = list(kd.CANONICAL_ORDER_ALL)


def c32(v, shape=None):
  return tf.constant(np.asarray(v, np.float32).reshape(shape) if shape else np.asarray(v, np.float32))


def f32(v):
  return np.asarray(v, np.float32)


# --- geometry -----------------------------------------------------------------


def turn(box, p, sign, back=False):
  """Point into (or back from) the frame of the box (center, size, heading)."""
  c, _, h = box
  a = -sign * h if not back else sign * h
  if back:
    q = [math.cos(a) * p[0] - math.sin(a) * p[1], math.sin(a) * p[0] + math.cos(a) * p[1]] + list(p[2:])
    return [x + y for x, y in zip(q, c)]
  d = [x - y for x, y in zip(p, c)]
  return [math.cos(a) * d[0] - math.sin(a) * d[1], math.sin(a) * d[0] + math.cos(a) * d[1]] + d[2:]


def shift_into(box, p, sign):
  q = turn(box, p, sign)
  r = [min(max(v, -s / 2), s / 2) for v, s in zip(q, box[1])]
  return [a - b for a, b in zip(turn(box, r, sign, back=True), p)]


_sign = []


def sign():
  """The sense of the heading: keypoint_data documents a clockwise one, dataset labels turn the other way."""
  if not _sign:
    b = kd.create_laser_box_tensors(label_pb2.Label.Box(length=4, width=2, height=1, heading=0.5))
    box = kd.BoundingBoxTensors(center=b.center[tf.newaxis], size=b.size[tf.newaxis], heading=b.heading[tf.newaxis])
    got = km.box_displacement(c32([[[1.8 * math.cos(0.5), 1.8 * math.sin(0.5), 0]]]), box).numpy()
    _sign.append(1 if np.abs(got).max() < 1e-4 else -1)
  return _sign[0]


def random_box(rng, dims, heading=True, scale=3.0):
  return ([rng.uniform(-5, 5) for _ in range(dims)], [rng.uniform(0.2, scale) for _ in range(dims)], rng.uniform(-math.pi, math.pi) if heading and dims == 3 else 0.0)


def box_tensors(boxes, heading=True):
  d = len(boxes[0][0])
  return kd.BoundingBoxTensors(center=c32([b[0] for b in boxes], (-1, d)), size=c32([b[1] for b in boxes], (-1, d)), heading=c32([b[2] for b in boxes], (-1,)) if heading else None)


def f32box(b):
  return (f32(b[0]).tolist(), f32(b[1]).tolist(), float(f32(b[2])))


def case_heading(rng):
  """A laser label of the dataset: its heading turns from +x to +y."""
  h = rng.uniform(0.3, 1.2)
  vh.nontrivial(h)
  vh.expect(sign() == 1, "label-heading", lambda: "a point of the box of a laser label (length 4, width 2, heading 0.5) 1.8 m ahead of its center is taken to be outside")
  vh.count("label_headings")


def case_boxes(rng):
  dims = rng.choice([2, 3, 3])
  n, m = rng.randint(1, 4), rng.randint(1, 5)
  boxes = [f32box(random_box(rng, dims)) for _ in range(n)]
  with_heading = dims == 3 and rng.random() < 0.8
  if not with_heading:
    boxes = [(b[0], b[1], 0.0) for b in boxes]
  pts = f32([[[b[0][k] + rng.uniform(-2, 2) for k in range(dims)] for _ in range(m)] for b in boxes])
  vh.crumb((boxes, pts.tolist()))
  vh.nontrivial((boxes, pts.tolist()))
  t = box_tensors(boxes, with_heading)
  got = km.box_displacement(tf.constant(pts), t).numpy()
  want = np.array([[shift_into(b, p.tolist(), sign()) for p in row] for b, row in zip(boxes, pts)])
  vh.expect(got.shape == want.shape and np.abs(got - want).max() < 1e-4, "displacement", lambda: "%s: %s instead of %s" % (boxes, got.tolist(), want.tolist()))
  vh.count("points_inside", int((np.abs(want).max(-1) < 1e-9).sum()))
  vh.count("points_outside", int((np.abs(want).max(-1) > 1e-9).sum()))
  one = kd.BoundingBoxTensors(center=t.center[0], size=t.size[0], heading=t.heading[0] if with_heading else None)
  got1 = km.box_displacement(tf.constant(pts[0]), one).numpy()
  vh.expect(got1.shape == want[0].shape and np.abs(got1 - want[0]).max() < 1e-4, "displacement-one", lambda: "%s" % got1.tolist())
  vh.expect(vh.close(t.scale.numpy(), [np.prod(b[1]) ** (1 / dims) for b in boxes], 1e-4, 1e-4), "scale", lambda: "%s" % t.scale)
  vh.expect(vh.close(t.min_corner.numpy(), f32([b[0] for b in boxes]) - f32([b[1] for b in boxes]) / 2, 1e-4) and vh.close(t.max_corner.numpy() - t.min_corner.numpy(), f32([b[1] for b in boxes]), 1e-4),
            "corners", lambda: "%s" % t.min_corner)
  vh.expect(t.dims == dims and t.has_batch_dimension and not one.has_batch_dimension, "box-shape", "")
  if dims == 3:
    n_obj, n_pt = rng.randint(1, 3), rng.randint(1, 4)
    kp, loc, vis = random_keypoints(rng, n_obj, n_pt, 3)
    d = km.keypoint_distance(t, kp).numpy()
    w = np.array([[[math.dist([0] * 3, shift_into(b, p.tolist(), sign())) if v == 2 else math.inf for p, v in zip(lo, vi)] for lo, vi in zip(loc, vis)] for b in boxes])
    vh.expect(d.shape == w.shape and vh.close(d, w, 1e-4, 1e-4), "keypoint-distance", lambda: "%s instead of %s" % (d.tolist(), w.tolist()))
    vh.expect(vh.close(km.closest_keypoint_distance(t, kp).numpy(), w.min(-1), 1e-4, 1e-4), "closest-distance", "")
    vh.count("distances")


# --- tensors ------------------------------------------------------------------


def random_keypoints(rng, n, k, dims, missing=0.3):
  loc = f32([rng.uniform(-5, 5) for _ in range(n * k * dims)]).reshape(n, k, dims)
  vis = np.array([rng.choice([0, 0, 1, 2, 2, 2]) if rng.random() < 0.7 else 2 for _ in range(n * k)], np.int32).reshape(n, k)
  return kd.KeypointsTensors(location=tf.constant(loc), visibility=tf.constant(vis)), loc, vis


def laser_points(rng, types):
  out = []
  for t in types:
    k = keypoint_pb2.LaserKeypoint(type=t)
    k.keypoint_3d.location_m.x, k.keypoint_3d.location_m.y, k.keypoint_3d.location_m.z = (rng.uniform(-9, 9) for _ in range(3))
    if rng.random() < 0.7:
      k.keypoint_3d.visibility.is_occluded = rng.random() < 0.4
    out.append(k)
  return out


def camera_points(rng, types):
  out = []
  for t in types:
    k = keypoint_pb2.CameraKeypoint(type=t)
    k.keypoint_2d.location_px.x, k.keypoint_2d.location_px.y = rng.uniform(0, 40), rng.uniform(0, 30)
    if rng.random() < 0.7:
      k.keypoint_2d.visibility.is_occluded = rng.random() < 0.4
    out.append(k)
  return out


def loc_of(k):
  if isinstance(k, keypoint_pb2.LaserKeypoint):
    v = k.keypoint_3d.location_m
    return [v.x, v.y, v.z]
  v = k.keypoint_2d.location_px
  return [v.x, v.y]


def occluded(k):
  return (k.keypoint_3d if isinstance(k, keypoint_pb2.LaserKeypoint) else k.keypoint_2d).visibility.is_occluded


def want_tensor(points, default, order):
  by = {k.type: k for k in points}
  return (f32([loc_of(by[t]) if t in by else default for t in order]), [0 if t not in by else 1 if occluded(by[t]) else 2 for t in order])


def same_keypoints(key, got, loc, vis):
  g = (got.location.numpy(), got.visibility.numpy())
  ok = vh.expect(vh.close(g[0], loc, 1e-6, 1e-6) and g[1].tolist() == np.asarray(vis).tolist(), key, lambda: "%s %s instead of %s %s" % (g[0].tolist(), g[1].tolist(), np.asarray(loc).tolist(), np.asarray(vis).tolist()))
  v = np.asarray(vis)
  return ok and vh.expect(got.has_visible.numpy().tolist() == (v == 2).any(-1).tolist() and got.is_fully_visible.numpy().tolist() == (v == 2).tolist()
                          and vh.close(got.mask.numpy(), (v > 0).astype(np.float32)), key + ":visible", lambda: "%s" % v.tolist())


def random_label_box(rng, dims=3):
  b = label_pb2.Label.Box(center_x=rng.uniform(-9, 9), center_y=rng.uniform(-9, 9), length=rng.uniform(0.1, 5), width=rng.uniform(0.1, 5))
  if dims == 3:
    b.center_z, b.height, b.heading = rng.uniform(-2, 2), rng.uniform(0.1, 3), rng.uniform(-3.1, 3.1)
  return b


def case_data(rng):
  order = rng.sample(TYPES, rng.randint(1, len(TYPES)))
  have = rng.sample(TYPES, rng.randint(0, len(TYPES)))
  laser = rng.random() < 0.5
  pts = (laser_points if laser else camera_points)(rng, have)
  d = 3 if laser else 2
  default = np.array([rng.uniform(-1, 1) for _ in range(d)])
  vh.crumb((order, have, laser))
  vh.nontrivial((order, [p.SerializeToString() for p in pts]))
  got = (kd.create_laser_keypoints_tensors if laser else kd.create_camera_keypoints_tensors)(pts, default, order)
  loc, vis = want_tensor(pts, default, order)
  same_keypoints("tensors", got, loc, vis)
  vh.expect(not got.has_batch_dimension and got.dims == d and got.location.dtype == tf.float32, "tensor-shape", "%s" % got.location.shape)
  # A selection in another order.
  n = rng.randint(1, 3)
  kp, bl, bv = random_keypoints(rng, n, len(order), d)
  dst = rng.sample(order, rng.randint(1, len(order)))
  idx = [order.index(t) for t in dst]
  sub = kp.subset(order, dst)
  vh.expect(vh.close(sub.location.numpy(), bl[:, idx]) and sub.visibility.numpy().tolist() == bv[:, idx].tolist() and sub.has_visible.numpy().tolist() == (bv == 2).any(-1).tolist(), "subset",
            lambda: "%s" % sub.visibility.numpy().tolist())
  others = [t for t in TYPES if t not in order]
  if others:
    vh.expect(vh.refused(lambda: kp.subset(order, [others[0]]), ValueError), "subset-unknown", "accepted")
  vh.expect(vh.refused(lambda: kp.subset(order + [0], dst), ValueError) and vh.refused(lambda: kd.select_subset(tf.zeros([len(order)]), order, dst), ValueError), "subset-shape", "accepted")
  st = kd.stack_keypoints([got, got])
  same_keypoints("stack", st, np.stack([loc, loc]), [vis, vis])
  vh.expect(vh.refused(lambda: kd.KeypointsTensors(location=tf.zeros([2, 3, 4]), visibility=tf.zeros([2, 3], tf.int32)), ValueError)
            and vh.refused(lambda: kd.KeypointsTensors(location=tf.zeros([2, 3, 2]), visibility=tf.zeros([2, 4], tf.int32)), ValueError)
            and vh.refused(lambda: kd.KeypointsTensors(location=tf.zeros([2]), visibility=tf.zeros([2], tf.int32)), ValueError), "wrong-shape", "accepted")
  # Boxes of labels.
  lb = [random_label_box(rng, d) for _ in range(n)]
  boxes = kd.stack_boxes([(kd.create_laser_box_tensors if laser else kd.create_camera_box_tensors)(b) for b in lb])
  c = [[b.center_x, b.center_y, b.center_z][:d] for b in lb]
  s = [[b.length, b.width, b.height][:d] for b in lb]
  vh.expect(vh.close(boxes.center.numpy(), f32(c), 1e-6) and vh.close(boxes.size.numpy(), f32(s), 1e-6) and ((boxes.heading is None) if not laser else vh.close(boxes.heading.numpy(), f32([b.heading for b in lb]), 1e-6)),
            "label-box", lambda: "%s %s" % (c, s))
  b3 = box_pb2.Box3d(heading=rng.uniform(-3, 3))
  for m in (b3.center, b3.size):
    m.x, m.y, m.z = (rng.uniform(0.1, 5) for _ in range(3))
  g = kd.label_box_from_box_proto(b3)
  vh.expect((g.center_x, g.center_y, g.center_z, g.length, g.width, g.height, g.heading) == (b3.center.x, b3.center.y, b3.center.z, b3.size.x, b3.size.y, b3.size.z, b3.heading), "box-proto", lambda: "%s instead of %s" % (g, b3))
  vh.count("laser" if laser else "camera")
  vh.count("missing_points", vis.count(0))
  vh.count("occluded_points", vis.count(1))


def case_frame(rng):
  """Labels of a frame, grouped by object, and the tensors of their poses."""
  f = dataset_pb2.Frame()
  n = rng.randint(0, 5)
  for i in range(n):
    l = f.laser_labels.add(id="o%d" % i, type=rng.randint(1, 4))
    l.box.CopyFrom(random_label_box(rng))
    if rng.random() < 0.2:
      # A size which is not set reads as zero.
      l.box.ClearField(rng.choice(["length", "width", "height"]))
    if rng.random() < 0.5:
      l.camera_synced_box.CopyFrom(random_label_box(rng))
    if rng.random() < 0.7:
      l.laser_keypoints.keypoint.extend(laser_points(rng, rng.sample(TYPES, rng.randint(1, 6))))
  want_cam = {}
  for cam in rng.sample(range(1, 6), rng.randint(0, 4)):
    cl = f.camera_labels.add(name=cam)
    for i in rng.sample(range(n + 2), rng.randint(0, n + 2)):
      l = cl.labels.add(id="c%d_%d" % (cam, i))
      l.box.CopyFrom(random_label_box(rng, 2))
      if rng.random() < 0.8:
        l.association.laser_object_id = "o%d" % i
        want_cam.setdefault("o%d" % i, {})[cam] = l
      if rng.random() < 0.5:
        l.camera_keypoints.keypoint.extend(camera_points(rng, rng.sample(TYPES, 2)))
  vh.crumb(f.SerializeToString())
  vh.nontrivial(f.SerializeToString())
  got = kd.group_object_labels(f)
  vh.expect(set(got) == {l.id for l in f.laser_labels}, "objects", lambda: "%s" % sorted(got))
  for l in f.laser_labels:
    o = got[l.id]
    vh.expect(o.object_type == l.type and o.laser.box == l.box and o.laser.keypoints == l.laser_keypoints, "object-laser", l.id)
    cams = o.camera or {}
    w = want_cam.get(l.id, {})
    vh.expect({k: (v.box, v.keypoints) for k, v in cams.items()} == {k: (v.box, v.camera_keypoints) for k, v in w.items()}, "object-camera", lambda: "%s: %s instead of %s" % (l.id, sorted(cams), sorted(w)))
    vh.count("camera_labels", len(w))
  order = rng.sample(TYPES, rng.randint(1, 15))
  default = np.zeros(3)
  kind = rng.randrange(3)
  if kind == 0:
    poses = [got[l.id].laser for l in f.laser_labels]
  else:
    poses = [kd.PosePrediction(object_type=l.type, box=l.box if kind == 1 else None, keypoints=l.laser_keypoints if rng.random() < 0.8 else None) for l in f.laser_labels]
  t = kd.create_pose_estimation_tensors(poses, default, order)
  kept = [p for p in poses if p.keypoints is not None]
  if kept:
    ws = [want_tensor(p.keypoints.keypoint, default, order) for p in kept]
    same_keypoints("poses", t.keypoints, np.stack([w[0] for w in ws]), [w[1] for w in ws])
    if kind < 2:
      vh.expect(vh.close(t.box.center.numpy(), f32([[p.box.center_x, p.box.center_y, p.box.center_z] for p in kept]), 1e-6) and vh.close(t.box.size.numpy(), f32([[p.box.length, p.box.width, p.box.height] for p in kept]), 1e-6)
                and vh.close(t.box.heading.numpy(), f32([p.box.heading for p in kept]), 1e-6), "pose-boxes", lambda: "%s" % t.box)
    else:
      vh.expect(t.box is None, "pose-no-box", "%s" % t.box)
    vh.count("poses", len(kept))
  else:
    vh.expect(t.keypoints.location.shape == (0, len(order), 3) and t.keypoints.visibility.shape == (0, len(order)) and t.box.center.shape == (0, 3) and t.box.heading.shape == (0,), "no-pose", "%s" % t.keypoints.location.shape)
    vh.count("no_pose")


# --- drawing ------------------------------------------------------------------


def case_draw(rng):
  laser = rng.random() < 0.5
  pts = (laser_points if laser else camera_points)(rng, rng.sample(kd.CANONICAL_ORDER_LASER if laser else kd.CANONICAL_ORDER_CAMERA, rng.randint(0, 14)))
  cfg = draw.DEFAULT_LASER_WIREFRAME_CONFIG if laser else draw.DEFAULT_CAMERA_WIREFRAME_CONFIG
  vh.nontrivial([p.SerializeToString() for p in pts])
  w = (draw.build_laser_wireframe if laser else draw.build_camera_wireframe)(pts)
  by = {p.type: p for p in pts}
  got = sorted((d.name, tuple(map(float, d.location)), d.actual_border_color, d.color, round(d.size, 6)) for d in w.dots)
  want = []
  for t, p in by.items():
    name = keypoint_pb2.KeypointType.Name(t)[len("KEYPOINT_TYPE_"):]
    col = cfg.point_colors[t]
    want.append((name + "?" * occluded(p), tuple(loc_of(p)), "#000000" if occluded(p) else col, col, round(cfg.point_sizes[t] * cfg.dot_size_factor, 6)))
  vh.expect(got == sorted(want), "dots", lambda: "%s instead of %s" % (got, sorted(want)))
  # Each half of an edge has the color of its end; an edge needs both ends.
  lines = sorted((tuple(np.round(np.asarray(l.start, float), 6)), tuple(np.round(np.asarray(l.end, float), 6)), l.color, l.width) for l in w.lines)
  wl = []
  for e in cfg.edges:
    a, b = (e.start_avg, e.end_avg) if hasattr(e, "start_avg") else ((e.start,), (e.end,))
    if any(t not in by for t in list(a) + list(b)):
      continue
    pa, pb = (np.mean([loc_of(by[t]) for t in s], 0) for s in (a, b))
    ca, cb = (cfg.point_colors[s[0]] if len(s) == 1 else "#424242" for s in (a, b))
    mid = (pa + pb) / 2
    wl += [(tuple(np.round(pa, 6)), tuple(np.round(mid, 6)), ca, e.width * cfg.line_width_factor), (tuple(np.round(mid, 6)), tuple(np.round(pb, 6)), cb, e.width * cfg.line_width_factor)]
  wl.sort()
  ok = len(lines) == len(wl) and all(np.allclose(x[0], y[0], atol=2e-6) and np.allclose(x[1], y[1], atol=2e-6) and x[2:] == y[2:] for x, y in zip(lines, wl))
  vh.expect(ok, "lines", lambda: "%s instead of %s" % (lines, wl))
  vh.count("lines", len(wl))
  # Cropping keeps every keypoint over its pixel.
  H, W = rng.randint(10, 40), rng.randint(10, 50)
  img = np.arange(H * W * 3).reshape(H, W, 3)
  box = label_pb2.Label.Box(center_x=rng.uniform(0, W), center_y=rng.uniform(0, H), length=rng.uniform(1, 1.5 * W), width=rng.uniform(1, 1.5 * H))
  cam = camera_points(rng, rng.sample(TYPES, rng.randint(1, 5)))
  m = rng.choice([0, 0, 0.2, 1.0])
  before = [k.SerializeToString() for k in cam]
  ci, ck = draw.crop_camera_keypoints(img, cam, box, m)
  vh.expect([k.SerializeToString() for k in cam] == before, "crop-input", "changed")
  lo_x, lo_y = max(0, int(box.center_x - (1 + m) * box.length / 2)), max(0, int(box.center_y - (1 + m) * box.width / 2))
  for a, b in zip(cam, ck):
    p, q = a.keypoint_2d.location_px, b.keypoint_2d.location_px
    vh.expect(vh.near(p.x - q.x, lo_x, 1e-6) and vh.near(p.y - q.y, lo_y, 1e-6) and b.type == a.type and occluded(a) == occluded(b), "crop-keypoint", lambda: "%s -> %s" % (p, q))
  hi_x, hi_y = min(W - 1, int(box.center_x + (1 + m) * box.length / 2)), min(H - 1, int(box.center_y + (1 + m) * box.width / 2))
  ok = any(np.array_equal(ci, img[lo_y:hi_y + a, lo_x:hi_x + b]) for a in (0, 1) for b in (0, 1))
  vh.expect(ok and len(ck) == len(cam), "crop-image", lambda: "%s of %s: %s" % (ci.shape, img.shape, box))
  vh.count("crops")


# --- metrics ------------------------------------------------------------------


def mean_w(values, weights):
  s = math.fsum(weights)
  return math.fsum(v * w for v, w in zip(values, weights)) / s if s > 0 else 0.0


def pem_error(gl, gv, pl, pv, penalty):
  """Error and whether it counts, of one keypoint."""
  if gv == 2 and pv == 2:
    return min(math.dist(gl, pl), penalty), True
  if gv == 2 or pv == 2:
    return penalty, True
  return 0.0, False


def oks_choices(gl, gv, pl, pv, box, scales, weights):
  """The similarity of one object; all values allowed."""
  obj = float(np.prod(box[1])) ** (1 / len(box[1]))
  sim = lambda d, k: math.exp(-d * d / (2 * (scales[k] * obj) ** 2)) if scales[k] * obj > 0 else 1.0
  n = len(scales)
  if any(v > 0 for v in gv):
    w = [float(gv[k] > 0 and pv[k] > 0) * (1 if weights is None else weights[k]) for k in range(n)]
    return [mean_w([sim(math.dist(gl[k], pl[k]), k) for k in range(n)], w)]
  out = []
  for h in {0.0, box[2], -box[2]}:  # The sense of the heading of the enlarged box is not specified.
    big = (box[0], [3 * s for s in box[1]], h)
    out.append(math.fsum(sim(math.dist([0] * len(box[0]), shift_into(big, pl[k].tolist(), 1)), k) for k in range(n)) / n)
  return out


def case_metrics(rng):
  dims = rng.choice([2, 3])
  order = list(rng.choice([kd.CANONICAL_ORDER_LASER, kd.CANONICAL_ORDER_CAMERA, rng.sample(TYPES, rng.randint(2, 6))]))
  k = len(order)
  per_type = {t: rng.uniform(0.03, 0.4) for t in order}
  subsets = {"ALL": tuple(order), "SOME": tuple(rng.sample(order, rng.randint(1, k)))}
  oks_thr, pck_thr = (0.5, 0.75, 0.9), (0.1, 0.4)
  penalty = rng.choice([0.25, 2.0])
  weighted = rng.random() < 0.4
  names = {}
  metrics = dict(
      combined=None if weighted else km.create_combined_metric(km.CombinedMetricsConfig(src_order=order, subsets=subsets, per_type_scales=per_type, oks_thresholds=oks_thr, pck_thresholds=pck_thr)),
      pem=km.PoseEstimationMetric(mismatch_penalty=penalty, name="PEM"), precision=km.KeypointVisibilityPrecision(name="P"), recall=km.KeypointVisibilityRecall(name="R"),
      mpjpe=km.MeanPerJointPositionError(name="M"), oks=km.AveragePrecisionAtOKS(list(per_type.values()), oks_thr, name="O"), pck=km.PercentageOfCorrectKeypoints(pck_thr, use_object_scale=rng.random() < 0.5, name="C"))
  rel = metrics["pck"]._use_object_scale
  acc = dict(pem=[], tp=0.0, fp=0.0, fn=0.0, mpjpe=[], O={t: [] for t in oks_thr}, AP=[], C={t: [] for t in pck_thr}, sub={s: dict(M=[], C={t: [] for t in pck_thr}, O={t: [] for t in oks_thr}, AP=[]) for s in subsets})
  tight = False
  seen = []
  for _ in range(rng.randint(1, 3)):
    n = rng.randint(1, 4)
    gt, gl, gv = random_keypoints(rng, n, k, dims)
    if rng.random() < 0.3:
      gv[rng.randrange(n)] = 0
    pl = f32(gl + np.array([rng.gauss(0, rng.choice([0.05, 0.3, 2.0])) for _ in range(gl.size)]).reshape(gl.shape))
    pv = np.array([rng.choice([0, 1, 2, 2, 2]) for _ in range(n * k)], np.int32).reshape(n, k)
    boxes = [f32box(random_box(rng, dims)) for _ in range(n)]
    if rng.random() < 0.15:
      boxes[0] = (boxes[0][0], [0.0] * dims, 0.0)
      vh.count("empty_boxes")
    gt = kd.KeypointsTensors(location=tf.constant(gl), visibility=tf.constant(gv))
    pr = kd.KeypointsTensors(location=tf.constant(pl), visibility=tf.constant(pv))
    bt = box_tensors(boxes, dims == 3)
    weights = f32([rng.choice([0.0, 0.5, 1.0, 2.0]) for _ in range(n * k)]).reshape(n, k) if weighted else None
    seen.append((gl.tolist(), gv.tolist(), pl.tolist(), pv.tolist(), boxes))
    vh.crumb(seen[-1])
    for m in metrics.values():
      if m is not None:
        m.update_state((gt, pr, bt), sample_weight=None if weights is None else tf.constant(weights))
    w = weights if weighted else np.ones((n, k))
    ok_box = [float(any(s > 1e-5 for s in b[1])) for b in boxes]
    for i in range(n):
      for j in range(k):
        e, counts = pem_error(gl[i, j], gv[i, j], pl[i, j], pv[i, j], penalty)
        acc["pem"].append((e, counts * w[i, j]))
        both = float(gv[i, j] > 0 and pv[i, j] > 0)
        d = math.dist(gl[i, j], pl[i, j])
        acc["mpjpe"].append((d, both * w[i, j]))
        a, b = gv[i, j] == 2, pv[i, j] == 2
        acc["tp"] += w[i, j] * (a and b)
        acc["fp"] += w[i, j] * (b and not a)
        acc["fn"] += w[i, j] * (a and not b)
        size = float(np.prod(boxes[i][1])) ** (1 / dims)
        for t in pck_thr:
          lim = t * size if rel else t
          tight |= abs(d - lim) < 1e-4
          acc["C"][t].append((float(d <= lim), both * w[i, j]))
          for s, ts in subsets.items():
            if order[j] in ts:
              lim = t * size * per_type[order[j]]
              tight |= abs(d - lim) < 1e-4
              acc["sub"][s]["C"][t].append((float(d <= lim), both))
        for s, ts in subsets.items():
          if order[j] in ts:
            acc["sub"][s]["M"].append((d, both))
    obj_w = [sum(map(float, w[i])) if weighted else 1.0 for i in range(n)]
    if weighted:
      tot = sum(obj_w)
      obj_w = [v / tot if tot > 0 else 0.0 for v in obj_w]
    obj_w = [a * b for a, b in zip(obj_w, ok_box)]

    def score(dest, types, wts):
      nonlocal tight
      idx = [order.index(t) for t in types]
      row = []
      for i in range(n):
        c = oks_choices(gl[i, idx], gv[i, idx], pl[i, idx], pv[i, idx], boxes[i], [per_type[t] for t in types], None if wts is None else wts[i, idx])
        if max(c) - min(c) > 1e-3 and ok_box[i]:  # Which of them is right is not specified.
          tight |= any(min(c) - 1e-3 < t < max(c) + 1e-3 for t in oks_thr)
        row.append(c[0] if ok_box[i] else 0.0)
        tight |= any(abs(c[0] - t) < 1e-3 for t in oks_thr)
      means = []
      for t in oks_thr:
        m = [float(v > t) for v in row]
        dest["O"][t] += list(zip(m, obj_w if wts is not None or not weighted else ok_box))
        means.append(mean_w(m, obj_w))
      dest["AP"].append(sum(means) / len(means))

    score(acc, order, weights)
    for s, ts in subsets.items():
      score(acc["sub"][s], ts, None)
    vh.count("no_ground_truth", int((gv == 0).all(1).sum()))
  vh.nontrivial(seen)
  M = lambda rows: mean_w([r[0] for r in rows], [r[1] for r in rows])
  near = lambda key, got, want: vh.expect(abs(float(got) - want) <= 1e-4 + 1e-3 * abs(want), key, lambda: "%r instead of %r for %s" % (float(got), want, seen))
  near("pem", metrics["pem"].result()["PEM"], M(acc["pem"]))
  near("mpjpe", metrics["mpjpe"].result()["M"], M(acc["mpjpe"]))
  div = lambda a, b: a / b if b else 0.0
  near("precision", metrics["precision"].result()["P"], div(acc["tp"], acc["tp"] + acc["fp"]))
  near("recall", metrics["recall"].result()["R"], div(acc["tp"], acc["tp"] + acc["fn"]))
  if tight:
    vh.count("on_a_threshold")
  else:
    r = metrics["pck"].result()
    vh.expect(set(r) == {"C @ %.2f" % t for t in pck_thr}, "pck-names", lambda: "%s" % sorted(r))
    for t in pck_thr:
      near("pck", r["C @ %.2f" % t], M(acc["C"][t]))
    r = metrics["oks"].result()
    vh.expect(set(r) == {"O P @ %.2f" % t for t in oks_thr} | {"O AP"}, "oks-names", lambda: "%s" % sorted(r))
    for t in oks_thr:
      near("oks", r["O P @ %.2f" % t], M(acc["O"][t]))
    near("oks-ap", r["O AP"], sum(acc["AP"]) / len(acc["AP"]))
    vh.count("scored")
    if not weighted:
      r = metrics["combined"].result()
      want = {}
      for s, a in acc["sub"].items():
        want["MPJPE/" + s] = M(a["M"])
        want["OKS/%s AP" % s] = sum(a["AP"]) / len(a["AP"])
        want.update({"PCK/%s @ %.2f" % (s, t): M(a["C"][t]) for t in pck_thr})
        want.update({"OKS/%s P @ %.2f" % (s, t): M(a["O"][t]) for t in oks_thr})
      vh.expect(set(r) == set(want), "combined-names", lambda: "%s instead of %s" % (sorted(r), sorted(want)))
      for name, v in want.items():
        if name in r:
          near("combined", r[name], v)
      vh.count("combined")
  vh.count("weighted" if weighted else "unweighted")
  if rng.random() < 0.1:
    bad = dict(per_type)
    del bad[order[0]]
    vh.expect(vh.refused(lambda: km.CombinedMetricsConfig(src_order=order, subsets={}, per_type_scales=bad, oks_thresholds=oks_thr, pck_thresholds=pck_thr), ValueError), "config-scales", "accepted")
    vh.expect(vh.refused(lambda: metrics["pem"].update_state((gt, kd.KeypointsTensors(location=tf.zeros([n + 1, k, dims]), visibility=tf.zeros([n + 1, k], tf.int32)), bt))), "other-shapes", "accepted")
    other = 5 - dims
    vh.expect(vh.refused(lambda: metrics["oks"].update_state((gt, pr, box_tensors([random_box(rng, other)] * n, other == 3))), ValueError), "other-dims", "accepted")
    vh.count("metric_refusals")


def case_groups(rng):
  """The default configurations."""
  for cfg, order in ((km.DEFAULT_CONFIG_CAMERA, kd.CANONICAL_ORDER_CAMERA), (km.DEFAULT_CONFIG_LASER, kd.CANONICAL_ORDER_LASER), (km.DEFAULT_CONFIG_ALL, kd.CANONICAL_ORDER_ALL)):
    vh.expect(len(set(order)) == len(order) and 0 not in order and tuple(cfg.src_order) == tuple(order), "order", "%s" % (order,))
    parts = [t for s, ts in cfg.subsets.items() if s != "ALL" for t in ts]
    vh.expect(sorted(parts) == sorted(order) and tuple(cfg.subsets["ALL"]) == tuple(order), "groups", lambda: "%s" % dict(cfg.subsets))
    name = keypoint_pb2.KeypointType.Name
    left = {name(t).replace("LEFT", "RIGHT") for t in order if "LEFT" in name(t)}
    vh.expect(left == {name(t) for t in order if "RIGHT" in name(t)}, "sides", "%s" % left)
    for t in order:
      if "LEFT" in name(t):
        r = keypoint_pb2.KeypointType.Value(name(t).replace("LEFT", "RIGHT"))
        vh.expect(cfg.per_type_scales[t] == cfg.per_type_scales[r] > 0, "scales", name(t))
        s = [k for k, ts in cfg.subsets.items() if t in ts and k != "ALL"]
        vh.expect(len(s) == 1 and r in cfg.subsets[s[0]] and s[0].rstrip("S") in name(t), "group-names", "%s in %s" % (name(t), s))
  vh.nontrivial("groups")
  vh.count("groups")


# --- matching -----------------------------------------------------------------


def random_pose(rng, n, k, around=None, boxes=True):
  kp, loc, vis = random_keypoints(rng, n, k, 3) if n else (None, np.zeros((0, k, 3), np.float32), np.zeros((0, k), np.int32))
  for i in range(n):
    c = [rng.uniform(-1.5, 1.5) for _ in range(3)]
    if around is not None and len(around) and rng.random() < 0.8:
      loc[i] = f32(around[rng.randrange(len(around))] + np.array([rng.gauss(0, rng.choice([0.03, 0.1, 0.3])) for _ in range(k * 3)]).reshape(k, 3))
    else:
      loc[i] = f32([[c[d] + rng.uniform(-0.4, 0.4) for d in range(3)] for _ in range(k)])
    u = rng.random()
    vis[i] = 2 if u < 0.4 else np.array([rng.choice([0, 1]) for _ in range(k)]) if u < 0.6 else vis[i]
  bx = []
  for i in range(n):
    lo, hi = loc[i].min(0), loc[i].max(0)
    bx.append(f32box((((lo + hi) / 2).tolist(), (hi - lo + rng.uniform(0.02, 0.3)).tolist(), rng.uniform(-3, 3) if rng.random() < 0.5 else 0.0)))
  t = kd.PoseEstimationTensors(keypoints=kd.KeypointsTensors(location=tf.constant(loc), visibility=tf.constant(vis)),
                               box=kd.BoundingBoxTensors(center=c32([b[0] for b in bx], (-1, 3)), size=c32([b[1] for b in bx], (-1, 3)), heading=c32([b[2] for b in bx], (-1,))))
  return t, loc, vis, bx


def hidden_pose(rng, k):
  """A hidden object and a visible one, and a prediction seen in the hidden one with an occluded point near to the visible one."""
  a = f32([[rng.uniform(-0.5, 0.5) for _ in range(3)] for _ in range(k)])
  b = a + f32([rng.uniform(1.5, 2.5), rng.uniform(-0.5, 0.5), 0])
  p = a + f32([[rng.gauss(0, 0.05) for _ in range(3)] for _ in range(k)])
  j = rng.randrange(k)
  p[j] = b[j] + f32([rng.uniform(-0.04, 0.04) for _ in range(3)])
  pv = np.full(k, 2, np.int32)
  pv[j] = rng.choice([0, 1, 1, 2])
  gv = np.full(k, 2, np.int32)
  if rng.random() < 0.3:
    gv[j] = 1
  q = b + f32([[rng.gauss(0, 0.05) for _ in range(3)] for _ in range(k)])
  gt = [(a, np.array([rng.choice([0, 1]) for _ in range(k)], np.int32)), (b, gv)]
  pr = [(p, pv)] + ([(q, np.full(k, 2, np.int32))] if rng.random() < 0.5 else [])
  if k > 2 and rng.random() < 0.7:
    # Another prediction with fewer points in the hidden object.
    o = a + f32([[0, rng.uniform(-8, -7), 0]] * k)
    m = rng.randrange(k)
    o[m] = a.mean(0)
    pr.append((o, np.full(k, 2, np.int32)))
  rng.shuffle(gt)
  rng.shuffle(pr)
  return pose_of(rng, *map(np.stack, zip(*gt))), pose_of(rng, *map(np.stack, zip(*pr)))


def pose_of(rng, loc, vis):
  bx = []
  for i in range(len(loc)):
    lo, hi = loc[i].min(0), loc[i].max(0)
    bx.append(f32box((((lo + hi) / 2).tolist(), (hi - lo + rng.uniform(0.02, 0.3)).tolist(), 0.0)))
  return kd.PoseEstimationTensors(keypoints=kd.KeypointsTensors(location=tf.constant(loc), visibility=tf.constant(vis)), box=box_tensors(bx)), loc, vis, bx


class Fixed(km.BaseMatcher):
  def __init__(self, gt, pr):
    self.ids = km.MatchingIdsPairs(gt=tf.constant(np.array(gt, np.int32)), pr=tf.constant(np.array(pr, np.int32)))

  def matching_ids(self, pose):
    return self.ids


def rows_ok(key, out, gt, pr, pairs):
  """The rows of a reordered pair: matches with visible ground truth, missed and spurious objects."""
  gsee, psee = [(v == 2).any() for v in gt[2]], [(v == 2).any() for v in pr[2]]
  tp = [(g, p) for g, p in pairs if gsee[g]]
  fn = [g for g in range(len(gsee)) if gsee[g] and g not in [a for a, _ in pairs]]
  fp = [p for p in range(len(psee)) if psee[p] and p not in [b for _, b in pairs]]
  want = [(a, b) for a, b in tp] + [(a, None) for a in fn] + [(None, b) for b in fp]
  k = gt[1].shape[1]

  def row(src, i):
    if i is None:
      return (tuple([0.0] * k * 3), tuple([0] * k), (0.0,) * 7)
    return (tuple(src[1][i].reshape(-1).tolist()), tuple(src[2][i].tolist()), tuple(src[3][i][0] + src[3][i][1] + [src[3][i][2]]))

  def rows(t):
    n = t.keypoints.location.shape[0]
    l, v, c, s, h = (x.numpy() for x in (t.keypoints.location, t.keypoints.visibility, t.box.center, t.box.size, t.box.heading))
    return [(tuple(l[i].reshape(-1).tolist()), tuple(v[i].tolist()), tuple(c[i].tolist() + s[i].tolist() + [float(h[i])])) for i in range(n)]

  got = list(zip(rows(out.gt), rows(out.pr)))
  w = [(row(gt, a), row(pr, b)) for a, b in want]
  n1, n2 = len(tp), len(tp) + len(fn)
  ok = len(got) == len(w) and all(sorted(got[a:b]) == sorted(w[a:b]) for a, b in ((0, n1), (n1, n2), (n2, len(w))))
  vh.expect(ok, key, lambda: "matched %s missed %s spurious %s: %s" % (tp, fn, fp, got))
  vh.count("matched_rows", len(tp))
  vh.count("missed_rows", len(fn))
  vh.count("spurious_rows", len(fp))
  return tp, fn, fp


def case_reorder(rng):
  k = rng.randint(1, 4)
  gt = random_pose(rng, rng.randint(1, 5), k)
  pr = random_pose(rng, rng.randint(0, 5), k)
  m = rng.randint(0, min(len(gt[1]), len(pr[1])))
  g, p = rng.sample(range(len(gt[1])), m), rng.sample(range(len(pr[1])), m)
  vh.crumb((gt[2].tolist(), pr[2].tolist(), g, p))
  vh.nontrivial((gt[1].tolist(), gt[2].tolist(), pr[1].tolist(), pr[2].tolist(), g, p))
  pose = km.PoseEstimationPair(gt[0], pr[0])
  out = Fixed(g, p).reorder(pose)
  tp, fn, fp = rows_ok("reorder", out, gt, pr, list(zip(g, p)))
  if len(tp) + len(fn) + len(fp):
    penalty = 0.25
    metric = km.PoseEstimationMetric(mismatch_penalty=penalty, name="PEM")
    metric.update_state((out.gt.keypoints, out.pr.keypoints, None))
    z = np.zeros(3), 0
    e = [pem_error(*( (gt[1][a, j], gt[2][a, j]) if a is not None else z), *((pr[1][b, j], pr[2][b, j]) if b is not None else z), penalty) for a, b in tp + [(a, None) for a in fn] + [(None, b) for b in fp] for j in range(k)]
    want = mean_w([x for x, _ in e], [float(c) for _, c in e])
    vh.expect(abs(float(metric.result()["PEM"]) - want) < 1e-4, "reorder-pem", lambda: "%r instead of %r" % (float(metric.result()["PEM"]), want))
  # The matcher by boxes hands its boxes to the C++ operation.
  call = {}

  def match(pb, gb, config):
    call.update(pb=tf.convert_to_tensor(pb).numpy(), gb=tf.convert_to_tensor(gb).numpy(), config=metrics_pb2.Config.FromString(config if isinstance(config, bytes) else config.numpy()))
    i = lambda v: tf.constant(np.array(v, np.int32))
    return i(p), i(g), c32([0.9] * m), c32([1.0] * m)

  tf._op_libraries.setdefault("metrics_ops.so", types.SimpleNamespace()).match = match
  method = rng.choice([metrics_pb2.MatcherProto.TYPE_HUNGARIAN, metrics_pb2.MatcherProto.TYPE_SCORE_FIRST])
  iou = rng.choice([0.5, 0.3, rng.uniform(0.1, 0.9)])
  matcher = km.create_matcher(km.CppMatcherConfig(method=method, iou_threshold=iou))
  ids = matcher.matching_ids(pose)
  vh.expect(ids.gt.numpy().tolist() == g and ids.pr.numpy().tolist() == p, "cpp-ids", lambda: "%s %s instead of %s %s" % (ids.gt, ids.pr, g, p))
  flat = lambda b: f32([x[0] + x[1] + [x[2]] for x in b]).reshape(1, -1, 7)
  c = call["config"]
  vh.expect(vh.close(call["gb"], flat(gt[3]), 1e-6) and vh.close(call["pb"], flat(pr[3]), 1e-6), "cpp-boxes", lambda: "%s" % call["gb"].tolist())
  vh.expect(c.matcher_type == method and c.box_type == label_pb2.Label.Box.TYPE_3D and all(abs(v - iou) < 1e-6 for v in list(c.iou_thresholds)[1:]) and len(c.iou_thresholds) == 5, "cpp-config", lambda: "%s" % c)
  rows_ok("cpp-reorder", matcher.reorder(pose), gt, pr, list(zip(g, p)))
  vh.count("cpp_matches")
  n = rng.randint(1, 8)
  ids = rng.sample(range(n), rng.randint(0, n))
  got = km.missing_ids(tf.constant(np.array(ids, np.int32)), n).numpy().tolist()
  vh.expect(got == [i for i in range(n) if i not in ids], "missing-ids", lambda: "%s of %d: %s" % (ids, n, got))


def best(cost, maximize=False):
  """The best total over all assignments of a small matrix."""
  r, c = cost.shape
  if r > c:
    return best(cost.T, maximize)
  if r == 0:
    return 0.0
  f = max if maximize else min
  return f(sum(cost[i, j] for i, j in enumerate(s)) for s in itertools.permutations(range(c), r))


def case_match(rng):
  k = rng.randint(1, 4)
  gt = random_pose(rng, rng.randint(1, 4), k)
  pr = random_pose(rng, rng.randint(0, 4), k, around=gt[1])
  if k > 1 and rng.random() < 0.2:
    gt, pr = hidden_pose(rng, k)
  lim = rng.choice([0.25, 0.25, 0.1, 0.6])
  vh.crumb((gt[1].tolist(), gt[2].tolist(), gt[3], pr[1].tolist(), pr[2].tolist(), lim))
  vh.nontrivial((gt[1].tolist(), gt[2].tolist(), pr[1].tolist(), pr[2].tolist(), lim))
  G, P = len(gt[1]), len(pr[1])
  pose = km.PoseEstimationPair(gt[0], pr[0])
  matcher = km.create_matcher(km.MeanErrorMatcherConfig(max_closest_keypoint_distance=lim))
  ids = matcher.matching_ids(pose)
  pairs = list(zip(ids.gt.numpy().tolist(), ids.pr.numpy().tolist()))
  if not vh.expect(len(ids.gt.numpy()) == len(ids.pr.numpy()) and len({g for g, _ in pairs}) == len(pairs) == len({p for _, p in pairs}) and all(0 <= g < G and 0 <= p < P for g, p in pairs), "one-to-one", lambda: "%s" % pairs):
    return
  rows_ok("match-reorder", matcher.reorder(pose), gt, pr, pairs)
  if P == 0:
    vh.count("no_prediction")
    return
  dist = np.array([[[math.dist([0] * 3, shift_into(b, pr[1][p, j].tolist(), sign())) if pr[2][p, j] == 2 else math.inf for j in range(k)] for p in range(P)] for b in gt[3]])
  per = np.array([[[math.dist(gt[1][g, j], pr[1][p, j]) for j in range(k)] for p in range(P)] for g in range(G)])
  if (np.abs(dist - lim) < 1e-4).any() or ((dist > 1e-9) & (dist < 1e-4)).any() or (np.abs(per - lim) < 1e-4).any() or edge_inside(gt[3], pr[1]):
    vh.count("on_a_border")
    return
  see_g, see_p = gt[2] == 2, pr[2] == 2
  gti = ~see_g.any(1)
  # Predictions with a keypoint near to one of visible ground truth are kept for it.
  kept = (see_g[:, None] & see_p[None] & (per < lim)).any(-1).any(0)
  inside = (dist < 1e-6).sum(-1).astype(float)
  score = np.where(gti[:, None] & ~kept[None], inside, 0.0)
  err = np.full((G, P), lim)
  near = dist.min(-1) <= lim

  def mean_err(g, p):
    return sum(pem_error(gt[1][g, j], gt[2][g, j], pr[1][p, j], pr[2][p, j], lim)[0] for j in range(k)) / k

  top = best(score, True)
  fits = False
  loose = False
  for n in range(len(pairs) + 1):
    for first in itertools.combinations(pairs, n):
      if any(score[g, p] <= 0 for g, p in first) or sum(score[g, p] for g, p in first) != top:
        continue
      rest = [x for x in pairs if x not in first]
      ug, up = {g for g, _ in first}, {p for _, p in first}
      cost = np.array([[min(mean_err(g, p), lim) if near[g, p] and g not in ug and p not in up else lim for p in range(P)] for g in range(G)])
      if ((cost > lim - 1e-5) & (cost < lim)).any():
        loose = True
      if any(cost[g, p] >= lim for g, p in rest):
        continue
      total = sum(cost[g, p] for g, p in rest) + (min(G, P) - len(rest)) * lim
      if total <= best(cost) + 1e-5:
        fits = True
  if loose:
    vh.count("on_a_border")
    return
  vh.expect(fits, "best-match", lambda: "%s is not a best match (inside %s, errors %s)" % (pairs, score.tolist(), [[round(mean_err(g, p), 3) for p in range(P)] for g in range(G)]))
  vh.count("matches", len(pairs))
  vh.count("hidden_matches", sum(gti[g] for g, _ in pairs))
  vh.count("crowded", int(G > 1 and P > 1))


def edge_inside(boxes, loc):
  for b in boxes:
    for p in loc.reshape(-1, 3):
      q = turn(b, p.tolist(), sign())
      if any(abs(abs(v) - s / 2) < 1e-4 for v, s in zip(q, b[1])):
        return True
  return False


if __name__ == "__main__":
  vh.main([("boxes", 1, case_boxes), ("data", 0.4, case_data), ("frame", 0.5, case_frame), ("draw", 0.5, case_draw), ("metrics", 0.4, case_metrics), ("groups", 0.01, case_groups),
           ("reorder", 0.6, case_reorder), ("match", 0.8, case_match), ("heading", 0.01, case_heading)])
