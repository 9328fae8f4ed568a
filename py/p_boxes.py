"""Boxes and transforms of the Python library (C22)."""
import math

import numpy as np
import tensorflow as tf

import vh
from waymo_open_dataset import label_pb2
from waymo_open_dataset.utils import box_utils, transform_utils


def rot(roll, pitch, yaw):
  cr, sr, cp, sp, cy, sy = (math.cos(roll), math.sin(roll), math.cos(pitch), math.sin(pitch), math.cos(yaw), math.sin(yaw))
  return (np.array([[cy, -sy, 0], [sy, cy, 0], [0, 0, 1]]) @ np.array([[cp, 0, sp], [0, 1, 0], [-sp, 0, cp]]) @ np.array([[1, 0, 0], [0, cr, -sr], [0, sr, cr]]))


def angle(rng):
  return rng.choice([0.0, math.pi / 2, math.pi, -math.pi, rng.uniform(-math.pi, math.pi), rng.uniform(-10, 10)])


def pose(rng, far, tilt=0.0, yaw=None):
  m = np.eye(4)
  m[:3, :3] = rot(rng.uniform(-tilt, tilt), rng.uniform(-tilt, tilt), angle(rng) if yaw is None else yaw)
  m[:3, 3] = [rng.uniform(-far, far) for _ in range(3)]
  return m


def case_inside(rng):
  m, n = rng.randint(1, 5), rng.randint(1, 12)
  flat = rng.random() < 0.4
  dof = 2 if flat else 3
  grid = rng.random() < 0.3  # Points exactly on the boundary.
  double = rng.random() < 0.5
  far = rng.choice([5.0, 100.0])
  boxes, pts = [], []
  for _ in range(m):
    c = [rng.randint(-4, 4) if grid else rng.uniform(-far, far) for _ in range(dof)]
    d = [rng.choice([0.0, 2.0, 4.0, 1.0]) if grid else rng.choice([rng.uniform(0.1, 8), rng.uniform(0.1, 8), rng.uniform(0.1, 8), 0.0]) for _ in range(dof)]
    boxes.append(c + d + [0.0 if grid else angle(rng)])
  for _ in range(n):
    b = rng.choice(boxes)
    if grid:
      pts.append([rng.randint(-10, 10) / 2.0 for _ in range(dof)])
    else:
      # Around a box, in its own axes.
      q = [rng.choice([rng.uniform(-0.8, 0.8), rng.uniform(-0.499, 0.499), rng.uniform(-0.499, 0.499)]) * b[dof + k] for k in range(dof)]
      h = b[-1]
      x = [b[0] + q[0] * math.cos(h) - q[1] * math.sin(h), b[1] + q[0] * math.sin(h) + q[1] * math.cos(h)] + ([b[2] + q[2]] if not flat else [])
      pts.append(x)
  dt = np.float64 if double else np.float32
  pb, pp = np.array(boxes, dt), np.array(pts, dt)
  vh.crumb(dict(boxes=boxes, pts=pts, flat=flat, double=double))
  got = (box_utils.is_within_box_2d if flat else box_utils.is_within_box_3d)(tf.constant(pp), tf.constant(pb)).numpy()
  vh.expect(got.shape == (n, m) and got.dtype == np.bool_, "inside-shape", lambda: "%s %s" % (got.shape, got.dtype))
  sure = np.zeros((n, m), int)
  for i in range(n):
    for j in range(m):
      b, p = pb[j].astype(float), pp[i].astype(float)
      h = b[-1]
      dx, dy = p[0] - b[0], p[1] - b[1]
      q = [dx * math.cos(h) + dy * math.sin(h), -dx * math.sin(h) + dy * math.cos(h)] + ([] if flat else [p[2] - b[2]])
      d = b[dof:2 * dof]
      gap = max(abs(q[k]) - d[k] / 2 for k in range(dof))
      eps = 0 if grid else (1e-9 if double else 2e-5 * (1 + far / 10))
      # A box without extent in some direction holds nothing.
      want = False if (d == 0).any() else gap <= 0
      if (d == 0).any():
        vh.count("flat_boxes")
      elif abs(gap) <= eps and not grid:
        continue
      sure[i, j] = 1
      vh.count("inside" if want else "outside")
      if grid and gap == 0 and want:
        vh.count("on_boundary")
      vh.expect(bool(got[i, j]) == want, "inside-wrong", lambda: "box %s, point %s: %s" % (boxes[j], pts[i], got[i, j]))
  if not flat:
    cnt = box_utils.compute_num_points_in_box_3d(tf.constant(pp), tf.constant(pb)).numpy()
    vh.expect(cnt.shape == (m,) and cnt.dtype == np.int32 and (cnt == got.sum(axis=0)).all(), "count-off", lambda: "%s %s" % (cnt, got.sum(axis=0)))
  vh.nontrivial(pb.tobytes() + pp.tobytes())


def case_corners(rng):
  n = rng.randint(1, 5)
  b = np.array([[rng.choice([0.0, v]) if rng.random() < 0.1 else v for v in [rng.uniform(-50, 50) for _ in range(3)] + [rng.uniform(0.1, 10) for _ in range(3)] + [angle(rng)]] for _ in range(n)])
  vh.crumb(b.tolist())
  got = box_utils.get_upright_3d_box_corners(tf.constant(b)).numpy()
  vh.expect(got.shape == (n, 8, 3), "corner-shape", lambda: str(got.shape))
  for i in range(n):
    x, y, z, l, w, h, t = b[i]
    # Bottom then top, each counter-clockwise from the front left.
    want = [[x + sl * l / 2 * math.cos(t) - sw * w / 2 * math.sin(t), y + sl * l / 2 * math.sin(t) + sw * w / 2 * math.cos(t), z + sh * h / 2]
            for sh in (-1, 1) for sl, sw in ((1, 1), (-1, 1), (-1, -1), (1, -1))]
    vh.expect(vh.close(got[i], want, 1e-9), "corners-off", lambda: "box %s: %s" % (b[i], got[i]))
    vh.count("corners", 8)
  p = label_pb2.Label.Box(center_x=b[0, 0], center_y=b[0, 1], center_z=b[0, 2], length=b[0, 3], width=b[0, 4], height=b[0, 5], heading=b[0, 6])
  vh.expect(vh.close(box_utils.box_to_tensor(p).numpy(), b[0], 1e-4), "box-tensor-off", lambda: str(b[0]))
  vh.nontrivial(b.tobytes())


def case_transform(rng):
  n = rng.randint(1, 5)
  batch = rng.choice([(), (2,), (2, 3)])
  far = rng.choice([10.0, 1000.0])
  total = int(np.prod(batch, dtype=int))
  double = rng.random() < 0.6
  dt = np.float64 if double else np.float32
  f = np.stack([pose(rng, far, rng.choice([0.0, 0.3])) for _ in range(total)])
  t = np.stack([pose(rng, far, rng.choice([0.0, 0.3])) for _ in range(total)])
  pts = np.array([[[rng.uniform(-30, 30) for _ in range(3)] for _ in range(n)] for _ in range(total)])
  f, t, pts = f.astype(dt), t.astype(dt), pts.astype(dt)
  vh.crumb(dict(f=f.tolist(), t=t.tolist(), pts=pts.tolist()))
  got = box_utils.transform_point(tf.constant(pts.reshape(batch + (n, 3))), tf.constant(f.reshape(batch + (4, 4))), tf.constant(t.reshape(batch + (4, 4)))).numpy()
  vh.expect(got.shape == batch + (n, 3) and got.dtype == dt, "point-shape", lambda: "%s" % (got.shape,))
  tol = 1e-8 if double else 1e-3 + far * 3e-6
  got = got.reshape(total, n, 3)
  for k in range(total):
    world = pts[k].astype(float) @ f[k][:3, :3].astype(float).T + f[k][:3, 3]
    want = np.linalg.solve(t[k].astype(float), np.c_[world, np.ones(n)].T).T[:, :3]
    vh.expect(np.abs(got[k] - want).max() <= tol, "point-off", lambda: "%s, not %s" % (got[k], want))
    vh.count("moved_points", n)
  # Boxes, with upright poses: corners move like points.
  f = np.stack([pose(rng, far) for _ in range(total)]).astype(dt)
  t = np.stack([pose(rng, far) for _ in range(total)]).astype(dt)
  box = np.array([[[rng.uniform(-30, 30) for _ in range(3)] + [rng.uniform(0.1, 9) for _ in range(3)] + [angle(rng)] for _ in range(n)] for _ in range(total)]).astype(dt)
  vh.crumb(dict(f=f.tolist(), t=t.tolist(), box=box.tolist()))
  got = box_utils.transform_box(tf.constant(box.reshape(batch + (n, 7))), tf.constant(f.reshape(batch + (4, 4))), tf.constant(t.reshape(batch + (4, 4)))).numpy()
  vh.expect(got.shape == batch + (n, 7) and got.dtype == dt, "box-shape", lambda: "%s" % (got.shape,))
  got = got.reshape(total, n, 7)
  for k in range(total):
    vh.expect(np.array_equal(got[k][:, 3:6], box[k][:, 3:6]), "box-resized", lambda: "%s" % got[k])
    ca = box_utils.get_upright_3d_box_corners(tf.constant(box[k].astype(float))).numpy().reshape(-1, 3)
    cb = box_utils.get_upright_3d_box_corners(tf.constant(got[k].astype(float))).numpy().reshape(-1, 3)
    world = ca @ f[k][:3, :3].astype(float).T + f[k][:3, 3]
    want = np.linalg.solve(t[k].astype(float), np.c_[world, np.ones(len(world))].T).T[:, :3]
    vh.expect(np.abs(cb - want).max() <= tol * 3, "box-off", lambda: "%s: corners %s, not %s" % (got[k], cb, want))
    vh.count("moved_boxes", n)
  # Frames tilted against each other: centers move like points, and the front of a box without heading
  # points where the x axis of its frame points, seen from above.
  f = np.stack([pose(rng, far, 0.4) for _ in range(total)])
  t = np.stack([pose(rng, far, 0.4) for _ in range(total)])
  box = box.astype(float)
  box[..., 6] = np.where(np.array([[rng.random() < 0.6 for _ in range(n)] for _ in range(total)]), 0.0, box[..., 6])
  vh.crumb(dict(f=f.tolist(), t=t.tolist(), box=box.tolist()))
  got = box_utils.transform_box(tf.constant(box.reshape(batch + (n, 7))), tf.constant(f.reshape(batch + (4, 4))), tf.constant(t.reshape(batch + (4, 4)))).numpy().reshape(total, n, 7)
  for k in range(total):
    m = np.linalg.inv(t[k]) @ f[k]
    want = box[k][:, :3] @ m[:3, :3].T + m[:3, 3]
    vh.expect(np.abs(got[k][:, :3] - want).max() <= 1e-7 and np.array_equal(got[k][:, 3:6], box[k][:, 3:6]), "tilted-box-off", lambda: "%s, not %s" % (got[k], want))
    for i in range(n):
      h = box[k][i, 6]
      front = m[:3, :3] @ np.array([math.cos(h), math.sin(h), 0.0])
      if math.hypot(front[0], front[1]) < 0.3:
        continue
      off = abs(math.remainder(got[k][i, 6] - math.atan2(front[1], front[0]), 2 * math.pi))
      vh.expect(h != 0 or off <= 1e-7, "tilted-heading-off", lambda: "%s: %s off by %g" % (m.tolist(), got[k][i], off))
      vh.count("tilted_boxes")
  vh.nontrivial(pts.tobytes())


def case_rotation(rng):
  shape = rng.choice([(1,), (3,), (2, 2), (1, 2, 3)])
  n = int(np.prod(shape))
  a = np.array([[angle(rng) for _ in range(n)] for _ in range(3)])
  vh.crumb(a.tolist())
  r, p, y = [x.reshape(shape) for x in a]
  got = transform_utils.get_rotation_matrix(tf.constant(r), tf.constant(p), tf.constant(y)).numpy()
  want = np.array([rot(*a[:, i]) for i in range(n)]).reshape(shape + (3, 3))
  vh.expect(vh.close(got, want, 1e-9), "rotation-off", lambda: "%s: %s" % (a.tolist(), got))
  got = transform_utils.get_yaw_rotation(tf.constant(y)).numpy()
  want = np.array([rot(0, 0, v) for v in a[2]]).reshape(shape + (3, 3))
  vh.expect(vh.close(got, want, 1e-9), "yaw-off", lambda: "%s: %s" % (a.tolist(), got))
  got2 = transform_utils.get_yaw_rotation_2d(tf.constant(y)).numpy()
  vh.expect(vh.close(got2, want[..., :2, :2], 1e-9), "yaw-2d-off", lambda: "%s: %s" % (a.tolist(), got2))
  k = rng.choice([2, 3])
  ro = np.array([rng.uniform(-2, 2) for _ in range(n * k * k)]).reshape(shape + (k, k))
  tr = np.array([rng.uniform(-2, 2) for _ in range(n * k)]).reshape(shape + (k,))
  got = transform_utils.get_transform(tf.constant(ro), tf.constant(tr)).numpy()
  want = np.zeros(shape + (k + 1, k + 1))
  want[..., :k, :k], want[..., :k, k], want[..., k, k] = ro, tr, 1
  vh.expect(vh.close(got, want, 0, 0), "transform-off", lambda: str(got))
  vh.count("rotations", n)
  vh.nontrivial(a.tobytes())


vh.main([("inside", 1, case_inside), ("corners", 0.5, case_corners), ("transform", 1, case_transform), ("rotation", 0.7, case_rotation)])
