"""Range images and lidar points against the documented geometry (C21)."""
import math
import zlib

import numpy as np
import tensorflow as tf

import vh
from waymo_open_dataset import dataset_pb2
from waymo_open_dataset.protos import compressed_lidar_pb2, scenario_pb2
from waymo_open_dataset.utils import frame_utils, range_image_utils as ri_utils, womd_lidar_utils
from waymo_open_dataset.utils.compression import delta_encoder
from waymo_open_dataset.v2.perception import context as v2_context
from waymo_open_dataset.v2.perception import lidar as v2_lidar
from waymo_open_dataset.v2.perception import pose as v2_pose
from waymo_open_dataset.v2.perception import segmentation as v2_segmentation
from waymo_open_dataset.v2 import column_types
from waymo_open_dataset.v2.perception.utils import lidar_utils as v2_lidar_utils

QUANTUM = 0.00585532144


def rot(roll, pitch, yaw):
  cr, sr, cp, sp, cy, sy = (math.cos(roll), math.sin(roll), math.cos(pitch), math.sin(pitch), math.cos(yaw), math.sin(yaw))
  rx = np.array([[1, 0, 0], [0, cr, -sr], [0, sr, cr]])
  ry = np.array([[cp, 0, sp], [0, 1, 0], [-sp, 0, cp]])
  rz = np.array([[cy, -sy, 0], [sy, cy, 0], [0, 0, 1]])
  return rz @ ry @ rx


def pose(r, t):
  m = np.eye(4)
  m[:3, :3], m[:3, 3] = r, t
  return m


def random_pose(rng, far=3.0, tilt=0.1):
  yaw = rng.choice([0.0, math.pi, -math.pi, math.pi / 2, rng.uniform(-math.pi, math.pi), rng.uniform(-math.pi, math.pi)])
  t = [rng.uniform(-far, far) for _ in range(3)]
  if rng.random() < 0.2:
    # Exactly at an axis of the origin, or at the origin itself.
    t = [rng.choice([0.0, 0.0, v]) for v in t]
  return pose(rot(rng.uniform(-tilt, tilt), rng.uniform(-tilt, tilt), yaw), t)


def ref_cartesian(ranges, extrinsic, inclination, pixel_poses=None, frame_pose=None):
  """[H, W] ranges to [H, W, 3] points, in double precision; straight from the documentation."""
  h, w = ranges.shape
  corr = math.atan2(extrinsic[1, 0], extrinsic[0, 0])
  out = np.zeros((h, w, 3))
  world_to_vehicle = None if frame_pose is None else np.linalg.inv(frame_pose)
  for i in range(h):
    for j in range(w):
      az = ((w - j - 0.5) / w * 2.0 - 1.0) * math.pi - corr
      inc = inclination[i]
      p = np.array([math.cos(az) * math.cos(inc), math.sin(az) * math.cos(inc), math.sin(inc)]) * float(ranges[i, j])
      p = extrinsic[:3, :3] @ p + extrinsic[:3, 3]
      if pixel_poses is not None:
        p = pixel_poses[i, j][:3, :3] @ p + pixel_poses[i, j][:3, 3]
        p = world_to_vehicle[:3, :3] @ p + world_to_vehicle[:3, 3]
      out[i, j] = p
  return out


def random_inclination(rng, h):
  """Highest first."""
  top = rng.uniform(-0.1, 0.3)
  steps = [rng.uniform(0.02, 0.1) for _ in range(h)]
  return np.array([top - sum(steps[:i]) for i in range(h)])


def random_ranges(rng, h, w, missing=0.2, near=0.0):
  return np.array([[rng.choice([0.0, -1.0]) if rng.random() < missing else rng.choice([rng.uniform(1e-3, 0.1), rng.uniform(0.1, 0.5)]) if rng.random() < near else rng.uniform(0.5, 75.0) for _ in range(w)] for _ in range(h)], np.float32)


def case_features(rng):
  n = rng.choice([0, 1, 2, 7, 40])
  r = [rng.choice([0.0, rng.uniform(0, 380), rng.uniform(0, 80), QUANTUM * rng.randint(0, 65000)]) for _ in range(n)]
  inten = [rng.choice([0.0, 1.0, rng.uniform(0, 1), rng.uniform(0, 1e4), 10.0 ** rng.uniform(-30, 30), -rng.uniform(0, 2)]) for _ in range(n)]
  elon = [rng.choice([0.0, rng.uniform(0, 1.49), QUANTUM * rng.randint(0, 254)]) for _ in range(n)]
  f = np.array([r, inten, elon], np.float32).T.reshape(n, 3)
  vh.crumb("features %s" % f.tolist())
  enc = ri_utils.encode_lidar_features(tf.constant(f))
  e = enc.numpy()
  vh.expect(e.dtype == np.int64 and e.shape == (n, 3), "encoded-shape", lambda: "%s %s" % (e.dtype, e.shape))
  d = ri_utils.decode_lidar_features(enc).numpy()
  vh.expect(d.dtype == np.float32 and d.shape == (n, 3), "decoded-shape", lambda: "%s %s" % (d.dtype, d.shape))
  for i in range(n):
    vh.count("features")
    eps = 1e-6 * abs(f[i, 0]) + 1e-7
    vh.expect(d[i, 0] <= f[i, 0] + eps and d[i, 0] > f[i, 0] - QUANTUM - eps, "range-off", lambda: "%r -> %r" % (f[i], d[i]))
    vh.expect(d[i, 2] <= f[i, 2] + 1e-6 and d[i, 2] > f[i, 2] - QUANTUM - 1e-6, "elongation-off", lambda: "%r -> %r" % (f[i], d[i]))
    # The upper half of the float: 8 significant bits, towards zero.
    vh.expect(abs(d[i, 1]) <= abs(f[i, 1]) and abs(d[i, 1] - f[i, 1]) <= abs(f[i, 1]) * 2.0**-7 + 1e-37, "intensity-off", lambda: "%r -> %r" % (f[i], d[i]))
  # Every encoded feature keeps the order of the ranges; features of one point order together.
  for i in range(min(n, 12)):
    for j in range(min(n, 12)):
      if d[i, 0] < d[j, 0]:
        vh.expect((e[i] < e[j]).all(), "order-lost", lambda: "%r %r vs %r %r" % (f[i], e[i], f[j], e[j]))
        vh.count("ordered_pairs")
  # Decoding loses nothing more.
  if n:
    again = ri_utils.encode_lidar_features(tf.constant(d)).numpy()
    vh.expect((np.abs((again >> np.array([0, 16, 16])) - (e >> np.array([0, 16, 16]))) <= 1).all(), "encode-drifts", lambda: "%s %s" % (again, e))
  bad = np.array([[rng.choice([-1.0, 400.0]), 0.5, 0.1]] if rng.random() < 0.5 else [[1.0, 0.5, rng.choice([-0.5, 2.0])]], np.float32)
  vh.expect(vh.refused(lambda: ri_utils.encode_lidar_features(tf.constant(bad))), "unencodable-accepted", lambda: str(bad))
  vh.expect(vh.refused(lambda: ri_utils.encode_lidar_features(tf.constant(f.astype(np.float64))), TypeError), "double-accepted")
  vh.nontrivial(f.tobytes())


def case_geometry(rng):
  b, h, w = rng.randint(1, 3), rng.randint(1, 7), rng.choice([1, 2, 3, 5, 8, 13, 20])
  ranges = np.stack([random_ranges(rng, h, w, 0.1, near=0.05) for _ in range(b)])
  ext = np.stack([random_pose(rng) for _ in range(b)])
  inc = np.stack([random_inclination(rng, h) for _ in range(b)])
  double = rng.random() < 0.4
  kw = dict(dtype=tf.float64) if double else {}
  with_pose = rng.random() < 0.6
  pp = fp = None
  far = rng.choice([5.0, 50.0, 3000.0])
  if with_pose:
    origin = random_pose(rng, far)
    fp = np.stack([origin for _ in range(b)])
    pp = np.stack([[[origin @ random_pose(rng, 0.5, 0.02) for _ in range(w)] for _ in range(h)] for _ in range(b)])
  vh.crumb(dict(b=b, h=h, w=w, ranges=ranges.tolist(), ext=ext.tolist(), inc=inc.tolist(), pose=with_pose, far=far))
  out = ri_utils.extract_point_cloud_from_range_image(
      tf.constant(ranges), tf.constant(ext), tf.constant(inc),
      pixel_pose=None if pp is None else tf.constant(pp), frame_pose=None if fp is None else tf.constant(fp), **kw).numpy()
  vh.expect(out.shape == (b, h, w, 3) and out.dtype == np.float32, "cloud-shape", lambda: "%s %s" % (out.shape, out.dtype))
  tol = 2e-5 if double else (1e-3 + (2e-6 * far * 4 if with_pose else 0))
  for i in range(b):
    ref = ref_cartesian(ranges[i], ext[i], inc[i], None if pp is None else pp[i], None if fp is None else fp[i])
    worst = float(np.abs(ref - out[i]).max())
    vh.expect(worst <= tol, "points-off", lambda: "off by %g (tolerance %g, with poses %s) at %s" % (worst, tol, with_pose, np.unravel_index(np.abs(ref - out[i]).argmax(), ref.shape)))
    vh.count("points", h * w)
  if with_pose:
    vh.count("pixel_poses", b * h * w)
    vh.expect(vh.refused(lambda: ri_utils.extract_point_cloud_from_range_image(tf.constant(ranges), tf.constant(ext), tf.constant(inc), pixel_pose=tf.constant(pp)), ValueError),
              "pixel-pose-alone-accepted")
  polar = ri_utils.compute_range_image_polar(tf.constant(ranges), tf.constant(ext), tf.constant(inc), **kw).numpy()
  vh.expect(polar.shape == (b, h, w, 4 - 1), "polar-shape", lambda: str(polar.shape))
  vh.expect(vh.close(polar[..., 2], ranges, 0, 0), "polar-range-off")
  vh.expect(np.abs(polar[..., 1] - inc[:, :, None]).max() < 1e-5, "polar-inclination-off")
  if not with_pose:
    # Distances to the sensor are the ranges.
    d = np.linalg.norm(out.astype(np.float64) - ext[:, None, None, :3, 3], axis=-1)
    vh.expect(np.abs(d - np.abs(ranges)).max() < 1e-3, "distance-off", lambda: "%g" % np.abs(d - np.abs(ranges)).max())
  vh.nontrivial(ranges.tobytes() + ext.tobytes())
  vh.sample("%d x %d x %d, poses %s" % (b, h, w, with_pose))


def wrapped_cols(x, w):
  """Columns a point may fall in, given the exact (fractional) column."""
  lo, hi = math.floor(x + 0.5 - 2e-3), math.floor(x + 0.5 + 2e-3)
  return {lo % w, hi % w}


def case_build(rng):
  b, h, w = rng.randint(1, 3), rng.randint(1, 6), rng.choice([1, 2, 3, 8, 13, 36, 64])
  n = rng.choice([1, 2, 5, 20, 60])
  ext = np.stack([random_pose(rng) for _ in range(b)])
  inc = np.stack([random_inclination(rng, h) for _ in range(b)])
  features = rng.random() < 0.5
  pts = np.zeros((b, n, 3), np.float32)
  for i in range(b):
    for k in range(n):
      if k and rng.random() < 0.2:  # The same direction, another distance.
        p = (pts[i, rng.randrange(k)] - ext[i][:3, 3])
        p = p * (rng.uniform(1, 90) / max(np.linalg.norm(p), 1e-3)) + ext[i][:3, 3]
      elif rng.random() < 0.15:  # On the axes of the sensor, its seam included.
        d = rng.uniform(1, 60)
        p = ext[i][:3, :3] @ np.array(rng.choice([[d, 0, 0], [-d, 0, 0], [0, d, 0], [0, -d, 0], [-d, -1e-9, 0], [-d, 1e-9, 0], [-d, -0.0, 1]])) + ext[i][:3, 3]
      else:
        az, el, d = rng.uniform(-math.pi, math.pi), rng.uniform(-0.6, 0.4), rng.uniform(0.5, 75)
        p = ext[i][:3, :3] @ (np.array([math.cos(az) * math.cos(el), math.sin(az) * math.cos(el), math.sin(el)]) * d) + ext[i][:3, 3]
      pts[i, k] = p
  num = np.array([rng.choice([n, rng.randint(0, n)]) for _ in range(b)], np.int32)
  feat = np.array([[[rng.uniform(0, 1), rng.uniform(0, 1.4)] for _ in range(n)] for _ in range(b)], np.float32)
  vh.crumb(dict(w=w, h=h, pts=pts.tolist(), num=num.tolist(), ext=ext.tolist(), inc=inc.tolist(), features=features))
  img, idx, dist = ri_utils.build_range_image_from_point_cloud(
      tf.constant(pts), tf.constant(num), tf.constant(ext.astype(np.float32)), tf.constant(inc.astype(np.float32)), [h, w],
      point_features=tf.constant(feat) if features else None)
  img, idx, dist = img.numpy(), idx.numpy(), dist.numpy()
  vh.expect(img.shape == ((b, h, w, 3) if features else (b, h, w)) and idx.shape == (b, n, 2) and dist.shape == (b, n), "built-shape", lambda: "%s %s %s" % (img.shape, idx.shape, dist.shape))
  for i in range(b):
    inv = np.linalg.inv(ext[i])
    corr = math.atan2(ext[i][1, 0], ext[i][0, 0])
    for k in range(n):
      p = inv[:3, :3] @ pts[i, k].astype(np.float64) + inv[:3, 3]
      el = math.atan2(p[2], math.hypot(p[0], p[1]))
      diffs = np.abs(el - inc[i])
      vh.expect(diffs[idx[i, k, 0]] <= diffs.min() + 2e-5, "row-off", lambda: "point %s (%g): row %d, %s" % (pts[i, k], el, idx[i, k, 0], inc[i]))
      az = math.atan2(p[1], p[0]) + corr
      t = ((az + math.pi) / (2 * math.pi)) % 1.0
      x = w - 0.5 - t * w
      # How far the column moves for an error of the position in single precision.
      blur = 1e-5 / max(math.hypot(p[0], p[1]), 1e-3) / (2 * math.pi) * w
      if blur < 1e-3:
        vh.expect(int(idx[i, k, 1]) in wrapped_cols(x, w), "column-off", lambda: "point %s (azimuth %.9g): column %d of %d, exactly %.6f" % (pts[i, k], az, idx[i, k, 1], w, x))
        vh.count("columns")
        if min(t, 1 - t) * w < 1e-3:
          vh.count("seam_points")
      vh.expect(abs(dist[i, k] - np.linalg.norm(p)) < 1e-3, "distance-off", lambda: "%g %g" % (dist[i, k], np.linalg.norm(p)))
    # Every pixel holds its nearest point, 0 without one.
    best = {}
    for k in range(int(num[i])):
      c = tuple(int(v) for v in idx[i, k])
      if c not in best or dist[i, k] < dist[i, best[c]]:
        if c in best:
          vh.count("contested_pixels")
        best[c] = k
    for r in range(h):
      for c in range(w):
        v = img[i, r, c]
        if (r, c) not in best:
          vh.expect((np.asarray(v) == 0).all(), "empty-pixel-filled", lambda: "%s" % (v,))
          continue
        k = best[(r, c)]
        if not features:
          vh.expect(v == dist[i, k], "pixel-not-nearest", lambda: "%r, nearest %r" % (v, dist[i, k]))
        else:
          vh.expect(dist[i, k] - QUANTUM - 1e-5 < v[0] <= dist[i, k] + 1e-5, "pixel-not-nearest", lambda: "%r, nearest %r" % (v, dist[i, k]))
          # A point as near as can be told may give the features.
          ok = [q for q in range(int(num[i])) if tuple(idx[i, q]) == (r, c) and dist[i, q] < dist[i, k] + QUANTUM]
          vh.expect(any(abs(v[1] - feat[i, q, 0]) <= feat[i, q, 0] / 128 for q in ok) and any(-1e-6 <= feat[i, q, 1] - v[2] < QUANTUM + 1e-6 for q in ok),
                    "features-of-another-point", lambda: "%s, points %s" % (v, feat[i, ok]))
          vh.count("pixel_features")
  vh.nontrivial(pts.tobytes())


def case_roundtrip(rng):
  """Points of a range image fall back into their own pixels."""
  h, w = rng.randint(1, 6), rng.choice([1, 2, 3, 7, 16, 50])
  ranges = random_ranges(rng, h, w, 0.0)
  ext, inc = random_pose(rng), random_inclination(rng, h)
  vh.crumb(dict(ranges=ranges.tolist(), ext=ext.tolist(), inc=inc.tolist()))
  pts = ri_utils.extract_point_cloud_from_range_image(tf.constant(ranges[None]), tf.constant(ext[None]), tf.constant(inc[None]))
  img, idx, _ = ri_utils.build_range_image_from_point_cloud(
      tf.reshape(pts, [1, -1, 3]), tf.constant([h * w], tf.int32), tf.constant(ext[None].astype(np.float32)), tf.constant(inc[None].astype(np.float32)), [h, w])
  want = [(i, j) for i in range(h) for j in range(w)]
  got = [tuple(x) for x in idx.numpy()[0].tolist()]
  vh.expect(got == want, "pixel-moved", lambda: str([(a, b) for a, b in zip(got, want) if a != b][:5]))
  vh.expect(np.abs(img.numpy()[0] - ranges).max() < 1e-3, "range-lost")
  vh.count("round_trips")
  vh.nontrivial(ranges.tobytes())


def case_small(rng):
  # Scatter with pooling.
  h, w, n = rng.randint(1, 5), rng.randint(1, 6), rng.randint(1, 20)
  idx = np.array([[rng.randrange(h), rng.randrange(w)] for _ in range(n)], np.int32)
  depth = rng.choice([0, 1, 3])
  val = np.array([[rng.uniform(-5, 5) for _ in range(depth or 1)] for _ in range(n)], np.float32)
  if not depth:
    val = val[:, 0]
  which = rng.choice(["max", "min", "sum"])
  pool = dict(max=tf.math.unsorted_segment_max, min=tf.math.unsorted_segment_min, sum=tf.math.unsorted_segment_sum)[which]
  vh.crumb(dict(idx=idx.tolist(), val=val.tolist(), h=h, w=w, pool=which))
  out = ri_utils.scatter_nd_with_pool(tf.constant(idx), tf.constant(val), [h, w], pool).numpy()
  ref = np.zeros((h, w) + val.shape[1:], np.float64)
  f = dict(max=np.max, min=np.min, sum=np.sum)[which]
  for r in range(h):
    for c in range(w):
      m = (idx == [r, c]).all(axis=1)
      if m.any():
        ref[r, c] = f(val[m].astype(np.float64), axis=0)
        if m.sum() > 1:
          vh.count("pooled_pixels")
  vh.expect(vh.close(out, ref, 1e-4), "pool-off", lambda: "%s %s" % (out, ref))
  # Inclinations.
  h = rng.randint(1, 40)
  lo, hi = sorted([rng.uniform(-0.5, 0.1), rng.uniform(-0.1, 0.5)])
  batch = rng.random() < 0.5
  got = ri_utils.compute_inclination(tf.constant([[lo, hi]] if batch else [lo, hi]), h).numpy()
  ref = np.array([lo + (hi - lo) * (i + 0.5) / h for i in range(h)])
  vh.expect(vh.close(got, ref[None] if batch else ref, 1e-5), "inclination-off", lambda: "%s %s" % (got, ref))
  # Crops.
  b, h, w = rng.randint(1, 3), rng.randint(1, 3), rng.randint(2, 12)
  x = np.arange(b * h * w * 2, dtype=np.float32).reshape(b, h, w, 2)
  nw = rng.randint(1, w)
  shift = None if rng.random() < 0.3 else [rng.randint(-4, 4) for _ in range(b)]
  vh.crumb(dict(w=w, nw=nw, shift=shift))
  lefts = [(w - nw) // 2 + s for s in (shift or [0] * b)]
  if nw == w or all(l >= 0 and l + nw <= w for l in lefts):
    got = ri_utils.crop_range_image(tf.constant(x), nw, shift).numpy()
    ref = x if nw == w else np.stack([x[i, :, lefts[i]:lefts[i] + nw] for i in range(b)])
    vh.expect(vh.close(got, ref, 0), "crop-off", lambda: "width %d to %d, shift %s" % (w, nw, shift))
    vh.count("crops")
  else:
    vh.expect(vh.refused(lambda: ri_utils.crop_range_image(tf.constant(x), nw, shift), ValueError), "bad-crop-accepted", lambda: "width %d to %d, shift %s" % (w, nw, shift))
    vh.count("bad_crops")
  vh.expect(vh.refused(lambda: ri_utils.crop_range_image(tf.constant(x), rng.choice([0, -1, w + 1]), None), ValueError), "bad-width-accepted")
  vh.nontrivial(idx.tobytes() + val.tobytes())


def case_depth(rng):
  b, h, w = rng.randint(1, 2), rng.randint(1, 4), rng.randint(1, 6)
  ih, iw = rng.randint(1, 5), rng.randint(1, 7)
  pts = np.array([[[[rng.uniform(-30, 30) for _ in range(3)] for _ in range(w)] for _ in range(h)] for _ in range(b)], np.float32)
  ext = np.stack([random_pose(rng) for _ in range(b)])
  cp = np.zeros((b, h, w, 6), np.int32)
  for p in cp.reshape(-1, 6):
    p[:] = [rng.randint(0, 3), rng.randrange(iw), rng.randrange(ih), rng.randint(0, 3), rng.randrange(iw), rng.randrange(ih)]
  cam = rng.randint(1, 3)
  far = rng.random() < 0.3
  kw = dict(pool_method=tf.math.unsorted_segment_max) if far else {}
  vh.crumb(dict(cp=cp.tolist(), cam=cam, pts=pts.tolist()))
  out = ri_utils.build_camera_depth_image(tf.constant(pts), tf.constant(ext.astype(np.float32)), tf.constant(cp), [ih, iw], cam, **kw).numpy()
  ref = np.zeros((b, ih, iw))
  for i in range(b):
    cells = {}
    for r in range(h):
      for c in range(w):
        p = cp[i, r, c]
        # The first projection that is this camera's.
        xy = (p[1], p[2]) if p[0] == cam else (p[4], p[5]) if p[3] == cam else None
        if xy is None:
          continue
        vh.count("first_projections" if p[0] == cam else "second_projections")
        # Depth: the distance to the origin of the camera.
        cells.setdefault((xy[1], xy[0]), []).append(np.linalg.norm(pts[i, r, c] - ext[i][:3, 3]))
    for k, v in cells.items():
      ref[i][k] = max(v) if far else min(v)
      if len(v) > 1:
        vh.count("contested_depths")
  vh.expect(out.shape == ref.shape and np.abs(out - ref).max() < 1e-3, "depth-off", lambda: "%s %s" % (out, ref))
  vh.nontrivial(pts.tobytes())


def matrix(m, cls):
  p = cls()
  p.data.extend(np.asarray(m).reshape(-1).tolist())
  p.shape.dims.extend(list(np.asarray(m).shape))
  return p


def packed(m, cls):
  return zlib.compress(matrix(m, cls).SerializeToString())


def random_frame(rng):
  """A frame, and the reference of its range images: {laser: dict}."""
  frame = dataset_pb2.Frame()
  frame.context.name = "segment-%d" % rng.randrange(1000)
  frame.timestamp_micros = rng.randrange(10**15)
  frame_pose = random_pose(rng, 30.0)
  frame.pose.transform.extend(frame_pose.reshape(-1).tolist())
  names = [1] + rng.sample([2, 3, 4, 5], rng.randint(0, 4))
  rng.shuffle(names)
  ref = {}
  for name in names:
    h, w = rng.randint(1, 4), rng.randint(1, 6)
    laser = frame.lasers.add(name=name)
    r = dict(h=h, w=w, ri=[], cp=[], seg=[])
    for ret, dst in enumerate((laser.ri_return1, laser.ri_return2)):
      ranges = random_ranges(rng, h, w, 0.4, near=0.1)
      img = np.stack([ranges] + [np.array([[rng.uniform(-1, 1) for _ in range(w)] for _ in range(h)]) for _ in range(3)], -1).astype(np.float32)
      cp = np.array([[[rng.randrange(0, 2000) for _ in range(6)] for _ in range(w)] for _ in range(h)], np.int32)
      dst.range_image_compressed = packed(img, dataset_pb2.MatrixFloat)
      dst.camera_projection_compressed = packed(cp, dataset_pb2.MatrixInt32)
      r["ri"].append(img)
      r["cp"].append(cp)
      if rng.random() < 0.5 and (not ret or r["seg"][0] is not None):
        seg = np.array([[[rng.randrange(0, 23) for _ in range(2)] for _ in range(w)] for _ in range(h)], np.int32)
        dst.segmentation_label_compressed = packed(seg, dataset_pb2.MatrixInt32)
        r["seg"].append(seg)
      elif not ret:
        r["seg"].append(None)
    if name == 1:
      angles = np.array([[[rng.uniform(-0.1, 0.1), rng.uniform(-0.1, 0.1), rng.uniform(-3, 3)] + [rng.uniform(-30, 30) for _ in range(3)] for _ in range(w)] for _ in range(h)], np.float32)
      laser.ri_return1.range_image_pose_compressed = packed(angles, dataset_pb2.MatrixFloat)
      r["pose6"] = angles
      r["poses"] = np.array([[pose(rot(*[float(v) for v in a[:3]]), a[3:]) for a in row] for row in angles])
    ref[name] = r
  calib = list(names)
  rng.shuffle(calib)
  for name in calib:
    r = ref[name]
    c = frame.context.laser_calibrations.add(name=name)
    r["ext"] = random_pose(rng)
    c.extrinsic.transform.extend(r["ext"].reshape(-1).tolist())
    if rng.random() < 0.5:
      inc = random_inclination(rng, r["h"])[::-1]  # Lowest first in the proto.
      c.beam_inclinations.extend(inc.tolist())
      r["inc"] = inc[::-1]
    else:
      lo, hi = sorted([rng.uniform(-0.5, 0.1), rng.uniform(-0.1, 0.4)])
      c.beam_inclination_min, c.beam_inclination_max = lo, hi
      r["inc"] = np.array([lo + (hi - lo) * (i + 0.5) / r["h"] for i in range(r["h"])])[::-1]
      vh.count("uniform_inclinations")
  return frame, ref, frame_pose, calib


def case_frame(rng):
  frame, ref, frame_pose, calib = random_frame(rng)
  before = frame.SerializeToString(deterministic=True)
  vh.crumb(before.hex()[:3000])
  ris, cps, segs, top_pose = frame_utils.parse_range_image_and_camera_projection(frame)
  vh.expect(set(ris) == set(ref) and set(cps) == set(ref), "lasers-off")
  for name, r in ref.items():
    vh.expect(len(ris[name]) == 2 and all(vh.close(np.reshape(ris[name][k].data, list(ris[name][k].shape.dims)), r["ri"][k], 1e-6) for k in (0, 1)), "range-image-off", name)
    vh.expect(len(cps[name]) == 2 and all(vh.close(np.reshape(cps[name][k].data, list(cps[name][k].shape.dims)), r["cp"][k], 0) for k in (0, 1)), "camera-projection-off", name)
    if all(s is not None for s in r["seg"]):
      vh.expect(len(segs[name]) == len(r["seg"]) and all(vh.close(np.reshape(segs[name][k].data, list(segs[name][k].shape.dims)), r["seg"][k], 0) for k in range(len(r["seg"]))), "segmentation-off", name)
      vh.count("seg_labels")
  vh.expect(vh.close(np.reshape(top_pose.data, list(top_pose.shape.dims)), ref[1]["pose6"], 1e-6), "top-pose-off")
  for ret in (0, 1):
    polar = rng.random() < 0.5
    # Both have defaults: the first return, without polar features.
    opt = {}
    if ret or rng.random() < 0.5:
      opt["ri_index"] = ret
    if polar or rng.random() < 0.5:
      opt["keep_polar_features"] = polar
    cart = frame_utils.convert_range_image_to_cartesian(frame, ris, top_pose, **opt)
    points, cp_points = frame_utils.convert_range_image_to_point_cloud(frame, ris, cps, top_pose, **opt)
    opt.pop("ri_index", None)
    vh.expect(len(points) == len(ref) and len(cp_points) == len(ref), "clouds-missing")
    for k, name in enumerate(sorted(ref)):
      r = ref[name]
      want = ref_cartesian(r["ri"][ret][..., 0], r["ext"], r["inc"], r.get("poses"), frame_pose if name == 1 else None)
      got = cart[name].numpy()
      if polar:
        vh.expect(vh.close(got[..., :3], r["ri"][ret][..., :3], 1e-6), "polar-features-off", name)
      vh.expect(got.shape == (r["h"], r["w"], 6 if polar else 3) and np.abs(got[..., -3:] - want).max() < 3e-3, "cartesian-off",
                lambda: "laser %d, return %d: %g" % (name, ret, np.abs(got[..., -3:] - want).max()))
      mask = r["ri"][ret][..., 0] > 0
      pts = np.asarray(points[k])
      vh.expect(pts.shape == (mask.sum(), 6 if polar else 3) and (not mask.any() or np.abs(pts[:, -3:] - want[mask]).max() < 3e-3), "cloud-off", lambda: "laser %d, return %d" % (name, ret))
      vh.expect(np.array_equal(np.asarray(cp_points[k]), r["cp"][ret][mask]), "projections-of-other-points", lambda: "laser %d, return %d" % (name, ret))
      if polar:
        vh.expect(vh.close(pts[:, :3], r["ri"][ret][mask][:, :3], 1e-6), "polar-cloud-off", lambda: "laser %d" % name)
      vh.count("frame_points", int(mask.sum()))
      # The version 2 utilities agree.
      ri2 = v2_lidar.RangeImage(values=r["ri"][ret].reshape(-1).tolist(), shape=list(r["ri"][ret].shape))
      c = [c for c in frame.context.laser_calibrations if c.name == name][0]
      cal2 = v2_context.LiDARCalibrationComponent(
          key=None, extrinsic=column_types.Transform(transform=list(c.extrinsic.transform)),
          beam_inclination=v2_context.BeamInclination(min=c.beam_inclination_min, max=c.beam_inclination_max, values=list(c.beam_inclinations) or None))
      kw = {}
      if name == 1:
        kw = dict(pixel_pose=v2_lidar.PoseRangeImage(values=r["pose6"].reshape(-1).tolist(), shape=list(r["pose6"].shape)),
                  frame_pose=v2_pose.VehiclePoseComponent(key=None, world_from_vehicle=column_types.Transform(transform=frame_pose.reshape(-1).tolist())))
      elif rng.random() < 0.3:  # A pose of the vehicle alone moves nothing.
        kw = dict(frame_pose=v2_pose.VehiclePoseComponent(key=None, world_from_vehicle=column_types.Transform(transform=frame_pose.reshape(-1).tolist())))
      kw.update(opt)
      got2 = v2_lidar_utils.convert_range_image_to_cartesian(ri2, cal2, **kw).numpy()
      vh.expect(got2.shape == got.shape and np.abs(got2[..., -3:] - want).max() < 3e-3, "v2-cartesian-off", lambda: "laser %d, return %d: %g" % (name, ret, np.abs(got2[..., -3:] - want).max()))
      pts2 = v2_lidar_utils.convert_range_image_to_point_cloud(ri2, cal2, **kw).numpy()
      vh.expect(pts2.shape == pts.shape and (not mask.any() or np.abs(pts2[:, -3:] - want[mask]).max() < 3e-3), "v2-cloud-off", lambda: "laser %d" % name)
      if polar:
        vh.expect(vh.close(pts2[:, :3], r["ri"][ret][mask][:, :3], 1e-6), "v2-polar-off", lambda: "laser %d" % name)
      cp2 = v2_lidar.CameraProjectionRangeImage(values=r["cp"][ret].reshape(-1).tolist(), shape=list(r["cp"][ret].shape))
      vh.expect(np.array_equal(v2_lidar_utils.extract_pointwise_camera_projection(ri2, cp2).numpy(), r["cp"][ret][mask]), "v2-projections-off", lambda: "laser %d" % name)
      laser = [l for l in frame.lasers if l.name == name][0]
      ret_pb = (laser.ri_return1, laser.ri_return2)[ret]
      parsed = v2_lidar_utils.parse_range_image(ret_pb.range_image_compressed, v2_lidar.RangeImage)
      vh.expect(list(parsed.shape) == list(r["ri"][ret].shape) and vh.close(np.array(parsed.values), r["ri"][ret].reshape(-1), 1e-6), "v2-parse-off")
      parsed = v2_lidar_utils.parse_range_image(ret_pb.camera_projection_compressed, v2_lidar.CameraProjectionRangeImage)
      vh.expect(vh.close(np.array(parsed.values), r["cp"][ret].reshape(-1), 0), "v2-parse-projection-off")
      if ret_pb.segmentation_label_compressed:
        seg = r["seg"][ret]
        parsed = v2_lidar_utils.parse_range_image(ret_pb.segmentation_label_compressed, v2_segmentation.LiDARSegmentationRangeImage)
        vh.expect(list(parsed.shape) == list(seg.shape) and vh.close(np.array(parsed.values), seg.reshape(-1), 0), "v2-parse-segmentation-off")
        vh.count("v2_seg_labels")
      if name == 1:
        parsed = v2_lidar_utils.parse_range_image(laser.ri_return1.range_image_pose_compressed, v2_lidar.PoseRangeImage)
        vh.expect(list(parsed.shape) == list(r["pose6"].shape) and vh.close(np.array(parsed.values), r["pose6"].reshape(-1), 1e-6), "v2-parse-pose-off")
      vh.expect(v2_lidar_utils.parse_range_image(rng.choice([None, b""]), v2_lidar.RangeImage) is None, "v2-parse-nothing")
      vh.expect(v2_lidar_utils.get_laser_by_name(frame, v2_lidar.LaserName(name)).name == name, "laser-by-name-off")
  missing = [n for n in range(1, 6) if n not in ref]
  if missing:
    vh.expect(vh.refused(lambda: v2_lidar_utils.get_laser_by_name(frame, v2_lidar.LaserName(missing[0])), ValueError), "missing-laser-found")
  # The frame as a dictionary.
  cam = []
  for name in rng.sample([1, 2, 3, 4, 5], rng.randint(0, 3)):
    im = frame.images.add(name=name)
    pixels = np.array([[[rng.randrange(256) for _ in range(3)] for _ in range(3)] for _ in range(2)], np.uint8)
    im.image = tf.io.encode_png(pixels).numpy()
    im.pose.transform.extend(random_pose(rng).reshape(-1).tolist())
    im.velocity.v_x, im.velocity.v_y, im.velocity.v_z = rng.random(), rng.random(), rng.random()
    im.velocity.w_x, im.velocity.w_y, im.velocity.w_z = rng.random(), rng.random(), rng.random()
    im.pose_timestamp, im.shutter = rng.uniform(0, 1e5), rng.random()
    im.camera_trigger_time, im.camera_readout_done_time = rng.random(), rng.random()
    c = frame.context.camera_calibrations.add(name=name, width=rng.randint(1, 2000), height=rng.randint(1, 2000), rolling_shutter_direction=rng.randint(0, 5))
    c.intrinsic.extend([rng.uniform(-1, 1) for _ in range(9)])
    c.extrinsic.transform.extend(random_pose(rng).reshape(-1).tolist())
    cam.append((im, c, pixels))
  d = frame_utils.convert_frame_to_dict(frame)
  keys = {"POSE", "TIMESTAMP", "TOP_RANGE_IMAGE_POSE"}
  for name, r in ref.items():
    s = dataset_pb2.LaserName.Name.Name(name)
    keys |= {s + "_BEAM_INCLINATION", s + "_LIDAR_EXTRINSIC", s + "_RANGE_IMAGE_FIRST_RETURN", s + "_RANGE_IMAGE_SECOND_RETURN", s + "_CAM_PROJ_FIRST_RETURN", s + "_CAM_PROJ_SECOND_RETURN"}
    for ret, word in enumerate(("FIRST", "SECOND")):
      want = ref_cartesian(r["ri"][ret][..., 0], r["ext"], r["inc"], r.get("poses"), frame_pose if name == 1 else None)
      got = d[s + "_RANGE_IMAGE_%s_RETURN" % word]
      vh.expect(got.shape == (r["h"], r["w"], 6) and vh.close(got[..., :3], r["ri"][ret][..., :3], 1e-6) and np.abs(got[..., 3:] - want).max() < 3e-3, "dict-range-image-off", s)
      vh.expect(np.array_equal(d[s + "_CAM_PROJ_%s_RETURN" % word], r["cp"][ret]), "dict-projection-off", s)
    vh.expect(vh.close(d[s + "_LIDAR_EXTRINSIC"], r["ext"], 1e-4), "dict-extrinsic-off", s)
    vh.expect(vh.close(d[s + "_BEAM_INCLINATION"], r["inc"][::-1], 1e-5), "dict-inclination-off", s)
  for im, c, pixels in cam:
    s = dataset_pb2.CameraName.Name.Name(im.name)
    v = im.velocity
    want = {"IMAGE": pixels, "SDC_VELOCITY": [v.v_x, v.v_y, v.v_z, v.w_x, v.w_y, v.w_z], "POSE": np.reshape(im.pose.transform, (4, 4)), "POSE_TIMESTAMP": im.pose_timestamp,
            "ROLLING_SHUTTER_DURATION": im.shutter, "CAMERA_TRIGGER_TIME": im.camera_trigger_time, "CAMERA_READOUT_DONE_TIME": im.camera_readout_done_time,
            "INTRINSIC": list(c.intrinsic), "EXTRINSIC": np.reshape(c.extrinsic.transform, (4, 4)), "WIDTH": c.width, "HEIGHT": c.height,
            "ROLLING_SHUTTER_DIRECTION": c.rolling_shutter_direction}
    for k, x in want.items():
      keys.add(s + "_" + k)
      vh.expect(s + "_" + k in d and vh.close(d[s + "_" + k], x, 1e-5, 1e-6), "dict-camera-off", lambda: "%s_%s: %s, %s" % (s, k, d.get(s + "_" + k), x))
    vh.count("cameras")
  vh.expect(vh.close(d["POSE"], frame_pose, 1e-3) and int(d["TIMESTAMP"]) == frame.timestamp_micros and vh.close(d["TOP_RANGE_IMAGE_POSE"], ref[1]["pose6"], 1e-6), "dict-frame-off")
  vh.expect(set(d) == keys, "dict-keys-off", lambda: str(set(d) ^ keys))
  vh.nontrivial(before)


def case_womd(rng):
  h, w = rng.randint(1, 5), rng.randint(1, 7)
  name = rng.choice([1, 1, 2, 5])
  laser = compressed_lidar_pb2.CompressedLaser(name=name)
  q = rng.choice([0.005, 0.01, 0.1])
  imgs = []
  for dst in (laser.ri_return1, laser.ri_return2):
    ranges = random_ranges(rng, h, w, 0.3, near=0.1)
    img = np.stack([ranges] + [np.array([[rng.uniform(-1, 1) for _ in range(w)] for _ in range(h)]) for _ in range(3)], -1).astype(np.float64)
    dst.range_image_delta_compressed = delta_encoder.compress(img.copy(), q)
    imgs.append(np.round(img / q) * q)
  frame_pose = random_pose(rng, 20.0)
  poses = None
  if name == 1:
    a6 = np.array([[[rng.uniform(-0.1, 0.1), rng.uniform(-0.1, 0.1), rng.uniform(-3, 3)] + [rng.uniform(-20, 20) for _ in range(3)] for _ in range(w)] for _ in range(h)])
    laser.ri_return1.range_image_pose_delta_compressed = delta_encoder.compress(a6.copy(), 1e-4)
    a6 = np.round(a6 / 1e-4) * 1e-4
    poses = np.array([[pose(rot(*a[:3]), a[3:]) for a in row] for row in a6])
  calib = dataset_pb2.LaserCalibration(name=name)
  ext = random_pose(rng)
  calib.extrinsic.transform.extend(ext.reshape(-1).tolist())
  if rng.random() < 0.5:
    inc = random_inclination(rng, h)
    calib.beam_inclinations.extend(inc[::-1].tolist())
  else:
    lo, hi = sorted([rng.uniform(-0.5, 0.1), rng.uniform(-0.1, 0.4)])
    calib.beam_inclination_min, calib.beam_inclination_max = lo, hi
    inc = np.array([lo + (hi - lo) * (i + 0.5) / h for i in range(h)])[::-1]
    vh.count("womd_uniform_inclinations")
  vh.crumb(dict(name=name, h=h, w=w, imgs=[i.tolist() for i in imgs], ext=ext.tolist(), inc=inc.tolist(), listed=bool(calib.beam_inclinations)))
  if name == 1:
    out = womd_lidar_utils.extract_top_lidar_points(laser, tf.constant(frame_pose), calib)
  else:
    out = womd_lidar_utils.extract_side_lidar_points(laser, calib)
  vh.expect(len(out) == 4, "womd-outputs")
  for ret in (0, 1):
    mask = imgs[ret][..., 0] > q / 2
    want = ref_cartesian(imgs[ret][..., 0], ext, inc, poses, frame_pose if name == 1 else None)[mask]
    xyz, feat = out[2 * ret].numpy(), out[2 * ret + 1].numpy()
    vh.expect(xyz.shape == want.shape and (not len(want) or np.abs(xyz - want).max() < 5e-3), "womd-points-off", lambda: "laser %d, return %d: %s, %s" % (name, ret, xyz[:3], want[:3]))
    vh.expect(feat.shape == want.shape and vh.close(feat, imgs[ret][mask][:, :3], 1e-4), "womd-features-off", lambda: "laser %d, return %d" % (name, ret))
    vh.count("womd_points", int(mask.sum()))
  vh.count("womd_top" if name == 1 else "womd_side")
  # Lidar data added to a scenario.
  s, l = scenario_pb2.Scenario(scenario_id="x", current_time_index=3), scenario_pb2.Scenario(scenario_id="other")
  for k in range(rng.randint(0, 3)):
    l.compressed_frame_laser_data.add().lasers.add().CopyFrom(laser)
  if rng.random() < 0.3:
    s.compressed_frame_laser_data.add()
  s0, l0 = s.SerializeToString(), l.SerializeToString()
  got = womd_lidar_utils.augment_womd_scenario_with_lidar_points(s, l)
  want = list(s.compressed_frame_laser_data) + list(l.compressed_frame_laser_data)
  vh.expect(list(got.compressed_frame_laser_data) == want and got.scenario_id == "x" and got.current_time_index == 3 and s.SerializeToString() == s0 and l.SerializeToString() == l0, "scenario-not-augmented")
  vh.nontrivial(laser.SerializeToString())


vh.main([("features", 1, case_features), ("geometry", 1, case_geometry), ("build", 1.5, case_build), ("roundtrip", 0.5, case_roundtrip),
         ("small", 1, case_small), ("depth", 0.5, case_depth), ("frame", 0.5, case_frame), ("womd", 0.7, case_womd)])
