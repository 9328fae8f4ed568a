"""Components of the v2 dataset extracted from frames of the v1 dataset (C30)."""
import struct
import zlib

import numpy as np

import vh
from waymo_open_dataset import dataset_pb2 as d1
from waymo_open_dataset import label_pb2 as l1
from waymo_open_dataset.protos import keypoint_pb2 as k1
from waymo_open_dataset.v2.perception import base as v2_base
from waymo_open_dataset.v2.perception import box as v2_box
from waymo_open_dataset.v2.perception import camera_image as v2_camera
from waymo_open_dataset.v2.perception import context as v2_context
from waymo_open_dataset.v2.perception import keypoints as v2_keypoints
from waymo_open_dataset.v2.perception import lidar as v2_lidar
from waymo_open_dataset.v2.perception import pose as v2_pose
from waymo_open_dataset.v2.perception import segmentation as v2_seg
from waymo_open_dataset.v2.perception.compat_v1 import box as c_box
from waymo_open_dataset.v2.perception.compat_v1 import camera_image as c_camera
from waymo_open_dataset.v2.perception.compat_v1 import context as c_context
from waymo_open_dataset.v2.perception.compat_v1 import interfaces as ci
from waymo_open_dataset.v2.perception.compat_v1 import keypoints as c_keypoints
from waymo_open_dataset.v2.perception.compat_v1 import lidar as c_lidar
from waymo_open_dataset.v2.perception.compat_v1 import pose as c_pose
from waymo_open_dataset.v2.perception.compat_v1 import segmentation as c_seg

CAMERAS = {"FRONT": 1, "FRONT_LEFT": 2, "FRONT_RIGHT": 3, "SIDE_LEFT": 4, "SIDE_RIGHT": 5}
CHARS = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_"
POINTS = [1, 5, 6, 7, 8, 9, 10, 13, 14, 15, 16, 17, 18, 19, 20]


def f32(x):
  return struct.unpack("f", struct.pack("f", x))[0]


def num(rng, wide=False):
  return rng.choice([0.0, -0.0, rng.uniform(-9, 9), rng.uniform(-1e5, 1e5), float(rng.randint(-9, 9)), 1e-12, 1 / 3])


def ident(rng, n=22):
  return "".join(rng.choice(CHARS) for _ in range(n))


def new_frame(rng):
  f = d1.Frame()
  f.context.name = ident(rng, rng.choice([5, 22]))
  f.timestamp_micros = rng.choice([0, 1, rng.randint(1, 2 ** 53), 2 ** 62 + 1])
  return f


def extract(cls, comp, src, expected, what):
  """Runs an extractor and compares the columns; expected: list of dicts."""
  got = list(cls()(src))
  vh.expect(all(type(g) is comp for g in got), what + "-class", lambda: "%s" % got)
  exp = [{("[%s]." % comp.__name__ + k if not k.startswith("key.") else k): v for k, v in e.items()} for e in expected]
  flat = [dict(g.to_flatten_dict()) for g in got]
  vh.expect(len(flat) == len(exp), what + "-count", lambda: "%s instead of %s" % (flat, exp))
  for g, e in zip(flat, exp):
    bad = {k: (g.get(k), e.get(k)) for k in set(g) | set(e) if not same(g.get(k), e.get(k)) and (k in e or g[k] is not None)}
    vh.expect(not bad, what + "-fields", lambda: "extracted, stored: %s" % bad)
  # The declared component and columns are those of the result.
  s = cls.schema()
  vh.expect(cls.component() is comp and list(s.names) == list(comp.schema().names) and all(list(g) == list(s.names) for g in flat), what + "-schema", lambda: "%s" % s.names)
  vh.count("components", len(got))
  vh.count("skipped", int(not expected))
  return got


def same(a, b):
  if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
    return isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
  if isinstance(a, bool) or isinstance(b, bool):
    return isinstance(a, (bool, np.bool_)) and isinstance(b, bool) and bool(a) == b
  return type(a) in (int, float, str, bytes, type(None)) and a == b and (isinstance(a, (str, bytes)) or a is None) == (isinstance(b, (str, bytes)) or b is None)


def frame_key(f):
  return {"key.segment_context_name": f.context.name, "key.frame_timestamp_micros": f.timestamp_micros}


AXES = ("x", "y", "z")


def fill_box(rng, box, three, out, prefix):
  """Fills all fields of a box and the columns for it."""
  v = {k: num(rng) for k in ("center_x", "center_y", "length", "width") + (("center_z", "height", "heading") if three else ())}
  for k, x in v.items():
    setattr(box, k, x)
    c = {"center_x": "center.x", "center_y": "center.y", "center_z": "center.z", "length": "size.x", "width": "size.y", "height": "size.z", "heading": "heading"}[k]
    out[prefix + "." + c] = x
  return sorted(v)


def fill_difficulty(rng, label, out):
  d, t = rng.choice([None, None, 0, 1, 2]), rng.choice([None, None, 0, 1, 2])
  if d is not None:
    label.detection_difficulty_level = d
  if t is not None:
    label.tracking_difficulty_level = t
  none = d is None and t is None
  out["difficulty_level.detection"] = None if none else d or 0
  out["difficulty_level.tracking"] = None if none else t or 0
  vh.count("difficulties", int(not none))


def other_fields(rng, label, skip):
  """Fields which are of no concern for the component."""
  if rng.random() < 0.5:
    label.num_lidar_points_in_box = 77
  if "association" not in skip and rng.random() < 0.3:
    label.association.laser_object_id = "other"
  if "keypoints" not in skip and rng.random() < 0.3:
    label.camera_keypoints.keypoint.add().type = 1


def case_laser_box(rng):
  f = new_frame(rng)
  label = f.laser_labels.add()
  label.id = ident(rng)
  e = dict(frame_key(f), **{"key.laser_object_id": label.id})
  empty = rng.random() < 0.15
  names = [] if empty else fill_box(rng, label.box, True, e, "box")
  label.type = e["type"] = rng.randint(0, 4)
  for k in ("num_lidar_points_in_box", "num_top_lidar_points_in_box"):
    e[k] = rng.choice([0, rng.randint(0, 2 ** 31 - 1)])
    if e[k] or rng.random() < 0.5:
      setattr(label, k, e[k])
  meta = rng.choice([0, 1, 1, 2])
  for v, p in (("speed", "speed"), ("acceleration", "accel")):
    for a in AXES:
      e["%s.%s" % (v, a)] = None
    if meta:
      for a in AXES[:meta + 1]:
        e["%s.%s" % (v, a)] = num(rng)
        setattr(label.metadata, "%s_%s" % (p, a), e["%s.%s" % (v, a)])
      e[v + ".z"] = e[v + ".z"] or 0
  vh.count("velocities", int(meta > 0))
  fill_difficulty(rng, label, e)
  other_fields(rng, label, ())
  e["num_lidar_points_in_box"] = label.num_lidar_points_in_box
  # The synced box.
  e2 = dict(frame_key(f), **{"key.laser_object_id": label.id})
  cam = rng.choice(sorted(CAMERAS) + [None])
  synced = rng.random() < 0.8
  if synced:
    fill_box(rng, label.camera_synced_box, True, e2, "camera_synced_box")
  if cam:
    label.most_visible_camera_name = cam
    e2["most_visible_camera_name"] = CAMERAS[cam]
  src = ci.LiDARLabelComponentSrc(frame=f, lidar_label=label)
  vh.crumb(str(f))
  vh.nontrivial(f.SerializeToString(deterministic=True))
  before = f.SerializeToString(deterministic=True)
  extract(c_box.LiDARBoxComponentExtractor, v2_box.LiDARBoxComponent, src, [] if empty else [e], "laser-box")
  extract(c_box.LiDARCameraSyncedBoxComponentExtractor, v2_box.LiDARCameraSyncedBoxComponent, src, [e2] if synced and cam else [], "synced-box")
  vh.expect(f.SerializeToString(deterministic=True) == before, "frame-changed", "")
  if not empty:
    # An incomplete box is refused rather than filled up with zeros.
    label.box.ClearField(rng.choice(names))
    vh.expect(vh.refused(lambda: list(c_box.LiDARBoxComponentExtractor()(src)), AssertionError, ci.ExtractionError, ValueError), "incomplete-box", lambda: str(label))
    vh.count("incomplete")
  vh.count("laser_boxes", int(not empty))
  vh.count("synced_boxes", int(bool(synced and cam)))


def case_camera_box(rng):
  f = new_frame(rng)
  labels = f.camera_labels.add()
  labels.name = rng.randint(1, 5)
  for _ in range(rng.randint(0, 2)):
    labels.labels.add().id = "other"
  label = labels.labels.add()
  projected = rng.random() < 0.5
  laser, cam = ident(rng), rng.choice(sorted(CAMERAS))
  # An id may itself hold underscores and names of cameras.
  if rng.random() < 0.2:
    laser = (rng.choice(sorted(CAMERAS)) + "_" + laser)[:22]
  label.id = laser + "_" + cam if projected else ident(rng, rng.choice([22, 36]))
  box = {}
  empty = rng.random() < 0.15
  names = [] if empty else fill_box(rng, label.box, False, box, "box")
  label.type = box["type"] = rng.randint(0, 4)
  assoc = rng.random() < 0.5
  if assoc:
    label.association.laser_object_id = ident(rng)
  other_fields(rng, label, ("association",))
  src = ci.CameraLabelComponentSrc(frame=f, camera_labels=labels, label=label)
  vh.crumb(str(f))
  if projected:
    e = dict(frame_key(f), **dict(box, **{"key.laser_object_id": laser, "key.camera_name": CAMERAS[cam]}))
    extract(c_box.ProjectedLiDARBoxComponentExtractor, v2_box.ProjectedLiDARBoxComponent, src, [] if empty else [e], "projected-box")
    vh.count("projected_boxes", int(not empty))
    ext = c_box.ProjectedLiDARBoxComponentExtractor
  else:
    e = dict(frame_key(f), **dict(box, **{"key.camera_object_id": label.id, "key.camera_name": labels.name}))
    fill_difficulty(rng, label, e)
    extract(c_box.CameraBoxComponentExtractor, v2_box.CameraBoxComponent, src, [] if empty else [e], "camera-box")
    vh.count("camera_boxes", int(not empty))
    ext = c_box.CameraBoxComponentExtractor
    a = dict(frame_key(f), **{"key.camera_object_id": label.id, "key.camera_name": labels.name, "key.laser_object_id": label.association.laser_object_id})
    extract(c_box.CameraToLiDARBoxAssociationComponentExtractor, v2_box.CameraToLiDARBoxAssociationComponent, src, [a] if assoc else [], "association")
    vh.count("associations", int(assoc))
  vh.nontrivial(f.SerializeToString(deterministic=True))
  if not empty:
    if rng.random() < 0.5:
      label.box.ClearField(rng.choice(names))
    else:
      setattr(label.box, rng.choice(["center_z", "height", "heading"]), 0.0)
    vh.expect(vh.refused(lambda: list(ext()(src)), AssertionError, ci.ExtractionError, ValueError), "not-a-flat-box", lambda: str(label))
    vh.count("incomplete")


def case_keypoints(rng):
  f = new_frame(rng)
  n = rng.choice([0, 1, 3, 14])
  types = [rng.choice(POINTS) for _ in range(n)]
  occ = [rng.choice([None, False, True]) for _ in range(n)]
  xyz = [[f32(num(rng)) if rng.random() < 0.5 else num(rng) for _ in range(n)] for _ in range(3)]
  camera = rng.random() < 0.5
  has = rng.random() < 0.85
  part = "camera_keypoints[*]" if camera else "lidar_keypoints[*]"
  dim, loc = ("keypoint_2d", "location_px") if camera else ("keypoint_3d", "location_m")
  if camera:
    labels = f.camera_labels.add()
    labels.name = rng.randint(1, 5)
    label = labels.labels.add()
    e = dict(frame_key(f), **{"key.camera_name": labels.name})
    src = ci.CameraLabelComponentSrc(frame=f, camera_labels=labels, label=label)
    ext, comp = c_keypoints.CameraHumanKeypointsFrameExtractor, v2_keypoints.CameraHumanKeypointsComponent
  else:
    label = f.laser_labels.add()
    e = frame_key(f)
    src = ci.LiDARLabelComponentSrc(frame=f, lidar_label=label)
    ext, comp = c_keypoints.LiDARHumanKeypointsFrameExtractor, v2_keypoints.LiDARHumanKeypointsComponent
  label.id = ident(rng)
  e["key.camera_object_id" if camera else "key.laser_object_id"] = label.id
  kps = (label.camera_keypoints if camera else label.laser_keypoints)
  if has:
    kps.SetInParent()
    for i in range(n):
      kp = kps.keypoint.add()
      kp.type = types[i]
      p = getattr(kp, dim)
      q = getattr(p, loc)
      for j, a in enumerate(AXES[:2 if camera else 3]):
        setattr(q, a, xyz[j][i])
        xyz[j][i] = getattr(q, a)
      p.visibility.SetInParent()
      if occ[i] is not None:
        p.visibility.is_occluded = occ[i]
  elif rng.random() < 0.5:
    # The other kind of keypoints is of no concern.
    (label.laser_keypoints if camera else label.camera_keypoints).keypoint.add().type = 1
  e[part + ".type"] = types
  e["%s.%s.visibility.is_occluded" % (part, dim)] = [bool(o) for o in occ]
  for j, a in enumerate(AXES[:2 if camera else 3]):
    e["%s.%s.%s.%s" % (part, dim, loc, a)] = xyz[j]
  vh.crumb(str(f))
  vh.nontrivial(f.SerializeToString(deterministic=True))
  if has and not n:
    # Keypoints without points: whether the component is there is not said.
    got = list(ext()(src))
    vh.expect(len(got) <= 1, "keypoints-count", "%s" % got)
  else:
    extract(ext, comp, src, [e] if has else [], "camera-keypoints" if camera else "laser-keypoints")
  vh.count("camera_keypoints" if camera else "laser_keypoints", n if has else 0)
  vh.count("occluded", sum(bool(o) for o in occ) if has else 0)
  if has and n:
    kp = kps.keypoint[rng.randrange(n)]
    what = rng.choice(["type", dim, loc, "visibility"])
    if what in ("type", dim):
      kp.ClearField(what)
    else:
      getattr(kp, dim).ClearField(what)
    vh.expect(vh.refused(lambda: list(ext()(src)), ci.ExtractionError), "incomplete-keypoint", lambda: "%s: %s" % (what, label))
    vh.count("incomplete_keypoints")


def matrix(rng, cls):
  m = cls()
  shape = [rng.randint(1, 4), rng.randint(1, 5), rng.choice([2, 4, 6])]
  m.shape.dims.extend(shape)
  n = shape[0] * shape[1] * shape[2]
  vals = [rng.randint(-2 ** 31, 2 ** 31 - 1) if rng.random() < 0.2 else rng.randint(-1, 9) for _ in range(n)] if cls is d1.MatrixInt32 else [f32(num(rng)) for _ in range(n)]
  m.data.extend(vals)
  return m, shape, vals


KINDS = {  # extractor: component, field, matrix, returns
    c_lidar.LiDARComponentExtractor: (v2_lidar.LiDARComponent, "range_image_compressed", d1.MatrixFloat, 2),
    c_lidar.LiDARCameraProjectionComponentExtractor: (v2_lidar.LiDARCameraProjectionComponent, "camera_projection_compressed", d1.MatrixInt32, 2),
    c_lidar.LiDARPoseComponentExtractor: (v2_lidar.LiDARPoseComponent, "range_image_pose_compressed", d1.MatrixFloat, 1),
    c_seg.LiDARSegmentationLabelComponentExtractor: (v2_seg.LiDARSegmentationLabelComponent, "segmentation_label_compressed", d1.MatrixInt32, 2),
}


def case_laser(rng):
  f = new_frame(rng)
  for _ in range(rng.randint(0, 2)):
    f.lasers.add().name = 1
  laser = f.lasers.add()
  laser.name = rng.randint(1, 5)
  want = {}
  for k, (ri, m) in enumerate((ri, m) for ri in (laser.ri_return1, laser.ri_return2) for m in ("range_image_compressed", "camera_projection_compressed", "range_image_pose_compressed", "segmentation_label_compressed", "range_image_flow_compressed")):
    if rng.random() < 0.6:
      m_, shape, vals = matrix(rng, d1.MatrixInt32 if m.startswith(("camera", "segm")) else d1.MatrixFloat)
      setattr(ri, m, zlib.compress(m_.SerializeToString(), rng.choice([1, 6, 9])))
      want[(1 if ri is laser.ri_return1 or k < 5 else 2, m)] = shape, vals
  src = ci.LiDARComponentSrc(frame=f, laser=laser)
  vh.crumb(str(want))
  vh.nontrivial(f.SerializeToString(deterministic=True))
  for ext, (comp, field, _, returns) in KINDS.items():
    e = dict(frame_key(f), **{"key.laser_name": laser.name})
    for r in range(1, returns + 1):
      shape, vals = want.get((r, field), (None, None))
      e["range_image_return%d.shape" % r] = shape
      e["range_image_return%d.values" % r] = vals
    some = [r for r in range(1, returns + 1) if (r, field) in want]
    got = extract(ext, comp, src, [e] if some else [], field)
    vh.count("range_images", len(some))
    vh.count("one_return", int(returns == 2 and len(some) == 1))
    for g in got:
      for r in some:
        t = getattr(g, "range_image_return%d" % r).tensor
        shape, vals = want[(r, field)]
        vh.expect(list(t.shape) == shape and (t.numpy().ravel() == np.array(vals, t.numpy().dtype)).all(), "range-tensor", lambda: "%s instead of %s" % (t, vals))
  # Data which is no range image is refused.
  ext = rng.choice(sorted(KINDS, key=str))
  setattr(laser.ri_return1, KINDS[ext][1], b"no zlib data")
  vh.expect(vh.refused(lambda: list(ext()(src))), "broken-data", "%s" % ext)
  vh.count("broken_data")


def case_image(rng):
  f = new_frame(rng)
  for _ in range(rng.randint(0, 2)):
    f.images.add().name = 3
  c = f.images.add()
  c.name = rng.randint(1, 5)
  e = dict(frame_key(f), **{"key.camera_name": c.name})
  c.image = e["image"] = bytes(rng.randrange(256) for _ in range(rng.randint(0, 40)))
  e["pose.transform"] = [num(rng) for _ in range(16)]
  c.pose.transform.extend(e["pose.transform"])
  for k, o in (("v_x", "linear_velocity.x"), ("v_y", "linear_velocity.y"), ("v_z", "linear_velocity.z"), ("w_x", "angular_velocity.x"), ("w_y", "angular_velocity.y"), ("w_z", "angular_velocity.z")):
    setattr(c.velocity, k, num(rng))
    e["velocity." + o] = getattr(c.velocity, k)
  for k in ("shutter", "camera_trigger_time", "camera_readout_done_time"):
    e["rolling_shutter_params." + k] = num(rng)
    setattr(c, k, e["rolling_shutter_params." + k])
  c.pose_timestamp = e["pose_timestamp"] = rng.uniform(0, 2e9)
  s = dict(frame_key(f), **{"key.camera_name": c.name})
  seg = rng.random() < 0.7
  if seg:
    q = c.camera_segmentation_label
    q.SetInParent()
    ids = [(rng.randint(0, 2 ** 31 - 1), rng.randint(0, 999), rng.random() < 0.5) for _ in range(rng.choice([0, 1, 5]))]
    for a, b, t in ids:
      g = q.instance_id_to_global_id_mapping.add()
      g.local_instance_id, g.global_instance_id, g.is_tracked = a, b, t
    for i, k in enumerate(("local_instance_ids", "global_instance_ids", "is_tracked")):
      s["instance_id_to_global_id_mapping." + k] = [x[i] for x in ids]
    q.panoptic_label_divisor = s["panoptic_label_divisor"] = rng.choice([1, 1000, 2 ** 20])
    q.panoptic_label = s["panoptic_label"] = bytes(rng.randrange(256) for _ in range(9))
    q.sequence_id = s["sequence_id"] = ident(rng, 8)
    q.num_cameras_covered = s["num_cameras_covered"] = bytes(rng.randrange(256) for _ in range(5))
  src = ci.CameraImageComponentSrc(frame=f, camera_image=c)
  vh.crumb(str(f))
  vh.nontrivial(f.SerializeToString(deterministic=True))
  extract(c_camera.CameraImageComponentExtractor, v2_camera.CameraImageComponent, src, [e], "image")
  extract(c_seg.CameraSegmentationLabelComponentExtractor, v2_seg.CameraSegmentationLabelComponent, src, [s] if seg else [], "segmentation")
  vh.count("images")
  vh.count("segmentations", int(seg))


def case_context(rng):
  f = new_frame(rng)
  f.pose.transform.extend([num(rng) for _ in range(16)])
  e = dict(frame_key(f), **{"world_from_vehicle.transform": list(f.pose.transform)})
  vh.crumb(str(f))
  src = ci.FrameComponentSrc(frame=f)
  extract(c_pose.VehiclePoseFrameExtractor, v2_pose.VehiclePoseComponent, src, [e], "vehicle-pose")
  st = f.context.stats
  e = frame_key(f)
  for k in ("time_of_day", "location", "weather"):
    e[k] = ident(rng, rng.randint(0, 5))
    if e[k]:
      setattr(st, k, e[k])
  for v1, v2 in (("laser_object_counts", "lidar_object_counts"), ("camera_object_counts", "camera_object_counts")):
    n = rng.choice([0, 1, 4])
    tc = [(rng.randint(0, 4), rng.choice([0, 1, rng.randint(0, 2 ** 20)])) for _ in range(n)]
    for t, c in tc:
      getattr(st, v1).add(type=t, count=c)
    e[v2 + ".types"] = [t for t, _ in tc] if n else None
    e[v2 + ".counts"] = [c for _, c in tc] if n else None
    vh.count("object_counts", n)
  extract(c_context.StatsComponentExtractor, v2_context.StatsComponent, src, [e], "stats")
  cal = f.context.camera_calibrations.add()
  cal.name = rng.randint(1, 5)
  e = {"key.segment_context_name": f.context.name, "key.camera_name": cal.name}
  for k in ("f_u", "f_v", "c_u", "c_v", "k1", "k2", "p1", "p2", "k3"):
    e["intrinsic." + k] = num(rng)
    cal.intrinsic.append(e["intrinsic." + k])
  e["extrinsic.transform"] = [num(rng) for _ in range(16)]
  cal.extrinsic.transform.extend(e["extrinsic.transform"])
  cal.width, cal.height = rng.sample(range(1, 4000), 2)
  e.update(width=cal.width, height=cal.height)
  cal.rolling_shutter_direction = e["rolling_shutter_direction"] = rng.randint(0, 5)
  extract(c_context.CameraCalibrationComponentExtractor, v2_context.CameraCalibrationComponent, ci.CameraCalibrationComponentSrc(frame=f, camera_calibration=cal), [e], "camera-calibration")
  lc = f.context.laser_calibrations.add()
  lc.name = rng.randint(1, 5)
  e = {"key.segment_context_name": f.context.name, "key.laser_name": lc.name, "extrinsic.transform": [num(rng) for _ in range(16)]}
  lc.extrinsic.transform.extend(e["extrinsic.transform"])
  lc.beam_inclination_min = e["beam_inclination.min"] = num(rng)
  lc.beam_inclination_max = e["beam_inclination.max"] = num(rng)
  v = [num(rng) for _ in range(rng.choice([0, 1, 64]))]
  lc.beam_inclinations.extend(v)
  e["beam_inclination.values"] = v or None
  extract(c_context.LiDARCalibrationComponentExtractor, v2_context.LiDARCalibrationComponent, ci.LiDARCalibrationComponentSrc(frame=f, lidar_calibration=lc), [e], "laser-calibration")
  vh.nontrivial(f.SerializeToString(deterministic=True))
  vh.count("beams", len(v))
  vh.count("contexts")
  # Enumerations of both versions have the same numbers.
  strip = lambda d, p: {k[len(p):] if k.startswith(p) else k: v for k, v in d.items()}
  for en, v1, p in ((v2_camera.CameraName, dict(d1.CameraName.Name.items()), ""), (v2_lidar.LaserName, dict(d1.LaserName.Name.items()), ""), (v2_box.BoxType, dict(l1.Label.Type.items()), ""),
                    (v2_context.RollingShutterReadOutDirection, dict(d1.CameraCalibration.RollingShutterReadOutDirection.items()), ""),
                    (v2_keypoints.KeypointType, dict(k1.KeypointType.items()), "KEYPOINT_TYPE_")):
    a, b = {k: m.value for k, m in en.__members__.items()}, v1
    a, b = strip(a, p), strip(b, p)
    # The rear cameras are not part of the perception dataset.
    vh.expect(all(b.get(k) == n for k, n in a.items()) and all(k.startswith("REAR") for k in set(b) - set(a)), "enumeration", lambda: "%s: %s and %s" % (en.__name__, a, b))
    vh.count("enumerations")
  for k, n in (("LEVEL_1", 1), ("LEVEL_2", 2)):
    vh.expect(v2_box.DifficultyLevelType[k].value == n, "enumeration", "difficulty %s" % k)


if __name__ == "__main__":
  vh.main([("laser_box", 1.0, case_laser_box), ("camera_box", 1.0, case_camera_box), ("keypoints", 1.0, case_keypoints), ("laser", 0.6, case_laser), ("image", 0.6, case_image), ("context", 0.6, case_context)])
