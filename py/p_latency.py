"""Latency evaluation: running the submitted model, objects of its detections (C33)."""
import contextlib
import io
import math
import os
import runpy
import shutil
import sys
import tempfile
import time
import types

import numpy as np
import vh
import waymo_open_dataset
from waymo_open_dataset import dataset_pb2
from waymo_open_dataset.latency import make_objects_file_from_latency_results as make
from waymo_open_dataset.protos import metrics_pb2

_DIR = os.path.join(list(waymo_open_dataset.__path__)[0], "latency")
_CAMERAS = {n: v for n, v in dataset_pb2.CameraName.Name.items() if v}
_CLOCKS = ["perf_counter", "monotonic", "time", "process_time", "perf_counter_ns", "monotonic_ns", "time_ns", "process_time_ns"]
_OTHER = ["POSE", "TIMESTAMP", "TOP_RANGE_IMAGE_FIRST_RETURN", "FRONT_POSE", "TOP_RANGE_IMAGE_FIRST_RETURN_1"]


def _script(name, args):
  old, sys.argv = sys.argv, [name] + args
  try:
    with contextlib.redirect_stdout(io.StringIO()):
      runpy.run_path(os.path.join(_DIR, name), run_name="__main__")
  finally:
    sys.argv = old


def _detections(rng, dims):
  n = rng.choice([0, 1, 2, 5])
  ft = rng.choice([np.float32, np.float32, np.float64])
  boxes = np.zeros((n, dims), ft)
  scores = np.zeros(n, ft)
  for i in range(n):
    c = 2 if dims == 4 else 3
    boxes[i, :c] = [rng.uniform(-200, 2000) for _ in range(c)]
    sizes = [rng.choice([rng.uniform(0.02, 30), rng.uniform(0.02, 30), rng.uniform(0.02, 30), rng.uniform(0.02, 30), 0.005, 0.0, -1.0, 0.011, 0.009]) for _ in range(c)]
    boxes[i, c:2 * c] = sizes
    if dims == 7:
      boxes[i, 6] = rng.uniform(-7, 7)
    if rng.random() < 0.06:
      boxes[i, rng.randrange(dims)] = np.nan
      vh.count("nan_boxes")
    scores[i] = rng.choice([rng.uniform(0.04, 1), rng.uniform(0.04, 1), 1.0, 0.031, 0.029, 0.0])
  classes = np.array([rng.randint(0, 4) for _ in range(n)], rng.choice([np.uint8, np.uint8, np.int32, np.int64]))
  return {"boxes": boxes, "scores": scores, "classes": classes}


def _objects(d, context, stamp, camera):
  out = []
  for i in range(len(d["scores"])):
    b = [float(x) for x in d["boxes"][i]]
    k = 2 if len(b) == 4 else 3
    if float(np.float32(d["scores"][i])) < 0.03 or any(math.isnan(x) for x in b) or min(b[k:2 * k]) < 0.01:
      vh.count("dropped")
      continue
    o = metrics_pb2.Object(context_name=context, frame_timestamp_micros=stamp, score=float(d["scores"][i]))
    o.object.type = int(d["classes"][i])
    for name, x in zip(["center_x", "center_y", "center_z", "length", "width", "height", "heading"] if k == 3 else ["center_x", "center_y", "length", "width"], b):
      setattr(o.object.box, name, x)
    if k == 2:
      o.camera_name = camera
    out.append(o)
    vh.count("objects")
  return out


def _save(path, d, fields):
  os.makedirs(path)
  for k, v in d.items():
    np.save(os.path.join(path, k), v)
  if fields is not None:
    with open(os.path.join(path, "input_fields.txt"), "w") as f:
      f.write("\n".join(fields))


def _key(o):
  return o.context_name, o.frame_timestamp_micros


def _compare(path, want):
  objs = metrics_pb2.Objects()
  with open(path, "rb") as f:
    objs.ParseFromString(f.read())
  got = {}
  for o in objs.objects:
    got.setdefault(_key(o), []).append(o)
  exp = {k: v for k, v in want.items() if v}
  vh.expect(set(got) == set(exp), "frames", lambda: "%s" % sorted(set(got) ^ set(exp)))
  for k in exp:
    vh.expect(got.get(k) == exp[k], "objects", lambda: "%s instead of %s" % (got.get(k), exp[k]))
  # Frames stay together.
  runs = [k for i, k in enumerate(map(_key, objs.objects)) if i == 0 or k != _key(objs.objects[i - 1])]
  vh.expect(len(runs) == len(set(runs)), "split-frames", "%s" % runs)


def case_evaluate(rng):
  root = tempfile.mkdtemp(prefix="vlat")
  clocks = {k: getattr(time, k) for k in _CLOCKS}
  load = np.load
  try:
    _evaluate(rng, root)
  finally:
    sys.modules.pop("wod_latency_submission", None)
    np.load = load
    for k, v in clocks.items():
      setattr(time, k, v)
    shutil.rmtree(root)


def _evaluate(rng, root):
  dims = rng.choice([7, 4])
  camera = rng.choice(sorted(_CAMERAS))
  fields = [camera + "_IMAGE"] if dims == 4 else rng.sample(_OTHER + [camera + "_IMAGE"], rng.randint(1, 4))
  extra = rng.sample(_OTHER, 2)
  src, dst = os.path.join(root, "in"), os.path.join(root, "out")
  os.mkdir(src)
  r = np.random.RandomState(rng.randrange(1 << 30))
  frames = {}
  for c in rng.sample(["1234_56", "ctx", "7.8-a", "z"], rng.randint(0, 3)):
    os.mkdir(os.path.join(src, c))
    stamps = rng.sample([0, 1, 1550083467346370, 1550083467446370, 99], rng.randint(0, 3))
    if rng.random() < 0.003:
      stamps = [1550083467346370 + 100000 * i for i in range(260)]
      vh.count("long_segments")
    for t in stamps:
      d = {f: r.randint(0, 255, (rng.randint(1, 3), 2, 3)).astype(rng.choice([np.uint8, np.float32])) for f in fields + extra}
      _save(os.path.join(src, c, str(t)), d, None)
      frames[c, t] = {"in": d, "out": _detections(rng, dims), "dt": rng.choice([0.25, 0.5, 1.0, 2.0]), "calls": 0}
    if rng.random() < 0.4:
      open(os.path.join(src, c, "README"), "w").close()
      vh.count("stray_files")
  if rng.random() < 0.4:
    open(os.path.join(src, "stats.txt"), "w").close()
    vh.count("stray_files")
  vh.crumb((dims, fields, sorted(frames), [f["out"] for f in frames.values()]))
  vh.nontrivial((dims, fields, sorted((k, f["out"]["boxes"].tobytes(), f["out"]["scores"].tobytes(), f["out"]["classes"].tobytes()) for k, f in frames.items())))

  if frames and rng.random() < 0.4:  # An earlier run has left its results.
    for (c, t), f in frames.items():
      if rng.random() < 0.6:
        _save(os.path.join(dst, c, str(t)), _detections(rng, dims), rng.choice([None, ["POSE"]]))
        vh.count("stale_results")
  clock = [100.0]
  log = []
  order = []
  mod = types.ModuleType("wod_latency_submission")
  mod.DATA_FIELDS = tuple(fields) if rng.random() < 0.3 else list(fields)

  def initialize_model():
    clock[0] += 1024
    log.append("init")

  def run_model(**kw):
    log.append("run")
    same = [k for k, f in frames.items() if not f["calls"] and set(kw) == set(fields) and all(kw[x].dtype == f["in"][x].dtype and kw[x].shape == f["in"][x].shape and (kw[x] == f["in"][x]).all() for x in fields)]
    vh.expect(same, "model-input", lambda: "fields %s" % sorted(kw))
    if not same:
      return {"boxes": np.zeros((0, dims)), "scores": np.zeros(0), "classes": np.zeros(0, np.uint8)}
    f = frames[same[0]]
    f["calls"] += 1
    order.append(same[0])
    clock[0] += f["dt"]
    keys = list(f["out"])
    rng.shuffle(keys)
    return {k: f["out"][k] for k in keys}
  mod.initialize_model, mod.run_model = initialize_model, run_model
  sys.modules["wod_latency_submission"] = mod
  load = np.load

  def slow_load(*a, **kw):
    clock[0] += 4096  # Not the model's time.
    return load(*a, **kw)
  np.load = slow_load
  for k in _CLOCKS:
    # The processor is idle for half of the time.
    u = 0.5 if k.startswith(("process", "thread")) else 1.0
    setattr(time, k, (lambda u=u: int(u * clock[0] * 10**9)) if k.endswith("_ns") else (lambda u=u: u * clock[0]))
  try:
    _script("wod_latency_evaluator.py", ["--input_data_dir=" + src, "--output_dir=" + dst, "--latency_result_file=" + os.path.join(root, "lat.txt")])
  finally:
    np.load = load
  vh.expect(log == ["init"] + ["run"] * len(frames), "model-calls", "%s for %d frames" % (log, len(frames)))
  for (c, t), f in frames.items():
    p = os.path.join(dst, c, str(t))
    names = sorted(os.listdir(p)) if os.path.isdir(p) else []
    vh.expect(names == ["boxes.npy", "classes.npy", "input_fields.txt", "scores.npy"], "results", lambda: "%s" % names)
    for k, v in f["out"].items():
      g = load(os.path.join(p, k + ".npy"))
      vh.expect(g.dtype == v.dtype and g.shape == v.shape and g.tobytes() == v.tobytes(), "saved", lambda: "%s: %s instead of %s" % (k, g.tolist(), v.tolist()))
    vh.expect(open(os.path.join(p, "input_fields.txt")).read().split() == list(fields), "input-fields", "")
    vh.count("frames")
  with open(os.path.join(root, "lat.txt")) as f:
    lat = [float(x) for x in f.read().split()]
  vh.expect(lat == [frames[k]["dt"] for k in order], "latencies", lambda: "%s instead of %s" % (lat, [frames[k]["dt"] for k in order]))
  vh.count("latencies", len(lat))
  os.makedirs(dst, exist_ok=True)
  if rng.random() < 0.4:
    open(os.path.join(dst, "notes.txt"), "w").close()
  out = os.path.join(root, "objs.bin")
  _script("make_objects_file_from_latency_results.py", ["--results_dir", dst, "--output_file", out])
  _compare(out, {k: _objects(f["out"], k[0], k[1], _CAMERAS[camera]) for k, f in frames.items()})
  vh.count("files_of_2d" if dims == 4 else "files_of_3d")
  # A model that breaks its contract does not pass.
  if frames:
    k = rng.choice(sorted(frames))
    o = dict(frames[k]["out"])
    bad = rng.choice(["missing", "extra", "name", "scores", "classes"])
    if bad == "missing":
      del o[rng.choice(sorted(o))]
    elif bad == "extra":
      o["more"] = np.zeros(len(o["scores"]))
    elif bad == "name":
      o["detections"] = o.pop(rng.choice(sorted(o)))
    else:
      o[bad] = np.concatenate([o[bad], np.zeros(1, o[bad].dtype)])
    mod.run_model = lambda **kw: o
    vh.expect(vh.refused(lambda: _script("wod_latency_evaluator.py", ["--input_data_dir=" + src, "--output_dir=" + os.path.join(root, "bad"), "--latency_result_file=" + os.path.join(root, "bad.txt")])), "bad-model", bad)
    vh.count("bad_models")


def case_objects(rng):
  root = tempfile.mkdtemp(prefix="vlat")
  try:
    dims = rng.choice([7, 4, 4])
    d = _detections(rng, dims)
    camera = rng.choice(sorted(_CAMERAS))
    fields = [camera + "_IMAGE"]
    wrong = False
    if dims == 7:
      fields = rng.choice([None, fields, rng.sample(_OTHER, 2)])
    elif rng.random() < 0.4:
      wrong = True
      fields = rng.choice([None, [], [camera + "_IMAGE", "POSE"], [camera + "_IMAGE", "FRONT_IMAGE"], ["POSE"], [camera + "_POSE"], [camera + "_IMAGE_1"], ["TOP_RANGE_IMAGE_FIRST_RETURN"], ["NONE_IMAGE"], ["IMAGE"]])
    p = os.path.join(root, "f")
    _save(p, d, fields)
    c, t = rng.choice(["a", "12_34"]), rng.choice([0, 7, 1550083467346370])
    vh.crumb((d, fields, c, t))
    vh.nontrivial((d["boxes"].tobytes(), d["scores"].tobytes(), d["classes"].tobytes(), fields))

    def run():
      with contextlib.redirect_stdout(io.StringIO()):
        return make.make_object_list_from_subdir(p, c, t)
    if wrong and len(d["scores"]):
      vh.expect(vh.refused(run, ValueError), "wrong-fields", "%s" % fields)
      vh.count("wrong_fields")
    elif not wrong:
      got, want = run(), _objects(d, c, t, _CAMERAS[camera])
      vh.expect(got == want, "object-list", lambda: "%s instead of %s" % (got, want))
      k = rng.choice(["scores", "classes"])
      np.save(os.path.join(p, k), np.concatenate([d[k], np.zeros(1, d[k].dtype)]))
      vh.expect(vh.refused(run), "lengths", k)
  finally:
    shutil.rmtree(root)


if __name__ == "__main__":
  vh.main([("evaluate", 3, case_evaluate), ("objects", 5, case_objects)])
