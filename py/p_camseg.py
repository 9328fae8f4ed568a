"""Camera segmentation labels: encoding, global ids, pictures, and what the metrics are given (C31)."""
import numpy as np
import tensorflow as tf

import vh
from waymo_open_dataset import dataset_pb2
from waymo_open_dataset.protos import camera_segmentation_pb2 as cs
from waymo_open_dataset.utils import camera_segmentation_utils as cu
from waymo_open_dataset.v2.perception import segmentation as v2
from waymo_open_dataset.wdl_limited.camera_segmentation import camera_segmentation_metrics as cm

png = lambda a: tf.io.encode_png(tf.constant(a)).numpy()


class Label:
  """A label as a v1 message or a v2 component, and what it says."""

  def __init__(self, rng, r, shape, seq, new_ids):
    self.seq, self.shape = seq, shape
    self.div = rng.choice([20, 100, 1000, 1001, 2000])
    n = rng.choice([0, 1, 3, 6])
    self.local = rng.sample(range(1, min(self.div, 65535 // 28 - 1) if rng.random() < 0.5 else min(self.div, 12)), n)
    self.map = {}
    for i in self.local:
      g = new_ids(seq)
      while any(g == q for q, _ in self.map.values()):
        g = new_ids(seq)
      self.map[i] = (g, rng.random() < 0.6)
    top = 65535 // self.div - 1
    self.sem = r.randint(0, min(28, top) + 1, shape)
    self.inst = np.array([rng.choice([0] + self.local) for _ in range(self.sem.size)]).reshape(shape)
    self.cover = r.randint(1, 4, shape).astype(np.uint8) if rng.random() < 0.6 else None
    pan = (self.sem * self.div + self.inst).astype(np.uint16)
    kw = dict(panoptic_label_divisor=self.div, panoptic_label=png(pan), sequence_id=seq, num_cameras_covered=png(self.cover) if self.cover is not None else b"")
    self.pan = pan
    items = list(self.map.items())
    rng.shuffle(items)
    if rng.random() < 0.5:
      self.data = dataset_pb2.CameraSegmentationLabel(**kw)
      for i, (g, t) in items:
        m = self.data.instance_id_to_global_id_mapping.add()
        m.local_instance_id, m.global_instance_id = i, g
        if t or rng.random() < 0.5:
          m.is_tracked = t
    else:
      self.data = v2.CameraSegmentationLabelComponent(
          key=None, instance_id_to_global_id_mapping=v2.InstanceIdToGlobalIdMapping(local_instance_ids=[i for i, _ in items], global_instance_ids=[g for _, (g, _) in items], is_tracked=[t for _, (_, t) in items]), **kw)
      vh.count("components")


def case_decode(rng):
  r = np.random.RandomState(rng.randrange(1 << 30))
  top = rng.choice([8, 60, 3000, 70000])
  pools = {}

  def new_ids(seq):
    p = pools.setdefault(seq, [rng.randint(1, top) for _ in range(12)])
    return rng.choice(p) if rng.random() < 0.7 else rng.randint(1, top)

  seqs = rng.sample(["one", "two", "", "three"], rng.randint(1, 3))
  shape = (rng.randint(1, 4), rng.randint(2, 5), 1)
  labels = [Label(rng, r, shape, rng.choice(seqs), new_ids) for _ in range(rng.randint(1, 5))]
  # An id may be as large as the divisor.
  if rng.random() < 0.3:
    same = [l for l in labels if l.map]
    for l in same[:1]:
      i = rng.choice(sorted(l.map))
      if all(g != l.div for g, _ in l.map.values()) and isinstance(l.data, dataset_pb2.CameraSegmentationLabel):
        l.map[i] = (l.div, l.map[i][1])
        for m in l.data.instance_id_to_global_id_mapping:
          if m.local_instance_id == i:
            m.global_instance_id = l.div
        l.inst.flat[rng.randrange(l.inst.size)] = i
        l.pan = (l.sem * l.div + l.inst).astype(np.uint16)
        l.data.panoptic_label = png(l.pan)
        vh.count("id_of_divisor")
  protos = [l.data for l in labels]
  vh.crumb([(l.seq, l.div, l.map, l.pan.tolist()) for l in labels])
  vh.nontrivial(repr([(l.seq, l.div, l.map, l.pan.tolist()) for l in labels]))
  for l in labels:
    one = cu.decode_single_panoptic_label_from_proto(l.data)
    vh.expect(one.shape == l.shape and (one == l.pan).all(), "single", lambda: "%s instead of %s" % (one.tolist(), l.pan.tolist()))
    s, i = cu.decode_semantic_and_instance_labels_from_panoptic_label(one, l.div)
    vh.expect((s == l.sem).all() and (i == l.inst).all(), "semantic-and-instance", lambda: "%s %s" % (s.tolist(), i.tolist()))
  # Without global ids.
  new = rng.choice([None, None, 10, 500, 3000])
  div = labels[0].div if new is None else new
  decode = cu.decode_multi_frame_panoptic_labels_from_segmentation_labels
  fn = lambda: decode(protos, remap_to_global=False, new_panoptic_label_divisor=new)
  if max(l.inst.max() for l in labels) >= div:
    vh.expect(vh.refused(fn, ValueError), "local-divisor", lambda: "divisor %s" % div)
    vh.count("refused_divisors")
  else:
    pan, _, cover, d = fn()
    vh.expect(d == div and len(pan) == len(labels) and all((p // d == l.sem).all() and (p % d == l.inst).all() for p, l in zip(pan, labels)), "local-ids", lambda: "divisor %s: %s" % (d, [p.tolist() for p in pan]))
    check_cover(labels, cover)
  seq = rng.random() < 0.4
  pan, tracked, cover, d = decode(protos, remap_to_sequential=seq)
  vh.expect(len(pan) == len(tracked) == len(cover) == len(labels), "lengths", "")
  check_cover(labels, cover)
  ids, seen = {}, 0
  for l, p, t in zip(labels, pan, tracked):
    vh.expect(p.shape == l.shape and p.dtype == np.uint32 and t.shape == l.shape, "arrays", lambda: "%s %s" % (p.dtype, p.shape))
    vh.expect((p // d == l.sem).all(), "semantic-classes", lambda: "divisor %s: %s instead of %s" % (d, (p // d).tolist(), l.sem.tolist()))
    inst = p % d
    vh.expect(((inst == 0) == (l.inst == 0)).all(), "instances", lambda: "%s for %s" % (inst.tolist(), l.inst.tolist()))
    for a, b, k in zip(inst.ravel().tolist(), l.inst.ravel().tolist(), t.ravel().tolist()):
      vh.expect(bool(k) == (l.map[b][1] if b else False), "tracked", lambda: "instance %s: %s, %s" % (b, k, l.map))
      if b:
        key = (l.seq, l.map[b][0])
        vh.expect(ids.setdefault(key, a) == a, "consistent", lambda: "%s is %s and %s" % (key, ids[key], a))
        seen = max(seen, a)
    vh.count("tracked", int((t > 0).sum()))
  vh.expect(len(set(ids.values())) == len(ids), "distinct", lambda: "%s" % ids)
  every = {(l.seq, g) for l in labels for g, _ in l.map.values()}
  if seq:
    vh.expect(all(1 <= v <= len(every) for v in ids.values()), "sequential", lambda: "%s of %d" % (ids, len(every)))
    vh.count("sequential")
  elif len({l.seq for l in labels if l.map}) == 1:
    vh.expect(all(v == g for (_, g), v in ids.items()), "global-ids", lambda: "%s" % ids)
    vh.count("one_sequence")
  vh.expect(d >= labels[0].div and d > seen, "divisor", lambda: "%s, ids up to %s" % (d, seen))
  vh.count("new_divisor", int(d > labels[0].div))
  vh.count("labels", len(labels))
  vh.count("ids", len(ids))
  vh.count("sequences", len({s for s, _ in ids}))
  vh.count("no_instances", sum(not l.map for l in labels))
  # With a divisor of the caller the ids are the same.
  new = rng.choice([seen, seen + 1, seen + 1, 5000, max(1, seen - 1), 10]) or 7
  fn = lambda: decode(protos, remap_to_sequential=seq, new_panoptic_label_divisor=new)
  if seen >= new:
    vh.expect(vh.refused(fn, ValueError), "own-divisor", lambda: "divisor %s accepted for ids up to %s" % (new, seen))
    vh.count("refused_divisors")
  elif max(l.inst.max() for l in labels) < new:
    p2, t2, _, d2 = fn()
    vh.expect(d2 == new and all((b // d2 == l.sem).all() and (b % d2 == a % d).all() for a, b, l in zip(pan, p2, labels)), "own-divisor-ids", lambda: "divisor %s: %s" % (d2, [p.tolist() for p in p2]))
    vh.expect(all((a == b).all() for a, b in zip(tracked, t2)), "own-divisor-tracked", "")
    vh.count("own_divisors")
  old = cu.decode_multi_frame_panoptic_labels_from_protos(protos, remap_to_sequential=seq)
  vh.expect(old[3] == d and all((a == b).all() for a, b in zip(old[0], pan)), "deprecated-name", "")


def check_cover(labels, cover):
  for l, c in zip(labels, cover):
    w = l.cover if l.cover is not None else np.ones(l.shape, np.uint8)
    vh.expect(c.shape == w.shape and c.dtype == np.uint8 and (c == w).all(), "coverage", lambda: "%s instead of %s" % (c.tolist(), w.tolist()))
    vh.count("coverage", int(l.cover is not None))


def case_encode(rng):
  r = np.random.RandomState(rng.randrange(1 << 30))
  shape = (rng.randint(1, 5), rng.randint(2, 6), 1)
  div = rng.choice([10, 1000, 65536, 100000])
  sem = r.randint(0, 29, shape).astype(rng.choice([np.uint8, np.uint16, np.int32, np.int64]))
  inst = r.randint(0, min(div, rng.choice([4, 250, 65536, 100000])), shape)
  inst = inst.astype(rng.choice([t for t in (np.uint8, np.uint16, np.int32, np.uint32, np.int64) if inst.max() <= np.iinfo(t).max]))
  vh.crumb((div, sem.tolist(), inst.tolist(), sem.dtype, inst.dtype))
  vh.nontrivial((div, sem.tobytes(), inst.tobytes()))
  pan = cu.encode_semantic_and_instance_labels_to_panoptic_label(sem, inst, div)
  want = sem.astype(object) * div + inst.astype(object)
  vh.expect(pan.dtype == np.uint32 and pan.shape == shape and (pan == want).all(), "encode", lambda: "%s instead of %s" % (pan.tolist(), want.tolist()))
  s, i = cu.decode_semantic_and_instance_labels_from_panoptic_label(pan, div)
  vh.expect((s == sem).all() and (i == inst).all(), "encode-decode", "")
  vh.expect(vh.refused(lambda: cu.decode_semantic_and_instance_labels_from_panoptic_label(pan, rng.choice([0, -1])), ValueError), "no-divisor", "")
  vh.count("encoded", pan.size)
  # A prediction saved to a proto.
  own = rng.choice([5, 100, 1000, 2000, 3000, 6000])
  p = pan.astype(rng.choice([np.uint32, np.int32, np.int64]))
  seq = rng.choice(["a", "b"])
  kinds = sorted(set(inst.ravel().tolist()) - {0})
  nd = max(own, len(kinds) + 1)
  big = max(int(a) * nd + (kinds.index(b) + 1 if b else 0) for a, b in zip(sem.ravel().tolist(), inst.ravel().tolist()))
  fn = lambda: cu.save_panoptic_label_to_proto(p, div, seq, own)
  keep = p.copy()
  if big > 65535:
    vh.expect(vh.refused(fn, ValueError), "overflow", lambda: "largest label %d" % big)
    vh.count("overflows")
  elif big < 65535:
    proto = fn()
    vh.expect((p == keep).all(), "prediction-changed", "")
    vh.expect(proto.sequence_id == seq and proto.panoptic_label_divisor == nd, "saved", lambda: "%s" % proto)
    got = cu.decode_single_panoptic_label_from_proto(proto)
    m = {q.local_instance_id: q.global_instance_id for q in proto.instance_id_to_global_id_mapping}
    vh.expect(len(m) == len(proto.instance_id_to_global_id_mapping) and (got // nd == sem).all() and (np.vectorize(lambda x: m.get(x, 0))(got % nd) == inst).all(), "saved-ids", lambda: "%s, %s for %s" % (got.tolist(), m, inst.tolist()))
    vh.expect(sorted(m) == list(range(1, len(kinds) + 1)) and sorted(m.values()) == kinds, "compact-ids", lambda: "%s" % m)
    (back,), _, _, d = cu.decode_multi_frame_panoptic_labels_from_segmentation_labels([proto])
    vh.expect((back // d == sem).all() and (back % d == inst).all(), "saved-and-decoded", lambda: "divisor %s: %s for %s, %s" % (d, back.tolist(), sem.tolist(), inst.tolist()))
    vh.count("saved")
    vh.count("grown_divisors", int(nd > own))


def case_color(rng):
  r = np.random.RandomState(rng.randrange(1 << 30))
  shape = (rng.randint(1, 4), rng.randint(2, 6))
  names = cs.CameraSegmentation.Type.items()
  vh.expect({v for _, v in names} <= set(range(len(cu.DEFAULT_COLOR_MAP))) and all(cu.DEFAULT_COLOR_MAP[v].tolist() == list(cu.SEGMENTATION_COLOR_MAP[v]) for _, v in names), "color-map", "%s" % cu.DEFAULT_COLOR_MAP.tolist())
  own = rng.random() < 0.5
  cmap = r.randint(0, 256, (29, 3)).astype(np.uint8) if own else cu.DEFAULT_COLOR_MAP
  sem = r.randint(0, 29, shape).astype(rng.choice([np.uint16, np.int32, np.int64]))
  inst = (r.randint(0, rng.choice([3, 100, 1500]), shape)).astype(rng.choice([np.uint16, np.int32, np.int64]))
  third = rng.random() < 0.5
  a, b = (sem[..., None], inst[..., None]) if third else (sem, inst)
  kw = {"color_map": cmap} if own else {}
  if rng.random() < 0.3:
    kw.update(prime_num=rng.choice([7, 41]), max_delta=rng.choice([10, 50, 120]))
  prime, delta = kw.get("prime_num", 41), kw.get("max_delta", 50)
  vh.crumb((sem.tolist(), inst.tolist(), cmap.tolist(), kw))
  vh.nontrivial((sem.tobytes(), inst.tobytes(), cmap.tobytes(), prime, delta))
  keep = cmap.copy()
  rgb = cu.semantic_label_to_rgb(a, cmap) if own else cu.semantic_label_to_rgb(a)
  vh.expect(rgb.shape == shape + (3,) and (rgb == cmap[sem]).all(), "semantic-colors", "")
  rgb = cu.panoptic_label_to_rgb(a, b, **kw)
  vh.expect(rgb.shape == shape + (3,) and rgb.dtype == np.uint8, "colors", lambda: "%s %s" % (rgb.dtype, rgb.shape))
  clipped = 0
  for i in np.ndindex(*shape):
    c, k = [int(q) for q in cmap[int(sem[i])]], int(inst[i])
    if k:
      c[1] += k * prime % (2 * delta) - delta
      clipped += not 0 <= c[1] <= 255
    want = [min(255, max(0, q)) for q in c]
    vh.expect(rgb[i].tolist() == want, "instance-colors", lambda: "class %s, instance %s: %s instead of %s" % (sem[i], k, rgb[i].tolist(), want))
  vh.expect((cmap == keep).all(), "color-map-changed", "")
  vh.count("colors", sem.size)
  vh.count("clipped", clipped)


def case_frames(rng):
  seqs = [rng.choice(["a", "b"])]
  frames, want, first = [], [], None
  k = rng.randint(1, 5)
  changed = False
  for i in range(rng.randint(0, 8)):
    f = dataset_pb2.Frame()
    f.timestamp_micros = i
    f.images.add().name = 1
    f.images.add().name = 2
    if rng.random() < 0.7:
      s = seqs[0] if rng.random() < 0.8 else rng.choice(["a", "b"])
      for im in f.images:
        im.camera_segmentation_label.panoptic_label = b"label"
        im.camera_segmentation_label.sequence_id = s
      first = s if first is None else first
      changed = changed or s != first
      if not changed and len(want) < k:
        want.append(i)
    elif rng.random() < 0.3:
      # Only another camera has a label.
      f.images[1].camera_segmentation_label.panoptic_label = b"label"
    frames.append(f)
  vh.crumb((k, [(f.timestamp_micros, f.images[0].camera_segmentation_label.sequence_id) for f in frames]))
  vh.nontrivial((k, repr([f.SerializeToString(deterministic=True) for f in frames])))
  got, seq = cu.load_frames_with_labels_from_dataset([tf.constant(f.SerializeToString()) for f in frames], keep_first_k=k)
  vh.expect([f.timestamp_micros for f in got] == want and all(f == frames[f.timestamp_micros] for f in got), "frames", lambda: "%s instead of %s" % ([f.timestamp_micros for f in got], want))
  vh.expect(seq == first, "sequence", lambda: "%s instead of %s" % (seq, first))
  vh.count("loaded", len(got))
  vh.count("other_sequence", int(changed))


def case_metrics(rng):
  r = np.random.RandomState(rng.randrange(1 << 30))
  cfg = cm.get_eval_config()
  div = cfg.panoptic_label_divisor
  objs, all_updates = [], []
  for s in range(rng.randint(1, 3)):
    n = rng.randint(1, 3)
    shape = (rng.randint(1, 3), rng.randint(2, 4), 1)
    seq = rng.choice([s, "seq%d" % s])
    dt = rng.choice([np.int32, np.uint32, np.int64])
    true = [(r.randint(0, 29, shape) * div + r.randint(0, 9, shape)).astype(dt) for _ in range(n)]
    pred = [(r.randint(0, 29, shape) * div + r.randint(0, 9, shape)).astype(dt) for _ in range(n)]
    cover = [r.randint(0, 4, shape).astype(np.uint8) for _ in range(n)]
    tracked = [(r.rand(*shape) < 0.5).astype(rng.choice([np.uint8, bool])) for _ in range(n)]
    keep = [[x.copy() for x in q] for q in (true, pred, cover, tracked)]
    vh.crumb([[x.tolist() for x in q] for q in keep])
    kw = dict(sequence_id=seq)
    if rng.random() < 0.5:
      kw["offset"] = 2 ** 26
    m = cm.get_metric_object_by_sequence(true, pred, cover, tracked, **kw)
    vh.expect(all((a == b).all() for q, w in zip(keep, (true, pred, cover, tracked)) for a, b in zip(q, w)), "labels-changed", "")
    vh.expect(tuple(m.args[0:1]) + tuple(m.args[2:]) == (cfg.num_classes, cfg.ignore_label, div, kw.get("offset", 256 ** 3)) and list(m.args[1]) == list(cfg.class_has_instances_list), "metric-arguments", lambda: "%s" % (m.args,))
    vh.expect(len(m.updates) == n, "updates", "%d" % len(m.updates))
    for (yt, yp, sid, w), t, p, c, k in zip(m.updates, *keep[:4]):
      want = np.where(k == 0, t // div * div, t)
      vh.expect((yt == want).all(), "ground-truth", lambda: "%s instead of %s" % (yt.tolist(), want.tolist()))
      vh.expect((yp == p).all() and sid == seq, "prediction", "")
      ww = 1.0 / np.maximum(c.astype(float), 1e-8)
      vh.expect(np.allclose(w, ww, rtol=1e-5), "weights", lambda: "%s for %s" % (w.tolist(), c.tolist()))
      vh.count("untracked", int((k == 0).sum()))
    lists = [true, pred, cover, tracked]
    short = rng.randrange(4)
    lists[short] = lists[short][:-1]
    vh.expect(vh.refused(lambda: cm.get_metric_object_by_sequence(*lists), ValueError), "list-lengths", "%d" % short)
    objs.append(m)
    all_updates.append(n)
    vh.nontrivial(repr(keep))
  states = [list(m.updates) for m in objs]
  for _ in range(2):
    got = cm.aggregate_metrics(objs)
    n = sum(all_updates)
    vh.expect(abs(got.wstq - (n + 0.25)) < 1e-4 and abs(got.waq - (n + 0.5)) < 1e-4 and abs(got.miou - (n + 0.75)) < 1e-4, "aggregate", lambda: "%s for %d updates" % (got, n))
  vh.expect(all(len(a) == len(m.updates) and m.resets == 0 for a, m in zip(states, objs)), "objects-changed", "")
  vh.count("metric_updates", sum(all_updates))


if __name__ == "__main__":
  vh.main([("decode", 1.0, case_decode), ("encode", 1.0, case_encode), ("color", 0.7, case_color), ("frames", 0.5, case_frames), ("metrics", 0.5, case_metrics)])
