"""Components of the v2 dataset, their columns, and joins of their tables (C29)."""
import dataclasses
import itertools
import json
import math
import os
import typing

import numpy as np
import pandas as pd
import pyarrow as pa
import tensorflow as tf

import vh
from waymo_open_dataset import v2
from waymo_open_dataset.v2 import column_types as ct
from waymo_open_dataset.v2 import component as comp
from waymo_open_dataset.v2 import dataframe_utils as du
from waymo_open_dataset.v2 import typing_utils as tu
from waymo_open_dataset.v2.perception import lidar as v2_lidar
from waymo_open_dataset.v2.perception import segmentation as v2_seg

# Few names, so that fields of different levels share them and names start like others.
NAMES = ["x", "value", "type", "box", "box2", "inner", "center", "key", "name", "x_x"]
LEAVES = [pa.int8, pa.int64, pa.float32, pa.float64, pa.string, pa.bool_, pa.binary, lambda: pa.list_(pa.float32()), lambda: pa.list_(pa.int32(), 3)]


def random_tree(rng, depth):
  """[(name, repeated, optional, arrow type or subtree)]"""
  out = []
  for n in rng.sample(NAMES, rng.randint(1, 4 if depth else 3)):
    sub = depth > 0 and rng.random() < 0.5
    out.append((n, rng.random() < 0.25, rng.random() < 0.4, random_tree(rng, depth - 1) if sub else rng.choice(LEAVES)()))
  return out


def make_class(rng, name, tree, base=(), top=None):
  """A frozen dataclass for the tree; optional fields have a default and hence come last."""
  need, opt = [], []
  for n, rep, op, t in tree:
    ty = make_class(rng, "T_" + n, t) if isinstance(t, list) else (list[int] if repr(t).startswith("DataType('list") else int)
    kw = dict(is_repeated=rep) if rep or rng.random() < 0.5 else {}
    if not isinstance(t, list):
      kw["arrow_type"] = t
    if op:
      opt.append((n, typing.Optional[ty], comp.create_column(default=None, **kw)))
    elif kw or not isinstance(t, list):
      need.append((n, ty, comp.create_column(**kw)))
    else:
      need.append((n, ty))
  return dataclasses.make_dataclass(name, (top or []) + need + opt, bases=base, frozen=True)


COUNT = itertools.count()


def random_value(rng):
  k = rng.randrange(6)
  return [next(COUNT), "s%d" % next(COUNT), float(next(COUNT)), None, [next(COUNT)] * rng.randint(0, 3), b"b%d" % next(COUNT)][k]


def random_values(rng, tree):
  """A value for every leaf, None for absent nested fields: {name: value or dict or None}"""
  return {n: (None if op and rng.random() < 0.4 else random_values(rng, t)) if isinstance(t, list) else random_value(rng) for n, rep, op, t in tree}


def build(cls, tree, values, **more):
  hints = {f.name: f.type for f in dataclasses.fields(cls)}
  kw = dict(more)
  for n, rep, op, t in tree:
    ty = hints[n]
    if typing.get_origin(ty) is typing.Union:
      ty = typing.get_args(ty)[0]
    kw[n] = values[n] if not isinstance(t, list) or values[n] is None else build(ty, t, values[n])
  return cls(**kw)


def columns(prefix, tree, values):
  """The columns of a tree as {name: (value, arrow type)}"""
  out = {}
  for n, rep, op, t in tree:
    name = prefix + n + ("[*]" if rep else "")
    if isinstance(t, list):
      out.update(columns(name + ".", t, values[n] if values is not None else None))
    else:
      out[name] = (values[n] if values is not None else None, t)
  return out


def unlike(tree, values, obj, path):
  """Where an instance differs from the values."""
  for n, rep, op, t in tree:
    if not hasattr(obj, n):
      return "%s.%s missing" % (path, n)
    v = getattr(obj, n)
    if not isinstance(t, list):
      if v is not (values[n] if values is not None else None) and v != (values[n] if values is not None else None):
        return "%s.%s is %r instead of %r" % (path, n, v, values and values[n])
    elif v is None:
      if values is not None and values[n] is not None:
        return "%s.%s is None" % (path, n)
    else:
      d = unlike(t, values[n] if values is not None else None, v, path + "." + n)
      if d:
        return d
  return None


def shuffled(rng, d):
  k = list(d)
  rng.shuffle(k)
  return {q: d[q] for q in k}


def case_random(rng):
  kt = [("k_" + n, False, False, rng.choice([pa.string, pa.int64, pa.int8])()) for n in rng.sample("abcd", rng.randint(1, 3))]
  Key = make_class(rng, "Key", kt, (comp.Key,))
  tree = random_tree(rng, rng.randint(0, 3))
  tree = [t for t in tree if t[0] != "key"] or [("x", False, False, pa.int8())]
  name = "C%d" % rng.randint(0, 99)
  C = make_class(rng, name, tree, (comp.Component,), [("key", Key)])
  kv, v = random_values(rng, kt), random_values(rng, tree)
  obj = build(C, tree, v, key=build(Key, kt, kv))
  vh.crumb((kt, tree, kv, v))
  vh.nontrivial((repr(kt), repr(tree), repr(v)))
  want = columns("key.", kt, kv)
  want.update(columns("[%s]." % name, tree, v))
  flat = obj.to_flatten_dict()
  vh.expect(set(flat) == set(want) and all(flat[k] is want[k][0] or flat[k] == want[k][0] for k in flat), "columns", lambda: "%s instead of %s" % (dict(flat), {k: w[0] for k, w in want.items()}))
  s = C.schema()
  vh.expect(len(s.names) == len(set(s.names)) and dict(zip(s.names, s.types)) == {k: w[1] for k, w in want.items()}, "schema", lambda: "%s instead of %s" % (dict(zip(s.names, s.types)), {k: w[1] for k, w in want.items()}))
  vh.expect(list(s.names) == list(flat), "schema-order", lambda: "%s instead of %s" % (s.names, list(flat)))
  # A row of a joined table holds columns of other components, in any order.
  row = dict(flat)
  row.update({"[Other].x": -1, "[Other].%s" % rng.choice(NAMES): -2, "key.other": -3, "[%s2].x" % name: -4})
  back = C.from_dict(shuffled(rng, row))
  vh.expect(type(back) is C and type(back.key) is Key, "class", "%s" % type(back))
  d = unlike(tree, v, back, name) or unlike(kt, kv, back.key, "key")
  vh.expect(d is None, "from-columns", lambda: "%s: %s" % (d, row))
  vh.expect(back.to_flatten_dict() == flat, "back-to-columns", lambda: "%s instead of %s" % (dict(back.to_flatten_dict()), dict(flat)))
  vh.count("random_components")
  vh.count("columns", len(flat))
  vh.count("nested", sum(k.count(".") > 1 for k in flat))
  vh.count("repeated", sum("[*]" in k for k in flat))
  leaf = [k.split(".")[-1] for k in flat]
  vh.count("shared_names", len(leaf) - len(set(leaf)))
  # Missing columns of leaves are refused.
  gone = dict(flat)
  del gone[rng.choice(sorted(gone))]
  vh.expect(vh.refused(lambda: C.from_dict(gone)), "missing-column", lambda: "%s accepted" % gone)
  vh.count("missing_columns")


def tree_of(cls):
  out = []
  for f in dataclasses.fields(cls):
    ty, op = f.type, False
    if typing.get_origin(ty) is typing.Union:
      ty, op = typing.get_args(ty)[0], True
    rep = bool(f.metadata.get("is_repeated"))
    out.append((f.name, rep, op, tree_of(ty) if dataclasses.is_dataclass(ty) else f.metadata.get("arrow_type")))
  return out


FILE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "v2_columns.json")


def case_dataset(rng):
  """The components of the dataset have the columns of its files."""
  want = json.load(open(FILE))
  tag = rng.choice(sorted(want))
  vh.crumb(tag)
  vh.expect(set(want) <= set(v2.ALL_TAGS) and len(v2.ALL_TAGS) == len(set(v2.ALL_TAGS)) and set(v2.TAG_BY_COMPONENT.values()) == set(v2.ALL_TAGS) and set(v2.TAG_BY_COMPONENT) == set(v2.ALL_COMPONENTS), "tags",
            lambda: "%s" % sorted(set(want) ^ set(v2.ALL_TAGS)))
  cls = {t: c for c, t in v2.TAG_BY_COMPONENT.items()}[tag]
  s = cls.schema()
  got = {n: repr(t) for n, t in zip(s.names, s.types)}
  vh.expect(set(want[tag]) <= set(got) and all(got[k] == w for k, w in want[tag].items()), "dataset-columns", lambda: "%s: %s instead of %s" % (tag, got, want[tag]))
  tree = [t for t in tree_of(cls) if t[0] != "key"]
  kcls = {f.name: f.type for f in dataclasses.fields(cls)}["key"]
  kt = tree_of(kcls)
  kv, v = random_values(rng, kt), random_values(rng, tree)
  obj = build(cls, tree, v, key=build(kcls, kt, kv))
  flat = obj.to_flatten_dict()
  exp = columns("key.", kt, kv)
  exp.update(columns("[%s]." % cls.__name__, tree, v))
  vh.expect(dict(flat) == {k: w[0] for k, w in exp.items()}, "dataset-flat", lambda: "%s: %s instead of %s" % (tag, dict(flat), exp))
  back = cls.from_dict(shuffled(rng, dict(flat, **{"[Other].type": 0})))
  d = unlike(tree, v, back, tag) or unlike(kt, kv, back.key, "key")
  vh.expect(d is None, "dataset-from-columns", lambda: "%s: %s" % (tag, d))
  vh.expect(back.to_flatten_dict() == flat, "dataset-back", lambda: tag)
  vh.nontrivial((tag, repr(v)))
  vh.count("dataset_components")


def case_values(rng):
  """Arrays and tensors of the column types."""
  r = np.random.RandomState(rng.randrange(1 << 30))
  a, b = [rng.uniform(-9, 9) for _ in range(3)], [rng.uniform(0, 9) for _ in range(3)]
  vh.expect(ct.Vec3d(*a).numpy.tolist() == a, "vector", "%s" % a)
  h = rng.uniform(-3, 3)
  dt = rng.choice([np.float32, np.float64])
  box = ct.Box3d(center=ct.Vec3d(*a), size=ct.Vec3d(*b), heading=h).numpy(dt)
  vh.expect(box.dtype == dt and (box == np.array(a + b + [h], dt)).all(), "box", lambda: "%s" % box)
  for cls, shape, kind in ((v2_lidar.RangeImage, (3, 4, 4), float), (v2_lidar.CameraProjectionRangeImage, (2, 5, 6), float), (v2_lidar.PoseRangeImage, (3, 1, 6), float), (v2_lidar.FlowRangeImage, (1, 2, 4), float),
                           (v2_seg.LiDARSegmentationRangeImage, (4, 2, 2), int), (v2.object_asset.LidarDistanceImage, (3, 4), float), (v2.object_asset.CameraRayImage, (3, 4, 3), float),
                           (v2.object_asset.PointCoordinates, (7, 3), float)):
    x = r.randint(-9, 9, shape)
    o = cls(values=[kind(q) for q in x.ravel()], shape=list(shape))
    t = o.tensor
    vh.expect(tuple(t.shape) == shape and (t.numpy() == x).all() and t.dtype == (tf.int32 if kind is int else tf.float32), "tensor", lambda: "%s: %s" % (cls.__name__, t))
    if hasattr(cls, "numpy"):
      vh.expect(o.numpy.shape == shape and (o.numpy == x).all(), "array", cls.__name__)
      vh.count("arrays")
    vh.nontrivial(x.tobytes())
  one, two = object(), object()
  key = None
  for cls in (v2_lidar.LiDARComponent, v2_lidar.LiDARCameraProjectionComponent, v2_lidar.LiDARFlowComponent, v2_seg.LiDARSegmentationLabelComponent):
    q = cls(key=key, range_image_return1=one, range_image_return2=two).range_image_returns
    vh.expect(list(q) == [one, two], "returns", cls.__name__)
  u8, u16 = r.randint(0, 256, (3, 5, 1)).astype(np.uint8), r.randint(0, 65536, (3, 5, 1)).astype(np.uint16)
  rgb = r.randint(0, 256, (2, 3, 3)).astype(np.uint8)
  png = lambda q: tf.image.encode_png(tf.constant(q)).numpy()
  s = v2.ObjectAssetCameraSensorComponent(key=key, rgb_image=png(rgb), proj_points_mask=png(u8))
  l = v2.ObjectAssetAutoLabelComponent(key=key, semantic_mask=png(u8), instance_mask=png(u16), object_mask=png(u8))
  vh.expect((s.rgb_image_numpy == rgb).all() and (s.proj_points_mask_numpy == u8).all() and (l.semantic_mask_numpy == u8).all() and (l.object_mask_numpy == u8).all(), "png", "")
  vh.expect(l.instance_mask_numpy.dtype == np.uint16 and (l.instance_mask_numpy == u16).all(), "png-instances", lambda: "%s instead of %s" % (l.instance_mask_numpy.tolist(), u16.tolist()))
  vh.count("values")
  # The type of the elements of a method's result.
  ty = rng.choice([int, str, ct.Vec3d])

  def method() -> typing.Iterable[ty]:
    return []

  def other() -> ty:
    return None

  vh.expect(tu.iterable_item_type(method) is ty and vh.refused(lambda: tu.iterable_item_type(other), AssertionError), "item-type", "%s" % ty)


def null(x):
  return x is None or (isinstance(x, float) and math.isnan(x))


def cell(x):
  if isinstance(x, (list, tuple)):
    return tuple(cell(q) for q in x)
  if null(x):
    return None
  if isinstance(x, (int, float, np.integer, np.floating)) and not isinstance(x, bool):
    return float(x)
  return x


def table(rng, names, other, prefix, pools, cats, rows):
  """A table (list of rows) with keys of the given names."""
  out = []
  for _ in range(rows):
    row = {prefix + n: rng.choice(pools[n]) for n in names}
    row.update({o: rng.choice([rng.randint(0, 9), rng.uniform(0, 1)]) if k == "num" else rng.choice(["a", "b", "keys."]) if k == "str" else [rng.randint(0, 3)] * rng.randint(0, 2) if k == "list" else rng.choice([None, 1.5])
                for o, k in other})
    out.append(row)
  df = {}
  for n in names:
    q = [r[prefix + n] for r in out]
    if n in cats:
      df[prefix + n] = pd.Categorical(q, categories=cats[n])
    elif n == "s":
      df[prefix + n] = pd.Series(q, dtype=object)
    else:
      df[prefix + n] = pd.Series(q, dtype={"t": np.int64, "c": np.int8, "o": np.int32}[n])
  for o, k in other:
    df[o] = pd.Series([r[o] for r in out], dtype=float if k in ("num", "null") else object)
  if rng.random() < 0.3:
    df = shuffled(rng, df)
  return out, pd.DataFrame(df)


def grouped(rows, common, keys, cols):
  """One row for each value of the common keys with the lists of the rest."""
  if keys == common:
    return rows
  out = {}
  for r in rows:
    out.setdefault(tuple(r[k] for k in sorted(common)), []).append(r)
  return [dict(zip(sorted(common), k), **{c: [r[c] for r in rs] for c in cols if c not in common}) for k, rs in out.items()]


def case_merge(rng):
  prefix = rng.choice(["key.", "key.", "k_", "index:"])
  own = prefix != "key."
  names = ["s", "t", "c", "o"]
  common = rng.sample(names, rng.randint(1, 3))
  rest = [n for n in names if n not in common]
  lk = common + rng.sample(rest, rng.randint(0, min(1, len(rest))))
  rk = common + [n for n in rng.sample(rest, rng.randint(0, min(1, len(rest)))) if n not in lk]
  pools = {"s": rng.sample(["seg1", "seg2", "seg3", "seg"], rng.randint(1, 3)), "t": [1, 2, 10 ** 15][:rng.randint(1, 3)], "c": [1, 2, 5], "o": [0, 7, 2 ** 30]}
  # Keys of partitions are read as categories.
  cats = {"s": sorted(set(pools["s"]) | ({"unused"} if rng.random() < 0.5 else set()))} if rng.random() < 0.4 else {}
  other = lambda side: [(side + "." + rng.choice(["x", "key.y", "z"]) + str(i), rng.choice(["num", "str", "list", "null"])) for i in range(rng.randint(0, 2))]
  # Columns of a component start otherwise than keys do.
  lo, ro = other("[L]"), other("[R]")
  n = rng.choice([0, 1, 5, 12])
  left, ldf = table(rng, lk, lo, prefix, pools, cats, rng.choice([0, 1, 4, 8, 8]))
  right, rdf = table(rng, rk, ro, prefix, pools, cats, rng.choice([0, 1, 4, 8, 8]))
  ln, rn, lg, rg = (rng.random() < 0.5 for _ in range(4))
  vh.crumb((left, right, ln, rn, lg, rg, cats, prefix))
  vh.nontrivial((repr(left), repr(right), ln, rn, lg, rg))
  before = ldf.copy(deep=True), rdf.copy(deep=True)
  got = du.merge(ldf, rdf, left_nullable=ln, right_nullable=rn, left_group=lg, right_group=rg, **({"key_prefix": prefix} if own else {}))
  vh.expect(ldf.equals(before[0]) and rdf.equals(before[1]) and list(ldf.dtypes) == list(before[0].dtypes), "inputs-changed", "")
  ck = {prefix + n for n in common}
  lc, rc = [prefix + n for n in lk] + [o for o, _ in lo], [prefix + n for n in rk] + [o for o, _ in ro]
  L = grouped(left, ck, {prefix + n for n in lk}, lc) if lg else left
  R = grouped(right, ck, {prefix + n for n in rk}, rc) if rg else right
  same = lambda a, b: all(a[k] == b[k] for k in ck)
  want = [dict(a, **b) for a in L for b in R if same(a, b)]
  pairs = len(want)
  if rn:
    want += [dict(a, **{c: None for c in rc if c not in ck}) for a in L if not any(same(a, b) for b in R)]
  only_left = len(want) - pairs
  if ln:
    want += [dict(b, **{c: None for c in lc if c not in ck}) for b in R if not any(same(a, b) for a in L)]
  only_right = len(want) - pairs - only_left
  cols = sorted(set(lc) | set(rc))
  vh.expect(sorted(got.columns) == cols, "merged-columns", lambda: "%s instead of %s" % (sorted(got.columns), cols))
  if sorted(got.columns) != cols:
    return
  key = lambda row: tuple(repr(cell(row[c])) for c in cols)
  g = sorted(key(row) for row in got.to_dict("records"))
  w = sorted(key(row) for row in want)
  vh.expect(g == w, "merged-rows", lambda: "%s: %s instead of %s" % (cols, [x for x in g if x not in w][:3] or g[:5], [x for x in w if x not in g][:3] or w[:5]))
  if want:
    for n in common:
      ty = got.dtypes[prefix + n]
      if n not in cats:
        vh.expect(ty == {"s": np.dtype(object), "t": np.dtype(np.int64), "c": np.dtype(np.int8), "o": np.dtype(np.int32)}[n], "key-type", lambda: "%s: %s" % (n, ty))
  vh.count(["inner", "left", "right", "outer"][2 * ln + rn])
  vh.count("pairs", pairs)
  vh.count("only_left", only_left)
  vh.count("only_right", only_right)
  vh.count("grouped", int((lg and lk != common) or (rg and rk != common)))
  vh.count("categories", int(bool(cats) and "s" in common))
  vh.count("empty_tables", int(not left or not right))


if __name__ == "__main__":
  vh.main([("random", 1.0, case_random), ("dataset", 0.5, case_dataset), ("values", 0.1, case_values), ("merge", 0.5, case_merge)])
