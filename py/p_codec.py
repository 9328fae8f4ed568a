"""Compression of range images and of the rays of object assets, and the geometry of their boxes (C28)."""
import json
import math
import zlib

import numpy as np
import pandas as pd
import tensorflow as tf

import vh
from waymo_open_dataset.protos import compressed_lidar_pb2 as cl
from waymo_open_dataset.utils.compression import delta_encoder as de
from waymo_open_dataset.utils.compression import pca_codec as pc
from waymo_open_dataset.utils.compression import tiling
from waymo_open_dataset.v2.perception import base as v2_base
from waymo_open_dataset.v2.perception import object_asset as oa
from waymo_open_dataset.v2.perception.utils import object_asset_codec as oc
from waymo_open_dataset.v2.perception.utils import object_asset_utils as ou

f32 = lambda x: float(np.float32(x))


def range_image(rng, r, shape, prec):
  """Values with runs of zeros, near halves of the precision, negative and large."""
  kind = rng.choice(["dense", "runs", "zeros", "ties", "large", "huge", "sparse", "edges"])
  p = np.array(prec)
  x = r.uniform(-75, 75, shape) * (p if rng.random() < 0.3 else 1)
  if kind == "runs":
    m = np.zeros(shape[0] * shape[1] * shape[2], bool)
    i = 0
    while i < m.size:
      k = rng.randint(1, 9)
      m[i:i + k] = rng.random() < 0.5
      i += k
    x = x * m.reshape(shape)
  elif kind == "zeros":
    x = x * 0
  elif kind == "ties":
    x = (r.randint(-3, 4, shape) + r.choice([0.0, 0.49, 0.51, -0.49], shape)) * p
  elif kind == "large":
    x = r.randint(-10 ** 6, 10 ** 6, shape) * p * (r.rand(*shape) < 0.5)
  elif kind == "huge":
    x = np.round(10 ** r.uniform(6, 12, shape)) * r.choice([-1, 0, 1], shape) * p
  elif kind == "sparse":
    x = x * (r.rand(*shape) < 0.05)
  elif kind == "edges":
    x = x * 0
    x.flat[0 if rng.random() < 0.5 else -1] = 5 * p.max() + 1
  return x


def reference_decode(data):
  d = cl.DeltaEncodedData.FromString(zlib.decompress(data))
  h, w, c = d.metadata.shape
  bits, cur = [], 1
  for n in d.mask:
    bits += [cur] * n
    cur = 1 - cur
  out = np.zeros((c, h, w))
  it, acc, k = iter(d.residual), 0, 0
  for ch in range(c):
    for i in range(h):
      for j in range(w):
        if bits[k]:
          acc += next(it)
          out[ch, i, j] = acc
        k += 1
  return d, np.transpose(out, (1, 2, 0)), k == len(bits) and next(it, None) is None


def reference_encode(q, prec):
  flat = [int(q[i, j, c]) for c in range(q.shape[2]) for i in range(q.shape[0]) for j in range(q.shape[1])]
  mask, cur, n, last, res = [], 1, 0, 0, []
  for v in flat:
    if (v != 0) != bool(cur):
      mask.append(n)
      cur, n = 1 - cur, 0
    n += 1
    if v:
      res.append(v - last)
      last = v
  mask.append(n)
  d = cl.DeltaEncodedData(residual=res, mask=mask, metadata=cl.Metadata(shape=q.shape, quant_precision=prec))
  return zlib.compress(d.SerializeToString(), 9)


def case_delta(rng):
  r = np.random.RandomState(rng.randrange(1 << 30))
  shape = rng.choice([(1, 1, 1), (1, 7, 2), (5, 1, 3), (rng.randint(1, 8), rng.randint(1, 9), rng.randint(1, 6)), (16, 20, 4)])
  one = rng.random() < 0.4
  pool = [0.1, 0.01, 0.001, 1, 1.0, 0.3, 0.0002, 1e-6, 5, 0.1 + 1e-9]
  prec = rng.choice(pool) if one else [rng.choice(pool) for _ in range(shape[2])]
  if not one and rng.random() < 0.3:
    prec = np.array(prec, float)
  ps = [prec] * shape[2] if one else [float(p) for p in prec]
  x = range_image(rng, r, shape, ps)
  dt = rng.choice([np.float64, np.float64, np.float32, np.int64, np.float16, np.int32, np.int16, np.uint16, np.uint8])
  if np.issubdtype(dt, np.integer):
    x = np.clip(np.round(x), np.iinfo(dt).min // (4 if dt is np.int64 else 1), np.iinfo(dt).max // (4 if dt is np.int64 else 1))
  elif dt is np.float16:
    x = np.clip(x, -6e4, 6e4)
  x = x.astype(dt)
  vh.count("delta_" + np.dtype(dt).name)
  if rng.random() < 0.2:
    x = np.asfortranarray(x)
  if rng.random() < 0.2:
    x.setflags(write=False)
  before = x.copy()
  vh.crumb((shape, prec, x.tolist()))
  data = de.compress(x, prec)
  vh.expect((x == before).all() and x.dtype == before.dtype, "input-changed", lambda: "%s became %s" % (before.tolist(), x.tolist()))
  back = de.decompress(data)
  vh.expect(back.shape == shape, "shape", lambda: "%s instead of %s" % (back.shape, shape))
  v = before.astype(float)
  p = np.array(ps, float)
  near = np.abs(back - v) <= 0.5 * p + 3e-7 * np.abs(v) + 1e-12
  vh.expect(near.all(), "precision", lambda: "%s restored as %s with precision %s" % (v[~near][:5], back[~near][:5], ps))
  n = back / np.array([f32(q) for q in ps])
  vh.expect((np.abs(n - np.round(n)) <= 1e-9 * np.maximum(1, np.abs(n))).all(), "multiples", lambda: "%s" % back.tolist())
  vh.expect((back[np.abs(v) < 0.49 * p] == 0).all(), "zeros", lambda: "%s" % back.tolist())
  # Pixels are independent of their neighbours: the quantized image is the same in any order.
  d, ref, whole = reference_decode(data)
  vh.expect(list(d.metadata.shape) == list(shape) and [f32(q) for q in ps] == list(d.metadata.quant_precision), "metadata", lambda: str(d.metadata))
  vh.expect(whole and np.allclose(ref * np.array([f32(q) for q in ps]), back, rtol=1e-12, atol=0), "format", lambda: "%s decoded as %s and %s" % (v.tolist(), ref.tolist(), back.tolist()))
  # Stored data, from whatever encoder.
  q = np.round(v / p)
  got = de.decompress(reference_encode(q, ps))
  vh.expect(got.shape == shape and np.allclose(got, q * np.array([f32(s) for s in ps]), rtol=1e-12, atol=0), "stored-data", lambda: "%s decoded as %s" % (q.tolist(), got.tolist()))
  # Again from the restored image: the precision is stored as a float, so this is exact for moderate counts.
  if np.abs(q).max() < 2e6:
    again = de.decompress(de.compress(back.copy(), prec))
    vh.expect(np.allclose(again, back, rtol=1e-9, atol=0), "again", lambda: "%s became %s" % (back.tolist(), again.tolist()))
  else:
    vh.count("delta_huge")
  vh.nontrivial((x.tobytes(), repr(prec)))
  vh.count("delta_pixels", x.size)
  vh.count("delta_zero", (back == 0).sum())
  vh.count("delta_negative", (back < 0).sum())
  vh.count("delta_starts_zero", int(back[0, 0, 0] == 0))
  vh.count("delta_all_zero", int(not back.any()))
  bad = rng.choice([0, -0.1, [0.1] * (shape[2] + 1), [0.1] * (shape[2] - 1) + [0.0], [-1.0] * shape[2], "size"])
  if bad == "size":
    fn = lambda: de.compress(np.zeros((1, 65536, 1)), 0.1)
  else:
    fn = lambda: de.compress(before.copy(), bad)
  vh.expect(vh.refused(fn, ValueError), "refusal", lambda: "%s accepted" % (bad,))
  vh.count("delta_refusals")


def reflect(i, n):
  """Index of the reflected image; the border is not repeated."""
  return i if i < n else 2 * (n - 1) - i


def tiles_of(x, t):
  h, w, c = x.shape
  out = []
  for ty in range(-(-h // t)):
    for tx in range(-(-w // t)):
      out.append([x[reflect(ty * t + i, h), reflect(tx * t + j, w), k] for i in range(t) for j in range(t) for k in range(c)])
  return np.array(out, x.dtype)


def size(rng, t):
  """A size whose padding can be reflected."""
  while True:
    n = rng.choice([t, 2 * t, rng.randint(1, 3 * t)])
    if -n % t <= n - 1:
      return n


def case_tiles(rng):
  r = np.random.RandomState(rng.randrange(1 << 30))
  t = rng.randint(1, 6)
  h, w, c = size(rng, t), size(rng, t), rng.choice([1, 2, 3, 6])
  x = r.randint(-99, 99, (h, w, c)).astype(np.float32)
  vh.crumb((t, x.tolist()))
  vh.nontrivial((x.tobytes(), t))
  got = tiling.extract_tiles(tf.constant(x), t)
  want = tiles_of(x, t)
  vh.expect(tuple(got.shape) == want.shape and (got.numpy() == want).all(), "tiles", lambda: "%s of %s instead of %s" % (got.numpy().tolist(), x.tolist(), want.tolist()))
  back = tiling.combine_tiles(got, h, w, t)
  vh.expect(tuple(back.shape) == x.shape and (back.numpy() == x).all(), "combined-tiles", lambda: "%s instead of %s" % (back.numpy().tolist(), x.tolist()))
  # Tiles of their own: the parts that are padding are not looked at.
  own = r.randint(-99, 99, want.shape).astype(np.float32)
  img = tiling.combine_tiles(tf.constant(own), h, w, t).numpy()
  nx = -(-w // t)
  vh.expect(img.shape == x.shape and all(img[i, j, k] == own[(i // t) * nx + j // t, ((i % t) * t + j % t) * c + k] for i in range(h) for j in range(w) for k in range(c)), "combine", lambda: "%s" % img.tolist())
  vh.count("tiles", len(want))
  vh.count("padded", int(h % t > 0 or w % t > 0))
  if t > 1:
    odd = r.rand(want.shape[0], want.shape[1] + rng.randint(1, t * t - 1)).astype(np.float32)
    vh.expect(vh.refused(lambda: tiling.combine_tiles(tf.constant(odd), h, w, t)), "odd-tiles", "%s" % (odd.shape,))
  off = x + r.uniform(-50, 50, c).astype(np.float32)
  ref, ct = pc.codec_extract_tiles(tf.constant(off), t)
  m = off.astype(float).reshape(-1, c).mean(axis=0)
  vh.expect(tuple(ref.shape) == (c,) and np.allclose(ref.numpy(), m, rtol=1e-4, atol=1e-4), "reference", lambda: "%s instead of %s" % (ref.numpy(), m))
  vh.expect(np.allclose(ct.numpy(), tiles_of(off.astype(float) - m, t), rtol=1e-4, atol=1e-3), "relative-tiles", "")
  full = pc.codec_combine_tiles(ref, ct, [h, w, c], t)
  vh.expect(tuple(full.shape) == x.shape and np.allclose(full.numpy(), off, rtol=1e-4, atol=1e-3), "codec-tiles", lambda: "%s instead of %s" % (full.numpy().tolist(), off.tolist()))


def random_config(rng, r, t, c, complete):
  n = t * t * c
  k = n if complete else rng.randint(1, n)
  q, _ = np.linalg.qr(r.normal(size=(n, n)))
  quant = (10 ** r.uniform(-4, 0, k)).tolist()
  return pc.CodecConfig(pca=pc.PcaParams(mean=r.uniform(-2, 2, n).tolist(), std=r.uniform(0.2, 3, n).tolist(), eigen_vectors=q[:k].tolist(), eigen_values=r.uniform(0, 1, k).tolist()), quantization=quant, tile_size=t)


def case_pca(rng):
  r = np.random.RandomState(rng.randrange(1 << 30))
  t = rng.randint(1, 3)
  rays = rng.random() < 0.5
  c = 6 if rays else rng.choice([1, 2, 3])
  complete = rng.random() < 0.6
  cfg = random_config(rng, r, t, c, complete)
  js = cfg.to_json()
  again = pc.CodecConfig.from_json(js)
  vh.expect(again == cfg, "config", lambda: js)
  vh.expect(json.loads(js)["tile_size"] == t, "config-json", lambda: js)
  mean, std, E, quant = np.array(cfg.pca.mean), np.array(cfg.pca.std), np.array(cfg.pca.eigen_vectors), np.array(cfg.quantization)
  f = r.uniform(-9, 9, (rng.randint(1, 4), len(mean)))
  pca = pc.Pca(again.pca)
  co = pca.transform(tf.constant(f)).numpy()
  want = ((f - mean) / std) @ E.T
  vh.expect(co.shape == want.shape and np.allclose(co, want, rtol=1e-9, atol=1e-9), "transform", "")
  inv = pca.inverse_transform(tf.constant(want)).numpy()
  vh.expect(inv.dtype == np.float32 and np.allclose(inv, (want @ E) * std + mean, rtol=1e-5, atol=1e-5), "inverse-transform", "")
  if complete:
    vh.expect(np.allclose(inv, f, rtol=1e-4, atol=1e-4), "inverse", "")
  h, w = size(rng, t), size(rng, t)
  x = r.uniform(-5, 5, (h, w, c)).astype(np.float32)
  big = rng.random() < 0.1
  if big:
    x[rng.randrange(h), rng.randrange(w), rng.randrange(c)] = rng.choice([-1, 1]) * 1e13
  vh.crumb((cfg, x.tolist()))
  vh.nontrivial((x.tobytes(), js))
  codec = pc.Codec(again)
  vh.expect(codec.quantization_dims == len(quant), "quantization-dims", "")
  code = codec.encode(tf.constant(x))
  ref = x.astype(float).reshape(-1, c).mean(axis=0)
  scale = np.abs(x).max()
  vals = ((tiles_of(x.astype(float) - ref, t) - mean) / std) @ E.T / quant
  qv = code.quantized_values.numpy()
  vh.expect(qv.dtype == np.int32 and qv.shape == vals.shape and list(code.shape) == [h, w, c] and tuple(code.reference.shape) == (c,), "code", lambda: "%s" % code)
  clip = np.clip(vals, -2 ** 31, 2 ** 31 - 1)
  tol = 0.5 + 1e-5 * scale * math.sqrt(len(mean)) / std.min() / quant
  vh.expect((np.abs(qv - clip) <= tol + 1e-6 * np.abs(clip)).all(), "quantized", lambda: "%s instead of %s" % (qv.tolist(), clip.tolist()))
  vh.count("saturated", (np.abs(vals) > 2 ** 31).sum())
  back = codec.decode(code)
  # The decoder is judged by the code alone.
  tile = (qv * quant) @ E * std + mean
  nx = -(-w // t)
  dec = np.array([[[tile[(i // t) * nx + j // t, ((i % t) * t + j % t) * c + k] for k in range(c)] for j in range(w)] for i in range(h)]) + code.reference.numpy().astype(float)
  lim = 1e-5 * max(1, np.abs(tile).max(), np.abs(dec).max())
  vh.expect(tuple(back.shape) == x.shape and (np.abs(back.numpy() - dec) <= lim).all(), "decoded", lambda: "%s instead of %s" % (back.numpy().tolist(), dec.tolist()))
  if complete and not big:
    # Each coefficient is off by half a step at most.
    err = (np.abs(E) * (0.5 * quant + 1e-6)[:, None]).sum(axis=0) * std
    vh.expect((np.abs(back.numpy() - x) <= err.max() + 1e-3).all(), "restored", lambda: "off by %s, allowed %s" % (np.abs(back.numpy() - x).max(), err.max()))
    vh.count("restored")
  # A code does not depend on the codec object or on earlier calls.
  code2 = pc.Codec(cfg).encode(tf.constant(x))
  vh.expect((code2.quantized_values.numpy() == qv).all() and (codec.encode(tf.constant(x)).quantized_values.numpy() == qv).all(), "same-code", "")
  b = [rng.randint(1, 9) for _ in range(vals.shape[1])]
  bq = pc.bucketed_quantization(vals, b)
  vh.expect(np.allclose(bq, [max(abs(v) for v in vals[:, i]) / b[i] for i in range(len(b))], rtol=1e-12), "buckets", "")
  vh.count("codes")
  if rays and not big:
    key = v2_base.ObjectAssetKey(segment_context_name="s%d" % rng.randrange(99), frame_timestamp_micros=rng.randrange(1 << 40), laser_object_id="o", camera_name=rng.randint(1, 5))
    img = lambda a: oa.CameraRayImage(values=a.ravel().tolist(), shape=list(a.shape))
    src = oa.ObjectAssetRayComponent(key=key, ray_origin=img(x[..., :3]), ray_direction=img(x[..., 3:]))
    rc = oc.ObjectAssetRayCodec(again)
    z = rc.encode(src)
    vh.expect(z.key == key and list(z.shape) == [h, w, c] and np.array_equal(np.array(z.quantized_values).reshape(qv.shape), qv) and np.allclose(z.reference, code.reference.numpy(), rtol=1e-6), "ray-code", lambda: "%s" % z)
    vh.expect(all(type(v) is int for v in z.quantized_values) and all(type(v) is float for v in z.reference), "ray-code-types", "")
    # Through the columns of a file.
    z = oa.ObjectAssetRayCompressedComponent.from_dict(dict(z.to_flatten_dict()))
    o = rc.decode(z)
    u = back.numpy()
    vh.expect(o.key == key and list(o.ray_origin.shape) == [h, w, 3] and list(o.ray_direction.shape) == [h, w, 3], "ray-shapes", "")
    vh.expect(np.allclose(np.array(o.ray_origin.values).reshape(h, w, 3), u[..., :3], rtol=1e-5, atol=1e-5) and np.allclose(np.array(o.ray_direction.values).reshape(h, w, 3), u[..., 3:], rtol=1e-5, atol=1e-5), "rays", "")
    vh.count("rays")
    rows = [dict(src.to_flatten_dict()), dict(o.to_flatten_dict())]
    got = list(oc.iter_ray_samples(pd.DataFrame(rows)))
    vh.expect(len(got) == 2 and (got[0] == x).all() and np.allclose(got[1], u, rtol=1e-5, atol=1e-5), "ray-samples", "")
    vh.expect(vh.refused(lambda: rc.encode(oa.ObjectAssetRayComponent(key=key, ray_origin=None, ray_direction=img(x[..., 3:])))), "no-rays", "")


def interval(o, d, half):
  """Where a ray is in the box, or None."""
  lo, hi = -math.inf, math.inf
  for a, b, c in zip(o, d, half):
    if b == 0:
      if abs(a) > c:
        return None
      continue
    s, e = sorted(((-c - a) / b, (c - a) / b))
    lo, hi = max(lo, s), min(hi, e)
  return (lo, hi) if lo <= hi and hi > 0 else None


def case_rays(rng):
  r = np.random.RandomState(rng.randrange(1 << 30))
  dt = rng.choice([np.float64, np.float32])
  n = rng.randint(1, 12)
  dim = r.uniform(0.3, 6, 3)
  o = r.uniform(-8, 8, (n, 3)) * (r.rand(n, 1) < 0.7 if rng.random() < 0.2 else 1)
  d = r.normal(size=(n, 3))
  for i in range(n):
    k = rng.randrange(5)
    if k == 0:
      d[i] = 0
      d[i, rng.randrange(3)] = rng.choice([-1, 1])
    elif k == 1:
      d[i, rng.randrange(3)] = rng.choice([0.0, -0.0])
    elif k == 2:
      d[i] = r.uniform(-0.5, 0.5, 3) * dim - o[i]
    elif k == 3:
      o[i] = r.uniform(-0.49, 0.49, 3) * dim
    d[i] /= np.linalg.norm(d[i])
  o, d, dim = o.astype(dt), d.astype(dt), dim.astype(dt)
  keep = o.copy(), d.copy(), dim.copy()
  vh.crumb((o.tolist(), d.tolist(), dim.tolist()))
  vh.nontrivial((o.tobytes(), d.tobytes(), dim.tobytes()))
  flag, t0, t1 = ou.get_ray_box_intersects(o, d, dim)
  vh.expect((o == keep[0]).all() and (d == keep[1]).all() and (dim == keep[2]).all(), "rays-changed", "")
  vh.expect(flag.shape == (n,) and flag.dtype == bool and t0.shape == (n,) and t1.shape == (n,), "intersections", "")
  eps = 1e-4 if dt is np.float32 else 1e-8
  for i in range(n):
    oo, dd, half = o[i].astype(float), d[i].astype(float), 0.5 * dim.astype(float)
    w = interval(oo, dd, half)
    inner, outer = interval(oo, dd, half - eps), interval(oo, dd, half + eps)
    at = lambda: "from %s along %s, box %s: %s %s %s, expected %s" % (oo, dd, dim, flag[i], t0[i], t1[i], w)
    # Rays along a face or that end on one may be told either way.
    if (w is None) != (inner is None) or (w is None) != (outer is None) or (w and w[1] < eps) or any(0 < abs(q) < 1e-3 for q in dd):
      vh.count("grazing")
      continue
    vh.expect(bool(flag[i]) == (w is not None), "intersects", at)
    if w is not None and flag[i]:
      tol = 1e-3 if dt is np.float32 else 1e-7
      tol *= (1 + abs(w[0]) + abs(w[1])) / max(1e-3, min(abs(q) for q in dd if q))
      vh.expect(abs(t0[i] - w[0]) <= tol and abs(t1[i] - w[1]) <= tol, "distances", at)
      vh.expect((t0[i] < 0) == (w[0] < 0) or abs(w[0]) <= tol, "inside", at)
      vh.count("hits")
      vh.count("inside", int(w[0] < 0))
    elif w is None and not flag[i]:
      vh.expect(t0[i] <= 0 and t1[i] <= 0, "miss-distances", at)
      vh.count("misses")


def case_frames(rng):
  r = np.random.RandomState(rng.randrange(1 << 30))
  dt = rng.choice([np.float64, np.float32])
  n = rng.randint(0, 6)
  p = r.uniform(-20, 20, (n, 3)).astype(dt)
  box = np.concatenate([r.uniform(-20, 20, 3), r.uniform(0.1, 5, 3), [rng.choice([0, math.pi, -math.pi / 2, rng.uniform(-7, 7)])]]).astype(rng.choice([np.float64, np.float32]))
  T = np.eye(4)
  T[:3, :3] = np.linalg.qr(r.normal(size=(3, 3)))[0] if rng.random() < 0.8 else r.normal(size=(3, 3))
  T[:3, 3] = r.uniform(-30, 30, 3)
  keep = p.copy(), box.copy(), T.copy()
  vh.crumb((p.tolist(), box.tolist(), T.tolist()))
  vh.nontrivial((p.tobytes(), box.tobytes(), T.tobytes()))
  tol = 1e-4 if np.float32 in (dt, box.dtype.type) else 1e-9

  def check(name, got, want):
    vh.expect(got.shape == (n, 3) and got.dtype == dt, name + "-shape", lambda: "%s %s" % (got.shape, got.dtype))
    vh.expect(np.allclose(got, np.array(want).reshape(n, 3), rtol=tol, atol=tol * 10), name, lambda: "%s instead of %s" % (got.tolist(), want))
    vh.expect((p == keep[0]).all() and (box == keep[1]).all() and (T == keep[2]).all(), name + "-input-changed", "")

  h = float(box[6])
  c, s = math.cos(h), math.sin(h)
  cx, cy, cz = (float(v) for v in box[:3])
  q = [[float(v) for v in row] for row in p]
  check("to-frame", ou.transform_points_to_frame(p, T), [[sum(T[i, j] * v[j] for j in range(3)) + T[i, 3] for i in range(3)] for v in q])
  check("directions-to-frame", ou.transform_directions_to_frame(p, T), [[sum(T[i, j] * v[j] for j in range(3)) for i in range(3)] for v in q])
  check("rotate", ou.rotate_points_along_z(p, h), [[c * x - s * y, s * x + c * y, z] for x, y, z in q])
  check("to-box", ou.transform_points_to_box_coord(p, box), [[c * (x - cx) + s * (y - cy), -s * (x - cx) + c * (y - cy), z - cz] for x, y, z in q])
  check("directions-to-box", ou.transform_directions_to_box_coord(p, box), [[c * x + s * y, -s * x + c * y, z] for x, y, z in q])
  check("from-box", ou.transform_points_to_box_coord_reverse(p, box), [[c * x - s * y + cx, s * x + c * y + cy, z + cz] for x, y, z in q])
  check("box-round-trip", ou.transform_points_to_box_coord_reverse(ou.transform_points_to_box_coord(p, box), box), q)
  vh.count("points", n)


if __name__ == "__main__":
  vh.main([("delta", 1.0, case_delta), ("tiles", 0.5, case_tiles), ("pca", 0.5, case_pca), ("rays", 1.0, case_rays), ("frames", 0.7, case_frames)])
