"""Features of simulated agents: geometry, interactions, map, traffic lights (C24)."""
import itertools
import math

import numpy as np
import tensorflow as tf

import vh
from waymo_open_dataset.protos import map_pb2
from waymo_open_dataset.utils import geometry_utils
from waymo_open_dataset.wdl_limited.sim_agents_metrics import interaction_features
from waymo_open_dataset.wdl_limited.sim_agents_metrics import map_metric_features
from waymo_open_dataset.wdl_limited.sim_agents_metrics import traffic_light_features
from waymo_open_dataset.wdl_limited.sim_agents_metrics import trajectory_features

BIG = 1e10


def f32(v):
  return np.asarray(v, np.float32)


def d64(v):
  return np.asarray(v, np.float32).astype(np.float64)


def wrap(a):
  a = math.fmod(a, 2 * math.pi)
  return a - 2 * math.pi if a > math.pi else a + 2 * math.pi if a < -math.pi else a


# --- geometry ---------------------------------------------------------------


def corners(x, y, length, width, heading):
  c, s = math.cos(heading), math.sin(heading)
  return [(x + a * length / 2 * c - b * width / 2 * s, y + a * length / 2 * s + b * width / 2 * c) for a, b in ((1, 1), (-1, 1), (-1, -1), (1, -1))]


def point_segment(p, a, b):
  dx, dy = b[0] - a[0], b[1] - a[1]
  l2 = dx * dx + dy * dy
  t = 0.0 if l2 == 0 else min(1.0, max(0.0, ((p[0] - a[0]) * dx + (p[1] - a[1]) * dy) / l2))
  return math.hypot(p[0] - a[0] - t * dx, p[1] - a[1] - t * dy)


def rect_signed_distance(ra, rb):
  """Distance of two turned rectangles; if they overlap, minus the depth of it."""
  ca, cb = corners(*ra), corners(*rb)
  gap = -math.inf
  for h in (ra[4], ra[4] + math.pi / 2, rb[4], rb[4] + math.pi / 2):
    ux, uy = math.cos(h), math.sin(h)
    pa, pb = [x * ux + y * uy for x, y in ca], [x * ux + y * uy for x, y in cb]
    gap = max(gap, min(pb) - max(pa), min(pa) - max(pb))
  if gap <= 0:
    return gap
  best = math.inf
  for p, q in ((ca, cb), (cb, ca)):
    for v in p:
      for i in range(4):
        best = min(best, point_segment(v, q[i], q[(i + 1) % 4]))
  return best


# --- random scenes ----------------------------------------------------------


def random_scene(rng, n, t, far=15.0):
  base = rng.choice([0.0, 0.0, 2000.0])
  scene = {k: [] for k in ("x", "y", "z", "l", "w", "h", "yaw")}
  for _ in range(n):
    kind = rng.random()
    yaw0 = rng.choice([0.0, math.pi, -math.pi, math.pi / 2, rng.uniform(-math.pi, math.pi), rng.uniform(-math.pi, math.pi)])
    v = rng.choice([0.0, rng.uniform(0, 30), rng.uniform(0, 5)])
    turn = rng.choice([0.0, rng.uniform(-0.3, 0.3)])
    x, y, z = base + rng.uniform(-far, far), -base + rng.uniform(-far, far), rng.uniform(-1, 1)
    l, w = (rng.uniform(3, 12), rng.uniform(1.5, 3)) if kind < 0.6 else (rng.uniform(0.4, 1), rng.uniform(0.4, 1.2))
    if rng.random() < 0.1:
      w = l
    row = {k: [] for k in scene}
    yaw = yaw0
    for _ in range(t):
      for k, val in zip(("x", "y", "z", "l", "w", "h", "yaw"), (x, y, z, l, w, rng.uniform(1, 2), wrap(yaw))):
        row[k].append(val)
      x, y, yaw, z = x + v * 0.1 * math.cos(yaw), y + v * 0.1 * math.sin(yaw), yaw + turn, z + rng.uniform(-0.1, 0.1)
      v = max(0.0, v + rng.uniform(-0.5, 0.5))
    for k in scene:
      scene[k].append(row[k])
  return {k: f32(v) for k, v in scene.items()}


def random_mask(rng, n):
  m = [rng.random() < 0.6 for _ in range(n)]
  if not any(m):
    m[rng.randrange(n)] = True
  return np.array(m)


def random_valid(rng, n, t):
  p = rng.choice([1.0, 0.8, 0.5])
  return np.array([[rng.random() < p for _ in range(t)] for _ in range(n)], bool)


def tens(a):
  return tf.constant(a)


# --- kinematics -------------------------------------------------------------


def case_kinematics(rng):
  n, t = rng.randint(1, 5), rng.randint(2, 12)
  s = random_scene(rng, n, t)
  dt = rng.choice([0.1, 0.1, 0.5, 1.0])
  if rng.random() < 0.5:  # Arbitrary, not driven.
    s["yaw"] = f32([[rng.uniform(-math.pi, math.pi) for _ in range(t)] for _ in range(n)])
  vh.crumb(dict(x=s["x"].tolist(), yaw=s["yaw"].tolist(), dt=dt))
  got = [np.asarray(a.numpy(), np.float64) for a in trajectory_features.compute_kinematic_features(tens(s["x"]), tens(s["y"]), tens(s["z"]), tens(s["yaw"]), dt)]
  vh.nontrivial(s["x"].tobytes() + s["yaw"].tobytes())
  x, y, z, yaw = (d64(s[k]) for k in ("x", "y", "z", "yaw"))
  tol = 3e-3 if np.abs(x).max() > 500 else 2e-4
  for o in range(n):
    speed, dh = [math.nan] * t, [math.nan] * t
    for i in range(1, t - 1):
      speed[i] = math.sqrt(sum((c[o, i + 1] - c[o, i - 1])**2 for c in (x, y, z))) / (2 * dt)
      dh[i] = wrap(yaw[o, i + 1] - yaw[o, i - 1]) / (2 * dt)
    for i in range(t):
      for name, g, want, edge in (("linear speed", got[0][o, i], speed[i], False), ("angular speed", got[2][o, i], dh[i], abs(abs(dh[i] * 2 * dt) - math.pi) < 1e-3)):
        if edge:
          vh.expect(vh.near(abs(g), abs(want), 0.02 / dt, 1e-3), "angular-speed", lambda: "%r for %r" % (g, want))
          continue
        vh.expect(vh.near(g, want, tol / dt, 1e-4), name.replace(" ", "-"), lambda: "%s of object %d at step %d is %r instead of %r" % (name, o, i, g, want))
        vh.count("speeds")
      inner = 2 <= i <= t - 3
      acc = (speed[i + 1] - speed[i - 1]) / (2 * dt) if inner else math.nan
      vh.expect(vh.near(got[1][o, i], acc, 2 * tol / dt / dt, 1e-3), "linear-acceleration", lambda: "%r instead of %r at step %d of %d" % (got[1][o, i], acc, i, t))
      if not inner:
        vh.expect(math.isnan(got[3][o, i]), "angular-acceleration", lambda: "%r at step %d of %d" % (got[3][o, i], i, t))
      else:
        step = (dh[i + 1] - dh[i - 1]) * dt
        if abs(abs(step) - math.pi) > 1e-3 and all(abs(abs(dh[j] * 2 * dt) - math.pi) > 1e-3 for j in (i - 1, i + 1)):
          want = wrap(step) / (2 * dt * dt)
          vh.expect(vh.near(got[3][o, i], want, 2e-4 / dt / dt, 1e-3), "angular-acceleration", lambda: "%r instead of %r at step %d of %d" % (got[3][o, i], want, i, t))
          vh.count("accelerations")
  valid = random_valid(rng, n, t)
  sv, av = (a.numpy() for a in trajectory_features.compute_kinematic_validity(tens(valid)))
  for o in range(n):
    want_s = [0 < i < t - 1 and bool(valid[o, i - 1] and valid[o, i + 1]) for i in range(t)]
    want_a = [0 < i < t - 1 and want_s[i - 1] and want_s[i + 1] for i in range(t)]
    vh.expect(sv[o].tolist() == want_s and av[o].tolist() == want_a, "kinematic-validity", lambda: "%s gives %s, %s" % (valid[o].tolist(), sv[o].tolist(), av[o].tolist()))
    vh.count("validities", t)
  ref = random_scene(rng, n, t)
  de = trajectory_features.compute_displacement_error(tens(s["x"]), tens(s["y"]), tens(s["z"]), tens(ref["x"]), tens(ref["y"]), tens(ref["z"])).numpy()
  want = np.sqrt(sum((d64(s[k]) - d64(ref[k]))**2 for k in "xyz"))
  vh.expect(vh.close(de, want, 1e-3, 1e-5), "displacement", lambda: "%s instead of %s" % (de.tolist(), want.tolist()))


# --- distance to the nearest object -----------------------------------------


def case_nearest(rng):
  n, t = rng.randint(1, 6), rng.randint(1, 6)
  s = random_scene(rng, n, t, far=rng.choice([4.0, 12.0, 40.0]))
  for k in "xy":  # Interactions are computed on coordinates of any size; the float32 grid is checked apart.
    s[k] = f32(s[k] - f32(s[k]).mean().round())
  mask, valid = random_mask(rng, n), random_valid(rng, n, t)
  factor = rng.choice([None, None, 0.0, 0.3, 0.9])
  vh.crumb(dict({k: v.tolist() for k, v in s.items()}, mask=mask.tolist(), valid=valid.tolist(), factor=factor))
  kw = {} if factor is None else dict(corner_rounding_factor=factor)
  got = interaction_features.compute_distance_to_nearest_object(
      center_x=tens(s["x"]), center_y=tens(s["y"]), center_z=tens(s["z"]), length=tens(s["l"]), width=tens(s["w"]), height=tens(s["h"]), heading=tens(s["yaw"]),
      valid=tens(valid), evaluated_object_mask=tens(mask), **kw).numpy()
  vh.nontrivial(s["x"].tobytes() + s["yaw"].tobytes())
  rows = [o for o in range(n) if mask[o]]
  if not vh.expect(got.shape == (len(rows), t), "nearest-shape", lambda: "%s for %d x %d" % (got.shape, len(rows), t)):
    return
  q = {k: d64(v) for k, v in s.items()}
  r = 0.7 if factor is None else factor
  for i, o in enumerate(rows):
    for j in range(t):
      want = BIG
      for p in range(n):
        if p == o or not valid[o, j] or not valid[p, j]:
          continue
        shrink = [min(q["l"][a, j], q["w"][a, j]) * r / 2 for a in (o, p)]
        rect = [(q["x"][a, j], q["y"][a, j], q["l"][a, j] - 2 * sh, q["w"][a, j] - 2 * sh, q["yaw"][a, j]) for a, sh in zip((o, p), shrink)]
        want = min(want, rect_signed_distance(*rect) - sum(shrink))
      vh.count("no_neighbour" if want == BIG else "colliding" if want < 0 else "apart")
      vh.expect(vh.near(got[i, j], want, 2e-3, 1e-4), "nearest-object", lambda: "object %d at step %d: %r instead of %r" % (o, j, got[i, j], want))


# --- time to collision ------------------------------------------------------


def case_ttc(rng):
  n, t = rng.randint(1, 6), rng.randint(3, 8)
  s = random_scene(rng, n, t, far=8.0)
  seam = rng.choice([0.0, math.pi, -math.pi, rng.uniform(-math.pi, math.pi)])
  if rng.random() < 0.8:  # A platoon.
    at = 0.0
    for o in range(n):
      yaw = seam + rng.choice([0.0, rng.uniform(-0.2, 0.2), rng.uniform(-1.5, 1.5)])
      v, side = rng.uniform(0, 25), rng.choice([0.0, rng.uniform(-3, 3)])
      at += rng.uniform(3, 20)
      for i in range(t):
        d = at + v * 0.1 * i
        s["x"][o, i] = d * math.cos(seam) - side * math.sin(seam)
        s["y"][o, i] = d * math.sin(seam) + side * math.cos(seam)
        s["yaw"][o, i] = wrap(yaw)
  else:
    for k in "xy":
      s[k] = f32(s[k] - s[k].mean().round())
  mask, valid = random_mask(rng, n), random_valid(rng, n, t)
  dt = 0.1
  vh.crumb(dict({k: v.tolist() for k, v in s.items()}, mask=mask.tolist(), valid=valid.tolist()))
  got = interaction_features.compute_time_to_collision_with_object_in_front(
      center_x=tens(s["x"]), center_y=tens(s["y"]), length=tens(s["l"]), width=tens(s["w"]), heading=tens(s["yaw"]), valid=tens(valid), evaluated_object_mask=tens(mask),
      seconds_per_step=dt).numpy()
  vh.nontrivial(s["x"].tobytes() + s["yaw"].tobytes())
  rows = [o for o in range(n) if mask[o]]
  if not vh.expect(got.shape == (len(rows), t), "ttc-shape", lambda: "%s for %d x %d" % (got.shape, len(rows), t)):
    return
  q = {k: d64(v) for k, v in s.items()}

  def speed(a, j):
    return math.hypot(q["x"][a, j + 1] - q["x"][a, j - 1], q["y"][a, j + 1] - q["y"][a, j - 1]) / (2 * dt) if 0 < j < t - 1 else math.nan

  for i, o in enumerate(rows):
    for j in range(t):
      if not valid[o, j]:
        continue
      ahead, unsure = [], False
      for p in range(n):
        if not valid[p, j] or p == o:
          continue
        dy = wrap(q["yaw"][p, j] - q["yaw"][o, j])
        c, sn = math.cos(q["yaw"][o, j]), math.sin(q["yaw"][o, j])
        rx, ry = q["x"][p, j] - q["x"][o, j], q["y"][p, j] - q["y"][o, j]
        pts = [(a * q["l"][p, j] / 2 * math.cos(dy) - b * q["w"][p, j] / 2 * math.sin(dy), a * q["l"][p, j] / 2 * math.sin(dy) + b * q["w"][p, j] / 2 * math.cos(dy))
               for a, b in itertools.product((1, -1), (1, -1))]
        lon = rx * c + ry * sn + min(a for a, _ in pts) - q["l"][o, j] / 2
        lat = abs(-rx * sn + ry * c) - max(b for _, b in pts) - q["w"][o, j] / 2
        diff = abs(dy)
        tests = (lon > 0, lat < 0, diff <= math.radians(75), lat < -0.5 or diff <= math.radians(10))
        if all(tests):
          ahead.append((lon, p))
        if min(abs(lon), abs(lat), abs(diff - math.radians(75)), abs(lat + 0.5), abs(diff - math.radians(10))) < 2e-3:
          unsure = True
      ahead.sort()
      if unsure or len(ahead) > 1 and ahead[1][0] - ahead[0][0] < 1e-3:
        continue
      want = 5.0
      if ahead:
        lon, p = ahead[0]
        rel = speed(o, j) - speed(p, j)
        if rel == rel and abs(rel) < 1e-2:
          continue
        if rel > 0:
          want = min(5.0, lon / rel)
          tol = 3e-3 + want * 2e-3 / rel
          vh.count("closing" if want < 5 else "far_ahead")
          if dy_seam(q["yaw"][p, j], q["yaw"][o, j]):
            vh.count("across_seam")
          vh.expect(vh.near(got[i, j], want, tol, 1e-3), "time-to-collision", lambda: "object %d at step %d behind %d: %r instead of %r" % (o, j, p, got[i, j], want))
          continue
        vh.count("falling_behind" if rel == rel else "unknown_speed")
      else:
        vh.count("free_road")
      vh.expect(vh.near(got[i, j], 5.0, 1e-4), "time-to-collision", lambda: "object %d at step %d, %s ahead: %r instead of 5" % (o, j, ahead, got[i, j]))


def dy_seam(a, b):
  return round((a - b - wrap(a - b)) / (2 * math.pi))


# --- road edges -------------------------------------------------------------


def ring(rng, cx, cy, r, k, z, ccw=True):
  ang = sorted(rng.uniform(0, 2 * math.pi) for _ in range(k))
  ang = [a for i, a in enumerate(ang) if i == 0 or a - ang[i - 1] > 0.25]
  if len(ang) < 3 or any((ang[(i + 1) % len(ang)] - a) % (2 * math.pi) > 2.8 for i, a in enumerate(ang)):
    ang = [2 * math.pi * i / 5 + 0.2 for i in range(5)]
  rad = [r * rng.uniform(0.6, 1.0) for _ in ang]
  pts = [(cx + q * math.cos(a), cy + q * math.sin(a), z + rng.uniform(-0.1, 0.1)) for a, q in zip(ang, rad)]
  if not ccw:
    pts.reverse()
  shift = rng.randrange(len(pts))
  pts = pts[shift:] + pts[:shift]
  end = pts[0]
  if rng.random() < 0.4:
    # Closed up to a gap: cyclic below one square meter.
    gap, way = rng.choice([0.2, 0.6, 0.9, 1.15, 1.6]), math.atan2(pts[-1][1] - end[1], pts[-1][0] - end[0]) + rng.uniform(-0.6, 0.6)
    end = (end[0] + gap * math.cos(way), end[1] + gap * math.sin(way), end[2])
  return pts + [end]


def open_line(rng, k, z):
  x, y, h = rng.uniform(-20, 20), rng.uniform(-20, 20), rng.uniform(-math.pi, math.pi)
  pts = []
  for _ in range(k):
    pts.append((x, y, z + rng.uniform(-0.1, 0.1)))
    step = rng.uniform(2.5, 10)
    x, y, h = x + step * math.cos(h), y + step * math.sin(h), h + rng.uniform(-1.2, 1.2)
  return pts


def edge_candidates(p, lines, stretch=3.0, eps=2e-3):
  """Signed distances to the (almost) nearest segments."""
  found = []
  for line in lines:
    k = len(line) - 1
    cyc = sum((a - b)**2 for a, b in zip(line[0], line[-1])) < 1.0
    for i in range(k):
      a, b = line[i], line[i + 1]
      dx, dy = b[0] - a[0], b[1] - a[1]
      l2 = dx * dx + dy * dy
      rel = ((p[0] - a[0]) * dx + (p[1] - a[1]) * dy) / l2
      u = min(1.0, max(0.0, rel))
      ex, ey, ez = p[0] - a[0] - u * dx, p[1] - a[1] - u * dy, p[2] - a[2] - u * (b[2] - a[2])
      off = (p[0] - a[0]) * dy - (p[1] - a[1]) * dx  # Above zero on the starboard side.
      side = math.copysign(1.0, off)
      firm = abs(off) / math.sqrt(l2) > 1e-3
      other = None
      if rel < 0 and (i > 0 or cyc):
        other = (line[i - 1], line[i]) if i > 0 else (line[k - 1], line[k])
      elif rel > 1 and (i < k - 1 or cyc):
        other = (line[i + 1], line[i + 2]) if i < k - 1 else (line[0], line[1])
      if other:
        ox, oy = other[1][0] - other[0][0], other[1][1] - other[0][1]
        off2 = (p[0] - other[0][0]) * oy - (p[1] - other[0][1]) * ox
        side2 = math.copysign(1.0, off2)
        turn = (ox * dy - oy * dx) if rel < 0 else (dx * oy - dy * ox)
        firm = firm and abs(off2) / math.hypot(ox, oy) > 1e-3 and (side == side2 or abs(turn) > 1e-3)
        side = max(side, side2) if turn > 0 else min(side, side2)
      found.append((math.sqrt(ex * ex + ey * ey + (ez * stretch)**2), math.hypot(ex, ey), side, firm))
  best = min(f[0] for f in found)
  out = set()
  for d3, d2, side, firm in found:
    if d3 <= best + eps:
      out.add(side * d2)
      if not firm:
        out.add(-side * d2)
  return out


def case_edges(rng):
  n, t = rng.randint(1, 4), rng.randint(1, 5)
  s = random_scene(rng, n, t, far=15.0)
  for k in "xy":
    s[k] = f32(s[k] - s[k].mean().round() + rng.uniform(-10, 10))
  lines = []
  for _ in range(rng.randint(1, 4)):
    z = rng.choice([0.0, 0.0, 6.0])
    kind = rng.random()
    if kind < 0.45:
      lines.append(ring(rng, rng.uniform(-12, 12), rng.uniform(-12, 12), rng.uniform(5, 25), rng.randint(4, 9), z, rng.random() < 0.6))
    elif kind < 0.8:
      lines.append(open_line(rng, rng.randint(2, 12), z))
    elif kind < 0.95:  # A ramp that ends above its start: not closed.
      l, up = ring(rng, rng.uniform(-12, 12), rng.uniform(-12, 12), rng.uniform(5, 25), rng.randint(4, 9), z, True), rng.choice([-1, 1]) * rng.uniform(1.2, 5)
      lines.append([(x, y, c + up * i / (len(l) - 1)) for i, (x, y, c) in enumerate(l)])
      vh.count("ramps")
    else:
      lines.append([(rng.uniform(-9, 9), rng.uniform(-9, 9), 0.0)] * rng.randint(0, 1))
  if all(len(l) < 2 for l in lines):
    lines.append(open_line(rng, 3, 0.0))
  rng.shuffle(lines)
  polylines = [[map_pb2.MapPoint(x=p[0], y=p[1], z=p[2]) for p in l] for l in lines]
  lines = [[tuple(d64(p).tolist()) for p in l] for l in lines if len(l) >= 2]
  mask, valid = random_mask(rng, n), random_valid(rng, n, t)
  vh.crumb(dict({k: v.tolist() for k, v in s.items()}, mask=mask.tolist(), lines=lines))
  got = map_metric_features.compute_distance_to_road_edge(
      center_x=tens(s["x"]), center_y=tens(s["y"]), center_z=tens(s["z"]), length=tens(s["l"]), width=tens(s["w"]), height=tens(s["h"]), heading=tens(s["yaw"]),
      valid=tens(valid), evaluated_object_mask=tens(mask), road_edge_polylines=polylines).numpy()
  vh.nontrivial(s["x"].tobytes() + repr(lines).encode())
  rows = [o for o in range(n) if mask[o]]
  if not vh.expect(got.shape == (len(rows), t), "edge-shape", lambda: "%s for %d x %d" % (got.shape, len(rows), t)):
    return
  q = {k: d64(v) for k, v in s.items()}
  longest = max(len(l) for l in lines)
  if any(len(l) < longest and l[0] == l[-1] for l in lines):
    vh.count("short_rings")
  if any(l[0] != l[-1] and math.dist(l[0], l[-1]) < 1 for l in lines):
    vh.count("rings_with_a_gap")
  for i, o in enumerate(rows):
    for j in range(t):
      if not valid[o, j]:
        vh.expect(vh.near(got[i, j], -BIG, 0, 1e-6), "edge-invalid", lambda: "%r for an invalid state" % got[i, j])
        continue
      opts = [sorted(edge_candidates((x, y, q["z"][o, j] - q["h"][o, j] / 2), lines)) for x, y in corners(q["x"][o, j], q["y"][o, j], q["l"][o, j], q["w"][o, j], q["yaw"][o, j])]
      lo, hi = max(c[0] for c in opts), max(c[-1] for c in opts)
      vals = [v for c in opts for v in c]
      vh.count("off_road" if lo > 0 else "on_road" if hi < 0 else "edge_unclear")
      vh.expect(lo - 3e-3 <= got[i, j] <= hi + 3e-3 and min(abs(v - got[i, j]) for v in vals) < 4e-3, "road-edge",
                lambda: "object %d at step %d: %r; corners allow %s" % (o, j, float(got[i, j]), [[round(v, 4) for v in c] for c in opts]))
  if rng.random() < 0.1:
    kw = dict(center_x=tens(s["x"]), center_y=tens(s["y"]), center_z=tens(s["z"]), length=tens(s["l"]), width=tens(s["w"]), height=tens(s["h"]), heading=tens(s["yaw"]),
              valid=tens(valid), evaluated_object_mask=tens(mask))
    vh.expect(vh.refused(lambda: map_metric_features.compute_distance_to_road_edge(road_edge_polylines=[], **kw), ValueError), "edges-missing", "no road edges accepted")
    vh.expect(vh.refused(lambda: map_metric_features.tensorize_polylines(polylines, [1] * (len(polylines) + 1)), ValueError), "ids-mismatch", "ids of another number accepted")
    vh.count("refused")


# --- red lights -------------------------------------------------------------

STOPS = (map_pb2.TrafficSignalLaneState.LANE_STATE_ARROW_STOP, map_pb2.TrafficSignalLaneState.LANE_STATE_STOP)


def nearest_segments(p, lines, eps=2e-3):
  """(lane index, segment index) of the (almost) nearest segments."""
  found = [(point_segment(p, l[i], l[i + 1]), k, i) for k, l in enumerate(lines) for i in range(len(l) - 1)]
  best = min(f[0] for f in found)
  return [(k, i) for d, k, i in found if d <= best + eps]


def case_lights(rng):
  t = rng.randint(2, 10)
  nl = rng.randint(1, 4)
  ids = rng.sample(range(1, 60), nl)
  lanes = []
  far = rng.choice([0.0, 0.0, 300.0, 3000.0])
  for _ in range(nl):
    l = [p for p in open_line(rng, rng.randint(2, 7), 0.0)]
    dx, dy = far * rng.uniform(0.5, 1), far * rng.uniform(-1, -0.5)
    lanes.append(l)
  if far:
    lanes = [[(x + far, y - 0.7 * far, z) for x, y, z in l] for l in lanes]
  lanes = [[tuple(d64(p).tolist()) for p in l] for l in lanes]
  polylines = [[map_pb2.MapPoint(x=p[0], y=p[1], z=p[2]) for p in l] for l in lanes]
  all_ids = list(ids)
  if rng.random() < 0.3:  # Too short to be a lane; skipped.
    at = rng.randrange(nl + 1)
    polylines.insert(at, [map_pb2.MapPoint(x=0.0, y=0.0, z=0.0)] * rng.randint(0, 1))
    all_ids.insert(at, 77)
  n = rng.randint(1, 4)
  x, y = np.zeros((n, t)), np.zeros((n, t))
  for o in range(n):  # Drive along a lane, or close to it.
    l = rng.choice(lanes)
    total = sum(math.dist(l[i][:2], l[i + 1][:2]) for i in range(len(l) - 1))
    d, v, off = rng.uniform(-5, total), rng.uniform(0, 6), rng.choice([0.0, rng.uniform(-2, 2)])
    for i in range(t):
      k, rest = 0, d
      while k < len(l) - 2 and rest > math.dist(l[k][:2], l[k + 1][:2]):
        rest -= math.dist(l[k][:2], l[k + 1][:2])
        k += 1
      h = math.atan2(l[k + 1][1] - l[k][1], l[k + 1][0] - l[k][0])
      x[o, i], y[o, i] = l[k][0] + rest * math.cos(h) - off * math.sin(h), l[k][1] + rest * math.sin(h) + off * math.cos(h)
      d += v if rng.random() < 0.9 else -v
  x, y = f32(x), f32(y)
  sig_ids = rng.sample(ids, rng.choice([nl, nl, rng.randint(0, nl)])) + ([1000] if rng.random() < 0.2 else [])
  stop = {}
  for sid in sig_ids:
    l = lanes[ids.index(sid)] if sid in ids else rng.choice(lanes)
    k = rng.randrange(len(l) - 1)
    u = rng.choice([0.0, rng.random(), rng.random()])
    stop[sid] = tuple(d64([l[k][0] + u * (l[k + 1][0] - l[k][0]) + rng.uniform(-0.3, 0.3), l[k][1] + u * (l[k + 1][1] - l[k][1]) + rng.uniform(-0.3, 0.3)]).tolist())
  signals = []
  red = rng.random()
  state = {sid: 4 if rng.random() < red else rng.randrange(9) for sid in sig_ids}
  for i in range(t):
    here = {}
    for sid in sig_ids:
      if rng.random() < 0.3:
        state[sid] = 4 if rng.random() < red else rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 0])
      if rng.random() < 0.85:
        here[sid] = state[sid]
    signals.append(here)
  mask, valid = random_mask(rng, n), random_valid(rng, n, t) | (rng.random() < 0.3)
  order = lambda d: rng.sample(sorted(d), len(d))
  protos = [[map_pb2.TrafficSignalLaneState(lane=sid, state=s[sid], stop_point=map_pb2.MapPoint(x=stop[sid][0], y=stop[sid][1])) for sid in order(s)] for s in signals]
  vh.crumb(dict(lanes=lanes, ids=ids, x=x.tolist(), y=y.tolist(), signals=signals, stop=stop, valid=valid.tolist(), mask=mask.tolist()))
  call = lambda **kw: traffic_light_features.compute_red_light_violation(**dict(
      dict(center_x=tens(x), center_y=tens(y), valid=tens(valid), evaluated_object_mask=tens(mask), lane_polylines=polylines, lane_ids=all_ids, traffic_signals=protos), **kw))
  got = call().numpy()
  vh.nontrivial(x.tobytes() + repr(signals).encode())
  rows = [o for o in range(n) if mask[o]]
  if not vh.expect(got.shape == (len(rows), t) and got.dtype == bool, "light-shape", lambda: "%s for %d x %d" % (got.shape, len(rows), t)):
    return
  x, y = x.astype(np.float64), y.astype(np.float64)
  eps = 2e-3 if far < 1000 else 0.05
  for i, o in enumerate(rows):
    for j in range(t):
      if j == 0 or not valid[o, j] or not valid[o, j - 1]:
        vh.expect(not got[i, j], "light-invalid", lambda: "violation of object %d at step %d without two valid states" % (o, j))
        vh.count("light_invalid")
        continue
      near = nearest_segments((x[o, j], y[o, j]), lanes, eps)
      answers = set()
      for lane in {k for k, _ in near}:
        sid = ids[lane]
        if signals[j].get(sid) not in STOPS:
          answers.add(False)
          if sid in signals[j]:
            vh.count("other_states")
          continue
        for _, seg in nearest_segments(stop[sid], [lanes[lane]], eps):
          a, b = lanes[lane][seg], lanes[lane][seg + 1]
          dx, dy = b[0] - a[0], b[1] - a[1]
          length = math.hypot(dx, dy)
          along = lambda p: ((p[0] - a[0]) * dx + (p[1] - a[1]) * dy) / length
          rel = [along((x[o, m], y[o, m])) - along(stop[sid]) for m in (j - 1, j)]
          ans = rel[0] < 0 < rel[1]
          answers.add(ans)
          if min(abs(r) for r in rel) < eps:
            answers.add(not ans)
      if len(answers) > 1:
        vh.count("light_unclear")
        continue
      want = answers.pop()
      vh.count("violations" if want else "no_violation")
      vh.expect(bool(got[i, j]) == want, "red-light", lambda: "object %d at step %d: %s instead of %s" % (o, j, bool(got[i, j]), want))
  if rng.random() < 0.1:
    vh.expect(vh.refused(lambda: call(lane_polylines=[], lane_ids=[]), ValueError), "lanes-missing", "no lanes accepted")
    vh.expect(vh.refused(lambda: call(traffic_signals=[]), ValueError), "signals-missing", "no signals accepted")
    vh.expect(vh.refused(lambda: call(lane_ids=all_ids + [1]), ValueError), "ids-mismatch", "ids of another number accepted")
    vh.count("refused")


# --- plane geometry ---------------------------------------------------------


def case_plane(rng):
  n = rng.randint(1, 8)
  a, b = f32([[rng.uniform(-9, 9) for _ in range(2)] for _ in range(n)]), f32([[rng.uniform(-9, 9) for _ in range(2)] for _ in range(n)])
  vh.crumb((a.tolist(), b.tolist()))
  vh.nontrivial(a.tobytes())
  A, B = d64(a), d64(b)
  vh.expect(vh.close(geometry_utils.dot_product_2d(tens(a), tens(b)).numpy(), (A * B).sum(-1), 1e-4, 1e-5), "dot", lambda: "%s" % a.tolist())
  vh.expect(vh.close(geometry_utils.cross_product_2d(tens(a), tens(b)).numpy(), A[:, 0] * B[:, 1] - A[:, 1] * B[:, 0], 1e-4, 1e-5), "cross", lambda: "%s" % a.tolist())
  # Convex polygons around the origin and random points.
  k = rng.randint(3, 8)
  polys, pts, wants = [], [], []
  for _ in range(n):
    ang = sorted(rng.uniform(0, 2 * math.pi) for _ in range(k))
    if min((ang[(i + 1) % k] - ang[i]) % (2 * math.pi) for i in range(k)) < 0.05:
      ang = [2 * math.pi * (i + 0.3) / k for i in range(k)]
    r, c = rng.uniform(1, 8), (rng.uniform(-5, 5), rng.uniform(-5, 5))
    poly = d64([(c[0] + r * math.cos(g), c[1] + r * math.sin(g)) for g in ang])
    p = d64([c[0] + rng.uniform(-10, 10), c[1] + rng.uniform(-10, 10)])
    d = min(point_segment(p, poly[i], poly[(i + 1) % k]) for i in range(k))
    inside = all((poly[(i + 1) % k][0] - poly[i][0]) * (p[1] - poly[i][1]) - (poly[(i + 1) % k][1] - poly[i][1]) * (p[0] - poly[i][0]) > 0 for i in range(k))
    polys.append(poly)
    pts.append(p)
    wants.append(-d if inside else d)
    vh.count("points_inside" if inside else "points_outside")
  got = geometry_utils.signed_distance_from_point_to_convex_polygon(query_points=tens(f32(pts)), polygon_points=tens(f32(polys))).numpy()
  vh.expect(vh.close(got, wants, 2e-3, 1e-4), "polygon-distance", lambda: "%s instead of %s" % (got.tolist(), wants))


if __name__ == "__main__":
  vh.main([("kinematics", 0.6, case_kinematics), ("nearest", 1, case_nearest), ("ttc", 1, case_ttc), ("edges", 1, case_edges), ("lights", 1, case_lights), ("plane", 0.3, case_plane)])
