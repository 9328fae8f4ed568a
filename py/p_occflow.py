"""Occupancy and flow grids, their metrics and pictures (C25)."""
import colorsys
import math

import numpy as np
import tensorflow as tf

import vh
from waymo_open_dataset.protos import occupancy_flow_metrics_pb2 as pb
from waymo_open_dataset.utils import occupancy_flow_data as od
from waymo_open_dataset.utils import occupancy_flow_grids as og
from waymo_open_dataset.utils import occupancy_flow_metrics as om
from waymo_open_dataset.utils import occupancy_flow_renderer as orr
from waymo_open_dataset.utils import occupancy_flow_vis as ov

TYPES = [1, 2, 3]  # Vehicles, pedestrians, cyclists of the Scenario proto.
NAMES = {1: "vehicles", 2: "pedestrians", 3: "cyclists"}


def random_config(rng):
  per = rng.randint(1, 4)
  n = rng.randint(1, 4)
  c = pb.OccupancyFlowTaskConfig(
      num_past_steps=rng.randint(max(0, per - 1), per + 2), num_future_steps=per * n, num_waypoints=n, cumulative_waypoints=rng.random() < 0.5, normalize_sdc_yaw=rng.random() < 0.6,
      grid_height_cells=rng.randint(8, 30), grid_width_cells=rng.randint(8, 30), pixels_per_meter=rng.choice([1.0, 3.2, rng.uniform(0.4, 4)]),
      agent_points_per_side_length=rng.choice([1, 2, 5, 8]), agent_points_per_side_width=rng.choice([1, 2, 4]))
  c.sdc_x_in_grid, c.sdc_y_in_grid = rng.randint(0, c.grid_width_cells), rng.randint(0, c.grid_height_cells)
  return c


def random_inputs(rng, c):
  """The inputs as arrays (float64 for the oracle, converted on the way in)."""
  b, a, r = rng.randint(1, 2), rng.randint(1, 7), rng.randint(1, 30)
  steps = {"past": c.num_past_steps, "current": 1, "future": c.num_future_steps}
  total = sum(steps.values())
  far = max(c.grid_width_cells, c.grid_height_cells) / c.pixels_per_meter
  v = {k: np.zeros((b, a, total)) for k in ("x", "y", "z", "bbox_yaw", "length", "width", "valid")}
  d = {"state/type": np.zeros((b, a)), "state/is_sdc": np.zeros((b, a), np.int64)}
  for i in range(b):
    d["state/is_sdc"][i, rng.randrange(a)] = 1
    ox, oy, oz = (rng.choice([0.0, rng.uniform(-300, 300)]) for _ in range(3))
    for j in range(a):
      d["state/type"][i, j] = rng.choice([1, 1, 1, 2, 3, 4, 0, -1])
      x, y, h, s = rng.uniform(-far, far) / 3, rng.uniform(-far, far) / 3, rng.uniform(-4, 4), rng.choice([0.0, rng.uniform(0, 0.1 * far)])
      turn = rng.choice([0.0, rng.uniform(-0.4, 0.4)])
      l, w = rng.choice([0.0, rng.uniform(0.2, 6)]), rng.uniform(0.2, 3)
      mode = rng.choice(["all", "all", "late", "past", "gaps"])
      for t in range(total):
        for k, q in zip(("x", "y", "z", "bbox_yaw", "length", "width"), (x + ox, y + oy, oz, h, l, w)):
          v[k][i, j, t] = q
        now = c.num_past_steps
        v["valid"][i, j, t] = {"all": 1, "late": t > now, "past": t < now or t > now + 1, "gaps": rng.random() < 0.6}[mode]
        x, y, h = x + s * math.cos(h), y + s * math.sin(h), h + turn
      if d["state/is_sdc"][i, j]:
        v["valid"][i, j, c.num_past_steps] = 1
  v = {k: (q.astype(np.int64) if k == "valid" else q.astype(np.float32)) for k, q in v.items()}
  at = 0
  for name, n in steps.items():
    for k, q in v.items():
      d["state/%s/%s" % (name, k)] = q[:, :, at:at + n]
    at += n
  d["state/type"] = d["state/type"].astype(np.float32)
  sd = [int(np.argmax(d["state/is_sdc"][i])) for i in range(b)]
  xyz = np.stack([np.stack([v[k][i, sd[i], c.num_past_steps] + np.array([rng.uniform(-far, far) for _ in range(r)]) for k in "xyz"], -1) for i in range(b)])
  d["roadgraph_samples/xyz"] = xyz.astype(np.float32)
  d["roadgraph_samples/valid"] = np.array([[[int(rng.random() < 0.8)] for _ in range(r)] for _ in range(b)], np.int64)
  return d, v, sd


class Scene:
  """Points of the agents in the grid, computed in double precision."""

  def __init__(self, d, v, sd, c):
    self.d, self.v, self.sd, self.c = d, v, sd, c
    L, W = c.agent_points_per_side_length, c.agent_points_per_side_width
    self.u = [((0.0 if L == 1 else i / (L - 1) - 0.5), (0.0 if W == 1 else j / (W - 1) - 0.5)) for i in range(L) for j in range(W)]
    self.steps = {"past": range(c.num_past_steps), "current": [c.num_past_steps], "future": range(c.num_past_steps + 1, c.num_past_steps + 1 + c.num_future_steps)}
    self.cache = {}

  def pixel(self, i, x, y):
    """Column and row of a point of the world, None where rounding decides."""
    c, v, s, now = self.c, self.v, self.sd[i], self.c.num_past_steps
    x, y = x - float(v["x"][i, s, now]), y - float(v["y"][i, s, now])
    if c.normalize_sdc_yaw:
      # The vehicle heads up.
      h = float(v["bbox_yaw"][i, s, now])
      x, y = x * math.sin(h) - y * math.cos(h), x * math.cos(h) + y * math.sin(h)
    px, py = x * c.pixels_per_meter, -y * c.pixels_per_meter
    sure = all(abs(q - math.floor(q) - 0.5) > 2e-3 for q in (px, py))
    return (math.floor(px + 0.5) + c.sdc_x_in_grid, math.floor(py + 0.5) + c.sdc_y_in_grid, sure, {(math.floor(px + e) + c.sdc_x_in_grid, math.floor(py + f) + c.sdc_y_in_grid) for e in (0.49, 0.51) for f in (0.49, 0.51)})

  def points(self, i, j, t):
    if (i, j, t) not in self.cache:
      v = self.v
      x, y, h, l, w = (float(v[k][i, j, t]) for k in ("x", "y", "bbox_yaw", "length", "width"))
      ch, sh = math.cos(h), math.sin(h)
      self.cache[i, j, t] = [self.pixel(i, x + ch * l * p - sh * w * q, y + sh * l * p + ch * w * q) for p, q in self.u]
    return self.cache[i, j, t]

  def inside(self, x, y):
    return 0 <= x < self.c.grid_width_cells and 0 <= y < self.c.grid_height_cells

  def shown(self, i, j, future, obs, occ):
    if (obs and occ) or not future:
      return True
    seen = bool(self.v["valid"][i, j, :self.c.num_past_steps + 1].any())
    return seen if obs else not seen

  def occupancy(self, times, kind, obs=True, occ=True):
    """Values and a mask of the pixels to judge."""
    c, v = self.c, self.v
    ts = [t for n in times for t in self.steps[n]]
    b, a = self.d["state/type"].shape
    val = np.zeros((b, c.grid_height_cells, c.grid_width_cells, len(ts)))
    may = np.zeros(val.shape, bool)
    for i in range(b):
      for j in range(a):
        if self.d["state/type"][i, j] != kind or not self.shown(i, j, "future" in times, obs, occ):
          continue
        for n, t in enumerate(ts):
          if v["valid"][i, j, t]:
            for x, y, sure, near in self.points(i, j, t):
              if sure and self.inside(x, y):
                val[i, y, x, n] = 1
              elif not sure:
                for p, q in near:
                  if self.inside(p, q):
                    may[i, q, p, n] = True
    return val, ~may | (val == 1)

  def flow(self, times, kind, obs=True, occ=True):
    c, v = self.c, self.v
    ts = [t for n in times for t in self.steps[n]]
    per = c.num_future_steps // c.num_waypoints
    b, a = self.d["state/type"].shape
    shape = (b, c.grid_height_cells, c.grid_width_cells, len(ts) - per)
    total, num, may = np.zeros(shape + (2,)), np.zeros(shape), np.zeros(shape, bool)
    for i in range(b):
      for j in range(a):
        if self.d["state/type"][i, j] != kind or not self.shown(i, j, "future" in times, obs, occ):
          continue
        for n in range(len(ts) - per):
          t0, t1 = ts[n], ts[n + per]
          if v["valid"][i, j, t0] and v["valid"][i, j, t1]:
            for (x0, y0, s0, _), (x1, y1, s1, near) in zip(self.points(i, j, t0), self.points(i, j, t1)):
              if s0 and s1:
                if self.inside(x1, y1):
                  total[i, y1, x1, n] += (x0 - x1, y0 - y1)
                  num[i, y1, x1, n] += 1
              else:
                for p, q in near | {(x1, y1)}:
                  if self.inside(p, q):
                    may[i, q, p, n] = True
    return total / np.maximum(num, 1)[..., None], ~may


def tensors(d):
  return {k: tf.constant(q) for k, q in d.items()}


def judged(key, got, want, mask, tol=1e-5):
  got = got.numpy()
  if not vh.expect(got.shape == want.shape and got.dtype == np.float32, key + "-shape", lambda: "%s instead of %s" % (got.shape, want.shape)):
    return
  if mask.ndim < got.ndim:
    mask = np.broadcast_to(mask[..., None], got.shape)
  bad = mask & (np.abs(got - want) > tol)
  vh.expect(not bad.any(), key, lambda: "at %s: %s instead of %s (%d pixels)" % (np.argwhere(bad)[0].tolist(), got[bad][0], want[bad][0], bad.sum()))
  vh.count("pixels", mask.sum())


def scene_case(rng):
  c = random_config(rng)
  d, v, sd = random_inputs(rng, c)
  s = Scene(d, v, sd, c)
  inputs = od.add_sdc_fields(tensors(d))
  vh.crumb("%s %s" % (str(c).replace("\n", " "), {k: q.tolist() for k, q in d.items() if "roadgraph" not in k}))
  vh.nontrivial((str(c), v["x"].tobytes(), v["y"].tobytes(), v["valid"].tobytes()))
  return c, d, v, sd, s, inputs


def case_render(rng):
  c, d, v, sd, s, inputs = scene_case(rng)
  now = c.num_past_steps
  for k in ("x", "y", "z", "bbox_yaw"):
    want = [[v[k][i, sd[i], now]] for i in range(len(sd))]
    vh.expect(vh.close(inputs["sdc/current/" + k].numpy(), want), "sdc-fields", lambda: "%s: %s instead of %s" % (k, inputs["sdc/current/" + k].numpy().tolist(), want))
  times = rng.choice([["past"], ["current"], ["future"], ["past", "current"], ["current", "future"], ["past", "current", "future"], ["past", "current", "future"]])
  if times == ["past"] and not c.num_past_steps:
    times = ["current"]
  obs, occ = rng.choice([(True, True), (True, False), (False, True)])
  got = orr.render_occupancy_from_inputs(inputs=inputs, times=times, config=c, include_observed=obs, include_occluded=occ)
  for kind in TYPES:
    want, mask = s.occupancy(times, kind, obs, occ)
    judged("occupancy", got.view(kind), want, mask)
    vh.expect(got.view(kind) is getattr(got, NAMES[kind]), "view", NAMES[kind])
    vh.count("occupied", want.sum())
    vh.count("free", (want == 0).sum())
    vh.count("undecided", (~mask).sum())
  vh.count("observed_only" if not occ else "occluded_only" if not obs else "all_agents")
  vh.expect(vh.refused(lambda: got.view(0), ValueError), "view-type", "accepted")
  if "future" in times:
    vh.expect(vh.refused(lambda: orr.render_occupancy_from_inputs(inputs=inputs, times=times, config=c, include_observed=False, include_occluded=False), ValueError), "nothing-asked", "accepted")
  per = c.num_future_steps // c.num_waypoints
  n = sum(len(s.steps[t]) for t in times)
  if n > per:
    got = orr.render_flow_from_inputs(inputs=inputs, times=times, config=c, include_observed=obs, include_occluded=occ)
    for kind in TYPES:
      want, mask = s.flow(times, kind, obs, occ)
      judged("flow", got.view(kind), want, mask, 1e-4)
      vh.count("moving", (np.abs(want).sum(-1) > 0).sum())
  got = orr.render_roadgraph_from_inputs(inputs, c)
  want = np.zeros((len(sd), c.grid_height_cells, c.grid_width_cells, 1))
  may = np.zeros(want.shape, bool)
  for i in range(len(sd)):
    for p, ok in zip(d["roadgraph_samples/xyz"][i].astype(float), d["roadgraph_samples/valid"][i, :, 0]):
      x, y, sure, near = s.pixel(i, p[0], p[1])
      if ok and sure and s.inside(x, y):
        want[i, y, x, 0] = 1
        vh.count("road_points")
      elif ok and not sure:
        for p, q in near:
          if s.inside(p, q):
            may[i, q, p, 0] = True
      elif ok:
        vh.count("road_points_outside")
  judged("roadgraph", got, want, ~may | (want == 1))
  vh.count("rotated" if c.normalize_sdc_yaw else "not_rotated")


def case_rotate(rng):
  n = rng.randint(1, 6)
  x, y, a = (np.array([[rng.uniform(-50, 50) for _ in range(n)]], np.float32) for _ in range(3))
  vh.crumb((x.tolist(), y.tolist(), a.tolist()))
  vh.nontrivial((x.tobytes(), a.tobytes()))
  gx, gy = orr.rotate_points_around_origin(tf.constant(x), tf.constant(y), tf.constant(a))
  for p, q, h, rx, ry in zip(x[0].tolist(), y[0].tolist(), a[0].tolist(), gx.numpy()[0], gy.numpy()[0]):
    w = complex(p, q) * complex(math.cos(h), math.sin(h))
    vh.expect(abs(w - complex(rx, ry)) < 1e-3, "rotate", lambda: "%s turned by %s: %s" % ((p, q), h, (rx, ry)))
  vh.count("turned_points", n)


def case_steps(rng):
  """The grids of the steps put together from the rendered ones."""
  c, d, v, sd, s, inputs = scene_case(rng)
  g = og.create_ground_truth_timestep_grids(inputs, c)
  for kind in TYPES:
    o = g.view(kind)
    vh.expect(o is getattr(g, NAMES[kind]), "steps-view", NAMES[kind])
    for key, times, obs, occ in (("current_occupancy", ["current"], 1, 1), ("past_occupancy", ["past"], 1, 1), ("future_observed_occupancy", ["future"], 1, 0), ("future_occluded_occupancy", ["future"], 0, 1),
                                 ("all_occupancy", ["past", "current", "future"], 1, 1)):
      if times == ["past"] and not c.num_past_steps:
        continue
      want, mask = s.occupancy(times, kind, obs, occ)
      judged("steps-" + key, getattr(o, key), want, mask)
      vh.count("steps_" + key, want.sum())
    want, mask = s.flow(["past", "current", "future"], kind)
    judged("steps-flow", o.all_flow, want, mask, 1e-4)
    # Every agent in the future is either observed or occluded.
    both = o.future_observed_occupancy.numpy() + o.future_occluded_occupancy.numpy()
    vh.expect(((both > 0) == (o.all_occupancy.numpy()[..., c.num_past_steps + 1:] > 0)).all(), "partition", NAMES[kind])
  vh.expect(vh.refused(lambda: g.view(7), ValueError), "steps-view-type", "accepted")
  if c.num_past_steps:
    vis = og.create_ground_truth_vis_grids(inputs, g, c)
    past = sum(g.view(k).past_occupancy.numpy().astype(float) for k in TYPES)
    want = np.zeros(past.shape[:3] + (1,))
    for t in range(c.num_past_steps):
      want = np.clip(want * 0.8 + past[..., t:t + 1], 0, 1)
    want = np.clip(want * 0.64 + sum(g.view(k).current_occupancy.numpy().astype(float) for k in TYPES), 0, 1)
    judged("trails", vis.agent_trails, want, np.ones(want.shape, bool))
    vh.expect((vis.roadgraph.numpy() == orr.render_roadgraph_from_inputs(inputs, c).numpy()).all(), "vis-roadgraph", "")
    vh.count("trails", (want > 0).sum())
  waypoints(c, g)


def random_grids(rng, c, b=1):
  """Grids of the steps with any content."""
  g = og.TimestepGrids()
  r = np.random.RandomState(rng.randrange(1 << 30))
  h, w, f, n = c.grid_height_cells, c.grid_width_cells, c.num_future_steps, c.num_past_steps + 1 + c.num_future_steps
  occ = lambda k: tf.constant((r.rand(b, h, w, k) < rng.choice([0.0, 0.1, 0.5])).astype(np.float32))
  per = c.num_future_steps // c.num_waypoints
  for kind in TYPES:
    o = g.view(kind)
    o.future_observed_occupancy, o.future_occluded_occupancy, o.all_occupancy = occ(f), occ(f), occ(n)
    m = r.rand(b, h, w, n - per, 2) < 0.5
    o.all_flow = tf.constant((r.randint(-9, 10, m.shape) * m).astype(np.float32))
  return g


def waypoints(c, g):
  got = og.create_ground_truth_waypoint_grids(g, c)
  per, past, cum = c.num_future_steps // c.num_waypoints, c.num_past_steps, c.cumulative_waypoints
  for kind in TYPES:
    o, w = g.view(kind), got.view(kind)
    obs, occ, al, fl = (q.numpy().astype(float) for q in (o.future_observed_occupancy, o.future_occluded_occupancy, o.all_occupancy, o.all_flow))
    for q in (w.observed_occupancy, w.occluded_occupancy, w.flow, w.flow_origin_occupancy):
      vh.expect(len(q) == c.num_waypoints, "waypoints-number", lambda: "%d instead of %d" % (len(q), c.num_waypoints))
    for k in range(c.num_waypoints):
      end = past + (k + 1) * per  # The step (0: the first of the past) of the waypoint.
      steps = range(end - per + 1, end + 1) if cum else [end]
      mx = lambda a, ts: np.max([a[..., t] for t in ts], 0)[..., None]
      m = np.ones(obs.shape[:3] + (1,), bool)
      judged("waypoint-observed", w.observed_occupancy[k], mx(obs, [t - past - 1 for t in steps]), m)
      judged("waypoint-occluded", w.occluded_occupancy[k], mx(occ, [t - past - 1 for t in steps]), m)
      judged("waypoint-origin", w.flow_origin_occupancy[k], mx(al, [t - per for t in steps]), m)
      # Flow number f ends at step f + per.
      seg = np.stack([fl[..., t - per, :] for t in steps], 0)
      n = (seg != 0).sum(0)
      judged("waypoint-flow", w.flow[k], seg.sum(0) / np.maximum(n, 1), np.broadcast_to(m, n.shape), 1e-4)
    vh.count("waypoints", c.num_waypoints)
  for k in range(c.num_waypoints):
    for fn, key in ((got.get_observed_occupancy_at_waypoint, "observed_occupancy"), (got.get_occluded_occupancy_at_waypoint, "occluded_occupancy"), (got.get_flow_at_waypoint, "flow")):
      a = fn(k)
      vh.expect(all(a.view(t) is getattr(got.view(t), key)[k] for t in TYPES), "at-waypoint", "%s %d" % (key, k))
  vh.count("cumulative" if cum else "sampled")
  return got


def case_waypoints(rng):
  c = random_config(rng)
  b = rng.randint(1, 2)
  g = random_grids(rng, c, b)
  vh.crumb(str(c).replace("\n", " "))
  vh.nontrivial((str(c), g.vehicles.all_flow.numpy().tobytes()))
  waypoints(c, g)
  if c.num_waypoints > 1:
    bad = pb.OccupancyFlowTaskConfig()
    bad.CopyFrom(c)
    bad.num_future_steps += 1
    vh.expect(vh.refused(lambda: og.create_ground_truth_waypoint_grids(g, bad), ValueError), "waypoints-uneven", "accepted")
    vh.count("refused_uneven")
  bad = pb.OccupancyFlowTaskConfig()
  bad.CopyFrom(c)
  bad.num_past_steps = max(0, c.num_future_steps // c.num_waypoints - 2)
  if c.num_future_steps // c.num_waypoints > 1:
    vh.expect(vh.refused(lambda: og.create_ground_truth_waypoint_grids(g, bad), ValueError), "waypoints-no-origin", "accepted")
    vh.count("refused_no_origin")
  # Classes without predictions stay empty.
  w = og.WaypointGrids()
  q = tf.constant(np.zeros((1, 2, 2, 1), np.float32))
  kind = rng.choice(TYPES)
  w.view(kind).observed_occupancy.append(q)
  a = w.get_observed_occupancy_at_waypoint(0)
  e = w.get_occluded_occupancy_at_waypoint(0)
  f = w.get_flow_at_waypoint(0)
  vh.expect(all((a.view(t) is q) == (t == kind) and e.view(t) is None and f.view(t) is None for t in TYPES), "empty-classes", NAMES[kind])
  vh.expect(vh.refused(lambda: w.view(rng.choice([0, 4, 9])), ValueError), "waypoints-view-type", "accepted")


def auc(truth, pred):
  """Area under the precision-recall curve over 100 thresholds (as Keras defines it: linear in true positives between two thresholds)."""
  t, p = truth.ravel() > 0, pred.ravel().astype(np.float64)
  th = [-1e-7] + [i / 99.0 for i in range(1, 99)] + [1.0 + 1e-7]
  tp = [float((t & (p > np.float32(x))).sum()) for x in th]
  fp = [float((~t & (p > np.float32(x))).sum()) for x in th]
  pos = float(t.sum())
  s = 0.0
  for i in range(99):
    dtp = tp[i] - tp[i + 1]
    pos_i, pos_j = tp[i] + fp[i], tp[i + 1] + fp[i + 1]
    dp = pos_i - pos_j
    slope = dtp / dp if dp else 0.0
    icpt = tp[i + 1] - slope * pos_j
    ratio = pos_i / pos_j if pos_i > 0 and pos_j > 0 else 1.0
    s += (slope * (dtp + icpt * math.log(ratio)) / pos) if pos else 0.0
  return s


def iou(t, p):
  t, p = t.astype(float), p.astype(float)
  i = (t * p).sum()
  u = t.sum() + p.sum() - i
  return i / u if u else 0.0


def case_metrics(rng):
  c = random_config(rng)
  c.grid_height_cells, c.grid_width_cells = rng.choice([(rng.randint(2, 8), rng.randint(2, 8)), (16, 20)])
  b, n = rng.randint(1, 2), c.num_waypoints
  r = np.random.RandomState(rng.randrange(1 << 30))
  shape = (b, c.grid_height_cells, c.grid_width_cells, 1)
  sparse = lambda p: (r.rand(*shape) < p).astype(np.float32)
  # Probabilities away from the thresholds i/99.
  frac = rng.choice([0.1, 0.25, 0.5, 0.75, 0.9])
  prob = lambda: ((r.randint(0, 99, shape) + frac) / 99).astype(np.float32) * (r.rand(*shape) < rng.choice([0.3, 0.9, 1.0]))
  t, p = og.WaypointGrids(), og.WaypointGrids()
  T, P, warp = [], [], []
  for k in range(n):
    x = [sparse(rng.choice([0.0, 0.05, 0.4, 1.0])) for _ in range(2)]
    y = [prob().astype(np.float32) if rng.random() < 0.8 else q.copy() for q in x]
    f = [(r.randint(-3, 4, shape[:3] + (2,)) * (r.rand(*shape) < rng.choice([0.0, 0.5]))).astype(np.float32), (r.randn(*(shape[:3] + (2,))) * 3).astype(np.float32)]
    T.append(x + [f[0]])
    P.append(y + [f[1]])
    for g, (o1, o2), fl in ((t, x, f[0]), (p, y, f[1])):
      g.vehicles.observed_occupancy.append(tf.constant(o1))
      g.vehicles.occluded_occupancy.append(tf.constant(o2))
      g.vehicles.flow.append(tf.constant(fl))
    t.vehicles.flow_origin_occupancy.append(tf.constant(sparse(0.3)))
    warp.append(r.choice([0.0, 0.5, 1.0], shape).astype(np.float32))
  vh.crumb("%s %s" % (str(c).replace("\n", " "), [[a.ravel().tolist() for a in q] for q in T + P]))
  vh.nontrivial((str(c), [a.tobytes() for q in T + P for a in q]))
  # The warp itself is switched off in the code (it raises NotImplementedError); the monitor puts in its own.
  if not hasattr(om, "_flow_warp"):
    raise vh.HarnessGap("the function with the warp")
  own = om._flow_warp
  try:
    om._flow_warp = lambda *a, **k: [tf.constant(q) for q in warp]
    got = om.compute_occupancy_flow_metrics(c, t, p)
  finally:
    om._flow_warp = own
  res = {k: [] for k in ("observed_auc", "observed_iou", "occluded_auc", "occluded_iou", "flow_epe", "flow_warped_occupancy_auc", "flow_warped_occupancy_iou")}
  has = [(True, True)] + [(bool(q[0].any()), bool(q[1].any())) for q in T]
  for k in range(n):
    (to, tc, tf_), (po, pc, pf) = T[k], P[k]
    for name, a, q, ok in (("observed", to, po, has[k + 1][0]), ("occluded", tc, pc, has[k + 1][1])):
      if ok:
        res[name + "_auc"].append(auc(a, q))
        res[name + "_iou"].append(iou(a, q))
    if any(has[k][m] and has[k + 1][m] for m in (0, 1)):
      on = (tf_ != 0).any(-1)
      e = np.sqrt(((tf_.astype(float) - pf) ** 2).sum(-1))
      res["flow_epe"].append(e[on].mean() if on.any() else 0.0)
      ta, pa = np.clip(to + tc, 0, 1), np.clip(po + pc, 0, 1) * warp[k]
      vals = np.unique(pa * 99)
      if np.abs(vals - np.round(vals))[(vals > 1e-6) & (vals < 98.5)].min(initial=1) < 1e-3:
        res["flow_warped_occupancy_auc"].append(None)
      else:
        res["flow_warped_occupancy_auc"].append(auc(ta, pa))
      res["flow_warped_occupancy_iou"].append(iou(ta, pa))
  vh.expect(got.num_waypoints_with_observed_occupancy == len(res["observed_auc"]) and got.num_waypoints_with_occluded_occupancy == len(res["occluded_auc"]) and got.num_waypoints_with_flow == len(res["flow_epe"]),
            "metric-counts", lambda: "%s instead of %s" % (got, {k: len(q) for k, q in res.items()}))
  for name, q in res.items():
    if None in q:
      vh.count("on_a_threshold")
      continue
    want = sum(q) / len(q) if q else 0.0
    val = getattr(got, "vehicles_" + name)
    vh.expect(abs(val - want) < 2e-4 * max(1, abs(want)), "metric-" + name, lambda: "%r instead of %r" % (val, want))
    vh.count(name, len(q))
  vh.count("blank_waypoints", n - len(res["observed_auc"]))
  vh.count("waypoints_without_flow", n - len(res["flow_epe"]))


def over(fg, fa, bg, ba):
  a = fa + ba * (1 - fa)
  return [(x * fa + y * ba * (1 - fa)) / (a + 1e-7) for x, y in zip(fg, bg)], a


def case_vis(rng):
  b, h, w = rng.randint(1, 2), rng.randint(1, 6), rng.randint(1, 6)
  r = np.random.RandomState(rng.randrange(1 << 30))
  img = lambda: (r.rand(b, h, w, 1) * (r.rand(b, h, w, 1) < 0.7)).astype(np.float32)
  have = [rng.random() < 0.8 for _ in TYPES]
  occ = [img() if q else None for q in have]
  road, trail = img(), img()
  gamma = rng.choice([1.6, 1.0, 2.5])
  default = gamma == 1.6 and rng.random() < 0.5
  vh.crumb((b, h, w, have, gamma))
  vh.nontrivial((road.tobytes(), trail.tobytes()))
  grids = od.AgentGrids(**{NAMES[t]: tf.constant(q) for t, q in zip(TYPES, occ) if q is not None})
  got = ov.occupancy_rgb_image(grids, tf.constant(road), *([] if default else [gamma])).numpy()
  f = (r.randint(-5, 6, (b, h, w, 2)) * (r.rand(b, h, w, 1) < 0.7)).astype(np.float32)
  flow = ov.flow_rgb_image(tf.constant(f), tf.constant(road), tf.constant(trail)).numpy()
  vh.expect(got.shape == (b, h, w, 3) and flow.shape == (b, h, w, 3), "vis-shape", lambda: "%s %s" % (got.shape, flow.shape))
  for i in range(b):
    top = np.sqrt((f[i].astype(float) ** 2).sum(-1)).max()
    for y in range(h):
      for x in range(w):
        c, a = over([0, 0, 0], float(road[i, y, x, 0]), [1, 1, 1], 1.0)
        for q, rgb in zip(occ, ([1, 0, 0], [0, 0.67, 0], [0, 0, 1])):
          q = float(q[i, y, x, 0]) ** (1 / gamma) if q is not None else 0.0
          c, a = over([q * e for e in rgb], q, c, a)
        vh.expect(vh.close(got[i, y, x], c, 1e-4), "occupancy-image", lambda: "%s instead of %s at %s" % (got[i, y, x], c, (i, y, x)))
        dy, dx = (float(q) for q in f[i, y, x])  # Swapped on purpose.
        m = math.hypot(dx, dy)
        hue = math.atan2(dy, dx) % (2 * math.pi) / (2 * math.pi)
        c = colorsys.hsv_to_rgb(hue % 1.0, m / top if top else 0.0, 1.0)
        c, a = over([0, 0, 0], float(road[i, y, x, 0]), c, 1.0)
        c, a = over([0, 0, 0], 0.2 * float(trail[i, y, x, 0]), c, 1.0)
        vh.expect(vh.close(flow[i, y, x], c, 1e-4), "flow-image", lambda: "%s instead of %s at %s" % (flow[i, y, x], c, (i, y, x)))
        vh.count("flow_pixels" if m else "still_pixels")
  vh.count("all_classes" if all(have) else "missing_classes")


def example(rng, drop=None, short=None):
  """A serialized example with the features of the Motion Dataset."""
  r = np.random.RandomState(rng.randrange(1 << 30))
  e = tf.train.Example()
  want = {}

  def put(name, shape, kind):
    if name == drop:
      return
    n = int(np.prod(shape)) - (1 if name == short else 0)
    if kind == "f":
      q = r.uniform(-100, 100, n).astype(np.float32)
      e.features.feature[name].float_list.value.extend(q.tolist())
    else:
      q = r.randint(-3, 1 << 40, n).astype(np.int64)
      e.features.feature[name].int64_list.value.extend(q.tolist())
    if name != short:
      want[name] = q.reshape(shape)

  for k, s, t in (("dir", 3, "f"), ("id", 1, "i"), ("type", 1, "i"), ("valid", 1, "i"), ("xyz", 3, "f")):
    put("roadgraph_samples/" + k, (20000, s), t)
  for k, t in (("id", "f"), ("type", "f"), ("is_sdc", "i"), ("tracks_to_predict", "i")):
    put("state/" + k, (128,), t)
  for span, n in (("past", 10), ("current", 1), ("future", 80)):
    for k in ("bbox_yaw", "height", "length", "timestamp_micros", "valid", "vel_yaw", "velocity_x", "velocity_y", "width", "x", "y", "z"):
      put("state/%s/%s" % (span, k), (128, n), "i" if k in ("timestamp_micros", "valid") else "f")
    if span != "future":
      for k in ("state", "valid", "x", "y", "z"):
        put("traffic_light_state/%s/%s" % (span, k), (n, 16), "i" if k in ("state", "valid") else "f")
  e.features.feature["scenario/id"].bytes_list.value.append(b"scene \xff%d" % rng.randrange(99))
  want["scenario/id"] = e.features.feature["scenario/id"].bytes_list.value[0]
  e.features.feature["other/feature"].float_list.value.append(1.0)
  return e.SerializeToString(), want


def case_parse(rng):
  data, want = example(rng)
  vh.nontrivial(data)
  vh.crumb("an example")
  got = od.parse_tf_example(tf.constant(data))
  vh.expect(set(got) == set(want), "features", lambda: "%s" % sorted(set(got) ^ set(want)))
  for k, q in want.items():
    g = got[k].numpy()
    vh.expect(g == q if k == "scenario/id" else (g.shape == q.shape and g.dtype == q.dtype and (g == q).all()), "feature", lambda: "%s" % k)
  vh.count("parsed", len(want))
  name = rng.choice(sorted(want))
  bad, _ = example(rng, **({"short": name} if rng.random() < 0.5 and name != "scenario/id" else {"drop": name}))
  if name != "scenario/id":
    vh.expect(vh.refused(lambda: od.parse_tf_example(tf.constant(bad))), "parse-incomplete", lambda: "accepted without (all of) %s" % name)
    vh.count("refused_examples")


vh.main([("render", 1.0, case_render), ("rotate", 0.2, case_rotate), ("steps", 0.5, case_steps), ("waypoints", 1.0, case_waypoints), ("metrics", 1.0, case_metrics), ("vis", 0.5, case_vis), ("parse", 0.01, case_parse)])
