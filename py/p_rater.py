"""The rater feedback score against its published definition (C27)."""
import math

import numpy as np

import vh
from waymo_open_dataset.metrics.python import rater_feedback_utils as rfu


def fit(trajs, labels, t, p):
  """Truncated to, or padded with the last element up to, p trajectories of t waypoints."""
  trajs, labels = [list(map(tuple, x)) for x in trajs][:p], list(labels)[:p]
  while len(trajs) < p:
    trajs.append(trajs[-1])
    labels.append(labels[-1])
  return [(x + [x[-1]] * t)[:t] for x in trajs], labels


def directions(traj):
  out, last, prev = [], (1.0, 0.0), (0.0, 0.0)
  for w in traj:
    dx, dy = w[0] - prev[0], w[1] - prev[1]
    n = math.hypot(dx, dy)
    if n > 0:
      last = (dx / n, dy / n)
    out.append(last)
    prev = w
  return out


def make_traj(rng, t, like=None, spread=2.0):
  if like is not None:
    k = rng.choice([0.0, 0.2, 1.0, 1.0, 3.0])
    dx, dy = rng.gauss(0, k * spread), rng.gauss(0, k * 0.6)
    base = [like[min(i, len(like) - 1)] for i in range(t)]
    return np.array([[x + dx * (i + 1) / t, y + dy * (i + 1) / t] for i, (x, y) in enumerate(base)])
  v, h, turn = rng.choice([0.0, rng.uniform(0, 3), rng.uniform(0, 15)]), rng.uniform(-0.3, 0.3), rng.uniform(-0.06, 0.06)
  x = y = 0.0
  out = []
  stop_at, go_at = rng.choice([t + 1, rng.randrange(t), rng.randint(1, 3)]), rng.choice([0, rng.randrange(t)])
  if rng.random() < 0.2:
    # Straight steps of length one.
    v, h, turn = 4.0, rng.choice([0.0, math.pi / 2, -math.pi / 2, math.atan2(0.6, 0.8)]), 0.0
  for i in range(t):
    if go_at <= i < stop_at:
      x, y = x + v / 4 * math.cos(h), y + v / 4 * math.sin(h)
    h += turn
    out.append([x, y])
  return np.array(out)


def case_score(rng):
  b, n = rng.randint(1, 4), rng.randint(1, 5)
  freq, secs = rng.choice([(4, 5), (4, 5), (4, 5), (1, 5), (2, 6), (10, 5), (4, 8)])
  t, p = freq * secs, rng.choice([3, 3, 3, 1, 2, 5])
  kw = {}
  if (freq, secs) != (4, 5) or rng.random() < 0.2:
    kw.update(frequency=freq, length_seconds=secs)
  if p != 3:
    kw["default_num_of_rater_specified_trajectories"] = p
  mult, decay, floor = (1.0, 4.0), 0.1, 4.0
  if rng.random() < 0.3:
    mult = (rng.uniform(0.5, 2), rng.uniform(1, 6))
    kw["lat_lng_threshold_multipliers"] = mult
  if rng.random() < 0.3:
    decay = rng.choice([0.5, 0.01, rng.uniform(0.05, 0.9)])
    kw["decay_factor"] = decay
  if rng.random() < 0.3:
    floor = rng.choice([0.0, rng.uniform(0, 8)])
    kw["minimum_score_outside_trust_region"] = floor
  show = rng.random() < 0.5
  if show:
    kw["output_trust_region_visualization"] = True
  raters, labels, inf = [], [], np.zeros((b, n, t, 2))
  arrays = rng.random() < 0.15  # One array for all, as documented, instead of lists.
  k0 = rng.randint(1, 5)
  for i in range(b):
    k = k0 if arrays else rng.choice([1, 2, 3, 3, 4, 6])
    tr = []
    for j in range(k):
      steps = t if arrays else rng.choice([t, t, t + rng.randint(1, 9), rng.randint(1, t)])
      tr.append(make_traj(rng, steps, tr[0] if tr and rng.random() < 0.4 else None))
    raters.append(tr)
    labels.append(np.array([rng.choice([0.0, 10.0, float(rng.randint(0, 10)), rng.uniform(0, 10)]) for _ in range(k)]))
    for j in range(n):
      inf[i, j] = make_traj(rng, t, rng.choice(tr) if rng.random() < 0.8 else None)
  if arrays:
    raters, labels = np.array(raters), np.array(labels)
    vh.count("array_inputs")
  probs = np.array([[rng.random() for _ in range(n)] for _ in range(b)])
  if rng.random() < 0.7:
    probs /= probs.sum(axis=1, keepdims=True)
  speed = np.array([rng.choice([0.0, 1.4, 11.0, 30.0, rng.uniform(0, 15), rng.uniform(0, 15)]) for _ in range(b)])
  vh.crumb(dict(kw=kw, raters=[[x.tolist() for x in r] for r in raters], labels=[list(x) for x in labels], inf=inf.tolist(), probs=probs.tolist(), speed=speed.tolist()))
  before = (inf.tobytes(), probs.tobytes(), [[x.tobytes() for x in r] for r in raters], [x.tobytes() for x in labels], speed.tobytes())
  out = rfu.get_rater_feedback_score(inf, probs, raters, labels, speed, **kw)
  after = (inf.tobytes(), probs.tobytes(), [[x.tobytes() for x in r] for r in raters], [x.tobytes() for x in labels], speed.tobytes())
  vh.expect(before == after, "inputs-changed")
  scores = out["rater_feedback_score"]
  vh.expect(scores.shape == (b,) and out["is_fully_within_trust_region"].shape == (b, n), "shape", lambda: str({k: v.shape for k, v in out.items()}))
  vh.expect(out["rater_specified_trajectories"].shape == (b, p, t, 2) and out["rater_feedback_labels"].shape == (b, p), "processed-shape", lambda: str({k: v.shape for k, v in out.items()}))
  for i in range(b):
    tr, lab = fit(raters[i], labels[i], t, p)
    vh.expect(vh.close(out["rater_specified_trajectories"][i], np.array(tr)) and vh.close(out["rater_feedback_labels"][i], np.array(lab)), "processed-off", lambda: "%s %s" % (out["rater_feedback_labels"][i], lab))
    scale = min(max(0.5 + 0.5 * (speed[i] - 1.4) / 9.6, 0.5), 1.0)
    total, doubt = 0.0, False
    for j in range(n):
      per_time, within_any = [], False
      dists = []
      for q in range(p):
        dirs = directions(tr[q])
        d2 = []
        for sec, base in ((3, 1.0), (5, 1.8)):
          s = sec * freq - 1
          lat_thr, lng_thr = base * mult[0] * scale, base * mult[1] * scale
          ex, ey = inf[i, j, s, 0] - tr[q][s][0], inf[i, j, s, 1] - tr[q][s][1]
          ux, uy = dirs[s]
          d2.append(max(abs(ex * ux + ey * uy) / lng_thr, abs(-ex * uy + ey * ux) / lat_thr))
        dists.append(d2)
        within_any |= all(d <= 1 for d in d2)
        doubt |= any(abs(d - 1) < 1e-9 for d in d2)
      for s in (0, 1):
        per_time.append(max(lab[q] * decay ** max(dists[q][s] - 1, 0.0) for q in range(p)))
      v = sum(per_time) / 2
      if not within_any:
        if v < floor:
          vh.count("floored")
        v = max(v, floor)
      vh.count("within" if within_any else "outside")
      if not doubt:
        vh.expect(bool(out["is_fully_within_trust_region"][i, j]) == within_any, "within-wrong", lambda: "trajectory %d of %d: distances %s" % (j, i, dists))
      total += v * probs[i, j]
      if 0 < v < 10 and not any(near_int(v) for _ in (0,)):
        vh.count("partial_scores")
    if not doubt:
      vh.expect(vh.near(float(scores[i]), total, 1e-7, 1e-7), "score-off", lambda: "%r, not %r" % (float(scores[i]), total))
    if show:
      sel = [3 * freq - 1, 5 * freq - 1]
      vh.expect(vh.close(out["trust_region_width"][i], [2 * bb * mult[1] * scale for bb in (1.0, 1.8)]) and vh.close(out["trust_region_height"][i], [2 * bb * mult[0] * scale for bb in (1.0, 1.8)]), "region-size-off",
                lambda: "%s %s" % (out["trust_region_width"][i], out["trust_region_height"][i]))
      for q in range(p):
        dirs = directions(tr[q])
        vh.expect(vh.close(out["trust_region_center_x"][i, q], [tr[q][s][0] for s in sel]) and vh.close(out["trust_region_center_y"][i, q], [tr[q][s][1] for s in sel]), "region-centre-off")
        for s, a in zip(sel, out["trust_region_angle"][i, q]):
          vh.expect(abs(math.cos(math.radians(a)) - dirs[s][0]) < 1e-6 and abs(math.sin(math.radians(a)) - dirs[s][1]) < 1e-6, "region-angle-off", lambda: "%r, direction %s" % (a, dirs[s]))
          vh.count("regions")
  vh.nontrivial(inf.tobytes() + probs.tobytes())
  vh.sample("batch %d, %d trajectories, scores %s" % (b, n, scores.tolist()))


def near_int(v):
  return abs(v - round(v)) < 1e-9


def case_refused(rng):
  b, t = rng.randint(1, 3), 20
  raters = [[make_traj(rng, t) for _ in range(3)] for _ in range(b)]
  labels = [np.array([1.0, 5.0, 9.0]) for _ in range(b)]
  inf, probs, speed = np.zeros((b, 2, t, 2)), np.full((b, 2), 0.5), np.full(b, 5.0)
  rfu.get_rater_feedback_score(inf, probs, raters, labels, speed)
  k = rng.randrange(4)
  kw = {}
  if k == 0:
    labels = labels[:-1] if rng.random() < 0.5 else labels + [labels[0]]
  elif k == 1:
    many = rng.choice([3, 3, 5, 2])
    raters[-1] = [make_traj(rng, t) for _ in range(many)]
    labels[-1] = np.array([float(rng.randint(0, 10)) for _ in range(many + rng.choice([-1, 1]))])
  elif k == 2:
    inf = np.zeros((b, 2, rng.choice([19, 21, 10]), 2))
  else:
    kw = dict(length_seconds=rng.randint(1, 4))
    inf = np.zeros((b, 2, kw["length_seconds"] * 4, 2))
  vh.crumb(k)
  vh.expect(vh.refused(lambda: rfu.get_rater_feedback_score(inf, probs, raters, labels, speed, **kw), ValueError), "unfit-input-accepted", lambda: "kind %d" % k)
  vh.count("refused_%d" % k)


vh.main([("score", 1, case_score), ("refused", 0.2, case_refused)])
