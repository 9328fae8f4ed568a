"""Scores of simulated agents: likelihood estimators and metrics (C35)."""
import math
import os

import numpy as np
import tensorflow as tf

import p_simagents as sa
import vh
from waymo_open_dataset.protos import scenario_pb2
from waymo_open_dataset.protos import sim_agents_metrics_pb2 as pb
from waymo_open_dataset.protos import sim_agents_submission_pb2 as sub_pb2
from waymo_open_dataset.utils.sim_agents import submission_specs as specs
from waymo_open_dataset.wdl_limited.sim_agents_metrics import estimators
from waymo_open_dataset.wdl_limited.sim_agents_metrics import metric_features
from waymo_open_dataset.wdl_limited.sim_agents_metrics import metrics

SIM, GEN = specs.ChallengeType.SIM_AGENTS, specs.ChallengeType.SCENARIO_GEN
CFG = pb.SimAgentMetricsConfig
BUCKETS = dict(kinematic=("linear_speed", "linear_acceleration", "angular_speed", "angular_acceleration"),
               interactive=("distance_to_nearest_object", "collision_indication", "time_to_collision"),
               map_based=("distance_to_road_edge", "offroad_indication", "traffic_light_violation"))
NAMES = sum(BUCKETS.values(), ())
FLAGS = ("collision_indication", "offroad_indication", "traffic_light_violation")


def c32(v):
  return tf.constant(np.asarray(v, np.float32))


# --- estimators ---------------------------------------------------------------


def bin_of(v, lo, hi, n):
  return min(n - 1, max(0, int(math.floor((v - lo) / (hi - lo) * n))))


def population(cfg, sims):
  """The log likelihood of one value within the simulated values."""
  kind = cfg.WhichOneof("estimator")
  if kind == "kernel_density":
    h = cfg.kernel_density.bandwidth
    return lambda v: math.log(max(math.fsum(math.exp(-0.5 * ((v - s) / h) ** 2) for s in sims) / len(sims), 1e-300))
  if kind == "bernoulli":
    lo, hi, n, extra = -0.5, 1.5, 2, cfg.bernoulli.additive_smoothing_pseudocount
  else:
    e = cfg.histogram
    lo, hi, n, extra = e.min_val, e.max_val, e.num_bins, e.additive_smoothing_pseudocount
  counts = [0] * n
  for s in sims:
    if not math.isnan(s):
      counts[bin_of(s, lo, hi, n)] += 1
  total = sum(counts) + n * extra
  return lambda v: math.log((counts[bin_of(v, lo, hi, n)] + extra) / total)


def want_timeseries(cfg, log, sim):
  """log[object][step], sim[rollout][object][step] -> log likelihoods; None where log has no value."""
  R, O, S = sim.shape
  out = np.full((O, S), np.nan)
  memo = {}
  for o in range(O):
    for s in range(S):
      if math.isnan(log[o, s]):
        continue
      key = (None if cfg.aggregate_objects else o, None if cfg.independent_timesteps else s)
      if key not in memo:
        part = sim if key[0] is None else sim[:, o:o + 1]
        part = part if key[1] is None else part[:, :, s:s + 1]
        memo[key] = population(cfg, [float(v) for v in part.reshape(-1)])
      out[o, s] = memo[key](float(log[o, s]))
  return out


def pick(rng, cfg, shape, spread=None):
  """Values for the estimator, none within rounding of the border of a bin."""
  kind = cfg.WhichOneof("estimator")
  if kind == "bernoulli":
    p = rng.choice([0.0, 0.2, 0.7, 1.0])
    return np.array([rng.random() < p for _ in range(int(np.prod(shape)))], bool).reshape(shape)
  out = []
  if kind == "histogram":
    e = cfg.histogram
    wide = e.max_val - e.min_val
    a, b = (e.min_val - 0.3 * wide, e.max_val + 0.3 * wide) if spread is None else spread
  while len(out) < np.prod(shape):
    if kind == "histogram":
      v = float(np.float32(rng.uniform(a, b)))
      f = (v - e.min_val) / wide * e.num_bins
      if abs(f - round(f)) < 1e-3 and -0.5 < f < e.num_bins + 0.5:
        continue
    else:
      v = float(np.float32(rng.gauss(0, cfg.kernel_density.bandwidth * 3)))
    out.append(v)
  return np.array(out, np.float32).reshape(shape)


def random_estimator(rng, kinds=("histogram", "kernel_density", "bernoulli")):
  cfg = CFG.FeatureConfig()
  kind = rng.choice(kinds)
  if kind == "histogram":
    lo = rng.choice([0.0, -1.0, -12.0, 5.0, rng.uniform(-20, 20)])
    cfg.histogram.min_val, cfg.histogram.max_val = lo, lo + rng.choice([0.5, 1.0, 24.0, rng.uniform(0.5, 50)])
    cfg.histogram.num_bins = rng.choice([1, 2, 3, 5, 10, 11])
    if rng.random() < 0.8:
      cfg.histogram.additive_smoothing_pseudocount = rng.choice([0.001, 0.1, 1.0, 3.5])
  elif kind == "kernel_density":
    cfg.kernel_density.bandwidth = rng.choice([0.01, 0.5, 1.0, rng.uniform(0.01, 5)])
  else:
    cfg.bernoulli.SetInParent()
    if rng.random() < 0.7:
      cfg.bernoulli.additive_smoothing_pseudocount = rng.choice([0.001, 0.1, 2.0])
  cfg.independent_timesteps, cfg.aggregate_objects = rng.random() < 0.5, rng.random() < 0.4
  cfg.metametric_weight = rng.choice([0.05, 0.1, 0.25, rng.uniform(0.01, 1)])
  return cfg


def compare_ll(key, got, want, cfg):
  ok = ~np.isnan(want)
  tol = 2e-4 if cfg.WhichOneof("estimator") != "kernel_density" else 2e-3
  vh.expect(got.shape == want.shape and bool(np.all((np.abs(got[ok] - want[ok]) <= tol + 2e-3 * np.abs(want[ok])) | (want[ok] < -300))), key,
            lambda: "%s: %s instead of %s" % (str(cfg).replace("\n", " "), got.tolist(), want.tolist()))
  if ok.any():
    vh.expect(got[ok].max() <= 1e-5, key + ":above-one", lambda: "log likelihood %r" % got[ok].max())


def case_estimate(rng):
  cfg = random_estimator(rng)
  kind = cfg.WhichOneof("estimator")
  R, O, S = rng.choice([1, 2, 5, 32]), rng.randint(1, 4), rng.choice([1, 2, 6])
  vh.crumb((str(cfg), R, O, S))
  log, sim = pick(rng, cfg, (O, S)), pick(rng, cfg, (R, O, S))
  if kind == "histogram" and rng.random() < 0.3:  # Objects unlike each other.
    for o in range(O):
      e = cfg.histogram
      m = rng.uniform(e.min_val, e.max_val)
      sim[:, o] = pick(rng, cfg, (R, S), (m - 0.1 * (e.max_val - e.min_val), m + 0.1 * (e.max_val - e.min_val)))
    vh.count("unlike_objects")
  vh.nontrivial((str(cfg), log.tolist(), sim.tolist()))
  got = estimators.log_likelihood_estimate_timeseries(cfg, tf.constant(log), tf.constant(sim)).numpy()
  compare_ll("timeseries:" + kind, got, want_timeseries(cfg, log, sim), cfg)
  vh.count(kind + ("_scene" if cfg.aggregate_objects else "_agent"))
  if S > 1:
    vh.count("all_steps" if cfg.independent_timesteps else "each_step")
  got = estimators.log_likelihood_estimate_scenario_level(cfg, tf.constant(log[:, 0]), tf.constant(sim[:, :, 0])).numpy()
  compare_ll("scenario:" + kind, got, want_timeseries(cfg, log[:, :1], sim[:, :, :1])[:, 0], cfg)
  if kind == "histogram":
    # Values beyond the ends count in the first and the last bin.
    e = cfg.histogram
    low, high = (estimators.histogram_estimate(e, c32([[v]]), c32([[e.min_val - 3, e.min_val + 1e-2 * (e.max_val - e.min_val) / e.num_bins, e.max_val + 1, e.max_val + 9]])).numpy()[0, 0]
                 for v in (e.min_val - 7, e.max_val + 0.5))
    p = e.additive_smoothing_pseudocount
    want = math.log((2 + p) / (4 + p * e.num_bins)) if e.num_bins > 1 else 0.0
    vh.expect(abs(low - want) < 1e-3 and abs(high - want) < 1e-3, "clipped", lambda: "%r %r instead of %r (%s)" % (low, high, want, e))
    vh.count("clipped")


def case_refusals(rng):
  cfg = random_estimator(rng)
  R, O, S = rng.randint(1, 3), rng.randint(1, 3), rng.randint(1, 4)
  log, sim = pick(rng, cfg, (O, S)), pick(rng, cfg, (R, O, S))
  vh.nontrivial((str(cfg), log.tolist(), sim.tolist()))
  d = rng.randrange(5)
  vh.crumb((d, str(cfg)))
  f = estimators.log_likelihood_estimate_timeseries
  if d == 0:  # Shapes that do not match.
    log = pick(rng, cfg, (O + 1, S) if rng.random() < 0.5 else (O, S + 1))
  elif d == 1:  # Not one value per object and step.
    if rng.random() < 0.5:
      log = log[0]
    else:
      sim = sim[0]
    vh.expect(vh.refused(lambda: f(cfg, tf.constant(log), tf.constant(sim))), "wrong-rank", "accepted")
  elif d == 2:
    cfg.kernel_density.bandwidth = rng.choice([0.0, -1.0])
    log, sim = log.astype(np.float32), sim.astype(np.float32)
  elif d == 3:
    cfg.bernoulli.SetInParent()
    log, sim = log.astype(np.float32 if rng.random() < 0.7 else bool), sim.astype(np.float32)
  else:
    cfg.ClearField(cfg.WhichOneof("estimator"))
  if d != 1:
    vh.expect(vh.refused(lambda: f(cfg, tf.constant(log), tf.constant(sim)), ValueError), "refused-%d" % d, lambda: "accepted %s" % str(cfg))
  vh.count("refused_%d" % d)


# --- metrics ------------------------------------------------------------------


def avg(ll, valid):
  v = [ll[i] for i in zip(*np.nonzero(valid))]
  return math.exp(math.fsum(v) / len(v))


def want_metrics(cfg, log, sim):
  """log, sim: dicts of arrays [rollout, object, step]."""
  valid = log["valid"][0]
  both = lambda m: np.concatenate([np.zeros((len(m), 1), bool), m[:, :-2] & m[:, 2:], np.zeros((len(m), 1), bool)], 1)
  speed = both(valid)
  accel = both(speed)
  vehicle = (log["object_type"].reshape(-1) == scenario_pb2.Track.TYPE_VEHICLE)[:, None]
  masks = dict(linear_speed=speed, angular_speed=speed, linear_acceleration=accel, angular_acceleration=accel, distance_to_nearest_object=valid,
               time_to_collision=valid & vehicle, distance_to_road_edge=valid)
  out = {}
  for n, m in masks.items():
    out[n + "_likelihood"] = avg(want_timeseries(getattr(cfg, n), log[n][0], sim[n]), m)
  for n, src, m in (("collision_indication", "collision_per_step", valid), ("offroad_indication", "offroad_per_step", valid),
                    ("traffic_light_violation", "traffic_light_violation_per_step", valid & vehicle)):
    a = (log[src][0] & m).any(1)[:, None]
    b = (sim[src] & m[None]).any(2)[:, :, None]
    out[n + "_likelihood"] = math.exp(float(np.mean(want_timeseries(getattr(cfg, n), a.astype(np.float32), b.astype(np.float32)))))
    rate = (sim[src] & valid[None]).any(2)
    out[dict(collision_indication="simulated_collision_rate", offroad_indication="simulated_offroad_rate", traffic_light_violation="simulated_traffic_light_violation_rate")[n]] = float(np.mean(rate))
  ade = sim["average_displacement_error"].astype(np.float64)
  out["average_displacement_error"], out["min_average_displacement_error"] = float(ade.mean()), float(ade.mean(1).min())
  out["metametric"] = math.fsum(getattr(cfg, n).metametric_weight * out[n + "_likelihood"] for n in NAMES)
  return out


def judge(key, got, want, scenario_id):
  vh.expect(got.scenario_id == scenario_id, key + ":scenario-id", lambda: got.scenario_id)
  vh.expect({f.name for f, _ in got.ListFields()} == set(want) | {"scenario_id"}, key + ":fields", lambda: "%s" % got)
  for n, w in want.items():
    g = getattr(got, n)
    vh.expect(abs(g - w) <= 2e-4 + 1e-3 * abs(w), "%s:%s" % (key, n), lambda: "%s: %r instead of %r" % (n, g, w))
    if n.endswith("_likelihood"):
      vh.expect(-1e-6 <= g <= 1 + 1e-5, key + ":range", lambda: "%s = %r" % (n, g))


def random_config(rng):
  cfg = CFG()
  for n in NAMES:
    getattr(cfg, n).CopyFrom(random_estimator(rng, ("bernoulli",) if n in FLAGS else ("histogram", "histogram", "histogram", "kernel_density")))
  if rng.random() < 0.5:
    total = sum(getattr(cfg, n).metametric_weight for n in NAMES)
    for n in NAMES:
      getattr(cfg, n).metametric_weight /= total
  return cfg


def case_metrics(rng):
  cfg = random_config(rng)
  R, O, S = rng.choice([1, 2, 5]), rng.randint(1, 5), rng.randint(6, 9)
  log, sim = {}, {}
  for d, r in ((log, 1), (sim, R)):
    for n in NAMES:
      if n not in FLAGS:
        d[n] = pick(rng, getattr(cfg, n), (r, O, S))
    for n in ("collision", "offroad", "traffic_light_violation"):
      d[n + "_per_step"] = np.array([rng.random() < 0.15 for _ in range(r * O * S)]).reshape(r, O, S)
    d["average_displacement_error"] = np.array([rng.uniform(0, 20) for _ in range(r * O)], np.float32).reshape(r, O)
    d["valid"] = np.array([rng.random() < 0.75 for _ in range(r * O * S)]).reshape(r, O, S)
    d["object_type"] = np.tile(np.array([rng.randint(1, 4) for _ in range(O)], np.int32), (r, 1))
    d["object_id"] = np.arange(10, 10 + O)
  sim["object_type"] = np.tile(log["object_type"], (R, 1))
  keep = rng.randrange(O)  # The autonomous vehicle is valid all the time.
  log["valid"][0, keep], log["object_type"][0, keep] = True, scenario_pb2.Track.TYPE_VEHICLE
  if all(getattr(cfg, n).WhichOneof("estimator") == "histogram" for n in NAMES[:4]):  # The ends of kinematic features are unknown.
    for d in (log, sim):
      for n in NAMES[:4]:
        d[n][..., :1 if "speed" in n else 2] = np.nan
        d[n][..., -1 if "speed" in n else -2:] = np.nan
    vh.count("unknown_ends")
  if rng.random() < 0.15:
    for n in NAMES:
      if n not in FLAGS:
        sim[n] = np.repeat(log[n], R, 0)
    vh.count("like_the_log")
  vh.crumb((R, O, S, str(cfg)))
  vh.nontrivial((str(cfg), [v.tolist() for v in log.values()], [v.tolist() for v in sim.values()]))
  lf, sf = (metric_features.MetricFeatures(**{k: tf.constant(v) for k, v in d.items()}) for d in (log, sim))
  got = metrics.compute_scenario_metrics_for_features_bundle(cfg, "abc%d" % O, lf, sf)
  judge("metrics", got, want_metrics(cfg, log, sim), "abc%d" % O)
  vh.count("bundles")
  if (log["object_type"] != scenario_pb2.Track.TYPE_VEHICLE).any() and (sim["traffic_light_violation_per_step"] & log["valid"] & (log["object_type"] != 1)[..., None]).any():
    vh.count("other_types")


def case_scenario(rng):
  """From the protos of a scenario and its rollouts, with the configuration of the challenge."""
  challenge = rng.choice([SIM, GEN])
  s = sa.random_scenario(rng, n=rng.randint(2, 4))
  for t in s.tracks:  # The autonomous vehicle.
    if t.id == s.tracks[s.sdc_track_index].id:
      t.object_type = scenario_pb2.Track.TYPE_VEHICLE
  ids = sa.agent_ids(s)
  scenes = [sa.random_scene(rng, s, challenge, ids) for _ in range(rng.randint(1, 3))]
  roll = sub_pb2.ScenarioRollouts(scenario_id=s.scenario_id, joint_scenes=scenes)
  vh.crumb((s.scenario_id, challenge))
  vh.nontrivial(s.SerializeToString() + roll.SerializeToString())
  cfg = config_of(challenge)
  got = metrics.compute_scenario_metrics_for_bundle(cfg, s, roll, challenge)
  lf, sf = metric_features.compute_scenario_rollouts_features(s, roll, challenge)
  names = list(NAMES[:5]) + ["time_to_collision", "distance_to_road_edge", "valid", "object_type", "average_displacement_error"] + [n + "_per_step" for n in ("collision", "offroad", "traffic_light_violation")]
  log, sim = ({n: getattr(f, n).numpy() for n in names} for f in (lf, sf))
  want = want_metrics(cfg, log, sim)
  if edges_apart(cfg, log, sim):
    judge("scenario", got, want, s.scenario_id)
    vh.count("scenarios")
    order = list(range(len(scenes)))
    rng.shuffle(order)
    again = metrics.compute_scenario_metrics_for_bundle(cfg, s, sub_pb2.ScenarioRollouts(scenario_id=s.scenario_id, joint_scenes=[scenes[i] for i in order]), challenge)
    judge("reordered", again, want, s.scenario_id)
  else:
    vh.count("on_an_edge")


def edges_apart(cfg, log, sim):
  for n in NAMES:
    c = getattr(cfg, n)
    if c.WhichOneof("estimator") != "histogram":
      continue
    e = c.histogram
    for d in (log, sim):
      f = (d[n].astype(np.float64) - e.min_val) / (e.max_val - e.min_val) * e.num_bins
      f = f[~np.isnan(f) & (f > 0.01) & (f < e.num_bins - 0.01)]
      if f.size and np.min(np.abs(f - np.round(f))) < 1e-5:
        return False
  return True


def config_of(challenge):
  return metrics.load_metrics_config(challenge)


def case_config(rng):
  for c in (SIM, GEN):
    cfg = config_of(c)
    vh.expect(abs(sum(getattr(cfg, n).metametric_weight for n in NAMES) - 1) < 1e-5, "weights", lambda: "%s: weights do not add up to 1: %s" % (c, cfg))
    for n in NAMES:
      kind = getattr(cfg, n).WhichOneof("estimator")
      vh.expect(kind == ("bernoulli" if n in FLAGS else "histogram") and getattr(cfg, n).metametric_weight > 0, "estimators", lambda: "%s: %s" % (n, kind))
  vh.expect(vh.refused(lambda: metrics.load_metrics_config("sim"), ValueError), "unknown-challenge", "accepted")
  vh.count("configs")
  # Averages over scenarios and buckets.
  n = rng.randint(1, 6)
  all_m = []
  fields = [f.name for f in pb.SimAgentMetrics.DESCRIPTOR.fields if f.name != "scenario_id"]
  for i in range(n):
    m = pb.SimAgentMetrics(scenario_id="s%d" % i)
    for f in fields:
      setattr(m, f, rng.choice([0.0, 1.0, rng.uniform(0, 1), rng.uniform(0, 30)]))
    all_m.append(m)
  vh.nontrivial(b"".join(m.SerializeToString() for m in all_m))
  got = metrics.aggregate_scenario_metrics(all_m)
  vh.expect(not got.HasField("scenario_id"), "aggregate-id", "set")
  for f in fields:
    w = math.fsum(getattr(m, f) for m in all_m) / n
    vh.expect(got.HasField(f) and abs(getattr(got, f) - w) <= 1e-5 * max(1, w), "aggregate:" + f, lambda: "%r instead of %r" % (getattr(got, f), w))
  vh.count("aggregated")
  cfg = random_config(rng) if rng.random() < 0.7 else config_of(rng.choice([SIM, GEN]))
  if rng.random() < 0.3:
    for k in rng.sample(NAMES, 3):
      getattr(cfg, k).metametric_weight = 0
  w = {b: sum(getattr(cfg, k).metametric_weight for k in ks) for b, ks in BUCKETS.items()}
  if min(w.values()) == 0:
    vh.expect(vh.refused(lambda: metrics.aggregate_metrics_to_buckets(cfg, got), ValueError), "bucket-weights", "accepted")
    vh.count("no_weight")
    return
  b = metrics.aggregate_metrics_to_buckets(cfg, got)
  want = {k + "_metrics": math.fsum(getattr(cfg, f).metametric_weight * getattr(got, f + "_likelihood") for f in BUCKETS[k]) / w[k] for k in BUCKETS}
  want.update(realism_meta_metric=got.metametric, min_ade=got.min_average_displacement_error, simulated_collision_rate=got.simulated_collision_rate,
              simulated_offroad_rate=got.simulated_offroad_rate, simulated_traffic_light_violation_rate=got.simulated_traffic_light_violation_rate)
  for k, v in want.items():
    vh.expect(b.HasField(k) and abs(getattr(b, k) - v) <= 1e-5 * max(1, abs(v)), "bucket:" + k, lambda: "%r instead of %r" % (getattr(b, k), v))
  vh.count("buckets")


if __name__ == "__main__":
  os.chdir(os.path.dirname(os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(metrics.__file__))))))
  vh.main([("estimate", 1, case_estimate), ("refusals", 0.3, case_refusals), ("metrics", 0.4, case_metrics), ("scenario", 0.06, case_scenario), ("config", 0.3, case_config)])
