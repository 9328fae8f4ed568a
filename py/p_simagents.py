"""Simulated scenes: specification, conversion and features of a submission (C23)."""
import math

import numpy as np
import tensorflow as tf

import vh
from waymo_open_dataset.protos import map_pb2
from waymo_open_dataset.protos import scenario_pb2
from waymo_open_dataset.protos import sim_agents_submission_pb2 as sub_pb2
from waymo_open_dataset.utils import trajectory_utils
from waymo_open_dataset.utils.sim_agents import converters
from waymo_open_dataset.utils.sim_agents import submission_specs as specs
from waymo_open_dataset.wdl_limited.sim_agents_metrics import interaction_features
from waymo_open_dataset.wdl_limited.sim_agents_metrics import map_metric_features
from waymo_open_dataset.wdl_limited.sim_agents_metrics import metric_features
from waymo_open_dataset.wdl_limited.sim_agents_metrics import traffic_light_features
from waymo_open_dataset.wdl_limited.sim_agents_metrics import trajectory_features

SIM, GEN = specs.ChallengeType.SIM_AGENTS, specs.ChallengeType.SCENARIO_GEN
STEPS, NOW = 91, 10
FIELDS = ("x", "y", "z", "heading", "length", "width", "height", "valid")


def f32(v):
  return np.asarray(v, np.float32)


def path(rng, n):
  x, y, z, h = rng.uniform(-30, 30), rng.uniform(-30, 30), rng.uniform(-1, 1), rng.uniform(-3.1, 3.1)
  v, turn = rng.choice([0.0, rng.uniform(0, 20)]), rng.choice([0.0, rng.uniform(-0.1, 0.1)])
  out = []
  for _ in range(n):
    out.append((x, y, z, math.remainder(h, 2 * math.pi)))
    x, y, h = x + 0.1 * v * math.cos(h), y + 0.1 * v * math.sin(h), h + turn
    v = max(0.0, v + rng.uniform(-0.3, 0.3))
  return out


def random_scenario(rng, n=None, steps=STEPS, roads=True):
  n = n or rng.randint(2, 6)
  s = scenario_pb2.Scenario(scenario_id="s%d" % rng.randrange(10**6), current_time_index=NOW)
  ids = rng.sample(range(1, 3000), n)
  if rng.random() < 0.3:
    ids[rng.randrange(n)] = 0  # The first id.
  gaps = rng.choice([0.0, 0.2, 0.5])
  sdc = rng.randrange(n)
  for i in range(n):
    t = s.tracks.add(id=ids[i], object_type=rng.choice([0, 1, 1, 2, 2, 3, 3, 4]))
    l, w, h = rng.uniform(0.5, 8), rng.uniform(0.5, 3), rng.uniform(1, 3)
    absent = i != sdc and rng.random() < 0.25
    for j, (x, y, z, yaw) in enumerate(path(rng, steps)):
      ok = rng.random() >= gaps if j != NOW else not absent
      if i == sdc:
        ok = True
      st = t.states.add(valid=ok)
      if ok or rng.random() < 0.5:
        st.center_x, st.center_y, st.center_z, st.heading = x, y, z, yaw
        st.length, st.width, st.height = l + rng.uniform(-0.1, 0.1), w, h
  s.sdc_track_index = sdc
  for i in rng.sample(range(n), rng.randint(0, n)):
    if s.tracks[i].states[NOW].valid:
      s.tracks_to_predict.add(track_index=i)
  if roads:
    for k in range(rng.randint(1, 3)):
      f, level = s.map_features.add(id=100 + k), rng.choice([0.0, 0.0, rng.uniform(-3, 3), 6.0])
      for _ in range(rng.randint(2, 6)):
        f.road_edge.polyline.add(x=rng.uniform(-40, 40), y=rng.uniform(-40, 40), z=level)
    for k in range(rng.randint(0, 3)):
      f = s.map_features.add(id=200 + k)
      f.lane.type = rng.choice([map_pb2.LaneCenter.TYPE_SURFACE_STREET, map_pb2.LaneCenter.TYPE_SURFACE_STREET, map_pb2.LaneCenter.TYPE_FREEWAY, map_pb2.LaneCenter.TYPE_BIKE_LANE])
      for _ in range(rng.randint(2, 5)):
        f.lane.polyline.add(x=rng.uniform(-40, 40), y=rng.uniform(-40, 40), z=0)
    s.map_features.add(id=300).stop_sign.position.x = 1
    if rng.random() < 0.7:
      for _ in range(steps):
        d = s.dynamic_map_states.add()
        for k in range(3):
          if rng.random() < 0.8:
            st = d.lane_states.add(lane=200 + k, state=rng.choice([4, 4, 1, 6]))
            st.stop_point.x, st.stop_point.y = 5.0 * k, 3.0
  return s


def states(track):
  """Rows of x, y, z, heading, length, width, height, valid."""
  return [[s.center_x for s in track.states], [s.center_y for s in track.states], [s.center_z for s in track.states], [s.heading for s in track.states],
          [s.length for s in track.states], [s.width for s in track.states], [s.height for s in track.states], [s.valid for s in track.states]]


def agent_ids(s):
  return [t.id for t in s.tracks if t.states[NOW].valid]


def eval_ids(s, challenge):
  if challenge == GEN:
    return agent_ids(s)
  return sorted({s.tracks[s.sdc_track_index].id} | {s.tracks[p.track_index].id for p in s.tracks_to_predict})


def random_scene(rng, s, challenge, order=None):
  n = 80 if challenge == SIM else 91
  ids = order or agent_ids(s)
  if order is None:
    rng.shuffle(ids)
  scene = sub_pb2.JointScene()
  for i in ids:
    p = path(rng, n)
    t = scene.simulated_trajectories.add(object_id=i, center_x=[q[0] for q in p], center_y=[q[1] for q in p], center_z=[q[2] for q in p], heading=[q[3] for q in p])
    if challenge == GEN:
      t.length.extend([rng.uniform(1, 6)] * n)
      t.width.extend([rng.uniform(1, 3)] * n)
      t.height.extend([rng.uniform(1, 3)] * n)
      t.object_type = rng.randint(0, 4)
  return scene


def table(t):
  return {k: np.asarray(getattr(t, k).numpy()) for k in FIELDS + ("object_id", "object_type")}


def want_table(rows, ids, types):
  out = {k: np.array([r[i] for r in rows], bool if k == "valid" else np.float32) for i, k in enumerate(FIELDS)}
  out["object_id"], out["object_type"] = np.array(ids), np.array(types)
  return out


def same_table(key, got, want):
  for k in want:
    vh.expect(got[k].shape == want[k].shape and bool(np.array_equal(got[k], want[k])), key + ":" + k, lambda: "%s instead of %s" % (got[k].tolist(), want[k].tolist()))


# --- trajectories -----------------------------------------------------------


def case_trajectories(rng):
  s = random_scenario(rng, n=rng.randint(1, 6), steps=rng.randint(NOW + 1, 20), roads=False)
  n, steps = len(s.tracks), len(s.tracks[0].states)
  vh.crumb(s)
  vh.nontrivial(s.SerializeToString())
  t = trajectory_utils.ObjectTrajectories.from_scenario(s)
  full = want_table([states(x) for x in s.tracks], [x.id for x in s.tracks], [x.object_type for x in s.tracks])
  same_table("from-scenario", table(t), full)
  a, b = rng.randint(0, steps), rng.choice([None, rng.randint(0, steps)])
  same_table("slice", table(t.slice_time(a, b)), {k: v[:, a:b] if k in FIELDS else v for k, v in full.items()})
  same_table("slice-end", table(t.slice_time(end_index=b)), {k: v[:, :b] if k in FIELDS else v for k, v in full.items()})
  idx = [rng.randrange(n) for _ in range(rng.randint(1, 6))]
  same_table("gather", table(t.gather_objects(tf.constant(idx))), {k: v[idx] for k, v in full.items()})
  ids = [s.tracks[i].id for i in idx]
  same_table("gather-by-id", table(t.gather_objects_by_id(tf.constant(ids))), {k: v[idx] for k, v in full.items()})
  same_table("from-scenario", table(t), full)
  vh.expect(vh.refused(lambda: t.gather_objects_by_id(tf.constant(ids + [99999])), ValueError), "gather-unknown", "an unknown id was accepted")
  if n > 1:
    i, j = rng.sample(range(n), 2)
    keep = s.tracks[j].id
    s.tracks[j].id = s.tracks[i].id
    twice = trajectory_utils.ObjectTrajectories.from_scenario(s)
    vh.expect(vh.refused(lambda: twice.gather_objects_by_id(tf.constant([s.tracks[i].id])), ValueError), "gather-repeated", "a repeated id was accepted")
    s.tracks[j].id = keep
    vh.count("repeated")
  vh.count("gathered", len(idx))
  vh.count("unknown")


# --- the specification ------------------------------------------------------


def case_specs(rng):
  s = random_scenario(rng, n=rng.randint(1, 7), steps=rng.choice([11, 12, 91]), roads=False)
  vh.crumb(s)
  vh.nontrivial(s.SerializeToString())
  for c, n in ((SIM, 80), (GEN, 91)):
    cfg = specs.get_submission_config(c)
    vh.expect((cfg.current_time_index, cfg.n_simulation_steps, cfg.n_rollouts, cfg.step_duration_seconds) == (10, n, 32, 0.1), "config", "%s" % (cfg,))
    vh.expect(list(specs.get_sim_agent_ids(s, c)) == agent_ids(s), "sim-agents", lambda: "%s instead of %s" % (specs.get_sim_agent_ids(s, c), agent_ids(s)))
    got = list(specs.get_evaluation_sim_agent_ids(s, c))
    vh.expect(got == eval_ids(s, c), "evaluated-agents", lambda: "%s instead of %s" % (got, eval_ids(s, c)))
    vh.count("agents", len(agent_ids(s)))
  challenge = rng.choice([SIM, GEN])
  scene = random_scene(rng, s, challenge)
  if rng.random() < 0.1:
    specs.validate_joint_scene(scene, s, challenge)
  specs.validate_joint_scene(scene, s, challenge)
  vh.count("scenes_accepted")
  kind = rng.randrange(9)
  bad = sub_pb2.JointScene.FromString(scene.SerializeToString())
  pick = rng.choice(list(bad.simulated_trajectories))
  if kind == 0:
    field = getattr(pick, rng.choice(["center_x", "center_y", "center_z", "heading"]))
    if rng.random() < 0.5:
      field.append(0.0)
    else:
      del field[-1]
  elif kind == 1:
    bad.simulated_trajectories.remove(pick)
  elif kind == 2:
    pick.object_id = 123456
  elif kind == 3:
    extra = bad.simulated_trajectories.add()
    extra.CopyFrom(pick)
    absent = [t.id for t in s.tracks if not t.states[NOW].valid]
    extra.object_id = rng.choice(absent or [123456])
  elif kind == 5:  # One missing, one twice.
    other = rng.choice(list(bad.simulated_trajectories))
    if other.object_id == pick.object_id:
      bad.simulated_trajectories.add().CopyFrom(pick)
      bad.simulated_trajectories.remove(pick)
      pick = bad.simulated_trajectories[0]
      other = bad.simulated_trajectories[-1]
    if other.object_id == pick.object_id:
      pick.object_id = 654321
    else:
      pick.object_id = other.object_id
  elif kind == 6:  # One missing, an agent that is not there at the time instead.
    pick.object_id = rng.choice([t.id for t in s.tracks if not t.states[NOW].valid] or [123456])
  elif kind == 8:  # All there, one of them twice.
    bad.simulated_trajectories.add().CopyFrom(pick)
  elif kind == 7:  # Every field is as long as the others, but not as long as the simulation.
    for f in (pick.center_x, pick.center_y, pick.center_z, pick.heading):
      if len(bad.simulated_trajectories) % 2:
        f.append(0.0)
      else:
        del f[-1]
  else:
    del pick.center_x[:], pick.center_y[:], pick.center_z[:], pick.heading[:]
  vh.expect(vh.refused(lambda: specs.validate_joint_scene(bad, s, challenge), ValueError), "invalid-scene", "mutation %d accepted" % kind)
  vh.count("scene_refused_%d" % kind)
  if rng.random() < 0.3:
    roll = sub_pb2.ScenarioRollouts(scenario_id=s.scenario_id, joint_scenes=[scene] * 32)
    kw = {} if challenge == SIM else dict(challenge_type=challenge)
    specs.validate_scenario_rollouts(roll, s, **kw)
    vh.count("rollouts_accepted")
    kind = rng.randrange(4)
    if kind == 0:
      roll.ClearField("scenario_id")
    elif kind == 1:
      del roll.joint_scenes[-1]
    elif kind == 2:
      roll.joint_scenes.add().CopyFrom(scene)
    else:
      roll.joint_scenes[rng.randrange(32)].CopyFrom(bad)
    vh.expect(vh.refused(lambda: specs.validate_scenario_rollouts(roll, s, **kw), ValueError), "invalid-rollouts", "mutation %d accepted" % kind)
    vh.count("rollouts_refused_%d" % kind)


# --- conversion -------------------------------------------------------------


def sim_table(s, scene, log_validity):
  tracks = {t.id: t for t in s.tracks}
  rows = []
  for t in scene.simulated_trajectories:
    log = states(tracks[t.object_id])
    sim = [list(t.center_x), list(t.center_y), list(t.center_z), list(t.heading)] + [[log[k][NOW]] * 80 for k in (4, 5, 6)] + [log[7][NOW + 1:] if log_validity else [True] * 80]
    rows.append([a[:NOW + 1] + b for a, b in zip(log, sim)])
  ids = [t.object_id for t in scene.simulated_trajectories]
  return want_table(rows, ids, [tracks[i].object_type for i in ids])


def gen_table(s, scene):
  tracks = {t.id: t for t in s.tracks}
  rows = [[list(t.center_x), list(t.center_y), list(t.center_z), list(t.heading), list(t.length), list(t.width), list(t.height), [tracks[t.object_id].states[NOW].valid] * 91]
          for t in scene.simulated_trajectories]
  return want_table(rows, [t.object_id for t in scene.simulated_trajectories], [t.object_type for t in scene.simulated_trajectories])


def log_scene_ok(s, challenge, scene):
  lo = NOW + 1 if challenge == SIM else 0
  tracks = {t.id: t for t in s.tracks}
  vh.expect([t.object_id for t in scene.simulated_trajectories] == agent_ids(s), "log-scene:ids", lambda: "%s" % [t.object_id for t in scene.simulated_trajectories])
  for t in scene.simulated_trajectories:
    want = [f32(r[lo:]).tolist() for r in states(tracks[t.object_id])[:7]] + [[bool(v) for v in states(tracks[t.object_id])[7][lo:]]]
    got = [f32(v).tolist() for v in (t.center_x, t.center_y, t.center_z, t.heading, t.length, t.width, t.height)] + [[bool(v) for v in t.valid]]
    vh.expect(got == want and t.object_type == tracks[t.object_id].object_type, "log-scene", lambda: "object %d: %s instead of %s" % (t.object_id, got, want))


def case_convert(rng):
  s = random_scenario(rng, roads=False)
  vh.crumb(s.scenario_id)
  vh.nontrivial(s.SerializeToString())
  for c in (SIM, GEN):
    scene = converters.scenario_to_joint_scene(s, c)
    log_scene_ok(s, c, scene)
    specs.validate_joint_scene(scene, s, c)
  scene = random_scene(rng, s, SIM)
  for log_validity in (False, True):
    same_table("scene-to-trajectories", table(converters.joint_scene_to_trajectories(scene, s, use_log_validity=log_validity)), sim_table(s, scene, log_validity))
  scene = random_scene(rng, s, GEN)
  same_table("generated-to-trajectories", table(converters.simulated_scenariogen_to_trajectories(scene, s, GEN)), gen_table(s, scene))
  vh.count("converted")
  bad = random_scenario(rng, n=2, steps=rng.choice([11, 90, 92]), roads=False)
  vh.expect(vh.refused(lambda: converters.scenario_to_joint_scene(bad), ValueError) and vh.refused(lambda: converters.scenario_to_joint_scene(bad, GEN), ValueError),
            "short-scenario", "%d steps accepted" % len(bad.tracks[0].states))
  vh.count("wrong_lengths")


# --- features ---------------------------------------------------------------


def want_features(s, scene, challenge, log_validity):
  """The features of the evaluated agents, from tables assembled here."""
  full = sim_table(s, scene, log_validity) if challenge == SIM else gen_table(s, scene)
  ev = eval_ids(s, challenge)
  at = {int(i): k for k, i in enumerate(full["object_id"])}
  order = [at[i] for i in ev] + [k for k, i in enumerate(full["object_id"]) if int(i) not in ev]
  all_t = {k: v[order] for k, v in full.items()}
  sel = {k: v[:len(ev)] for k, v in all_t.items()}
  tracks = {t.id: states(t) for t in s.tracks}
  log_valid = np.array([tracks[i][7] for i in ev], bool)
  mask = tf.constant(np.arange(len(order)) < len(ev))
  c = tf.constant
  lo = NOW + 1 if challenge == SIM else 0
  kin = trajectory_features.compute_kinematic_features(c(sel["x"]), c(sel["y"]), c(sel["z"]), c(sel["heading"]), seconds_per_step=0.1)
  box = dict(center_x=c(all_t["x"]), center_y=c(all_t["y"]), length=c(all_t["length"]), width=c(all_t["width"]), heading=c(all_t["heading"]), valid=c(all_t["valid"]),
             evaluated_object_mask=mask)
  box3 = dict(box, center_z=c(all_t["z"]), height=c(all_t["height"]))
  near = interaction_features.compute_distance_to_nearest_object(**box3).numpy()[:, lo:]
  ttc = interaction_features.compute_time_to_collision_with_object_in_front(seconds_per_step=0.1, **box).numpy()[:, lo:]
  edge = map_metric_features.compute_distance_to_road_edge(road_edge_polylines=[list(f.road_edge.polyline) for f in s.map_features if f.HasField("road_edge")], **box3).numpy()[:, lo:]
  lanes = [f for f in s.map_features if f.HasField("lane") and f.lane.type == map_pb2.LaneCenter.TYPE_SURFACE_STREET]
  if lanes and s.dynamic_map_states:
    red = traffic_light_features.compute_red_light_violation(
        center_x=box["center_x"], center_y=box["center_y"], valid=box["valid"], evaluated_object_mask=mask, lane_polylines=[list(f.lane.polyline) for f in lanes],
        lane_ids=[f.id for f in lanes], traffic_signals=[list(d.lane_states) for d in s.dynamic_map_states]).numpy()[:, lo:]
    vh.count("with_lights")
  else:
    red = np.zeros(near.shape, bool)
    vh.count("without_lights")
  if challenge == SIM:
    ade = []
    for k, i in enumerate(ev):
      err = [math.dist([float(sel[a][k, j]) for a in "xyz"], [tracks[i][m][j] for m in range(3)]) for j in range(STEPS) if log_valid[k, j]]
      ade.append(sum(err) / len(err))
  else:
    ade = [0.0] * len(ev)
  valid = (log_valid if log_validity else sel["valid"])[:, lo:]
  return dict(object_type=sel["object_type"], valid=valid, average_displacement_error=np.array(ade), linear_speed=kin[0].numpy()[:, lo:], linear_acceleration=kin[1].numpy()[:, lo:],
              angular_speed=kin[2].numpy()[:, lo:], angular_acceleration=kin[3].numpy()[:, lo:], distance_to_nearest_object=near, collision_per_step=near < 0,
              time_to_collision=ttc, distance_to_road_edge=edge, offroad_per_step=edge > 0, traffic_light_violation_per_step=red), ev


def same_features(key, got, at, want):
  for k, w in want.items():
    g = getattr(got, k).numpy()[at]
    vh.expect(g.shape == w.shape and vh.close(g, w, 1e-3, 1e-4) and (g.dtype == bool) == (w.dtype == bool), "%s:%s" % (key, k), lambda: "%s instead of %s" % (g.tolist(), w.tolist()))


def case_features(rng):
  s = random_scenario(rng, n=rng.randint(2, 5))
  challenge = rng.choice([SIM, SIM, GEN])
  vh.crumb((s.scenario_id, challenge))
  vh.nontrivial(s.SerializeToString())
  scenes = [random_scene(rng, s, challenge) for _ in range(rng.randint(1, 3))]
  if rng.random() < 0.5:
    roll = sub_pb2.ScenarioRollouts(scenario_id=s.scenario_id, joint_scenes=scenes)
    if challenge == GEN:  # The agents of each rollout are matched by position.
      ids = agent_ids(s)
      scenes = [random_scene(rng, s, challenge, ids) for _ in scenes]
      roll = sub_pb2.ScenarioRollouts(scenario_id=s.scenario_id, joint_scenes=scenes)
    log, sim = metric_features.compute_scenario_rollouts_features(s, roll, challenge)
    want, ev = want_features(s, converters.scenario_to_joint_scene(s, challenge), challenge, True)
    vh.expect(log.object_id.numpy().tolist() == ev and sim.object_id.numpy().tolist() == ev, "evaluated-ids", lambda: "%s" % log.object_id.numpy())
    vh.expect(log.valid.numpy().shape[0] == 1 and sim.valid.numpy().shape[0] == len(scenes), "samples", lambda: "%s" % (sim.valid.numpy().shape,))
    same_features("log", log, 0, want)
    for i, scene in enumerate(scenes):
      same_features("rollout", sim, i, want_features(s, scene, challenge, False)[0])
    vh.count("rollouts", len(scenes))
  else:
    got = metric_features.compute_metric_features(s, scenes[0], challenge)
    want, ev = want_features(s, scenes[0], challenge, False)
    vh.expect(got.object_id.numpy().tolist() == ev, "evaluated-ids", lambda: "%s" % got.object_id.numpy())
    same_features("scene", got, 0, want)
    vh.count("scenes")
  vh.count("generated" if challenge == GEN else "simulated")


if __name__ == "__main__":
  vh.main([("trajectories", 1, case_trajectories), ("specs", 0.6, case_specs), ("convert", 0.3, case_convert), ("features", 0.4, case_features)])
