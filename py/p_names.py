"""Names of the breakdowns in Python (C10)."""
import numpy  # noqa: F401
import vh
from waymo_open_dataset.metrics.python import config_util_py
from waymo_open_dataset.protos import breakdown_pb2, metrics_pb2, motion_metrics_pb2

TYPES = ["TYPE_VEHICLE", "TYPE_PEDESTRIAN", "TYPE_SIGN", "TYPE_CYCLIST"]
GENS = {
    "ONE_SHARD": [["ONE_SHARD"]],
    "ALL_BUT_SIGN": [["ALL_BUT_SIGN"], ["SIGN"]],
    "OBJECT_TYPE": [["OBJECT_TYPE", t] for t in TYPES],
    "RANGE": [["RANGE", t, r] for t in TYPES for r in ("[0, 30)", "[30, 50)", "[50, +inf)")],
    "VELOCITY": [["VELOCITY", t, r] for t in TYPES for r in ("STATIONARY", "SLOW", "MEDIUM", "FAST", "VERY_FAST")],
    "SIZE": [["SIZE", t, r] for t in TYPES for r in ("small", "large")],
    "CAMERA": [["CAMERA", t, r] for t in TYPES for r in ("FRONT", "FRONT-LEFT", "FRONT-RIGHT", "SIDE-LEFT", "SIDE-RIGHT")],
}


def names_case(r):
    c = metrics_pb2.Config()
    want = []
    for _ in range(r.randint(0, 7)):
        g = r.choice(sorted(GENS))
        c.breakdown_generator_ids.append(breakdown_pb2.Breakdown.GeneratorId.Value(g))
        levels = r.choice([[], [1], [2], [1, 2], [2, 1]])
        c.difficulties.add().levels.extend(levels)
        for s in GENS[g]:
            for l in levels or [2]:
                want.append("_".join(s + ["LEVEL_%d" % l]))
    vh.crumb(c)
    vh.sample(c)
    vh.nontrivial(c.SerializeToString())
    got = config_util_py.get_breakdown_names_from_config(c)
    vh.expect(list(got) == want, "names", lambda: "%s want %s for %s" % (got, want, c))
    vh.count("python_names", len(want))


def motion_case(r):
    c = motion_metrics_pb2.MotionMetricsConfig()
    steps = [r.randint(0, 40) for _ in range(r.randint(0, 5))]
    for s in steps:
        c.step_configurations.add().measurement_step = s
    vh.crumb(c)
    vh.nontrivial(c.SerializeToString())
    got = config_util_py.get_breakdown_names_from_motion_config(c)
    want = ["%s_%d" % (t, s) for t in ("TYPE_VEHICLE", "TYPE_PEDESTRIAN", "TYPE_CYCLIST") for s in steps]
    vh.expect(list(got) == want, "motion_names", lambda: "%s want %s" % (got, want))
    vh.count("python_motion_names", len(want))


vh.main([("names", 1, names_case), ("motion_names", 1, motion_case)])
