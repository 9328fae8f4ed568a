"""Small helpers around scenarios: equality of examples, camera tokens, drawings (C36)."""
import math

import numpy as np
import tensorflow as tf
import vh
from matplotlib import patches
from waymo_open_dataset.protos import map_pb2, scenario_pb2
from waymo_open_dataset.utils import example_utils, womd_camera_utils
from waymo_open_dataset.utils.sim_agents import visualizations

# ------------------------------------------------------------------ examples


def f32(v):
    return float(np.float32(v))


def random_feature(r):
    k = r.choice(["float_list", "float_list", "int64_list", "bytes_list"])
    n = r.choice([0, 1, 1, 2, 3, 6])
    if r.random() < .1:
        return None, []  # A name without any list.
    if k == "float_list":
        v = [f32(r.choice([r.uniform(-5, 5), float(r.randint(-3, 3)), 0.0, r.uniform(-1, 1) * 1e6, math.inf])) for _ in range(n)]
    elif k == "int64_list":
        v = [r.choice([r.randint(-3, 3), r.randint(-2 ** 63, 2 ** 63 - 1)]) for _ in range(n)]
    else:
        v = [bytes(r.randrange(256) for _ in range(r.randint(0, 4))) for _ in range(n)]
    return k, v


def build(d):
    e = tf.train.Example()
    for k, (kind, v) in d.items():
        f = e.features.feature[k]
        if kind is None:
            f.SetInParent()
            continue
        f = getattr(f, kind)
        f.SetInParent()
        f.value.extend(v)
    return e


def equal(a, b, atol, rtol):
    """True, False or None when it is too close to tell."""
    if sorted(a) != sorted(b):
        return False
    res = True
    for k in a:
        (ka, va), (kb, vb) = a[k], b[k]
        if ka != kb or len(va) != len(vb):
            return False
        for x, y in zip(va, vb):
            if ka != "float_list":
                if x != y:
                    return False
            elif x != y:
                if math.isinf(x) or math.isinf(y):
                    return False
                d, lim = abs(x - y), atol + rtol * abs(y)
                if d > lim * (1 + 1e-6) + 1e-12:
                    return False
                if d > lim * (1 - 1e-6) - 1e-12 and d != 0:
                    res = None
    return res


def mutate(r, d, atol):
    d = {k: (t, list(v)) for k, (t, v) in d.items()}
    how = r.choice(["none", "none", "value", "value", "value", "drop", "add", "kind", "kind", "length", "order", "name"])
    if how == "add" or not d:
        d["new%d" % r.randint(0, 3)] = random_feature(r)
        return how, d
    k = r.choice(sorted(d))
    t, v = d[k]
    if how == "drop":
        del d[k]
    elif how == "name":
        d[k + "_"] = d.pop(k)
    elif how == "kind":
        n = r.choice(["float_list", "int64_list", "bytes_list"])
        m = r.choice([0, len(v)])
        d[k] = n, v if n == t else {"float_list": [1.0], "int64_list": [1], "bytes_list": [b"1"]}[n] * m
    elif how == "length" and t:
        if v and r.random() < .5:
            v.pop()
        else:
            v.append({"float_list": 0.0, "int64_list": 0, "bytes_list": b""}[t])
    elif how == "order":
        r.shuffle(v)
    elif how == "value" and v:
        i = r.randrange(len(v))
        if t == "float_list":
            v[i] = f32(v[i] + r.choice([.5, -.5, .9, -.9, 1.1, -1.1, 2, -2, 100]) * max(atol, 1e-9)) if r.random() < .9 else f32(-v[i])
        elif t == "int64_list":
            v[i] = max(-2 ** 63, min(2 ** 63 - 1, v[i] + r.choice([-1, 1, 2 ** 32, -2 ** 32])))
        else:
            v[i] = v[i] + b"\0"
    return how, d


def example_case(r):
    a = {n: random_feature(r) for n in r.sample(["a", "b", "c/d", "e", "", "f\u00fc"], r.randint(0, 4))}
    kw = {}
    if r.random() < .5:
        kw["atol"] = r.choice([0.0, 1e-6, .1, 1.0])
    if r.random() < .4:
        kw["rtol"] = r.choice([0.0, 1e-3, .5])
    atol, rtol = kw.get("atol", 1e-3), kw.get("rtol", 0.0)
    how, b = mutate(r, a, atol)
    if r.random() < .3:
        how, b = mutate(r, b, atol)
    ea, eb = build(a), build(b)
    vh.crumb((a, b, kw))
    vh.sample((a, b, kw))
    vh.nontrivial(repr((a, b, kw)).encode())
    want = equal(a, b, atol, rtol)
    sa, sb = ea.SerializeToString(deterministic=True), eb.SerializeToString(deterministic=True)
    if want is not None:
        got = example_utils.examples_equal(ea, eb, **kw)
        vh.expect(bool(got) == want, "examples_" + how, lambda: "%s for\n%s\n%s\n%s" % (got, a, b, kw))
        vh.count("equal_examples" if want else "different_examples")
    w2 = equal(b, a, atol, rtol)
    if w2 is not None:
        got = example_utils.examples_equal(eb, ea, **kw)
        vh.expect(bool(got) == w2, "examples_swapped_" + how, lambda: "%s for\n%s\n%s\n%s" % (got, b, a, kw))
    vh.expect(example_utils.examples_equal(ea, build(a), **kw), "examples_reflexive", lambda: "%s" % a)
    vh.expect((sa, sb) == (ea.SerializeToString(deterministic=True), eb.SerializeToString(deterministic=True)), "examples_input", "the examples were changed")


# ------------------------------------------------------------- camera tokens

def scenario(r):
    s = scenario_pb2.Scenario(scenario_id=r.choice(["", "a1b2"]))
    s.timestamps_seconds.extend([.1 * i for i in range(r.randint(0, 4))])
    s.current_time_index = r.randint(0, 3)
    for i in range(r.randint(0, 3)):
        t = s.tracks.add(id=i)
        t.states.add(center_x=r.uniform(-5, 5), valid=True)
    return s


def tokens(r, s, n):
    for _ in range(n):
        f = s.frame_camera_tokens.add()
        for _ in range(r.randint(0, 3)):
            c = f.camera_tokens.add(camera_name=r.randint(0, 8))
            c.tokens.extend([r.randint(0, 8191) for _ in range(r.randint(0, 5))])


def tokens_case(r):
    s, c = scenario(r), scenario_pb2.Scenario()
    tokens(r, s, r.choice([0, 0, 0, 2]))
    tokens(r, c, r.randint(0, 11))
    before = s.SerializeToString(), c.SerializeToString()
    vh.crumb((s, c))
    vh.nontrivial(b"%s|%s" % before)
    out = womd_camera_utils.add_camera_tokens_to_scenario(s, c)
    want = scenario_pb2.Scenario.FromString(before[0])
    want.MergeFromString(before[1])
    vh.expect(out == want, "tokens", lambda: "%s want %s" % (out, want))
    vh.expect((s.SerializeToString(), c.SerializeToString()) == before, "tokens_input", "an input was changed")
    out.scenario_id = "changed"
    for f in out.frame_camera_tokens:
        f.ClearField("camera_tokens")
    vh.expect((s.SerializeToString(), c.SerializeToString()) == before, "tokens_shared", "the result shares data with an input")
    vh.count("token_frames", len(c.frame_camera_tokens))


def codebook_case(r):
    n, f = (r.randint(1, 30), r.randint(1, 6)) if r.random() < .998 else (r.choice([8192, 40000]), 1)
    book = np.array([[r.uniform(-1, 1) for _ in range(f)] for _ in range(n)], dtype=r.choice([np.float32, np.float64]))
    dt = r.choice([np.int32, np.int64, np.int16] if n < 32768 else [np.int32, np.int64])
    t = np.array([r.choice([r.randrange(n), 0, n - 1]) for _ in range(r.randint(1, 12))], dtype=dt)
    bad = r.random() < .3
    if bad:
        t[r.randrange(len(t))] = r.choice([-1, -n, n, n + 5, -2])
    vh.crumb((book, t))
    vh.nontrivial(book.tobytes() + t.tobytes())
    keep = book.copy(), t.copy()
    if bad:
        vh.expect(vh.refused(lambda: womd_camera_utils.get_camera_embedding_from_codebook(book, t), ValueError), "token_accepted", lambda: "%s in a codebook of %d" % (t, n))
        vh.count("bad_tokens")
    else:
        got = womd_camera_utils.get_camera_embedding_from_codebook(book, t)
        vh.expect(got.shape == (len(t), f) and all(list(got[i]) == list(book[t[i]]) for i in range(len(t))), "embedding", lambda: "%s of %s in %s" % (got, t, book))
        vh.count("embeddings", len(t))
    vh.expect(np.array_equal(keep[0], book) and np.array_equal(keep[1], t), "embedding_input", "an input was changed")


# ------------------------------------------------------------------ drawings
class Axis:
    """An axis that keeps what is on it."""

    def __init__(self):
        self.lines, self._patches = [], []
        self.closed = False

    @property
    def patches(self):  # a live view, as in matplotlib
        return self._patches

    def plot(self, x, y, *a, **kw):
        x, y = [float(v) for v in x], [float(v) for v in y]
        vh.expect(len(x) == len(y), "plot_length", lambda: "%d and %d" % (len(x), len(y)))
        self.lines.append(list(zip(x, y)))
        return [patches.Line(x, y)]

    def add_patch(self, p):
        self._patches.append(p)
        p.remove = lambda: self._patches.remove(p)
        return p


def random_map(r, s):
    want = []
    for i in range(r.randint(0, 6)):
        f = s.map_features.add(id=i)
        k = r.choice(["road_edge", "road_line", "lane", "crosswalk", "stop_sign"])
        m = getattr(f, k)
        m.SetInParent()
        pts = []
        if k != "stop_sign":
            for _ in range(r.choice([0, 1, 2, 3, 6])):
                p = (m.polygon if k == "crosswalk" else m.polyline).add(x=r.uniform(-100, 100), y=r.uniform(-100, 100), z=r.uniform(-5, 5))
                pts.append((p.x, p.y))
        if k in ("road_edge", "road_line") and pts:
            want.append(pts)
    return want


def check_map(ax, want):
    got = [l for l in ax.lines if l]
    vh.expect(got == want, "map", lambda: "%s want %s" % (got, want))
    vh.count("map_lines", len(want))


def corners(p):
    """Where matplotlib draws the rectangle: xy is a corner, turned about it."""
    (x, y), w, h = [float(v) for v in p.args[0]], float(p.args[1]), float(p.args[2])
    a = math.radians(float(p.kwargs.get("angle", 0.0)))
    c, s = math.cos(a), math.sin(a)
    return [(x + c * i * w - s * j * h, y + s * i * w + c * j * h) for i, j in ((0, 0), (1, 0), (1, 1), (0, 1))]


def check_box(p, x, y, yaw, l, w, color, tol):
    c, s = math.cos(yaw), math.sin(yaw)
    want = [(x + c * i * l / 2 - s * j * w / 2, y + s * i * l / 2 + c * j * w / 2) for i, j in ((-1, -1), (1, -1), (1, 1), (-1, 1))]
    got = corners(p)
    vh.expect(all(any(math.dist(a, b) <= tol for b in got) for a in want), "box", lambda: "%s want %s" % (got, want))
    vh.expect(math.dist(got[0], want[0]) <= tol, "box_heading", lambda: "%s want %s" % (got, want))
    col = [float(v) for v in p.kwargs["color"]]
    pal = [float(v) for v in visualizations.WAYMO_COLORS[color]]
    vh.expect(col[:3] == pal and 0 < col[3] <= 1, "box_color", lambda: "%s want %s" % (col, pal))
    vh.count("boxes")


def draw_case(r):
    s = scenario_pb2.Scenario()
    want = random_map(r, s)
    before = s.SerializeToString()
    n, steps = r.randint(0, 4), r.randint(1, 4)
    far = r.choice([1, 1, 10, 1000])
    dt = r.choice([np.float32, np.float64])

    def arr(lo, hi):
        return np.array([[r.uniform(lo, hi) for _ in range(steps)] for _ in range(n)], dtype=dt).reshape(n, steps)
    x, y, yaw, l, w = arr(-far, far), arr(-far, far), arr(-7, 7), arr(0, 9), arr(0, 4)
    color = np.array([[r.randrange(len(visualizations.WAYMO_COLORS)) for _ in range(steps)] for _ in range(n)], dtype=np.int32).reshape(n, steps)
    vh.crumb((s, x, y, yaw, l, w, color))
    vh.nontrivial(before + x.tobytes() + yaw.tobytes())
    tol = 1e-9 * far + 1e-8 if dt == np.float64 else (1e-5 + 4e-6 * (far + 10))
    ax = Axis()
    if r.random() < .4:
        visualizations.add_map(ax, s)
        check_map(ax, want)
    else:
        if r.random() < .5:
            visualizations.add_map(ax, scenario_pb2.Scenario())
        other = patches.Rectangle((0, 0), 1, 1)
        if r.random() < .3:
            ax.add_patch(other)
        fig = object()
        T = tf.constant
        ani = visualizations.get_animated_states(fig, ax, s, T(x), T(y), T(yaw), T(l), T(w), T(color))
        vh.expect(ani.fig is fig and (ani.frames if isinstance(ani.frames, int) else len(list(ani.frames))) == steps, "frames", lambda: "%s want %d" % (ani.frames, steps))
        order = list(range(steps))
        if r.random() < .5:
            r.shuffle(order)
        for t in order:
            out = ani.func(t)
            on = [p for p in ax.patches]
            vh.expect(len(on) == n and len(out) == n and all(a is b for a, b in zip(on, out)), "frame_boxes", lambda: "step %d shows %d of %d objects, %d are returned" % (t, len(on), n, len(out)))
            for i in range(n):
                check_box(on[i], float(x[i, t]), float(y[i, t]), float(yaw[i, t]), float(l[i, t]), float(w[i, t]), int(color[i, t]), tol)
            vh.count("frames")
        check_map(ax, want)
    vh.expect(s.SerializeToString() == before, "scenario", "the scenario was changed")


vh.main([("examples", 4, example_case), ("tokens", 1, tokens_case), ("codebook", 1, codebook_case), ("draw", 2, draw_case)])
