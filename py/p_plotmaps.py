"""Plots of map data (C32)."""
import vh
from waymo_open_dataset.protos import map_pb2
from waymo_open_dataset.utils import plot_maps

# What is drawn, by the name of the kind of feature: colour, dash, is it a lane.
STYLE = {
    ("lane", "TYPE_UNDEFINED"): ("black", "solid"),
    ("lane", "TYPE_FREEWAY"): ("white", "solid"),
    ("lane", "TYPE_SURFACE_STREET"): ("royalblue", "solid"),
    ("lane", "TYPE_BIKE_LANE"): ("magenta", "solid"),
    ("road_line", "TYPE_UNKNOWN"): ("black", "solid"),
    ("road_edge", "TYPE_UNKNOWN"): ("black", "solid"),
    ("road_edge", "TYPE_ROAD_EDGE_BOUNDARY"): ("green", "solid"),
    ("road_edge", "TYPE_ROAD_EDGE_MEDIAN"): ("green", "solid"),
    ("stop_sign", None): ("red", "solid"),
    ("crosswalk", None): ("orange", "solid"),
    ("speed_bump", None): ("cyan", "solid"),
    ("driveway", None): ("blue", "solid"),
}
for t in map_pb2.RoadLine.RoadLineType.keys():
    if t != "TYPE_UNKNOWN":
        STYLE["road_line", t] = ("yellow" if "YELLOW" in t else "lightgray", "dash" if "BROKEN" in t or "PASSING" in t else "solid")
KINDS = sorted(STYLE, key=str)
POLYGONS = ("crosswalk", "speed_bump", "driveway")


def coord(r):
    return r.choice([r.uniform(-3000, 3000), float(r.randint(-3, 3)), 0.0, -0.0, r.uniform(-1, 1) * 10.0 ** r.randint(-9, 9)])


def point(r, p):
    p.x, p.y, p.z = coord(r), coord(r), coord(r)
    return p.x, p.y, p.z


def add(r, f, kind):
    """Fills the feature; returns its points as they are drawn."""
    name, t = kind
    m = getattr(f, name)
    m.SetInParent()
    if t is not None and not (t.endswith(("UNKNOWN", "UNDEFINED")) and r.random() < .5):
        m.type = type(m).DESCRIPTOR.fields_by_name["type"].enum_type.values_by_name[t].number
    if name == "stop_sign":
        if r.random() < .5:
            m.lane.extend([r.randint(0, 9) for _ in range(r.randint(0, 3))])
        return [point(r, m.position)]
    if name == "lane" and r.random() < .3:
        m.speed_limit_mph = r.uniform(0, 70)
        m.entry_lanes.extend([r.randint(0, 99)])
    field = m.polygon if name in POLYGONS else m.polyline
    pts = [point(r, field.add()) for _ in range(r.choice([0, 1, 1, 2, 2, 3, 4, 5, 8, 20]) if r.random() < .995 else r.choice([300, 2500]))]
    if pts and r.random() < .2:  # the same point again
        q = field.add()
        q.x, q.y, q.z = pts[0]
        pts.append(pts[0])
    if name in POLYGONS and pts:
        return pts + pts[:1]
    return pts


def points_of(t):
    return list(zip(*[[float(v) for v in (a if a is not None else [])] for a in (t.x, t.y, t.z)]))


def check_figure(fig, want):
    """want: list of (kind, points) without the empty ones, in order."""
    # Joined traces: one for each feature, all points and in order.
    # A stop sign may be a line of one point or a marker of its own.
    big = [t for t in fig.data if t.mode == "lines" or (t.mode == "markers" and t.marker.size is not None and t.marker.size > 2)]
    got = [(points_of(t), t) for t in big]
    vh.expect(len(got) == len(want), "features", lambda: "%d traces of features, want %d: %s" % (len(got), len(want), [k for k, _ in want]))
    width = {True: set(), False: set()}
    left = list(got)
    for kind, pts in want:
        style = STYLE[kind]
        hit = None
        for i, (p, t) in enumerate(left):
            if p != pts:
                continue
            c = t.line.color if t.mode == "lines" else t.marker.color
            same = t.line.dash in (None, style[1]) if t.mode == "lines" and style[1] == "solid" else t.line.dash == style[1] if t.mode == "lines" else kind[0] == "stop_sign"
            if c == style[0] and same:
                hit = i
                break
        vh.expect(hit is not None, "feature_%s_%s" % kind, lambda: "no trace %s of %s in %s" % (style, pts, [(p, t.mode, t.line.color, t.line.dash) for p, t in got if p == pts] or [p for p, _ in got]))
        t = left.pop(hit)[1]
        if t.mode == "lines":
            width[kind[0] == "lane" and kind[1] != "TYPE_UNDEFINED"].add(t.line.width)
        vh.count("features_plotted")
        vh.count("closed_polygons" if kind[0] in POLYGONS else "open_lines")
    if width[True]:
        vh.expect(len(width[True]) == 1 and (not width[False] or min(width[True]) > max(width[False])), "width", lambda: "lanes %s others %s" % (width[True], width[False]))
        vh.count("lane_widths")
    # The points themselves, in the colour of their feature.
    dots = [t for t in fig.data if t.mode == "markers" and t not in big]
    have = sorted((p, t.marker.color) for t in dots for p in points_of(t))
    need = sorted((p, STYLE[k][0]) for k, pts in want for p in pts)
    vh.expect(have == need, "points", lambda: "%s want %s" % (have, need))
    vh.count("points_plotted", len(need))


def features_case(r):
    n = r.choice([0, 1, 1, 2, 3, 5, 8, 12])
    ids = r.sample(range(1, 60), n) if r.random() < .5 else [r.randint(0, 3) + 4 * i for i in range(n)]
    if r.random() < .2:
        ids = [i * 10 ** 12 for i in ids]
    feats, want, blank = [], [], 0
    for i in range(n):
        f = map_pb2.MapFeature(id=ids[i])
        if r.random() < .06:  # no data at all
            blank += 1
        else:
            kind = r.choice(KINDS)
            pts = add(r, f, kind)
            if pts:
                want.append((kind, pts))
            else:
                blank += 1
        feats.append(f)
    before = [f.SerializeToString() for f in feats]
    vh.crumb(feats)
    vh.sample(feats)
    if len(want) > 1:
        vh.nontrivial(b"|".join(before))
    fig = plot_maps.plot_map_features(feats)
    check_figure(fig, want)
    vh.expect(before == [f.SerializeToString() for f in feats], "input", "the features were changed")
    vh.count("blank_features", blank)
    if not want:
        vh.count("empty_maps")


def points_case(r):
    """The container of points, filled by hand."""
    m = plot_maps.MapPoints()
    names = {
        "FREEWAY_LANE": ("lane", "TYPE_FREEWAY"), "SURFACE_STREET_LANE": ("lane", "TYPE_SURFACE_STREET"), "BIKE_LANE": ("lane", "TYPE_BIKE_LANE"),
        "UNKNOWN_FEATURE": ("road_line", "TYPE_UNKNOWN"), "ROAD_EDGE_BOUNDARY": ("road_edge", "TYPE_ROAD_EDGE_BOUNDARY"), "ROAD_EDGE_MEDIAN": ("road_edge", "TYPE_ROAD_EDGE_MEDIAN"),
        "STOP_SIGN": ("stop_sign", None), "CROSSWALK": ("crosswalk", None), "SPEED_BUMP": ("speed_bump", None), "DRIVEWAY": ("driveway", None)}
    for t in map_pb2.RoadLine.RoadLineType.keys():
        if t != "TYPE_UNKNOWN":
            names[t[5:] + "_BOUNDARY"] = ("road_line", t)
    want = []
    for i in range(r.choice([0, 1, 2, 4])):
        ft = r.choice(list(plot_maps.FeatureType))
        vh.expect(ft.name in names, "type_" + ft.name, "a type of feature without a kind")
        pts = []
        for _ in range(r.randint(1, 5)):
            p = map_pb2.MapPoint()
            pts.append(point(r, p))
            m.append_point(p, ft, 3 * i + 1)
        want.append((names[ft.name], pts))
    vh.crumb(m)
    if len(want) > 1:
        vh.nontrivial(repr(want).encode())
    flat = [p for _, pts in want for p in pts]
    vh.expect(list(zip(m.x, m.y, m.z)) == flat and len(m.types) == len(m.ids) == len(flat), "container", lambda: "%s" % m)
    check_figure(plot_maps.plot_map_points(m), want)
    vh.count("containers")


vh.main([("features", 4, features_case), ("points", 1, points_case)])
