"""C34: simulated agents, the edges of the road and red lights."""
import math

from vlib.pyrun import guarded
from . import detlib as D
from . import tfs

DIRS = [(5, 0), (0, 5), (-5, 0), (0, -5), (4, 3), (-3, 4), (-4, -3), (3, -4)]
_M = {}


def mods():
    if not _M:
        tfs.install()
        D.pb()
        import importlib
        base = "waymo_open_dataset.wdl_limited.sim_agents_metrics."
        _M["edge"] = importlib.import_module(base + "map_metric_features")
        _M["light"] = importlib.import_module(base + "traffic_light_features")
        _M["map"] = D.module("protos.map_pb2")
        import numpy
        _M["np"] = numpy
        import tensorflow
        _M["tf"] = tensorflow
    return _M


def f32(g, k=1.0):
    np = _M["np"]
    return _M["tf"].constant((np.array(g, dtype=np.float64) * k).astype(np.float32))


def mask(m):
    return _M["tf"].constant(_M["np"].array(m, dtype=bool))


def points(p, k):
    return [_M["map"].MapPoint(x=a[0] * k, y=a[1] * k, z=(a[2] if len(a) > 2 else 0) * k) for a in p]


def case_edge(c):
    M = mods()
    k = c["q"] / 4
    g = lambda f: [[f(x) for x in row] for row in c["boxes"]]
    e = dict({x: c[x] for x in ("edges", "boxes", "valid", "judged", "q")}, t="edge", got=[], refused=False, ended="")
    try:
        r = M["edge"].compute_distance_to_road_edge(
            center_x=f32(g(lambda x: x["x"]), k), center_y=f32(g(lambda x: x["y"]), k), center_z=f32(g(lambda x: x["z"] + c["tall"] / 2), k),
            length=f32(g(lambda x: 2 * x["l"]), k), width=f32(g(lambda x: 2 * x["w"]), k), height=f32(g(lambda x: c["tall"]), k),
            heading=f32(g(lambda x: math.atan2(DIRS[x["d"] - 1][1], DIRS[x["d"] - 1][0]))), valid=mask(c["valid"]), evaluated_object_mask=mask(c["judged"]),
            road_edge_polylines=[points(p, k) for p in c["edges"]])
    except ValueError:
        e["refused"] = True
        return e
    e["got"] = [[-1000000000 if x < -1e6 else int(round(max(-1e6, min(1e6, float(x) / k * 100)))) if x == x else 2000000 for x in row] for row in tfs.N(r)]
    return e


def case_light(c):
    M = mods()
    k = c["q"] / 4
    e = dict({x: c[x] for x in ("lanes", "xy", "valid", "judged", "signals")}, t="light", got=[], refused=False, ended="")
    sig = []
    for s in c["signals"]:
        row = []
        for x in s:
            m = M["map"].TrafficSignalLaneState(lane=x["lane"], state=x["state"])
            m.stop_point.x, m.stop_point.y, m.stop_point.z = x["stop"][0] * k, x["stop"][1] * k, 1
            row.append(m)
        sig.append(row)
    try:
        r = M["light"].compute_red_light_violation(
            center_x=f32([[p[0] for p in row] for row in c["xy"]], k), center_y=f32([[p[1] for p in row] for row in c["xy"]], k), valid=mask(c["valid"]),
            evaluated_object_mask=mask(c["judged"]), lane_polylines=[points(x["pts"], k) for x in c["lanes"]], lane_ids=[x["id"] for x in c["lanes"]], traffic_signals=sig)
    except ValueError:
        e["refused"] = True
        return e
    e["got"] = [[bool(x) for x in row] for row in tfs.N(r)]
    return e


DO = {"edge": case_edge, "light": case_light}


def one(c):
    try:
        return [DO[c["t"]](c)]
    except tfs.NotModelled:
        return []


def who(rng, O, T):
    p = rng.choice([1, 1, .8])
    j = [rng.random() < .7 for _ in range(O)]
    j[rng.randrange(O)] = True
    return {"valid": [[rng.random() < p for _ in range(T)] for _ in range(O)], "judged": j, "q": rng.choice([4, 4, 1, 2, 8])}


def straight(pts, p):
    """whether going on to p would turn back on the spot, or not move"""
    a = pts[-1]
    if p[:2] == a[:2]:
        return True
    if len(pts) < 2:
        return False
    b = pts[-2]
    u, w = (a[0] - b[0], a[1] - b[1]), (p[0] - a[0], p[1] - a[1])
    return u[0] * w[1] - u[1] * w[0] == 0 and u[0] * w[0] + u[1] * w[1] < 0


def polyline(rng, n, k, z=0, slope=False):
    pts = [[rng.randint(-k, k), rng.randint(-k, k), z]]
    while len(pts) < n:
        p = [rng.randint(-k, k), rng.randint(-k, k), z + (rng.randint(-1, 1) if slope else 0)]
        if not straight(pts, p):
            pts.append(p)
    return pts


def ring(rng, k, z):
    """a star-shaped closed polyline about a point, counter-clockwise or not"""
    n = rng.choice([3, 3, 4, 5, 6])
    cx, cy = rng.randint(-k, k), rng.randint(-k, k)
    pts = []
    for a in sorted(rng.random() * 2 * math.pi for _ in range(n)):
        r = rng.uniform(1.5, 8)
        p = [int(round(cx + r * math.cos(a))), int(round(cy + r * math.sin(a))), z]
        if not pts or not straight(pts, p):
            pts.append(p)
    if rng.random() < .3:
        pts.reverse()
    if len(pts) < 3 or straight(pts, pts[0]) or straight(pts + [pts[0]], pts[1]):
        return ring(rng, k, z)
    if rng.random() < .12:      # the ends a unit apart: not closed
        return pts + [[pts[0][0] + rng.choice([-1, 1]), pts[0][1], z]]
    return pts + [list(pts[0])] if rng.random() < .8 else pts


def rand_edge(rng):
    n = rng.choice([0] + [1] * 6 + [2] * 6 + [3, 4]) if rng.random() < .5 else rng.choice([1, 2, 3])
    edges = []
    for _ in range(n):
        z = rng.choice([0, 0, 0, 1, 3])
        edges.append(ring(rng, 5, z) if rng.random() < .5 else polyline(rng, rng.choice([2, 2, 3, 4, 6]), 8, z, rng.random() < .15))
    if n and rng.random() < .2:
        edges.insert(rng.randrange(len(edges) + 1), polyline(rng, rng.choice([0, 1]) and 1, 3) if rng.random() < .7 else [])
    O, T = rng.choice([1, 1, 2, 3]), rng.choice([1, 2, 3])
    size = [(rng.choice([0, 5, 5, 10]), rng.choice([0, 5])) for _ in range(O)]

    def box(o):
        d = rng.randint(1, 8)
        l, w = size[o] if d > 4 or rng.random() < .3 else (rng.randint(0, 3), rng.randint(0, 2))
        return {"x": rng.randint(-9, 9), "y": rng.randint(-9, 9), "z": rng.choice([0, 0, 0, 1, 3]), "l": l, "w": w, "d": d}
    return dict(who(rng, O, T), t="edge", edges=edges, tall=rng.choice([2, 4]), boxes=[[box(o) for _ in range(T)] for o in range(O)])


def rand_light(rng):
    n = rng.choice([1, 2, 2, 3, 4])
    ids = rng.sample([1, 2, 7, 9, 31, 100, 205, 333], 8)
    lanes = []
    for i in range(n):
        if rng.random() < .3:
            p = polyline(rng, rng.choice([2, 3, 5]), 9)
        else:                                      # a lane to the right or upwards that bends a little
            x, y = rng.randint(-9, 3), rng.randint(-9, 9)
            p = [[x, y, 0]]
            up = rng.random() < .3
            for _ in range(rng.choice([1, 1, 2, 3, 4])):
                a, b = rng.randint(2, 6), rng.choice([0, 0, 1, -1, 2])
                x, y = (x + b, y + a) if up else (x + a, y + b)
                p.append([x, y, 0])
        lanes.append({"id": ids[i], "pts": [q[:2] for q in p]})
    if rng.random() < .1:
        lanes.insert(rng.randrange(n), {"id": ids[6], "pts": [lanes[0]["pts"][0]]})
    O, T = rng.choice([1, 2, 3]), rng.choice([2, 3, 4, 5])
    lit = rng.sample(lanes, rng.randint(0, len(lanes)))
    lit = [x for x in lit if len(x["pts"]) > 1]

    def on(lane):
        i = rng.randrange(len(lane["pts"]) - 1)
        a, b = lane["pts"][i:i + 2]
        f = rng.choice([0, .5, .5, .3, 1])
        return [int(round(a[j] + f * (b[j] - a[j]))) for j in (0, 1)]
    stops = {x["id"]: on(x) for x in lit}
    signals = []
    for t in range(T):
        row = [{"lane": x["id"], "state": rng.choice([4, 4, 4, 1, 1, 7, 6, 0, 5]), "stop": on(x) if rng.random() < .1 else stops[x["id"]]} for x in lit if rng.random() < .9]
        if rng.random() < .1:
            row.append({"lane": 555, "state": 4, "stop": [0, 0]})
        rng.shuffle(row)
        signals.append(row)
    xy = []
    for o in range(O):
        base = rng.choice([x for x in lanes if len(x["pts"]) > 1])
        row = []
        for t in range(T):
            i = min(t * len(base["pts"]) // T, len(base["pts"]) - 2) if rng.random() < .6 else rng.randrange(len(base["pts"]) - 1)
            a, b = base["pts"][i:i + 2]
            f = (t + .5) / T if len(base["pts"]) == 2 else rng.random()
            row.append([int(round(a[j] + f * (b[j] - a[j]))) + rng.choice([0, 0, 0, 1, -1]) for j in (0, 1)])
        xy.append(row)
    c = dict(who(rng, O, T), t="light", lanes=lanes, signals=signals, xy=xy)
    if rng.random() < .02:
        c[rng.choice(["lanes", "signals"])] = []
    return c


EDGE = """SPECIFICATION Spec
CONSTANTS Coords = {%s}
MaxPts = %d
Views = {%s}
RingsOn = TRUE
Emit = TRUE
INVARIANTS Flips Cut Twice Above Walled Sure PrintCase
"""
LIGHT = """SPECIFICATION Spec
CONSTANTS Xs = {%s}
Ys = {0, 1, 3}
States = {%s}
MaxT = %d
Emit = TRUE
INVARIANTS OnlyAtRed BackBetween OtherLane PrintCase
"""
LANES = [{"id": 7, "pts": [[0, 0], [4, 0], [8, 4]]}, {"id": 9, "pts": [[0, 3], [4, 3]]}]


def run(ctx):
    rng = ctx.rng
    mods()
    cases = []
    views = [0, 1, 2, 4]
    for c in ctx.model_cases("MC_RoadEdge", EDGE % (ctx.pick("0,2,3", "0,1,2,3"), ctx.pick(4, 4), ",".join(map(str, views))), name="edges seen from all around"):
        p = [[{"x": x, "y": y, "z": 0, "l": 0, "w": 0, "d": 1} for x in views] for y in views]
        other = [[[50, 50, 0]] * 0] if rng.random() < .5 else [[[40 + i, 40 + i * i, 0] for i in range(8)]]
        cases.append({"t": "edge", "edges": [c["pts"]] + [x for x in other if x], "boxes": p, "valid": [[True] * 4] * 4, "judged": [True] * 4, "q": 4, "tall": 2})
    cs = ctx.model_cases("MC_RedLight", LIGHT % (ctx.pick("0,1,2,3,6", "0,1,2,3,6"), ctx.pick("4,6", "1,4,6,7"), ctx.pick(2, 2)), name="two lanes and a light")
    cs += ctx.model_cases("MC_RedLight", LIGHT % ("1,2,3", ctx.pick("4", "1,6"), 3), name="two lanes and a light, three steps")
    rng.shuffle(cs)
    for c in cs[:ctx.pick(700, 8000)]:
        T = len(c["path"])
        far = [{"id": 3, "pts": [[60, 60], [61, 60], [62, 60], [63, 60], [64, 61]]}] if rng.random() < .5 else []
        cases.append({"t": "light", "lanes": LANES + far, "xy": [c["path"]], "valid": [[True] * T], "judged": [True], "q": 4,
                      "signals": [[{"lane": 7, "state": s, "stop": [2, 0]}] for s in c["lights"]]})
    n = ctx.pick(1, 10)
    cases += [rand_edge(rng) for _ in range(1200 * n)] + [rand_light(rng) for _ in range(1800 * n)]
    events, skipped = [], 0
    for c, r in zip(cases, guarded(one, cases, timeout=60)):
        if "ok" in r:
            events += r["ok"]
            skipped += not r["ok"]
        else:
            events.append({"t": c["t"], "ended": r["exc"] + ": " + r["msg"][:100]})
    ctx.log("%d events, %d cases use operations not stood in for; %d violations of lights" %
            (len(events), skipped, sum(x for e in events if e["t"] == "light" and not e["ended"] for r in e["got"] for x in r)))
    rng.shuffle(events)
    ctx.validate("TraceRoadMap", [events[i:i + 100] for i in range(0, len(events), 100)], "simulated agents on the map", samples=len(events))
