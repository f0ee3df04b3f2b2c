"""C36: occupancy and flow grids of scenes seen from above."""
import importlib
import itertools
import math

from vlib.pyrun import guarded
from . import detlib as D
from . import tfs

CS = [(5, 0), (0, 5), (-5, 0), (0, -5), (4, 3), (-3, 4), (-4, -3), (3, -4)]
NAMES = ["vehicles", "pedestrians", "cyclists"]
_M = {}


def mods():
    if not _M:
        tfs.install()
        D.pb()
        imp = importlib.import_module
        _M["g"] = imp("waymo_open_dataset.utils.occupancy_flow_grids")
        _M["r"] = imp("waymo_open_dataset.utils.occupancy_flow_renderer")
        _M["d"] = imp("waymo_open_dataset.utils.occupancy_flow_data")
        _M["pb"] = D.module("protos.occupancy_flow_metrics_pb2")
        import numpy
        import tensorflow
        _M["np"], _M["tf"] = numpy, tensorflow
    return _M


def ang(a):
    return math.atan2(a[1], a[0])


def config(sc, cumul):
    c = _M["pb"].OccupancyFlowTaskConfig()
    c.num_past_steps, c.num_future_steps, c.num_waypoints = sc["past"], sc["fut"], sc["fut"] // sc["wp"]
    c.cumulative_waypoints, c.normalize_sdc_yaw = cumul, sc["norm"]
    c.grid_height_cells, c.grid_width_cells, c.sdc_y_in_grid, c.sdc_x_in_grid = sc["h"], sc["w"], sc["sy"], sc["sx"]
    c.pixels_per_meter = sc["ppm"][0] / sc["ppm"][1]
    c.agent_points_per_side_length, c.agent_points_per_side_width = sc["nl"], sc["nw"]
    return c


def inputs(scenes, roads):
    """the tensors of a batch of scenes; the vehicle itself is an agent of another type"""
    np, tf = _M["np"], _M["tf"]
    past, fut = scenes[0]["past"], scenes[0]["fut"]
    T, A = past + 1 + fut, max(len(s["agents"]) for s in scenes) + 1
    f = {k: np.full((len(scenes), A, T), -1.0, dtype=np.float32) for k in ("x", "y", "z", "bbox_yaw", "length", "width")}
    valid = np.zeros((len(scenes), A, T), dtype=np.int64)
    typ = np.full((len(scenes), A), -1.0, dtype=np.float32)
    sdc = np.zeros((len(scenes), A), dtype=np.int64)
    for b, s in enumerate(scenes):
        at = s["at"]
        rows = s["agents"][:at] + [None] + s["agents"][at:]
        for i, a in enumerate(rows):
            for t in range(T):
                if a is None:
                    p, v = dict(s["sdc"], l=450, w=200), True
                else:
                    p, v = a["st"][t], a["st"][t]["v"]
                if v or a is None:
                    for k, x in (("x", p["x"] / 100), ("y", p["y"] / 100), ("z", t % 3), ("bbox_yaw", ang(p["yaw"])), ("length", p["l"] / 100), ("width", p["w"] / 100)):
                        f[k][b, i, t] = x
                valid[b, i, t] = v
            typ[b, i] = a["type"] if a else 4
            sdc[b, i] = a is None
    r = {}
    for name, lo, hi in (("past", 0, past), ("current", past, past + 1), ("future", past + 1, T)):
        for k in f:
            r["state/%s/%s" % (name, k)] = tf.constant(f[k][:, :, lo:hi])
        r["state/%s/valid" % name] = tf.constant(valid[:, :, lo:hi])
    r["state/type"] = tf.constant(typ)
    r["state/is_sdc"] = tf.constant(sdc)
    n = max(len(x) for x in roads)
    xyz, rv = np.full((len(scenes), n, 3), -1.0, dtype=np.float32), np.zeros((len(scenes), n, 1), dtype=np.int64)
    for b, x in enumerate(roads):
        for i, (px, py, v) in enumerate(x):
            xyz[b, i], rv[b, i, 0] = [px / 100, py / 100, i], v
    r["roadgraph_samples/xyz"], r["roadgraph_samples/valid"] = tf.constant(xyz), tf.constant(rv)
    return _M["d"].add_sdc_fields(r)


def cells(g, b, odd):
    """for every step the cells that are set; anything but 0 and 1 is odd"""
    np = _M["np"]
    g = tfs.N(g)[b]
    odd += [float(x) for x in np.unique(g) if x not in (0, 1)]
    out = [[] for _ in range(g.shape[-1])]
    for y, x, t in zip(*np.nonzero(g)):
        out[t].append([int(x), int(y)])
    return out


def milli(v):
    v = float(v)
    return int(math.floor(v * 1000 + .5)) if math.isfinite(v) else 10 ** 8


def field(g, b):
    """nonzero cells of a [h, w, 2] or [h, w, 1] field"""
    np = _M["np"]
    g = tfs.N(g)[b] if b is not None else g
    return [[int(x), int(y)] + [milli(v) for v in g[y, x]] for y, x in zip(*np.nonzero((g != 0).any(axis=-1)))]


def steps(g, b):
    g = tfs.N(g)[b]
    return [field(g[:, :, t], None) for t in range(g.shape[2])]


def core(s):
    return {k: s[k] for k in s if k != "at"}


def case_scene(c):
    np, M = _M["np"], _M
    scs, roads = c["scenes"], c["roads"]
    cfg = config(scs[0], c["cumul"])
    inp = inputs(scs, roads)
    g = M["g"].create_ground_truth_timestep_grids(inp, cfg)
    refused = False
    try:
        w = M["g"].create_ground_truth_waypoint_grids(g, cfg)
    except ValueError:
        refused, w = True, None
    vis = M["g"].create_ground_truth_vis_grids(inp, g, cfg)
    out = []
    ALL = ["past", "current", "future"]
    s0 = scs[0]
    shape = [len(scs), s0["h"], s0["w"]]
    T = s0["past"] + 1 + s0["fut"]
    for b, s in enumerate(scs):
        odd, sc = [], core(s)
        kinds = {}
        for k, n in (("current_occupancy", 1), ("past_occupancy", s["past"]), ("future_observed_occupancy", s["fut"]), ("future_occluded_occupancy", s["fut"]), ("all_occupancy", T)):
            kinds[k] = [cells(getattr(getattr(g, y), k), b, odd) for y in NAMES]
            odd += [str(tfs.N(getattr(getattr(g, y), k)).shape) for y in NAMES if list(tfs.N(getattr(getattr(g, y), k)).shape) != shape + [n]]
        flow = [steps(getattr(g, y).all_flow, b) for y in NAMES]
        for k, times, obs, occ in (("current_occupancy", ["current"], True, True), ("past_occupancy", ["past"], True, True), ("future_observed_occupancy", ["future"], True, False), ("future_occluded_occupancy", ["future"], False, True), ("all_occupancy", ALL, True, True)):
            out.append(dict(t="draw", sc=sc, times=times, obs=obs, occ=occ, got=kinds[k], refused=False, ended=""))
        out.append(dict(t="flow", sc=sc, times=ALL, obs=True, occ=True, got=flow, refused=False, ended=""))
        e = dict(t="way", sc=sc, cumul=c["cumul"], fobs=kinds["future_observed_occupancy"], focc=kinds["future_occluded_occupancy"], all=kinds["all_occupancy"], flow=flow, refused=refused, ended="", wobs=[], wocc=[], worig=[], wflow=[])
        pairs = []
        if not refused:
            for y in NAMES:
                v = getattr(w, y)
                for k, src in (("wobs", v.observed_occupancy), ("wocc", v.occluded_occupancy), ("worig", v.flow_origin_occupancy)):
                    odd += [str(tfs.N(x).shape) for x in src if list(tfs.N(x).shape) != shape + [1]]
                    e[k].append([cells(x, b, odd)[0] for x in src])
                e["wflow"].append([field(x, b) for x in v.flow])
            for i in range(s["fut"] // s["wp"]):
                for what, got, k in (("observed", w.get_observed_occupancy_at_waypoint(i), "wobs"), ("hidden", w.get_occluded_occupancy_at_waypoint(i), "wocc")):
                    pairs.append([what + " at a waypoint", [e[k][j][i] for j in range(3)], [cells(getattr(got, y), b, odd)[0] for y in NAMES]])
                fl = w.get_flow_at_waypoint(i)
                pairs.append(["flow at a waypoint", [e["wflow"][j][i] for j in range(3)], [field(getattr(fl, y), b) for y in NAMES]])
        out.append(e)
        out.append(dict(t="road", sc=sc, pts=roads[b], got=cells(vis.roadgraph, b, odd)[0], ended=""))
        u = lambda gs: [list(p) for p in sorted({tuple(p) for g1 in gs for p in g1})]
        out.append(dict(t="trail", past=[u([kinds["past_occupancy"][j][t] for j in range(3)]) for t in range(s["past"])], now=u([kinds["current_occupancy"][j][0] for j in range(3)]), got=field(vis.agent_trails, b), ended=""))
        pairs.append(["grids are of zeros and ones and of the size asked for", [], odd])
        out.append(dict(t="pairs", pairs=pairs, ended=""))
    return out


def case_draw(c):
    M = _M
    cfg = config(c["scenes"][0], False)
    inp = inputs(c["scenes"], c["roads"])
    kw = dict(inputs=inp, times=c["times"], config=cfg, include_observed=c["obs"], include_occluded=c["occ"])
    out, g = [], None
    try:
        g = (M["r"].render_flow_from_inputs if c["flow"] else M["r"].render_occupancy_from_inputs)(**kw)
    except ValueError:
        pass
    for b, s in enumerate(c["scenes"]):
        odd = []
        got = [] if g is None else [steps(getattr(g, y), b) if c["flow"] else cells(getattr(g, y), b, odd) for y in NAMES]
        out.append(dict(t="flow" if c["flow"] else "draw", sc=core(s), times=c["times"], obs=c["obs"], occ=c["occ"], got=got, refused=g is None, ended=""))
        out.append(dict(t="pairs", pairs=[["grids are of zeros and ones", [], odd]], ended=""))
    return out


DO = {"scene": case_scene, "draw": case_draw}


def one(c):
    try:
        return DO[c["t"]](c)
    except tfs.NotModelled:
        return []


def rand_scene(rng, like=None):
    wp = rng.choice([1, 2, 3])
    s = {"h": rng.choice([3, 5, 8]), "w": rng.choice([3, 6, 9]), "sx": rng.randint(-1, 6), "sy": rng.randint(-1, 6), "ppm": rng.choice([[1, 1], [2, 1], [1, 2], [16, 5]]), "norm": rng.random() < .6,
         "nl": rng.choice([1, 2, 3, 5]), "nw": rng.choice([1, 2, 3]), "past": rng.choice([1, 2, 3]), "wp": wp, "fut": wp * rng.choice([1, 2, 3])}
    if like:
        s = {k: like[k] for k in s}
    ox, oy = rng.choice([(0, 0), (0, 0), (3000, -1500)])
    s["sdc"] = {"x": ox + rng.randint(-90, 90), "y": oy + rng.randint(-90, 90), "yaw": list(rng.choice(CS))}
    agents = []
    size = 100 * s["ppm"][1] / s["ppm"][0]
    for _ in range(rng.choice([1, 1, 2, 3])):
        L, W = rng.randint(30, 480), rng.randint(30, 250)
        x, y = [s["sdc"][k] + int(size * rng.uniform(-4, 4)) for k in "xy"]
        yaw = rng.choice(CS)
        pv = rng.choice([1, .7, .4])
        late = rng.random() < .3
        vx, vy = [int(size * rng.choice([0, 0, 1, -1, .4, 1.7, 2.3])) for _ in "xy"]
        st = []
        for t in range(s["past"] + 1 + s["fut"]):
            if rng.random() < .15:
                yaw = rng.choice(CS)
            if rng.random() < .2:
                vx, vy = int(size * rng.uniform(-2, 2)), int(size * rng.uniform(-2, 2))
            x, y = x + vx, y + vy
            st.append({"x": x, "y": y, "yaw": list(yaw), "l": L, "w": W, "v": rng.random() < pv and not (late and t <= s["past"])})
        agents.append({"type": rng.choice([1, 1, 2, 3, 4]), "st": st})
    s["agents"] = agents
    s["at"] = rng.randint(0, len(agents))
    return s


def rand_roads(rng, s):
    size = 100 * s["ppm"][1] / s["ppm"][0]
    return [[s["sdc"]["x"] + int(size * rng.uniform(-6, 6)), s["sdc"]["y"] + int(size * rng.uniform(-6, 6)), int(rng.random() < .7)] for _ in range(rng.choice([1, 5, 12]))]


def rand_batch(rng):
    a = rand_scene(rng)
    scs = [a] + [rand_scene(rng, a) for _ in range(rng.choice([0, 0, 1]))]
    return {"scenes": scs, "roads": [rand_roads(rng, s) for s in scs]}


def rand_case(rng):
    c = dict(rand_batch(rng), t="scene", cumul=rng.random() < .5)
    return c


def rand_draw(rng):
    fl = rng.random() < .4
    times = ["past", "current", "future"] if fl else rng.choice([["past"], ["current"], ["future"], ["past", "current"], ["current", "future"], ["past", "current", "future"]])
    obs, occ = rng.choice([(True, False), (False, True), (True, True), (False, False)]) if "future" in times else (True, True)
    return dict(rand_batch(rng), t="draw", flow=fl, times=times, obs=obs, occ=occ)


CFG = """SPECIFICATION Spec
CONSTANTS Places = {%s}
Past = 1
Fut = 2
Wps = {%s}
Emit = TRUE
INVARIANTS Split Centre Ahead Traced Known PrintCase
"""


def run(ctx):
    rng = ctx.rng
    mods()
    cs = ctx.model_cases("MC_OccFlow", CFG % (ctx.pick("0, 2", "0, 1, 2"), ctx.pick("2", "1, 2")), name="agents on a grid, seen and hidden")
    rng.shuffle(cs)
    cases = []
    for s in cs[:ctx.pick(300, 6000)]:
        for a in s["agents"]:
            for p in a["st"]:
                p["yaw"] = list(rng.choice(CS[:4]))
        s["at"] = rng.randint(0, 2)
        cases.append({"t": "scene", "scenes": [s], "roads": [[[0, 100, 1], [100, 0, 0], [200, 0, 1]]], "cumul": rng.random() < .5})
    n = ctx.pick(1, 12)
    cases += [rand_case(rng) for _ in range(300 * n)] + [rand_draw(rng) for _ in range(250 * n)]
    events, skipped = [], 0
    for c, r in zip(cases, guarded(one, cases, timeout=60)):
        if "ok" in r:
            events += r["ok"]
            skipped += not r["ok"]
        else:
            events.append({"t": c["t"], "ended": r["exc"] + ": " + r["msg"][:100], "_case": c})
    ctx.log("%d events, %d cases use operations not stood in for" % (len(events), skipped))
    rng.shuffle(events)
    ctx.validate("TraceOccFlow", [events[i:i + 60] for i in range(0, len(events), 60)], "occupancy and flow", samples=len(events))
