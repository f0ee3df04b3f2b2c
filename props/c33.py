"""C33: motion of and distances between simulated agents."""
import math

from vlib.pyrun import guarded
from . import detlib as D
from . import tfs

DIRS = [(5, 0), (0, 5), (-5, 0), (0, -5), (4, 3), (3, 4), (-4, 3), (-3, -4), (4, -3), (84, 13), (84, -13), (-84, 13), (-84, -13), (13, 84)]
UNDEF = -2000000000
HUGE = 1000000000
_M = {}


def mods():
    if not _M:
        tfs.install()
        D.pb()
        import importlib
        base = "waymo_open_dataset.wdl_limited.sim_agents_metrics."
        _M["near"] = importlib.import_module(base + "interaction_features")
        _M["traj"] = importlib.import_module(base + "trajectory_features")
        import numpy
        _M["np"] = numpy
        import tensorflow
        _M["tf"] = tensorflow
    return _M


def num(x, k):
    x = float(x)
    return UNDEF if math.isnan(x) else int(round(max(-1e9, min(1e9, x * k))))


def f32(g, k=1.0):
    np = _M["np"]
    return _M["tf"].constant((np.array(g, dtype=np.float64) * k).astype(np.float32))


def heading(d, flip):
    c, s = DIRS[d - 1]
    if (c, s) == (-5, 0):
        return -math.pi if flip else math.pi
    return math.atan2(s, c)


def case_motion(c):
    M = mods()
    t, p = M["traj"], c["p"]
    h = [math.radians(x) for x in p["h"]]
    rows = (lambda g: [g, [0] * len(g)]) if c["rows"] else (lambda g: g)
    pick = (lambda r: tfs.N(r)[0]) if c["rows"] else tfs.N
    r = t.compute_kinematic_features(x=f32(rows(p["x"]), .1), y=f32(rows(p["y"]), .1), z=f32(rows(p["z"]), .1), heading=f32(rows(h)), seconds_per_step=c["dt"] / 10)
    s, a, w, dw = map(pick, r)
    deg = 18000 / math.pi
    v, va = map(pick, t.compute_kinematic_validity(M["tf"].constant(M["np"].array(rows(p["v"]), dtype=bool))))
    return {"t": "motion", "p": p, "dt": c["dt"], "valid": p["v"], "ended": "",
            "got": {"speed": [num(x, 1000) for x in s], "accel": [num(x, 1000) for x in a], "turn": [num(x, deg) for x in w], "dturn": [num(x, deg) for x in dw],
                    "speed_ok": [bool(x) for x in v], "accel_ok": [bool(x) for x in va]}}


def case_displacement(c):
    M = mods()
    a = [f32(c["p"][k], .1) for k in "xyz"] + [f32(c["q"][k], .1) for k in "xyz"]
    return {"t": "displacement", "p": c["p"], "q": c["q"], "got": [num(x, 1000) for x in tfs.N(M["traj"].compute_displacement_error(*a))], "ended": ""}


def fields(c):
    M = mods()
    b = c["boxes"]
    g = lambda f: [[f(x) for x in row] for row in b]
    mask = lambda m: M["tf"].constant(M["np"].array(m, dtype=bool))
    flips = c["flip"]
    return dict(center_x=f32(g(lambda x: x["x"]), .1), center_y=f32(g(lambda x: x["y"]), .1), length=f32(g(lambda x: 2 * x["l"]), .1), width=f32(g(lambda x: 2 * x["w"]), .1),
                heading=f32([[heading(x["d"], flips[i]) for x in row] for i, row in enumerate(b)]), valid=mask(c["valid"]), evaluated_object_mask=mask(c["judged"]))


def case_near(c):
    M = mods()
    kw = fields(c)
    z = [[3 * i + 7] * len(r) for i, r in enumerate(c["boxes"])]
    if c["f"] != 7 or c["named"]:
        kw["corner_rounding_factor"] = c["f"] / 10
    r = M["near"].compute_distance_to_nearest_object(center_z=f32(z), height=f32([[1.5] * len(x) for x in z]), **kw)
    return dict({k: c[k] for k in ("boxes", "valid", "judged", "f")}, t="near", got=[[num(x, 250) if x < 1e6 else HUGE for x in row] for row in tfs.N(r)], ended="")


def case_ttc(c):
    M = mods()
    r = M["near"].compute_time_to_collision_with_object_in_front(seconds_per_step=c["dt"] / 10, **fields(c))
    return dict({k: c[k] for k in ("boxes", "valid", "judged", "dt")}, t="ttc", got=[[num(x, 1000) for x in row] for row in tfs.N(r)], ended="")


DO = {"motion": case_motion, "displacement": case_displacement, "near": case_near, "ttc": case_ttc}


def one(c):
    try:
        return [DO[c["t"]](c)]
    except tfs.NotModelled:
        return []


def masks(rng, O, T):
    p = rng.choice([1, 1, .9, .6])
    v = [[rng.random() < p for _ in range(T)] for _ in range(O)]
    if rng.random() < .3:
        v[rng.randrange(O)] = [False] * T
    j = [rng.random() < .6 for _ in range(O)]
    j[rng.randrange(O)] = True
    return {"valid": v, "judged": j, "flip": [rng.random() < .5 for _ in range(O)]}


def rand_motion(rng):
    T = rng.choice([3, 4, 5, 5, 6, 9])
    k = rng.choice([3, 10, 60])
    w = rng.choice([5, 40, 89, 89, 179])
    p = {"x": [rng.randint(-90, 90)], "y": [rng.randint(-90, 90)], "z": [0], "h": [rng.randint(-180, 179)]}
    for _ in range(T - 1):
        for a in "xyz":
            p[a].append(p[a][-1] + rng.randint(-k, k) * (a != "z" or rng.random() < .5))
        p["h"].append(p["h"][-1] + rng.randint(-w, w))
    if rng.random() < .7:
        p["h"] = [(x + 180) % 360 - 180 for x in p["h"]]
    q = rng.choice([1, .9, .7])
    p["v"] = [rng.random() < q for _ in range(T)]
    return {"t": "motion", "p": p, "dt": rng.choice([1, 1, 1, 2, 5, 10]), "rows": rng.random() < .4}


def rand_displacement(rng):
    n = rng.randint(1, 5)
    g = lambda k: {a: [rng.randint(-k, k) for _ in range(n)] for a in "xyz"}
    return {"t": "displacement", "p": g(120), "q": g(120)}


def rand_near(rng):
    O, T = rng.choice([1, 2, 2, 3, 4, 5]), rng.choice([1, 1, 2, 3])
    k = rng.choice([20, 60, 140])
    sizes = [(rng.choice([10, 20, 22, 25, 30, 6]), rng.choice([10, 10, 9, 20, 30])) for _ in range(O)]
    box = lambda o: {"x": rng.randint(-k, k), "y": rng.randint(-k, k), "l": sizes[o][0], "w": sizes[o][1], "d": rng.randint(1, 9)}
    c = dict(masks(rng, O, T), t="near", boxes=[[box(o) for _ in range(T)] for o in range(O)], f=rng.choice([7, 7, 7, 0, 2, 5, 10]), named=rng.random() < .5)
    if rng.random() < .2 and O > 1:                # apart only by a diagonal, or touching, or inside one another
        for t in range(T):
            a, b = c["boxes"][0][t], c["boxes"][1][t]
            b["x"], b["y"] = a["x"] + rng.randint(-12, 12), a["y"] + rng.randint(-12, 12)
    return c


def rand_ttc(rng):
    O, T = rng.choice([2, 2, 3, 4]), rng.choice([3, 4, 5])
    base = rng.randint(1, 14)
    boxes = []
    ux, uy = DIRS[base - 1]
    n = math.hypot(ux, uy)
    ux, uy = ux / n, uy / n
    for o in range(O):
        d = base if rng.random() < .5 else rng.choice([rng.randint(1, 14)] + [{10: 11, 11: 10, 12: 13, 13: 12, 1: 10, 3: 12, 5: 9, 9: 5}.get(base, base)] * 2 + [base])
        l, w = rng.choice([10, 20, 23, 25]), rng.choice([5, 8, 10, 12])
        at = 0 if o == 0 else rng.choice([1, 1, 1, -1]) * rng.randint(20, 220)
        side = 0 if o == 0 else rng.choice([0, rng.randint(-9, 9), rng.randint(-25, 25)])
        v = rng.choice([0, 3, 8, 15, 20]) * (1.5 if o == 0 else 1)
        row, pos = [], (at * ux - side * uy, at * uy + side * ux)
        for t in range(T):
            row.append({"x": int(round(pos[0])), "y": int(round(pos[1])), "l": l, "w": w, "d": d})
            pos = (pos[0] + v * ux, pos[1] + v * uy)
            if rng.random() < .2:
                v = max(0, v + rng.randint(-6, 6))
        boxes.append(row)
    c = dict(masks(rng, O, T), t="ttc", boxes=boxes, dt=rng.choice([1, 1, 1, 2, 5]))
    if rng.random() < .8:                          # gaps would leave most steps undecided
        c["valid"] = [[all(r)] * T if rng.random() < .9 else r for r in c["valid"]]
    c["judged"][0] = True
    return c


MAIN = """SPECIFICATION Spec
CONSTANTS Xs = {%s}
Ys = {%s}
Vs = {%s}
DirsUsed = {%s}
Sizes = {%s}
Factor = %d
MaxT = %d
Emit = %s
INVARIANTS Symmetric TurnsAlong SharperIsNearer Inside OnlyFaster Mirrored Steady CountsDown PrintCase
"""
MOTION = """SPECIFICATION Spec
CONSTANTS StepsX = {%s}
StepsY = {%s}
Turns = {%s}
MaxT = %d
Emit = TRUE
INVARIANTS Backwards Frames Turned Smooth Seen PrintCase
"""


def scene(c, rng):
    unit = {1: (1, 0), 2: (0, 1), 3: (-1, 0), 4: (0, -1)}
    T = 3
    rows = []
    for k, v in ((c["a"], c["va"]), (c["b"], c["vb"])):
        u = unit.get(k["d"], (1, 0))
        rows.append([dict(k, x=k["x"] + v * u[0] * t, y=k["y"] + v * u[1] * t) for t in range(T)])
    return {"boxes": rows, "valid": [[True] * T] * 2, "judged": [True, rng.random() < .5], "flip": [rng.random() < .5, rng.random() < .5], "f": c["f"], "dt": 1, "named": True}


def run(ctx):
    rng = ctx.rng
    mods()
    cases = []
    for f in ctx.pick((7, 10), (0, 5, 7, 10)):
        cs = ctx.model_cases("MC_SimTraffic", MAIN % (ctx.pick("0,30,80", "0,15,30,45,80"), ctx.pick("0,12,19,40", "0,6,12,19,25,40"), "0,5,10", ctx.pick("1,2,3,5", "1,2,3,4,5,7"),
                                                      ctx.pick("10,25", "10,25"), f, 2, "TRUE"), name="two objects, rounding %d" % f)
        rng.shuffle(cs)
        for c in cs[:ctx.pick(700, 6000)]:
            s = scene(c, rng)
            cases += [dict(s, t="near"), dict(s, t="ttc")]
    cs = ctx.model_cases("MC_SimMotion", MOTION % ("0,7", "0,10", "0,50,85", ctx.pick(4, 5)), name="trajectories")
    rng.shuffle(cs)
    cases += [{"t": "motion", "p": c, "dt": rng.choice([1, 2]), "rows": False} for c in cs[:ctx.pick(500, 8000)]]
    n = ctx.pick(1, 10)
    cases += [rand_motion(rng) for _ in range(500 * n)] + [rand_displacement(rng) for _ in range(80 * n)] + [rand_near(rng) for _ in range(900 * n)] + \
        [rand_ttc(rng) for _ in range(1200 * n)]
    events, skipped = [], 0
    for c, r in zip(cases, guarded(one, cases, timeout=60)):
        if "ok" in r:
            events += r["ok"]
            skipped += not r["ok"]
        else:
            events.append({"t": c["t"], "ended": r["exc"] + ": " + r["msg"][:100]})
    ctx.log("%d events, %d cases use operations not stood in for" % (len(events), skipped))
    rng.shuffle(events)
    ctx.validate("TraceSimTraffic", [events[i:i + 100] for i in range(0, len(events), 100)], "traffic of simulations", samples=len(events))
