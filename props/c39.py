"""C39: boxes, the points in them, the frames they are seen from and the rays that hit them."""
import importlib
import math

from vlib.pyrun import guarded
from . import detlib as D
from . import tfs
from . import v2stub

CS = [(5, 0), (0, 5), (-5, 0), (0, -5), (4, 3), (-3, 4), (-4, -3), (3, -4), (3, 4), (-4, 3)]
_M = {}


def mods():
    if not _M:
        tfs.install()
        D.pb()
        v2stub.load("component")
        imp = importlib.import_module
        _M["b"] = imp("waymo_open_dataset.utils.box_utils")
        _M["t"] = imp("waymo_open_dataset.utils.transform_utils")
        _M["o"] = imp("waymo_open_dataset.v2.perception.utils.object_asset_utils")
        _M["label"] = D.module("label_pb2")
        import numpy
        import tensorflow
        _M["np"], _M["tf"] = numpy, tensorflow
    return _M


def ang(h):
    return math.atan2(h[1], h[0])


def row(b):
    return [x / 8 for x in b["c"]] + [x / 8 for x in b["s"]] + [ang(b["h"]) + 2 * math.pi * b.get("k", 0)]


def mat(f, dt):
    np = _M["np"]
    m = np.eye(4)
    m[:3, :3] = np.array(f["r"], dtype=np.float64) / f["d"]
    m[:3, 3] = np.array(f["t"], dtype=np.float64) / 8
    return m.astype(dt)


def ints(a, k):
    np = _M["np"]
    a = np.asarray(a, dtype=np.float64) * k
    a = np.where(np.isfinite(a), np.clip(a, -1e9, 1e9), 2e9)
    return np.floor(a + .5).astype(int).tolist()


def clean(b):
    return dict({k: b[k] for k in ("c", "s", "h")}, exact=list(b["h"]) == [5, 0] and not b.get("k"))


def case_inside(c):
    m, np, tf = _M["b"], _M["np"], _M["tf"]
    dt = np.float64 if c["wide"] else np.float32
    p = tf.constant((np.array(c["ps"], dtype=np.float64) / 8).astype(dt))
    b = tf.constant(np.array([row(x) for x in c["bs"]]).astype(dt))
    e = {"t": "inside", "bs": [clean(x) for x in c["bs"]], "ps": c["ps"], "count": [], "ended": ""}
    if len(c["ps"][0]) == 3:
        e["got"] = tfs.N(m.is_within_box_3d(p, b)).astype(bool).tolist()
        e["count"] = [int(x) for x in tfs.N(m.compute_num_points_in_box_3d(p, b))]
        g = tfs.N(m.get_upright_3d_box_corners(b))
        extra = [{"t": "corners", "bs": e["bs"], "got": ints(g, 80), "ended": ""}]
    else:
        e["got"] = tfs.N(m.is_within_box_2d(p, b)).astype(bool).tolist()
        extra = []
    return [e, {"t": "pairs", "pairs": [["an answer for every point and box", [len(c["ps"]), len(c["bs"])], [len(e["got"]), len(e["got"][0])]]], "ended": ""}] + extra


def case_cross(c):
    m, np, tf = _M["b"], _M["np"], _M["tf"]
    dt = np.float64 if c["wide"] else np.float32
    P = np.array([[p for p in w["ps"]] for w in c["worlds"]], dtype=np.float64) / 8
    B = np.array([[row(b) for b in w["bs"]] for w in c["worlds"]])
    F = np.array([mat(w["f"], dt) for w in c["worlds"]])
    T = np.array([mat(w["t"], dt) for w in c["worlds"]])
    if len(c["worlds"]) == 1 and c["flat"]:
        P, B, F, T = P[0], B[0], F[0], T[0]
    gp = tfs.N(m.transform_point(tf.constant(P.astype(dt)), tf.constant(F), tf.constant(T)))
    gb = tfs.N(m.transform_box(tf.constant(B.astype(dt)), tf.constant(F), tf.constant(T)))
    pairs = [["points keep their shape", list(P.shape), list(gp.shape)], ["boxes keep their shape", list(B.shape), list(gb.shape)],
             ["numbers keep their type", [str(np.dtype(dt))] * 2, [str(gp.dtype), str(gb.dtype)]]]
    out = [{"t": "pairs", "pairs": pairs, "ended": ""}]
    if gp.ndim == 2:
        gp, gb = gp[None], gb[None]
    for w, a, b in zip(c["worlds"], gp, gb):
        out.append({"t": "cross", "f": w["f"], "ps": w["ps"], "bs": [clean(x) for x in w["bs"]], "got": ints(a, 200), "ended": "",
                    "boxes": [{"c": ints(x[:3], 200), "s": ints(x[3:6], 8), "w": ints([math.cos(x[6]), math.sin(x[6])], 1000)} for x in b], "to": w["t"]})
    return out


def case_rpy(c):
    t, np, tf = _M["t"], _M["np"], _M["tf"]
    hs = [np.array([ang(q[i]) for q in c["turns"]]) for i in range(3)]
    shape = (len(c["turns"]),) if c["flat"] else (1, len(c["turns"]))
    r = tfs.N(t.get_rotation_matrix(*[tf.constant(h.reshape(shape)) for h in hs])).reshape(-1, 9)
    out = [{"t": "rpy", "r": q[0], "p": q[1], "y": q[2], "got": ints(g, 1000), "ended": ""} for q, g in zip(c["turns"], r)]
    y3 = tfs.N(t.get_yaw_rotation(tf.constant(hs[2].reshape(shape)))).reshape(-1, 3, 3)
    y2 = tfs.N(t.get_yaw_rotation_2d(tf.constant(hs[2].reshape(shape)))).reshape(-1, 2, 2)
    pairs = []
    for q, a, b in zip(c["turns"], y3, y2):
        h = q[2]
        pairs.append(["a yaw alone", [200 * x for x in (h[0], -h[1], 0, h[1], h[0], 0, 0, 0, 5)], ints(a.reshape(9), 1000)])
        pairs.append(["a yaw seen from above", [200 * x for x in (h[0], -h[1], h[1], h[0])], ints(b.reshape(4), 1000)])
    n = c["n"]
    rot = np.arange(n * n, dtype=np.float64).reshape(n, n) + 1
    tr = np.arange(n, dtype=np.float64) + 50
    want = [list(map(int, list(rot[i]) + [tr[i]])) for i in range(n)] + [[0] * n + [1]]
    one = tfs.N(t.get_transform(tf.constant(rot), tf.constant(tr)))
    two = tfs.N(t.get_transform(tf.constant(np.stack([rot, -rot])), tf.constant(np.stack([tr, -tr]))))
    pairs.append(["a turn and a place", want, ints(one, 1)])
    pairs.append(["turns and places", [want, [[-x for x in r] for r in want[:-1]] + [want[-1]]], ints(two, 1)])
    b = _M["label"].Label.Box(center_x=c["box"][0], center_y=c["box"][1], center_z=c["box"][2], length=c["box"][3], width=c["box"][4], height=c["box"][5], heading=c["box"][6])
    pairs.append(["a box as numbers", c["box"], ints(tfs.N(_M["b"].box_to_tensor(b)), 1)])
    return out + [{"t": "pairs", "pairs": pairs, "ended": ""}]


def case_ray(c):
    np = _M["np"]
    dt = np.float64 if c["wide"] else np.float32
    o = (np.array([r["o"] for r in c["rays"]], dtype=np.float64) / 8).astype(dt)
    d = np.array([r["d"] for r in c["rays"]]).astype(dt) / dt(8)
    hit, a, b = _M["o"].get_ray_box_intersects(o, d, (np.array(c["s"], dtype=np.float64) / 8).astype(dt))
    out = []
    for i, r in enumerate(c["rays"]):
        ab = ints([a[i], b[i]], 1000)
        for k, x in enumerate((a[i], b[i])):    # the sign of a time next to none
            if ab[k] == 0:
                ab[k] = -1 if x < 0 else 0
        out.append({"t": "ray", "o": r["o"], "d": r["d"], "s": c["s"], "hit": bool(hit[i]), "tin": ab[0], "tout": ab[1], "ended": ""})
    return out


def case_frame(c):
    o, np = _M["o"], _M["np"]
    dt = np.float64 if c["wide"] else np.float32
    p = (np.array(c["ps"], dtype=np.float64) / 8).astype(dt)
    kept = p.copy()
    b = np.array(row(c["b"])).astype(dt)
    f = mat(c["f"], dt)
    r = [o.transform_points_to_frame(p, f), o.transform_directions_to_frame(p, f), o.transform_points_to_box_coord(p, b),
         o.transform_directions_to_box_coord(p, b), o.transform_points_to_box_coord_reverse(p, b), o.rotate_points_along_z(p, ang(c["b"]["h"]))]
    g = [ints(x, 40) for x in r]
    round_trip = ints(o.transform_points_to_box_coord_reverse(o.transform_points_to_box_coord(p, b), b), 8)
    return [{"t": "frame", "f": c["f"], "ps": c["ps"], "pts": g[0], "dirs": g[1], "ended": ""},
            {"t": "boxed", "b": clean(c["b"]), "ps": c["ps"], "pts": g[2], "dirs": g[3], "back": g[4], "turned": g[5], "ended": ""},
            {"t": "pairs", "pairs": [["numbers keep their type", [str(np.dtype(dt))] * 6, [str(x.dtype) for x in r]], ["what is given is left alone", True, bool((p == kept).all())],
                                     ["there and back", c["ps"], round_trip]], "ended": ""}]


DO = {"inside": case_inside, "cross": case_cross, "rpy": case_rpy, "ray": case_ray, "frame": case_frame}


def one(c):
    try:
        return DO[c["t"]](c)
    except tfs.NotModelled:
        return []


def mul(a, b):
    return [[sum(a[i][k] * b[k][j] for k in range(3)) for j in range(3)] for i in range(3)]


def axis_turn(rng, pool):
    c, s = rng.choice(pool)
    return rng.choice([[[c, -s, 0], [s, c, 0], [0, 0, 5]], [[c, 0, s], [0, 5, 0], [-s, 0, c]], [[5, 0, 0], [0, c, -s], [0, s, c]]])


def rand_pose(rng, flat=False, far=300):
    t = [rng.randint(-far, far) for _ in range(3)]
    if flat or rng.random() < .4:
        c, s = rng.choice(CS)
        return {"r": [[c, -s, 0], [s, c, 0], [0, 0, 5]], "d": 5, "t": t}
    m = [[x // 5 for x in r] for r in axis_turn(rng, CS[:4])]
    for _ in range(2):
        m = mul(m, [[x // 5 for x in r] for r in axis_turn(rng, CS[:4])])
    return {"r": mul(m, axis_turn(rng, CS)), "d": 5, "t": t}


def rand_box(rng, dims=3, far=300):
    return {"c": [rng.randint(-far, far) for _ in range(dims)], "s": [rng.choice([0, 1, 2, 8, 16, 40, 41, 160]) if rng.random() < .9 else rng.randint(1, 300) for _ in range(dims)],
            "h": list(rng.choice(CS if rng.random() < .6 else CS[:1])), "k": rng.choice([0, 0, 1, -1])}


def point_near(rng, b):
    """a point in, at the border of, or next to a box"""
    q = []
    for s in b["s"]:
        q.append(rng.choice([0, s / 2, -s / 2, s / 2 + rng.choice([-1, 1, 2]) * .5, -s / 2 + rng.choice([-1, 1]) * .5, rng.uniform(-s / 2, s / 2), rng.uniform(-s, s)]))
    c, s = b["h"][0] / 5, b["h"][1] / 5
    x = [c * q[0] - s * q[1] + b["c"][0], s * q[0] + c * q[1] + b["c"][1]] + [b["c"][2] + q[2] for _ in b["c"][2:]]
    return [math.floor(v + .5) for v in x]


def rand_inside(rng):
    dims = rng.choice([2, 3, 3])
    bs = [rand_box(rng, dims) for _ in range(rng.randint(1, 4))]
    for b in bs[1:]:
        if rng.random() < .5:
            b["c"] = [x + rng.randint(-4, 4) for x in bs[0]["c"]]
    return {"t": "inside", "bs": bs, "ps": [point_near(rng, rng.choice(bs)) for _ in range(rng.randint(1, 12))], "wide": rng.random() < .3}


def rand_cross(rng):
    n, m = rng.randint(1, 4), rng.randint(1, 3)
    flat = rng.random() < .3
    return {"t": "cross", "flat": rng.random() < .5, "wide": rng.random() < .4,
            "worlds": [{"ps": [[rng.randint(-400, 400) for _ in range(3)] for _ in range(n)], "bs": [rand_box(rng) for _ in range(m)], "f": rand_pose(rng, flat), "t": rand_pose(rng, flat)} for _ in range(rng.choice([1, 1, 2, 3]))]}


def rand_rpy(rng):
    return {"t": "rpy", "turns": [[list(rng.choice(CS)) for _ in range(3)] for _ in range(rng.randint(1, 4))], "flat": rng.random() < .5, "n": rng.choice([2, 3]), "box": [rng.randint(1, 99) for _ in range(7)]}


def rand_ray(rng):
    s = [rng.choice([8, 16, 20, 33, 80]) for _ in range(3)]
    rays = []
    for _ in range(rng.randint(1, 10)):
        goal = [rng.randint(-x, x) / 2 * rng.choice([.5, .9, 1.3]) for x in s]
        d = [rng.choice([0, 0, 1, -1, 2, -3, 5, -8]) for _ in range(3)]
        if d == [0, 0, 0]:
            d = [1, 0, 0]
        back = rng.choice([-6, -2, 0, 1, 3, 10, 20])
        rays.append({"o": [int(g - back * x) for g, x in zip(goal, d)], "d": d})
    return {"t": "ray", "s": s, "rays": rays, "wide": rng.random() < .4}


def rand_frame(rng):
    wide = rng.random() < .4
    return {"t": "frame", "f": rand_pose(rng), "b": rand_box(rng), "ps": [[rng.randint(-400, 400) for _ in range(3)] for _ in range(rng.randint(1, 6))], "wide": wide}


CFG = """SPECIFICATION Spec
CONSTANTS Sizes = {%s}
Places = {%s}
Steps = {%s}
Emit = TRUE
INVARIANTS Middle Rigid Back Cornered Around Half Ahead From Opposite PrintCase
"""


def run(ctx):
    rng = ctx.rng
    mods()
    cs = ctx.model_cases("MC_Boxes", CFG % (ctx.pick("0, 6", "0, 3, 6"), ctx.pick("0, 5", "0, 3, 5"), ctx.pick("0, 1", "0, 1, 2")), name="a box and a point from one frame to another, and a ray")
    rng.shuffle(cs)
    cases = []
    for c in cs[:ctx.pick(1500, 20000)]:
        cases.append({"t": "inside", "bs": [c["b"]], "ps": [c["p"]], "wide": False})
        cases.append({"t": "cross", "flat": True, "wide": False, "worlds": [{"ps": [c["p"]], "bs": [c["b"]], "f": c["f"], "t": c["t"]}]})
        cases.append({"t": "ray", "s": c["b"]["s"], "rays": [{"o": c["p"], "d": c["d"]}], "wide": False})
    n = ctx.pick(1, 12)
    for f, k in ((rand_inside, 900), (rand_cross, 500), (rand_rpy, 100), (rand_ray, 600), (rand_frame, 300)):
        cases += [f(rng) for _ in range(k * n)]
    events, skipped = [], 0
    for c, r in zip(cases, guarded(one, cases, timeout=60)):
        if "ok" in r:
            events += r["ok"]
            skipped += not r["ok"]
        else:
            events.append({"t": c["t"], "ended": r["exc"] + ": " + r["msg"][:100], "_case": c})
    ctx.log("%d events, %d cases use operations not stood in for" % (len(events), skipped))
    rng.shuffle(events)
    ctx.validate("TraceBoxes", [events[i:i + 100] for i in range(0, len(events), 100)], "boxes", samples=len(events))
