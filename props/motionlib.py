"""Motion scenarios and predictions on a quarter-metre lattice, and calls of the motion library."""
import math

from vlib import build
from vlib.harness import run_parallel
from . import detlib

Q = 0.25
HEADS = [(1, 0), (0, 1), (-1, 0), (0, -1), (3, 4), (4, -3), (-5, 12), (1, 1), (2, -1), (-3, 1)]
MOVES = [(0, 0), (4, 0), (3, 4), (-4, 3), (0, 6), (8, 6), (-5, -12), (1, 0), (0, -1), (5, 2), (-6, 1)]
OFFS = [(0, 0), (0, 0), (3, 4), (-4, 3), (5, 0), (0, 5), (-8, 6), (1, 0), (0, -1), (2, 1), (12, 5), (-1, -1), (0, 2), (20, 15), (-30, 4)]
SHAPES = ["STATIONARY", "STRAIGHT", "STRAIGHT_RIGHT", "STRAIGHT_LEFT", "RIGHT_TURN", "LEFT_TURN", "LEFT_U_TURN", "RIGHT_U_TURN"]


def config(rng, small=False):
    pps = rng.choice([1, 1, 2])
    tps = pps * rng.choice([1, 1, 2])
    n = rng.choice([2, 2, 3, 3, 4, 5] + ([1] if rng.random() < .3 else []))
    fut = n * (tps // pps) + (1 if tps == 2 * pps and rng.random() < .2 else 0)
    n = fut * pps // tps
    steps = rng.sample(range(n), min(n, rng.choice([1, 1, 2, 3])))
    thr = lambda: rng.choice([500, 1500, 2000, 3000, 4000, 4500, 6000, 8000, 10000])
    return {"tps": tps, "pps": pps, "hist": rng.randint(0, 2), "fut": fut, "slo": rng.choice([0, 400, 560]),
            "shi": rng.choice([800, 2000, 4400]), "sclo": rng.choice([500, 250, 1000, 300]),
            "schi": rng.choice([1000, 1000, 2000, 700]), "k": rng.choice([1, 2, 3, 6, 6]),
            "steps": [{"step": s, "lat": thr(), "lon": thr()} for s in steps]}


def config_proto(c):
    pb = detlib.module("protos.motion_metrics_pb2").MotionMetricsConfig()
    pb.track_steps_per_second = c["tps"]
    pb.prediction_steps_per_second = c["pps"]
    pb.track_history_samples = c["hist"]
    pb.track_future_samples = c["fut"]
    pb.speed_lower_bound = c["slo"] / 100. * Q
    pb.speed_upper_bound = c["shi"] / 100. * Q
    pb.speed_scale_lower = c["sclo"] / 1000.
    pb.speed_scale_upper = c["schi"] / 1000.
    pb.max_predictions = c["k"]
    for s in c["steps"]:
        pb.step_configurations.add(measurement_step=s["step"], lateral_miss_threshold=s["lat"] / 1000. * Q,
                                   longitudinal_miss_threshold=s["lon"] / 1000. * Q)
    return pb


def track(rng, i, n, cur, typ=None, area=14):
    """a track of n states around a constant or turning motion"""
    x, y = rng.randint(-area, area), rng.randint(-area, area)
    h = rng.choice(HEADS)
    mv = rng.choice(MOVES)
    turn = rng.choice([0, 0, 0, 1, 2])
    dims = (rng.choice([2, 4, 8, 12]), rng.choice([2, 3, 6]))
    pv = rng.choice([1, 1, 1, .7, .4])
    st = []
    for k in range(n):
        v = 1 if rng.random() < pv else 0
        if k == cur and rng.random() < .85:
            v = 1
        if turn == 1 and k > cur and rng.random() < .5:
            h = (-h[1], h[0]) if rng.random() < .8 else rng.choice(HEADS)
            mv = (-mv[1], mv[0])
        if turn == 2 and k == n - 1:
            h = (-h[0], -h[1])
        if rng.random() < .1:
            dims = (rng.choice([0, 2, 5, 8]), rng.choice([2, 3, 0, 6]))
        vel = rng.choice([mv, mv, (0, 0), (8, 0), (12, 5), (0, -4), (3, 4), (0, 44)])
        st.append([v, x, y, h[0], h[1], dims[0], dims[1], vel[0], vel[1]])
        x += mv[0] + (rng.randint(-1, 1) if rng.random() < .2 else 0)
        y += mv[1] + (rng.randint(-1, 1) if rng.random() < .2 else 0)
    return {"id": i, "type": rng.choice([1, 2, 3, 1, 2, 3, 0, 4]) if typ is None else typ, "st": st}


def scenario(rng, cfg, sid="s", most=4):
    n = cfg["hist"] + cfg["fut"] + 1
    ids = rng.sample([1, 2, 3, 7, 11, 40, 1000], rng.randint(1, most))
    tracks = [track(rng, i, n, cfg["hist"]) for i in ids]
    req = rng.sample(range(len(ids)), rng.randint(1, min(len(ids), 3)))
    return {"id": sid, "tracks": tracks, "req": req}


def at(cfg, i):
    return (i + 1) * (cfg["tps"] // cfg["pps"]) + cfg["hist"]


def trajectory(rng, cfg, tr):
    n = cfg["fut"] * cfg["pps"] // cfg["tps"]
    o = rng.choice(OFFS)
    d = rng.choice([(0, 0), (0, 0), (1, 0), (0, -2), (3, 4)])
    x, y = [], []
    stop = rng.random() < .1
    for i in range(n):
        s = tr["st"][at(cfg, i)]
        if rng.random() < .1:
            o = rng.choice(OFFS)
        if stop and x:
            x.append(x[-1]), y.append(y[-1])
            continue
        x.append(s[1] + o[0] + d[0] * i)
        y.append(s[2] + o[1] + d[1] * i)
    return {"id": tr["id"], "x": x, "y": y}


def multimodal(rng, cfg, tracks, most=4):
    # several confidences tie; a few are zero; they need not be probabilities
    cs = [0, 4, 8, 8, 12, 16, 15, 3] if rng.random() < .8 else [-40, -16, -3, -1, 0, 5, -100, 24]
    return [{"c": rng.choice(cs), "t": [trajectory(rng, cfg, t) for t in
             (tracks if rng.random() < .7 else rng.sample(tracks, len(tracks)))]} for _ in range(rng.randint(1, most))]


def prediction(rng, cfg, sc, most=4):
    left = [sc["tracks"][i] for i in sc["req"]]
    rng.shuffle(left)
    mm = []
    while left:
        k = min(len(left), rng.choice([1, 1, 2, 3]))
        mm.append(multimodal(rng, cfg, left[:k], most))
        left = left[k:]
    if rng.random() < .1:
        mm.insert(rng.randint(0, len(mm)), [])
    return {"id": sc["id"], "mm": mm}


def track_proto(t, pb=None, turn=0.0, shift=(0, 0), flip=1):
    pb = pb or detlib.module("protos.scenario_pb2").Track()
    pb.id = t.get("id", 1)
    pb.object_type = t.get("type", 1)
    c, s = {0.0: (1, 0), 1: (0, 1), 2: (-1, 0), 3: (0, -1)}.get(turn) or (math.cos(turn), math.sin(turn))
    ang = turn * math.pi / 2 if turn in (1, 2, 3) else turn

    def rot(x, y):
        y *= flip
        return c * x - s * y, s * x + c * y
    for v, x, y, p, q, l, w, vx, vy in t["st"]:
        st = pb.states.add()
        st.valid = bool(v)
        X, Y = rot(x, y)
        st.center_x, st.center_y = (X + shift[0]) * Q, (Y + shift[1]) * Q
        h = math.atan2(q * flip, p) + ang
        st.heading = (h + math.pi) % (2 * math.pi) - math.pi if ang else h
        st.length, st.width, st.height = l * Q, w * Q, 1.5
        vX, vY = rot(vx, vy)
        st.velocity_x, st.velocity_y = vX * Q, vY * Q
    return pb


def scenario_proto(sc):
    pb = detlib.module("protos.scenario_pb2").Scenario()
    pb.scenario_id = sc["id"]
    for t in sc["tracks"]:
        track_proto(t, pb.tracks.add())
    for r in sc["req"]:
        pb.tracks_to_predict.add(track_index=r)
    return pb


def prediction_proto(pr):
    pb = detlib.module("protos.motion_metrics_pb2").ScenarioPredictions()
    pb.scenario_id = pr["id"]
    for mm in pr["mm"]:
        m = pb.multi_modal_predictions.add()
        for j in mm:
            q = m.joint_predictions.add()
            q.confidence = j["c"] / 16.
            for t in j["t"]:
                u = q.trajectories.add(object_id=t["id"])
                u.center_x.extend(v * Q for v in t["x"])
                u.center_y.extend(v * Q for v in t["y"])
    return pb


def eval_req(cfg, pairs, plans=()):
    tok = ["eval", detlib.hx(config_proto(cfg)), len(pairs)]
    for sc, pr in pairs:
        tok += [detlib.hx(prediction_proto(pr)), detlib.hx(scenario_proto(sc))]
    tok.append(len(plans))
    for p in plans:
        tok.append(len(p))
        for a, b in p:
            tok += [a, b]
    return " ".join(map(str, tok))


def _i(x, k):
    return int(math.floor(x * k + .5)) if isinstance(x, (int, float)) and abs(x * k) < 2 ** 31 - 2 else -10 ** 9


def buckets(bs):
    return [{"n": b["n"], "s": [[_i(c, 16), t] for c, t in b["s"]], "ap": _i(b["ap"], 1e6) if b["ap"] >= 0 else -1} for b in bs]


def cells(item):
    """what the harness dumped for one scenario, in the units of Motion.tla"""
    return [{"type": c["type"], "step": c["step"], "ade": [_i(c["ade"][0], 4000), c["ade"][1]],
             "fde": [_i(c["fde"][0], 4000), c["fde"][1]], "miss": [_i(c["miss"][0], 1000), c["miss"][1]],
             "ov": [_i(c["ov"][0], 1000), c["ov"][1]], "probe": [_i(c["probe"][0], 1000), c["probe"][1]],
             "hard": buckets(c["hard"]), "soft": buckets(c["soft"]), "map": _i(c["map"], 1e6), "smap": _i(c["smap"], 1e6)}
            for c in item]


def bundles(bs):
    return [{"type": b["type"], "step": b["step"], "ade": _i(b["ade"], 4000), "fde": _i(b["fde"], 4000),
             "miss": _i(b["miss"], 1e6), "ov": _i(b["ov"], 1e6), "map": _i(b["map"], 1e6), "smap": _i(b["smap"], 1e6),
             "probe": _i(b["probe"], 1000)} for b in bs]


def modelled(ctx, name="predictions arriving one at a time"):
    """The behaviours of MC_Motion, made concrete."""
    cfgs = ("SPECIFICATION Spec\nCONSTANTS MaxJ = 3\nK = %d\nWide = %s\nEmit = %s\n"
            "INVARIANTS InvAccept InvEdge InvNoGt InvMono InvLimit InvOneTP InvAP PrintCase\n")
    cs = ctx.model_cases("MC_Motion", cfgs % (2, "FALSE", "TRUE"), name=name, workers=8)
    if ctx.thorough:
        ctx.model("MC_Motion", cfgs % (3, "TRUE", "FALSE"), name=name + ", wider")
    cs.sort(key=str)
    out = []
    cfg = {"tps": 1, "pps": 1, "hist": 0, "fut": 2, "slo": 0, "shi": 100, "sclo": 1000, "schi": 1000, "k": 2,
           "steps": [{"step": 0, "lat": 2000, "lon": 4000}, {"step": 1, "lat": 2000, "lon": 4000}]}
    for c in cs:
        v = c["valid"]
        sc = {"id": "s", "req": [0], "tracks": [{"id": 7, "type": 1, "st": [
            [1, 0, 0, 1, 0, 4, 2, 40, 0], [v[0], 10, 0, 1, 0, 4, 2, 40, 0], [v[1], 20, 0, 1, 0, 4, 2, 40, 0]]}]}
        mm = [{"c": m[4], "t": [{"id": 7, "x": [10 + m[0], 20 + m[2]], "y": [m[1], m[3]]}]} for m in c["mm"]]
        out.append((cfg, sc, {"id": "s", "mm": [mm]}))
    return out


def evaluate(ctx, cases, kind, what, samples):
    h = build.cc("h_motion")
    rs = run_parallel(h, [eval_req(cfg, [(sc, pr)]) for cfg, sc, pr in cases])
    groups = []
    for (cfg, sc, pr), r in zip(cases, rs):
        e = {"ev": kind, "cfg": cfg, "sc": sc, "pr": pr, "crash": r.get("crash", ""), "ok": False, "r": [],
             "_w": 6 + sum(len(m) * len(cfg["steps"]) for m in pr["mm"]) * len(sc["tracks"])}
        if "ok" in r:
            e["ok"] = r["ok"][0]
            e["r"] = cells(r["items"][0])
            e["_err"] = r["err"][0]
        groups.append([e])
    ctx.validate("TraceMotion", groups, what, samples=samples)
