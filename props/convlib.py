"""Scenario conversion: generators, protos and the driver (C17, C18, C19)."""
from vlib import build
from vlib.harness import run_parallel
from . import detlib as D

VEL = [(0, 0)] + [(sx * a, sy * b) for a, b in [(1, 0), (0, 2), (4, 3), (3, 4), (6, 8), (8, 6), (12, 5), (5, 12), (15, 8), (8, 15)]
                  for sx in (1, -1) for sy in (1, -1)]


def state(rng, v, x=None, y=None):
    vx, vy = rng.choice(VEL)
    return {"v": v, "x": rng.randint(-30, 30) if x is None else x, "y": rng.randint(-30, 30) if y is None else y,
            "z": rng.randint(-5, 5), "len": rng.randint(1, 9), "wid": rng.randint(1, 4), "hei": rng.randint(1, 4),
            "vx": vx, "vy": vy, "h": rng.randint(-3, 3)}


def cfg(na=4, nm=8, np=3, nf=2, sl=2, src=0.5, **k):
    return dict({"na": na, "nm": nm, "np": np, "nf": nf, "sl": sl, "src": src, "max": 0, "smp": 1.0, "poly": 1.0}, **k)


def scene(rng, c, nt=None):
    T = c["np"] + c["nf"]
    T = rng.choice([T] * 6 + [T + 2, max(1, T - 1), c["np"], max(0, c["np"] - 1), 1])
    nt = rng.choice([1, 2, 3, 4, 5, 7]) if nt is None else nt
    ids = rng.sample(range(-3, 40), nt) if rng.random() < .8 else rng.sample([1, 5, 16777215, 70000, 3, 99, 2, 12], nt)
    # -1 is what padding rows carry
    ids = [i if i != -1 else 77 for i in ids]
    spots = rng.choice([1, 3, 8])
    tracks = []
    for i in range(nt):
        pv = rng.choice([0, .5, .8, 1, 1])
        st = []
        for t in range(T):
            s = state(rng, int(rng.random() < pv))
            if rng.random() < .5:
                s["x"], s["y"] = rng.randint(0, spots), 0
            st.append(s)
        tracks.append({"id": ids[i], "type": rng.choice([1, 2, 3, 4, 1, 0] if rng.random() < .3 else [1, 2, 3]), "st": st})
    if T and rng.random() < .8:  # something to predict
        k = min(c["np"], T) - 1
        tracks[rng.randrange(nt)]["st"][k]["v"] = 1
        tracks[rng.randrange(nt)]["st"][k]["v"] = 1
    n = rng.randint(0, min(nt + 1, 5))
    ttp = [{"i": rng.randrange(nt), "d": rng.choice([0, 1, 2])} for _ in range(n)]
    ok = [i for i in range(nt) if T >= c["np"] > 0 and tracks[i]["st"][c["np"] - 1]["v"]]
    if ok and rng.random() < .85:
        ttp.insert(rng.randint(0, len(ttp)), {"i": rng.choice(ok), "d": rng.choice([0, 1, 2])})
    s = {"T": T, "ts": [int(round(t * st)) for st in [rng.choice([100000, 500000, 125000])] for t in range(T)],
         "sdc": rng.randrange(nt), "tracks": tracks, "ttp": ttp,
         "ooi": [rng.choice(ids + [1000]) for _ in range(rng.randint(0, 3))]}
    x = rng.random()
    if x < .03:
        s["sdc"] = rng.choice([-1, nt, nt + 3])
    elif x < .06:
        s["ttp"].append({"i": rng.choice([-1, nt, nt + 5]), "d": 1})
    elif x < .09 and T:
        tr = rng.choice(tracks)
        tr["st"] = tr["st"][:-1] if rng.random() < .5 else tr["st"] + [state(rng, 1)]
    return s


def signals(rng, s, c):
    """Lanes come into view, change state and leave."""
    n = rng.choice([s["T"]] * 4 + [0, max(0, s["T"] - 1), c["np"] - 1])
    big = rng.random() < .3
    lanes = rng.sample([7, 8, 100, 16777217, 33554433, 2000000001, 16777219] if big else range(100, 140), 6)
    seen, out = [], []
    for _ in range(min(n, s["T"])):
        for l in list(seen):
            if rng.random() < .2:
                seen.remove(l)
            elif rng.random() < .4:
                l["state"] = rng.randint(0, 8)
        for l in lanes:
            if l not in [x["lane"] for x in seen] and rng.random() < .3:
                seen.insert(rng.randint(0, len(seen)), {"lane": l, "state": rng.randint(0, 8), "x": rng.randint(-50, 50),
                                                        "y": rng.randint(-50, 50), "z": rng.randint(-5, 5)})
        out.append([dict(x) for x in seen])
    return out


def protos(s, c, sig=(), features=()):
    D.pb()
    S = D.module("protos.scenario_pb2")
    C = D.module("protos.conversion_config_pb2")
    p = S.Scenario(scenario_id="x", sdc_track_index=s["sdc"], current_time_index=max(0, c["np"] - 1))
    p.timestamps_seconds.extend([t / 1e6 for t in s["ts"]])
    for tr in s["tracks"]:
        t = p.tracks.add(id=tr["id"], object_type=tr["type"])
        for o in tr["st"]:
            t.states.add(valid=bool(o["v"]), center_x=o["x"], center_y=o["y"], center_z=o["z"], length=o["len"], width=o["wid"],
                         height=o["hei"], velocity_x=o["vx"], velocity_y=o["vy"], heading=o["h"])
    for x in s["ttp"]:
        p.tracks_to_predict.add(track_index=x["i"], difficulty=x["d"])
    p.objects_of_interest.extend(s["ooi"])
    for step in sig:
        d = p.dynamic_map_states.add()
        for x in step:
            ls = d.lane_states.add(lane=x["lane"], state=x["state"])
            ls.stop_point.x, ls.stop_point.y, ls.stop_point.z = x["x"], x["y"], x["z"]
    for f in features:
        p.map_features.add().CopyFrom(f)
    q = C.MotionExampleConversionConfig(
        max_num_agents=c["na"], max_num_modeled_agents=c["nm"], num_past_steps=c["np"], num_future_steps=c["nf"],
        max_roadgraph_samples=c["max"], source_polyline_spacing=c["src"], polyline_sample_spacing=c["smp"],
        polygon_sample_spacing=c["poly"], max_traffic_light_control_points_per_step=c["sl"])
    return p, q


def whole(k, v):
    if k.endswith("vel_yaw"):
        return [int(round(x * 1e4)) for x in v]
    return [int(x) if isinstance(x, int) or (isinstance(x, float) and x == int(x)) and abs(x) < 2 ** 31 else -99999999 for x in v]


def convert(jobs):
    """jobs: (proto, config); returns the harness answers."""
    h = build.cc("h_scenario")
    return run_parallel(h, ["convert %s %s %d" % (D.hx(p), D.hx(q), i % 2) for i, (p, q) in enumerate(jobs)])


def tlacfg(c):
    return {"na": c["na"], "nm": c["nm"], "np": c["np"], "nf": c["nf"], "sl": c["sl"], "src": 1 if c["src"] > 0 else 0}


def events(kind, scenes):
    """scenes: (scene, cfg, sig). One event per conversion."""
    res = convert([protos(s, c, sig) for s, c, sig in scenes])
    out = []
    pre = "state/" if kind == "agents" else "traffic_light_state/"
    for (s, c, sig), r in zip(scenes, res):
        e = {"k": kind, "crash": r.get("crash", ""), "ok": bool(r.get("ok")), "s": s, "cfg": tlacfg(c), "sig": list(sig), "f": {},
             "_w": 1 + len(s["tracks"]) * (c["np"] + c["nf"]) / 10}
        if r.get("ok"):
            e["f"] = {k: whole(k, v) for k, v in r["f"].items() if k.startswith(pre)}
        if r.get("crash"):
            e["_err"] = r.get("err", "")
        if kind == "signals":
            e["s"] = dict(s, tracks=[{"id": t["id"], "type": t["type"], "st": [{"v": o["v"], "x": o["x"], "y": o["y"]} for o in t["st"]]} for t in s["tracks"]])
        out.append([e])
    return out
