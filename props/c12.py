"""C12: which motion submissions are accepted."""
import copy

from vlib import build
from vlib.harness import run_parallel
from . import detlib, motionlib as ml


def spoil(rng, cfg, sc, pr):
    """one way of being (usually) ill formed; returns its name"""
    mms = [m for m in pr["mm"] if m]
    mm = rng.choice(mms) if mms else None
    j = rng.choice(mm) if mm else None
    t = rng.choice(j["t"]) if j and j["t"] else None
    fresh = 555
    ways = ["id", "pps", "pps0", "div", "step", "stepneg", "context", "reqbad", "empty", "speeds", "hist", "order", "reqtwice", "shorttrack", "longtrack", "k"]
    if t:
        ways += ["short", "long", "shorty", "drop", "dropmm", "extra", "other", "twice", "twomm", "onlysome", "firstempty",
                 "laste", "dupjoint", "emptyx", "dropreq", "addreq", "mixed"] * 2
    w = rng.choice(ways)
    if w == "id":
        pr["id"] = rng.choice(["", "S", "s ", "t"])
    elif w == "pps":
        cfg["pps"] = cfg["tps"] + rng.choice([1, 2])
    elif w == "pps0":
        cfg["pps"] = rng.choice([0, -1, -2])
    elif w == "div":
        cfg["tps"], cfg["pps"] = rng.choice([(3, 2), (5, 2), (4, 3)])
    elif w == "step":
        cfg["steps"].append({"step": cfg["fut"] * cfg["pps"] // max(1, cfg["tps"]) + rng.choice([0, 0, 1, 5]), "lat": 2000, "lon": 2000})
    elif w == "stepneg":
        cfg["steps"].insert(0, {"step": -1, "lat": 2000, "lon": 2000})
    elif w == "context":  # a track nobody predicts
        n = cfg["hist"] + cfg["fut"] + 1 + rng.choice([-1, -1, -2, 1, 0])
        sc["tracks"].append(ml.track(rng, fresh, max(0, n), cfg["hist"]))
    elif w in ("shorttrack", "longtrack"):
        tr = rng.choice(sc["tracks"])
        if w == "shorttrack":
            tr["st"] = tr["st"][:-1]
        else:
            tr["st"].append(list(tr["st"][-1]))
    elif w == "reqbad":
        sc["req"].append(rng.choice([len(sc["tracks"]), -1, 99]))
    elif w == "reqtwice":
        sc["req"].append(rng.choice(sc["req"]) if sc["req"] else 0)
    elif w == "dropreq":
        del sc["req"][-1:]
    elif w == "addreq":
        sc["req"].append(rng.randrange(len(sc["tracks"])))
    elif w == "empty":
        pr["mm"].insert(rng.randint(0, len(pr["mm"])), [])
    elif w == "speeds":
        cfg["slo"], cfg["shi"] = rng.choice([(500, 400), (500, 500)])
    elif w == "hist":
        cfg["hist"] = -1
    elif w == "k":
        cfg["k"] = rng.choice([0, -1, -3, 1, 100])
    elif w == "order":
        rng.shuffle(pr["mm"])
    elif w == "short":
        del t["x"][-1:], t["y"][-1:]
    elif w == "long":
        t["x"].append(0), t["y"].append(0)
    elif w == "shorty":
        del t[rng.choice("xy")][-1:]
    elif w == "emptyx":
        t["x"], t["y"] = [], []
    elif w == "drop":
        j["t"].remove(t)
    elif w == "dropmm":
        pr["mm"].remove(mm)
    elif w == "extra":
        u = dict(copy.deepcopy(t), id=rng.choice([fresh] + [x["id"] for x in sc["tracks"]]))
        for q in (mm if rng.random() < .6 else [j]):
            q["t"].append(copy.deepcopy(u))
    elif w == "other":
        t["id"] = rng.choice([fresh] + [x["id"] for x in sc["tracks"]])
    elif w == "twice":
        for q in (mm if rng.random() < .6 else [j]):
            q["t"].append(copy.deepcopy(q["t"][0]) if q["t"] else copy.deepcopy(t))
    elif w == "twomm":
        m2 = copy.deepcopy(mm)
        if rng.random() < .4:
            m2 = [dict(q, t=q["t"][:1]) for q in m2]
        pr["mm"].append(m2)
    elif w == "onlysome":
        if len(mm) > 1:
            mm[-1]["t"] = mm[-1]["t"][1:]
    elif w == "mixed":  # equally many agents, but not the same ones; together all that are required
        others = [x for x in mms if x is not mm]
        if others and len(mm) > 1:
            o = rng.choice(others)
            q = rng.choice(mm)
            k = min(len(q["t"]), len(o[0]["t"]))
            q["t"][:k] = copy.deepcopy(o[0]["t"][:k])
            pr["mm"].remove(o)
    elif w == "firstempty":
        mm.insert(0, {"c": 8, "t": []})
    elif w == "laste":
        mm.append({"c": 8, "t": []})
    elif w == "dupjoint":
        mm.append(copy.deepcopy(j))
    return w


def pred_of(pb, typ):
    m = detlib.module("protos.motion_metrics_pb2").ScenarioPredictions()
    m.ParseFromString(bytes.fromhex(pb))
    f = lambda v: ml._i(v, 4)
    return {"id": m.scenario_id, "mm": [[{"c": ml._i(j.confidence, 16), "t": [
        {"id": t.object_id, "x": [f(v) for v in t.center_x], "y": [f(v) for v in t.center_y]} for t in j.trajectories]}
        for j in q.joint_predictions] for q in m.multi_modal_predictions]}


def challenge_proto(shape, pr):
    pb = detlib.module("protos.motion_submission_pb2").ChallengeScenarioPredictions()
    pb.scenario_id = pr["id"]

    def fill(t, u):
        t.center_x.extend(v * ml.Q for v in u["x"])
        t.center_y.extend(v * ml.Q for v in u["y"])
    if shape == "single":
        pb.single_predictions.SetInParent()
        for mm in pr["mm"]:
            p = pb.single_predictions.predictions.add(object_id=mm[0]["t"][0]["id"])
            for j in mm:
                s = p.trajectories.add(confidence=j["c"] / 16.)
                s.trajectory.SetInParent()
                fill(s.trajectory, j["t"][0])
    elif shape == "joint":
        pb.joint_prediction.SetInParent()
        for j in pr["mm"][0]:
            s = pb.joint_prediction.joint_trajectories.add(confidence=j["c"] / 16.)
            for t in j["t"]:
                o = s.trajectories.add(object_id=t["id"])
                o.trajectory.SetInParent()
                fill(o.trajectory, t)
    return pb


def run(ctx):
    rng = ctx.rng
    h = build.cc("h_motion")
    cf = ("SPECIFICATION Spec\nCONSTANTS MaxM = 2\nMaxT = 2\nEmit = TRUE\nINVARIANTS Same PrintCase\n")
    base = ctx.model_cases("MC_Submission", cf, name="submissions put together object by object", workers=8)
    base.sort(key=str)
    if not ctx.thorough:  # the accepted ones are few: keep all that are nearly right
        near = [c for c in base if all(m and len({tuple(sorted(j)) for j in m}) == 1 for m in c["mm"])]
        base = rng.sample(near, min(len(near), 1200)) + rng.sample(base, 2500)
    cases = []
    for c in base:
        cfg = {"tps": 1, "pps": 1, "hist": 0, "fut": 1, "slo": 0, "shi": 100, "sclo": 1000, "schi": 1000, "k": 2,
               "steps": [{"step": 0, "lat": 2000, "lon": 4000}]}
        sc = {"id": "s", "req": c["req"], "tracks": [{"id": i, "type": 1, "st": [[1, x, 0, 1, 0, 4, 2, 40, 0] for x in (0, 10)]} for i in (1, 2, 3)]}
        pr = {"id": "s", "mm": [[{"c": 8, "t": [{"id": i, "x": [10], "y": [0]} for i in j]} for j in m] for m in c["mm"]]}
        cases.append((cfg, sc, pr, "modelled"))
    for _ in range(ctx.pick(5000, 60000)):
        cfg = ml.config(rng)
        if not cfg["steps"] and rng.random() < .8:
            continue
        sc = ml.scenario(rng, cfg, most=rng.choice([1, 2, 4]))
        pr = ml.prediction(rng, cfg, sc, most=3)
        how = []
        for _ in range(rng.choice([0, 1, 1, 1, 1, 2])):
            how.append(spoil(rng, cfg, sc, pr))
        cases.append((cfg, sc, pr, "+".join(how)))
    rs = run_parallel(h, [ml.eval_req(c[0], [(c[1], c[2])]) for c in cases])
    groups = []
    for (cfg, sc, pr, how), r in zip(cases, rs):
        e = {"ev": "accept", "cfg": cfg, "sc": sc, "pr": pr, "crash": r.get("crash", ""), "ok": False, "ok2": False, "_how": how}
        if "ok" in r:
            e.update(ok=r["ok"][0], ok2=r["bok"], _err=r["err"][0])
        groups.append([e])
    ok = sum(g[0]["ok"] for g in groups)
    ctx.log("accepted %d of %d" % (ok, len(groups)))
    ctx.validate("TraceMotion", groups, "submissions", samples=len(groups))
    # the challenge's own rules and format
    reqs, evs = [], []
    for _ in range(ctx.pick(1500, 10000)):
        cfg = ml.config(rng)
        sc = ml.scenario(rng, cfg, most=4)
        pr = ml.prediction(rng, cfg, sc, most=3)
        for _ in range(rng.choice([0, 0, 1])):
            spoil(rng, dict(cfg), copy.deepcopy(sc), pr)
        if rng.random() < .5:
            kind = rng.choice([1, 2, 1, 2, 0])
            evs.append({"ev": "challenge", "kind": kind, "pr": pr})
            reqs.append("challenge %d %s" % (kind, detlib.hx(ml.prediction_proto(pr))))
        else:
            shape = rng.choice(["single", "joint", "joint", "none"])
            if shape == "single":
                pr["mm"] = [[dict(j, t=[dict(j["t"][0], id=m[0]["t"][0]["id"])]) for j in m if j["t"]] for m in pr["mm"] if m and m[0]["t"]]
                pr["mm"] = [m for m in pr["mm"] if m]
            elif shape == "joint":
                pr["mm"] = (pr["mm"] or [[]])[:1]
                if rng.random() < .6:
                    two = [t for m in pr["mm"] for j in m for t in j["t"]][:2]
                    if len(two) == 2:
                        pr["mm"] = [[dict(j, t=copy.deepcopy(two)) for j in m] for m in pr["mm"]]
                        if rng.random() < .3 and pr["mm"][0]:
                            q = rng.choice(pr["mm"][0])["t"][rng.randint(0, 1)]
                            if q["y"]:
                                q["y"].pop()
            evs.append({"ev": "convert", "shape": shape, "pr": pr})
            reqs.append("convert " + detlib.hx(challenge_proto(shape, pr)))
    groups = []
    for e, r in zip(evs, run_parallel(h, reqs)):
        e.update(crash=r.get("crash", ""), ok=r.get("ok", False))
        if e["ev"] == "convert":
            e["out"] = pred_of(r["out"], None) if r.get("out", "-") not in ("", "-") else {"id": "", "mm": []}
        groups.append([e])
    ctx.validate("TraceMotion", groups, "challenge submissions", samples=len(groups))
