"""C21: rater feedback scores."""
import math
from fractions import Fraction

import numpy as np

from vlib.pyrun import guarded
from . import detlib as D

DIRS = [(1, 0), (0, 1), (-1, 0), (0, -1), (3, 4), (-4, 3), (4, -3), (-3, -4), (5, 12), (-12, 5), (8, 15), (-15, -8)]
DECAY = {"1/10": .1, "1/2": .5, "4/5": .8, "1": 1.0}
BASE = (10, 18)


def heading(path, t):
    while True:
        prev = path[t - 1] if t else (0, 0)
        d = (path[t][0] - prev[0], path[t][1] - prev[1])
        if d != (0, 0):
            return d
        if t == 0:
            return (1, 0)
        t -= 1


def scale32(sp):
    return max(16, min(32, 16 + (sp - 1400) // 600))


def fix(path, n):
    return (list(path) + [path[-1]] * n)[:n]


def edges(s):
    """True if a prediction lies on the boundary of a region that floats cannot hit exactly."""
    n = s["freq"] * s["secs"]
    for r in s["rated"][:s["slots"]]:
        path = fix(r["path"], n)
        for k in (0, 1):
            t = (3, 5)[k] * s["freq"] - 1
            d = heading(path, t)
            ln = math.isqrt(d[0] ** 2 + d[1] ** 2)
            if ln * ln != d[0] ** 2 + d[1] ** 2:
                return True
            for p in s["preds"]:
                v = (p[t][0] - path[t][0], p[t][1] - path[t][1])
                for pr, m in ((d[0] * v[0] + d[1] * v[1], s["lng"]), (d[0] * v[1] - d[1] * v[0], s["lat"])):
                    thr = ln * BASE[k] * m * scale32(s["speed"])
                    if abs(pr) * 100 == thr:
                        exact = k == 0 and m in (10, 20, 40, 5) and scale32(s["speed"]) in (16, 32) and 0 in d
                        if not exact:
                            return True
    return False


def arr(path):
    return np.array(path, dtype=np.float64).reshape(-1, 2) / 32


def score(j):
    U = D.module("metrics.python.rater_feedback_utils")
    b = j["batch"]
    s0 = b[0]
    inf = np.stack([np.stack([arr(p) for p in s["preds"]]) for s in b])
    pr = np.array([[w / s["total"] for w in s["w"]] for s in b])
    rated = [[arr(r["path"]) for r in s["rated"]] for s in b]
    labels = [np.array([r["label"] / 10 for r in s["rated"]]) for s in b]
    kw = {}
    if j["full"]:
        kw = dict(lat_lng_threshold_multipliers=(s0["lat"] / 10, s0["lng"] / 10), decay_factor=DECAY[s0["decay"]], frequency=s0["freq"],
                  length_seconds=s0["secs"], default_num_of_rater_specified_trajectories=s0["slots"],
                  minimum_score_outside_trust_region=s0["floor"] / 10)
    if j["vis"]:
        kw["output_trust_region_visualization"] = True
    keep = [inf.copy(), pr.copy(), [[a.copy() for a in x] for x in rated]]
    o = U.get_rater_feedback_score(inf, pr, rated, labels, np.array([s["speed"] / 1000 for s in b]), **kw)
    same = np.array_equal(keep[0], inf) and np.array_equal(keep[1], pr) and all(
        np.array_equal(x, y) for a, c in zip(keep[2], rated) for x, y in zip(a, c))
    res = []
    for i in range(len(b)):
        e = {"score": int(round(float(o["rater_feedback_score"][i]) * 327680)) if np.isfinite(o["rater_feedback_score"][i]) else -10 ** 9,
             "inside": [bool(x) for x in o["is_fully_within_trust_region"][i]],
             "paths": ints2(o["rater_specified_trajectories"][i], 32),
             "labels": [int(round(float(x) * 10)) for x in o["rater_feedback_labels"][i]], "vis": j["vis"], "same": bool(same)}
        if j["vis"]:
            e["center"] = [[[int(round(float(x[k]) * 32)), int(round(float(y[k]) * 32))] for k in (0, 1)]
                           for x, y in zip(o["trust_region_center_x"][i], o["trust_region_center_y"][i])]
            e["width"] = [int(round(float(x) * 3200)) for x in o["trust_region_width"][i]]
            e["height"] = [int(round(float(x) * 3200)) for x in o["trust_region_height"][i]]
            e["angle"] = [[[int(round(1e4 * math.cos(math.radians(float(a[k]))))), int(round(1e4 * math.sin(math.radians(float(a[k])))))]
                           for k in (0, 1)] for a in o["trust_region_angle"][i]]
        res.append(e)
    return res


def ints2(a, f):
    return [[[int(round(float(x) * f)), int(round(float(y) * f))] for x, y in t] for t in a]


def bring(j):
    U = D.module("metrics.python.rater_feedback_utils")
    tr, lb = U.process_rater_specified_trajectories(
        [[arr(r["path"]) for r in x] for x in j["batch"]], [np.array([r["label"] / 10 for r in x]) for x in j["batch"]], j["n"], j["slots"])
    return [{"paths": ints2(t, 32), "labels": [int(round(float(v) * 10)) for v in x]} for t, x in zip(tr, lb)]


def bad(j):
    U = D.module("metrics.python.rater_feedback_utils")
    T = j["T"]
    rated = [[np.ones((t, 2)) for t in x] for x in j["rated"]]
    labels = [np.ones(n) for n in j["labels"]]
    U.get_rater_feedback_score(np.zeros((len(rated), 2, T, 2)), np.ones((len(rated), 2)) / 2, rated, labels, np.zeros(len(rated)),
                               frequency=j["freq"], length_seconds=j["secs"])


def speed(j):
    U = D.module("metrics.python.rater_feedback_utils")
    la, ln = U.get_lat_lng_thresholds(np.array(j["speeds"]) / 1000, (j["lat"] / 10, j["lng"] / 10))
    return [{"lat": [int(round(float(x) * 1000)) for x in a], "lng": [int(round(float(x) * 1000)) for x in b]} for a, b in zip(la, ln)]


def do(j):
    return {"score": score, "fix": bring, "bad": bad, "speed": speed}[j["k"]](j)


def walk(rng, n, f):
    p, x, y = [], 0, 0
    mode = rng.random()
    d = rng.choice(DIRS)
    for t in range(n):
        if rng.random() < .3:
            d = rng.choice(DIRS)
        st = 0 if rng.random() < (.7 if mode < .3 else .15) else rng.choice([1, 2, 4, 8, 16][:3 if d[0] * d[1] else 5])
        if abs(x + d[0] * st) > 1500 or abs(y + d[1] * st) > 1500:
            st = 0
        x, y = x + d[0] * st, y + d[1] * st
        p.append([x, y])
    return p


def beside(rng, s):
    """A prediction near a rated trajectory, at chosen distances at the two times."""
    n = s["freq"] * s["secs"]
    r = rng.choice(s["rated"])
    path = fix(r["path"], n)
    out = [list(p) for p in path]
    for k in (0, 1):
        t = (3, 5)[k] * s["freq"] - 1
        d = heading(path, t)
        ln = math.isqrt(d[0] ** 2 + d[1] ** 2)
        kind = rng.random()
        if kind < .2:
            v = (0, 0)
        elif kind < .75:
            # a multiple of the thresholds along and across
            a, b = [rng.choice([0, 0, .3, .9, .97, 1, 1.03, 1.1, 1.5, 2, 3, -.5, -1, -1.2, -2]) for _ in (0, 1)]
            al = a * BASE[k] * s["lng"] * scale32(s["speed"]) / 100
            ac = b * BASE[k] * s["lat"] * scale32(s["speed"]) / 100
            v = (round((al * d[0] - ac * d[1]) / ln), round((al * d[1] + ac * d[0]) / ln))
        else:
            v = (rng.randint(-400, 400), rng.randint(-400, 400))
        out[t] = [path[t][0] + v[0], path[t][1] + v[1]]
    for t in range(n):
        if t not in (3 * s["freq"] - 1, 5 * s["freq"] - 1) and rng.random() < .3:
            out[t] = [rng.randint(-999, 999), rng.randint(-999, 999)]
    return out


def scene(rng, cfg, npred):
    s = dict(cfg)
    n = s["freq"] * s["secs"]
    s["rated"] = [{"path": walk(rng, rng.choice([n, n, n, max(1, n - rng.randint(1, n - 1)), n + rng.randint(1, 4)]), s["freq"]),
                   "label": rng.choice([0, 100, 50, 80, rng.randint(0, 100)])} for _ in range(rng.choice([1, 2, 3, 3, 4]))]
    s["speed"] = rng.choice([0, 1400, 11000, 20000, 500, -300] + [1400 + 600 * rng.randint(0, 16)] * 4)
    s["w"] = [rng.choice([0, 1, 1, 2, 5]) for _ in range(npred)]
    s["total"] = max(1, sum(s["w"]))
    while True:
        s["preds"] = [beside(rng, s) for _ in range(npred)]
        if not edges(s):
            return s


def run(ctx):
    rng = ctx.rng
    D.module("metrics.python.rater_feedback_utils")
    inv = ("INVARIANTS OrderIrrelevant PaddingIrrelevant Same Bounded FloorOutside MoreRatedNeverHurts SlowerNotInside SlowerNotBetter "
           "InsideScoresLabel HeadingWhole HeadingKept PrintCase\n")
    cs = ctx.model_cases("MC_Rater", 'SPECIFICATION Spec\nCONSTANTS Moves = {"e","k","s"%s}\nOffsets = {"o","b","c"%s}\n'
                         "Labels = {100, 30}\nSpeeds = {1400, 11000}\nEmit = TRUE\n" % ctx.pick(("", ""), (', "n"', ', "a", "d", "e", "f"')) + inv,
                         name="driving and scoring", workers=8)
    ctx.model("MC_Rater", 'SPECIFICATION Spec\nCONSTANTS Moves = {}\nOffsets = {}\nLabels = {}\nSpeeds = {}\nEmit = FALSE\nINVARIANTS DecayFalls\n', name="decay")
    jobs = []
    still = [[0, 0]] * 5
    base = {"freq": 1, "secs": 5, "slots": 3, "lat": 10, "lng": 40, "decay": "1/10", "floor": 40}
    batch = []
    for c in rng.sample(cs, min(len(cs), ctx.pick(2400, 20000))):
        rated = [{"path": c["path"], "label": c["lab"]}, {"path": still, "label": 40}]
        if rng.random() < .5:
            rated.reverse()
        s = dict(base, rated=rated, preds=[c["pred"]], w=[1], total=1, speed=c["sp"])
        if not edges(s):
            batch.append(s)
    n0 = 0
    while batch:
        k = rng.randint(1, 8)
        jobs.append({"k": "score", "batch": batch[:k], "full": True, "vis": rng.random() < .3})
        n0 += k
        batch = batch[k:]
    for _ in range(ctx.pick(220, 2500)):
        if rng.random() < .3:
            cfg, full = dict(base, freq=4), False
        else:
            cfg = {"freq": rng.choice([1, 2, 4]), "secs": rng.choice([5, 5, 5, 6]), "slots": rng.choice([1, 2, 3, 3, 4]), "lat": rng.choice([10, 10, 5, 20]),
                   "lng": rng.choice([40, 40, 10, 20]), "decay": rng.choice(list(DECAY)), "floor": rng.choice([40, 40, 0, 100, 55])}
            full = True
        npred = rng.randint(1, 4)
        jobs.append({"k": "score", "batch": [scene(rng, cfg, npred) for _ in range(rng.randint(1, 4))], "full": full, "vis": rng.random() < .3})
    for _ in range(ctx.pick(150, 1000)):
        n, slots = rng.randint(1, 9), rng.randint(1, 5)
        jobs.append({"k": "fix", "n": n, "slots": slots, "batch": [[{"path": walk(rng, rng.randint(1, 12), 1), "label": rng.randint(0, 100)}
                                                                    for _ in range(rng.randint(1, 6))] for _ in range(rng.randint(0, 3))]})
    for T, rated, labels, f, secs in [(19, [[20, 20]], [2], 4, 5), (21, [[21]], [1], 4, 5), (16, [[20]], [1], 4, 4), (4, [[5]], [1], 1, 4),
                                      (20, [[20, 20]], [1], 4, 5), (20, [[20], [20]], [1], 4, 5), (20, [[20]], [1, 1], 4, 5), (20, [[20, 20], [20]], [2, 2], 4, 5)]:
        jobs.append({"k": "bad", "T": T, "rated": rated, "labels": labels, "freq": f, "secs": secs})
    for _ in range(ctx.pick(40, 200)):
        jobs.append({"k": "speed", "speeds": sorted(rng.choice([0, 1400, 11000, rng.randint(-500, 14000), rng.randint(1390, 1410), rng.randint(10990, 11010)])
                                                    for _ in range(rng.randint(1, 12))), "lat": rng.choice([10, 5, 20]), "lng": rng.choice([40, 10, 35])})
    groups, events = [], 0
    for j, r in zip(jobs, guarded(do, jobs)):
        exc = r.get("exc", "")
        if j["k"] == "score":
            for i, s in enumerate(j["batch"]):
                e = {"k": "score", "exc": exc, "s": s, "_msg": r.get("msg", ""), "_w": len(s["preds"]) * len(s["rated"])}
                if not exc:
                    e.update(r["ok"][i])
                    if not e.pop("same"):
                        e["exc"] = "the inputs were changed"
                groups.append([e])
        elif j["k"] == "fix":
            for i, x in enumerate(j["batch"]):
                groups.append([dict({"k": "fix", "exc": exc, "rated": x, "n": j["n"], "slots": j["slots"]}, **({} if exc else r["ok"][i]))])
            if not j["batch"] and exc:
                groups.append([{"k": "fix", "exc": exc}])
        elif j["k"] == "bad":
            groups.append([{"k": "bad", "exc": exc, "_j": str(j)}])
        else:
            groups.append([{"k": "speed", "exc": exc, "speeds": j["speeds"], "lat": j["lat"], "lng": j["lng"], "got": r.get("ok", [])}])
    ctx.validate("TraceRater", groups, "scores", samples=len(groups) - n0)
