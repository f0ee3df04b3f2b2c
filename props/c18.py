"""C18: road graph samples of a converted scenario."""
from . import convlib as V
from . import detlib as D

LINES = {"lane": "lane", "line": "road_line", "edge": "road_edge"}
AREAS = {"walk": "crosswalk", "bump": "speed_bump", "drive": "driveway"}


def feature(f):
    M = D.module("protos.map_pb2")
    m = M.MapFeature(id=f["id"])
    pt = lambda p, t: (setattr(t, "x", p[0] / 4), setattr(t, "y", p[1] / 4), setattr(t, "z", p[2] / 4))
    if f["kind"] in LINES:
        g = getattr(m, LINES[f["kind"]])
        g.SetInParent()
        g.type = f["sub"]
        for p in f["pts"]:
            pt(p, g.polyline.add())
    elif f["kind"] in AREAS:
        g = getattr(m, AREAS[f["kind"]])
        g.SetInParent()
        for p in f["pts"]:
            pt(p, g.polygon.add())
    elif f["kind"] == "stop":
        m.stop_sign.SetInParent()
        pt(f["pts"][0], m.stop_sign.position)
    return m


def rnd_feature(rng, k):
    kind = rng.choice(["lane", "line", "edge", "stop", "walk", "bump", "drive", "lane", "none"])
    R = rng.choice([3, 20, 150])
    p = lambda: [rng.randint(-R, R), rng.randint(-R, R), rng.randint(-2, 2)]
    sub = 0
    if kind in LINES:
        sub = rng.randint(0, {"lane": 3, "line": 8, "edge": 2}[kind])
        n = rng.choice([0, 1, 2, 3, 4, 5, 8, 14])
        pts, q, d = [], p(), [rng.randint(-2, 2), rng.randint(-2, 2), 0]
        for _ in range(n):
            pts.append(list(q))
            if rng.random() < .4:
                d = [rng.randint(-2, 2), rng.randint(-2, 2), rng.randint(-1, 1)]
            q = [a + b for a, b in zip(q, d)]
        if rng.random() < .1:
            pts = [p() for _ in range(n)]
    elif kind == "stop":
        pts = [p()]
    elif kind == "none":
        pts = []
    else:
        n = rng.choice([0, 1, 2, 3, 4, 4, 4, 6])
        pts = [p() for _ in range(n)]
        if n > 1 and rng.random() < .15:
            pts[1] = list(pts[0])
        if n == 4 and rng.random() < .4:
            x, y, a, b = rng.randint(-20, 20), rng.randint(-20, 20), rng.randint(1, 24), rng.randint(1, 24)
            pts = [[x, y, 0], [x + a, y, 0], [x + a, y + b, 0], [x, y + b, 0]]
    return {"id": rng.choice([k + 1, k + 1, 10000 + k, 2000000000 + k]), "kind": kind, "sub": sub, "pts": pts}


def events(rng, jobs):
    reqs = []
    s = None
    for m, c in jobs:
        cc = V.cfg(np=1, nf=0, na=1, sl=0, src=c["src"] / 8, smp=c["smp"] / 8, poly=c["poly"] / 4, max=c["max"])
        s = {"T": 1, "ts": [0], "sdc": 0, "ooi": [], "ttp": [{"i": 0, "d": 0}], "tracks": [{"id": 1, "type": 1, "st": [V.state(rng, 1)]}]}
        reqs.append(V.protos(s, cc, [], [feature(f) for f in m]))
    out = []
    scale = lambda v, k: [int(round(x * k)) if isinstance(x, (int, float)) and abs(x * k) < 2 ** 31 else -99999999 for x in v]
    for (m, c), r in zip(jobs, V.convert(reqs)):
        f = r.get("f", {})
        g = lambda k: f.get("roadgraph_samples/" + k, [])
        e = {"map": m, "cfg": c, "crash": r.get("crash", ""), "ok": bool(r.get("ok")), "id": g("id"), "type": g("type"),
             "valid": g("valid"), "xyz": scale(g("xyz"), 4000), "dir": scale(g("dir"), 1000), "_w": 1 + len(g("id")) / 5}
        if r.get("crash"):
            e["_err"] = r.get("err", "")
        out.append([e])
    return out


def run(ctx):
    rng = ctx.rng
    inv = ("SPECIFICATION Spec\nCONSTANTS Paths = %d\nEmit = %s\n"
           "INVARIANTS Room AsWhole Ends NoneLost Contiguous Ranked SideSpacing\n")
    cs = ctx.model_cases("MC_Roadgraph", inv % (2, "TRUE") + "INVARIANT PrintCase\n", name="sampler, two features", workers=8)
    jobs, seen = [], set()
    for c in cs:
        if str(c) not in seen:
            seen.add(str(c))
            jobs.append((c["map"], c["cfg"]))
    if not ctx.thorough:
        jobs = [j for j in jobs if len(j[0]) == 1] + rng.sample(jobs, 3500)
    ctx.validate("TraceRoadgraph", events(rng, jobs), "conversion of modelled maps")
    jobs = []
    for _ in range(ctx.pick(2500, 30000)):
        m = [rnd_feature(rng, k) for k in range(rng.randint(0, 5))]
        jobs.append((m, {"max": rng.choice([0, 1, 2, 5, 12, 30, 60, 100]), "src": rng.choice([1, 2, 4, 4]),
                         "smp": rng.choice([0, -1, 1, 2, 3, 4, 5, 8, 8, 12, 20]), "poly": rng.choice([0, -2, 1, 2, 3, 4, 4, 8, 40])}))
    ctx.validate("TraceRoadgraph", events(rng, jobs), "random maps", samples=len(jobs))
