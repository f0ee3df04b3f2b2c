"""C22: map plots."""
from vlib.pyrun import guarded
from . import detlib as D

KINDS = {"lane": 4, "road_line": 9, "road_edge": 3, "stop_sign": 1, "crosswalk": 1, "speed_bump": 1, "driveway": 1, "none": 1}


def feature(f):
    m = D.module("protos.map_pb2").MapFeature()
    m.id = f["id"]
    k = f["kind"]
    if k == "none":
        return m
    sub = getattr(m, k)
    sub.SetInParent()
    if k == "stop_sign":
        x, y, z = f["pts"][0]
        sub.position.x, sub.position.y, sub.position.z = x / 8, y / 8, z / 8
        return m
    if k in ("lane", "road_line", "road_edge"):
        if f["type"] or f.get("told"):
            sub.type = f["type"]
        lst = sub.polyline
    else:
        lst = sub.polygon
    for x, y, z in f["pts"]:
        lst.add(x=x / 8, y=y / 8, z=z / 8)
    return m


def pts(t):
    def num(v):
        return int(round(float(v) * 8)) if abs(float(v) * 8 - round(float(v) * 8)) < 1e-6 else 10 ** 9
    xs, ys, zs = [list(v) if v is not None else [] for v in (t.x, t.y, t.z)]
    if not len(xs) == len(ys) == len(zs):
        return [["uneven"]]
    return [[num(a), num(b), num(c)] for a, b, c in zip(xs, ys, zs)]


def draw(m):
    P = D.module("utils.plot_maps")
    fs = [feature(f) for f in m]
    before = [f.SerializeToString() for f in fs]
    fig = P.plot_map_features(fs)
    if [f.SerializeToString() for f in fs] != before:
        raise AssertionError("the map was changed")
    names = {str(x): x.name for x in P.FeatureType}
    lines, clouds = [], []
    for t in fig.data:
        p = pts(t)
        if t.name in names:
            clouds.append({"name": names[t.name], "pts": p, "color": t.marker.color})
        elif p:
            md = t.mode or ""
            lines.append({"pts": p, "mode": md, "color": (t.marker.color if md == "markers" else t.line.color) or "",
                          "dash": (t.line.dash or "solid") if md == "lines" else ""})
    return {"lines": lines, "clouds": clouds}


def run(ctx):
    rng = ctx.rng
    D.module("utils.plot_maps")
    allk = '{"lane","road_line","road_edge","stop_sign","crosswalk","speed_bump","driveway","none"}'
    inv = "INVARIANTS Whole NothingLost OneLineEach Closed StylesTold PrintCase\n"
    cs = ctx.model_cases("MC_MapPlot", "SPECIFICATION Spec\nCONSTANTS MaxFeatures = 2\nMaxPts = 2\nKinds = %s\nEmit = TRUE\n" % allk + inv, name="pairs of features", workers=8)
    ctx.model("MC_MapPlot", 'SPECIFICATION Spec\nCONSTANTS MaxFeatures = %d\nMaxPts = 2\nKinds = {"road_edge","stop_sign","crosswalk","none"}\nEmit = FALSE\n' % ctx.pick(4, 5) + inv, name="longer maps")
    maps = [c["map"] for c in (cs if ctx.thorough else rng.sample(cs, min(len(cs), 500)))]
    maps += [[]]
    for k, n in KINDS.items():                      # every type alone
        for t in range(n):
            maps.append([{"id": 7, "kind": k, "type": t, "pts": [] if k == "none" else [[8, 0, 1]] if k == "stop_sign" else [[8, 0, 1], [9, -5, 2], [20, 7, 3]], "told": True}])
    n0 = len(maps)
    for _ in range(ctx.pick(180, 2500)):
        ids = rng.sample(range(0, 10 ** rng.choice([2, 9])), 14) if rng.random() < .8 else list(range(14, 0, -1))
        m = []
        for i in range(rng.randint(0, 12)):
            k = rng.choice(list(KINDS))
            n = 0 if k == "none" else 1 if k == "stop_sign" else rng.choice([0, 1, 2, 3, 5, 9])
            p = [[rng.randint(-80000, 80000), rng.randint(-800, 800), rng.randint(-80, 80)] for _ in range(n)]
            if n > 2 and rng.random() < .3:
                p[-1] = list(p[0])                  # already closed
            for x in range(1, n):
                if rng.random() < .15:
                    p[x] = list(p[x - 1])           # repeated points stay
            if n and m and m[-1]["pts"] and rng.random() < .3:
                p[0] = list(m[-1]["pts"][rng.choice([0, -1])])  # one feature goes on where another ends
            m.append({"id": ids[i], "kind": k, "type": rng.randrange(KINDS[k]), "pts": p, "told": rng.random() < .5})
        maps.append(m)
    groups = []
    for m, r in zip(maps, guarded(draw, maps)):
        e = {"map": [{k: v for k, v in f.items() if k != "told"} for f in m], "exc": r.get("exc", ""), "_msg": r.get("msg", ""), "_w": 1 + len(m)}
        e.update(r.get("ok", {}))
        groups.append([e])
    ctx.validate("TraceMapPlot", groups, "drawn maps", samples=len(maps) - n0)
