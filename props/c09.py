"""C09: overlap of boxes, polygons and segments."""
import math

from vlib import build
from vlib.harness import run_parallel

KIND = {"3D": 1, "2D": 2, "AA": 3}


def place(a, b, kind, rng, j, odd_dims=None):
    """The pair in a placement: common similarity, each box described by any of its corners."""
    k = rng.choice([1.0, 1.0, 0.25, 0.5, 2.0, 0.05, 3.7]) if j else 1.0
    rot = rng.choice([0, 0, math.pi / 2, math.pi / 4, rng.uniform(-3.2, 3.2), 1e-3]) if j and kind != "AA" else 0.0
    tx, ty, tz = (rng.choice([0, 10, -3, rng.uniform(-80, 80)]) for _ in range(3)) if j else (0, 0, 0)
    out = []
    for x in (a, b):
        r = math.hypot(x["p"], x["q"])
        hd = math.atan2(x["q"], x["p"]) + rot
        L, W = 2 * x["m"] * r, 2 * x["n"] * r
        if kind == "AA":
            L, W, hd = 2 * x["m"], 2 * x["n"], rng.choice([hd, rng.uniform(-9, 9)]) if j else hd
        elif j:
            t = rng.randint(0, 3)
            hd += t * math.pi / 2 + 2 * math.pi * rng.choice([0, 0, 1, -1])
            if t % 2:
                L, W = W, L
        cx = k * (math.cos(rot) * x["cx"] - math.sin(rot) * x["cy"]) + tx
        cy = k * (math.sin(rot) * x["cx"] + math.cos(rot) * x["cy"]) + ty
        d = [cx, cy, k * x["zc"] / 2 + tz, k * L, k * W, k * x["h"], hd]
        if x["odd"]:
            d[3 + x["odd"][0]] = x["odd"][1]
        out.append(d)
    return out


def view(x):
    return dict(x, odd=bool(x["odd"]))


def box(rng, big):
    while True:
        p, q = rng.choice([(1, 0), (1, 0), (1, 1), (2, 1), (1, 2), (-1, 2), (3, 1), (-1, 1), (0, 1), (3, 2), (4, 3), (-3, 4)])
        m, n = rng.choice([1, 1, 2, 3, 4]), rng.choice([1, 1, 2, 3])
        if max(abs(p), abs(q)) * 2 * max(m, n) <= 16:
            return {"cx": rng.randint(-big, big), "cy": rng.randint(-big, big), "p": p, "q": q, "m": m, "n": n,
                    "zc": rng.choice([0, 0, 1, 2, 3, -1, 4]), "h": rng.choice([1, 2, 2, 3, 4]), "odd": None}


def contact(rng):
    """Pairs in special contact: shared side, shared corner, corner on side, containment, equal."""
    a = box(rng, 3)
    b = dict(a)
    how = rng.randint(0, 6)
    p, q = a["p"], a["q"]
    if how == 0:
        pass
    elif how == 1:  # slide along the axis by any lattice amount
        s = rng.randint(-2 * a["m"], 2 * a["m"])
        b.update(cx=a["cx"] + s * p, cy=a["cy"] + s * q)
    elif how == 2:
        s = rng.choice([-1, 1]) * 2 * a["n"]
        b.update(cx=a["cx"] - s * q, cy=a["cy"] + s * p)
    elif how == 3:
        b.update(m=max(1, a["m"] - 1), n=max(1, a["n"] - 1))
    elif how == 4:  # same centre, quarter turn
        b.update(p=-q, q=p)
    elif how == 5:  # same outline, other description
        b.update(p=-q, q=p, m=a["n"], n=a["m"])
    else:
        b.update(m=a["n"], n=a["m"], zc=a["zc"] + rng.choice([0, a["h"], 2 * a["h"], 1]))
    return a, b


def ppm(v):
    return int(round(v * 1e6)) if v == v and abs(v) < 1000 else -1


def hull(pts):
    pts = sorted(set(pts))
    def half(ps):
        h = []
        for p in ps:
            while len(h) >= 2 and (h[-1][0] - h[-2][0]) * (p[1] - h[-2][1]) - (h[-1][1] - h[-2][1]) * (p[0] - h[-2][0]) <= 0:
                h.pop()
            h.append(p)
        return h[:-1]
    return half(pts) + half(pts[::-1])


def polygon(rng, n):
    while True:
        h = hull([(rng.randint(0, n), rng.randint(0, n)) for _ in range(rng.choice([3, 4, 4, 5, 6, 7]))])
        if len(h) >= 3:
            k = rng.randrange(len(h))
            return h[k:] + h[:k]


def run(ctx):
    h = build.cc("h_geom")
    rng = ctx.rng
    cfg = ("SPECIFICATION Spec\nCONSTANTS Sizes = {1,2}\nReach = %d\nHeights = {%s}\nEmit = TRUE\nVIEW View\n"
           "INVARIANTS Bounds ZeroIffApart OneIffSame CoveredWhole Additive PrintCase\nPROPERTY MotionFree\n")
    cs = ctx.model_cases("MC_Geometry", cfg % ((1, "0,1,4") if not ctx.thorough else (3, "0,1,4")), name="pairs of boxes", workers=8,
                         timeout=ctx.pick(300, 1500))
    cs.sort(key=str)
    pairs = []
    for c in rng.sample(cs, min(len(cs), ctx.pick(1200, 8000))):
        for x in c.values():
            x["odd"] = None
        pairs.append((c["a"], c["b"]))
    n0 = len(pairs)
    pairs += [contact(rng) for _ in range(ctx.pick(700, 6000))]
    for _ in range(ctx.pick(1200, 12000)):
        big = rng.choice([2, 4, 6])
        pairs.append((box(rng, big), box(rng, big)))
    for _ in range(ctx.pick(120, 1000)):
        a, b = contact(rng)
        if rng.random() < .5:
            a, b = b, a
        a = dict(a, odd=(rng.randint(0, 2), rng.choice([0.0, 0.01, 0.005, 1e6, 2e6, -1.0, -0.5])))
        pairs.append((a, b) if rng.random() < .5 else (b, a))
    reqs, meta = [], []
    for a, b in pairs:
        for kind in ("3D", "2D", "AA"):
            odd = [x["odd"][0] for x in (a, b) if x["odd"]]
            if odd and odd[0] == 2 and kind != "3D":
                continue
            t = [KIND[kind], 4]
            for j in range(4):
                p = place(a, b, kind, rng, j)
                t += p[0] + p[1]
            reqs.append("iou " + " ".join(map(str, t)))
            meta.append({"ev": "iou", "kind": kind, "a": view(a), "b": view(b), "_w": 12})
    groups = []
    for e, r in zip(meta, run_parallel(h, reqs)):
        g = dict(e, crash=r.get("crash", ""))
        if "ab" in r:
            g.update({k: [ppm(v) for v in r[k]] for k in ("ab", "ba", "batch", "each")})
        groups.append([g])
    ctx.validate("TraceGeometry", groups, "box overlap", samples=len(pairs) - n0)

    # convex polygons
    groups, reqs, meta = [], [], []
    for _ in range(ctx.pick(1500, 15000)):
        n = rng.choice([4, 7, 7, 9])
        P = polygon(rng, n)
        Q = polygon(rng, n)
        if rng.random() < .25:
            Q = P[1:] + P[:1]
            if rng.random() < .7:
                i = rng.randrange(len(Q))
                if len(Q) > 3:
                    Q = Q[:i] + Q[i + 1:]
        o = (rng.choice([0, 0, 0, 1, -2]), rng.choice([0, 0, 1, 3]))
        Q = [(x + o[0], y + o[1]) for x, y in Q]
        t = [3]
        scale = []
        for j in range(3):
            k = rng.choice([1, 1, 0.5, 4.0, 0.1]) if j else 1
            rot = rng.choice([0, math.pi / 2, rng.uniform(-3, 3)]) if j else 0
            tx, ty = (rng.uniform(-60, 60), rng.uniform(-60, 60)) if j else (0, 0)
            scale.append(k)
            for A in (P, Q):
                r0 = rng.randrange(len(A)) if j else 0
                A = A[r0:] + A[:r0]
                t.append(len(A))
                for x, y in A:
                    t += [k * (math.cos(rot) * x - math.sin(rot) * y) + tx, k * (math.sin(rot) * x + math.cos(rot) * y) + ty]
        pts = [(rng.randint(-1, n + 1), rng.randint(-1, n + 1)) for _ in range(6)] + list(P[:2])
        t += [len(pts)] + [c for p in pts for c in p]
        reqs.append("poly " + " ".join(map(str, t)))
        meta.append(({"ev": "poly", "p": P, "q": Q, "pts": pts, "_w": 12}, scale))
    for (e, sc), r in zip(meta, run_parallel(h, reqs)):
        g = dict(e, crash=r.get("crash", ""))
        if "pq" in r:
            for k in ("pq", "qp", "ap"):
                g[k] = [int(round(v / s / s * 2e4)) for v, s in zip(r[k], sc)]
            g["maybe"], g["inside"] = [int(x) for x in r["maybe"]], [int(x) for x in r["inside"]]
        groups.append([g])
    ctx.validate("TraceGeometry", groups, "polygons", samples=len(groups))

    groups, reqs, meta = [], [], []
    for _ in range(ctx.pick(2500, 25000)):
        n = rng.choice([2, 3, 6, 12])
        q = [[rng.randint(-n, n), rng.randint(-n, n)] for _ in range(4)]
        if q[0] == q[1] or q[2] == q[3]:
            continue
        reqs.append("seg " + " ".join(str(c) for p in q for c in p))
        meta.append(dict(zip("abcd", q), ev="seg", _w=2))
    for e, r in zip(meta, run_parallel(h, reqs)):
        g = dict(e, crash=r.get("crash", ""))
        if "hit" in r:
            g.update(hit=bool(r["hit"]), x=int(round(r["x"] * 1000)) if r["hit"] else 0,
                     y=int(round(r["y"] * 1000)) if r["hit"] else 0)
        groups.append([g])
    ctx.validate("TraceGeometry", groups, "segments", samples=len(groups))
