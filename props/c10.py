"""C10: longitudinal-error-tolerant alignment and affinity."""
import math

from vlib import build
from vlib.harness import run_parallel
from .c09 import box, ppm

MODE = {"NOT": 1, "RANGE": 2, "CENTER": 3, "FURTHER": 4, "ANY_CLOSER": 5, "BETWEEN": 6}
TRUTHS = [(3, 0, 0), (0, -2, 0), (3, 4, 0), (-4, 3, 0), (1, 2, 2), (2, -3, 6), (-2, -1, 2), (0, 0, 4), (6, 8, 0), (4, 4, 7),
          (-12, 5, 0), (1, 0, 0), (8, -1, 4), (0, 0, 0), (20, 0, 0), (12, 16, -15)]


def shape(rng):
    b = box(rng, 0)
    b.update(zc=0, odd=False)
    return b


def run(ctx):
    h = build.cc("h_geom")
    rng = ctx.rng
    cfg = ("SPECIFICATION Spec\nCONSTANTS Reach = %d\nEmit = TRUE\nVIEW View\nPROPERTY AffAlong\n"
           "INVARIANTS OnSight Closest Toward Outward NotInward Covered AffRange AffOne AffWider PrintCase\n")
    cs = ctx.model_cases("MC_LetAlign", cfg % ctx.pick(2, 4), name="alignment lattice", workers=8)
    cs.sort(key=str)
    pairs = [(tuple(c["p"]), tuple(c["g"])) for c in cs]
    if not ctx.thorough:
        pairs = rng.sample(pairs, min(len(pairs), 700))
    n0 = len(pairs)
    for _ in range(ctx.pick(500, 6000)):
        G = rng.choice(TRUTHS)
        how = rng.randint(0, 5)
        if how == 0:
            P = tuple(rng.choice([2, -1, 0, 3]) * x for x in G)
        elif how == 1 and all(x % 2 == 0 for x in G):
            P = tuple(x // 2 for x in G)
        else:
            r = rng.choice([1, 2, 4, 8])
            P = tuple(x + rng.randint(-r, r) for x in G)
        pairs.append((P, G))
    reqs, meta = [], []
    for P, G in pairs:
        for mode in rng.sample(sorted(MODE), 3) if not ctx.thorough else sorted(MODE):
            kind = rng.choice(["3D", "2D"])
            pb = shape(rng)
            gb = dict(pb) if rng.random() < .3 else shape(rng)
            pct, least = rng.choice([(100, 500), (100, 2000), (500, 100), (1000, 3000), (50, 20), (200, 1), (0, 1500), (2000, 100)])
            k = rng.choice([1.0, 2.0, 0.5, 4.0])
            rot = rng.choice([0, 0, math.pi / 2, rng.uniform(-3, 3)])
            if not any(G):
                least = max(least, 500)
            if sum(x * y for x, y in zip(P, G)) == 0 and mode in ("FURTHER", "ANY_CLOSER"):
                rot = 0  # which side of the sensor: only exact placements can tell
            s = [rng.choice([0, 0, 1.5, -20]) for _ in range(3)]
            c, n = math.cos(rot), math.sin(rot)
            tok = []
            for X, b in ((P, pb), (G, gb)):
                r = math.hypot(b["p"], b["q"])
                tok += [k * (c * X[0] - n * X[1]) + s[0], k * (n * X[0] + c * X[1]) + s[1], k * X[2] + s[2],
                        k * 2 * b["m"] * r, k * 2 * b["n"] * r, k * b["h"], math.atan2(b["q"], b["p"]) + rot]
            reqs.append("let " + " ".join(map(str, [{"3D": 1, "2D": 2}[kind], MODE[mode]] + s + [pct / 1000., k * least / 1000.] + tok)))
            meta.append(({"ev": "let", "P": P, "G": G, "mode": mode, "kind": kind, "pb": pb, "gb": gb, "pct": pct,
                          "least": least, "_w": 8}, k, c, n, s, tok))
    groups = []
    for (e, k, c, n, s, tok), r in zip(meta, run_parallel(h, reqs)):
        g = dict(e, crash=r.get("crash", ""), aff=-1, aff2=-1, al=[0, 0, 0], samebox=False, iou=-1, iou2=-1, plain=-1, unaligned=-1)
        if "al" in r:
            al = r["al"]
            x, y, z = al[0] / k, al[1] / k, al[2] / k
            g["al"] = [int(math.floor(v * 1000 + 0.5)) if abs(v) < 1e6 else 10 ** 9 for v in (c * x + n * y, c * y - n * x, z)]
            g["samebox"] = all(abs(u - v) <= 1e-12 for u, v in zip(al[3:], tok[3:7]))
            g.update({q: ppm(r[q]) for q in ("aff", "aff2", "iou", "iou2", "plain", "unaligned")})
        groups.append([g])
    ctx.validate("TraceLet", groups, "alignment and affinity", samples=len(pairs) - n0)
