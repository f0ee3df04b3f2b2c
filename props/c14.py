"""C14: mean average precision of motion predictions."""
from vlib import build
from vlib.harness import run_parallel
from . import motionlib as ml


def turning(rng, cfg, sc):
    """end the tracks in the different trajectory shapes"""
    for t in sc["tracks"]:
        st = t["st"]
        cur = cfg["hist"]
        if rng.random() < .9:
            for k in (cur, len(st) - 1):
                st[k][0] = 1
        a, z = st[cur], st[-1]
        p, q = a[3], a[4]
        u, v = rng.choice([(12, 0), (40, 0), (20, 12), (20, -12), (16, 9), (-14, 15), (-14, -15), (1, 0), (3, 30), (3, -30)])
        # (u, v) along and across the heading, roughly
        n = max(1, round((p * p + q * q) ** .5))
        z[1], z[2] = a[1] + (u * p - v * q) // n, a[2] + (u * q + v * p) // n
        r = rng.choice([(1, 0), (1, 0), (0, 1), (0, -1), (-1, 0), (2, 1), (1, -1)])
        z[3], z[4] = p * r[0] - q * r[1], p * r[1] + q * r[0]


def run(ctx):
    rng = ctx.rng
    cs = ml.modelled(ctx)
    ml.evaluate(ctx, rng.sample(cs, ctx.pick(1200, len(cs))), "eval14", "modelled predictions", 0)
    cs = []
    for _ in range(ctx.pick(2000, 25000)):
        cfg = ml.config(rng)
        sc = ml.scenario(rng, cfg, most=4)
        turning(rng, cfg, sc)
        cs.append((cfg, sc, ml.prediction(rng, cfg, sc, most=rng.choice([3, 6, 7]))))
    ml.evaluate(ctx, cs, "eval14", "sampled scenarios", len(cs))
    # the precision/recall curve on its own
    h = build.cc("h_motion")
    reqs, evs = [], []
    for _ in range(ctx.pick(2500, 20000)):
        n = rng.choice([1, 2, 3, 5, 8, 13])
        s = [[rng.randint(0, rng.choice([2, 6, 16])), rng.random() < .5] for _ in range(n)]
        tot = max(1, sum(t for _, t in s) + rng.choice([0, 0, 1, 3]))
        evs.append({"ev": "curve", "s": s, "n": tot, "_w": n})
        reqs.append("curve %d %d %s" % (tot, n, " ".join("%r %d" % (c / 16., t) for c, t in s)))
    groups = []
    for e, r in zip(evs, run_parallel(h, reqs)):
        e.update(crash=r.get("crash", ""), curve=[[ml._i(a, 1e6), ml._i(b, 1e6)] for a, b in r.get("curve", [])],
                 ap=ml._i(r.get("ap", -1), 1e6))
        groups.append([e])
    ctx.validate("TraceMotion", groups, "precision/recall curves", samples=len(groups))
