"""C16: trajectory shapes."""
import math

from vlib import build
from vlib.harness import run_parallel
from . import detlib, motionlib as ml


def run(ctx):
    rng = ctx.rng
    h = build.cc("h_motion")
    cfg = "SPECIFICATION Spec\nCONSTANTS Reach = %d\nEmit = TRUE\nINVARIANTS InvTotal InvTurn InvShift InvMirror PrintCase\n"
    cs = ctx.model_cases("MC_Shape", cfg % ctx.pick(3, 6), name="two-state futures", workers=8)
    cs.sort(key=str)
    cases = [(1, st) for st in (cs if ctx.thorough else rng.sample(cs, min(len(cs), 5000)))]
    n0 = len(cases)
    for _ in range(ctx.pick(3000, 30000)):
        n, cur = rng.randint(1, 6), 0
        cur = rng.randrange(n)
        t = ml.track(rng, 1, n, cur)
        if rng.random() < .5:  # around the thresholds
            a, z = t["st"][cur], t["st"][-1]
            z[1], z[2] = a[1] + rng.choice([0, 1, 11, 12, 13, -12, 30]), a[2] + rng.choice([0, 9, 10, 11, -10, -11, -9, 12, 1, -1])
            for s in (a, z):
                s[7], s[8] = rng.choice([(8, 0), (7, 0), (0, 8), (0, -7), (5, 6), (6, 5), (0, 0), (9, 0)])
            z[3], z[4] = rng.choice([(1, 0), (7, 4), (7, -4), (19, 11), (19, -11), (26, 15), (26, -15), (12, 7), (0, 1), (-1, 0), (-7, 4), (-7, -4)])
            if rng.random() < .6:
                a[3], a[4] = 1, 0
        cases.append((cur, t["st"]))
    reqs, turns = [], []
    for cur, st in cases:
        t = {"st": st}
        ang = [1, 2, 3, rng.uniform(.1, 3.0)]
        far = (rng.randint(-2000, 2000), rng.randint(-2000, 2000))
        vs = [ml.track_proto(t), ml.track_proto(t, shift=far)] + [ml.track_proto(t, turn=a, shift=(7, -9)) for a in ang] + [ml.track_proto(t, flip=-1)]
        reqs.append("classify %d %s" % (len(vs), " ".join("%d %s" % (cur, detlib.hx(v)) for v in vs)))
    groups = []
    for (cur, st), r in zip(cases, run_parallel(h, reqs)):
        v = r.get("v", [""] * 7)
        groups.append([{"ev": "shape", "cur": cur, "st": st, "crash": r.get("crash", ""), "got": v[0], "shift": v[1],
                        "rot": v[2:6], "mir": v[6]}])
    ctx.validate("TraceMotion", groups[:n0], "modelled futures")
    ctx.validate("TraceMotion", groups[n0:], "sampled futures", samples=len(groups) - n0)
