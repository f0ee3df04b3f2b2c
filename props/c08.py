"""C08: breakdown shards, subsets and the alignment of results with names."""
import sys

from vlib import build
from vlib.harness import run_parallel
from . import detlib as D


def rand_cfg(rng, gens=D.GENS):
    g = [rng.choice(gens) for _ in range(rng.randint(0, 4))]
    lv = [rng.choice([[], [1], [2], [1, 2], [2, 1], [0], [2, 2]]) for _ in g]
    return g, lv


def run(ctx):
    h = build.cc("h_metrics")
    D.pb()
    from waymo_open_dataset.metrics.python import config_util_py
    rng = ctx.rng
    cfg = ("SPECIFICATION Spec\nCONSTANTS Coords = {%s}\nSpeeds = {%s}\nDims = {%s}\n"
           "Emit = TRUE\nINVARIANTS InRange TypedInOne Untyped TypeBlock Meets NamesUnique PrintCase\n")
    co = ctx.pick("0,1920,3200,700", "0,64,1919,1920,3199,3200,640,700,900,1500")
    sp = ctx.pick("0,12,13,64,192,640", "0,12,13,63,64,191,192,639,640,641")
    objs = [D.obj(**c) for c in ctx.model_cases("MC_Breakdown", cfg % (co, sp, ctx.pick("64,447,448", "1,64,447,448,900")),
                                               name="breakdown lattice")]
    objs = [o for o in objs if D.clear_of_edges(o["x"], o["y"])]
    n_model = len(objs)
    objs += [D.place(D.obj(ty=rng.choice([0, 1, 2, 3, 4])), rng) for _ in range(ctx.pick(1500, 20000))]
    reqs, meta = [], []
    for k in range(0, len(objs), 40):
        for g in D.GENS:
            reqs.append(" ".join(map(str, ["bgshard", g] + D.objs_tok(objs[k:k + 40]))))
            meta.append((g, objs[k:k + 40]))
    groups = []
    for (g, part), r in zip(meta, run_parallel(h, reqs)):
        if "crash" in r:  # find the object
            one = run_parallel(h, [" ".join(map(str, ["bgshard", g] + D.objs_tok([o]))) for o in part])
        else:
            one = [{k: [r[k][i]] for k in r} for i in range(len(part))]
        for o, q in zip(part, one):
            e = {"ev": "shards", "g": g, "o": D.view(o), "crash": q.get("crash", "")}
            if "crash" not in q:
                e.update({k: q[k][0] for k in ("shard", "match", "inb")})
            groups.append([e])
    ctx.validate("TraceBreakdown", groups, "sharding of objects", samples=(len(objs) - n_model) * 7)

    groups = []
    for g, r in zip(D.GENS, run_parallel(h, ["bginfo %d" % g for g in D.GENS])):
        groups.append([dict(r, ev="info", g=g, crash=r.get("crash", ""))])
    ctx.validate("TraceBreakdown", groups, "shard counts and names")

    cfgs = [([g], [l]) for g in D.GENS for l in ([], [1], [1, 2], [2, 1], [0])]
    cfgs += [rand_cfg(rng) for _ in range(ctx.pick(120, 1200))]
    groups, reqs = [], []
    for g, lv in cfgs:
        c = D.config(g, lv)
        reqs.append("names " + D.hx(c))
    for (g, lv), r in zip(cfgs, run_parallel(h, reqs)):
        try:
            py = config_util_py.get_breakdown_names_from_config(D.config(g, lv))
        except Exception as x:  # noqa
            py = ["exception " + repr(x)]
        groups.append([{"ev": "names", "cfg": {"gens": g, "lv": lv}, "cc": r.get("names", []),
                        "py": list(py), "crash": r.get("crash", ""), "_w": 10 * len(py)}])
    ctx.validate("TraceBreakdown", groups, "names of configurations", samples=len(cfgs))

    groups, reqs, meta = [], [], []
    for _ in range(ctx.pick(250, 2500)):
        g, lv = rand_cfg(rng)
        n = rng.randint(0, 6)
        cuts = sorted(rng.choice([0, 250000, 500000, 1000000, rng.randint(0, 1000000)])
                      for _ in range(rng.randint(1, 3)))
        o = [D.place(D.obj(ty=rng.choice([0, 1, 1, 2, 3, 4]),
                           sc=rng.choice(cuts + [rng.randint(0, 1000000)])), rng) for _ in range(n)]
        gt, det = rng.random() < .5, rng.random() < .5
        reqs.append(" ".join(map(str, ["subsets", D.hx(D.config(g, lv, cuts)), int(gt), int(det)] + D.objs_tok(o))))
        meta.append({"ev": "subsets", "gens": g, "gt": gt, "det": det, "cuts": cuts,
                     "objs": [D.view(x) for x in o], "_w": 5 + 5 * len(g) * n})
    for e, r in zip(meta, run_parallel(h, reqs)):
        groups.append([dict(e, r=r.get("r", []), crash=r.get("crash", ""))])
    ctx.validate("TraceBreakdown", groups, "subsets of breakdown shards", samples=len(meta))

    # the breakdowns attached to measurements and metrics come in the order of the names
    M = D.pb()["metrics"]
    groups, reqs, meta = [], [], []
    for _ in range(ctx.pick(60, 600)):
        g, lv = rand_cfg(rng)
        c = D.hx(D.config(g, lv, [0, 500000], desired_recall_delta=0.05))
        o = [D.place(D.obj(ty=rng.choice([1, 2, 3, 4]), id="o%d" % k), rng) for k in range(rng.randint(0, 3))]
        t = D.objs_tok(o)
        for op, req, T in (("detmeas", ["detmeas", c] + t + t + [0], M.DetectionMeasurements),
                           ("detmetrics", ["detmetrics", c, 1] + t + [1] + t + [0], M.DetectionMetrics),
                           ("trkmeas", ["trkmeas", c, 1] + t + [1] + t, M.TrackingMeasurements),
                           ("trkmetrics", ["trkmetrics", c, 1, 1] + t + [1, 1] + t, M.TrackingMetrics)):
            reqs.append(" ".join(map(str, req)))
            meta.append((g, lv, T, op))
    for (g, lv, T, op), r in zip(meta, run_parallel(h, reqs)):
        got = []
        for x in r.get("r", []):
            b = T.FromString(bytes.fromhex(x)).breakdown
            got.append([b.generator_id, b.shard, b.difficulty_level])
        groups.append([{"ev": "results", "cfg": {"gens": g, "lv": lv}, "op": op, "got": got, "_err": r.get("err", ""),
                        "crash": r.get("crash", ""), "_w": 10 * len(got)}])
    ctx.validate("TraceBreakdown", groups, "order of results", samples=len(meta))
