"""C15: accumulation of motion metrics over scenarios."""
from vlib import build
from vlib.harness import run_parallel
from . import detlib, motionlib as ml


def run(ctx):
    rng = ctx.rng
    h = build.cc("h_motion")
    base = "SPECIFICATION Spec\nCONSTANTS N = %d\nEmit = %s\nINVARIANTS Kept Result PrintCase\n"
    plans = {3: ctx.model_cases("MC_MotionAcc", base % (3, "TRUE"), name="merge orders of three", workers=8)}
    plans = {n: sorted({str(p): p for p in ps}.values(), key=str) for n, ps in plans.items()}
    for n in (2, 4, 5, 6):  # longer histories are sampled
        plans[n] = []
        for _ in range(60):
            live, p = list(range(1, n + 1)), []
            while len(live) > 1:
                a, b = rng.sample(live, 2)
                live.remove(a)
                p.append([a, b])
            plans[n].append(p)
    plans[1] = [[]]
    reqs, meta = [], []
    for _ in range(ctx.pick(700, 8000)):
        cfg = ml.config(rng)
        n = rng.choice([1, 2, 3, 3, 3, 4, 5, 6])
        pairs = []
        for k in range(n):
            sc = ml.scenario(rng, cfg, "s%d" % k, most=3)
            pairs.append((sc, ml.prediction(rng, cfg, sc)))
        ps = rng.sample(plans[n], min(len(plans[n]), 3))
        reqs.append(ml.eval_req(cfg, pairs, [[[a - 1, b - 1] for a, b in p] for p in ps]))
        meta.append((pairs, ps))
    groups = []
    for (pairs, ps), r in zip(meta, run_parallel(h, reqs)):
        es = []
        for i, p in enumerate(ps):
            e = {"ev": "merge", "crash": r.get("crash", ""), "ok": False, "items": [], "b": [], "a": [], "batch": [],
                 "_plan": p, "_w": 4 * len(pairs)}
            if "ok" in r:
                e["ok"] = all(r["ok"]) and r["bok"]
                e["items"] = [ml.cells(x) for x in r["items"]]
                if e["ok"]:
                    e["b"] = ml.bundles(r["plans"][i]["b"])
                    e["a"] = ml.bundles(r["plans"][i]["a"])
                    e["batch"] = ml.bundles(r["batch"]) if i == 0 else []
            es.append(e)
        groups.append(es)
    ctx.validate("TraceMotion", groups, "merged scenarios", samples=len(groups))
    # names of the breakdowns, in C++ and in Python
    hm = build.cc("h_metrics")
    names = detlib.module("metrics.python.config_util_py").get_breakdown_names_from_motion_config
    cfgs = []
    for n in range(0, 5):
        for _ in range(ctx.pick(8, 60)):
            cfgs.append(rng.sample(range(0, 30), n))
    reqs, py = [], []
    for c in cfgs:
        pb = detlib.module("protos.motion_metrics_pb2").MotionMetricsConfig()
        for s in c:
            pb.step_configurations.add(measurement_step=s)
        reqs.append("mnames " + detlib.hx(pb))
        py.append(names(pb))
    groups = [[{"ev": "names", "steps": c, "crash": r.get("crash", ""), "cc": r.get("names", []), "py": p}]
              for c, p, r in zip(cfgs, py, run_parallel(hm, reqs))]
    ctx.validate("TraceMotion", groups, "breakdown names", samples=len(groups))
