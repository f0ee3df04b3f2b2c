"""C32: the likelihood metrics of simulated agents."""
import math
import random

from vlib import build
from vlib.pyrun import guarded
from . import detlib as D
from . import tfs

SERIES = ["linear_speed", "linear_acceleration", "angular_speed", "angular_acceleration", "distance_to_nearest_object", "time_to_collision",
          "distance_to_road_edge"]
INDI = {"collision_indication": "collision_per_step", "offroad_indication": "offroad_per_step", "traffic_light_violation": "traffic_light_violation_per_step"}
NAMES = SERIES + list(INDI)
RATES = {"collision": "simulated_collision_rate", "offroad": "simulated_offroad_rate", "light": "simulated_traffic_light_violation_rate"}
UNDEF = -2000000000
_M = {}


def mods():
    if not _M:
        tfs.install()
        D.pb()
        import importlib
        base = "waymo_open_dataset.wdl_limited.sim_agents_metrics."
        _M["est"] = importlib.import_module(base + "estimators")
        _M["met"] = importlib.import_module(base + "metrics")
        _M["feat"] = importlib.import_module(base + "metric_features")
        _M["pb"] = D.module("protos.sim_agents_metrics_pb2")
        import numpy
        _M["np"] = numpy
        import tensorflow
        _M["tf"] = tensorflow
    return _M


def micro(x):
    x = float(x)
    return UNDEF if math.isnan(x) else int(max(-1.9e9, min(1.9e9, round(x * 1e6))))


def ln(x):
    x = float(x)
    return UNDEF if math.isnan(x) or x <= 0 else int(round(math.log(x) * 50000))


def conf(f, c, q, weight=None):
    if c["kind"] == "bernoulli":
        f.bernoulli.SetInParent()
        if c["smooth"] != 1 or not c.get("_implicit"):
            f.bernoulli.additive_smoothing_pseudocount = c["smooth"] / 1000
    else:
        h = f.histogram
        h.min_val, h.max_val, h.num_bins = c["min"] * q, c["max"] * q, c["bins"]
        if c["smooth"] != 1 or not c.get("_implicit"):
            h.additive_smoothing_pseudocount = c["smooth"] / 1000
    if c["indep"] or not c.get("_implicit"):
        f.independent_timesteps = c["indep"]
    if c["agg"] or not c.get("_implicit"):
        f.aggregate_objects = c["agg"]
    if weight is not None:
        f.metametric_weight = weight


def tensor(g, c, q):
    M = mods()
    a = M["np"].array(g)
    return M["tf"].constant(a == 1) if c["kind"] == "bernoulli" else M["tf"].constant((a * q).astype(M["np"].float32))


def est_case(c):
    M = mods()
    cfg = M["pb"].SimAgentMetricsConfig.FeatureConfig()
    conf(cfg, c["cfg"], c["q"])
    lo, si = tensor(c["log"], c["cfg"], c["q"]), tensor(c["sim"], c["cfg"], c["q"])
    e = {"t": "cells", "cfg": {k: v for k, v in c["cfg"].items() if k[0] != "_"}, "log": c["log"], "sim": c["sim"], "got": [], "where": "series", "ended": ""}
    if len(c["log"][0]) == 1 and c["single"]:
        e["where"] = "single"
        r = M["est"].log_likelihood_estimate_scenario_level(cfg, lo[:, 0], si[:, :, 0])
        e["got"] = [[micro(math.exp(float(x)))] for x in tfs.N(r)]
    else:
        r = M["est"].log_likelihood_estimate_timeseries(cfg, lo, si)
        e["got"] = [[micro(math.exp(float(x))) for x in row] for row in tfs.N(r)]
    return e


def density_case(c):
    M = mods()
    cfg = M["pb"].SimAgentMetricsConfig.KernelDensityEstimate()
    cfg.bandwidth = c["h"]
    q = c["h"] / 2
    f = M["np"].float32
    r = M["est"].kernel_density_estimate(cfg, M["tf"].constant((M["np"].array(c["log"]) * q).astype(f)), M["tf"].constant((M["np"].array(c["sim"]) * q).astype(f)))
    return {"t": "density", "log": c["log"], "sim": c["sim"], "got": [[int(round(float(x) * 50000)) for x in row] for row in tfs.N(r)], "ended": ""}


def scene_case(c):
    M = mods()
    np, tf, pb = M["np"], M["tf"], M["pb"]
    cfg = pb.SimAgentMetricsConfig()
    for n in NAMES:
        conf(getattr(cfg, n), c["cfg"][n], c["q"], c["weight"][n] / 100)
    R = len(c["ade"])
    kw = {}
    for side in ("log", "sim"):
        kw[side] = {}
        for n in NAMES:
            g = c[side][n]
            kw[side][INDI.get(n, n)] = tensor([g] if side == "log" else g, c["cfg"][n], c["q"])
    valid = np.array([c["valid"]])
    types = np.array([[1 if v else c["other"] for v in c["vehicle"]]])
    ids = tf.constant(np.arange(len(c["valid"])) + 5)
    f32 = np.float32
    log = M["feat"].MetricFeatures(object_id=ids, object_type=tf.constant(types), valid=tf.constant(valid),
                                   average_displacement_error=tf.constant(np.zeros((1, len(c["valid"])), f32)), **kw["log"])
    sim = M["feat"].MetricFeatures(object_id=ids, object_type=tf.constant(np.repeat(types, R, 0)), valid=tf.constant(np.ones((R,) + valid.shape[1:], bool)),
                                   average_displacement_error=tf.constant(np.array(c["ade"], f32)), **kw["sim"])
    m = M["met"].compute_scenario_metrics_for_features_bundle(cfg, c["id"], log, sim)
    e = {k: c[k] for k in ("valid", "vehicle", "log", "sim", "weight", "ade", "id")}
    e["cfg"] = {n: {k: v for k, v in x.items() if k[0] != "_"} for n, x in c["cfg"].items()}
    e.update(t="scene", ended="", got_id=m.scenario_id, ll={n: ln(getattr(m, n + "_likelihood")) for n in NAMES},
             p={n: micro(getattr(m, n + "_likelihood")) for n in NAMES}, meta=micro(m.metametric), rates={k: micro(getattr(m, v)) for k, v in RATES.items()},
             mean_ade=micro(m.average_displacement_error), min_ade=micro(m.min_average_displacement_error))
    out = [e]
    # the buckets of the same metrics
    b = {"t": "buckets", "weight": c["weight"], "p": e["p"], "rest": [e["meta"], e["min_ade"]] + list(e["rates"].values()), "ended": "", "got": {"refused": False}}
    if all(v != UNDEF for v in e["p"].values()):
        try:
            k = M["met"].aggregate_metrics_to_buckets(cfg, m)
            b["got"].update(kinematic=micro(k.kinematic_metrics), interactive=micro(k.interactive_metrics), map_based=micro(k.map_based_metrics),
                            rest=[micro(k.realism_meta_metric), micro(k.min_ade)] + [micro(getattr(k, v)) for v in RATES.values()])
        except ValueError:
            b["got"]["refused"] = True
        out.append(b)
    return out


def mean_case(c):
    M = mods()
    ms = []
    for i, p in enumerate(c["parts"]):
        m = M["pb"].SimAgentMetrics(scenario_id="s%d" % i)
        for k, v in p.items():
            setattr(m, k, v / 1e6)
        ms.append(m)
    w = M["met"].aggregate_scenario_metrics(ms)
    return {"t": "mean", "parts": c["parts"], "got": {f.name: micro(v) for f, v in w.ListFields() if f.name != "scenario_id"}, "has_id": bool(w.scenario_id), "ended": ""}


def config_case(c):
    import os
    M = mods()
    here = os.getcwd()
    os.chdir(build.REPO + "/src")
    try:
        ct = M["met"].submission_specs.ChallengeType
        k = M["met"].load_metrics_config(getattr(ct, c["challenge"]))
    finally:
        os.chdir(here)
    fs = {f.name: v for f, v in k.ListFields()}
    return {"t": "config", "ended": "", "weight": {n: int(round(v.metametric_weight * 1000)) for n, v in fs.items()},
            "kind": {n: v.WhichOneof("estimator") or "" for n, v in fs.items()},
            "width": {n: int(round(1000 * (v.histogram.max_val - v.histogram.min_val) / v.histogram.num_bins)) if v.histogram.num_bins > 0 else 0
                      for n, v in fs.items() if v.WhichOneof("estimator") == "histogram"}}


DO = {"config": config_case, "cells": est_case, "density": density_case, "scene": scene_case, "mean": mean_case}


def one(c):
    try:
        r = DO[c["t"]](c)
    except tfs.NotModelled:
        return []
    return r if isinstance(r, list) else [r]


def rand_cfg(rng, kind=None):
    kind = kind or rng.choice(["histogram"] * 3 + ["bernoulli"])
    bins = rng.choice([1, 2, 3, 4, 5, 8])
    mn = rng.choice([0, 0, -4, -8, 3])
    # edges at whole numbers so that membership is exact
    return {"kind": kind, "min": mn, "max": mn + bins * rng.choice([1, 2, 2, 4]), "bins": bins, "smooth": rng.choice([1, 1, 100, 100, 500]),
            "indep": rng.random() < .5, "agg": rng.random() < .4, "_implicit": rng.random() < .3}


def rand_value(rng, c):
    if c["kind"] == "bernoulli":
        return rng.randrange(2)
    return rng.choice([rng.randint(c["min"], c["max"])] * 6 + [c["min"] - rng.randint(1, 9), c["max"] + rng.randint(0, 9), c["max"], c["min"]])


def grid(rng, c, O, T, near=None):
    return [[rand_value(rng, c) if near is None or rng.random() < .4 else near[o][t] for t in range(T)] for o in range(O)]


def rand_est(rng):
    c = rand_cfg(rng)
    R, O, T = rng.choice([1, 2, 4]), rng.choice([1, 2, 3]), rng.choice([1, 1, 2, 3])
    lo = grid(rng, c, O, T)
    return {"t": "cells", "cfg": c, "log": lo, "sim": [grid(rng, c, O, T, lo) for _ in range(R)], "q": rng.choice([1, .5, .125, 4]), "single": rng.random() < .5}


def rand_density(rng):
    n = rng.choice([1, 2, 3])
    sims = [[40 * rng.randint(-2, 2) for _ in range(rng.randint(1, 5))] for _ in range(n)]
    k = max(map(len, sims))
    sims = [(s * k)[:k] for s in sims]
    m = rng.randint(1, 3)
    return {"t": "density", "h": rng.choice([.5, 1, 2, .25]), "sim": sims, "log": [[rng.choice(s) + rng.randint(-6, 6) for _ in range(m)] for s in sims]}


def rand_scene(rng):
    R, O, T = rng.choice([1, 2, 3]), rng.choice([1, 2]), rng.choice([3, 5, 5, 6])
    pv = rng.choice([1, .85, .85, .6])
    c = {"t": "scene", "cfg": {}, "log": {}, "sim": {}, "q": rng.choice([1, .5, .125]), "id": rng.choice(["a", "637f20cafde22ff8", ""]),
         "valid": [[rng.random() < pv for _ in range(T)] for _ in range(O)], "vehicle": [rng.random() < .7 for _ in range(O)], "other": rng.choice([0, 2, 3, 4]),
         "ade": [[rng.randint(0, 40) for _ in range(O)] for _ in range(R)], "weight": {}}
    for n in NAMES:
        k = rand_cfg(rng, "bernoulli" if n in INDI else "histogram")
        c["cfg"][n] = k
        c["log"][n] = grid(rng, k, O, T)
        if n in INDI:
            p = rng.choice([.05, .2, .5])
            c["log"][n] = [[int(rng.random() < p) for _ in range(T)] for _ in range(O)]
            c["sim"][n] = [[[int(rng.random() < p) for _ in range(T)] for _ in range(O)] for _ in range(R)]
        else:
            c["sim"][n] = [grid(rng, k, O, T, c["log"][n]) for _ in range(R)]
        c["weight"][n] = rng.choice([0, 5, 5, 10, 25, 45])
    if rng.random() < .1:
        for n in rng.choice([SERIES[:4], ["distance_to_nearest_object", "collision_indication", "time_to_collision"]]):
            c["weight"][n] = 0
    return c


def rand_mean(rng):
    fs = ["metametric", "average_displacement_error", "min_average_displacement_error"] + [n + "_likelihood" for n in NAMES] + list(RATES.values())
    return {"t": "mean", "parts": [{f: rng.choice([0, rng.randint(0, 1000000)]) for f in fs} for _ in range(rng.choice([1, 2, 3, 5]))]}


def run(ctx):
    rng = ctx.rng
    mods()
    T = "SPECIFICATION Spec\nCONSTANTS NR = %d\nNO = %d\nNT = %d\nValues = %s\nKinds = %s\nSmooths = {100}\nMaxMoves = 1\nEmit = TRUE\n" \
        "INVARIANTS Proper OneInAll Agreed LnRises PrintCase\nPROPERTY OnlyItsPool AgreeingHelps OrderOfRollouts\n"
    cs = ctx.model_cases("MC_SimLikelihood", T % (2, 2, 2, "{0,3}", '{"histogram"}') if not ctx.pick(1, 0) == 1 else T % (2, 1, 2, "{0,2,4}", '{"histogram","bernoulli"}'), name="one object")
    cs += ctx.model_cases("MC_SimLikelihood", T % (1, 2, 2, "{0,2,4}" if ctx.pick(1, 0) == 0 else "{0,3}", '{"histogram","bernoulli"}'), name="two objects")
    for c in cs:
        c.update(t="cells", q=rng.choice([1, .125]), single=False)
    ctx.log("%d modelled grids" % len(cs))
    rng.shuffle(cs)
    cases = cs[:ctx.pick(1500, 30000)] + [rand_est(rng) for _ in range(ctx.pick(900, 9000))] + [rand_density(rng) for _ in range(ctx.pick(100, 900))] + \
        [rand_scene(rng) for _ in range(ctx.pick(260, 3000))] + [rand_mean(rng) for _ in range(ctx.pick(60, 600))] + \
        [{"t": "config", "challenge": x} for x in ("SIM_AGENTS", "SCENARIO_GEN")]
    events, skipped = [], 0
    for c, r in zip(cases, guarded(one, cases, timeout=60)):
        if "ok" in r:
            events += r["ok"]
            skipped += not r["ok"]
        else:
            events.append({"t": c["t"], "ended": r["exc"] + ": " + r["msg"][:100]})
    ctx.log("%d events, %d cases use operations not stood in for" % (len(events), skipped))
    rng.shuffle(events)
    ctx.validate("TraceSimLikelihood", [events[i:i + 60] for i in range(0, len(events), 60)], "likelihoods of simulations", samples=len(events))
