"""C06: precision, recall and average precision from the counts."""
from vlib import build
from vlib.harness import run_parallel
from . import detlib as D
from .c05 import decode, ppm


def ap_req(pts, step, ru, pu):
    t = ["map", len(pts)] + [repr(p / pu) for _, p in pts]
    t += [len(pts)] + [repr(r / ru) for r, _ in pts] + [repr(step / ru)]
    return " ".join(map(str, t))


def ap_event(pts, step, ru, pu, r):
    v = r.get("r", 0)
    v = round(v * 2 * ru * pu) if isinstance(v, (int, float)) else -1
    return [{"ev": "ap", "pts": [list(x) for x in pts], "step": step, "ru": ru, "pu": pu, "ap": v,
             "tol": max(2, ru * pu // 100000), "crash": r.get("crash", ""), "_w": 2 + len(pts) ** 2}]


def random_curve(rng):
    ru, pu = rng.choice([(1024, 1024), (1000, 1000), (64, 1000), (20, 100), (8192, 1000)])
    n = rng.choice([0, 1, 2, 3, 5, 8, 15])
    step = max(1, rng.choice([ru // 20, ru // 10, ru // 100, ru, ru // 4, ru // 3]))
    style = rng.choice(["any", "grid", "decr", "zeros"])
    pts = []
    for k in range(n):
        r = rng.randint(0, ru)
        if style == "grid":
            r = min(ru, rng.randint(0, ru // step) * step + rng.choice([0, 0, 0, 1, -1]))
        p = rng.randint(0, pu)
        if style == "decr":
            p = max(0, min(pu, pu - r * pu // ru + rng.randint(-pu // 20, pu // 20)))
        if style == "zeros":
            p = rng.choice([0, pu, p])
            r = rng.choice([0, ru, r])
        pts.append((max(0, r), p))
    return pts, step, ru, pu


def random_meas(rng, C, T):
    """Measurements with recalls that are exact in the specification's units."""
    ru = rng.choice([1024, 1000])
    dens = [1, 2, 4, 8, 16, 32, 64, 128, 256] if ru == 1024 else [1, 2, 4, 5, 10, 20, 25, 40, 50, 100, 125]
    step = rng.choice([ru // 20 if ru == 1000 else 51, ru // 8, ru // 100, ru])
    n = rng.randint(1, 8)
    cuts = sorted(rng.sample(range(0, 1000001, 10000), n))
    fixed = rng.choice(dens)
    ms = []
    frames = rng.randint(1, 3)
    for c in cuts:
        d = fixed if rng.random() < .7 else rng.choice(dens)
        tp = rng.choice([0, d, rng.randint(0, d), rng.randint(0, d)])
        fp = rng.choice([0, 0, 1, rng.randint(0, 200)])
        ha = rng.randint(0, tp * 1000000) if rng.random() < .8 else tp * 1000000
        la = rng.randint(0, tp * 1000000) if rng.random() < .5 else tp * 1000000
        if rng.random() < .05:
            d = tp = 0
        ms.append({"tp": tp, "fp": fp, "fn": d - tp, "ha": ha if tp else 0, "la": la if tp else 0, "cut": c})
    # split into frames
    parts = []
    left = [dict(m) for m in ms]
    for f in range(frames):
        last = f == frames - 1
        x = T()
        x.breakdown.generator_id, x.breakdown.shard, x.breakdown.difficulty_level = 1, 0, 2
        for m in left:
            y = x.measurements.add()
            take = {k: m[k] if last else rng.randint(0, m[k]) for k in ("tp", "fp", "fn", "ha", "la")}
            for k in take:
                m[k] -= take[k]
            y.num_tps, y.num_fps, y.num_fns = take["tp"], take["fp"], take["fn"]
            y.sum_ha, y.sum_longitudinal_affinity = take["ha"] / 1e6, take["la"] / 1e6
            y.score_cutoff = m["cut"] / 1e6
        parts.append([x])
    minp = rng.choice([0, 0, 100000, 500000, 50000, 300000])
    cfg = D.config([1], [[]], cuts, desired_recall_delta=step / ru)
    if minp or rng.random() < .5:
        cfg.min_precision = minp / 1e6
    return cfg, parts, ms, {"ru": ru, "pu": 1000000, "step": step, "minp": minp}


def pr_event(ms, par, x, crash=""):
    scale = 2 * (par["ru"] or 1) * par["pu"]
    return {"ev": "pr", "m": ms, "minp": par["minp"], "ru": par["ru"], "pu": par["pu"], "step": par["step"],
            "tol": 12000, "crash": crash, "_w": 5 + len(ms) ** 2,
            "cut": [ppm(v) for v in x.score_cutoffs],
            "p": [ppm(v) for v in x.precisions], "r": [ppm(v) for v in x.recalls],
            "pha": [ppm(v) for v in x.precisions_ha_weighted],
            "rha": [ppm(v) for v in x.recalls_ha_weighted],
            "pla": [ppm(v) for v in x.precisions_longitudinal_affinity_weighted],
            "rla": [ppm(v) for v in x.recalls_longitudinal_affinity_weighted],
            "ap": round(x.mean_average_precision * scale),
            "apha": round(x.mean_average_precision_ha_weighted * scale),
            "apla": round(x.mean_average_precision_longitudinal_affinity_weighted * scale)}


def run(ctx):
    h = build.cc("h_metrics")
    M = D.pb()["metrics"]
    rng = ctx.rng
    cfg = ("SPECIFICATION Spec\nCONSTANTS RU = %d PU = %d N = %d Steps = {%s} Emit = %s\nVIEW View\n"
           "INVARIANTS Unit FillConservative Perfect Bounded PrintCase\nPROPERTIES OrderFree Monotone\n")
    ctx.model("MC_Curve", cfg % (4, 2, 3, "1,2,4", "FALSE"), name="curves of three points")
    if ctx.thorough:
        ctx.model("MC_Curve", cfg % (6, 3, 3, "1,2,4,6", "FALSE"), name="curves of three points, finer")
        ctx.model("MC_Curve", cfg % (3, 2, 4, "1,3", "FALSE"), name="curves of four points")
    cases = ctx.model_cases("MC_Curve", cfg % (4, 2, 2, "1,2,3,4", "TRUE"), name="curves of two points")
    jobs = [([tuple(x) for x in c["p"]], c["s"], 4, 2) for c in cases]
    res = run_parallel(h, [ap_req(*j) for j in jobs])
    ctx.validate("TraceCurve", [ap_event(*j, r) for j, r in zip(jobs, res)], "modelled curves")
    jobs = [random_curve(rng) for _ in range(ctx.pick(3000, 40000))]
    res = run_parallel(h, [ap_req(*j) for j in jobs])
    ctx.validate("TraceCurve", [ap_event(*j, r) for j, r in zip(jobs, res)], "random curves", samples=len(jobs))

    reqs, meta = [], []
    for _ in range(ctx.pick(1500, 15000)):
        c, parts, ms, par = random_meas(rng, None, M.DetectionMeasurements)
        t = ["detfrom", D.hx(c), len(parts)]
        for p in parts:
            t += [len(p)] + [D.hx(x) for x in p]
        reqs.append(" ".join(map(str, t)))
        meta.append((ms, par))
    groups = []
    for (ms, par), r in zip(meta, run_parallel(h, reqs)):
        x = M.DetectionMetrics()
        if r.get("r"):
            x = M.DetectionMetrics.FromString(bytes.fromhex(r["r"][0]))
        groups.append([pr_event(ms, par, x, r.get("crash", ""))])
    ctx.validate("TraceCurve", groups, "metrics from measurements", samples=len(groups))
