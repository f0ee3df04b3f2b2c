"""C05: classification of objects in detection measurements."""
from vlib import build
from vlib.harness import run_parallel
from . import detlib as D

KIND = {"H": (1, False), "S": (2, False), "L": (1, True), "M": (2, True)}


def make_config(c):
    t, let = KIND[c["kind"]]
    kw = {}
    if c["det"]:
        kw["include_details_in_measurements"] = True
    if c["minha"] != -1000000:
        kw["min_heading_accuracy"] = c["minha"] / 1e6
    p = D.config(c["gens"], c["lv"], c["cuts"], [x / 1e6 for x in c["thr"]], t, **kw)
    if let:
        m = p.let_metric_config
        m.enabled = True
        m.sensor_location.x = m.sensor_location.y = m.sensor_location.z = 0
        m.longitudinal_tolerance_percentage = c["let"]["pct10"] / 10
        m.min_longitudinal_tolerance_meter = c["let"]["mint"] / 64
    return p


def ppm(x):
    return round(x * 1e6)


def meas(m):
    det = [{"tpp": list(d.tp_pr_ids), "tpg": list(d.tp_gt_ids), "fp": list(d.fp_ids),
            "fn": list(d.fn_ids), "iou": [ppm(x) for x in d.tp_ious],
            "ha": [ppm(x) for x in d.tp_heading_accuracies],
            "la": [ppm(x) for x in d.tp_longitudinal_affinities]} for d in m.details]
    return {"tp": m.num_tps, "fp": m.num_fps, "fn": m.num_fns, "ha": ppm(m.sum_ha),
            "la": ppm(m.sum_longitudinal_affinity), "cut": ppm(m.score_cutoff), "det": det}


def decode(r):
    T = D.pb()["metrics"].DetectionMeasurements
    out = []
    for h in r:
        x = T.FromString(bytes.fromhex(h))
        b = x.breakdown
        out.append({"b": [b.generator_id, b.shard, b.difficulty_level],
                    "ms": [meas(m) for m in x.measurements]})
    return out


def request(c):
    t = ["detmeas", D.hx(make_config(c["cfg"]))] + D.objs_tok(c["P"]) + D.objs_tok(c["G"])
    t += [1, len(c["P"]), len(c["G"])] + [x for r in c["iou"] for x in r]
    return " ".join(map(str, t))


EX = ("id", "nlz", "dd", "hd")


def event(c, r):
    e = {"ev": "det", "cfg": c["cfg"], "P": [D.view(o, *EX) for o in c["P"]],
         "G": [D.view(o, *EX) for o in c["G"]], "iou": c["iou"], "crash": r.get("crash", ""),
         "r": decode(r.get("r", [])), "_w": 20 + 8 * len(r.get("r", [])) * len(c["cfg"]["cuts"]),
         "_err": r.get("err", "")}
    return e


def finish(c):
    for i, o in enumerate(c["P"]):
        o["id"], o["index"] = "p%d" % i, i
    for i, o in enumerate(c["G"]):
        o["id"], o["index"] = "g%d" % i, i
    return c


def random_case(rng):
    kind = rng.choice("HHHSSLM")
    let = kind in "LM"
    thr = [rng.choice([300000, 500000, 700000, 5000]) for _ in range(5)]
    gens = rng.sample([1, 2, 3, 7, 8, 9, 10], rng.randint(1, 3))
    if rng.random() < .5 and 7 not in gens:
        gens.append(7)
    lv = [rng.choice([[], [1], [2], [1, 2], [2, 1], [1, 2]]) for _ in gens]
    cuts = [rng.choice([0, 200000, 500000, 900000, rng.randint(0, 1000000)]) for _ in range(rng.randint(1, 3))]
    if rng.random() < .7:
        cuts.sort()
    cfg = {"gens": gens, "lv": lv, "cuts": cuts, "kind": kind, "thr": thr,
           "minha": rng.choice([-1000000, -1000000, 1000, 301000, 701000]),
           "let": {"pct10": rng.choice([1, 2, 5]), "mint": rng.choice([32, 64, 128])},
           "det": rng.random() < .7}
    n, m = rng.randint(0, 5), rng.randint(0, 5)
    tys = rng.choice([[1], [1, 2], [1, 2, 3, 4]])

    def one(gt):
        o = D.obj(ty=rng.choice(tys))
        if let or rng.random() < .3:
            o["x"] = rng.randint(320, 3400)
            D.place(o, rng) if False else None
            o["vx"] = rng.choice([0, 32, 100, 300, 700])
        else:
            D.place(o, rng)
        o["sc"] = rng.choice(cuts + [rng.randint(0, 1000000)] * 2)
        o["nlz"] = (not gt) and rng.random() < .25
        o["dd"] = rng.choice([0, 1, 2, 1, 2]) if gt else 0
        o["hd"] = rng.choice([0, 0, 90, 180, -179, 270, 540, rng.randint(-400, 400)])
        o["dh"] = 64
        if o["dl"] < 448 and o["dw"] < 448:
            pass
        return o
    G = [one(True) for _ in range(m)]
    if rng.random() < .15 and G:
        G[0]["ty"] = 0
    P = [one(False) for _ in range(n)]
    if rng.random() < .6 and G:  # predictions near ground truths share place and speed
        for p in P:
            g = rng.choice(G)
            if g["ty"]:
                for k in ("ty", "x", "y", "z", "cam"):
                    p[k] = g[k]
                if let:
                    p["x"] = max(64, g["x"] + rng.randint(-200, 200))
    if let:
        def edge(p, g):
            return abs(p["x"] - g["x"]) * 10 == max(cfg["let"]["pct10"] * g["x"], 10 * cfg["let"]["mint"])
        for p in P:
            while any(edge(p, g) for g in G):
                p["x"] += 1
    style = rng.choice(["few", "any", "near"])
    iou = []
    for p in P:
        t = thr[p["ty"]]
        row = []
        for g in G:
            if style == "few":
                v = rng.choice([0, 20000, 250000, 500000, 750000, 1000000])
            elif style == "near":
                v = t + rng.choice([-1, 0, 1, -t, 1000])
            else:
                v = rng.randint(0, 1000000)
            v = max(0, min(1000000, v))
            row.append(v + 1 if v == 10000 else v)
        iou.append(row)
    return finish({"cfg": cfg, "P": P, "G": G, "iou": iou})


MODEL_CFG = {"gens": [1, 2, 7], "lv": [[1, 2]] * 3, "cuts": [0, 500000], "thr": [500000] * 5,
             "minha": 100000, "let": {"pct10": 1, "mint": 32}, "det": True}


def drive(cases):
    h = build.cc("h_metrics")
    return [[event(c, r)] for c, r in zip(cases, run_parallel(h, [request(c) for c in cases]))]


def run(ctx):
    build.cc("h_metrics")
    D.pb()
    rng = ctx.rng
    base = ("SPECIFICATION Spec\nCONSTANTS NP = %d NG = %d Vals = {%s} Kind = \"%s\" Types = {%s} Full = %s "
            "Emit = %s\nINVARIANTS EveryPrediction EveryTruth Levels12 TypesAdd SpeedsAdd PrintCase\n")
    cases = []
    for np_, ng, full, ty in ((2, 1, "TRUE", "1"), (1, 2, "TRUE", "1")):
        for kind in "HS":
            cs = ctx.model_cases("MC_Detection", base % (np_, ng, "0,20000,600000,700000", kind, ty, full, "TRUE"),
                                 name="one frame %dx%d %s" % (np_, ng, kind))
            cases += [(kind, c) for c in cs]
    ctx.model("MC_Detection", base % (2, 1, "0,600000", "H", "1,2", "TRUE", "FALSE"), name="two classes")
    if ctx.thorough:
        for kind in "HS":
            ctx.model("MC_Detection", base % (2, 2, "0,600000,700000", kind, "1", "FALSE", "FALSE"),
                      name="one frame 2x2 " + kind, timeout=1500)
            ctx.model("MC_Detection", base % (1, 2, "0,600000,700000", kind, "1,2", "TRUE", "FALSE"),
                      name="two classes 1x2 " + kind, timeout=1500)
    if len(cases) > ctx.pick(2500, 20000):
        cases = rng.sample(cases, ctx.pick(2500, 20000))
    real = []
    for kind, c in cases:
        P = [D.obj(**o) for o in c["P"]]
        G = [D.obj(**o) for o in c["G"]]
        real.append(finish({"cfg": dict(MODEL_CFG, kind=kind), "P": P, "G": G, "iou": c["iou"]}))
    ctx.validate("TraceDetection", drive(real), "modelled frames")
    cases = [random_case(rng) for _ in range(ctx.pick(1000, 12000))]
    ctx.validate("TraceDetection", drive(cases), "random frames", samples=len(cases))
