"""C04: tracking measurements per breakdown/cutoff, merging scenes, the operating point."""
from vlib import build, tlc
from vlib.harness import run_parallel
from . import detlib as D

EX = ("id", "nlz", "td")
ppm = lambda x: round(x * 1e6)


def make_config(cfg, cuts=True, **kw):
    if cfg["det"]:
        kw["include_details_in_measurements"] = True
    return D.config(cfg["gens"], cfg["lv"], cfg["cuts"] if cuts else (), [x / 1e6 for x in cfg["thr"]],
                    {"H": 1, "S": 2}[cfg["kind"]], 3, **kw)


def tok(frames, k):
    return [len(frames)] + [x for f in frames for x in D.objs_tok(f[k])]


def meas(m):
    det = [{"tg": list(d.tp_gt_ids), "tp": list(d.tp_pred_ids), "fn": list(d.fn_gt_ids),
            "fpi": list(d.fp_pred_ids)} for d in m.details]
    return {"miss": m.num_misses, "fp": m.num_fps, "mm": m.num_mismatches, "match": m.num_matches,
            "gt": m.num_objects_gt, "cost": ppm(m.matching_cost), "cut": ppm(m.score_cutoff), "det": det}


def one(x):
    b = x.breakdown
    return {"b": [b.generator_id, b.shard, b.difficulty_level], "ms": [meas(m) for m in x.measurements]}


def metric(x):
    o = one(x.measurements)
    b = x.breakdown
    o["b"] = [b.generator_id, b.shard, b.difficulty_level] if o["ms"] else o["b"]
    o.update(mota=ppm(x.mota), motp=ppm(x.motp), miss=ppm(x.miss), mm=ppm(x.mismatch), fp=ppm(x.fp),
             gt=x.num_objects_gt, cut=ppm(x.score_cutoff))
    return o


def scene_event(cfg, fr, r):
    T = D.pb()["metrics"].TrackingMeasurements
    out = [one(T.FromString(bytes.fromhex(h))) for h in r.get("r", [])]
    return {"ev": "meas", "cfg": cfg, "crash": r.get("crash", ""), "_err": r.get("err", ""), "r": out,
            "fr": [{"P": [D.view(o, *EX) for o in f["P"]], "G": [D.view(o, *EX) for o in f["G"]]} for f in fr],
            "_w": 10 + len(out) * len(cfg["cuts"]) * (1 + len(fr))}


def box(o, lane, x, l=4, w=2):
    o["x"], o["y"], o["z"] = 32 * x, 32 * lane, 0
    o["dl"], o["dw"], o["dh"] = 64 * l, 64 * w, 64
    return o


def random_scene(rng, cfg, nf=None):
    tys = rng.choice([[1], [1], [1, 2], [1, 2, 3, 4]])
    ng, np_ = rng.randint(0, 3), rng.randint(0, 4)
    vel = 7 in cfg["gens"]
    center = rng.choice([6, 58, 98, 59, 100, 200])   # in half metres: around the range borders
    gty = [rng.choice(tys) for _ in range(ng)]
    pty = [rng.choice(gty or tys) if rng.random() < .8 else rng.choice(tys) for _ in range(np_)]
    psc = [rng.choice(cfg["cuts"] + [rng.randint(0, 1000000)]) for _ in range(np_)]
    pl = [rng.choice([3, 4, 6, 8]) for _ in range(np_)]
    gl = [rng.choice([3, 4, 6, 8]) for _ in range(ng)]
    has_speed = rng.random() < .5
    gx = [center + rng.randint(-6, 6) for _ in range(ng)]
    px = [rng.choice(gx + [center]) for _ in range(np_)]
    frames = []
    for _ in range(rng.randint(0, 5) if nf is None else nf):
        G, P = [], []
        for i in range(ng):
            gx[i] += rng.choice([-1, 0, 0, 0, 1, 1])
            if rng.random() < .85:
                o = box(D.obj(ty=gty[i], id="g%d" % i, td=rng.choice([0, 1, 2, 1]), dd=rng.choice([0, 1, 2])),
                        rng.choice([0, 0, 0, 1]), gx[i], gl[i])
                o["vx"] = rng.choice([0, 32, 100, 300, 700])
                o["hx"] = rng.random() < .9
                o["hy"] = o["hx"]
                G.append(o)
        for i in range(np_):
            px[i] += rng.choice([-1, 0, 0, 0, 1, 1])
            if rng.random() < .07 and gx:
                px[i] = rng.choice(gx)
            if rng.random() < .85:
                o = box(D.obj(ty=pty[i], id="p%d" % i, nlz=rng.random() < .2), rng.choice([0, 0, 0, 1]), px[i], pl[i])
                o["sc"] = psc[i] if rng.random() < .8 else rng.choice(cfg["cuts"] + [rng.randint(0, 1000000)])
                o["hx"] = o["hy"] = has_speed
                o["vx"] = rng.choice([0, 32, 100, 300, 700]) if has_speed else 0
                P.append(o)
        rng.shuffle(G)
        rng.shuffle(P)
        if P and rng.random() < .08:
            P.append(dict(rng.choice(P), sc=rng.randint(0, 1000000)))
        if vel:      # no equally near ground truths of different speed
            for p in P:
                d = sorted(((p["x"] - g["x"]) ** 2 + (p["y"] - g["y"]) ** 2, g["vx"] * g["hx"]) for g in G)
                if len(d) > 1 and d[0][0] == d[1][0]:
                    for g in G:
                        g["vx"], g["hx"], g["hy"] = 100, True, True
        frames.append({"P": P, "G": G})
    return frames


def overlaps(a, b):
    return 2 * abs(a["x"] - b["x"]) < a["dl"] + b["dl"] and 2 * abs(a["y"] - b["y"]) < a["dw"] + b["dw"]


def untangle(scene):
    """Keeps a prediction only if it can meet one ground truth that no other prediction meets:
    the matching is then unique, so separate runs of the code must agree."""
    for f in scene:
        taken, keep = set(), []
        for p in f["P"]:
            m = {g["id"] for g in f["G"] if overlaps(p, g)}
            if len(m) <= 1 and not m & taken:
                taken |= m
                keep.append(p)
        f["P"] = keep
    return scene


def random_cfg(rng, det):
    gens = rng.sample([1, 2, 3, 7, 8, 9], rng.randint(1, 2))
    cuts = [rng.choice([0, 200000, 500000, 900000, rng.randint(0, 1000000)]) for _ in range(rng.randint(1, 3))]
    if rng.random() < .8:
        cuts.sort()
    return {"gens": gens, "lv": [rng.choice([[], [1], [2], [1, 2], [2, 1]]) for _ in gens], "cuts": cuts,
            "kind": rng.choice("HHS"), "thr": [rng.choice([500000, 351001, 251001, 101, 701001]) for _ in range(5)],
            "det": det}


def from_history(c, cfg):
    """An overlap history of the tracking model (one ground truth or one prediction) as boxes."""
    out = []
    for f in c["frames"]:
        P = [D.obj(id=p["id"], ty=1, nlz=p["nlz"], sc=600000) for p in f["p"]]
        G = [D.obj(id=g["id"], ty=1, td=g["td"]) for g in f["g"]]
        far = 40
        for o in P + G:
            box(o, 0, far)
            far += 20
        for i, p in enumerate(P):
            for j, g in enumerate(G):
                if f["iou"][i][j]:
                    # the single object of one side is the anchor
                    a, b = (g, p) if len(G) == 1 else (p, g)
                    b["x"], b["y"] = a["x"], a["y"]
        out.append({"P": P, "G": G})
    return out


def run_scenes(h, jobs):
    reqs = [" ".join(map(str, ["trkmeas", D.hx(make_config(cfg))] + tok(fr, "P") + tok(fr, "G"))) for cfg, fr in jobs]
    return run_parallel(h, reqs)


def sum_req(cfgp, parts):
    t = ["trkfrom", cfgp, len(parts)]
    for p in parts:
        t += [len(p)] + [D.hx(x) for x in p]
    return " ".join(map(str, t))


def build_parts(scenes, T, det, tag=0):
    """Counters per scene and cutoff -> protos."""
    out = []
    for s, cs in enumerate(scenes):
        x = T()
        x.breakdown.generator_id, x.breakdown.shard, x.breakdown.difficulty_level = 1, 0, 2
        for c, m in enumerate(cs):
            y = x.measurements.add()
            y.num_misses, y.num_fps, y.num_mismatches = m["miss"], m["fp"], m["mm"]
            y.num_matches, y.num_objects_gt, y.matching_cost = m["match"], m["gt"], m["cost"] / 1e6
            y.score_cutoff = 0.1 * (c + 1)
            for k in range(det):
                y.details.add().fn_gt_ids.append("s%d.%d.%d" % (s, c, k))
        out.append([x])
    return out


def run(ctx):
    h = build.cc("h_metrics")
    M = D.pb()["metrics"]
    T = M.TrackingMeasurements
    rng = ctx.rng
    base = ("SPECIFICATION Spec\nCONSTANTS NS = %d NC = %d Top = %d Emit = %s\nINVARIANTS OrderFree Conserved "
            "WalkFindsPoint LowestOnTies AtMostOne PrintCase\n")
    cases = ctx.model_cases("MC_Tracking", base % (2, 1, 2, "TRUE"), name="two scenes, one cutoff")
    cases = rng.sample(cases, min(len(cases), ctx.pick(200, 3000)))
    r = ctx.model_cases("MC_Tracking", base % (1, 2, 2, "TRUE"), name="one scene, two cutoffs")
    cases += rng.sample(r, min(len(r), ctx.pick(1500, 9000)))
    if ctx.thorough:
        ctx.model("MC_Tracking", base % (1, 3, 2, "FALSE"), name="one scene, three cutoffs", timeout=1500)
        ctx.model("MC_Tracking", base % (2, 2, 1, "FALSE"), name="two scenes, two cutoffs", timeout=1500)
    for _ in range(ctx.pick(1200, 12000)):
        n, k = rng.randint(0, 4), rng.randint(1, 5)
        top = rng.choice([2, 10, 300])
        sc = []
        for _ in range(n):
            row = []
            for _ in range(k):
                a, m = rng.randint(0, top), rng.randint(0, top)
                row.append({"miss": a, "match": m, "gt": a + m, "fp": rng.randint(0, top) // rng.choice([1, 4]),
                            "mm": rng.randint(0, m) // rng.choice([1, 4, 50]), "cost": rng.randint(0, 500000) * m})
            sc.append(row)
        if n and rng.random() < .3:     # ties: the same counts at several cutoffs
            for row in sc:
                row[-1] = dict(row[0])
        cases.append(sc)
    cfgp = D.hx(D.config([1], [[]]))
    parts = [build_parts(c, T, rng.choice([0, 0, 1, 2])) for c in cases]
    for p in parts:                       # a scene without frames has no measurements
        if rng.random() < .1:
            p.insert(rng.randint(0, len(p)), [])
    groups = []
    for p, r in zip(parts, run_parallel(h, [sum_req(cfgp, p) for p in parts])):
        groups.append([{"ev": "sum", "parts": [[one(x) for x in q] for q in p], "crash": r.get("crash", ""),
                        "out": [metric(M.TrackingMetrics.FromString(bytes.fromhex(x))) for x in r.get("r", [])],
                        "_w": 5 + 5 * len(p)}])
    ctx.validate("TraceTracking", groups, "metrics from scene measurements", samples=len(groups))

    # scenes
    mb = ("SPECIFICATION Spec\nCONSTANTS NG = %d NP = %d Overlaps = {0,600000} Frames = 3 Kinds = {\"H\"} Emit = TRUE\n"
          "INVARIANTS OneToOne Conservation PrintCase\n")
    hist = ctx.model_cases("MC_MOT", mb % (1, 2), name="histories 1x2") + \
        ctx.model_cases("MC_MOT", mb % (2, 1), name="histories 2x1")
    hist = rng.sample(hist, min(len(hist), ctx.pick(500, 6000)))
    mc = {"gens": [1], "lv": [[1, 2]], "cuts": [0], "kind": "H", "thr": [500000] * 5, "det": True}
    jobs = [(dict(mc, det=rng.random() < .7, cuts=rng.choice([[0], [0, 600000], [0, 700000]])), c) for c in hist]
    jobs = [(cfg, from_history(c, cfg)) for cfg, c in jobs]
    groups = [[scene_event(cfg, fr, r)] for (cfg, fr), r in zip(jobs, run_scenes(h, jobs))]
    ctx.validate("TraceTracking", groups, "scenes of modelled histories")
    jobs = []
    for _ in range(ctx.pick(700, 9000)):
        cfg = random_cfg(rng, rng.random() < .75)
        jobs.append((cfg, random_scene(rng, cfg)))
    groups = [[scene_event(cfg, fr, r)] for (cfg, fr), r in zip(jobs, run_scenes(h, jobs))]
    ctx.validate("TraceTracking", groups, "random scenes", samples=len(groups))

    # the same once more, by other processes: nothing may depend on their hash seeds
    jobs = []
    for _ in range(ctx.pick(150, 1500)):
        cfg = dict(random_cfg(rng, rng.random() < .75), lv=[[1, 2]], gens=[1], kind=rng.choice("HHHS"))
        fr = random_scene(rng, cfg, rng.randint(1, 4))
        for f in fr:
            for k in "PG":      # many equally good pairs
                for o in f[k]:
                    o["dl"], o["y"], o["x"], o["ty"] = 256, 0, o["x"] // 128 * 128, 1
                    o["sc"] = 1000000
                    o["nlz"] = False
        jobs.append((cfg, fr))
    runs = [run_scenes(h, jobs) for _ in range(ctx.pick(5, 9))]
    groups = []
    for n, (cfg, fr) in enumerate(jobs):
        es = [scene_event(cfg, fr, r[n]) for r in runs]
        groups.append([dict(es[0], ev="again", again=[e["r"] for e in es[1:]], crash="".join(e["crash"] for e in es))])
        groups[-1][0].pop("cfg")
    ctx.validate("TraceTracking", groups, "scenes evaluated again", samples=len(groups))

    # datasets: totals of all scenes, in any order, with given or estimated cutoffs
    jobs, reqs, plan = [], [], []
    for _ in range(ctx.pick(120, 1500)):
        cfg = random_cfg(rng, rng.random() < .5)
        scenes = [untangle(random_scene(rng, cfg)) for _ in range(rng.randint(0, 3))]
        est = rng.random() < .3
        c = make_config(cfg, not est, **({"num_desired_score_cutoffs": rng.choice([1, 2, 3, 5])} if est else {}))
        body = [D.hx(c), len(scenes)] + [x for s in scenes for x in tok(s, "P")] + \
            [len(scenes)] + [x for s in scenes for x in tok(s, "G")]
        plan.append((cfg, scenes, c, est))
        reqs.append(" ".join(map(str, ["trkmetrics"] + body)))
        reqs.append(" ".join(map(str, ["trkest"] + body)))
    res = run_parallel(h, reqs)
    per = []
    for k, (cfg, scenes, c, est) in enumerate(plan):
        e = res[2 * k + 1]
        if scenes and e.get("r"):
            c = M.Config.FromString(bytes.fromhex(e["r"][0]))
        for s in scenes:
            per.append(" ".join(map(str, ["trkmeas", D.hx(c)] + tok(s, "P") + tok(s, "G"))))
    pres, at = run_parallel(h, per), 0
    groups, cuts = [], []
    for k, (cfg, scenes, c, est) in enumerate(plan):
        w, e = res[2 * k], res[2 * k + 1]
        mine = pres[at:at + len(scenes)]
        at += len(scenes)
        crash = "".join(x.get("crash", "") for x in mine + [w, e])
        groups.append([{"ev": "sum", "crash": crash, "_err": w.get("err", ""), "_w": 5 + 5 * len(mine),
                        "parts": [[one(T.FromString(bytes.fromhex(x))) for x in r.get("r", [])] for r in mine],
                        "out": [metric(M.TrackingMetrics.FromString(bytes.fromhex(x))) for x in w.get("r", [])]}])
        if est and scenes:
            ec = M.Config.FromString(bytes.fromhex(e["r"][0])) if e.get("r") else M.Config()
            cuts.append([{"ev": "cut", "scores": [o["sc"] for s in scenes for f in s for o in f["P"]],
                          "n": c.num_desired_score_cutoffs, "r": [ppm(x) for x in ec.score_cutoffs],
                          "crash": e.get("crash", "")}])
    ctx.validate("TraceTracking", groups, "datasets of scenes", samples=len(groups))
    ctx.validate("TraceCurve", cuts, "estimated score cutoffs", samples=len(cuts))
