"""C07: detection measurements merge like sums; estimated cutoffs."""
from vlib import build
from vlib.harness import run_parallel
from . import detlib as D
from .c05 import decode, ppm, random_case, make_config
from .c06 import pr_event


def to_protos(T, frame):
    out = []
    for b in frame:
        x = T()
        x.breakdown.generator_id, x.breakdown.shard, x.breakdown.difficulty_level = b["b"]
        for m in b["ms"]:
            y = x.measurements.add()
            y.num_tps, y.num_fps, y.num_fns = m["tp"], m["fp"], m["fn"]
            y.sum_ha, y.sum_longitudinal_affinity = m["ha"] / 1e6, m["la"] / 1e6
            y.score_cutoff = m["cut"] / 1e6
            for d in m["det"]:
                z = y.details.add()
                z.fp_ids.extend(d["fp"])
                z.fn_ids.extend(d["fn"])
                z.tp_gt_ids.extend(d["tpg"])
                z.tp_pr_ids.extend(d["tpp"])
                z.tp_ious.extend([v / 1e6 for v in d["iou"]])
                z.tp_heading_accuracies.extend([v / 1e6 for v in d["ha"]])
                z.tp_longitudinal_affinities.extend([v / 1e6 for v in d["la"]])
        out.append(x)
    return out


def synth(rng, frames, det):
    nb, nc = rng.randint(1, 3), rng.randint(1, 3)
    cuts = sorted(rng.sample(range(0, 1000001, 1000), nc))
    n = [0]

    def fresh(k):
        n[0] += 1
        return ["%s%d" % (k, n[0])]
    return [[{"b": [1, 0, b], "ms": [
        {"tp": rng.randint(0, 3), "fp": rng.randint(0, 50), "fn": rng.randint(0, 50),
         "ha": rng.randint(0, 3000000), "la": rng.randint(0, 3000000), "cut": c,
         "det": [{"tpp": fresh("p"), "tpg": fresh("g"), "fp": fresh("f"), "fn": fresh("n"),
                  "iou": [500000], "ha": [250000], "la": [125000]}] if det else []}
        for c in cuts]} for b in range(nb)] for _ in range(frames)]


def merge_req(parts):
    t = ["detmerge", D.hx(D.config([1], [[]])), len(parts)]
    for p in parts:
        t += [len(p)] + [D.hx(x) for x in p]
    return " ".join(map(str, t))


def run(ctx):
    h = build.cc("h_metrics")
    M = D.pb()["metrics"]
    T = M.DetectionMeasurements
    rng = ctx.rng
    for n in ctx.pick((3,), (3, 4)):
        ctx.model("MC_Merge", "SPECIFICATION Spec\nCONSTANTS N = %d Emit = FALSE\nINVARIANTS Conserved FramesKept\n" % n,
                  name="merge trees of %d frames" % n)
    # every association of up to five frames, by merging groups that were merged before
    cases = []
    for _ in range(ctx.pick(250, 2500)):
        f = rng.choice([0, 1, 2, 3, 4, 5, 6])
        fr = synth(rng, f, rng.random() < .7)
        cases.append([fr, [to_protos(T, x) for x in fr], None])
    todo = [c for c in cases if c[1]]
    while True:
        act = []
        for c in todo:
            if len(c[1]) > 1 and rng.random() < .8:
                i = rng.randint(0, len(c[1]) - 2)
                j = rng.randint(i + 2, len(c[1]))
                act.append((c, i, j))
        if not act:
            break
        for (c, i, j), r in zip(act, run_parallel(h, [merge_req(c[1][i:j]) for c, i, j in act])):
            if "crash" in r:
                c[2], c[1] = r, []
            else:
                c[1][i:j] = [[T.FromString(bytes.fromhex(x)) for x in r["r"]]]
        todo = [c for c in todo if len(c[1]) > 1]
        if len(todo) < 3:
            break
    groups = []
    for c, r in zip(cases, run_parallel(h, [merge_req(c[1]) for c in cases])):
        r = c[2] or r
        groups.append([{"ev": "merge", "parts": c[0], "out": decode(r.get("r", [])), "crash": r.get("crash", ""),
                        "_w": 3 + 10 * len(c[0])}])
    ctx.validate("TraceCurve", groups, "merging groups of groups", samples=len(groups))

    # real frames: metrics of a dataset carry the sum of the frames' measurements
    cases, reqs, idx = [], [], []
    for _ in range(ctx.pick(120, 1500)):
        base = random_case(rng)
        frames = [base]
        for _ in range(rng.randint(0, 3)):
            x = random_case(rng)
            while x["cfg"]["kind"] in "LM":
                x = random_case(rng)
            frames.append(x)
        if base["cfg"]["kind"] in "LM":
            frames = frames[:1]
        cfg = make_config(base["cfg"])
        np_ = max(len(f["P"]) for f in frames)
        ng = max(len(f["G"]) for f in frames)
        tab = [[rng.choice([0, 300000, 500000, 700001, 900000]) for _ in range(ng)] for _ in range(np_)]
        tok = [1, np_, ng] + [v for r in tab for v in r]
        per = [" ".join(map(str, ["detmeas", D.hx(cfg)] + D.objs_tok(f["P"]) + D.objs_tok(f["G"]) + tok)) for f in frames]
        whole = ["detmetrics", D.hx(cfg), len(frames)]
        for f in frames:
            whole += D.objs_tok(f["P"])
        whole.append(len(frames))
        for f in frames:
            whole += D.objs_tok(f["G"])
        cases.append((base, len(per)))
        reqs += per + [" ".join(map(str, whole + tok))]
    res = run_parallel(h, reqs)
    groups, k = [], 0
    for base, n in cases:
        parts, w = res[k:k + n], res[k + n]
        k += n + 1
        crash = "".join(x.get("crash", "") for x in parts + [w])
        ms = [M.DetectionMetrics.FromString(bytes.fromhex(x)) for x in w.get("r", [])]
        g = [{"ev": "merge", "parts": [decode(x.get("r", [])) for x in parts], "crash": crash,
              "out": decode([x.measurements.SerializeToString().hex() for x in ms]),
              "_w": 3 + 10 * n * len(ms)}]
        for x in ms[:6] if not crash else []:
            o = decode([x.measurements.SerializeToString().hex()])[0]["ms"]
            for m in o:
                m["det"] = []
            g.append(pr_event(o, {"ru": 0, "pu": 1, "step": 1, "minp": 0}, x))
        groups.append(g)
    ctx.validate("TraceCurve", groups, "datasets of frames", samples=len(groups))

    # score cutoffs
    jobs = []
    for n in range(1, 9):
        for k in range(0, 13):
            jobs.append((sorted(rng.randint(0, 1000000) for _ in range(k)), n))
    for _ in range(ctx.pick(600, 6000)):
        k = rng.choice([0, 1, 2, 5, 10, 30, 100])
        s = sorted(rng.choice([rng.randint(0, 1000000), 500000, 0, 1000000]) for _ in range(k))
        jobs.append((s, rng.choice([1, 2, 3, 5, 10, 11, 21, 101])))
    res = run_parallel(h, [" ".join(map(str, ["cutoffs", len(s)] + [repr(x / 1e6) for x in s] + [n])) for s, n in jobs])
    groups = [[{"ev": "cut", "scores": s, "n": n, "r": [ppm(x) for x in r.get("r", [])],
                "crash": r.get("crash", ""), "_w": 2 + n}] for (s, n), r in zip(jobs, res)]
    jobs = []
    for _ in range(ctx.pick(150, 1500)):
        fr = [[D.obj(sc=rng.choice([rng.randint(0, 1000000), 500000]), ty=rng.choice([1, 2, 3, 4]))
               for _ in range(rng.randint(0, 6))] for _ in range(rng.randint(0, 5))]
        jobs.append((fr, rng.choice([1, 2, 3, 5, 11])))
    reqs = []
    for fr, n in jobs:
        c = D.config([1], [[]], num_desired_score_cutoffs=n)
        t = ["detest", D.hx(c), len(fr)] + [x for f in fr for x in D.objs_tok(f)]
        t += [len(fr)] + [x for f in fr for x in D.objs_tok(f[:1])]
        reqs.append(" ".join(map(str, t)))
    for (fr, n), r in zip(jobs, run_parallel(h, reqs)):
        c = M.Config.FromString(bytes.fromhex(r["r"][0])) if r.get("r") else M.Config()
        groups.append([{"ev": "cut", "scores": [o["sc"] for f in fr for o in f], "n": n,
                        "r": [ppm(x) for x in c.score_cutoffs], "crash": r.get("crash", ""), "_w": 2 + n}])
    ctx.validate("TraceCurve", groups, "score cutoffs", samples=len(groups))
