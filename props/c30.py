"""C30: the command line metrics tools score the frames of their files against themselves."""
import math
import os
import re
import shutil
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor

from vlib import build
from vlib.harness import run_parallel
from . import detlib as D

NAMES = {"det": "detection", "let": "detection_let", "trk": "tracking"}
CAMS = ["FRONT", "FRONT_LEFT", "FRONT_RIGHT", "SIDE_LEFT", "SIDE_RIGHT"]
TS = [0, 10, 1553629304740796, 1553629304840796, 1553629304840797, 2 ** 40]
CTX = ["a", "b", "a_1", "", "1024360143612057520_3580_000_3600_000"]
FIG = {"det": ["mAP", "mAPH"], "let": ["LET-mAPL", "LET-mAP", "LET-mAPH"], "trk": ["MOTA", "MOTP", "Miss", "Mismatch", "FP"]}
FIELD = {"det": ["mean_average_precision", "mean_average_precision_ha_weighted"],
         "let": ["mean_average_precision_longitudinal_affinity_weighted", "mean_average_precision", "mean_average_precision_ha_weighted"],
         "trk": ["mota", "motp", "miss", "mismatch", "fp"]}


def micro(x):
    x = float(x)
    return -999999999 if math.isnan(x) else int(max(-2e9, min(2e9, round(x * 1e6))))


def cfg(tool):
    if tool == "let":
        c = D.config([2, 3, 10], [[2]] * 3, [], (0, .5, .3, .3, .3), 1, 1)
        t = c.let_metric_config
        t.enabled = True
        t.align_type = t.TYPE_RANGE_ALIGNED
        t.longitudinal_tolerance_percentage = .1
        t.min_longitudinal_tolerance_meter = .5
        t.sensor_location.x, t.sensor_location.y, t.sensor_location.z = 1.43, 0, 2.18
    else:
        c = D.config([2, 3], [[1, 2]] * 2, [], (0, .7, .5, .5, .5), 1, 1)
    c.score_cutoffs.extend([i * .01 for i in range(100)] + [1.0])
    return c


def frames(tool, P, G):
    """The frames of the files, in the order the specification puts them."""
    kept = (lambda o: o["pts"] > 0) if tool == "det" else (lambda o: o["top"] > 0 and o["mv"]) if tool == "let" else (lambda o: True)
    key = (lambda o: (o["ctx"], o["ts"])) if tool == "trk" else (lambda o: (o["ctx"], o["cam"], o["ts"]))
    out = {}
    for i, o in enumerate(P):
        out.setdefault(key(o), ([], []))[0].append(i)
    for i, o in enumerate(G):
        if kept(o):
            out.setdefault(key(o), ([], []))[1].append(i)

    def lv(o):
        return o["dd"] if tool == "trk" or o["dd"] else 2 if (o["pts"] if tool == "det" else o["top"]) <= 5 else 1
    return [{"k": list(k), "p": [i + 1 for i in p], "g": [i + 1 for i in g], "lv": [lv(G[i]) for i in g]} for k, (p, g) in sorted(out.items())]


def flesh(case, rng):
    """Boxes for the objects of a case: a few places, so that frames mixed up change the score."""
    tool = case["tool"]
    spots = [(x, y) for x in (6, 20, 45, 70) for y in (0, 12, -30)]
    use = rng.sample(spots, rng.choice([1, 1, 2, 3]) if len(case["P"]) > 2 else 1)
    ids = {}
    contested = tool == "trk" and len(case["P"]) > 2 and rng.random() < .6
    if contested:   # objects side by side, told apart by small shifts
        use, case["mixed"] = use[:1], False
    for side in "PG":
        for n, o in enumerate(case[side]):
            x, y = rng.choice(use)
            k = (o["ctx"], o["ts"], x, y)
            b = D.obj(ty=1, x=64 * x + rng.choice([0, 0, 0, 16, 40, 72, 200]) * (side == "P"), y=64 * y + rng.choice([0, 0, 8, 30]) * (side == "P"),
                      z=0, dl=256, dw=128, dh=96, hd=rng.choice([0, 0, 0, 10, 180, -90]))
            if contested:
                b["x"] += rng.choice([0, 8, 16, 24])
                b["hd"] = 0
            b["ty"] = rng.choice([1, 1, 1, 2, 3, 4]) if case["mixed"] else 1
            b["sc"] = rng.choice([50000, 300000, 500000, 900000, 985000, 990000, 1000000, 10000 * rng.randint(0, 100)])
            b["vx"], b["vy"] = rng.choice([0, 64, 700]), 0
            # ids unique within a frame of the tracking tool
            b["id"] = "%s%d" % (side, rng.randrange(3)) if side == "P" or tool == "trk" else "g%d" % n
            if tool == "trk":
                while (side, o["ctx"], o["ts"], b["id"]) in ids:
                    b["id"] += "'"
                ids[(side, o["ctx"], o["ts"], b["id"])] = 1
                if side == "G":
                    b["td"] = o["dd"]
            if side == "P":
                b["nlz"] = rng.random() < .1
            o["_box"] = b


def proto(tool, o, side, level=None):
    b = o["_box"]
    p = D.proto(b)
    p.context_name = CTX[o["ctx"]]
    p.frame_timestamp_micros = TS[o["ts"]]
    if o["cam"]:
        p.camera_name = o["cam"]
    l = p.object
    if side == "G":
        if o["pts"] or o["top"] % 2:
            l.num_lidar_points_in_box = o["pts"]
        if o["top"] or o["pts"] % 2:
            l.num_top_lidar_points_in_box = o["top"]
        if o["dd"] and tool != "trk":
            l.detection_difficulty_level = o["dd"]
        if o["mv"] or o["pts"] % 2:
            l.most_visible_camera_name = o["mv"]
        if tool == "let":
            l.camera_synced_box.CopyFrom(l.box)
            l.box.center_x += 9
            l.box.center_y -= 7
            if level is not None:
                l.box.CopyFrom(l.camera_synced_box)
        if level is not None and tool != "trk":
            l.detection_difficulty_level = level
    return p


def rand_case(rng, tool):
    nc, nt = rng.choice([1, 2, 2, 3, 5]), rng.choice([1, 2, 3, 6])
    ctxs, times, cams = rng.sample(range(5), nc), rng.sample(range(6), nt), rng.sample([0, 1, 2, 5], rng.choice([1, 1, 2, 4]))

    def w():
        return {"ctx": rng.choice(ctxs), "cam": rng.choice(cams), "ts": rng.choice(times)}
    n = rng.choice([2, 5, 12, 30])
    G = [dict(w(), pts=rng.choice([0, 1, 5, 6, 7, 100]), top=rng.choice([0, 1, 5, 6, 7, 100]), dd=rng.choice([0, 0, 1, 2]),
              mv=rng.choice(CAMS + CAMS + [""])) for _ in range(rng.randint(1, n))]
    P = [{k: v for k, v in rng.choice(G).items() if k in ("ctx", "cam", "ts")} if rng.random() < .7 else w() for _ in range(rng.randint(0, n))]
    return {"tool": tool, "P": P, "G": G}


def run(ctx):
    rng = ctx.rng
    h = build.cc("h_metrics")
    bins = dict(zip(NAMES, build.cc_targets(*["bin/waymo_open_dataset/metrics/tools/compute_%s_metrics_main" % NAMES[t] for t in NAMES])))
    INV = "INVARIANTS EachPredictionOnce EachCountedTruthOnce NothingElse OneMoment Graded PrintCase\nPROPERTY OrderDoesNotMatter\n"
    cs = ctx.model_cases("MC_MetricsTools", "SPECIFICATION Spec\nCONSTANTS MaxP = 2\nMaxG = %d\nCtxs = {0,1}\nCams = {0}\nTimes = {0,1}\n"
                         "Kinds = {\"plain\",\"few\",\"none\"}\nEmit = TRUE\n%s" % (ctx.pick(1, 2), INV), name="files of two scenes")
    cs += ctx.model_cases("MC_MetricsTools", "SPECIFICATION Spec\nCONSTANTS MaxP = 1\nMaxG = 2\nCtxs = {0}\nCams = {1,2}\nTimes = {0}\n"
                          "Kinds = {\"plain\",\"few\",\"none\",\"side\",\"hidden\",\"hard\",\"easy\"}\nEmit = TRUE\n" + INV, name="kinds of ground truth, two cameras")
    cs = [c for c in cs if c["G"] and c["P"]]
    ctx.log("%d modelled pairs of files" % len(cs))
    rng.shuffle(cs)
    cases = cs[:ctx.pick(260, 12000)] + [rand_case(rng, t) for t in NAMES for _ in range(ctx.pick(140, 1500))]
    top = tempfile.mkdtemp(prefix="c30-")
    try:
        meta, reqs = [], []
        for n, c in enumerate(cases):
            tool = c["tool"]
            c["mixed"] = rng.random() < .6
            flesh(c, rng)
            F = frames(tool, c["P"], c["G"])
            d = "%s/%d" % (top, n)
            os.makedirs(d)
            for side in "PG":
                o = D.pb()["metrics"].Objects()
                o.objects.extend([proto(tool, x, side) for x in c[side]])
                open(d + "/" + side, "wb").write(o.SerializeToString())
            fp = [[proto(tool, c["P"][i - 1], "P") for i in f["p"]] for f in F]
            fg = [[proto(tool, c["G"][i - 1], "G", v) for i, v in zip(f["g"], f["lv"])] for f in F]
            S = []
            if tool == "trk":
                for i, f in enumerate(F):
                    if i and F[i - 1]["k"][0] == f["k"][0]:
                        S[-1].append(i + 1)
                    else:
                        S.append([i + 1])

            def tok(fr):
                if tool != "trk":
                    return [len(fr)] + [x for f in fr for x in [len(f)] + [D.hx(o) for o in f]]
                return [len(S)] + [x for s in S for x in [len(s)] + [y for i in s for y in [len(fr[i - 1])] + [D.hx(o) for o in fr[i - 1]]]]
            reqs.append(" ".join(map(str, ["trkmetrics" if tool == "trk" else "detmetrics", D.hx(cfg(tool))] + tok(fp) + tok(fg) + ([] if tool == "trk" else [0]))))
            meta.append((c, F, S, d))
        lib = run_parallel(h, reqs)
        M = D.pb()["metrics"]

        def go(m):
            c, _, _, d = m
            try:
                p = subprocess.run([bins[c["tool"]], d + "/P", d + "/G"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=60, text=True)
            except subprocess.TimeoutExpired:
                return "no answer", ""
            return ("exit %d" % p.returncode if p.returncode else ""), p.stdout
        with ThreadPoolExecutor(7) as ex:
            outs = list(ex.map(go, meta))
        events = []
        for (c, F, S, d), r, (crash, out) in zip(meta, lib, outs):
            tool = c["tool"]
            if r.get("crash"):
                ctx.log("the library does not evaluate a case: %s" % r["crash"])
                continue
            T = M.TrackingMetrics if tool == "trk" else M.DetectionMetrics
            rows = [[micro(getattr(m, f)) for f in FIELD[tool]] for m in (T.FromString(bytes.fromhex(x)) for x in r["r"])]
            names, got, n = [], [], -1
            for line in out.splitlines():
                m = re.match(r"(\d+) examples found", line)
                if m:
                    n = int(m.group(1))
                m = re.match(r"(.*): (\[[A-Za-z].*)$", line)
                if m:
                    figs = re.findall(r"\[([A-Za-z-]+) ([^\]]+)\]", m.group(2))
                    names.append(m.group(1))
                    got.append([micro(v) for (k, v), w in zip(figs, FIG[tool]) if k == w])
            strip = lambda os_: [{k: v for k, v in o.items() if k != "_box"} for o in os_]
            events.append({"tool": tool, "P": strip(c["P"]), "G": strip(c["G"]), "F": F, "S": S, "lib": rows, "crash": crash,
                           "rep": {"n": n, "names": names, "rows": got}, "_boxes": {s: [o["_box"] for o in c[s]] for s in "PG"}, "_w": 20 + len(F) * 4})
        some = {t: sum(1 for e in events if e["tool"] == t and any(row[0] > 0 for row in e["lib"])) for t in NAMES}
        ctx.log("runs with a score above 0: %s of %d" % (some, len(events)))
        ctx.validate("TraceMetricsTools", [[e] for e in events], "metrics tools", samples=len(events))
    finally:
        shutil.rmtree(top)
