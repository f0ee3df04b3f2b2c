"""C28: batched tensors and the metric operations."""
import copy
import math
import struct

from vlib import build
from vlib.harness import run_parallel
from . import detlib as D, motionlib as ml

FIELDS = ("score", "nlz", "det", "trk", "speed")


def f32(x):
    return struct.unpack("f", struct.pack("f", x))[0]


def T(t, dims, v):
    return "%s %d %s %s" % (t, len(dims), " ".join(map(str, dims)), " ".join(map(str, v)))


def hexs(s):
    return s.encode().hex() or "-"


# ---- boxes: rows in 1/8 m and 1/8 rad -------------------------------------------------------
def row(rng, f, s="", oid=0, at=None):
    c = at or (rng.randint(-300, 300), rng.randint(-300, 300), rng.randint(-8, 8))
    return {"f": f, "s": s, "ty": rng.choice([1, 1, 1, 2, 3, 4]), "id": oid,
            "box": [c[0], c[1], c[2], rng.choice([16, 32, 40]), rng.choice([8, 16, 20]), rng.choice([8, 12, 16]), rng.choice([0, 0, 1, -2, 12, 25])],
            "score": rng.choice([0, 100, 250, 500, 750, 875, 1000]), "nlz": int(rng.random() < .1), "det": rng.choice([0, 1, 1, 2]),
            "trk": rng.choice([0, 1, 1, 2]), "speed": [rng.choice([0, 1, 8, 24, 90, -40]), rng.choice([0, 0, 3, -17])]}


def near(rng, r, f=None):
    q = copy.deepcopy(r)
    q["box"][0] += rng.choice([0, 0, 1, 2, 6])
    q["box"][1] += rng.choice([0, 0, 1, -1])
    q["box"][6] += rng.choice([0, 0, 1, 6])
    q["score"] = rng.choice([100, 300, 300, 500, 900, 901, 40])
    q["nlz"] = int(rng.random() < .08)
    return q


DOF = {7: (0, 1, 2, 3, 4, 5, 6), 5: (0, 1, 3, 4, 6), 4: (0, 1, 3, 4)}


def bbox(rows, d):
    return T("f", [len(rows), d], [x / 8 for r in rows for x in (r["box"][i] for i in DOF[d])])


def tensors(rows, d, what):
    n = len(rows)
    out = {"bbox": bbox(rows, d), "type": T("u", [n], [r["ty"] for r in rows]), "frame": T("l", [n], [r["f"] for r in rows]),
           "seq": T("s", [n], [hexs(r["s"]) for r in rows]), "id": T("l", [n], [r["id"] for r in rows]),
           "score": T("f", [n], [r["score"] / 1000 for r in rows]), "nlz": T("b", [n], [r["nlz"] for r in rows]),
           "det": T("u", [n], [r["det"] for r in rows]), "trk": T("u", [n], [r["trk"] for r in rows]),
           "speed": T("f", [n, 2], [x / 8 for r in rows for x in r["speed"]])}
    return [out[w] for w in what]


BOXN = ("center_x", "center_y", "center_z", "length", "width", "height", "heading")


def proto(r, d, fields):
    """The library's object for a row; fields: which optional ones are given."""
    p = D.pb()["metrics"].Object()
    p.object.type = r["ty"]
    for i in DOF[d]:
        setattr(p.object.box, BOXN[i], r["box"][i] / 8)
    if "id" in fields:
        p.object.id = str(r["id"])
    if "score" in fields:
        p.score = f32(r["score"] / 1000)
    if "nlz" in fields:
        p.overlap_with_nlz = bool(r["nlz"])
    if "det" in fields:
        p.object.detection_difficulty_level = r["det"]
    if "trk" in fields:
        p.object.tracking_difficulty_level = r["trk"]
    if "speed" in fields:
        p.object.metadata.speed_x, p.object.metadata.speed_y = (x / 8 for x in r["speed"])
    return p


def vals(r, d):
    v = {"ty": r["ty"], "id": r["id"], "score": r["score"], "nlz": r["nlz"], "det": r["det"], "trk": r["trk"],
         "sx": r["speed"][0], "sy": r["speed"][1]}
    v.update({BOXN[i]: r["box"][i] for i in DOF[d]})
    return v


def seen(hexed):
    """What an object says, field by field."""
    p = D.pb()["metrics"].Object()
    p.ParseFromString(bytes.fromhex(hexed))
    o, v = p.object, {}
    if o.HasField("type"):
        v["ty"] = o.type
    for n in BOXN:
        if o.box.HasField(n):
            v[n] = round(getattr(o.box, n) * 8)
    if o.HasField("id"):
        v["id"] = int(o.id) if o.id.lstrip("-").isdigit() else -1
    if p.HasField("score"):
        v["score"] = round(p.score * 1000)
    if p.HasField("overlap_with_nlz"):
        v["nlz"] = int(p.overlap_with_nlz)
    if o.HasField("detection_difficulty_level"):
        v["det"] = o.detection_difficulty_level
    if o.HasField("tracking_difficulty_level"):
        v["trk"] = o.tracking_difficulty_level
    if o.metadata.HasField("speed_x"):
        v["sx"] = round(o.metadata.speed_x * 8)
    if o.metadata.HasField("speed_y"):
        v["sy"] = round(o.metadata.speed_y * 8)
    for f in ("context_name", "frame_timestamp_micros", "camera_name"):
        if p.HasField(f):
            v[f] = 1
    return v


def scaled(t):
    return {"dims": t["dims"], "v": [num(x) for x in t["v"]]}


def num(x):
    return 2000000000 if isinstance(x, str) else int(max(-2e9, min(2e9, round(x * 1e5))))


def frames_of(pr, gr):
    keys = sorted({(r["s"], r["f"]) for r in pr + gr})
    return [{"s": s, "f": f, "p": [i + 1 for i, r in enumerate(pr) if (r["s"], r["f"]) == (s, f)],
             "g": [i + 1 for i, r in enumerate(gr) if (r["s"], r["f"]) == (s, f)]} for s, f in keys]


def frame_tok(rows, idx, d, fields):
    return " ".join([str(len(idx))] + [D.hx(proto(rows[i - 1], d, fields)) for i in idx])


def scene(rng, keys, kmax=3):
    """Ground truths and predictions for the frames, rows shuffled across frames."""
    pr, gr, n = [], [], 0
    for s, f in keys:
        for _ in range(rng.randint(0, kmax)):
            n += 1
            g = row(rng, f, s, n)
            gr.append(g)
            for _ in range(rng.choice([0, 1, 1, 1, 2])):
                pr.append(dict(near(rng, g), id=n * 10 + len(pr)))
        if rng.random() < .3:
            pr.append(row(rng, f, s, 900 + n + len(pr)))
    rng.shuffle(pr)
    rng.shuffle(gr)
    return pr, gr


def tracks_scene(rng, seqs, nf):
    """Objects that persist over the frames of their sequence."""
    pr, gr = [], []
    for s in seqs:
        fids = sorted(rng.sample(range(-3, 30), rng.randint(1, nf)))
        for k in range(rng.randint(0, 3)):
            g0 = row(rng, 0, s, 1 + k)
            alias = rng.choice([50 + k, 50 + k, 51 + k])
            for f in fids:
                g = dict(copy.deepcopy(g0), f=f, id=1 + k)
                g0["box"][0] += rng.choice([0, 1, 3])
                if rng.random() < .85:
                    gr.append(g)
                if rng.random() < .8:
                    if rng.random() < .1:
                        alias = rng.choice([50, 51, 52])
                    if not any(p["id"] == alias and p["f"] == f and p["s"] == s for p in pr):
                        pr.append(dict(near(rng, g), id=alias))
    rng.shuffle(pr)
    rng.shuffle(gr)
    return pr, gr


def det_config(rng, d, cuts=None):
    box = 1 if d == 7 and rng.random() < .6 else 2 if d >= 5 and rng.random() < .7 else 3
    if d == 4:
        box = 3
    gens = rng.choice([[1], [2], [1, 2], [2, 7], [3], [8, 1]])
    lv = [rng.choice([[1], [2], [1, 2], []]) for _ in gens]
    cuts = rng.choice([[], [0, 500000], [0, 250000, 500000, 900000]]) if cuts is None else cuts
    c = D.config(gens, lv, cuts=cuts, thr=rng.choice([(.3,) * 5, (.5,) * 5, (0, .7, .5, .5, .5)]), matcher=rng.choice([1, 2]), box=box,
                 num_desired_score_cutoffs=rng.choice([2, 5]))
    if rng.random() < .25 and box == 1:
        c.let_metric_config.enabled = True
        c.let_metric_config.longitudinal_tolerance_percentage = .1
        c.let_metric_config.min_longitudinal_tolerance_meter = .5
        c.let_metric_config.align_type = rng.choice([1, 2, 4])
        c.let_metric_config.sensor_location.x = 1.5
        c.let_metric_config.sensor_location.y = 0
        c.let_metric_config.sensor_location.z = 2
    return c


PW, GW = ["bbox", "type", "score", "frame", "nlz"], ["bbox", "type", "frame", "det", "speed"]
TPW = ["bbox", "type", "score", "frame", "seq", "id", "nlz"]
TGW = ["bbox", "type", "frame", "seq", "id", "trk", "speed"]


def op(name, config, ts):
    return "op %s %s %d %s" % (name, D.hx(config), len(ts), " ".join(ts))


class Batch:
    """Requests whose answers make up events."""

    def __init__(self):
        self.reqs, self.events = [], []

    def ask(self, line):
        self.reqs.append(line)
        return len(self.reqs) - 1

    def event(self, make):
        self.events.append(make)

    def run(self, h):
        a = run_parallel(h, self.reqs, timeout=60)
        return [m(a) for m in self.events]


def failed(*rs):
    for r in rs:
        if "crash" in r or "error" in r:
            return " ".join([str(r.get("crash") or r.get("error")), str(r.get("err", ""))[-150:]])
    return ""


def outs(r):
    return [scaled(t) for t in r["out"]] if "out" in r else []


def add_parse(b, rng, rows, seq):
    rows = [dict(r, ty=rng.choice([r["ty"], r["ty"], 0])) for r in rows]
    d = rng.choice([4, 5, 7])
    given = [w for w in FIELDS if rng.random() < .6]
    what = ["bbox", "type", "frame"] + (["seq", "id"] if seq else [])
    line = " ".join(["parseseq" if seq else "parse"] + tensors(rows, d, what))
    for w in FIELDS:
        line += " 1 " + tensors(rows, d, [w])[0] if w in given else " 0"
    i = b.ask(line)
    opts = ["ty"] + [BOXN[k] for k in DOF[d]] + (["id"] if seq else []) + [w for w in given if w != "speed"] + (["sx", "sy"] if "speed" in given else [])

    def make(a):
        g = [{"s": bytes.fromhex(x["s"]).decode() if "s" in x and x["s"] else "", "f": x["f"], "objs": [seen(o) for o in x["objs"]]} for x in a[i].get("groups", [])]
        return {"k": "parse", "rows": [{"s": r["s"] if seq else "", "f": r["f"], "vals": vals(r, d)} for r in rows], "opts": opts, "groups": g, "_err": failed(a[i])}
    b.event(make)


def lib_det(b, c, pr, gr, fs, d):
    fr = fs or [{"p": [], "g": []}]
    return b.ask("det %s %d %s %d %s" % (D.hx(c), len(fr), " ".join(frame_tok(pr, f["p"], d, ("score", "nlz")) for f in fr),
                                         len(fr), " ".join(frame_tok(gr, f["g"], d, ("det", "speed")) for f in fr)))


def keys(rows):
    return [[r["s"], r["f"]] for r in rows]


def add_det(b, rng, pr, gr, d=None, c=None):
    d = d or rng.choice([7, 7, 5, 4])
    c = c or det_config(rng, d)
    for r in pr + gr:
        r["s"] = ""
    fs = frames_of(pr, gr)
    i = b.ask(op("DetectionMetrics", c, tensors(pr, d, PW) + tensors(gr, d, GW)))
    j = lib_det(b, c, pr, gr, fs, d)
    b.event(lambda a: {"k": "det", "pk": keys(pr), "gk": keys(gr), "frames": fs, "op": outs(a[i]), "lib": outs(a[j]), "error": failed(a[i], a[j]), "_c": str(c)})
    return i, j, d, c, fs


def add_state(b, rng, pr, gr):
    d = rng.choice([7, 5])
    c = det_config(rng, d, rng.choice([[0, 500000], [0, 250000, 500000, 900000], [300000]]))
    i, j, d, c, fs = add_det(b, rng, pr, gr, d, c)
    part = {f["f"] for f in fs if rng.random() < .5}
    split = [([r for r in pr if (r["f"] in part) == w], [r for r in gr if (r["f"] in part) == w]) for w in (True, False)]
    whole, x, y = [b.ask(op("DetectionMetricsState", c, tensors(p, d, PW) + tensors(g, d, GW))) for p, g in [(pr, gr)] + split]
    return i, j, whole, x, y, c


def add_track(b, rng, pr, gr, c=None):
    d = rng.choice([7, 7, 5, 4])
    c = c or det_config(rng, d)
    c.ClearField("let_metric_config")
    fs = frames_of(pr, gr)
    seqs = sorted({f["s"] for f in fs})
    i = b.ask(op("TrackingMetrics", c, tensors(pr, d, TPW) + tensors(gr, d, TGW)))
    parts = []
    for s in seqs:
        fr = [f for f in fs if f["s"] == s]
        parts.append("%d %s %d %s" % (len(fr), " ".join(frame_tok(pr, f["p"], d, ("score", "nlz", "id")) for f in fr),
                                      len(fr), " ".join(frame_tok(gr, f["g"], d, ("trk", "speed", "id")) for f in fr)))
    j = b.ask("track %s %d %s" % (D.hx(c), len(seqs), " ".join(parts)))
    b.event(lambda a: {"k": "track", "pk": keys(pr), "gk": keys(gr), "frames": fs, "op": outs(a[i]), "lib": outs(a[j]), "error": failed(a[i], a[j]), "_c": str(c)})


def add_match(b, rng):
    d = rng.choice([4, 5, 7, 7])
    box = {4: [3], 5: [2], 7: [1, 1, 2]}[d]
    c = D.config([1], [[1]], matcher=rng.choice([1, 1, 2]), box=rng.choice(box), thr=rng.choice([(.01,) * 5, (.3,) * 5, (.5,) * 5]))
    B, np_, ng = rng.choice([0, 1, 1, 2, 3]), rng.randint(0, 4), rng.randint(0, 4)
    ps, gs = [], []
    for _ in range(B):
        g = [row(rng, 0, at=(rng.choice([0, 100, 200]), rng.choice([0, 6, 100]), 0)) for _ in range(ng)]
        p = [near(rng, rng.choice(g)) if g and rng.random() < .8 else row(rng, 0) for _ in range(np_)]
        for r in g + p:
            r["box"][6] = rng.choice([0, 0, 1])
            r["box"][2] += rng.choice([0, 0, 1, 2, -3])
            r["box"][5] = rng.choice([8, 12, 16, 20])
            if rng.random() < .2:
                r["box"] = [0] * 7 if rng.random() < .6 else r["box"]
                if rng.random() < .4:
                    r["box"][rng.choice([3, 4, 5])] = 0
        ps.append(p)
        gs.append(g)
    sane, dp, dg, bp, bg, dims = True, d, d, B, B, 3
    w = rng.random()
    if w < .04:
        dg, sane = rng.choice([x for x in (4, 5, 7) if x != d]), False
    elif w < .08:
        bg, sane = B + 1, False
    elif w < .12:
        c.box_type = rng.choice({4: [1, 2], 5: [1, 3], 7: [3]}[d])
        sane = False
    elif w < .14:
        dims, sane = 2, False

    def tensor(x, bb, n, dd):
        v = [y / 8 for fr in x for r in fr for y in (r["box"][k] for k in DOF[dd])]
        v += [1] * (bb * n * dd - len(v))
        return T("f", [bb, n, dd] if dims == 3 else [bb * n, dd], v)
    i = b.ask(op("Match", c, [tensor(ps, bp, np_, dp), tensor(gs, bg, ng, dg)]))

    def ext(r):
        l, wd, h = r["box"][3:6]
        return [l, wd, h] if c.box_type == 1 else [l, wd]

    def lifted(r):
        q = copy.deepcopy(r)
        q["ty"] = 1
        p = proto(q, d, ())
        p.score = 1
        if d == 7:
            p.object.box.center_z += p.object.box.height / 2
        return p
    lib, subs = [], []
    for p, g in zip(ps, gs):
        sp = [k + 1 for k, r in enumerate(p) if all(x > 0 for x in ext(r))]
        sg = [k + 1 for k, r in enumerate(g) if all(x > 0 for x in ext(r))]
        subs.append([sp, sg])
        if sane:
            lib.append(b.ask("match %s %d %s %d %s" % (D.hx(c), len(sp), " ".join(D.hx(lifted(p[k - 1])) for k in sp), len(sg), " ".join(D.hx(lifted(g[k - 1])) for k in sg))))

    def make(a):
        o = outs(a[i]) if not failed(a[i]) else None
        raw = a[i].get("out")
        e = {"k": "match", "sane": sane, "error": failed(a[i]), "np": np_, "ng": ng, "batches": [], "opd": [], "ogt": [], "oiou": [], "ola": []}
        bad = [a[k] for k in lib if "crash" in a[k]]
        if bad:
            raise Exception("library matcher: %s" % bad[0])
        if sane:
            e["batches"] = [{"p": [ext(r) for r in p], "g": [ext(r) for r in g], "sub": s, "pd": a[k]["pd"], "gt": a[k]["gt"],
                             "iou": [num(x) for x in a[k]["iou"]], "la": [num(x) for x in a[k]["la"]]} for p, g, s, k in zip(ps, gs, subs, lib)]
        if o:
            e["opd"], e["ogt"] = [int(x) for x in raw[0]["v"]], [int(x) for x in raw[1]["v"]]
            e["oiou"], e["ola"] = o[2]["v"], o[3]["v"]
        return e
    b.event(make)


# ---- motion -------------------------------------------------------------------------------
def motion_batch(rng, mc, B, A, M, K, N, masks=None, good=True):
    TG, TP = mc["hist"] + 1 + mc["fut"], mc["fut"] * mc["pps"] // mc["tps"]
    xs = []
    for _ in range(B):
        tr = [ml.track(rng, 0, TG, mc["hist"], typ=rng.choice([1, 1, 2, 3])) for _ in range(A)]
        for t in tr:
            if not masks and rng.random() < .25:
                for s in t["st"]:
                    s[0] = 0
        if masks:
            for t, v in zip(tr, masks["valid"]):
                for n, s in enumerate(t["st"]):
                    s[0] = int(v and (n == mc["hist"] or rng.random() < .8))
        valid = [[bool(s[0]) for s in t["st"]] for t in tr]
        ids = rng.sample([0, 1, 2, 3, 5, 70, 4000, 123456789], A)
        if masks:
            mask, index = masks["mask"], masks["index"]
        else:
            ok = [a for a in range(A) if any(valid[a])] if good else list(range(A))
            rng.shuffle(ok)
            mask, index = [], []
            for m in range(M):
                mask.append([])
                index.append([])
                for n in range(N):
                    if ok and rng.random() < .75:
                        mask[-1].append(True)
                        index[-1].append(ok.pop())
                    else:
                        mask[-1].append(False)
                        index[-1].append(rng.choice([0, 0, A - 1, -1, 99]))
        st = [[(s[1], s[2], s[5], s[6], round(math.atan2(s[4], s[3]) * 1024), s[7], s[8]) for s in t["st"]] for t in tr]

        def guess(a):
            o = rng.choice(ml.OFFS)
            out = []
            for k in range(TP):
                t = min(TG - 1, mc["hist"] + (k + 1) * (mc["tps"] // mc["pps"]))
                s = tr[a]["st"][t] if 0 <= a < A else [0, 0, 0]
                out.append((s[1] + o[0], s[2] + o[1]))
            return out
        pred = [[[guess(index[m][n]) for n in range(N)] for _ in range(K)] for m in range(M)]
        xs.append({"valid": valid, "mask": mask, "index": index, "id": ids, "type": [t["type"] for t in tr], "gt": st,
                   "score": [[rng.randint(0, 64) for _ in range(K)] for _ in range(M)], "pred": pred})
    return xs


def motion_tensors(xs, names, mc, A, M, K, N):
    TG, TP = mc["hist"] + 1 + mc["fut"], mc["fut"] * mc["pps"] // mc["tps"]
    B = len(xs)

    def st(s):
        x, y, l, w, h, vx, vy = s
        return [x / 4, y / 4, l / 4, w / 4, h / 1024, vx / 4, vy / 4]
    return [T("f", [B, M, K, N, TP, 2], [c / 4 for x in xs for m in x["pred"] for k in m for n in k for p in n for c in p]),
            T("f", [B, M, K], [c / 64 for x in xs for m in x["score"] for c in m]),
            T("f", [B, A, TG, 7], [c for x in xs for a in x["gt"] for s in a for c in st(s)]),
            T("b", [B, A, TG], [int(c) for x in xs for a in x["valid"] for c in a]),
            T("l", [B, M, N], [c for x in xs for m in x["index"] for c in m]),
            T("b", [B, M, N], [int(c) for x in xs for m in x["mask"] for c in m]),
            T("l", [B, A], [c for x in xs for c in x["type"]]),
            T("l", [B, A], [c for x in xs for c in x["id"]]),
            T("s", [B], [hexs(n) for n in names])]


def read_scenario(s):
    p = D.module("protos.scenario_pb2").Scenario()
    p.ParseFromString(bytes.fromhex(s["scenario"]))
    q = D.module("protos.motion_metrics_pb2").ScenarioPredictions()
    q.ParseFromString(bytes.fromhex(s["predictions"]))
    tracks = [{"id": t.id, "type": t.object_type,
               "states": [{"v": [round(z.center_x * 4), round(z.center_y * 4), round(z.length * 4), round(z.width * 4), round(z.heading * 1024),
                                 round(z.velocity_x * 4), round(z.velocity_y * 4)], "valid": z.valid} for z in t.states]} for t in p.tracks]
    preds = [[{"score": round(j.confidence * 64), "of": [{"id": t.object_id, "xy": [[round(a * 4), round(b * 4)] for a, b in zip(t.center_x, t.center_y)]}
                                                         for t in j.trajectories]} for j in m.joint_predictions] for m in q.multi_modal_predictions]
    bad = s["id"] != p.scenario_id or s["id"] != q.scenario_id
    return {"tracks": tracks, "required": [r.track_index for r in p.tracks_to_predict], "interest": list(p.objects_of_interest),
            "preds": preds if not bad else ["scenario id"]}


def add_motion(b, rng, masks=None):
    mc = ml.config(rng)
    if masks:
        B, A, M, N, K = 1, len(masks["valid"]), len(masks["mask"]), len(masks["mask"][0]), 1
    else:
        B, A, M, K, N = rng.choice([1, 1, 2, 3]), rng.randint(1, 5), rng.randint(1, 3), rng.randint(1, 3), rng.choice([1, 1, 2])
    xs = motion_batch(rng, mc, B, A, M, K, N, masks, good=rng.random() < .9)
    names = rng.sample(["s", "t", "u", "a b"], B)
    ts = motion_tensors(xs, names, mc, A, M, K, N)
    i = b.ask("parsemotion " + " ".join(ts))
    for n, x in zip(names, xs):
        def make(a, n=n, x=x):
            e = {"k": "scen", "x": x, "crash": "crash" in a[i], "tracks": [], "required": [], "interest": [], "preds": []}
            if "scenarios" in a[i]:
                s = [s for s in a[i]["scenarios"] if s["id"] == n]
                e.update(read_scenario(s[0]) if len(s) == 1 else {"required": [-5]})
            return e
        if B == 1:
            b.event(make)
        elif all(any(v) for y in xs for v in [[any(t) for t in y["valid"]]]):
            b.event(lambda a, make=make: make(a) if "crash" not in a[i] else None)
    if masks:
        return None
    k = b.ask(op("MotionMetrics", ml.config_proto(mc), ts))
    return mc, i, k


def run(ctx):
    rng = ctx.rng
    h = build.cc("h_ops")
    D.pb()
    cs = ctx.model_cases("MC_Batch", 'SPECIFICATION Spec\nCONSTANTS MaxRows = %d\nFs = {2,7}\nSs = {"","q"}\nEmit = TRUE\nPROPERTY OthersUntouched\n'
                         "INVARIANTS Incremental NothingLost InterleavingFree OrderMatters PrintCase\n" % ctx.pick(4, 5), name="grouping rows", workers=8)
    ctx.model("MC_Batch", 'SPECIFICATION Spec\nCONSTANTS MaxRows = %d\nFs = {1,2,3}\nSs = {""}\nEmit = FALSE\nPROPERTY OthersUntouched\n'
              "INVARIANTS Incremental NothingLost InterleavingFree OrderMatters\n" % ctx.pick(6, 8), name="longer batches")
    mm = ctx.model_cases("MC_MotionBatch", "SPECIFICATION Spec\nCONSTANTS A = %d\nM = 2\nN = %d\nEmit = TRUE\n"
                         "INVARIANTS SameTracks SameMap PredictionsKeepTheirAgents AsManyAsAsked PrintCase\n" % ctx.pick((3, 1), (3, 2)), name="motion indices", workers=8)
    b = Batch()
    for c in cs:
        rows = [row(rng, f, s, n) for n, (s, f) in enumerate(c["rows"])]
        add_parse(b, rng, rows, True)
        if rng.random() < .5:
            add_parse(b, rng, rows, False)
    rng.shuffle(cs)
    for c in cs[:ctx.pick(100, 1200)]:
        gr = [row(rng, f, s, n) for n, (s, f) in enumerate(c["rows"])]
        pr = [dict(near(rng, g), id=100 + n) for n, g in enumerate(gr)]
        rng.shuffle(pr)
        add_track(b, rng, copy.deepcopy(pr), copy.deepcopy(gr))
        add_det(b, rng, pr, gr)
    rng.shuffle(mm)
    for m in mm[:ctx.pick(200, 3000)]:
        add_motion(b, rng, m)
    n0 = len(b.events)
    for _ in range(ctx.pick(60, 900)):
        rows = [row(rng, rng.choice([0, -1, 5, 2**40, -2**40 if False else 7]) if False else rng.choice([0, -1, 5, 7, 2000000000]), rng.choice(["", "a", "b", "é"]), k) for k in range(rng.randint(0, 14))]
        add_parse(b, rng, rows, rng.random() < .5)
    for _ in range(ctx.pick(110, 1500)):
        pr, gr = scene(rng, [("", f) for f in rng.sample([0, 1, 2, 9, -4, 1000000], rng.randint(0, 4))])
        if rng.random() < .1:
            pr = []
        elif rng.random() < .1:
            gr = []
        add_det(b, rng, pr, gr)
    states = []
    for _ in range(ctx.pick(70, 900)):
        pr, gr = scene(rng, [("", f) for f in rng.sample([0, 1, 2, 9, -4, 1000000], rng.randint(0, 4))])
        states.append(add_state(b, rng, pr, gr))
    for _ in range(ctx.pick(150, 2000)):
        pr, gr = tracks_scene(rng, rng.sample(["a", "b", "", "seq-FRONT"], rng.randint(1, 3)), 5)
        if rng.random() < .06:
            pr = []
        elif rng.random() < .06:
            gr = []
        if not pr and not gr:
            continue
        add_track(b, rng, pr, gr)
    for _ in range(ctx.pick(250, 3000)):
        add_match(b, rng)
    motions = [add_motion(b, rng) for _ in range(ctx.pick(150, 2000))]
    a = run_parallel(h, b.reqs, timeout=60)
    ctx.log("asked %d" % len(b.reqs))
    events = [e for e in (m(a) for m in b.events) if e]
    # second round: results of states; library results of the parsed scenarios
    b2 = Batch()
    for i, j, w, x, y, c in states:
        st = [a[k]["out"][0] if "out" in a[k] else None for k in (w, x, y)]
        err = failed(a[i], a[j], a[w], a[x], a[y])
        q = b2.ask(op("DetectionMetricsResult", c, [T("f", st[0]["dims"], [repr(v) for v in st[0]["v"]])])) if not err else None
        b2.event(lambda r, i=i, j=j, st=st, err=err, q=q: {
            "k": "state", "error": err or failed(r[q]), "state": scaled(st[0]) if st[0] else {}, "a": scaled(st[1]) if st[1] else {}, "b": scaled(st[2]) if st[2] else {},
            "lib": scaled(a[j]["state"]) if "state" in a[j] else {}, "op": outs(a[i]), "result": outs(r[q]) if q is not None else []})
    for mc, i, k in motions:
        if "scenarios" not in a[i]:
            continue
        sc = sorted(a[i]["scenarios"], key=lambda s: s["id"])
        q = b2.ask("motion %s %d %s" % (D.hx(ml.config_proto(mc)), len(sc), " ".join("%s %s" % (s["scenario"] or "-", s["predictions"] or "-") for s in sc)))

        def make(r, mc=mc, k=k, q=q):
            if "error" in r[q]:  # not a valid submission: the op must not answer
                return None if "crash" in a[k] else {"k": "motion", "error": "answers an invalid submission"}
            return {"k": "motion", "error": failed(a[k], r[q]), "steps": [s["step"] for s in mc["steps"]], "op": outs(a[k]),
                    "bundles": [dict(x, v=[num(v) for v in x["v"]]) for x in r[q].get("bundles", [])], "_e": a[k]}
        b2.event(make)
    events += [e for e in b2.run(h) if e]
    kinds = {}
    for e in events:
        kinds[e["k"]] = kinds.get(e["k"], 0) + 1
    ctx.log(kinds)
    ctx.validate("TraceBatch", [[dict(e, _w=1 + len(str(e)) // 500)] for e in events], "batches", samples=len(b.events) - n0)
