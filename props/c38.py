"""C38: keypoints of objects, their metrics and their matching."""
import importlib
import math

from vlib.pyrun import guarded
from . import detlib as D
from . import tfs

CS = [(5, 0), (0, 5), (-5, 0), (0, -5), (4, 3), (-3, 4), (-4, -3), (3, -4)]
_M = {}


def mods():
    if not _M:
        tfs.install()
        D.pb()
        imp = importlib.import_module
        _M["d"] = imp("waymo_open_dataset.utils.keypoint_data")
        _M["m"] = imp("waymo_open_dataset.metrics.python.keypoint_metrics")
        _M["ds"] = D.module("dataset_pb2")
        _M["label"] = D.module("label_pb2")
        _M["kp"] = D.module("protos.keypoint_pb2")
        _M["box"] = D.module("protos.box_pb2")
        import numpy
        import tensorflow
        _M["np"], _M["tf"] = numpy, tensorflow
        _M["types"] = [v for v in _M["kp"].KeypointType.values() if v]
    return _M


def kps(rows):
    np, tf = _M["np"], _M["tf"]
    loc = np.array([[k["p"] for k in r] for r in rows], dtype=np.float64) / 100
    return _M["d"].KeypointsTensors(location=tf.constant(loc.astype(np.float32)), visibility=tf.constant(np.array([[k["v"] for k in r] for r in rows], dtype=np.int32)))


def boxes(bs, heading=True):
    np, tf = _M["np"], _M["tf"]
    f = lambda k: tf.constant((np.array([b[k] for b in bs], dtype=np.float64) / 100).astype(np.float32))
    h = tf.constant(np.array([math.atan2(b["h"][1], b["h"][0]) for b in bs], dtype=np.float32)) if heading else None
    return _M["d"].BoundingBoxTensors(center=f("c"), size=f("s"), heading=h)


def sc(v, k):
    v = float(tfs.N(v))
    return int(math.floor(v * k + .5)) if math.isfinite(v) else 10 ** 8


def chunks(c):
    out, i = [], 0
    for n in c["sizes"]:
        out.append(c["os"][i:i + n])
        i += n
    return out


def feed(m, c, weights=True):
    np, tf = _M["np"], _M["tf"]
    for os in chunks(c):
        w = tf.constant(np.array([o["w"] for o in os], dtype=np.float32)) if weights and c["weigh"] else None
        m.update_state((kps([o["gt"] for o in os]), kps([o["pr"] for o in os]), boxes([o["box"] for o in os], c["heading"])), sample_weight=w)
    return m.result()


def case_measure(c):
    m = _M["m"]
    e = {"t": "measure", "os": c["os"], "pen": c["pen"], "prec": -1, "rec": -1, "ended": ""}
    e["mpjpe"] = sc(feed(m.MeanPerJointPositionError(name="a"), c)["a"], 1000)
    e["pem"] = sc(feed(m.PoseEstimationMetric(mismatch_penalty=c["pen"] / 1000, name="b"), c)["b"], 1000)
    if not c["weigh"]:
        e["prec"] = sc(feed(m.KeypointVisibilityPrecision(name="p"), c)["p"], 10000)
        e["rec"] = sc(feed(m.KeypointVisibilityRecall(name="r"), c)["r"], 10000)
    return [e]


def case_combined(c):
    m, ty = _M["m"], _M["types"]
    order = [ty[i] for i in c["order"]]
    subsets = {n: tuple(order[k - 1] for k in v) for n, v in c["subsets"].items()}
    cfg = m.CombinedMetricsConfig(src_order=order, subsets=subsets, per_type_scales={t: s / 10 for t, s in zip(order, c["ts"])},
                                  oks_thresholds=[x / 10 for x in c["oks"]], pck_thresholds=[x / 10 for x in c["pck"]])
    r = feed(m.create_combined_metric(cfg), c)
    subs = []
    names = set()
    for n, v in c["subsets"].items():
        pk, ok = ["PCK/%s @ %.2f" % (n, x / 10) for x in c["pck"]], ["OKS/%s P @ %.2f" % (n, x / 10) for x in c["oks"]]
        subs.append({"types": v, "mpjpe": sc(r["MPJPE/" + n], 1000), "pck": [[x, sc(r[k], 10000)] for x, k in zip(c["pck"], pk)],
                     "oks": [[x, sc(r[k], 10000)] for x, k in zip(c["oks"], ok)], "ap": sc(r["OKS/%s AP" % n], 10000) if len(c["sizes"]) == 1 else -1})
        names |= {"MPJPE/" + n, "OKS/%s AP" % n} | set(pk) | set(ok)
    return [{"t": "combined", "os": c["os"], "ts": c["ts"], "subsets": subs, "ended": ""},
            {"t": "pairs", "pairs": [["measures of all subsets and no others", sorted(names), sorted(r)]], "ended": ""}]


def case_oks(c):
    m, d = _M["m"], _M["d"]
    ts = [x / 10 for x in c["ts"]]
    g, p, b = kps([o["gt"] for o in c["os"]]), kps([o["pr"] for o in c["os"]]), boxes([o["box"] for o in c["os"]], c["heading"])
    if c["single"]:
        un = lambda k: d.KeypointsTensors(location=k.location[0], visibility=k.visibility[0])
        got = [m.object_keypoint_similarity(un(g), un(p), d.BoundingBoxTensors(center=b.center[0], size=b.size[0], heading=None if b.heading is None else b.heading[0]), ts)]
    else:
        got = list(tfs.N(m.object_keypoint_similarity(g, p, b, ts)))
    out = [{"t": "oks", "os": c["os"], "ts": c["ts"], "got": [sc(x, 10000) for x in got], "ended": ""}]
    if not c["single"]:
        loc = g.location
        sh = tfs.N(m.box_displacement(loc, b))
        for i, o in enumerate(c["os"]):
            for k, q in enumerate(o["gt"]):
                out.append({"t": "shift", "box": o["box"], "p": q["p"], "got": [sc(x, 1000) for x in sh[i, k]], "ended": ""})
    return out


def pose(objs, box=True):
    return _M["d"].PoseEstimationTensors(keypoints=kps([o["k"] for o in objs]), box=boxes([o["box"] for o in objs]) if box else None)


def case_match(c):
    m, np, tf, d = _M["m"], _M["np"], _M["tf"], _M["d"]
    n = len(c["gs"][0]["k"])
    pr = pose(c["ps"], False) if c["ps"] else d.PoseEstimationTensors(keypoints=d.KeypointsTensors(location=tf.zeros([0, n, 3]), visibility=tf.zeros([0, n], dtype=tf.int32)))
    r = m.create_matcher(m.MeanErrorMatcherConfig(max_closest_keypoint_distance=c["far"] / 1000)).matching_ids(m.PoseEstimationPair(gt=pose(c["gs"]), pr=pr))
    return [{"t": "match", "gs": c["gs"], "ps": c["ps"], "far": c["far"], "got": [[int(a) + 1, int(b) + 1] for a, b in zip(tfs.N(r.gt), tfs.N(r.pr))], "ended": ""}]


def case_lined(c):
    m, np, tf, d = _M["m"], _M["np"], _M["tf"], _M["d"]

    class Fixed(m.BaseMatcher):
        def matching_ids(self, pose):
            return m.MatchingIdsPairs(gt=tf.constant(np.array([q[0] - 1 for q in c["m"]], dtype=np.int32)), pr=tf.constant(np.array([q[1] - 1 for q in c["m"]], dtype=np.int32)))

    def side(vis, sign, box):
        objs = [{"k": [{"p": [sign * (i + 1), k + 1, 7], "v": v} for k, v in enumerate(r)], "box": {"c": [sign * (i + 1), 2, 3], "s": [i + 1, i + 2, 5], "h": CS[i % 8]}} for i, r in enumerate(vis)]
        return pose(objs, box)

    r = Fixed().reorder(m.PoseEstimationPair(gt=side(c["gv"], 1, True), pr=side(c["pv"], -1, c["pbox"])))
    ids, odd = [], []
    for t, vis, sign, box in ((r.gt, c["gv"], 1, True), (r.pr, c["pv"], -1, c["pbox"])):
        loc, v = tfs.N(t.keypoints.location), tfs.N(t.keypoints.visibility)
        row = []
        for k in range(len(loc)):
            i = int(round(float(loc[k, 0, 0]) * 100 * sign))
            row.append(i)
            want = [0] * len(vis[0]) if i == 0 else vis[i - 1]
            if [int(x) for x in v[k]] != want:
                odd.append("visibility of %d" % i)
            if any(round(float(loc[k, n, 1]) * 100) != (0 if i == 0 else n + 1) for n in range(len(want))):
                odd.append("points of %d" % i)
            if box and [round(float(x) * 100) for x in tfs.N(t.box.size)[k]] != ([0, 0, 0] if i == 0 else [i, i + 1, 5]):
                odd.append("box of %d" % i)
            if box and round(float(tfs.N(t.box.center)[k, 0]) * 100) != i * sign:
                odd.append("centre of %d" % i)
        ids.append(row)
    got = [list(q) for q in zip(*ids)] if len(ids[0]) == len(ids[1]) else []
    has = lambda vs: [i + 1 for i, r in enumerate(vs) if 2 in r]
    return [{"t": "lined", "vg": has(c["gv"]), "vp": has(c["pv"]), "m": c["m"], "got": got, "ended": ""},
            {"t": "pairs", "pairs": [["objects in line come with their points and boxes", [], odd], ["as many labels as predictions", len(ids[0]), len(ids[1])]], "ended": ""}]


def laser_points(ks):
    K = _M["kp"]
    r = K.LaserKeypoints()
    for k in ks:
        q = r.keypoint.add(type=k["type"])
        q.keypoint_3d.location_m.x, q.keypoint_3d.location_m.y, q.keypoint_3d.location_m.z = k["p"]
        if k["hid"] or k["say"]:
            q.keypoint_3d.visibility.is_occluded = k["hid"]
    return r


def label_box(b):
    return _M["label"].Label.Box(center_x=b[0], center_y=b[1], center_z=b[2], length=b[3], width=b[4], height=b[5], heading=b[6])


def case_tensors(c):
    np, d, L = _M["np"], _M["d"], _M["label"]
    f = _M["ds"].Frame()
    poses = []
    for i, p in enumerate(c["poses"]):
        kw = dict(object_type=L.Label.TYPE_PEDESTRIAN if hasattr(L.Label, "TYPE_PEDESTRIAN") else 2, keypoints=laser_points(p["ks"]), box=label_box(p["box"]))
        poses.append(d.PoseLabel(**kw))
    skip = d.PoseLabel(object_type=2, box=label_box([9] * 7), keypoints=None)
    if c["hole"]:
        poses.insert(c["hole"] - 1, skip)
    r = d.create_pose_estimation_tensors(poses, np.array(c["def"]), c["order"])
    loc, vis = tfs.N(r.keypoints.location), tfs.N(r.keypoints.visibility)
    got = []
    for i in range(len(loc)):
        b = [int(x) for x in list(tfs.N(r.box.center)[i]) + list(tfs.N(r.box.size)[i]) + [tfs.N(r.box.heading)[i]]]
        got.append({"k": [{"p": [int(x) for x in loc[i, k]], "v": int(vis[i, k])} for k in range(loc.shape[1])], "box": b, "seen": bool(tfs.N(r.keypoints.has_visible)[i])})
    out = [{"t": "tensors", "poses": c["poses"], "order": c["order"], "def": c["def"], "got": got, "ended": ""}]
    pairs = []
    b3 = _M["box"].Box3d()
    b = c["box"]
    b3.center.x, b3.center.y, b3.center.z, b3.size.x, b3.size.y, b3.size.z, b3.heading = b
    x = d.label_box_from_box_proto(b3)
    pairs.append(["a box is the same in the other form", b, [int(v) for v in (x.center_x, x.center_y, x.center_z, x.length, x.width, x.height, x.heading)]])
    ks = c["poses"][0]["ks"] if c["poses"] else []
    K = _M["kp"]
    cam = []
    for k in ks:
        q = K.CameraKeypoint(type=k["type"])
        q.keypoint_2d.location_px.x, q.keypoint_2d.location_px.y = k["p"][:2]
        q.keypoint_2d.visibility.is_occluded = k["hid"]
        cam.append(q)
    t2 = d.create_camera_keypoints_tensors(cam, np.array(c["def"][:2]), c["order"])
    t3 = d.create_laser_keypoints_tensors(laser_points(ks).keypoint, np.array(c["def"]), c["order"])
    row = lambda t: [[[int(x) for x in p[:2]], int(v)] for p, v in zip(tfs.N(t.location), tfs.N(t.visibility))]
    if c["order"]:
        pairs.append(["points of cameras as those of lasers", row(t3), row(t2)])
    bc = d.create_camera_box_tensors(label_box(b))
    pairs.append(["boxes of cameras", b[:2] + b[3:5], [int(x) for x in list(tfs.N(bc.center)) + list(tfs.N(bc.size))]])
    lo, hi = tfs.N(bc.min_corner), tfs.N(bc.max_corner)
    pairs.append(["corners of boxes", [2 * b[0] - b[3], 2 * b[1] - b[4], 2 * b[0] + b[3], 2 * b[1] + b[4]], [int(round(2 * float(x))) for x in list(lo) + list(hi)]])
    return out + [{"t": "pairs", "pairs": pairs, "ended": ""}]


def case_group(c):
    d = _M["d"]
    f = _M["ds"].Frame()
    for r in c["laser"]:
        l = f.laser_labels.add(id=r["id"], type=2)
        l.box.center_x = r["tag"]
    by = {}
    for r in c["cam"]:
        if r["cam"] not in by or r["split"]:
            by[r["cam"]] = f.camera_labels.add(name=r["cam"])
        l = by[r["cam"]].labels.add(id="x%d" % r["tag"])
        l.box.center_x = r["tag"]
        if r["of"]:
            l.association.laser_object_id = r["of"]
    g = d.group_object_labels(f)
    got = [{"id": k, "tag": int(v.laser.box.center_x), "cams": [[int(n), int(x.box.center_x)] for n, x in (v.camera or {}).items()]} for k, v in g.items()]
    return [{"t": "group", "laser": c["laser"], "cam": [{k: r[k] for k in ("of", "cam", "tag")} for r in c["cam"]], "got": got, "ended": ""}]


DO = {"measure": case_measure, "combined": case_combined, "oks": case_oks, "match": case_match, "lined": case_lined, "tensors": case_tensors, "group": case_group}


def one(c):
    try:
        return DO[c["t"]](c)
    except tfs.NotModelled:
        return []


SIDES = {3: [(1, 1, 1), (1, 2, 4), (4, 1, 2), (1, 3, 9), (9, 3, 1), (2, 1, 4)], 2: [(1, 1), (1, 4), (4, 1), (1, 9), (4, 9)]}


def rand_objs(rng, dims, n, points, heading, scales=None, near=False):
    out = []
    for _ in range(n):
        u = rng.choice([10, 20, 25, 30]) if dims == 3 else rng.choice([5, 10, 30])
        side = rng.choice(SIDES[dims])
        s = [u * x for x in side]
        scale = round(math.prod(s) ** (1 / dims))
        c = [rng.randint(-300, 300) for _ in range(dims)]
        h = rng.choice(CS) if heading else CS[0]
        pv = rng.choice([.9, .5, .1, 0])
        reach = rng.choice([.3, 1, 3]) * scale
        gt, pr = [], []
        for k in range(points):
            g = [a + int(rng.uniform(-1, 1) * b) for a, b in zip(c, s)]
            p = [a + int(rng.uniform(-1, 1) * reach) for a in g] if rng.random() < .9 else list(g)
            if rng.random() < .2:
                p = [a + int(rng.uniform(-3, 3) * b) for a, b in zip(c, s)]
            gt.append({"p": g, "v": rng.choice([1, 2, 2]) if rng.random() < pv else 0})
            pr.append({"p": p, "v": rng.choice([0, 1, 2, 2])})
        out.append({"gt": gt, "pr": pr, "box": {"c": c, "s": s, "h": list(h)}, "scale": scale, "w": 1})
    return out


def rand_measure(rng):
    dims = rng.choice([2, 3])
    sizes = [rng.randint(1, 3) for _ in range(rng.choice([1, 1, 2, 3]))]
    heading = dims == 3
    os = rand_objs(rng, dims, sum(sizes), rng.choice([1, 3, 4]), heading)
    c = {"t": "measure", "os": os, "sizes": sizes, "heading": heading, "weigh": rng.random() < .4, "pen": rng.choice([250, 100, 1000])}
    if c["weigh"]:
        for o in os:
            o["w"] = rng.choice([0, 1, 2, 3])
    return c


def rand_combined(rng):
    c = dict(rand_measure(rng), t="combined", weigh=False)
    for o in c["os"]:
        o["w"] = 1
    n = len(c["os"][0]["gt"])
    c["order"] = rng.sample(range(15), n)
    c["ts"] = [rng.randint(1, 5) for _ in range(n)]
    c["subsets"] = {"ALL": list(range(1, n + 1)), "SOME": rng.sample(range(1, n + 1), rng.randint(1, n))}
    if rng.random() < .4:
        c["subsets"]["MORE"] = rng.sample(range(1, n + 1), rng.randint(1, n))
    c["pck"] = sorted(rng.sample([1, 3, 5, 10, 20], 2))
    c["oks"] = sorted(rng.sample([1, 3, 5, 7, 9], rng.choice([1, 2, 3])))
    return c


def rand_oks(rng):
    dims = rng.choice([2, 3, 3])
    heading = dims == 3
    single = rng.random() < .3
    n = rng.choice([1, 3, 4])
    return {"t": "oks", "os": rand_objs(rng, dims, 1 if single else rng.randint(1, 3), n, heading), "ts": [rng.randint(1, 5) for _ in range(n)], "heading": heading, "single": single}


def rand_match(rng):
    n = rng.choice([2, 3, 4])
    ng, np_ = rng.randint(1, 3), rng.randint(0, 3)
    far = rng.choice([250, 250, 400])
    gs = []
    at = [0, 0, 0]
    for _ in range(ng):
        at = [at[0] + rng.choice([0, 20, 50, -40]), at[1] + rng.choice([0, 15, 40, -40]), rng.choice([0, 0, 10])]
        pv = rng.choice([0, 0, .6, 1])
        s = [rng.choice([20, 40, 90]), rng.choice([20, 40]), rng.choice([30, 60])]
        k = [{"p": [a + int(rng.uniform(-.6, .6) * b) for a, b in zip(at, s)], "v": 2 if rng.random() < pv else rng.choice([0, 1])} for _ in range(n)]
        gs.append({"box": {"c": list(at), "s": s, "h": list(rng.choice(CS))}, "k": k})
    ps = []
    for _ in range(np_):
        g = rng.choice(gs)
        pv = rng.choice([.5, .9, 1])
        j = rng.choice([3, 12, 25])
        off = rng.choice([0, 0, 30])
        ps.append({"k": [{"p": [a + rng.randint(-j, j) + off for a in q["p"]], "v": 2 if rng.random() < pv else rng.choice([0, 0, 1])} for q in g["k"]]})
    return {"t": "match", "gs": gs, "ps": ps, "far": far}


def rand_lined(rng):
    n = rng.choice([1, 2, 3])
    ng, np_ = rng.randint(1, 5), rng.randint(1, 5)
    row = lambda: rng.choice([[rng.choice([0, 1, 2]) for _ in range(n)], [rng.choice([0, 1]) for _ in range(n)]])
    k = rng.randint(0, min(ng, np_))
    m = [list(q) for q in zip(rng.sample(range(1, ng + 1), k), rng.sample(range(1, np_ + 1), k))]
    return {"t": "lined", "gv": [row() for _ in range(ng)], "pv": [row() for _ in range(np_)], "m": m, "pbox": rng.random() < .5}


def rand_tensors(rng):
    ty = _M["types"]
    P = lambda: [rng.randint(-99, 99) for _ in range(3)]
    pool = rng.sample(ty, rng.randint(2, 6))
    poses = [{"ks": [{"type": rng.choice(pool), "p": P(), "hid": rng.random() < .3, "say": rng.random() < .5} for _ in range(rng.choice([0, 1, 3, 5]))], "box": [rng.randint(1, 99) for _ in range(7)]} for _ in range(rng.choice([0, 1, 2, 4]))]
    return {"t": "tensors", "poses": poses, "order": rng.sample(ty, rng.randint(1, 5)) if rng.random() < .3 else rng.sample(pool, rng.randint(1, len(pool))), "def": P(), "hole": rng.choice([0, 0, 1]), "box": [rng.randint(1, 99) for _ in range(7)]}


def rand_group(rng):
    ids = ["a", "b", "c", "d"]
    laser = [{"id": i, "tag": 10 + n} for n, i in enumerate(rng.sample(ids[:3], rng.randint(0, 3)) + ([rng.choice(ids[:3])] if rng.random() < .2 else []))]
    cam = [{"of": rng.choice(ids + [""]), "cam": rng.randint(1, 3), "tag": 50 + n, "split": rng.random() < .3} for n in range(rng.randint(0, 6))]
    return {"t": "group", "laser": laser, "cam": cam}


CFG = """SPECIFICATION Spec
CONSTANTS Places = {%s}
GtV = {%s}
PrV = {%s}
Preds = 2
Emit = TRUE
INVARIANTS Answer Counted Claimed Helps Right Falls PrintCase
"""


def run(ctx):
    rng = ctx.rng
    mods()
    cs = ctx.model_cases("MC_Keypoints", CFG % (ctx.pick("0, 4, 33", "0, 4, 20, 33, 62"), ctx.pick("1, 2, 3, 4", "1, 2, 3, 4, 5"), ctx.pick("1, 2, 4", "1, 2, 3, 4")), name="two objects and what is predicted of them")
    rng.shuffle(cs)
    cases = []
    for c in cs[:ctx.pick(900, 20000)]:
        cases.append(dict(c, t="match", far=250))
    n = ctx.pick(1, 12)
    for f, k in ((rand_measure, 300), (rand_combined, 150), (rand_oks, 250), (rand_match, 700), (rand_lined, 300), (rand_tensors, 250), (rand_group, 150)):
        cases += [f(rng) for _ in range(k * n)]
    events, skipped = [], 0
    for c, r in zip(cases, guarded(one, cases, timeout=60)):
        if "ok" in r:
            events += r["ok"]
            skipped += not r["ok"]
        else:
            events.append({"t": c["t"], "ended": r["exc"] + ": " + r["msg"][:100], "_case": c})
    ctx.log("%d events, %d cases use operations not stood in for" % (len(events), skipped))
    rng.shuffle(events)
    ctx.validate("TraceKeypoints", [events[i:i + 60] for i in range(0, len(events), 60)], "keypoints", samples=len(events))
