"""C37: range images of lidars and point clouds."""
import importlib
import math
import zlib

from vlib.pyrun import guarded
from . import detlib as D
from . import tfs
from . import v2stub

CS = [(5, 0), (0, 5), (-5, 0), (0, -5), (4, 3), (-3, 4), (-4, -3), (3, -4)]
R2M = 0.00585532144
_M = {}


def mods():
    if not _M:
        tfs.install()
        D.pb()
        v2stub.load("component")
        imp = importlib.import_module
        _M["ri"] = imp("waymo_open_dataset.utils.range_image_utils")
        _M["fu"] = imp("waymo_open_dataset.utils.frame_utils")
        _M["lu"] = v2stub.load("perception.utils.lidar_utils")
        _M["xl"] = v2stub.load("perception.compat_v1.lidar")
        _M["xc"] = v2stub.load("perception.compat_v1.context")
        _M["xp"] = v2stub.load("perception.compat_v1.pose")
        _M["xi"] = v2stub.load("perception.compat_v1.interfaces")
        _M["wl"] = imp("waymo_open_dataset.utils.womd_lidar_utils")
        _M["de"] = imp("waymo_open_dataset.utils.compression.delta_encoder")
        _M["cl"] = D.module("protos.compressed_lidar_pb2")
        _M["sc"] = D.module("protos.scenario_pb2")
        _M["pb"] = D.module("dataset_pb2")
        import numpy
        import tensorflow
        _M["np"], _M["tf"] = numpy, tensorflow
    return _M


def ang(a):
    return math.atan2(a[1], a[0])


def matrix(q):
    """the 4 x 4 matrix of a pose"""
    np = _M["np"]
    (cy, sy), (cp, sp), (cr, sr) = [(a / 5, b / 5) for a, b in (q["y"], q["p"], q["r"])]
    z = np.array([[cy, -sy, 0], [sy, cy, 0], [0, 0, 1]])
    y = np.array([[cp, 0, sp], [0, 1, 0], [-sp, 0, cp]])
    x = np.array([[1, 0, 0], [0, cr, -sr], [0, sr, cr]])
    m = np.eye(4)
    m[:3, :3] = z @ y @ x
    m[:3, 3] = [v / 10000 for v in q["t"]]
    return m


def to_vehicle(q, p):
    """integer metres in the frame of q to ticks (exact)"""
    x, y, z = p
    (cy, sy), (cp, sp), (cr, sr) = q["y"], q["p"], q["r"]
    x, y, z = 5 * x, cr * y - sr * z, sr * y + cr * z
    x, y, z = cp * x + sp * z, 5 * y, -sp * x + cp * z
    x, y, z = cy * x - sy * y, sy * x + cy * y, 5 * z
    return [v * 80 + t for v, t in zip((x, y, z), q["t"])]


def f32(a):
    return _M["tf"].constant(_M["np"].array(a, dtype=_M["np"].float32))


def mm(a, k=1000):
    """numbers to integers, nested"""
    if isinstance(a, (list, tuple)):
        return [mm(x, k) for x in a]
    x = float(a) * k
    return int(round(x)) if abs(x) < 1e9 else 1000000007


def pack(cls, data, dims):
    m = cls(data=data)
    m.shape.dims.extend(dims)
    return zlib.compress(m.SerializeToString())


def frame_of(c):
    """the frame, with the first return of each laser, and a second one of the given returns"""
    pb = _M["pb"]
    f = pb.Frame()
    f.context.name = "c"
    f.timestamp_micros = 7
    f.pose.transform.extend(matrix(c["veh"]).reshape(-1).tolist())
    flat = lambda g: [v for row in g for p in row for v in p]
    for x in c["cals"]:
        k = f.context.laser_calibrations.add(name=x["name"])
        k.extrinsic.transform.extend(matrix(x["q"]).reshape(-1).tolist())
        inc = [math.pi / 12 * v for v in x["incls"]]
        if x["span"]:
            step = inc[1] - inc[0]
            k.beam_inclination_min, k.beam_inclination_max = inc[0] - step / 2, inc[-1] + step / 2
        else:
            k.beam_inclinations.extend(inc)
    for x in c["lasers"]:
        L = f.lasers.add(name=x["name"])
        h, w = len(x["incls"]), x["w"]
        for r, ret in enumerate(x["returns"]):
            o = L.ri_return1 if r == 0 else L.ri_return2
            data = [v for i in range(h) for j in range(w) for v in (ret["ranges"][i][j], ret["feats"][i][j][0], ret["feats"][i][j][1], -1)]
            o.range_image_compressed = pack(pb.MatrixFloat, data, [h, w, 4])
            o.camera_projection_compressed = pack(pb.MatrixInt32, flat(ret["cps"]), [h, w, 6])
            if ret["seg"]:
                o.segmentation_label_compressed = pack(pb.MatrixInt32, flat(ret["seg"]), [h, w, 2])
            if r == 0 and x["name"] == 1:
                o.range_image_pose_compressed = pack(pb.MatrixFloat, [v for row in c["top"] for q in row for v in (ang(q["r"]), ang(q["p"]), ang(q["y"]), *(t / 10000 for t in q["t"]))], [h, w, 6])
    return f


def told(a):
    return tfs.N(a).tolist()


def case_womd(c):
    """the lidars as scenarios have them: delta encoded, both returns at once"""
    M, np = _M, _M["np"]
    f = frame_of(c)
    events, s, both = [], M["sc"].Scenario(scenario_id="x"), []
    for _ in range(c["had"]):
        s.compressed_frame_laser_data.add().pose.transform.append(1)
    d = M["sc"].Scenario()
    fl = d.compressed_frame_laser_data.add()
    fl.pose.transform.append(2)
    for x in c["lasers"]:
        L = fl.lasers.add(name=x["name"])
        for r, o in zip(x["returns"], (L.ri_return1, L.ri_return2)):
            o.range_image_delta_compressed = M["de"].compress(np.array([[[a, b[0], b[1], -1] for a, b in zip(u, v)] for u, v in zip(r["ranges"], r["feats"])], dtype=float), [1.0, 1.0, 1.0, 1.0] if c["each"] else .5)
        if x["name"] == 1:
            L.ri_return1.range_image_pose_delta_compressed = M["de"].compress(np.array([[[ang(q["r"]), ang(q["p"]), ang(q["y"])] + [t / 10000 for t in q["t"]] for q in row] for row in c["top"]]), [1e-6] * 3 + [1e-4] * 3)
    a = M["wl"].augment_womd_scenario_with_lidar_points(s, d)
    pairs = [["lidar data after what there is", [1] * c["had"] + [2], [int(z.pose.transform[0]) for z in a.compressed_frame_laser_data]],
             ["the scenario given is left alone", [c["had"], 1, "x"], [len(s.compressed_frame_laser_data), len(d.compressed_frame_laser_data), a.scenario_id]]]
    got = [[], []]
    for x, L in zip(c["lasers"], a.compressed_frame_laser_data[-1].lasers):
        cal = next(k for k in f.context.laser_calibrations if k.name == L.name)
        if L.name == 1:
            r = M["wl"].extract_top_lidar_points(L, M["tf"].constant(matrix(c["veh"])) if c["each"] else matrix(c["veh"]), cal)
        else:
            r = M["wl"].extract_side_lidar_points(L, cal)
        for i in range(2):
            got[i].append({"name": L.name, "pts": mm(told(r[2 * i])), "feats": mm(told(r[2 * i + 1]))})
    for i in range(2):
        lasers = [dict({k: x[k] for k in ("name", "w", "incls", "q")}, **{k: x["returns"][i][k] for k in ("ranges", "feats")}) for x in c["lasers"]]
        events.append({"t": "cloud", "lasers": lasers, "top": c["top"], "veh": c["veh"], "got": got[i], "ended": ""})
    return events + [{"t": "pairs", "pairs": pairs, "ended": ""}]


def case_cart(c):
    M = _M
    if c["api"] == "womd":
        return case_womd(c)
    f = frame_of(c)
    ri = c["ri"]
    lasers = [dict({k: x[k] for k in ("name", "w", "incls", "q")}, **{k: x["returns"][ri][k] for k in ("ranges", "feats", "cps")}) for x in c["lasers"]]
    e = dict(t="cart", lasers=lasers, top=c["top"], veh=c["veh"], keep=c["keep"], clouds=True, withcps=True, sorted=c["api"] == "v1", got=[], ended="")
    kw = {"keep_polar_features": c["keep"]} if c["keep"] or c["ri"] else {}
    events = [e]
    if c["api"] == "v1":
        ris, cps, segs, top = M["fu"].parse_range_image_and_camera_projection(f)
        cart = M["fu"].convert_range_image_to_cartesian(f, ris, top, ri, **kw)
        pts, cpp = M["fu"].convert_range_image_to_point_cloud(f, ris, cps, top, ri, **kw)
        names = sorted(cart)
        e["got"] = [{"name": n, "cart": mm(told(cart[n])), "pts": mm(p.tolist()), "cps": q.tolist()} for n, p, q in zip(names, pts, cpp)]
        if len(pts) != len(names):
            e["ended"] = "clouds of %d lidars" % len(pts)
        fl = lambda g: [v for row in g for p in row for v in p]
        pairs = []
        for x in c["lasers"]:
            h, w = len(x["incls"]), x["w"]
            want = [[int(v) for v in fl(r["seg"])] for r in x["returns"] if r["seg"]]
            pairs.append(["segmentation labels parsed", want, [list(m.data) for m in segs.get(x["name"], [])]])
            pairs.append(["range images parsed", [[r["ranges"][i][j] for i in range(h) for j in range(w)] for r in x["returns"]], [[int(v) for v in list(m.data)[::4]] for m in ris[x["name"]]]])
            pairs.append(["projections parsed", [fl(r["cps"]) for r in x["returns"]], [list(m.data) for m in cps[x["name"]]]])
        events.append({"t": "pairs", "pairs": pairs, "ended": ""})
    elif c["api"] == "dict":
        d = M["fu"].convert_frame_to_dict(f)
        e.update(keep=True, clouds=False, withcps=False)
        NAMES = {1: "TOP", 2: "FRONT", 3: "SIDE_LEFT", 4: "SIDE_RIGHT", 5: "REAR"}
        R = ["FIRST", "SECOND"][ri]
        e["got"] = [{"name": x["name"], "cart": mm(d["%s_RANGE_IMAGE_%s_RETURN" % (NAMES[x["name"]], R)].tolist()), "pts": [], "cps": []} for x in c["lasers"]]
        pairs = [["pose", mm(matrix(c["veh"]).tolist()), mm(d["POSE"].tolist())], ["timestamp", 7, int(d["TIMESTAMP"])]]
        for x in c["lasers"]:
            n = NAMES[x["name"]]
            pairs.append(["extrinsic", mm(matrix(x["q"]).tolist()), mm(d[n + "_LIDAR_EXTRINSIC"].tolist())])
            pairs.append(["inclinations", mm([math.pi / 12 * v for v in x["incls"]], 100), mm(d[n + "_BEAM_INCLINATION"].tolist(), 100)])
            pairs.append(["projections", x["returns"][ri]["cps"], d["%s_CAM_PROJ_%s_RETURN" % (n, R)].tolist()])
        pairs.append(["pixel poses", [[[mm(ang(q["r"]), 100), mm(ang(q["p"]), 100), mm(ang(q["y"]), 100), *(mm(t / 10000) for t in q["t"])] for q in row] for row in c["top"]],
                      [[mm(list(p[:3]), 100) + mm(list(p[3:])) for p in row] for row in d["TOP_RANGE_IMAGE_POSE"].tolist()]])
        events.append({"t": "pairs", "pairs": pairs, "ended": ""})
    else:
        pose = next(iter(M["xp"].VehiclePoseFrameExtractor()(M["xi"].FrameComponentSrc(frame=f))))
        for L in f.lasers:
            cal = next(k for k in f.context.laser_calibrations if k.name == L.name)
            src = M["xi"].LiDARComponentSrc(frame=f, laser=L)
            comp = next(iter(M["xl"].LiDARComponentExtractor()(src)))
            cpc = next(iter(M["xl"].LiDARCameraProjectionComponentExtractor()(src)))
            k2 = next(iter(M["xc"].LiDARCalibrationComponentExtractor()(M["xi"].LiDARCalibrationComponentSrc(frame=f, lidar_calibration=cal))))
            kw2 = dict(kw)
            if L.name == 1:
                kw2.update(pixel_pose=next(iter(M["xl"].LiDARPoseComponentExtractor()(src))).range_image_return1, frame_pose=pose)
            img = comp.range_image_returns[ri]
            cart = M["lu"].convert_range_image_to_cartesian(img, k2, **kw2)
            pts = M["lu"].convert_range_image_to_point_cloud(img, k2, **kw2)
            q = M["lu"].extract_pointwise_camera_projection(img, cpc.range_image_returns[ri])
            e["got"].append({"name": L.name, "cart": mm(told(cart)), "pts": mm(told(pts)), "cps": mm(told(q), 1)})
    return events


KINDS = {1: [0.2], 2: [.4, -.4], 3: [math.pi / 2, 0, -math.pi / 2], 4: [3 * math.pi / 8, math.pi / 8, -math.pi / 8, -3 * math.pi / 8]}


def case_build(c):
    tf, np = _M["tf"], _M["np"]
    B = len(c["batch"])
    n = max(len(b["pts"]) for b in c["batch"])
    pad = lambda g, z: g + [z] * (n - len(g))
    args = dict(points_vehicle_frame=f32([pad([[v / 10000 for v in p] for p in b["pts"]], [c["fill"]] * 3) for b in c["batch"]]), num_points=tf.constant([b["num"] for b in c["batch"]], dtype=tf.int32),
                extrinsic=f32([matrix(b["q"]) for b in c["batch"]]), inclination=f32([KINDS[c["h"]]] * B), range_image_size=[c["h"], c["w"]])
    if c["withfeats"]:
        args["point_features"] = f32([pad([[a / 2, (b + .5) * R2M] for a, b in x["feats"]], [0, 0]) for x in c["batch"]])
    img, idx, far = _M["ri"].build_range_image_from_point_cloud(**args)
    img, idx, far = told(img), told(idx), told(far)
    out = []
    for k, b in enumerate(c["batch"]):
        m = len(b["pts"])
        im = [[[mm(p[0]), mm(p[1], 2), mm(p[2] / R2M, 1)] for p in row] for row in img[k]] if c["withfeats"] else mm(img[k])
        out.append(dict(t="build", q=b["q"], h=c["h"], w=c["w"], pts=b["pts"], num=b["num"], feats=b["feats"], withfeats=c["withfeats"], image=im, idx=idx[k][:m], far=mm(far[k][:m]), ended=""))
    return out


def case_codec(c):
    x = f32([[r / 1000, i / 2, (e + .5) * R2M] for r, i, e in c["vals"]])
    enc = _M["ri"].encode_lidar_features(x)
    back = told(_M["ri"].decode_lidar_features(enc))
    cols = list(zip(*[[int(v) for v in row] for row in told(enc)]))
    rank = lambda g: [sorted(set(g)).index(v) for v in g]
    return [dict(t="codec", vals=c["vals"], back=[[mm(p[0]), mm(p[1], 2), mm(p[2] / R2M, 1)] for p in back], ranks=[rank(g) for g in cols], ended="")]


def case_depth(c):
    tf, np = _M["tf"], _M["np"]
    sh = [len(c["batch"]), c["h"], c["w"]]
    pts = f32(np.array([[[v / 10000 for v in p] for p in b["pts"]] for b in c["batch"]]).reshape(sh + [3]))
    cps = tf.constant(np.array([b["cps"] for b in c["batch"]], dtype=np.int32).reshape(sh + [6]))
    kw = {} if c["pool"] == "min" else {"pool_method": tf.math.unsorted_segment_max}
    got = told(_M["ri"].build_camera_depth_image(pts, f32([matrix(b["q"]) for b in c["batch"]]), cps, c["size"], c["cam"], **kw))
    return [dict(t="depth", q=b["q"], pts=b["pts"], cps=b["cps"], cam=c["cam"], size=c["size"], pool=c["pool"], got=mm(g), ended="") for b, g in zip(c["batch"], got)]


def case_crop(c):
    e = dict(t="crop", img=c["img"], w=len(c["img"][0][0]), new=c["new"], shift=c["shift"] or [0] * len(c["img"]), got=[], refused=False, ended="")
    try:
        e["got"] = mm(told(_M["ri"].crop_range_image(f32(c["img"]), c["new"], *([c["shift"]] if c["shift"] else []))), 1)
    except ValueError:
        e["refused"] = True
    return [e]


def case_incl(c):
    return [dict(t="incl", lo=c["lo"], hi=c["hi"], h=c["h"], got=mm(told(_M["ri"].compute_inclination(f32([c["lo"] / 1000, c["hi"] / 1000]), c["h"]))), ended="")]


def case_pool(c):
    tf, np = _M["tf"], _M["np"]
    kw = {"pool_method": tf.math.unsorted_segment_min} if c["pool"] == "min" else {}
    vals = [v if c["deep"] > 1 else v[0] for v in c["vals"]]
    g = mm(told(_M["ri"].scatter_nd_with_pool(tf.constant(np.array(c["idx"], dtype=np.int32)), f32(vals), [c["h"], c["w"]], **kw)), 1)
    if c["deep"] == 1:
        g = [[[v] for v in row] for row in g]
    return [dict(t="pool", idx=c["idx"], vals=c["vals"], h=c["h"], w=c["w"], deep=c["deep"], pool=c["pool"], got=g, ended="")]


DO = {"cart": case_cart, "build": case_build, "codec": case_codec, "depth": case_depth, "crop": case_crop, "incl": case_incl, "pool": case_pool}


def one(c):
    try:
        return DO[c["t"]](c)
    except tfs.NotModelled:
        return []


def pose(rng, far=0, level=False):
    f = lambda: [rng.randint(-far, far) * 1000 for _ in range(3)] if far else [0, 0, 0]
    return {"y": list(rng.choice(CS)), "p": list(rng.choice(CS[:1] if level else [CS[0], CS[0], CS[2], CS[4], CS[5], CS[6], CS[7]])), "r": list(rng.choice(CS[:1] if level else CS)), "t": f()}


def rand_cart(rng):
    names = rng.sample([2, 3, 4, 5], rng.choice([0, 1, 2]))
    names.insert(rng.randint(0, len(names)), 1)
    two = rng.random() < .5
    api = rng.choice(["v1", "v1", "v2", "dict", "womd"] if two else ["v1", "v1", "v2"])
    lasers = []
    for n in names:
        w = rng.choice([1, 2, 3, 4, 6, 12])
        span = rng.random() < .4
        if span:
            h = rng.choice([2, 3])
            a, s = rng.randint(-3, 1), rng.choice([1, 2])
            incls = [a + s * i for i in range(h)]
        else:
            incls = sorted(rng.sample(range(-5, 6), rng.choice([1, 2, 3])))
        h = len(incls)
        seg = n == 1 and rng.random() < .6
        rets = []
        for r in range(2 if two else 1):
            rets.append({"ranges": [[rng.choice([0, -1, 1, 3, 20, rng.randint(1, 20)]) for _ in range(w)] for _ in range(h)], "feats": [[[rng.randint(0, 9), rng.randint(0, 9)] for _ in range(w)] for _ in range(h)],
                         "cps": [[[rng.randint(0, 5), rng.randint(0, 99), rng.randint(0, 99), rng.randint(0, 5), rng.randint(0, 99), rng.randint(0, 99)] for _ in range(w)] for _ in range(h)],
                         "seg": [[[rng.randint(0, 9), rng.randint(0, 22)] for _ in range(w)] for _ in range(h)] if seg else []})
        lasers.append({"name": n, "w": w, "incls": incls, "span": span, "q": pose(rng, rng.choice([0, 30]), rng.random() < .4), "returns": rets})
    cals = list(lasers)
    rng.shuffle(cals)
    t = next(x for x in lasers if x["name"] == 1)
    veh = pose(rng, 500)
    same = rng.random() < .2
    top = [[veh if same else pose(rng, 500) for _ in range(t["w"])] for _ in t["incls"]]
    return {"t": "cart", "lasers": lasers, "cals": cals, "top": top, "veh": veh, "ri": rng.randint(0, 1) if two else 0, "keep": rng.random() < .4, "api": api, "had": rng.choice([0, 0, 2]), "each": rng.random() < .5}


def rand_build(rng):
    w, h = rng.choice([1, 2, 4, 8, 8]), rng.choice([1, 2, 3, 4])
    lim = rng.choice([2, 5, 20])
    batch = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        q = pose(rng, rng.choice([0, 20]), rng.random() < .5)
        n = rng.choice([1, 3, 8])
        pts = []
        while len(pts) < n:
            p = [rng.randint(-lim, lim) for _ in range(3)]
            if p[0] or p[1]:
                pts.append(to_vehicle(q, p))
        if rng.random() < .4:
            pts += rng.sample(pts, 1)
        batch.append({"q": q, "pts": pts, "num": rng.choice([len(pts), len(pts), rng.randint(1, len(pts))]), "feats": [[rng.randint(0, 60), rng.randint(0, 200)] for _ in pts]})
    return {"t": "build", "w": w, "h": h, "batch": batch, "withfeats": rng.random() < .5, "fill": rng.choice([0, 1, -3])}


def rand_codec(rng):
    return {"t": "codec", "vals": [[rng.choice([0, 3, 10, rng.randint(0, 100000), rng.randint(0, 380000)]), rng.randint(0, 120), rng.randint(0, 254)] for _ in range(8)]}


def rand_depth(rng):
    h, w = rng.choice([1, 2, 3]), rng.choice([1, 3, 4])
    size = [rng.choice([2, 3, 5]), rng.choice([2, 4])]
    batch = []
    for _ in range(rng.choice([1, 2])):
        q = pose(rng, rng.choice([0, 20]))
        cp = lambda: [rng.choice([0, 1, 1, 2, 3]), rng.randint(0, size[1] - 1), rng.randint(0, size[0] - 1)]
        batch.append({"q": q, "pts": [to_vehicle(q, [rng.randint(-9, 9) for _ in range(3)]) for _ in range(h * w)], "cps": [cp() + cp() for _ in range(h * w)]})
    return {"t": "depth", "h": h, "w": w, "size": size, "cam": rng.choice([1, 1, 2]), "pool": rng.choice(["min", "min", "max"]), "batch": batch}


def rand_crop(rng):
    b, w = rng.choice([1, 2]), rng.choice([2, 3, 5, 8])
    return {"t": "crop", "img": [[[rng.randint(0, 99) for _ in range(w)] for _ in range(2)] for _ in range(b)], "new": rng.choice([0, 1, 2, 3, 4, w, w - 1, w + 1]), "shift": [rng.randint(-2, 2) for _ in range(b)] if rng.random() < .6 else None}


def rand_incl(rng):
    a = rng.randint(-1500, 1000)
    return {"t": "incl", "lo": a, "hi": a + rng.randint(0, 800), "h": rng.choice([1, 2, 3, 7, 64])}


def rand_pool(rng):
    h, w, n, d = rng.choice([1, 2, 3]), rng.choice([2, 5]), rng.choice([1, 4, 9]), rng.choice([1, 1, 2])
    return {"t": "pool", "h": h, "w": w, "deep": d, "idx": [[rng.randrange(h), rng.randrange(w)] for _ in range(n)], "vals": [[rng.randint(-9, 9) for _ in range(d)] for _ in range(n)], "pool": rng.choice(["max", "min"])}


CFG = """SPECIFICATION Spec
CONSTANTS Ws = {%s}
Incls = {%s}
Turns = {%s}
Tilts = {1, 5, 7}
Rolls = {1, 6}
Moves = {%s}
Emit = TRUE
INVARIANTS AtRange Level Back Still Undone PrintCase
"""


def run(ctx):
    rng = ctx.rng
    mods()
    cases = []
    cs = ctx.model_cases("MC_RangeImage", CFG % (ctx.pick("1, 4", "1, 2, 4, 12"), ctx.pick("0, 3", "0, 1, 3"), ctx.pick("2, 5", "1, 2, 5, 7"), ctx.pick("1, 5", "1, 4, 5")), name="pixels of lidars mounted any way")
    rng.shuffle(cs)
    for c in cs[:ctx.pick(900, 20000)]:
        w = c["w"]
        z = lambda v: [[v for _ in range(w)]]
        x = {"name": 1, "w": w, "incls": [c["incl"]], "span": False, "q": c["q"], "returns": [{"ranges": [[10 if i + 1 == c["c"] else 0 for i in range(w)]], "feats": z([1, 2]), "cps": z([1, 2, 3, 0, 0, 0]), "seg": []}]}
        cases.append({"t": "cart", "lasers": [x], "cals": [x], "top": z(c["pix"]), "veh": c["veh"], "ri": 0, "keep": False, "api": rng.choice(["v1", "v2"])})
    n = ctx.pick(1, 12)
    for f, k in ((rand_cart, 500), (rand_build, 700), (rand_codec, 100), (rand_depth, 250), (rand_crop, 150), (rand_incl, 60), (rand_pool, 150)):
        cases += [f(rng) for _ in range(k * n)]
    events, skipped = [], 0
    for c, r in zip(cases, guarded(one, cases, timeout=60)):
        if "ok" in r:
            events += r["ok"]
            skipped += not r["ok"]
        else:
            events.append({"t": c["t"], "ended": r["exc"] + ": " + r["msg"][:100], "_case": c})
    ctx.log("%d events, %d cases use operations not stood in for" % (len(events), skipped))
    rng.shuffle(events)
    ctx.validate("TraceRangeImage", [events[i:i + 100] for i in range(0, len(events), 100)], "range images", samples=len(events))
