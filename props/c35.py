"""C35: panoptic labels of camera images."""
import importlib
import sys
import types

from vlib.pyrun import guarded
from . import detlib as D
from . import tfs
from . import v2stub

_M = {}
NUM, THINGS, IGNORE, DIV = 29, [2, 3, 9], 255, 100


class Quality:
    """Stands for the metric (deeplab2): remembers what it is given."""

    def __init__(self, **k):
        self.config, self.calls, self.merged = k, [], []

    def update_state(self, *a):
        self.calls.append(a)

    def reset_states(self):
        self.calls = []

    def merge_state(self, others):
        self.merged = list(others)

    def result(self):
        n = sum(len(o.calls) for o in self.merged) + 100 * len(self.calls)
        return {"STQ": n / 64, "AQ": (n + 1) / 64, "IoU": (n + 2) / 64, "STQ_per_seq": []}


def mods():
    if not _M:
        tfs.install()
        D.pb()
        v2stub.load("component")
        d2 = {x: types.ModuleType(x) for x in ("deeplab2", "deeplab2.data", "deeplab2.evaluation", "deeplab2.data.dataset", "deeplab2.evaluation.segmentation_and_tracking_quality")}
        for x in d2:
            d2[x].__path__ = []
            p, _, leaf = x.rpartition(".")
            if p:
                setattr(d2[p], leaf, d2[x])
        sys.modules.update(d2)
        info = types.SimpleNamespace(dataset_name="wod", panoptic_label_divisor=DIV, num_classes=NUM, class_has_instances_list=THINGS, ignore_label=IGNORE)
        other = types.SimpleNamespace(dataset_name="other", panoptic_label_divisor=7, num_classes=3, class_has_instances_list=[], ignore_label=0)
        d2["deeplab2.data.dataset"].WOD_PVPS_IMAGE_PANOPTIC_SEG_MULTICAM_DATASET = info
        d2["deeplab2.data.dataset"].MAP_NAME_TO_DATASET_INFO = {"wod": info, "other": other}
        d2["deeplab2.data.dataset"].DatasetDescriptor = types.SimpleNamespace
        d2["deeplab2.evaluation.segmentation_and_tracking_quality"].STQuality = Quality
        _M["u"] = importlib.import_module("waymo_open_dataset.utils.camera_segmentation_utils")
        _M["m"] = importlib.import_module("waymo_open_dataset.wdl_limited.camera_segmentation.camera_segmentation_metrics")
        _M["x"] = v2stub.load("perception.compat_v1.segmentation")
        _M["i"] = v2stub.load("perception.compat_v1.interfaces")
        _M["pb"] = D.module("dataset_pb2")
        import numpy
        import tensorflow
        _M["np"], _M["tf"] = numpy, tensorflow
    return _M


def image(v, w):
    np = _M["np"]
    return np.array(v).reshape(-1, w, 1)


def png(v, w, dt):
    return _M["tf"].io.encode_png(image(v, w).astype(dt)).numpy()


def flat(a):
    return [int(x) for x in _M["np"].asarray(a).reshape(-1)]


def label(x, w):
    m = _M["pb"].CameraSegmentationLabel(panoptic_label_divisor=x["div"], sequence_id=x["seq"], panoptic_label=png([a * x["div"] + b for a, b in x["px"]], w, "uint16"))
    for k in x["map"]:
        m.instance_id_to_global_id_mapping.add(local_instance_id=k["l"], global_instance_id=k["g"], is_tracked=k["t"])
    if x.get("cover"):
        m.num_cameras_covered = png(x["cover"], w, "uint8")
    return m


def component(m):
    f = _M["pb"].Frame()
    f.context.name = "c"
    i = _M["pb"].CameraImage(name=1, camera_segmentation_label=m)
    return next(iter(_M["x"].CameraSegmentationLabelComponentExtractor()(_M["i"].CameraImageComponentSrc(f, i))))


def case_read(c):
    w = c["w"]
    e = dict(t="read", labs=[{k: x[k] for k in ("seq", "div", "px", "map")} for x in c["labs"]], sequential=c["sequential"], want=c["want"], refused=False, div=0, out=[], tracked=[],
             **{"global": c["global"]}, cover=[], covered=[x.get("cover") or [1] * len(x["px"]) for x in c["labs"]], ended="")
    ls = [label(x, w) for x in c["labs"]]
    if c["v2"]:
        ls = [component(m) for m in ls]
    try:
        f = _M["u"].decode_multi_frame_panoptic_labels_from_segmentation_labels if c["w"] % 2 else _M["u"].decode_multi_frame_panoptic_labels_from_protos
        pan, tr, cov, d = f(ls, remap_to_global=c["global"], remap_to_sequential=c["sequential"], new_panoptic_label_divisor=c["want"] or None)
    except ValueError as x:
        if "divisor" not in str(x):
            raise
        e["refused"] = True
        return e
    e.update(div=int(d), out=[flat(x) for x in pan], tracked=[flat(x) for x in tr], cover=[flat(x) for x in cov])
    return e


def case_write(c):
    e = dict(t="write", px=c["px"], seq=c["seq"], want=c["want"], refused=False, lab={}, read=[], readdiv=1, ended="")
    np = _M["np"]
    try:
        m = _M["u"].save_panoptic_label_to_proto(image([a * c["div"] + b for a, b in c["px"]], c["w"]).astype(np.dtype(c["dt"])), panoptic_label_divisor=c["div"], sequence_id=c["seq"], new_panoptic_label_divisor=c["want"])
    except ValueError:
        e["refused"] = True
        return e
    raw = flat(_M["u"].decode_single_panoptic_label_from_proto(m))
    e["lab"] = {"seq": m.sequence_id, "div": m.panoptic_label_divisor, "px": [[x // m.panoptic_label_divisor, x % m.panoptic_label_divisor] for x in raw],
                "map": [{"l": x.local_instance_id, "g": x.global_instance_id, "t": x.is_tracked} for x in m.instance_id_to_global_id_mapping]}
    pan, _, _, d = _M["u"].decode_multi_frame_panoptic_labels_from_segmentation_labels([m])
    e.update(read=flat(pan[0]), readdiv=int(d))
    return e


def case_pack(c):
    np = _M["np"]
    s, i = (np.array([p[k] for p in c["px"]]).reshape(-1, c["w"]).astype(c["dt"]) for k in (0, 1))
    a = _M["u"].encode_semantic_and_instance_labels_to_panoptic_label(s, i, c["div"])
    bs, bi = _M["u"].decode_semantic_and_instance_labels_from_panoptic_label(a, c["div"])
    return dict(t="pack", px=c["px"], div=c["div"], packed=flat(a), back=[list(x) for x in zip(flat(bs), flat(bi))], ended="")


def case_color(c):
    np = _M["np"]
    u = _M["u"]
    if c["map"] is None:
        t = u.SEGMENTATION_COLOR_MAP
        table, cm = [list(t.get(k, [0, 0, 0])) for k in range(max(t) + 1)], {}
    else:
        table = c["map"]
        cm = {"color_map": np.array(table, dtype=np.uint8)}
    sh = [-1, c["w"], 1] if c["flat"] else [-1, c["w"]]
    s, i = (np.array([p[k] for p in c["px"]]).reshape(sh).astype(c["dt"]) for k in (0, 1))
    a = u.panoptic_label_to_rgb(s, i, **cm)
    b = u.semantic_label_to_rgb(s, **cm)
    h = len(c["px"]) // c["w"]
    if a.shape != (h, c["w"], 3) or b.shape != (h, c["w"], 3):
        return dict(t="color", ended="shape %r" % (a.shape,))
    return dict(t="color", px=c["px"], map=table, got=[flat(x) for x in a.reshape(-1, 3)], classes=[flat(x) for x in b.reshape(-1, 3)], ended="")


def case_frames(c):
    data = []
    for k, x in enumerate(c["fs"]):
        f = _M["pb"].Frame(timestamp_micros=k + 1)
        i = f.images.add(name=1, image=b"")
        if x["labeled"]:
            i.camera_segmentation_label.panoptic_label = b"x"
            i.camera_segmentation_label.sequence_id = x["seq"]
        f.images.add(name=2, image=b"").camera_segmentation_label.panoptic_label = b"y"
        data.append(types.SimpleNamespace(numpy=lambda f=f: f.SerializeToString()))
    got, seq = _M["u"].load_frames_with_labels_from_dataset(data, keep_first_k=c["keep"])
    return dict(t="frames", fs=c["fs"], keep=c["keep"], got=[f.timestamp_micros for f in got], seq="none" if seq is None else seq, ended="")


def case_judge(c):
    np = _M["np"]
    a = lambda g, dt: [np.array(x, dtype=dt).reshape(-1, c["w"], 1) for x in g]
    args = [a(c["truth"], "uint32"), a(c["pred"], "uint32"), a(c["cover"], "uint8"), a(c["tracked"], "uint8")]
    before = [[x.copy() for x in g] for g in args]
    k = c["short"]
    if k is not None:
        args[k] = args[k][:-1]
    e = dict(t="judge", truth=c["truth"], pred=c["pred"], cover=c["cover"], tracked=c["tracked"], div=DIV, id=c["id"], lens=[len(x) for x in args], refused=False, seen=[],
             config=[], wantconfig=[NUM, THINGS, IGNORE, DIV, c["offset"] or 256 ** 3], res=[], parts=[], merged=[], kept=True, ended="")
    kw = {"offset": c["offset"]} if c["offset"] else {}
    try:
        q = _M["m"].get_metric_object_by_sequence(*args, c["id"], **kw)
    except ValueError:
        e["refused"] = True
        return e
    e["kept"] = all((x == y).all() for g, h in zip(args, before) for x, y in zip(g, h))
    e["config"] = [q.config[x] for x in ("num_classes", "things_list", "ignore_label", "max_instances_per_category", "offset")]
    e["seen"] = [{"truth": flat(x[0]), "pred": flat(x[1]), "id": x[2], "weights": [min(int(round(float(v) * 1000)), 2000000) for v in np.asarray(x[3]).reshape(-1)]} for x in q.calls]
    q2 = _M["m"].get_metric_object_by_sequence(*[x[:1] for x in args], "z")
    n = len(q.calls) + len(q2.calls)
    r = _M["m"].aggregate_metrics([q, q2])
    e["res"] = [int(round(x * 64)) for x in (r.wstq, r.waq, r.miou)]
    e["parts"] = [n, n + 1, n + 2]
    e["merged"] = [int(len(q.calls) == len(c["truth"])), int(len(q2.calls) == 1)]
    return e


DO = {"read": case_read, "write": case_write, "pack": case_pack, "color": case_color, "frames": case_frames, "judge": case_judge}


def one(c):
    try:
        return [DO[c["t"]](c)]
    except tfs.NotModelled:
        return []


def rand_read(rng):
    n = rng.choice([1, 2, 2, 3, 4])
    seqs = rng.sample(["a", "b", "zz"], rng.choice([1, 2, 2, 3]))
    w = rng.choice([1, 2, 3])
    div = rng.choice([1000, 10, 6, 200])
    labs = []
    gids = rng.sample(range(1, rng.choice([8, 60, 3000])), 6)
    for k in range(n):
        d = div if rng.random() < .8 else rng.choice([6, 10, 1000])
        top = min(5, d - 1)
        px = [[rng.randint(0, 28), rng.choice([0] + list(range(top + 1)))] for _ in range(w * rng.choice([1, 2, 3]))]
        if rng.random() < .3:
            px[0][1] = d - 1
        loc = sorted({b for _, b in px if b} | ({5} if rng.random() < .2 else set()))
        rng.shuffle(loc)
        loc = loc if rng.random() < .7 else loc[:rng.randint(0, len(loc))]
        gs = rng.sample(gids, min(len(loc), 6))
        x = {"seq": rng.choice(seqs), "div": d, "px": px, "map": [{"l": a, "g": b, "t": rng.random() < .6} for a, b in zip(loc, gs)]}
        if rng.random() < .5:
            x["cover"] = [rng.randint(1, 3) for _ in px]
        labs.append(x)
    return {"t": "read", "labs": labs, "global": rng.random() < .8, "sequential": rng.random() < .5, "want": rng.choice([0, 0, 0, 1000, 8, 20, max(gids), max(gids) + 1, 5000]), "w": w, "v2": rng.random() < .4}


def rand_write(rng):
    w, n = rng.choice([1, 2, 3]), rng.choice([2, 4, 6])
    d = rng.choice([1000, 50, 20, 40000])
    ids = [rng.randint(1, d - 1) for _ in range(rng.choice([1, 2, 3, 8]))]
    want = rng.choice([1000, 1, 3, 4, 21845, 13107, 65535, 2340])
    cl = rng.choice([[0, 3, 28], [0, 1, 2, 3], [1, 2], [0, 1, 5, 28]])
    return {"t": "write", "px": [[rng.choice(cl), rng.choice([0] + ids)] for _ in range(w * n)], "seq": rng.choice(["", "s"]), "want": want, "div": d, "w": w, "dt": "int64" if d > 2000 else rng.choice(["uint16", "int32", "int64"])}


def rand_pack(rng):
    d = rng.choice([1, 2, 7, 1000, 65536, 20000])
    return {"t": "pack", "px": [[rng.randint(0, 28), rng.randint(0, d - 1)] for _ in range(4)], "div": d, "w": rng.choice([1, 2, 4]), "dt": rng.choice(["uint8", "uint16", "int32", "int64"]) if d < 200 else rng.choice(["uint16", "int32", "int64"])}


def rand_color(rng):
    m = None if rng.random() < .4 else [[rng.choice([0, 10, 49, 51, 128, 204, 206, 255]) for _ in range(3)] for _ in range(5)]
    dt = rng.choice(["uint8", "uint16", "int32", "int64"])
    return {"t": "color", "px": [[rng.randint(0, 28 if m is None else 4), rng.choice([0, 0, 1, 2, 3, rng.randint(0, 200)])] for _ in range(6)], "map": m, "w": rng.choice([2, 3]), "flat": rng.random() < .5, "dt": dt}


def rand_frames(rng):
    fs, s = [], "a"
    for _ in range(rng.choice([0, 1, 3, 5, 8])):
        if rng.random() < .2:
            s = rng.choice("abc")
        fs.append({"labeled": rng.random() < .6, "seq": s})
    return {"t": "frames", "fs": fs, "keep": rng.choice([1, 2, 3, 3, 5])}


def rand_judge(rng):
    n, w = rng.choice([1, 2, 3]), rng.choice([1, 2])
    k = w * rng.choice([1, 2])
    g = lambda f: [[f() for _ in range(k)] for _ in range(n)]
    return {"t": "judge", "truth": g(lambda: rng.randint(0, 28) * DIV + rng.choice([0, 1, 2, 99])), "pred": g(lambda: rng.randint(0, 28) * DIV + rng.choice([0, 1, 2])), "cover": g(lambda: rng.choice([1, 1, 2, 3, 0])),
            "tracked": g(lambda: rng.choice([0, 1])), "w": w, "id": rng.choice(["s", "t"]), "short": rng.choice([None] * 6 + [0, 1, 2, 3]), "offset": rng.choice([None, 1 << 20])}


CFG = """SPECIFICATION Spec
CONSTANTS Pix = {%s}
Gids = {1, 3}
Divs = {%s}
Wants = {%s}
MaxN = 2
Emit = TRUE
INVARIANTS Good AlwaysFits Small Round PrintCase
"""


def run(ctx):
    rng = ctx.rng
    mods()
    cases = []
    cs = ctx.model_cases("MC_CameraSeg", CFG % (ctx.pick("1,2", "0,1,2"), ctx.pick("3", "3,5"), ctx.pick("0,3", "0,3,6")), name="two labels read with every option")
    rng.shuffle(cs)
    for c in cs[:ctx.pick(2500, 60000)]:
        cases.append({"t": "read", "labs": c["labs"], "global": c["opt"]["global"], "sequential": c["opt"]["sequential"], "want": c["opt"]["want"], "w": rng.choice([1, 2]), "v2": rng.random() < .4})
    n = ctx.pick(1, 12)
    for f, k in ((rand_read, 1500), (rand_write, 600), (rand_pack, 200), (rand_color, 300), (rand_frames, 300), (rand_judge, 300)):
        cases += [f(rng) for _ in range(k * n)]
    events, skipped = [], 0
    for c, r in zip(cases, guarded(one, cases, timeout=60)):
        if "ok" in r:
            events += r["ok"]
            skipped += not r["ok"]
        else:
            events.append({"t": c["t"], "ended": r["exc"] + ": " + r["msg"][:100]})
    ctx.log("%d events, %d cases use operations not stood in for; %d refused" % (len(events), skipped, sum(1 for e in events if e.get("refused"))))
    rng.shuffle(events)
    ctx.validate("TraceCameraSeg", [events[i:i + 100] for i in range(0, len(events), 100)], "panoptic labels", samples=len(events))
