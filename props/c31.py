"""C31: version 1 frames become rows of the version 2 tables field by field."""
import zlib

from vlib.pyrun import guarded
from . import detlib as D
from . import tfs
from . import v2stub

CAMS = ["UNKNOWN", "FRONT", "FRONT_LEFT", "FRONT_RIGHT", "SIDE_LEFT", "SIDE_RIGHT"]
KINDS = {"lidar_box": "box.LiDARBoxComponentExtractor", "synced_box": "box.LiDARCameraSyncedBoxComponentExtractor",
         "projected_box": "box.ProjectedLiDARBoxComponentExtractor", "camera_box": "box.CameraBoxComponentExtractor",
         "association": "box.CameraToLiDARBoxAssociationComponentExtractor", "camera_image": "camera_image.CameraImageComponentExtractor",
         "camera_calibration": "context.CameraCalibrationComponentExtractor", "lidar_calibration": "context.LiDARCalibrationComponentExtractor",
         "stats": "context.StatsComponentExtractor", "vehicle_pose": "pose.VehiclePoseFrameExtractor",
         "camera_keypoints": "keypoints.CameraHumanKeypointsFrameExtractor", "lidar_keypoints": "keypoints.LiDARHumanKeypointsFrameExtractor",
         "lidar": "lidar.LiDARComponentExtractor", "projection": "lidar.LiDARCameraProjectionComponentExtractor",
         "lidar_pose": "lidar.LiDARPoseComponentExtractor", "lidar_segmentation": "segmentation.LiDARSegmentationLabelComponentExtractor",
         "camera_segmentation": "segmentation.CameraSegmentationLabelComponentExtractor"}
LASER = ("lidar", "projection", "lidar_pose", "lidar_segmentation")
CAMLABEL = ("projected_box", "camera_box", "association", "camera_keypoints")
LIDARLABEL = ("lidar_box", "synced_box", "lidar_keypoints")
IMAGE = ("camera_image", "camera_segmentation")
MATRIX = {"range_image_compressed": "MatrixFloat", "camera_projection_compressed": "MatrixInt32",
          "range_image_pose_compressed": "MatrixFloat", "segmentation_label_compressed": "MatrixInt32", "range_image_flow_compressed": "MatrixFloat"}
NEVER = ("center_z", "height", "heading")
_M = {}


def mods():
    """The modules, with TensorFlow stood in for."""
    if not _M:
        tfs.install()
        v2stub.load("component")
        for n in ("box", "camera_image", "context", "interfaces", "keypoints", "lidar", "pose", "segmentation"):
            _M[n] = v2stub.load("perception.compat_v1." + n)
        _M["ds"] = D.module("dataset_pb2")
    return _M


def text(v):
    if v is None:
        return "null"
    if isinstance(v, str):
        return v
    if isinstance(v, bytes):
        try:
            t = v.decode("ascii")
            return t if t.isprintable() else "0x" + v.hex()
        except UnicodeDecodeError:
            return "0x" + v.hex()
    if isinstance(v, bool) or type(v).__name__ == "bool_":
        return "true" if v else "false"
    if hasattr(v, "value") and not hasattr(v, "dtype"):
        v = v.value
    f = float(v)
    if f != f:
        return "nan"
    if f == int(f) if abs(f) < 1e300 else False:
        return "%d" % int(v)
    return repr(f)


def column(v):
    if v is None:
        return ["null"]
    if isinstance(v, (list, tuple)) or (hasattr(v, "shape") and v.shape != ()):
        return ["["] + [text(x) for x in (v.tolist() if hasattr(v, "tolist") else v)]
    return [text(v)]


def dump(m, pre, out):
    """The fields of a message that are set, as the specification names them."""
    for f, v in m.ListFields():
        p = pre + "." + f.name
        if f.name in MATRIX:
            if v:
                q = getattr(mods()["ds"], MATRIX[f.name])()
                q.ParseFromString(zlib.decompress(v))
                out[p + ".data"] = ["["] + [text(x) for x in q.data]
                out[p + ".dims"] = ["["] + [text(x) for x in q.shape.dims]
        elif f.label == f.LABEL_REPEATED:
            if f.message_type:
                names = leaves(f.message_type)
                for n in names:
                    out[p + "." + n] = ["["] + [entry(x, n) for x in v]
            else:
                out[p] = ["["] + [text(x) for x in v]
        elif f.message_type:
            out[p] = ["set"]
            dump(v, p, out)
        else:
            out[p] = [text(v)] if f.type != f.TYPE_BOOL else ["true" if v else "false"]


def leaves(d, pre=""):
    out = []
    for f in d.fields:
        if f.label == f.LABEL_REPEATED:
            continue
        out.append(pre + f.name)
        if f.message_type:
            out += leaves(f.message_type, pre + f.name + ".")
    return out


def entry(m, path):
    parts = path.split(".")
    for i, n in enumerate(parts):
        if not m.HasField(n):
            return "-"
        v = getattr(m, n)
        m = v
    if hasattr(v, "ListFields"):
        return "set"
    return ("true" if v else "false") if isinstance(v, bool) else text(v)


class Filler:
    """Fills every field of a message; distinct values unless random."""

    def __init__(self, rng, plain):
        self.rng, self.plain, self.c = rng, plain, 10

    def value(self, f):
        self.c += 1
        r = self.rng
        if f.enum_type:
            vs = [v.number for v in f.enum_type.values]
            return r.choice(vs)
        if f.type == f.TYPE_BOOL:
            return r.random() < .5
        if f.type == f.TYPE_STRING:
            return "t%d" % self.c if self.plain or r.random() < .8 else r.choice(["", "x", "a,b", "é", "null", "["])
        if f.type == f.TYPE_BYTES:
            return b"b%d" % self.c if r.random() < .7 else bytes(r.randrange(256) for _ in range(r.randint(0, 6)))
        if f.cpp_type in (f.CPPTYPE_DOUBLE, f.CPPTYPE_FLOAT):
            return float(self.c) if self.plain else r.choice([0., float(self.c), -float(self.c), r.uniform(-9, 9), 1e-9, 3e7, 1 / 3])
        if self.plain:
            return self.c
        big = f.cpp_type in (f.CPPTYPE_INT64, f.CPPTYPE_UINT64)
        return r.choice([0, 1, self.c, 2 ** 40 + self.c if big else 2 ** 31 - 1 - self.c, self.c if f.cpp_type in (f.CPPTYPE_UINT32, f.CPPTYPE_UINT64) else -self.c])

    def matrix(self, name):
        q = getattr(mods()["ds"], MATRIX[name])()
        h, w = self.rng.randint(1, 2), self.rng.randint(1, 3)
        if not self.plain and self.rng.random() < .15:
            h = 0
        dims = [h, w, {"range_image_compressed": 4, "camera_projection_compressed": 6, "range_image_pose_compressed": 6}.get(name, 2)]
        n = dims[0] * dims[1] * dims[2]
        for i in range(n):
            self.c += 1
            q.data.append(self.c if self.plain or self.rng.random() < .5 else self.rng.choice([0, -1, 7]))
        q.shape.dims.extend(dims)
        return zlib.compress(q.SerializeToString())

    def fill(self, m, n=2, skip=()):
        for f in m.DESCRIPTOR.fields:
            if f.name in skip:
                continue
            if f.name in MATRIX:
                setattr(m, f.name, self.matrix(f.name))
            elif f.label == f.LABEL_REPEATED:
                for _ in range(n):
                    if f.message_type:
                        self.fill(getattr(m, f.name).add(), n, skip)
                    else:
                        getattr(m, f.name).append(self.value(f))
            elif f.message_type:
                s = getattr(m, f.name)
                s.SetInParent()
                self.fill(s, n, skip)
            else:
                setattr(m, f.name, self.value(f))


def clear(roots, path):
    """Clears a field; below a repeated message, of its first element."""
    parts = path.split(".")
    m = roots.get(parts[0])
    if m is None:
        return
    for i, n in enumerate(parts[1:], 1):
        d = m.DESCRIPTOR.fields_by_name.get(n)
        if d is None:
            return
        if n in MATRIX:
            b = getattr(m, n)
            if b:
                q = getattr(mods()["ds"], MATRIX[n])()
                q.ParseFromString(zlib.decompress(b))
                (q.ClearField("data") if parts[-1] == "data" else q.ClearField("shape"))
                setattr(m, n, zlib.compress(q.SerializeToString()) if q.data or q.shape.dims else b"")
            return
        if i == len(parts) - 1:
            m.ClearField(n)
            return
        if d.label == d.LABEL_REPEATED:
            if not getattr(m, n):
                return
            m = getattr(m, n)[0]
        else:
            if not m.HasField(n):
                return
            m = getattr(m, n)


def build_src(case, rng):
    M = mods()
    ds = M["ds"]
    k, plain = case["kind"], not case.get("rand")
    F = Filler(rng, plain)
    I = M["interfaces"]
    frame = ds.Frame()
    frame.context.name = "ctx" if plain else rng.choice(["ctx", "", "1024360143612057520_3580_000_3600_000"])
    frame.timestamp_micros = 1553629304740796 + rng.randrange(9)
    n = case["n"]
    if k in ("stats", "vehicle_pose"):
        F.fill(frame.context.stats, n)
        F.fill(frame.pose, n)
        roots, src = {"frame": frame}, I.FrameComponentSrc(frame)
    elif k in LIDARLABEL:
        l = D.module("label_pb2").Label()
        F.fill(l, n, ("camera_keypoints",))     # one of two kinds of keypoints
        l.most_visible_camera_name = rng.choice(CAMS) if plain or rng.random() < .7 else rng.choice(["", "REAR", "front", "FRONT "])
        roots, src = {"frame": frame, "label": l}, I.LiDARLabelComponentSrc(frame, l)
    elif k in CAMLABEL:
        cl = ds.CameraLabels()
        cl.name = rng.randrange(6)
        l = cl.labels.add()
        F.fill(l, n, ("laser_keypoints",))
        if k in ("projected_box", "camera_box"):
            for x in NEVER:
                l.box.ClearField(x)
        if k == "projected_box":
            l.id = "".join(rng.choice("abXYZ019-_") for _ in range(22 if plain or rng.random() < .9 else rng.choice([3, 20, 24]))) + "_" + \
                (rng.choice(CAMS) if plain or rng.random() < .9 else rng.choice(["", "REAR", "front"]))
        elif not plain:
            l.id = rng.choice(["", "0", "ab" * 11])
        roots, src = {"frame": frame, "camera": cl, "label": l}, I.CameraLabelComponentSrc(frame, cl, l)
    elif k in IMAGE:
        im = ds.CameraImage()
        F.fill(im, n)
        roots, src = {"frame": frame, "image": im}, I.CameraImageComponentSrc(frame, im)
    elif k in LASER:
        la = ds.Laser()
        F.fill(la, n)
        roots, src = {"frame": frame, "laser": la}, I.LiDARComponentSrc(frame, la)
    elif k == "camera_calibration":
        c = ds.CameraCalibration()
        F.fill(c, n)
        del c.intrinsic[:]
        c.intrinsic.extend(100.5 + i for i in range(9 if plain or rng.random() < .7 else rng.choice([0, 3, 8, 10, 14])))
        roots, src = {"frame": frame, "calibration": c}, I.CameraCalibrationComponentSrc(frame, c)
    else:
        c = ds.LaserCalibration()
        F.fill(c, n)
        roots, src = {"frame": frame, "calibration": c}, I.LiDARCalibrationComponentSrc(frame, c)
    for p in sorted(case["gone"]):
        clear(roots, p)
    if not plain:
        prune(roots, rng, case["rand"])
        if k in ("projected_box", "camera_box") and rng.random() < .1 and roots["label"].HasField("box"):
            setattr(roots["label"].box, rng.choice(NEVER), rng.choice([0., 1.]))
    return roots, src


def prune(roots, rng, p):
    """Clears fields at random; gives some an explicit zero; drops elements."""
    def go(m):
        for f, v in m.ListFields():
            if f.label == f.LABEL_REPEATED:
                if f.name == "intrinsic":
                    continue
                if rng.random() < p:
                    del v[rng.randint(0, len(v)):]
                if f.message_type:
                    for x in v:
                        if rng.random() < .3:
                            go(x)
            elif rng.random() < p:
                m.ClearField(f.name)
            elif f.message_type:
                go(v)
            elif rng.random() < p and not f.enum_type and f.type not in (f.TYPE_STRING, f.TYPE_BYTES):
                setattr(m, f.name, 0)
    for r in roots.values():
        go(r)


def one(case):
    import random
    M = mods()
    rng = random.Random(case["seed"])
    roots, src = build_src(case, rng)
    e = {"kind": case["kind"], "src": {}, "got": "", "count": 0, "row": {}, "crash": ""}
    for r, m in roots.items():
        if r == "frame":
            sub = {}
            dump(m, r, sub)
            e["src"].update({p: v for p, v in sub.items() if p.startswith(("frame.context.name", "frame.timestamp_micros", "frame.context.stats.", "frame.pose.transform"))})
        elif r == "camera":
            if m.HasField("name"):
                e["src"]["camera.name"] = [text(m.name)]
        else:
            dump(m, r, e["src"])
    mod, cls = KINDS[case["kind"]].split(".")
    ex = getattr(M[mod], cls)()
    before = [m.SerializePartialToString() for m in roots.values()]
    try:
        rows = list(ex(src) or [])
    except tfs.NotModelled:
        return None
    except (AssertionError, KeyError, IndexError, ValueError, M["interfaces"].ExtractionError):
        e["got"] = "refused"
        return e
    if before != [m.SerializePartialToString() for m in roots.values()]:
        e["crash"] = "the source was changed"
    if not rows:
        e["got"] = "nothing"
        return e
    e["got"], e["count"] = "row", len(rows)
    e["row"] = {c: column(v) for c, v in rows[0].to_flatten_dict().items()}
    return e


def run(ctx):
    rng = ctx.rng
    # the loader's namespaces are made in the parent: a module that does not load is a fault of this check
    mods()
    cs = ctx.model_cases("MC_ConvertV2", "SPECIFICATION Spec\nCONSTANTS MaxGone = %d\nEmit = TRUE\n"
                         "INVARIANTS Complete NotTwice Nothing PrintCase\nPROPERTY OnlyItsColumns\n" % ctx.pick(2, 3), name="fields lost")
    ctx.log("%d modelled items" % len(cs))
    few = [c for c in cs if len(c["gone"]) < 2]
    many = [c for c in cs if len(c["gone"]) >= 2]
    rng.shuffle(many)
    cases = [dict(c) for c in few + many[:ctx.pick(700, 20000)]]
    for k in KINDS:
        for _ in range(ctx.pick(60, 1500)):
            cases.append({"kind": k, "n": rng.choice([0, 1, 2, 3]), "gone": [], "rand": rng.choice([.0001, .03, .1, .3])})
    for c in cases:
        c["seed"] = rng.randrange(1 << 40)
    groups, n = [], 0
    skipped = 0
    cur = []
    for c, r in zip(cases, guarded(one, cases, timeout=60)):
        if "ok" in r:
            e = r["ok"]
            if e is None:
                skipped += 1
                continue
        else:
            e = {"kind": c["kind"], "src": {}, "got": "crash", "count": 0, "row": {}, "crash": r["exc"] + ": " + r["msg"][:80]}
        cur.append(e)
        if len(cur) == 60:
            groups.append(cur)
            cur = []
    if cur:
        groups.append(cur)
    got = {}
    for g in groups:
        for e in g:
            got[e["got"]] = got.get(e["got"], 0) + 1
    ctx.log("outcomes %s" % got)
    ctx.log("%d items turned, %d use operations not stood in for" % (sum(map(len, groups)), skipped))
    ctx.validate("TraceConvertV2", groups, "items turned into rows", samples=sum(map(len, groups)))
