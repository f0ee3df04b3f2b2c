"""Objects and configurations shared by the detection, tracking and breakdown checks.
An object is a dict of integers (the specification's view); proto() renders it for the code."""
import math
import sys

from vlib import build

_PB = {}
GENS = [1, 2, 3, 7, 8, 9, 10]


def pb():
    if not _PB:
        root = build.py()
        if root not in sys.path:
            sys.path.insert(0, root)
        from waymo_open_dataset import label_pb2
        from waymo_open_dataset.protos import metrics_pb2, breakdown_pb2
        _PB.update(label=label_pb2, metrics=metrics_pb2, breakdown=breakdown_pb2)
    return _PB


def module(name):
    """Imports a module of the repository (dotted, below waymo_open_dataset)."""
    pb()
    import importlib
    return importlib.import_module("waymo_open_dataset." + name)


BASE = {"ty": 1, "x": 0, "y": 0, "z": 0, "dl": 64, "dw": 64, "dh": 64, "vx": 0, "vy": 0,
        "hx": True, "hy": True, "cam": -1, "hm": False, "mv": "", "sc": 500000}


def obj(**kw):
    o = dict(BASE, nlz=False, dd=0, td=0, hd=0, id="o", index=None)
    o.update(kw)
    return o


def proto(o):
    p = pb()["metrics"].Object()
    l = p.object
    l.type = o["ty"]
    l.id = o.get("id", "o")
    b = l.box
    b.center_x, b.center_y, b.center_z = o["x"] / 64, o["y"] / 64, o["z"] / 64
    b.length, b.width = o["dl"] / 64, o["dw"] / 64
    b.height = o["dh"] / 64 if o.get("index") is None else 1e-6 * (o["index"] + 1)
    b.heading = math.radians(o.get("hd", 0))
    if o["hx"]:
        l.metadata.speed_x = o["vx"] / 64
    if o["hy"]:
        l.metadata.speed_y = o["vy"] / 64
    if o["cam"] >= 0:
        p.camera_name = o["cam"]
    if o["hm"]:
        l.most_visible_camera_name = o["mv"]
    p.score = o["sc"] / 1e6
    if o.get("nlz"):
        p.overlap_with_nlz = True
    if o.get("dd"):
        l.detection_difficulty_level = o["dd"]
    if o.get("td"):
        l.tracking_difficulty_level = o["td"]
    return p


def hx(m):
    return m.SerializeToString().hex() or "-"


def objs_tok(objs):
    return [len(objs)] + [hx(proto(o)) for o in objs]


def config(gens, lv, cuts=(), thr=(0.5,) * 5, matcher=1, box=1, **kw):
    c = pb()["metrics"].Config()
    c.breakdown_generator_ids.extend(gens)
    for l in lv:
        c.difficulties.add().levels.extend(l)
    c.score_cutoffs.extend([x / 1e6 for x in cuts])
    c.iou_thresholds.extend(thr)
    c.matcher_type = matcher
    c.box_type = box
    for k, v in kw.items():
        setattr(c, k, v)
    return c


# angles (degrees) of the camera sector edges; points too close to one are not generated
EDGES = [s * a for s in (1, -1) for a in (19.8, 25.2, 64.8, 70.2, 115.2)]


def clear_of_edges(x, y):
    if x == 0 and y == 0:
        return True
    a = math.degrees(math.atan2(y, x))
    return all(abs(a - e) > 0.05 for e in EDGES)


def place(o, rng):
    """Random position, size, speed, camera within the exact range of the specification."""
    while True:
        k = rng.random()
        if k < .25:
            r = rng.choice([1920, 3200]) + rng.choice([-1, 0, 1])
            o["x"], o["y"], o["z"] = rng.choice([(r, 0, 0), (0, -r, 0), (0, 0, r), (-r, 0, 0)])
        elif k < .35:  # exact hypotenuses
            m = rng.choice([640, 1067])
            o["x"], o["y"], o["z"] = 2 * m, m, 2 * m
        else:
            o["x"], o["y"], o["z"] = (rng.randint(-4500, 4500), rng.randint(-4500, 4500),
                                      rng.choice([0, rng.randint(-300, 300)]))
        if clear_of_edges(o["x"], o["y"]):
            break
    for d in ("dl", "dw", "dh"):
        o[d] = rng.choice([64, 128, 447, 448, 449, rng.randint(1, 900)])
    s = rng.choice(["edge", "345", "any", "zero"])
    if s == "edge":
        v = rng.choice([12, 13, 63, 64, 65, 191, 192, 193, 639, 640, 641])
        o["vx"], o["vy"] = rng.choice([(v, 0), (0, -v), (-v, 0), (0, v)])
    elif s == "345":
        m = rng.choice([64, 192, 640]) // 5
        o["vx"], o["vy"] = -3 * m, 4 * m
    elif s == "any":
        o["vx"], o["vy"] = rng.randint(-900, 900), rng.randint(-900, 900)
    else:
        o["vx"] = o["vy"] = 0
    o["hx"], o["hy"] = rng.random() < .9, rng.random() < .9
    c = rng.random()
    o["cam"], o["hm"], o["mv"] = -1, False, ""
    if c < .2:
        o["cam"] = rng.randint(0, 8)
    elif c < .45:
        o["hm"], o["mv"] = True, rng.choice(["FRONT", "FRONT_LEFT", "FRONT_RIGHT", "SIDE_LEFT",
                                             "SIDE_RIGHT", "SIDE_RIGHT", "UNKNOWN", "REAR", "bogus", ""])
    return o


VIEW = ("ty", "x", "y", "z", "dl", "dw", "dh", "vx", "vy", "hx", "hy", "cam", "hm", "mv", "sc")


def view(o, *extra):
    return {k: o[k] for k in VIEW + extra}
