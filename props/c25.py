"""C25: projecting into a camera and back."""
import itertools
import math

from vlib import build
from vlib.harness import run_parallel
from . import detlib as D

DIRS = ("TB", "BT", "LR", "RL", "GS")


def rotations():
    out = []
    for p in itertools.permutations(range(3)):
        for s in itertools.product((1, -1), repeat=3):
            m = [[s[i] if p[i] == j else 0 for j in range(3)] for i in range(3)]
            det = (m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0])
                   + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]))
            if det == 1:
                out.append(m)
    return out


ROT = rotations()


def transform(p, R, T):
    for i in range(3):
        p.transform.extend([float(x) for x in R[i]] + [float(T[i])])
    p.transform.extend([0., 0., 0., 1.])


def calibration(c):
    m = D.module("dataset_pb2").CameraCalibration()
    m.intrinsic.extend([c["f"], c["g"], c["cu"], c["cv"]] + [k / 32. for k in c["k"]])
    transform(m.extrinsic, c["R"], c["T"])
    m.width, m.height = c["w"], c["h"]
    m.rolling_shutter_direction = DIRMAP[c["dir"]]
    return m


def image(i, base):
    m = D.module("dataset_pb2").CameraImage()
    m.name = 1
    m.image = b""
    transform(m.pose, i["R"], i["T"])
    m.velocity.v_x, m.velocity.v_y, m.velocity.v_z = map(float, i["v"])
    m.velocity.w_x, m.velocity.w_y, m.velocity.w_z = (x / 8. for x in i["om"])
    m.pose_timestamp = base + i["tp"] / 1024.
    m.camera_trigger_time = base + i["trig"] / 1024.
    m.camera_readout_done_time = base + i["done"] / 1024.
    m.shutter = i["sh"] / 1024.
    return m


DIRMAP = {}


def hexed(p):
    return p.SerializeToString().hex() or "-"


def r(x, k=1024):
    if isinstance(x, str) or x != x or abs(x) > 1e6:
        return 2000000000
    return int(round(x * k))


def request(cal, ops, base):
    out = ["cam", hexed(calibration(cal)), str(len(ops))]
    for o in ops:
        if o["op"] == "prepare":
            out += ["prepare", hexed(image(o["img"], base))]
        elif o["op"] == "world":
            out += ["world", repr(o["u"] / 1024.), repr(o["v"] / 1024.), repr(o["depth"] / 1024.), str(int(o["check"]))]
        elif o["op"] == "image":
            out += ["image"] + [repr(x / 8.) for x in o["p"]] + [repr(float(x)) for x in o["v"]] + [str(int(o["check"])), str(o["how"])]
        elif o["op"] == "vehicle":
            out += ["vehicle", repr(o["u"] / 1024.), repr(o["v"] / 1024.), repr(o["depth"] / 1024.)]
        else:
            out += ["in", repr(o["u"] / 1024.), repr(o["v"] / 1024.)]
    return " ".join(out)


def events(cal, ops, ans):
    if "crash" in ans:
        return [{"k": "crash", "_why": ans["crash"], "_ops": ops, "_cal": cal}]
    ev = []
    for o, a in zip(ops, ans["out"]):
        e = {x: y for x, y in o.items() if x != "op"}
        e["k"] = o["op"]
        if o["op"] == "prepare":
            e.update(cal=cal, offset=r(a["offset"], 1 << 20))
        elif o["op"] == "world":
            e.update(p=[r(x) for x in a["p"]], ok=a["ok"], uvd=[r(x) for x in a["uvd"]])
        elif o["op"] == "image":
            e.update(ok=a["ok"], uvd=[r(x) for x in a["uvd"]], back=[r(x) for x in a["back"]])
        elif o["op"] == "vehicle":
            e.update(p=[r(x) for x in a["p"]])
        else:
            e.update(ok=a["ok"])
        ev.append(e)
    return ev


def apply(R, x):
    return [sum(R[i][j] * x[j] for j in range(3)) for i in range(3)]


def turned(rng, a):
    """A rotation near another: small turns about every axis."""
    x, y, z = (rng.uniform(-.05, .05) for _ in range(3))
    m = [[1, -z, y], [z, 1, -x], [-y, x, 1]]
    # orthonormal again
    def unit(v):
        n = math.sqrt(sum(t * t for t in v))
        return [t / n for t in v]
    e0 = unit(m[0])
    d = sum(s * t for s, t in zip(e0, m[1]))
    e1 = unit([t - d * s for s, t in zip(e0, m[1])])
    e2 = [e0[1] * e1[2] - e0[2] * e1[1], e0[2] * e1[0] - e0[0] * e1[2], e0[0] * e1[1] - e0[1] * e1[0]]
    return [[sum(p[k] * a[k][j] for k in range(3)) for j in range(3)] for p in (e0, e1, e2)]


def realistic(rng):
    """A calibration and an image like the dataset's: any rotation, distortion, slow motion."""
    C = D.module("dataset_pb2")
    w, h = rng.choice([(1920, 1280), (1920, 886)])
    c = C.CameraCalibration()
    c.intrinsic.extend([rng.uniform(2000, 2100), rng.uniform(2000, 2100), rng.uniform(930, 990), h / 2 + rng.uniform(-20, 20),
                        rng.uniform(-.03, .04), rng.uniform(-.33, .05), rng.uniform(-1e-3, 1e-3), rng.uniform(-1e-3, 1e-3), rng.uniform(-.02, .02)])
    transform(c.extrinsic, turned(rng, rng.choice(ROT)), [rng.uniform(-2, 2) for _ in range(3)])
    c.width, c.height = w, h
    c.rolling_shutter_direction = rng.choice(list(DIRMAP.values()))
    m = C.CameraImage()
    m.name = 1
    m.image = b""
    transform(m.pose, turned(rng, rng.choice(ROT)), [rng.uniform(-9000, 9000), rng.uniform(-9000, 9000), rng.uniform(-90, 90)])
    for f in ("v_x", "v_y", "v_z"):
        setattr(m.velocity, f, rng.uniform(-1.5, 1.5))
    for f in ("w_x", "w_y", "w_z"):
        setattr(m.velocity, f, rng.uniform(-.01, .01))
    t = 1553640277.23
    m.camera_trigger_time, m.shutter = t, rng.uniform(.0004, .01)
    m.camera_readout_done_time = t + m.shutter + rng.uniform(.03, .05)
    m.pose_timestamp = t + rng.uniform(0, .05)
    req, es = ["cam", hexed(c), "", "prepare", hexed(m)], []
    for _ in range(6):
        u, v, d = rng.uniform(10, w - 10), rng.uniform(10, h - 10), rng.uniform(15, 60)
        req += ["world", repr(u), repr(v), repr(d), "1"]
        es.append({"k": "real", "u": r(u), "v": r(v), "depth": r(d), "tol": 1024})
    req[2] = str(len(es) + 1)
    return " ".join(req), es


def run(ctx):
    rng = ctx.rng
    C = D.module("dataset_pb2").CameraCalibration
    DIRMAP.update(TB=C.TOP_TO_BOTTOM, BT=C.BOTTOM_TO_TOP, LR=C.LEFT_TO_RIGHT, RL=C.RIGHT_TO_LEFT, GS=C.GLOBAL_SHUTTER)
    inv = "INVARIANTS RoundTrip Mirror Exposed Still Along8 InFront PrintCase\n"
    cfg = 'SPECIFICATION Spec\nCONSTANTS MaxOps = %d\nDirs = {%s}\nTurns = {%s}\nEmit = %s\n' + inv
    cs = ctx.model_cases("MC_Camera", cfg % (2, '"LR","RL","TB","BT","GS"', '"e","z","x"', "TRUE"), name="every camera and image", workers=8)
    cs += ctx.model_cases("MC_Camera", cfg % (4, ctx.pick('"LR","TB"', '"LR","RL","TB","BT","GS"'), '"e"', "TRUE"), name="cameras used again", workers=8)
    traces = []

    for c in cs:
        ops = []
        for h in c["hist"]:
            if h["op"] == "prepare":
                ops.append(h)
            else:
                ops.append({"op": "world", "u": h["u"], "v": h["v"], "depth": h["depth"], "check": True, "tol": 192})
        traces.append((c["cal"], ops, 0))
    n0 = len(traces)

    def cam(direction, bent):
        w, h = rng.choice([64, 128, 200, 256]), rng.choice([64, 128, 160, 256])
        f = rng.choice([x for x in (50, 64, 100, 128) if max(w, h) <= 3 * x and x <= 2 * min(w, h)])
        g = rng.choice([f, f, f - 10, f + 12])
        k = [0] * 5
        if bent:
            for i in range(5):
                if rng.random() < .6:
                    k[i] = rng.randint(-6, 6) if i in (0, 1, 4) else rng.randint(-3, 3)
        return {"f": f, "g": g, "cu": rng.randint(0, w), "cv": rng.randint(0, h), "w": w, "h": h, "k": k, "R": rng.choice(ROT),
                "T": [rng.randint(-3, 3) for _ in range(3)], "dir": direction}

    def img():
        trig, ro, sh = rng.choice([0, 4, 20]), rng.choice([0, 16, 32, 32, 64]), rng.choice([0, 2, 6])
        return {"R": rng.choice(ROT), "T": [rng.randint(-9, 9) for _ in range(3)], "v": [rng.choice([0, 0, 1, -4, 8, -8]) for _ in range(3)],
                "om": [rng.choice([0, 0, 1, -1, 2]) for _ in range(3)], "tp": trig + rng.choice([0, sh // 2, ro // 2, ro, -10]),
                "trig": trig, "done": trig + ro + sh, "sh": sh}

    def query(cal, im, straight):
        k = rng.random()
        if k < .12:
            e = rng.choice([0, 0, -1, 1])
            u, v = rng.choice([0, cal["w"] * 1024, rng.randint(-99, 99999)]) + e, rng.choice([0, cal["h"] * 1024, rng.randint(0, cal["h"] * 1024)]) + rng.choice([0, 1, -1])
            return {"op": "in", "u": u, "v": v}
        if k < .45 and straight:
            u, v = 16 * rng.randint(0, cal["w"] * 64), 16 * rng.randint(0, cal["h"] * 64)
            if rng.random() < .2:
                u += rng.choice([-1, 1]) * 8192
            d = 1024 * rng.choice([4, 5, 8, 12])
            return {"op": rng.choice(["world", "world", "vehicle"]), "u": u, "v": v, "depth": d, "check": rng.random() < .5, "tol": 128 + (2 * cal["f"] if any(im["om"]) else 0)}
        # a point given in camera axes, turned to the world
        x = 8 * rng.choice([4, 5, 6, 8, 12, 15, -4, -8, 8, 6])
        if straight:
            a = [x] + [rng.randint(-abs(x), abs(x)) for _ in range(2)]
        else:
            m = rng.choice([8, 8, 6, 3])
            a = [x] + [x * rng.randint(-m, m) // 8 for _ in range(2)]
        q = apply(cal["R"], a)
        q = apply(im["R"], [q[i] + 8 * cal["T"][i] for i in range(3)])
        p = [q[i] + 8 * im["T"][i] for i in range(3)]
        how = rng.choice([0, 0, 1, 2])
        v = [rng.choice([0, 0, 2, -4, 5]) for _ in range(3)] if how == 0 else [0, 0, 0]
        return {"op": "image", "p": p, "v": v, "check": rng.random() < .6, "how": how}

    for _ in range(ctx.pick(2600, 24000)):
        direction = rng.choice(list(DIRS))
        bent = direction == "GS" and rng.random() < .7
        cal = cam(direction, bent)
        ops = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            im = img()
            ops.append({"op": "prepare", "img": im})
            for _ in range(rng.randint(2, 6)):
                q = query(cal, im, not any(cal["k"]))
                ops.append(q)
        traces.append((cal, ops, rng.choice([0, 0, 1553640277])))
    h = build.cc("h_camera")
    reals = [realistic(rng) for _ in range(ctx.pick(300, 3000))]
    ans = run_parallel(h, [request(*t) for t in traces])
    groups = [events(t[0], t[1], a) for t, a in zip(traces, ans)]
    for (q, es), a in zip(reals, run_parallel(h, [x[0] for x in reals])):
        if "crash" in a:
            groups.append([{"k": "crash", "_why": a["crash"]}])
        else:
            groups.append([dict(e, ok=o["ok"], uvd=[r(x) for x in o["uvd"]]) for e, o in zip(es, a["out"][1:])])
    ctx.validate("TraceCamera", groups, "cameras", samples=len(traces) - n0 + len(reals))
