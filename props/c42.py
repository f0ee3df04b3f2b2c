"""C42: runs of a submitted model over a data set, and the results gathered of them."""
import contextlib
import io
import os
import runpy
import shutil
import sys
import tempfile
import time
import types

from vlib import build
from vlib.pyrun import guarded
from . import detlib as D

CLOCKS = ["time", "perf_counter", "monotonic", "process_time", "thread_time"]
IMAGES = ["FRONT_IMAGE", "FRONT_LEFT_IMAGE", "FRONT_RIGHT_IMAGE", "SIDE_LEFT_IMAGE", "SIDE_RIGHT_IMAGE"]
FIELDS = IMAGES + ["POSE", "TIMESTAMP", "TOP_RANGE_IMAGE_FIRST_RETURN", "TOP_RANGE_IMAGE_FIRST_RETURN_1", "FRONT_LEFT_WIDTH"]
_M = {}


def mods():
    if not _M:
        D.pb()
        _M["m"] = D.pb()["metrics"]
        import numpy
        _M["np"] = numpy
        _M["dir"] = os.path.join(build.SRC, "waymo_open_dataset", "latency")
    return _M


class Clock:
    """Time passes when files are read and written, and as the model says."""

    def __init__(self):
        self.now, self.old, self.np = 50.0, {}, _M["np"]

    def __enter__(self):
        np, old = self.np, self.old
        for n in CLOCKS:
            old[n] = getattr(time, n)
            setattr(time, n, lambda: self.now)
            old[n + "_ns"] = getattr(time, n + "_ns")
            setattr(time, n + "_ns", lambda: int(self.now * 1e9))
        self.load, self.save = np.load, np.save
        np.load = lambda *a, **k: (self.add(1000), self.load(*a, **k))[1]
        np.save = lambda *a, **k: (self.add(1000), self.save(*a, **k))[1]
        return self

    def add(self, s):
        self.now += s

    def __exit__(self, *a):
        for n, f in self.old.items():
            setattr(time, n, f)
        self.np.load, self.np.save = self.load, self.save


def script(name, args):
    old = sys.argv
    sys.argv = [name] + args
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            runpy.run_path(os.path.join(_M["dir"], name), run_name="__main__")
    finally:
        sys.argv = old


def folder(root, f):
    return os.path.join(root, f["c"], str(f["ts"]))


def output(f, two):
    np = _M["np"]
    k = 4 if two else 7
    o = f["objs"]
    return {"boxes": (np.array([x["box"] for x in o], dtype=np.float64).reshape(-1, k) / 1000).astype(np.float32),
            "scores": (np.array([x["score"] for x in o], dtype=np.float64) / 1000).astype(np.float32),
            "classes": np.array([x["cls"] for x in o], dtype=np.uint8)}


def one_run(root, i, r, stray):
    np = _M["np"]
    data = os.path.join(root, "in%d" % i)
    os.makedirs(data)
    for f in r["frames"]:
        os.makedirs(folder(data, f))
        for k, v in f["inp"].items():
            np.save(os.path.join(folder(data, f), k + ".npy"), np.full((2, 2), v))
        if stray:
            open(os.path.join(data, f["c"], "notes.txt"), "w").close()
    if stray:
        open(os.path.join(data, "notes.txt"), "w").close()
    st = {"calls": [], "inits": 0, "early": 0}
    by = {tuple(f["inp"][k] for k in r["fields"]): f for f in r["frames"]}
    clock = Clock()
    m = types.ModuleType("wod_latency_submission")
    m.DATA_FIELDS = list(r["fields"])

    def initialize_model():
        st["inits"] += 1
        st["early"] += len(st["calls"])
        clock.add(7)

    def run_model(**kw):
        args = [int(kw[k].flat[0]) if k in kw else -1 for k in r["fields"]]
        f = by.get(tuple(args))
        clock.add(f["dur"] / 1000 if f else 3)
        st["calls"].append({"args": args, "names": len(kw), "dur": f["dur"] if f else 3000})
        return output(f, r["two"]) if f else output({"objs": []}, r["two"])
    m.initialize_model, m.run_model = initialize_model, run_model
    sys.modules["wod_latency_submission"] = m
    e = dict(r, ended="", lat=[])
    lat = os.path.join(root, "lat")
    try:
        with clock:
            script("wod_latency_evaluator.py", ["--input_data_dir=" + data, "--output_dir=" + os.path.join(root, "out"), "--latency_result_file=" + lat])
        with open(lat) as fh:
            e["lat"] = [round(float(x) * 1000) for x in fh.read().split()]
    except (Exception, SystemExit) as x:
        e["ended"] = "%s: %s" % (type(x).__name__, str(x)[:80])
    e.update(st)
    return e


def rows(path):
    o = _M["m"].Objects()
    with open(path, "rb") as f:
        o.ParseFromString(f.read())
    out = []
    for x in o.objects:
        b = x.object.box
        names = ["center_x", "center_y", "center_z", "length", "width", "height", "heading"] if b.HasField("height") else ["center_x", "center_y", "length", "width"]
        out.append([x.context_name, x.frame_timestamp_micros, [round(getattr(b, n) * 1000) for n in names], x.object.type, round(x.score * 1000), x.camera_name])
    return out


def one(c):
    root = tempfile.mkdtemp(prefix="vruns")
    e = {"runs": [], "got": [], "err": "", "ended": ""}
    try:
        out = os.path.join(root, "out")
        os.makedirs(out)
        for i, r in enumerate(c["runs"]):
            e["runs"].append(one_run(root, i, r, c["stray"]))
        if c["stray"]:
            open(os.path.join(out, "notes.txt"), "w").close()
            for d in os.listdir(out):
                if os.path.isdir(os.path.join(out, d)):
                    open(os.path.join(out, d, "notes.txt"), "w").close()
        try:
            script("make_objects_file_from_latency_results.py", ["--results_dir=" + out, "--output_file=" + os.path.join(root, "objects")])
            e["got"] = rows(os.path.join(root, "objects"))
        except ValueError:
            e["err"] = "ValueError"
        except (Exception, SystemExit) as x:
            e["err"] = "%s: %s" % (type(x).__name__, str(x)[:80])
    finally:
        shutil.rmtree(root, ignore_errors=True)
    return [e]


def box(rng, two):
    size = lambda: rng.choice([rng.randint(11, 9000)] * 6 + [rng.randint(0, 9)])
    at = lambda: rng.randint(-80000, 80000)
    return [at(), at(), size(), size()] if two else [at(), at(), rng.randint(-3000, 3000), size(), size(), size(), rng.randint(-3141, 3141)]


def objs(rng, two):
    def score():
        return rng.choice([rng.randint(31, 1000)] * 4 + [rng.randint(0, 29)])
    out = [{"box": box(rng, two), "cls": rng.randint(0, 4), "score": score()} for _ in range(rng.choice([0, 1, 1, 2, 3, 5]))]
    if out and rng.random() < .1:
        out.append(dict(rng.choice(out)))
    return out


def frames(keys, rng, two, obj=None):
    out = []
    for n, (c, ts) in enumerate(keys):
        inp = {k: 100 * n + j + 1 for j, k in enumerate(FIELDS)}
        out.append({"c": c, "ts": ts, "dur": 250 * rng.randint(1, 99), "inp": inp, "objs": obj(c, ts) if obj else objs(rng, two)})
    return out


def rand(rng):
    names = ["seg-%d" % i for i in range(rng.randint(1, 3))]
    keys = [(c, 1000 + 7 * t) for c in names for t in range(rng.randint(1, 4))]
    two = rng.random() < .5
    rs = []
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        fields = [rng.choice(IMAGES)] if two else rng.sample(FIELDS, rng.randint(1, 4))
        ks = rng.sample(keys, rng.choice([len(keys), rng.randint(0, len(keys))]))
        rs.append({"frames": frames(ks, rng, two), "fields": fields, "two": two})
        if rng.random() < .1:
            two = not two
    r = rs[-1]
    if r["two"] and rng.random() < .15:
        r["fields"] = rng.choice([rng.sample(IMAGES, 2), ["POSE"], ["FRONT_LEFT_WIDTH"], [rng.choice(IMAGES), "POSE"]])
        for f in r["frames"]:
            for o in f["objs"]:
                o["score"] = max(o["score"], 31)
                o["box"] = [max(11, x) for x in o["box"]]
    return {"runs": rs, "stray": rng.random() < .4}


def modelled(c, rng):
    O = lambda a, b, w, k, s: {"box": [0, 0, 0, a, w, b, 0], "cls": k, "score": s}
    of = {1: [O(1000, 1000, 1000, 1, 500)], 2: [], 3: [O(1000, 1000, 5, 1, 500), O(2000, 1000, 50, 2, 31)]}
    return {"stray": False, "runs": [{"frames": frames([(k[0], k[1]) for k in r["keys"]], rng, False, lambda *_: of[r["m"]]), "fields": ["POSE"], "two": False} for r in c["runs"]]}


CFG = """SPECIFICATION Spec
CONSTANTS Contexts = {"a"%s}
Times_ = {1, 2}
MaxRuns = %d
Emit = TRUE
INVARIANTS Folds OneEach OwnFrames LastWins PrintCase
"""


def run(ctx):
    rng = ctx.rng
    mods()
    cs = ctx.model_cases("MC_Runs", CFG % ("", 2), name="runs over a folder of results, one after the other")
    if ctx.pick(0, 1):
        cs += ctx.model_cases("MC_Runs", CFG % (', "b"', 2), name="the same with more frames")
    seen, cases = set(), []
    for c in cs:
        k = str(c)
        if k not in seen:
            seen.add(k)
            cases.append(modelled(c, rng))
    cases += [rand(rng) for _ in range(ctx.pick(700, 8000))]
    events = []
    for c, r in zip(cases, guarded(one, cases, timeout=60)):
        events += r["ok"] if "ok" in r else [{"runs": [], "got": [], "err": "", "ended": r["exc"] + ": " + r["msg"][:100], "_case": c}]
    ctx.log("%d histories" % len(events))
    rng.shuffle(events)
    ctx.validate("TraceRuns", [events[i:i + 40] for i in range(0, len(events), 40)], "runs", samples=len(events))
