"""C26: packaging predictions into submission shards."""
import copy
import math
import os
import shutil
import tempfile

from vlib import build
from vlib.harness import run_parallel
from . import detlib as D

DIMS = ("length", "width", "height")
NUMS = ("length", "width", "height", "center_x", "center_y", "center_z", "heading")


def make(o, n, rng):
    """A prediction: the modelled part from o, everything else chosen here."""
    p = D.pb()["metrics"].Object()
    p.score = o["sc"] / 1e6
    p.context_name = rng.choice(["ctx", "", "line\n", "a\nb"]) or "c%d" % n
    if rng.random() < .8:
        p.frame_timestamp_micros = rng.choice([10, 1000 + n, 1280, 10 * 128 + 5, 1553629304740796])
    if rng.random() < .4:
        p.camera_name = rng.choice([1, 2, 5])
    if rng.random() < .3:
        p.overlap_with_nlz = True
    l = p.object
    l.id = "o%d" % n
    l.type = rng.choice([0, 1, 2, 3, 4])
    b = l.box
    for f, d in zip(DIMS, o["dims"]):
        setattr(b, f, d / 1e7)
    b.center_x, b.center_y, b.center_z = rng.uniform(-80, 80), rng.uniform(-80, 80), rng.uniform(-3, 3)
    if rng.random() < .8:
        b.heading = rng.uniform(-4, 4)
    if rng.random() < .4:
        l.metadata.speed_x = rng.uniform(-9, 9)
        l.num_lidar_points_in_box = rng.randrange(99)
    for f in rng.sample(NUMS, o["nan"]):
        setattr(b, f, math.nan)
    return p


def view(p):
    q = D.pb()["metrics"].Object()
    q.CopyFrom(p)
    b = q.object.box
    dims = []
    for f in DIMS:
        v = getattr(b, f)
        if math.isnan(v):
            dims.append(0)
        else:
            dims.append(int(max(-2e9, min(2e9, round(v * 1e7)))))
        b.ClearField(f)
    return {"rest": q.SerializeToString().hex(), "sc": round(p.score * 1e6), "dims": dims}


TEXT = '''task: DETECTION_3D
account_name: "a@b.com"
unique_method_name: "m"
authors: "x"
authors: "y"
affiliation: "z"
description: "d"
sensor_type: CAMERA_ALL
number_past_frames_exclude_current: 2
object_types: TYPE_VEHICLE
object_types: TYPE_CYCLIST
latency_second: 0.25
'''
TEMPLATES = {"good": [TEXT, 'unique_method_name: "q" account_name: "r"', "# note\n" + TEXT],
             "bad": [TEXT.replace('account_name: "a@b.com"\n', ""), TEXT.replace('unique_method_name: "m"', ""), 'unique_method_name: ""\naccount_name: "x"',
                     "", TEXT + "no_such_field: 3", "{"]}


def run(ctx):
    rng = ctx.rng
    h = build.cc("h_submit")
    sub = D.module("protos.submission_pb2")
    cs = ctx.model_cases("MC_Packaging", "SPECIFICATION Spec\nCONSTANTS MaxObjs = %d\nMaxFiles = 2\nShards = {1,2,3}\nKinds = {\"ok\",\"low\",\"nan\",\"edge\"}\n"
                         "Emit = TRUE\nPROPERTY GrowsOnly\nINVARIANTS ConservedAtEnd EvenAlways NeverInvents EveryPredictionIsDecided PrintCase\n" % ctx.pick(3, 4),
                         name="packaging", workers=8)
    ctx.model("MC_Packaging", "SPECIFICATION Spec\nCONSTANTS MaxObjs = %d\nMaxFiles = 3\nShards = {1,2,4,5}\nKinds = {\"ok\",\"low\"}\nEmit = FALSE\n"
              "PROPERTY GrowsOnly\nINVARIANTS ConservedAtEnd EvenAlways NeverInvents EveryPredictionIsDecided\n" % ctx.pick(5, 7), name="packaging, longer files")
    jobs = [{"files": [{"objs": f["objs"], "readable": True} for f in c["files"]], "n": c["n"], "template": "good", "output": True} for c in cs]
    n0 = len(jobs)
    rng.shuffle(jobs)
    jobs = jobs[:ctx.pick(1500, 100000)]

    def objs(k):
        return [{"sc": rng.choice([0, 1000, 28999, 31001, 500000, 1000000, rng.randrange(0, 29000), rng.randrange(31000, 10**6)]),
                 "nan": rng.choice([0] * 12 + [1, 2, 7]),
                 "dims": [rng.choice([0, 9, 10, 11, 5, 20000000, rng.randrange(4 * 10**7), -10000000]) for _ in DIMS]} for _ in range(k)]

    for _ in range(ctx.pick(500, 6000)):
        j = {"files": [{"objs": objs(rng.choice([0, 1, 2, 5, 9, rng.randint(0, 40)])), "readable": True} for _ in range(rng.choice([1, 1, 1, 2, 3]))],
             "n": rng.choice([1, 2, 3, 4, 5, 8, 11]), "template": "good", "output": True}
        k = rng.random()
        if k < .04:
            j["n"] = rng.choice([0, -1])
        elif k < .08:
            j["files"][rng.randrange(len(j["files"]))]["readable"] = False
        elif k < .14:
            j["template"] = "bad"
        elif k < .16:
            j["output"] = False
        elif k < .18:
            j["files"] = []
        elif k < .3:
            j["default_n"] = True
            j["n"] = 4
        jobs.append(j)
    top = tempfile.mkdtemp(prefix="c26-")
    try:
        reqs, events = [], []
        for jn, j in enumerate(jobs):
            d = "%s/%d" % (top, jn)
            os.makedirs(d + "/out")
            names, cnt = [], 0
            for fn, f in enumerate(j["files"]):
                m = D.pb()["metrics"].Objects()
                f["view"] = []
                for o in f["objs"]:
                    p = make(o, cnt, rng)
                    cnt += 1
                    m.objects.append(p)
                    f["view"].append(dict(view(p), nan=o["nan"]))
                b = m.SerializeToString()
                if not f["readable"]:
                    b = rng.choice([b"\x0a\x55", b"\xff\xff\xff", None])
                elif rng.random() < .25:
                    b += b"\n"
                name = "%s/in%d" % (d, fn)
                if b is not None:
                    open(name, "wb").write(b)
                names.append(name)
            text = rng.choice(TEMPLATES[j["template"]])
            open(d + "/t", "w").write(text)
            meta = ""
            if j["template"] == "good":
                from google.protobuf import text_format
                meta = text_format.Parse(text, sub.Submission()).SerializeToString().hex()
            args = ["--submission_filename=%s/t" % d]
            if names:
                args.append("--input_filenames=" + ",".join(names))
            if j["output"]:
                args.append("--output_filename=%s/out/s" % d)
            if not j.get("default_n"):
                args.append("--num_shards=%d" % j["n"])
            if j["template"] == "bad" and rng.random() < .2:
                args = args[1:]
            reqs.append("run %d %s" % (len(args), " ".join(a.encode().hex() for a in args)))
            events.append({"q": {"files": [{"readable": f["readable"], "objs": f["view"]} for f in j["files"]], "n": j["n"],
                                 "template": j["template"], "output": j["output"], "meta": meta}})
        groups = []
        for jn, (e, r) in enumerate(zip(events, run_parallel(h, reqs, cwd=top))):
            out = "%s/%d/out" % (top, jn)
            got = sorted(os.listdir(out))
            e["ok"] = r.get("rc") == 0
            e["names"] = set(got) == {"s%d" % k for k in range(len(got))}
            e["shards"] = []
            if e["ok"] and e["names"]:
                for k in range(len(got)):
                    s = sub.Submission()
                    try:
                        s.ParseFromString(open("%s/s%d" % (out, k), "rb").read())
                    except Exception:
                        e["shards"].append({"meta": "unreadable", "objs": []})
                        continue
                    os_ = [view(p) for p in s.inference_results.objects]
                    extra = s.inference_results.no_label_zone_objects
                    s.ClearField("inference_results")
                    e["shards"].append({"meta": s.SerializeToString().hex() + ("+zones" if extra else ""), "objs": os_})
            e["_rc"] = r
            e["_w"] = 1 + sum(len(f["objs"]) for f in e["q"]["files"])
            groups.append([e])
    finally:
        shutil.rmtree(top)
    ctx.validate("TracePackaging", groups, "packaging", samples=len(jobs) - min(n0, len(jobs)))
