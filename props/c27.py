"""C27: comparing latency results with a submission."""
import copy
import os
import shutil
import tempfile

from vlib import build
from vlib.harness import run_parallel
from . import detlib as D

METHODS = ["abc", "my method", "P1", "HAHA", "x", "(0)", "p0p0", "`a", "v2"]


def frame_of(fr):
    """Frames differ in context, timestamp or camera only."""
    return {"a": ("ctx", 1000, 1), "b": ("ctx", 1000, 2), "c": ("ctx", 1010, 1), "d": ("other", 1000, 1), "e": ("", 0, 0),
            "f": ("ctx", 1000, 3)}[fr]


def make(o, kind, rng):
    p = D.pb()["metrics"].Object()
    p.context_name, p.frame_timestamp_micros, p.camera_name = frame_of(o["fr"])
    p.score = o["sc"] / 1e3
    p.object.type = o["ty"]
    p.object.id = "i%d" % rng.randrange(9)
    b = p.object.box
    cx, cy = o["x"] + o["l"] / 2, o["y"] + o["w"] / 2
    px, py = (o["cl"] % 12) * 1000, (o["cl"] // 12) * 1000
    s = 1 if kind == "2d" else .05
    b.center_x, b.center_y, b.length, b.width = (px + cx) * s, (py + cy) * s, o["l"] * s, o["w"] * s
    if kind == "3d":
        b.center_z, b.height, b.heading = 1, 2, 0
    return p


def write(path, objs, form, sub, rng):
    m = D.pb()["metrics"].Objects()
    m.objects.extend(objs)
    if form == "submission":
        s = sub.Submission()
        s.inference_results.CopyFrom(m)
        name = rng.choice(METHODS)
        s.unique_method_name, s.account_name = name, "a@b.com"
        if rng.random() < .5:
            s.task = 1
            s.authors.append("x")
        m = s
    open(path, "wb").write(m.SerializeToString())


def spoil(rng, a, thr):
    """Random changes; overlaps stay clear of the threshold."""
    a = copy.deepcopy(a)
    for _ in range(rng.choice([0, 1, 1, 2, 3, 5])):
        if not a:
            break
        o = rng.choice(a)
        k = rng.randrange(7)
        if k == 0:
            a.remove(o)
        elif k == 1:
            o["sc"] = max(0, min(1000, o["sc"] + rng.choice([-200, -52, -48, 10, 48, 52, 300])))
        elif k == 2:
            o["ty"] = rng.choice([0, 1, 2, 3, 4])
        elif k == 3:
            o["x"] += rng.choice([1, 2, 3, 20, 40, 300])
        elif k == 4:
            o["fr"] = rng.choice("abcd")
        elif k == 5:
            a.append(dict(o, sc=rng.randrange(100, 1000)))
        else:
            o["w"] += rng.choice([0, 1, 2, 30])
    return a


def clear(lat, full, thr):
    """No pair's overlap is too close to the threshold; no two scores differ by just about the tolerance."""
    for a in lat:
        for b in full:
            if a["cl"] != b["cl"] or a["fr"] != b["fr"]:
                continue
            ix = max(0, min(a["x"] + a["l"], b["x"] + b["l"]) - max(a["x"], b["x"]))
            iy = max(0, min(a["y"] + a["w"], b["y"] + b["w"]) - max(a["y"], b["y"]))
            i = ix * iy
            u = a["l"] * a["w"] + b["l"] * b["w"] - i
            if abs(i / u - thr / 1000) < 2e-3:
                return False
            if abs(abs(a["sc"] - b["sc"]) - 50) < 1:
                return False
    return True


def run(ctx):
    rng = ctx.rng
    h = build.cc("h_compare")
    sub = D.module("protos.submission_pb2")
    inv = "INVARIANTS EqualAccepted OrderFree MoreTolerantAcceptsMore UnseenIgnored MissingFrameRejected NothingAccepted OneChange"
    cs = ctx.model_cases("MC_LatencyCheck", "SPECIFICATION Spec\nCONSTANTS Fillers = {0,17,37}\nMaxChanges = 2\nFrs = {\"a\",\"b\"}\nEmit = TRUE\n%s PrintCase\n" % inv,
                         name="two drifting lists", workers=8)
    if ctx.thorough:
        ctx.model("MC_LatencyCheck", "SPECIFICATION Spec\nCONSTANTS Fillers = {0,17}\nMaxChanges = 3\nFrs = {\"a\",\"b\"}\nEmit = FALSE\n%s\n" % inv, name="three changes", timeout=3000)
    jobs = [{"lat": c["lat"], "full": c["full"], "thr": 900, "min": 0} for c in cs]
    jobs = [j for j in jobs if clear(j["lat"], j["full"], 900)]
    rng.shuffle(jobs)
    jobs = jobs[:ctx.pick(900, 20000)]
    n0 = len(jobs)

    def objs(kmax):
        out = []
        for c in range(rng.choice([0, 1, 3, 8, 19, 20, 21, 39, 41, 60]) if kmax > 9 else rng.randint(0, kmax)):
            for _ in range(rng.choice([1, 1, 1, 1, 2, 3])):
                out.append({"fr": rng.choice("aaaaaaaaab"), "ty": rng.choice([1, 1, 1, 2, 3, 4]), "cl": c, "x": rng.choice([0, 0, 2, 4, 40]), "l": rng.choice([100, 100, 120]),
                            "y": 0, "w": 40, "sc": rng.randrange(0, 1001, 10) + rng.choice([0, 1])})
        return out

    while len(jobs) - n0 < ctx.pick(900, 12000):
        thr = rng.choice([900, 900, 900, 700, 300])
        lat = objs(rng.choice([4, 50]))
        full = spoil(rng, lat, thr)
        if rng.random() < .3:
            lat = spoil(rng, lat, thr)
        if rng.random() < .3:
            full = full + [dict(o, fr="f") for o in objs(3)]
        rng.shuffle(full)
        if clear(lat, full, thr):
            jobs.append({"lat": lat, "full": full, "thr": thr, "min": rng.choice([0, 0, 0, 250, 500]), "_opt": True})
    top = tempfile.mkdtemp(prefix="c27-")
    try:
        reqs, groups = [], []
        for n, j in enumerate(jobs):
            d = "%s/%d" % (top, n)
            os.makedirs(d)
            kind = rng.choice(["3d", "2d"])
            e = {"lat": j["lat"], "full": j["full"], "thr": j["thr"], "min": j["min"], "readable": True, "_kind": kind}
            lat = [make(o, kind, rng) for o in j["lat"]]
            full = [make(o, kind, rng) for o in j["full"]]
            form = rng.choice(["objects", "submission"])
            write(d + "/lat", lat, rng.choice(["objects", "objects", form]), sub, rng)
            k = rng.choice([1, 1, 2, 3])
            cut = sorted(rng.randint(0, len(full)) for _ in range(k - 1))
            names = []
            for q, (x, y) in enumerate(zip([0] + cut, cut + [len(full)])):
                write("%s/f%d" % (d, q), full[x:y], form, sub, rng)
                names.append("%s/f%d" % (d, q))
            if rng.random() < .02:
                e["readable"] = False
                w = rng.choice(["lat"] + ["f%d" % q for q in range(k)])
                os.remove("%s/%s" % (d, w))
                if rng.random() < .5:
                    open("%s/%s" % (d, w), "wb").write(b"\xff\xff\xff\xff\xff")
            args = ["--latency_result_filename=%s/lat" % d, "--full_result_filenames=" + ",".join(names)]
            if j["thr"] != 900 or rng.random() < .3:
                args.append("--iou_threshold=%g" % (j["thr"] / 1000))
            if j["min"]:
                args.append("--minimum_score=%g" % (j["min"] / 1000))
            reqs.append("run %d %s" % (len(args), " ".join(a.encode().hex() for a in args)))
            groups.append([e])
        for g, r in zip(groups, run_parallel(h, reqs, cwd=top)):
            g[0]["accepted"] = r.get("rc") == 0
            g[0]["_rc"] = r
            g[0]["_w"] = 1 + len(g[0]["lat"])
    finally:
        shutil.rmtree(top)
    ctx.log("accepted %d of %d" % (sum(g[0]["accepted"] for g in groups), len(groups)))
    ctx.validate("TraceLatencyCheck", groups, "comparison", samples=len(jobs) - n0)
