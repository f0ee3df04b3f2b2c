"""C11: segmentation counts."""
import os
import re
import subprocess
import tempfile
import zlib
from concurrent.futures import ThreadPoolExecutor

from vlib import build
from vlib.harness import run_parallel
from . import detlib as D


def ints(v):
    return [len(v)] + list(v)


def ppm(v):
    return int(round(v * 1e6)) if isinstance(v, float) or isinstance(v, int) else -1


def scaled(v, unit):
    return [int(x) // unit if int(x) % unit == 0 and abs(int(x)) // unit < 2 ** 31 else -1 for x in v]


def result(r, unit=1):
    return {"iou": [ppm(x) for x in r["iou"]], "n": r["n"], "miou": ppm(r["miou"]),
            "inter": scaled(r["inter"], unit), "uni": scaled(r["uni"], unit)}


def session(rng, pts, cls):
    """The points cut into calls, with shuffles, resets before them and rejected calls between."""
    ops = []
    if rng.random() < .3:
        junk = [(rng.choice(cls), rng.choice(cls)) for _ in range(rng.randint(1, 3))]
        ops += [("u", [p for p, _ in junk], [g for _, g in junk]), ("r",)]
        if rng.random() < .5:
            ops.append(("c",))
    pts = list(pts)
    rng.shuffle(pts)
    while pts:
        k = rng.randint(0, len(pts))
        ops.append(("u", [p for p, _ in pts[:k]], [g for _, g in pts[:k]]))
        pts = pts[k:]
        if rng.random() < .25:
            ops.append(("c",))
        if rng.random() < .15:
            ops.append(("u", [cls[0]] * 2, [cls[0]]))
    ops.append(("c",))
    if rng.random() < .2:
        ops += [("r",), ("c",)]
    return ops


def run(ctx):
    h = build.cc("h_seg")
    rng = ctx.rng
    cfg = ("SPECIFICATION Spec\nCONSTANTS Labels = {0,1,2}\nMaxPoints = %d\nEmit = TRUE\nPROPERTY Grows\n"
           "INVARIANTS OneUnitEach Refold MergeAny OrderFree UnionMeaning Bounded Perfect PrintCase\n")
    cs = sorted({tuple(tuple(p) for p in c["pts"]) for c in
                 ctx.model_cases("MC_Segmentation", cfg % ctx.pick(4, 5), name="counting points", workers=8)})
    cs = [c for c in cs if list(c) == sorted(c)]
    n0 = len(cs)
    jobs = [(session(rng, c, [2, 1]), [2, 1]) for c in cs]
    for _ in range(ctx.pick(600, 6000)):
        cls = rng.sample(range(0, 23), rng.randint(1, 6))
        lab = cls + rng.sample(range(0, 23), rng.randint(0, 3))
        w = rng.choice(lab)
        pts = [(rng.choice(lab + [w] * 4), rng.choice(lab + [w] * 4)) for _ in range(rng.choice([0, 1, 3, 10, 40, 90]))]
        jobs.append((session(rng, pts, cls), cls))
    reqs = []
    for ops, cls in jobs:
        t = ["session"] + ints(cls) + [len(ops)]
        for o in ops:
            t.append(o[0])
            if o[0] == "u":
                t += ints(o[1]) + ints(o[2])
        reqs.append(" ".join(map(str, t)))
    groups = []
    for (ops, cls), r in zip(jobs, run_parallel(h, reqs)):
        g = [{"k": "new", "cls": cls, "crash": r.get("crash", "")}]
        if "out" in r:
            for o, x in zip(ops, r["out"]):
                if o[0] == "u":
                    g.append({"k": "u", "pd": o[1], "gt": o[2], "ok": x["ok"], "crash": "", "_w": 1 + len(o[1]) / 5})
                elif o[0] == "r":
                    g.append({"k": "r", "crash": ""})
                else:
                    g.append(dict(result(x), k="c", crash="", _w=3))
        groups.append(g)
    ctx.validate("TraceSegmentation", groups, "evaluator histories", samples=len(jobs) - n0)

    # merging, with counts of any magnitude
    reqs, meta = [], []
    for _ in range(ctx.pick(400, 4000)):
        cls = rng.sample(range(0, 23), rng.randint(1, 5))
        unit = rng.choice([1, 1, 7, 10 ** 6, 10 ** 9, 3 * 10 ** 11])
        ins, uns = [], []
        for _ in range(rng.randint(0, 5)):
            u = [rng.choice([0, 1, 5, 100, 3000]) for _ in cls]
            uns.append(u)
            ins.append([rng.randint(0, x) for x in u])
        t = ["merge"] + ints(cls) + [len(ins)]
        for a, b in zip(ins, uns):
            t += ints([unit * x for x in a]) + ints([unit * x for x in b])
        reqs.append(" ".join(map(str, t)))
        meta.append(({"k": "merge", "cls": cls, "ins": ins, "uns": uns}, unit))
    groups = []
    for (e, unit), r in zip(meta, run_parallel(h, reqs)):
        g = dict(e, crash=r.get("crash", ""))
        if "iou" in r:
            g.update(result(r, unit))
        groups.append([g])
    ctx.validate("TraceSegmentation", groups, "merging measurements", samples=len(groups))

    # the command line tool
    tool = build.cc_targets("bin/waymo_open_dataset/metrics/tools/compute_segmentation_metrics_main")[0]
    D.pb()
    from waymo_open_dataset import dataset_pb2
    from waymo_open_dataset.protos import segmentation_metrics_pb2, segmentation_pb2
    names = {v.name: v.number for v in segmentation_pb2.Segmentation.Type.DESCRIPTOR.values}
    cls = sorted(n for n in names.values() if n)

    def image(ret, labels):
        m = dataset_pb2.MatrixInt32()
        m.data.extend(labels)
        m.shape.dims.extend([1, len(labels)])
        ret.segmentation_label_compressed = zlib.compress(m.SerializeToString())

    def build_case(k):
        pdl, gtl = segmentation_metrics_pb2.SegmentationFrameList(), segmentation_metrics_pb2.SegmentationFrameList()
        frames = []
        keys = [(c, t) for c in ("a", "b") for t in (1, 2, 30)]
        rng.shuffle(keys)
        lab = rng.sample(range(0, 23), rng.randint(1, 5))
        for c, t in keys[:rng.randint(1, 5)]:
            truth = [[rng.choice(lab) for _ in range(rng.choice([1, 2, 6]))] for _ in range(2)]
            has_gt = rng.random() < .85
            how = rng.choice(["ok"] * 5 + ["none", "none", "laser"])
            if has_gt:
                f = gtl.frames.add(context_name=c, frame_timestamp_micros=t)
                s = f.segmentation_labels.add(name=dataset_pb2.LaserName.TOP)
                image(s.ri_return1, truth[0])
                image(s.ri_return2, truth[1])
            pred = [[rng.choice(lab + [x, x, x]) for x in tr] for tr in truth]
            if how != "none":
                f = pdl.frames.add(context_name=c, frame_timestamp_micros=t)
                s = f.segmentation_labels.add(name=dataset_pb2.LaserName.TOP if how == "ok" else dataset_pb2.LaserName.FRONT)
                image(s.ri_return1, pred[0])
                image(s.ri_return2, pred[1])
            if has_gt:
                for p, tr in zip(pred, truth):
                    frames.append({"pd": p if how == "ok" else [0] * len(tr), "gt": tr})
        if not gtl.frames:
            return None
        fr = list(pdl.frames)
        rng.shuffle(fr)
        pdl2 = segmentation_metrics_pb2.SegmentationFrameList(frames=fr)
        return pdl2.SerializeToString(), gtl.SerializeToString(), frames

    def drive(case):
        if case is None:
            return None
        pd, gt, frames = case
        with tempfile.TemporaryDirectory() as d:
            for n, b in (("pd", pd), ("gt", gt)):
                with open(d + "/" + n, "wb") as f:
                    f.write(b)
            p = subprocess.run([tool, d + "/pd", d + "/gt"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
        e = {"k": "tool", "cls": cls, "frames": frames, "crash": "exit %d" % p.returncode if p.returncode else "",
             "iou": [-1] * len(cls), "miou": -1, "_w": 60, "_err": p.stderr.decode("utf8", "replace")[-400:]}
        for n, v in re.findall(r"^(TYPE_\w+):(\S+)$", p.stdout.decode(), re.M):
            e["iou"][cls.index(names[n])] = ppm(float(v))
        m = re.search(r"^miou=(\S+)$", p.stdout.decode(), re.M)
        if m:
            e["miou"] = ppm(float(m.group(1)))
        return [e]
    cases = [build_case(k) for k in range(ctx.pick(60, 400))]
    with ThreadPoolExecutor(8) as ex:
        groups = [g for g in ex.map(drive, cases) if g]
    ctx.validate("TraceSegmentation", groups, "segmentation metrics tool", samples=len(groups))
