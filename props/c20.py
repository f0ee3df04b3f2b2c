"""C20: the range image codec."""
import zlib

import numpy as np

from vlib.pyrun import guarded
from . import detlib as D

DY = [1.0, .5, 1 / 64, 2.0, 8.0, 1 / 1024]
DEC = [.1, .01, .001, .05, 3.3, 1 / 3, 7e-5]


def shapes(n, rng):
    o = [(h, w, n // (h * w)) for h in range(1, n + 1) if n % h == 0 for w in range(1, n // h + 1) if (n // h) % w == 0]
    return rng.choice(o)


def quanta(dec, prec):
    """Decoded values in quanta; whether all are whole."""
    q = dec / np.asarray(prec, dtype=np.float64)
    r = np.rint(q)
    return r, bool(np.all(np.abs(q - r) <= 1e-6 * np.abs(r) + 1e-9))


def wire(b):
    pb = D.module("protos.compressed_lidar_pb2")
    m = pb.DeltaEncodedData.FromString(zlib.decompress(b))
    return [int(x) for x in m.mask], [int(x) for x in m.residual], [int(x) for x in m.metadata.shape]


def lay_out(a, kind):
    """The same array in another memory layout."""
    if kind == 1:
        return np.asfortranarray(a)
    if kind == 2:
        b = np.zeros((a.shape[0] * 2, a.shape[1], a.shape[2] + 1), a.dtype)
        b[::2, :, :-1] = a
        return b[::2, :, :-1]
    if kind == 3:
        return np.ascontiguousarray(a.transpose(2, 0, 1)).transpose(1, 2, 0)
    return a


def stretches(v):
    v = np.asarray(v)
    if not v.size:
        return []
    at = np.r_[0, np.flatnonzero(np.diff(v)) + 1, v.size]
    return [[int(v[a]), int(b - a)] for a, b in zip(at[:-1], at[1:])]


def run_one(j):
    enc = D.module("utils.compression.delta_encoder")
    if j["k"] == "long":
        h, w, c = j["shape"]
        a = np.concatenate([np.full(n, v, dtype=np.float64) for v, n in j["x"]]).reshape(c, h, w).transpose(1, 2, 0) * j["arg"]
        before = a.copy()
        b = enc.compress(a, j["arg"])
        runs, res, meta = wire(b)
        q, ex = quanta(enc.decompress(b), j["arg"])
        return {"same": bool(np.array_equal(a, before)), "out": stretches(q.transpose(2, 0, 1).ravel()) if ex and q.shape == a.shape else [], "runs": runs, "res": stretches(res)}
    if j["k"] == "bad":
        enc.compress(np.ones(j["shape"]), j["prec"])
        return {}
    if j["k"] == "read":
        pb = D.module("protos.compressed_lidar_pb2")
        m = pb.DeltaEncodedData(residual=j["res"], mask=j["runs"],
                                metadata=pb.Metadata(shape=j["shape"], quant_precision=j["prec"]))
        d = enc.decompress(zlib.compress(m.SerializeToString()))
        q, ex = quanta(d, j["prec"])
        return {"out": [int(x) for x in q.ravel()], "outshape": list(d.shape), "exact": ex}
    p = np.asarray(j["prec"], dtype=np.float64)
    if j["k"] == "big":
        a = lay_out((np.array(j["q"], dtype=np.float64).reshape(j["shape"]) * p), j["layout"])
    else:
        a = np.array(j["x"], dtype=np.float64).reshape(j["shape"]) / 64 * p
        if j["dtype"].startswith("int") or j["dtype"].startswith("uint"):
            a = np.rint(a)
        a = lay_out(a.astype(j["dtype"]), j["layout"])
    before = a.copy()
    arg = j["arg"]
    b = enc.compress(a, arg)
    same = bool(np.array_equal(a, before) and a.dtype == before.dtype)
    d = enc.decompress(b)
    q, ex = quanta(d, p)
    if j["k"] == "big":
        return {"same": same, "out": [str(int(x)) for x in q.ravel()]}
    runs, res, meta = wire(b)
    return {"same": same, "out": [int(x) for x in q.ravel()], "outshape": list(d.shape), "exact": ex,
            "runs": runs, "res": res, "meta": meta}


def run(ctx):
    rng = ctx.rng
    D.module("utils.compression.delta_encoder")
    cases = ctx.model_cases(
        "MC_DeltaCoder",
        "SPECIFICATION Spec\nCONSTANTS MaxAbs = 2\nMaxPixels = %d\nEmit = TRUE\nPROPERTY Grows\n"
        "INVARIANTS RoundTrip WellFormed Minimal FirstKind Batch Cuttable Injective ChannelOrder LongWay PrintCase\n" % ctx.pick(5, 6),
        name="writer and reader", workers=8)
    jobs = []

    def comp(img, shape, exhaustive=False):
        """img: quanta, row-major."""
        c = shape[2]
        single = c > 0 and rng.random() < .4
        dyadic = rng.random() < .5
        prec = [rng.choice(DY if dyadic else DEC)] * c if single else [rng.choice(DY if dyadic else DEC) for _ in range(c)]
        dtype = rng.choice(["float64", "float64", "float32"])
        x = []
        for v in img:
            off = rng.choice([0, 0, rng.randint(-24, 24)] + ([-32, 32, -31, 31] if dyadic else []))
            x.append(64 * v + off)
        if rng.random() < .12:                      # whole-number arrays and precisions
            dtype = rng.choice(["int64", "int32", "uint8", "int16"])
            pi = rng.choice([1, 2, 5])
            prec, dyadic = [pi] * c, False
            lim = {"uint8": (0, 250), "int16": (-30000, 30000)}.get(dtype, (-10 ** 6, 10 ** 6))
            img = [max(lim[0] // pi + 1 if lim[0] else 0, min(lim[1] // pi - 1, v)) for v in img]
            x = [64 * v for v in img]
            if single and rng.random() < .5:
                prec = [float(p) for p in prec]
            if single and dtype == "uint8" and rng.random() < .7:
                prec = [.25] * c                    # more quanta than the array's own type can hold
                x = [4 * 64 * min(250, abs(v)) for v in img]
        form = rng.random()
        if single:
            arg = prec[0] if form < .7 else list(prec)
        else:
            arg = list(prec) if form < .8 else tuple(prec)
        jobs.append({"k": "comp", "x": x, "shape": shape, "prec": prec, "arg": arg, "dtype": dtype,
                     "layout": rng.choice([0, 0, 1, 2, 3])})

    # every image of the model, in a layout of its size; every stream of the model, also with cut runs
    for c in cases:
        n = len(c["img"])
        comp(c["img"], shapes(n, rng))
        if rng.random() < ctx.pick(.5, 1):
            runs = list(c["runs"])
            for _ in range(rng.choice([0, 0, 1, 2])):
                i = rng.randrange(len(runs))
                k = rng.randint(0, runs[i])
                runs[i:i + 1] = [k, 0, runs[i] - k]
            sh = shapes(n, rng)
            jobs.append({"k": "read", "runs": runs, "res": c["res"], "shape": sh,
                         "prec": [rng.choice(DY + DEC) for _ in range(sh[2])]})
    n0 = len(jobs)
    for _ in range(ctx.pick(260, 3000)):
        shape = (rng.randint(1, 8), rng.randint(1, 12), rng.choice([1, 2, 3, 4, 6]))
        n = shape[0] * shape[1] * shape[2]
        mag = rng.choice([1, 3, 100, 5000, 100000])
        dens = rng.choice([0, .1, .5, .9, 1])
        img, zero = [], False
        for _ in range(n):
            if rng.random() < .3:
                zero = rng.random() >= dens
            img.append(0 if zero else rng.randint(-mag, mag))
        if rng.random() < .15:
            img = [abs(v) for v in img]
        comp(img, shape)
    for shape in [(0, 4, 2), (3, 0, 1), (2, 2, 0), (1, 1, 1), (1, 300, 1), (70000 // 3, 1, 1)][:ctx.pick(5, 6)]:
        n = shape[0] * shape[1] * shape[2]
        comp([rng.choice([0, 0, 1, -7]) for _ in range(n)], shape)
    for _ in range(ctx.pick(60, 400)):              # differences beyond 32 bits
        shape = (rng.randint(1, 3), rng.randint(1, 4), rng.randint(1, 2))
        n = shape[0] * shape[1] * shape[2]
        m = rng.choice([2 ** 31, 2 ** 33, 2 ** 45])
        q = [rng.choice([0, m, -m, m - 1, rng.randint(-m, m)]) for _ in range(n)]
        p = rng.choice([1.0, .5, 1 / 256])
        jobs.append({"k": "big", "q": q, "shape": shape, "prec": [p] * shape[2], "arg": p, "layout": rng.choice([0, 1])})
    for k in range(ctx.pick(8, 60)):                # runs and images past 16 bits
        shape = rng.choice([(64, 2650, 2), (200, 1000, 1), (1, 65535, 3), (300, 400, 2), (65535, 2, 1)])
        n = shape[0] * shape[1] * shape[2]
        left, xs = n, []
        while left:
            m = min(left, rng.choice([left, 65535, 65536, 65537, 131072, 32768, 40000, 1, 3, rng.randint(1, n)]))
            xs.append([rng.choice([0, 0, 1, -1, 9, 300]), m])
            left -= m
        jobs.append({"k": "long", "x": xs, "shape": shape, "arg": rng.choice([.5, .1])})
    bad = [((2, 2, 2), 0), ((2, 2, 2), -1), ((2, 2, 2), -0.1), ((2, 2, 2), 0.0), ((2, 2, 2), [.1]), ((2, 2, 2), [.1, .1, .1]),
           ((2, 2, 3), [.1, 0, .1]), ((2, 2, 3), [.1, .1, -2]), ((2, 2, 3), [0, .1, .1]), ((1, 2, 1), []), ((65536, 1, 1), .1),
           ((1, 65536, 1), .1), ((1, 70000, 2), [.1, 1]), ((1, 1, 65536), 1)]
    for s, p in bad:
        jobs.append({"k": "bad", "shape": s, "prec": p})
    groups = []
    for j, r in zip(jobs, guarded(run_one, jobs)):
        e = {"k": j["k"], "exc": r.get("exc", ""), "_msg": r.get("msg", ""), "_prec": str(j.get("arg")), "_dtype": j.get("dtype"),
             "_layout": j.get("layout"), "_shape": list(j["shape"])}
        if j["k"] == "comp":
            e.update(x=j["x"])
        if j["k"] == "long":
            e.update(x=j["x"])
        if j["k"] == "big":
            e.update(x=[str(v) for v in j["q"]])
        if j["k"] == "read":
            e.update(runs=j["runs"], res=j["res"])
        e.update(zip("hwc", [int(x) for x in j["shape"]]))
        e.update(r.get("ok", {}))
        e["_w"] = 1 + len(j.get("x", [])) / 4
        groups.append([e])
    ctx.validate("TraceDeltaCoder", groups, "compressions", samples=len(jobs) - n0)
