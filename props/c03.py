"""C03: per-frame tracking accounting and identity continuity."""
from vlib import build, tlc
from vlib.harness import run_parallel

THR = [500000] * 5


def request(c):
    L = lambda v: [len(v)] + list(v)
    t = ["mot", c["kind"]] + L(c["thr"]) + [c["level"], c["det"], len(c["frames"])]
    for f in c["frames"]:
        t.append(len(f["G"]))
        for g in f["G"]:
            t += [g["id"], g["ty"], g["td"], g.get("dd", -1)]
        t.append(len(f["P"]))
        for p in f["P"]:
            t += [p["id"], p["ty"], p["nlz"], p["sc"]]
        t += [len(f["P"]), len(f["G"])] + [x for r in f["iou"] for x in r]
        t += L(f["gs"]) + L(f["ps"])
    return " ".join(map(str, t))


def group(c, r):
    ev = [{"ev": "start", "kind": c["kind"], "thr": c["thr"], "level": c["level"],
           "det": bool(c["det"]), "crash": r.get("crash", ""), "_w": 3}]
    for f, o in zip(c["frames"], r.get("frames", [])):
        fr = {"g": [{"id": f["G"][k]["id"], "ty": f["G"][k]["ty"], "td": max(0, f["G"][k]["td"])}
                    for k in f["gs"]],
              "p": [{"id": f["P"][k]["id"], "ty": f["P"][k]["ty"], "nlz": f["P"][k]["nlz"] == 1,
                     "sc": f["P"][k]["sc"]} for k in f["ps"]],
              "iou": [[f["iou"][p][g] for g in f["gs"]] for p in f["ps"]]}
        ev.append({"ev": "frame", "f": fr, "o": o, "_w": 5 + len(f["gs"]) * len(f["ps"])})
    return ev


def from_model(c, rng):
    """A behaviour of the model -> a concrete history (objects outside the subset added)."""
    frames = []
    for f in c["frames"]:
        G = [dict(g, td=g["td"]) for g in f["g"]]
        P = [dict(p, nlz=int(p["nlz"])) for p in f["p"]]
        frames.append({"G": G, "P": P, "iou": f["iou"], "gs": list(range(len(G))),
                       "ps": list(range(len(P)))})
    return {"kind": c["kind"], "thr": THR, "level": c["level"], "det": 1, "frames": frames}


def random_case(rng, det, kinds="HHS"):
    ng, np_ = rng.randint(1, 4 if det else 3), rng.randint(1, 5 if det else 3)
    classes = rng.choice([[1], [1], [1, 2], [1, 2, 4]])
    gty = [rng.choice(classes) for _ in range(ng)]
    pty = [rng.choice(classes) for _ in range(np_)]
    style = rng.choice(["sticky", "churn", "swap", "any"])
    thr = rng.choice([THR, [1, 300000, 500000, 700000, 400000], [1, 500000, 500000, 1, 999999]])
    frames = []
    sticky = [[rng.choice([0, thr[pty[p]], 900000, 1000000]) for _ in range(ng)] for p in range(np_)]
    for _ in range(rng.randint(1, rng.choice([3, 6, 12]))):
        pres = {"sticky": .9, "churn": .5, "swap": .85, "any": .7}[style]
        gs = [g for g in range(ng) if rng.random() < pres]
        ps = [p for p in range(np_) if rng.random() < pres]
        rng.shuffle(gs)
        rng.shuffle(ps)
        G = [{"id": "g%d" % g, "ty": gty[g], "td": rng.choice([-1, 0, 1, 2, 1, 2]),
              "dd": rng.choice([-1, 1, 2])} for g in gs]
        P = [{"id": "p%d" % p, "ty": pty[p], "nlz": rng.choice([-1, 0, 0, 1]),
              "sc": rng.choice([500000, rng.randint(0, 1000000)])} for p in ps]
        if P and rng.random() < .15:  # a repeated prediction id
            d = dict(rng.choice(P), sc=rng.randint(0, 1000000), nlz=rng.choice([0, 1]))
            P.insert(rng.randint(0, len(P)), d)
        iou = []
        for p in P:
            row = []
            for g in G:
                t = thr[p["ty"]]
                if style == "sticky" and rng.random() < .9:
                    v = sticky[int(p["id"][1:])][int(g["id"][1:])]
                elif style == "any":
                    v = rng.randint(0, 1000000)
                else:
                    v = rng.choice([0, t - 1, t, min(1000000, t + 1), 750000, 1000000])
                row.append(max(0, v))
            iou.append(row)
        gi, pi = list(range(len(G))), list(range(len(P)))
        if rng.random() < .3:
            gi = rng.sample(gi, rng.randint(0, len(gi)))
            pi = rng.sample(pi, rng.randint(0, len(pi)))
        frames.append({"G": G, "P": P, "iou": iou, "gs": gi, "ps": pi})
    return {"kind": rng.choice(kinds), "thr": thr, "level": rng.choice([1, 2, 2]), "det": int(det),
            "frames": frames}


def drive(cases):
    h = build.cc("h_metrics")
    return [group(c, r) for c, r in zip(cases, run_parallel(h, [request(c) for c in cases]))]


def run(ctx):
    build.cc("h_metrics")
    base = ("SPECIFICATION Spec\nCONSTANTS NG = %d NP = %d Overlaps = {%s} Frames = %d Kinds = {%s} "
            "Emit = %s\nINVARIANTS OneToOne Partition Conservation Recorded Stable Bounds Maximal\n")
    prop = "PROPERTY Continuity\n"
    view = "VIEW SmallView\n"
    ctx.model("MC_MOT", base % (2, 2, "0,600000", ctx.pick(2, 3), '"H"', "FALSE") + prop + view,
              name="MOT 2x2 objects", heap="8g")
    if ctx.thorough:
        ctx.model("MC_MOT", base % (2, 2, "0,600000,700000", 2, '"H","S"', "FALSE") + prop + view,
                  name="MOT 2x2 three overlaps", heap="8g")
        ctx.model("MC_MOT", base % (2, 3, "0,600000", 2, '"H"', "FALSE") + prop + view,
                  name="MOT 2x3 objects", heap="8g")
    r = ctx.model("MC_MOT", base % (1, 2, "0,600000", 3, '"H"', "TRUE") + "INVARIANT PrintCase\n",
                  name="MOT 1x2 histories", workers=1)
    cases = tlc.cases(r)
    r = ctx.model("MC_MOT", base % (2, 1, "0,600000", 3, '"H"', "TRUE") + "INVARIANT PrintCase\n",
                  name="MOT 2x1 histories", workers=1)
    cases += tlc.cases(r)
    seen, uniq = set(), []
    for c in cases:
        k = repr(c)
        if k not in seen:
            seen.add(k)
            uniq.append(c)
    if not ctx.thorough:
        uniq = ctx.rng.sample(uniq, min(len(uniq), 2500))
    ctx.validate("TraceMOT", drive([from_model(c, ctx.rng) for c in uniq]),
                 "tracker on modelled histories")
    rng = ctx.rng
    cases = [random_case(rng, True) for _ in range(ctx.pick(1500, 15000))]
    ctx.validate("TraceMOT", drive(cases), "tracker on random histories", samples=len(cases))
    cases = [random_case(rng, False) for _ in range(ctx.pick(300, 3000))]
    ctx.validate("TraceMOT", drive(cases), "tracker without details", samples=len(cases))
