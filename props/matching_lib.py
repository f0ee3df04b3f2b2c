"""Generators and the driver for the matcher (C01, C02)."""
from vlib import build
from vlib.harness import run_parallel


def labels(w):
    """Optimal labels u, v (u[i]+v[j] >= w[i][j], sum = maximum assignment) of a square matrix.
    Untrusted: the specification checks both conditions."""
    n = len(w)
    INF = float("inf")
    u, v, p, way = [0] * (n + 1), [0] * (n + 1), [0] * (n + 1), [0] * (n + 1)
    for i in range(1, n + 1):
        p[0], j0 = i, 0
        minv, used = [INF] * (n + 1), [False] * (n + 1)
        while True:
            used[j0] = True
            i0, delta, j1 = p[j0], INF, 0
            for j in range(1, n + 1):
                if not used[j]:
                    cur = -w[i0 - 1][j - 1] - u[i0] - v[j]
                    if cur < minv[j]:
                        minv[j], way[j] = cur, j0
                    if minv[j] < delta:
                        delta, j1 = minv[j], j
            for j in range(n + 1):
                if used[j]:
                    u[p[j]] += delta
                    v[j] -= delta
                else:
                    minv[j] -= delta
            j0 = j1
            if p[j0] == 0:
                break
        while True:
            j1 = way[j0]
            p[j0] = p[j1]
            j0 = j1
            if j0 == 0:
                break
    return [-x for x in u[1:]], [-x for x in v[1:]]


class Case:
    """One matcher with a history of calls."""

    def __init__(self, kind, thr, pt, ps, gt, iou, aff=None):
        self.kind, self.thr, self.pt, self.ps, self.gt = kind, thr, pt, ps, gt
        self.iou, self.aff = iou, aff
        self.psets, self.gsets, self.steps = [list(range(len(pt)))], [list(range(len(gt)))], []

    def step(self, psub=None, gsub=None, nulls=0, reuse=0, ps=0, gs=0):
        psub = list(range(len(self.psets[ps]))) if psub is None else psub
        gsub = list(range(len(self.gsets[gs]))) if gsub is None else gsub
        self.steps.append((ps, gs, psub, gsub, nulls, reuse))
        return self

    def request(self):
        L = lambda v: [len(v)] + list(v)
        t = ["match", self.kind] + L(self.thr) + [len(self.pt)]
        for a, b in zip(self.pt, self.ps):
            t += [a, b]
        t += L(self.gt)
        tab = lambda m: [len(self.pt), len(self.gt)] + [x for r in m for x in r]
        t += tab(self.iou)
        if self.kind in "LM":
            t += tab(self.aff)
        t += [len(self.psets)] + [x for s in self.psets for x in L(s)]
        t += [len(self.gsets)] + [x for s in self.gsets for x in L(s)]
        t.append(len(self.steps))
        for ps, gs, psub, gsub, nl, ru in self.steps:
            t += [ps, gs] + L(psub) + L(gsub) + [nl, ru]
        return " ".join(map(str, t))

    def weight(self, p, g):
        ok = self.pt[p] == self.gt[g]
        o = self.iou[p][g] if ok else 0
        if o < self.thr[self.pt[p]]:
            return 0
        if self.kind in "LM":
            return (o // 1000) * ((self.aff[p][g] if ok else 0) // 10000) * 10
        return o

    def event(self, r):
        e = {"ev": "match", "kind": self.kind, "thr": self.thr, "pt": self.pt, "ps": self.ps,
             "gt": self.gt, "iou": self.iou, "aff": self.aff or [], "crash": r.get("crash", ""),
             "st": []}
        w = 1
        for (ps, gs, psub, gsub, nl, ru), o in zip(self.steps, r.get("steps", [])):
            P = [self.psets[ps][k] for k in psub]
            G = [self.gsets[gs][k] for k in gsub]
            u, v = [], []
            if max(len(P), len(G)) > 5 and self.kind in "HL":
                k = max(len(P), len(G))
                u, v = labels([[self.weight(P[i], G[j]) if i < len(P) and j < len(G) else 0
                                for j in range(k)] for i in range(k)])
            w += len(P) * len(G)
            e["st"].append({"p": P, "g": G, "nl": nl, "ru": ru, "pm": o["pm"], "gm": o["gm"],
                            "u": u, "v": v})
        e["_w"] = w
        if r.get("crash"):
            e["_err"] = r.get("err", "")
        return e


def random_case(rng, kinds, big=False):
    kind = rng.choice(kinds)
    hi = rng.choice([8, 12, 20]) if big else rng.choice([1, 2, 3, 4, 5])
    np_, ng = rng.randint(0 if not big else 6, hi), rng.randint(0 if not big else 4, hi)
    classes = rng.choice([[1], [1, 2], [1, 2, 4], [1, 2, 3, 4]])
    pt = [rng.choice(classes) for _ in range(np_)]
    gt = [rng.choice(classes) for _ in range(ng)]
    style = rng.choice(["few", "any", "near", "dense"])
    thr = [rng.choice([300000, 500000, 700000, 100000, 1, 999999, 1000000, 350001])
           for _ in range(5)]
    if len(classes) == 1 and rng.random() < .15:
        thr = [0] * 5
    grid = 1000 if kind in "LM" else 1
    thr = [t // grid * grid for t in thr]

    def val(p, g):
        t = thr[pt[p]]
        if style == "few":
            v = rng.choice([0, 250000, 500000, 750000, 1000000])
        elif style == "near":
            v = t + rng.choice([-1, 0, 1, 2, 1000]) * grid
        elif style == "dense":
            v = rng.randint(900000, 1000000)
        else:
            v = rng.randint(0, 1000000)
        return max(0, min(1000000, v // grid * grid))
    iou = [[val(p, g) for g in range(ng)] for p in range(np_)]
    aff = None
    if kind in "LM":
        aff = [[rng.choice([0, 10000, 500000, 990000, 1000000, rng.randint(0, 100) * 10000])
                for _ in range(ng)] for _ in range(np_)]
    scores = [rng.choice([0, 500000, 1000000]) if rng.random() < .4 else rng.randint(0, 1000000)
              for _ in range(np_)]
    c = Case(kind, thr, pt, scores, gt, iou, aff)
    if rng.random() < .6:
        for _ in range(rng.randint(1, 2)):
            # later frames: often as many objects as the first one, in another order
            c.psets.append(rng.sample(range(np_), np_ if rng.random() < .5 else rng.randint(0, np_)))
            c.gsets.append(rng.sample(range(ng), ng if rng.random() < .5 else rng.randint(0, ng)))
    for k in range(rng.randint(1, 2 if big else 4)):
        if k == 0:
            ps = gs = 0
        else:   # one side or both change
            ch = rng.randrange(4)
            ps = rng.randrange(len(c.psets)) if ch != 1 else c.steps[-1][0]
            gs = rng.randrange(len(c.gsets)) if ch != 2 else c.steps[-1][1]
        P, G = len(c.psets[ps]), len(c.gsets[gs])
        if rng.random() < .35:
            psub, gsub = list(range(P)), list(range(G))
        else:
            psub = rng.sample(range(P), rng.randint(0, P))
            gsub = rng.sample(range(G), rng.randint(0, G))
        nulls = rng.choice([0, 0, 0, 1, 2]) if kind in "HL" else 0
        c.step(psub, gsub, nulls, rng.choice([0, 1]), ps, gs)
    return c


def reuse_case(rng, kinds):
    """A matcher kept over frames of equal size, everything in the subsets."""
    while True:
        c = random_case(rng, kinds)
        if len(c.pt) and len(c.gt):
            break
    c.psets, c.gsets, c.steps = c.psets[:1], c.gsets[:1], []
    for _ in range(2):
        c.psets.append([rng.randrange(len(c.pt)) for _ in c.pt])
        c.gsets.append([rng.randrange(len(c.gt)) for _ in c.gt])
    ps = gs = 0
    for _ in range(rng.randint(2, 5)):
        c.step(None, None, 0, rng.choice([0, 1]), ps, gs)
        if rng.random() < .5:
            ps = rng.randrange(3)
        else:
            gs = rng.randrange(3)
    return c


def drive(cases):
    h = build.cc("h_metrics")
    res = run_parallel(h, [c.request() for c in cases])
    return [[c.event(r)] for c, r in zip(cases, res)]
