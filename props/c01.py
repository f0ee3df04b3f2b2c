"""C01: Hungarian matching is one-to-one, eligible and of maximum total weight."""
from vlib import build
from vlib.harness import run_parallel

from .matching_lib import Case, drive, random_case, reuse_case


def run(ctx):
    build.cc("h_metrics")
    inv = ("INVARIANTS OneToOne Bounded OnlyStopsAtBest\nSPECIFICATION Spec\nCONSTANTS N = %d M = %d "
           "Vals = {%s} Exchange = %s Emit = %s\n")
    ctx.model("MC_Hungarian", inv % (2, 3, "0,1,2,3" if ctx.thorough else "0,1,3", "TRUE", "FALSE"),
              name="exchange 2x3")
    ctx.model("MC_Hungarian", inv % (3, 3, "0,1,2" if ctx.thorough else "0,1", "TRUE", "FALSE"),
              name="exchange 3x3")
    mats = []
    shapes = [(3, 3, "0,1,2"), (2, 3, "0,1,2,3"), (3, 2, "0,1,2,3"), (1, 4, "0,1,2,3")]
    if ctx.thorough:
        shapes += [(2, 4, "0,1,2,3"), (4, 2, "0,1,2,3"), (4, 4, "0,1")]
    for n, m, v in shapes:
        c = ctx.model_cases("MC_Hungarian", (inv % (n, m, v, "FALSE", "TRUE")) +
                            "INVARIANT PrintCase\n", name="all %dx%d over {%s}" % (n, m, v))
        mats.append((n, m, c))
    # replay every matrix of the model through the real matcher (and the assignment primitive)
    cases, hung = [], []
    for n, m, c in mats:
        for w in c:
            k = Case("H", [500000] * 5, [1] * n, [500000] * n, [1] * m,
                     [[(0, 500000, 750000, 1000000)[x] for x in r] for r in w])
            cases.append(k.step())
            if n == m:
                hung.append((n, [x for r in w for x in r]))
    ctx.validate("TraceMatching", drive(cases), "matcher on every modelled matrix")
    rng = ctx.rng
    cases = [random_case(rng, "HHLL") for _ in range(ctx.pick(1500, 20000))]
    cases += [random_case(rng, "HHL", big=True) for _ in range(ctx.pick(150, 2000))]
    cases += [reuse_case(rng, "HLL") for _ in range(ctx.pick(500, 5000))]
    ctx.validate("TraceMatching", drive(cases), "matcher histories", samples=len(cases))
    for _ in range(ctx.pick(400, 4000)):
        n = rng.choice([1, 2, 3, 5, 8, 12, 16, 24] + ([40] if ctx.thorough else []))
        hi = rng.choice([1, 2, 5, 100, 1000000])
        sp = rng.choice([0, .3, .8])
        hung.append((n, [0 if rng.random() < sp else rng.randint(0, hi) for _ in range(n * n)]))
    res = run_parallel(build.cc("h_metrics"),
                       ["hung %d %s" % (n, " ".join(map(str, e))) for n, e in hung])
    groups = [[dict({"ev": "hung", "n": n, "e": e, "crash": r.get("crash", ""), "_w": n * n},
                    **{k: r.get(k, []) for k in ("perm", "perm2", "lx", "ly")})]
              for (n, e), r in zip(hung, res)]
    ctx.validate("TraceMatching", groups, "assignment primitive", samples=len(groups))
