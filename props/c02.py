"""C02: score-first matching follows its greedy rule."""
from vlib import build

from .matching_lib import Case, drive, random_case, reuse_case


def run(ctx):
    build.cc("h_metrics")
    cfg = ("INVARIANTS OneToOne Complete Priority Tight\nPROPERTY Stable\nSPECIFICATION Spec\n"
           "CONSTANTS N = %d M = %d Vals = {%s} Scores = {%s} Thr = 1 Emit = %s\n")
    r = ctx.model_cases("MC_Greedy", cfg % (2, 2, "0,1,2", "1,2", "TRUE") + "INVARIANT PrintCase\n",
                        name="greedy 2x2")
    allc = [(2, 2, r)]
    r = ctx.model_cases("MC_Greedy", cfg % (3, 2, "0,1,2", "1,2", "TRUE") + "INVARIANT PrintCase\n",
                        name="greedy 3x2")
    allc.append((3, 2, r))
    r = ctx.model_cases("MC_Greedy", cfg % (2, 3, "0,1,2", "1,2", "TRUE") + "INVARIANT PrintCase\n",
                        name="greedy 2x3")
    allc.append((2, 3, r))
    if ctx.thorough:
        ctx.model("MC_Greedy", cfg % (3, 3, "0,1", "1,2,3", "FALSE"), name="greedy 3x3")
    cases = []
    for n, m, c in allc:
        for x in c:
            k = Case("S", [500000] * 5, [1] * n, [s * 300000 for s in x["s"]], [1] * m,
                     [[(0, 500000, 750000)[v] for v in row] for row in x["w"]])
            cases.append(k.step())
    ctx.validate("TraceMatching", drive(cases), "matcher on every modelled case")
    rng = ctx.rng
    cases = [random_case(rng, "SSSM") for _ in range(ctx.pick(2500, 30000))]
    cases += [random_case(rng, "SSSM", big=True) for _ in range(ctx.pick(300, 3000))]
    cases += [reuse_case(rng, "SMM") for _ in range(ctx.pick(500, 5000))]
    ctx.validate("TraceMatching", drive(cases), "matcher histories", samples=len(cases))
