"""C17: agent features of a converted scenario."""
from . import convlib as V


def run(ctx):
    rng = ctx.rng
    inv = ("SPECIFICATION Spec\nCONSTANTS NT = %d\nVis = {%s}\nEmit = %s\n"
           "INVARIANTS Fits RejectedRight NoRepeat ToPredictIn CarIn ValidFirst WeakOrder\n")
    ctx.model("MC_Conversion", inv % (3, "0,1,2,3" if ctx.thorough else "0,1", "FALSE"), name="converter, 3 tracks")
    cs = ctx.model_cases("MC_Conversion", inv % (2, "0,1,2,3", "TRUE") + "INVARIANT PrintCase\n", name="converter, 2 tracks", workers=8)
    seen, scenes = set(), []
    for c in cs:
        k = str(c)
        if k in seen:
            continue
        seen.add(k)
        n = len(c["v"])
        st = lambda v, x: dict(V.state(rng, v, x, 0))
        s = {"T": 2, "ts": [0, 100000], "sdc": c["sdc"], "ooi": [],
             "tracks": [{"id": 10 - 3 * (i + 1), "type": 1, "st": [st(c["v"][i] // 2, 0), st(c["v"][i] % 2, c["x"][i])]} for i in range(n)],
             "ttp": [{"i": i, "d": 1 + j % 2} for j, i in enumerate(c["ttp"])]}
        scenes.append((s, V.cfg(na=c["na"], nm=c["nm"], np=2, nf=0), []))
    ctx.validate("TraceConversion", V.events("agents", scenes), "conversion of every modelled scenario")
    scenes = []
    for _ in range(ctx.pick(2200, 25000)):
        c = V.cfg(na=rng.choice([1, 2, 3, 4, 6, 10]), nm=rng.choice([1, 2, 3, 8, 8, 0]), np=rng.choice([1, 2, 3, 5, 0] if rng.random() < .1 else [1, 2, 3, 5]),
                  nf=rng.choice([0, 1, 2, 6]), sl=rng.choice([0, 1, 2]))
        if rng.random() < .02:
            c["src"] = rng.choice([0, -0.5])
        s = V.scene(rng, c)
        scenes.append((s, c, V.signals(rng, s, c) if rng.random() < .2 else []))
    ctx.validate("TraceConversion", V.events("agents", scenes), "random scenarios", samples=len(scenes))
