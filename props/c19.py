"""C19: traffic signal features of a converted scenario."""
from . import convlib as V


def run(ctx):
    rng = ctx.rng
    inv = "SPECIFICATION Spec\nCONSTANTS Lanes = {%s}\nMaxT = %d\nEmit = %s\nINVARIANTS Kept NoGhost Packed\n"
    ctx.model("MC_Signals", inv % ("1,2", 3, "FALSE") if not ctx.thorough else inv % ("1,2,3", 3, "FALSE"), name="signal histories")
    cs = ctx.model_cases("MC_Signals", inv % ("1,2", 2, "TRUE") + "INVARIANT PrintCase\n", name="signal histories, emitted", workers=8)
    scenes, seen = [], set()
    for c in cs:
        if str(c) in seen:
            continue
        seen.add(str(c))
        cc = V.cfg(np=c["np"], nf=c["nf"], sl=c["sl"], na=2)
        T = max(2, c["np"])
        s = {"T": T, "ts": [100000 * t for t in range(T)], "sdc": 0, "ooi": [], "ttp": [{"i": 0, "d": 0}],
             "tracks": [{"id": 1, "type": 1, "st": [V.state(rng, 1) for _ in range(T)]}]}
        sig = [[{"lane": x["lane"] + 40, "state": x["state"], "x": x["lane"], "y": k, "z": x["state"]} for x in st] for k, st in enumerate(c["sig"])]
        scenes.append((s, cc, sig))
    ctx.validate("TraceConversion", V.events("signals", scenes), "conversion of every modelled history")
    scenes = []
    for _ in range(ctx.pick(2500, 25000)):
        c = V.cfg(np=rng.choice([1, 2, 3, 6]), nf=rng.choice([0, 1, 3, 7]), sl=rng.choice([0, 1, 2, 3, 5]), na=rng.choice([1, 2, 4]))
        s = V.scene(rng, c, rng.choice([1, 2, 3]))
        scenes.append((s, c, V.signals(rng, s, c)))
    ctx.validate("TraceConversion", V.events("signals", scenes), "random signal histories", samples=len(scenes))
