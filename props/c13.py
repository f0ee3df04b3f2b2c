"""C13: displacement, miss and overlap of motion predictions."""
from . import motionlib as ml


def run(ctx):
    rng = ctx.rng
    cs = ml.modelled(ctx)
    cs = rng.sample(cs, ctx.pick(1500, len(cs)))
    ml.evaluate(ctx, cs, "eval13", "modelled predictions", 0)
    cs = []
    for _ in range(ctx.pick(2500, 30000)):
        cfg = ml.config(rng)
        sc = ml.scenario(rng, cfg, most=5)
        cs.append((cfg, sc, ml.prediction(rng, cfg, sc)))
    ml.evaluate(ctx, cs, "eval13", "sampled scenarios", len(cs))
