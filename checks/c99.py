"""dev: the whole model, several servers"""
import world, net, c00
PROPERTY = "C99"
RULE = "x"
MUST_SEE = []


def plan(tier, seed):
    return [{"seed": seed, "i": i, "steps": 150} for i in range(600)]


def run_case(ctx, p):
    f = c00.feats(ctx.rng)
    ctx.log(repr(f))
    n = ctx.rng.choice([2, 2, 3])
    w = net.NetWorld(ctx, n, nusers=ctx.rng.choice([3, 5, 7]), feats=f)
    world.run(w, dict(c00.W, silence=0, modeset='ovovovbbbbklimnpstrcCuMZR'), p["steps"], None)
