"""dev: the whole model"""
import world
PROPERTY = "C00"
RULE = "x"
MUST_SEE = []
W = dict(join=8, part=3, kick=3, topic=3, invite=3, msg=8, nick=3, away=1, quit=1, umode=2, silence=2, names=1, whois=2, ison=1, userhost=1, modeq=1, mode=14, account=1)


def plan(tier, seed):
    return [{"seed": seed, "i": i, "steps": 250} for i in range(1200)]


def feats(r):
    f = {}
    if r.random() < .5:
        f["MAXBANS"] = r.choice(["3", "6"])
    if r.random() < .3:
        f["AVBANLEN"] = r.choice(["12"])
    if r.random() < .5:
        f["MAXSILES"] = r.choice(["2", "4"])
    if r.random() < .5:
        f["MAXCHANNELSPERUSER"] = r.choice(["2", "3"])
    if r.random() < .3:
        f["ANNOUNCE_INVITES"] = "TRUE"
    if r.random() < .1:
        f["HOST_HIDING"] = "FALSE"
    if r.random() < .2:
        f["NICKLEN"] = "9"
    return f


def run_case(ctx, p):
    f = feats(ctx.rng)
    ctx.log(repr(f))
    w = world.World(ctx, nusers=ctx.rng.choice([3, 5, 7]), feats=f)
    world.run(w, W, p["steps"], None)
