"""Shared shape of the checks decided by the reference model."""
import world, net
BASE = dict(join=8, part=3, kick=3, topic=2, invite=2, msg=6, nick=2, away=1, quit=1, umode=1, silence=1, names=1, whois=1, ison=.5,
            userhost=.5, modeq=1, mode=12, account=1)
ALLMODES = "ovovovbbbbklimnpstrDcCuMZR"
NETMODES = "ovovovbbbbklimnpstrcCuMZR"
ASSUME = ["the virtual socket and clock layer delivers the same events the kernel would",
          "commands are executed one at a time, each after the network has settled (races are the subject of C09)"]


def plan(tier, seed, single=700, nets=250, steps=250):
    k = 1 if tier == "quick" else 12
    out = []
    ns, nn = single * k, nets * k
    for i in range(max(ns, nn)):
        if i < ns:
            out.append({"seed": seed, "i": i, "kind": "single", "steps": steps})
        if i < nn:
            out.append({"seed": seed, "i": i, "kind": "net", "steps": steps * 2 // 3})
    return out


def feats(r, extra=None):
    f = {}
    if r.random() < .4:
        f["MAXBANS"] = r.choice(["3", "6"])
    if r.random() < .15:
        f["AVBANLEN"] = r.choice(["12"])
    if r.random() < .4:
        f["MAXSILES"] = r.choice(["2", "4"])
    if r.random() < .4:
        f["MAXCHANNELSPERUSER"] = r.choice(["2", "3"])
    if r.random() < .3:
        f["ANNOUNCE_INVITES"] = "TRUE"
    if r.random() < .1:
        f["HOST_HIDING"] = "FALSE"
    if r.random() < .2:
        f["NICKLEN"] = "9"
    if r.random() < .2:
        f["TOPICLEN"] = "40"
    if r.random() < .2:
        f["CHANNELLEN"] = "3"
    f.update(extra or {})
    return f


def case(ctx, p, weights, own, modeset=None, fx=None, opers=.2, caps=.3, users=(3, 5, 7), netsilence=False):
    r = ctx.rng
    f = feats(r, fx)
    ctx.log(repr(f))
    W = dict(BASE)
    W.update(weights)
    W["modeset"] = modeset or ALLMODES
    if p["kind"] == "net":
        if not netsilence:
            W["silence"] = 0
        W["modeset"] = W["modeset"].replace("D", "")
        w = net.NetWorld(ctx, r.choice([2, 2, 3]), nusers=r.choice(users), feats=f, opers=opers, caps=caps)
    else:
        w = world.World(ctx, nusers=r.choice(users), feats=f, opers=opers, caps=caps)
    if netsilence and p["kind"] == "net":
        W["invite"] = 0
        # a sender's server learns of a remote silence only once it has taken effect; what the sender is told
        # (away replies) until then is unspecified, what the others receive is not
        w.tolerate = lambda u, v, line, want, got: v is u and v.srv and line.split(" ")[0] in ("PRIVMSG", "NOTICE", "CPRIVMSG", "CNOTICE")
    ctx.count("worlds:" + p["kind"])
    world.run(w, W, p["steps"], own)
    for n in w.M.covered:
        ctx.count("numeric:%03d" % n)
