"""C01: no input from any peer makes the server crash, hang, or touch memory it must not."""
import chaos, kit as vsim_kit, p10, vsim
PROPERTY = "C01"
RULE = ("randomised sessions (clients, opers, peer servers, unregistered and garbage connections, byte mutations, "
        "fault injection) against the ASan+UBSan+assert build with object pools bypassed; an evaluation is one delivered "
        "batch of input followed by quiescence; distinct counts (role,command) kinds delivered")
MUST_SEE = ["steps"]


INTS = """CLIENT_FLOOD SERVER_PORT NICKNAMEHISTORYLENGTH MAXCHANNELSPERUSER NICKLEN AVBANLEN MAXBANS MAXSILES HANGONGOODLINK HANGONRETRYDELAY CONNECTTIMEOUT
PINGFREQUENCY CONNECTFREQUENCY DEFAULTMAXSENDQLENGTH GLINEMAXUSERCOUNT SOCKSENDBUF SOCKRECVBUF IPCHECK_CLONE_LIMIT IPCHECK_CLONE_PERIOD IPCHECK_48_CLONE_LIMIT
IPCHECK_48_CLONE_PERIOD IPCHECK_CLONE_DELAY CHANNELLEN POLLS_PER_LOOP IRCD_RES_RETRIES IRCD_RES_TIMEOUT AUTH_TIMEOUT WEBSOCKET_KEEPALIVE TOPICLEN AWAYLEN
KICKLEN""".split()


def plan(tier, seed):
    n = 1000 if tier == "quick" else 3000
    return [{"seed": seed, "i": i, "steps": 500} for i in range(n)]


def run_case(ctx, p):
    r = ctx.rng
    feats = {"OPLEVELS": r.choice(["TRUE", "FALSE"]), "MAXCHANNELSPERUSER": r.choice(["3", "10"])}
    s = ctx.ircd(chaos.hub_conf(feats=feats))
    if r.random() < .5:
        s.fault(seed=p["i"] + 1, rmax=r.choice([0, 5, 100]), wmax=r.choice([0, 7, 200]), wagain=r.choice([0, 100, 400]),
                shuffle=r.choice([0, 1]), sndbuf=r.choice([0, 4096]))
    mode = p["i"] % 4
    ch = chaos.Chaos(ctx, s, r, dirty=[0.02, 0.3, 0.05, 0.1][mode])
    for _ in range(3):
        ch.add_client()
    if mode != 1 or r.random() < .5:
        ch.add_server("fa.test.net", 5, "10.200.0.1")
        if r.random() < .5:
            ch.add_server("fb.test.net", 9, "10.200.0.2")
    odd = p["i"] % 5 == 4
    if odd:
        # an operator with a taste for unusual settings
        op = vsim_kit.register(s, "setter", "10.5.5.5", user="setter")
        op.send("OPER oper operpass")
        ch.ctx.count("odd settings")
    for k in range(p["steps"]):
        if odd and (k < 6 or r.random() < .02):
            l = "SET %s %s" % (r.choice(INTS), r.choice(["0", "0", "-1", "1", "99999", "x"]))
            ctx.log("setter> " + l)
            op.send(l)
        if r.random() < (.75 if mode != 2 else .35):
            ch.step_client()
        else:
            ch.step_server()
        ch.settle()
        ctx.ev()
        ctx.count("steps")
    for k in ch.kinds:
        ctx.seen(k)
    ctx.sample(ctx.trace[-3:])
