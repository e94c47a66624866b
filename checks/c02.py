"""Input framing: what a connection's bytes mean does not depend on how they are cut into segments"""
import chaos, kit, vsim
PROPERTY = "C02"
RULE = ("random byte streams (all line endings, blank, overlong, tagged, NUL-bearing lines) written by clients and peer servers in random segments, "
        "compared with an independent reference of the documented framing; an evaluation is one input line; distinct counts (role, kind of line, how it was cut)")
ASSUMPTIONS = ["input stays within the flood limits (the subject of C16)"]
MUST_SEE = ["client:long", "client:max", "client:tagged", "server:long", "server:blank", "client:nul", "server:tagged", "client:spaces", "cut:inside", "handshake:server"]
EOLS = ["\r\n", "\r\n", "\n", "\r", "\n\r", "\r\r\n\n", "\n\n"]


def plan(tier, seed):
    return [{"seed": seed, "i": i, "role": ["client", "server", "client"][i % 3]} for i in range(1500 if tier == "quick" else 5000)]


def payload(r, n):
    return "".join(r.choice("abcdefgh  :,=@;#~") for _ in range(n)).strip() or "z"


class Script:
    """Builds input and the messages an observer must get for it."""
    def __init__(self, ctx, role, src, dst):
        self.ctx, self.r, self.role, self.src, self.dst = ctx, ctx.rng, role, src, dst
        self.n = 0

    def one(self):
        r = self.r
        self.n += 1
        head = "P" if self.role == "server" else "PRIVMSG"
        pre = self.src + " " if self.role == "server" else ""
        tag = "k%dz" % self.n
        kind = r.choice(["plain"] * 6 + ["long", "long", "max", "max1", "blank", "tagged", "nul", "spaces", "prefix", "junk", "bigtag", "multi"])
        exp = []
        fixed = "%s%s %s :%s" % (pre, head, self.dst, tag)
        lim = 512 if self.role == "server" else 510
        if kind == "long":
            if self.role == "server":
                l = fixed + "x" * (r.randint(513, 900) - len(fixed))
                exp = [l[:512].split(" :", 1)[1]]
            else:
                l = fixed + "x" * (r.randint(511, 760) - len(fixed))
                exp = [None]
        elif kind in ("max", "max1"):
            l = fixed + "x" * (lim - (kind == "max1") - len(fixed))
            exp = [l.split(" :", 1)[1]]
        elif kind == "blank":
            l = ""
        elif kind == "tagged":
            t = r.choice(["+a=b", "+draft/x=1;+y", "time=2020-01-01T00:00:00.000Z", "+a=" + "v" * r.randint(1, 300)])
            l = "@%s %s %s" % (t, fixed, payload(r, 30))
            exp = [l.split(" :", 1)[1]]
        elif kind == "bigtag":
            body = fixed + " " + payload(r, 20)
            l = "@+a=%s %s" % ("v" * r.randint(520, 900), body)
            exp = [body.split(" :", 1)[1]]
        elif kind == "nul":
            l = fixed + " before\0after"
            exp = [tag + " before"]
        elif kind == "spaces":
            if self.role == "server":
                l = "%s%s   %s   :%s spaced  out " % (pre, head, self.dst, tag)
            else:
                l = "%s%s  %s   :%s spaced  out " % (" " * r.randint(1, 4), head, self.dst, tag)
            exp = [tag + " spaced  out "]
        elif kind == "prefix" and self.role == "client":
            l = ":whatever " + fixed + " p"
            exp = [tag + " p"]
        elif kind == "junk":
            l = pre + "NOSUCHCMD x"
        elif kind == "multi" and self.role == "client":
            l = "%s %s %s ignored extra" % (head, self.dst, tag)
            exp = ["extra"]          # the text is the last parameter
        else:
            kind = "plain"
            l = fixed + " " + payload(r, r.randint(1, 120))
            exp = [l.split(" :", 1)[1]]
        self.ctx.count("%s:%s" % (self.role, kind))
        return kind, l + r.choice(EOLS), exp


def cuts(r, data):
    mode = r.random()
    out, i = [], 0
    if mode < .15:
        return [data]
    while i < len(data):
        n = 1 if mode < .3 and r.random() < .8 else r.choice([1, 2, 3, 7, 20, 60, 130, 400])
        out.append(data[i:i + n])
        i += n
    return out


def check(ctx, got, want, what, seg):
    if got != want:
        for k in range(max(len(got), len(want))):
            a = got[k] if k < len(got) else None
            b = want[k] if k < len(want) else None
            if a != b:
                break
        ctx.fail("framing:" + what, "line %d of the batch: expected the recipient to get %r, observed %r (%d expected, %d observed)" % (
            k, b and b[:200], a and a[:200], len(want), len(got)), {"segments": [x[:600] for x in seg][:60]})


def run_case(ctx, p):
    r = ctx.rng
    exempt = r.random() < .5
    cls = ['name = "Local"; pingfreq = 1000 minutes; sendq = 900000; maxlinks = 250; maxflood = %d' % (40000 if exempt else 9000),
           'name = "Server"; pingfreq = 1000 minutes; connectfreq = 100 minutes; sendq = 9000000; maxlinks = 40; maxflood = 30000']
    feats = {"CLIENT_FLOOD": "9000"}
    s = ctx.ircd(vsim.conf(ports=((6667, ""), (4400, "server=yes")), classes=cls, opers=[],
                           connects=['name="fa.test.net"; host="10.200.0.1"; password="testpass"; class="Server"; hub; autoconnect=no'], features=feats))
    if r.random() < .5:
        s.fault(seed=p["i"] + 1, rmax=r.choice([0, 1, 5, 100]), shuffle=r.choice([0, 1]))
    obs = kit.register(s, "obs", "10.9.9.9", caps="message-tags" if r.random() < .3 else None)
    if p["role"] == "server":
        return server_case(ctx, p, s, obs)
    # registration itself arrives in arbitrary pieces
    c = s.connect("10.1.1.1")
    hello = "NICK act%sUSER u 0 0 :real act%s" % (r.choice(EOLS), r.choice(EOLS))
    sc = Script(ctx, "client", None, "obs")
    for x in cuts(r, hello):
        c.send_raw(x)
        s.sync()
    ctx.count("cut:inside")
    c.pump()
    kit.settle(s)
    if not any(m.cmd == "001" for m in c.take()):
        ctx.fail("framing:register", "a client whose registration arrived in pieces was not registered", hello)
    s.advance(20)
    obs.take()
    for b in range(8):
        want, data, kinds = [], "", []
        for _ in range(r.randint(1, 8)):
            k, l, e = sc.one()
            if len(data) + len(l) > 4000 and data:
                continue
            data += l
            want += e
            kinds.append(k)
        seg = cuts(r, data)
        for x in seg:
            c.send_raw(x)
            if r.random() < .9:
                s.sync()
            if r.random() < .05:
                s.advance(1)
        for _ in range(12 if not exempt else 2):
            s.advance(20)
        ctx.ev(len(kinds))
        for k in kinds:
            ctx.seen("client/%s/%d/%s" % (k, min(len(seg), 3), exempt))
        mine = c.take()
        nlong = sum(m.cmd == "417" for m in mine)
        got = [m.args[1] for m in obs.take() if m.cmd == "PRIVMSG"]
        check(ctx, got, [w[:510 - len(":act!u@10.1.1.1 PRIVMSG obs :")] for w in want if w is not None], "client", seg)
        if nlong != want.count(None):
            ctx.fail("framing:417", "%d overlong lines sent, %d reported too long" % (want.count(None), nlong), [repr(m) for m in mine])
        if kinds.count("junk") != sum(m.cmd == "421" for m in mine):
            ctx.fail("framing:421", "%d unknown commands sent, %d reported" % (kinds.count("junk"), sum(m.cmd == "421" for m in mine)), [repr(m) for m in mine])
        if c.eof or obs.eof:
            ctx.fail("framing:eof", "connection lost", seg)
        ctx.log(repr(seg)[:300])
    ctx.sample(ctx.trace[-1])


def server_case(ctx, p, s, obs):
    import p10
    r = ctx.rng
    f = p10.FakeServer(s, "fa.test.net", 5, "10.200.0.1", link=False)
    now = s.now
    hs = "PASS :testpass%sSERVER fa.test.net 1 %d %d J10 AF]]] +h6 :fake%s" % (r.choice(EOLS), now - 1000, now, r.choice(EOLS))
    hs += "AF N fu 1 %d fu fake.host AKBQAB AFAAA :x%sAF EB%s" % (now - 5, r.choice(EOLS), r.choice(EOLS))
    for x in cuts(r, hs):
        f.send_raw(x)
        s.sync()
    kit.settle(s, [f])
    f.take()
    ctx.count("handshake:server")
    if not f.eob_seen:
        ctx.fail("framing:handshake", "a server whose handshake and burst arrived in pieces was not linked", hs)
    nn = "ABAAA"           # the first client of server 1
    obs.take()
    sc = Script(ctx, "server", "AFAAA", nn)
    for b in range(10):
        want, data, kinds = [], "", []
        for _ in range(r.randint(1, 12)):
            k, l, e = sc.one()
            data += l
            want += e
            kinds.append(k)
        seg = cuts(r, data)
        for x in seg:
            f.send_raw(x)
            if r.random() < .9:
                s.sync()
        kit.settle(s, [f])
        ctx.ev(len(kinds))
        for k in kinds:
            ctx.seen("server/%s/%d" % (k, min(len(seg), 3)))
        ctx.count("cut:inside", len(seg) > 1)
        got = [m.args[1] for m in obs.take() if m.cmd == "PRIVMSG"]
        check(ctx, got, [w[:510 - len(":fu!fu@fake.host PRIVMSG obs :")] for w in want], "server", seg)
        if f.take() and f.eof:
            ctx.fail("framing:eof", "link lost", seg)
        ctx.log(repr(seg)[:300])
