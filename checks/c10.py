"""Netsplits: exactly the servers and users behind a lost link disappear, announced once, and nothing else changes"""
import kit, tree, vsim
PROPERTY = "C10"
RULE = ("random server trees with users and channels behind scripted peers; servers leave by EOF, SQUIT (peer, remote user, operator), link errors and ping timeout; every local client's and "
        "neighbour's traffic and the LUSERS/LINKS/NAMES/WHOIS/ISON answers are compared with a reference tree; an evaluation is one verified departure or query set; "
        "distinct counts (cause, shape of what was lost)")
ASSUMPTIONS = ["peers follow the P10 protocol except for the deliberate link errors"]
MUST_SEE = ["eof", "sq-peer", "sq-oper", "sq-user", "stale", "timeout", "denied", "relink", "sq-me", "error"]


def plan(tier, seed):
    return [{"seed": seed, "i": i} for i in range(900 if tier == "quick" else 12000)]


CHANS = ["#a", "#b", "#c"]


def run_case(ctx, p):
    r = ctx.rng
    his = r.random() < .3
    classes = ['name = "Local"; pingfreq = 1000 minutes; sendq = 160000; maxlinks = 250; usermode = "";',
               'name = "Opers"; pingfreq = 1000 minutes; sendq = 1600000; maxlinks = 100; local = no;',
               'name = "LocOp"; pingfreq = 1000 minutes; sendq = 1600000; maxlinks = 100; local = yes;',
               'name = "Server"; pingfreq = 3 minutes; connectfreq = 100 minutes; sendq = 9000000; maxlinks = 40;']
    s = ctx.ircd(vsim.conf(ports=((6667, ""), (4400, "server=yes")), classes=classes,
                           opers=['local = no; class = "Opers"; host = "*@*"; password = "$PLAIN$operpass"; name = "oper"; show_all_invis=yes; show_invis=yes; see_chan=yes; whox=yes; list_chan=yes',
                                  'local = yes; class = "LocOp"; host = "*@*"; password = "$PLAIN$locpass"; name = "loc"'],
                           connects=['name="f%s.test.net"; host="10.200.0.%d"; password="testpass"; class="Server"; hub; autoconnect=no' % (c, i + 1) for i, c in enumerate("abc")],
                           features={"HIS_NETSPLIT": "TRUE" if his else "FALSE"}))
    if r.random() < .3:
        s.fault(seed=p["i"] + 1, rmax=r.choice([0, 7, 100]), shuffle=1)
    t = tree.Tree(ctx, s)
    obs = [kit.register(s, "obs%d" % i, "10.9.9.%d" % i, wait=0) for i in range(3)]
    op = kit.register(s, "theop", "10.9.9.8", wait=0)
    lo = kit.register(s, "locop", "10.9.9.9", wait=6)
    kit.oper(s, op)
    kit.oper(s, lo, "loc", "locpass")
    on = {"#a": {"obs0", "obs1"}, "#b": {"obs1"}}
    for c in CHANS[:2]:
        for o in obs:
            if o.nick in on[c]:
                o.send("JOIN " + c)
                s.advance(2)
        t.chans[c] = s.now - 50           # the peers will present older channels, fine
    for o in obs + [op, lo]:
        o.take()
    st = St(ctx, s, t, obs, op, lo, on, his)
    for i, n in enumerate(("fa.test.net", "fb.test.net", "fc.test.net")):
        if i < 2 or r.random() < .6:
            t.link(n, 5 + i, "10.200.0.%d" % (i + 1))
    st.grow(r.randint(3, 7))
    st.verify("start")
    for _ in range(r.randint(4, 8)):
        st.shrink()
        if r.random() < .8:
            st.grow(r.randint(1, 4))
            if r.random() < .5:
                st.verify("grown")
    ctx.sample("%d servers, %d users, his=%s" % (len(t.servers), len(t.users), his))


class St:
    def __init__(self, ctx, s, t, obs, op, lo, on, his):
        self.ctx, self.s, self.t, self.obs, self.op, self.lo, self.on, self.his, self.r = ctx, s, t, obs, op, lo, on, his, ctx.rng
        self.n = 0

    def settle(self):
        kit.settle(self.s, self.t.live())

    def drain(self):
        self.settle()
        for c in self.obs + [self.op, self.lo] + self.t.live():
            c.take()

    def grow(self, n):
        t, r = self.t, self.r
        for i, name in enumerate(("fa.test.net", "fb.test.net", "fc.test.net")):
            if name not in t.servers and r.random() < .7:
                t.link(name, 5 + i, "10.200.0.%d" % (i + 1))
                self.ctx.count("relink")
        for _ in range(n):
            if t.servers and len(t.servers) < 16 and r.random() < .7:
                up = r.choice(sorted(t.servers))
                nm = None
                t.announce(up, nm, junction=r.random() < .2)
            if not t.servers:
                return
            for _ in range(r.randint(0, 4)):
                sv = r.choice(sorted(t.servers))
                u = t.add_user(sv, modes=r.choice(["", "", "i", "o", "io", "x"]))
                for c in CHANS + ["#only%d" % r.randint(1, 3)]:
                    if r.random() < .4:
                        t.join(u, c, op=r.random() < .3)
            self.settle()
        self.drain()

    def shrink(self):
        t, r, s, ctx = self.t, self.r, self.s, self.ctx
        if not t.servers:
            return
        self.drain()
        self.s.advance(1)
        kind = r.choice(["eof", "sq-peer", "sq-peer", "sq-oper", "sq-oper", "sq-user", "stale", "timeout", "denied", "sq-me", "error", "protocol"])
        names = sorted(t.servers)
        direct = [n for n in names if t.servers[n].up is None]
        deep = [n for n in names if t.servers[n].up is not None]
        victim, told, reason = None, set(), None
        if kind in ("eof", "timeout", "sq-me", "error", "protocol"):
            victim = r.choice(direct)
            f = t.peers[victim]
            told = {victim}
            if kind == "eof":
                f.close()
            elif kind == "sq-me":
                f.send("%s SQ hub.test.net 0 :leaving" % f.yy)
                reason = "leaving"
            elif kind == "error":
                f.send("ERROR :Closing Link: something went wrong")
                s.sync()
                f.close()
            elif kind == "protocol":
                # a second introduction of an existing server name under another numeric
                f.send("%s S hub.test.net 2 0 %d P10 ZZ]]] +h :me again" % (f.yy, s.now))
            else:
                f.autopong = False
                live = [x for x in t.live() if x is not f]
                for _ in range(14):
                    s.advance(40)
                    kit.settle(s, live)
            if kind != "timeout":
                ctx.count(kind)
        elif kind == "sq-peer" and deep:
            victim = r.choice(deep)
            f = t.peers[t.path(victim)]
            told = {f.name}
            sv = t.servers[victim]
            reason = "squit by peer %d" % self.n
            src = r.choice([f.yy, t.servers[sv.up].yy])
            f.send("%s SQ %s %d :%s" % (src, victim, r.choice([0, sv.ts]), reason))
        elif kind == "sq-oper":
            victim = r.choice(names)
            who = self.op if victim in deep or r.random() < .7 else self.lo
            reason = "oper says %d" % self.n
            pat = r.choice([victim, victim.upper(), victim.replace(".test.net", ".te?t.*")])
            who.send("SQUIT %s :%s" % (pat, reason))
        elif kind == "sq-user":
            src = [u for u in t.users.values()]
            victim = r.choice(names)
            src = [u for u in src if t.path(u.srv) != t.path(victim)]
            if not src:
                return
            u = r.choice(sorted(src, key=lambda x: x.nick))
            f = t.peers[t.path(u.srv)]
            told = {f.name}
            reason = "remote oper %d" % self.n
            ts = t.servers[victim].ts
            f.send("%s SQ %s %d :%s" % (u.nn, victim, 0 if victim in direct else r.choice([0, ts]), reason))
        elif kind == "stale" and deep:
            v = r.choice(deep)
            f = t.peers[t.path(v)]
            f.send("%s SQ %s %d :old news" % (f.yy, v, t.servers[v].ts - r.choice([1, 60, 5000])))
        elif kind == "denied":
            v = r.choice(names)
            self.obs[0].send("SQUIT %s :no" % v)
            self.settle()
            m = self.obs[0].take()
            if [x.cmd for x in m] != ["481"]:
                ctx.fail("squit:privilege", "SQUIT by an ordinary user was answered %r" % m)
            if deep:
                v = r.choice(deep)
                self.lo.send("SQUIT %s :no" % v)
                self.settle()
                m = [x for x in self.lo.take() if x.cmd != "NOTICE"]
                if [x.cmd for x in m] != ["481"]:
                    ctx.fail("squit:privilege", "SQUIT of a remote server by a local operator was answered %r" % m)
        else:
            return
        if kind in ("sq-peer", "sq-oper", "sq-user", "stale", "denied", "timeout"):
            ctx.count(kind)
        self.n += 1
        s.advance(1)
        for _ in range(4):
            self.settle()
        gone, lost = [], []
        shape = ""
        up = "hub.test.net"
        if victim:
            was_direct = t.servers[victim].up is None
            up = t.servers[victim].up or up
            victim_peer = t.path(victim)
            vts = t.servers[victim].ts
            gone, lost = t.drop(victim)
            shape = "%d/%d" % (min(len(gone), 5), min(len(lost), 4))
            if was_direct:
                f = t.peers[victim]
                for _ in range(5):
                    f.pump()
                    s.sync()
                if not f.eof and kind not in ("eof", "error"):
                    ctx.fail("split:open", "the link to %s is still open after it was lost (%s)" % (victim, kind), [m.raw for m in f.take()][-6:])
        for i, n in enumerate([x for x in t.live()]):
            m = n.take()
            sq = [x for x in m if x.cmd == "SQ"]
            want = 1 if victim and n.name not in told else 0
            if victim is None or n.name != victim:
                if len(sq) != want or (sq and (sq[0].args[0] != victim or (reason and sq[0].args[-1] != reason))):
                    ctx.fail("split:announce", "after %s lost %s, neighbour %s was sent %r (expected %d SQUIT of it)" % (kind, victim, n.name, sq, want))
                if sq and victim != victim_peer and int(sq[0].args[1]) not in (0, vts):
                    ctx.fail("split:announce", "SQUIT of %s carries timestamp %s (its link has %d)" % (victim, sq[0].args[1], vts))
                bad = [x for x in m if x.cmd in ("Q", "D", "L", "N", "S", "K", "ERROR")]
                if bad:
                    ctx.fail("split:noise", "after %s of %s neighbour %s was also sent %r" % (kind, victim, n.name, bad))
        comment = "*.net *.split" if self.his else "%s %s" % (up, victim)
        for o in self.obs:
            mine = {c for c in self.on if o.nick in self.on[c]}
            want = sorted(":%s!%s@%s QUIT :%s" % (u.nick, u.user, u.host, comment) for u in lost if u.chans & mine)
            got = sorted(m.raw for m in o.take() if m.cmd != "PING")
            if want != got:
                ctx.fail("split:quits", "after %s lost %s, %s should have been told %r and was told %r" % (
                    kind, victim, o.nick, [x for x in want if x not in got][:4], [x for x in got if x not in want][:4]))
            ctx.count("quits", len(want))
        ctx.ev()
        ctx.seen("%s %s" % (kind, shape))
        self.verify(kind, lost)

    def verify(self, what, lost=()):
        t, s, ctx, r = self.t, self.s, self.ctx, self.r
        self.drain()
        m = kit.ask(s, self.op, "LUSERS", peers=t.live())
        d = {x.cmd: x for x in m}
        inv = sum("i" in u.modes for u in t.users.values())
        ops = sum("o" in u.modes for u in t.users.values()) + 1
        total = len(t.users) + 5
        live = {c for u in t.users.values() for c in u.chans} | {c for c in self.on if self.on[c]}
        direct = sum(x.up is None for x in t.servers.values())
        want = {"251": "There are %d users and %d invisible on %d servers" % (total - inv, inv, len(t.servers) + 1),
                "252": str(ops), "254": str(len(live)) if live else None, "255": "I have 5 clients and %d servers" % direct}
        for k, w in want.items():
            g = d.get(k)
            g = g and g.args[-1 if k in ("251", "255") else 1]
            if g != w:
                ctx.fail("split:lusers", "after %s LUSERS %s says %r, expected %r" % (what, k, g, w))
        m = kit.ask(s, self.op, "LINKS", peers=t.live())
        got = sorted((x.args[1], x.args[2]) for x in m if x.cmd == "364")
        want = sorted([("hub.test.net", "hub.test.net")] + [(x.name, x.up or "hub.test.net") for x in t.servers.values()])
        if got != want:
            ctx.fail("split:links", "after %s LINKS reports %r, expected %r" % (what, [x for x in got if x not in want], [x for x in want if x not in got]))
        for c in sorted(live | {c for u in lost for c in u.chans}):
            want = sorted([u.nick for u in t.users.values() if c in u.chans] + sorted(self.on.get(c, ())))
            got = sorted(x.split(" ")[-1].lstrip("@+") for x in self.names(c))
            if want != got:
                ctx.fail("split:members", "after %s the members of %s are %r, expected %r" % (what, c, got, want))
        for u in list(lost)[:3] + r.sample(sorted(t.users.values(), key=lambda x: x.nick), min(2, len(t.users))):
            alive = u.nick in t.users
            m = kit.ask(s, self.op, "WHOIS " + u.nick, peers=t.live())
            if ("311" in [x.cmd for x in m]) != alive:
                ctx.fail("split:whois", "after %s WHOIS %s: %r (should %sexist)" % (what, u.nick, m, "" if alive else "not "))
            f = [x for x in t.live()]
        if lost and t.servers and r.random() < .5:
            u = r.choice(list(lost))
            self.settle()
            m = kit.ask(s, self.obs[2], "NICK " + u.nick, dt=20, peers=t.live())
            if [x.cmd for x in m] != ["NICK"]:
                ctx.fail("split:nick", "after %s the nick %s of a lost user cannot be used: %r" % (what, u.nick, m))
            kit.ask(s, self.obs[2], "NICK " + self.obs[2].nick, dt=20, peers=t.live())
        ctx.ev()
        self.drain()

    def names(self, chan):
        m = kit.ask(self.s, self.op, "WHO %s x%%n" % chan, peers=self.t.live())
        return [x.args[1] for x in m if x.cmd == "354"]
