"""Jupes: which servers may not link, what propagates, what is listed, and for how long"""
import kit, vsim, p10
from masks import lower
PROPERTY = "C12"
RULE = ("random jupe additions, (de)activations, local overrides, conflicts and expiries by neighbours, remote users and operators with and without privileges, mixed with link attempts; after every step what each "
        "neighbour receives, which links stand and what JUPE lists is compared with a reference of the documented state machine; distinct counts (operation, prior state, outcome)")
ASSUMPTIONS = ["a global jupe of a locally juped name is always given with a valid expiry time"]
MUST_SEE = ["cut", "refused", "linked", "expired", "resend", "same", "local", "forward", "denied", "bad-expire", "burst", "connect-refused", "connect-made", "autoconnect-held", "autoconnect-made"]
WEEK = 604800
NAMES = ["fc.test.net", "fd.test.net", "fc.test.net", "fd.test.net", "fx.far.net", "FC.test.net"]


def plan(tier, seed):
    return [{"seed": seed, "i": i} for i in range(2500 if tier == "quick" else 60000)]


class J:
    def __init__(self, name, reason, expire, lastmod, active, local):
        self.name, self.reason, self.expire, self.lastmod, self.active, self.local, self.ldeact = name, reason, expire, lastmod, active, local, False

    @property
    def on(self):
        return self.active and not self.ldeact


def run_case(ctx, p):
    r = ctx.rng
    auto = r.random() < .3
    con = ['name="f%s.test.net"; host="10.200.0.%d"; password="testpass"; class="Server"; hub; port=45%02d; autoconnect=%s' % (c, i + 1, i, "yes" if c == "d" and auto else "no") for i, c in enumerate("abcd")]
    s = ctx.ircd(vsim.conf(ports=((6667, ""), (4400, "server=yes")),
                           opers=['local = no; class = "Opers"; host = "*@*"; password = "$PLAIN$operpass"; name = "oper"; jupe=yes; local_jupe=yes',
                                  'local = no; class = "Opers"; host = "*@*"; password = "$PLAIN$loc"; name = "loc"; jupe=no; local_jupe=yes',
                                  'local = no; class = "Opers"; host = "*@*"; password = "$PLAIN$weak"; name = "weak"; jupe=no; local_jupe=no'],
                           classes=['name = "Local"; pingfreq = 65000; sendq = 160000; maxlinks = 250;', 'name = "Opers"; pingfreq = 65000; sendq = 1600000; maxlinks = 100; local = no;',
                                    'name = "Server"; pingfreq = 65000; connectfreq = 60; sendq = 9000000; maxlinks = 40;'],
                           connects=con))
    X(ctx, s, auto).run()


class X:
    def __init__(self, ctx, s, auto):
        self.ctx, self.s, self.r, self.auto = ctx, s, ctx.rng, auto
        self.l = []
        self.up = {}
        self.last = 0

    def peers(self):
        return [x for x in list(self.fixed) + list(self.up.values()) if x]

    def settle(self):
        kit.settle(self.s, self.peers())

    def tick(self):
        now = self.s.now
        n = [j for j in self.l if j.expire <= now]
        if n:
            self.ctx.count("expired", len(n))
        self.l = [j for j in self.l if j.expire > now]

    def find(self, name):
        return next((j for j in self.l if lower(j.name) == lower(name)), None)

    def run(self):
        s, r, ctx = self.s, self.r, self.ctx
        self.fixed = ()
        self.outs = {"fc.test.net": s.listen_out("10.200.0.3", 4502), "fd.test.net": s.listen_out("10.200.0.4", 4503)}
        self.ops = {}
        for i, (n, pw) in enumerate((("oper", "operpass"), ("loc", "loc"), ("weak", "weak"))):
            c = kit.register(s, "o" + n, "172.16.0.%d" % i, wait=2)
            kit.oper(s, c, n, pw)
            self.ops[n] = c
        self.user = kit.register(s, "plain", "172.16.1.1", wait=2)
        fa = kit.peer(s, "fa.test.net", 5, "10.200.0.1")
        fb = kit.peer(s, "fb.test.net", 6, "10.200.0.2")
        self.fixed = (fa, fb)
        fa.send("%s N remo 1 %d ru rhost +o AAAAAB %sAAA :remote oper" % (fa.yy, s.now, fa.yy))
        self.settle()
        for n, c in self.ops.items():
            fb.take()
            c.send("AWAY :x")
            self.settle()
            c.nn = [m for m in fb.take() if m.cmd == "A"][0].src
            s.advance(2)
        for _ in range(r.randint(22, 34)):
            d = r.choice([1, 2, 3, 10, 40, 60, 61, 300])
            s.advance(d)
            self.drain()
            self.tick()
            k = r.random()
            if k < .34:
                self.from_server()
            elif k < .68:
                self.from_oper()
            elif k < .9:
                self.link()
            else:
                self.connect()
            if r.random() < .3:
                self.listing()
        self.listing()
        ctx.sample([(j.name, j.expire - s.now, j.active, j.ldeact, j.local) for j in self.l])

    def drain(self):
        self.settle()
        for c in self.peers() + list(self.ops.values()) + [self.user]:
            c.take()
        self.incoming()

    def incoming(self, allow=True):
        """Autoconnect attempts of the server (only fd is configured for it)."""
        for n, l in self.outs.items():
            while True:
                try:
                    c, _ = l.accept()
                except BlockingIOError:
                    break
                c.close()
                self.settle()
                j = self.find(n)
                if not (self.auto and n.startswith("fd")):
                    self.ctx.fail("jupe:autoconnect", "an unrequested connection to %s was made" % n)
                self.ctx.count("autoconnect-made")
                # it may have been made at any time since the last look
                if j and j.on and j.since < self.last and j.expire > self.s.now:
                    self.ctx.fail("jupe:autoconnect", "the server connects to %s, juped for %d seconds" % (n, self.s.now - j.since))
        j = self.find("fd.test.net")
        if self.auto and j and j.on:
            self.ctx.count("autoconnect-held")
        self.last = self.s.now

    def expect(self, what, fwd=None, src=None, back=None, only=None, cut=None):
        self.settle()
        for f in self.peers():
            ms = f.take()
            got = [(m.src, m.args) for m in ms if m.cmd == "JU"]
            want = []
            if fwd and f is not src and (only is None or f is only):
                want = [fwd]
            if back and f is src:
                want = [back]
            if f is cut:
                want = []
                got = []
                if not f.eof:
                    self.ctx.fail("jupe:cut", "%s activated a jupe of %s but its link stands" % (what, f.name), self.show())
            elif f.eof:
                self.ctx.fail("jupe:cut", "%s: the link to %s was lost" % (what, f.name), self.show())
            if got != want:
                self.ctx.fail("jupe:propagation", "after %s %s was sent %r, expected %r" % (what, f.name, got, want), self.show())
            if f is not cut:
                sq = [m for m in ms if m.cmd == "SQ"]
                w = 1 if cut else 0
                if len(sq) != w or (w and (sq[0].args[0] != cut.name or sq[0].args[-1] != "Juped: " + self.find(cut.name).reason)):
                    self.ctx.fail("jupe:cut", "after %s %s was sent %r (%s)" % (what, f.name, sq, "juped link " + cut.name if cut else "no link was juped"), self.show())
        if cut:
            self.ctx.count("cut")
            self.up = {n: f for n, f in self.up.items() if f is not cut}
        self.ctx.ev()

    def show(self):
        return [(j.name, j.expire - self.s.now, j.lastmod - self.s.now, j.active, j.ldeact, j.local, j.reason) for j in self.l]

    def linked(self, j):
        if j.on:
            return self.up.get(lower(j.name))

    def line(self, src, j):
        return (src, ["*", ("+" if j.active else "-") + j.name, str(j.expire - self.s.now), str(j.lastmod), j.reason])

    def add(self, name, reason, exp, lastmod, active, local):
        if exp <= 0 or exp > WEEK:
            self.ctx.count("bad-expire")
            return None
        j = J(name, reason, self.s.now + exp, lastmod, active, local)
        j.since = self.s.now
        self.l.insert(0, j)
        return j

    def change(self, j, active, lastmod, local):
        """Whether the change has to be told to the other servers."""
        on, was = j.on, j.active
        tell = False
        if not local:
            j.active = active
            j.lastmod = lastmod if j.lastmod < lastmod else j.lastmod + 1
            tell = None if (active and on) else (active or was)
            if active and was and not on:
                tell = "maybe"
        elif j.local:
            if active:
                j.active = True
            else:
                self.l.remove(j)
        else:
            j.ldeact = not active
        if j.on and not on:
            j.since = self.s.now
        return tell

    def from_server(self):
        s, r, ctx = self.s, self.r, self.ctx
        f = r.choice(self.peers())
        src = f.yy + "AAA" if f is self.fixed[0] and r.random() < .25 else f.yy
        name = r.choice(NAMES)
        now = s.now
        k = r.random()
        active = r.random() < .65
        exp = r.choice([30, 90, 600, 3000, WEEK, WEEK + 1, 0, -3])
        reason = r.choice(["bad server", "too many users", "x"])
        j = self.find(name)
        last = now - r.choice([0, 0, 1, 50, 3000])
        if j and r.random() < .5:
            last = j.lastmod + r.choice([-1, 0, 1, 1])
        dest = "*"
        if k < .2:
            d = r.choice([x for x in self.peers() if x is not f] + [None, None])
            dest = d.yy if d else "AB"
        if f in self.up.values() and lower(f.name) == lower(name):
            return      # a server juping itself: its own link goes away while it speaks
        line = "%s JU %s %s%s %d %d :%s" % (src, dest, "+" if active else "-", name, exp, last, reason)
        state = None if not j else ("local" if j.local else "global", j.active, j.ldeact)
        if dest == "*" and j and j.local and not 0 < exp <= WEEK:
            return
        f.send(line)
        if dest not in ("*", "AB"):
            ctx.count("forward")
            return self.expect(line, (src, [dest, ("+" if active else "-") + name, str(exp), str(last), reason]), f, None, d)
        local = dest == "AB"
        if j and j.local and not local:
            self.l.remove(j)
            j = None
        elif j and j.lastmod > last:
            ctx.count("resend")
            return self.expect(line, None, f, None if j.local else self.line("AB", j))
        elif j and j.lastmod == last:
            ctx.count("same")
            return self.expect(line)
        ctx.seen("%s %s %s %s %s" % ("server", active, local, state, 0 < exp <= WEEK))
        if not j:
            j = self.add(name, reason, exp, last, active, local)
            tell = bool(j) and not local
            if local:
                ctx.count("local")
        else:
            tell = self.change(j, active, last, local)
        self.tell(line, tell, src, f, j)

    def tell(self, line, tell, src, f, j):
        cut = self.linked(j) if j and j in self.l else None
        if tell == "maybe":
            # already active: telling the others again is harmless
            self.settle()
            for x in self.peers():
                x.pump()
                x.msgs = [m for m in x.msgs if m.cmd != "JU" or (m.src, m.args) != self.line(src, j) or x is f]
            tell = False
        self.expect(line, self.line(src, j) if tell else None, f, None, None, cut)

    def from_oper(self):
        s, r, ctx = self.s, self.r, self.ctx
        n = r.choice(["oper", "oper", "oper", "loc", "weak"])
        c = self.ops[n]
        name = r.choice(NAMES)
        active = r.random() < .65
        exp = r.choice([30, 90, 600, 3000, WEEK, WEEK + 1, 0, -3])
        form = r.choice(["*", "*", "local", "local", "hub.test.net", "remote"])
        j = self.find(name)
        if form == "*" and j and j.local and not 0 < exp <= WEEK:
            return
        d = r.choice(self.peers())
        t = {"local": "", "remote": d.name + " "}.get(form, form + " ")
        line = "JUPE %s%s %s%d :by %s" % ("+" if active else "-", name, t, exp, n)
        c.take()
        c.send(line)
        self.settle()
        m = [x.cmd for x in c.take() if x.cmd.isdigit()]
        local = form in ("local", "hub.test.net")
        if n == "weak" or (n == "loc" and not local):
            ctx.count("denied")
            if m != ["481"]:
                ctx.fail("jupe:privilege", "%r by an operator without the privilege was answered %r" % (line, m))
            return self.expect(line)
        if form == "remote":
            ctx.count("forward")
            return self.expect(line, (c.nn, [d.yy, ("+" if active else "-") + name, str(exp), str(s.now), "by " + n]), None, None, d)
        state = None if not j else ("local" if j.local else "global", j.active, j.ldeact)
        if j and j.local and not local:
            self.l.remove(j)
            j = None
        ctx.seen("%s %s %s %s %s" % ("oper", active, local, state, 0 < exp <= WEEK))
        if not j:
            j = self.add(name, "by " + n, exp, s.now, active, local)
            if not j and m != ["515"]:
                ctx.fail("jupe:refusal", "%r was answered %r, expected 515" % (line, m))
            tell = bool(j) and not local
            if local and j:
                ctx.count("local")
        else:
            tell = self.change(j, active, s.now, local)
        self.tell(line, tell, c.nn, None, j)

    def link(self):
        s, r, ctx = self.s, self.r, self.ctx
        i, name = r.choice([(3, "fc.test.net"), (4, "fd.test.net")])
        if name in self.up:
            f = self.up.pop(name)
            f.close()
            s.sync()
            self.settle()
            return
        j = self.find(name)
        f = p10.FakeServer(s, name, i + 4, "10.200.0.%d" % i)
        f.hold_ea = True
        kit.settle(s, self.peers() + [f])
        ok = any(m.cmd == "SERVER" for m in f.msgs) and not f.eof
        if ok != (not (j and j.on)):
            ctx.fail("jupe:admission", "%s %s although %s" % (name, "linked" if ok else "was refused: %r" % f.msgs[-2:], "it is juped" if j and j.on else "no active jupe names it"), self.show())
        ctx.ev()
        if not ok:
            ctx.count("refused")
            if not any("Juped: " + j.reason in str(m) for m in f.msgs):
                ctx.fail("jupe:reason", "a juped server was told %r" % f.msgs)
            self.settle()
            for x in self.peers():
                if any(m.cmd in ("S", "JU", "SQ") for m in x.take()):
                    ctx.fail("jupe:admission", "a refused server was announced to %s" % x.name)
            return
        ctx.count("linked")
        f.eob()
        kit.settle(s, self.peers() + [f])
        got = sorted((m.src, m.args) for m in f.take() if m.cmd == "JU")
        want = sorted(self.line("AB", j) for j in self.l if not j.local)
        if got != want:
            ctx.fail("jupe:burst", "a linking server was sent the jupes %r, expected %r" % (got, want), self.show())
        ctx.count("burst")
        self.up[name] = f

    def connect(self):
        s, r, ctx = self.s, self.r, self.ctx
        name = r.choice(["fc.test.net", "fd.test.net"])
        if name in self.up or (self.auto and name.startswith("fd")):
            return
        j = self.find(name)
        c = self.ops["oper"]
        c.send("CONNECT " + name)
        self.settle()
        made = False
        try:
            x, _ = self.outs[name].accept()
            made = True
            x.close()
        except BlockingIOError:
            pass
        self.settle()
        if made != (not (j and j.on)):
            ctx.fail("jupe:connect", "CONNECT %s %s although %s (%r)" % (name, "was carried out" if made else "was not carried out", "it is juped" if j and j.on else "no active jupe names it", c.take()), self.show())
        ctx.count("connect-made" if made else "connect-refused")
        ctx.ev()

    def listing(self):
        self.drain()
        self.tick()
        m = kit.ask(self.s, self.ops["weak"], "JUPE", dt=0, peers=self.peers())
        got = [x.args[1:] for x in m if x.cmd == "282"]
        want = [[j.name, str(j.expire), "hub.test.net" if j.local else "*", "+" if j.on else "-", j.reason] for j in self.l]
        if got != want or not any(x.cmd == "283" for x in m):
            self.ctx.fail("jupe:list", "JUPE lists %r, expected %r" % (got, want))
        if self.r.random() < .3:
            m = kit.ask(self.s, self.user, "JUPE +fc.test.net 100 :x", dt=0, peers=self.peers())
            if [x.cmd for x in m] != ["481"]:
                self.ctx.fail("jupe:privilege", "JUPE by an ordinary user was answered %r" % m)
            self.s.advance(3)
            self.tick()
        self.ctx.ev()
