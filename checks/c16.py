"""Flood control: what clients send is carried out in order and no faster than the limits allow; too much ends the connection"""
import kit, vsim
PROPERTY = "C16"
RULE = ("clients of classes with various limits, operators, unregistered clients send bursts and trickles of commands, cut anywhere, some overflowing; the second in which every command takes effect and every disconnection is compared with a "
        "reference of the penalty clock and input buffer; distinct counts (kind of client, commands waiting, seconds of penalty)")
ASSUMPTIONS = ["DEBUGMODE build", "one virtual second is the resolution of the clock"]
MUST_SEE = ["delayed", "at once", "flood exit", "nearly flood", "exempt", "oper", "unregistered", "partial", "too long", "unknown", "empty", "class default", "class limit", "feature", "rehash exempt", "rehash revoke", "long command", "quit waits", "deop", "rehash feature"]
READBUF = 8191 + 512


def plan(tier, seed):
    return [{"seed": seed, "i": i} for i in range(1200 if tier == "quick" else 30000)]


def run_case(ctx, p):
    X(ctx).run()


class Model:
    """The penalty clock and the input buffer of one connection."""
    def __init__(self, now, limit, exempt):
        self.since, self.q, self.nonl, self.timer = now, b"", False, None
        self.limit, self.exempt, self.dead, self.done = limit, exempt, False, []

    def read(self, now, data, cost):
        """data arrives in one piece; returns the lines carried out."""
        if self.dead:
            return []
        if data:
            self.nonl = False
            self.since = max(self.since, now)
            self.q += data
        if len(self.q) > self.limit:
            self.dead = True
            return []
        out = []
        while self.q and not self.nonl and (self.exempt or self.since - now < 10):
            self.q = self.q.lstrip(b"\r\n")
            if not self.q:
                break
            i = next((i for i, c in enumerate(self.q[:READBUF]) if c in b"\r\n"), None)
            if i is None:
                if len(self.q) < READBUF - 2:
                    self.nonl = True
                else:
                    self.q = b""
                    out.append("overflow")
                continue
            line, self.q = self.q[:i], self.q[i + 1:]
            self.q = self.q.lstrip(b"\r\n")
            self.since += cost(line)
            out.append(line)
        if self.q and not self.nonl and self.timer is None:
            self.timer = now + 2
        return out


class X:
    def __init__(self, ctx):
        self.ctx, self.r = ctx, ctx.rng

    def conf(self):
        cl = ['name = "Plain"; pingfreq = 1000 minutes; sendq = 1600000; maxlinks = 250;',
              'name = "Lim"; pingfreq = 1000 minutes; sendq = 1600000; maxlinks = 250; maxflood = %d;' % self.lim,
              'name = "Opers"; pingfreq = 1000 minutes; sendq = 1600000; maxlinks = 100; local = no;' + (" maxflood = %d;" % self.om if self.om else ""),
              'name = "Watch"; pingfreq = 1000 minutes; sendq = 16000000; maxlinks = 100; maxflood = 60000;']
        t = vsim.conf(classes=cl, clients=['ip = "10.1.*"; class = "Plain";', 'ip = "10.2.*"; class = "Lim";', 'ip = "10.9.*"; class = "Watch";'],
                      features={"CLIENT_FLOOD": self.feat})
        if self.late:
            # features after the classes, as in the example configuration, or before
            i = t.index("Features {")
            j = t.index("};", i) + 2
            t = t[:i] + t[j:]
            k = t.index("Class")
            f = 'Features { "CLIENT_FLOOD" = "%s"; "HUB" = "TRUE"; "NODNS" = "TRUE"; "NOIDENT" = "TRUE"; "CONFIG_OPERCMDS" = "TRUE"; "IPCHECK_CLONE_LIMIT" = "1000"; "PPATH" = "ircd.pid"; };\n' % (self.feat or 1024)
            t = t[:k] + f + t[k:]
        return t

    def run(self):
        ctx, r = self.ctx, self.r
        self.feat = r.choice([None, None, "600", "2048", "4000"])
        self.lim = r.choice([300, 700, 1024, 1500, 8000, 30000])
        self.om = r.choice([0, 0, 500, 3000, 20000])
        self.late = r.random() < .4
        self.s = s = ctx.ircd(self.conf())
        F = int(self.feat or 1024)
        if self.feat:
            ctx.count("feature")
        self.w = w = kit.register(s, "watch", "10.9.0.1")
        self.cl, self.heard = [], []
        for n in range(r.randint(2, 4)):
            kind = r.choice(["plain", "lim", "oper"])
            c = kit.register(s, "c%d" % n, "10.%d.0.%d" % (2 if kind == "lim" else 1, n + 1))
            if kind == "oper":
                if not kit.oper(s, c):
                    ctx.fail("setup:oper", "could not become an operator")
                if r.random() < .3:
                    s.advance(30)
                    c.send("MODE c%d -o" % n)
                    s.advance(3)
                    kit.settle(s)
                    if not any(m.cmd == "MODE" for m in c.take()):
                        ctx.fail("setup:oper", "could not stop being an operator")
                    kind = "plain"
                    ctx.count("deop")
            c.kind, c.n, c.id, c.part = kind, n, 0, b""
            self.cl.append(c)
        s.advance(60)
        kit.settle(s)
        for c in self.cl:
            lim = self.limit(c.kind, F)
            c.m = Model(s.now, lim, lim > F)
            if c.m.exempt:
                ctx.count("exempt")
            ctx.count("class limit" if c.kind == "lim" else "class default")
            if c.kind == "oper":
                ctx.count("oper")
            c.take()
        w.take()
        ctx.log([self.feat, self.lim, self.late, [c.kind for c in self.cl]])
        for k in range(r.randint(6, 14)):
            self.step(F)
        self.F = F
        if r.random() < .6:
            self.rehash(F)
        self.unreg(self.F)

    def limit(self, kind, F):
        return self.lim if kind == "lim" else self.om or F if kind == "oper" else F

    def cost(self, line):
        if b"XYZZY" in line or len(line) > 510 or line.strip(b" ") in (b"", b"\0"):
            return 0
        cmd, _, rest = line.partition(b" ")
        return 2 + (len(rest) if _ else len(cmd)) // 120

    def command(self, c):
        r, ctx = self.r, self.ctx
        k = r.random()
        c.id += 1
        if k < .07:
            ctx.count("unknown")
            return b"XYZZY %d" % c.id
        if k < .1:
            ctx.count("empty")
            return r.choice([b"", b"", b"  "])
        if k < .13:
            ctx.count("too long")
            return b"PING :%d %s" % (c.id, b"z" * r.choice([510, 600]))
        pad = r.choice([0, 0, 5, 100, 105, 110, 111, 112, 113, 114, 115, 230, 400])
        if pad > 100:
            ctx.count("long command")
        return (b"PRIVMSG watch :" if k < .6 else b"PING :") + b"%d-%d %s" % (c.n, c.id, b"p" * pad)

    def step(self, F):
        """Some clients send something; the clock runs a few seconds."""
        r, ctx = self.r, self.ctx
        for c in self.cl:
            if c.m.dead or r.random() < .35:
                continue
            k = r.random()
            n = r.choice([1, 2, 4, 6, 8, 12, 25])
            d = b"".join(self.command(c) + r.choice([b"\r\n", b"\n", b"\r\n"]) for _ in range(n))
            room = c.m.limit - len(c.m.q) - len(c.part)
            if k < .12:
                pass
            elif k < .3 and room > 60:
                # exactly up to the limit, or one more
                d = b""
                while len(d) < room - 560:
                    d += self.command(c) + b"\r\n"
                t = room + r.choice([0, 0, 1, -1])
                while len(d) < t:
                    m = min(t - len(d), 450)
                    if t - len(d) - m == 1:
                        m -= 20
                    d += b"\n" * m if m < 8 else b"PING :" + b"q" * (m - 7) + b"\n"
                ctx.count("nearly flood")
            elif len(d) > room:
                d = d[:room // 2]
                d = d[:d.rfind(b"\n") + 1]
            full = c.part + d
            d, c.part = full, b""
            if r.random() < .25 and len(d) > 3 and k >= .3:
                i = r.randint(1, len(d) - 1)
                d, rest = d[:i], d[i:]
                c.part = rest[:rest.find(b"\n") + 1]
                ctx.count("partial")
            self.send(c, d)
        for _ in range(r.choice([1, 1, 2, 5, 13, 30])):
            self.tick()

    def send(self, c, d):
        if not d:
            return
        self.ctx.log([self.s.now, c.nick, d[:300].decode("latin-1"), len(d)])
        c.send_raw(d)
        self.s.sync()
        self.account(c, c.m.read(self.s.now, d, self.cost))

    def tick(self):
        self.s.advance(1)
        for c in self.cl:
            if c.m.timer is not None and c.m.timer <= self.s.now:
                c.m.timer = None
                self.account(c, c.m.read(self.s.now, b"", self.cost))
            else:
                self.account(c, [])

    def account(self, c, done):
        """What the client and the onlooker saw is what the reference carried out."""
        ctx = self.ctx
        self.s.sync()
        ctx.ev(1 + len(done))
        self.heard += [m.args[-1].split(" ")[0] for m in self.w.take() if m.cmd == "PRIVMSG"]
        heard = [x for x in self.heard if x.startswith("%d-" % c.n)]
        self.heard = [x for x in self.heard if not x.startswith("%d-" % c.n)]
        got = c.take()
        want, reply = [], []
        for l in done:
            if l == "overflow":
                reply.append("417")
                continue
            if len(l) > 510:
                reply.append("417")
            elif l.startswith(b"PRIVMSG"):
                want.append(l.split(b":", 1)[1].split(b" ")[0].decode())
            elif l.startswith(b"PING"):
                reply.append("PONG " + l.split(b":", 1)[1].decode()[:60])
            elif b"XYZZY" in l:
                reply.append("421")
        seen = []
        for m in got:
            seen.append("PONG " + m.args[-1][:60] if m.cmd == "PONG" else m.cmd)
        err = [x for x in got if x.cmd == "ERROR"]
        if c.m.dead:
            if not c.eof or err and "Excess Flood" not in err[0].args[-1]:
                ctx.fail("flood:exit", "%s (%s) has more than %d bytes waiting and is not disconnected for it (closed %s, %r)" % (c.nick, c.kind, c.m.limit, c.eof, [m.raw[:80] for m in got]))
            if not getattr(c, "told", False):
                c.told = True
                ctx.count("flood exit")
            return
        if c.eof:
            ctx.fail("flood:exit", "%s (%s) was disconnected with %d bytes waiting, limit %d: %r" % (c.nick, c.kind, len(c.m.q), c.m.limit, [m.raw[:80] for m in got]))
        what = "%s (%s%s, %d bytes waiting, penalty %d s)" % (c.nick, c.kind, ", exempt" if c.m.exempt else "", len(c.m.q), c.m.since - self.s.now)
        if heard != want:
            ctx.fail("flood:order", "%s: messages delivered %r, reference %r" % (what, heard, want))
        if seen != reply:
            ctx.fail("flood:order", "%s: answers %r, reference %r" % (what, seen, reply))
        ctx.count("delayed" if c.m.q else "at once", len(done))
        if done or c.m.q:
            ctx.seen((c.kind, c.m.exempt, len(done), min(len(c.m.q) // 50, 40), c.m.since - self.s.now))

    def rehash(self, F):
        """A new class limit counts from the next input on."""
        ctx, r, s = self.ctx, self.r, self.s
        for _ in range(40):
            self.tick()
        while any(c.m.q and not c.m.nonl and not c.m.dead for c in self.cl):
            self.tick()
        self.lim = r.choice([300, 900, 1500, 5000, 20000])
        if r.random() < .5:
            self.feat = r.choice(["500", "1024", "3000"])
            ctx.count("rehash feature")
        F = int(self.feat or 1024)
        self.F = F
        s.write_conf(self.conf())
        s.signal(1)
        s.sync()
        kit.settle(s)
        for c in self.cl:
            lim = self.limit(c.kind, F)
            if c.m.exempt != (lim > F):
                ctx.count("rehash revoke" if c.m.exempt else "rehash exempt")
            c.m.limit, c.m.exempt = lim, lim > F
            c.take()
        self.w.take()
        self.heard = []
        for _ in range(r.randint(2, 5)):
            self.step(F)

    def unreg(self, F):
        """Before registration the default limit and the same clock apply; QUIT waits its turn as well."""
        ctx, r, s = self.ctx, self.r, self.s
        c = s.connect("10.1.5.1", 6667)
        s.sync()
        m = Model(s.now, F, False)
        d = b""
        n = r.randint(1, 12)
        for i in range(n):
            d += b"PONG :%d %s\r\n" % (i, b"x" * r.choice([0, 150]))
        over = r.random() < .3
        if over:
            while len(d) <= F:
                d += b"PONG :%s\r\n" % (b"x" * 200)
        d += b"QUIT :bye\r\n"
        c.take()
        c.send_raw(d)
        s.sync()
        done = m.read(s.now, d, self.cost)
        for k in range(60):
            quit = any(l == b"QUIT :bye" for l in done)
            c.take()
            ctx.ev()
            if c.eof != (quit or m.dead):
                ctx.fail("flood:unregistered", "unregistered client with %d commands: after %d s closed %s, reference %s" % (n, k, c.eof, quit or m.dead))
            if c.eof:
                break
            s.advance(1)
            if m.timer is not None and m.timer <= s.now:
                m.timer = None
                done = m.read(s.now, b"", self.cost)
        ctx.count("unregistered")
        if k and not m.dead:
            ctx.count("quit waits")
