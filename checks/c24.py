"""Dead connections are noticed and ended in time, live ones are left alone"""
import kit, vsim, p10
from c18 import WS
PROPERTY = "C24"
RULE = ("users, servers, unregistered and outgoing connections of classes with various ping frequencies answer, stay silent, talk now and then or stop at a random moment, while others come and go and the configuration is reloaded; when the server "
        "pings and closes each is compared with the limits; distinct counts (kind, behaviour, outcome, seconds over the limit)")
ASSUMPTIONS = ["up to PINGFREQUENCY seconds may pass between two checks", "the clock is sampled every few seconds"]
MUST_SEE = ["silent", "answers", "talks", "stops", "user pinged", "user timed out", "user kept", "server timed out", "server kept", "unregistered timed out", "registered in time", "websocket without handshake", "connect without answer", "quit told", "squit told", "rehash", "class without pingfreq", "half line", "half talks"]


def plan(tier, seed):
    return [{"seed": seed, "i": i} for i in range(800 if tier == "quick" else 20000)]


def run_case(ctx, p):
    X(ctx).run()


class X:
    def __init__(self, ctx):
        self.ctx, self.r = ctx, ctx.rng

    def conf(self):
        cl = ['name = "A"; pingfreq = %d seconds; sendq = 160000; maxlinks = 250;' % self.P["A"], 'name = "B"; pingfreq = %d seconds; sendq = 160000; maxlinks = 250;' % self.P["B"],
              'name = "N"; sendq = 160000; maxlinks = 250;', 'name = "S"; pingfreq = %d seconds; connectfreq = %d seconds; sendq = 9000000; maxlinks = 40;' % (self.P["S"], 40),
              'name = "W"; pingfreq = 10000 minutes; sendq = 1600000; maxlinks = 40;']
        return vsim.conf(ports=((6667, ""), (4400, "server=yes;"), (7000, "websocket = yes;")), classes=cl,
                         clients=['ip = "10.1.*"; class = "A";', 'ip = "10.2.*"; class = "B";', 'ip = "10.3.*"; class = "N";', 'ip = "10.9.*"; class = "W";'], opers=[],
                         connects=['name="f%s.test.net"; host="10.200.0.%d"; password="testpass"; class="S"; hub; port = 4400; autoconnect=%s' % (x, i, "yes" if x == "c" and self.out else "no") for i, x in ((1, "a"), (2, "b"), (3, "c"))],
                         features={"PINGFREQUENCY": str(self.F), "CONNECTTIMEOUT": str(self.CT), "WEBSOCKET_KEEPALIVE": "0", "CONNECTFREQUENCY": "40"})

    def run(self):
        ctx, r = self.ctx, self.r
        self.F, self.CT = r.choice([20, 60, 120, 200]), r.choice([30, 90, 150])
        self.P = {"A": r.choice([15, 30, 60, 120]), "B": r.choice([45, 90, 300]), "S": r.choice([30, 60, 120])}
        self.out = r.random() < .4
        self.ls = None
        self.s = s = ctx.ircd(self.conf())
        self.dt = r.choice([1, 2, 3, 5])
        self.outs = []
        if self.out:
            self.ls = s.listen_out("10.200.0.3", 4400)
        self.w = w = kit.register(s, "watch", "10.9.0.1", wait=3)
        w.send("JOIN #c")
        s.advance(2)
        w.take()
        self.us, self.n, self.gone, self.split = [], 0, set(), set()
        end = s.now + r.choice([400, 700, 1000])
        ctx.log([self.F, self.CT, self.P, self.dt])
        rehash = r.random() < .3
        while s.now < end:
            if len(self.us) < 9 and r.random() < .25:
                self.new()
            if rehash and r.random() < .02:
                rehash = False
                self.rehash()
            self.tick()

    # -- connections
    def new(self):
        r, s, ctx = self.r, self.s, self.ctx
        self.n += 1
        kind = r.choice(["user", "user", "user", "server", "half", "half", "ws"])
        if kind == "server" and sum(u.kind == "server" and not u.over for u in self.us) >= 2:
            kind = "user"
        how = r.choice(["silent", "answers", "talks", "stops"])
        if kind == "user":
            cl = r.choice("ABN")
            c = kit.register(s, "u%d" % self.n, "10.%d.0.%d" % ("ABN".index(cl) + 1, self.n), wait=0)
            c.autopong = False
            c.P, c.nick = self.P.get(cl) or 90, "u%d" % self.n
            if cl == "N":
                ctx.count("class without pingfreq")
            c.send("JOIN #c")
            s.sync()
            c.cls = cl
        elif kind == "server":
            used = {u.name for u in self.us if u.kind == "server" and not u.over}
            x = next(x for x in "ab" if "f%s.test.net" % x not in used)
            c = kit.peer(s, "f%s.test.net" % x, 5 + "ab".index(x), "10.200.0.%d" % (1 + "ab".index(x)))
            c.P, c.cls = self.P["S"], "S"
            c.nick = "r%d" % self.n
            uid = c.add_user(c.nick, user="ru", host="far.example", ts=s.now - 5, info="far")
            c.send("%s J #c %d" % (uid, s.now - 1000))
            c.autopong = c.auto_ea = False
            kit.settle(s)
        elif kind == "half":
            c = s.connect("10.1.5.%d" % (self.n % 250), 6667)
            for l in r.sample(["NICK h%d" % self.n, "USER u 0 0 :x", "CAP LS", "PASS x", "NICK", ":"], r.randint(0, 3)):
                c.send(l)
            c.autopong = r.random() < .3
            if c.autopong:
                # may complete at any time
                c.late = s.now + r.choice([5, self.CT - 10, self.CT - 6])
            c.P, c.cls = self.CT, None
        else:
            c = WS(s, "10.1.6.%d" % (self.n % 250), 7000)
            c.send_raw(r.choice(["", "GET / HTTP/1.1\r\n", "GET / HTTP/1.1\r\nUpgrade: websocket\r\n"]))
            c.P, c.cls = self.CT, None
        s.sync()
        c.tried = s.now
        c.kind, c.how, c.over, c.n = kind, how, False, self.n
        c.first = c.last = s.now
        c.pinged, c.stop = None, s.now + r.choice([20, 100, 300])
        c.reg = kind in ("user", "server")
        self.us.append(c)
        self.drain(c)
        if c.reg:
            ctx.count(how)
        ctx.log([s.now, "new", kind, how, getattr(c, "cls", None), c.P])

    def drain(self, c):
        """What has arrived on a connection: pings, and whether it has ended."""
        c.pump()
        if c.kind == "server":
            ms, c.msgs = c.msgs, []
            return [m for m in ms if m.cmd in ("G", "PING")]
        ms = c.take() if c.kind != "ws" else []
        if any(m.cmd == "001" for m in ms) and not c.reg:
            c.reg, c.nick, c.kind, c.autopong = True, "h", "user", False
            c.P, c.how = self.P["A"], "silent"
            c.last, c.cls, c.first = c.tried, "A", self.s.now
            self.ctx.count("registered in time")
        c.err = [m.args[-1] for m in ms if m.cmd == "ERROR"] or getattr(c, "err", [])
        return [m for m in ms if m.cmd == "PING"] if c.reg else []

    def say(self, c):
        """The connection sends something, so it is alive."""
        r = self.r
        if c.kind == "server":
            c.send(r.choice(["%s Z %s :x" % (c.yy, c.yy), "%s G :x" % c.yy, "%s W AAAAA :x" % c.yy][:2]))
        else:
            l = r.choice(["PONG :x", "PING :x", "ISON x", "part"])
            if l == "part":
                c.send_raw("ISON")
                c.send_raw(" y\r\n" if r.random() < .5 else " y")
                self.ctx.count("half line")
            else:
                c.send(l)
        self.s.sync()
        c.last, c.pinged = self.s.now, None

    def tick(self):
        r, s, ctx = self.r, self.s, self.ctx
        s.advance(self.dt)
        for m in self.w.take():
            if m.cmd == "QUIT":
                self.gone.add(m.nick)
                if m.nick:
                    self.why = getattr(self, "why", {})
                    self.why[m.nick] = m.args[-1]
        if self.ls:
            try:
                a, _ = self.ls.accept()
                a.setblocking(False)
                o = vsim.Conn(None, "10.200.0.3", 4400, sock=a)
                o.t = s.now
                o.slop = 0 if self.outs else 20
                self.outs.append(o)
                ctx.log([s.now, "outgoing connection"])
            except BlockingIOError:
                pass
        for o in self.outs:
            ctx.ev()
            o.pump()
            age = s.now - o.t
            if o.eof:
                if not getattr(o, "done", False):
                    o.done = True
                    ctx.count("connect without answer")
                    if age < self.CT - self.dt - o.slop:
                        ctx.fail("ping:connect", "outgoing connection given up after %d s, CONNECTTIMEOUT %d" % (age, self.CT))
            elif age > self.CT + self.F + 2 * self.dt:
                ctx.fail("ping:connect", "outgoing connection without answer is still there after %d s, CONNECTTIMEOUT %d, checks every %d s" % (age, self.CT, self.F))
        for c in self.us:
            if not c.over:
                self.judge(c)
        self.us = [c for c in self.us if not c.over]

    def judge(self, c):
        r, s, ctx, dt = self.r, self.s, self.ctx, self.dt
        ctx.ev()
        pings = self.drain(c)
        if pings or c.eof:
            ctx.log([s.now, c.kind, c.n, s.now - c.last, [m.cmd for m in pings], c.eof])
        now = s.now
        what = "%s of class %s (pingfreq %d, %s), silent for %d s, pinged %s" % (c.kind, c.cls, c.P, c.how, now - c.last, c.pinged and "%d s ago" % (now - c.pinged))
        if c.eof:
            c.over = True
            self.ended(c, what)
            return
        if not c.reg:
            if getattr(c, "late", None) and now >= c.late and now - c.first < self.CT - dt:
                c.late, c.tried = None, now
                for l in ("NICK h%d" % c.n, "USER u 0 0 :x", "CAP END"):
                    c.send(l)
                s.sync()
            if c.kind == "half" and c.how == "talks" and r.random() < dt / 15.:
                c.send(r.choice(["PONG :1", "CAP LS", "NICK i%d" % c.n]))
                s.sync()
                ctx.count("half talks")
                c.tried = now
            if now - c.first > max(self.CT, self.F) + 2 * dt:
                ctx.fail("ping:unregistered", "unregistered %s is still connected after %d s, CONNECTTIMEOUT %d, checks every %d s" % (c.kind, now - c.first, self.CT, self.F))
            return
        for m in pings:
            if now - c.last < c.P - (self.dt if c.nick == "h" else 0):
                # servers are also sent a PING every pingfreq for measuring, whatever they send
                if c.kind != "server":
                    ctx.fail("ping:early", "pinged too early: " + what)
                continue
            if c.pinged is None:
                c.pinged = now
                if c.kind == "user":
                    ctx.count("user pinged")
                    ctx.seen((c.kind, c.how, "pinged", now - c.last - c.P))
            elif c.kind == "user":
                ctx.fail("ping:twice", "pinged twice: " + what)
        if c.kind == "user" and c.pinged is None and now - c.first > max(c.last + c.P - c.first, self.F) + (3 * dt if c.nick == "h" else dt):
            ctx.fail("ping:late", "not pinged: " + what)
        lim = (c.pinged + c.P if c.pinged else None) if c.kind == "user" else max(c.last + c.P, c.first + self.F) + c.P
        if lim and now > lim + 2 * dt:
            ctx.fail("ping:dead", "still connected: " + what)
        # what it does next
        if c.how == "answers" and pings:
            if r.random() < .7 or c.kind == "server" or now - c.pinged > c.P - 3 * dt:
                self.say(c)
                ctx.count(c.kind + " kept")
        elif c.how == "answers" and c.pinged and now - c.pinged > c.P - 4 * dt:
            self.say(c)
            ctx.count(c.kind + " kept")
        elif c.how == "talks" and (r.random() < dt / 40. or c.kind == "server" and now - c.last > 1.5 * c.P or c.pinged and now - c.pinged > c.P - 4 * dt):
            self.say(c)
        elif c.how == "stops":
            if now < c.stop and (r.random() < dt / 20. or c.pinged or now - c.last > c.P - 4 * dt):
                self.say(c)

    def ended(self, c, what):
        s, ctx, dt, now = self.s, self.ctx, self.dt, self.s.now
        ctx.seen((c.kind, c.how, "ended", (now - c.last) // 10))
        if not c.reg:
            if now - c.first < self.CT:
                ctx.fail("ping:unregistered", "unregistered %s was disconnected after %d s, CONNECTTIMEOUT %d (%r)" % (c.kind, now - c.first, self.CT, c.err))
            ctx.count("unregistered timed out" if c.kind == "half" else "websocket without handshake")
            return
        if c.kind == "user":
            if c.pinged is None or now < c.pinged + c.P - dt:
                ctx.fail("ping:alive", "disconnected before its time: " + what)
            ctx.count("user timed out")
        else:
            if now - c.last < 2 * c.P:
                ctx.fail("ping:alive", "disconnected before its time: " + what)
            ctx.count("server timed out")
        if c.nick == "h":
            return
        why = getattr(self, "why", {}).get(c.nick)
        if c.kind == "user":
            if why != "Ping timeout":
                ctx.fail("ping:quit", "the channel was told %r when %s timed out" % (why, c.nick))
            ctx.count("quit told")
        else:
            if not why:
                ctx.fail("ping:quit", "the users of a server that timed out did not quit")
            ctx.count("squit told")

    def rehash(self):
        ctx, r, s = self.ctx, self.r, self.s
        self.P = {"A": r.choice([15, 30, 60, 120]), "B": r.choice([45, 90, 300]), "S": self.P["S"]}
        s.write_conf(self.conf())
        s.signal(1)
        s.sync()
        kit.settle(s)
        # classes change at once; connections in between are not judged
        for c in self.us:
            if c.cls in ("A", "B"):
                c.over = True
                c.close()
        self.us = [c for c in self.us if not c.over]
        s.sync()
        ctx.count("rehash")
