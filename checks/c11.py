"""G-lines: who is disconnected, who may connect, what propagates, what is listed and when it ends"""
import kit, vsim, p10
from masks import match, ipmask, ip_in, lower
PROPERTY = "C11"
RULE = ("random G-line additions, changes, (de)activations, local overrides and expiries by peers, remote users and local operators, compared after each step with a reference of the documented state machine: "
        "who is cut off, who is refused, what each neighbour receives, what GLINE lists; distinct counts (operation, outcome)")
ASSUMPTIONS = ["a channel is not both locally and globally G-lined at once"]
MUST_SEE = ["killed", "refused", "admitted", "expired", "resend", "badchan", "burst", "remote-local", "too-wide", "bad-expire", "local-override", "denied", "too-many", "forward"]
MAXEXP = 604800
MONTH = 30 * 24 * 3600
HOSTS = ["10.1.1.5", "10.1.1.77", "10.1.2.5", "10.2.0.9", "192.168.3.4", "2001:db8:1::5", "2001:db8:2::7"]
USERS = ["alice", "bob", "carl"]
REALS = ["real alice", "a spam bot", "Real Bob", "nothing here"]


def plan(tier, seed):
    return [{"seed": seed, "i": i} for i in range(400 if tier == "quick" else 9000)]


class G:
    def __init__(self, mask, reason, expire, lastmod, lifetime, active, local):
        self.mask, self.reason, self.expire, self.lastmod, self.lifetime, self.active, self.local = mask, reason, expire, lastmod, lifetime, active, local
        self.state = ""

    @property
    def on(self):
        return (self.active and self.state != "<") or self.state == ">"

    def kind(self):
        return "chan" if self.mask[0] in "#&" else "real" if self.mask[0] == "$" else "host"


def full(mask):
    return mask if mask[0] in "#&$" or "@" in mask else "*@" + mask


def hits(mask, c):
    """Does a client identity (user, ip, realname) match?"""
    if mask[0] in "#&":
        return False
    if mask[0] == "$":
        return match(mask[2:], c["info"])
    u, _, h = mask.partition("@")
    if not match(u, c["user"]):
        return False
    n = ipmask(h)
    if n:
        return ip_in(c["ip"], n)
    return match(h, c["ip"])


def width(host):
    """approved / wild / rejected, after the documented limits for operators."""
    if "/" in host:
        a, b = host.split("/")
        b = int(b)
        if ":" in a:
            return "ok" if b == 128 else "wild" if b >= 16 else "no"
        return "ok" if b == 32 else "wild" if b >= 16 else "no"
    if "*" not in host and "?" not in host:
        return "ok"
    return {"10.1.1.*": "wild", "10.1.*": "wild", "10.*": "no", "*": "no", "*.com": "no", "*.example.com": "wild", "192.168.3.?": "wild"}[host]


class Book:
    def __init__(self):
        self.l = []

    def tick(self, now):
        n = 0
        for g in list(self.l):
            if g.lifetime <= now or (g.expire < now - MONTH and g.lastmod < now - MONTH):
                self.l.remove(g)
                n += 1
            elif g.expire <= now:
                n += g.active
                g.active, g.state = False, ""
        return n

    def find(self, mask, local):
        for g in self.l:
            if g.local == local and lower(g.mask) == lower(mask):
                return g

    def ban(self, c):
        for g in self.l:
            if g.kind() != "chan" and g.on and hits(g.mask, c):
                return g


def run_case(ctx, p):
    r = ctx.rng
    limit = r.choice([1000, 2, 1])
    s = ctx.ircd(vsim.conf(ports=((6667, ""), (4400, "server=yes")),
                           opers=['local = no; class = "Opers"; host = "*@*"; password = "$PLAIN$operpass"; name = "oper"; gline=yes; local_gline=yes; badchan=yes; local_badchan=yes; wide_gline=yes',
                                  'local = no; class = "Opers"; host = "*@*"; password = "$PLAIN$weakpass"; name = "weak"; gline=no; local_gline=no; local_badchan=no; wide_gline=no',
                                  'local = no; class = "Opers"; host = "*@*"; password = "$PLAIN$narrow"; name = "narrow"; gline=yes; local_gline=yes; badchan=yes; local_badchan=yes; wide_gline=no'],
                           connects=['name="f%s.test.net"; host="10.200.0.%d"; password="testpass"; class="Server"; hub; autoconnect=no' % (c, i + 1) for i, c in enumerate("abc")],
                           classes=['name = "%s"; pingfreq = 65000; sendq = 9000000; maxlinks = 250; local = no;' % c for c in ("Local", "Opers", "Server")],
                           features={"GLINEMAXUSERCOUNT": str(limit)}))
    op = kit.register(s, "theop", "172.16.0.1", user="safe", info="operator", wait=0)
    weak = kit.register(s, "weakop", "172.16.0.2", user="safe", info="operator", wait=0)
    nar = kit.register(s, "narop", "172.16.0.3", user="safe", info="operator", wait=6)
    kit.oper(s, op)
    kit.oper(s, weak, "weak", "weakpass")
    kit.oper(s, nar, "narrow", "narrow")
    fa = kit.peer(s, "fa.test.net", 5, "10.200.0.1")
    fb = kit.peer(s, "fb.test.net", 6, "10.200.0.2")
    fa.send("%s N remo 1 %d ru rhost +o AAAAAB %sAAA :remote oper" % (fa.yy, s.now, fa.yy))
    kit.settle(s, [fa, fb])
    for c in (op, weak, nar):
        fb.take()
        c.send("AWAY :x")
        kit.settle(s, [fa, fb])
        c.nn = [m for m in fb.take() if m.cmd == "A"][0].src
        s.advance(2)
    X(ctx, s, op, weak, nar, fa, fb, limit).run()


class X:
    def __init__(self, ctx, s, op, weak, nar, fa, fb, limit):
        self.ctx, self.s, self.op, self.weak, self.nar, self.fa, self.fb, self.limit, self.r = ctx, s, op, weak, nar, fa, fb, limit, ctx.rng
        self.fc = None
        self.book = Book()
        self.cl = []
        self.n = 0

    def peers(self):
        return [x for x in (self.fa, self.fb, self.fc) if x]

    def settle(self):
        kit.settle(self.s, self.peers())

    def jump(self, n):
        while n > 0:
            self.s.advance(min(n, 50000))
            n -= 50000
            for c in [self.op, self.weak, self.nar] + [c["conn"] for c in self.cl]:
                c.pump()
            self.settle()

    def drain(self):
        self.settle()
        for c in self.peers() + [self.op, self.weak, self.nar]:
            c.take()

    def ident(self):
        r = self.r
        self.n += 1
        return {"nick": "c%d" % self.n, "user": r.choice(USERS), "ip": r.choice(HOSTS), "info": r.choice(REALS)}

    def connect(self):
        c = self.ident()
        now = self.s.now
        self.book.tick(now)
        g = self.book.ban(c)
        conn = kit.register(self.s, c["nick"], c["ip"], user=c["user"], info=c["info"], wait=0, must=False)
        if conn.ok != (g is None):
            self.ctx.fail("gline:admission", "%r %s although %s" % (c, "was admitted" if conn.ok else "was refused: %r" % conn.greeting[-3:],
                                                                   "it matches the active G-line %s" % g.mask if g else "no active G-line matches it"), self.show())
        self.ctx.ev()
        if g:
            m = [x for x in conn.greeting if x.cmd == "465"]
            if len(m) != 1 or m[0].args[-1] != g.reason + ".":
                self.ctx.fail("gline:reason", "%r refused by %s (%s) was told %r" % (c, g.mask, g.reason, m))
            self.ctx.count("refused")
        else:
            self.ctx.count("admitted")
            c["conn"] = conn
            self.cl.append(c)
            if len(self.cl) > 9:
                c = self.cl.pop(0)
                c["conn"].send("QUIT")
                self.settle()

    def show(self):
        return [(g.mask, g.expire - self.s.now, g.lastmod - self.s.now, g.lifetime - self.s.now, g.active, g.state, g.local) for g in self.book.l]

    def mask(self, oper=False):
        r = self.r
        k = r.random()
        if k < .2:
            return r.choice(["#bad", "#worse", "#Bad", "#sp*m"])
        if k < .35:
            return r.choice(["$R*spam*", "$Rreal?alice", "$Rnothing*"])
        u = r.choice(["*", "*", "alice", "b?b", "nobody", "*l*"])
        h = r.choice(HOSTS + ["10.1.1.*", "10.1.*", "10.1.1.0/24", "10.1.0.0/16", "2001:db8:1::/48", "2001:db8::/32", "192.168.3.?", "*.example.com", "10.1.1.64/26"])
        if oper and r.random() < .12:
            h = r.choice(["10.*", "*", "*.com", "10.0.0.0/8"])
        m = u + "@" + h
        if u == "*" and r.random() < .3:
            m = h
        return m

    def run(self):
        r = self.r
        for _ in range(r.randint(3, 7)):
            self.connect()
        for _ in range(r.randint(14, 22)):
            self.s.advance(r.choice([1, 2, 3, 5, 30, 100]))
            if r.random() < .012:
                self.jump(r.choice([1, 1, 8, 32]) * 86400)
            if self.book.tick(self.s.now):
                self.ctx.count("expired")
            self.drain()
            k = r.random()
            if k < .35:
                self.from_server()
            elif k < .45:
                self.from_remote_user()
            elif k < .72:
                self.from_oper()
            elif k < .84:
                self.connect()
            elif k < .95:
                self.join()
            elif not self.fc:
                self.burst()
            if r.random() < .3:
                self.listing()
        self.listing()
        self.ctx.sample(self.show())

    # -- expectations
    def expect(self, what, fwd, src=None, back=None):
        """fwd: arguments of the GL line due on every link but src; back: line due on src."""
        self.settle()
        for f in self.peers():
            got = [m for m in f.take() if m.cmd == "GL"]
            want = []
            if fwd and f is not src:
                want = [fwd]
            if back and f is src:
                want = [back]
            g = [(m.src, m.args) for m in got]
            if g != want:
                self.ctx.fail("gline:propagation", "after %s %s was sent %r, expected %r" % (what, f.name, g, want), self.show())
        # exactly the matching local clients are gone
        for c in list(self.cl):
            conn = c["conn"]
            conn.pump()
            g = self.book.ban(c)
            m = [x for x in conn.take() if x.cmd != "PING"]
            if bool(g) != conn.eof:
                self.ctx.fail("gline:enforce", "after %s the client %r is %s although %s" % (
                    what, {k: v for k, v in c.items() if k != "conn"}, "disconnected" if conn.eof else "still connected", "G-line %s matches" % g.mask if g else "no active G-line matches"), self.show())
            if g:
                self.cl.remove(c)
                self.ctx.count("killed")
                if not any(x.cmd == "465" and x.args[-1].rstrip(".") in [z.reason for z in self.book.l] for x in m):
                    self.ctx.fail("gline:reason", "a G-lined client was told %r" % m)
        self.ctx.ev()

    def rel(self, g):
        return [str(g.expire - self.s.now), str(g.lastmod), str(g.lifetime), g.reason]

    def line(self, src, g, op):
        return (src, ["*", op + full(g.mask)] + self.rel(g))

    def add(self, mask, reason, expire, lastmod, lifetime, active, local):
        g = G(full(mask), reason, expire, lastmod, lifetime or expire, active and expire > self.s.now, local)
        if not g.lastmod and local:
            g.lastmod = 0
        self.book.l.insert(0, g)
        return g

    def modify(self, g, action, reason, expire, lastmod, lifetime, force):
        """Returns (changed, op) after the documented rules."""
        now = self.s.now
        if expire and not force and (expire <= now or expire > now + MAXEXP):
            return False, "bad"
        e2 = expire if expire and expire != g.expire else 0
        lt = max(lifetime or g.lifetime, e2)
        newlife = lt if lt > g.lifetime else 0
        newreason = reason if reason is not None and lower(reason) != lower(g.reason) else None
        op = ""
        if max(g.expire, e2) <= now or action is None or (action == "+" and g.active) or (action == "-" and not g.active) or (action in "<>" and g.state == action):
            action = None
        if not (e2 or newlife or newreason is not None or action):
            return False, ""
        if action not in ("<", ">"):
            g.lastmod = lastmod
        if action == "+":
            g.active, g.state, op = True, "", "+"
        elif action == "-":
            g.active, g.state, op = False, "", "-"
        elif action:
            g.state = action
        if e2:
            g.expire = e2
        if newlife:
            g.lifetime = newlife
        if newreason is not None:
            g.reason = newreason
        return True, op

    # -- operations
    def from_server(self):
        r, s, ctx = self.r, self.s, self.ctx
        f = r.choice(self.peers())
        now = s.now
        glob = [g for g in self.book.l if not g.local]
        if r.random() < .12:
            return self.local_remote(f, f.yy, True)
        g = None
        if glob and r.random() < .6:
            g = r.choice(glob)
            mask = g.mask.upper() if r.random() < .2 and g.kind() != "host" and g.mask[:2] != "$R" else g.mask
        else:
            mask = self.mask()
            if mask[0] == "#" and self.book.find(mask, True):
                return
            g = self.book.find(full(mask), False)
        if self.safe(mask):
            return
        act = r.choice(["+", "+", "-", ""])
        last = now - r.choice([0, 0, 1, 5, 500, 90000])
        if g and r.random() < .3:
            last = g.lastmod + r.choice([-1, 0, 1])
        exp = r.choice([5, 60, 600, 3600, 90000, MAXEXP + 100000, 1, -10, 60])
        life = r.choice([0, 0, now + exp + 1000, now + max(exp, 0) + 10])
        reason = r.choice(["spam", "abuse", "AUTO drones", "go away: now", "r%d" % self.n])
        form = r.choice(["7", "7", "6", "4", "5", "6l"])
        bang = r.choice(["", "", "!"])
        line = "%s GL * %s%s%s" % (f.yy, bang, act, mask)
        e = l = None
        rsn = None
        if form == "4":
            if act == "":
                return
            line += " %d" % last
        else:
            e = now + exp
            line += " %d %d" % (exp, last)
            if form == "7":
                l, rsn = life, reason
                line += " %d :%s" % (life, reason)
            elif form == "6":
                rsn = reason
                line += " :" + reason
            elif form == "6l":
                if not g or not life:
                    rsn = str(life)
                else:
                    l = life
                line += " %d" % life
                if g and not life:
                    rsn = None
        f.send(line)
        what = "%r from %s" % (line, f.name)
        if not g:
            if form == "4":
                fwd = (f.yy, ["*", ("+" if act == "+" else "-") + mask, str(last)])
                return self.expect(what, fwd, f)
            if rsn is None:
                rsn = "No reason"
            lt = l or 0
            g = self.add(mask, rsn, e, last, lt, act != "-", False)
            fwd = self.line(f.yy, g, "+" if g.active else "-")
            self.expect(what, fwd, f)
            ctx.seen("add %s %s" % (form, g.kind()))
            return
        if g.lastmod > last:
            ctx.count("resend")
            return self.expect(what, None, f, self.line("AB", g, "+" if g.active else "-"))
        if g.lastmod == last:
            return self.expect(what, None, f)
        ok, op = self.modify(g, act or None, rsn, e or 0, last, l or 0, True)
        ctx.seen("modify %s %s %s %s" % (form, act, ok, op))
        self.expect(what, self.line(f.yy, g, ("!" if bang and ok else "") + op) if ok else None, f)

    def safe(self, mask):
        """Would it hit the operators driving the case?"""
        m = full(mask)
        return any(hits(m, {"user": "safe", "ip": "172.16.0.%d" % i, "info": "operator"}) for i in (1, 2, 3))

    def local_remote(self, f, src, server):
        """A G-line aimed at one server."""
        r, s = self.r, self.s
        mask = self.mask()
        if mask[0] in "#&" or self.safe(mask):
            return
        now = s.now
        dest = r.choice(self.peers() + [None, None])
        yy = "AB" if dest is None else dest.yy
        if dest is f:
            return
        exp = r.choice([5, 60, 600])
        if r.random() < .35:
            loc = [g for g in self.book.l if g.local and g.kind() != "chan"]
            if loc:
                mask = r.choice(loc).mask
            line = "%s GL %s -%s %d %d :x" % (src, yy, mask, 0, now)
            f.send(line)
            self.settle()
            if dest:
                return self.directed(line, dest, (src, [yy, "-" + mask, str(-now), str(now), "No reason"]))
            g = self.book.find(full(mask), True)
            if g:
                self.book.l.remove(g)
                self.ctx.count("remote-local")
            return self.expect(line, None)
        line = "%s GL %s !+%s %d %d :local one" % (src, yy, mask, exp, now)
        f.send(line)
        self.settle()
        if dest:
            return self.directed(line, dest, (src, [yy, "!+" + mask, str(exp), str(now), "local one"]))
        if self.book.find(full(mask), True) is None:
            if server or self.oper_mask_ok(mask, True, True)[0]:
                self.add(mask, "local one", now + exp, 0, 0, True, True)
                self.ctx.count("remote-local")
        self.expect(line, None)

    def directed(self, line, dest, want):
        for f in self.peers():
            got = [(m.src, m.args) for m in f.take() if m.cmd == "GL"]
            w = [want] if f is dest else []
            if got != w:
                self.ctx.fail("gline:forward", "after %r %s was sent %r, expected %r" % (line, f.name, got, w))
        self.ctx.count("forward")
        self.expect(line, None)

    def from_remote_user(self):
        f, r, s = self.fa, self.r, self.s
        src = f.yy + "AAA"
        if r.random() < .5:
            return self.local_remote(f, src, False)
        mask = self.mask()
        now = s.now
        if self.safe(mask) or self.book.find(full(mask), False) or (mask[0] == "#" and self.book.find(mask, True)):
            return
        exp = r.choice([60, 600, MAXEXP + 500, 3000])
        line = "%s GL * +%s %d %d %d :by a user" % (src, mask, exp, now, now + exp)
        f.send(line)
        if exp > MAXEXP:
            self.ctx.count("bad-expire")
            return self.expect(line, None)
        g = self.add(mask, "by a user", now + exp, now, now + exp, True, False)
        self.expect(line, self.line(src, g, "+"), f)

    def oper_mask_ok(self, mask, force, local):
        if mask[0] == "#":
            return True, None
        if mask[0] == "$":
            n = sum(match(mask[2:], c["info"]) for c in self.everyone(False))
            if n >= self.limit and not force:
                return False, "519"
            return True, None
        m = full(mask)
        u, _, h = m.partition("@")
        w = width(h)
        if w == "no" or (w == "wild" and not force):
            return False, "520"
        if "/" in h:
            return True, None      # the user count takes no CIDR masks
        n = sum(match(m, "%s@%s" % (c["user"], c["host"])) or match(m, "%s@%s" % (c["user"], c["ip"])) for c in self.everyone(local))
        if n >= self.limit and not force:
            return False, "519"
        return True, None

    def everyone(self, local):
        l = [dict(user=c["user"], ip=c["ip"], host=c["ip"], info=c["info"]) for c in self.cl]
        l += [dict(user="safe", ip="172.16.0.%d" % i, host="172.16.0.%d" % i, info="operator") for i in (1, 2, 3)]
        if not local:
            l.append(dict(user="ru", host="rhost", ip="0.0.0.1", info="remote oper"))
        return l

    def from_oper(self):
        r, s, ctx = self.r, self.s, self.ctx
        who = r.choice([self.op] * 4 + [self.nar, self.weak])
        now = s.now
        k = r.choice(["add", "add", "addlocal", "deact", "act", "modify", "override", "override", "droplocal", "directed"])
        glob = [g for g in self.book.l if not g.local]
        loc = [g for g in self.book.l if g.local]
        bang = r.random() < .6
        force = bang and who is not self.nar and who is not self.weak
        b = "!" if bang else ""
        exp = r.choice([5, 60, 600, 3600, MAXEXP, MAXEXP + 1, 0, -5])
        num = lambda m: [x.cmd for x in m if x.cmd.isdigit() or x.cmd == "NOTICE"]
        nn = None
        if k in ("add", "addlocal"):
            mask = self.mask(True)
            local = k == "addlocal"
            if self.safe(mask) and width(full(mask).partition("@")[2]) != "no":
                return
            if mask[0] == "#" and self.book.find(mask, not local):
                return
            if local:
                line = "GLINE %s+%s %s%d :%s" % (b, mask, r.choice(["", "hub.test.net "]), exp, "local reason")
            else:
                line = "GLINE %s+%s * %d :%s" % (b, mask, exp, "global reason")
            who.send(line)
            self.settle()
            old = self.book.find(full(mask), local)
            m = num(who.take())
            if who is self.weak:
                ctx.count("denied")
                if m != ["481"]:
                    ctx.fail("gline:privilege", "%r by an operator without the privilege was answered %r" % (line, m))
                return self.expect(line, None)
            if old and local:
                return self.expect(line, None)
            if old:
                return self.change(who, line, m, old, "+", "global reason", now + exp, force)
            ok, err = self.oper_mask_ok(mask, force, local)
            if ok and (exp <= 0 or exp > MAXEXP):
                ok, err = False, "515"
            if not ok:
                ctx.count({"520": "too-wide", "519": "too-many", "515": "bad-expire"}[err])
                if m != [err]:
                    ctx.fail("gline:refusal", "%r was answered %r, expected %s" % (line, m, err), self.show())
                return self.expect(line, None)
            g = self.add(mask, "local reason" if local else "global reason", now + exp, 0 if local else now, 0, True, local)
            ctx.seen("oper %s %s %s" % (k, g.kind(), force))
            return self.expect(line, None if local else (self.me(who), ["*", "+" + g.mask] + self.rel(g)))
        if k in ("deact", "act", "modify"):
            if not glob:
                return
            g = r.choice(glob)
            if self.safe(g.mask):
                return
            reason, e = None, 0
            if k == "modify":
                reason = r.choice([None, "new reason %d" % self.n])
                e = now + exp
                line = "GLINE %s%s * %d%s" % (b, g.mask, exp, " :" + reason if reason else "")
                act = None
            else:
                act = "-" if k == "deact" else "+"
                line = "GLINE %s%s%s *" % (b, act, g.mask)
                if r.random() < .4:
                    reason, e = "changed", now + exp
                    line += " %d :%s" % (exp, reason)
            who.send(line)
            self.settle()
            m = num(who.take())
            if who is self.weak:
                if m != ["481"]:
                    ctx.fail("gline:privilege", "%r by an operator without the privilege was answered %r" % (line, m))
                return self.expect(line, None)
            return self.change(who, line, m, g, act, reason, e, force)
        if k == "override":
            if not glob:
                return
            g = r.choice(glob)
            if self.safe(g.mask):
                return
            act = r.choice("<>")
            line = "GLINE %s%s%s" % (act, g.mask, r.choice(["", " hub.test.net"]))
            who.send(line)
            self.settle()
            m = num(who.take())
            if who is self.weak:
                if m != ["481"]:
                    ctx.fail("gline:privilege", "%r by an operator without the privilege was answered %r" % (line, m))
                return self.expect(line, None)
            ok, op = self.modify(g, act, None, 0, g.lastmod, 0, False)
            if ok:
                ctx.count("local-override")
                ctx.seen("override %s %s" % (act, g.active))
            return self.expect(line, None)
        if k == "droplocal":
            if not loc:
                return
            g = r.choice(loc)
            line = "GLINE -%s hub.test.net 10 :x" % g.mask
            who.send(line)
            self.settle()
            m = num(who.take())
            if who is self.weak:
                if m != ["481"]:
                    ctx.fail("gline:privilege", "%r by an operator without the privilege was answered %r" % (line, m))
                return self.expect(line, None)
            self.book.l.remove(g)
            ctx.seen("droplocal")
            return self.expect(line, None)
        if k == "directed":
            d = r.choice(self.peers())
            mask = self.mask()
            who.send("GLINE %s+%s %s 60 :over there" % (b, mask, d.name))
            self.settle()
            m = num(who.take())
            if who is self.weak:
                if m != ["481"]:
                    ctx.fail("gline:privilege", "a directed GLINE by an operator without the privilege was answered %r" % m)
                return self.expect("directed", None)
            return self.directed("GLINE %s at %s" % (mask, d.name), d, (self.me(who), [d.yy, ("!" if force else "") + "+" + mask, "60", str(now), "over there"]))

    def change(self, who, line, m, g, act, reason, e, force):
        now = self.s.now
        if g.lastmod >= now:
            return self.expect(line, None)
        ok, op = self.modify(g, act, reason, e, now, 0, False)
        if op == "bad":
            self.ctx.count("bad-expire")
            if m != ["515"]:
                self.ctx.fail("gline:refusal", "%r was answered %r, expected 515" % (line, m), self.show())
        self.ctx.seen("oper-change %s %s %s" % (act, ok, op))
        return self.expect(line, (self.me(who), ["*", ("!" if force else "") + op + full(g.mask)] + self.rel(g)) if ok else None)

    def me(self, c):
        return c.nn

    def join(self):
        ctx, s, r = self.ctx, self.s, self.r
        if not self.cl:
            return
        c = r.choice(self.cl)
        if s.now < c.get("next", 0):
            return
        self.book.tick(s.now)
        ch = r.choice(["#bad", "#worse", "#BAD", "#spam", "#fine"])
        c["conn"].take()
        c["conn"].send("JOIN " + ch)
        self.settle()
        m = [x.cmd for x in c["conn"].take()]
        g = next((g for g in self.book.l if lower(g.mask) == lower(ch)), None)
        want = bool(g and g.on)
        if ("474" in m) != want or ("366" in m) == want:
            ctx.fail("gline:badchan", "JOIN %s was answered %r although %s" % (ch, m, "it is G-lined" if want else "no active G-line names it"), self.show())
        if want:
            ctx.count("badchan")
        else:
            c["conn"].send("PART " + ch)
            self.settle()
            c["conn"].take()
        ctx.ev()
        s.advance(4)

    def burst(self):
        self.book.tick(self.s.now)
        now = self.s.now
        f = p10.FakeServer(self.s, "fc.test.net", 7, "10.200.0.3")
        f.hold_ea = True
        kit.settle(self.s, self.peers() + [f])
        f.eob()
        kit.settle(self.s, self.peers() + [f])
        got = sorted((m.src, m.args) for m in f.take() if m.cmd == "GL")
        want = sorted(("AB", ["*", ("+" if g.active else "-") + g.mask, str(g.expire - now), str(g.lastmod), str(g.lifetime), g.reason]) for g in self.book.l if not g.local)
        if got != want:
            self.ctx.fail("gline:burst", "a linking server was sent the G-lines %r, expected %r" % ([x for x in got if x not in want], [x for x in want if x not in got]), self.show())
        self.ctx.count("burst")
        self.ctx.ev()
        self.fc = f
        self.settle()

    def listing(self):
        self.drain()
        self.book.tick(self.s.now)
        m = kit.ask(self.s, self.op, "GLINE", dt=0, peers=self.peers())
        got = [x.args[1:] for x in m if x.cmd == "280"]
        gl = [g for g in self.book.l if g.kind() != "chan"] + [g for g in self.book.l if g.kind() == "chan"]
        want = [[g.mask, str(g.expire), str(g.lastmod), str(g.lifetime), "hub.test.net" if g.local else "*", g.state + ("+" if g.active else "-"), g.reason] for g in gl]
        if got != want or not any(x.cmd == "281" for x in m):
            self.ctx.fail("gline:list", "GLINE lists %r; unexpected: %r, missing: %r" % (len(got), [x for x in got if x not in want], [x for x in want if x not in got]), {"now": self.s.now})
        self.ctx.ev()
