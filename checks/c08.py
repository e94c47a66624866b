"""Nicknames are unique network-wide; collisions follow the timestamp rules everywhere."""
import mw, chaos, p10, vsim
from masks import lower
PROPERTY = "C08"
RULE = ("(a) model-checked NICK commands in populations of clients on one to three real servers; (b) nick introductions and changes from two peer "
        "servers with older, equal and newer timestamps and same or different user@IP, every outcome compared with the collision rules on three "
        "observers (a local client's WHOIS, the victim's connection, a third server's tables); distinct counts (origin, owner, order, sameness)")
ASSUMPTIONS = mw.ASSUME
MUST_SEE = ["ops:nick", "worlds:net", "numeric:433", "numeric:438", "numeric:437", "numeric:432", "collisions"]
W = dict(nick=18, mode=8, join=8, msg=2, whois=3, ison=2, quit=3)
POOL = ["ada", "ADA", "b[ob", "b{ob", "cyd|", "cyd\\", "dee^", "eve", "EvE", "fay"]


def plan(tier, seed):
    k = 1 if tier == "quick" else 12
    out = []
    a = mw.plan(tier, seed, 400, 200)
    for i in range(max(len(a), 500 * k)):
        if i < len(a):
            out.append(a[i])
        if i < 500 * k:
            out.append({"seed": seed, "i": i, "kind": "collide", "steps": 40})
    return out


def run_case(ctx, p):
    if p["kind"] != "collide":
        return mw.case(ctx, p, W, {"nick"})
    Collide(ctx, p).go()


class Collide:
    def __init__(self, ctx, p):
        self.ctx, self.p, self.r = ctx, p, ctx.rng
        self.s = s = ctx.ircd(chaos.hub_conf(feats={"NICKLEN": "12"}))
        self.fs = [p10.FakeServer(s, "fa.test.net", 5, "10.200.0.1"), p10.FakeServer(s, "fb.test.net", 9, "10.200.0.2")]
        for f in self.fs:
            s.sync()
            f.eob()
            s.sync()
        self.view = [{}, {}]          # per fake server: numnick -> [nick, ts, user, ip]
        self.user = {}                # truth: numnick -> [nick, ts, user, ip, origin]
        self.local = {}               # numnick -> Conn
        self.obs = s.connect("10.55.0.1")
        self.login(self.obs, "watcher", "w")
        s.advance(20)
        self.flush()

    def login(self, c, nick, user):
        c.send("NICK " + nick)
        c.send("USER %s 0 0 :r" % user)
        self.s.sync()
        c.pump()
        self.s.sync()

    def flush(self):
        for _ in range(3):
            self.s.sync()
            for k, f in enumerate(self.fs):
                for m in f.take():
                    self.apply(k, m)

    def apply(self, k, m):
        v = self.view[k]
        if m.cmd == "N" and len(m.args) > 3:
            if m.args[-2] in v:
                self.ctx.fail("collide:dup", "server %d was told about user %s twice: %r" % (k, m.args[-2], m))
            v[m.args[-2]] = [m.args[0], int(m.args[2]), m.args[3], p10.ip_dec(m.args[-3])]
        elif m.cmd == "N":
            if m.src in v:
                v[m.src][0], v[m.src][1] = m.args[0], int(m.args[1])
        elif m.cmd == "Q":
            v.pop(m.src, None)
        elif m.cmd == "D":
            v.pop(m.args[0], None)

    def owner(self, nick):
        for nn, u in self.user.items():
            if lower(u[0]) == lower(nick):
                return nn

    def go(self):
        r, s, ctx = self.r, self.s, self.ctx
        for step in range(self.p["steps"]):
            s.advance(r.choice([1, 3, 31]))
            self.flush()
            what = r.random()
            remote = [n for n, u in self.user.items() if u[4] != "L"]
            desc = None
            if what < .25:
                desc = self.local_op()
            elif what < .65 or not remote:
                k = r.randrange(2)
                f = self.fs[k]
                nick = r.choice(POOL)
                o = self.owner(nick)
                ts, user, ip = self.pick(o)
                nn, line = f.user_line(nick, user=user, host="h.example", ip=ip, ts=ts)
                self.view[k][nn] = [nick, ts, user, ip]
                f.send(line)
                desc = "server %d introduces %s" % (k, line)
                self.clash(nn, [nick, ts, user, ip, k], o, True)
            else:
                nn = r.choice(remote)
                u = self.user[nn]
                k = u[4]
                nick = r.choice(POOL)
                o = self.owner(nick)
                ts, _, _ = self.pick(o)
                self.view[k][nn][0:2] = [nick, ts]
                self.fs[k].send("%s N %s %d" % (nn, nick, ts))
                desc = "server %d: %s (%s) changes to %s ts %d" % (k, nn, u[0], nick, ts)
                if o == nn:
                    if u[0] != nick:
                        u[0] = nick
                        self.maybe_ts = (nn, ts)
                    else:
                        self.view[k][nn][0:2] = u[0:2]
                else:
                    self.clash(nn, [nick, ts, u[2], u[3], k], o, False)
            ctx.log("%d %s" % (s.now, desc))
            self.flush()
            self.check(desc)
            ctx.ev()
        ctx.sample("\n".join(ctx.trace[-4:]))

    maybe_ts = None

    def pick(self, o):
        r = self.r
        now = self.s.now
        if o is None:
            return now - r.choice([0, 1, 50]), r.choice(["u1", "~u1", "u2"]), r.choice(["10.9.0.1", "10.9.0.2", "2001:db8::7"])
        ou = self.user[o]
        ts = ou[1] + r.choice([-1, 0, 0, 1, -100, 100, -3, 3])
        if r.random() < .5:
            return ts, r.choice([ou[2], ou[2].upper()]), ou[3]
        if r.random() < .5:
            return ts, ou[2], "10.9.0.77"
        return ts, ("~" + ou[2])[:10], ou[3]

    def clash(self, nn, new, o, intro):
        if o is None:
            self.user[nn] = new
            return
        old = self.user[o]
        same = lower(old[2]) == lower(new[2]) and old[3] == new[3]
        order = (new[1] > old[1]) - (new[1] < old[1])
        kill_new = order == 0 or (order > 0) != same
        kill_old = order == 0 or not kill_new
        self.ctx.count("collisions")
        self.ctx.count("collision:%s:%s:%s:%d" % ("intro" if intro else "change", "local" if old[4] == "L" else "remote", "same" if same else "diff", order))
        self.ctx.seen("%s/%s/%s/%d/%s" % (intro, old[4], same, order, new[4]))
        if kill_new:
            self.user.pop(nn, None)
        if kill_old:
            self.user.pop(o)
        if not kill_new:
            self.user[nn] = new

    def local_op(self):
        r = self.r
        nick = r.choice(POOL)
        if self.local and r.random() < .5:
            nn = r.choice(list(self.local))
            c = self.local[nn]
            o = self.owner(nick)
            self.s.advance(65)
            c.send("NICK " + nick)
            if o is None or o == nn:
                old = self.user[nn]
                if old[0] != nick:
                    if lower(old[0]) != lower(nick):
                        old[1] = self.s.now
                    old[0] = nick
            return "local %s NICK %s" % (nn, nick)
        o = self.owner(nick)
        user, ip = r.choice(["u1", "u2"]), r.choice(["10.9.0.1", "10.9.0.2", "2001:db8::7"])
        c = self.s.connect(ip)
        self.login(c, nick, user)
        before = set(self.view[0])
        self.flush()
        new = [n for n in self.view[0] if n not in before]
        if o is not None:
            if new:
                self.ctx.fail("collide:local-taken", "a client registered as %s although %r holds it" % (nick, self.user[o]))
            c.close()
            self.flush()
            return "local login as taken %s refused" % nick
        if len(new) != 1:
            self.ctx.fail("collide:local", "client registering as %s did not appear (%r)" % (nick, c.take()[-3:]))
        self.user[new[0]] = [nick, self.s.now, user, ip, "L"]
        self.local[new[0]] = c
        return "local login %s" % nick

    def check(self, desc):
        ctx = self.ctx
        if self.maybe_ts:
            # a change of case only: whether the timestamp moves is not specified, but every server must agree
            nn, ts = self.maybe_ts
            oldts = self.user[nn][1]
            self.maybe_ts = None
            k = 1 - self.user[nn][4]
            if nn in self.view[k]:
                self.user[nn][1] = self.view[k][nn][1]
                self.view[self.user[nn][4]][nn][1] = self.user[nn][1]
                if self.user[nn][1] not in (ts, oldts):
                    ctx.fail("collide:case-ts", "nick change forwarded with another timestamp (%d, was %d)" % (self.user[nn][1], ts))
        for k in range(2):
            want = {n: u[:2] + [u[2], u[3]] for n, u in self.user.items()}
            have = {n: v for n, v in self.view[k].items() if v[0] != "watcher"}
            if {n: (w[0], w[2], w[3]) for n, w in want.items()} != {n: (w[0], w[2], w[3]) for n, w in have.items()}:
                ctx.fail("collide:view", "after %s\nserver %d now knows %r\nshould know %r" % (desc, k, sorted(have.items()), sorted(want.items())))
        self.s.advance(30)
        nicks = sorted({lower(x) for x in POOL})
        for n in nicks:
            self.obs.send("USERIP " + n)
            self.s.advance(4)
        self.flush()
        got = {}
        for m in self.obs.take():
            if m.cmd == "340" and m.args[1].strip():
                x = m.args[1].strip()
                nk, _, rest = x.partition("=")
                ux, _, ipx = rest[1:].partition("@")
                if lower(nk) in got:
                    ctx.fail("collide:twice", "two holders of %s" % nk)
                got[lower(nk)] = (nk.rstrip("*"), ux, ipx)
        want = {lower(u[0]): (u[0], u[2], u[3]) for u in self.user.values()}
        if got != want:
            ctx.fail("collide:local-view", "after %s\nlocal view %r\nshould be %r" % (desc, got, want))
        for nn, c in list(self.local.items()):
            c.pump()
            if (nn in self.user) == c.eof:
                ctx.fail("collide:conn", "after %s: connection of %s is %s" % (desc, nn, "closed" if c.eof else "still open"))
            if c.eof:
                del self.local[nn]
