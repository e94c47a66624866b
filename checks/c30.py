"""Server links: who may link, who may introduce whom, and how loops and collisions are resolved"""
import kit, vsim, p10
from masks import lower, match
PROPERTY = "C30"
RULE = ("random link attempts (wrong name, address, password, port, protocol, time, numeric) and server announcements (hub and hop limits, duplicate names over two paths with all orders of link times, duplicate numerics, malformed fields); "
        "after every step the server tree shown to an observer link, the surviving links and the SQUITs sent back are compared with a reference tree; distinct counts (operation, defect, outcome)")
ASSUMPTIONS = ["servers restricted to a hub mask announce no net junctions", "at most two links of a loop are equally young"]
MUST_SEE = ["linked", "bad-ip", "bad-pass", "bad-name", "bad-port", "bad-proto", "bad-ts", "numeric-collision", "dup-self", "ghost", "refused-younger", "loop-cut", "loop-new", "hub-limit", "hops", "leaf", "announced", "squit",
            "ghost-loop", "ghost-numeric", "proto-squit", "not-hub", "short"]
CONF = {  # name: [(ip, password, hub mask, max hops)]
    "fa.test.net": [("10.200.0.1", "pa", "*", 65535)],
    "fc.test.net": [("10.200.0.3", "pc", "*.sub.net", 65535)],
    "fd.test.net": [("10.200.0.4", "pd", None, 0)],
    "fe.test.net": [("10.200.0.5", "pe", "*", 2)],
    "ff.test.net": [("10.200.0.6", "pf", "*.sub.net", 3), ("10.200.0.7", "pg", "*", 65535)],
    "fg.test.net": [("10.200.0.8", "ph", "*", 65535)],
}


def plan(tier, seed):
    return [{"seed": seed, "i": i} for i in range(1500 if tier == "quick" else 40000)]


class N:
    def __init__(self, name, yy, up, ts, peer):
        self.name, self.yy, self.up, self.ts, self.peer = name, yy, up, ts, peer

    def path(self):
        n = self
        while n is not None:
            yield n
            n = n.up


def run_case(ctx, p):
    r = ctx.rng
    hub = r.random() > .08
    con = ['name="fb.test.net"; host="10.200.0.2"; password="pb"; class="Server"; hub; autoconnect=no']
    for n, bl in CONF.items():
        for ip, pw, mask, hops in bl:
            h = "" if mask is None else "hub; " if mask == "*" and r.random() < .5 else 'hub="%s"; ' % mask
            if hops not in (0, 65535):
                h += "maxhops=%d; " % hops
            if mask is None and r.random() < .5:
                h += "leaf; "
            con.append('name="%s"; host="%s"; password="%s"; class="Server"; %sautoconnect=no' % (n, ip, pw, h))
    s = ctx.ircd(vsim.conf(ports=((6667, ""), (4400, "server=yes"), (4401, 'server=yes; mask="10.200.0.*"')), connects=con,
                           classes=['name = "Local"; pingfreq = 65000; sendq = 160000; maxlinks = 250;', 'name = "Server"; pingfreq = 65000; sendq = 9000000; maxlinks = 40;'],
                           opers=[], features={"HUB": "TRUE" if hub else "FALSE"}))
    X(ctx, s, hub).run()


class X:
    def __init__(self, ctx, s, hub):
        self.ctx, self.s, self.r, self.hub = ctx, s, ctx.rng, hub
        self.t = {}          # lower name -> N
        self.links = {}      # lower name -> FakeServer
        self.ghost = {}
        self.blk = {}
        self.n = 30
        self.tied = False
        self.view = {}

    def settle(self):
        kit.settle(self.s, list(self.links.values()) + ([self.fb] if self.fb else []))

    def run(self):
        r, s, ctx = self.r, self.s, self.ctx
        self.fb = None
        if self.hub:
            self.fb = p10.FakeServer(s, "fb.test.net", 6, "10.200.0.2", password="pb")
            self.fb.hold_ea = True
            self.settle()
            self.fb.eob()
            self.settle()
            if self.fb.eof:
                ctx.fail("link:refused", "an authorised server was refused: %r" % self.fb.take())
            self.t["fb.test.net"] = N("fb.test.net", "AG", None, s.now, "fb.test.net")
            self.fb.take()
            s.advance(5)
        for _ in range(r.randint(14, 30)):
            s.advance(r.choice([1, 2, 5, 15, 19, 20, 21, 60]))
            k = r.random()
            self.focus = next((n for n, g in self.ghost.items() if n in self.links and s.now - g < 22), None)
            if self.focus:
                k = .4 if r.random() < .7 else k
            if k < .4 or not self.links:
                self.link()
            elif k < .88:
                self.announce()
            else:
                self.squit()
            self.check()
        ctx.sample(sorted((n.name, n.up.name if n.up else "me") for n in self.t.values()))

    # -- the observer's picture
    def check(self):
        self.settle()
        ctx = self.ctx
        for n, f in list(self.links.items()):
            f.pump()
            dead = n not in self.t or self.t[n].up is not None or self.t[n].peer != n or self.alive.get(n) is False
            if f.eof != dead:
                ctx.fail("link:state", "%s: the link of %s %s" % (self.what, n, "was closed" if f.eof else "still stands"), self.show())
            if f.eof:
                del self.links[n]
        if self.fb:
            if self.fb.eof:
                ctx.fail("link:state", "%s: the uninvolved link was lost" % self.what, self.show())
            for m in self.fb.take():
                if m.cmd == "S":
                    if lower(m.args[0]) in self.view:
                        ctx.fail("link:duplicate", "%s: server %s was announced while it is present" % (self.what, m.args[0]), self.show())
                    if m.args[5][:2] in [v[1] for v in self.view.values()]:
                        ctx.fail("link:duplicate", "%s: numeric %s was announced while it is in use" % (self.what, m.args[5]), self.show())
                    self.view[lower(m.args[0])] = (m.src, m.args[5][:2], m.args[3])
                elif m.cmd == "SQ":
                    n = lower(m.args[0])
                    if n not in self.view:
                        ctx.fail("link:squit", "%s: SQUIT of %s, which is not present" % (self.what, n), self.show())
                    todo = [n]
                    while todo:
                        x = self.view.pop(todo.pop())
                        todo += [k for k, v in self.view.items() if v[0] == x[1]]
            want = {k: (v.up.yy if v.up else "AB", v.yy, str(v.ts)) for k, v in self.t.items() if k != "fb.test.net"}
            got = self.view
            if {k: v[:2] for k, v in want.items()} != {k: v[:2] for k, v in got.items()}:
                ctx.fail("link:tree", "%s: the server tree should be %r, observed %r" % (self.what, sorted(want.items()), sorted(got.items())), self.show())
            bad = [k for k in want if want[k] != got[k] and self.t[k].up]
            if bad:
                ctx.fail("link:tree", "%s: link times of %r: should be %r, observed %r" % (self.what, bad, [want[k] for k in bad], [got[k] for k in bad]))
        ctx.ev()

    alive = {}

    def show(self):
        return sorted((n.name, n.yy, n.up.name if n.up else "me", n.ts - self.s.now) for n in self.t.values())

    def drop(self, n):
        todo = [n]
        while todo:
            x = todo.pop()
            self.t.pop(lower(x.name), None)
            todo += [y for y in self.t.values() if y.up is x]

    def byyy(self, yy):
        return next((n for n in self.t.values() if n.yy == yy), None)

    # -- the decision on a new server; returns None (refused, whatever had to go is gone) or True
    def decide(self, name, yy, ts, hop, sptr, link):
        """link: FakeServer; sptr: N announcing it, None for a direct link."""
        ctx = self.ctx
        cname = lower(link.name)
        lh = None
        if sptr is None:
            if not self.hub and any(n.up is None for n in self.t.values()):
                lh = "leaf"
        else:
            mask, hops = self.blk[cname]
            if hop > hops:
                lh = "hops"
            elif mask and not match(mask, name):
                lh = "hub"
        new = object()
        while True:
            a = self.t.get(lower(name)) or self.byyy(yy)
            if lower(name) == "hub.test.net" or (not a and yy == "AB"):
                ctx.count("dup-self")
                return self.kill_link(sptr)
            if not a:
                break
            if lower(a.name) != lower(name):
                ctx.count("numeric-collision")
                return self.kill_link(sptr)
            # the loop: existing path, announcing path, new link
            edges = list(a.path()) + (list(sptr.path()) if sptr else [])
            t = lambda e: ts if e is new else e.ts
            c3 = a
            for e in edges:
                if t(e) > t(c3):
                    c3 = e
            c2 = new
            if ts > t(c3):
                c3, c2 = new, a
            for e in edges:
                if e is not c3 and t(e) > t(c2):
                    c2 = e
            if t(c2) == t(c3):
                def nm(e):
                    if e is new:
                        return min(name, sptr.name if sptr else "hub.test.net")
                    return min(e.name, e.up.name if e.up else "hub.test.net")
                if nm(c3) > nm(c2):
                    c2, c3 = c3, c2
                self.tied = True
                ctx.count("tie")
            if c2 is new:
                ctx.count("loop-new" if sptr else "refused-younger")
                if sptr is None:
                    return self.kill_link(sptr)
                self.back.append(name)
                return None
            if sptr:
                if lh and c2.peer != cname:
                    break       # one SQUIT of the announcer solves both
                lh = None if lh else lh
                if self.s.now - self.ghost.get(cname, -100) < 20:
                    ctx.count("ghost-loop")
                    gone = a
                else:
                    ctx.count("loop-cut")
                    gone = c2
                self.drop(gone)
                if gone.up is None and gone.peer != cname:
                    pass
                if gone.peer == cname:
                    return None
            else:
                if lh:
                    break
                ctx.count("ghost")
                self.newghost = True
                self.drop(a)
                if a.up is None:
                    self.replaced = a.peer
                if yy == "AB" or self.byyy(yy):
                    ctx.count("ghost-numeric")
                    return self.kill_link(sptr)
                break
        if lh == "leaf":
            ctx.count("not-hub")
            return self.kill_link(sptr)
        if lh:
            ctx.count({"hub": "hub-limit" if self.blk[cname][0] else "leaf", "hops": "hops" if self.blk[cname][1] else "leaf"}[lh])
            self.drop(sptr)
            return None
        return True

    def kill_link(self, sptr):
        if sptr is not None:
            n = sptr
            while n.up:
                n = n.up
            self.drop(n)
        return None

    def newts(self):
        r, s = self.r, self.s
        ts = [n.ts for n in self.t.values()]
        if not self.tied and r.random() < .15 and ts and len(set(ts)) == len(ts):
            return r.choice(ts)
        while True:
            t = s.now - r.choice([0, 3, 10, 50, 300, 4000, -5]) - r.randint(0, 40)
            if t not in ts:
                return t

    def number(self):
        self.n += 1
        return self.n

    # -- operations
    def link(self):
        r, s, ctx = self.r, self.s, self.ctx
        name = r.choice(list(CONF))
        i = r.randrange(len(CONF[name]))
        ip, pw, mask, hops = CONF[name][i]
        num = 70 + list(CONF).index(name)
        d = r.choice(["", "", "", "", "", "bad-ip", "bad-pass", "no-pass", "bad-name", "other-name", "bad-port", "bad-proto", "old-proto", "bad-ts", "bad-num", "me", "mynum", "nodot", "short", "other-block", "masked"])
        port = 4400
        ts = self.newts()
        boot = s.now
        proto = "J10"
        yy = p10.enc(num, 2)
        sname = name
        existing = [n for n in self.t.values()]
        # the server may already be known over another path
        if d == "" and r.random() < .35:
            rest = [n for n in existing if lower(n.name) in CONF]
            if rest:
                n = r.choice(rest)
                sname = name = n.name
                name = lower(name)
                yy = n.yy
                ip, pw, mask, hops = CONF[name][i % len(CONF[name])]
        if d == "bad-ip":
            ip = r.choice(["10.200.0.99", "10.200.0.2"])
        elif d == "bad-pass":
            pw = r.choice([pw + "x", pw[:-1], pw.upper(), "pb"])
        elif d == "no-pass":
            pw = None
        elif d == "bad-name":
            sname = r.choice(["evil.test.net", "fb.test.net", "fa.test.net.x"])
        elif d == "other-name":
            sname = r.choice([n for n in CONF if n != name])
        elif d == "bad-port":
            port = 6667
        elif d == "masked":
            port = 4401
            if r.random() < .5:
                ip, d = "10.201.0.1", "masked-out"
        elif d == "bad-proto":
            proto = r.choice(["X10", "J1", "J100", "10"])
        elif d == "old-proto":
            proto = "J08"
        elif d == "bad-ts":
            ts, boot = r.choice([(5, boot), (ts, 5), (0, 0)])
        elif d == "bad-num":
            yy = r.choice(existing).yy if existing else yy
        elif d == "me":
            sname = "hub.test.net"
        elif d == "mynum":
            yy = "AB"
        elif d == "nodot":
            sname = "fa"
        elif d == "other-block":
            if len(CONF[name]) < 2:
                d = ""
            else:
                pw = CONF[name][1 - i][1]
        f = p10.FakeServer(s, name, num, ip, port, link=False)
        f.hold_ea = True
        f.yy = yy
        if pw is not None:
            f.send("PASS :" + pw)
        if d == "short":
            f.send("SERVER %s 1 %d %d %s %s]]]" % (sname, boot, ts, proto, yy))
        else:
            f.send("SERVER %s 1 %d %d %s %s]]] +h6 :%s" % (sname, boot, ts, proto, yy, "link"))
        self.what = "a link attempt by %s from %s (%s, pass %s, time %+d, numeric %s)" % (sname, ip, d or "proper", pw, ts - s.now, yy)
        self.settle()
        kit.settle(s, [f])
        ok = any(m.cmd == "SERVER" for m in f.msgs) and not f.eof
        # reference
        self.back, self.newghost, self.replaced = [], False, None
        want = d in ("", "bad-num", "mynum", "masked")
        if d == "other-name":
            want = False    # another name's block has another address
        if want:
            want = bool(self.decide(sname, yy, ts, 1, None, f))
        if not want and d:
            ctx.count({"no-pass": "bad-pass", "other-block": "bad-pass", "other-name": "bad-name", "nodot": "bad-name", "old-proto": "bad-proto", "masked-out": "bad-port"}.get(d, d))
        ctx.seen("link %s %s %s" % (d, want, self.newghost))
        if ok != want:
            ctx.fail("link:admission", "%s: the link was %s" % (self.what, "accepted" if ok else "refused (%r)" % [str(m.raw) for m in f.msgs[-3:]]), self.show())
        if not ok and not f.eof:
            # it must be of no consequence
            f.send("%s N evil 1 %d u h AAAAAB %sAAA :x" % (yy, s.now, yy))
            self.settle()
            if any(m.cmd == "SERVER" for m in f.take()):
                ctx.fail("link:admission", "%s was refused but then treated as a server" % sname)
            f.close()
            self.settle()
        if ok:
            ctx.count("linked")
            n = lower(sname)
            old = self.links.pop(n, None)
            if old:
                kit.settle(s, [old])
                if not old.eof:
                    ctx.fail("link:ghost", "%s: the old link of %s was not closed" % (self.what, n))
            f.eob()
            self.links[n] = f
            self.t[n] = N(sname, yy, None, s.now, n)
            self.blk[n] = (mask, hops)
            self.ghost[n] = s.now if self.newghost else -100
            self.settle()
            if f.eof:
                ctx.fail("link:admission", "%s: the link was lost again: %r" % (self.what, f.take()[-2:]))
            f.take()

    def announce(self):
        r, s, ctx = self.r, self.s, self.ctx
        n = self.focus or r.choice(list(self.links))
        f = self.links[n]
        sub = [x for x in self.t.values() if x.peer == n]
        sptr = r.choice(sub)
        hop = len(list(sptr.path())) + 1
        num = self.number()
        yy = p10.enc(num, 2)
        name = "s%d.%s" % (num, r.choice(["sub.net", "sub.net", "far.org"]))
        ts = self.newts()
        proto = "P10"
        info = "announced"
        k = r.random()
        d = "new"
        others = [x for x in self.t.values() if x.name != "fb.test.net"]
        if k < (.8 if self.focus else .38):
            x = r.choice(others)
            if x is sptr or x in list(sptr.path()):
                return
            name, yy, d = x.name, x.yy, "dup"
        elif k < .62:
            d = r.choice(["num", "me", "mynum", "nodot", "proto", "old", "ts", "info", "short", "renumber", "case"])
            if d == "num":
                yy = r.choice(others).yy
            elif d == "me":
                name = "hub.test.net"
            elif d == "mynum":
                yy = "AB"
            elif d == "nodot":
                name = "nodot"
            elif d == "proto":
                proto = r.choice(["Z10", "P1", "P100"])
            elif d == "old":
                proto = "P09" if r.random() < .5 else "P08"
            elif d == "ts":
                ts = 77
            elif d == "info":
                info = ""
            elif d == "renumber":
                x = r.choice(others)
                if x in list(sptr.path()):
                    return
                name = x.name
            elif d == "case":
                x = r.choice(others)
                if x in list(sptr.path()):
                    return
                name, yy = x.name.upper(), x.yy
        if d == "short":
            line = "%s S %s %d 0 %d" % (sptr.yy, name, hop, ts)
        else:
            line = "%s S %s %d 0 %d %s %s]]] +h :%s" % (sptr.yy, name, hop, ts, proto, yy, info)
        self.what = "%r over the link of %s" % (line, n)
        f.take()
        f.send(line)
        self.settle()
        self.back = []
        res = None
        if d in ("nodot", "info"):
            self.kill_link(sptr)
        elif d in ("proto", "ts"):
            self.drop(sptr)
            ctx.count("bad-" + d)
        elif d == "short":
            ctx.count("short")
        elif d == "old" and proto == "P08":
            self.back.append(name)
            ctx.count("proto-squit")
        else:
            res = self.decide(name, yy, ts, hop, sptr, f)
        ctx.seen("announce %s %s %s" % (d, bool(res), len(self.back)))
        if res:
            ctx.count("announced")
            self.t[lower(name)] = N(name, yy, sptr, ts, n)
        sq = [m.args[0] for m in f.take() if m.cmd == "SQ"]
        for b in self.back:
            if b not in sq:
                ctx.fail("link:squit", "%s: the refused server was not SQUIT back (%r)" % (self.what, sq), self.show())

    def squit(self):
        r, s, ctx = self.r, self.s, self.ctx
        n = r.choice(list(self.links))
        x = r.choice([y for y in self.t.values() if y.peer == n])
        f = self.links[n]
        self.what = "SQUIT of %s" % x.name
        if x.up is None:
            f.close()
            self.s.sync()
            del self.links[n]
        else:
            f.send("%s SQ %s 0 :gone" % (x.up.yy, x.name))
        self.drop(x)
        self.settle()
        ctx.count("squit")
