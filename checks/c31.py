"""Server-to-server routing: each message reaches every server that needs it exactly once, never goes back, never comes from the wrong side"""
import kit, p10, tree, vsim
PROPERTY = "C31"
RULE = ("random trees behind three scripted peers; every protocol message a peer or a local client can originate is sent and each neighbour's traffic is compared with the exact line expected there "
        "(or none); an evaluation is one message; distinct counts (message, where from, number of copies expected)")
ASSUMPTIONS = ["timing-dependent relays (AsLL pings, SETTIME) are excluded"]
EVENTS = ["intro", "nick", "quit", "away", "umode", "create", "join", "part", "mode", "kick", "topic", "kill", "server", "wall", "config", "opmode", "clearmode",
          "privu", "privchan", "wallch", "masked", "hunt", "numeric", "chnum", "xq", "ping", "pong", "fake", "unknown", "local", "invite", "silence", "account", "squitold", "tagmsg", "rpong", "directed"]
MUST_SEE = EVENTS


def plan(tier, seed):
    return [{"seed": seed, "i": i} for i in range(2000 if tier == "quick" else 30000)]


def run_case(ctx, p):
    r = ctx.rng
    rewrite = r.random() < .5
    s = ctx.ircd(vsim.conf(ports=((6667, ""), (4400, "server=yes")),
                           opers=['local = no; class = "Opers"; host = "*@*"; password = "$PLAIN$operpass"; name = "oper"; opmode=yes; force_opmode=yes'],
                           connects=['name="f%s.test.net"; host="10.200.0.%d"; password="testpass"; class="Server"; hub; autoconnect=no' % (c, i + 1) for i, c in enumerate("abc")],
                           uworld=['name="fa.test.net"'],
                           features={"HIS_REWRITE": "TRUE" if rewrite else "FALSE", "OPLEVELS": "FALSE", "NICKDELAY": "1", "HIS_REMOTE": "FALSE"}))
    if r.random() < .3:
        s.fault(seed=p["i"] + 1, rmax=r.choice([0, 7, 100]), shuffle=1)
    t = tree.Tree(ctx, s)
    lo = kit.register(s, "local", "10.9.9.1", wait=0)
    ob = kit.register(s, "obs", "10.9.9.2", wait=6)
    kit.oper(s, lo)
    lo.send("JOIN #a,#b")
    ob.send("JOIN #a")
    s.advance(10)
    for c in ("#a", "#b"):
        t.chans[c] = s.now - 1000
    for i, n in enumerate(("fa.test.net", "fb.test.net", "fc.test.net")):
        t.link(n, 5 + i, "10.200.0.%d" % (i + 1), flags=r.choice(["h6", "hs6"]) if i else "hs6")
    for _ in range(r.randint(2, 5)):
        t.announce(r.choice(sorted(t.servers)))
    for sv in sorted(t.servers):
        for _ in range(r.randint(1, 2)):
            u = t.add_user(sv, modes=r.choice(["", "", "i", "o", "d"]))
            for c in ("#a", "#b", "#r"):
                if r.random() < .5:
                    t.join(u, c, op=True)
                    u.ops.add(c)
    kit.settle(s, t.live())
    X(ctx, s, t, lo, ob, rewrite).run()


class X:
    def __init__(self, ctx, s, t, lo, ob, rewrite):
        self.ctx, self.s, self.t, self.lo, self.ob, self.r, self.rewrite = ctx, s, t, lo, ob, ctx.rng, rewrite
        self.n = 0
        self.voiced = set()
        self.nn = {}
        for c in (lo, ob):
            m = kit.ask(s, c, "WHO %s x%%n" % c.nick)
        self.numbers()

    def numbers(self):
        """The numerics of the local clients, as a peer sees them."""
        for f in self.t.live():
            f.take()
        for c in (self.lo, self.ob):
            c.send("AWAY :x")
            kit.settle(self.s, self.t.live())
            l = [m for m in self.t.peers["fb.test.net"].take() if m.cmd == "A"]
            if len(l) != 1:
                self.ctx.fail("route:away", "AWAY of a local client was announced as %r" % l)
            self.nn[c.nick] = l[0].src
            self.s.advance(4)

    def run(self):
        r, t, s, ctx = self.r, self.t, self.s, self.ctx
        for _ in range(26):
            ev = r.choice(EVENTS)
            self.n += 1
            self.drain()
            out = self.make(ev)
            if out is None:
                continue
            who, line, expect = out      # who: peer name or client; expect: {peer: [normal forms]} or (peers, form)
            if isinstance(who, str):
                self.t.peers[who].send(line)
            else:
                who.send(line)
            s.advance(1)
            for _ in range(3):
                kit.settle(s, t.live())
            for f in t.live():
                got = [norm(m) for m in f.take() if m.cmd not in ("G", "PING", "Z") or ev in ("ping", "pong")]
                got = [g for g in got if not (ev in ("ping",) and g[1] == "G" and g[0] == "AB")]
                want = expect.get(f.name, [])
                if ev == "hunt" and line.split(" ")[1] == "TR":
                    got = [g for g in got if g[:2] != ("AB", "200")]
                if not same(got, want):
                    ctx.fail("route:" + ev, "%s sent %r; neighbour %s was sent %r, expected %r" % (
                        who if isinstance(who, str) else "local client", line, f.name, got, want), {"servers": sorted((x.name, x.yy, x.up) for x in t.servers.values())})
                if f.eof:
                    ctx.fail("route:cut", "after %r from %s the link to %s closed" % (line, who, f.name))
            ctx.count(ev)
            ctx.ev()
            ctx.seen("%s %s %d" % (ev, "peer" if isinstance(who, str) else "local", sum(bool(x) for x in expect.values())))
            if self.after:
                self.after()
        ctx.sample("%d servers, %d users" % (len(t.servers), len(t.users)))

    def drain(self):
        self.s.advance(2)
        kit.settle(self.s, self.t.live())
        for c in self.t.live() + [self.lo, self.ob]:
            c.take()

    def others(self, peer):
        return [f.name for f in self.t.live() if f.name != peer]

    def all_but(self, peer, form):
        return {n: [form] for n in self.others(peer)}

    def make(self, ev):
        r, t, s = self.r, self.t, self.s
        self.after = None
        users = sorted(t.users.values(), key=lambda u: u.nick)
        if len(users) < 3:
            return None
        u = r.choice(users)
        up = t.path(u.srv)
        v = r.choice(users)
        vp = t.path(v.srv)
        sv = t.servers[r.choice(sorted(t.servers))]
        w = "w%d" % self.n
        A = lambda form: self.all_but(up, form)
        def members(c, but=None, ok=lambda x: True):
            return {t.path(x.srv) for x in users if c in x.chans and t.path(x.srv) != but and ok(x)}
        if ev == "intro":
            t.nextnick += 1
            nick = "r%d" % t.nextnick
            nn = sv.yy + tree.enc(sv.number(self.r), 3)
            hop, x = 1, sv
            while x.up:
                hop, x = hop + 1, t.servers[x.up]
            ts = s.now - 5
            modes = r.choice(["", "+i", "+ix", "+d", "+r acct%d" % self.n, "+ri acct:1234567890"])
            ip = r.choice(["AAAAAB", "B]AAAB", "AAA_AAB", "AgBAAA_AAB"])
            l = "%s N %s %d %d usr h.os%d.t %s%s %s :real name" % (sv.yy, nick, hop, ts, self.n, modes + " " if modes else "", ip, nn)
            def done():
                x = t.users[nick] = tree.User(nn, nick, sv.name, "usr", "h", modes, ts)
                sv.users[nick] = x
            self.after = done
            f = (sv.yy, "N", [nick, str(hop + 1), str(ts), "usr", "h.os%d.t" % self.n] + (FL2(modes) if modes else []) + [IP(ip), nn, "real name"])
            return sv.peer, l, {n: [f] for n in self.others(sv.peer)}
        if ev == "nick":
            t.nextnick += 1
            new = "n%d" % t.nextnick
            ts = s.now
            def done():
                t.users[new] = t.users.pop(u.nick)
                t.servers[u.srv].users[new] = t.servers[u.srv].users.pop(u.nick)
                u.nick = new
            self.after = done
            return up, "%s N %s %d" % (u.nn, new, ts), A((u.nn, "N", [new, str(ts)]))
        if ev == "quit":
            def done():
                t.users.pop(u.nick)
                t.servers[u.srv].users.pop(u.nick)
            self.after = done
            return up, "%s Q :%s bye" % (u.nn, w), A((u.nn, "Q", [w + " bye"]))
        if ev == "away":
            if r.random() < .4 and getattr(u, "away", False):
                u.away = False
                return up, "%s A" % u.nn, A((u.nn, "A", []))
            if getattr(u, "away", False):
                return None
            u.away = True
            return up, "%s A :gone %s" % (u.nn, w), A((u.nn, "A", ["gone " + w]))
        if ev == "umode":
            m = r.choice("iwdg")
            cur = getattr(u, "um", None)
            if cur is None:
                u.um = cur = set(u.modes)
            m = r.choice("id")
            if m in cur:
                cur.discard(m)
                ch = "-" + m
            else:
                cur.add(m)
                ch = "+" + m
            u.modes = "".join(cur)
            return up, "%s M %s :%s" % (u.nn, u.nick, ch), A((u.nn, "M", [u.nick, ch]))
        if ev == "create":
            c = "#new%d" % self.n
            ts = s.now
            u.chans.add(c)
            t.chans[c] = ts
            return up, "%s C %s %d" % (u.nn, c, ts), A((u.nn, "C", [c, str(ts)]))
        if ev == "join":
            c = r.choice(["#a", "#b", "#r"])
            if c in u.chans or c not in t.chans:
                return None
            u.chans.add(c)
            ts = t.chans[c]
            if c == "#r" and not members(c):
                return None
            return up, "%s J %s %d" % (u.nn, c, ts), A((u.nn, "J", [c, ANY]))
        if ev == "part":
            cs = sorted(c for c in u.chans if c != "#r")
            if not cs:
                return None
            c = r.choice(cs)
            u.chans.discard(c)
            u.ops.discard(c)
            if not c.startswith("#new"):
                return up, "%s L %s :%s" % (u.nn, c, w), A((u.nn, "L", [c, w]))
            return up, "%s L %s" % (u.nn, c), A((u.nn, "L", [c]))
        if ev == "mode":
            cs = sorted(c for c in u.chans if c.startswith("#new"))
            if not cs:
                return self.make("create")
            c = r.choice(cs)
            ch = r.choice(["+b *!*@%s.x" % w, "+o " + u.nn, "+v " + u.nn])
            if ch[1] == "o" or (ch[1] == "v" and (u.nn, c) in self.voiced):
                return None
            if ch[1] == "v":
                self.voiced.add((u.nn, c))
            return up, "%s M %s %s" % (u.nn, c, ch) + (" %d" % t.chans[c] if r.random() < .7 else ""), A((u.nn, "M", [c] + ch.split(" ") + [ANY]))
        if ev == "kick":
            cs = sorted(c for c in v.chans if c in ("#a", "#b") and v is not u)
            src = t.servers[u.srv].yy
            if not cs or up == vp:
                return None
            c = r.choice(cs)
            v.chans.discard(c)
            v.ops.discard(c)
            def done():
                # the victim's server acknowledges
                t.peers[vp].send("%s L %s" % (v.nn, c))
            self.after = done
            return up, "%s K %s %s :%s" % (src, c, v.nn, w), A((src, "K", [c, v.nn, w]))
        if ev == "topic":
            cs = sorted(c for c in u.chans if c.startswith("#new"))
            if not cs:
                return self.make("create")
            c = r.choice(cs)
            ts = s.now
            return up, "%s T %s %d %d :%s topic" % (u.nn, c, t.chans[c], ts, w), A((u.nn, "T", [c, str(t.chans[c]), str(ts), u.nick, w + " topic"]))
        if ev == "kill":
            if v is u:
                return None
            src = r.choice([u.nn, t.servers[u.srv].yy])
            def done():
                t.users.pop(v.nick)
                t.servers[v.srv].users.pop(v.nick)
            self.after = done
            if up == vp:
                e = A((src, "D", [v.nn, ANY]))
            else:
                e = A((src, "D", [v.nn, ANY]))
            return up, "%s D %s :path!%s (%s)" % (src, v.nn, u.nick, w), e
        if ev == "server":
            yy = tree.enc(t.number(), 2)
            name = "y%d.test.net" % self.n
            hop, x = 2, sv
            while x.up:
                hop, x = hop + 1, t.servers[x.up]
            ts = s.now - 50
            def done():
                t.servers[name] = tree.Srv(name, yy, sv.name, sv.peer, ts)
            self.after = done
            fl = r.choice(["+h", "+hs6", "+6"])
            return sv.peer, "%s S %s %d 0 %d P10 %s]]] %s :desc of it" % (sv.yy, name, hop, ts, yy, fl), {
                n: [(sv.yy, "S", [name, str(hop + 1), "0", str(ts), "P10", yy + "]]]", FL(fl), "desc of it"])] for n in self.others(sv.peer)}
        if ev == "squitold":
            deep = [x for x in t.servers.values() if x.up]
            if not deep:
                return None
            x = r.choice(sorted(deep, key=lambda z: z.name))
            return x.peer, "%s SQ %s %d :stale" % (t.peers[x.peer].yy, x.name, x.ts - 7), {}
        if ev == "wall":
            src = r.choice([u.nn, t.servers[u.srv].yy])
            tok = r.choice(["WA", "WU", "DS"])
            return up, "%s %s :%s text" % (src, tok, w), A((src, tok, [w + " text"]))
        if ev == "config":
            k = "key.%d" % r.randint(1, 3)
            src = t.servers[u.srv].yy
            ts = s.now
            self.cf = getattr(self, "cf", {})
            old = self.cf.get(k)
            if old and old[0] >= ts:
                return None
            val = "val" + w
            if old and r.random() < .5:
                return up, "%s CF %d %s :older" % (src, old[0] - 1, k), {}
            self.cf[k] = (ts, val)
            return up, "%s CF %d %s :%s" % (src, ts, k, val), A((src, "CF", [str(ts), k, val]))
        if ev == "opmode":
            src = t.servers[u.srv].yy
            c = r.choice(["#a", "#b"])
            m = "+b *!*@o%d.x" % self.n
            return up, "%s OM %s %s" % (src, c, m), A((src, "OM", [c] + m.split(" ") + [ANY]))
        if ev == "clearmode":
            src = t.servers[u.srv].yy
            c = r.choice(["#a", "#b"])
            return up, "%s CM %s b" % (src, c), A((src, "CM", [c, "b"]))
        if ev == "privu":
            tok = r.choice("PO")
            src = r.choice([u.nn, t.servers[u.srv].yy]) if tok == "O" else u.nn
            form = (src, tok, [v.nn, w + " to you"])
            return up, "%s %s %s :%s to you" % (src, tok, v.nn, w), {vp: [form]}
        if ev == "privchan":
            c = r.choice(["#a", "#b", "#r"])
            if c not in u.chans:
                return None
            tok = r.choice("PO")
            form = (u.nn, tok, [c, w + " text"])
            return up, "%s %s %s :%s text" % (u.nn, tok, c, w), {n: [form] for n in members(c, up, lambda x: "d" not in x.modes)}
        if ev == "tagmsg":
            c = r.choice(["#a", "#b"])
            if c in u.chans:
                return up, "@+typing=active %s TM %s" % (u.nn, c), {n: [(u.nn, "TM", [c])] for n in members(c, up, lambda x: "d" not in x.modes)}
            return up, "@+typing=active %s TM %s" % (u.nn, v.nn), {vp: [(u.nn, "TM", [v.nn])]}
        if ev == "wallch":
            c = r.choice(["#a", "#b", "#r"])
            if c not in u.chans:
                return None
            tok = r.choice(["WC", "WV"])
            ok = lambda x: c in x.ops and "d" not in x.modes
            return up, "%s %s %s :%s ops" % (u.nn, tok, c, w), {n: [(u.nn, tok, [c, w + " ops"])] for n in members(c, up, ok)}
        if ev == "masked":
            if "o" not in u.modes:
                return None
            tok = r.choice("PO")
            mask = r.choice(["$*.net", "$*", "$x*", "$" + sv.name, "$nomatch.*"])
            pat = mask[1:]
            import fnmatch
            have = {n.peer for n in t.servers.values() if n.users and n.peer != up and fnmatch.fnmatchcase(n.name, pat)}
            form = (u.nn, tok, [mask, w + " masked"])
            return up, "%s %s %s :%s masked" % (u.nn, tok, mask, w), {n: [form] for n in have}
        if ev == "hunt":
            tgt = sv
            forms = [("V", ":%s", [tgt.yy]), ("AD", ":%s", [tgt.yy]), ("MO", "%s", [tgt.yy]), ("TI", ":%s", [tgt.yy]), ("LU", "* :%s", ["*", tgt.yy]),
                     ("W", "%s :" + v.nick, [tgt.yy, v.nick]), ("TR", v.nick + " :%s", [v.nick, tgt.yy])]
            if "o" in u.modes:
                forms += [("R", "u %s", ["u", tgt.yy]), ("R", "v %s :param", ["v", tgt.yy, "param"]), ("F", ":%s", [tgt.yy]), ("LI", "%s :*", [tgt.yy, "*"]), ("X", "nobody 5 :%s", ["nobody", "5", tgt.yy]), ("E", "#a %s", ["#a", tgt.yy]),
                          ("CO", "some.server 4400 :%s", ["some.server", "4400", tgt.yy]), ("RI", "some.server %s :12345", ["some.server", tgt.yy, "12345"])]
            tok, f, a = r.choice(forms)
            return up, "%s %s %s" % (u.nn, tok, f % tgt.yy), {tgt.peer: [(u.nn, tok, a)]}
        if ev == "numeric":
            num = r.choice(["311", "371", "251", "401", "005", "042"])
            src = t.servers[u.srv].yy
            onum = "%03d" % (int(num) + 100 if int(num) < 100 else int(num))
            e = {}
            if vp != up:
                e[vp] = [("AB" if self.rewrite and "o" not in v.modes else src, onum, [v.nn, "a", "b", w + " text"])]
            return up, "%s %s %s a b :%s text" % (src, num, v.nn, w), e
        if ev == "chnum":
            c = r.choice(["#a", "#b"])
            src = t.servers[u.srv].yy
            form = ("AB" if self.rewrite else src, "367", [c, "x", w])
            return up, "%s 367 %s x :%s" % (src, c, w), {n: [form] for n in members(c, up, lambda x: "d" not in x.modes)}
        if ev == "xq":
            src = t.servers[u.srv].yy
            tok = r.choice(["XQ", "XR"])
            if tok == "XR" and r.random() < .5:
                return up, "%s XR %s rt%s :reply %s" % (src, v.nn, w, w), {vp: [(src, "XR", [v.nn, "rt" + w, "reply " + w])]}
            return up, "%s %s %s rt%s :msg %s" % (src, tok, sv.yy, w, w), {sv.peer: [(src, tok, [sv.yy, "rt" + w, "msg " + w])]}
        if ev == "ping":
            if sv.peer == up:
                return None
            return up, "%s G %s :%s" % (u.nn, w, sv.name), {sv.peer: [(u.nn, "G", [w, sv.name])]}
        if ev == "pong":
            src = t.servers[u.srv].yy
            if up == vp:
                return None
            return up, "%s Z %s :%s" % (src, src, v.nn), {vp: [(src, "Z", [src, v.nn])]}
        if ev == "rpong":
            src = t.servers[u.srv].yy
            if v.srv == u.srv:
                return None
            return up, "%s RO %s some.srv %d :%s" % (src, v.nn, 12, w), {vp: [(src, "RO", [v.nn, "some.srv", "12", w])]}
        if ev == "fake":
            # a message claiming a source that is not behind this link
            bad = r.choice(sorted(self.others(up)))
            line = r.choice(["%s P %s :fake" % (u.nn, v.nn), "%s Q :fake" % u.nn, "%s N faker %d" % (u.nn, s.now), "%s J #a 1" % u.nn, "%s WA :fake" % t.servers[u.srv].yy,
                             "%s D %s :x (fake)" % (u.nn, v.nn), "%s O %s :x" % (t.servers[u.srv].yy, v.nn), "%s SQ %s 0 :fake" % (t.servers[u.srv].yy, sv.name),
                             "%s M #a +m" % self.nn["local"], "AB WA :fake", "%s Q :fake" % self.nn["obs"], "%s N faker 1 %d u h AAAAAA %sA]A :x" % (t.servers[u.srv].yy, s.now, t.servers[u.srv].yy)])
            return bad, line, {}
        if ev == "unknown":
            gone = t.servers[u.srv].yy + "]]A"
            line = r.choice(["%s P %s :x" % (gone, v.nn), "%s P %s :x" % (u.nn, gone), "%s NOTATOKEN x" % u.nn, "%s A :x" % gone, "%s O %s :x" % (u.nn, gone)])
            e = {}
            if line.startswith(u.nn + " P"):
                e = {up: OPT([("AB", "401", ANYARGS)])}
            if "NOTATOKEN" in line:
                e = {up: OPT([("AB", "421", ANYARGS)])}
            return up, line, e
        if ev == "invite":
            c = "#ghost%d" % self.n
            e = {}
            return up, "%s I %s :%s" % (u.nn, v.nick, c), {vp: [(u.nn, "I", [ANY, c])]}
        if ev == "silence":
            m = "*!*@s%d.x" % self.n
            if getattr(u, "sil", None):
                m, u.sil = u.sil, None
                return up, "%s U * -%s" % (u.nn, m), A((u.nn, "U", ["*", "-" + m]))
            if vp == up or hasattr(u, "sil"):
                return None
            if r.random() < .5:
                return up, "%s U %s ~%s" % (u.nn, v.nn, m), {vp: [(u.nn, "U", [v.nn, "+~" + m])]}
            u.sil = m
            # a positive mask takes effect here and travels on only when it suppresses something
            return up, "%s U %s %s" % (u.nn, v.nn, m), {vp: OPT([(u.nn, "U", [v.nn, ANY])])}
        if ev == "account":
            if r.random() < .5 or "r" in v.modes or getattr(v, "acct", None):
                return None
            v.acct = "acct%d" % self.n
            src = t.peers["fa.test.net"].yy
            return "fa.test.net", "%s AC %s %s" % (src, v.nn, v.acct), {n: [(src, "AC", [v.nn, v.acct])] for n in self.others("fa.test.net")}
        if ev == "directed":
            x = t.peers["fa.test.net"]
            if not [z for z in users if t.path(z.srv) == "fa.test.net" and z.srv == "fa.test.net"]:
                return None
            nick = [z for z in users if z.srv == "fa.test.net"][0].nick
            if up == "fa.test.net":
                return None
            return up, "%s P %s@fa.test.net :%s" % (u.nn, nick, w), {"fa.test.net": [(u.nn, "P", [nick + "@fa.test.net", w])]}
        if ev == "local":
            return self.local(u, up, v, vp, sv, w, users, members)
        return None

    def local(self, u, up, v, vp, sv, w, users, members):
        r, t, s, lo = self.r, self.t, self.s, self.lo
        me = self.nn["local"]
        every = lambda form: {f.name: [form] for f in t.live()}
        k = r.choice(["msg", "chan", "whois", "version", "away", "wallops", "stats", "nick", "topic", "mode", "kill", "join", "invite", "umode", "time", "opmode", "masked", "notice"])
        if k in ("msg", "notice"):
            tok = "P" if k == "msg" else "O"
            return lo, "%s %s :%s hi" % ("PRIVMSG" if k == "msg" else "NOTICE", v.nick, w), {vp: [(me, tok, [v.nn, w + " hi"])]}
        if k == "chan":
            c = r.choice(["#a", "#b"])
            return lo, "PRIVMSG %s :%s" % (c, w), {n: [(me, "P", [c, w])] for n in members(c, None, lambda x: "d" not in x.modes)}
        if k == "whois":
            return lo, "WHOIS %s %s" % (sv.name, v.nick), {sv.peer: [(me, "W", [sv.yy, v.nick])]}
        if k in ("version", "time"):
            return lo, "%s %s" % (k.upper(), sv.name), {sv.peer: [(me, "V" if k == "version" else "TI", [sv.yy])]}
        if k == "stats":
            return lo, "STATS u %s" % sv.name, {sv.peer: [(me, "R", ["u", sv.yy])]}
        if k == "away":
            if self.toggle("away"):
                return lo, "AWAY", every((me, "A", []))
            return lo, "AWAY :" + w, every((me, "A", [w]))
        if k == "wallops":
            return lo, "WALLOPS :%s" % w, every((me, "WA", [w]))
        if k == "nick":
            new = "loc%d" % self.n
            return lo, "NICK " + new, every((me, "N", [new, ANY]))
        if k == "topic":
            return lo, "OPMODE #b +v %s" % v.nick, every((me, "OM", ["#b", "+v", v.nn, ANY])) if "#b" in v.chans and not hasattr(v, "voiced") and not setattr(v, "voiced", 1) else {}
        if k == "opmode":
            return lo, "OPMODE #b +b *!*@l%d.x" % self.n, every((me, "OM", ["#b", "+b", "*!*@l%d.x" % self.n, ANY]))
        if k == "kill":
            def done():
                t.users.pop(v.nick)
                t.servers[v.srv].users.pop(v.nick)
            self.after = done
            return lo, "KILL %s :%s" % (v.nick, w), every((me, "D", [v.nn, ANY]))
        if k == "umode":
            on = self.toggle("um")
            return self.ob, "MODE obs %si" % ("+" if on else "-"), every((self.nn["obs"], "M", ["obs", "+i" if on else "-i"]))
        if k == "masked":
            import fnmatch
            return lo, "PRIVMSG $*.test.net :%s" % w, {n.peer: [(me, "P", ["$*.test.net", w])] for n in t.servers.values() if n.users}
        if k == "mode":
            return self.ob, "MODE #b +b *!*@z%d.x" % self.n, {}       # not even a member
        if k == "join":
            c = "#l%d" % self.n
            return lo, "JOIN " + c, every((me, "C", [c, ANY]))
        if k == "invite":
            return lo, "INVITE %s #b" % v.nick, {vp: OPT([(me, "I", [v.nick, "#b", ANY])])}
        return None

    def toggle(self, k):
        d = self.__dict__.setdefault("tog", {})
        d[k] = not d.get(k)
        return d[k]


class _Any:
    def __eq__(self, o):
        return True

    def __repr__(self):
        return "<any>"


ANY = _Any()
ANYARGS = _Any()


class FL:
    def __init__(self, f):
        self.f = f

    def __eq__(self, o):
        return isinstance(o, str) and o[:1] == "+" and sorted(o) == sorted(self.f)

    def __repr__(self):
        return self.f


class IP:
    def __init__(self, f):
        self.f = p10.ip_dec(f)

    def __eq__(self, o):
        return p10.ip_dec(o) == self.f

    def __repr__(self):
        return self.f


def FL2(m):
    a = m.split(" ")
    return [FL(a[0])] + a[1:]


class OPT(list):
    """These lines may be there."""


def norm(m):
    return (m.src, m.cmd, m.args)


def form_eq(g, w):
    if g[0] != w[0] or g[1] != w[1]:
        return False
    if w[2] is ANYARGS:
        return True
    if len(g[2]) != len(w[2]):
        # an optional trailing timestamp
        if w[2] and w[2][-1] is ANY and len(g[2]) == len(w[2]) - 1:
            return all(b == a for a, b in zip(g[2], w[2][:-1]))
        return False
    return all(b == a for a, b in zip(g[2], w[2]))


def same(got, want):
    if isinstance(want, OPT):
        return len(got) <= len(want) and all(form_eq(g, w) for g, w in zip(got, want))
    return len(got) == len(want) and all(form_eq(g, w) for g, w in zip(got, want))
