"""After links heal and traffic settles every server holds the same network state."""
import net, views, cview, vsim, world, mw, p10
from masks import lower, superset
PROPERTY = "C09"
RULE = ("networks of 2-4 real servers; clients act on every server while links are cut, healed, delayed and delivered in arbitrary chunks; once everything is "
        "linked and quiescent the net burst of every server is compared with every other's; an evaluation is one compared pair of server views; distinct counts "
        "(scenario, topology, schedule, conflict) classes met")
ASSUMPTIONS = ["conflicting concurrent changes of one parameter mode (+k/+l/+o/-o races) are outside the guarantee, as in the protocol"]
MUST_SEE = ["splits", "heals", "race:ops", "views", "clientviews", "merge:older", "merge:equal", "big", "void invite"]
CASE_WALL = 200


def plan(tier, seed):
    n = 1000 if tier == "quick" else 16000
    return [{"seed": seed, "i": i, "kind": "big" if i % 13 == 6 else ["split", "race", "merge", "collide", "anchor", "split", "merge", "race", "merge", "anchor"][i % 10]} for i in range(n)]


NICKS = ["ada", "ben", "cat", "dan", "eli", "flo", "gil", "hal"]
CH = ["#x", "#Y", "#z[]"]
MASKS = ["*!*@10.1.*", "ada!*@*", "*!*@10.1.2.3", "ben*!*@*", "*!u@*", "b?n!*@*", "*!*@*.net", "*!~u@*"]


class Sim:
    def __init__(self, ctx, p):
        self.ctx, self.p, self.r = ctx, p, ctx.rng
        r = self.r
        self.n = r.choice([2, 2, 3, 3, 4])
        self.net = net.Net(ctx, self.n, {"TOPIC_BURST": "TRUE", "MAXCHANNELSPERUSER": "20"}, services=True)
        self.tree = [(i, r.randrange(i)) for i in range(1, self.n)]
        self.clients = []    # (server, Conn, nick) live
        self.serial = 0
        self.svc = None
        if p["kind"] == "anchor":
            for i, c in enumerate(self.net.ctl):
                for ch in CH:
                    c.send("JOIN " + ch)
                self.net.servers[i].advance(30)
                self.net.servers[i].sync()

    def settle(self):
        self.net.settle()
        for c in self.clients:
            self.watch(c)
        self.clients = [c for c in self.clients if not c["conn"].eof]

    def watch(self, c):
        v = c["view"]
        for m in c["conn"].take():
            v.feed(m)
            if m.cmd == "INVITE":
                c.setdefault("inv", set()).add(lower(m.args[-1]))
        c["nick"] = v.nick
        while v.joined:
            ch = v.joined.pop()
            c["conn"].send("MODE " + ch)
            c["conn"].send("MODE %s b" % ch)

    def login(self, srv, nick):
        s = self.net.servers[srv]
        c = s.connect(self.r.choice(["10.1.2.3", "10.1.2.4", "10.9.9.9"]))
        c.send("NICK " + nick)
        c.send("USER %s 0 0 :real %s" % (self.r.choice(["u", "v"]), nick))
        s.sync()
        c.pump()
        s.sync()
        got = c.take()
        if any(m.cmd == "001" for m in got):
            self.clients.append(dict(srv=srv, conn=c, nick=nick, view=cview.ClientView(nick)))
            return True
        c.close()
        return False

    def link(self, i, j):
        self.net.connect(*((i, j) if self.r.random() < .5 else (j, i)))

    def nicks(self, srv):
        if self.p["kind"] != "collide":
            return [n + "-" + str(srv) for n in NICKS[:4]]
        return NICKS

    def op(self, modes=True, oper=False):
        r = self.r
        if not self.clients or r.random() < .1:
            if len(self.clients) < 8:
                srv = r.randrange(self.n)
                nk = r.choice(self.nicks(srv))
                self.ctx.log("login %d %s" % (srv, nk))
                self.login(srv, nk)
            return
        c = r.choice(self.clients)
        ch = r.choice(CH)
        k = r.random()
        me = c["nick"]
        other = r.choice(self.clients)["nick"] if r.random() < .7 else r.choice(self.nicks(c["srv"]))
        if k < .3:
            l = "JOIN " + ch + (" " + r.choice(["k1", "K2"]) if r.random() < .5 else "")
        elif k < .4:
            l = "PART " + ch
        elif k < .5:
            l = "NICK " + r.choice(self.nicks(c["srv"]))
        elif k < .54:
            l = "QUIT :bye"
        elif k < .62:
            l = "KICK %s %s :go" % (ch, other)
        elif k < .67 and (modes or self.p["kind"] == "anchor"):
            l = "TOPIC %s :t%d" % (ch, r.randrange(4))
        elif k < .70:
            l = r.choice(["AWAY :x", "AWAY", "MODE %s +i" % me, "MODE %s -i" % me, "MODE %s +d" % me, "MODE %s +x" % me, "MODE %s +w" % me])
        elif modes:
            l = "MODE %s %s" % (ch, self.modeline(other))
        else:
            l = "MODE %s +b %s!*@*" % (ch, "x%d" % r.randrange(10 ** 6)) if r.random() < .5 and self.p["kind"] == "anchor" else "JOIN " + ch
        self.ctx.log("%d @%d %s: %s" % (self.net.now(), c["srv"], me, l))
        c["conn"].send(l)
        self.ctx.count("race:ops" if self.p["kind"] in ("race", "anchor") else "split:ops")
        return c

    def modeline(self, other):
        r = self.r
        return r.choice(["+o " + other, "-o " + other, "+v " + other, "-v " + other, "+k k1", "+k K2", "-k k1", "-k K2", "+l %d" % r.randrange(1, 9), "-l", "+b " + r.choice(MASKS),
                         "-b " + r.choice(MASKS), "+" + r.choice("imnpstrDcCuM"), "-" + r.choice("imnpstrDcCuM"), "+nt-s", "+ov %s %s" % (other, other)])

    def tick(self, lo=2, hi=6):
        self.net.advance(self.r.randint(lo, hi))

    def fields(self):
        # ops and ages of a channel that empties while messages about it are under way are best effort in the protocol, and
        # a collision kill that crosses a burst may leave the two sides with different channel ages (see DESIGN.md): then only
        # who exists and who is on which channel is compared
        return {"chan_fields": ("who",)} if self.p["kind"] in ("collide", "race") else {}

    def compare(self, tag):
        for _ in range(3):
            self.tick(12, 15)
            self.settle()
        vs = [views.snapshot(self.net, i) for i in range(self.n)]
        self.ctx.count("views", len(vs))
        for i in range(1, self.n):
            self.ctx.ev()
            d = views.differences(vs[0], vs[i], net.NAMES[0], net.NAMES[i], **self.fields())
            if d:
                self.ctx.fail("converge:" + tag, "after the network settled (%s), topology %r:\n%s" % (tag, self.tree, "\n".join(d[:12])))
        for c in self.clients:
            v = vs[c["srv"]]
            num = [k for k, u in v.users.items() if lower(u["nick"]) == lower(c["nick"])]
            if num:
                self.ctx.ev()
                self.ctx.count("clientviews")
                d = c["view"].differences(v, num[0])
                if d:
                    self.ctx.fail("clientview", "at %d after the network settled: %s" % (self.net.now(), "; ".join(d[:4])))
        # nicknames unique
        nicks = [lower(u["nick"]) for u in vs[0].users.values()]
        if len(nicks) != len(set(nicks)):
            self.ctx.fail("converge:nicks", "duplicate nicknames after convergence: %r" % sorted(nicks))
        # and the clients that are still connected are exactly the users the network knows
        want = {lower(c["nick"]) for c in self.clients} | {"ctl%d" % i for i in range(self.n)}
        if want != set(nicks):
            self.ctx.fail("converge:clients", "connected clients %r but the network knows %r" % (sorted(want), sorted(nicks)))
        return vs

    def components(self):
        comp = list(range(self.n))
        for l in self.net.up_links():
            a, b = comp[l.i], comp[l.j]
            comp = [a if x == b else x for x in comp]
        return comp

    def heal(self):
        for i, j in self.tree:
            if not self.net.find_link(i, j):
                pre = self.p["kind"] in ("split", "merge") and (views.snapshot(self.net, i), views.snapshot(self.net, j))
                self.comp = self.components()
                self.link(i, j)
                self.settle()
                self.ctx.count("heals")
                if pre:
                    self.merged(i, j, *pre)
        self.settle()
        for l in self.tree:
            if not self.net.find_link(*l):
                # a link may be refused while the other side still lingers
                self.link(*l)
                self.settle()

    def merged(self, i, j, a, b):
        """Linking two parts of the network must give what the channel ages say: the older channel's modes, bans, topic and operators."""
        users, chans = views.merge(a, b, superset)
        if not self.net.find_link(i, j):
            return
        got = views.snapshot(self.net, self.r.choice([i, j]))
        self.ctx.ev()
        for n, e in chans.items():
            if e and n in a.chans and n in b.chans:
                self.ctx.count("merge:older" if a.chans[n]["ts"] != b.chans[n]["ts"] else "merge:equal")
        d = views.merge_differences(got, users, chans)
        if d:
            self.ctx.fail("merge", "linking %s and %s (at %d):\n%s\nbefore: %r\nand %r" % (net.NAMES[i], net.NAMES[j], self.net.now(), "\n".join(d[:8]), a.chans, b.chans))
        if self.p["kind"] == "merge":
            self.uninvited(i, j, a, b)

    def run_split(self):
        r = self.r
        linked = r.random() < .7
        if linked:
            self.heal()
        for rnd in range(r.choice([1, 2, 3])):
            for _ in range(r.randint(5, 25)):
                self.op()
                self.tick()
                self.settle()
            if self.net.up_links():
                l = r.choice(self.net.up_links())
                l.cut()
                self.ctx.count("splits")
                self.settle()
            for _ in range(r.randint(3, 25)):
                self.op()
                self.tick()
                self.settle()
            before = {}
            self.heal()
            self.tick()
            self.settle()
            self.ctx.seen("split/%d/%s" % (self.n, len(self.clients)))
            self.compare("split")
        self.ctx.sample("\n".join(self.ctx.trace[-6:]))

    def run_merge(self):
        """Channels of the same names with dense, overlapping settings on both sides of a link that comes up."""
        r = self.r
        self.invites = []
        if r.random() < .5:
            self.heal()
        for srv in range(self.n):
            for k in range(3):
                self.login(srv, NICKS[k] + "-" + str(srv))
        for rnd in range(r.choice([1, 2, 2])):
            if self.net.up_links():
                self.fill(r.random() < .5)
                self.tick(r.choice([12, 12, 70]), 70)
                self.settle()
                l = r.choice(self.net.up_links())
                l.cut()
                self.ctx.count("splits")
                self.settle()
            self.invites = []
            self.fill(True)
            if r.random() < .4:
                # cycle channels, leaving some empty
                for c in list(self.clients):
                    for ch in CH:
                        if r.random() < .6:
                            self.say(c, "PART " + ch)
                            if r.random() < .5:
                                self.settle()
                                if r.random() < .5:
                                    self.tick(1, 2)
                                self.say(c, "JOIN " + ch)
                    self.settle()
                    self.tick(1, 9)
                self.tick(12, 14)
                self.settle()
            self.ctx.seen("merge/%d/%d/%d" % (self.n, rnd, len(self.clients)))
            if r.random() < .6:
                self.ride("#ride%d" % rnd)
            self.heal()
            self.tick()
            self.settle()
            self.compare("merge")

    def ride(self, ch):
        """A young channel spread over two servers, with an invitation pending, that is to meet an older invite-only one."""
        r = self.r
        comp = self.components()
        young = [x for x in set(comp) if comp.count(x) > 1]
        if not young or len(set(comp)) < 2:
            return
        at = lambda s, k: [c for c in self.clients if c["srv"] == s][:k]
        y = r.choice(young)
        s1, s2 = r.sample([s for s in range(self.n) if comp[s] == y], 2)
        s3 = r.choice([s for s in range(self.n) if comp[s] != y])
        a, b, c = at(s1, 2), at(s2, 1), at(s3, 1)
        if len(a) < 2 or not b or not c:
            return
        self.say(c[0], "JOIN " + ch)
        self.settle()
        self.say(c[0], "MODE %s +i%s" % (ch, r.choice(["", "", "n", "s"])))
        self.tick(30, 60)
        self.settle()
        self.say(a[0], "JOIN " + ch)
        self.settle()
        self.say(b[0], "JOIN " + ch)
        self.settle()
        self.say(a[0], "INVITE %s %s" % (a[1]["nick"], ch))
        self.settle()
        self.tick(20, 30)
        self.settle()
        self.invites.append((a[1], ch))

    def say(self, c, l):
        self.ctx.log("%d @%d %s: %s" % (self.net.now(), c["srv"], c["nick"], l))
        c["conn"].send(l)
        self.ctx.count("merge:ops")

    def fill(self, dense):
        r = self.r
        cl = list(self.clients)
        r.shuffle(cl)
        for c in cl:
            for ch in CH:
                if r.random() < .6:
                    self.say(c, "JOIN " + ch + r.choice(["", "", " k1", " K2"]))
            self.settle()
            if r.random() < .5:
                self.tick(1, 3)
        if not dense:
            return
        self.tick(10, 20)
        r.shuffle(cl)
        for c in cl:
            for ch in CH:
                items = [x for x in ["+b " + m for m in r.sample(MASKS, 3)] + ["+k " + r.choice(["k1", "K2"]), "-k k1", "+l %d" % r.randrange(1, 9), "-l"] +
                         ["+%s %s" % (r.choice("ov"), x["nick"]) for x in r.sample(cl, min(3, len(cl)))] + ["+" + x for x in r.sample("imnpstrDcCuM", 3)] +
                         ["-" + x for x in r.sample("imnpstrDcCuM", 2)] if r.random() < .35]
                if items:
                    self.say(c, "MODE %s %s %s" % (ch, "".join(x.split(" ")[0] for x in items[:6]), " ".join(x.split(" ")[1] for x in items[:6] if " " in x)))
                if r.random() < .25:
                    self.say(c, "TOPIC %s :t%d" % (ch, r.randrange(3)))
                v = c["view"].chans.get(lower(ch))
                if v and "o" in v.members.get(lower(c["nick"]), ()):
                    o = [x for x in cl if x["srv"] == c["srv"] and lower(ch) not in x["view"].chans]
                    if o:
                        o = r.choice(o)
                        self.say(c, "INVITE %s %s" % (o["nick"], ch))
                        self.invites.append((o, ch))
                if r.random() < .15:
                    self.say(c, "PART " + ch)
            self.settle()
            self.tick(6, 20)
            self.settle()
        self.tick(60, 70)
        self.settle()

    def uninvited(self, i, j, a, b):
        """Invitations to a channel that lost its modes to an older invite-only one are void."""
        side = {self.comp[i]: (a, b), self.comp[j]: (b, a)}
        for o, ch in self.invites:
            if self.comp[o["srv"]] not in side:
                continue
            mine, theirs = side[self.comp[o["srv"]]]
            me, other = mine.chans.get(lower(ch)), theirs.chans.get(lower(ch))
            if not me or not other or other["ts"] >= me["ts"] - 4 or "i" not in other["modes"] or not other["members"] or o["conn"].eof or lower(ch) not in o.get("inv", ()):
                continue
            if any(lower(u["nick"]) == lower(o["nick"]) and n in me["members"] for n, u in mine.users.items()):
                continue
            self.ctx.ev()
            self.ctx.count("void invite")
            mynum = next(n[:2] for n, u in mine.users.items() if lower(u["nick"]) == lower(o["nick"]))
            if any(n[:2] != mynum for n in me["members"]):
                self.ctx.count("void invite remote")
            self.net.advance(30)
            self.settle()
            self.say(o, "JOIN " + ch)
            self.settle()
            if lower(ch) in {lower(x) for x in o["view"].chans}:
                self.ctx.fail("merge:invite", "%s, invited to %s before the merge with the older invite-only channel, could still join it" % (o["nick"], ch))

    def partial(self):
        """Deliver an arbitrary part of what is in flight."""
        r = self.r
        for i, s in enumerate(self.net.servers):
            if r.random() < .6:
                s.sync()
        for l in self.net.up_links():
            l.hold = [True, True]
            l.pump()
            for d in (0, 1):
                if r.random() < .5:
                    l.deliver_some(d, r.choice([1, 7, 20, 60, 200, 10 ** 6]))

    def run_race(self):
        r = self.r
        self.heal()
        for _ in range(r.randint(4, 12)):
            self.op(False)
            self.tick()
            self.settle()
        for rnd in range(r.choice([1, 2, 3])):
            for _ in range(r.randint(5, 40)):
                self.op(False)
                if r.random() < .3:
                    self.net.advance(r.choice([1, 2, 40]))
                for _ in range(r.choice([0, 1, 3])):
                    self.partial()
                if r.random() < .03 and self.net.up_links():
                    l = r.choice(self.net.up_links()); self.ctx.log("cut %d-%d" % (l.i, l.j)); l.cut()
                    self.ctx.count("splits")
                for l in self.net.links:
                    l.up or self.net.links.remove(l)
            for l in self.net.up_links():
                l.hold = [False, False]
            self.settle()
            self.tick(20, 60)
            self.settle()
            self.heal()
            self.tick()
            self.settle()
            self.ctx.seen("race/%d/%d" % (self.n, len(self.clients)))
            self.compare("race")
        self.ctx.sample("\n".join(self.ctx.trace[-6:]))


class Big:
    """A crowded network: bursts that need many lines, relayed by real servers."""
    def __init__(self, ctx, p):
        self.ctx, self.p, self.r = ctx, p, ctx.rng

    def burst(self, f, users, ts, pre):
        """Introduce users and channels from peer f; returns the channels as it defined them."""
        r = self.r
        now = f.srv.now
        nums = []
        for i in range(users):
            n = f.yy + p10.enc(i, 3)
            modes = r.choice(["", "", "+i", "+ir acc%d:%d" % (i % 7, now - 5), "+w", "+d", "+rx acc%d:%d" % (i % 7, now - 5)])
            f.send("%s N %s%d 1 %d u%d h%d.%s.net %s %s %s :real %d" % (f.yy, pre, i, now - r.randint(1, 900), i % 10, i, "x" * r.choice([1, 30]),
                                                                  modes, p10.ip_enc("10.%d.%d.%d" % (r.randrange(250), r.randrange(250), i % 250)), n, i))
            nums.append(n)
        chans = {}
        for k in range(r.choice([1, 2, 4])):
            name = "#big%d" % k + r.choice(["", "x" * 60, "y" * 180])
            mem = {}
            cnt = r.choice([0, 1, 20, users, users])
            for n in r.sample(nums, min(cnt, users)) or nums[:1]:
                mem[n] = r.choice(["", "", "", "v", "o", "ov"])
            bans = []
            for b in range(r.choice([0, 3, 20, 45])):
                bans.append("*!*@b%d-%d.%s.org" % (k, b, "".join(r.choice("pqrs") for _ in range(r.choice([3, 40])))))
            modes = "".join(sorted(set(r.choice("imnpstrcCuM") for _ in range(r.randint(0, 5)))))
            if "s" in modes:
                modes = modes.replace("p", "")
            key = r.choice(["", "", "key", "K" * 23])
            lim = r.choice([0, 0, 7, 99999])
            t = ts + r.choice([0, 0, -1, 1]) * 100
            top = r.choice(["", "a topic", "t" * 160])
            tt = t + 1 + 2 * r.randrange(100) + (pre == "m")
            chans[lower(name)] = dict(name=name, ts=t, modes=frozenset(modes), key=key, limit=lim, members=mem, bans=frozenset(bans), topic=top, topicts=tt if top else 0)
            head = "%s B %s %d" % (f.yy, name, t)
            ml = modes + ("k" if key else "") + ("l" if lim else "")
            first = (" +" + ml + (" " + key if key else "") + (" %d" % lim if lim else "")) if ml else ""
            items = sorted(mem.items(), key=lambda x: ["", "v", "o", "ov"].index(x[1]))
            line, st = head + first, ""
            sep = " "
            for n, s in items:
                add = n + (":" + s if s != st else "")
                if len(line) + len(add) > 480:
                    f.send(line)
                    line, sep = head, " "
                    add = n + (":" + s if s else "")
                line += sep + add
                sep, st = ",", s
            sep = " :%"
            for b in bans:
                if len(line) + len(b) + 4 > 500:
                    f.send(line)
                    line, sep = head, " :%"
                line += sep + b
                sep = " "
            f.send(line)
            if top:
                f.send("%s T %s %d %d somebody :%s" % (f.yy, name, t, tt, top))
        return nums, chans

    def check(self, tag, i, users, chans):
        v = views.snapshot(self.net, i, "fb.test.net", 61)
        self.ctx.ev()
        self.ctx.count("views")
        d = []
        miss = set(users) - set(v.users)
        if miss:
            d.append("%d users missing" % len(miss))
        for n, c in chans.items():
            g = v.chans.get(n)
            if g is None:
                d.append("channel %s missing" % n)
                continue
            for k in ("ts", "modes", "key", "limit", "members", "bans", "topic"):
                if c[k] is not None and g[k] != c[k]:
                    if isinstance(c[k], (dict, frozenset)):
                        a, b = (set(c[k].items()), set(g[k].items())) if isinstance(c[k], dict) else (c[k], g[k])
                        d.append("%s of %s: lost %r, extra %r" % (k, n, sorted(a - b)[:5], sorted(b - a)[:5]))
                    else:
                        d.append("%s of %s: expected %r found %r" % (k, n, c[k], g[k]))
        if d:
            self.ctx.fail("big:" + tag, "%s, at server %d: %s" % (tag, i, "\n".join(d[:6])))
        return v

    def run(self):
        r, ctx = self.r, self.ctx
        n = r.choice([2, 3])
        self.net = N = net.Net(ctx, n, {"TOPIC_BURST": "TRUE", "MAXCHANNELSPERUSER": "20"}, services=True)
        users = r.choice([30, 90, 200, 420])
        ctx.log("users %d servers %d" % (users, n))
        base = N.now() - 5000
        if n == 3 and r.random() < .5:
            N.connect(1, 2)
            N.settle()
        f = p10.FakeServer(N.servers[0], "fa.test.net", 40, "10.200.0.1")
        f.auto_ea = True
        N.servers[0].sync()
        nums, chans = self.burst(f, users, base, "n")
        f.send("%s EB" % f.yy)
        N.settle([f])
        self.check("hub took the burst", 0, nums, chans)
        nums2, chans2 = [], {}
        if r.random() < .6:
            # another crowd elsewhere, meeting when the servers link
            g = p10.FakeServer(N.servers[1], "fc.test.net", 41, "10.200.0.3")
            N.servers[1].sync()
            nums2, chans2 = self.burst(g, r.choice([1, 30, 150]), base, "m")
            g.send("%s EB" % g.yy)
            N.settle([f, g])
            self.check("second server took its burst", 1, nums2, chans2)
            fs = [f, g]
        else:
            fs = [f]
        va, vb = views.snapshot(N, 0), views.snapshot(N, 1)
        _, want = views.merge(va, vb, superset)
        N.connect(*((0, 1) if r.random() < .5 else (1, 0)))
        N.settle(fs)
        if n == 3 and not N.find_link(1, 2):
            N.connect(2, 1)
            N.settle(fs)
        want = {k: c for k, c in want.items() if c}
        kicks = any(x["modes"] & {"i", "r"} or x["key"] for x in list(chans.values()) + list(chans2.values()))
        if kicks and nums2:
            # whose side polices the riders depends on the servers those users are on; only sizes are compared
            for c in want.values():
                c["members"] = None
        vs = [self.check("after linking", i, nums + nums2, want) for i in range(n)]
        for i in range(1, n):
            d = views.differences(vs[0], vs[i])
            if d:
                ctx.fail("big:differ", "\n".join(d[:6])[:2000])
        ctx.count("big", 1)
        ctx.seen("big/%d/%d/%d" % (n, users, len(nums2)))


def run_case(ctx, p):
    if p["kind"] == "big":
        return Big(ctx, p).run()
    s = Sim(ctx, p)
    s.run_split() if p["kind"] in ("split", "collide") else s.run_merge() if p["kind"] == "merge" else s.run_race()
