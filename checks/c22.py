"""Operators: who becomes one, with which privileges, what each privilege permits; user modes"""
import kit, vsim, p10
from masks import lower
PROPERTY = "C22"
RULE = ("random operator blocks, classes and privileges; local users OPER up, change user modes and try every privileged command; neighbours oper and deoper users; against a reference of privileges and user modes; "
        "distinct counts (command, privilege held, outcome)")
ASSUMPTIONS = ["no TLS library in this build", "passwords in the clear ($PLAIN$) form"]
MUST_SEE = ["oper ok", "oper bad", "class full", "fingerprint", "umode", "deop", "remote oper", "remote deop", "opmode +o", "opmode -o", "kill ok", "kill denied", "kill chase", "kill ghost", "kill service", "kill server", "opmode", "opmode denied", "clearmode", "set", "set denied",
            "rehash", "rehash denied", "die denied", "walk", "walk denied", "lchan mode", "lchan mode denied", "lchan kick", "limit", "limit exceeded", "wallops", "not an oper", "server oper refused", "quarantine", "die", "snomask"]
PRIVS = ["CHAN_LIMIT", "MODE_LCHAN", "WALK_LCHAN", "DEOP_LCHAN", "SHOW_INVIS", "SHOW_ALL_INVIS", "UNLIMIT_QUERY", "KILL", "LOCAL_KILL", "REHASH", "RESTART", "DIE", "GLINE", "LOCAL_GLINE", "JUPE", "LOCAL_JUPE", "OPMODE",
         "LOCAL_OPMODE", "SET", "WHOX", "BADCHAN", "LOCAL_BADCHAN", "SEE_CHAN", "PROPAGATE", "DISPLAY", "SEE_OPERS", "WIDE_GLINE", "LIST_CHAN", "FORCE_OPMODE", "FORCE_LOCAL_OPMODE", "APASS_OPMODE"]
GLOBAL = set(PRIVS) - {"WALK_LCHAN", "SET", "BADCHAN", "LOCAL_BADCHAN", "APASS_OPMODE"}
LOCAL = {"CHAN_LIMIT", "MODE_LCHAN", "SHOW_INVIS", "SHOW_ALL_INVIS", "LOCAL_KILL", "REHASH", "LOCAL_GLINE", "LOCAL_JUPE", "LOCAL_OPMODE", "WHOX", "DISPLAY", "FORCE_LOCAL_OPMODE"}
NETWORK = {"KILL", "GLINE", "JUPE", "OPMODE", "BADCHAN"}
ALLMODES = "oOiwsdkgrRxzIc"
TOLD = set("oiwdkgrRxzIc")     # modes other servers are told
S_ALL, S_DEF = 0x3ffff, 0x400 | 4 | 0x200
S_OPER = 0x4000 | 0x2000 | 0x20000
S_USER = S_ALL & ~S_OPER
S_OPDEF = S_DEF | 8 | 0x100 | 0x1000 | 1


def plan(tier, seed):
    return [{"seed": seed, "i": i} for i in range(2500 if tier == "quick" else 40000)]


class U:
    """A user: local ones with their connection, remote ones without."""
    far = None
    c = None
    block = host = None
    sno = 0
    gone = False

    def __init__(self, nick, uid=None):
        self.nick, self.uid, self.m, self.privs, self.chans = nick, uid, set(), set(), set()

    @property
    def an(self):
        return bool(self.m & {"o", "O"})


def run_case(ctx, p):
    X(ctx).run()


class X:
    def __init__(self, ctx):
        self.ctx, self.r = ctx, ctx.rng

    def settle(self):
        kit.settle(self.s, (self.fa, self.fb))

    def privline(self, d):
        return " ".join("%s = %s;" % (k.lower(), "yes" if v else "no") for k, v in sorted(d.items()))

    def setup(self):
        r = self.r
        self.wop, self.sop, self.dop = (r.random() < .5 for _ in range(3))
        rnd = lambda n: {k: r.random() < .6 for k in r.sample([k for k in PRIVS if k != "PROPAGATE"], r.randint(0, n))}
        self.classes = {"Opers": dict(rnd(6), PROPAGATE=True), "Locals": dict(rnd(6), PROPAGATE=False), "Plain": rnd(6)}
        if r.random() < .5:
            self.classes["RemoteOpers"] = dict(rnd(8), PROPAGATE=True)
        self.maxlinks = {n: r.choice([100, 100, 1, 2]) for n in self.classes}
        self.blocks = []
        opers = ['local = no; class = "Opers"; host = "*@10.0.0.9"; password = "$PLAIN$admpass"; name = "adm"; ' + self.privline({k: True for k in PRIVS if k != "PROPAGATE"})]
        for i in range(r.randint(2, 6)):
            c = r.choice(["Opers", "Locals", "Plain"])
            pr = rnd(8)
            if c == "Plain" or r.random() < .3:
                pr["PROPAGATE"] = r.random() < .6
            b = {"name": "op%d" % r.randrange(4), "pw": "pw%d" % i, "hosts": r.sample(["*@10.1.*", "*@10.2.0.*", "*@*", "*@10.1.0.1", "*@10.2.0.0/16", "zed@*"], r.choice([1, 1, 2])), "cls": c, "privs": pr, "fp": r.random() < .15, "i": i}
            self.blocks.append(b)
            d = dict(pr)
            x = ""
            if "PROPAGATE" in d:
                v = d.pop("PROPAGATE")
                x = r.choice(["propagate = %s;" % ("yes" if v else "no"), "local = %s;" % ("no" if v else "yes")])
            opers.append('name = "%s"; password = "$PLAIN$%s"; class = "%s"; %s %s %s %s' % (b["name"], b["pw"], c, " ".join('host = "%s";' % h for h in b["hosts"]), x, self.privline(d), 'tls fingerprint = "ABCD";' if b["fp"] else ""))
        cl = ['name = "Local"; pingfreq = 1000 minutes; sendq = 160000; maxflood = 60000; maxlinks = 250;', 'name = "Server"; pingfreq = 1000 minutes; sendq = 9000000; maxlinks = 40;']
        for n, d in self.classes.items():
            d = dict(d)
            x = ""
            if "PROPAGATE" in d:
                x = "local = %s;" % ("no" if d.pop("PROPAGATE") else "yes")
            cl.append('name = "%s"; pingfreq = 1000 minutes; sendq = 1600000; maxflood = 60000; maxlinks = %d; %s %s' % (n, 100 if n == "RemoteOpers" else self.maxlinks[n] + (n == "Opers"), x, self.privline(d)))
        self.maxch = r.choice([3, 4])
        self.s = self.ctx.ircd(vsim.conf(ports=((6667, ""), (4400, "server=yes")), classes=cl, opers=opers, clients=['ip = "*"; class = "Local";'],
                                         connects=['name="f%s.test.net"; host="10.200.0.%d"; password="testpass"; class="Server"; hub; autoconnect=no' % (x, i) for i, x in ((1, "a"), (2, "b"))],
                                         uworld=['oper = "svc.test.net"', 'name = "uw.test.net"'], extra='Quarantine { "#quar" = "closed"; };',
                                         features={"WALLOPS_OPER_ONLY": "TRUE" if self.wop else "FALSE", "HIS_SNOTICES_OPER_ONLY": "TRUE" if self.sop else "FALSE", "HIS_DEBUG_OPER_ONLY": "TRUE" if self.dop else "FALSE",
                                                   "MAXCHANNELSPERUSER": self.maxch}))

    # -- reference
    def grant(self, u, block, remote=False):
        """The privileges of a new operator."""
        cls = self.classes[block["cls"]] if block else self.classes.get("RemoteOpers")
        bp = block["privs"] if block else {}
        prop = bp.get("PROPAGATE", (cls or {}).get("PROPAGATE", True))
        base = GLOBAL if prop else LOCAL
        pr = {k for k in PRIVS if bp.get(k, (cls or {}).get(k, k in base))}
        if "PROPAGATE" in pr:
            pr.add("DISPLAY")
        else:
            pr -= NETWORK
        u.privs, u.block = pr, block

    def umode(self, u, args):
        """Applies a user's own MODE; returns the flags before."""
        old = set(u.m)
        m, sno, given = set(u.m), u.sno, False
        args = list(args)
        what, i = "+", 0

        def put(x):
            (m.add if what == "+" else m.discard)(x)
        isop = lambda: bool(m & {"o", "O"})
        while i < len(args):
            for ch in args[i]:
                if ch in "+-":
                    what = ch
                elif ch == "s":
                    if i + 1 < len(args) and self.is_sno(args[i + 1]):
                        i += 1
                        given = True
                        sno = self.sno(sno, args[i], what) & (S_ALL if isop() else S_USER)
                    else:
                        sno = (S_OPDEF if isop() else S_DEF) if what == "+" else 0
                    (m.add if sno else m.discard)("s")
                elif ch in "oO":
                    if what == "+":
                        m.add(ch)
                    else:
                        m -= {"o", "O"}
                        sno = u.sno & ~S_OPER
                elif ch in "iwdRkgIc":
                    put(ch)
            i += 1
        # nobody makes himself an operator, a service or account holder
        for x in "oOkrxz":
            if x not in old:
                m.discard(x)
        if self.wop and not isop() and "w" not in old:
            m.discard("w")
        if self.sop and not isop() and "s" not in old:
            m.discard("s")
            u.sno = 0
        if self.dop and not isop() and "g" not in old:
            m.discard("g")
        lost = old & {"o", "O"} and not isop()
        u.m = m
        if "s" in m:
            u.sno = sno & (S_ALL if isop() else S_USER)
        else:
            u.sno = 0
        prop = "PROPAGATE" in u.privs
        if lost:
            u.privs, u.block = set(), None
        return old, prop, given

    def is_sno(self, w):
        for ch in w:
            if ch.isdigit():
                return True
            if ch.isalpha():
                return False
        return False

    def sno(self, old, a, what):
        k = "="
        if a[0] in "+-":
            k, a = ("+" if (a[0] == "+") == (what == "+") else "-"), a[1:]
        elif what == "-":
            k = "-"
        n = ""
        for ch in a:
            if not ch.isdigit():
                break
            n += ch
        n = int(n or 0) & 0xffffffff
        return n if k == "=" else old | n if k == "+" else old & ~n

    # -- observation
    def expect(self, who, want, why):
        """Exactly these umode changes (uid -> (added, removed)) and leavings are told to these neighbours."""
        for f in (self.fa, self.fb):
            got, left = {}, set()
            for m in f.take():
                if m.cmd == "M" and m.args[0][:1] not in "#&" and len(m.args) == 2:
                    sg = "+"
                    for ch in m.args[1]:
                        if ch in "+-":
                            sg = ch
                        else:
                            got.setdefault(m.src, set()).add(sg + ch)
                elif m.cmd == "OM" and m.args[0][:1] not in "#&":
                    got.setdefault("OM " + m.args[0], set()).add(m.args[1])
                elif m.cmd == "Q":
                    left.add(m.src)
                elif m.cmd == "D":
                    left.add(m.args[0])
                elif not m.cmd.isdigit() and m.cmd not in ("G", "Z", "J", "C", "L", "K", "T", "OM", "CM", "B", "M", "DE", "WA", "PING", "N", "EA", "EB", "I", "O", "DS"):
                    self.ctx.fail("op:told", "%s: %s was told %r" % (why, f.name, m.raw))
                else:
                    self.seen.append((f, m))
            w = {k: v for k, v in want.items() if f in who.get(k, (self.fa, self.fb)) and v}
            if got != w:
                self.ctx.fail("op:umode-told", "%s: %s was told %r, reference %r" % (why, f.name, got, w))
            wl = {u for u in self.leave if self.leave[u] is not f}
            if left != wl:
                self.ctx.fail("op:left", "%s: %s was told that %r left, reference %r" % (why, f.name, left, wl))
        self.leave = {}
        self.ctx.ev()

    def changes(self, old, new, prop=True):
        return {s + x for s, l in (("+", new - old), ("-", old - new)) for x in l if x in TOLD and (prop or x != "o")}

    def compare(self):
        """What the server shows of everybody, to a fully privileged operator and to each user."""
        ctx, s = self.ctx, self.s
        loc = [u for u in self.users if u.c and not u.gone]
        for u in loc:
            u.c.send("MODE " + u.nick)
            self.adm.send("PRIVS " + u.nick)
        self.adm.send("LUSERS")
        for u in loc + self.remote():
            self.adm.send("WHOIS " + u.nick)
            self.obs.send("WHOIS " + u.nick)
        self.settle()
        for u in loc:
            g = u.c.take()
            md = next((m.args[1] for m in g if m.cmd == "221"), "?")
            sn = next((int(m.args[1]) for m in g if m.cmd == "008"), None)
            if set(md[1:]) != u.m:
                ctx.fail("op:umodes", "MODE %s shows %r, reference %r" % (u.nick, md, "".join(sorted(u.m))))
            want = u.sno if "s" in u.m and u.sno != (S_OPDEF if "o" in u.m else S_DEF) else None
            if sn != want:
                ctx.fail("op:snomask", "MODE %s shows server notice mask %r, reference %r" % (u.nick, sn, want))
            ctx.ev()
        g = self.adm.take()
        pv = {m.args[1].split()[0]: set(m.args[-1].split()) for m in g if m.cmd == "270" and len(m.args) > 1}
        for u in loc:
            have = next((set(m.args[-1].replace(":", " ").split()) for m in g if m.cmd == "270" and m.args[1].split()[0] == u.nick), None)
            if have is None or have - {u.nick} != u.privs:
                ctx.fail("op:privs", "PRIVS of %s lacks %r and has extra %r" % (u.nick, sorted(u.privs - (have or set())), sorted((have or set()) - u.privs - {u.nick})))
        n = next((int(m.args[1]) for m in g if m.cmd == "252"), 0)
        want = sum("o" in u.m for u in self.users if not u.gone)
        if n != want:
            ctx.fail("op:count", "LUSERS counts %d operators, reference %d" % (n, want))
        # (an operator with SEE_OPERS sees all, others those with DISPLAY)
        og = self.obs.take()
        for u in loc + self.remote():
            for who, l, want in (("operator", g, u.an), ("user", og, u.an and (u.far is not None or "DISPLAY" in u.privs))):
                have = any(m.cmd == "313" and m.args[1] == u.nick for m in l)
                if have != want:
                    ctx.fail("op:whois", "WHOIS shows a%s %s %s operator, reference %s" % ("n" if who == "operator" else "", who, u.nick + (" as an" if have else " as no"), want))
        ctx.ev()

    def remote(self):
        return [u for u in self.users if u.far and not u.gone]

    # -- main
    def run(self):
        ctx, r = self.ctx, self.r
        self.setup()
        s = self.s
        self.leave, self.seen, self.users, self.n = {}, [], [], 0
        self.fa, self.fb = kit.peer(s), kit.peer(s, "fb.test.net", 6, "10.200.0.2")
        for i, n in enumerate(("svc.test.net", "uw.test.net", "other.test.net")):
            self.fa.send("AF S %s 2 0 %d P10 %s]]] +s :x" % (n, s.now, p10.enc(20 + i, 2)))
        self.settle()
        self.adm = kit.register(s, "adm", "10.0.0.9")
        self.obs = kit.register(s, "obs", "10.0.0.8")
        self.adm.send("OPER adm admpass")
        self.settle()
        a = U("adm")
        a.m, a.c = {"o", "w", "s", "g"}, None
        self.users.append(a)
        self.adm.take()
        for f in (self.fa, self.fb):
            self.uid_adm = next(m.args[-2] for m in f.take() if m.cmd == "N" and m.args[0] == "adm")
        for i in range(3):
            self.newlocal()
        for f, nk in ((self.fa, "far"), (self.fb, "fbr"), (self.fb, "fbx"), (self.fa, "svc")):
            u = U(nk, f.add_user(nk, modes="k" if nk == "svc" else r.choice(["", "o", "i"])))
            u.far = f
            u.m = {"k"} if nk == "svc" else set()
            self.users.append(u)
            self.settle()
            o = self.fb if f is self.fa else self.fa
            for m in o.take():
                if m.cmd == "N" and len(m.args) > 6 and m.args[5][0] == "+":
                    u.m = set(m.args[5][1:])
        self.fa.take(), self.fb.take()
        for ch in ("#chan", "#quar", "&loc"):
            self.obs.send("JOIN " + ch)
        self.obs.send("MODE &loc +i")
        self.settle()
        self.fa.take(), self.fb.take()
        self.obs.take()
        self.locmodes = {"i"}
        s.advance(40)
        self.settle()
        for k in range(r.randint(15, 40)):
            self.step()
            if r.random() < .3:
                self.compare()
            s.advance(r.choice([0, 0, 1, 2, 40]))
            self.settle()
            self.sweep()
        self.compare()
        if r.random() < .3:
            self.last()

    def sweep(self):
        for u in self.users:
            if u.c and not u.gone:
                u.c.pump()
                if u.c.eof:
                    self.ctx.fail("op:lost", "%s was disconnected: %r" % (u.nick, [m.raw for m in u.c.take()[-2:]]))

    def newlocal(self):
        self.n += 1
        u = U("u%d" % self.n)
        u.ip = self.r.choice(["10.1.0.1", "10.1.0.2", "10.2.0.1", "10.2.3.4", "10.9.0.1"])
        u.c = kit.register(self.s, u.nick, u.ip)
        self.settle()
        for f in (self.fa, self.fb):
            for m in f.take():
                if m.cmd == "N" and m.args[0] == u.nick:
                    u.uid = m.args[-2]
        u.c.take()
        self.users.append(u)
        return u

    def cmd(self, u, line):
        self.ctx.log("%s(%s) > %s" % (u.nick, "".join(sorted(u.m)), line))
        u.c.take()
        u.c.send(line)
        self.settle()
        return u.c.take()

    def gone(self, u, but=None):
        u.gone = True
        self.leave[u.uid] = but

    def step(self):
        r, ctx = self.r, self.ctx
        loc = [u for u in self.users if u.c and not u.gone]
        if len(loc) < 3:
            loc.append(self.newlocal())
        u = r.choice(loc)
        if not u.an and r.random() < .3:
            u = r.choice([x for x in loc if x.an] or loc)
        k = r.choice(["oper"] * 4 + ["umode"] * 4 + ["rumode"] * 2 + ["opmode", "kill", "kill", "kill", "chan", "chan", "set", "rehash", "die", "walk", "lmode", "lkick", "limit", "wallops", "nick", "ghost", "quit", "sopm", "sopm"])
        getattr(self, "do_" + k)(u)

    def reply(self, u, line, got, want, why=""):
        nums = [m.cmd for m in got]
        if want not in nums:
            self.ctx.fail("op:reply", "%s (%s, %s) sent %r and got %r, reference %s" % (u.nick, "".join(sorted(u.m)), "+".join(sorted(u.privs)), line, [m.raw for m in got][:4], want))

    def hostok(self, u, h):
        import ipaddress
        if h.startswith("zed"):
            return False      # nobody here has an ident
        h = h.split("@")[1]
        if "/" in h:
            return ipaddress.ip_address(u.ip) in ipaddress.ip_network(h)
        return h == "*" or u.ip == h or h.endswith("*") and u.ip.startswith(h[:-1])

    def do_oper(self, u):
        r, ctx = self.r, self.ctx
        b = r.choice(self.blocks)
        name, pw = b["name"], b["pw"]
        x = r.random()
        if x < .12:
            pw = r.choice(["bad", pw.upper(), pw + "x", pw[:-1], "$PLAIN$" + pw])
        elif x < .2:
            name = r.choice(["nobody", "adm", b["name"].upper(), "*", "op?"])
        line = "OPER %s %s" % (name, pw)
        got = self.cmd(u, line)
        if u.an:
            self.reply(u, line, got, "381")
            return self.expect({}, {}, line)
        # the block that counts is the last in the file with this name for this host (the first host within a block)
        # and whose class is not already filled by the operators it made
        m = [(z, h) for z in self.blocks for h in reversed(z["hosts"]) if lower(z["name"]) == lower(name) and self.hostok(u, h)]
        m = [(z, h) for z, h in m if sum(x.block is z and x.host == h for x in self.users if x.c and not x.gone) < self.maxlinks[z["cls"]] + (z["cls"] == "Opers")]
        z, h = m[-1] if m else (None, None)
        if z is None:
            ctx.count("oper bad")
            self.reply(u, line, got, "491")
        elif z["fp"]:
            ctx.count("fingerprint")
            if any(g.cmd == "381" for g in got):
                ctx.fail("op:fingerprint", "%s became an operator by %r without the block's certificate fingerprint" % (u.nick, line))
        elif z["pw"] != pw:
            ctx.count("oper bad")
            self.reply(u, line, got, "464")
        elif sum(x.c is not None and not x.gone and x.block is not None and x.block["cls"] == z["cls"] for x in self.users) >= self.maxlinks[z["cls"]]:
            ctx.count("class full")
            self.reply(u, line, got, "491")
        else:
            ctx.count("oper ok")
            self.reply(u, line, got, "381")
            old = set(u.m)
            u.m |= {"w", "s", "g"}
            u.m.add("O")
            self.grant(u, z)
            u.host = h
            if "PROPAGATE" in u.privs:
                u.m = u.m - {"O"} | {"o"}
            u.sno |= S_OPDEF
            self.told(u, got, old)
            return self.expect({}, {u.uid: self.changes(old, u.m, "PROPAGATE" in u.privs)}, line)
        if any(g.cmd in ("381", "MODE") for g in got):
            ctx.fail("op:refused", "%s got %r for %r" % (u.nick, [g.raw for g in got], line))
        self.expect({}, {}, line)

    def told(self, u, got, old):
        have = set()
        for m in got:
            if m.cmd == "MODE" and m.args[0] == u.nick:
                sg = "+"
                for ch in m.args[-1]:
                    if ch in "+-":
                        sg = ch
                    else:
                        have.add(sg + ch)
        want = {"+" + x for x in u.m - old} | {"-" + x for x in old - u.m}
        if have != want:
            self.ctx.fail("op:umode", "%s was told %r, reference %r" % (u.nick, have, want))

    def do_umode(self, u):
        r, ctx = self.r, self.ctx
        args = ["".join(r.choice("++-" + ALLMODES + "iwsgd") for _ in range(r.randint(1, 6)))]
        if r.random() < .4:
            args = [r.choice(["+s", "-s", "s", "+s-s", "-o+s", "+os"]), r.choice(["65535", "+4", "-4", "0", "262143", "+16384", "-1", "8193"])]
        elif r.random() < .25:
            args = [r.choice(["-o", "-O", "-o+o", "-O+O", "-o+O", "+o", "+O", "+k", "-oO+w", "+z", "+oOk", "-w+w", "-g", "-s"])]
        elif r.random() < .2:
            args = [args[0].replace("z", "").replace("s", "") or "+i", r.choice(["+i", "-i", "-w", "+g"])]
        if "r" in args[0] or "x" in args[0]:
            args[0] = args[0].replace("r", "").replace("x", "") or "+i"
        if args[0][0] not in "+-" and r.random() < .5:
            args[0] = "+" + args[0]
        line = "MODE %s %s" % (u.nick, " ".join(args))
        if r.random() < .1:
            o = r.choice([x for x in self.users if not x.gone and x is not u])
            line = "MODE %s +o" % o.nick
            got = self.cmd(u, line)
            self.reply(u, line, got, "502")
            return self.expect({}, {}, line)
        got = self.cmd(u, line)
        was, (old, prop, given) = u.an, self.umode(u, args)
        ctx.count("umode")
        if given:
            ctx.count("snomask")
        if was and not u.an:
            ctx.count("deop")
        ctx.seen("umode %s %s %s" % ("".join(sorted(old)), "".join(sorted(u.m)), given))
        self.told(u, got, old)
        self.expect({}, {u.uid: self.changes(old, u.m, prop)}, line)

    def do_rumode(self, u):
        """A remote user's own change, told by its server."""
        r, ctx = self.r, self.ctx
        u = r.choice([x for x in self.remote() if x.nick != "svc"] or [None])
        if u is None:
            return
        md = r.choice(["+o", "-o", "+i", "-i", "+w", "+o-i", "-o+w", "+d", "+g", "+oi", "+R-R", "-oO", "+I", "+c"])
        line = "%s M %s :%s" % (u.uid, u.nick, md)
        ctx.log(line)
        u.far.send(line)
        self.settle()
        old = set(u.m)
        sg = "+"
        for ch in md:
            if ch in "+-":
                sg = ch
            elif ch == "O" and sg == "-":
                u.m -= {"o"}
            elif sg == "-":
                u.m.discard(ch)
            elif ch != "O":
                u.m.add(ch)
        if ("o" in old) != ("o" in u.m):
            ctx.count("remote oper" if "o" in u.m else "remote deop")
        self.expect({u.uid: (self.fb if u.far is self.fa else self.fa,)}, {u.uid: self.changes(old, u.m)}, line)

    def do_sopm(self, u):
        """A server opers or deopers a local (or somebody else's) user."""
        r, ctx = self.r, self.ctx
        src = r.choice(["svc"] * 4 + ["uw", "other", "fa", "user"])
        md = r.choice(["+o", "+o", "-o", "-o", "+w", "+O"])
        if r.random() < .15:
            u = r.choice([x for x in self.remote() if x.far is self.fb] or [u])
        pre = {"svc": p10.enc(20, 2), "uw": p10.enc(21, 2), "other": p10.enc(22, 2), "fa": "AF", "user": next((x.uid for x in self.remote() if x.far is self.fa), "AF")}[src]
        line = "%s OM %s %s" % (pre, u.uid, md)
        ctx.log(line)
        self.fa.send(line)
        self.settle()
        if u.far:
            want = {} if src == "user" else {"OM " + u.uid: {md}}
            return self.expect({"OM " + u.uid: (self.fb,)}, want, line)
        got = u.c.take()
        old = set(u.m)
        prop = "PROPAGATE" in u.privs
        if src == "svc" and md == "+o" and "o" not in u.m:
            ctx.count("opmode +o")
            u.m |= {"o", "w", "s", "g"}
            u.m.discard("O")
            self.grant(u, None)
            u.sno |= S_OPDEF
            prop = "PROPAGATE" in u.privs
            self.reply(u, line, got, "381")
        elif src == "svc" and md == "-o" and "o" in u.m:
            ctx.count("opmode -o")
            u.m.discard("o")
            if self.wop:
                u.m.discard("w")
            if self.dop:
                u.m.discard("g")
            if self.sop:
                u.m.discard("s")
                u.sno = 0
            u.sno &= S_USER
            u.privs, u.block = set(), None
            prop = True
        elif src != "svc":
            ctx.count("server oper refused")
        self.told(u, got, old)
        self.expect({}, {u.uid: self.changes(old, u.m, prop)}, line)

    def need(self, u, line, priv, ok=None, denied="481"):
        """Sends a command that takes a privilege; returns whether it was to be accepted, and the answer."""
        got = self.cmd(u, line)
        have = u.an and priv in u.privs
        nums = [m.cmd for m in got]
        name = line.split()[0]
        self.ctx.seen("%s %s %s" % (name, priv, have))
        if not u.an:
            self.ctx.count("not an oper")
        if have and denied in nums:
            self.ctx.fail("op:denied", "%s has %s (%s) but was refused %r: %r" % (u.nick, priv, "".join(sorted(u.m)), line, [m.raw for m in got][:3]))
        if not have and denied not in nums:
            self.ctx.fail("op:permitted", "%s lacks %s (modes %s, privileges %r) but %r was answered %r" % (u.nick, priv, "".join(sorted(u.m)), sorted(u.privs), line, [m.raw for m in got][:3]))
        return have, got

    def do_kill(self, u):
        r, ctx = self.r, self.ctx
        x = r.random()
        if x < .1:
            line = "KILL %s :x" % r.choice(["fa.test.net", "svc.test.net", "hub.test.net"])
            p = "LOCAL_KILL" if "hub" in line or "fa." in line else "KILL"
            have, got = self.need(u, line, p)
            if have:
                ctx.count("kill server")
                self.reply(u, line, got, "483")
        elif x < .15:
            line = "KILL nobody :x"
            got = self.cmd(u, line)
            self.reply(u, line, got, "401" if u.an else "481")
        elif x < .25:
            line = "KILL svc"
            have, got = self.need(u, "KILL svc :x", "KILL")
            if have:
                ctx.count("kill service")
                self.reply(u, "KILL svc", got, "484")
        else:
            v = r.choice([z for z in self.users if not z.gone and z.nick not in ("adm", "svc")])
            p = "KILL" if v.far else "LOCAL_KILL"
            nick = v.nick
            if v.old and r.random() < .6:
                nick = v.old[0]
            chase = nick != v.nick
            if chase and self.s.now - v.old[1] > 28:
                return
            line = "KILL %s :%s" % (nick, r.choice(["bye", "a reason", ":x"]))
            was = u is v
            self.ctx.log("%s(%s) > %s" % (u.nick, "".join(sorted(u.m)), line))
            u.c.take()
            u.c.send(line)
            self.settle()
            got = u.c.take()
            have = u.an and p in u.privs
            if have:
                ctx.count("kill ok")
                if chase:
                    ctx.count("kill chase")
                if v.c:
                    v.c.pump()
                    if not v.c.eof:
                        ctx.fail("op:kill", "%s survived %r by %s" % (v.nick, line, u.nick))
                    vl = v.c.take() if not was else got
                    if not any(m.cmd == "KILL" for m in vl) or not any(m.cmd == "ERROR" for m in vl):
                        ctx.fail("op:kill", "the victim of %r got %r" % (line, [m.raw for m in vl][-3:]))
                self.gone(v)
            else:
                ctx.count("kill denied")
                self.reply(u, line, got, "481")
        self.expect({}, {}, line)

    old = None

    def rename(self, u):
        """Whether a nick change of u is not too fast."""
        if u.c:
            if self.s.now < u.nextnick:
                return False
            u.nextnick = max(u.nextnick + 30, self.s.now)
        return True

    def do_ghost(self, u):
        """KILL with an old nick of a user that has left must not hit whoever came since."""
        r = self.r
        v = r.choice([x for x in self.users if not x.gone and x.nick not in ("adm", "svc")])
        names = []
        for _ in range(r.choice([1, 2, 2, 3])):
            if not self.rename(v):
                break
            self.n += 1
            old, new = v.nick, "g%d" % self.n
            if v.far:
                v.far.send("%s N %s %d" % (v.uid, new, self.s.now))
            else:
                v.c.send("NICK " + new)
            self.settle()
            v.old, v.nick = (old, self.s.now), new
            names.append(old)
            self.ctx.log("%s is now %s" % (old, new))
            self.expect({}, {}, "NICK")
            if r.random() < .5:
                self.s.advance(2)
        if not names:
            return
        names.append(v.nick)
        if v.far:
            v.far.send("%s Q :bye" % v.uid)
            self.settle()
            self.gone(v, v.far)
        else:
            v.c.send("QUIT :x")
            self.settle()
            self.gone(v)
        self.ctx.log("%s quits" % v.nick)
        self.expect({}, {}, "QUIT")
        for _ in range(r.choice([0, 1, 2])):
            self.newlocal()
        ops = [x for x in self.users if x.c and not x.gone and x.an]
        if not ops:
            return
        u = r.choice(ops)
        for nick in r.sample(names, r.randint(1, len(names))):
            line = "KILL %s :x" % nick
            got = self.cmd(u, line)
            if {"KILL", "LOCAL_KILL"} & set(u.privs):
                self.ctx.count("kill ghost")
                self.reply(u, line, got, "401")
            for x in self.users:
                if x.c and not x.gone and x.c.eof:
                    self.ctx.fail("op:kill", "%r, an old nick of %s which had left, ended the connection of %s" % (line, v.nick, x.nick))
            self.expect({}, {}, line)

    def do_nick(self, u):
        r = self.r
        u = r.choice([x for x in self.users if not x.gone and x.nick not in ("adm", "svc")])
        if not self.rename(u):
            return
        new = "z%d" % self.s.now if r.random() < .5 else "y%d" % self.n
        self.n += 1
        if any(x.nick == new for x in self.users):
            return
        if u.far:
            u.far.send("%s N %s %d" % (u.uid, new, self.s.now))
        else:
            u.c.send("NICK " + new)
        self.settle()
        if u.c and not any(m.cmd == "NICK" and m.args[0] == new for m in u.c.take()):
            return
        self.ctx.log("%s is now %s" % (u.nick, new))
        u.old, u.nick = (u.nick, self.s.now), new
        self.expect({}, {}, "NICK")

    def do_quit(self, u):
        if self.r.random() < .5:
            return
        u.c.send("QUIT :x")
        self.settle()
        self.gone(u)
        self.expect({}, {}, "QUIT of %s" % u.nick)

    def do_opmode(self, u):
        self.do_chan(u)

    def do_chan(self, u):
        """OPMODE and CLEARMODE."""
        r, ctx = self.r, self.ctx
        ch = r.choice(["#chan", "#chan", "#quar", "&loc"])
        force = r.random() < .4
        loc = ch[0] == "&"
        k = r.choice(["OPMODE", "CLEARMODE"])
        on = r.choice("+-")
        line = "%s %s%s %s" % (k, "!" if force else "", ch, on + "m" if k == "OPMODE" else "m")
        p = "LOCAL_OPMODE" if loc else "OPMODE"
        fp = "FORCE_LOCAL_OPMODE" if loc else "FORCE_OPMODE"
        before = self.mode(ch)
        self.seen = []
        got = self.cmd(u, line)
        have = u.an and p in u.privs and (not force or fp in u.privs)
        if not have:
            ctx.count("opmode denied")
            self.reply(u, line, got, "481")
        elif ch == "#quar" and not force:
            ctx.count("quarantine")
            self.reply(u, line, got, "524")
            have = False
        ctx.seen("%s %s %s %s" % (k, ch, force, have))
        after = self.mode(ch)
        want = set(before)
        if have:
            ctx.count("opmode" if k == "OPMODE" else "clearmode")
            want = want | {"m"} if on == "+" and k == "OPMODE" else want - {"m"}
        if after != want:
            ctx.fail("op:opmode", "%s (%s; %s) sent %r: the channel's modes went from %r to %r, reference %r" % (u.nick, "".join(sorted(u.m)), "+".join(sorted(u.privs)), line, sorted(before), sorted(after), sorted(want)))
        self.expect({}, {}, line)
        tell = [(f, m) for f, m in self.seen if m.cmd in ("OM", "CM") and m.src == u.uid]
        n = 2 if have and not loc and (k == "CLEARMODE" or True) and (k == "CLEARMODE" or want != before or on == "+" or True) else 0
        if not have and tell or have and loc and tell:
            ctx.fail("op:opmode-told", "%r was told to other servers: %r" % (line, tell[0][1].raw))
        if have and not loc and want != before and len(tell) != 2:
            ctx.fail("op:opmode-told", "%r was not told to both other servers: %r" % (line, [(f.name, m.raw) for f, m in tell]))

    def mode(self, ch):
        self.obs.take()
        self.obs.send("MODE " + ch)
        self.settle()
        return next((set(m.args[2][1:]) for m in self.obs.take() if m.cmd == "324"), None)

    def do_set(self, u):
        r, ctx = self.r, self.ctx
        v = r.choice(["100", "120", "77"])
        k = r.choice(["SET HANGONRETRYDELAY " + v, "SET HANGONRETRYDELAY " + v, "RESET HANGONRETRYDELAY"])
        have, got = self.need(u, k, "SET")
        ctx.count("set" if have else "set denied")
        if have:
            self.awaylen = v if k.startswith("SET") else "10"
        self.adm.take()
        self.adm.send("GET HANGONRETRYDELAY")
        self.settle()
        g = [m.raw for m in self.adm.take() if "HANGONRETRYDELAY" in m.raw]
        if len(g) != 1 or self.awaylen not in g[0].split("HANGONRETRYDELAY")[1]:
            ctx.fail("op:set", "after %r by %s (%s) GET shows %r, reference %s" % (k, u.nick, have, g, self.awaylen))
        self.expect({}, {}, k)

    awaylen = "10"

    def do_rehash(self, u):
        have, got = self.need(u, "REHASH m", "REHASH")
        self.ctx.count("rehash" if have else "rehash denied")
        if have:
            self.reply(u, "REHASH m", got, "382")
        self.expect({}, {}, "REHASH")

    def do_die(self, u):
        p = self.r.choice(["DIE", "RESTART"])
        if u.an and p in u.privs:
            return
        self.need(u, p, p)
        self.ctx.count("die denied")
        self.expect({}, {}, p)

    def last(self):
        """A privileged DIE as the last act."""
        u = next((x for x in self.users if x.c and not x.gone and x.an and "DIE" in x.privs), None)
        if u is None:
            return
        u.c.send("DIE")
        for _ in range(50):
            if self.s.proc.poll() is not None:
                break
            try:
                self.s.sync()
            except Exception:
                break
        self.ctx.count("die")

    def do_walk(self, u):
        """JOIN with the key OVERRIDE."""
        if "&loc" in u.chans:
            u.c.send("PART &loc")
            u.chans.discard("&loc")
            self.settle()
            u.c.take()
        line = "JOIN &loc OVERRIDE"
        full = len(u.chans) >= self.maxch and not (u.an and "CHAN_LIMIT" in u.privs)
        got = self.cmd(u, line)
        inv = "i" in self.mode("&loc")
        have = u.an and "WALK_LCHAN" in u.privs
        if full:
            return self.reply(u, line, got, "405")
        if inv and not have:
            self.ctx.count("walk denied")
            self.reply(u, line, got, "473")
        elif not inv and have:
            self.reply(u, line, got, "516")
        else:
            self.ctx.count("walk")
            self.reply(u, line, got, "JOIN")
            u.chans.add("&loc")
        self.expect({}, {}, line)

    def do_lmode(self, u):
        """MODE on a local channel one is not an operator of."""
        before = self.mode("&loc")
        md = self.r.choice(["+i", "-i", "+t", "-t", "+n"])
        line = "MODE &loc " + md
        got = self.cmd(u, line)
        have = u.an and "MODE_LCHAN" in u.privs
        want = set(before)
        if have:
            (want.add if md[0] == "+" else want.discard)(md[1])
            self.ctx.count("lchan mode")
        else:
            self.ctx.count("lchan mode denied")
            if not any(m.cmd in ("482", "442") for m in got):
                self.reply(u, line, got, "482")
        if self.mode("&loc") != want:
            self.ctx.fail("op:lmode", "%s (%s; MODE_LCHAN %s) sent %r: modes went from %r to %r" % (u.nick, "".join(sorted(u.m)), have, line, before, self.mode("&loc")))
        self.expect({}, {}, line)

    def do_lkick(self, u):
        """The channel operator removes an operator from a local channel."""
        m = [x for x in self.users if x.c and not x.gone and "&loc" in x.chans]
        if not m:
            return
        v = self.r.choice(m)
        safe = v.an and "DEOP_LCHAN" in v.privs
        self.obs.take()
        self.obs.send("KICK &loc " + v.nick)
        self.settle()
        g = self.obs.take()
        self.ctx.count("lchan kick")
        kicked = any(x.cmd == "KICK" for x in g)
        if kicked == safe:
            self.ctx.fail("op:lkick", "KICK of %s (%s, DEOP_LCHAN %s) from &loc: %r" % (v.nick, "".join(sorted(v.m)), safe, [x.raw for x in g]))
        if kicked:
            v.chans.discard("&loc")
        self.expect({}, {}, "KICK")

    def do_limit(self, u):
        for _ in range(self.r.randint(1, 4)):
            self.limit(u)

    def limit(self, u):
        """More channels than users may join."""
        free = u.an and "CHAN_LIMIT" in u.privs
        ch = "#lim%d" % self.r.randrange(8)
        if self.r.random() < .3 and u.chans - {"&loc"}:
            ch = sorted(u.chans - {"&loc"})[0]
            u.c.send("PART " + ch)
            u.chans.discard(ch)
            self.settle()
            u.c.take()
            return self.expect({}, {}, "PART")
        if ch in u.chans:
            return
        line = "JOIN " + ch
        got = self.cmd(u, line)
        if len(u.chans) >= self.maxch and not free:
            self.ctx.count("limit exceeded")
            self.reply(u, line, got, "405")
        else:
            if len(u.chans) >= self.maxch:
                self.ctx.count("limit")
            self.reply(u, line, got, "JOIN")
            u.chans.add(ch)
        self.expect({}, {}, line)

    def do_wallops(self, u):
        self.adm.take()
        for x in self.users:
            if x.c and not x.gone:
                x.c.take()
        line = "WALLOPS :hello"
        self.seen = []
        got = self.cmd(u, line)
        heard = {x.nick for x in self.users if x.c and not x.gone and x is not u and any(m.cmd == "WALLOPS" for m in x.c.take())}
        if any(m.cmd == "WALLOPS" for m in got):
            heard.add(u.nick)
        if any(m.cmd == "WALLOPS" for m in self.adm.take()):
            heard.add("adm")
        if u.an:
            self.ctx.count("wallops")
        else:
            self.reply(u, line, got, "481")
        want = {x.nick for x in self.users if not x.far and not x.gone and "w" in x.m and x.an} if u.an else set()
        if heard != want:
            self.ctx.fail("op:wallops", "WALLOPS by %s (%s) was heard by %r, reference %r" % (u.nick, "".join(sorted(u.m)), sorted(heard), sorted(want)))
        self.expect({}, {}, line)
        n = sum(m.cmd == "WA" for f, m in self.seen)
        if n != (2 if u.an else 0):
            self.ctx.fail("op:wallops", "WALLOPS by %s was told to %d servers" % (u.nick, n))


U.old, U.nextnick = None, 0
