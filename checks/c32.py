"""SASL login and network configuration: capability, mechanisms, sessions, timeouts, the account that results, CF records"""
import kit, vsim, p10
from masks import lower
PROPERTY = "C32"
RULE = ("connections (before and after registration) run SASL exchanges against a scripted login service that answers well, badly, late, twice and for finished sessions, while the service's server splits and returns and the network "
        "configuration changes with older and newer times; everything the clients, the service and the other servers receive is compared with a reference; distinct counts (operation, session state, outcome)")
ASSUMPTIONS = ["account information in service replies is well formed (name[:id[:flags]] [+x])", "no TLS library in this build"]
MUST_SEE = ["start", "continue", "abort", "timeout", "mechs", "unavailable", "already", "toolong", "ok:unreg", "ok:user", "no", "challenge", "stale reply", "introduced with account", "cap new", "cap del", "cf set", "cf old", "cf delete", "cf burst", "split", "return",
            "left in session", "forwarded reply", "account", "account refused", "hidden"]
MECHS = ["PLAIN", "EXTERNAL", "SCRAM-SHA-256", "X"]


def plan(tier, seed):
    return [{"seed": seed, "i": i} for i in range(2200 if tier == "quick" else 40000)]


class C:
    """A connection and what it has been through."""
    cap = notify = v302 = reg = sasl = gone = False
    cookie = deadline = acc = nick = uid = None
    hidden = waiting = False
    aid = afl = 0


def run_case(ctx, p):
    X(ctx).run()


class X:
    def __init__(self, ctx):
        self.ctx, self.r = ctx, ctx.rng

    def settle(self):
        kit.settle(self.s, [f for f in (self.fa, self.fb) if f])

    # -- reference of the network configuration
    def cf(self, key, val, ts):
        """Whether a change counts."""
        k = key.lower()
        old = self.conf.get(k)
        if not val:
            if not old or ts <= old[1]:
                return False
            del self.conf[k]
            return True
        if old and ts <= old[1]:
            return False
        self.conf[k] = (val, ts, old[2] if old else key)
        return True

    def get(self, k, d=""):
        return self.conf.get(k, (d,))[0]

    def service(self):
        n = self.get("sasl.server")
        return n and self.up.get(n)

    def available(self):
        return bool(self.service() and self.get("sasl.mechanisms"))

    def mechs(self):
        return [x.strip().lower() for x in self.get("sasl.mechanisms").split(",")]

    # -- main
    def run(self):
        ctx, r = self.ctx, self.r
        self.hide = r.random() < .4
        self.s = s = ctx.ircd(vsim.conf(ports=((6667, ""), (4400, "server=yes")),
                                        classes=['name = "Local"; pingfreq = 1000 minutes; sendq = 160000; maxflood = 60000; maxlinks = 250;', 'name = "Server"; pingfreq = 1000 minutes; sendq = 9000000; maxlinks = 40;'],
                                        clients=['ip = "*"; class = "Local";'], opers=[],
                                        connects=['name="f%s.test.net"; host="10.200.0.%d"; password="testpass"; class="Server"; hub; autoconnect=no' % (x, i) for i, x in ((1, "a"), (2, "b"))],
                                        uworld=['name = "sasl.test.net"', 'name = "alt.test.net"'],
                                        features={"HOST_HIDING": "TRUE" if self.hide else "FALSE", "HIDDEN_HOST": "users.test", "CONNECTTIMEOUT": "10000", "CAP_SASL": "TRUE"}))
        self.conf, self.up, self.cs, self.n, self.old, self.was = {}, {}, [], 0, [], False
        self.servs = {"sasl.test.net": p10.enc(20, 2), "alt.test.net": p10.enc(21, 2)}
        self.fb = None
        self.fa = kit.peer(s)
        self.fb = kit.peer(s, "fb.test.net", 6, "10.200.0.2")
        self.obs = kit.register(s, "obs", "10.0.0.8", wait=0)
        self.settle()
        self.fa.take(), self.fb.take()
        if r.random() < .8:
            self.do_return("sasl.test.net")
            self.send_cf(self.fa, "sasl.server", "sasl.test.net", s.now)
            self.send_cf(self.fa, "sasl.mechanisms", r.choice(["PLAIN", "PLAIN,EXTERNAL", "PLAIN,SCRAM-SHA-256"]), s.now)
            if r.random() < .7:
                self.send_cf(self.fa, "sasl.timeout", str(r.choice([5, 20, 60])), s.now)
        for _ in range(3):
            self.connect()
        for k in range(r.randint(20, 60)):
            self.step()
        self.check_burst()

    def step(self):
        r = self.r
        live = [c for c in self.cs if not c.gone]
        if len(live) < 3 or len(live) < 7 and r.random() < .08:
            return self.connect()
        c = r.choice(live)
        ses = [x for x in live if x.cookie]
        k = r.choice(["auth"] * 7 + ["reply"] * 7 + ["time"] * 3 + ["cf"] * 3 + ["cap", "cap", "register", "register", "quit", "split", "stale", "account", "fwd", "relink", "authall", "authall", "list"])
        if k == "auth":
            return self.do_auth(c)
        if k in ("auth", "authall") and r.random() < .6:
            c = r.choice([x for x in live if x.cap and not x.sasl and not x.acc] or [c])
        if k == "auth" and ses and r.random() < .3:
            c = r.choice(ses)
        if k == "authall":
            return self.do_auth(c, r.choice(MECHS))
        if k == "reply":
            return self.do_reply(r.choice(ses)) if ses else self.do_auth(c)
        if k == "split":
            n = r.choice(sorted(self.servs))
            return self.do_split(n) if n in self.up and r.random() < .6 else self.do_return(n) if n not in self.up else None
        self.tick(2)
        getattr(self, "do_" + k)(*([c] if k in ("cap", "list", "register", "quit", "account") else []))

    # -- watching
    def drain(self, f, *skip):
        return [m for m in f.take() if m.cmd not in ("G", "Z")] if f else []

    def quiet(self, why, but=()):
        self.ctx.ev()
        self.quiet1(why, but)

    def quiet1(self, why, but):
        self.settle()
        for f in (self.fa, self.fb):
            for m in self.drain(f):
                if why == "a refused AC" and m.cmd in ("DS", "WA"):
                    continue            # the operators' notice about it
                self.ctx.fail("sasl:told", "%s: %s was sent %r" % (why, f.name, m.raw))
        for c in self.cs:
            if not c.gone and c not in but:
                for m in c.c.take():
                    if m.cmd not in ("PING",) and not (why == "a refused AC" and m.cmd == "NOTICE"):
                        self.ctx.fail("sasl:client", "%s: %s received %r" % (why, c.nick or c.n, m.raw))

    def caps(self, why):
        """CAP NEW and DEL follow the availability of the login service."""
        now = self.available()
        if now != self.was:
            self.ctx.count("cap new" if now else "cap del")
            for c in self.cs:
                if c.gone:
                    continue
                got = [m for m in c.c.take() if m.cmd != "PING"]
                want = 1 if c.reg and c.notify else 0
                mine = [m for m in got if m.cmd == "CAP" and m.args[1] == ("NEW" if now else "DEL") and m.args[2].split("=")[0] == "sasl"]
                if len(mine) != want or len(got) != want:
                    self.ctx.fail("sasl:cap", "%s: %s (registered %s, cap-notify %s) received %r" % (why, c.nick or c.n, c.reg, c.notify, [m.raw for m in got]))
                if want and now and c.v302 and mine[0].args[2] != "sasl=" + self.lastmechs:
                    self.ctx.fail("sasl:cap", "%s: %r does not list the mechanisms %r" % (why, mine[0].raw, self.lastmechs))
                if want and not now:
                    c.cap = False
        self.was = now

    lastmechs = ""

    # -- operations
    def connect(self):
        r = self.r
        c = C()
        self.n += 1
        c.n, c.ip = self.n, "10.1.0.%d" % self.n
        c.c = self.s.connect(c.ip, 6667)
        self.cs.append(c)
        c.v302 = r.random() < .5
        c.c.send("CAP LS 302" if c.v302 else "CAP LS")
        c.notify = c.v302
        self.settle()
        ls = " ".join(m.args[-1] for m in c.c.take() if m.cmd == "CAP").split()
        want = ("sasl=" + self.get("sasl.mechanisms").split()[0] if c.v302 else "sasl") if self.available() else None
        have = [x for x in ls if x.split("=")[0] == "sasl"]
        if have != ([want] if want else []):
            self.ctx.fail("sasl:ls", "CAP LS shows %r, reference %r" % (have, want))
        if not c.v302 and r.random() < .5:
            c.notify = True
            c.c.send("CAP REQ :cap-notify")
            self.settle()
            c.c.take()
        if r.random() < .85:
            self.do_cap(c, False)
        self.tick(8)
        if r.random() < .35:
            self.do_register(c)
        self.quiet("connect")

    def list(self, c):
        """CAP LIST shows sasl while the client has it."""
        c.c.send("CAP LIST")
        self.settle()
        got = [m for m in c.c.take() if m.cmd != "PING"]
        if len(got) != 1 or got[0].cmd != "CAP" or ("sasl" in got[0].args[-1].split()) != c.cap:
            self.ctx.fail("sasl:list", "CAP LIST of a client with sasl %s: %r" % (c.cap, [m.raw for m in got]))

    def do_cap(self, c, off=None):
        if off is None:
            off = c.cap and self.r.random() < .6
        c.c.send("CAP REQ :%ssasl" % ("-" if off else ""))
        self.settle()
        got = [m for m in c.c.take() if m.cmd != "PING"]
        ok = off or self.available()
        if len(got) != 1 or got[0].cmd != "CAP" or got[0].args[1] != ("ACK" if ok else "NAK") or got[0].args[2].strip() != ("-sasl" if off else "sasl"):
            self.ctx.fail("sasl:req", "CAP REQ of sasl (off %s, available %s): %r" % (off, self.available(), [m.raw for m in got]))
        if ok:
            c.cap = not off
        self.list(c)
        self.quiet("CAP REQ")

    def do_register(self, c):
        if c.reg:
            return
        while True:
            due = [x.deadline for x in self.cs if x.cookie and x.deadline <= self.s.now + 12]
            if not due:
                break
            self.tick(max(max(due) - self.s.now, 0) + 3)
        self.ctx.log("conn %d registers" % c.n)
        c.nick = "u%d" % c.n
        c.c.send("NICK " + c.nick)
        c.c.send("USER u 0 0 :real")
        c.c.send("CAP END")
        got = []
        for _ in range(8):
            self.settle()
            self.s.advance(1)
            got += c.c.take()
            if any(m.cmd in ("376", "422") for m in got):
                break
        self.settle()
        got += c.c.take()
        if not any(m.cmd == "001" for m in got):
            self.ctx.fail("sasl:register", "%s was not welcomed: %r" % (c.nick, [m.raw for m in got][-3:]))
        c.reg = True
        n900 = [m for m in got if m.cmd == "900"]
        if c.sasl and c.acc and (len(n900) != 1 or n900[0].args[2] != c.acc):
            self.ctx.fail("sasl:900", "%s logged in to %r and was told %r" % (c.nick, c.acc, [m.raw for m in n900]))
        if not c.sasl and n900:
            self.ctx.fail("sasl:900", "%s never logged in but was told %r" % (c.nick, n900[0].raw))
        for f in (self.fa, self.fb):
            ms = self.drain(f)
            n = [m for m in ms if m.cmd == "N"]
            if len(n) != 1 or len(ms) != 1:
                self.ctx.fail("sasl:intro", "%s heard %r when %s registered" % (f.name, [m.raw for m in ms], c.nick))
            c.uid = n[0].args[-2]
            a = n[0].args
            self.account_of(c, a, n[0].raw)
        if c.acc:
            self.ctx.count("introduced with account")

    def account_of(self, c, a, raw):
        md = a[5] if a[5][:1] == "+" and len(a) > 7 else ""
        if c.acc:
            w = c.acc + (":%d" % c.aid + (":%d" % c.afl if c.afl else "") if c.aid else "")
            if "r" not in md or a[6] != w:
                self.ctx.fail("sasl:intro", "%s logged in to %r and was introduced by %r" % (c.nick, w, raw))
        elif "r" in md:
            self.ctx.fail("sasl:intro", "%s has no account but was introduced by %r" % (c.nick, raw))
        if ("x" in md) != c.hidden:
            self.ctx.fail("sasl:intro", "%s (host hidden: %s) was introduced by %r" % (c.nick, c.hidden, raw))

    def do_auth(self, c, x=None):
        r, ctx = self.r, self.ctx
        if x is None:
            k = r.random()
            good = [m for m in MECHS if m.lower() in self.mechs()]
            x = r.choice((good if good and r.random() < .75 else MECHS) if k < .5 else ["*"] if k < .62 else ["+", "dGVzdA==", "data", "a" * 400]) if k < .92 else r.choice(["a" * 401, "b" * 450, "", "plain", "*x"])
        line = "AUTHENTICATE " + x if x else "AUTHENTICATE"
        ctx.log("%s > %s" % (c.nick or c.n, line[:60]))
        c.c.send(line)
        self.settle()
        got = [m for m in c.c.take() if m.cmd != "PING"]
        told = []
        sv = self.service()
        for f in (self.fa, self.fb):
            for m in self.drain(f):
                told.append((f, m))
        want, xq = None, None
        if not x:
            want = "461"
        elif not c.cap:
            pass
        elif c.sasl or c.acc:
            want = "907"
            ctx.count("already")
        elif not self.available():
            want = "904"
            ctx.count("unavailable")
        elif len(x) > 400:
            want = "905"
            ctx.count("toolong")
        elif x == "*":
            want = "906"
            if c.cookie:
                ctx.count("abort")
                self.old.append((c.cookie, c))
            c.cookie = None
        elif c.cookie is None:
            if lower(x) not in self.mechs():
                want = "908"
                ctx.count("mechs")
            else:
                ctx.count("start")
                xq = "%s%s" % (c.uid + " " if c.reg else c.ip + " _ ", x)
        else:
            ctx.count("continue")
            xq = x
        ctx.seen("auth %s %s %s %s" % (want, c.reg, c.cookie is not None, xq is not None))
        if [m.cmd for m in got] != ([want] if want else []):
            ctx.fail("sasl:answer", "%r (session %r, available %s, logged in %r) was answered %r, reference %s" % (line[:70], c.cookie, self.available(), c.acc or c.sasl, [m.raw[:100] for m in got], want))
        if want == "908" and got[0].args[1] != self.get("sasl.mechanisms"):
            ctx.fail("sasl:mechs", "%r lists mechanisms %r, reference %r" % (line, got[0].raw, self.get("sasl.mechanisms")))
        if xq is None:
            if told:
                ctx.fail("sasl:told", "%r was passed on as %r" % (line[:60], told[0][1].raw))
        else:
            if len(told) != 1 or told[0][0] is not self.fa:
                ctx.fail("sasl:query", "%r was passed on as %r" % (line[:60], [m.raw for f, m in told]))
            m = told[0][1]
            if m.cmd != "XQ" or len(m.args) != 3 or m.args[0] != sv or not m.args[1].startswith("sasl:") or m.args[2] != "SASL " + xq:
                ctx.fail("sasl:query", "%r was passed on as %r, reference SASL %s to %s" % (line[:60], m.raw, xq, sv))
            ck = m.args[1][5:]
            if c.cookie is None:
                if not ck.isdigit() or any(ck == o[0] for o in self.old) or any(ck == z.cookie for z in self.cs):
                    ctx.fail("sasl:cookie", "session %s reuses an identifier" % ck)
                c.cookie = ck
                c.deadline = self.s.now + int(self.get("sasl.timeout", "30"))
            elif ck != c.cookie:
                ctx.fail("sasl:cookie", "session %s continued as %s" % (c.cookie, ck))
        self.quiet(line[:60])
        self.tick(1 + len(line) // 60)

    def xr(self, cookie, text):
        line = "%s XR %s sasl:%s :%s" % (self.service() or self.servs["sasl.test.net"], "AB", cookie, text)
        self.ctx.log(line)
        self.fa.send(line)
        self.settle()

    def info(self):
        r = self.r
        a = "Acc%d" % r.randrange(1000) if r.random() < .9 else "TwelveLettrs"
        aid = r.choice([0, 0, r.randrange(1, 100000), 3000000000, 5000000000])
        afl = r.choice([0, 0, r.randrange(1, 65536), 4294967296 * 5]) if aid else 0
        t = a + (":%d" % aid if aid else "") + (":%d" % afl if afl else "")
        hide = bool(afl and r.random() < .5)
        return a, aid, afl, hide, t + (" +x" if hide else "")

    def do_reply(self, c):
        r, ctx = self.r, self.ctx
        if not self.service():
            return
        k = r.choice(["ok", "ok", "no", "sasl", "junk"])
        if k == "junk":
            self.xr(c.cookie, r.choice(["OKAY", "NOPE", "AGAIN x", "sas", "ok x"]))
            return self.quiet("a meaningless reply")
        if k == "sasl":
            ctx.count("challenge")
            x = r.choice(["+", "abcd", "a" * 400])
            self.xr(c.cookie, "SASL " + x)
            got = [m for m in c.c.take() if m.cmd != "PING"]
            if len(got) != 1 or got[0].cmd != "AUTHENTICATE" or got[0].args[0] != x:
                ctx.fail("sasl:challenge", "the service's challenge reached the client as %r" % [m.raw[:80] for m in got])
            return self.quiet("challenge")
        if k == "no":
            ctx.count("no")
            self.xr(c.cookie, "NO bad luck")
            got = [m for m in c.c.take() if m.cmd != "PING"]
            if [m.cmd for m in got] != ["904"] or "bad luck" not in got[0].raw:
                ctx.fail("sasl:no", "the refusal reached the client as %r" % [m.raw for m in got])
            self.old.append((c.cookie, c))
            c.cookie = None
            return self.quiet("refusal")
        a, aid, afl, hide, t = self.info()
        self.xr(c.cookie, "OK " + t)
        got = [m for m in c.c.take() if m.cmd != "PING"]
        self.old.append((c.cookie, c))
        c.cookie, c.sasl = None, True
        if c.reg:
            ctx.count("ok:user")
            if [m.cmd for m in got] != ["900", "903"]:
                ctx.fail("sasl:ok", "a user's success reached it as %r" % [m.raw for m in got])
            c.waiting = True
        else:
            ctx.count("ok:unreg")
            if [m.cmd for m in got] != ["903"]:
                ctx.fail("sasl:ok", "a connection's success reached it as %r" % [m.raw for m in got])
            c.acc, c.aid, c.afl, c.hidden = a, aid, afl, hide and self.hide
            if c.hidden:
                ctx.count("hidden")
        self.quiet("success")

    def do_stale(self):
        """Replies for sessions that are over."""
        r = self.r
        if not self.service():
            return
        live = {c.cookie for c in self.cs}
        ck = r.choice([o[0] for o in self.old if o[0] not in live] or ["999999", "0", "-1", "x"])
        self.ctx.count("stale reply")
        self.xr(ck, r.choice(["OK Evil:66", "OK Evil", "NO x", "SASL +"]))
        self.quiet("a reply for the finished session " + ck)

    def do_fwd(self):
        self.ctx.count("forwarded reply")
        self.fa.send("%s XR %s sasl:1 :OK Other" % ("AF", "AG"))
        self.settle()
        ms = self.drain(self.fb)
        if [(m.src, m.cmd, m.args) for m in ms] != [("AF", "XR", ["AG", "sasl:1", "OK Other"])]:
            self.ctx.fail("sasl:forward", "a reply for another server reached it as %r" % [m.raw for m in ms])
        self.quiet("a reply for another server")

    def do_account(self, c):
        """The service gives a registered user its account."""
        if not self.up.get("sasl.test.net"):
            return
        z = [x for x in self.cs if x.reg and not x.gone and x.waiting]
        if z:
            c = z[0]
        if not c.reg:
            return
        a, aid, afl, hide, t = self.info()
        if c.acc or self.r.random() < .15:
            # an account that is there stays, and only authorised servers give one
            self.ctx.count("account refused")
            src = self.up["sasl.test.net"] if c.acc and self.r.random() < .7 else "AF"
            if a == c.acc:
                a += "x"
            self.fa.send("%s AC %s %s%s%s" % (src, c.uid, a, " %d" % aid if aid else "",
                                              " %d" % afl if afl and aid else ""))
            self.settle()
            self.quiet1("a refused AC", [])
            return self.whois(c)
        w = "%s AC %s %s%s%s" % (self.up["sasl.test.net"], c.uid, a, " %d" % aid if aid else "", " %d" % afl if afl else "")
        self.ctx.log(w)
        self.ctx.count("account")
        self.fa.send(w)
        self.settle()
        ms = self.drain(self.fb)
        if len(ms) != 1 or " ".join([ms[0].src, ms[0].cmd] + ms[0].args) != w:
            self.ctx.fail("sasl:account", "%r was passed on as %r" % (w, [m.raw for m in ms]))
        c.acc, c.aid, c.afl, c.waiting = a, aid, afl, False
        self.quiet("AC", [])
        self.whois(c)

    def whois(self, c):
        self.obs.take()
        self.obs.send("WHOIS " + c.nick)
        self.settle()
        got = [m for m in self.obs.take() if m.cmd == "330"]
        if [m.args[2] for m in got] != ([c.acc] if c.acc else []):
            self.ctx.fail("sasl:whois", "WHOIS of %s with account %s shows %r" % (c.nick, c.acc, [m.raw for m in got]))

    def do_list(self, c):
        self.list(c)
        self.quiet("CAP LIST")

    def do_quit(self, c):
        if c.cookie:
            self.ctx.count("left in session")
            self.old.append((c.cookie, c))
            c.cookie = None
        self.ctx.log("%s leaves" % (c.nick or c.n))
        c.gone = True
        if self.r.random() < .5:
            c.c.send("QUIT :x")
        else:
            c.c.close()
        self.settle()
        for f in (self.fa, self.fb):
            ms = self.drain(f)
            if [m.cmd for m in ms] != (["Q"] if c.reg else []):
                self.ctx.fail("sasl:told", "%s heard %r when %s left" % (f.name, [m.raw for m in ms], c.nick))
        self.quiet("leaving")

    def do_time(self):
        self.tick(self.r.choice([1, 3, 10, 30, 70]))

    def tick(self, d):
        s = self.s
        t = s.now + d
        # what is due, in order; the exact second is avoided by a margin
        s.advance(d)
        self.settle()
        while any(c.cookie and t - 2 <= c.deadline <= t for c in self.cs):
            s.advance(1)
            t += 1
            self.settle()
        for c in self.cs:
            if c.cookie and c.deadline <= t:
                got = [m for m in c.c.take() if m.cmd != "PING"]
                self.ctx.count("timeout")
                if [m.cmd for m in got] != ["904"]:
                    self.ctx.fail("sasl:timeout", "session %s was due at %d; at %d %s received %r" % (c.cookie, c.deadline, t, c.nick or c.n, [m.raw for m in got]))
                self.old.append((c.cookie, c))
                c.cookie = None
        self.quiet("%d seconds" % d)

    def do_split(self, n):
        self.ctx.log("split " + n)
        num = self.up.pop(n)
        self.ctx.count("split")
        self.fa.send("%s SQ %s 0 :gone" % ("AF", n))
        self.settle()
        ms = self.drain(self.fb)
        if [m.cmd for m in ms] != ["SQ"]:
            self.ctx.fail("sasl:split", "the split of %s was told as %r" % (n, [m.raw for m in ms]))
        self.drain(self.fa)
        self.caps("split of " + n)
        self.quiet("split")

    def do_return(self, n):
        self.ctx.log("return " + n)
        num = self.servs[n]
        self.ctx.count("return")
        self.fa.send("AF S %s 2 0 %d J10 %s]]] +s :login service" % (n, self.s.now, num))
        self.fa.send("%s EB" % num)
        self.fa.send("%s EA" % num)
        self.settle()
        self.up[n] = num
        ms = self.drain(self.fb)
        if ms[0].cmd != "S":
            self.ctx.fail("sasl:return", "the return of %s was told as %r" % (n, [m.raw for m in ms]))
        self.drain(self.fa)
        self.caps("return of " + n)
        self.quiet("return")

    def send_cf(self, f, key, val, ts):
        ctx = self.ctx
        line = "%s CF %d %s%s" % (f.yy, ts, key, " :" + val if val else self.r.choice(["", " :"]))
        ctx.log(line)
        f.send(line)
        self.settle()
        o = self.fb if f is self.fa else self.fa
        ms = self.drain(o)
        had = key.lower() in self.conf
        ok = self.cf(key, val, ts)
        ctx.count("cf delete" if ok and not val else "cf set" if ok else "cf old")
        ctx.seen("cf %s %s %s" % (bool(val), had, ok))
        want = [("CF", [str(ts), key] + ([val] if val else []))] if ok else []
        if [(m.cmd, m.args) for m in ms] != want or any(m.src != f.yy for m in ms):
            ctx.fail("sasl:cf", "%r (known %s) was passed on as %r, reference %r" % (line, had, [m.raw for m in ms], want))
        if ok and val and key.lower() == "sasl.mechanisms":
            self.lastmechs = val
        self.caps(line)
        self.quiet(line)

    def do_cf(self):
        r = self.r
        key = r.choice(["sasl.server", "sasl.server", "sasl.mechanisms", "sasl.mechanisms", "sasl.timeout", "x.y", "some.key", "Some.Key"])
        val = {"sasl.server": ["sasl.test.net", "sasl.test.net", "alt.test.net", "none.test.net"], "sasl.mechanisms": ["PLAIN", "PLAIN,EXTERNAL", "X,PLAIN", "SCRAM-SHA-256"], "sasl.timeout": ["5", "20", "60"]}.get(key.lower(), ["a value", "b", ":c"])
        v = r.choice(val)
        if r.random() < .2:
            v = ""
        self.send_cf(r.choice([self.fa, self.fa, self.fb]), key, v, self.s.now - r.choice([0, 0, 0, 5, 1000, -10]))

    def do_relink(self):
        if self.r.random() < .5:
            self.check_burst()

    def check_burst(self):
        """Another server that links is sent every record."""
        self.ctx.count("cf burst")
        self.fb.close()
        self.settle()
        self.drain(self.fa)
        f = p10.FakeServer(self.s, "fb.test.net", 6, "10.200.0.2")
        f.hold_ea = True
        self.fb = f
        got = []
        self.settle()
        got += f.take()
        f.eob()
        for _ in range(30):
            self.settle()
            got += f.take()
            if f.eob_seen:
                break
        self.settle()
        got += f.take()
        cf = sorted((m.args[1], m.args[2], int(m.args[0])) for m in got if m.cmd == "CF")
        want = sorted((k, v, ts) for v, ts, k in self.conf.values())
        if cf != want:
            self.ctx.fail("sasl:burst", "the network configuration was sent as %r, reference %r" % (cf, want))
        for c in self.cs:
            if c.reg and not c.gone:
                n = [m for m in got if m.cmd == "N" and m.args[-2] == c.uid]
                if len(n) != 1:
                    self.ctx.fail("sasl:burst", "%s was introduced %d times" % (c.nick, len(n)))
                self.account_of(c, n[0].args, n[0].raw)
        self.drain(self.fa)
        self.quiet("relink")
