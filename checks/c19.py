"""Client capabilities and message tags: negotiation, gated message forms, server-time, account and client-only tags"""
import calendar, time
import kit, vsim, p10
from masks import lower
PROPERTY = "C19"
RULE = ("clients with randomly negotiated capabilities (before and after registration, with and without version 302) and users of another server talk, join, leave, go away, log in, change hosts and send tagged lines (escaped, denied, server-only, "
        "over-long tags); every line every client receives is compared in order with a reference: form, parameters, sender and tags; distinct counts (operation, recipient's capabilities, tag kinds)")
ASSUMPTIONS = ["at most 60 tags in a line and no tag key twice", "no spam filters, silences or target limits are in the way"]
MUST_SEE = ["req ack", "req nak", "req empty", "req remove", "ls", "ls302", "list", "wait for end", "refused tags", "417", "421", "401", "404", "echo", "private", "channel", "remote source", "to remote", "self", "denied tag", "server tag dropped", "escaped",
            "away", "back", "remote away", "ext join", "join away", "account", "chghost", "rejoin", "invite", "names", "nick", "topic", "kick", "part", "long tags", "time kept", "masked", "unknown cap command", "forwarded", "late end", "peer time"]
ALL = ["account-notify", "away-notify", "chghost", "echo-message", "extended-join", "invite-notify", "userhost-in-names", "message-tags", "server-time", "account-tag", "cap-notify"]
KEYS = ["typing", "x", "draft/reply", "reply", "vendor.tld/a", "b-c", "Z9"]


def unesc(v):
    o, i = "", 0
    while i < len(v):
        if v[i] == "\\":
            i += 1
            if i < len(v):
                o += {"s": " ", ":": ";", "\\": "\\", "r": "\r", "n": "\n"}.get(v[i], v[i])
        else:
            o += v[i]
        i += 1
    return o


def tagmap(t):
    d = {}
    if t is None:
        return d
    for x in t.split(";"):
        k, _, v = x.partition("=")
        if k in d:
            d[k + "*"] = "twice"
        d[k] = unesc(v)
    return d


def iso(t):
    return time.strftime("%Y-%m-%dT%H:%M:%S.000Z", time.gmtime(t))


def plan(tier, seed):
    return [{"seed": seed, "i": i} for i in range(3000 if tier == "quick" else 60000)]


def run_case(ctx, p):
    X(ctx).run()


class U:
    local = reg = v302 = False
    away = acc = None
    hidden = oper = False
    info = "real"

    def __init__(self):
        self.caps, self.exp = set(), []

    @property
    def full(self):
        return "%s!%s@%s" % (self.nick, self.user, self.host)


class X:
    def __init__(self, ctx):
        self.ctx, self.r = ctx, ctx.rng

    # -- setting up
    def run(self):
        ctx, r = self.ctx, self.r
        self.feat = f = {"HOST_HIDING": "TRUE", "HIDDEN_HOST": "users.test", "CLIENTTAGDENY": r.choice(["", "", "", "*", "*,-typing", "*,-x,-draft/reply", "typing", "x,reply,Z9"]),
                         "CAP_MESSAGE_TAGS": r.choice(["TRUE"] * 5 + ["FALSE"]), "CAP_SERVER_TIME": r.choice(["TRUE"] * 3 + ["FALSE"]), "CAP_ACCOUNT_TAG": r.choice(["TRUE"] * 3 + ["FALSE"]),
                         "NETWORK_FEATURES": r.choice(["TRUE", "FALSE"]), "NETWORK_TIME": r.choice(["TRUE", "FALSE"]), "ANNOUNCE_INVITES": r.choice(["TRUE", "FALSE"])}
        for x in ("ACCOUNTNOTIFY", "AWAYNOTIFY", "CHGHOST", "ECHOMESSAGE", "EXTJOIN", "INVITENOTIFY", "UHNAMES"):
            f["CAP_" + x] = r.choice(["TRUE"] * 9 + ["FALSE"])
        names = dict(zip(["ACCOUNTNOTIFY", "AWAYNOTIFY", "CHGHOST", "ECHOMESSAGE", "EXTJOIN", "INVITENOTIFY", "UHNAMES", "MESSAGE_TAGS", "SERVER_TIME", "ACCOUNT_TAG"], ALL))
        self.avail = [names[k] for k in names if f["CAP_" + k] == "TRUE"] + ["cap-notify"]
        deny = f["CLIENTTAGDENY"].split(",") if f["CLIENTTAGDENY"] else []
        self.allowed = (lambda k: "-" + k in deny) if "*" in deny else (lambda k: k not in deny)
        self.s = s = ctx.ircd(vsim.conf(ports=((6667, ""), (4400, "server=yes")),
                                        classes=['name = "Local"; pingfreq = 1000 minutes; sendq = 1600000; maxflood = 60000; maxlinks = 250;', 'name = "Server"; pingfreq = 1000 minutes; sendq = 9000000; maxlinks = 40;'],
                                        clients=['ip = "*"; class = "Local";'], opers=['local = no; class = "Local"; host = "*@*"; password = "$PLAIN$operpass"; name = "oper";'],
                                        connects=['name="f%s.test.net"; host="10.200.0.%d"; password="testpass"; class="Server"; hub; autoconnect=no' % (x, i) for i, x in ((1, "a"), (2, "b"))], uworld=['name = "fa.test.net"'], features=f))
        self.us, self.ch, self.n, self.mode, self.topic = [], {}, 0, {}, {}
        self.fa = self.fb = kit.peer(s)
        self.fb = kit.peer(s, "fb.test.net", 6, "10.200.0.2")
        for i in range(3):
            f = self.fb if i == 2 else self.fa
            u = U()
            u.nick, u.user, u.host, u.info = "r%d" % i, "ru%d" % i, "far%d.example" % i, "far %d" % i
            u.link = f
            u.uid = f.add_user(u.nick, user=u.user, host=u.host, ts=s.now - 50, info=u.info)
            u.reg = True
            self.us.append(u)
        self.settle()
        for _ in range(r.randint(3, 5)):
            self.connect()
        for u in self.loc:
            for _ in range(r.randint(0, 3)):
                self.do_join(u)
                self.s.advance(5)
        for _ in range(r.randint(0, 3)):
            self.do_rjoin()
        for k in range(r.randint(25, 60)):
            self.step()

    def settle(self):
        kit.settle(self.s, [self.fa, self.fb])

    @property
    def loc(self):
        return [u for u in self.us if u.local]

    def connect(self):
        r, ctx = self.r, self.ctx
        u = U()
        self.n += 1
        u.local, u.nick, u.user, u.host, u.info = True, "u%d" % self.n, "id%d" % self.n, "10.1.0.%d" % self.n, r.choice(["Some Body", "x", "real: name"])
        u.real = u.host
        u.c = self.s.connect(u.host, 6667)
        self.us.append(u)
        started = False
        for _ in range(r.randint(0, 3)):
            k = r.choice(["ls", "req", "req", "req", "list"])
            started |= k != "list"
            getattr(self, "do_" + k)(u)
            self.s.advance(6)
        u.c.send("NICK " + u.nick)
        u.c.send("USER %s 0 0 :%s" % (u.user, u.info))
        self.settle()
        self.s.advance(6)
        self.settle()
        got = u.c.take()
        if started:
            if any(m.cmd == "001" for m in got):
                ctx.fail("cap:wait", "%s was registered before CAP END" % u.nick)
            ctx.count("wait for end")
            if r.random() < .5:
                self.do_req(u)
                self.s.advance(4)
            u.c.send("CAP END")
            self.settle()
            got += u.c.take()
        for _ in range(8):
            if any(m.cmd in ("376", "422") for m in got):
                break
            self.s.advance(1)
            self.settle()
            got += u.c.take()
        else:
            ctx.fail("cap:register", "%s was not registered: %r" % (u.nick, [m.raw for m in got][-3:]))
        u.reg = True
        for m in got:
            if m.cmd not in ("PING", "CAP"):
                self.tags(u, m, None, {}, self.s.now - 30, "registration")
        self.settle()
        for m in self.drain():
            if m.cmd == "N" and m.args[0] == u.nick:
                u.uid = m.args[-2]
        self.check("connect")

    def step(self):
        k = self.r.choice(["msg"] * 12 + ["rmsg"] * 4 + ["join"] * 4 + ["rjoin", "away", "away", "raway", "req", "req", "ls", "list", "account", "hide", "hide", "invite", "invite", "names", "nick", "topic", "kick", "part", "rpart", "long", "mode", "masked", "capbad"])
        f = getattr(self, "do_" + k)
        l = self.loc
        if k in ("msg", "join", "away", "req", "ls", "list", "invite", "names", "nick", "topic", "kick", "part", "long", "hide", "mode", "masked", "capbad"):
            u = self.r.choice(l)
            f(u)
        else:
            f()
        self.s.advance(4)

    # -- expectations
    def post(self, to, src, cmd, args, frm=None, ct=None, opt=False, t=None):
        if to.local:
            to.exp.append((src, cmd, args, frm, ct, opt, t))

    def num(self, to, n, *args):
        self.post(to, None, n, args)

    def common(self, u):
        s = {id(m): m for c in self.ch.values() if u in c for m in c}
        return list(s.values())

    def tags(self, u, m, frm, ct, t0, why, t=None):
        """The tags of a received line."""
        d = tagmap(m.tags)
        want = {}
        if u.caps & {"message-tags", "server-time"}:
            v = d.get("time", "")
            try:
                e = calendar.timegm(time.strptime(v, "%Y-%m-%dT%H:%M:%S.000Z"))
            except ValueError:
                e = None
            if t is not None and self.feat["NETWORK_TIME"] == "TRUE":
                ok = v == t
                self.ctx.count("time kept")
            else:
                ok = e is not None and t0 <= e <= self.s.now and v == iso(e)
            if not ok:
                self.ctx.fail("tags:time", "%s: %s (%s) received %r at %s" % (why, u.nick, sorted(u.caps), m.raw[:200], iso(self.s.now)))
            want["time"] = v
        if frm == "either":
            want.update({k: v for k, v in d.items() if k == "account" and v == m.args[0] and u.caps & {"message-tags", "account-tag"}})
        elif frm is not None and frm.acc and u.caps & {"message-tags", "account-tag"}:
            want["account"] = frm.acc
        opt = ct is None
        if "message-tags" in u.caps:
            want.update(ct or {})
        if opt:
            d = {k: v for k, v in d.items() if not (k[:1] == "+" and "message-tags" in u.caps and self.allowed(k[1:]))}
        if d != want:
            self.ctx.fail("tags:set", "%s: %s (%s) received tags %r, reference %r: %r" % (why, u.nick, sorted(u.caps), str(d)[:300], str(want)[:300], m.raw[:300]))
        if (m.tags == "") or (m.raw.startswith("@") and not want and not d and not opt):
            self.ctx.fail("tags:empty", "%s: %s received %r" % (why, u.nick, m.raw[:200]))

    def check(self, why, t0=None):
        ctx = self.ctx
        ctx.ev()
        t0 = self.s.now if t0 is None else t0
        self.settle()
        for u in self.loc:
            got = [m for m in u.c.take() if m.cmd != "PING"]
            exp, u.exp = u.exp, []
            i = 0
            for m in got:
                while True:
                    if i >= len(exp):
                        ctx.fail("form:extra", "%s: %s (%s) received %r too many; expected %r" % (why, u.nick, sorted(u.caps), m.raw[:300], exp))
                    if exp[i][0] == "any":
                        at = {x.args[0]: j for j, x in reversed(list(enumerate(got))) if x.cmd == "JOIN"}
                        b = sorted(exp[i][1], key=lambda l: at.get(l[0][2][0], 1e9))
                        exp[i:i + 1] = [x + (None, False, None) for l in b for x in l]
                        continue
                    src, cmd, args, frm, ct, opt, t = exp[i]
                    ok = m.cmd == cmd and (src is None or m.prefix == src)
                    if ok:
                        a = m.args[1:] if cmd.isdigit() else m.args
                        ok = a[:len(args)] == list(args) if cmd.isdigit() else a == list(args)
                        if isinstance(args, NameSet):
                            ok = a[1] == args[0] and sorted(a[2].split()) == args[1]
                    i += 1
                    if ok:
                        break
                    if not opt:
                        ctx.fail("form:line", "%s: %s (%s) received %r, reference %r" % (why, u.nick, sorted(u.caps), m.raw[:300], exp[i - 1][:3]))
                self.tags(u, m, frm, ct, t0, why, t)
                ctx.seen("%s %s %s" % (why.split()[0], cmd, "".join(str(int(c in u.caps)) for c in ALL)))
            for e in exp[i:]:
                if e[0] == "any" or not e[5]:
                    ctx.fail("form:missing", "%s: %s (%s) did not receive %r" % (why, u.nick, sorted(u.caps), e[:3]))

    # -- negotiation
    def do_ls(self, u):
        v = self.r.choice(["", " 302", " 301", " 303"])
        u.c.send("CAP LS" + v)
        if v in (" 302", " 303"):
            u.v302 = True
            u.caps.add("cap-notify")
            self.ctx.count("ls302")
        self.ctx.count("ls")
        self.caplines(u, "LS", set(self.avail) - ({"cap-notify"} if u.v302 else set()))

    def do_list(self, u):
        u.c.send("CAP LIST")
        self.ctx.count("list")
        self.caplines(u, "LIST", u.caps, {"cap-notify"} if u.v302 else set())

    def caplines(self, u, sub, want, opt=frozenset()):
        self.ctx.ev()
        self.settle()
        got = [m for m in u.c.take() if m.cmd != "PING"]
        toks = [x for m in got if m.cmd == "CAP" for x in m.args[-1].split()]
        if not got or any(m.cmd != "CAP" or m.args[1] != sub for m in got) or any(m.args[2] != "*" for m in got[:-1]) or len(got[-1].args) != 3 or set(toks) - opt != set(want) - opt or len(set(toks)) != len(toks):
            self.ctx.fail("cap:" + sub, "%s (%s, 302: %s): CAP %s answered %r, reference %s" % (u.nick, sorted(u.caps), u.v302, sub, [m.raw for m in got], sorted(want)))
        if u.reg:
            for m in got:
                self.tags(u, m, None, {}, self.s.now - 2, "CAP " + sub)

    def do_capbad(self, u):
        if self.r.random() < .4:
            u.c.send("CAP END")
            self.ctx.count("late end")
            self.check("CAP END")
            return self.do_list(u)
        u.c.send("CAP " + self.r.choice(["FOO", "LSX", "RE", "?"]))
        self.ctx.count("unknown cap command")
        self.num(u, "410")
        self.check("CAP unknown")

    def do_req(self, u):
        r, ctx = self.r, self.ctx
        if r.random() < .06:
            u.c.send("CAP REQ")
            self.settle()
            got = [m for m in u.c.take() if m.cmd != "PING"]
            if any(m.cmd == "CAP" and m.args[1] == "ACK" and m.args[-1].strip() for m in got):
                ctx.fail("cap:req", "CAP REQ without capabilities was answered %r" % [m.raw for m in got])
            ctx.count("req empty")
            return self.do_list(u)
        l = []
        for _ in range(r.choice([1, 1, 2, 3, 5, 8])):
            k = r.random()
            l.append(r.choice(self.avail) if k < .85 else "-" + r.choice(self.avail) if k < .96 else r.choice(["foo", "sasl", "-", "message-tag", "message-tagss", "server-time=1", "away", "-bar"] + [a for a in ALL if a not in self.avail]))
        bad = any(x.lstrip("-") not in self.avail or x == "-" or x == "-cap-notify" and u.v302 for x in l)
        text = r.choice([" ", " ", "  "]).join(l)
        ack, caps = {}, set(u.caps)
        for x in l:
            ack[x.lstrip("-")] = x
            (caps.discard if x[0] == "-" else caps.add)(x.lstrip("-"))
        u.c.send("CAP REQ :" + text)
        ctx.log("%s REQ %s" % (u.nick, text))
        if bad:
            ctx.count("req nak")
            self.caplines(u, "NAK", text.split()) if len(set(text.split())) == len(text.split()) else (self.settle(), self.nak(u))
        else:
            ctx.count("req ack")
            if any(x[0] == "-" for x in l):
                ctx.count("req remove")
            old = set(u.caps)
            self.settle()
            u.pend = caps
            self.ackline(u, set(ack.values()), old, caps)
            u.caps = caps
        self.do_list(u)

    def nak(self, u):
        got = [m for m in u.c.take() if m.cmd != "PING"]
        if len(got) != 1 or got[0].cmd != "CAP" or got[0].args[1] != "NAK":
            self.ctx.fail("cap:req", "a request that cannot be met was answered %r" % [m.raw for m in got])

    def ackline(self, u, want, old, new):
        got = [m for m in u.c.take() if m.cmd != "PING"]
        toks = [x for m in got if m.cmd == "CAP" for x in m.args[-1].split()]
        if not got or any(m.cmd != "CAP" or m.args[1] != "ACK" for m in got) or set(toks) != want or len(toks) != len(want):
            self.ctx.fail("cap:req", "%s (%s): a request for %s was answered %r" % (u.nick, sorted(old), sorted(want), [m.raw for m in got]))

    # -- talking
    def mktags(self, long=False):
        """A tag section and what is left of it for others."""
        r = self.r
        if r.random() < .25 and not long:
            return "", {}
        items, d = [], {}
        keys = ["+" + k for k in r.sample(KEYS, r.randint(0, 4))] + r.sample(["typing", "time", "account", "batch", "msgid", "label", "x", "+", ""], r.choice([0, 0, 1, 2]))
        r.shuffle(keys)
        for k in keys:
            c = r.random()
            v = None if c < .15 else "" if c < .2 else "".join(r.choice(["a", "Z", "0", "=", "\\s", "\\:", "\\\\", "\\r", "\\n", "\\b", "\xe9", ",", ":", "@", "+", "\\", "#"]) for _ in range(r.randint(1, 12)))
            if k == "time" and v:
                v = "2001-01-01T00:00:00.000Z"
            items.append(k if v is None else k + "=" + v)
            if k[:1] == "+" and len(k) > 1:
                if self.allowed(k[1:]):
                    d[k] = unesc(v or "")
                    if v and "\\" in v:
                        self.ctx.count("escaped")
                else:
                    self.ctx.count("denied tag")
            elif k:
                self.ctx.count("server tag dropped")
        if not items:
            return "", {}
        return "@" + ";".join(items) + " ", d

    def canspeak(self, u, n):
        c, m = self.ch[n], self.mode[n]
        if u not in c:
            return not (m & {"n", "m"})
        return not ("m" in m and not c[u])

    def text(self):
        return self.r.choice(["hello", "two words", ": lead", "@x=1 :y", "tail ", "a" * 200, "=;\\s"])

    def do_msg(self, u, tg=None, tagdata=None):
        r, ctx = self.r, self.ctx
        raw, d = tagdata or self.mktags()
        cmd = r.choice(["PRIVMSG", "PRIVMSG", "NOTICE", "TAGMSG", "TAGMSG"])
        ts = list(self.ch)
        tg = r.choice(ts + [x.nick for x in self.us] + ts + ["nobody", "#none"])
        tx = self.text()
        line = raw + "%s %s" % (cmd, tg) + ("" if cmd == "TAGMSG" else " :" + tx)
        t0 = self.s.now
        self.drain()
        u.c.send_raw((line + "\r\n").encode("latin-1"))
        ctx.log("%s > %s" % (u.nick, line[:200]))
        sentto = self.deliver(u, cmd, tg, tx, d)
        self.check("%s %s" % (cmd, tg), t0)
        self.peer(u, cmd, sentto)

    def drain(self):
        return self.fa.take() + self.fb.take()

    def peer(self, u, cmd, sent, t=None):
        for f in (self.fa, self.fb):
            self.peer1(f, u, cmd, f in sent, t)

    def peer1(self, f, u, cmd, sent, t):
        tok = {"PRIVMSG": "P", "NOTICE": "O", "TAGMSG": "TM"}[cmd]
        ms = [m for m in f.take() if m.cmd == tok and m.src == u.uid]
        if len(ms) != (1 if sent else 0):
            self.ctx.fail("peer:relay", "%s by %s: the other server received %r, reference %s" % (cmd, u.nick, [m.raw[:200] for m in ms], sent))
        for m in ms:
            if not u.local:
                self.ctx.count("forwarded")
            want = {"time": iso(self.s.now)} if self.feat["NETWORK_FEATURES"] == "TRUE" == self.feat["NETWORK_TIME"] else {}
            d = tagmap(m.tags)
            if set(d) != set(want) or want and t is not None and d["time"] != t or want and t is None and not self.s.now - 5 <= calendar.timegm(time.strptime(d["time"], "%Y-%m-%dT%H:%M:%S.000Z")) <= self.s.now:
                self.ctx.fail("peer:tags", "%s by %s: the other server received %r, reference tags %r" % (cmd, u.nick, m.raw[:200], want))
            if want:
                self.ctx.count("peer time")

    def deliver(self, u, cmd, tg, tx, d, t=None):
        """Post what everybody receives; tells whether another server gets it."""
        ctx = self.ctx
        tagmsg = cmd == "TAGMSG"
        args = lambda n: (n,) if tagmsg else (n, tx)
        num = (lambda *a: None) if cmd == "NOTICE" else self.num
        ok = lambda x: not tagmsg or "message-tags" in x.caps
        if u.local and tagmsg and not ok(u):
            ctx.count("421")
            self.num(u, "421", "TAGMSG")
            return ()
        if not u.local:
            ctx.count("remote source")
        if tg[0] == "#":
            if tg not in self.ch:
                num(u, "403", tg)
                return ()
            if not self.canspeak(u, tg):
                ctx.count("404")
                num(u, "404", tg)
                return ()
            ctx.count("channel")
            for m in self.ch[tg]:
                if m is not u and ok(m):
                    self.post(m, u.full, cmd, args(tg), u, d, t=t)
            if u.local and "echo-message" in u.caps:
                ctx.count("echo")
                self.post(u, u.full, cmd, args(tg), u, d)
            return [m.link for m in self.ch[tg] if not m.local and (u.local or m.link is not u.link)]
        m = next((x for x in self.us if x.nick == tg), None)
        if m is None:
            ctx.count("401")
            num(u, "401", tg)
            return ()
        if u.local and m.away and cmd != "NOTICE":
            self.num(u, "301", m.nick, m.away)
        ctx.count("private" if m.local else "to remote")
        if m is u:
            ctx.count("self")
        if ok(m):
            self.post(m, u.full, cmd, args(m.nick), u, d, t=t)
        if u.local and "echo-message" in u.caps:
            ctx.count("echo")
            self.post(u, u.full, cmd, args(m.nick), u, d)
        return [m.link] if not m.local and (u.local or m.link is not u.link) else ()

    def do_rmsg(self):
        r = self.r
        u = r.choice([x for x in self.us if not x.local])
        d, t, items = {}, None, []
        if r.random() < .5:
            t = iso(self.s.now - r.randint(0, 5000))
            items.append("time=" + t)
        for x in ("account=evil", "msgid=77", "label"):
            if r.random() < .2:
                items.append(x)
        r.shuffle(items)
        ts = [c for c in self.ch if self.canspeak(u, c)]
        to = r.choice(ts + [x for x in self.us if x.local or x.link is not u.link])
        cmd = r.choice(["PRIVMSG", "NOTICE", "TAGMSG"])
        tx = self.text()
        tgt = to if isinstance(to, str) else to.uid
        self.drain()
        u.link.send_raw(("%s%s %s %s%s\r\n" % ("@" + ";".join(items) + " " if items else "", u.uid, {"PRIVMSG": "P", "NOTICE": "O", "TAGMSG": "TM"}[cmd], tgt, "" if cmd == "TAGMSG" else " :" + tx)).encode("latin-1"))
        self.ctx.log("%s > %s %s %s" % (u.nick, items, cmd, tgt))
        sent = self.deliver(u, cmd, to if isinstance(to, str) else to.nick, tx, d, t)
        self.check("remote %s" % cmd)
        self.peer(u, cmd, sent, t)

    def do_masked(self, u):
        """An operator's message to all users of a server or host."""
        r, ctx = self.r, self.ctx
        if not u.oper:
            u.c.send("OPER oper operpass")
            self.settle()
            self.s.advance(6)
            self.settle()
            for m in self.loc:
                m.c.take()
            u.oper = True
            return
        cmd = r.choice(["PRIVMSG", "NOTICE", "TAGMSG"])
        host = r.random() < .5
        mask = r.choice(["$@*.0.%d" % x for x in range(1, 6)] + ["$@10.1.0.1", "$@far0.example"]) if host else r.choice(["$hub.test.net", "$*.test.net", "$fa.test.net", "$h*.test.net"])
        tx = self.text()
        raw, d = self.mktags()
        u.c.send_raw((raw + "%s %s" % (cmd, mask) + ("" if cmd == "TAGMSG" else " :" + tx) + "\r\n").encode("latin-1"))
        ctx.log("%s > %s%s %s" % (u.nick, raw, cmd, mask))
        ctx.count("masked")
        if cmd == "TAGMSG" and "message-tags" not in u.caps:
            self.num(u, "421", "TAGMSG")
        else:
            args = (mask,) if cmd == "TAGMSG" else (mask, tx)
            for m in self.loc:
                if __import__("fnmatch").fnmatchcase(m.real if host else "hub.test.net", mask[2 if host else 1:]) and (cmd != "TAGMSG" or "message-tags" in m.caps):
                    self.post(m, u.full, cmd, args, u, d)
            if "echo-message" in u.caps:
                self.post(u, u.full, cmd, args, u, d)
        self.check("masked %s" % cmd)
        self.drain()

    def do_long(self, u):
        """Tag sections and bodies at the limits."""
        r, ctx = self.r, self.ctx
        n = r.choice([4094, 4095, 4093, 4000, 4200, 5000, 2000])
        b = r.choice([510, 511, 300, 509, 512])
        tg = r.choice(self.loc)
        k = "+" + r.choice([x for x in KEYS if self.allowed(x)] or KEYS)
        v = "".join(r.choice(["v", "\\s", "\\\\", "w"]) for _ in range(n))[:n - len(k) - 1]
        if v.endswith("\\") and (len(v) - len(v.rstrip("\\"))) % 2:
            v = v[:-1] + "e"
        body = "PRIVMSG %s :" % tg.nick
        body += "z" * (b - len(body))
        tx = body.split(":", 1)[1]
        # what others receive is limited to 510 bytes as well
        room = 510 - len(":%s PRIVMSG %s :" % (u.full, tg.nick))
        u.c.send_raw(("@%s=%s %s\r\n" % (k, v, body)).encode("latin-1"))
        ctx.log("%s long %d %d to %s" % (u.nick, n, b, tg.nick))
        ctx.count("long tags")
        if n > 4094 or b > 510:
            ctx.count("417")
            self.num(u, "417")
        else:
            d = {k: unesc(v)} if self.allowed(k[1:]) else {}
            if tg.away:
                self.num(u, "301", tg.nick, tg.away)
            self.post(tg, u.full, "PRIVMSG", (tg.nick, tx[:room]), u, d)
            if "echo-message" in u.caps:
                self.post(u, u.full, "PRIVMSG", (tg.nick, tx[:room]), u, d)
        self.check("long %d %d" % (n, b))
        if n > 4094:
            self.ctx.count("refused tags")
        self.drain()
        self.s.advance(60)

    # -- events with gated forms
    def joinlines(self, u, n):
        for m in self.ch[n]:
            if "extended-join" in m.caps:
                self.ctx.count("ext join")
                self.post(m, u.full, "JOIN", (n, u.acc or "*", u.info), u)
            else:
                self.post(m, u.full, "JOIN", (n,), u)
            if u.away and m is not u and "away-notify" in m.caps:
                self.ctx.count("join away")
                self.post(m, u.full, "AWAY", (u.away,), u)
        if u.away:
            for m in self.common(u):
                if m not in self.ch[n] and "away-notify" in m.caps:
                    self.post(m, u.full, "AWAY", (u.away,), u, opt=True)

    def do_join(self, u):
        n = self.r.choice(["#one", "#two", "#three"])
        if n in self.ch and u in self.ch[n]:
            return
        new = n not in self.ch
        self.ch.setdefault(n, {})
        self.ch[n][u] = {"o"} if new else set()
        if new:
            self.mode[n] = set()
        u.c.send("JOIN " + n)
        self.ctx.log("%s JOIN %s" % (u.nick, n))
        self.joinlines(u, n)
        if not new:
            if self.topic.get(n):
                self.num(u, "332", n, self.topic[n])
                self.num(u, "333", n)
        self.names(u, n)
        self.check("JOIN %s" % n)

    def names(self, u, n):
        f = "userhost-in-names" in u.caps
        w = sorted(("@" if "o" in s else "+" if "v" in s else "") + (m.full if f else m.nick) for m, s in self.ch[n].items())
        self.post(u, None, "353", NameSet((n, w)))
        self.num(u, "366", n)

    def do_names(self, u):
        cs = [n for n in self.ch if u in self.ch[n]]
        if cs:
            n = self.r.choice(cs)
            u.c.send("NAMES " + n)
            self.ctx.count("names")
            self.names(u, n)
            self.check("NAMES")

    def do_rjoin(self):
        u = self.r.choice([x for x in self.us if not x.local])
        cs = [n for n in self.ch if u not in self.ch[n]]
        if cs:
            n = self.r.choice(cs)
            u.link.send("%s J %s %d" % (u.uid, n, self.s.now))
            self.ch[n][u] = set()
            self.joinlines(u, n)
            self.check("remote JOIN")

    def gone(self, u, n):
        del self.ch[n][u]
        if not self.ch[n]:
            del self.ch[n]
            self.topic.pop(n, None)

    def do_part(self, u):
        cs = [n for n in self.ch if u in self.ch[n]]
        if cs and self.r.random() < .7:
            n = self.r.choice(cs)
            u.c.send("PART %s :bye now" % n)
            for m in self.ch[n]:
                self.post(m, u.full, "PART", (n, "bye now") if self.canspeak(u, n) else (n,), u)
            self.ctx.count("part")
            self.gone(u, n)
            self.check("PART")

    def do_rpart(self):
        u = self.r.choice([x for x in self.us if not x.local])
        cs = [n for n in self.ch if u in self.ch[n]]
        if cs:
            n = self.r.choice(cs)
            u.link.send("%s L %s :gone" % (u.uid, n))
            for m in self.ch[n]:
                self.post(m, u.full, "PART", (n, "gone"), u)
            self.gone(u, n)
            self.check("remote PART")

    def do_mode(self, u):
        cs = [n for n in self.ch if u in self.ch[n] and self.ch[n][u]]
        if cs:
            n = self.r.choice(cs)
            x = self.r.choice("mnm")
            on = x not in self.mode[n]
            (self.mode[n].add if on else self.mode[n].discard)(x)
            u.c.send("MODE %s %s%s" % (n, "+" if on else "-", x))
            for m in self.ch[n]:
                self.post(m, u.full, "MODE", (n, ("+" if on else "-") + x), u)
            self.check("MODE")

    def do_topic(self, u):
        cs = [n for n in self.ch if u in self.ch[n]]
        if cs:
            n = self.r.choice(cs)
            raw, d = self.mktags()
            if not self.canspeak(u, n):
                return
            self.topic[n] = t = "topic %d" % self.r.randint(1, 99999)
            u.c.send_raw((raw + "TOPIC %s :%s\r\n" % (n, t)).encode("latin-1"))
            for m in self.ch[n]:
                self.post(m, u.full, "TOPIC", (n, t), u)
            self.ctx.count("topic")
            self.check("TOPIC")

    def do_kick(self, u):
        cs = [n for n in self.ch if u in self.ch[n] and "o" in self.ch[n][u] and [m for m in self.ch[n] if m.local and m is not u]]
        if cs and self.r.random() < .6:
            n = self.r.choice(cs)
            v = self.r.choice([m for m in self.ch[n] if m.local and m is not u])
            u.c.send("KICK %s %s :out" % (n, v.nick))
            for m in self.ch[n]:
                self.post(m, u.full, "KICK", (n, v.nick, "out"), u)
            self.ctx.count("kick")
            self.gone(v, n)
            self.check("KICK")

    def do_nick(self, u):
        self.n += 1
        if self.s.now < getattr(u, "nt", 0) or any(u in self.ch[n] and not self.canspeak(u, n) for n in self.ch):
            return
        u.nt = self.s.now + 65
        new, old = "n%d" % self.n, u.full
        u.c.send("NICK " + new)
        for m in {id(x): x for x in self.common(u) + [u]}.values():
            self.post(m, old, "NICK", (new,), u)
        u.nick = new
        self.ctx.count("nick")
        self.check("NICK")

    def do_away(self, u):
        was = u.away
        r = self.r
        if was and r.random() < .7:
            u.away = None
            u.c.send("AWAY")
            self.ctx.count("back")
        else:
            u.away = r.choice(["gone fishing", "x", "b: c"])
            u.c.send("AWAY :" + u.away)
            self.ctx.count("away")
        for m in self.common(u):
            if m is not u and "away-notify" in m.caps and not (was and u.away):
                self.post(m, u.full, "AWAY", (u.away,) if u.away else (), u)
        self.num(u, "306" if u.away else "305")
        self.check("AWAY")

    def do_raway(self):
        u = self.r.choice([x for x in self.us if not x.local])
        was = u.away
        u.away = None if was else "far away"
        u.link.send("%s A :%s" % (u.uid, u.away) if u.away else "%s A" % u.uid)
        self.ctx.count("remote away")
        for m in self.common(u):
            if "away-notify" in m.caps:
                self.post(m, u.full, "AWAY", (u.away,) if u.away else (), u)
        self.check("remote AWAY")

    def chghost(self, u):
        """The user becomes hidden: told as CHGHOST or as a rejoin."""
        new = "%s.users.test" % u.acc
        cm = self.common(u)
        for m in {id(x): x for x in cm + [u]}.values():
            if "chghost" in m.caps:
                self.ctx.count("chghost")
                self.post(m, u.full, "CHGHOST", (u.user, new), u)
            elif m is not u:
                self.ctx.count("rejoin")
                self.post(m, u.full, "QUIT", ("Registered",), u)
        u.host = new
        if u.local and "chghost" not in u.caps:
            self.num(u, "396", new)
        blocks = {}
        for n, c in self.ch.items():
            if u not in c:
                continue
            for m in c:
                if not m.local or "chghost" in m.caps:
                    continue
                b = blocks.setdefault(id(m), (m, []))[1]
                l = [(u.full, "JOIN", (n, u.acc or "*", u.info) if "extended-join" in m.caps else (n,), u)]
                if u.away and "away-notify" in m.caps:
                    l.append((u.full, "AWAY", (u.away,), u))
                if c[u] and m is not u:
                    l.append((None, "MODE", (n, "+" + "".join(sorted(c[u])), u.nick) + ((u.nick,) if len(c[u]) > 1 else ()), None))
                b.append(l)
        for m, b in blocks.values():
            m.exp.append(("any", b))

    def do_account(self):
        us = [x for x in self.us if not x.acc]
        if us:
            u = self.r.choice(us)
            u.acc = "acc%d" % self.r.randint(1, 999)
            self.fa.send("%s AC %s %s %d" % (self.fa.yy, u.uid, u.acc, self.s.now - 5))
            self.ctx.count("account")
            for m in {id(x): x for x in self.common(u) + [u]}.values():
                if "account-notify" in m.caps:
                    self.post(m, u.full, "ACCOUNT", (u.acc,), "either")
            if u.hidden:
                self.chghost(u)
            self.check("ACCOUNT")
            self.drain()

    def do_hide(self, u):
        if not u.hidden:
            u.hidden = True
            u.c.send("MODE %s +x" % u.nick)
            if u.acc:
                self.chghost(u)
            self.post(u, u.full, "MODE", (u.nick, "+x"), u, opt=True)
            self.check("MODE +x")

    def do_invite(self, u):
        cs = [n for n in self.ch if u in self.ch[n] and "o" in self.ch[n][u]]
        if not cs:
            return
        n = self.r.choice(cs)
        vs = [v for v in self.us if v not in self.ch[n]]
        if not vs:
            return
        v = self.r.choice(vs)
        u.c.send("INVITE %s %s" % (v.nick, n))
        self.ctx.count("invite")
        self.num(u, "341", v.nick, n)
        if v.away:
            self.num(u, "301", v.nick, v.away)
        self.post(v, u.full, "INVITE", (v.nick, n), u)
        for m, s in self.ch[n].items():
            if m is not u and "o" in s:
                if "invite-notify" in m.caps:
                    self.post(m, u.full, "INVITE", (v.nick, n), u)
                elif self.feat["ANNOUNCE_INVITES"] == "TRUE":
                    self.num(m, "345", n)
        self.check("INVITE")


class NameSet(tuple):
    """Parameters of a 353: the names in any order."""
