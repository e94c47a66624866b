"""Privacy as non-interference: two runs that differ only in a secret must look identical to an ordinary observer"""
import random
import kit, vsim, p10
PROPERTY = "C13"
RULE = ("the same random history is run twice on fresh servers, the runs differing only in hidden facts (who is on which secret channel, its topic and key, real addresses behind +x, nicks of +i strangers, "
        "the server a remote user is on and which server acted, idle times, private traffic, hidden operators); two ordinary observers issue random queries after every step and must receive byte-identical "
        "output in both runs; an operator repeats the queries as a control that the secrets were really there; distinct counts (secret, query shape)")
ASSUMPTIONS = ["head-in-sand features at their defaults", "observers do not operate a channel of a hidden-host user (a ban may test an address by design)"]
KINDS = ["member", "pmember", "topic", "key", "host", "nick", "place", "idle", "talk", "oper", "who", "silence", "invite"]
MUST_SEE = ["control:" + k for k in ("member", "topic", "host", "nick", "place", "idle", "oper")] + ["kind:" + k for k in KINDS] + ["answered"]


def plan(tier, seed):
    return [{"seed": seed, "i": i} for i in range(1200 if tier == "quick" else 12000)]


def run_case(ctx, p):
    r = ctx.rng
    some = r.choice([0, 0, .2])
    kinds = [KINDS[p["i"] % len(KINDS)]] + [k for k in KINDS if r.random() < some]
    kinds = sorted(set(kinds))
    sub = r.random()
    a, ca = World(ctx, kinds, 0, sub).run()
    b, cb = World(ctx, kinds, 1, sub).run()
    for k in kinds:
        ctx.count("kind:" + k)
    if len(a) != len(b):
        raise RuntimeError("the two runs differ in length")
    for (qa, who, outa), (qb, _, outb) in zip(a, b):
        ctx.ev()
        if outa:
            ctx.count("answered")
        ctx.seen("%s %s" % ("/".join(kinds[:2]), qa.split(":", 1)[0].split(" ")[0]))
        if outa != outb:
            ctx.fail("privacy:" + "+".join(kinds) + ":" + qa.split(" ")[0],
                     "%s (an ordinary user) can tell the two histories apart, which differ only in hidden facts (%s): after %r: %r versus %r"
                     % (who, ", ".join(kinds), qa, *diff(outa, outb)))
    if len(kinds) == 1 and ca != cb:
        ctx.count("control:" + kinds[0])
    ctx.sample("%s: %d observations" % (kinds, len(a)))


def diff(a, b):
    for x, y in zip(a, b):
        if x != y:
            return x[-300:], y[-300:]
    return a[len(b):][:2], b[len(a):][:2]


class World:
    def __init__(self, ctx, kinds, b, sub):
        self.ctx, self.kinds, self.b = ctx, kinds, b
        self.r = random.Random(sub)
        self.log = []
        self.ctl_log = []

    def v(self, kind, x, y):
        """One of two values, depending on the run if this fact is a secret of this case."""
        return y if kind in self.kinds and self.b else x

    def settle(self):
        kit.settle(self.s, (self.fa, self.fb))

    def user(self, nick, ip, **kw):
        c = kit.register(self.s, nick, ip, wait=2, **kw)
        self.c[nick] = c
        return c

    def do(self, nick, line):
        self.c[nick].send(line)
        self.s.advance(3)
        self.settle()

    def srv(self, f, line):
        f.send(line)
        self.settle()

    def place(self, kind="place"):
        """(link, server numeric) of a remote user / acting server."""
        opts = [(self.fa, self.fa.yy), (self.fb, self.fb.yy), (self.fa, self.sub)]
        i, j = self.r.sample(range(3), 2)
        return opts[self.v(kind, i, j)]

    def remote(self, nick, ip="10.9.8.7", host=None, modes="", kind="place"):
        link, yy = self.place(kind)
        self.idx += 1
        nn, line = link.user_line(nick, user="ru", host=host or ip, ip=ip, modes=modes, ts=self.s.now - 50, idx=self.idx, info="real " + nick, yy=yy, hop=2 if yy == self.sub else 1)
        self.srv(link, line)
        self.rem[nick] = (link, yy, nn)

    def run(self):
        r, ctx = self.r, self.ctx
        self.c, self.rem, self.idx = {}, {}, 0
        self.s = s = ctx.ircd(vsim.conf(
            ports=((6667, ""), (4400, "server=yes")), features={"HOST_HIDING": "TRUE"}, uworld=['name = "svc.test.net"'],
            opers=['local = no; class = "Opers"; host = "*@*"; password = "$PLAIN$operpass"; name = "oper"; see_chan = yes; whox = yes; show_invis = yes; show_all_invis = yes; see_opers = yes; display = yes;',
                   'local = yes; class = "Opers"; host = "*@*"; password = "$PLAIN$hid"; name = "hid"; display = no; propagate = no; see_opers = no;'],
            connects=['name="f%s.test.net"; host="10.200.0.%d"; password="testpass"; class="Server"; hub; autoconnect=no' % (c, i + 1) for i, c in enumerate("ab")]))
        self.fa = kit.peer(s, "fa.test.net", 5, "10.200.0.1")
        self.fb = kit.peer(s, "fb.test.net", 6, "10.200.0.2")
        self.sub = p10.enc(9, 2)
        self.srv(self.fa, "%s S fs.test.net 2 0 %d P10 %s]]] +h :sub" % (self.fa.yy, s.now, self.sub))
        self.srv(self.fa, "%s S svc.test.net 2 0 %d P10 %s]]] +hs :services" % (self.fa.yy, s.now, p10.enc(10, 2)))
        self.user("ctl", "172.16.0.1")
        kit.oper(s, self.c["ctl"])
        self.user("obs", "172.16.0.2")
        self.user("mem", "172.16.0.3")
        for i in (1, 2):
            self.user("a%d" % i, "172.16.1.%d" % i)
            self.do("a%d" % i, "JOIN #s%d,#p%d,#k%d" % (i, i, i))
            self.do("a%d" % i, "MODE #s%d +s%s" % (i, r.choice(["", "n", "nt", "i"]).replace("i", "")))
            self.do("a%d" % i, "MODE #p%d +p" % i)
        self.do("a1", "JOIN #pub")
        self.do("mem", "JOIN #pub,#mm")
        self.do("ctl", "JOIN #pub")
        self.user("t1", "172.16.2.1")
        if r.random() < .5:
            self.do("t1", "MODE t1 +i")
        self.user("op1", "172.16.2.2")
        hip = r.sample(["10.77.1.1", "10.77.2.9", "192.168.5.5", "10.177.3.4"], 2)
        ip = hip[self.v("host", 0, 1)]
        self.user("h1", ip)
        self.srv(self.fa, "%s AC %s acch1" % (p10.enc(10, 2), self.num("h1")))
        self.do("h1", "MODE h1 +x")
        rmodes = r.choice(["", "i", "d"])
        self.remote("h2", ip, host=r.choice([ip, self.v("host", "one.real.host", "two.other.org")]), modes=rmodes + "rx acch2:%d" % (s.now - 10), kind="none")
        self.remote("t2", modes=r.choice(["", "i"]), kind="none")
        self.remote("r1", modes=r.choice(["", "i", "o"]))
        self.remote("r2")
        for n in self.v("nick", ["inv1"], ["bnv2"]):
            self.user(n, "172.16.3.1")
            self.do(n, "MODE %s +i" % n)
        for n in ("t1", "h1", "op1"):
            self.do(n, "JOIN #pub")
        for n in ("t2", "h2", "r1", "r2"):
            link, yy, nn = self.rem[n]
            self.srv(link, "%s J #pub %d" % (nn, s.now))
        self.key = self.v("key", "first", "erste")
        self.do("a1", "MODE #k1 +k " + self.key)
        for n in self.c:
            self.c[n].take()
        self.steps = [x for x in (self.st_member, self.st_topic, self.st_key, self.st_idle, self.st_talk, self.st_oper, self.st_who, self.st_silence, self.st_invite, self.st_nick, self.st_away, self.st_rehome, self.st_quit, self.st_pmember, self.st_split)]
        by = {"member": self.st_member, "pmember": self.st_pmember, "topic": self.st_topic, "key": self.st_key, "idle": self.st_idle, "talk": self.st_talk, "oper": self.st_oper, "who": self.st_who,
              "silence": self.st_silence, "invite": self.st_invite, "place": self.st_rehome, "host": self.st_quit, "nick": self.st_nick}
        self.on = {"t1": [], "t2": []}
        for n in range(r.randint(6, 14)):
            st = by[r.choice(self.kinds)] if r.random() < .5 else r.choice(self.steps)
            st()
            self.settle()
            self.note("(traffic)")
            for q in range(r.randint(1, 4)):
                self.query()
        if r.random() < .3:
            link, yy = self.place("who")
            self.srv(link, "%s D %s :%s (final)" % (yy, self.num("mem"), {self.fa.yy: "fa.test.net", self.fb.yy: "fb.test.net", self.sub: "fs.test.net"}[yy]))
            self.note("KILL of the observer by a server")
        return self.log, self.ctl_log

    def num(self, nick):
        """Numeric of a local user, as announced to fa."""
        self.fa.pump()
        for m in self.fa.msgs:
            if m.cmd == "N" and m.args[0] == nick and len(m.args) > 3:
                self.nums = getattr(self, "nums", {})
                self.nums[nick] = m.args[-2]
        return self.nums[nick]

    def note(self, what):
        for n in ("obs", "mem"):
            self.log.append((what, n, [m.raw if isinstance(m.raw, str) else m.raw.decode("latin1") for m in self.c[n].take() if m.cmd != "PING"]))
        self.c["ctl"].take()

    # -- steps; every one draws the same random values in both runs
    def st_member(self):
        r = self.r
        n = r.choice(["t1", "t2"])
        k = r.random()
        if n in ("t2",) and n not in self.rem or n in ("t1",) and n not in self.c:
            return
        ch = "#s%d" % self.v("member", 1, 2)
        if n == "t1":
            if self.on[n]:
                x = self.on[n].pop()
                if k < .4:
                    self.do(n, "PART %s :bye" % x)
                elif k < .7:
                    self.do("a" + x[-1], "KICK %s t1 :out" % x)
                else:
                    self.do("a" + x[-1], "MODE %s +%s t1" % (x, r.choice("ov")))
                    self.on[n].append(x)
            else:
                self.do(n, "JOIN " + ch)
                self.on[n].append(ch)
        else:
            link, yy, nn = self.rem[n]
            if self.on[n]:
                self.srv(link, "%s L %s :bye" % (nn, self.on[n].pop()))
            else:
                self.srv(link, "%s J %s %d" % (nn, ch, self.s.now))
                self.on[n].append(ch)

    def st_pmember(self):
        if "t1" not in self.c or getattr(self, "inp", None):
            return
        self.inp = "#p%d" % self.v("pmember", 1, 2)
        self.do("t1", "JOIN " + self.inp)

    def st_topic(self):
        self.do("a1", "TOPIC #s1 :" + self.v("topic", "alpha %d", "secret beta %d") % self.r.randrange(9))

    def st_key(self):
        k = self.r.choice("abc")
        new = self.v("key", "kk" + k, "zz" + k)
        self.do("a1", "MODE #k1 -k+k %s %s" % (self.key, new))
        self.key = new

    def st_idle(self):
        if "t1" in self.c:
            self.s.advance(self.r.randint(1, 50))
            self.do(self.v("idle", "t1", "a2"), "PRIVMSG a1 :hello")
            self.do(self.v("idle", "a2", "t1"), "NOTICE a1 :hello")

    def st_talk(self):
        n, t = self.r.choice(["a1", "a2", "op1"]), self.r.choice(["a1", "a2", "op1", "r1", "ctl"])
        self.do(n, "%s %s :%s" % (self.r.choice(["PRIVMSG", "NOTICE"]), t, self.v("talk", "one", "another thing")))
        self.do("a1", "PRIVMSG #s1 :" + self.v("talk", "x", "yy"))

    def st_oper(self):
        if getattr(self, "opd", False):
            return
        self.opd = True
        self.do("op1", "OPER hid " + self.v("oper", "hid", "wrong"))
        self.do("op1", "MODE op1 -s")

    def st_who(self):
        """A server acts on the channel the member observer is on."""
        r = self.r
        link, yy = self.place("who")
        name = {self.fa.yy: "fa.test.net", self.fb.yy: "fb.test.net", self.sub: "fs.test.net"}[yy]
        k = r.choice(["mode", "ban", "topic", "kick", "kill", "opmode", "wallops"])
        if k == "mode":
            self.srv(link, "%s M #pub %s" % (yy, r.choice(["+m", "-m", "+l 20", "-l", "+k kk", "-k kk"])))
        elif k == "ban":
            self.srv(link, "%s M #pub +b *!*@%d.bad" % (yy, r.randrange(9)))
            self.srv(link, "%s B #mm %d :%%evil!*@*" % (yy, self.s.now - 90000))
        elif k == "topic":
            self.srv(link, "%s T #pub 0 %d :by server %d" % (yy, self.s.now, r.randrange(9)))
        elif k == "kick":
            if "t2" in self.rem and not getattr(self, "kicked", 0):
                self.kicked = 1
                self.srv(link, "%s K #pub %s :bad" % (yy, self.rem["t2"][2]))
                self.srv(self.rem["t2"][0], "%s L #pub" % self.rem["t2"][2])
        elif k == "kill":
            n = r.choice(["r2"])
            if n in self.rem:
                self.srv(link, "%s D %s :%s (why)" % (yy, self.rem.pop(n)[2], name))
        elif k == "wallops":
            self.srv(link, "%s WA :hello opers" % yy)
        else:
            self.srv(link, "%s OM #pub +v %s" % (yy, self.num("h1")))

    def st_silence(self):
        if "t1" in self.c:
            self.do("t1", "SILENCE +" + self.v("silence", "*!*@one.mask", "spy!*@*"))

    def st_invite(self):
        i = self.v("invite", 1, 2)
        self.do("a%d" % i, "INVITE op1 #s%d" % i)
        self.do("a%d" % (3 - i), "AWAY")

    def st_nick(self):
        if "t1" in self.c:
            self.tn = not getattr(self, "tn", False)

    def st_away(self):
        self.do(self.r.choice(["op1", "t1", "h1" if "h1" in self.c else "op1"]), "AWAY" + self.r.choice(["", " :gone"]))

    def st_rehome(self):
        for n in ("r1", "r2"):
            if n in self.rem and self.r.random() < .5:
                link, yy, nn = self.rem.pop(n)
                self.srv(link, "%s Q :moving" % nn)
                self.remote(n)
                link, yy, nn = self.rem[n]
                self.srv(link, "%s J #pub %d" % (nn, self.s.now))
                if self.r.random() < .4:
                    self.srv(link, "%s A :%s" % (nn, "away"))

    def st_quit(self):
        n = self.r.choice(["h1", "h2"])
        if n in self.c and self.r.random() < .5:
            self.do(n, "QUIT :bye")
            del self.c[n]
        elif n in self.rem and self.r.random() < .5:
            link, yy, nn = self.rem.pop(n)
            self.srv(link, "%s Q :bye" % nn)

    def st_split(self):
        if "r2" in self.rem and self.r.random() < .2:
            # r2 leaves in a netsplit: which link broke is hidden
            link, yy, nn = self.rem.pop("r2")
            self.srv(link, "%s Q :*.net *.split" % nn)

    # -- queries
    def query(self):
        r = self.r
        who = r.choice(["obs", "mem"])
        hide_p = "pmember" in self.kinds
        nick = r.choice(["t1", "t2", "h1", "h2", "r1", "r2", "op1", "a1", "a2", "mem", "ctl"])
        chans = ["#s1", "#s2", "#s1", "#s2", "#pub", "#k1", "#mm", "#p1", "#p2", "#none"]
        ch = r.choice(chans)
        wch = r.choice(chans[:7]) if hide_p else ch
        fl = r.choice(["", "", " %", " o", " d", " x", " %tcuihsnfdlaro,42", " n%n", " u", " h%nhi", " i%ni", " s%ns", " r", " a%na", " x%chni", " is%nsd", " %nl", " nuhisra%nuhisrac"])
        if fl == " %":
            fl = " %" + "".join(r.sample("tcuihsnfdlaro", r.randint(1, 6)))
        mask = r.choice(["*", "10.77.*", "10.77.1.1", "10.77.0.0/16", "192.168.5.5", "*.users.undernet.org", "fa*", "f*.test.net", "*.host", "*.real.host", "*net", "inv*", "bnv*", "*v1", "real *", "acc*", "ru", "u", "0", "172.*", "*1*",
                         "10.0.0.0/8", "*.org", "?nv?", "10.177.3.4"])
        x = r.choice(["spy", "zzz"])
        q = r.choice([
            "NAMES " + ch, "NAMES 0", "NAMES -D " + ch, "NAMES %s,%s" % (ch, r.choice(chans)),
            "WHO %s%s" % (wch, fl), "WHO %s%s" % (wch, fl), "WHO %s%s" % (nick, fl), "WHO %s%s" % (mask, fl), "WHO %s%s" % (mask, fl), "WHO %s%s" % (mask, fl), "WHO x%s %s" % (fl or " %n", mask),
            "WHO %s,%s%s" % (wch, nick, fl),
            "WHOIS " + nick, "WHOIS " + nick, "WHOIS %s %s" % (nick, nick), "WHOIS " + mask, "WHOIS %s,%s" % (nick, r.choice(["r1", "h1"])), "WHOIS *.test.net " + nick, "WHOIS hub.test.net " + nick,
            "WHOWAS " + nick, "WHOWAS " + nick, "WHOWAS %s 3" % nick, "WHOWAS %s 2 hub.test.net" % nick,
            "TOPIC " + ch, "TOPIC #s1", "TOPIC %s :new" % r.choice(["#s1", "#s2"]), "MODE " + ch, "MODE #k1", "MODE %s b" % r.choice(["#pub", "#k1", "#mm"]), "MODE %s" % nick, "MODE %s +o %s" % (r.choice(["#s1", "#s2", "#k1"]), nick),
            "LIST", "LIST " + ch, "LIST >0", "LIST <9,>0", "LIST T<5", "LIST S", "LIST *s*", "LIST !*k*",
            "USERHOST %s %s" % (nick, r.choice(["h1", "h2", "r1"])), "USERIP %s %s" % (nick, r.choice(["h1", "h2"])), "ISON %s t1 h2 op1" % nick,
            "INVITE %s %s" % (nick, r.choice(["#s1", "#s2"])), "KICK %s %s :x" % (r.choice(["#s1", "#s2"]), nick), "JOIN #k1 bad", "PART " + r.choice(["#s1", "#s2"]),
            "LINKS", "LINKS f*", "LINKS * f*", "MAP", "MAP f*", "TRACE " + nick, "TRACE", "STATS " + r.choice("acCdefgijJklLmMopqrRsStTuUvVwWxyz"), "STATS l " + nick, "LUSERS", "LUSERS * " + nick,
            "VERSION " + nick, "TIME " + nick, "ADMIN " + nick, "INFO " + nick, "MOTD " + nick, "VERSION f*", "VERSION fa.test.net", "SILENCE " + nick, "PRIVS " + nick, "CHECK " + nick, "CHECK #s1", "GLINE", "JUPE", "CLOSE", "HASH",
            "USERIP " + nick, "WALLCHOPS #s1 :x", "WALLVOICES #s2 :x", "CNOTICE a1 #s1 :x", "CPRIVMSG %s #s1 :x" % nick, "NOTICE @#s1 :x", "PING x fa.test.net", "PING " + nick, "SQUIT fa.test.net", "CONNECT fa.test.net", "KILL %s :x" % nick,
            "RPING " + nick, "NOTICE $f* :x", "PRIVMSG $*.test.net :x", "PRIVMSG r1@fa.test.net :hi", "PRIVMSG ru%x@fb.test.net :hi", "RIPPED", "ASLL fa.test.net", "PROTO", "HELP", "RPONG x y",
        ])
        special = {"idle": ["WHOIS t1", "WHO t1 %nl", "WHO * %nl"], "topic": ["TOPIC #s1", "LIST", "LIST #s1"], "key": ["MODE #k1", "LIST"], "member": ["NAMES #s%d" % r.choice((1, 2)), "WHOIS t1", "WHOIS t2", "WHO #s1", "WHO #s2 x", "WHO t1"],
                   "pmember": ["NAMES #p%d" % r.choice((1, 2)), "WHOIS t1", "NAMES 0", "LIST"], "host": ["WHO %s%s" % (mask, fl), "WHOWAS h1", "WHOWAS h2", "USERIP h1 h2", "WHO h%d%s" % (r.choice((1, 2)), fl), "WHOIS h1"],
                   "nick": ["WHO %s%s" % (mask, fl), "WHOIS *v*", "NAMES 0", "WHO * %n"], "place": ["WHOIS r1", "WHO r1" + fl, "WHOWAS r2", "WHOIS r1 r1", "TRACE r1", "WHO %s%s" % (mask, fl)],
                   "oper": ["WHO op1", "WHO * o", "WHOIS op1", "USERHOST op1", "USERIP op1", "STATS p"]}
        if r.random() < .4 and any(k in special for k in self.kinds):
            q = r.choice(special[r.choice([k for k in self.kinds if k in special])])
        if "idle" in self.kinds and q.startswith("WHOIS") and q.count(" ") > 1:
            return      # asking a user's own server shows the idle time by design
        if "nick" in self.kinds and q.split(" ")[0] in ("ISON",):
            return
        self.c[who].send(q)
        self.s.advance(3)
        self.settle()
        self.answer_remote(q)
        self.note(q)
        self.c["ctl"].send(q if not q.startswith(("KILL", "SQUIT", "CONNECT", "JOIN", "PART", "INVITE", "KICK", "TOPIC #s1 :", "TOPIC #s2 :", "MODE #", "CLOSE", "NOTICE", "PRIVMSG")) else "LINKS")
        self.s.advance(3)
        self.settle()
        self.ctl_log.append([m.raw for m in self.c["ctl"].take() if m.cmd != "NOTICE"])
        for n in ("obs", "mem"):
            self.c[n].take()

    def answer_remote(self, q):
        """The remote servers answer queries for their users, as real ones do."""
        for link, o in ((self.fa, "fa"), (self.fb, "fb")):
            link.pump()
            todo, link.msgs = link.msgs, []
            for m in todo:
                if m.cmd == "N" and len(m.args) > 3:
                    self.nums = getattr(self, "nums", {})
                    self.nums[m.args[0]] = m.args[-2]
                if m.cmd in ("W", "V", "TI", "AD", "MO", "F", "X"):
                    to = m.args[0][:2] if m.cmd != "W" else m.args[0][:2]
                    yy = to if to in (link.yy, self.sub) else link.yy
                    link.send("%s 351 %s u2.10 * :whatever" % (yy, m.src))
        self.settle()
