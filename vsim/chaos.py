"""Randomised, protocol-aware traffic from every role the server faces."""
import random
import vsim, p10
from p10 import enc

NICKS = ["alice", "bob", "carl", "d[]x", "D{}X", "eve|", "eve\\", "fred^", "fred~", "gus-1", "h_h", "i2", "abcdefghijkl",
         "abcdefghijklm", "Zed", "zed"]
CHANS = ["#a", "#A", "#b", "#c[]", "#C{}", "&loc", "&l2", "#" + "x" * 150, "#" + "y" * 210, "#k", "+p", "#d,e"]
SRVS = ["hub.test.net", "fa.test.net", "fb.test.net", "*.test.net", "sub.fa.test.net", "nosuch.net", "*", "juped.test.net"]
MASKS = ["*!*@*", "alice!*@*", "*!*@10.1.*", "*!*@10.1.1.0/24", "*!u*@*", "*@10.1.1.1", "*!*@2001:db8::/32", "nick", "a!b@c",
         "*!*@*.users.undernet.org", "**!*?*@?*", "x" * 60 + "!*@*", "*!" + "u" * 40 + "@" + "h" * 80, "~*!*@*", "!@", "@", "*@",
         "*!*@10.1.1.0/33", "*!*@0/0", "*!*@::/0", "\\*!*@*", "*!*@fake.host", "*!*@1.2.3", "*!*@10.1.1.1/0"]
WORDS = ["hello", "x" * 100, "", " ", ":", "::", "#", "\x01ACTION x\x01", "\x02b\x03", "é\xff", "a b c", "%s%n%d", "\x01DCC SEND x\x01",
         "0", "-1", "1", "999999999999", "2147483648", "4294967296", "y" * 400, "=", "!", ",,,", "a,b,c", "+", "-", "*", "?", "@#a", "+#a", "@+#a"]
CMDS = """PRIVMSG WHO WHOIS WHOWAS USER NICK LIST TOPIC INVITE VERSION QUIT INFO LINKS STATS HELP ERROR AWAY MAP PING PONG OPER PASS
 NAMES ADMIN TRACE NOTICE TAGMSG WALLCHOPS WALLVOICES CPRIVMSG CNOTICE JOIN PART LUSERS MOTD MODE KICK USERHOST USERIP ISON SQUERY
 SILENCE PROTO POST WEBIRC CAP AUTHENTICATE HASH TIME DNS SERVER""".split()
OCMDS = """SQUIT KILL CONNECT WALLOPS WALLUSERS DESYNCH SETTIME RPING REHASH CLOSE GLINE JUPE OPMODE CLEARMODE ASLL SET RESET GET PRIVS
 XQUERY UPING STATS TRACE MODE OPER""".split()
FEATS = {"MAXCHANNELSPERUSER": "1 3 10 50", "NICKLEN": "9 12 15", "CHANNELLEN": "20 100 200", "TOPICLEN": "20 160 250", "AWAYLEN": "20 160 250",
         "HIDDEN_HOST": "users.undernet.org x.y", "HUB": "TRUE FALSE", "MAXBANS": "2 5 45", "AVBANLEN": "20 40",
         "KICKLEN": "20 160", "MAXSILES": "2 5 25", "NICKNAMEHISTORYLENGTH": "0 1 2 10 800", "LOCAL_CHANNELS": "TRUE FALSE",
         "AUTH_TIMEOUT": "3 9 20", "PINGFREQUENCY": "20 60 120", "CONNECTFREQUENCY": "20 600", "CLIENT_FLOOD": "512 1024 4096", "HOST_HIDING": "TRUE FALSE",
         "NOTHROTTLE": "TRUE FALSE", "AUTOINVISIBLE": "TRUE FALSE", "IPCHECK_CLONE_PERIOD": "5 40", "KILLCHASETIMELIMIT": "1 30",
         "POLLS_PER_LOOP": "20 100 200", "DEFAULT_LIST_PARAM": "<10 T<5 x", "ANNOUNCE_INVITES": "TRUE FALSE", "OPLEVELS": "TRUE FALSE",
         "ZANNELS": "TRUE FALSE", "HIS_WHOIS_SERVERNAME": "TRUE FALSE", "WALLOPS_OPER_ONLY": "TRUE FALSE", "IRCD_RES_TIMEOUT": "2 4",
         "OPER_NO_CHAN_LIMIT": "TRUE FALSE", "OPERS_SEE_IN_SECRET_CHANNELS": "TRUE FALSE", "TOPIC_BURST": "TRUE FALSE", "WORD": "x",
         "UNKNOWN_CMD_LIMIT": "1", "CONNECTTIMEOUT": "5 90", "MAXIMUM_LINKS": "1 5", "RANDOM_SEED": "abc", "NOSUCH": "1"}
MODES_UM = "+-oOiwskgdxrRzctbnplmeI"
CHM = "+-ovbklimnpstrDdRcCuMZzAU"
CAPS = ["away-notify", "account-notify", "extended-join", "multi-prefix", "userhost-in-names", "chghost", "invite-notify", "echo-message",
        "message-tags", "server-time", "account-tag", "sasl", "cap-notify", "standard-replies", "batch", "labeled-response", "msgid",
        "tls", "nosuch", "-away-notify", "undernet.org/x"]


def hub_conf(rng=None, feats=None, extra="", **kw):
    f = {"OPLEVELS": "FALSE", "HIDDEN_HOST": "users.undernet.org", "HOST_HIDING": "TRUE"}
    f.update(feats or {})
    return vsim.conf(
        ports=((6667, ""), (4400, "server=yes"), (7000, "websocket=yes")),
        connects=['name="fa.test.net"; host="10.200.0.1"; password="testpass"; class="Server"; hub; autoconnect=no',
                  'name="fb.test.net"; host="10.200.0.2"; password="testpass"; class="Server"; hub; autoconnect=no',
                  'name="leaf.test.net"; host="10.200.0.3"; password="testpass"; class="Server"; leaf; autoconnect=no'],
        uworld=['name="fa.test.net"'],
        opers=['local=no; class="Opers"; host="*@*"; password="$PLAIN$operpass"; name="oper"; badchan=yes; set=yes; '
               'local_badchan=yes; whox=yes; see_chan=yes; show_invis=yes; show_all_invis=yes; list_chan=yes; '
               'opmode=yes; gline=yes; local_gline=yes; jupe=yes; local_jupe=yes; kill=yes; rehash=yes; walk_lchan=yes; '
               'deop_lchan=yes; force_opmode=yes; force_local_opmode=yes; apass_opmode=yes; display=yes; wide_gline=yes; unlimit_query=yes; see_opers=yes; propagate=yes; '
               'die=no; restart=no; local_opmode=yes',
               'local=yes; class="Local"; host="*@10.*"; password="$PLAIN$lpass"; name="loper"'],
        features=f, extra=extra, **kw)


class Chaos:
    def __init__(self, ctx, s, rng, dirty=0.1, slines=True):
        self.ctx, self.s, self.rng, self.dirty = ctx, s, rng, dirty
        self.cl = []       # client conns
        self.fs = []       # fake servers
        self.kinds = set()
        self.nn_pool = []
        self.old = []      # nicks that were given up lately

    # -------- vocabulary
    def nick(self):
        r = self.rng
        if self.old and r.random() < .05:
            return r.choice(self.old)
        if r.random() < .08:
            return "".join(r.choice("abcXYZ[]{}|^~_-0123") for _ in range(r.randint(1, 16)))
        return r.choice(NICKS)

    def chan(self):
        r = self.rng
        if r.random() < .1:
            return "#" + "".join(r.choice("abXY[]{}|^~\x03\x02\xe9\xa0") for _ in range(r.randint(0, 230)))
        return r.choice(CHANS) if r.random() < .3 else r.choice(CHANS[:8])

    def mask(self):
        r = self.rng
        if r.random() < .2:
            return "".join(r.choice("ab*?\\!@.1/:~-_") for _ in range(r.randint(1, 60)))
        return r.choice(MASKS)

    def num(self):
        r = self.rng
        return str(r.choice([0, 1, 2, 5, 10, 60, 3600, self.s.now, self.s.now + 5, self.s.now - 5, -1, 2 ** 31 - 1, 2 ** 31, 2 ** 32, 2 ** 63, 7 * 86400,
                             r.randint(0, 10 ** 6)]))

    def word(self):
        r = self.rng
        if r.random() < .15:
            return "".join(chr(r.choice([*range(1, 10), *range(11, 13), *range(14, 256)])) for _ in range(r.randint(1, 60)))
        return r.choice(WORDS)

    def tgt(self):
        r = self.rng
        k = r.random()
        if k < .45:
            return self.nick()
        if k < .8:
            return self.chan()
        if k < .9:
            return ",".join(r.choice([self.nick, self.chan])() for _ in range(r.randint(2, 6)))
        if k < .95:
            return "@" + self.chan()
        return r.choice(["$*.test.net", "$hub.test.net", "alice@hub.test.net", "bob%x@hub", "#", "&", "", "*"])

    def chmode(self):
        r = self.rng
        s = "".join(r.choice(CHM) for _ in range(r.randint(1, 14)))
        a = []
        for _ in range(r.randint(0, 8)):
            a.append(r.choice([self.nick, self.mask, self.word, self.num])())
        return " ".join([s] + a)

    def junk(self):
        r = self.rng
        return r.choice([self.nick, self.chan, self.mask, self.num, self.word, self.tgt, lambda: r.choice(SRVS), self.chmode])()

    # -------- clients
    def add_client(self, ip=None, port=6667, register=True, nick=None):
        r = self.rng
        ip = ip or r.choice(["10.1.1.%d" % r.randint(1, 4), "2001:db8::%x" % r.randint(1, 4), "10.1.2.%d" % r.randint(1, 250)])
        try:
            c = self.s.connect(ip, port)
        except OSError:
            return None
        self.cl.append(c)
        if register:
            if r.random() < .3:
                c.send("CAP LS 302")
                c.send("CAP REQ :" + " ".join(r.sample(CAPS, r.randint(1, 4))))
                c.send("CAP END")
            c.send("NICK " + (nick or self.nick()))
            c.send("USER %s 0 * :%s" % (r.choice(["u1", "~x", "u" * 15, "root"]), r.choice(["real name", "", "x" * 60])))
            self.s.sync()
            c.pump()
            self.s.sync()
            if r.random() < .25:
                c.send("OPER oper operpass")
        return c

    def client_line(self):
        r = self.rng
        k = r.random()
        if k < .13:
            l = "JOIN " + ",".join(self.chan() for _ in range(r.choice([1, 1, 2, 5]))) + r.choice(["", " key", " k1,k2", " a:b"])
        elif k < .26:
            l = "MODE %s %s" % (self.chan() if r.random() < .85 else self.nick(), self.chmode())
        elif k < .30:
            l = "MODE %s %s" % (self.nick(), "".join(r.choice(MODES_UM) for _ in range(r.randint(1, 6))) + r.choice(["", " x@y.z", " x"]))
        elif k < .35:
            l = "PART %s%s" % (",".join(self.chan() for _ in range(r.choice([1, 1, 3]))), r.choice(["", " :bye"]))
        elif k < .40:
            l = "NICK " + self.nick()
        elif k < .48:
            l = "%s %s :%s" % (r.choice(["PRIVMSG", "NOTICE", "TAGMSG", "WALLCHOPS", "WALLVOICES"]), self.tgt(), self.word())
        elif k < .52:
            l = "KICK %s %s :%s" % (self.chan(), self.nick(), self.word())
        elif k < .55:
            l = "TOPIC %s%s" % (self.chan(), r.choice(["", " :" + self.word()]))
        elif k < .58:
            l = "INVITE %s %s" % (self.nick(), self.chan())
        elif k < .61:
            l = "SILENCE %s%s" % (r.choice(["+", "-", "", "~", "+~"]), ",".join(self.mask() for _ in range(r.randint(0, 3))))
        elif k < .64:
            l = "WHO %s %s" % (self.junk(), r.choice(["", "o", "x%tcuihsnfdlar", "o%nuhi,123", "%", "nuhisra%nf", "x", "%" + self.word()]))
        elif k < .67:
            l = r.choice(["WHOIS %s %s" % (r.choice(SRVS), self.nick()), "WHOIS " + ",".join(self.nick() for _ in range(4)),
                          "WHOWAS %s %s" % (self.nick(), self.num()), "LIST %s" % r.choice(["", "<10,>1", "T<5", "*a*", "C>0", "#a,#b", "STOP", "S", "M*", "R<3", self.word()]),
                          "NAMES " + self.tgt(), "STATS %s %s %s" % (r.choice("cdeEfgGiIjJklLmMopPqrRStTuUvVwWxzZ*"), r.choice(SRVS), self.junk()),
                          "CAP %s :%s" % (r.choice(["LS 302", "LS", "REQ", "LIST", "END", "ACK", "CLEAR", "NAK"]), " ".join(r.sample(CAPS, r.randint(0, 3)))),
                          "ISON " + " ".join(self.nick() for _ in range(6)), "USERHOST " + " ".join(self.nick() for _ in range(6)),
                          "USERIP " + " ".join(self.nick() for _ in range(6)), "AWAY" + r.choice(["", " :" + self.word()]),
                          "CPRIVMSG %s %s :%s" % (self.nick(), self.chan(), self.word()), "AUTHENTICATE " + r.choice(["PLAIN", "*", "+", "A" * 400, "EXTERNAL", self.word()])])
        elif k < .71:
            l = "OPER %s" % r.choice(["oper operpass", "oper bad", "loper lpass", "x", "oper"])
        elif k < .83:
            l = self.oper_line()
        elif k < .86:
            # message tags
            l = "@" + ";".join(r.choice(["+a=b", "+x", "msgid=1", "time=z", "+" + "k" * r.choice([5, 50, 5000]) + "=" + "v" * r.choice([1, 100, 4000]),
                                         "=", ";", "+e=\\:\\s\\", "label=1"]) for _ in range(r.randint(0, 4))) + " " + r.choice(
                ["PRIVMSG %s :t" % self.tgt(), "TAGMSG %s" % self.tgt(), "NOTICE %s :x" % self.tgt(), "", "PING x"])
        else:
            cmd = r.choice(CMDS + OCMDS)
            if r.random() < .03:
                cmd = "QUIT"
            elif cmd in ("QUIT", "POST", "ERROR") and r.random() < .8:
                cmd = "PING"
            l = cmd + "".join(" " + self.junk() for _ in range(r.choice([0, 1, 1, 2, 2, 3, 5, 15, 20])))
        self.kinds.add("c:" + l.split(" ", 1)[0][:12])
        return l

    def oper_line(self):
        r = self.rng
        h = r.choice(["*@10.99.*", "nick!u@h", "*@1.2.3.0/24", "*@10.1.2.3", "#bad*", "#a", "*@fake.host", "$Rreal*", "*@*", "u*@10.1.2.*", self.mask()])
        return r.choice([
            lambda: "GLINE %s%s %s %s :%s" % (r.choice(["+", "-", "!+", "!-", "", ">", "<"]), h, r.choice(SRVS), self.num(), self.word()),
            lambda: "GLINE %s%s %s :%s" % (r.choice(["+", "-", "!+"]), h, self.num(), self.word()),
            lambda: "GLINE %s" % r.choice(["", h]),
            lambda: "JUPE %s%s %s %s :%s" % (r.choice(["+", "-", ""]), r.choice(["juped.test.net", "x.y", "fa.test.net", self.word()]), r.choice(SRVS), self.num(), self.word()),
            lambda: "JUPE",
            lambda: "KILL %s :%s" % (self.nick(), self.word()),
            lambda: "OPMODE %s %s" % (self.chan(), self.chmode()),
            lambda: "CLEARMODE %s %s" % (self.chan(), self.word()),
            lambda: "SQUIT %s %s :x" % (r.choice(SRVS), self.num()) if r.random() < .3 else "LINKS",
            lambda: "CONNECT %s %s %s" % (r.choice(SRVS + ["leaf.test.net"]), r.choice(["4400", "", "0", "99999"]), r.choice(["", "hub.test.net", "fa.test.net"])),
            lambda: "WALLOPS :" + self.word(), lambda: "WALLUSERS :" + self.word(),
            lambda: "SETTIME %s %s" % (self.num(), r.choice(SRVS)),
            lambda: "RPING %s %s :%s" % (r.choice(SRVS), self.num(), self.word()),
            lambda: "UPING %s %s %s %s" % (r.choice(SRVS), self.num(), r.choice(SRVS), self.num()),
            lambda: "REHASH %s" % r.choice(["", "m", "l", "q", "s", "b", "z"]),
            lambda: "SET %s %s" % (lambda k: (k, r.choice(FEATS[k].split()) if r.random() < .85 or FEATS[k].startswith(("TRUE", "FALSE")) else r.choice(["0", "-1", "99999", "x"])))(
                r.choice(list(FEATS) + ["CONNECTFREQUENCY"])),
            lambda: "RESET %s" % r.choice(list(FEATS)), lambda: "GET %s" % r.choice(list(FEATS) + [self.word()]),
            lambda: "PRIVS %s" % self.nick(), lambda: "CLOSE", lambda: "TRACE %s" % self.junk(),
            lambda: "XQUERY %s tok :%s" % (r.choice(SRVS), self.word()), lambda: "ASLL %s" % r.choice(SRVS),
            lambda: "STATS %s" % r.choice("cdeEfgGiIjJklLmMopPqrRStTuUvVwWxzZ"),
            lambda: "MODE %s +%s" % (self.nick(), r.choice(["k", "g", "s 65535", "s +1", "s -3", "o", "O", "-o"])),
            lambda: "PRIVMSG $*.net :%s" % self.word(), lambda: "DESYNCH :x",
        ])()

    def step_client(self):
        r = self.rng
        if not self.cl or (len(self.cl) < 8 and r.random() < .05):
            self.add_client(register=r.random() < .9)
            return
        c = r.choice(self.cl)
        if c.eof:
            c.close()
            self.cl.remove(c)
            return
        if r.random() < .02:
            return self.churn(c)
        n = r.choice([1, 1, 1, 2, 5])
        for _ in range(n):
            l = self.client_line()
            b = l.encode("latin-1", "replace")
            if r.random() < self.dirty:
                b = mutate(r, b)
            self.ctx.log("%s> %r" % (c.sport, b[:300]))
            c.send_raw(b + r.choice([b"\r\n", b"\r\n", b"\n", b"\r", b"\n\r\n"]))
        if r.random() < .02:
            self.ctx.log("%s close" % c.sport)
            c.close()
            self.cl.remove(c)

    def churn(self, c):
        """A user goes through several nicks and (mostly) leaves; others then ask for the names it had."""
        r = self.rng
        names = ["q%d%s" % (len(self.old), x) for x in "abc"[:r.randint(2, 3)]]
        ls = ["NICK " + n for n in names]
        if r.random() < .7:
            ls.append("QUIT")
        for l in ls:
            self.ctx.log("%s> %r" % (c.sport, l))
            c.send_raw(l.encode() + b"\r\n")
        self.old = self.old[-8:] + names
        self.s.sync()
        for _ in range(r.randint(1, 4)):
            o = r.choice(self.cl)
            n = r.choice(names)
            l = r.choice(["KILL %s :x" % n, "KICK %s %s :x" % (self.chan(), n), "MODE %s +o %s" % (self.chan(), n), "WHOWAS " + n, "MODE %s -v %s" % (self.chan(), n)])
            self.ctx.log("%s> %r" % (o.sport, l))
            o.send_raw(l.encode() + b"\r\n")

    # -------- servers
    def add_server(self, name="fa.test.net", numeric=5, ip="10.200.0.1", burst=True):
        f = p10.FakeServer(self.s, name, numeric, ip=ip)
        f.subs = []
        self.fs.append(f)
        self.s.sync()
        f.pump()
        if burst:
            r = self.rng
            for i in range(r.randint(1, 4)):
                self.sv_user(f)
            f.send("%s S %s.%s 2 0 %d P10 %s]]] +h :sub" % (f.yy, "sub", name, self.s.now, enc(numeric + 1, 2)))
            f.subs.append(enc(numeric + 1, 2))
            for i in range(2):
                self.sv_user(f, yy=f.subs[0], hop=2)
            f.send(self.burst_line(f))
            f.eob()
            self.s.sync()
            f.pump()
        return f

    def sv_user(self, f, yy=None, hop=1):
        r = self.rng
        nn, l = f.user_line(self.nick(), user=r.choice(["fu", "u1", "~z"]), host=r.choice(["fake.host", "h" * 63, "10.1.1.1"]),
                            ip=r.choice(["10.1.1.1", "1.2.3.4", "2001:db8::5"]), modes=r.choice(["", "i", "o", "ix", "r acc", "w", "r acc:1:2", "oik"]),
                            ts=self.s.now - r.randint(-5, 500), yy=yy, hop=hop)
        f.send(l)
        self.ctx.log("S%s> %s" % (f.yy, l))
        return nn

    def anynn(self, f):
        r = self.rng
        k = r.random()
        mine = list(f.users)
        if k < .5 and mine:
            return r.choice(mine)
        if k < .9:
            return "AB" + enc(r.randint(0, 12), 3)
        if k < .95:
            return r.choice([f.yy, "AB", "]]", "AB]]]"] + f.subs)
        return "".join(r.choice(p10.B64) for _ in range(r.choice([1, 2, 3, 5, 6])))

    def mynn(self, f):
        r = self.rng
        mine = list(f.users)
        return r.choice(mine) if mine and r.random() < .85 else r.choice([f.yy] + f.subs)

    def burst_line(self, f):
        r = self.rng
        mem = list(f.users)
        r.shuffle(mem)
        mem = mem[:r.randint(1, 5)] or [f.yy + "AAA"]
        ml = ",".join(m + r.choice(["", "", ":o", ":v", ":ov", ":1", ":999"]) for m in mem)
        o = "%s B %s %d" % (f.yy, self.chan(), self.s.now - r.choice([0, 5, 100, 1000, -100]))
        if r.random() < .7:
            o += " +" + r.choice(["tn", "ntl 5", "ntk key", "ntkl key 9", "sntDr", "psmZ", "ntAU apass upass", ""])
        o += " " + ml
        if r.random() < .4:
            o += " :%" + " ".join(self.mask() for _ in range(r.randint(1, 4)))
        return o

    def server_line(self, f):
        r = self.rng
        u = self.mynn(f)
        yy = f.yy
        ch = self.chan()
        return r.choice([
            lambda: self.burst_line(f),
            lambda: "%s J %s %s" % (u, ch, self.num()),
            lambda: "%s C %s %s" % (u, ch, self.num()),
            lambda: "%s L %s :x" % (u, ch),
            lambda: "%s M %s %s" % (r.choice([u, yy]), ch, self.chmode_s(f)),
            lambda: "%s OM %s %s" % (r.choice([u, yy]), ch, self.chmode_s(f)),
            lambda: "%s CM %s %s" % (r.choice([u, yy]), ch, r.choice(["ov", "ovpsmikbl", "k", "b"])),
            lambda: "%s K %s %s :%s" % (r.choice([u, yy]), ch, self.anynn(f), self.word()),
            lambda: "%s T %s %s %s :%s" % (r.choice([u, yy]), ch, self.num(), self.num(), self.word()),
            lambda: "%s T %s :%s" % (u, ch, self.word()),
            lambda: "%s P %s :%s" % (r.choice([u, yy]), r.choice([self.anynn(f), ch, "@" + ch, "$*.net"]), self.word()),
            lambda: "%s O %s :%s" % (r.choice([u, yy]), r.choice([self.anynn(f), ch]), self.word()),
            lambda: "@%s %s TM %s" % (r.choice(["+a=b", "time=2023-11-14T22:13:20.000Z", "msgid=x;+y"]), u, r.choice([self.anynn(f), ch])),
            lambda: "%s N %s %s" % (u, self.nick(), self.num()),
            lambda: self.sv_user(f) and "%s G :x" % yy,
            lambda: "%s Q :%s" % (u, self.word()) if r.random() < .4 else "%s A" % u,
            lambda: "%s D %s :%s" % (r.choice([u, yy]), self.anynn(f), "a!b (x)") if r.random() < .4 else "%s A :away" % u,
            lambda: "%s AC %s %s %s" % (yy, self.anynn(f), r.choice(["acc", "Xx", "R acc"]), r.choice(["", self.num(), "%s:1" % self.num()])),
            lambda: "%s GL * %s%s %s %s :%s" % (yy, r.choice("+-"), r.choice(["*@9.9.9.9", "#bad", "*@fake.host", "$Rx", "u!i@k", self.mask()]), self.num(), self.num(), self.word()),
            lambda: "%s GL %s %s %s :%s" % (yy, "AB", r.choice(["+*@9.8.8.8", "-*@9.8.8.8"]), self.num(), "r"),
            lambda: "%s JU * %s%s %s %s :%s" % (yy, r.choice("+-"), r.choice(["juped.test.net", "j2.test.net"]), self.num(), self.num(), self.word()),
            lambda: "%s SQ %s 0 :x" % (r.choice([yy, u]), r.choice(["sub.fa.test.net", "nosuch"])) if r.random() < .2 else "%s V AB" % u,
            lambda: "%s S sub%d.test.net 2 0 %d J10 %s]]] +h6 :d" % (yy, r.randint(0, 3), self.s.now, enc(r.choice([6, 7, 50, 51, 52]), 2)),
            lambda: "%s W AB :%s" % (u, self.nick()),
            lambda: "%s WA :%s" % (r.choice([u, yy]), self.word()),
            lambda: "%s WU :%s" % (r.choice([u, yy]), self.word()),
            lambda: "%s DS :%s" % (r.choice([u, yy]), self.word()),
            lambda: "%s I %s %s %s" % (u, self.nick(), ch, self.num()),
            lambda: "%s U %s %s" % (u, r.choice(["*", self.anynn(f)]), self.mask()),
            lambda: "%s SE %s %s" % (yy, self.num(), r.choice(["", "AB"])),
            lambda: "%s RI %s %s %s %s :x" % (u, "AB", u, self.num(), self.num()),
            lambda: "%s RO %s %s %s :x" % (yy, self.anynn(f), self.num(), self.num()),
            lambda: "%s R %s AB" % (u, r.choice("gGcfiIjJlLmpPuUvVxz")),
            lambda: "%s DE %s %s" % (yy, ch, self.num()),
            lambda: "%s EB" % yy, lambda: "%s EA" % yy,
            lambda: "%s G !%s.%s AB %s" % (yy, self.num(), self.num(), self.num()),
            lambda: "%s Z AB %s %s %s" % (yy, r.choice(["AB", "!%s.1" % self.num()]), self.num(), self.num()),
            lambda: "%s XQ AB tok :%s" % (yy, self.word()), lambda: "%s XR AB %s :%s" % (yy, r.choice(["iauth:1", "sasl:1", "x"]), self.word()),
            lambda: "%s CF %s %s %s" % (yy, self.num(), r.choice(["a", "sasl.server", "sasl.mechanisms"]), r.choice(["", "b", "PLAIN"])),
            lambda: "%s SL %s %s %s" % (yy, r.choice(["+", "-", "*", ""]), self.num(), self.word()),
            lambda: "%s PR %s %s" % (yy, self.anynn(f), "OPMODE GLINE"),
            lambda: "%s CO %s 4400 AB" % (u, "leaf.test.net"), lambda: "%s UP AB 7 fa.test.net 3" % u,
            lambda: "%s X %s 5 AB" % (u, self.nick()), lambda: "%s E %s AB" % (u, ch), lambda: "%s LI AB *" % u, lambda: "%s TR AB" % u,
            lambda: "%s %s %s :x" % (yy, r.choice(["401", "311", "365", "219", "999"]), self.anynn(f)),
            lambda: "%s M %s %s" % (u, self.nick(), r.choice(["+o", "-o", "+x", "+i", "+k", "-x", "+r acc", "+s"])),
            lambda: "%s OPER %s a b" % (u, "AB"), lambda: "%s LL AB" % u, lambda: "%s LU * AB" % u, lambda: "%s TI AB" % u,
            lambda: "%s MO AB" % u, lambda: "%s AD AB" % u, lambda: "%s F AB" % u,
            lambda: "%s B %s %s %s" % (yy, ch, self.num(), "".join(r.choice("ABC:ov,+%") for _ in range(20))),
        ])()

    def chmode_s(self, f):
        r = self.rng
        s = "".join(r.choice(CHM) for _ in range(r.randint(1, 14)))
        a = []
        for _ in range(r.randint(0, 8)):
            a.append(r.choice([lambda: self.anynn(f), self.mask, self.word, self.num])())
        return " ".join([s] + a)

    def step_server(self):
        r = self.rng
        if not self.fs:
            return self.add_server()
        f = r.choice(self.fs)
        if f.eof:
            f.close()
            self.fs.remove(f)
            return
        for _ in range(r.choice([1, 1, 2, 4])):
            l = self.server_line(f)
            self.kinds.add("s:" + (l.split(" ") + ["", ""])[1][:6])
            b = l.encode("latin-1", "replace")
            if r.random() < self.dirty * .3:
                b = mutate(r, b)
            self.ctx.log("S%s> %r" % (f.yy, b[:400]))
            f.send_raw(b + b"\r\n")

    def settle(self, adv=None):
        if adv is None:
            adv = self.rng.choice([0, 1, 3, 3, 3, 12])
        if adv:
            self.s.advance(adv)
        else:
            self.s.sync()
        for c in self.cl + self.fs:
            c.pump()
            self.ctx.count("lines_out", len(c.lines) if not isinstance(c, p10.FakeServer) else len(c.msgs))
            c.lines = []
            if isinstance(c, p10.FakeServer):
                c.msgs = []


def mutate(r, b):
    b = bytearray(b)
    for _ in range(r.randint(1, 4)):
        k = r.random()
        if not b:
            b = bytearray(b"x")
        i = r.randrange(len(b))
        if k < .3:
            b[i] = r.choice([0, 1, 2, 7, 32, 58, 44, 33, 64, 42, 63, 92, 255, 128, r.randrange(256)])
        elif k < .5:
            b[i:i] = bytes([r.choice([32, 58, 44, 0, 10, 13, 64, 33])] * r.choice([1, 1, 2, 20]))
        elif k < .7:
            del b[i:i + r.choice([1, 2, 10])]
        elif k < .85:
            b[i:i] = b[:r.randint(0, len(b))]
        else:
            b[i:i] = bytes(r.randrange(256) for _ in range(r.choice([1, 5, 30, 600])))
    return bytes(b)
