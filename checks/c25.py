"""WHO, LIST and WHOWAS: completeness, visibility and truth of the answers"""
import kit, vsim, p10, masks
from masks import match, lower
PROPERTY = "C25"
RULE = ("a server with users and channels of known attributes (its own and those of two servers behind a link); WHO with every selector and field, LIST with every condition (also while it is paused by a full queue and channels come and go) "
        "and WHOWAS after quits, kills, nick changes and splits, asked by ordinary users and operators; each answer is compared as a set (WHOWAS as a sequence) with the reference, field by field; distinct counts (query form, asker, outcome)")
ASSUMPTIONS = ["no zombies and no delayed joins are on the channels asked about", "where several public or common channels could be shown for a user any of them is accepted",
               "the WHO limit is judged within two rows", "the age limits of LIST are probed at least three seconds off the exact minute"]
MUST_SEE = ["who:channel", "who:nick", "who:mask", "who:all", "who:oper", "who:limit", "who:fields", "who:hidden", "who:secret", "who:invisible", "who:x", "list:all", "list:users", "list:age", "list:topic", "list:mask", "list:notmask", "list:name",
            "list:secret", "list:modes", "list:paused", "list:oper", "whowas:found", "whowas:none", "whowas:max", "whowas:nick", "whowas:split", "whowas:kill", "whowas:forgot", "whowas:trim", "whowas:list", "whowas:hidden"]
HIS, HIP, SUF = "*.undernet.org", "127.0.0.1", "users.undernet.org"
WORDS = ["ann", "bob", "carl", "dora", "Eve", "fay", "g[x]", "Hal", "ida", "jo^", "ken", "lea"]
HOSTS = ["h%d.example.net", "host%d.isp.org", "dsl-%d.provider.example", "h%d.example.org"]
REALS = ["Ann Smith", "bob the builder", "real name", "A Bot", "x", "long name with many words"]
ACCTS = ["alpha", "beta", "Gamma", "annie"]


def plan(tier, seed):
    n = 2000 if tier == "quick" else 20000
    return [{"seed": seed, "i": i, "kind": "whowas" if i % 5 == 4 else "paused" if i % 5 == 3 and i % 2 else "limit" if i % 20 == 8 else "mixed"} for i in range(n)]


class U:
    def __init__(self, **k):
        self.away = self.deaf = self.wal = self.dbg = False
        self.acct = ""
        self.__dict__.update(k)
        self.chans = {}          # Chan -> status ("", "@", "+", "@+")

    @property
    def vhost(self):
        return "%s.%s" % (self.acct, SUF) if self.hidden else self.host

    @property
    def hidden(self):
        return self.x and bool(self.acct)


class Ch:
    def __init__(self, name, ts, modes):
        self.name, self.ts, self.modes, self.topic, self.tts = name, ts, modes, "", 0
        self.mem = {}


class Run:
    def __init__(self, ctx):
        self.ctx, self.r = ctx, ctx.rng

    # ---- the world
    def run(self):
        ctx, r = self.ctx, self.r
        p = ctx.params
        self.kind = p["kind"]
        sendq = r.choice([14000, 20000]) if self.kind == "paused" else 160000
        feats = {"HIS_WHO_SERVERNAME": "TRUE", "WHO_X": None}
        feats.pop("WHO_X")
        self.hist_len = r.choice([3, 8, 20, 800]) if self.kind == "whowas" else 800
        feats["NICKNAMEHISTORYLENGTH"] = str(self.hist_len)
        self.his = r.random() < .8
        if not self.his:
            feats["HIS_WHO_SERVERNAME"] = feats["HIS_WHOIS_SERVERNAME"] = "FALSE"
        feats["HOST_HIDING"] = "TRUE"
        feats["MAXCHANNELSPERUSER"] = "60"
        cl = ['name = "Local"; pingfreq = 1000 minutes; sendq = %d; maxlinks = 250; maxflood = 60000; usermode = "";' % sendq,
              'name = "Opers"; pingfreq = 1000 minutes; sendq = 1600000; maxlinks = 100; local = no; maxflood = 60000;',
              'name = "Server"; pingfreq = 1000 minutes; connectfreq = 100 minutes; sendq = 9000000; maxlinks = 40;']
        op = ['local = no; class = "Opers"; host = "*@*"; password = "$PLAIN$operpass"; name = "oper"; set = yes;']
        conf = vsim.conf(opers=op, ports=((6667, ""), (4400, "server = yes; hidden = yes")), features=feats, classes=cl,
                         connects=['name = "fa.test.net"; host = "10.200.0.1"; password = "testpass"; port = 4400; class = "Server"; autoconnect = no; hub'])
        fault = dict(seed=p["i"] + 1)
        if self.kind == "paused":
            fault.update(sndbuf=4096, wmax=r.choice([0, 100, 513]))
        self.s = s = ctx.ircd(conf)
        self.users, self.chans = [], []
        fa = self.fa = kit.peer(s, eob=False)
        self.name = {fa.yy: "fa.test.net"}
        self.fby = p10.enc(6, 2)
        fa.send("%s S fb.test.net 2 0 %d J10 %s]]] 0 :behind" % (fa.yy, s.now - 900, self.fby))
        self.nidx = {fa.yy: 0, self.fby: 0}
        n = r.randint(230, 260) if self.kind == "limit" else r.randint(3, 12) if self.kind == "whowas" else r.randint(4, 30)
        for i in range(n):
            self.remote(i)
        self.channels(r.randint(150, 400) if self.kind == "paused" else r.randint(0, 40))
        fa.eob()
        for _ in range(60):
            kit.settle(s, [fa])
            if fa.eob_seen:
                break
        kit.settle(s, [fa])
        self.locals()
        if self.kind == "paused":
            s.fault(**fault)
        if self.kind in ("mixed", "limit"):
            for _ in range(r.randint(14, 22)):
                self.step()
        elif self.kind == "paused":
            for _ in range(4):
                self.paused()
        else:
            self.whowas_run()

    def remote(self, i):
        r, fa = self.r, self.fa
        srv = r.choice([fa.yy, fa.yy, self.fby])
        u = U(nick="%s%d" % (r.choice(WORDS), i), user=r.choice(["u", "~u", "longuserna", "~longuserb", "root", "guest%d" % (i % 4), "~Ann"]), host=r.choice(HOSTS) % i, ip="10.%d.%d.%d" % (r.randint(20, 22), r.randint(0, 3), i % 250 + 1),
              info=r.choice(REALS), srv=srv, local=False, inv=r.random() < .3, x=r.random() < .3, oper=r.random() < .12, c=None)
        u.acct = r.choice(ACCTS) if r.random() < .4 else ""
        u.deaf, u.wal, u.dbg = r.random() < .1, r.random() < .1, r.random() < .1
        u.hop = 1 if srv == fa.yy else 2
        m = "".join(c for c, b in (("o", u.oper), ("i", u.inv), ("d", u.deaf), ("w", u.wal), ("g", u.dbg), ("x", u.x)) if b)
        if u.acct:
            m += "r " + u.acct
        u.num = srv + p10.enc(self.nidx[srv], 3)
        self.nidx[srv] += 1
        self.fa.send("%s N %s %d %d %s %s%s %s %s :%s" % (srv, u.nick, u.hop, self.s.now - 500, u.user, u.host, " +" + m if m else "", p10.ip_enc(u.ip), u.num, u.info))
        if r.random() < .2:
            u.away = "gone %d" % i
            self.fa.send("%s A :%s" % (u.num, u.away))
        u.srvname = "fa.test.net" if srv == fa.yy else "fb.test.net"
        self.users.append(u)
        return u

    def channels(self, n):
        r, s, fa = self.r, self.s, self.fa
        for i in range(n):
            ch = Ch("#" + r.choice(["aa", "ab", "List", "x", "chat-", "Z~"]) + str(i), s.now - r.choice([1, 2, 5, 10, 60, 1000]) * 60 - r.choice([5, 30, 54]), r.choice(["", "", "", "", "nt", "s", "p", "ns", "m"]))
            k = min(len(self.users), r.choice([1, 1, 2, 3, 3, 4, 6, 10]))
            mem = r.sample(self.users, k)
            if self.kind == "limit" and i < 2:
                mem = list(self.users)
            groups = {"": [], "v": [], "o": [], "ov": []}
            for u in mem:
                groups[r.choice(["", "", "v", "o", "ov"])].append(u)
            out, first = [], {"": "", "v": ":v", "o": ":o", "ov": ":ov"}
            for g in ("", "v", "o", "ov"):
                for j, u in enumerate(groups[g]):
                    out.append(u.num + (first[g] if j == 0 else ""))
                    st = ("@" if "o" in g else "") + ("+" if "v" in g else "")
                    ch.mem[u] = st
                    u.chans[ch] = st
            for j in range(0, len(out), 30):
                part = out[j:j + 30]
                if j:      # the status of a list continues only within a message
                    g = ch.mem[self.by(part[0])]
                    sfx = {"": "", "+": ":v", "@": ":o", "@+": ":ov"}[g]
                    part[0] = part[0].split(":")[0] + sfx
                fa.send("%s B %s %d %s%s" % (fa.yy, ch.name, ch.ts, "+%s " % ch.modes if ch.modes and not j else "", ",".join(part)))
            if r.random() < (.9 if self.kind == "paused" else .5):
                ch.topic, ch.tts = "topic %d %s" % (i, "w" * r.choice([0, 10, 120])), s.now - r.choice([1, 3, 10, 100]) * 60 - r.choice([5, 30, 54])
                fa.send("%s T %s %d %d :%s" % (fa.yy, ch.name, ch.ts, ch.tts, ch.topic))
                if r.random() < .2 and self.kind != "paused":
                    ch.topic, ch.tts = "", ch.tts + 1
                    fa.send("%s T %s %d %d :" % (fa.yy, ch.name, ch.ts, ch.tts))
            self.chans.append(ch)

    def by(self, tok):
        n = tok.split(":")[0]
        return next(u for u in self.users if not u.local and u.num == n)

    def locals(self):
        r, s = self.r, self.s
        self.obs = []
        for i, nick in enumerate(["obsA", "obsB", "Oper", "Ann-l"]):
            ip = "10.1.%d.%d" % (i % 2, i + 1)
            c = kit.register(s, nick, ip=ip, user="l%d" % i, info=r.choice(REALS), wait=3)
            u = U(nick=nick, user="l%d" % i, host=ip, ip=ip, info=c.greeting and None, srv=None, srvname="hub.test.net", local=True, inv=False, x=False, oper=False, c=c, hop=0)
            u.info = "?"
            self.users.append(u)
            self.obs.append(u)
            for ch in r.sample(self.chans, min(len(self.chans), r.choice([0, 1, 2, 4]))):
                c.send("JOIN " + ch.name)
                ch.mem[u] = ""
                u.chans[ch] = ""
            m = ""
            if r.random() < .3:
                m, u.inv = m + "i", True
            if r.random() < .15:
                m, u.deaf = m + "d", True
            if r.random() < .2:
                m, u.wal = m + "w", True
            if m:
                c.send("MODE %s +%s" % (nick, m))
            if r.random() < .2:
                u.away = "brb"
                c.send("AWAY :brb")
            s.advance(2)
            kit.settle(s, [self.fa])
        if r.random() < .5 and self.kind != "paused":
            ch = Ch("&loc", s.now, "")
            for u in r.sample(self.obs, 2):
                u.c.send("JOIN &loc")
                s.advance(1)
                kit.settle(s, [self.fa])
                st = "@" if not ch.mem else ""
                if not ch.mem:
                    ch.ts = s.now - 1
                ch.mem[u] = u.chans[ch] = st
            self.chans.append(ch)
        for ch in r.sample(self.chans, min(len(self.chans), 2)):        # a channel only users here are on, or with changed modes
            for u in list(ch.mem):
                if u.local and self.kind != "paused" and r.random() < .5:
                    u.c.send("PART " + ch.name)
                    del ch.mem[u], u.chans[ch]
                    if not ch.mem:
                        self.chans.remove(ch)
        op = self.obs[2]
        if not kit.oper(s, op.c):
            self.ctx.fail("setup", "OPER failed")
        op.oper = True
        op.dbg = None       # whatever the default operator modes are
        # real names as WHOIS shows them
        for u in self.obs:
            for m in kit.ask(s, self.obs[0].c, "WHOIS " + u.nick, peers=[self.fa]):
                if m.cmd == "311":
                    u.info = m.args[-1]
        for m in kit.ask(s, op.c, "MODE " + op.nick, peers=[self.fa]):
            if m.cmd == "221":
                op.wal, op.dbg, op.deaf, op.inv = "w" in m.args[-1], "g" in m.args[-1], "d" in m.args[-1], "i" in m.args[-1]

    def ask(self, v, line, end):
        got = kit.ask(self.s, v.c, line, dt=1, peers=[self.fa])
        for _ in range(20):
            if any(m.cmd == end for m in got) or v.c.eof:
                break
            kit.settle(self.s, [self.fa])
            got += [m for m in v.c.take() if m.cmd != "PING"]
        return got

    # ---- WHO
    def see_oper(self, v, u):
        # operators have the display privilege by default, here and elsewhere
        return u.oper

    def field_match(self, v, u, mask, sel):
        if "n" in sel and match(mask, u.nick):
            return True
        if "u" in sel and match(mask, u.user):
            return True
        if "s" in sel and (v.oper or not self.his) and match(mask, u.srvname):
            return True
        if "h" in sel and (match(mask, u.vhost) or (u.hidden and v.oper and match(mask, u.host))):
            return True
        if "r" in sel and match(mask, u.info):
            return True
        if "i" in sel and not (u.hidden and not v.oper):
            n = masks.ipmask(mask)
            if not mask.strip("*") or n and masks.ip_in(u.ip, n):
                return True
        return "a" in sel and match(mask, u.acct)

    def who(self):
        r, ctx, s = self.r, self.ctx, self.s
        v = r.choice(self.obs)
        t = r.choice(self.users)
        sel = "".join(r.sample("nuhsria", r.choice([1, 1, 2, 3]))) if r.random() < .6 else ""
        ops, extra = r.random() < .15, r.random() < .2
        form = r.choice(["channel", "channel", "nick", "list", "mask", "mask", "mask", "mask", "all"])
        if form == "channel" and self.chans:
            mask = r.choice(self.chans).name
        elif form == "nick" or (form == "channel" and not self.chans):
            mask = t.nick if r.random() < .8 else "nobody"
        elif form == "list":
            mask = ",".join([r.choice(self.users).nick.upper() if r.random() < .2 else r.choice(self.users).nick if r.random() < .6 or not self.chans else r.choice(self.chans).name for _ in range(r.randint(2, 5))])
        elif form == "all":
            mask = r.choice(["0", "*", ""])
        else:
            a = r.choice([t.nick, t.user, t.host, t.vhost, t.srvname, t.info, t.ip, t.acct or "alpha"])
            mask = r.choice([a, a[:2] + "*", "*" + a[-3:], "*%s*" % a[1:3], "?" * len(a), a[:1] + "?" + a[2:], "*.example.*", "*.%s" % SUF, "10.20.*", "10.21.0.0/16", "10.%s.0/24" % ".".join(t.ip.split(".")[1:3]), "a*n?", "*t.net", "**",
                             a.swapcase(), "alph?*"])
            if mask in ("*", "0", "") or "," in mask:
                mask = "a*"
        fl = ("o" if ops else "") + ("x" if extra else "") + sel
        fields, q = "", None
        if r.random() < .5:
            fields = "".join(r.sample("tcuihsnfdlaor", r.randint(1, 13)))
            if r.random() < .5:
                q = r.choice(["7", "152", "1", "999"])
            if "t" not in fields and q is None and r.random() < .3:
                fields += "t"
        arg2 = fl + ("%" + fields if fields else "") + (",%s" % q if q is not None and fields else "")
        if " " in mask or mask.startswith(":"):
            line = "WHO x %s :%s" % (arg2 or "n", mask)
            sel = sel or ("n" if not arg2 else "")
        elif form == "all" and mask == "" and not arg2:
            line = "WHO"
        else:
            line = "WHO %s%s" % (mask or "*", " " + arg2 if arg2 else "")
        extra = extra and v.oper
        selx = sel or "nuhs"
        if self.his and not v.oper:
            selx = selx.replace("s", "")
        unl = v.oper
        nf = len(fields) if fields else 7
        limit = 2048 // (nf + 4)
        real = None if mask in ("", "0", "*") else mask
        own, exp = {}, {}                # user -> list of acceptable channels (None: "*")
        pub = lambda u: [c for c in u.chans if not set("sp") & set(c.modes)] or [None]
        vis = lambda u: u is v or not u.inv or extra
        if real and ("," in real or "n" in selx):
            for item in real.split(","):
                ch = next((c for c in self.chans if lower(c.name) == lower(item)), None)
                if ch:
                    here = ch in v.chans
                    if here or "s" not in ch.modes or extra:
                        for u in ch.mem:
                            if ops and not self.see_oper(v, u):
                                continue
                            if here or vis(u):
                                if u in own or u in exp:
                                    continue
                                (own if here else exp)[u] = [ch]
                    continue
                u = next((u for u in self.users if lower(u.nick) == lower(item)), None)
                if u and not (ops and not self.see_oper(v, u)) and u not in own and u not in exp:
                    exp[u] = pub(u)
        if not (real and "," in real) and selx:
            for u in self.users:
                if u in own or u in exp or (ops and not self.see_oper(v, u)):
                    continue
                if real and not self.field_match(v, u, real, selx):
                    continue
                common = [c for c in u.chans if c in v.chans]
                if common:
                    exp[u] = common
                elif vis(u):
                    exp[u] = pub(u)
        got = self.ask(v, line, "315")
        ctx.ev()
        rows = [m for m in got if m.cmd in ("352", "354")]
        ends = [m for m in got if m.cmd == "315"]
        if len(ends) != 1 or ends[0] is not got[-1]:
            ctx.fail("who:end", "%s by %s: expected one 315 at the end: %r" % (line, v.nick, got[-4:]))
        bad = [m for m in got if m.cmd not in ("352", "354", "315", "416")]
        if bad:
            ctx.fail("who:other", "%s by %s: %r" % (line, v.nick, bad))
        over = any(m.cmd == "416" for m in got)
        want = dict(exp)
        want.update(own)
        seen = {}
        if fields and "n" not in fields:
            if not over and unl or len(exp) < limit - 2:
                if len(rows) != len(want):
                    ctx.fail("who:count", "%s by %s: %d rows, expected %d (%s)" % (line, v.nick, len(rows), len(want), sorted(u.nick for u in want)[:20]))
                    return
        else:
            for m in rows:
                u, row = self.row(v, m, fields, q)
                if u is None:
                    ctx.fail("who:row", "%s by %s: row for nobody: %r" % (line, v.nick, m))
                    continue
                if u in seen:
                    ctx.fail("who:twice", "%s by %s: %s shown twice" % (line, v.nick, u.nick))
                seen[u] = 1
                if u not in want:
                    ctx.fail("who:extra", "%s by %s: %s shown, who should not be: %r" % (line, v.nick, u.nick, m))
                    continue
                self.judge(v, u, row, want[u], fields, line, m)
            miss = [u for u in want if u not in seen]
            if miss and (unl or len(exp) < limit - 2 or any(u in own for u in miss)):
                ctx.fail("who:missing", "%s by %s: %s not shown (%s)" % (line, v.nick, [u.nick for u in miss][:6], "common channel" if miss[0] in own else "match"))
        if not unl:
            n = len([1 for m in rows]) - len(own)
            if len(exp) < limit - 2 and over:
                ctx.fail("who:416", "%s by %s: told the query was too long with %d rows" % (line, v.nick, len(rows)))
            if len(exp) > limit + 2:
                ctx.count("who:limit")
                if not limit - 2 <= n <= limit + 2 or not over and n < limit:
                    ctx.fail("who:limit", "%s by %s: %d rows (%d matches, limit %d), 416 %s" % (line, v.nick, n, len(exp), limit, over))
                if not over:
                    ctx.fail("who:limit", "%s by %s: more than %d matches and no 416" % (line, v.nick, limit))
        elif over:
            ctx.fail("who:416", "%s by operator: 416" % line)
        if want:
            ctx.count("who:" + ("channel" if form == "channel" else "all" if form == "all" else "nick" if form in ("nick", "list") else "mask"))
            if ops:
                ctx.count("who:oper")
            if fields:
                ctx.count("who:fields")
            if any(u.hidden for u in want):
                ctx.count("who:hidden")
            if extra:
                ctx.count("who:x")
        if form == "channel" and not want and self.chans:
            ctx.count("who:secret")
        if form in ("mask", "all") and any(u.inv and u not in want for u in self.users):
            ctx.count("who:invisible")
        ctx.seen("who/%s/%s/%s/%s/%s/%d" % (form, sel, v.oper, ops, extra, min(len(want), 5)))

    ORDER = "tcuihsnfdlaor"

    def row(self, v, m, fields, q):
        d = {}
        if m.cmd == "352":
            if fields or len(m.args) != 8:
                self.ctx.fail("who:form", "%r" % m)
                return None, None
            d = dict(zip("cuhsnf", m.args[1:7]))
            d["d"], _, d["r"] = m.args[7].partition(" ")
        else:
            names = [f for f in self.ORDER if f in fields]
            if len(m.args) != len(names) + 1:
                self.ctx.fail("who:form", "%d fields for %r: %r" % (len(m.args) - 1, names, m))
                return None, None
            d = dict(zip(names, m.args[1:]))
            if "t" in d and d["t"] != (q if q is not None else "0"):
                self.ctx.fail("who:form", "query type %r, asked %r: %r" % (d["t"], q, m))
        return next((u for u in self.users if u.nick == d["n"]), None), d

    def judge(self, v, u, d, chans, fields, line, m):
        e = {"u": u.user, "h": u.vhost, "r": u.info, "a": u.acct or "0", "s": HIS if self.his and not v.oper else u.srvname, "i": HIP if u.hidden and not v.oper else u.ip,
             "d": str(u.hop) if v.oper else "0" if u is v else "3"}
        for k in e:
            if k in d and d[k] != e[k]:
                self.ctx.fail("who:field", "%s by %s: %s's %s is %r, expected %r" % (line, v.nick, u.nick, k, d[k], e[k]))
        need = not fields or "c" in fields or "f" in fields
        names = {(c.name if c else "*"): c for c in chans} if need else {}
        if "c" in d:
            if d["c"] not in names:
                self.ctx.fail("who:channel", "%s by %s: %s shown on %s, expected one of %s" % (line, v.nick, u.nick, d["c"], sorted(names)))
                return
            cand = [names[d["c"]]]
        else:
            cand = chans
        if "f" in d:
            ok = []
            for c in cand:
                st = u.chans[c] if c else ""
                if not fields:
                    st = st[:1]
                f = ("G" if u.away else "H") + ("*" if self.see_oper(v, u) else "") + st + ("d" if u.deaf else "")
                if v.oper:
                    f += ("i" if u.inv else "") + ("w" if u.wal else "") + ("g" if u.dbg else "")
                f += "x" if u.hidden else ""
                ok.append(f)
            if d["f"] not in ok:
                self.ctx.fail("who:flags", "%s by %s: %s's flags are %s, expected %s" % (line, v.nick, u.nick, d["f"], ok))
        if "l" in d:
            zero = not u.local or (self.his and not v.oper and u is not v)
            if not d["l"].isdigit() or (zero and d["l"] != "0") or int(d["l"]) > 3000:
                self.ctx.fail("who:idle", "%s by %s: idle time of %s is %s" % (line, v.nick, u.nick, d["l"]))
        if "o" in d:
            ok = {"n/a" if not (c and "@" in u.chans[c]) else "lvl" for c in chans}
            if ("n/a" if d["o"] == "n/a" else "lvl" if d["o"].isdigit() else d["o"]) not in ok and "c" not in d and need:
                self.ctx.fail("who:oplevel", "%s by %s: op level of %s is %s" % (line, v.nick, u.nick, d["o"]))

    # ---- LIST
    def cond(self, v):
        """(text, predicate, kind)"""
        r, now = self.r, self.s.now
        k = r.choice(["<", ">", "c", "t", "m", "!", "c", "t"])
        if k in "<>":
            n = r.choice([0, 1, 2, 3, 4, 6])
            return "%s%d" % (k, n), (lambda c: len(c.mem) < n) if k == "<" else (lambda c: len(c.mem) > n), "users", k
        if k in "ct":
            d, n = r.choice("<>"), r.choice([0, 1, 2, 3, 5, 10, 11, 60, 100, 1001])
            txt = "%s%s%d" % (r.choice(k + k.upper()), d, n)
            lim = now - n * 60
            if r.random() < .15:
                lim = now - r.choice([1, 10, 100]) * 60
                txt = "%s%s%d" % (k.upper(), d, lim)
                d = ">" if d == "<" else "<"
            if k == "c":
                return txt, (lambda c: c.ts > lim) if d == "<" else (lambda c: c.ts < lim), "age", "c" + d
            return txt, (lambda c: c.topic and (c.tts > lim if d == "<" else c.tts < lim)), "topic", "t" + d
        m = r.choice(["#a*", "*", "#?", "#*1*", "#LIST*", "*x*", "#chat-?", "#z^*", "#Z~*", "&*", "?a?1", "#a?2*"])
        if k == "!":
            return "!" + m, (lambda c: not match(m, c.name)), "notmask", "m"
        return m, (lambda c: match(m, c.name)), "mask", "m"

    def listed(self, v):
        r = self.r
        vis = lambda c: v in c.mem or not set("sp") & set(c.modes)
        kinds, modes = [], False
        if r.random() < .25 and self.chans:
            ns = [r.choice(self.chans).name for _ in range(r.randint(1, 3))]
            if r.random() < .3:
                ns.append("#nope")
            txt = ",".join(x.upper() if r.random() < .2 else x for x in ns)
            ex = {}
            exp = []
            for n in ns:
                for c in self.chans:
                    if lower(c.name) == lower(n) and (vis(c) or v.oper):
                        exp.append(c)
            return "LIST " + txt, exp, ["name"], False, True
        conds, ks, out = [], set(), []
        for _ in range(r.choice([0, 1, 1, 1, 2, 2, 3])):
            c = self.cond(v)
            if c[3] in ks:
                continue
            ks.add(c[3])
            out.append(c)
        out.sort(key=lambda c: c[3] == "m")
        # the server answers nothing where the bounds exclude each other
        txts, fns = [c[0] for c in out], [c[1] for c in out]
        kinds = [c[2] for c in out]
        secret = False
        if v.oper and r.random() < .5:
            secret = True
            txts.insert(0, "S")
            kinds.append("secret")
        if v.oper and r.random() < .3:
            modes = True
            txts.insert(0, "M")
            kinds.append("modes")
        sep = r.choice([",", " "])
        exp = [c for c in self.chans if (vis(c) or secret) and all(f(c) for f in fns)]
        return ("LIST " + sep.join(txts)).strip(), exp, kinds or ["all"], modes, False

    def chan_row(self, line, v, m, modes):
        if len(m.args) < 4:
            self.ctx.fail("list:form", "%s: %r" % (line, m))
            return None
        c = next((c for c in self.chans if c.name == m.args[1]), None)
        if c is None:
            self.ctx.fail("list:extra", "%s by %s: channel that does not exist: %r" % (line, v.nick, m))
            return None
        if m.args[2] != str(len(c.mem)) or m.args[-1] != c.topic:
            self.ctx.fail("list:row", "%s by %s: %r, expected %d users and topic %r" % (line, v.nick, m, len(c.mem), c.topic))
        if modes:
            if set(m.args[3]) - {"+"} != set(c.modes):
                self.ctx.fail("list:modes", "%s by %s: %r, expected modes +%s" % (line, v.nick, m, c.modes))
        elif len(m.args) != 4:
            self.ctx.fail("list:form", "%s by %s: %r" % (line, v.nick, m))
        return c

    def list(self):
        ctx, r = self.ctx, self.r
        v = r.choice(self.obs)
        line, exp, kinds, modes, byname = self.listed(v)
        got = self.ask(v, line, "323")
        ctx.ev()
        self.judge_list(v, line, got, exp, modes, byname)
        for k in kinds:
            if exp:
                ctx.count("list:" + k)
        if v.oper:
            ctx.count("list:oper")
        ctx.seen("list/%s/%s/%d" % ("+".join(kinds), v.oper, min(len(exp), 4)))

    def judge_list(self, v, line, got, exp, modes, byname, maybe=()):
        ctx = self.ctx
        cmds = [m.cmd for m in got]
        if not cmds or cmds[0] != "321" or cmds[-1] != "323" or cmds.count("323") != 1 or set(cmds) - {"321", "322", "323"}:
            ctx.fail("list:frame", "%s by %s: expected 321, 322s, 323: %r" % (line, v.nick, [m for m in got if m.cmd != "322"]))
            return
        seen = []
        for m in got:
            if m.cmd == "322":
                c = self.chan_row(line, v, m, modes) if not any(x.name == m.args[1] for x in maybe) else next(x for x in maybe if x.name == m.args[1])
                if c:
                    seen.append(c)
        for c in seen:
            if c not in exp and c not in maybe:
                ctx.fail("list:extra", "%s by %s: %s (+%s, %d users, %d s old, topic %d s old) should not be listed" % (line, v.nick, c.name, c.modes, len(c.mem), self.s.now - c.ts, self.s.now - c.tts))
            elif seen.count(c) > (exp.count(c) if byname else 1):
                ctx.fail("list:twice", "%s by %s: %s listed %d times" % (line, v.nick, c.name, seen.count(c)))
        miss = [c for c in exp if c not in seen]
        if miss:
            c = miss[0]
            ctx.fail("list:missing", "%s by %s: %d channels missing, e.g. %s (+%s, %d users, %d s old, topic %r %d s old)" % (line, v.nick, len(miss), c.name, c.modes, len(c.mem), self.s.now - c.ts, c.topic, self.s.now - c.tts))

    def paused(self):
        """LIST by a client that reads late, while channels appear and vanish."""
        r, s, fa, ctx = self.r, self.s, self.fa, self.ctx
        v = r.choice([u for u in self.obs if not u.oper])
        line, exp, kinds, modes, byname = self.listed(v)
        if byname or len(exp) < 40:
            line, exp, modes, byname = "LIST >0", [c for c in self.chans if v in c.mem or not set("sp") & set(c.modes)], False, False
        v.c.take()
        v.c.send(line)
        maybe = []
        for i in range(r.randint(2, 8)):
            kit.settle(s, [fa], n=1)
            if r.random() < .5:
                u = r.choice([u for u in self.users if not u.local])
                ch = Ch("#new%d" % r.randrange(10 ** 6), s.now, "")
                fa.send("%s C %s %d" % (u.num, ch.name, s.now))
                ch.mem[u] = "@"
                u.chans[ch] = "@"
                self.chans.append(ch)
                maybe.append(ch)
            elif r.random() < .7:
                ch = r.choice([c for c in self.chans if not any(u.local for u in c.mem)])
                for u in list(ch.mem):
                    fa.send("%s L %s" % (u.num, ch.name))
                    del u.chans[ch]
                self.chans.remove(ch)
                maybe.append(ch)
                if ch in exp:
                    exp.remove(ch)
            if r.random() < .3:
                v.c.pump()
        got = []
        for _ in range(400):
            kit.settle(s, [fa], n=1)
            new = [m for m in v.c.take() if m.cmd != "PING"]
            got += new
            if any(m.cmd == "323" for m in new) or v.c.eof:
                break
        kit.settle(s, [fa])
        got += v.c.take()
        ctx.ev()
        if v.c.eof:
            ctx.fail("list:cut", "%s: the client was disconnected: %r" % (line, got[-2:]))
        self.judge_list(v, line, got, exp, modes, byname, maybe)
        ctx.count("list:paused")

    def step(self):
        r = self.r
        if r.random() < .3 and self.kind == "mixed":
            self.change()
        if r.random() < .55 or self.kind == "limit":
            self.who()
        else:
            self.list()

    def change(self):
        """Something changes."""
        r, s, fa = self.r, self.s, self.fa
        rem = [u for u in self.users if not u.local]
        k = r.choice(["away", "inv", "part", "join", "quit", "nick", "status", "topic", "smode", "new"])
        if not rem:
            return
        u = r.choice(rem)
        if k == "away":
            u.away = False if u.away else "now away"
            fa.send("%s A%s" % (u.num, " :" + u.away if u.away else ""))
        elif k == "inv":
            u.inv = not u.inv
            fa.send("%s M %s %si" % (u.num, u.nick, "+" if u.inv else "-"))
        elif k == "part" and u.chans:
            c = r.choice(list(u.chans))
            fa.send("%s L %s" % (u.num, c.name))
            del u.chans[c], c.mem[u]
            if not c.mem:
                self.chans.remove(c)
        elif k == "join":
            cs = [c for c in self.chans if u not in c.mem and c.name[0] == "#"]
            if cs:
                c = r.choice(cs)
                fa.send("%s J %s %d" % (u.num, c.name, c.ts))
                c.mem[u] = u.chans[c] = ""
        elif k == "quit":
            self.gone(u)
            fa.send("%s Q :bye" % u.num)
        elif k == "nick":
            u.nick = "nn%d" % r.randrange(10 ** 6)
            fa.send("%s N %s %d" % (u.num, u.nick, s.now))
        elif k == "status" and u.chans:
            c = r.choice(list(u.chans))
            b = r.choice("ov")
            sign = "@" if b == "o" else "+"
            st = u.chans[c]
            add = sign not in st
            new = "".join(x for x in "@+" if (x in st) != (x == sign))
            u.chans[c] = c.mem[u] = new
            fa.send("%s M %s %s%s %s %d" % (u.num[:2], c.name, "+" if add else "-", b, u.num, c.ts))
        elif k == "topic" and self.chans:
            c = r.choice([c for c in self.chans if c.name[0] == "#"] or [None])
            if c:
                c.topic, c.tts = "t%d" % r.randrange(1000) if r.random() < .6 else "", s.now - 5
                fa.send("%s T %s %d %d :%s" % (fa.yy, c.name, c.ts, s.now - 5, c.topic))
        elif k == "smode" and self.chans:
            c = r.choice([c for c in self.chans if c.name[0] == "#"] or [None])
            if c:
                for b in "sp":
                    if b in c.modes:
                        c.modes = c.modes.replace(b, "")
                        fa.send("%s M %s -%s %d" % (fa.yy, c.name, b, c.ts))
                b = r.choice(["", "s", "p"])
                c.modes += b
                if b:
                    fa.send("%s M %s +%s %d" % (fa.yy, c.name, b, c.ts))
        elif k == "new":
            self.remote(1000 + r.randrange(10 ** 5))
        kit.settle(s, [fa])
        for o in self.obs:
            o.c.take()

    def gone(self, u):
        for c in list(u.chans):
            del c.mem[u]
            if not c.mem:
                self.chans.remove(c)
        u.chans = {}
        self.users.remove(u)

    # ---- WHOWAS
    def record(self, u):
        self.hist.insert(0, dict(nick=u.nick, user=u.user, host=u.vhost, real=u.host if u.hidden else None, info=u.info, srv=u.srvname, away=u.away))
        if len(self.hist) > self.hist_len:
            self.ctx.count("whowas:forgot")
            del self.hist[self.hist_len:]

    def whowas_run(self):
        r, s, fa, ctx = self.r, self.s, self.fa, self.ctx
        self.hist = []
        pool = ["old%d" % i for i in range(4)] + ["Hist[", "hist{"]
        names = set(pool)
        locs = []
        for i in range(r.randint(8, 25)):
            k = r.choice(["quit", "nick", "nick", "kill", "local", "localnick", "localquit", "split", "unreg"])
            rem = [u for u in self.users if not u.local]
            used = {lower(u.nick) for u in self.users}
            free = [n for n in pool if lower(n) not in used]
            if k == "quit" and rem:
                u = r.choice(rem)
                self.record(u)
                self.gone(u)
                fa.send("%s Q :bye" % u.num)
            elif k == "nick" and rem and free:
                u = r.choice([x for x in rem if x.nick in pool] or rem) if r.random() < .5 else r.choice(rem)
                self.record(u)
                u.nick = r.choice(free)
                fa.send("%s N %s %d" % (u.num, u.nick, s.now))
                ctx.count("whowas:nick")
            elif k == "kill" and rem:
                u = r.choice(rem)
                self.record(u)
                self.gone(u)
                if r.random() < .5:
                    fa.send("%s D %s :fa.test.net (bad)" % (fa.yy, u.num))
                else:
                    self.obs[2].c.send("KILL %s :bad" % u.nick)
                ctx.count("whowas:kill")
            elif k == "local" and free and len(locs) < 5:
                n = r.choice(free)
                ip = "10.3.0.%d" % r.randint(1, 200)
                c = kit.register(s, n, ip=ip, user="w%d" % i, wait=2)
                u = U(nick=n, user="w%d" % i, host=ip, ip=ip, info="real " + n, srv=None, srvname="hub.test.net", local=True, inv=False, x=False, oper=False, c=c, hop=0)
                if r.random() < .4:
                    u.away = "away %d" % i
                    c.send("AWAY :" + u.away)
                    s.advance(2)
                self.users.append(u)
                locs.append(u)
            elif k == "localnick" and locs and free:
                u = r.choice(locs)
                self.record(u)
                u.nick = r.choice(free) if r.random() < .8 else u.nick.swapcase()
                u.c.send("NICK " + u.nick)
                s.advance(40)
            elif k == "localquit" and locs:
                u = r.choice(locs)
                locs.remove(u)
                self.record(u)
                self.users.remove(u)
                u.c.send("QUIT :x") if r.random() < .5 else u.c.close()
            elif k == "unreg" and free:
                c = s.connect("10.3.1.1")
                c.send("NICK " + r.choice(free))
                s.advance(1)
                c.close()
            elif k == "split" and i > 6 and "fb" not in self.__dict__ and r.random() < .7:
                self.fb = 1
                gone = [u for u in rem if u.srv == self.fby]
                if len(gone) < 2 or self.hist_len == 800:      # the order within a split is not specified
                    for u in gone:
                        self.record(u)
                        self.gone(u)
                    fa.send("%s SQ fb.test.net 0 :split" % fa.yy)
                    if gone:
                        ctx.count("whowas:split")
            kit.settle(s, [fa])
            s.advance(2)
            kit.settle(s, [fa])
            if r.random() < .12 and self.hist_len > 3:
                self.hist_len = r.choice([x for x in (2, 4, 6, 10) if x <= self.hist_len] or [self.hist_len])
                if any(m.cmd == "481" for m in kit.ask(s, self.obs[2].c, "SET NICKNAMEHISTORYLENGTH %d" % self.hist_len, peers=[fa])):
                    ctx.fail("setup", "SET refused")
                if len(self.hist) > self.hist_len:
                    ctx.count("whowas:trim")
                    del self.hist[self.hist_len:]
            for _ in range(2):
                self.whowas(pool)

    def whowas(self, pool):
        r, s, ctx = self.r, self.s, self.ctx
        v = r.choice(self.obs)
        names = [r.choice([h["nick"] for h in self.hist] or pool) if r.random() < .7 else r.choice(pool) for _ in range(r.choice([1, 1, 1, 2, 3]))]
        uniq = []
        for n in names:
            if lower(n) not in [lower(x) for x in uniq]:
                uniq.append(n)
        mx = None
        if len(uniq) == 1 and r.random() < .4:
            mx = r.choice([0, -1, 1, 2, 3])
        if r.random() < .3:
            uniq = [n.swapcase() for n in uniq]
        line = "WHOWAS %s%s" % (",".join(uniq), " %d" % mx if mx is not None else "")
        got = kit.ask(s, v.c, line, dt=1, peers=[self.fa])
        ctx.ev()
        exp = []
        for n in uniq:
            hs = [h for h in self.hist if lower(h["nick"]) == lower(n)]
            if mx is not None and mx >= 1 and len(hs) > mx:
                hs = hs[:mx]
                ctx.count("whowas:max")
            for h in hs:
                exp.append(("314", h["nick"], h["user"], h["host"], "*", h["info"]))
                if v.oper and h["real"]:
                    exp.append(("338", h["nick"], h["user"], h["real"]))
                    ctx.count("whowas:hidden")
                exp.append(("312", h["nick"], HIS if self.his and not v.oper else h["srv"]))
                if h["away"]:
                    exp.append(("301", h["nick"], h["away"]))
            if not hs:
                exp.append(("406", n))
            ctx.count("whowas:found" if hs else "whowas:none")
        exp.append(("369", ",".join(uniq)))
        out = []
        for m in got:
            a = m.args[1:]
            if m.cmd == "314":
                out.append(("314",) + tuple(a))
            elif m.cmd == "338":
                out.append(("338", a[0], *a[1].split("@")) if len(a) > 1 and "@" in a[1] else ("338",) + tuple(a[:3]))
            elif m.cmd == "312":
                out.append(("312", a[0], a[1]))
            elif m.cmd == "301":
                out.append(("301", a[0], a[1]))
            elif m.cmd in ("406", "369"):
                out.append((m.cmd, a[0]))
            else:
                out.append((m.cmd,) + tuple(a))
        if len(uniq) > 1:
            ctx.count("whowas:list")
        if out != exp:
            i = next((i for i in range(max(len(out), len(exp))) if i >= len(out) or i >= len(exp) or out[i] != exp[i]), 0)
            ctx.fail("whowas:answer", "%s by %s: line %d is %r, expected %r (history of %d, %d known)" % (line, v.nick, i, out[i] if i < len(out) else None, exp[i] if i < len(exp) else None, self.hist_len, len(self.hist)))
        ctx.seen("whowas/%s/%s/%d" % (mx, v.oper, min(len(exp), 6)))


def run_case(ctx, p):
    Run(ctx).run()
