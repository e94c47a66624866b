"""A population of real clients on one or several real servers, executed in lock-step with the reference model.
Every op is sent by one client; after the system is quiescent everything that every client received is compared
with what the model says it must have received, exactly and in order."""
import random
import vsim, p10, chaos, model as MD
from model import Model, User, ANY, diff, normalise, merge_names
from masks import lower

NICKS = ["Ann", "bob", "Cy[x]", "cy{Y}", "dave|", "Eve\\", "fay^", "gus-1", "h_h", "iNk`", "Joe12", "kim"]
SPARE = ["ann2", "CY{X}", "cy[y]", "BOB", "zed", "Zed2", "EVE|", "newnick1", "aaaaaaaaaaaaaaa", "aaaaaaaaaaaaaaaaaaaa", "9bad", "a~b", "a!b", "-x", "fay~", "NICKSERV", "X{Jup"]
HOSTS = ["10.1.1.1", "10.1.1.2", "10.1.2.1", "10.2.0.9", "192.168.7.7", "2001:db8::1", "2001:db8:0:1::2", "10.1.1.200", "172.16.5.4", "10.77.3.3"]
IDENTS = ["ann", "bob", "user1", "USER2", "u", "long.user", "x_y", "dd", "ee", "zz"]
CHANS = ["#a", "#B", "#c[x]", "&loc", "#d"]
CHVAR = {"#a": ["#a", "#A"], "#B": ["#B", "#b"], "#c[x]": ["#c[x]", "#C{X}", "#c[X}"], "&loc": ["&loc", "&LOC"], "#d": ["#d", "#D"]}
KEYS = ["key", "KEY", "k2", "sesame", "a:b", "x" * 23, "x" * 24, "OVERRIDE"]
TEXTS = ["hello there", "x", "see ya", ":colon", "\x03red text", "\x01ACTION waves\x01", "\x01VERSION\x01", "\x1besc", "\x02bold\x02", "a  b", "caf\xe9 \xff",
         "y" * 300, "-", "trailing ", "\x01action x", "http://x.y/"]
CLS = dict(JOIN="join", PART="part", KICK="kick", TOPIC="topic", INVITE="invite", PRIVMSG="msg", NOTICE="msg", CPRIVMSG="msg", CNOTICE="msg",
           WALLCHOPS="msg", WALLVOICES="msg", NICK="nick", AWAY="away", QUIT="quit", SILENCE="silence", NAMES="query", ISON="query", USERHOST="query",
           WHOIS="query", CAP="cap", AC="account")
ALLCAPS = ["account-notify", "away-notify", "chghost", "echo-message", "extended-join", "invite-notify", "userhost-in-names"]


def join_silences(evs):
    """Consecutive SILENCE lines as one event, however the list was split over lines."""
    out = []
    for e in evs:
        if e[1] == "SILENCE" and out and out[-1][:2] == e[:2]:
            out[-1] = e[:2] + (out[-1][2] + "," + e[2],)
        else:
            out.append(e)
    return out


class World:
    tolerate = None

    def __init__(self, ctx, nusers=5, feats=None, caps=0.3, services=True, opers=0.2, variant="asan", priv="", uid0=0):
        self.ctx, self.r = ctx, ctx.rng
        f = {"OPLEVELS": "FALSE", "HIDDEN_HOST": "users.undernet.org", "HOST_HIDING": "TRUE"}
        mf = {}
        for k, v in (feats or {}).items():
            f[k] = str(v)
            mf[k] = (v == "TRUE") if v in ("TRUE", "FALSE") else int(v) if str(v).isdigit() else v
        self.capp, self.operp = caps, opers
        self.setup_servers(f, services, variant, priv)
        self.M = self.make_model(mf)
        self.conns = {}
        self.bykey = {}
        self.tt = {}
        self.nops = 0
        self.lasttick = 0
        self.foreign = None
        names = NICKS[:]
        self.r.shuffle(names)
        for n in names[:nusers]:
            self.add_user(n)

    # ---- servers
    def make_model(self, mf):
        return Model(self.s.now, mf)

    def setup_servers(self, f, services, variant, priv):
        self.s = self.ctx.ircd(chaos.hub_conf(feats=f), variant)
        self.servers = [self.s]
        self.svc = None
        if services:
            self.svc = p10.FakeServer(self.s, "fa.test.net", 5, "10.200.0.1")
            self.settle()
            self.svc.eob()
            self.settle()

    def now(self):
        return self.s.now

    def advance(self, n):
        self.s.advance(n)
        self.M.now = self.s.now
        self.settle(True)

    def settle(self, idle=False):
        self.s.sync()
        if self.svc is not None:
            for _ in range(3):
                self.svc.pump()
                self.s.sync()

    def server_for(self):
        return self.s

    # ---- population
    def add_user(self, nick, srv=None, ip=None, ident=None, caps=None):
        r = self.r
        s = srv or self.server_for()
        ip = ip or r.choice(HOSTS)
        ident = ident or r.choice(IDENTS)
        c = s.connect(ip)
        cl = caps if caps is not None else [x for x in ALLCAPS if r.random() < self.capp]
        if cl:
            c.send("CAP REQ :" + " ".join(cl))
        c.send("NICK " + nick)
        c.send("USER %s 0 0 :Real Name %s" % (ident, nick))
        if cl:
            c.send("CAP END")
        self.settle()
        c.pump()        # answers the registration cookie PING
        self.settle()
        got = c.take()
        if not any(m.cmd == "001" for m in got):
            raise vsim.Violation("setup:register", "client could not register: %r" % got[-3:])
        info = "Real Name " + nick
        u = User(len(self.M.allusers), nick, "~" + ident, ip, ip, info, self.srvname(s))
        u.rhost = ip
        u.caps = set(cl)
        u.signon = self.now()
        self.M.allusers.append(u)
        self.M.users[lower(nick)] = u
        self.conns[u.uid] = c
        self.tt[u.uid] = self.now() - 1080
        # what the user's ident/modes really are
        self.advance(15)
        for k in list(self.conns):
            if k != u.uid:
                self.conns[k].take()
        c.send("USERHOST " + nick)
        c.send("MODE " + nick)
        if self.r.random() < self.operp:
            c.send("OPER oper operpass")
            u.oper = True
        self.settle()
        for m in c.take():
            if m.cmd == "302":
                h = m.args[1].split("=")[1][1:]
                u.user, u.host = h.split("@", 1)
                u.rhost = u.host
            if m.cmd == "221":
                u.umodes = set(m.args[1].lstrip("+")) & set("widRIcgs")
        if u.oper:
            u.privs = self.oper_privs()
            self.advance(5)
            c.send("MODE " + nick)
            self.settle()
            for m in c.take():
                if m.cmd == "221":
                    fl = set(m.args[1].lstrip("+"))
                    u.umodes = fl & set("widRIcgs")
                    u.oper = "o" in fl
            if not u.oper:
                u.privs = set()
        self.drain()
        return u

    def oper_privs(self):
        return set("chan_limit mode_lchan deop_lchan walk_lchan see_chan show_invis show_all_invis list_chan".split())

    def srvname(self, s):
        return "hub.test.net"

    def skip(self, u, line):
        return False

    def drain(self):
        self.settle()
        for c in self.conns.values():
            c.take()

    def alive(self):
        return [u for u in self.M.allusers if not u.dead]

    # ---- execution
    def prepare_time(self, u, line):
        cmd = line.split(" ", 1)[0]
        dt = self.r.choice([3, 3, 4]) + len(line) // 60
        if cmd in ("JOIN", "PRIVMSG", "NOTICE", "INVITE", "TOPIC", "CPRIVMSG", "CNOTICE", "WALLCHOPS", "WALLVOICES"):
            n = line.split(" ", 2)[1].count(",") + 1 if " " in line else 1
            for _ in range(n):
                if self.tt[u.uid] > self.now() + dt:
                    dt = self.tt[u.uid] - self.now() + 1
                self.tt[u.uid] = max(self.tt[u.uid] + 128, self.now() + dt - 128 * 18)
        self.advance(dt)

    def do(self, u, line, cls=None):
        """Execute one client command; returns (class, description) of a mismatch or None."""
        self.prepare_time(u, line)
        exp = self.M.exec(u, line)
        if line.startswith("QUIT"):
            pass
        self.conns[u.uid].send(line)
        self.settle()
        self.nops += 1
        w = line.split(" ")
        cls = cls or CLS.get(w[0].upper()) or ("mode" if len(w) > 1 and w[1][:1] in "#&+" else "umode")
        return self.compare(u, line, exp, cls)

    def account(self, u, acct):
        self.advance(2)
        exp = self.M.set_account(u, acct)
        nn = self.numnick(u)
        if nn is None:
            return None
        self.svc.send("%s AC %s %s" % (self.svc.yy, nn, acct))
        self.settle()
        self.nops += 1
        return self.compare(u, "<account %s %s>" % (u.nick, acct), exp, "account")

    def numnick(self, u):
        for m in self.svc.take():
            self.track(m)
        return self.bykey.get(lower(u.nick))

    def track(self, m):
        if m.cmd == "N" and len(m.args) > 3:
            self.bykey[lower(m.args[0])] = m.args[-2]
        elif m.cmd == "N":
            for k, v in list(self.bykey.items()):
                if v == m.src:
                    del self.bykey[k]
            self.bykey[lower(m.args[0])] = m.src

    def compare(self, u, line, exp, cls):
        self.ctx.log("%d %s: %s" % (self.now(), u.nick, line))
        self.ctx.count("events", 0)
        for v in self.M.allusers:
            c = self.conns.get(v.uid)
            if c is None:
                continue
            got = [normalise(m, v) for m in c.take() if not (m.cmd in ("PING", "PONG", "008") or (m.cmd == "NOTICE" and m.args[1:] and m.args[1].startswith("*** Notice")))]
            if v.dead:
                self.finish(v, c, got)
                continue
            got = merge_names(got)
            want = merge_names(exp.get(v.uid, []))
            self.ctx.count("events", len(got))
            if line.startswith("SILENCE"):
                want, got = join_silences(want), join_silences(got)
            d = diff(want, got)
            if d and v.srv != u.srv and MD.same_per_channel(want, got):
                d = None        # another server may walk a user's channels in another order
            if d and len(got) > len(want) and line.startswith("MODE") and diff(MD.join_modes(want), MD.join_modes(got)) is None:
                self.ctx.count("split mode lines")
                d = None
            if d and self.tolerate and self.tolerate(u, v, line, want, got):
                d = None
            if d:
                return cls, "after %s sent %r, at %s: %s\n expected: %r\n observed: %r" % (u.nick, line, v.nick, d, want, got)
            if c.eof:
                return cls, "after %s sent %r, %s lost its connection" % (u.nick, line, v.nick)
        self.ctx.ev()
        return None

    def finish(self, v, c, got):
        c.close()
        self.conns.pop(v.uid, None)


class Gen:
    """Random commands biased towards interesting interactions."""
    def __init__(self, w, weights):
        self.w, self.r, self.weights = w, w.r, weights
        self.longmask = .04

    def chan(self, u=None):
        r = self.r
        if u is not None and u.chans and r.random() < .75:
            n = r.choice(u.chans).name
        else:
            n = r.choice(CHANS)
        return r.choice(CHVAR.get(n, [n]))

    def nick(self, u=None):
        r = self.r
        k = r.random()
        if u is not None and k < .5 and u.chans:
            c = r.choice(u.chans)
            return self.case(r.choice(c.members).u.nick)
        if k < .93:
            return self.case(r.choice(self.w.alive()).nick)
        return r.choice(SPARE)

    def case(self, n):
        if self.r.random() < .85:
            return n
        t = str.maketrans("[]\\^{}|~", "{}|~[]\\^")
        return self.r.choice([n.upper(), n.lower(), n.translate(t) if "~" not in n.translate(t) else n])

    def mask(self, u=None):
        r = self.r
        v = r.choice(self.w.alive())
        k = r.random()
        if k < self.longmask:
            h = "".join(r.choice("abcdefghij") for _ in range(r.randint(35, 58)))
            return r.choice(["*!*@%s.net", "*!*@%s", "x*!y@%s.*"]) % h
        if k < .35:
            return r.choice(["%s!*@*", "%s!*@*", "%s"]) % self.case(v.nick)
        if k < .5:
            return "*!%s@*" % r.choice([v.user, "*" + v.user[1:], v.user.lstrip("~"), "?" + v.user.lstrip("~")])
        if k < .75:
            h = v.rhost
            p = h.rsplit("." if "." in h else ":", 1)[0]
            cands = ["*!*@" + h, "*!*@%s*" % p, "*!*@*" + h[-2:], "*@" + h]
            if ":" in h:
                cands += ["*!*@2001:db8::/%d" % r.choice([32, 48, 64, 128]), "*!*@2001:db8:*"]
            else:
                o = h.split(".")
                cands += ["*!*@%s.0.0/16" % ".".join(o[:2]), "*!*@%s.0/24" % ".".join(o[:3]), "*!*@%s/%d" % (h, r.choice([8, 15, 25, 31, 32])),
                          "*!*@%s.*" % o[0]]
            return r.choice(cands)
        if k < .85 and v.acct:
            return "*!*@%s.users.undernet.org" % v.acct
        if k < .93:
            return r.choice(["*!*@*.users.undernet.org", "*!*@*", "foo!bar@baz", "*!*@10.0.0.0/7", "nosuch!*@*", "*.com", "a@b", "*!*x*@*"])
        return "%s!%s@%s" % (v.nick, v.user, v.host)

    def text(self):
        r = self.r
        return r.choice(TEXTS) if r.random() < .6 else "msg %d" % r.randint(0, 10 ** 6)

    def key(self):
        return self.r.choice(KEYS[:4]) if self.r.random() < .8 else self.r.choice(KEYS)

    def modes(self, u):
        r = self.r
        s, a = "", []
        d = None
        lots = r.random() < .06
        self.longmask = .8 if lots else .04
        for _ in range(r.choice([6, 7, 8]) if lots else r.choice([1, 1, 1, 2, 2, 3, 4, 8])):
            nd = "+" if r.random() < .62 or lots else "-"
            if nd != d:
                s += nd
                d = nd
            ch = r.choice(self.weights.get("modeset", "ovovovbbbbklimnpstrDcCuMZR"))
            if lots and r.random() < .7:
                ch = "b"
            s += ch
            if ch in "ov":
                a.append(self.nick(u))
            elif ch == "b":
                a.append(self.mask(u))
            elif ch == "k":
                a.append(self.key())
            elif ch == "l" and d == "+":
                a.append(r.choice(["1", "2", "3", "5", "0", "-1", "abc", "12x", "4294967297", "99"]))
        while len(" ".join(a)) > 430:
            a.pop()
        if r.random() < .04 and a:
            a.pop()
        if r.random() < .03:
            s += r.choice("eXq1*h")
        return " ".join([s] + a)

    def op(self):
        r = self.r
        W = self.weights
        kinds = [k for k in W if k != "modeset"]
        k = r.choices(kinds, [W[x] for x in kinds])[0]
        al = self.w.alive()
        u = r.choice(al)
        if k in ("mode", "kick", "invite") and r.random() < .7:
            ops = [x for x in al if any(c.member(x) and c.member(x).op for c in x.chans)]
            if ops:
                u = r.choice(ops)
        return u, k, getattr(self, "g_" + k)(u)

    def g_join(self, u):
        r = self.r
        if r.random() < .03:
            return "JOIN " + r.choice(["0", "0,#a", "#a,0,#B", "bad", "#", "#a\x07b", "+x"])
        n = r.choice([1, 1, 1, 1, 2, 3])
        cand = [c for c in CHANS]
        ch = [r.choice(CHVAR[r.choice(cand)]) for _ in range(n)]
        if r.random() < .1:      # an impossible name uses up its key like any other
            ch.insert(r.randrange(len(ch) + 1), r.choice(["bad", "+x", "#" + "z" * 210]))
        s = "JOIN " + ",".join(ch)
        ks = []
        for c in ch:
            o = self.w.M.chan(c, u) if c[0] in "#&" else None
            if o is not None and o.key and r.random() < .6:
                ks.append(r.choice([o.key, o.key, o.key.upper(), o.key.swapcase()]))
            else:
                ks.append(self.key())
        if any(self.w.M.chan(c, u) is not None and self.w.M.chan(c, u).key for c in ch) or r.random() < .15:
            s += " " + ",".join(ks)
        return s

    def g_part(self, u):
        r = self.r
        n = r.choice([1, 1, 1, 2, 3])
        s = "PART " + ",".join(self.chan(u) for _ in range(n))
        if r.random() < .5:
            s += " :" + self.text()
        return s

    def g_kick(self, u):
        s = "KICK %s %s" % (self.chan(u), self.nick(u))
        if self.r.random() < .5:
            s += " :" + self.text()
        return s

    def g_topic(self, u):
        r = self.r
        s = "TOPIC " + self.chan(u)
        if r.random() < .7:
            s += " :" + r.choice(["", "topic one", "TOPIC ONE", "t%d" % r.randint(0, 99), "z" * 200, "a\x03b"])
        return s

    def g_invite(self, u):
        if self.r.random() < .1:
            return "INVITE"
        return "INVITE %s %s" % (self.nick(), self.chan(u))

    def g_msg(self, u):
        r = self.r
        cmd = r.choice(["PRIVMSG", "PRIVMSG", "NOTICE", "CPRIVMSG", "CNOTICE", "WALLCHOPS", "WALLVOICES"])
        if cmd in ("WALLCHOPS", "WALLVOICES"):
            return "%s %s :%s" % (cmd, self.chan(u), self.text())
        if cmd in ("CPRIVMSG", "CNOTICE"):
            return "%s %s %s :%s" % (cmd, self.nick(u), self.chan(u), self.text())
        n = r.choice([1, 1, 1, 1, 2, 4])
        return "%s %s :%s" % (cmd, ",".join(self.chan(u) if r.random() < .65 else self.nick(u) for _ in range(n)), self.text())

    def g_nick(self, u):
        r = self.r
        k = r.random()
        if k < .04:
            return "NICK " + r.choice(["NickServ", "nickserv~a", "NICKSERV!x", "x[jup", "X{JUP,", "NickServ2", "Nick!Serv"])
        if k < .35:
            return "NICK " + r.choice(SPARE)
        if k < .5:
            return "NICK " + self.case(u.nick)
        if k < .65:
            return "NICK " + self.nick()
        return "NICK " + r.choice(["n%d" % r.randint(0, 30), "[a]", "x-y_z", "Q" * r.randint(1, 17)])

    def g_away(self, u):
        return "AWAY" if self.r.random() < .45 else "AWAY :" + self.r.choice(["gone", "brb 5", "w" * 200])

    def g_quit(self, u):
        return "QUIT :" + self.text() if self.r.random() < .7 else "QUIT"

    def g_umode(self, u):
        r = self.r
        if r.random() < .1:
            return "MODE " + self.nick()
        s = ""
        for _ in range(r.choice([1, 1, 2, 3])):
            s += r.choice("+-") + r.choice("iwdRIcxiwdRIcxosgkOzeQ")
        return "MODE %s %s" % (u.nick if r.random() < .95 else self.nick(), s)

    def g_silence(self, u):
        r = self.r
        if r.random() < .12:
            return "SILENCE" if r.random() < .7 else "SILENCE " + self.nick()
        return "SILENCE " + ",".join(r.choice(["", "+", "-", "+", "~", "+~", "-~"]) + self.mask() for _ in range(r.choice([1, 1, 2, 4])))

    def g_names(self, u):
        return "NAMES " + r_opt(self.r, .1, "-D ", "") + self.chan(u)

    def g_whois(self, u):
        return "WHOIS " + self.nick(u)

    def g_ison(self, u):
        return "ISON " + " ".join(self.nick() for _ in range(3))

    def g_userhost(self, u):
        return "USERHOST " + " ".join(self.nick() for _ in range(3))

    def g_modeq(self, u):
        return "MODE " + self.chan(u)

    def g_mode(self, u):
        r = self.r
        if r.random() < .06:
            return "MODE %s b" % self.chan(u)
        return "MODE %s %s" % (self.chan(u), self.modes(u))

    def g_account(self, u):
        return None


def r_opt(r, p, a, b):
    return a if r.random() < p else b


def run(w, weights, steps, own, on_step=None):
    """own: op classes whose mismatches belong to the calling check."""
    g = Gen(w, weights)
    ctx = w.ctx
    for i in range(steps):
        u, k, line = g.op()
        if line and w.skip(u, line):
            continue
        if k == "account":
            if u.acct or w.svc is None:
                continue
            res = w.account(u, w.r.choice(["acc1", "Acc2", "third", "x9"]))
        else:
            if k == "quit" and len(w.alive()) <= 3:
                continue
            ask = None
            if own is not None and w.r.random() < .12 and opclass(line) in own and opclass(line) != "query":
                ask = probes(w, u, line)
                if any(w.do(v, q) for v, q in ask):
                    ctx.count("foreign:query")
                    return
            res = w.do(u, line)
            if ask and res is None:
                for v, q in ask:
                    if v not in w.alive():
                        continue
                    ctx.count("probes")
                    bad = w.do(v, q)
                    if bad:
                        ctx.fail("model:" + opclass(line) + ":state", "the command %r of %s left a wrong state behind: %s" % (line, u.nick, bad[1]))
        ctx.count("ops:" + k)
        ctx.seen("%s/%s" % (k, shape(w, u, line)))
        if res is None and k == "quit":
            n = [x for x in NICKS if w.M.find(x) is None]
            w.add_user(w.r.choice(n))
        if res is not None:
            cls, d = res
            if own is None or cls in own:
                ctx.fail("model:" + cls, d)
            ctx.count("foreign:" + cls)
            return
        if on_step:
            on_step(i)
    ctx.sample("\n".join(ctx.trace[-5:]))


def opclass(line):
    x = line.split(" ")
    return CLS.get(x[0].upper()) or ("mode" if len(x) > 1 and x[1][:1] in "#&+" else "umode")


def probes(w, u, line):
    """State queries whose answers before and after a command show what it did."""
    r = w.r
    al = w.alive()
    out = []
    x = line.split(" ")
    for t in [y for z in x[1:4] for y in z.split(",")][:4]:
        if t[:1] in "#&":
            c = w.M.chan(t, u)
            near = [v for v in al if c and c.member(v)]
            v = r.choice(near) if near else r.choice(al)
            out += [(v, "NAMES " + t), (v, "MODE " + t), (v, "MODE %s b" % t), (r.choice(al), "NAMES " + t)]
        elif w.M.find(t) is not None:
            out.append((r.choice(al), "WHOIS " + t))
    out.append((r.choice(al), "WHOIS " + u.nick))
    return [(v, q) for v, q in out if not w.skip(v, q)][:8]


def shape(w, u, line):
    """Abstraction of the situation in which a command was tried, for the distinct-situations count."""
    if not line:
        return ""
    ws = line.split(" ")
    if len(ws) < 2:
        return "-"
    t = ws[1].split(",")[0]
    c = w.M.chan(t, u)
    out = []
    if c is not None:
        m = c.member(u)
        out.append("".join(sorted(c.modes)) + ("k" if c.key else "") + ("l" if c.limit else ""))
        out.append("n" if not m else "o" if m.op else "v" if m.voice else "d" if m.dj else "m")
        out.append("b" if w.M.banned_by(u, c.bans) else "")
        out.append("a" if u.acct else "")
        out.append("i" if c in u.invited else "")
    else:
        v = w.M.find(t)
        if v is not None:
            out.append("".join(sorted(v.umodes)) + ("A" if v.away else "") + ("S" if w.M.silenced(u, v) else "") + ("a" if u.acct else ""))
    if ws[0] == "MODE" and len(ws) > 2:
        out.append(ws[2][:6])
    return "|".join(out)
