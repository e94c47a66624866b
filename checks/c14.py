"""Connection admission: throttling of reconnects, per-address and per-class limits, Client and Kill blocks, passwords"""
import kit, vsim, p10
from masks import match
import ipaddress
PROPERTY = "C14"
RULE = ("random connections (IPv4, IPv6, 6to4) in bursts and over time against random Client, Kill and IPCheck blocks, limits and class sizes, with users of the same addresses on other servers, abandoned and refused "
        "registrations, disconnections and rehashes; every outcome, refusal reason and the address counters in the sign-on notice are compared with a reference; distinct counts (outcome, address family, block)")
ASSUMPTIONS = ["user names are not looked up (NOIDENT)", "IPCHECK_CLONE_LIMIT of at least 2 and IPCHECK_CLONE_PERIOD of at most 600 seconds"]
MUST_SEE = ["ok", "throttled", "throttled48", "no-auth", "class-full", "ip-full", "badpass", "klined", "exempt", "remote", "rehash", "rehash-kill", "abandon", "grace", "v6", "6to4", "oper-class-full", "oper", "burst", "relink"]


def plan(tier, seed):
    return [{"seed": seed, "i": i} for i in range(2500 if tier == "quick" else 40000)]


def key(ip):
    a = ipaddress.ip_address(ip)
    if a.version == 4:
        return str(a)
    b = a.packed
    if b[:2] == b"\x20\x02":
        return str(ipaddress.IPv4Address(b[2:6]))
    return b[:8].hex()


def key48(ip):
    a = ipaddress.ip_address(ip)
    return None if a.version == 4 else a.packed[:6].hex()


def ipin(ip, mask):
    a = ipaddress.ip_address(ip)
    n = ipaddress.ip_network(mask, strict=False)
    return a.version == n.version and a in n


class Reg:
    def __init__(self, now, att=1):
        self.conn, self.att, self.last = 1, att, now


def run_case(ctx, p):
    X(ctx).run()


class X:
    IPS = ["10.1.0.1", "10.1.0.2", "10.1.1.1", "10.2.0.1", "192.168.7.7", "2001:db8:1:1::1", "2001:db8:1:1::2", "2001:db8:1:2::1", "2001:db8:2:1::1", "2002:a01:1::5", "2002:a01:1:7::9", "192.168.0.1"]

    def __init__(self, ctx):
        self.ctx, self.r = ctx, ctx.rng

    def gen(self):
        r = self.r
        self.limit = getattr(self, "limit", None) or r.choice([2, 3, 4, 6, 50])
        self.period = getattr(self, "period", None) or r.choice([1, 10, 40, 300])
        self.limit48 = getattr(self, "limit48", None) or r.choice([3, 5, 50])
        self.period48 = getattr(self, "period48", None) or r.choice([5, 30])
        self.grace = getattr(self, "grace", None) or r.choice([1, 1, 60, 600])
        self.maxl = {"A": r.choice([2, 3, 5, 50]), "B": r.choice([1, 2, 4, 50]), "O": r.choice([1, 2, 50])}
        self.blocks = []
        for _ in range(r.randint(1, 4)):
            b = {"ip": r.choice(["", "10.1.0.0/16", "10.1.0.0/24", "10.0.0.0/8", "10.1.0.1", "2001:db8:1::/48", "2001:db8::/32", "10.1.0.*", "10.*"]), "class": r.choice("AB"), "max": r.choice([None, None, 1, 2, 3]), "pw": r.choice(["", "", "", "sesame"]),
                 "host": r.choice(["", "", "", "10.1.*", "*:1:*", "*1"]), "port": r.choice([0, 0, 0, 6667, 6668])}
            self.blocks.append(b)
        if r.random() < .8:
            self.blocks.insert(0, {"ip": "", "class": "A", "max": r.choice([None, 3, 5]), "pw": "", "host": "", "port": 0})
        self.kills = []
        for _ in range(r.choice([0, 0, 1, 2])):
            self.kills.append({"host": r.choice(["10.1.1.*", "*@10.2.0.0/16", "bad@*", "us*@10.1.0.2", "2001:db8:2::/48", "*@2001:db8:1:2:*", ""]), "real": r.choice(["", "", "*evil*"]), "why": r.choice(["Go away", "Bad %d" % r.randrange(99)])})
        self.kills = [k for k in self.kills if k["host"] or k["real"]]
        self.exempt = r.choice([[], [], ["192.168.0.0/16"], ["10.1.0.1"], ["2001:db8:1:1::/64"]])

    def conf(self):
        cl = []
        for b in self.blocks:
            o = 'class = "%s";' % b["class"]
            if b["ip"]:
                o += ' ip = "%s";' % b["ip"]
            if b["host"]:
                o += ' host = "%s";' % b["host"]
            if b["max"] is not None:
                o += " maxlinks = %d;" % b["max"]
            if b["pw"]:
                o += ' password = "%s";' % b["pw"]
            if b["port"]:
                o += " port = %d;" % b["port"]
            cl.append(o)
        # blocks are tried from the last to the first; the controlling operator's comes first of all
        cl.append('ip = "172.16.0.1"; class = "Ctl";')
        ex = ""
        for k in self.kills:
            ex += "Kill { %s%s reason = \"%s\"; };\n" % ('host = "%s";' % k["host"] if k["host"] else "", ' real = "%s";' % k["real"] if k["real"] else "", k["why"])
        if self.exempt:
            ex += "IPCheck { except %s; };\n" % " ".join('"%s"' % e for e in self.exempt)
        return vsim.conf(ports=((6667, ""), (6668, ""), (4400, "server=yes")), clients=cl, extra=ex,
                         classes=['name = "%s"; pingfreq = 65000; sendq = 160000; maxlinks = %d;' % (c, n) for c, n in self.maxl.items()] +
                         ['name = "Ctl"; pingfreq = 65000; sendq = 1600000; maxlinks = 10;', 'name = "Server"; pingfreq = 65000; sendq = 9000000; maxlinks = 40;'],
                         opers=['local = no; class = "Ctl"; host = "*@172.16.*"; password = "$PLAIN$operpass"; name = "oper";', 'local = yes; class = "O"; host = "*@*"; password = "$PLAIN$two"; name = "two";'],
                         connects=['name="fa.test.net"; host="10.200.0.1"; password="testpass"; class="Server"; hub; autoconnect=no'],
                         features={"IPCHECK_CLONE_LIMIT": self.limit, "IPCHECK_CLONE_PERIOD": self.period, "IPCHECK_48_CLONE_LIMIT": self.limit48, "IPCHECK_48_CLONE_PERIOD": self.period48, "IPCHECK_CLONE_DELAY": self.grace, "CONNEXIT_NOTICES": "TRUE"})

    def settle(self):
        kit.settle(self.s, (self.fa,))

    # -- the address register
    def is_exempt(self, ip):
        return any(ipin(ip, e) for e in self.exempt)

    def attempt(self, ip):
        """Counts a local attempt; True if admitted past the throttle."""
        now = self.s.now
        if self.is_exempt(ip):
            self.ctx.count("exempt")
            return True
        e = self.reg.get(key(ip))
        late = now - self.boot > self.grace
        k48 = key48(ip)
        if k48:
            f = self.reg48.setdefault(k48, [0, now])
            if now - f[1] > self.period48:
                f[0] = 0
            f[1] = now
            f[0] += 1
            if f[0] >= self.limit48:
                if late:
                    if e:
                        e.last = now
                    self.ctx.count("throttled48")
                    return False
                self.ctx.count("grace")
        if not e:
            self.reg[key(ip)] = Reg(now)
            return True
        if now - e.last > self.period:
            e.att = 0
        e.last = now
        e.att = min(255, e.att + 1)
        if e.att >= self.limit:
            if late:
                self.ctx.count("throttled")
                return False
            self.ctx.count("grace")
        e.conn += 1
        return True

    def leave(self, ip, counted=True):
        e = self.reg.get(key(ip))
        if not e or not counted:
            return
        e.conn -= 1
        if e.conn < 0:
            raise RuntimeError("model: negative count")
        if e.conn == 0:
            if self.s.now - e.last > self.limit * self.period:
                e.att = 0
            e.last = self.s.now

    def expire(self):
        # forgotten at the latest 660 seconds after; between 600 and 660 the answer is the same either way
        for k, e in list(self.reg.items()):
            if e.conn == 0 and self.s.now - e.last > 600:
                del self.reg[k]

    def nr(self, ip):
        e = self.reg.get(key(ip))
        return e.conn if e else 0

    # -- the run
    def run(self):
        ctx, r = self.ctx, self.r
        self.gen()
        self.s = s = ctx.ircd(self.conf(), t0=r.choice([vsim.T0, vsim.T0 - vsim.T0 % 65536 + 65536 - r.choice([30, 700, 1500])]))
        self.boot = s.now
        self.reg, self.reg48, self.cl, self.rem, self.n = {}, {}, {}, {}, 0
        self.used = {}
        self.lo = r.choice([0, 0, 0, 5])
        self.link()
        self.ctl = kit.register(s, "ctl", "172.16.0.1", wait=1)
        kit.oper(s, self.ctl)
        self.ctl.send("MODE ctl +s 131071")
        self.settle()
        self.ctl.take()
        for _ in range(r.randint(25, 60)):
            self.expire()
            k = r.random()
            if k < .56:
                self.connect()
            elif k < .66:
                self.quit()
            elif k < .76:
                self.remote()
            elif k < .82:
                self.oper()
            elif k < .87:
                self.rehash()
            elif k < .89:
                self.relink()
            else:
                self.adv(r.choice([1, 2, 4, 5, 7, 11, 26, 39, 41, 61, 301, 700, 1300]))
            self.verify()

    def link(self):
        s = self.s
        self.fa = kit.peer(s, "fa.test.net", 5, "10.200.0.1", eob=False)
        for _ in range(self.r.choice([0, 0, 1, 3])):
            self.ctx.count("burst")
            self.remote(burst=True)
        self.fa.eob()
        for _ in range(4):
            self.settle()

    def relink(self):
        self.ctx.count("relink")
        self.fa.close()
        self.settle()
        for ip, ex in self.rem.values():
            self.leave(ip, not ex)
        self.rem = {}
        self.link()

    def adv(self, n):
        self.s.advance(n)
        self.settle()

    def verify(self):
        self.settle()
        for n, c in self.cl.items():
            self.take(c["c"])
            if c["c"].eof:
                self.ctx.fail("admit:lost", "a registered client (%s from %s) was disconnected" % (n, c["ip"]))
        self.ctx.ev()

    def kmatch(self, user, ip, real):
        # the last block in the file is tried first
        for k in reversed(self.kills):
            u, h = (k["host"].split("@", 1) if "@" in k["host"] else ("*" if k["host"] else None, k["host"]))
            if u is not None and not match(u, user):
                continue
            if k["real"] and not match(k["real"], real):
                continue
            if h:
                if "/" in h:
                    if not ipin(ip, h):
                        continue
                elif h == "*":
                    pass
                elif h == "10.1.1.*":
                    if not ipin(ip, "10.1.1.0/24"):
                        continue
                elif h == "2001:db8:1:2:*":
                    if not ipin(ip, "2001:db8:1:2::/64"):
                        continue
                elif h != ip:
                    continue
            return k
        return None

    def pick(self, ip, port):
        for b in reversed(self.blocks):
            if b["port"] and b["port"] != port:
                continue
            if b["host"] and not match(b["host"], ip):
                continue
            m = b["ip"]
            if m:
                m = {"10.1.0.*": "10.1.0.0/24", "10.*": "10.0.0.0/8"}.get(m, m)
                if not ipin(ip, m):
                    continue
            return b
        return None

    def connect(self):
        r, ctx, s = self.r, self.ctx, self.s
        ip = r.choice(self.IPS[self.lo:][:r.choice([2, 6, 12])])
        port = r.choice([6667, 6667, 6668])
        for _ in range(r.choice([1, 1, 1, 2, 3, 5])):
            self.one(ip, port)

    def one(self, ip, port):
        r, ctx, s = self.r, self.ctx, self.s
        self.n += 1
        nick, user = "n%d" % self.n, r.choice(["user", "bad", "joe"])
        real = r.choice(["plain", "plain", "the evil one"])
        pw = r.choice([None, None, "sesame", "wrong", "Sesame"])
        fam = "6to4" if ip.startswith("2002") else "v6" if ":" in ip else "v4"
        c = s.connect(ip, port)
        self.settle()
        self.take(c)
        counted = not self.is_exempt(ip)
        ok = self.attempt(ip)
        what = "connection %d from %s to port %d" % (self.n, ip, port)
        if c.eof == ok:
            ctx.fail("admit:throttle", "%s at +%d s was %s; reference: %s" % (what, s.now - self.boot, "refused: %r" % self.text(c) if c.eof else "let in", self.show(ip)))
        if not ok:
            ctx.seen("throttled " + fam)
            if "throttled" not in self.text(c):
                ctx.fail("admit:reason", "%s: refused with %r" % (what, self.text(c)))
            return
        if r.random() < .12:
            ctx.count("abandon")
            c.close()
            self.settle()
            self.leave(ip, counted)
            return
        if pw:
            c.send("PASS :" + pw)
        c.send("NICK " + nick)
        c.send("USER %s 0 0 :%s" % (user, real))
        got = []
        for _ in range(6):
            self.settle()
            got += self.take(c)
        txt = self.text(c)
        k = self.kmatch(user, ip, real)
        b = None
        if k:
            want = "klined"
        else:
            b = self.pick(ip, port)
            if not b:
                want = "no-auth"
            elif self.nr(ip) > (65535 if b["max"] is None else b["max"]):
                want = "ip-full"
            elif self.used.get(b["class"], 0) >= self.maxl[b["class"]]:
                want = "class-full"
            elif b["pw"] and b["pw"] != pw:
                want = "badpass"
            else:
                want = "ok"
        have = "ok" if any(m.cmd == "001" for m in got) else \
            "klined" if "K-lined" in txt else "no-auth" if "No Authorization" in txt else "ip-full" if "Too many connections from your host" in txt else \
            "class-full" if "class is full" in txt else "badpass" if "Bad Password" in txt else "?" + txt
        if have != want:
            ctx.fail("admit:outcome", "%s (user %s, real name %r, password %s): outcome %s, reference %s; block %r, class use %r of %r, %s" % (what, user, real, pw, have, want, b, self.used, self.maxl, self.show(ip)))
        ctx.count(want)
        ctx.seen("%s %s %r" % (want, fam, b and (b["ip"], b["host"], b["port"], b["max"])))
        if want == "klined" and not any(m.cmd == "465" and k["why"] in m.args[-1] for m in got):
            ctx.fail("admit:reason", "%s: K-lined without the reason %r: %r" % (what, k["why"], txt))
        if fam != "v4":
            ctx.count(fam)
        if want != "ok":
            if not c.eof:
                ctx.fail("admit:outcome", "%s: refused (%s) but left connected" % (what, want))
            self.leave(ip, counted)
            return
        e = self.reg.get(key(ip))
        note = next((m.args[-1] for m in got if m.cmd == "NOTICE" and m.args[-1].startswith("on ")), None)
        if e and counted:
            exp = "on %d ca %d(%d)" % (e.conn, e.att, self.limit)
            if not (note or "").startswith(exp + " "):
                ctx.fail("admit:counters", "%s: sign-on notice %r, reference %r" % (what, note, exp))
        self.used[b["class"]] = self.used.get(b["class"], 0) + 1
        self.cl[nick] = {"c": c, "ip": ip, "class": b["class"], "counted": counted, "user": user, "real": real, "oper": False}
        snot = [m.args[-1] for m in self.ctl.take() if "Client connecting: %s " % nick in m.args[-1]]
        if not snot or "{%s}" % b["class"] not in snot[0]:
            ctx.fail("admit:class", "%s: placed in %r, should be in class %s" % (what, snot, b["class"]))

    def take(self, c):
        l = c.take()
        c.hist = getattr(c, "hist", "") + " ".join(str(m.raw) for m in l)
        return l

    def text(self, c):
        self.take(c)
        return c.hist[-400:]

    def show(self, ip):
        e = self.reg.get(key(ip))
        return "connected %d, attempts %d, last %d s ago" % (e.conn, e.att, self.s.now - e.last) if e else "no record"

    def gone(self, nick):
        c = self.cl.pop(nick)
        self.used[c["class"]] -= 1
        if c["oper"]:
            self.used["O"] -= 1
        self.leave(c["ip"], c["counted"])

    def quit(self):
        r = self.r
        if not self.cl:
            return
        n = r.choice(list(self.cl))
        c = self.cl[n]["c"]
        if r.random() < .5:
            c.send("QUIT :bye")
        else:
            c.close()
        self.settle()
        self.gone(n)

    def remote(self, burst=False):
        """Users of the same addresses on another server."""
        r, s = self.r, self.s
        if not burst:
            self.ctx.count("remote")
        if self.rem and r.random() < .45 and not burst:
            nn = r.choice(list(self.rem))
            self.fa.send("%s Q :bye" % nn)
            self.settle()
            ip, ex = self.rem.pop(nn)
            self.leave(ip, not ex)
            return
        ip = r.choice(self.IPS[self.lo:])
        self.n += 1
        nn = self.fa.add_user("r%d" % self.n, ip=ip, host="h%d.example" % self.n)
        self.settle()
        self.rem[nn] = (ip, self.is_exempt(ip))
        if self.is_exempt(ip):
            return
        now = s.now
        k48 = key48(ip)
        if k48:
            f = self.reg48.setdefault(k48, [0, now])
            if now - f[1] > self.period48:
                f[0] = 0
            f[0] += 1
            f[1] = now
        e = self.reg.get(key(ip))
        if not e:
            # those seen for the first time in a burst have not just attempted to connect
            self.reg[key(ip)] = Reg(now, 0 if burst else 1)
            return
        e.conn += 1
        if now - e.last > self.period:
            e.att = 0
        if not burst:
            e.att = min(255, e.att + 1)
            e.last = now

    def oper(self):
        r, ctx = self.r, self.ctx
        cand = [n for n in self.cl]
        if not cand:
            return
        n = r.choice(cand)
        d = self.cl[n]
        c = d["c"]
        c.take()
        if d["oper"] and r.random() < .5:
            c.send("MODE %s -o" % n)
            self.adv(2)
            d["oper"] = False
            self.used["O"] -= 1
            c.take()
            return
        c.send("OPER two two")
        self.adv(2)
        got = [m.cmd for m in c.take()]
        if d["oper"]:
            return
        full = self.used.get("O", 0) >= self.maxl["O"]
        if ("381" in got) == full:
            ctx.fail("admit:oper", "OPER with %d of %d in the operator class: %r" % (self.used.get("O", 0), self.maxl["O"], got))
        ctx.count("oper-class-full" if full else "oper")
        if not full:
            d["oper"] = True
            self.used["O"] = self.used.get("O", 0) + 1

    def rehash(self):
        r, ctx, s = self.r, self.ctx, self.s
        ctx.count("rehash")
        if r.random() < .8:
            self.gen()
        s.write_conf(self.conf())
        self.ctl.send("REHASH")
        for _ in range(30):
            self.settle()
            if any(m.cmd == "382" for m in self.ctl.take()):
                break
            s.advance(1)
        else:
            raise RuntimeError("no rehash")
        for n, d in list(self.cl.items()):
            k = self.kmatch(d["user"], d["ip"], d["real"])
            self.take(d["c"])
            if bool(k) != d["c"].eof:
                ctx.fail("admit:rehash-kill", "after a rehash %s!%s@%s (%r) %s" % (n, d["user"], d["ip"], d["real"], "is still connected despite the Kill block %r" % k if k else "was cut off: %r" % self.text(d["c"])))
            if k:
                ctx.count("rehash-kill")
                self.gone(n)
