"""Registration: who becomes a user, when, as whom; what the unregistered can do; registration timeouts"""
import string
import kit, vsim, p10
from masks import lower
PROPERTY = "C21"
RULE = ("several unregistered connections send random sequences of registration and other commands, with ident servers answering well, badly, late or never, against a reference of the registration state machine; "
        "observers are a registered user, a neighbouring server and LUSERS; distinct counts (event, registration state)")
ASSUMPTIONS = ["host names are not looked up", "user names and nicks in ASCII"]
MUST_SEE = ["registered", "451", "431", "432", "433", "override", "513", "461", "462", "kill", "badname", "timeout", "ident ok", "ident bad", "ident late", "ident never", "cap-wait", "quit", "bogus", "badpass", "second-user", "umodes"]
NICKCH = string.ascii_letters + string.digits + "-_{}|[]\\^`"
UCH = set(string.ascii_letters + string.digits + "-._^'`~")


def plan(tier, seed):
    return [{"seed": seed, "i": i} for i in range(2500 if tier == "quick" else 30000)]


def clean(s):
    for i, c in enumerate(s):
        if ord(c) < 32 or ord(c) == 127:
            s = s[:i]
            break
    return "".join(c if c in UCH and (c != "~" or i == 0) else "_" for i, c in enumerate(s[:10]))


def name_ok(u, strict):
    s = u[1:] if u.startswith("~") else u
    up = lo = lead = dig = grp = oth = 0
    last = ""
    for c in s:
        if c.islower() or c in "{|}~":    # (lower case as in nicknames)
            lo += 1
        elif c.isupper() or c in "[\\]^":
            up += 1
            if (lead or not last) and not lo and not dig:
                lead += 1
        elif c.isdigit():
            dig += 1
            if not last.isdigit():
                grp += 1
        elif c in "-_.":
            oth += 1
            if not last or last in "-_." or oth > 2:
                return False
        else:
            return False
        last = c
    if not lo and not up:
        return False
    if not strict:
        return True
    if grp > 2 or lo and up and (not lead or lead > 3 or up > 2 and up > lead):
        return False
    # of two groups of digits, one must be at the start or the end
    if grp == 2 and not (s[0].isdigit() or last.isdigit()):
        return False
    return last.isalnum() or last in "{|}~[\\]^"


class C:
    nick = user = info = cookie = None
    ponged = cap = checked = reg = dead = False
    passwd = ""
    identname = None
    modes = ""


def run_case(ctx, p):
    X(ctx).run()


class X:
    def __init__(self, ctx):
        self.ctx, self.r = ctx, ctx.rng

    def settle(self):
        kit.settle(self.s, (self.fa,))

    def run(self):
        ctx, r = self.ctx, self.r
        self.ident = r.random() < .5
        self.strict = r.random() < .5
        self.nicklen = r.choice([15, 12, 9, 5])
        self.ct = r.choice([25, 40, 90])
        self.at = r.choice([5, 9, 15])
        self.wop = r.random() < .5
        self.pw = r.choice(["", "", "a b"])
        cl = ['ip = "*"; class = "Local"; %s' % ('password = "%s";' % self.pw if self.pw else ""), 'ip = "172.16.*"; class = "Local";']
        if self.ident:
            cl.append('username = "nomatch"; ip = "1.2.3.4"; class = "Local";')
        self.s = s = ctx.ircd(vsim.conf(ports=((6667, ""), (4400, "server=yes")), clients=cl, jupes=("juped",), extra='Kill { host = "bad*@*"; reason = "no"; };\nKill { real = "*evil*"; reason = "evil"; };\nKill { host = "~bad*@*"; reason = "no"; };',
                                        connects=['name="fa.test.net"; host="10.200.0.1"; password="testpass"; class="Server"; hub; autoconnect=no'],
                                        features={"STRICT_USERNAME": "TRUE" if self.strict else "FALSE", "NICKLEN": self.nicklen, "CONNECTTIMEOUT": self.ct, "AUTH_TIMEOUT": self.at, "PINGFREQUENCY": 30, "HIS_SNOTICES_OPER_ONLY": "TRUE",
                                                  "HIS_DEBUG_OPER_ONLY": "TRUE", "WALLOPS_OPER_ONLY": "TRUE" if self.wop else "FALSE"}))
        self.fa = kit.peer(s)
        self.w = kit.register(s, "watch", "172.16.0.9")
        self.w.take()
        self.settle()
        self.fa.take()
        self.cs, self.n, self.known, self.listen, self.far, self.nn = [], 0, {}, {}, {}, 0
        for i in range(6):
            if self.ident and r.random() < .7:
                ip = "10.3.0.%d" % i
                self.listen[ip] = s.listen_out(ip, 113)
        for k in range(r.randint(30, 80)):
            x = r.random()
            if x < .1 or not [c for c in self.cs if not c.dead]:
                self.open()
            elif x < .16 and self.pending():
                self.ident_event(r.choice(self.pending()))
            elif x < .2:
                self.query()
            elif x < .23:
                self.remote()
            elif x < .27:
                self.adv(r.choice([2, 4, 5, 10, 20, 45]))
            else:
                self.cmd(r.choice([c for c in self.cs if not c.dead and (not c.reg or r.random() < .3)][-4:] or [c for c in self.cs if not c.dead]))
            self.verify()

    def pending(self):
        return [c for c in self.cs if not c.dead and c.ident]

    # -- observations
    def adv(self, n):
        for _ in range(n):
            self.s.advance(1)
            self.settle()
            self.verify(quiet=True)

    def verify(self, quiet=False):
        ctx = self.ctx
        self.settle()
        for c in self.cs:
            if c.over:
                continue
            got = c.c.take()
            c.got += got
            if c.ident and any("No ident response" in m.args[-1] for m in got if m.cmd == "NOTICE"):
                # the lookup is given up after this time
                if self.s.now - c.born < self.at:
                    ctx.fail("reg:ident", "%s: the ident lookup was given up after %d s, limit %d" % (self.name(c), self.s.now - c.born, self.at))
                ctx.count("ident never")
                self.ident_done(c, None)
            elif c.ident and not c.dead and self.s.now - c.born > self.at + 2:
                ctx.fail("reg:ident", "%s: the ident lookup is still outstanding after %d s, limit %d" % (self.name(c), self.s.now - c.born, self.at))
            greeted = [m for m in got if m.cmd == "001"]
            if not c.reg and not c.dead and (greeted or c.c.eof):
                # the only changes that come by themselves: the ident timeout (whose second is not exact) and the registration timeout
                if c.c.eof and self.s.now - c.born >= self.ct:
                    ctx.count("timeout")
                    c.dead, c.end = True, "Registration Timeout"
            if greeted and not c.reg:
                ctx.fail("reg:early", "%s was registered: %s" % (self.name(c), self.state(c)))
            if len([m for m in c.got if m.cmd == "001"]) > 1:
                ctx.fail("reg:twice", "%s was welcomed twice" % self.name(c))
            if c.c.eof and not c.dead:
                ctx.fail("reg:lost", "%s was disconnected (%r): %s" % (self.name(c), [m.raw for m in c.got[-2:]], self.state(c)))
            if c.dead and c.c.eof:
                c.over = True
                if c.end and not any(m.cmd == "ERROR" and c.end in m.args[-1] for m in c.got):
                    ctx.fail("reg:reason", "%s disconnected with %r, reference %r" % (self.name(c), [m.raw for m in c.got[-2:]], c.end))
            elif c.dead:
                ctx.fail("reg:stays", "%s is still connected, reference: %s (the neighbour was told %r)" % (self.name(c), c.end, [m.raw for m in self.fa.take()][-3:]))
            if c.reg and not c.greeted:
                self.greeting(c)
            if not c.reg and not c.dead and self.s.now - c.born > self.ct + 35:
                ctx.fail("reg:timeout", "%s is still unregistered after %d s (limit %d): %s" % (self.name(c), self.s.now - c.born, self.ct, self.state(c)))
            ctx.ev()
        for m in self.w.take():
            if m.cmd != "PING" and not quiet:
                ctx.fail("reg:leak", "a user was sent %r" % m.raw)
        for m in self.fa.take():
            if m.cmd == "N" and len(m.args) > 5:
                nn = m.args[-2]
                c = next((c for c in self.cs if c.reg and not c.told and c.nick == m.args[0]), None)
                if c is None:
                    ctx.fail("reg:introduced", "the neighbour was told %r of no registered user" % m.raw)
                    continue
                md = m.args[5][1:] if m.args[5][:1] == "+" else ""
                have = (m.args[1], m.args[2], m.args[3], m.args[4], "".join(sorted(md)), p10.ip_dec(m.args[-3]), m.args[-1])
                want = ("1", str(c.nts), c.user, c.ip, "".join(sorted(c.modes)), c.ip, c.info)
                if have != want:
                    ctx.fail("reg:introduced", "%s was introduced as %r, reference %r" % (self.name(c), have, want))
                c.told = nn
                self.known[nn] = c
            elif m.cmd == "Q" and m.src in self.known and self.known[m.src].dead:
                del self.known[m.src]
            elif m.cmd in ("N", "Q", "D", "AC", "M", "J", "P"):
                ctx.fail("reg:introduced", "the neighbour was told %r" % m.raw)
        for c in self.cs:
            if c.reg and not c.told:
                ctx.fail("reg:introduced", "%s was registered but the neighbour was not told" % self.name(c))
            if c.reg and c.dead and c.told in self.known:
                ctx.fail("reg:introduced", "the neighbour was not told that %s left" % self.name(c))

    def greeting(self, c):
        ctx = self.ctx
        c.greeted = True
        ctx.count("registered")
        ctx.seen("registered %s %s %s" % (bool(c.identname), c.modes, c.user[:1]))
        i = next((k for k, m in enumerate(c.got) if m.cmd == "001"), None)
        if i is None:
            ctx.fail("reg:late", "%s was not registered: %s; got %r" % (self.name(c), self.state(c), [m.raw for m in c.got[-3:]]))
            return
        g = c.got[i:]
        nums = [m.cmd for m in g if m.cmd.isdigit() and m.cmd not in ("252", "253", "254", "501")]
        if nums[:9] not in (["001", "002", "003", "004", "005", "005", "251", "255", "422"],):
            ctx.fail("reg:greeting", "%s was greeted with %r" % (self.name(c), nums))
        if any(m.args[0] != c.nick for m in g if m.cmd.isdigit() and m.cmd < "400"):
            ctx.fail("reg:greeting", "%s (%s) was addressed as %r" % (self.name(c), c.nick, {m.args[0] for m in g}))
        mode = [m.args[-1] for m in g if m.cmd == "MODE"]
        if sorted("".join(mode).replace("+", "")) != sorted(c.modes):
            ctx.fail("reg:greeting", "%s was told of modes %r, reference %r" % (self.name(c), mode, c.modes))
        if c.modes:
            ctx.count("umodes")

    def name(self, c):
        return "connection %d from %s" % (c.id, c.ip)

    def state(self, c):
        return "nick %r, user %r, cookie %s, CAP pending %s, ident pending %s, password %r, age %d" % (c.nick, c.user, "returned" if c.ponged else "outstanding", c.cap, bool(c.ident), c.passwd, self.s.now - c.born)

    def query(self):
        ctx, s = self.ctx, self.s
        self.adv(6)
        self.w.take()
        self.w.send("LUSERS")
        self.w.send("ISON watch " + " ".join({c.nick for c in self.cs if c.nick}))
        self.settle()
        l = self.w.take()
        unk = next((int(m.args[1]) for m in l if m.cmd == "253"), 0)
        loc = next((int(m.args[1].split()[2]) for m in l if m.cmd == "255"), None)
        nreg = sum(c.reg and not c.dead for c in self.cs)
        nun = sum(not c.reg and not c.dead for c in self.cs)
        if unk != nun or loc != nreg + 1:
            ctx.fail("reg:count", "LUSERS counts %r unknown connections and %r clients, reference %d and %d" % (unk, loc, nun, nreg + 1))
        on = next((m.args[-1].split() for m in l if m.cmd == "303"), [])
        want = {c.nick for c in self.cs if c.reg and not c.dead} | {"watch"}
        if set(on) - set(self.far) != want:
            ctx.fail("reg:visible", "ISON shows %r, registered are %r" % (on, want))

    # -- the reference
    def progress(self, c):
        """Registers or rejects once everything is there."""
        if c.reg or c.dead:
            return
        if not c.checked:
            if c.ident or c.user is None:
                return
            c.checked = True
            if c.identname is not None:
                c.user = clean(c.identname)
            elif self.ident:
                c.user = ("~" + c.user)[:10]
            if (lower(c.user).startswith("bad") or lower(c.user).startswith("~bad")) or "evil" in lower(c.info):
                self.ctx.count("kill")
                c.dead, c.end = True, "K-lined"
                return
        if c.nick is None or not c.ponged or c.cap:
            return
        if c.user in ("", "~"):
            self.ctx.count("bogus")
            c.dead, c.end = True, "Bogus userid"
        elif not name_ok(c.user, self.strict) and not (c.identname is not None and c.identname[:10] == c.user):
            self.ctx.count("badname")
            c.dead, c.end = True, "Bad username"
        elif self.pw and c.passwd[:20] != self.pw:
            self.ctx.count("badpass")
            c.dead, c.end = True, "Bad Password"
        else:
            c.reg = True

    def ident_done(self, c, name):
        if c.ident not in (None, True):
            try:
                c.ident.close()
            except OSError:
                pass
        c.ident = None
        if name is not None:
            c.identname = name
        self.progress(c)

    # -- actions
    def remote(self):
        """A user of the neighbour takes or leaves a nick."""
        r, s = self.r, self.s
        if self.far and r.random() < .5:
            n = r.choice(sorted(self.far))
            self.fa.send("%s Q :x" % self.far.pop(n))
        else:
            n = r.choice(["ann", "Ann", "bob", "cat", "nick%d" % r.randrange(40)] + [c.nick for c in self.cs if not c.dead and not c.reg and c.nick])
            if n in self.far or lower(n) in [lower(x) for x in self.far] + [lower(c.nick) for c in self.cs if c.reg and not c.dead and c.nick]:
                return
            self.nn += 1
            self.far[n] = "AF" + p10.enc(self.nn, 3)
            self.fa.send("AF N %s 1 %d u h.test.net %s %s :far" % (n, s.now, p10.ip_enc("10.9.9.9"), self.far[n]))
            self.settle()
            self.ctx.log("remote " + n)
            self.displace(n)
        self.settle()

    def displace(self, n, but=None):
        for h in self.cs:
            if not h.dead and not h.reg and h is not but and h.nick and lower(h.nick) == lower(n):
                self.ctx.count("override")
                h.dead, h.end = True, "Overridden by other sign on"
                if h.ident:
                    self.ident_done(h, None)

    def open(self):
        r, s = self.r, self.s
        self.n += 1
        c = C()
        c.id, c.ip, c.born, c.got, c.greeted, c.over, c.told, c.end, c.ident = self.n, "10.3.0.%d" % r.randrange(6), s.now, [], False, False, None, None, None
        c.nts, c.lag = s.now, s.now
        c.c = s.connect(c.ip, 6667)
        c.c.autopong = False
        self.cs.append(c)
        self.settle()
        if c.ip in self.listen:
            try:
                fd, _ = self.listen[c.ip].accept()
                fd.setblocking(False)
            except BlockingIOError:
                return self.ctx.fail("reg:ident", "no ident query for " + self.name(c))
            c.ident = fd
            self.settle()
            try:
                q = fd.recv(600).decode()
            except BlockingIOError:
                q = ""
            if [x.strip() for x in q.strip().split(",")] != [str(c.c.sport), "6667"]:
                self.ctx.fail("reg:ident", "%s: ident query %r, ports are %d and 6667" % (self.name(c), q, c.c.sport))

    def ident_event(self, c):
        r, ctx = self.r, self.ctx
        pre = "%d , 6667 : " % c.c.sport
        nm = r.choice(["joe", "ann", "badguy", "x y", "Joe9", "A.b", "we!rd", "longlonglonguser", "a@b", "bob", "we!!rd", "joe.", "a..b", "123"])
        good = r.choice(["USERID : UNIX : " + nm, "USERID:UNIX:" + nm, "USERID : LINUX : " + nm])
        bad = r.choice(["ERROR : NO-USER", "USERID : OTHER : " + nm, "garbage", "USERID", "USERID : UNIX : ", "USERID : UNIX", ": : :", None])
        late = self.s.now - c.born > self.at - 2
        if r.random() < .65:
            ctx.log("ident %d: %s" % (c.id, good))
            c.ident.send((pre + good + "\r\n").encode())
            name = nm.split(" ")[0].split("@")[0]
            ctx.count("ident ok")
        else:
            name = None
            if bad is not None:
                c.ident.send((pre + bad + "\r\n").encode())
            ctx.count("ident bad")
        if late:
            ctx.count("ident late")
        # the server takes the first answer and hangs up
        self.ident_done(c, name[:10] if name else None)

    def cmd(self, c):
        r, ctx, s = self.r, self.ctx, self.s
        k = r.choice(["nick"] * 5 + ["user"] * 5 + ["pong"] * 6 + ["pass", "cap", "cap", "capend", "other", "other", "other", "quit", "ignored", "close"])
        if k == "quit" and r.random() < .6:
            return
        good = not c.reg and r.random() < .6
        if good:
            # towards registration
            todo = [x for x, y in (("nick", not c.nick), ("user", not c.user), ("pong", c.nick and not c.ponged), ("capend", c.cap), ("pass", self.pw and not c.passwd)) if y]
            k = r.choice(todo) if todo else k
        if c.reg and k in ("other", "ignored", "cap", "capend", "pong"):
            k = r.choice(["user", "pass", "nick"])
        line = None
        if k == "nick":
            n = r.choice(["ann", "Ann", "bob", "bob[", "BOB{", "cat", "watch", "juped", "nick%d" % r.randrange(40), "verylongnickname", "9x", "-a", "a b", "x~y", "~q", "e!f", ""])
            if good and r.random() < .7:
                n = "nick%d" % r.randrange(40)
            line = "NICK %s" % n if n else r.choice(["NICK", "NICK :"])
            n = n.split(" ")[0]
        elif k == "user":
            n = r.choice(["joe", "joe@host", "Joe", "badjoe", "BADX", "jOe", "joe9", "j9o9e9", "j.o-e_x", ".joe", "joe.", "j..e", "999", "a9b9", "9a9b", "ABCd", "ABC", "aBCD", "j!e", "~joe", "~", "~~x", "joejoejoejoe", "j*e", "\x01x", "@x", "x'y", "AbCdE", "ABCDe", "ABCDEf"])
            mode = r.choice(["0", "0", "0", "8", "4", "12", "+i", "+iw", "+oO", "+kz", "+dR", "+Ic", "+sg", "x", "+i-i", "8x", "+r"])
            info = r.choice(["Joe User", "an evil user", "x" * 80, "EVIL", ""])
            if good and r.random() < .6:
                n, info = r.choice(["joe", "Ann", "a.b", "x9"]), "Joe User"
            line = r.choice(["USER %s %s * :%s"] * 8 + ["USER %s %s"]) 
            short = line.count("%s") == 2
            line = line % ((n, mode) if short else (n, mode, info))
        elif k == "pong":
            line = "PONG " + r.choice([":%s" % c.cookie] * 7 + ["12345", "srv :%s" % c.cookie, ""]) if c.cookie else "PONG :1"
        elif k == "pass":
            pw = r.choice(["a b", "a", "sesame", ""])
            pw = self.pw if good else pw
            line = r.choice(["PASS :%s", "PASS %s"]) % pw if pw else r.choice(["PASS", "PASS :"])
        elif k == "cap":
            line = r.choice(["CAP LS", "CAP LS 302", "CAP REQ :away-notify", "CAP REQ :bogus", "CAP LIST", "CAP REQ :-away-notify"])
        elif k == "capend":
            line = "CAP END"
        elif k == "quit":
            line = r.choice(["QUIT", "QUIT :gone", "POST / HTTP/1.0"])
        elif k == "other":
            line = r.choice(["PRIVMSG watch :hi", "JOIN #x", "PING :x", "WHO *", "WHOIS watch", "LIST", "OPER oper operpass", "KILL watch :x", "INVITE watch #x", "MODE watch +i", "WALLOPS :x", "STATS u", "TRACE", "USERHOST watch", "MOTD", "AWAY :x", "LUSERS",
                             "SQUIT fa.test.net", "GLINE", "REHASH", "DIE", "TAGMSG watch", "SILENCE", "NAMES #x", "TIME", "INFO", "LINKS", "MAP", "TOPIC #x", "KICK #x watch", "WALLCHOPS #x :x", "CONNECT x", "JUPE", "OPMODE #x +o watch", "SET", "GET HUB", "PRIVS", "ISON watch", "HELP", "CLOSE", "HASH"])
        elif k == "ignored":
            line = r.choice(["NOTICE watch :hi", "B #x 1 AAAAB", "CREATE #x", "NOSUCH x", "ACCOUNT watch x", "XQUERY a b c", "EB", "ERROR :x", ":watch NOTICE watch :x", "DESYNCH :x", "EOB_ACK", "CONFIG * 1 a b"])
        if k == "close":
            if r.random() < .7:
                return
            ctx.log("%d closes" % c.id)
            c.c.close()
            c.dead, c.over, c.end = True, True, None
            self.settle()
            if c.ident:
                self.ident_done(c, None)
            self.settle()
            return
        # never more than the server takes at once
        cost = 2 + len(line) // 120
        c.lag = max(c.lag, s.now) + cost
        if c.lag - s.now > 9:
            self.adv(c.lag - s.now - 4)
            if c.dead or c.reg and k not in ("user", "pass", "nick", "quit"):
                return
        ctx.log("%d > %s" % (c.id, line))
        before = len(c.got)
        was = c.reg
        c.c.send(line)
        self.settle()
        c.got += c.c.take()
        new = c.got[before:]
        nums = [m.cmd for m in new]

        def need(num, why=""):
            if num not in nums:
                ctx.fail("reg:reply", "%s: %r was answered %r, reference %s; %s" % (self.name(c), line, [m.raw for m in new], num, self.state(c)))
            ctx.count(num)
        if c.reg:
            if k in ("user", "pass"):
                need("462")
            elif k == "quit" and "QUIT" in line:
                c.dead, c.end = True, ""
            elif k == "nick":
                # later changes are another property's; follow what the user is told
                self.displace(self.cut(n))
                ch = [m for m in new if m.cmd == "NICK"]
                for m in ch:
                    c.nick = m.args[0]
                self.settle()
                self.fa.take()
            return
        if k == "nick":
            valid = self.cut(n)
            if line in ("NICK", "NICK :"):
                need("431" if line == "NICK" else "432")
            elif not valid:
                need("432")
            elif lower(valid) == "juped":
                need("433")
            else:
                h = next((x for x in self.cs if not x.dead and x is not c and x.nick and lower(x.nick) == lower(valid)), None)
                if lower(valid) == "watch" or h and h.reg or lower(valid) in [lower(x) for x in self.far]:
                    need("433")
                else:
                    self.displace(valid, c)
                    if c.nick is None:
                        ck = [m.args[-1] for m in new if m.cmd == "PING"]
                        if len(ck) != 1 or not ck[0].isdigit():
                            ctx.fail("reg:cookie", "%s: the first nick was answered %r" % (self.name(c), [m.raw for m in new]))
                            ck = ["0"]
                        c.cookie = ck[0]
                    elif valid != c.nick and lower(valid) != lower(c.nick):
                        c.nts = s.now
                    c.nick = valid
        elif k == "user":
            if short:
                need("461")
            else:
                cm = self.umodes(mode)
                c.modes = "".join(sorted((set(c.modes) | cm[0]) - cm[1]))
                if c.checked:
                    ctx.count("second-user")
                else:
                    c.user, c.info = clean(n.split("@")[0] if n.split("@")[0] else ""), (info or "No Info")[:50]
                    if "\\x01" in n:
                        pass
        elif k == "pong":
            if c.cookie and not c.ponged and line not in ("PONG ", "PONG"):
                if line.endswith(c.cookie):
                    c.ponged = True
                else:
                    need("513")
        elif k == "pass":
            if not pw:
                need("461")
            elif not c.passwd:
                c.passwd = pw
        elif k == "cap":
            if "LIST" not in line:
                c.cap = True
                ctx.count("cap-wait")
        elif k == "capend":
            c.cap = False
        elif k == "quit":
            c.dead, c.end = True, ""
            ctx.count("quit")
            if c.ident:
                self.ident_done(c, None)
        elif k == "other":
            need("451")
        elif k == "ignored":
            if any(m.cmd not in ("PING",) for m in new):
                ctx.fail("reg:reply", "%s: %r was answered %r" % (self.name(c), line, [m.raw for m in new]))
        self.progress(c)
        ctx.seen("%s %s%s%s%s%s" % (k, c.nick is not None, c.user is not None, c.ponged, c.cap, c.checked))

    def cut(self, n):
        n = n[:self.nicklen].split("~")[0]
        valid = ""
        if n and not (n[0] == "-" or n[0].isdigit()):
            for ch in n:
                if ch not in NICKCH:
                    break
                valid += ch
        return valid

    def umodes(self, m):
        add, rem = set(), set()
        ok = set("idRIc") | (set() if self.wop else {"w"})
        if m.isdigit():
            v = int(m)
            if v & 8:
                add.add("i")
            if v & 4 and "w" in ok:
                add.add("w")
        elif m[0] == "+":
            sgn = "+"
            for ch in m:
                if ch in "+-":
                    sgn = ch
                elif ch in ok:
                    (add if sgn == "+" else rem).add(ch)
                    (rem if sgn == "+" else add).discard(ch)
        return add, rem
