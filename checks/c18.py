"""WebSocket clients: the handshake, the frames, and the same IRC as over a plain connection"""
import base64, hashlib, ipaddress, re
import kit, vsim
PROPERTY = "C18"
RULE = ("one random conversation run on two servers, once over TCP and once as WebSocket messages cut into random fragments, frames and packets with control frames between, under short writes and full socket buffers: the lines the client "
        "and an onlooker receive are the same, every server frame is well formed; random handshakes against a reference of acceptance, subprotocol and client address; closing, protocol errors, keepalive; distinct counts (subprotocol, frame form, fault, outcome)")
ASSUMPTIONS = ["no TLS library in this build", "a fragmented message is shorter than the longest line", "Sec-WebSocket-Key is what RFC 6455 prescribes"]
MUST_SEE = ["line text", "line binary", "not utf-8", "fragmented", "control inside message", "pong", "pong after short write", "several lines", "len16", "len64", "len16 not needed", "oversized", "long tags", "bad control", "reserved opcode",
            "handshake ok", "handshake refused", "handshake split", "handshake too long", "handshake unfinished", "no upgrade", "no connection", "no key", "version", "origin refused", "origin ok", "cloudflare ok", "cloudflare refused", "cloudflare ignored", "sub binary", "sub text", "sub none",
            "close", "unmasked", "huge", "keepalive", "keepalive off"]
GUID = b"258EAFA5-E914-47DA-95CA-C5AB0DC85B11"
READBUF = 8191 + 512


def plan(tier, seed):
    return [{"seed": seed, "i": i} for i in range(900 if tier == "quick" else 20000)]


def sanitize(b):
    """UTF-8 with every byte that is no part of a well-formed sequence replaced by U+FFFD."""
    o, i = b"", 0
    while i < len(b):
        for n in (1, 2, 3, 4):
            try:
                b[i:i + n].decode("utf-8")
                if len(b[i:i + n]) == n:
                    o += b[i:i + n]
                    i += n
                    break
            except UnicodeDecodeError:
                continue
        else:
            o += b"\xef\xbf\xbd"
            i += 1
    return o


class WS(vsim.Conn):
    """The client's side of a WebSocket connection; on_data is a strict RFC 6455 reader."""
    head = None

    def __init__(self, *a, **kw):
        self.http, self.fb, self.data, self.ctl, self.bad = b"", b"", [], [], None
        vsim.Conn.__init__(self, *a, **kw)

    def on_data(self, d):
        if self.head is None:
            self.http += d
            if b"\r\n\r\n" not in self.http:
                return
            self.head, d = self.http.split(b"\r\n\r\n", 1)
            if not self.head.startswith(b"HTTP/1.1 101 "):
                self.rest = d
                return
        if not self.head.startswith(b"HTTP/1.1 101 "):
            self.rest += d
            return
        self.fb += d
        while len(self.fb) >= 2 and not self.bad:
            b0, b1 = self.fb[0], self.fb[1]
            n, h = b1 & 127, 2
            if b1 & 128:
                self.bad = "masked frame"
                break
            if b0 & 0x70 or not b0 & 0x80:
                self.bad = "first byte %#x" % b0
                break
            if n == 126:
                if len(self.fb) < 4:
                    return
                n, h = int.from_bytes(self.fb[2:4], "big"), 4
                if n < 126:
                    self.bad = "length %d in 16 bits" % n
                    break
            elif n == 127:
                self.bad = "64 bit length"
                break
            if len(self.fb) < h + n:
                return
            pl, self.fb = self.fb[h:h + n], self.fb[h + n:]
            op = b0 & 15
            if op in (8, 9, 10):
                if n > 125:
                    self.bad = "control frame of %d bytes" % n
                self.ctl.append((op, pl))
            elif op in (1, 2):
                self.frame(op, pl)
            else:
                self.bad = "opcode %d" % op

    def frame(self, op, pl):
        if op != self.op:
            self.bad = "opcode %d in a %s conversation" % (op, "text" if self.op == 1 else "binary")
        if b"\n" in pl or b"\r" in pl:
            self.bad = "line end inside frame %r" % pl[:80]
        if op == 1:
            try:
                pl.decode("utf-8")
            except UnicodeDecodeError:
                self.bad = "text frame is no UTF-8: %r" % pl[:80]
        self.data.append(pl)
        m = vsim.Msg(pl)
        if m.cmd == "PING" and m.prefix is None:
            self.send("PONG :" + m.args[-1])
        self.lines.append(m)

    op = 1

    def fr(self, pl, op=1, fin=True, form=None, mask=True, rng=None):
        n = len(pl)
        form = form or (7 if n < 126 else 16 if n < 65536 else 64)
        h = bytes([(128 if fin else 0) | op])
        m = 128 if mask else 0
        h += bytes([m | n]) if form == 7 else bytes([m | 126]) + n.to_bytes(2, "big") if form == 16 else bytes([m | 127]) + n.to_bytes(8, "big")
        if not mask:
            return h + pl
        k = bytes(rng.randrange(256) for _ in range(4)) if rng else b"\x01\x82\xf3\x40"
        x = (k * (n // 4 + 1))[:n]
        return h + k + (int.from_bytes(pl, "big") ^ int.from_bytes(x, "big")).to_bytes(n, "big") if n else h + k

    def send(self, line):
        if isinstance(line, str):
            line = line.encode("latin-1")
        self.send_raw(self.fr(line))


def upgrade(sub=None, extra=()):
    l = ["GET / HTTP/1.1", "Host: x", "Upgrade: websocket", "Connection: Upgrade", "Sec-WebSocket-Version: 13", "Sec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ=="]
    if sub:
        l.append("Sec-WebSocket-Protocol: " + sub)
    return "\r\n".join(l + list(extra)) + "\r\n\r\n"


def run_case(ctx, p):
    x = X(ctx)
    k = ctx.rng.random()
    if k < .5:
        x.talk()
    elif k < .85:
        x.shake()
    else:
        x.end()


def conf(wsflags="", **f):
    f.setdefault("NODNS", "TRUE")
    return vsim.conf(ports=((6667, ""), (7000, "websocket = yes;" + wsflags), (7001, "websocket = yes; cloudflare = yes;")), features=f,
                     classes=['name = "Local"; pingfreq = 1000 minutes; sendq = 4000000; maxflood = 60000; maxlinks = 250;'],
                     opers=['local = no; class = "Local"; host = "*@*"; password = "$PLAIN$operpass"; name = "oper";'])


class X:
    def __init__(self, ctx):
        self.ctx, self.r = ctx, ctx.rng

    # ------------------------------------------------ the same conversation twice
    def blob(self, n=None):
        r = self.r
        n = n or r.choice([1, 5, 20, 60, 120, 126, 127, 200, 300])
        k = r.random()
        if k < .4:
            return bytes(r.choice(b"abcdefgh 123:@#!%") for _ in range(n))
        if k < .7:
            s = b""
            while len(s) < n:
                s += r.choice(["é", "€", "𝄞", "x", " ", "日", "\u07ff", "\u0800", "\uffff", "\U0010ffff"]).encode()
            return s[:n]
        self.ctx.count("not utf-8")
        return bytes(r.choice(list(range(128, 256)) + [65, 66] + [0xe0, 0xed, 0xf0, 0xf4, 0xc0, 0xc1, 0xbf, 0xa0, 0x9f, 0x8f, 0x90] * 2) for _ in range(n))

    def word(self):
        w = bytes(x for x in self.blob(self.r.choice([2, 4, 9])) if x not in b" :,\r\n\0#@!*\x07%")
        return w or b"w"

    def line(self):
        """One line the subject sends."""
        r = self.r
        ch = r.choice([b"#a", b"#b", b"#c", b"#" + self.word()])
        k = r.randrange(17)
        if k < 5:
            return b"PRIVMSG %s :%s" % (r.choice([b"obs", b"obs", b"#a", b"#b", b"subj"]), self.blob())
        if k == 5:
            return b"NOTICE %s :%s" % (r.choice([b"obs", ch]), self.blob())
        if k == 6:
            return b"JOIN " + ch
        if k == 7:
            return b"TOPIC %s :%s" % (ch, self.blob(40))
        if k == 8:
            return b"PART %s :%s" % (ch, self.blob(20))
        if k == 9:
            return r.choice([b"WHO obs", b"NAMES #a", b"WHOIS obs", b"LUSERS", b"MOTD", b"USERHOST subj obs", b"WHO #a", b"VERSION", b"LIST", b"HELP"])
        if k == 10:
            return b"AWAY :" + self.blob(30)
        if k == 11:
            return b"MODE %s %s" % (ch, r.choice([b"+m", b"-m", b"+o obs", b"+v subj", b"+b x" + self.word(), b"+k " + self.word(), b"b"]))
        if k == 12:
            return b"PING :" + self.blob(10)
        if k == 13:
            t = b"".join(b";+x%d=%s" % (i, self.word()) for i in range(r.randint(0, 5)))
            return b"@+a=" + self.word() + t + b" TAGMSG " + r.choice([b"obs", b"#a", b"#b"])
        if k == 14:
            return b"@+t=" + self.blob(9).replace(b" ", b"") + b" PRIVMSG obs :" + self.blob()
        if k == 15:
            return r.choice([b"", b" ", b"\0", b":", b"XYZZY", b"PRIVMSG", self.blob(300), b"PRIVMSG obs :" + self.blob(700), b"\r", b"JOIN 0"])
        return b"NICK " + r.choice([b"subj", b"subj", self.word(), b"\xe9\xe8\xea" + self.word()])

    def talk(self):
        r, ctx = self.r, self.ctx
        f = {"CAP_MESSAGE_TAGS": "TRUE", "CLIENTTAGDENY": r.choice(["", "", "", "*"]), "CAP_SERVER_TIME": r.choice(["TRUE", "FALSE"]), "CAP_ECHOMESSAGE": "TRUE", "WEBSOCKET_KEEPALIVE": "0"}
        caps = r.choice([None, "message-tags", "message-tags echo-message", "server-time message-tags"])
        if f["CAP_SERVER_TIME"] == "FALSE" and caps and "server-time" in caps:
            caps = None
        self.sub = r.choice([None, "text.ircv3.net", "binary.ircv3.net"])
        steps = self.script(caps)
        fault = r.random() < .6
        self.fault = fault
        knobs = dict(wmax=r.choice([0, 1, 3, 7, 50, 500]), wagain=r.choice([0, 100, 500]), rmax=r.choice([0, 0, 1, 5, 100]), evmax=r.choice([0, 1, 2])) if fault else {}
        snd = r.choice([0, 0, 4608, 9000])
        ctx.log(["knobs", knobs, snd, self.sub])
        a = self.play(conf(**f), steps, caps, None, {}, 0)
        b = self.play(conf(**f), steps, caps, self.sub or "", knobs, snd)
        mode = "binary" if self.sub and "binary" in self.sub else "text"
        ws = b["ws"]
        self.frames_ok(ws)
        for who in ("subj", "obs"):
            x, y = a[who], b[who]
            if who == "subj" and mode == "text":
                x = [sanitize(l) for l in x]
            for i in range(max(len(x), len(y))):
                ctx.ev()
                p, q = (x[i] if i < len(x) else None), (y[i] if i < len(y) else None)
                if p != q:
                    self.ctx.fail("ws:line", "line %d of %s (%s): over TCP %r, over WebSocket %r" % (i, who, mode, p and p[:300], q and q[:300]))
            for l in x if who == "subj" else ():
                ctx.count("line " + mode)
                if len(l) > 4000:
                    ctx.count("long tags")
        want = b["pings"]
        got = [p for o, p in ws.ctl if o == 10]
        for p in got:
            ctx.count("pong")
            if knobs.get("wmax") or knobs.get("wagain"):
                ctx.count("pong after short write")
        if got != want or len(ws.ctl) != len(got):
            ctx.fail("ws:pong", "control frames %r, pings sent %r" % (ws.ctl[:5], want[:5]))
        ctx.seen((mode, bool(knobs), snd, caps, tuple(sorted(set(map(str, self.forms))))))
        ctx.sample("%s: %d lines to the client, %d to the onlooker, %d pings, faults %r" % (mode, len(a["subj"]), len(a["obs"]), len(want), knobs))

    def script(self, caps):
        r = self.r
        st = []
        for _ in range(r.randint(8, 25)):
            k = r.random()
            if k < .62:
                ls = [self.line() for _ in range(r.choice([1, 1, 1, 2, 4]))]
                if r.random() < .08:
                    n = r.randint(400, 1340)
                    ls.append(b"@" + b";".join(b"+k%d=%s" % (i, bytes(r.choice(b"\xff\xe9ab") for _ in range(30))) for i in range(n // 12)) + b" PRIVMSG obs :t")
                st.append(("subj", ls))
            elif k < .72:
                st.append(("half", self.line()))
            elif k < .76:
                st.append(("big", r.choice([8699, 8701, 8702, 8703, 8704, 9000, 20000, 70000]), r.choice([b"", b"PRIVMSG obs :"])))
            elif k < .9:
                l = r.choice([b"PRIVMSG subj :" + self.blob(), b"PRIVMSG #a :" + self.blob(), b"TOPIC #a :" + self.blob(40), b"MODE #a +v subj", b"INVITE subj #b", b"NICK obs", b"KICK #a subj :" + self.blob(20)])
                if r.random() < .5:
                    n = r.choice([1, 3, 30, 50])
                    l = b"@" + b";".join(b"+k%d=%s" % (i, bytes(r.choice(b"\xff\xfe\xe9\x80" if n > 40 else b"ab\xc3\xa9\xff") for _ in range(75 if n > 40 else 44))) for i in range(n)) + b" PRIVMSG subj :" + self.blob(r.choice([10, 300]))
                st.append(("obs", l))
            elif k < .95:
                st.append(("stall",))
            else:
                st.append(("tick", r.choice([1, 20, 130])))
        return st

    def norm(self, m):
        """A line with what legitimately differs (the clock's milliseconds) taken out."""
        l = m.raw if isinstance(m.raw, bytes) else m.raw.encode("latin-1")
        return re.sub(rb"\btime=[0-9T:.Z-]+", b"time=", l)

    def play(self, cf, steps, caps, sub, knobs, snd):
        r = self.r
        ctx = self.ctx
        s = ctx.ircd(cf)
        obs = kit.register(s, "obs", "10.1.0.1", caps="message-tags" if caps else None)
        for ch in "#a", "#b":
            obs.send("JOIN " + ch)
        s.advance(3)
        kit.settle(s)
        obs.take()
        pings = []
        self.forms = []
        if sub is None:
            c = vsim.Conn(s, "10.1.0.2", 6667)
        else:
            s.fault(sndbuf=snd)
            c = WS(s, "10.1.0.2", 7000)
            s.sync()
            s.fault(sndbuf=0, **knobs)
            c.op = 2 if sub and "binary" in sub else 1
            c.send_raw(upgrade(sub or None))
            self.drain(s, c)
            if not (c.head or b"").startswith(b"HTTP/1.1 101"):
                ctx.fail("ws:handshake", "plain handshake was not accepted: %r" % c.http[:200])
        cap = (["CAP REQ :" + caps] if caps else []) + ["NICK subj", "USER u 0 0 :real"] + (["CAP END"] if caps else [])
        for l in cap:
            c.send(l)
            s.advance(3)
            self.drain(s, c)
        s.advance(15)
        self.drain(s, c)
        out, oo = [], []
        self.collect(c, out)
        c.send("JOIN #a,#b")
        s.advance(3)
        self.drain(s, c)
        self.collect(c, out)
        obs.take()
        stall = 0
        for st in steps:
            if st[0] == "subj":
                if sub is None:
                    c.send_raw(b"".join(l + b"\r\n" for l in st[1]))
                else:
                    self.wsend(s, c, st[1], pings)
            elif st[0] == "half":
                l = st[1]
                k = len(l) // 2
                if sub is None:
                    c.send_raw(l[:k])
                    self.drain(s, None)
                    obs.send("PRIVMSG subj :between")
                    self.drain(s, None)
                    c.send_raw(l[k:] + b"\r\n")
                else:
                    c.send_raw(c.fr(l[:k], self.op(), False))
                    self.drain(s, None)
                    obs.send("PRIVMSG subj :between")
                    self.drain(s, None)
                    self.ping(c, pings)
                    c.send_raw(c.fr(l[k:], 0))
                    self.ctx.count("fragmented")
                    self.ctx.count("control inside message")
            elif st[0] == "big":
                d = st[2] + b"x" * (st[1] - len(st[2]))
                self.drain(s, c if not stall else None)
                if sub is None:
                    c.send_raw(d[:READBUF] + b"\n")
                else:
                    c.send_raw(c.fr(d, self.op()))
                    ctx.count("oversized")
            elif st[0] == "obs":
                obs.send_raw(st[1] + b"\r\n")
            elif st[0] == "stall":
                stall = 3
            elif st[0] == "tick":
                s.advance(st[1])
            self.drain(s, c if not stall else None)
            stall = max(0, stall - 1)
            if not stall:
                self.collect(c, out)
            oo += [self.norm(m) for m in obs.take()]
        s.fault(wmax=0, wagain=0, rmax=0, evmax=0)
        self.drain(s, c)
        c.send("QUIT :bye")
        s.advance(2)
        self.drain(s, c)
        self.collect(c, out)
        oo += [self.norm(m) for m in obs.take()]
        if not c.eof:
            ctx.fail("ws:quit", "connection still open after QUIT")
        s.stop()
        return {"subj": out, "obs": oo, "ws": c, "pings": pings}

    def drain(self, s, c):
        for _ in range(300):
            cs = [x for x in s.clients if x is c or not isinstance(x, WS)]
            n = sum(x.raw_total for x in cs)
            s.sync()
            for x in cs:
                x.flush()
                x.pump()
            if sum(x.raw_total for x in cs) == n:
                break

    def collect(self, c, out):
        out += [self.norm(m) for m in c.take() if not (m.cmd == "PING" and m.prefix is None)]

    def op(self):
        return self.r.choice([1, 2])

    def ping(self, c, pings):
        pl = bytes(self.r.randrange(256) for _ in range(self.r.choice([0, 1, 4, 125])))
        c.send_raw(c.fr(pl, 9, rng=self.r))
        pings.append(pl)

    def wsend(self, s, c, ls, pings):
        """The lines as WebSocket messages in some random dress."""
        r, ctx = self.r, self.ctx
        out = []
        if len(ls) > 1 and r.random() < .4:
            ls = [r.choice([b"\r\n", b"\n"]).join(ls)]
            ctx.count("several lines")
            self.forms.append(("several",))
        for l in ls:
            if r.random() < .1:
                l += b"\r\n"
            parts = [l]
            if r.random() < .35:
                parts = []
                while l:
                    k = r.choice([1, 2, 10, 100, 500])
                    parts.append(l[:k])
                    l = l[k:]
                    if r.random() < .1:
                        parts.append(b"")
                parts = (parts or [b""])[:60] + ([b"".join(parts[60:])] if len(parts) > 60 else [])
                ctx.count("fragmented")
                self.forms.append(("fragmented",))
            for i, pt in enumerate(parts):
                form = None
                if r.random() < .1:
                    form = 16 if len(pt) < 65536 else 64
                    ctx.count("len16 not needed" if len(pt) < 126 else "len16")
                elif r.random() < .08:
                    form = 64
                    ctx.count("len64")
                elif len(pt) > 125:
                    ctx.count("len16")
                if form:
                    self.forms.append((form,))
                out.append(c.fr(pt, self.op() if i == 0 else 0, i == len(parts) - 1, form, rng=r))
                k = r.random()
                if k < .15:
                    pl = bytes(r.randrange(256) for _ in range(r.choice([0, 1, 4, 124, 125])))
                    out.append(c.fr(pl, 9, rng=r))
                    pings.append(pl)
                    if i < len(parts) - 1:
                        ctx.count("control inside message")
                elif k < .19:
                    out.append(c.fr(b"xyz", 10, rng=r))
                elif k < .21:
                    out.append(c.fr(b"y" * r.choice([126, 200, 4000]), r.choice([9, 10]), rng=r))
                    ctx.count("bad control")
                elif k < .23:
                    out.append(c.fr(b"PRIVMSG obs :no", r.choice([3, 4, 5, 6, 7, 11, 15]), rng=r))
                    ctx.count("reserved opcode")
        d = b"".join(out)
        if r.random() < .5 and len(d) < 6000:
            i = 0
            for _ in range(12):
                k = r.choice([1, 1, 2, 5, 30, 200, 1000])
                c.send_raw(d[i:i + k])
                i += k
                s.sync()
                if i >= len(d):
                    break
            c.send_raw(d[i:])
            self.forms.append(("cut",))
        else:
            c.send_raw(d)

    def frames_ok(self, ws):
        if ws.bad or ws.fb and not ws.eof:
            self.ctx.fail("ws:frame", "frame from the server: %s (left over %r)" % (ws.bad, ws.fb[:60]))
        if ws.fb:
            self.ctx.fail("ws:frame", "the server's stream ends inside a frame: %r" % ws.fb[:60])

    # ------------------------------------------------ handshakes
    def shake(self):
        r, ctx = self.r, self.ctx
        orig = r.choice(["", "", "https://chat.example", "https://chat.example https://b.example:8080", "https://a.example,https://chat.example"])
        s = ctx.ircd(conf(WEBSOCKET_KEEPALIVE="0", **({"WEBSOCKET_ALLOWED_ORIGINS": orig} if orig else {})))
        obs = kit.register(s, "obs", "10.1.0.1")
        for n in range(12):
            self.one(s, obs, orig, n)
            s.advance(3)

    def case(self, t):
        return "".join(self.r.choice([c.lower(), c.upper()]) for c in t) if self.r.random() < .4 else t

    def one(self, s, obs, orig, n):
        r, ctx = self.r, self.ctx
        cf = r.random() < .3
        ok, why = True, []

        def no(w):
            nonlocal ok
            ok = False
            why.append(w)
        hs = []
        sp = lambda: r.choice([" ", " ", "", "\t", "  "])
        bad = r.random() < .5
        miss = r.choice(["upgrade", "connection", "key", "version", "origin", "cf", "none", "none"]) if bad else "none"
        if miss == "upgrade":
            no("no upgrade")
            if r.random() < .5:
                hs.append(self.case("Upgrade") + ":" + sp() + r.choice(["h2c", "", "TLS/1.0"]))
        else:
            hs.append(self.case("Upgrade") + ":" + sp() + r.choice(["websocket", "WebSocket", "h2c, websocket", "WEBSOCKET"]))
        if miss == "connection":
            no("no connection")
            if r.random() < .5:
                hs.append(self.case("Connection") + ":" + sp() + r.choice(["keep-alive", "close", ""]))
        else:
            hs.append(self.case("Connection") + ":" + sp() + r.choice(["Upgrade", "upgrade", "keep-alive, Upgrade", "keep-alive,upgrade", "UPGRADE"]))
        key = base64.b64encode(bytes(r.randrange(256) for _ in range(16))).decode()
        if miss == "key":
            no("no key")
            if r.random() < .3:
                hs.append("Sec-WebSocket-Key:" + sp())
        else:
            hs.append(self.case("Sec-WebSocket-Key") + ":" + sp() + key + r.choice(["", " "]))
        if miss == "version":
            no("version")
            hs.append(self.case("Sec-WebSocket-Version") + ":" + sp() + r.choice(["8", "7", "0", "14", "130", "1", "13a"]))
        elif r.random() < .8:
            hs.append(self.case("Sec-WebSocket-Version") + ":" + sp() + "13" + r.choice(["", " "]))
        allowed = [x for x in re.split("[ ,]", orig) if x]
        o = None
        if miss == "origin" or allowed or r.random() < .5:
            o = r.choice(["https://evil.example", "https://chat.example.evil", "https://chat", "http://chat.example", None]) if miss == "origin" else r.choice(allowed or ["https://x"])
            if o:
                hs.append(self.case("Origin") + ":" + sp() + o + r.choice(["", " "]))
        if allowed and o not in allowed:
            no("origin refused")
        elif allowed:
            ctx.count("origin ok")
        ip = "10.3.%d.%d" % (n, r.randint(1, 250))
        shown = ip
        cfip = None
        if cf or r.random() < .3:
            cfip = r.choice(["198.51.100.%d" % (n + 1), "2001:db8::%x" % (n + 1), "203.0.113.%d" % (n + 1), "2001:db8:1:%x::7" % (n + 20)])
            if cf and miss == "cf":
                cfip = r.choice([None, "not-an-ip", "300.1.1.1", "", "1.2.3.4, 5.6.7.8"])
            if cfip is not None:
                hs.append(self.case("CF-Connecting-IP") + ":" + sp() + cfip)
            if cf and miss == "cf":
                no("cloudflare refused")
            elif cf:
                shown = cfip
        subs = [r.choice(["text.ircv3.net", "binary.ircv3.net", "chat", "v1.irc", "Text.ircv3.net", "text.ircv3.net.x"]) for _ in range(r.randint(1, 4))] if r.random() < .8 else []
        if subs:
            hs.append(self.case("Sec-WebSocket-Protocol") + ":" + sp() + r.choice([", ", ",", ",  "]).join(subs))
        want = next((x for x in subs if x in ("text.ircv3.net", "binary.ircv3.net")), None)
        for _ in range(r.randint(0, 4)):
            hs.append(r.choice(["Host: irc.example", "User-Agent: Mozilla/5.0 (X; rv)", "Accept-Encoding: gzip", "X-Upgrade: none", "Cookie: Upgrade: no", "X-Forwarded-For: 9.9.9.9", "Pragma: no-cache"]))
        r.shuffle(hs)
        req = r.choice(["GET / HTTP/1.1", "GET /irc?x=1 HTTP/1.1"]) + "\r\n" + "\r\n".join(hs) + "\r\n"
        tot = len(req) + 2
        pad = 0
        k = r.random()
        if k < .2:
            pad = r.choice([4096, 4095, 4097, 4500, 9000, 5000]) - tot
            req += "X-Pad: " + "p" * (pad - 9) + "\r\n"
        req += "\r\n"
        if len(req) > 4096:
            no("handshake too long")
        unfinished = False
        if r.random() < .06 and len(req) < 4000:
            req = req[:-r.randint(1, 4)]
            unfinished = True
        ctx.log(["shake", req[:600], cf])
        c = WS(s, ip, 7001 if cf else 7000)
        c.op = 2 if want and "binary" in want else 1
        kit.settle(s)
        if r.random() < .4:
            ctx.count("handshake split")
            i = 0
            while i < len(req) and not c.eof:
                m = r.choice([1, 3, 40, 200, 1500]) if len(req) < 1500 else r.choice([500, 1500])
                c.send_raw(req[i:i + m])
                i += m
                s.sync()
                c.pump()
        else:
            c.send_raw(req)
        kit.settle(s)
        c.pump()
        ctx.ev()
        ctx.seen((cf, tuple(why), want, bool(allowed), pad > 0, unfinished))
        if unfinished:
            ctx.count("handshake unfinished")
            if c.http or c.eof:
                ctx.fail("ws:handshake", "unfinished request was answered with %r (closed %s)" % (c.http[:80], c.eof))
            c.close()
            kit.settle(s)
            return
        got = c.head.decode("latin-1").split("\r\n") if c.head else []
        if not ok:
            for w in why:
                ctx.count(w)
            ctx.count("handshake refused")
            if got and " 101 " in got[0]:
                ctx.fail("ws:handshake", "handshake accepted in spite of %s: %r" % (why, req[:600]))
            if not c.eof:
                ctx.fail("ws:handshake", "connection left open after a refused handshake (%s)" % why)
            if "handshake too long" not in why and not (got and got[0].startswith("HTTP/1.1 400 ")):
                ctx.fail("ws:handshake", "refused handshake (%s) answered with %r" % (why, c.http[:100]))
            c.close()
            return
        ctx.count("handshake ok")
        ctx.count("sub " + (want or "none").split(".")[0])
        if not got or not got[0].startswith("HTTP/1.1 101 "):
            ctx.fail("ws:handshake", "handshake not accepted: %r answered with %r" % (req[:600], c.http[:100]))
        h = {}
        for l in got[1:]:
            a, _, b = l.partition(":")
            if a.lower() in h:
                ctx.fail("ws:handshake", "header %s twice" % a)
            h[a.lower()] = b.strip()
        acc = base64.b64encode(hashlib.sha1(key.encode() + GUID).digest()).decode()
        exp = {"upgrade": "websocket", "connection": "Upgrade", "sec-websocket-accept": acc}
        if want:
            exp["sec-websocket-protocol"] = want
        if h != exp:
            ctx.fail("ws:handshake", "response headers %r, reference %r" % (h, exp))
        # the connection speaks IRC, in the negotiated form, from the right address
        nick = "w%d" % n
        for l in ("NICK " + nick, "USER u 0 0 :x"):
            c.send(l)
            s.advance(3)
            kit.settle(s)
            c.pump()
        s.advance(15)
        kit.settle(s)
        if not any(m.cmd == "001" for m in c.take()):
            ctx.fail("ws:register", "client could not register after the handshake: %r" % c.data)
        c.send_raw(c.fr(b"PRIVMSG obs :hi"))
        c.send_raw(c.fr(b"USERHOST " + nick.encode()))
        c.send_raw(c.fr(b"PING :\xe9\xff"))
        s.advance(3)
        kit.settle(s)
        ms = c.take()
        self.frames_ok(c)
        m = [m for m in obs.take() if m.cmd == "PRIVMSG"]
        host = next((m.args[-1].split("@", 1)[1].strip() for m in ms if m.cmd == "302"), None)
        src = m[0].prefix.split("@")[1] if m else None
        for x in (host, src):
            try:
                same = ipaddress.ip_address(x) == ipaddress.ip_address(shown)
            except ValueError:
                same = False
            if not same:
                ctx.fail("ws:address", "client from %s%s appears as %r, reference %s" % (ip, " through Cloudflare" if cf else "", x, shown))
        ctx.count("cloudflare ok" if cf else "cloudflare ignored" if cfip else "direct")
        pl = [d for d in c.data if b" PONG " in d]
        wantp = b"\xe9\xff" if c.op == 2 else b"\xef\xbf\xbd\xef\xbf\xbd"
        if not pl or not pl[-1].endswith(b":" + wantp):
            ctx.fail("ws:form", "PONG arrived as %r in %s mode" % (pl and pl[-1], "binary" if c.op == 2 else "text"))
        c.close()
        kit.settle(s)
        obs.take()

    # ------------------------------------------------ ends and keepalive
    def end(self):
        r, ctx = self.r, self.ctx
        ka = r.choice([0, 7, 30, 60, 100])
        s = ctx.ircd(conf(WEBSOCKET_KEEPALIVE=str(ka)))
        obs = kit.register(s, "obs", "10.1.0.1")
        obs.send("JOIN #a")
        s.advance(3)
        for n in range(8):
            c = WS(s, "10.1.0.%d" % (n + 2), 7000)
            sub = r.choice([None, "binary.ircv3.net"])
            c.op = 2 if sub else 1
            c.send_raw(upgrade(sub))
            kit.settle(s)
            c.pump()
            reg = r.random() < .7
            if reg:
                for l in ("NICK w%d" % n, "USER u 0 0 :x", "JOIN #a"):
                    c.send(l)
                    s.advance(3)
                    kit.settle(s)
                    c.pump()
                s.advance(15)
                kit.settle(s)
                if not any(m.cmd == "JOIN" for m in c.take()):
                    c.send("JOIN #a")
                    s.advance(2)
                    kit.settle(s)
                    c.take()
            obs.take()
            self.frames_ok(c)
            if c.eof:
                ctx.fail("ws:end", "connection closed for no reason")
            k = r.choice(["close", "unmasked", "huge", "keep", "keep"]) if reg else r.choice(["close", "unmasked", "huge"])
            c.ctl = []
            ctx.ev()
            ctx.seen((k, sub, reg, ka))
            if k == "keep":
                span = r.choice([3, 5, 9]) * max(ka, 20) + 300
                cut = r.random() < .5
                at, t0 = [], s.now
                for _ in range(span // 5):
                    s.advance(5)
                    if cut and r.random() < .3:
                        c.send_raw(c.fr(b"", 10))
                    kit.settle(s)
                    c.pump()
                    at += [s.now] * (sum(o == 9 for o, _ in c.ctl) - len(at))
                self.frames_ok(c)
                ctx.count("keepalive" if ka else "keepalive off")
                np = sum(o == 9 for o, _ in c.ctl)
                if c.eof or any(o != 9 for o, _ in c.ctl):
                    ctx.fail("ws:keepalive", "idle client: closed %s, control frames %r" % (c.eof, c.ctl[:4]))
                gaps = [b - a for a, b in zip(at, at[1:])]
                if (not np or at[0] > t0 + 250 or at[-1] < s.now - ka - 6 or any(not ka - 6 <= g <= ka + 6 for g in gaps)) if ka else np:
                    ctx.fail("ws:keepalive", "pings at %r in %d s, WEBSOCKET_KEEPALIVE %d" % ([x - t0 for x in at], span, ka))
                c.close()
                kit.settle(s)
                continue
            before = r.random() < .5
            if before and reg:
                c.send("PRIVMSG obs :first")
                s.advance(1)
                kit.settle(s)
            after = c.fr(b"PRIVMSG obs :smuggled")
            if k == "close":
                pl = r.choice([b"", b"\x03\xe8", b"\x03\xe9going away"])
                d = c.fr(pl, 8)
            elif k == "unmasked":
                d = c.fr(b"PRIVMSG obs :naked", r.choice([1, 2, 9, 8, 10, 0]), mask=False)
            else:
                top = r.choice([0x80000000, 0xfffffff2, 0xfffffffe, 1 << 32, (1 << 32) + 20, 1 << 40, 1 << 63, 0x7fffffffffffffff])
                d = bytes([0x80 | r.choice([1, 2, 9]), 0xff]) + top.to_bytes(8, "big") + b"\0\0\0\0" + b"PRIVMSG obs :inside\n"
            c.send_raw(d)
            if r.random() < .5:
                s.sync()
            c.send_raw(after)
            kit.settle(s)
            s.advance(1)
            kit.settle(s)
            c.pump()
            ctx.count(k)
            got = obs.take()
            msgs = [m.args[-1] for m in got if m.cmd == "PRIVMSG"]
            if msgs != (["first"] if before and reg else []):
                ctx.fail("ws:end", "after %s the onlooker received %r" % (k, msgs))
            if not c.eof:
                ctx.fail("ws:end", "connection left open after %s (%r)" % (k, d[:14]))
            self.frames_ok(c)
            if reg and sum(m.cmd == "QUIT" for m in got) != 1:
                ctx.fail("ws:end", "after %s the channel saw %r" % (k, [m.raw[:80] for m in got]))
            if k == "close" and c.ctl != [(8, b"\x03\xe8")]:
                ctx.fail("ws:close", "close frame answered with %r" % c.ctl)
            if k != "close" and any(o != 8 for o, _ in c.ctl):
                ctx.fail("ws:close", "%s answered with %r" % (k, c.ctl))
            c.close()
            kit.settle(s)
            s.advance(10)
