"""Output integrity: every byte the server sends is part of whole lines, in order, none lost or repeated, and no reader can make it hoard output"""
import re, zlib
import kit, p10, vsim
PROPERTY = "C03"
RULE = ("numbered, checksummed messages and replies to readers that stop, resume and accept data in tiny pieces under injected partial writes and EAGAIN; "
        "an evaluation is one line received; distinct counts (receiver kind, stall pattern, fault setting, outcome)")
ASSUMPTIONS = ["the kernel socket buffer between server and reader holds at most 300 kB"]
MUST_SEE = ["lines", "stalled", "overflow", "survived a stall", "server reader", "truncated", "tagged lines", "pings"]
NICKS = ["r0", "r1", "r2"]


def plan(tier, seed):
    return [{"seed": seed, "i": i} for i in range(600 if tier == "quick" else 4000)]


class Rx:
    """What one reader has received, as raw bytes."""
    def __init__(self, conn, kind, me):
        self.c, self.kind, self.me = conn, kind, me
        self.buf = b""
        self.next = {}
        self.nlines = 0
        self.pending = []
        self.stalled = False
        self.sent = 0           # lower bound of the bytes addressed to it while stalled
        conn.on_data = self.data

    def data(self, d):
        self.buf += d
        *ls, self.buf = self.buf.split(b"\n")
        for l in ls:
            self.pending.append(l)


def text(r, k, sender, n):
    body = "%s-%d " % (sender, n) + "".join(chr(r.randint(0x21, 0x7e)) for _ in range(k))
    return "%08x %s" % (zlib.crc32(body.encode()), body)


def run_case(ctx, p):
    r = ctx.rng
    sendq = r.choice([8000, 20000, 60000])
    ssendq = r.choice([30000, 120000])
    pings = r.random() < .6
    freq = "20 seconds" if pings else "1000 minutes"
    cls = ['name = "Local"; pingfreq = %s; sendq = %d; maxlinks = 250; maxflood = 60000' % (freq, sendq),
           'name = "Fast"; pingfreq = 1000 minutes; sendq = 9000000; maxlinks = 250; maxflood = 60000',
           'name = "Server"; pingfreq = %s; connectfreq = 100 minutes; sendq = %d; maxlinks = 40; maxflood = 30000' % (freq, ssendq)]
    s = ctx.ircd(vsim.conf(ports=((6667, ""), (4400, "server=yes")), classes=cls, opers=[],
                           clients=['ip = "*"; class = "Local"', 'ip = "10.8.*"; class = "Fast"'],
                           connects=['name="fa.test.net"; host="10.200.0.1"; password="testpass"; class="Server"; hub; autoconnect=no'],
                           features={"CLIENT_FLOOD": "1024", "TOPICLEN": "300"}))
    fault = dict(seed=p["i"] + 1, wmax=r.choice([0, 1, 7, 100, 513]), wagain=r.choice([0, 200, 500]), sndbuf=r.choice([0, 4096, 4096]), shuffle=r.choice([0, 1]))
    if fault["sndbuf"] and fault["wmax"] in (1, 7):
        fault["wmax"] = 100         # (every write occupies its own kernel buffer)
    s.fault(**fault)
    snd = [kit.register(s, "snd%d" % i, "10.8.0.%d" % i) for i in range(2)]
    watch = kit.register(s, "watch", "10.8.0.9")
    rx = []
    for i in range(r.randint(1, 3)):
        caps = r.choice([None, None, "message-tags server-time", "server-time account-tag", "echo-message"])
        c = kit.register(s, NICKS[i], "10.1.1.%d" % (i + 1), caps=caps)
        rx.append(Rx(c, "tagged" if caps and "time" in caps else "client", NICKS[i]))
    f = None
    if r.random() < .6:
        f = kit.peer(s)
        fu = f.add_user("fu", modes="")
        kit.settle(s, [f])
    for c in snd + [x.c for x in rx]:
        c.send("JOIN #x" if c in snd else "JOIN #x,#y")
        s.advance(2)
    watch.send("JOIN #y")
    if f:
        f.send("%s J #x %d" % (fu, s.now))
        f.send("%s J #y %d" % (fu, s.now))
        kit.settle(s, [f])
        f.take()
        rx.append(Rx(f, "server", "fu"))
        ctx.count("server reader")
    s.advance(10)
    for x in rx:
        x.c.send("AF Z AF :x" if x.kind == "server" else "PONG :x")
        x.c.pump()
        x.pending.clear()
        x.c.rx = b""
    takeall(s, watch)
    dead = set()

    def alive():
        for x in rx:
            if x not in dead and not x.c.eof:
                x.c.send("AF Z AF :x" if x.kind == "server" else "PONG :x")
        s.sync()

    seqno = {"snd0": 0, "snd1": 0}
    for step in range(r.randint(8, 30)):
        # stall / resume readers
        for x in rx:
            if x in dead:
                continue
            if not x.stalled and r.random() < .35:
                x.stalled, x.sent = True, 0
                ctx.count("stalled")
            elif x.stalled and r.random() < .3:
                drain(ctx, s, x)
                if x.c.eof:
                    # it may only go because it had let more than its sendq pile up
                    lim = ssendq if x.kind == "server" else sendq
                    if x.upper <= lim:
                        ctx.fail("sendq:early", "%s was disconnected with at most %d bytes queued, limit %d" % (x.me, x.upper, lim))
                    dead.add(x)
                else:
                    x.stalled = False
                    ctx.count("survived a stall")
        n = r.choice([1, 3, 20, 60])
        big = r.choice([10, 100, 380, 480])
        who = r.choice(snd)
        wire = 0
        for _ in range(n):
            t = text(r, r.randint(0, big), who.nick, seqno[who.nick])
            seqno[who.nick] += 1
            if r.random() < .8:
                who.send("PRIVMSG #x :" + t)
            else:
                who.send("NOTICE #x :" + t)
            wire += len(t)
        s.sync()
        if pings and r.random() < .6:
            # PING goes ahead of what is queued
            s.advance(21)
            alive()
            ctx.count("pings")
        elif r.random() < .3:
            s.advance(1)
        for x in rx:
            if x in dead:
                continue
            over = n * (200 if x.kind == "tagged" else 60)
            x.low = getattr(x, "low", 0) + wire if x.stalled else 0
            x.upper = getattr(x, "upper", 0) + wire + over + 200 if x.stalled else 0
            if not x.stalled:
                drain(ctx, s, x)
                if x.c.eof:
                    lim = ssendq if x.kind == "server" else sendq
                    if wire + over <= lim:
                        ctx.fail("output:eof", "%s, which reads everything, was disconnected" % x.me)
                    dead.add(x)
        ev = [m for m in takeall(s, watch) if m.cmd == "QUIT"]
        for m in ev:
            x = [y for y in rx if y.me == m.nick]
            if not x:
                ctx.fail("output:quit", "unexpected quit %r" % m)
            x = x[0]
            lim = ssendq if x.kind == "server" else sendq
            if x.upper <= lim and x.stalled:
                ctx.fail("sendq:early", "%s was disconnected with at most %d bytes queued, limit %d: %r" % (x.me, x.upper, lim, m))
            if x.kind != "server" and "sendQ exceeded" not in m.args[-1]:
                ctx.fail("sendq:reason", "quit reason %r" % m)
            ctx.count("overflow")
            drain(ctx, s, x)
            dead.add(x)
    if r.random() < .35 and not pings:
        # a reader that never reads must be cut off
        x = [y for y in rx if y not in dead and y.kind != "server"]
        if x:
            x = r.choice(x)
            others = [y for y in rx if y is not x and y not in dead]
            total, lim = 0, sendq + (330000 if not fault["sndbuf"] else 60000)
            while total < lim:
                for _ in range(60):
                    t = text(r, 440, "snd0", seqno["snd0"])
                    seqno["snd0"] += 1
                    snd[0].send("PRIVMSG #x :" + t)
                    total += len(t)
                s.sync()
                for y in others:
                    drain(ctx, s, y)
            s.advance(130)       # the server reaps dead connections at its ping interval
            q = [m for m in takeall(s, watch) if m.cmd == "QUIT" and m.nick == x.me]
            if not q:
                ctx.fail("sendq:unbounded", "%s read nothing while %d bytes were sent to it (sendq %d) and is still connected" % (x.me, total, sendq))
            ctx.count("overflow")
            drain(ctx, s, x)
            if not x.c.eof:
                ctx.fail("sendq:open", "%s quit but its socket stays open" % x.me)
            dead.add(x)
    for x in rx:
        drain(ctx, s, x)
        if x not in dead and not x.c.eof:
            for k, v in seqno.items():
                if x.next.get(k, 0) != v:
                    ctx.fail("output:lost", "%s received %d of the %d messages of %s" % (x.me, x.next.get(k, 0), v, k))
        ctx.seen("%s/%s/%s/%d/%d" % (x.kind, x in dead, fault["wmax"], fault["wagain"], fault["sndbuf"]))
    ctx.sample("%r %r" % (fault, {x.me: x.nlines for x in rx}))


def takeall(s, c):
    out = []
    for _ in range(500):
        n = c.raw_total
        out += c.take()
        s.sync()
        out += c.take()
        if c.raw_total == n:
            return out


LINE = re.compile(rb"^([0-9a-f]{8}) ((snd\d)-(\d+) .*)$", re.S)


def drain(ctx, s, x):
    for _ in range(2000):
        before = len(x.pending), len(x.buf)
        x.c.pump()
        s.sync()
        x.c.pump()
        if x.c.eof or (len(x.pending), len(x.buf)) == before:
            break
    for l in x.pending:
        raw = l
        if not l.endswith(b"\r"):
            ctx.fail("output:eol", "%s received a line that does not end in CR LF: %r" % (x.me, l[-80:]))
        l = l[:-1]
        if b"\r" in l or b"\0" in l:
            ctx.fail("output:eol", "%s received %r" % (x.me, l[:200]))
        if l.startswith(b"@"):
            tags, _, l = l.partition(b" ")
            if x.kind == "client":
                ctx.fail("output:tags", "tags sent to a client that did not ask for them: %r" % raw[:200])
            ctx.count("tagged lines")
        if len(l) > 510:
            ctx.fail("output:length", "%s received a line of %d bytes: %r" % (x.me, len(l), l[:100]))
        x.nlines += 1
        ctx.ev()
        ctx.count("lines")
        w = l.split(b" ", 3)
        if x.kind == "server":
            if len(w) < 4 or w[1] not in (b"P", b"O"):
                continue
        elif len(w) < 4 or w[1] not in (b"PRIVMSG", b"NOTICE") or w[2] != b"#x":
            continue
        t = w[3][1:]
        m = LINE.match(t)
        if not m:
            ctx.fail("output:garbled", "%s received %r" % (x.me, raw[:300]))
        crc, body, who, n = m.groups()
        if zlib.crc32(body) != int(crc, 16):
            if len(l) != 510:
                ctx.fail("output:garbled", "%s received a damaged line %r" % (x.me, raw[:600]))
            ctx.count("truncated")
        who, n = who.decode(), int(n)
        if n != x.next.get(who, 0):
            ctx.fail("output:order", "%s received message %d of %s where %d was due" % (x.me, n, who, x.next.get(who, 0)))
        x.next[who] = n + 1
    x.pending.clear()
