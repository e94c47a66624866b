"""P10 helpers and a scriptable peer server."""
import ipaddress, random
from vsim import Conn, Msg

B64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789[]"
IDX = {c: i for i, c in enumerate(B64)}


def enc(n, width):
    s = ""
    for _ in range(width):
        s = B64[n & 63] + s
        n >>= 6
    return s


def dec(s):
    n = 0
    for c in s:
        n = n * 64 + IDX[c]
    return n


def ip_enc(ip):
    """Encode as the protocol documentation describes (IPv4: 6 chars)."""
    if ":" in ip:
        a = ipaddress.IPv6Address(ip)
        if a.ipv4_mapped:
            return enc(int(a.ipv4_mapped), 6)
        w = [int(a) >> (112 - 16 * i) & 0xffff for i in range(8)]
        # longest run of zeros
        best, bl = -1, 0
        i = 0
        while i < 8:
            if w[i] == 0:
                j = i
                while j < 8 and w[j] == 0:
                    j += 1
                if j - i > bl:
                    best, bl = i, j - i
                i = j
            else:
                i += 1
        out, i = "", 0
        while i < 8:
            if i == best and bl > 1:
                out += "_"
                i += bl
            else:
                out += enc(w[i], 3)
                i += 1
        return out
    return enc(int(ipaddress.IPv4Address(ip)), 6)


def ip_dec(s):
    if len(s) == 6 and "_" not in s:
        return str(ipaddress.IPv4Address(dec(s) & 0xffffffff))
    w, i = [], 0
    while i < len(s):
        if s[i] == "_":
            rest = len(s) - i - 1
            left = 8 - rest // 3 - len(w)
            w += [0] * left
            i += 1
        else:
            w.append(dec(s[i:i + 3]))
            i += 3
    v = 0
    for x in w:
        v = v << 16 | x
    return str(ipaddress.IPv6Address(v))


class PMsg:
    """A server-to-server line: '<source> <token> args...'"""
    __slots__ = ("raw", "tags", "src", "cmd", "args")

    def __init__(self, raw):
        if isinstance(raw, bytes):
            raw = raw.decode("latin-1")
        self.raw = raw
        s = raw
        self.tags = None
        if s.startswith("@"):
            t, _, s = s.partition(" ")
            self.tags = t[1:]
        trail = None
        if " :" in s:
            s, _, trail = s.partition(" :")
        if s.startswith(":"):
            s = s[1:]
        a = [x for x in s.split(" ") if x]
        if a and a[0] in ("PASS", "SERVER", "ERROR", "PING", "PONG"):
            self.src, self.cmd, self.args = None, a[0], a[1:]
        else:
            self.src = a[0] if a else ""
            self.cmd = a[1] if len(a) > 1 else ""
            self.args = a[2:]
        if trail is not None:
            self.args.append(trail)

    def __repr__(self):
        return "<%s>" % self.raw


class FakeServer(Conn):
    """A peer that links to an ircd as a P10 server."""
    def __init__(self, srv, name, numeric, ip="10.200.0.1", port=4400, password="testpass",
                 desc="fake", flags="h6", boot=None, link=True, sock=None, linkts=None):
        self.name, self.numeric, self.yy = name, numeric, enc(numeric, 2)
        self.msgs = []
        self.users = {}      # numnick -> dict
        self.auto_ea = True
        self.desc, self.flags = desc, flags
        self.eob_seen = False
        self.password = password
        self.boot = boot
        self.linkts = linkts
        Conn.__init__(self, srv, ip, port, sock=sock)
        self.next_idx = 0
        if link:
            self.handshake()

    def handshake(self, ts=None):
        now = self.srv.now
        self.send("PASS :%s" % self.password)
        boot = self.boot or now - 1000
        self.send("SERVER %s 1 %d %d J10 %s]]] +%s :%s" % (self.name, boot, self.linkts or now, self.yy,
                                                          self.flags, self.desc))

    def on_data(self, d):
        self.rx += d
        if b"\n" in self.rx:
            parts = self.rx.split(b"\n")
            self.rx = parts.pop()
            for p in parts:
                p = p[:-1] if p.endswith(b"\r") else p
                m = PMsg(p)
                self.msgs.append(m)
                self.on_msg(m)

    def on_msg(self, m):
        if m.cmd == "G" and self.autopong:
            self.send("%s Z %s :%s" % (self.yy, m.src, m.args[-1] if m.args else ""))
        elif m.cmd == "PING" and self.autopong:
            self.send("%s Z %s :%s" % (self.yy, self.yy, m.args[-1] if m.args else ""))
        elif m.cmd == "EB" and self.auto_ea:
            self.eob_seen = True
            if self.eob_sent or not self.hold_ea:
                self.send("%s EA" % self.yy)
        elif m.cmd == "SERVER":
            self.peer_name = m.args[0]
            self.peer_yy = m.args[5][:2]

    def take(self):
        self.pump()
        l, self.msgs = self.msgs, []
        return l

    hold_ea = eob_sent = False

    def eob(self):
        self.send("%s EB" % self.yy)
        self.eob_sent = True
        if self.hold_ea and self.eob_seen:
            self.send("%s EA" % self.yy)

    def user_line(self, nick, user="fu", host="fake.host", ip="10.9.8.7", modes="", ts=None, idx=None,
                  info="fake user", yy=None, hop=1, acct=None):
        if idx is None:
            idx = self.next_idx
            self.next_idx += 1
        nn = (yy or self.yy) + enc(idx, 3)
        self.users[nn] = dict(nick=nick, user=user, host=host, ip=ip, ts=ts)
        m = (" +" + modes) if modes else ""
        return nn, "%s N %s %d %d %s %s%s %s %s :%s" % (yy or self.yy, nick, hop, ts or self.srv.now, user,
                                                        host, m, ip_enc(ip), nn, info)

    def add_user(self, nick, **kw):
        nn, l = self.user_line(nick, **kw)
        self.send(l)
        return nn
