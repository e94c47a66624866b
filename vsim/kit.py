"""Small helpers shared by the checks that drive one server directly."""
import p10, vsim
from vsim import Violation


def settle(s, peers=(), n=3):
    s.sync()
    for _ in range(n):
        for p in peers:
            p.pump()
        s.sync()


def begin(s, nick, ip="10.1.1.1", user="u", info=None, port=6667, caps=None, pw=None):
    c = s.connect(ip, port)
    if pw:
        c.send("PASS :" + pw)
    if caps:
        c.send("CAP REQ :" + caps)
    c.send("NICK " + nick)
    c.send("USER %s 0 0 :%s" % (user, info or "real " + nick))
    if caps:
        c.send("CAP END")
    c.nick = nick
    return c


def register(s, nick, ip="10.1.1.1", user="u", info=None, port=6667, caps=None, pw=None, wait=15, must=True):
    """A registered client with its greeting consumed (None if it was refused)."""
    c = begin(s, nick, ip, user, info, port, caps, pw)
    got = []
    for _ in range(30):
        settle(s)
        got += c.take()
        if c.eof or any(m.cmd in ("376", "422") for m in got):
            break
    settle(s)
    got += c.take()
    c.greeting = got
    c.ok = any(m.cmd == "001" for m in got)
    if not c.ok and must:
        raise Violation("setup:register", "client could not register: %r" % got[-3:])
    for m in got:
        if m.cmd == "001":
            c.nick = m.args[0]
    if wait:
        s.advance(wait)
    return c


def oper(s, c, name="oper", pw="operpass"):
    c.send("OPER %s %s" % (name, pw))
    settle(s)
    ok = any(m.cmd == "381" for m in c.take())
    s.advance(6)
    return ok


def peer(s, name="fa.test.net", numeric=5, ip="10.200.0.1", eob=True, **kw):
    f = p10.FakeServer(s, name, numeric, ip, **kw)
    f.hold_ea = True
    settle(s, [f])
    if eob:
        f.eob()
        for _ in range(30):
            settle(s, [f])
            if f.eob_seen:
                break
        settle(s, [f])
        f.take()
    return f


def lines(c, *cmds):
    """Unread messages, optionally restricted to some commands."""
    return [m for m in c.take() if not cmds or m.cmd in cmds]


def ask(s, c, line, dt=3, peers=()):
    """Send one command from a client that has nothing else pending; returns its answers."""
    c.take()
    c.send(line)
    s.advance(dt)
    settle(s, peers)
    return [m for m in c.take() if m.cmd not in ("PING",)]
