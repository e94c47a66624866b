"""One real server with scripted peers and a tree of announced servers and users behind them."""
import kit, p10, vsim
from p10 import enc, dec


class Srv:
    def __init__(self, name, yy, up, peer, ts):
        self.name, self.yy, self.up, self.peer, self.ts = name, yy, up, peer, ts
        self.users, self.idx = {}, 0
        self.top = 64 ** 3 - 1      # highest user number the server may give
        self.top_used = False

    def number(self, r):
        """A free user number; now and then the last one."""
        if not self.top_used and r.random() < .2:
            self.top_used = True
            return self.top
        self.idx += 1
        return self.idx - 1


class User:
    def __init__(self, nn, nick, srv, user, host, modes, ts):
        self.nn, self.nick, self.srv, self.user, self.host, self.modes, self.ts = nn, nick, srv, user, host, modes, ts
        self.chans, self.ops = set(), set()


class Tree:
    """servers: name -> Srv ("me" excluded); users: nick -> User (remote only); chans: name -> creation ts."""
    def __init__(self, ctx, s, myname="hub.test.net", myyy="AB"):
        self.ctx, self.r, self.s, self.me, self.myyy = ctx, ctx.rng, s, myname, myyy
        self.servers, self.users, self.peers, self.chans = {}, {}, {}, {}
        self.nextnum = 20
        self.nextnick = 0
        self.free_num = []

    def link(self, name, numeric, ip, eob=True, **kw):
        f = kit.peer(self.s, name, numeric, ip, eob=eob, **kw)
        self.peers[name] = f
        self.servers[name] = Srv(name, f.yy, None, name, 0)
        kit.settle(self.s, self.live())
        return f

    def live(self):
        return [self.peers[n] for n in self.peers if n in self.servers]

    def number(self):
        if self.free_num and self.r.random() < .5:
            return self.free_num.pop()
        self.nextnum += 1
        return self.nextnum

    def announce(self, up, name=None, junction=False):
        """The peer behind which `up` sits announces a new server."""
        n = self.number()
        name = name or "x%d.test.net" % n
        depth, u = 2, self.servers[up]
        while u.up:
            depth, u = depth + 1, self.servers[u.up]
        f = self.peers[u.name]
        ts = self.s.now - self.r.randint(0, 5000)
        yy = enc(n, 2)
        sv = self.servers[name] = Srv(name, yy, up, u.name, ts)
        sv.top = self.r.choice([64 ** 3 - 1, 4095, 255])
        f.send("%s S %s %d 0 %d %s10 %s%s +h :sub" % (self.servers[up].yy, name, depth, ts, "J" if junction else "P", yy, enc(sv.top, 3)))
        return name

    def add_user(self, srv, nick=None, modes="", host="fake.host", user=None, ip="10.9.8.7", acct=None):
        sv = self.servers[srv]
        f = self.peers[sv.peer]
        if nick is None:
            self.nextnick += 1
            nick = "r%d" % self.nextnick
        user = user or "u" + nick[:8]
        ts = self.s.now - self.r.randint(0, 1000)
        depth, x = 1, sv
        while x.up:
            depth, x = depth + 1, self.servers[x.up]
        m = modes
        arg = ""
        if acct:
            m += "r"
            arg = " " + acct
        nn = sv.yy + enc(sv.number(self.r), 3)
        f.send("%s N %s %d %d %s %s%s %s %s :remote %s" % (sv.yy, nick, depth, ts, user, host, (" +" + m + arg) if m else "",
                                                          p10.ip_enc(ip), nn, nick))
        u = self.users[nick] = User(nn, nick, srv, user, host, modes, ts)
        sv.users[nick] = u
        return u

    def join(self, u, chan, op=False):
        f = self.peers[self.servers[u.srv].peer]
        if chan in self.chans:
            f.send("%s B %s %d %s%s" % (self.servers[u.srv].yy, chan, self.chans[chan], u.nn, ":o" if op else ""))
        else:
            self.chans[chan] = self.s.now - 100
            f.send("%s C %s %d" % (u.nn, chan, self.chans[chan]))
        u.chans.add(chan)

    def behind(self, name):
        out, todo = [], [name]
        while todo:
            n = todo.pop()
            out.append(n)
            todo += [x.name for x in self.servers.values() if x.up == n]
        return out

    def drop(self, name):
        """Forget a server and everything behind it; returns (servers, users) lost."""
        gone = self.behind(name)
        us = []
        for n in gone:
            sv = self.servers.pop(n)
            if sv.up is not None:
                self.free_num.append(dec(sv.yy))
            for nick, u in list(sv.users.items()):
                us.append(u)
                self.users.pop(nick, None)
        return gone, us

    def path(self, name):
        """The neighbour through which `name` is reached."""
        return self.servers[name].peer
