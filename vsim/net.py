"""Networks of several real servers.  The harness carries the bytes between them, so that it decides when
each link delivers, how the stream is segmented, and when a link dies."""
import socket
import vsim, p10, chaos
from model import Model
from masks import lower
from world import World

NAMES = ["hub.test.net", "b.test.net", "c.test.net", "d.test.net"]
YY = ["AB", "AC", "AD", "AE"]


class Link:
    """A TCP connection from server i to server j."""
    def __init__(self, net, i, j, rng=None):
        self.net, self.i, self.j, self.rng = net, i, j, rng
        a, b = net.servers[i], net.servers[j]
        self.hold = [False, False]       # i->j, j->i
        self.buf = [b"", b""]
        self.up = True
        self.moved = 0
        self.log = None
        ls = net.out[i][j]
        for _ in range(50):
            try:
                self.sa, _ = ls.accept()
                break
            except BlockingIOError:
                a.sync()
        else:
            raise vsim.Violation("setup:link", "server %d did not connect to %d" % (i, j))
        self.sa.setblocking(False)
        self.sb = b.connect("10.100.0.%d" % (i + 1), 4400)
        b.clients.remove(self.sb)
        self.sb = self.sb.s

    def pump(self):
        """Carry what is available; returns the number of bytes moved."""
        n = 0
        for d, (x, y) in enumerate(((self.sa, self.sb), (self.sb, self.sa))):
            if not self.up:
                break
            while True:
                try:
                    data = x.recv(262144)
                except BlockingIOError:
                    break
                except OSError:
                    data = b""
                if not data:
                    self.buf[d] and not self.hold[d] and self.push(d, y)
                    self.cut()
                    return n + 1
                if self.log is not None:
                    self.log.append((d, data))
                self.buf[d] += data
                n += len(data)
            if self.buf[d] and not self.hold[d]:
                n += self.push(d, y)
        self.moved += n
        return n

    def push(self, d, y, limit=None):
        data = self.buf[d]
        if limit is not None:
            data = data[:limit]
        try:
            k = y.send(data)
        except BlockingIOError:
            return 0
        except OSError:
            self.cut()
            return 1
        self.buf[d] = self.buf[d][k:]
        return k

    def deliver_some(self, d, nbytes):
        y = self.sb if d == 0 else self.sa
        return self.push(d, y, nbytes) if self.up else 0

    def cut(self):
        self.up = False
        for s in (self.sa, self.sb):
            try:
                s.close()
            except OSError:
                pass


class Net:
    """n real servers, initially unlinked, each with one oper used only to issue CONNECT."""
    def __init__(self, ctx, n, feats=None, services=False, opers=None, variant="asan", extra=""):
        self.ctx, self.n = ctx, n
        f = {"OPLEVELS": "FALSE", "HIDDEN_HOST": "users.undernet.org", "HOST_HIDING": "TRUE"}
        f.update(feats or {})
        self.servers, self.out, self.links = [], [], []
        for i in range(n):
            cons = ['name="%s"; host="10.100.0.%d"; password="linkpass"; class="Server"; hub; port=4400; autoconnect=no'
                    % (NAMES[j], j + 1) for j in range(n) if j != i]
            if i == 0 or services:
                cons.append('name="fa.test.net"; host="10.200.0.1"; password="testpass"; class="Server"; hub; autoconnect=no')
                cons.append('name="fb.test.net"; host="10.200.0.2"; password="testpass"; class="Server"; hub; autoconnect=no')
                cons.append('name="fc.test.net"; host="10.200.0.3"; password="testpass"; class="Server"; hub; autoconnect=no')
            c = vsim.conf(name=NAMES[i], numeric=i + 1, ports=((6667, ""), (4400, "server=yes")), connects=cons, uworld=['name="fa.test.net"'],
                          opers=opers or [
                              'local=no; class="Opers"; host="*@*"; password="$PLAIN$operpass"; name="oper"; badchan=yes; set=yes; '
                              'local_badchan=yes; whox=yes; see_chan=yes; show_invis=yes; show_all_invis=yes; list_chan=yes; opmode=yes; '
                              'gline=yes; local_gline=yes; jupe=yes; local_jupe=yes; kill=yes; rehash=yes; walk_lchan=yes; deop_lchan=yes; '
                              'force_opmode=yes; force_local_opmode=yes; apass_opmode=yes; display=yes; wide_gline=yes; unlimit_query=yes; '
                              'see_opers=yes; propagate=yes; die=no; restart=no; local_opmode=yes'],
                          features=f, extra=extra)
            s = ctx.ircd(c, variant, name=NAMES[i])
            self.servers.append(s)
            self.out.append({j: s.listen_out("10.100.0.%d" % (j + 1), 4400) for j in range(n) if j != i})
        self.ctl = []
        for i, s in enumerate(self.servers):
            c = s.connect("10.250.0.%d" % (i + 1))
            c.send("NICK ctl%d" % i)
            c.send("USER ctl 0 0 :ctl")
            s.sync()
            c.pump()
            s.sync()
            c.send("OPER oper operpass")
            s.advance(15)
            c.send("MODE ctl%d -s" % i)
            s.sync()
            c.take()
            self.ctl.append(c)

    def now(self):
        return self.servers[0].now

    def advance(self, n):
        for s in self.servers:
            s.advance(n)

    def up_links(self):
        return [l for l in self.links if l.up]

    def find_link(self, i, j):
        for l in self.links:
            if l.up and {l.i, l.j} == {i, j}:
                return l

    def connect(self, i, j):
        self.advance(12)
        self.ctl[i].send("CONNECT %s" % NAMES[j])
        self.servers[i].sync()
        l = Link(self, i, j)
        self.links.append(l)
        return l

    def settle(self, extra=()):
        for _ in range(400):
            n = 0
            for s in self.servers:
                s.sync()
            for l in self.links:
                if l.up:
                    n += l.pump()
            for e in extra:
                k = e.raw_total
                e.pump()
                n += e.raw_total - k
            for c in self.ctl:
                c.pump()
            if not n:
                break
        else:
            raise vsim.Violation("net:never-quiet", "the servers keep talking to each other without any new input")
        self.links = [l for l in self.links if l.up]
        for c in self.ctl:
            c.lines = []


class NetModel(Model):
    """Users on several servers; & channels exist per server."""
    def ckey(self, name, srv):
        return lower(name) + ("" if name[:1] != "&" else "@" + srv)

    def chan(self, name, u=None):
        u = u or self.cur
        return self.chans.get(self.ckey(name, u.srv))


    edges = ()

    def path(self, a, b):
        """Servers between a and b in the tree, both included."""
        prev, q = {a: None}, [a]
        while q:
            x = q.pop(0)
            for i, j in self.edges:
                for p, s in ((i, j), (j, i)):
                    if p == x and s not in prev:
                        prev[s] = x
                        q.append(s)
        out = set()
        while b is not None:
            out.add(b)
            b = prev.get(b)
        return out


class NetWorld(World):
    def __init__(self, ctx, nservers=2, topo=None, **kw):
        self.nservers, self.topo = nservers, topo or [(i, i + 1) for i in range(nservers - 1)]
        World.__init__(self, ctx, **kw)

    def make_model(self, mf):
        m = NetModel(self.net.now(), mf)
        m.edges = [(NAMES[i], NAMES[j]) for i, j in self.topo]
        return m

    def setup_servers(self, f, services, variant, priv):
        self.net = Net(self.ctx, self.nservers, f, services, variant=variant)
        self.s = self.net.servers[0]
        self.servers = self.net.servers
        self.svc = None
        for i, j in self.topo:
            self.net.connect(i, j)
            self.settle()
        if services:
            self.svc = p10.FakeServer(self.s, "fa.test.net", 50, "10.200.0.1")
            self.settle()
            self.svc.eob()
            self.settle()

    def advance(self, n):
        self.net.advance(n)
        self.M.now = self.s.now
        self.settle()

    def settle(self, idle=False):
        self.net.settle([self.svc] if self.svc is not None else [])

    def server_for(self):
        return self.r.choice(self.servers)

    def srvname(self, s):
        return s.name

    def skip(self, u, line):
        # which of two refusals a user gets for a target that is not even on this server is unspecified
        w = line.split(" ")
        if w[0] in ("KICK", "MODE") and len(w) > 2 and w[1][:1] == "&":
            old = {n for _, n, x in self.M.hist[-60:] if x.srv != u.srv}
            return any(lower(x) in old or (self.M.find(x) is not None and self.M.find(x).srv != u.srv) for x in w[2:])
        return False
