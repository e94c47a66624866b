"""Run the built ircd unprivileged in a scratch directory and talk to it over loopback."""
import atexit, os, re, shutil, signal, socket, subprocess, sys, tempfile, time

SCRATCH = tempfile.mkdtemp(prefix="demo.")
os.chmod(SCRATCH, 0o755)
PROCS = []


def cleanup():
    for p in PROCS:
        try:
            p.kill()
            p.wait()
        except Exception:
            pass
    shutil.rmtree(SCRATCH, ignore_errors=True)


atexit.register(cleanup)


def free_port():
    s = socket.socket()
    s.bind(("127.0.0.1", 0))
    p = s.getsockname()[1]
    s.close()
    return p


BASE_FEATS = {"HUB": "TRUE", "NODNS": "TRUE", "NOIDENT": "TRUE", "CONFIG_OPERCMDS": "TRUE", "IPCHECK_CLONE_LIMIT": "1000",
              "MAXCHANNELSPERUSER": "20", "PPATH": "ircd.pid", "OPLEVELS": "FALSE", "HIDDEN_HOST": "users.undernet.org", "HOST_HIDING": "TRUE"}


class Server:
    def __init__(self, name="hub.test.net", numeric=1, feats=None, extra="", connects=None, clients=None, classes=None, opers=None, uworld=True):
        self.name, self.numeric = name, numeric
        self.port, self.sport, self.wport = free_port(), free_port(), free_port()
        self.dir = os.path.join(SCRATCH, name)
        os.mkdir(self.dir)
        o = ['General { name = "%s"; vhost = "127.0.0.1"; description = "demo"; numeric = %d; };' % (name, numeric),
             'Admin { Location = "here"; Contact = "x@y"; };']
        for c in classes or ['name = "Local"; pingfreq = 1000 minutes; sendq = 160000; maxlinks = 250;']:
            o.append("Class { %s };" % c)
        o.append('Class { name = "Opers"; pingfreq = 1000 minutes; sendq = 1600000; maxlinks = 100; local = no; };')
        o.append('Class { name = "Server"; pingfreq = 1000 minutes; connectfreq = 100 minutes; sendq = 9000000; maxlinks = 40; };')
        for c in clients or ['ip = "*"; class = "Local";']:
            o.append("Client { %s };" % c)
        for c in opers or ['local = no; class = "Opers"; host = "*@*"; password = "$PLAIN$operpass"; name = "oper"; badchan = yes; set = yes; whox = yes; '
                           'see_chan = yes; show_invis = yes; show_all_invis = yes; list_chan = yes; opmode = yes; gline = yes; local_gline = yes; jupe = yes; '
                           'local_jupe = yes; kill = yes; rehash = yes; display = yes; wide_gline = yes; unlimit_query = yes; see_opers = yes; propagate = yes;']:
            o.append("Operator { %s };" % c)
        for c in connects if connects is not None else [
                'name="fa.test.net"; host="127.0.0.1"; password="testpass"; class="Server"; hub; autoconnect=no',
                'name="fb.test.net"; host="127.0.0.1"; password="testpass"; class="Server"; hub; autoconnect=no']:
            o.append("Connect { %s; };" % c)
        if uworld:
            o.append('UWorld { name = "fa.test.net"; };')
        o.append("Port { port = %d; };" % self.port)
        o.append("Port { port = %d; server = yes; };" % self.sport)
        o.append("Port { port = %d; websocket = yes; };" % self.wport)
        f = dict(BASE_FEATS)
        f.update(feats or {})
        o.append("Features {")
        for k, v in f.items():
            o.append('  "%s" = "%s";' % (k, v))
        o.append("};")
        o.append(extra)
        self.conf = os.path.join(self.dir, "ircd.conf")
        self.write(o)
        shutil.copy(os.path.join(os.getcwd(), "ircd/ircd"), os.path.join(self.dir, "ircd"))
        os.chmod(os.path.join(self.dir, "ircd"), 0o755)
        for x in (self.dir, self.conf):
            os.chown(x, 65534, 65534)

        def drop():
            os.setgroups([])
            os.setgid(65534)
            os.setuid(65534)
        self.log = open(os.path.join(self.dir, "out.log"), "w")
        self.p = subprocess.Popen(["./ircd", "-n", "-f", self.conf, "-d", self.dir], cwd=self.dir, preexec_fn=drop if os.getuid() == 0 else None,
                                  stdout=self.log, stderr=self.log, stdin=subprocess.DEVNULL)
        PROCS.append(self.p)
        for _ in range(100):
            try:
                socket.create_connection(("127.0.0.1", self.port), 1).close()
                return
            except OSError:
                if self.p.poll() is not None:
                    break
                time.sleep(.1)
        raise SystemExit("setup: ircd did not start: " + open(os.path.join(self.dir, "out.log")).read()[-500:])

    def write(self, lines):
        self.lines = lines
        with open(self.conf, "w") as f:
            f.write("\n".join(lines) + "\n")

    def alive(self):
        return self.p.poll() is None

    def hup(self):
        self.p.send_signal(signal.SIGHUP)
        time.sleep(1)


class Conn:
    def __init__(self, port, src="127.0.0.1"):
        self.s = socket.socket()
        self.s.bind((src, 0))
        self.s.connect(("127.0.0.1", port))
        self.buf = b""
        self.lines = []
        self.all = []
        self.eof = False

    def send(self, *lines):
        for l in lines:
            self.raw(l.encode("latin-1") + b"\r\n")

    def raw(self, b):
        try:
            self.s.sendall(b)
        except OSError:
            self.eof = True

    def fill(self, timeout):
        self.s.settimeout(max(timeout, .01))
        try:
            d = self.s.recv(65536)
        except socket.timeout:
            return False
        except OSError:
            d = b""
        if not d:
            self.eof = True
            return False
        self.buf += d
        *ls, self.buf = self.buf.split(b"\n")
        for l in ls:
            l = l.rstrip(b"\r").decode("latin-1")
            self.lines.append(l)
            self.all.append(l)
            self.on(l)
        return True

    def on(self, l):
        if l.startswith("PING "):
            self.send("PONG " + l[5:])

    def expect(self, rx, timeout=15):
        """First unread line matching rx (everything before it is dropped); None if none arrives."""
        end = time.time() + timeout
        while True:
            while self.lines:
                l = self.lines.pop(0)
                m = re.search(rx, l)
                if m:
                    return l
            if self.eof or time.time() > end:
                return None
            self.fill(end - time.time())

    def must(self, rx, timeout=15):
        l = self.expect(rx, timeout)
        if l is None:
            raise SystemExit("setup: expected %r, saw %r" % (rx, self.all[-6:]))
        return l

    SEQ = 0

    def sync(self, timeout=40):
        """Everything the server sends us up to the answer of a PING."""
        Conn.SEQ += 1
        t = "sync%d" % Conn.SEQ
        self.send("PING " + t)
        out = []
        end = time.time() + timeout
        while time.time() < end:
            while self.lines:
                l = self.lines.pop(0)
                if " PONG " in l and t in l:
                    return out
                out.append(l)
            if self.eof:
                return out
            self.fill(end - time.time())
        raise SystemExit("setup: no PONG, saw %r" % self.all[-6:])

    def wait_eof(self, timeout=15):
        end = time.time() + timeout
        while not self.eof and time.time() < end:
            self.fill(end - time.time())
        return self.eof

    def close(self):
        self.s.close()


class Client(Conn):
    def __init__(self, srv, nick, user="u", src="127.0.0.1", caps=None):
        Conn.__init__(self, srv.port, src)
        self.nick = nick
        if caps:
            self.send("CAP REQ :" + caps)
        self.send("NICK " + nick, "USER %s 0 0 :real %s" % (user, nick))
        if caps:
            self.send("CAP END")
        self.must(" (376|422) ")
        self.sync()

    def oper(self, pw="operpass", name="oper"):
        self.send("OPER %s %s" % (name, pw))
        self.must(" 381 ")
        return self


class Peer(Conn):
    """A peer server speaking P10."""
    def __init__(self, srv, name="fa.test.net", yy="AF", max="AAD", burst=(), pw="testpass", eob=True):
        Conn.__init__(self, srv.sport)
        self.name, self.yy = name, yy
        self.eb = False
        now = int(time.time())
        self.send("PASS :" + pw, "SERVER %s 1 %d %d J10 %s%s +hs6 :peer" % (name, now, now, yy, max))
        self.must(r"^SERVER ")
        for l in burst:
            self.send(l)
        if eob:
            self.send(yy + " EB")
            self.must(" EB( |$)")
            self.send(yy + " EA")
            self.must(" EA( |$)")

    def on(self, l):
        m = re.match(r"^(@\S+ )?(\S+) G (.*)", l)
        if m:
            self.send("%s Z %s" % (self.yy, m.group(3)))

    def settle(self, srv):
        Conn.SEQ += 1
        t = "ps%d" % Conn.SEQ
        self.send("%s RI %s %sAAA %s" % (self.yy, srv_num(srv), self.yy, t)) if False else None
        self.send("%s G !%s %s %s" % (self.yy, t, srv.name, t))
        out = []
        end = time.time() + 20
        while time.time() < end:
            while self.lines:
                l = self.lines.pop(0)
                if re.search(r" Z .*%s" % t, l):
                    return out
                out.append(l)
            if self.eof:
                return out
            self.fill(end - time.time())
        return out


def srv_num(srv):
    A = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789[]"
    return A[srv.numeric // 64] + A[srv.numeric % 64]


def fail(msg):
    print("DEMO: property broken: " + msg)
    sys.exit(1)


def ok():
    print("DEMO: ok")
    sys.exit(0)
