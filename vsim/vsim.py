"""vsim: drive real (instrumented) ircd processes in lock-step under virtual time."""
import atexit, errno, os, random, re, resource, select, shutil, signal, socket, struct, subprocess
import sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
UID = 65534
T0 = 1700000000


class Crash(Exception):
    """The instrumented server died or a sanitizer/assertion reported."""
    def __init__(self, kind, summary, detail=""):
        Exception.__init__(self, "%s: %s" % (kind, summary))
        self.kind, self.summary, self.detail = kind, summary, detail


class Hang(Exception):
    pass


class Exec(Exception):
    """The server asked to re-exec itself (RESTART)."""


class Violation(Exception):
    """An oracle disagreed with what was observed."""
    def __init__(self, key, msg, detail=None):
        Exception.__init__(self, "%s: %s" % (key, msg))
        self.key, self.msg, self.detail = key, msg, detail


_scratch = []


def _cleanup():
    for pid, d in _scratch:
        if pid == os.getpid():
            shutil.rmtree(d, ignore_errors=True)


atexit.register(_cleanup)


def scratch(prefix="vs"):
    d = tempfile.mkdtemp(prefix=prefix, dir="/tmp")
    os.chmod(d, 0o755)
    _scratch.append((os.getpid(), d))
    return d


def drop_scratch(d):
    shutil.rmtree(d, ignore_errors=True)
    _scratch[:] = [x for x in _scratch if x[1] != d]


class Msg:
    __slots__ = ("raw", "tags", "prefix", "cmd", "args")

    def __init__(self, raw):
        if isinstance(raw, bytes):
            raw = raw.decode("latin-1")
        self.raw = raw
        s = raw
        self.tags = None
        if s.startswith("@"):
            t, _, s = s.partition(" ")
            self.tags = t[1:]
        self.prefix = None
        if s.startswith(":"):
            p, _, s = s.partition(" ")
            self.prefix = p[1:]
        trail = None
        if s.startswith(":"):
            s, trail = "", s[1:]
        elif " :" in s:
            s, _, trail = s.partition(" :")
        a = s.split(" ")
        a = [x for x in a if x != ""]
        self.cmd = a[0] if a else ""
        self.args = a[1:]
        if trail is not None:
            self.args.append(trail)

    @property
    def nick(self):
        return self.prefix.split("!", 1)[0] if self.prefix else None

    def __repr__(self):
        return "<%s>" % self.raw


class Ircd:
    def __init__(self, binp, conf, name="srv", t0=T0, args=(), files=None, keep_stderr=True, env=None):
        self.binp, self.name = binp, name
        self.dir = scratch("vs")
        os.makedirs(self.dir + "/out")
        os.makedirs(self.dir + "/udp")
        for d in (self.dir, self.dir + "/out", self.dir + "/udp"):
            self._own(d, 0o777)
        self.conf_path = self.dir + "/ircd.conf"
        self.write_conf(conf)
        for fn, data in (files or {}).items():
            with open(os.path.join(self.dir, fn), "w") as f:
                f.write(data)
            self._own(os.path.join(self.dir, fn), 0o644)
        self.ls = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
        self.ls.bind(self.dir + "/ctl")
        os.chmod(self.dir + "/ctl", 0o777)
        self.ls.listen(1)
        self.ia_ls = None
        self.now = t0
        self.t0 = t0
        self.args = list(args)
        self.env = dict(env or {})
        self.buf = b""
        self.clients = []
        self.nsync = 0
        self.dead = None
        self.proc = None
        self.timeout = 90

    def _own(self, p, mode):
        os.chmod(p, mode)
        if os.getuid() == 0:
            os.chown(p, UID, UID)

    def write_conf(self, conf):
        with open(self.conf_path, "w") as f:
            f.write(conf)
        self._own(self.conf_path, 0o644)

    def start(self):
        env = {"PATH": "/usr/bin:/bin", "VSIM_DIR": self.dir, "VSIM_TIME": str(self.t0),
               "ASAN_OPTIONS": "detect_leaks=0:exitcode=99:abort_on_error=0:handle_abort=1:"
                               "log_path=%s/san:allocator_may_return_null=1:malloc_context_size=8:"
                               "quarantine_size_mb=64:detect_stack_use_after_return=0" % self.dir,
               "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=99:log_path=%s/san" % self.dir,
               "TZ": "UTC", "HOME": self.dir}
        env.update(self.env)

        def pre():
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            os.setsid()
            if os.getuid() == 0:
                try:
                    os.setgroups([])
                except OSError:
                    pass
                os.setgid(UID)
                os.setuid(UID)
        self.errf = open(self.dir + "/stderr", "wb")
        cmdl = [self.binp, "-n", "-f", self.conf_path, "-d", self.dir] + self.args
        if os.environ.get("VSIM_GDB"):      # debugging aid only
            cmdl = ["gdb", "-batch", "-x", os.environ["VSIM_GDB"], "--args"] + cmdl
        self.proc = subprocess.Popen(cmdl,
                                     stdin=subprocess.DEVNULL, stdout=self.errf, stderr=self.errf, env=env,
                                     preexec_fn=pre, cwd=self.dir)
        self.ls.settimeout(0.2)
        t = time.time()
        while True:
            try:
                self.ctl, _ = self.ls.accept()
                break
            except socket.timeout:
                if self.proc.poll() is not None:
                    self._died()
                if time.time() - t > self.timeout:
                    raise Hang("startup")
        self.ctl.settimeout(self.timeout)
        self.sync()
        return self

    # ---- control channel
    def _died(self):
        try:
            rc = self.proc.wait(timeout=20)
        except subprocess.TimeoutExpired:
            self.proc.kill()
            rc = self.proc.wait()
        self.dead = rc
        rep = ""
        for f in sorted(os.listdir(self.dir)):
            if f.startswith("san."):
                with open(os.path.join(self.dir, f), errors="replace") as fh:
                    rep += fh.read()
        err = ""
        try:
            with open(self.dir + "/stderr", errors="replace") as fh:
                err = fh.read()[-int(os.environ.get("VSIM_ERRLEN", "4000")):]
        except OSError:
            pass
        if rc == 77:
            raise Exec()
        if "runtime error" in err and "runtime error" not in rep:
            rep += err
        if rep:
            raise Crash("sanitizer", summarize_report(rep), rep + "\n--stderr--\n" + err)
        raise Crash("exit", "exit status %s" % rc, err)

    def _line(self):
        while b"\n" not in self.buf:
            try:
                d = self.ctl.recv(65536)
            except socket.timeout:
                self.abort_hang()
            except OSError:
                d = b""
            if not d:
                self._died()
            self.buf += d
        l, self.buf = self.buf.split(b"\n", 1)
        return l.decode("latin-1")

    def abort_hang(self):
        try:
            self.proc.send_signal(signal.SIGKILL)
        except OSError:
            pass
        raise Hang("no answer in %ds" % self.timeout)

    def cmd(self, line):
        try:
            self.ctl.sendall(line.encode() + b"\n")
        except OSError:
            self._died()
        while True:
            r = self._line()
            if r.startswith("EXEC"):
                continue
            if r.startswith("busy"):
                if os.environ.get("VSIM_GDB"):
                    continue
                raise Hang("busy loop: server never goes idle (%s)" % r)
            return r

    def sync(self):
        self.nsync += 1
        self.cmd("S")

    def advance(self, n):
        self.nsync += 1
        self.cmd("T%d" % n)
        self.now += n

    def fault(self, **kw):
        for k, v in kw.items():
            self.cmd("F%s %d" % (k, v))

    def monitor(self):
        r = self.cmd("V")
        return r.startswith("ok"), r.partition(" ")[2]

    def info(self):
        return self.cmd("I")

    def dump(self, what=""):
        r = self.cmd("D " + what)
        n = int(r.split()[1])
        while len(self.buf) < n:
            d = self.ctl.recv(65536)
            if not d:
                self._died()
            self.buf += d
        out, self.buf = self.buf[:n], self.buf[n:]
        return out.decode("latin-1")

    def signal(self, num):
        self.cmd("G%d" % num)
        self.sync()

    def stop(self, check=True):
        if self.proc is None:
            return
        if self.proc.poll() is None:
            try:
                self.ctl.sendall(b"X\n")
                self.proc.wait(timeout=10)
            except Exception:
                try:
                    os.killpg(self.proc.pid, signal.SIGKILL)
                except OSError:
                    pass
                self.proc.wait()
        for c in list(self.clients):
            c.close()
        try:
            self.ctl.close()
        except Exception:
            pass
        self.ls.close()
        self.errf.close()
        drop_scratch(self.dir)
        self.proc = None

    def alive(self):
        return self.proc is not None and self.proc.poll() is None

    # ---- endpoints
    def connect(self, ip="10.1.1.1", port=6667, sport=None, raw=False):
        return Conn(self, ip, port, sport)

    def listen_out(self, ip, port):
        """Be the TCP peer the ircd connects out to."""
        p = "%s/out/%s.%d" % (self.dir, ip, port)
        s = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
        if os.path.exists(p):
            os.unlink(p)
        s.bind(p)
        os.chmod(p, 0o777)
        s.listen(64)
        s.setblocking(False)
        return s

    def iauth_listen(self):
        self.ia_ls = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
        self.ia_ls.bind(self.dir + "/iauth")
        os.chmod(self.dir + "/iauth", 0o777)
        self.ia_ls.listen(4)

    def iauth_accept(self, timeout=20):
        """Returns (socket for iauth stdin/stdout, socket for iauth stderr)."""
        self.ia_ls.settimeout(timeout)
        c, _ = self.ia_ls.accept()
        msg, fds, _, _ = socket.recv_fds(c, 256, 2)
        c.close()
        a = socket.socket(fileno=fds[0])
        b = socket.socket(fileno=fds[1])
        a.setblocking(False)
        return a, b

    def log_text(self):
        out = ""
        for f in os.listdir(self.dir):
            if f.endswith(".log"):
                out += open(os.path.join(self.dir, f), errors="replace").read()
        return out


def summarize_report(rep):
    """A stable one-line key for a sanitizer report: kind plus repo functions."""
    kind = "unknown"
    m = re.search(r"ERROR: AddressSanitizer: (\S+)", rep)
    if m:
        kind = m.group(1)
    m2 = re.search(r"([\w./-]+\.[chy]):(\d+):\d+: runtime error: (.*)", rep)
    if m2:
        kind = "ubsan:" + re.sub(r"-?\d+|0x[0-9a-f]+", "N", m2.group(3))[:80]
    m3 = re.search(r"Assertion `(.*?)' failed", rep)
    if m3:
        kind = "assert:" + m3.group(1)
    fns = []
    for m in re.finditer(r"^\s*#\d+ 0x[0-9a-f]+ in (\S+) (\S+)", rep, re.M):
        fn, loc = m.groups()
        if "/ircd/" in loc or "/src/" in loc:
            if fn.startswith("__") or "sanitizer" in loc:
                continue
            fns.append(fn)
        if len(fns) >= 4:
            break
    return kind + " in " + "<".join(fns)


_seq = 0


class Conn:
    """A client-side (or server-side) connection to a listener."""
    def __init__(self, srv, ip, port, sport=None, sock=None):
        global _seq
        _seq += 1
        self.srv, self.ip, self.port = srv, ip, port
        self.rx = b""
        self.raw_total = 0
        self.eof = False
        self.lines = []
        self.log = []
        self.sport = sport or (10000 + _seq % 50000)
        if sock is not None:
            self.s = sock
        else:
            self.s = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
            self.s.bind("\0v|%s|%d|%d.%d" % (ip, self.sport, os.getpid(), _seq))
            fam = 6 if ":" in ip else 4
            self.s.connect("%s/l%d.%d" % (srv.dir, port, fam))
        self.s.setblocking(False)
        if srv is not None:
            srv.clients.append(self)
        self.out = b""

    def send_raw(self, data):
        if isinstance(data, str):
            data = data.encode("latin-1")
        if self.eof:
            return
        self.out += data
        self.flush()

    def flush(self):
        while self.out:
            try:
                n = self.s.send(self.out)
                self.out = self.out[n:]
            except BlockingIOError:
                # let the server drain it
                if self.srv is not None:
                    self.srv.sync()
                    try:
                        n = self.s.send(self.out)
                        self.out = self.out[n:]
                        continue
                    except BlockingIOError:
                        return
                    except OSError:
                        self.out = b""
                return
            except OSError:
                self.out = b""
                return

    def send(self, line):
        self.send_raw(line + "\r\n")

    def pump(self):
        """Read whatever the server has sent so far."""
        while True:
            try:
                d = self.s.recv(262144)
            except BlockingIOError:
                break
            except OSError:
                self.eof = True
                break
            if not d:
                self.eof = True
                break
            self.raw_total += len(d)
            self.on_data(d)
        return self

    def on_data(self, d):
        self.rx += d
        if b"\n" in self.rx:
            parts = self.rx.split(b"\n")
            self.rx = parts.pop()
            for p in parts:
                p = p[:-1] if p.endswith(b"\r") else p
                m = Msg(p)
                if m.cmd == "PING" and m.prefix is None and self.autopong:
                    self.send("PONG :" + (m.args[-1] if m.args else "x"))
                self.lines.append(m)

    autopong = True

    def take(self):
        self.pump()
        l, self.lines = self.lines, []
        return l

    def close(self):
        try:
            self.s.close()
        except OSError:
            pass
        if self.srv is not None and self in self.srv.clients:
            self.srv.clients.remove(self)
        self.eof = True


def conf(name="hub.test.net", numeric=1, ports=((6667, ""),), features=None, classes=None,
         clients=None, opers=None, connects=(), uworld=(), extra="", desc="Test", jupes=("NickServ", "x[jup")):
    o = []

    def b(kind, body):
        body = body.strip()
        o.append("%s { %s%s };" % (kind, body, "" if body.endswith(";") else ";"))
    o.append('General { name = "%s"; vhost = "0.0.0.0"; description = "%s"; numeric = %d; };' % (name, desc, numeric))
    o.append('Admin { Location = "here"; Location = "there"; Contact = "x@y"; };')
    if classes is None:
        classes = ['name = "Local"; pingfreq = 1000 minutes; sendq = 160000; maxlinks = 250; usermode = "";',
                   'name = "Opers"; pingfreq = 1000 minutes; sendq = 1600000; maxlinks = 100; local = no;',
                   'name = "Server"; pingfreq = 1000 minutes; connectfreq = 100 minutes; sendq = 9000000; maxlinks = 40;']
    for c in classes:
        b("Class", c)
    for c in (clients if clients is not None else ['ip = "*"; class = "Local";']):
        b("Client", c)
    for c in (opers if opers is not None else
              ['local = no; class = "Opers"; host = "*@*"; password = "$PLAIN$operpass"; name = "oper";']):
        b("Operator", c)
    for c in connects:
        b("Connect", c)
    for u in uworld:
        b("UWorld", u)
    for j in jupes:
        b("Jupe", 'nick = "%s"' % j)
    for p, flags in ports:
        b("Port", "port = %d; %s" % (p, flags))
    f = {"HUB": "TRUE", "NODNS": "TRUE", "NOIDENT": "TRUE", "CONFIG_OPERCMDS": "TRUE",
         "IPCHECK_CLONE_LIMIT": "1000", "MAXCHANNELSPERUSER": "20", "PPATH": "ircd.pid"}
    f.update(features or {})
    o.append("Features {")
    for k, v in f.items():
        if v is not None:
            o.append('  "%s" = "%s";' % (k, v))
    o.append("};")
    o.append(extra)
    return "\n".join(o) + "\n"
