"""Executable reference model of the user-visible behaviour of an ircu network.

exec(user, line) applies one client command and returns, for every user, the exact
ordered list of protocol events that user must observe, as tuples
(prefix, command, arg1, ...).  ANY as an argument matches anything.
The model is written from the protocol's documented semantics, not generated from
the server; it keeps no caches (bans, permissions and memberships are recomputed)."""
import masks
from masks import lower, match


class _Any:
    def __repr__(self):
        return "<any>"


ANY = _Any()


class AwayOf:
    """The away text of a user as known on the viewer's server: remote servers are only told when the user goes
    away, not when an away user changes the text."""
    def __init__(self, u):
        self.u = u


class PartText:
    """Other servers receive one PART line for all channels, with what is left of the comment after all of them."""
    def __init__(self, here):
        self.here = here
HIS = "*.undernet.org"
HIDDEN = "users.undernet.org"
FLAGS = [("p", "p"), ("s", "s"), ("m", "m"), ("t", "t"), ("i", "i"), ("n", "n"), ("r", "r"), ("D", "D"), ("R", "R"), ("c", "c"),
         ("C", "C"), ("u", "u"), ("M", "M"), ("Z", "Z"), ("l", "l")]
SIMPLE = "psmtinrDRcCuMZ"
NICKCH = set("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789[]{}|\\^_-`~")
UMODES = "owidgIRc"


class User:
    def __init__(self, uid, nick, user, host, ip, info, srv, local=True):
        self.uid, self.nick, self.user, self.rhost, self.ip, self.info, self.srv = uid, nick, user, host, ip, info, srv
        self.host = host
        self.local = local
        self.acct = None
        self.umodes = set()      # subset of letters
        self.hiddenflag = False  # +x
        self.caps = set()
        self.away = self.raway = None
        self.silence = []
        self.invited = []
        self.chans = []          # Chan objects, newest first
        self.oper = False        # global
        self.locop = False
        self.privs = set()
        self.nextnick = 0
        self.dead = False
        self.service = False     # +k
        self.last = 0            # last message (idle)
        self.signon = 0

    @property
    def mask(self):
        return "%s!%s@%s" % (self.nick, self.user, self.host)

    @property
    def anyoper(self):
        return self.oper or self.locop

    def __repr__(self):
        return "<U %s>" % self.nick


class Member:
    def __init__(self, u):
        self.u, self.op, self.voice, self.dj, self.parting = u, False, False, False, False


class Ban:
    def __init__(self, s, who="", when=0, exc=False):
        self.s, self.who, self.when, self.exc = s, who, when, exc
        k = s.rfind("@")
        self.nu, self.host = s[:k], s[k + 1:]
        self.net = masks.ipmask(self.host)
        self.add = self.dele = self.over = False


class Chan:
    def __init__(self, name, ts):
        self.name, self.ts = name, ts
        self.members = []       # newest first
        self.modes = set()      # simple letters plus 'd','z'
        self.key, self.limit = "", 0
        self.bans = []          # head first
        self.topic, self.topic_nick, self.topic_ts = "", "", 0
        self.invites = []

    local = property(lambda s: s.name[0] == "&")

    def member(self, u):
        for m in self.members:
            if m.u is u:
                return m
        return None


def bmatch(old, new):
    """True when old covers new."""
    if not old.exc and new.exc:
        return False
    if not (old.net and new.net):
        return masks.superset(old.s, new.s)
    if old.net[1] > new.net[1]:
        return False
    if not masks.superset(old.nu, new.nu):
        return False
    sh = 128 - old.net[1]
    if new.net[0] >> sh != old.net[0] >> sh:
        return False
    return masks.superset(old.s, new.s)


def apply_ban(lst, new):
    """Tentative change; returns True when it has an effect."""
    if new.add:
        for b in lst:
            if not b.dele and bmatch(b, new):
                return False
        for b in lst:
            if bmatch(new, b):
                b.over = b.dele = True
        lst.append(new)
        return True
    n = 0
    for b in lst:
        if bmatch(new, b):
            b.over = b.dele = True
            n += 1
    return n > 0


class Model:
    def __init__(self, now, feats=None):
        self.now = now
        self.f = dict(MAXCHANNELSPERUSER=20, MAXBANS=100, AVBANLEN=40, MAXSILES=25, CHANNELLEN=200, NICKLEN=12,
                      LOCAL_CHANNELS=True, ANNOUNCE_INVITES=False, TOPICLEN=160, HOST_HIDING=True, URLREG=ANY)
        self.f.update(feats or {})
        self.users = {}     # lower nick -> User
        self.chans = {}     # lower name -> Chan
        self.allusers = []
        self.hist = []      # (time, lower old nick, User)
        self.out = {}
        self.jupenicks = {"nickserv", "x{jup"}
        self.badchans = set()
        self.nogen = False
        self.covered = set()
        self.net_servers = None

    # ---------------------------------------------------------------- output
    def emit(self, u, prefix, cmd, *args):
        if u.local and not u.dead:
            if any(isinstance(a, AwayOf) for a in args):
                args = tuple((a.u.away if a.u.srv == u.srv else a.u.raway) if isinstance(a, AwayOf) else a for a in args)
            self.out.setdefault(u.uid, []).append((prefix, cmd) + args)

    def num(self, u, n, *args):
        self.covered.add(n)
        self.emit(u, u.srv, "%03d" % n, u.nick, *args)

    def to_chan(self, c, prefix, cmd, *args, skip=None, req=(), forbid=(), ops=False, voices=False, nodeaf=False, src=None):
        for m in c.members:
            u = m.u
            if u is skip or (ops and not m.op) or (voices and not m.op and not m.voice):
                continue
            if nodeaf and "d" in u.umodes:
                continue
            if req and not all(x in u.caps for x in req):
                continue
            if any(x in u.caps for x in forbid):
                continue
            if not self.visible(c, src, u):
                continue
            self.emit(u, prefix, cmd, *args)

    def visible(self, c, src, u):
        """Local channels exist per server."""
        return True

    def to_common(self, u, prefix, cmd, *args, one=None, req=(), forbid=(), only_local=False, only_remote=False):
        seen = set()
        for c in u.chans:
            me = c.member(u)
            if me.dj:
                continue
            for m in c.members:
                v = m.u
                if v is one or v.uid in seen or (only_local and v.srv != u.srv) or (only_remote and v.srv == u.srv):
                    continue
                if req and not all(x in v.caps for x in req):
                    continue
                if any(x in v.caps for x in forbid):
                    continue
                seen.add(v.uid)
                self.emit(v, prefix, cmd, *args)
        if u.local and u is not one and u.uid not in seen and not only_remote:
            if (not req or all(x in u.caps for x in req)) and not any(x in u.caps for x in forbid):
                self.emit(u, prefix, cmd, *args)

    # ---------------------------------------------------------------- lookups
    def find(self, nick):
        return self.users.get(lower(nick))

    def ckey(self, name, srv):
        return lower(name)

    def chan(self, name, u=None):
        return self.chans.get(lower(name))

    def chasing(self, u, nick):
        v = self.find(nick)
        if v:
            return v
        for t, n, w in reversed(self.hist):
            if n == lower(nick) and self.now - t < 30 and not w.dead:
                return w
            if n == lower(nick) and self.now - t < 30 and w.dead:
                continue
        self.num(u, 401, nick, ANY)
        return None

    def banned_by(self, u, bans):
        nu = "%s!%s" % (u.nick, u.user)
        alt = None
        if u.acct:
            alt = u.rhost if u.hiddenflag else "%s.%s" % (u.acct, HIDDEN)
        hit = False
        for b in bans:
            if hit and not b.exc:
                continue
            if not match(b.nu, nu):
                continue
            if not ((b.net and masks.ip_in(u.ip, b.net)) or match(b.host, u.host) or match(b.host, u.ip)
                    or (alt is not None and match(b.host, alt))):
                continue
            if b.exc:
                return False
            hit = True
        return hit

    def tls(self, u):
        return False

    def can_send(self, u, c, reveal=False):
        m = c.member(u)
        if m:
            if m.op or m.voice:
                return True
            if "m" in c.modes or (c.modes & {"M", "r"} and not u.acct) or ("Z" in c.modes and not self.tls(u)):
                return False
            if self.banned_by(u, c.bans):
                return False
            if reveal and m.dj:
                self.reveal(c, m)
            return True
        if c.modes & {"n", "m"}:
            return False
        if "Z" in c.modes and not self.tls(u):
            return False
        if c.modes & {"r", "M"} and not u.acct:
            return False
        return not self.banned_by(u, c.bans)

    def silenced(self, src, dst):
        return self.banned_by(src, dst.silence)

    def blocked_unauth(self, src, dst):
        return "R" in dst.umodes and src is not dst and not src.anyoper and not src.acct and not src.service

    def show_channel(self, u, c):
        return not (c.modes & {"s", "p"}) or c.member(u) is not None

    # ---------------------------------------------------------------- channel life
    def join_event(self, u, c, to=None):
        ext = (c.name, u.acct or "*", u.info)
        targets = [to] if to else [m.u for m in c.members if self.visible(c, u, m.u)]
        for v in targets:
            if "extended-join" in v.caps:
                self.emit(v, u.mask, "JOIN", *ext)
            else:
                self.emit(v, u.mask, "JOIN", c.name)

    def reveal(self, c, m):
        m.dj = False
        self.join_event(m.u, c)
        if m.u.away:
            self.to_chan(c, m.u.mask, "AWAY", AwayOf(m.u), req=("away-notify",))
        self.check_dj(c)

    def check_dj(self, c):
        if "d" in c.modes and not any(m.dj for m in c.members):
            c.modes.discard("d")
            self.to_chan(c, HIS, "MODE", c.name, "-d")

    def check_tls(self, c):
        if "z" in c.modes or "Z" in c.modes:
            sec = {self.tls(m.u) for m in c.members}
            if "Z" in c.modes and "z" not in c.modes and sec and sec != {True}:
                c.modes.add("z")
                self.to_chan(c, HIS, "MODE", c.name, "-Z+z")

    def add_member(self, u, c, op=False, dj=False):
        m = Member(u)
        m.op, m.dj = op, dj
        c.members.insert(0, m)
        u.chans.insert(0, c)
        self.check_tls(c)
        return m

    def drop_member(self, u, c):
        m = c.member(u)
        if not m:
            return
        c.members.remove(m)
        if m.dj:
            self.check_dj(c)
        u.chans.remove(c)
        self.check_tls(c)
        if not c.members:
            self.destroy(c)

    def destroy(self, c):
        for u in list(c.invites):
            self.del_invite(u, c)
        self.chans.pop(self.ckey(c.name, c.srv), None)

    def del_invite(self, u, c):
        if u in c.invites:
            c.invites.remove(u)
        if c in u.invited:
            u.invited.remove(c)

    def add_invite(self, u, c):
        self.del_invite(u, c)
        if len(u.invited) >= self.f["MAXCHANNELSPERUSER"]:
            self.del_invite(u, u.invited[0])
        c.invites.insert(0, u)
        u.invited.append(c)

    # ---------------------------------------------------------------- commands
    def exec(self, u, line):
        self.out = {}
        self.cur = u
        args = []
        s = line
        trail = None
        if " :" in s:
            s, _, trail = s.partition(" :")
        args = [x for x in s.split(" ") if x]
        cmd = args.pop(0).upper()
        if trail is not None:
            args.append(trail)
        getattr(self, "c_" + cmd.lower())(u, args)
        return self.out

    def need(self, u, cmd):
        self.num(u, 461, cmd, ANY)

    def need2(self, u, cmd, what):
        self.num(u, 461, cmd, what, ANY)

    def valid_chan(self, name):
        return name[:1] in ("#", "&") and not any(ord(ch) < 33 or ch in ",\x07\xa0" for ch in name)

    def c_join(self, u, a):
        if not a or not a[0]:
            return self.need(u, "JOIN")
        names = a[0].split(",")
        keys = a[1].split(",") if len(a) > 1 else []
        if "0" in names:
            k = len(names) - 1 - names[::-1].index("0")
            names = names[k + 1:]
            for c in list(u.chans):
                m = c.member(u)
                if m.dj:
                    self.emit(u, u.mask, "PART", c.name, "Left all channels")
                else:
                    self.to_chan(c, u.mask, "PART", c.name, "Left all channels", src=u)
                self.drop_member(u, c)
        ki = 0
        created = []
        for name in names:
            if not name:
                continue
            key = ""
            if ki < len(keys):
                key = keys[ki]
                ki += 1
            if not self.valid_chan(name):
                self.num(u, 403, name, ANY)
                continue
            if len(u.chans) >= self.f["MAXCHANNELSPERUSER"] and "chan_limit" not in u.privs:
                self.num(u, 405, name, ANY)
                break
            if lower(name) in self.badchans and not u.anyoper:
                self.num(u, 474, name, ANY)
                continue
            c = self.chan(name, u)
            if c is None:
                if (name[0] == "&" and not self.f["LOCAL_CHANNELS"]) or len(name) > min(200, self.f["CHANNELLEN"]):
                    self.num(u, 403, name, ANY)
                    continue
                c = Chan(name, self.now)
                self.chans[self.ckey(name, u.srv)] = c
                c.srv = u.srv
                self.create_hook(c, u)
                self.add_member(u, c, op=True)
                self.join_event(u, c)
                self.join_away(u, c, 1)
                if not c.local:
                    created.append(c)
            elif c.member(u):
                continue
            else:
                err = 0
                if c in u.invited:
                    pass
                elif "i" in c.modes:
                    err = 473
                elif c.limit and len(c.members) >= c.limit:
                    err = 471
                elif "r" in c.modes and not u.acct:
                    err = 477
                elif self.banned_by(u, c.bans):
                    err = 474
                elif c.key and key != c.key:
                    err = 475
                elif "Z" in c.modes and not self.tls(u):
                    err = 469
                if c.local and "walk_lchan" in u.privs and key == "OVERRIDE":
                    if not err and c.key != "OVERRIDE":
                        self.num(u, 516, c.name, ANY)
                        continue
                    err = 0
                if err:
                    if err == 477:
                        self.num(u, err, c.name, ANY)
                    else:
                        self.num(u, err, c.name, ANY)
                    continue
                if "D" in c.modes:
                    self.add_member(u, c, dj=True)
                    self.join_event(u, c, to=u)
                else:
                    self.add_member(u, c)
                    self.join_event(u, c)
                    self.join_away(u, c)
            self.del_invite(u, c)
            if c.topic:
                self.num(u, 332, c.name, c.topic)
                self.num(u, 333, c.name, c.topic_nick, str(c.topic_ts))
            self.names_reply(u, c, True)
            self.num(u, 366, c.name, ANY)
        for c in created:       # announced to the other servers in one go, after the joins
            self.join_away(u, c, 2)

    def create_hook(self, c, u):
        pass

    def join_away(self, u, c, where=0):
        if u.away:
            if where:
                return self.to_common(u, u.mask, "AWAY", AwayOf(u), one=u, req=("away-notify",), only_local=where == 1,
                                      only_remote=where == 2)
            self.to_common(u, u.mask, "AWAY", AwayOf(u), one=u, req=("away-notify",), only_local=c.local)

    def names_reply(self, u, c, all_, delayed=False):
        if not self.show_channel(u, c):
            return
        t = "=" if not (c.modes & {"s", "p"}) else "@" if "s" in c.modes else "*"
        items = set()
        for m in c.members:
            if not all_ and "i" in m.u.umodes:
                continue
            if m.dj and m.u is not u and not delayed:
                continue
            if (not m.dj or m.u is u) and delayed:
                continue
            n = ("@" if m.op else "+" if m.voice else "") + m.u.nick
            if "userhost-in-names" in u.caps:
                n += "!%s@%s" % (m.u.user, m.u.host)
            items.add(n)
        self.num(u, 355 if delayed else 353, t, c.name, frozenset(items))

    def c_names(self, u, a):
        delayed = False
        if a and a[0].lower() == "-d":
            delayed = True
            a = a[1:]
        if not a or not a[0]:
            self.num(u, 366, "*", ANY)
            return
        for n in a[0].split(","):
            c = self.chan(n, u)
            if not c:
                self.num(u, 366, n, ANY)
                continue
            if not self.show_channel(u, c):
                continue    # do_names sends nothing at all, not even the end marker
            self.names_reply(u, c, c.member(u) is not None, delayed)
            self.num(u, 366, c.name, ANY)

    def c_part(self, u, a):
        if not a or not a[0]:
            return self.need(u, "PART")
        comment = a[-1] if len(a) > 1 and a[-1] else None
        col = comment is not None and any(ch in comment for ch in "\x03\x1b")
        done = []
        for name in a[0].split(","):
            if not name:
                continue
            c = self.chan(name, u)
            if not c:
                self.num(u, 403, name, ANY)
                continue
            m = c.member(u)
            if not m:
                self.num(u, 442, c.name, ANY)
                continue
            if m.parting:
                continue
            supp = not self.can_send(u, c) or ("c" in c.modes and col) or "u" in c.modes or self.slined(comment, "part", u)
            m.parting = True
            if supp:
                comment = None
            args = (c.name, PartText(comment))
            if m.dj:
                self.emit(u, u.mask, "PART", *args)
            else:
                self.to_chan(c, u.mask, "PART", *args, src=u)
            if c.local:
                self.drop_member(u, c)
            else:
                done.append(c)
        # text suppressed for one channel is not sent for the following ones either
        for v in self.allusers:
            o = self.out.get(v.uid, [])
            for k, e in enumerate(o):
                if isinstance(e[-1], PartText):
                    t = e[-1].here if v.srv == u.srv else comment
                    o[k] = e[:-1] + (() if t is None else (t,))
        for c in done:
            self.drop_member(u, c)

    def slined(self, text, kind, u):
        return False

    def c_kick(self, u, a):
        if len(a) < 2 or not a[0]:
            return self.need(u, "KICK")
        name = a[0]
        c = self.chan(name, u)
        if not c:
            return self.num(u, 403, name, ANY)
        me = c.member(u)
        if not me or not me.op:
            return self.num(u, 482, name, ANY)
        v = self.chasing(u, a[1])
        if not v:
            return
        if v.service:
            return self.num(u, 484, v.nick, c.name, ANY)
        if c.local and "deop_lchan" in v.privs:
            return self.num(u, 498, v.nick, c.name, ANY)
        m = c.member(v)
        if not m:
            return self.num(u, 441, v.nick, c.name, ANY)
        comment = a[-1] if a[-1] else u.nick
        comment = self.trunc_kick(comment)
        if m.dj:
            self.emit(v, u.mask, "KICK", c.name, v.nick, comment)
            self.join_event(v, c, to=u)
            self.emit(u, u.mask, "KICK", c.name, v.nick, comment)
        else:
            self.to_chan(c, u.mask, "KICK", c.name, v.nick, comment, src=u)
        self.drop_member(v, c)

    def trunc_kick(self, s):
        return s

    def c_topic(self, u, a):
        if not a:
            return self.need(u, "TOPIC")
        topic = a[-1] if len(a) > 1 else None
        for name in a[0].split(","):
            if not name:
                continue
            c = self.chan(name, u) if name[0] in "#&+" else None
            if not c:
                self.num(u, 403, name, ANY)
                continue
            m = c.member(u)
            if (topic is not None or "s" in c.modes) and not m:
                self.num(u, 442, c.name, ANY)
                continue
            if topic is None:
                if not c.topic:
                    self.num(u, 331, c.name, ANY)
                else:
                    self.num(u, 332, c.name, c.topic)
                    self.num(u, 333, c.name, c.topic_nick, str(c.topic_ts))
            elif "t" in c.modes and not m.op:
                self.num(u, 482, c.name, ANY)
            elif not self.can_send(u, c, True):
                self.num(u, 404, c.name, ANY)
            else:
                new = lower(c.topic[:160]) != lower(topic[:160])
                c.topic = topic[:160]
                c.topic_nick = u.nick
                c.topic_ts = max(self.now, c.topic_ts)
                if new:
                    if m and m.dj:
                        self.reveal(c, m)
                    self.to_chan(c, u.mask, "TOPIC", c.name, c.topic, src=u)
                else:
                    self.emit(u, u.mask, "TOPIC", c.name, c.topic)

    def c_invite(self, u, a):
        if not a:
            for c in u.invited:
                self.num(u, 346, c.name)
            return self.num(u, 347, ANY)
        if len(a) < 2 or not a[1]:
            return self.need(u, "INVITE")
        v = self.find(a[0])
        if not v:
            return self.num(u, 401, a[0], ANY)
        if self.blocked_unauth(u, v):
            return self.num(u, 477, v.nick, ANY)
        if self.silenced(u, v):
            return
        c = self.chan(a[1], u) if self.valid_chan(a[1]) else None
        if not c:
            return self.num(u, 403, a[1], ANY)
        m = c.member(u)
        if not m:
            return self.num(u, 442, c.name, ANY)
        if c.member(v):
            return self.num(u, 443, v.nick, c.name, ANY)
        if not m.op:
            return self.num(u, 482, c.name, ANY)
        self.num(u, 341, v.nick, c.name)
        if v.away:
            self.num(u, 301, v.nick, AwayOf(v))
        if v.srv == u.srv or not c.local:
            self.add_invite(v, c)
            self.emit(v, u.mask, "INVITE", v.nick, c.name)
            self.invite_announce(u, v, c)

    def invite_announce(self, u, v, c):
        for m in c.members:
            w = m.u
            if w is u or not m.op:
                continue
            if w.srv not in self.path(u.srv, v.srv) and not self.f["ANNOUNCE_INVITES"]:
                continue    # only the servers the invitation passes through hear of it
            if "invite-notify" in w.caps:
                self.emit(w, u.mask, "INVITE", v.nick, c.name)
            elif self.f["ANNOUNCE_INVITES"]:
                self.emit(w, HIS, "345", c.name, v.nick, u.nick, ANY)

    def path(self, a, b):
        return {a, b}

    def text_block(self, c, t):
        if "c" in c.modes and any(ch in t for ch in "\x03\x1b"):
            return True
        if "C" in c.modes and lower(t[:8]) != lower("\x01ACTION ") and "\x01" in t:
            return True
        return False

    def msg(self, u, a, cmd):
        notice = cmd == "NOTICE"
        if not a or not a[0]:
            return self.num(u, 411, ANY)
        if len(a) < 2 or not a[-1]:
            return self.num(u, 412, ANY)
        text = a[-1]
        done = []
        for t in a[0].split(","):
            if not t or lower(t) in done:
                continue
            done.append(lower(t))
            if len(done) > 20:
                break
            if t[0] in "#&+":
                c = self.chan(t, u)
                if not c:
                    if not notice:
                        self.num(u, 403, t, ANY)
                    continue
                if not self.can_send(u, c):
                    if not notice:
                        self.num(u, 404, c.name, ANY)
                    continue
                if self.text_block(c, text):
                    self.num(u, 404, c.name, ANY)
                    continue
                if self.slined(text, "chan", u):
                    continue
                m = c.member(u)
                if m and m.dj:
                    self.reveal(c, m)
                self.to_chan(c, u.mask, cmd, c.name, text, skip=u, nodeaf=True, src=u)
                if "echo-message" in u.caps:
                    self.emit(u, u.mask, cmd, c.name, text)
            elif "@" in t:
                self.num(u, 401, t, ANY)
            else:
                v = self.find(t)
                if not v:
                    if not notice:
                        self.num(u, 401, t, ANY)
                    continue
                if self.blocked_unauth(u, v):
                    if not notice:
                        self.num(u, 477, v.nick, ANY)
                    continue
                if self.silenced(u, v):
                    continue
                if self.slined(text, "priv", u):
                    continue
                if "c" in v.umodes and u is not v and not u.anyoper and not u.service and not self.common(u, v):
                    continue
                if not notice and v.away:
                    self.num(u, 301, v.nick, AwayOf(v))
                self.emit(v, u.mask, cmd, v.nick, text)
                if "echo-message" in u.caps:
                    self.emit(u, u.mask, cmd, v.nick, text)

    def common(self, u, v):
        return any(not c.member(u).dj and c.member(v) for c in u.chans)

    def c_privmsg(self, u, a):
        self.msg(u, a, "PRIVMSG")

    def c_notice(self, u, a):
        # NOTICE @#chan is an alias for WALLCHOPS
        self.msg(u, a, "NOTICE")

    def whisper(self, u, a, cmd):
        notice = cmd == "CNOTICE"
        if len(a) < 3 or not a[2]:
            return self.need(u, cmd)
        v = self.find(a[0])
        if not v:
            return self.num(u, 401, a[0], ANY)
        c = self.chan(a[1], u)
        if not c:
            return self.num(u, 403, a[1], ANY)
        m = c.member(u)
        if not m:
            return self.num(u, 442, c.name, ANY)
        if not (m.op or m.voice):
            return self.num(u, 489, c.name, ANY)
        if not c.member(v):
            return self.num(u, 441, v.nick, c.name, ANY)
        if self.blocked_unauth(u, v):
            if not notice:
                self.num(u, 477, v.nick, ANY)
            return
        if self.silenced(u, v):
            return
        if not notice and v.away:
            self.num(u, 301, v.nick, AwayOf(v))
        self.emit(v, u.mask, "NOTICE" if notice else "PRIVMSG", v.nick, a[2])

    def c_cprivmsg(self, u, a):
        self.whisper(u, a, "CPRIVMSG")

    def c_cnotice(self, u, a):
        self.whisper(u, a, "CNOTICE")

    def wallch(self, u, a, ops):
        cmd = "WALLCHOPS" if ops else "WALLVOICES"
        if not a or not a[0]:
            return self.num(u, 411, ANY)
        if len(a) < 2 or not a[-1]:
            return self.num(u, 412, ANY)
        c = self.chan(a[0], u) if a[0][0] in "#&+" else None
        if not c:
            return self.num(u, 403, a[0], ANY)
        if not self.can_send(u, c):
            return self.num(u, 404, a[0], ANY)
        self.wall_deliver(u, c, a[-1], ops)
        if "echo-message" in u.caps:
            self.emit(u, u.mask, "NOTICE", "@" + c.name, ("@ " if ops else "+ ") + a[-1])

    def wall_deliver(self, u, c, text, ops):
        m = c.member(u)
        if m and m.dj:
            self.reveal(c, m)
        mark = "@" if ops else "+"
        self.to_chan(c, u.mask, "NOTICE", "@" + c.name, mark + " " + text, skip=u, ops=ops, voices=not ops, nodeaf=True, src=u)

    def c_wallchops(self, u, a):
        self.wallch(u, a, True)

    def c_wallvoices(self, u, a):
        self.wallch(u, a, False)

    # ---- nick, away, quit
    def norm_nick(self, n):
        n = n[:min(15, self.f["NICKLEN"])]
        n = n.split("~")[0]
        raw = n
        if not n or n[0] in "-0123456789":
            return raw, None
        out = ""
        for ch in n:
            if ch not in NICKCH or ch == "~":
                break
            out += ch
        return raw, out or None

    def c_nick(self, u, a):
        if not a:
            return self.num(u, 431, ANY)
        raw, n = self.norm_nick(a[0])
        if not n:
            return self.num(u, 432, raw, ANY)
        if lower(n) in self.jupenicks:
            return self.num(u, 433, n, ANY)
        v = self.find(n)
        if v is not None and v is not u:
            return self.num(u, 433, n, ANY)
        if v is u and n == u.nick:
            return
        for c in u.chans:
            m = c.member(u)
            if m.op or m.voice:
                continue
            if "m" in c.modes or (c.modes & {"M", "r"} and not u.acct) or self.banned_by(u, c.bans):
                return self.num(u, 437, c.name, ANY)
        if self.now < u.nextnick:
            u.nextnick += 2
            self.num(u, 438, raw, str(u.nextnick - self.now) if False else ANY)
            self.emit(u, u.mask, "NICK", u.nick)
            return
        u.nextnick += 30
        if u.nextnick < self.now:
            u.nextnick = self.now
        self.to_common(u, u.mask, "NICK", n)
        self.hist.append((self.now, lower(u.nick), u))
        del self.users[lower(u.nick)]
        u.nick = n
        self.users[lower(n)] = u

    def c_away(self, u, a):
        was = u.away
        text = a[0] if a else ""
        if text:
            u.away = text[:160]
            if not was:
                u.raway = u.away
                self.to_common(u, u.mask, "AWAY", u.away, one=u, req=("away-notify",))
            self.num(u, 306, ANY)
        else:
            u.away = None
            self.to_common(u, u.mask, "AWAY", one=u, req=("away-notify",), only_local=not was)
            self.num(u, 305, ANY)

    def c_quit(self, u, a):
        reason = None
        for c in u.chans:
            if not c.member(u).dj and (not self.can_send(u, c) or "u" in c.modes):
                reason = "Signed off"
        if reason is None:
            reason = "Quit: " + a[-1] if a and a[-1] else "Quit"
        self.remove(u, reason)
        self.emit_close(u, reason)

    def emit_close(self, u, reason):
        pass

    def remove(self, u, reason):
        """The client leaves the network: exactly one QUIT to everyone who shares a visible channel."""
        self.to_common(u, u.mask, "QUIT", reason, one=u)
        u.dead = True
        self.hist.append((self.now, lower(u.nick), u))
        del self.users[lower(u.nick)]
        for c in list(u.chans):
            self.drop_member(u, c)
        for c in list(u.invited):
            self.del_invite(u, c)

    # ---- user modes
    def c_mode(self, u, a):
        if not a:
            return self.need(u, "MODE")
        c = self.chan(a[0], u) if a[0][:1] in ("#", "&", "+") else None
        if not c:
            v = self.find(a[0])
            if not v:
                return self.num(u, 403, a[0], ANY)
            if v is not u:
                return self.num(u, 502, ANY)
            return self.umode(u, a[1:])
        m = c.member(u)
        if len(a) < 2:
            s, p = self.modestr(c, u)
            self.num(u, 324, c.name, s, *p)
            self.num(u, 329, c.name, str(c.ts))
            return
        if not m or not m.op:
            if c.local and "mode_lchan" in u.privs:
                return ModeChange(self, u, c, a[1:], m, force=True).run()
            return ModeChange(self, u, c, a[1:], m, deny=482 if m else 442).run()
        ModeChange(self, u, c, a[1:], m).run()

    def modestr(self, c, u):
        m = c.member(u)
        s = "+"
        s += "s" if "s" in c.modes else "p" if "p" in c.modes else ""
        for ch in "mtinr":
            if ch in c.modes:
                s += ch
        if "D" in c.modes:
            s += "D"
        elif "d" in c.modes:
            s += "d"
        for ch in "RcCuM":
            if ch in c.modes:
                s += ch
        if "z" in c.modes:
            s += "z"
        elif "Z" in c.modes:
            s += "Z"
        p = []
        if c.limit:
            s += "l"
            p.append(str(c.limit))
        if c.key:
            s += "k"
            p.append(c.key if m and m.op else "*")
        return s, p

    def flagset(self, u):
        f = set(u.umodes)
        if u.hiddenflag:
            f.add("x")
        if u.oper:
            f.add("o")
        if u.locop:
            f.add("O")
        if u.service:
            f.add("k")
        return f

    UORDER = "oOiwskgxdRrzIc"

    def umode(self, u, a):
        if not a:
            s = "+" + "".join(ch for ch in "oOiwskdgxzRIc" if ch in self.flagset(u))
            # the order of the letters is presentation only
            return self.num(u, 221, frozenset(s[1:]))
        old = self.flagset(u)
        f = set(old)
        what = True
        dox = False
        i = 0
        while i < len(a):
            for ch in a[i]:
                if ch == "+":
                    what = True
                elif ch == "-":
                    what = False
                elif ch in "widRIcg":
                    (f.add if what else f.discard)(ch)
                elif ch == "s":
                    (f.add if what else f.discard)(ch)
                elif ch in "oO":
                    if what:
                        f.add(ch)
                    else:
                        f -= {"o", "O"}
                elif ch == "k":
                    (f.add if what else f.discard)(ch)
                elif ch == "x":
                    if what:
                        dox = True
                elif ch == "z":
                    pass
                else:
                    self.num(u, 501, ch, ANY)
            i += 1
        for ch in "oO":
            if ch not in old:
                f.discard(ch)
        if "k" not in old:
            f.discard("k")
        if "w" not in old and not f & {"o", "O"} and self.f.get("WALLOPS_OPER_ONLY", False):
            f.discard("w")
        if "s" not in old and not f & {"o", "O"}:
            f.discard("s")      # HIS_SNOTICES_OPER_ONLY default
        if "g" not in old and not f & {"o", "O"}:
            f.discard("g")      # HIS_DEBUG_OPER_ONLY default
        u.oper, u.locop, u.service = "o" in f, "O" in f, "k" in f
        if not u.oper and not u.locop:
            u.privs = set()
        u.umodes = f & set("widRIcgs")
        if dox and not u.hiddenflag:
            self.hide(u, x=True)
        new = self.flagset(u)
        if new != old:
            self.emit(u, u.mask, "MODE", u.nick, ("UM", frozenset(new - old), frozenset(old - new)))

    def hide(self, u, x=False, acct=None):
        if x:
            if not self.f["HOST_HIDING"]:
                return
            u.hiddenflag = True
        if acct:
            u.acct = acct
        if not (u.hiddenflag and u.acct):
            return
        newhost = "%s.%s" % (u.acct, HIDDEN)
        oldmask = u.mask
        self.to_common(u, oldmask, "QUIT", "Registered", one=u, forbid=("chghost",))
        self.to_common(u, oldmask, "CHGHOST", u.user, newhost, req=("chghost",))
        u.host = newhost
        if "chghost" not in u.caps:
            self.num(u, 396, u.host, ANY)
        for c in u.chans:
            m = c.member(u)
            if not m.dj:
                for w in [k.u for k in c.members]:
                    if "chghost" in w.caps:
                        continue
                    self.join_event(u, c, to=w)
                if u.away:
                    self.to_chan(c, u.mask, "AWAY", AwayOf(u), req=("away-notify",), forbid=("chghost",))
            if m.op and m.voice:
                self.to_chan(c, HIS, "MODE", c.name, "+ov", u.nick, u.nick, skip=u, forbid=("chghost",))
            elif m.op or m.voice:
                self.to_chan(c, HIS, "MODE", c.name, "+o" if m.op else "+v", u.nick, skip=u, forbid=("chghost",))

    def set_account(self, u, acct):
        """Services logged the user in."""
        self.out = {}
        self.to_common(u, u.mask, "ACCOUNT", acct, req=("account-notify",)) if self.acct_notify_first else None
        self.hide(u, acct=acct)
        return self.out

    acct_notify_first = True

    # ---- silence
    def c_silence(self, u, a):
        v = u
        if not a or not a[0] or self.find(a[0]):
            v = self.find(a[0]) if a and a[0] else u
            if v is u:
                for b in v.silence:
                    self.num(u, 271, v.nick, ("~" if b.exc else "") + b.s)
            return self.num(u, 272, v.nick, ANY)
        acc = []
        for mk in a[0].split(","):
            if not mk:
                continue
            add = True
            if mk[0] in "+-":
                add = mk[0] == "+"
                mk = mk[1:]
            exc = False
            if mk[:1] == "~":
                exc, mk = True, mk[1:]
            b = Ban(masks.pretty_mask(mk), exc=exc)
            b.add, b.dele = add, not add
            if b.net and b.net[1] > 0 and b.net[1] < (112 if b.net[0] >> 32 == 0xffff else 32):
                self.num(u, 520, mk, ANY)
                continue
            if len(acc) < 15 and apply_ban(u.silence, b):
                acc.append(b)
        n = sum(1 for b in u.silence if not (b.over or b.add or b.dele))
        tot = sum(len(b.s) for b in u.silence if not (b.over or b.add or b.dele))
        for b in acc:
            if b.over or b.dele:
                continue
            if n >= self.f["MAXSILES"] or tot + len(b.s) >= self.f["MAXSILES"] * self.f["AVBANLEN"]:
                self.num(u, 511, b.s, ANY)
                if b in u.silence:
                    u.silence.remove(b)
                continue
            n += 1
            tot += len(b.s)
        ev = []
        for b in u.silence:
            if b.over or b.dele:
                ev.append("-" + ("~" if b.exc else "") + b.s)
            elif b.add:
                ev.append("+" + ("~" if b.exc else "") + b.s)
        if ev:
            self.emit(u, u.mask, "SILENCE", ",".join(ev))
        u.silence = [b for b in u.silence if not (b.over or b.dele)]
        for b in u.silence:
            b.add = False

    # ---- queries
    def c_ison(self, u, a):
        if not a:
            return self.need(u, "ISON")
        got = []
        for x in a:
            for n in x.split(" "):
                v = self.find(n) if n else None
                if v:
                    got.append(v.nick)
        self.num(u, 303, tuple(got))

    def c_userhost(self, u, a):
        if not a:
            return self.need(u, "USERHOST")
        got = []
        for n in (a[0].split(" ") if len(a) == 1 else a)[:5]:
            v = self.find(n)
            if v:
                got.append("%s%s=%s%s@%s" % (v.nick, "*" if self.seeoper(u, v) else "", "-" if v.away else "+", v.user,
                                             v.rhost if u is v else v.host))
        self.num(u, 302, tuple(got))

    def seeoper(self, u, v):
        return v.anyoper and (u.anyoper or True)

    def c_whois(self, u, a):
        if not a:
            return self.num(u, 431, ANY)
        v = self.find(a[0])
        if not v:
            self.num(u, 401, a[0], ANY)
            return self.num(u, 318, a[0], ANY)
        self.num(u, 311, v.nick, v.user, v.host, "*", v.info)
        chans = set()
        for c in v.chans:
            m = c.member(v)
            if not (self.show_channel(u, c) or u is v):
                if not self.oper_sees(u, c):
                    continue
            if c.local and c.srv != u.srv:
                continue
            if c.local and v is not u and not u.anyoper:
                continue      # FEAT_HIS_WHOIS_LOCALCHAN
            fl = "-" if "d" in v.umodes else ""
            if not self.show_channel(u, c):
                fl += "*"
            if m.dj and u is not v:
                fl += "<"
            elif m.op:
                fl += "@"
            elif m.voice:
                fl += "+"
            chans.add(fl + c.name)
        if v.service:
            chans = set()
        if chans:
            self.num(u, 319, v.nick, frozenset(chans))
        self.num(u, 312, v.nick, v.srv if (u.anyoper or u is v) else HIS, ANY)
        if v.away:
            self.num(u, 301, v.nick, AwayOf(v))
        if self.seeoper(u, v):
            self.num(u, 313, v.nick, ANY)
        if v.acct:
            self.num(u, 330, v.nick, v.acct, ANY)
        if v.hiddenflag and v.acct and (u.anyoper or u is v):
            self.num(u, 338, v.nick, "%s@%s" % (v.user, v.rhost), v.ip, ANY)
        if v.srv == u.srv and (u is v or u.anyoper):
            self.num(u, 317, v.nick, ANY, str(v.signon), ANY)
        self.num(u, 318, a[0], ANY)

    def oper_sees(self, u, c):
        return u.oper and c.local


class ModeChange:
    """One MODE command on a channel."""
    def __init__(self, M, u, c, args, me, deny=0, force=False):
        self.M, self.u, self.c, self.args, self.me, self.deny, self.force = M, u, c, list(args), me, deny, force
        self.buf = []           # (add, kind, value)
        self.badd, self.bdel = set(), set()

    def denied(self):
        if self.deny:
            if not self.notoper:
                self.M.num(self.u, self.deny, self.c.name, ANY)
                self.notoper = True
            return True
        return False

    def run(self):
        M, u, c = self.M, self.u, self.c
        a = self.args
        self.notoper = False
        adds, dels = set(), set()
        donelimit = keyadd = keydel = donelist = False
        newbans, changes = [], {}
        left = 6
        direction = True
        i = 0
        modestr = a[0]
        i = 1
        banclean = False
        while True:
            for ch in modestr:
                if ch in "+-":
                    direction = ch == "+"
                elif ch == "l":
                    if direction:
                        if left <= 0:
                            continue
                        if i >= len(a):
                            M.need2(u, "MODE", "+l")
                            continue
                        v = cnum(a[i])
                        i += 1
                        left -= 1
                        if v >= 2 ** 31:
                            continue
                        if not v or v == c.limit:
                            continue
                    else:
                        v = c.limit
                    if self.denied():
                        continue
                    if not direction and not c.limit:
                        continue
                    if donelimit:
                        continue
                    donelimit = True
                    self.push(direction, "l", v)
                    c.limit = v if direction else 0
                elif ch == "k":
                    if left <= 0:
                        continue
                    if i >= len(a):
                        M.need2(u, "MODE", "+k" if direction else "-k")
                        continue
                    k = a[i]
                    i += 1
                    left -= 1
                    if self.denied():
                        continue
                    if direction:
                        if keyadd:
                            continue
                        keyadd = True
                    else:
                        if keyadd or keydel:
                            continue
                        keydel = True
                    if not k:
                        M.need2(u, "MODE", "+k" if direction else "-k")
                        continue
                    if k[0] == ":" or len(k) > 23 or any(ord(x) <= 32 or x == "," for x in k):
                        M.num(u, 525, c.name, ANY)
                        continue
                    if not self.force and ((direction and c.key) or (not direction and lower(c.key) != lower(k))):
                        M.num(u, 467, c.name, ANY)
                        continue
                    if direction and lower(c.key) == lower(k):
                        continue
                    self.push(direction, "k", k)
                    c.key = k if direction else ""
                elif ch in "AU":
                    pass        # FEAT_OPLEVELS is off in the modelled configuration
                elif ch == "b":
                    if i >= len(a):
                        if not donelist:
                            for b in c.bans:
                                if not b.add:
                                    M.num(u, 367, c.name, b.s, b.who, str(b.when))
                                else:
                                    M.num(u, 367, c.name, b.s, b.who, str(b.when))
                            M.num(u, 368, c.name, ANY)
                            donelist = True
                        continue
                    if left <= 0:
                        continue
                    t = a[i]
                    i += 1
                    left -= 1
                    if self.denied():
                        continue
                    t = t.split(" ")[0]
                    if not t or t[0] == ":":
                        M.need2(u, "MODE", "+b" if direction else "-b")
                        continue
                    if not banclean:
                        for b in c.bans:
                            b.add = b.dele = b.over = False
                        banclean = True
                    b = Ban(masks.collapse(masks.pretty_mask(t)), u.nick, M.now)
                    b.add, b.dele = direction, not direction
                    apply_ban(c.bans, b)
                elif ch in "ov":
                    if left <= 0 or i >= len(a):
                        continue
                    t = a[i]
                    i += 1
                    left -= 1
                    if self.denied():
                        continue
                    t = t.split(":")[0]
                    v = M.chasing(u, t)
                    if not v:
                        continue
                    key = (v.uid, ch)
                    changes[key] = (direction, v, ch) if key not in changes else (direction, v, ch)
                elif ch in SIMPLE:
                    if self.denied():
                        continue
                    if ch == "R" and not self.force:
                        continue
                    if direction:
                        adds.add(ch)
                        dels.discard(ch)
                        if ch == "s":
                            adds.discard("p")
                            dels.add("p")
                        elif ch == "p":
                            adds.discard("s")
                            dels.add("s")
                    else:
                        adds.discard(ch)
                        dels.add(ch)
                else:
                    M.num(u, 472, ch, ANY)
            if i < len(a):
                if left <= 0:
                    break
                modestr = a[i]
                i += 1
                continue
            break
        if self.deny:
            return
        rem = dels & c.modes
        add = adds - c.modes
        wasi = "i" in c.modes
        self.bdel |= rem
        self.badd |= add
        c.modes = (c.modes - rem) | add
        if wasi and "i" not in c.modes:
            for w in list(c.invites):
                M.del_invite(w, c)
        if banclean:
            self.process_bans()
        for (uid, ch), (d, v, _) in changes.items():
            m = c.member(v)
            if not m:
                M.num(u, 441, v.nick, c.name, ANY)
                continue
            has = m.op if ch == "o" else m.voice
            if has == d:
                continue
            if not d and ch == "o":
                if v.service and not self.force:
                    M.num(u, 484, v.nick, c.name, ANY)
                    continue
                if v is not u and c.local and "deop_lchan" in v.privs:
                    M.num(u, 498, v.nick, c.name, ANY)
                    continue
            if d and m.dj:
                M.reveal(c, m)
            if ch == "o":
                m.op = d
            else:
                m.voice = d
            self.push(d, ch, v)
        self.flush(True)

    def process_bans(self):
        M, u, c = self.M, self.u, self.c
        old = c.bans
        keep = []
        count = length = 0
        fresh = []
        for b in old:
            count += 1
            length += len(b.s)
            if b.add and b.dele:
                count -= 1
                length -= len(b.s)
            elif b.dele:
                self.push(False, "b", b.s)
                count -= 1
                length -= len(b.s)
            elif b.add:
                if length > M.f["AVBANLEN"] * M.f["MAXBANS"] or count > M.f["MAXBANS"]:
                    M.num(u, 478, c.name, b.s, ANY)
                    count -= 1
                    length -= len(b.s)
                else:
                    self.push(True, "b", b.s)
                    nb = Ban(b.s, b.who, b.when)
                    fresh.insert(0, nb)
            else:
                keep.append(b)
        c.bans = fresh + keep

    def push(self, add, kind, val):
        if kind == "l" and not add:
            self.bdel.add("l")
            return
        self.buf.append((add, kind, val))
        if len(self.buf) >= 6:
            self.flush(False)

    def flush(self, all_):
        M, c = self.M, self.c
        if not self.buf and not self.badd and not self.bdel:
            return
        add, rem = self.badd, self.bdel
        ladd, lrem = set(), set()
        if "D" in rem and not (c.modes & {"D", "d"}) and any(m.dj for m in c.members):
            c.modes.add("d")
            ladd.add("d")
        if "D" in add and "d" in c.modes:
            c.modes.discard("d")
            lrem.add("d")
        if "Z" in add and any(not M.tls(m.u) for m in c.members):
            c.modes |= {"z", "Z"}
            ladd.add("z")
            add = add - {"Z"}
        if "Z" in rem and "z" in c.modes:
            c.modes -= {"z", "Z"}
            rem = rem - {"Z"}
            lrem.add("z")
        sa = "".join(ch for ch, _ in FLAGS if ch in add)
        sr = "".join(ch for ch, _ in FLAGS if ch in rem)
        aa, ra, saved = [], [], []
        room = 512 - 200
        for d, k, v in self.buf:
            s = v.nick if k in "ov" else str(v)
            n = max(9, len(s)) if k in "ov" else len(s)
            if room - n <= 0:
                saved.append((d, k, v))
                continue
            room -= n + 1
            if d:
                sa += k
                aa.append(s)
            else:
                sr += k
                if k != "l":
                    ra.append(s)
        sr += "".join(x for x in "dz" if x in lrem)
        sa += "".join(x for x in "dz" if x in ladd)
        if sa or sr:
            M.to_chan(c, self.u.mask, "MODE", c.name, ("-" + sr if sr else "") + ("+" + sa if sa else ""), *(ra + aa), src=self.u)
        self.badd, self.bdel, self.buf = set(), set(), saved
        if all_ and saved:
            self.flush(True)


def cnum(s):
    """strtoul(s, 0, 10) truncated to 32 bits."""
    s = s.strip(" \t\n\v\f\r")
    neg = False
    if s[:1] in ("+", "-"):
        neg = s[0] == "-"
        s = s[1:]
    d = ""
    for ch in s:
        if ch not in "0123456789":
            break
        d += ch
    v = min(int(d or "0"), 2 ** 64 - 1)
    if neg:
        v = -v
    return v & 0xffffffff


# -------------------------------------------------------------------- comparison
def normalise(m, me):
    """A received Msg as a tuple comparable with expectations."""
    pfx = m.prefix
    a = list(m.args)
    if m.cmd in ("353", "355"):
        return (pfx, m.cmd, a[0], a[1], a[2], frozenset(x for x in a[3].split(" ") if x))
    if m.cmd == "319":
        return (pfx, m.cmd, a[0], a[1], frozenset(x for x in a[2].split(" ") if x))
    if m.cmd == "303":
        return (pfx, m.cmd, a[0], tuple(x for x in a[1].split(" ") if x))
    if m.cmd == "302":
        return (pfx, m.cmd, a[0], tuple(x for x in a[1].split(" ") if x))
    if m.cmd == "221":
        return (pfx, m.cmd, a[0], frozenset(a[1].lstrip("+")))
    if m.cmd == "324":
        return (pfx, m.cmd) + tuple(x for x in a if x != "")
    if m.cmd == "MODE" and a and a[0][:1] not in "#&+":
        add, rem, d = set(), set(), True
        for ch in a[1]:
            if ch in "+-":
                d = ch == "+"
            else:
                (add if d else rem).add(ch)
        return (pfx, m.cmd, a[0], ("UM", frozenset(add), frozenset(rem)))
    return (pfx, m.cmd) + tuple(a)


def merge_names(evs):
    out = []
    for e in evs:
        if out and e[1] in ("353", "355", "319") and out[-1][1] == e[1] and out[-1][:-1] == e[:-1]:
            out[-1] = e[:-1] + (out[-1][-1] | e[-1],)
        else:
            out.append(e)
    return out


def same(exp, got):
    if len(exp) != len(got):
        return False
    return all(x is ANY or x == y for x, y in zip(exp, got))


def diff(expected, received):
    """None when the two sequences agree, else a description."""
    for i in range(max(len(expected), len(received))):
        e = expected[i] if i < len(expected) else None
        g = received[i] if i < len(received) else None
        if e is None:
            return "unexpected event %r" % (g,)
        if g is None:
            return "missing event %r" % (e,)
        if not same(e, g):
            return "expected %r, observed %r" % (e, g)
    return None


def changes(a):
    """(+/-, letter, argument) of a MODE line."""
    out, add, args = [], True, list(a[1:])
    for ch in a[0]:
        if ch in "+-":
            add = ch == "+"
        elif ch in "ovbkAU" or ch == "l" and add:
            out.append(("+" if add else "-", ch, args.pop(0) if args else ""))
        else:
            out.append(("+" if add else "-", ch, ""))
    return out


def join_modes(evs):
    """Consecutive MODE lines about one channel as one event, whatever way they were split over lines."""
    out = []
    for e in evs:
        if e[1] == "MODE" and isinstance(e[2], str) and e[2][:1] in "#&":
            ch = changes([x for x in e[3:] if isinstance(x, str)])
            if out and out[-1][:3] == e[:3] and len(out[-1]) == 4 and isinstance(out[-1][3], tuple):
                out[-1] = e[:3] + (tuple(sorted(out[-1][3] + tuple(ch))),)
            else:
                out.append(e[:3] + (tuple(sorted(ch)),))
        else:
            out.append(e)
    return out


def same_per_channel(expected, received):
    def split(evs):
        d = {}
        for e in evs:
            k = lower(e[2]) if len(e) > 2 and isinstance(e[2], str) and e[2][:1] in ("#", "&") else ""
            d.setdefault(k, []).append(e)
        return d
    a, b = split(expected), split(received)
    return a.keys() == b.keys() and all(diff(a[k], b[k]) is None for k in a)
