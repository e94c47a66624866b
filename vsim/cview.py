"""What one client can conclude about its channels from the lines the server sent it."""
from masks import lower

LISTED = "b"
WITH_ARG = "klAU"


class ChanView:
    def __init__(self, name):
        self.name = name
        self.members = {}
        self.modes, self.key, self.limit = set(), False, 0
        self.bans = set()
        self.topic = ""
        self.have_modes = self.have_bans = False
        self.names_done = False
        self.dirty = False       # delayed joins: membership is not visible


class ClientView:
    def __init__(self, nick):
        self.nick = nick
        self.chans = {}
        self.joined = []         # channels to query for their modes

    def feed(self, m):
        c = m.cmd
        a = m.args
        if c == "NICK":
            if lower(m.nick) == lower(self.nick):
                self.nick = a[0]
            for ch in self.chans.values():
                if lower(m.nick) in ch.members:
                    ch.members[lower(a[0])] = ch.members.pop(lower(m.nick))
        elif c == "JOIN":
            n = lower(a[0])
            if lower(m.nick) == lower(self.nick):
                # (a delayed join that is revealed is repeated to its user)
                if n not in self.chans:
                    self.chans[n] = ChanView(a[0])
                    self.joined.append(a[0])
            elif n in self.chans:
                self.chans[n].members.setdefault(lower(m.nick), set())
        elif c == "PART" or c == "KICK":
            n = lower(a[0])
            who = lower(m.nick if c == "PART" else a[1])
            if who == lower(self.nick):
                self.chans.pop(n, None)
            elif n in self.chans:
                self.chans[n].members.pop(who, None)
        elif c == "QUIT":
            for ch in self.chans.values():
                ch.members.pop(lower(m.nick), None)
        elif c == "353":
            ch = self.chans.get(lower(a[2]))
            if ch and not ch.names_done:
                for x in a[3].split():
                    s = set()
                    while x[:1] in "@+<":
                        if x[0] == "@":
                            s.add("o")
                            s.add("?")        # a single prefix is shown: voice unknown
                        elif x[0] == "+":
                            s.add("v")
                        x = x[1:]
                    ch.members[lower(x)] = s
        elif c == "366":
            ch = self.chans.get(lower(a[1]))
            if ch:
                ch.names_done = True
        elif c == "332":
            ch = self.chans.get(lower(a[1]))
            if ch:
                ch.topic = a[2]
        elif c == "TOPIC":
            ch = self.chans.get(lower(a[0]))
            if ch:
                ch.topic = a[1]
        elif c == "324":
            ch = self.chans.get(lower(a[1]))
            if ch:
                ch.modes, ch.key, ch.limit = set(), False, 0
                self.apply(ch, a[2], list(a[3:]))
                ch.have_modes = True
        elif c == "367":
            ch = self.chans.get(lower(a[1]))
            if ch:
                ch.bans.add(a[2])
        elif c == "368":
            ch = self.chans.get(lower(a[1]))
            if ch:
                ch.have_bans = True
        elif c == "MODE":
            ch = self.chans.get(lower(a[0]))
            if ch:
                self.apply(ch, a[1], list(a[2:]))

    def apply(self, ch, modes, args):
        add = True
        for x in modes:
            if x in "+-":
                add = x == "+"
            elif x in "ov":
                who = lower(args.pop(0))
                s = ch.members.get(who)
                if s is None:
                    # a member that was hidden by delayed join
                    s = ch.members.setdefault(who, set())
                (s.add if add else s.discard)(x)
                if x == "v":
                    s.discard("?")
            elif x == "b":
                b = args.pop(0)
                (ch.bans.add if add else ch.bans.discard)(b)
            elif x == "k":
                if args:
                    args.pop(0)
                ch.key = add
            elif x in "AU":
                if args:
                    args.pop(0)
            elif x == "l":
                if add:
                    ch.limit = int(args.pop(0))
                else:
                    ch.limit = 0
            else:
                (ch.modes.add if add else ch.modes.discard)(x)
                if x in "Dd":
                    ch.dirty = True

    def differences(self, view, numnick):
        """Compare with a server's own state (views.View)."""
        out = []
        mine = {n for n, c in view.chans.items() if numnick in c["members"]}
        if mine != set(self.chans):
            out.append("%s believes it is on %r, its server says %r" % (self.nick, sorted(self.chans), sorted(mine)))
        for n in sorted(mine & set(self.chans)):
            c, s = self.chans[n], view.chans[n]
            if c.names_done and not c.dirty:
                want = {lower(view.users[k]["nick"]): set(f) for k, f in s["members"].items() if k in view.users}
                for k, f in c.members.items():
                    if "?" in f and k in want:
                        f.discard("?")
                        f |= want[k] & {"v"}
                if want != c.members:
                    out.append("%s sees members of %s as %r, its server has %r" % (
                        self.nick, n, sorted((k, "".join(sorted(v))) for k, v in c.members.items() if want.get(k) != v),
                        sorted((k, "".join(sorted(v))) for k, v in want.items() if c.members.get(k) != v)))
            if c.have_modes:
                x, y = c.modes - {"d"}, set(s["modes"]) - {"d"}
                if (x, c.key, c.limit) != (y, bool(s["key"]), s["limit"]):
                    out.append("%s sees %s modes +%s key=%s limit=%d, its server has +%s key=%s limit=%d" % (
                        self.nick, n, "".join(sorted(x)), c.key, c.limit, "".join(sorted(y)), bool(s["key"]), s["limit"]))
            if c.have_bans and c.bans != set(s["bans"]):
                out.append("%s sees bans of %s as %r, its server has %r" % (self.nick, n, sorted(c.bans), sorted(s["bans"])))
            if c.topic != s["topic"]:
                out.append("%s sees topic of %s as %r, its server has %r" % (self.nick, n, c.topic, s["topic"]))
        return out
