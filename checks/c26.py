"""SILENCE lists"""
import mw, kit, vsim, model, masks
from model import Ban, apply_ban
from types import SimpleNamespace
PROPERTY = "C26"
RULE = ("random command sequences from several real clients on one to three real servers; every event every client receives is compared with "
        "the reference model; an evaluation is one command with all its observable effects; distinct counts (command, abstracted situation) pairs")
ASSUMPTIONS = mw.ASSUME
MUST_SEE = ["ops:silence", "ops:msg", "worlds:net", "numeric:511", "numeric:271", "relay:heard", "relay:silenced", "relay:told", "relay:stopped", "relay:release", "relay:relink"]
W = dict(silence=14, msg=26, mode=3, umode=1, account=2, invite=3, nick=4)


def plan(tier, seed):
    return mw.plan(tier, seed) + [{"seed": seed, "i": i, "kind": "relay"} for i in range(250 if tier == "quick" else 8000)]


class Relay:
    """What a neighbouring server is told about silences: it may stop messages its users send early, but only those the
    target's real list stops, and it is told about a silence when it forwards a message that runs into it."""
    def __init__(self, ctx):
        self.ctx, self.r = ctx, ctx.rng

    def silenced(self, x, lst):
        return model.Model.banned_by(None, x, lst)

    def mask(self):
        r = self.r
        x = r.choice(self.snd)
        a, b, c = x.nick, x.user, x.host
        return r.choice(["%s!*@*" % a, "*!%s@*" % b, "*!*@%s" % c, "%s!%s@%s" % (a, b, c), "*!*@*", "*!*@*.example", "%s*!*@*" % a[0], "*!*@%s" % x.ip, "*!*@10.%s.0.0/16" % x.ip.split(".")[1], "%s!*@*.example" % a,
                         "*!%s?@*" % b[:-1], "*!*@h%s*" % c[1], "%s!%s@*" % (a, b)])

    def take(self, lst, txt):
        """The documented effect of one update list on a silence list."""
        for mk in txt.split(","):
            add = mk[:1] != "-"
            mk = mk[1:] if mk[:1] in "+-" and mk else mk
            exc = mk[:1] == "~"
            b = Ban(masks.pretty_mask(mk[1:] if exc else mk), exc=exc)
            b.add, b.dele = add, not add
            apply_ban(lst, b)
        lst[:] = [b for b in lst if not (b.over or b.dele)]
        for b in lst:
            b.add = False

    def pull(self):
        kit.settle(self.s, [self.fa])
        out = []
        for m in self.fa.take():
            if m.cmd == "U":
                who = self.ours.get(m.src)
                if who is None or len(m.args) != 2:
                    self.ctx.fail("silence:relay", "malformed update to the neighbour: %r" % m)
                    continue
                if m.args[0] != "*" and m.args[0] not in self.fa.users:
                    self.ctx.fail("silence:relay", "update to the neighbour about an unknown sender: %r" % m)
                self.take(who.copy, m.args[1])
                out.append(m)
        return out

    def check(self):
        for u in self.us:
            for x in self.snd:
                self.ctx.ev()
                if self.silenced(x, u.copy) and not self.silenced(x, u.list):
                    self.ctx.fail("silence:relay", "the neighbour was told (in total) %r for %s, so it stops messages from %s!%s@%s, which the list %r does not silence" %
                                  ([("~" if b.exc else "") + b.s for b in u.copy], u.nick, x.nick, x.user, x.host, [("~" if b.exc else "") + b.s for b in u.list]))

    def run(self):
        r, ctx = self.r, self.ctx
        self.s = s = ctx.ircd(vsim.conf(ports=((6667, ""), (4400, "server=yes")), connects=['name="fa.test.net"; host="10.200.0.1"; password="testpass"; class="Server"; hub; autoconnect=no'],
                                        features={"MAXSILES": 25}))
        self.fa = fa = kit.peer(s)
        self.us, self.snd = [], []
        for i in range(2):
            c = kit.register(s, "u%d" % i, "10.50.0.%d" % (i + 1))
            self.us.append(SimpleNamespace(nick=c.nick, c=c, list=[], copy=[]))
        kit.settle(s, [fa])
        nn = {m.args[0]: m.args[-2] for m in fa.take() if m.cmd == "N" and len(m.args) > 5}
        self.ours = {}
        for u in self.us:
            u.nn = nn[u.nick]
            self.ours[u.nn] = u
        for i in range(r.randint(3, 5)):
            x = SimpleNamespace(nick="%s%d" % (r.choice("abc"), i), user=r.choice(["joe", "jim", "sue"]), host="h%d.%s" % (r.randint(1, 3), r.choice(["example", "other"])), ip="10.%d.0.%d" % (r.choice([7, 8]), i + 1), acct=None, rhost=None, hiddenflag=False)
            x.nn = fa.add_user(x.nick, user=x.user, host=x.host, ip=x.ip)
            self.snd.append(x)
        kit.settle(s, [fa])
        for k in range(r.randint(12, 40)):
            u = r.choice(self.us)
            if r.random() < .08:
                # the neighbour links anew: it knows nothing of silences set before
                ctx.count("relay:relink")
                fa.close()
                s.advance(3)
                kit.settle(s)
                self.fa = fa = kit.peer(s)
                for v in self.us:
                    v.copy = []
                for x in self.snd:
                    x.nn = fa.add_user(x.nick, user=x.user, host=x.host, ip=x.ip)
                kit.settle(s, [fa])
                fa.take()
            if r.random() < .4:
                txt = ",".join(r.choice(["+", "+", "+", "-", "+~", "+~", "-~", ""]) + self.mask() for _ in range(r.choice([1, 1, 2, 3])))
                ctx.log("%s SILENCE %s" % (u.nick, txt))
                told = [self.silenced(x, u.copy) for x in self.snd]
                u.c.send("SILENCE " + txt)
                s.advance(4)
                self.take(u.list, txt)
                self.pull()
                if any(a and not self.silenced(x, u.list) for a, x in zip(told, self.snd)):
                    ctx.count("relay:release")
            else:
                x = r.choice(self.snd)
                if self.silenced(x, u.copy):
                    ctx.count("relay:stopped")
                    self.check()
                    continue
                ctx.log("%s -> %s" % (x.nick, u.nick))
                u.c.take()
                w = r.choice("PO")
                fa.send("%s %s %s :text %d" % (x.nn, w, u.nn, k))
                got = self.pull()
                heard = any(m.cmd in ("PRIVMSG", "NOTICE") and m.args[-1] == "text %d" % k for m in u.c.take())
                want = not self.silenced(x, u.list)
                ctx.seen("relay %s %d %d" % (want, len(u.list), len(u.copy)))
                if heard != want:
                    ctx.fail("silence:relay", "message from %s!%s@%s to %s %s; list %r" % (x.nick, x.user, x.host, u.nick, "arrived" if heard else "was dropped", [("~" if b.exc else "") + b.s for b in u.list]))
                ctx.count("relay:heard" if want else "relay:silenced")
                if not want:
                    if not self.silenced(x, u.copy):
                        ctx.fail("silence:relay", "after a silenced message from %s!%s@%s the neighbour knows only %r (told now: %r); list %r" % (x.nick, x.user, x.host, [("~" if b.exc else "") + b.s for b in u.copy], got, [("~" if b.exc else "") + b.s for b in u.list]))
                    ctx.count("relay:told")
            self.check()


def run_case(ctx, p):
    if p["kind"] == "relay":
        return Relay(ctx).run()
    mw.case(ctx, p, W, {"silence", "msg"}, users=(2, 3, 4), netsilence=True)
