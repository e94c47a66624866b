"""What a server believes about the whole network, as it tells a newly linked peer."""
import p10
from masks import lower


class View:
    def __init__(self):
        self.users = {}      # numnick -> dict
        self.chans = {}      # lower name -> dict
        self.servers = {}    # yy -> name
        self.extra = []

    def __eq__(self, o):
        return self.users == o.users and self.chans == o.chans

    def by_nick(self):
        return {lower(u["nick"]): u for u in self.users.values()}


def parse(msgs, own=None):
    """Interpret a net burst (list of PMsg up to EB)."""
    v = View()
    for m in msgs:
        if m.cmd == "SERVER":
            v.servers[m.args[5][:2]] = m.args[0]
        elif m.cmd == "S":
            v.servers[m.args[5][:2]] = m.args[0]
        elif m.cmd == "N":
            modes, margs = "", []
            mid = m.args[5:-3]
            if mid and mid[0].startswith("+"):
                modes, margs = mid[0][1:], mid[1:]
            acct = None
            k = 0
            for ch in modes:
                if ch in "rhfz" and k < len(margs) or ch == "r":
                    if ch == "r":
                        acct = margs[k].split(":")[0]
                        acct_full = margs[k]
                    if ch in "r":
                        k += 1
            v.users[m.args[-2]] = dict(nick=m.args[0], ts=int(m.args[2]), user=m.args[3], host=m.args[4], modes=frozenset(modes), acct=acct,
                                       ip=p10.ip_dec(m.args[-3]), info=m.args[-1], srv=m.src)
        elif m.cmd == "B":
            c = v.chans.setdefault(lower(m.args[0]), dict(name=m.args[0], ts=int(m.args[1]), modes=frozenset(), key="", limit=0, members={}, bans=frozenset(),
                                                          topic="", topicts=0))
            i = 2
            while i < len(m.args):
                a = m.args[i]
                if a[:1] == "+":
                    i += 1
                    s = set()
                    for ch in a[1:]:
                        if ch == "l":
                            c["limit"] = int(m.args[i])
                            i += 1
                        elif ch == "k":
                            c["key"] = m.args[i]
                            i += 1
                        elif ch in "AU":
                            i += 1
                        else:
                            s.add(ch)
                    c["modes"] |= s
                    continue
                if a[:1] == "%":
                    c["bans"] |= frozenset(x for x in a[1:].split(" ") if x)
                    i += 1
                    continue
                st = ""
                for x in a.split(","):
                    n, _, f = x.partition(":")
                    if f:
                        st = "".join(sorted({"o" if ch.isdigit() or ch == "o" else ch for ch in f}))
                    c["members"][n] = st
                i += 1
        elif m.cmd == "T":
            c = v.chans.get(lower(m.args[0]))
            if c is not None:
                c["topic"] = m.args[-1]
                c["topicts"] = int(m.args[-3]) if len(m.args) > 3 else 0
        elif m.cmd in ("GL", "JU"):
            v.extra.append((m.cmd,) + tuple(m.args))
    return v


def snapshot(net, i, name="fb.test.net", numeric=60, ip="10.200.0.2"):
    """Link a peer to server i, record the burst, unlink again."""
    s = net.servers[i]
    f = p10.FakeServer(s, name, numeric, ip)
    f.auto_ea = False
    net.settle([f])
    msgs = f.take()
    if not any(m.cmd == "EB" for m in msgs):
        import vsim
        raise vsim.Violation("view:no-burst", "server %d did not complete its burst: %r" % (i, msgs[-3:]))
    k = [m.cmd for m in msgs].index("EB")
    f.close()
    net.settle()
    return parse(msgs[:k + 1])


def differences(a, b, an="A", bn="B", chan_fields=("ts", "modes", "key", "limit", "members", "bans", "topic"),
                user_fields=("nick", "ts", "user", "host", "modes", "acct", "ip", "info")):
    out = []
    for n in sorted(set(a.users) | set(b.users)):
        x, y = a.users.get(n), b.users.get(n)
        if x is None or y is None:
            out.append("user %s (%s) known only to %s" % (n, (x or y)["nick"], an if y is None else bn))
            continue
        for k in user_fields:
            if x[k] != y[k]:
                out.append("user %s %s: %s=%r %s=%r" % (n, k, an, x[k], bn, y[k]))
    for n in sorted(set(a.chans) | set(b.chans)):
        x, y = a.chans.get(n), b.chans.get(n)
        if x is None or y is None:
            z = x or y
            if not z["members"]:
                continue
            out.append("channel %s known only to %s" % (z["name"], an if y is None else bn))
            continue
        if not x["members"] and not y["members"]:
            continue
        for k in chan_fields:
            if k == "who":
                if set(x["members"]) != set(y["members"]):
                    out.append("channel %s members: %s=%r %s=%r" % (n, an, sorted(x["members"]), bn, sorted(y["members"])))
                continue
            if x[k] != y[k]:
                out.append("channel %s %s: %s=%r %s=%r" % (n, k, an, x[k], bn, y[k]))
    return out


def merge(a, b, mask_covers):
    """Expected outcome of linking two components whose own views are a and b (no nick in both).
    Returns (users, chans); a channel maps to None where the protocol leaves the outcome open."""
    users = dict(a.users)
    users.update(b.users)
    chans = {}
    for n in set(a.chans) | set(b.chans):
        x, y = a.chans.get(n), b.chans.get(n)
        if x is None or y is None:
            z = x or y
            chans[n] = z if z["members"] else None
            continue
        if not x["members"] and not y["members"]:
            chans[n] = None
            continue
        ex, ey = not x["members"], not y["members"]
        if (ex or ey) and abs(x["ts"] - y["ts"]) <= 4:
            chans[n] = None
            continue
        if x["ts"] == y["ts"]:
            e = dict(name=x["name"], ts=x["ts"], modes=x["modes"] | y["modes"])
            if "s" in e["modes"]:
                e["modes"] -= {"p"}
            ks = [k for k in (x["key"], y["key"]) if k]
            e["key"] = min(ks, key=str.lower) if ks else ""
            ls = [l for l in (x["limit"], y["limit"]) if l]
            e["limit"] = min(ls) if ls else 0
            e["members"] = dict(x["members"])
            e["members"].update(y["members"])
            e["modes"] = frozenset(e["modes"])
            u = x["bans"] | y["bans"]
            e["bans"] = frozenset(m for m in u if not any(o != m and mask_covers(o, m) for o in u))
            if x["topicts"] == y["topicts"] and x["topic"] != y["topic"]:
                e["topic"] = None
            else:
                e["topic"] = (x if x["topicts"] >= y["topicts"] else y)["topic"]
            chans[n] = e
            continue
        old, new = (x, y) if x["ts"] < y["ts"] else (y, x)
        e = dict(old)
        e["members"] = dict(old["members"])
        nv = b if new is y else a
        for m in new["members"]:
            u = nv.users[m]
            kicked = (old["key"] and old["key"] != new["key"]) or ("i" in old["modes"] and "o" not in u["modes"]) or ("r" in old["modes"] and not u["acct"])
            if not kicked:
                e["members"][m] = ""
        chans[n] = e
    return users, chans


def merge_differences(got, users, chans, fields=("ts", "modes", "key", "limit", "members", "bans", "topic")):
    out = []
    for n in sorted(set(got.users) ^ set(users)):
        out.append("user %s %s" % ((got.users.get(n) or users.get(n))["nick"], "appeared" if n in got.users else "vanished"))
    for n, e in chans.items():
        if e is None:
            continue
        g = got.chans.get(n)
        if g is None:
            if e["members"]:
                out.append("channel %s vanished" % n)
            continue
        for k in fields:
            if e[k] is not None and g[k] != e[k]:
                out.append("channel %s %s: expected %r found %r" % (n, k, e[k], g[k]))
    return out
