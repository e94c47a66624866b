"""Independent reference semantics for hostmask patterns, ban masks and IP masks."""
import ipaddress

_L = {i: i for i in range(256)}
for _i in range(ord("A"), ord("Z") + 1):
    _L[_i] = _i + 32
for _a, _b in zip("[]\\^", "{}|~"):
    _L[ord(_a)] = ord(_b)
for _i in list(range(0xC0, 0xD7)) + list(range(0xD8, 0xDF)):
    _L[_i] = _i + 32
LOWER = "".join(chr(_L[i]) for i in range(256))


def lower(s):
    """RFC1459/Latin-1 case folding as documented by CASEMAPPING=rfc1459."""
    return s.translate(_TR)


_TR = {i: LOWER[i] for i in range(256)}


def tokens(mask):
    """Pattern as a list of ('*',), ('?',) or ('c', ch)."""
    out, i = [], 0
    while i < len(mask):
        c = mask[i]
        if c == "\\" and i + 1 < len(mask) and mask[i + 1] in "*?":
            out.append(("c", mask[i + 1]))
            i += 2
            continue
        if c == "*":
            if not out or out[-1] != ("*",):
                out.append(("*",))
        elif c == "?":
            out.append(("?",))
        else:
            out.append(("c", lower(c)))
        i += 1
    return out


def match_tokens(toks, n, ok):
    """Does the token list match a sequence of n items; ok(tok, j) for single items."""
    cur = [False] * (n + 1)
    cur[0] = True
    for t in toks:
        nxt = [False] * (n + 1)
        if t == ("*",):
            seen = False
            for j in range(n + 1):
                seen = seen or cur[j]
                nxt[j] = seen
        else:
            for j in range(n):
                if cur[j] and ok(t, j):
                    nxt[j + 1] = True
        cur = nxt
    return cur[n]


def tokens_m(mask):
    """For match(): a backslash makes the next character literal, whatever it is."""
    out, i = [], 0
    while i < len(mask):
        c = mask[i]
        if c == "\\" and i + 1 < len(mask):
            out.append(("c", lower(mask[i + 1])))
            i += 2
            continue
        if c == "*":
            if not out or out[-1] != ("*",):
                out.append(("*",))
        elif c == "?":
            out.append(("?",))
        else:
            out.append(("c", lower(c)))
        i += 1
    return out


def match(mask, s):
    s = lower(s)
    return match_tokens(tokens_m(mask), len(s), lambda t, j: t[0] == "?" or t[1] == s[j])


def superset(old, new):
    """mmatch(): every literal reading of `new` is covered by `old` (mask-level)."""
    n = tokens(new)

    def ok(t, j):
        if t[0] == "?":
            return n[j] != ("*",)
        return n[j][0] == "c" and n[j][1] == t[1]
    return match_tokens(tokens(old), len(n), ok)


def collapse(m):
    """Equivalent shorter mask: runs of * and ? become ?...?* ; escapes kept."""
    out, i, n = "", 0, len(m)
    while i < n:
        c = m[i]
        if c == "\\" and i + 1 < n and m[i + 1] in "*?":
            out += m[i:i + 2]
            i += 2
        elif c == "*" and i + 1 < n and m[i + 1] in "*?":
            q = ""
            while i < n and m[i] in "*?":
                if m[i] == "?":
                    q += "?"
                i += 1
            out += q + "*"
        elif c == "?":
            q, st = "", False
            while i < n and m[i] == "?":
                q += "?"
                i += 1
            out += q
        else:
            out += c
            i += 1
    return out


NICKLEN, USERLEN, HOSTLEN = 15, 10, 63


def pretty_mask(mask):
    i = next((k for k, c in enumerate(mask) if c in "!@"), None)
    nick, user, host = None, None, None
    if i is None:
        if "." in mask or ":" in mask:
            host = mask
        else:
            nick = mask
    elif mask[i] == "!":
        nick, rest = mask[:i], mask[i + 1:]
        # the scan continues from the character after the one following '!'
        k = rest.rfind("@")
        if k >= 0:
            user, host = rest[:k], rest[k + 1:]
        else:
            user = rest
    else:
        k = mask.rfind("@")
        user, host = mask[:k], mask[k + 1:]
    if nick is not None:
        nick = nick[:NICKLEN]
    if user is not None and len(user) > USERLEN:
        user = "*" + user[-(USERLEN - 1):]
    if host is not None and len(host) > HOSTLEN:
        host = "*" + host[-(HOSTLEN - 1):]
    return "%s!%s@%s" % tuple("*" if x is None else x for x in (nick, user, host))


def ipmask(s):
    """(network int in 128-bit space, bits) or None; the syntaxes the documentation names:
    full addresses, addr/bits, and dotted quads cut short with a trailing '*'."""
    try:
        if ":" in s:
            a, _, b = s.partition("/")
            return int(ipaddress.IPv6Address(a)), int(b) if b else 128
        if s.endswith(".*") or s.endswith(".*.*") or s.endswith(".*.*.*"):
            parts = s.split(".")
            while parts and parts[-1] == "*":
                parts.pop()
            if not 1 <= len(parts) <= 3:
                return None
            v = 0
            for p in parts:
                if not p.isdigit() or int(p) > 255:
                    return None
            full = ".".join(parts + ["0"] * (4 - len(parts)))
            return 0xffff00000000 | int(ipaddress.IPv4Address(full)), 96 + 8 * len(parts)
        a, _, b = s.partition("/")
        return 0xffff00000000 | int(ipaddress.IPv4Address(a)), 96 + (int(b) if b else 32)
    except ValueError:
        return None


def ip128(ip):
    if ":" in ip:
        return int(ipaddress.IPv6Address(ip))
    return 0xffff00000000 | int(ipaddress.IPv4Address(ip))


def ip_in(ip, net):
    v, bits = net
    sh = 128 - bits
    return ip128(ip) >> sh == v >> sh
