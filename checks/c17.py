"""Masks: wildcard matching in all its forms, mask comparison, address masks"""
import purecheck
PROPERTY = "C17"
RULE = ("the functions that match wildcard masks (plain, compiled, collapsed, printed back), compare masks and read and apply address masks run under ASan/UBSan on generated masks, names and addresses held in buffers of their exact size; "
        "every answer is compared with an independent definition; distinct counts (section, outcome) kinds")
ASSUMPTIONS = ["a backslash escapes only * and ? where the compiled and compared forms are concerned (the forms differ otherwise)", "mmexec() is used nowhere in the server and is not exercised"]
MUST_SEE = ["match:yes", "match:no", "super:yes", "super:no", "super:literal", "addr:v4", "addr:v6", "addr:prefix", "addr:notation", "addr:overlong", "addr:wild", "addr:damaged accepted", "addr:damaged refused", "check:yes", "check:no"]


def plan(tier, seed):
    k = 1 if tier == "quick" else 60
    return [{"s": s, "seed": seed * 100003 + i, "n": n} for i in range(32 * k) for s, n in (("match", 40000), ("super", 8000), ("addr", 40000))]


def run_case(ctx, p):
    purecheck.run(ctx, p["s"], p["seed"], p["n"])
