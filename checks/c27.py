"""Encodings, names, formatting and byte queues"""
import purecheck
PROPERTY = "C27"
RULE = ("the functions that encode addresses and numbers, compare and split names, format output and queue bytes run under ASan/UBSan on generated inputs in buffers of their exact size; "
        "every answer is compared with an independent definition, every queue with a byte-exact model; distinct counts (section, outcome) kinds")
ASSUMPTIONS = ["formats with a sign and zero padding, or # with a zero, differ from C by design or are not used"]
MUST_SEE = ["addr:v4", "addr:v6", "addr:6to4", "strcmp:same", "strcmp:differ", "lists", "fmt:fits", "fmt:cut", "dbuf:get", "dbuf:map", "dbuf:line", "dbuf:noline", "msgq:all", "msgq:part"]


def plan(tier, seed):
    k = 1 if tier == "quick" else 60
    return [{"s": s, "seed": seed * 100019 + i, "n": n} for i in range(24 * k) for s, n in (("addr", 40000), ("str", 60000), ("fmt", 60000), ("dbuf", 4000), ("msgq", 3000))]


def run_case(ctx, p):
    purecheck.run(ctx, p["s"], p["seed"], p["n"])
