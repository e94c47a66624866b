"""who may speak, and exactly-once delivery"""
import mw
PROPERTY = "C06"
RULE = ("random command sequences from several real clients on one to three real servers; every event every client receives is compared with "
        "the reference model; an evaluation is one command with all its observable effects; distinct counts (command, abstracted situation) pairs")
ASSUMPTIONS = mw.ASSUME
MUST_SEE = ["ops:msg", "worlds:net", "numeric:404", "numeric:301", "numeric:401"]
W = dict(msg=26, mode=12, umode=3, account=1.5, kick=1, topic=1)


def plan(tier, seed):
    return mw.plan(tier, seed)


def run_case(ctx, p):
    mw.case(ctx, p, W, {"msg"})
