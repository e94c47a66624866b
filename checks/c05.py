"""JOIN admission"""
import mw
PROPERTY = "C05"
RULE = ("random command sequences from several real clients on one to three real servers; every event every client receives is compared with "
        "the reference model; an evaluation is one command with all its observable effects; distinct counts (command, abstracted situation) pairs")
ASSUMPTIONS = mw.ASSUME
MUST_SEE = ["ops:join", "worlds:net", "numeric:473", "numeric:471", "numeric:474", "numeric:475", "numeric:477", "numeric:405"]
W = dict(join=16, invite=6, mode=14, account=2, msg=1, part=5)


def plan(tier, seed):
    return mw.plan(tier, seed)


def run_case(ctx, p):
    mw.case(ctx, p, W, {"join", "invite"})
