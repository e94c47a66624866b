"""channel authority: modes, kicks, topics"""
import mw
PROPERTY = "C07"
RULE = ("random command sequences from several real clients on one to three real servers; every event every client receives is compared with "
        "the reference model; an evaluation is one command with all its observable effects; distinct counts (command, abstracted situation) pairs")
ASSUMPTIONS = mw.ASSUME
MUST_SEE = ["ops:mode", "ops:kick", "ops:topic", "worlds:net", "numeric:482", "numeric:441", "numeric:478", "numeric:467"]
W = dict(mode=26, kick=6, topic=6, modeq=3, msg=2)


def plan(tier, seed):
    return mw.plan(tier, seed)


def run_case(ctx, p):
    mw.case(ctx, p, W, {"mode", "kick", "topic"})
