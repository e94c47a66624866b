"""all views of the network agree"""
import mw
PROPERTY = "C04"
RULE = ("random command sequences from several real clients on one to three real servers; every event every client receives is compared with "
        "the reference model; an evaluation is one command with all its observable effects; distinct counts (command, abstracted situation) pairs")
ASSUMPTIONS = mw.ASSUME
MUST_SEE = ["ops:whois", "ops:quit", "worlds:net"]
W = dict(names=6, whois=6, ison=3, userhost=3, modeq=3, part=5, quit=2, away=3, account=2, umode=3)


def plan(tier, seed):
    return mw.plan(tier, seed)


def run_case(ctx, p):
    mw.case(ctx, p, W, {"query", "part", "quit", "away", "account", "umode"})
