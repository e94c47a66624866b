"""Common entry for every check: builds, runs the cases in parallel, applies the
verdict discipline (violated / held on what was observed / inconclusive), matches
known findings, writes evidence and replay files."""
import argparse, importlib, json, multiprocessing, os, random, signal, sys, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(VERIF, "checks"))
import build as B
import vsim

WORKERS = int(os.environ.get("VSIM_WORKERS", "8"))
WALL = {"quick": 300, "thorough": 3000}


class Ctx:
    """Per-case context: rng, counters, observations."""
    def __init__(self, prop, tier, params, bins):
        self.prop, self.tier, self.params, self.bins = prop, tier, params, bins
        self.rng = random.Random("%s/%s" % (prop, json.dumps(params, sort_keys=True)))
        self.evals = 0
        self.distinct = set()
        self.counters = {}
        self.samples = []
        self.trace = []
        self.procs = []
        self.inconclusive = []

    def count(self, k, n=1):
        self.counters[k] = self.counters.get(k, 0) + n

    def seen(self, key):
        self.distinct.add(key)

    def ev(self, n=1):
        self.evals += n

    def sample(self, s):
        if len(self.samples) < 3:
            self.samples.append(str(s)[:600])

    def log(self, s):
        self.trace.append(s)
        if len(self.trace) > 4000:
            del self.trace[:1000]

    def ircd(self, conf, variant="asan", **kw):
        if os.environ.get("VSIM_GDB"):
            variant = "dbg"
        s = vsim.Ircd(self.bins[variant], conf, **kw)
        self.procs.append(s)
        s.start()
        return s

    def fail(self, key, msg, detail=None):
        raise vsim.Violation(key, msg, detail)

    def close(self):
        for p in self.procs:
            try:
                p.stop()
            except Exception:
                pass


def run_one(args):
    modname, tier, params, bins = args
    mod = importlib.import_module(modname)
    ctx = Ctx(mod.PROPERTY, tier, params, bins)
    res = {"params": params, "status": "ok"}
    t = time.time()

    def on_alarm(sig, frm):
        raise vsim.Hang("case exceeded its wall-clock watchdog")
    signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(getattr(mod, "CASE_WALL", 240))
    try:
        try:
            mod.run_case(ctx, params)
        except vsim.Violation as e:
            res.update(status="violation", key=e.key, msg=e.msg, detail=str(e.detail)[:20000] if e.detail else "")
        except vsim.Crash as e:
            res.update(status="crash", key="crash:" + e.summary, msg=e.summary, detail=e.detail[:200000])
        except vsim.Exec as e:
            res.update(status="crash", key="crash:restart", msg="server re-executed itself", detail="")
        except vsim.Hang as e:
            res.update(status="hang", key="hang", msg=str(e), detail="")
        except (OSError, MemoryError):
            res.update(status="error", key="env-error", msg=traceback.format_exc()[-3000:], detail="")
        except Exception:
            # deterministic on the recorded history: the oracle met output it cannot interpret
            res.update(status="error", key="oracle-error", msg=traceback.format_exc()[-3000:], detail="")
    finally:
        signal.alarm(0)
        ctx.close()
    if res["status"] != "ok":
        res["trace"] = ctx.trace[-400:]
    res.update(evals=ctx.evals, distinct=list(ctx.distinct), counters=ctx.counters, samples=ctx.samples,
               inconclusive=ctx.inconclusive, wall=time.time() - t)
    return res


def known_findings(prop):
    p = os.path.join(VERIF, "known_findings.json")
    try:
        with open(p) as f:
            j = json.load(f)
    except FileNotFoundError:
        return []
    return [k for k in j.get("findings", []) if k.get("property") == prop]


def match_known(kf, res):
    for k in kf:
        if res["key"] == k["key"]:
            return k
    return None


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--case")
    ap.add_argument("--keep-going", action="store_true")
    ap.add_argument("--limit", type=int, default=0)
    a = ap.parse_args(argv)
    tier = a.tier if a.tier in WALL else "quick"
    t0 = time.time()
    modname = a.prop.lower()
    mod = importlib.import_module(modname)
    prop = mod.PROPERTY
    variants = getattr(mod, "VARIANTS", ["asan"])
    if os.environ.get("VSIM_GDB"):
        variants = variants + ["dbg"]
    bins = {}
    for v in variants:
        try:
            bins[v] = B.build(v)
        except B.BuildError as e:
            print("BUILD FAILED:\n%s" % e)
            return 2
    t_build = time.time() - t0
    if hasattr(mod, "prepare"):
        try:
            mod.prepare(bins)
        except B.BuildError as e:
            print("BUILD FAILED:\n%s" % e)
            return 2
    if a.replay:
        with open(a.replay) as f:
            params = json.load(f)["params"]
        cases = [params]
    elif a.case:
        cases = [json.loads(a.case)]
    else:
        cases = list(mod.plan(tier, a.seed))
        # when time runs out, no kind of case may be the one left out
        random.Random(a.seed).shuffle(cases)
    if a.limit:
        cases = cases[:a.limit]
    kf = known_findings(prop)
    seen_known = {}
    viol, errors, incon = [], [], []
    tot = dict(evals=0, cases=0)
    distinct, counters, samples = set(), {}, []
    deadline = t0 + getattr(mod, "WALL", WALL).get(tier, WALL[tier])
    sched = iter(cases)
    ctxm = multiprocessing.get_context("fork")
    skipped = 0
    with ctxm.Pool(min(WORKERS, max(1, len(cases))), maxtasksperchild=50) as pool:
        def gen():
            nonlocal skipped
            for c in sched:
                if time.time() > deadline or (viol and not a.keep_going):
                    skipped += 1
                    continue
                yield (modname, tier, c, bins)
        try:
            for r in pool.imap_unordered(run_one, throttle(gen(), WORKERS * 3), chunksize=1):
                throttle_release()
                tot["cases"] += 1
                tot["evals"] += r["evals"]
                distinct.update(r["distinct"])
                for k, v in r["counters"].items():
                    counters[k] = counters.get(k, 0) + v
                if len(samples) < 5:
                    samples += r["samples"][:1]
                incon += r["inconclusive"]
                if r["status"] == "ok":
                    continue
                k = match_known(kf, r)
                if k:
                    seen_known[k["key"]] = k
                    continue
                if r["status"] == "error":
                    errors.append(r)
                    if r["key"] == "env-error":
                        continue
                viol.append(r)
        finally:
            throttle_release(10 ** 6)
    # confirm by re-running (three-valued verdict)
    confirmed = []
    done = set()
    for r in viol:
        if len(confirmed) >= 3 and not a.keep_going:
            break
        if r["key"] in done:
            continue
        done.add(r["key"])
        tries = 3
        for _ in range(tries):
            if time.time() - t0 > 600 and tier == "quick" and confirmed:
                break
            r2 = run_sub(ctxm, (modname, tier, r["params"], bins))
            if r2 is not None and (r2["status"] in ("violation", "crash", "hang") or r2.get("key") == "oracle-error") and not match_known(kf, r2):
                confirmed.append(r2)
                break
        else:
            incon.append("not reproduced: %s %s" % (r["key"], r["msg"][:300]))
    for k in known_all(kf, seen_known):
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    rc = 0
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    for i, r in enumerate(confirmed):
        p = os.path.join(VERIF, "replays", "%s-%d.json" % (prop, i))
        with open(p, "w") as f:
            json.dump({"property": prop, "params": r["params"], "key": r["key"], "msg": r["msg"],
                       "detail": r["detail"], "trace": r.get("trace", [])}, f, indent=1)
        print("--- %s\n%s\n%s" % (r["key"], r["msg"], (r["detail"] or "")[:3000]))
        print("VIOLATION property=%s replay=%s" % (prop, p))
        rc = 1
    cov = {"evaluations": tot["evals"], "distinct_nontrivial": len(distinct),
           "rule": getattr(mod, "RULE", ""), "samples": samples[:5] or ["(none)"],
           "cases_run": tot["cases"], "cases_planned": len(cases), "cases_skipped": skipped,
           "observed": counters, "inconclusive": incon[:20], "build_s": round(t_build, 1)}
    evd = {"property": prop, "tier": tier, "seed": a.seed, "level": getattr(mod, "LEVEL", "exploration"),
           "coverage": cov, "assumptions": getattr(mod, "ASSUMPTIONS", []),
           "wall_s": round(time.time() - t0, 2), "violations": len(confirmed)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    if not a.replay and not a.case:
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(evd, f, indent=1)
    if errors and rc == 0:
        print("HARNESS ERRORS: %d\n%s" % (len(errors), errors[0]["msg"]))
        print("params:", json.dumps(errors[0]["params"]))
        if rc == 0 and (len(errors) > max(2, tot["cases"] // 10) or a.keep_going):
            rc = 2
    if rc == 0 and tot["evals"] == 0:
        print("nothing was observed")
        rc = 2
    need = getattr(mod, "MUST_SEE", [])
    if rc == 0 and not a.replay and not a.case and not a.limit:
        missing = [k for k in need if not counters.get(k)]
        if missing:
            print("never observed: %s" % missing)
            rc = 2
    print("%s %s seed=%d: cases=%d/%d evaluations=%d distinct=%d violations=%d inconclusive=%d "
          "wall=%.1fs %s" % (prop, tier, a.seed, tot["cases"], len(cases), tot["evals"], len(distinct),
                             len(confirmed), len(incon), time.time() - t0,
                             json.dumps(counters, sort_keys=True)))
    if incon:
        print("inconclusive:", incon[:3])
    return rc


def known_all(kf, seen):
    return list(seen.values())


import threading
_sem = None


def throttle(it, n):
    global _sem
    _sem = threading.Semaphore(n)
    for x in it:
        _sem.acquire()
        yield x


def throttle_release(n=1):
    for _ in range(min(n, 1000)):
        _sem.release()


def run_sub(ctxm, args):
    with ctxm.Pool(1) as p:
        r = p.apply_async(run_one, (args,))
        try:
            return r.get(250)
        except multiprocessing.TimeoutError:
            return None


if __name__ == "__main__":
    sys.exit(main())
