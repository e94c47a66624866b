#!/usr/bin/env python3
"""Try planted bugs in a scratch copy of /repo.
  seed.py test ID...      demo on the clean copy (must pass), demo with the patch (must fail), the property's check (should alarm)
  seed.py check ID...     the check only
  seed.py demo ID...      the demos only
The scratch copy is /tmp/seedcopy; remove it with: seed.py clean"""
import json, os, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = "/tmp/seedcopy"


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def fresh():
    if not os.path.isdir(C):
        sh(["cp", "-a", "/repo", C])
    sh(["git", "-C", C, "checkout", "-q", "--", "."])
    head = sh(["git", "-C", "/repo", "rev-parse", "HEAD"]).stdout.strip()
    if sh(["git", "-C", C, "rev-parse", "HEAD"]).stdout.strip() != head:
        sh(["git", "-C", C, "fetch", "-q", "/repo", "HEAD"])
        print(sh(["git", "-C", C, "reset", "-q", "--hard", head]).stdout)


def build():
    r = sh("make -j8 -C %s/ircd CC=gcc CFLAGS='-g -O1' ircd" % C, shell=True)
    if r.returncode:
        print(r.stdout[-2000:])
        raise SystemExit("build failed")


def demo(i):
    d = os.path.join("/tmp", "seeddemo-" + i)
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(os.path.join(V, "seeded", i), d)
    r = sh(["timeout", "300", "bash", d + "/demo.sh"], cwd=C)
    shutil.rmtree(d)
    return r


def main():
    what, ids = sys.argv[1], sys.argv[2:]
    if what == "clean":
        shutil.rmtree(C, ignore_errors=True)
        return
    if ids == ["all"]:
        ids = sorted(os.listdir(os.path.join(V, "seeded")))
    fresh()
    if what in ("test", "demo"):
        build()
        for i in ids:
            r = demo(i)
            print("%s clean demo rc=%d %s" % (i, r.returncode, r.stdout.strip()[-200:] if r.returncode else ""))
    for i in ids:
        meta = json.load(open(os.path.join(V, "seeded", i, "meta.json")))
        r = sh(["git", "-C", C, "apply", os.path.join(V, "seeded", i, "patch.diff")])
        if r.returncode:
            print(i, "PATCH FAILS", r.stdout[-300:])
            continue
        if what in ("test", "demo"):
            build()
            r = demo(i)
            print("%s bad   demo rc=%d %s" % (i, r.returncode, r.stdout.strip()[-300:]))
        if what in ("test", "check"):
            for p in meta.get("also", []) + [meta["property"]] if len(sys.argv) > 99 else [meta["property"]]:
                e = dict(os.environ, VSIM_REPO=C, VERIF_TIER="quick")
                r = sh(["./check", p], cwd=V, env=e)
                l = [x for x in r.stdout.splitlines() if x.startswith(("VIOLATION", "---"))]
                print("%s check %s rc=%d %s" % (i, p, r.returncode, " | ".join(l)[:200] if l else r.stdout[-300:]))
        fresh()
    sh(["git", "-C", V, "status", "--short"])


main()
