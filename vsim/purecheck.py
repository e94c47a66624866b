"""Runs one section of the function driver (pure.c) and turns its report into a verdict."""
import os, re, subprocess
import vsim, build


def run(ctx, section, seed, n):
    exe = os.path.join(os.path.dirname(ctx.bins["asan"]), "pure")
    if not os.path.exists(exe):
        raise OSError("the function driver was not built: " + open(exe + ".failed").read()[-2000:])
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=77", UBSAN_OPTIONS="print_stacktrace=1:exitcode=77")
    try:
        p = subprocess.run([exe, str(seed), section, str(n)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=200)
    except subprocess.TimeoutExpired:
        raise vsim.Hang("section %s, seed %s did not end" % (section, seed))
    out = p.stdout.decode("latin-1")
    ctx.log("%s %s %s %d" % (exe, seed, section, n))
    m = re.search(r"^FAIL (\S+) (.*)$", out, re.M)
    if m:
        ctx.fail(section + ":" + m.group(1), m.group(2))
    if p.returncode:
        err = p.stderr.decode("latin-1")
        f = re.findall(r"#\d+ \S+ in (\w+)", err)
        k = re.search(r"AddressSanitizer: (\S+)", err)
        k = k.group(1) if k else "runtime-error" if "runtime error" in err else "signal" if p.returncode < 0 else "exit%d" % p.returncode
        raise vsim.Crash("sanitizer", "%s in %s" % (k, "<".join(f[:4])), err)
    m = re.search(r"^EVALS (\d+)$", out, re.M)
    ctx.ev(int(m.group(1)))
    for c, name in re.findall(r"^COUNT (\d+) (.*)$", out, re.M):
        ctx.count(name, int(c))
        ctx.seen(section + " " + name)
    ctx.sample("%s seed %s: %s" % (section, seed, " ".join(out.split())[:300]))
