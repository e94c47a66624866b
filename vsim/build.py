#!/usr/bin/env python3
"""Build the real ircd from /repo's working tree, instrumented, with the vsim
shim linked in.  Out of tree: nothing is written in /repo.  Results are cached
under <verif>/build/<hash of every input>."""
import concurrent.futures, fcntl, glob, hashlib, os, re, shutil, subprocess, sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VSIM_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
GUARD = "VERIF_HOOKS"

WRAPS = ("time gettimeofday socket bind accept connect getsockname getpeername setsockopt close "
         "recv recvfrom sendto send writev epoll_wait epoll_ctl getuid geteuid getgid getegid execv execvp").split()

VARIANTS = {
    # name: (cc, cflags, ldflags)
    "asan": ("clang", "-O1 -g1 -fno-omit-frame-pointer -fsanitize=address,undefined "
                      "-fno-sanitize=function,alignment,shift-base,pointer-overflow,signed-integer-overflow "
                      "-fno-sanitize-recover=all -fsanitize-address-use-after-scope -DVERIF_HOOKS=1",
             "-fsanitize=address,undefined"),
    # debugging aid
    "dbg": ("clang", "-O0 -g -fno-omit-frame-pointer -fsanitize=address -DVERIF_HOOKS=1", "-fsanitize=address"),
    # the structural/behavioural monitors with the shipped object pools
    "plain": ("gcc", "-O1 -g1 -fno-omit-frame-pointer", ""),
}


class BuildError(Exception):
    pass


def repo_sources():
    am = open(os.path.join(REPO, "ircd/Makefile.am")).read()
    am = am.replace("\\\n", " ")
    srcs = []
    m = re.search(r"^ircd_SOURCES\s*=\s*(.*)$", am, re.M)
    srcs += m.group(1).split()
    srcs = [s for s in srcs if s.endswith(".c")]
    for extra in ("tls_openssl.c", "engine_epoll.c", "engine_poll.c"):
        if extra not in srcs:
            srcs.append(extra)
    # anything new the tree added unconditionally
    for m in re.finditer(r"^ircd_SOURCES\s*\+=\s*(.*)$", am, re.M):
        for s in m.group(1).split():
            if s.endswith(".c") and not s.startswith("tls_") and s not in srcs:
                srcs.append(s)
    return srcs


def tree_hash(variant):
    h = hashlib.sha256()
    files = sorted(glob.glob(REPO + "/ircd/*.[chy]") + glob.glob(REPO + "/include/*.h") +
                   [REPO + "/ircd/Makefile.am", REPO + "/ircd/version.c.SH"] + glob.glob(HERE + "/*.[ch]") + [HERE + "/build.py"])
    for f in files:
        b = os.path.basename(f)
        if b in ("version.c", "chattr.tab.c", "ircd_parser.c", "ircd_parser.h", "patchlist.h"):
            continue
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(fh.read())
    h.update(variant.encode())
    return h.hexdigest()[:20]


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if p.returncode:
        raise BuildError("%s\n%s" % (cmd if isinstance(cmd, str) else " ".join(cmd),
                                     p.stdout.decode(errors="replace")[-6000:]))
    return p.stdout


def stage(dst):
    """Copy the sources and generate what the repository's build generates."""
    src = os.path.join(dst, "src")
    os.makedirs(src + "/ircd", exist_ok=True)
    os.makedirs(src + "/include", exist_ok=True)
    for f in glob.glob(REPO + "/ircd/*.[chy]"):
        b = os.path.basename(f)
        if b in ("version.c", "chattr.tab.c", "ircd_parser.c", "ircd_parser.h"):
            continue
        shutil.copy(f, src + "/ircd/" + b)
    for f in glob.glob(REPO + "/include/*.h"):
        shutil.copy(f, src + "/include/")
    with open(src + "/include/patchlist.h", "w") as fh:
        fh.write('#define PATCHLIST ""\n')
    shutil.copy(HERE + "/config.h", src + "/config.h")
    run(["bison", "-y", "-d", "-o", "ircd_parser.c", "ircd_parser.y"], cwd=src + "/ircd")
    run(["gcc", "-w", "-DHAVE_CONFIG_H", "-I" + src, "-I" + src + "/include", "-o", "table_gen",
         "table_gen.c"], cwd=src + "/ircd")
    out = subprocess.run(["./table_gen"], cwd=src + "/ircd", stdout=subprocess.PIPE)
    if out.returncode or not out.stdout:
        raise BuildError("table_gen failed")
    with open(src + "/ircd/chattr.tab.c", "wb") as fh:
        fh.write(out.stdout)
    shutil.copy(REPO + "/ircd/version.c.SH", src + "/ircd/")
    with open(src + "/ircd/umkpasswd", "w") as fh:     # lists the sources; hashes are irrelevant here
        fh.write('#!/bin/sh\nwhile read f; do echo "    \\"[$f: 0]\\","; done\n')
    os.chmod(src + "/ircd/umkpasswd", 0o755)
    run(["/bin/sh", "./version.c.SH", ".."], cwd=src + "/ircd")
    return src


def build(variant="asan", extra=(), quiet=True):
    """Returns the path of the instrumented ircd."""
    cc, cflags, ldflags = VARIANTS[variant]
    hsh = tree_hash(variant)
    dst = os.path.join(BUILD, "%s-%s" % (variant, hsh))
    binp = os.path.join(dst, "ircd")
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(binp):
            return binp
        # drop old builds of this variant
        olds = sorted(glob.glob(os.path.join(BUILD, variant + "-*")), key=os.path.getmtime)
        for old in olds[:-2]:
            shutil.rmtree(old, ignore_errors=True)
        if os.path.isdir(dst):
            shutil.rmtree(dst)
        os.makedirs(dst)
        src = stage(dst)
        objs = []
        base = [cc] + cflags.split() + ["-std=gnu11", "-w", "-DHAVE_CONFIG_H", "-I" + src,
                                        "-I" + src + "/include", "-I" + src + "/ircd"]
        jobs = []
        cfiles = repo_sources() + ["ircd_parser.c", "version.c"]
        cfiles.sort(key=lambda f: -os.path.getsize(src + "/ircd/" + f))
        for c in cfiles:
            o = os.path.join(dst, c[:-2] + ".o")
            objs.append(o)
            jobs.append(base + ["-c", src + "/ircd/" + c, "-o", o])
        shim = ["-w", "-O1", "-g1", "-std=gnu11"]
        o = os.path.join(dst, "vsim_shim.o")
        objs.append(o)
        jobs.append([cc] + shim + ["-c", HERE + "/shim.c", "-o", o])
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            for _ in ex.map(run, jobs):
                pass
        mo = os.path.join(dst, "vsim_monitor.o")
        try:
            run(base + ["-c", HERE + "/monitor.c", "-o", mo])
        except BuildError as e:
            with open(os.path.join(dst, "monitor.failed"), "w") as fh:
                fh.write(str(e))
            run(base + ["-DVSIM_NO_MONITOR", "-c", HERE + "/monitor.c", "-o", mo])
        objs.append(mo)
        link = [cc] + ldflags.split() + ["-o", binp + ".tmp"] + objs + \
            ["-Wl,--wrap=" + w for w in WRAPS] + ["-lcrypt", "-lssl", "-lcrypto"]
        try:
            run(link)
        except BuildError:
            run(base + ["-DVSIM_NO_MONITOR", "-c", HERE + "/monitor.c", "-o", mo])
            run(link)
        # the function driver: the same objects under another main()
        rest = [o for o in objs if os.path.basename(o) not in ("ircd.o", "vsim_shim.o")]
        try:
            run(base + ["-Dmain=ircd_main", "-c", src + "/ircd/ircd.c", "-o", dst + "/ircd_nomain.o"])
            run(base + ["-c", HERE + "/pure.c", "-o", dst + "/pure.o"])
            run([cc] + ldflags.split() + ["-o", dst + "/pure"] + rest + [dst + "/ircd_nomain.o", dst + "/pure.o", "-lcrypt", "-lssl", "-lcrypto"])
        except BuildError as e:
            with open(os.path.join(dst, "pure.failed"), "w") as fh:
                fh.write(str(e))
        for o in objs + [dst + "/ircd_nomain.o", dst + "/pure.o"]:
            if os.path.exists(o):
                os.unlink(o)
        os.rename(binp + ".tmp", binp)
    return binp


if __name__ == "__main__":
    import time
    for v in sys.argv[1:] or ["asan"]:
        t = time.time()
        print(build(v), "%.1fs" % (time.time() - t))
