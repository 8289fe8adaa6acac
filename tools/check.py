#!/usr/bin/env python3
"""Build the code under test from /repo's working tree (with sanitizers), link
it with the harness of one property and run the search.

usage: check.py <ID> [quick|thorough] [--replay FILE] [extra harness options]
exit status: 0 property held on everything explored, 1 VIOLATION, 2 error
"""
import glob
import hashlib
import json
import os
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
# navcmp.cpp: an unfinished draft of a program (does not compile upstream, no
# build rule names it)
SKIP = {"navcmp.cpp"}

COMMON = ["-std=c++17", "-DDEBUG", "-g", "-O1", "-fno-omit-frame-pointer",
          "-w", "-include", "string", "-include", "utility", "-include",
          "iostream", "-include", "vector", "-include", "algorithm",
          "-include", "cassert"]
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all",
       "-ftrivial-auto-var-init=pattern"]
COV = ["-fsanitize-coverage=trace-pc"]
# of the harnesses that say "sanitizer: thread"
TSAN = ["-fsanitize=thread"]
# The second configuration, of the harnesses that say "configurations: debug and
# release": as the project's own Makefile.am.production has it, without DEBUG
# (which drops range checks and assertions of the navigation and observation
# code) and optimised; no sanitizers.
RELEASE = ["-UDEBUG", "-O2"]
RELEASE_SCALE = 0.5


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def rd(p):
    with open(p, "rb") as f:
        return f.read()


def compile_one(src, flags, key, out):
    if os.path.exists(out):
        return None
    tmp = out + ".%d.tmp" % os.getpid()
    r = subprocess.run(["g++"] + flags + ["-c", src, "-o", tmp],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        return r.stdout.decode(errors="replace")
    os.replace(tmp, out)
    return None


def tsan_works():
    """can a program under ThreadSanitizer start here? (it needs a certain
    layout of memory)"""
    exe = os.path.join(BUILD, "tsan-probe.%d" % os.getpid())
    try:
        subprocess.run(["g++", "-x", "c++", "-", "-o", exe] + TSAN, input=b"int main(){}",
                       check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        return subprocess.run([exe], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0
    except subprocess.CalledProcessError:
        return False
    finally:
        if os.path.exists(exe):
            os.unlink(exe)


def build(pid, release=False):
    os.makedirs(BUILD, exist_ok=True)
    srcdir = os.path.join(REPO, "src")
    hdrs = sorted(glob.glob(srcdir + "/*.h*")) + \
        sorted(glob.glob(VERIF + "/shim/ggdatetime/*.hpp"))
    hh = sha(*[rd(h) for h in hdrs], *hdrs)
    inc = ["-I" + srcdir, "-I" + VERIF + "/shim"]
    hs = os.path.join(VERIF, "harness", pid + ".cpp")
    SAN, COV = globals()["SAN"], globals()["COV"]
    if b"// sanitizer: thread" in rd(hs) and tsan_works():
        SAN, COV = TSAN, []
    COMMON = globals()["COMMON"]
    if release:
        SAN, COV, COMMON = [], [], COMMON + RELEASE
    jobs = []
    objs = []
    for s in sorted(glob.glob(srcdir + "/*.cpp")):
        b = os.path.basename(s)
        if b in SKIP:
            continue
        fl = COMMON + SAN + COV + inc
        k = sha(hh, b, rd(s), " ".join(fl))
        o = os.path.join(BUILD, b[:-4] + "-" + k + ".o")
        jobs.append((s, fl, k, o, False))
        objs.append(o)
    eng = sorted(glob.glob(VERIF + "/engine/*.hpp") + glob.glob(VERIF + "/harness/*.hpp"))
    eh = sha(*[rd(e) for e in eng])
    if release and b"release: sources only" in rd(hs):
        # the harness itself looks at members that only exist with DEBUG
        COMMON = [f for f in COMMON if f != "-UDEBUG"]
    hfl = COMMON + SAN + inc + ["-I" + VERIF + "/engine", "-I" + VERIF + "/harness",
                                "-isystem", "/usr/include/eigen3"]
    k = sha(hh, eh, rd(hs), " ".join(hfl))
    ho = os.path.join(BUILD, pid + "-" + k + ".o")
    jobs.append((hs, hfl, k, ho, True))
    jobs.sort(key=lambda j: not j[4])
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda j: compile_one(*j[:4]), jobs))
    for j, r in zip(jobs, res):
        if r is not None:
            print("does not compile: %s\n%s" % (j[0], r[:4000]))
            if j[4]:
                return None
    objs = [o for o in objs if os.path.exists(o)]
    bk = sha(ho, *objs)
    exe = os.path.join(BUILD, pid + "-" + bk)
    if not os.path.exists(exe):
        lib = exe + ".%d.a" % os.getpid()
        tmp = exe + ".%d.tmp" % os.getpid()
        subprocess.check_call(["ar", "crs", lib] + objs)
        r = subprocess.run(["g++"] + SAN + [ho, lib, "-o", tmp],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        os.unlink(lib)
        if r.returncode:
            print("does not link:\n" + r.stdout.decode(errors="replace")[:4000])
            return None
        os.replace(tmp, exe)
    return exe


def has_release(pid):
    return b"// configurations: debug and release" in rd(
        os.path.join(VERIF, "harness", pid + ".cpp"))


def merge(first, second):
    """Add what the run of the second configuration covered to the evidence of
    the first one."""
    with open(first) as f:
        a = json.load(f)
    with open(second) as f:
        b = json.load(f)
    ca, cb = a["coverage"], b["coverage"]
    ca["configurations"] = {
        n: {k: c[k] for k in ("evaluations", "distinct_nontrivial")}
        for n, c in (("debug, sanitizers", ca), ("release", cb))}
    for k in ("evaluations", "distinct_nontrivial"):
        ca[k] += cb[k]
    ca["rule"] += ("; run in two build configurations (the second one with "
                   "other seeds), the counts are sums")
    a["wall_s"] = round(a["wall_s"] + b["wall_s"], 3)
    with open(first, "w") as f:
        json.dump(a, f, indent=1)
        f.write("\n")


def main():
    if sys.argv[1] == "--build":
        return 0 if all([build(p, r) for p in sys.argv[2:]
                         for r in (False, True) if not r or has_release(p)]) else 2
    pid = sys.argv[1]
    rest = sys.argv[2:]
    tier = os.environ.get("VERIF_TIER", "quick")
    if rest and rest[0] in ("quick", "thorough"):
        tier = rest.pop(0)
    exe = build(pid)
    if exe is None:
        return 2
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    cmd = [exe, "--tier", tier, "--seed", os.environ.get("VERIF_SEED", "1"),
           "--evidence", "%s/evidence/%s.json" % (VERIF, pid),
           "--replays", VERIF + "/replays",
           "--known", VERIF + "/known_findings.txt"] + rest
    sys.stdout.flush()
    env = {k: v for k, v in os.environ.items()
           if k not in ("ASAN_OPTIONS", "UBSAN_OPTIONS", "TSAN_OPTIONS")}
    env["LC_ALL"] = "C"
    r = subprocess.run(cmd, env=env).returncode
    if r == 0 and has_release(pid):
        exe2 = build(pid, True)
        if exe2 is None:
            return 2

        def opt(name, default):
            return cmd[len(cmd) - 1 - cmd[::-1].index(name) + 1] if name in cmd else default
        scale = float(opt("--scale", "1")) * RELEASE_SCALE
        ev = opt("--evidence", None)
        ev2 = "%s/release-%s.%d.json" % (BUILD, pid, os.getpid())
        print("release configuration:", flush=True)
        r = subprocess.run([exe2] + cmd[1:] + [
            "--evidence", ev2, "--scale", str(scale),
            "--seed", str(int(opt("--seed", "1")) + 1000003)], env=env).returncode
        if os.path.exists(ev2):
            if os.path.exists(ev):
                merge(ev, ev2)
            os.unlink(ev2)
    return r if r in (0, 1) else 2


if __name__ == "__main__":
    sys.exit(main())
