#!/usr/bin/env python3
"""Planted bugs. The definitions are in tools/seeds/*.py; this writes
/verif/seeded/<id>/ after having confirmed, in a scratch copy of /repo, that the
changed tree builds, passes the stable tests, and that the demonstration passes
without and fails with the change.

usage: seed.py make [ID...]     (re)create and confirm
       seed.py matrix [ID...]   run the quick check of each one's property
       seed.py cross ID CHECK.. run these checks against a planted bug
Checks never read what this writes."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = VERIF + "/seeded"
HERE = VERIF + "/tools/seeds"
BASECOMMIT = open(HERE + "/base").read().strip()
DEFS = []


def S(id, prop, edits, needs, breaks, sources, demo, extra=(), flags=""):
    assert id not in [d["id"] for d in DEFS], id
    DEFS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks,
                     sources=sources, demo=demo, extra=list(extra), flags=flags))


env = {"S": S}
for f in sorted(os.listdir(HERE)):
    if f.endswith(".py"):
        exec(compile(open(HERE + "/" + f).read(), f, "exec"), env)

DEMO_SH = r'''#!/bin/bash
# Demonstration for ggnss; run in the top directory of the repository.
# Everything is written to a scratch directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d) || exit 3
trap 'rm -rf "$work"' EXIT
srcs=""
for s in %(sources)s; do srcs="$srcs $repo/src/$s.cpp"; done
# the sources use some standard headers without including them
g++ -std=c++17 -DDEBUG -O1 -w %(flags)s -include string -include utility -include iostream \
  -include vector -include algorithm -include cassert -include limits \
  -I"$repo/src" -I"$here/shim" -I"$here" -isystem /usr/include/eigen3 \
  "$here/demo.cpp" $srcs -o "$work/demo" || exit 4
cd "$work" || exit 3
timeout 60 ./demo >out.txt 2>err.txt </dev/null
status=$?
grep -a FAILED out.txt
exit $status
'''


def sh(cmd, cwd=None, timeout=600):
    r = subprocess.run(cmd, shell=isinstance(cmd, str), cwd=cwd, timeout=timeout,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return r.returncode, r.stdout.decode(errors="replace")


def scratch():
    d = tempfile.mkdtemp(prefix="seed")
    sh(["cp", "-a", "/repo", d + "/repo"])
    return d


def make(d):
    id = d["id"]
    out = SEEDED + "/" + id
    work = scratch()
    repo = work + "/repo"
    try:
        for f, old, new in d["edits"]:
            p = repo + "/" + f
            t = open(p).read()
            if t.count(old) != 1:
                return "%s: %d times in %s: %r" % (id, t.count(old), f, old)
            open(p, "w").write(t.replace(old, new))
        diff = sh("git diff", repo)[1]
        # removed lines have to be of the original repository
        orig = False
        for f in {e[0] for e in d["edits"]}:
            # only what git itself says, without context
            for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", sh("git diff -U0 -- " + f, repo)[1], re.M):
                a, n = int(m[1]), int(m[2] or 1)
                if n == 0:
                    continue
                b = sh("git blame -s -L %d,+%d %s -- %s" % (a, n, "HEAD", f), repo)[1]
                for l in b.splitlines():
                    if BASECOMMIT.startswith(l[1:8]) and l.startswith("^"):
                        orig = True
                    else:
                        print("note: %s changes a line of an own commit: %s" % (id, l))
        if not orig:
            return id + ": changes no line of the original"
        os.makedirs(out, exist_ok=True)
        open(out + "/patch.diff", "w").write(diff)
        demo = d["demo"].lstrip("\n")
        if demo.startswith("#!"):  # a script of its own
            open(out + "/demo.sh", "w").write(demo + "\n")
        else:
            open(out + "/demo.cpp", "w").write('#include "t.hpp"\n' + demo + "\n")
            open(out + "/demo.sh", "w").write(DEMO_SH % dict(
                sources=" ".join(d["sources"]), flags=d["flags"]))
        os.chmod(out + "/demo.sh", 0o755)
        for e in ([] if demo.startswith("#!") else ["t.hpp"]) + d["extra"]:
            shutil.copy(HERE + "/" + e, out)
        shutil.rmtree(out + "/shim", ignore_errors=True)
        if {"antex", "navrnx", "obsrnx", "sp3c", "bern_utils"} & set(d["sources"]) or "navrnx" in demo:
            shutil.copytree(VERIF + "/shim", out + "/shim")
        json.dump(dict(property=d["prop"], needs=d["needs"], what_it_breaks=d["breaks"]),
                  open(out + "/meta.json", "w"), indent=1)
        # unchanged tree
        rc, o = sh(["bash", out + "/demo.sh"], "/repo")
        if rc:
            return "%s: demo fails (%d) on the unchanged tree: %s" % (id, rc, o[-1500:])
        # changed tree: build and tests (paths of the scripts adapted)
        vp = work + "/vp"
        os.makedirs(vp)
        for s in ("build.sh", "test.sh", "common.sh"):
            t = open("/opt/vp/" + s).read().replace("/repo", repo)
            t = t.replace(". /opt/vp/", ". %s/" % vp).replace("bash /opt/vp/", "bash %s/" % vp)
            open(vp + "/" + s, "w").write(t)
        rc, o = sh(["bash", vp + "/test.sh", work + "/out.json"])
        base = open("/opt/vp/BASELINE.json").read()
        try:
            res = open(work + "/out.json").read()
        except OSError:
            return "%s: no test results: %s" % (id, o[-1500:])
        need = set(re.findall(r"test/\w+(?:\.out)?", base))
        j = json.loads(res)
        passed = set(j.get("passed", [])) if isinstance(j, dict) else set()
        if not need or not need <= passed:
            return "%s: stable tests fail: %s / %s" % (id, res[:500], need)
        rc, o = sh(["bash", out + "/demo.sh"], repo)
        if rc in (0, 3, 4):
            return "%s: demo does not fail on the changed tree: %d %s" % (id, rc, o[-1500:])
        return "%s: ok (demo %d: %s)" % (id, rc, o.strip()[:100])
    finally:
        shutil.rmtree(work, ignore_errors=True)


def check(d, checks=None, tier="quick"):
    work = scratch()
    try:
        rc, o = sh(["git", "apply", SEEDED + "/" + d["id"] + "/patch.diff"], work + "/repo")
        if rc:
            return "%s: does not apply: %s" % (d["id"], o)
        res = []
        for c in checks or [d["prop"]]:
            e = dict(os.environ, VERIF_REPO=work + "/repo")
            r = subprocess.run([sys.executable, VERIF + "/tools/check.py", c, tier,
                                "--evidence", work + "/ev.json", "--replays", work],
                               env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=VERIF)
            o = r.stdout.decode(errors="replace")
            v = [l for l in o.splitlines() if l.startswith("VIOLATION property=" + c + " ")]
            what = [l for l in o.splitlines() if "sub" in l and "fail" in l.lower()]
            res.append("%s %s" % (c, "CAUGHT" if r.returncode == 1 and v else
                                  "missed" if r.returncode == 0 else "ERROR %d %s" % (r.returncode, o[-300:])))
        return "%-28s %s" % (d["id"], "; ".join(res))
    finally:
        shutil.rmtree(work, ignore_errors=True)


def record(id, what):
    """results.txt: the latest result of each, and whether it was ever missed"""
    p = HERE + "/results.txt"
    res = {}
    if os.path.exists(p):
        for l in open(p):
            a, b = l.rstrip("\n").split(None, 1)
            res[a] = b
    was = res.get(id, "")
    if "missed" in what or "first missed" in was:
        what += " (first missed)" if "missed" not in what else ""
        if "missed" in what and "CAUGHT" not in what:
            what = what.replace(" (first missed)", "") + " (first missed)"
    res[id] = what
    with open(p, "w") as f:
        for a in sorted(res):
            f.write("%-28s %s\n" % (a, res[a]))


def main():
    cmd, ids = sys.argv[1], sys.argv[2:]
    if cmd == "cross":
        d = [x for x in DEFS if x["id"] == ids[0]][0]
        print(check(d, ids[1:]))
        return
    sel = [d for d in DEFS if not ids or any(d["id"].startswith(i) for i in ids)]
    with ThreadPoolExecutor(6 if cmd == "make" else 3) as ex:
        for d, r in zip(sel, ex.map(make if cmd == "make" else check, sel)):
            print(r, flush=True)
            if cmd == "matrix":
                record(d["id"], r.split(None, 1)[1])


main()
