#!/usr/bin/env python3
"""Mutation testing of the checks: small random changes of the code under test,
one at a time, in scratch copies; which of them does no check notice?

usage: mutate.py OUT [--workers N] [--per-line N] [--seed N] [--scale X] [--redo OLD] [FILE...]
Writes a line per mutant to OUT (append; those already there are not repeated).
What survives is for a human to look at: it may change nothing observable.
Nothing of this is used by the checks."""
import importlib.util
import os
import random
import re
import shutil
import subprocess
import sys
import threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ROOT = "/tmp/mut"

CHECKS = {
    "antenna.cpp": "C04 C05 C06 C09", "antenna.hpp": "C04 C05 C06 C09",
    "antenna_pcv.cpp": "C11", "antenna_pcv.hpp": "C11",
    "antex.cpp": "C08 C09 C10 C11 C27", "antex.hpp": "C08 C09 C10 C11 C27",
    "bern_utils.cpp": "C25 C31", "bern_utils.hpp": "C25 C31",
    "galnav.cpp": "C18 C12 C14", "gpsnav.cpp": "C18 C12 C14 C15", "glonav.cpp": "C17 C16 C12 C14 C18",
    "navrnx.cpp": "C12 C13 C14 C18 C28", "navrnx.hpp": "C15 C16 C17 C18 C12 C14 C13 C28",
    "gnssobs.cpp": "C01 C02 C03 C19 C20", "gnssobs.hpp": "C01 C02 C03 C19 C20",
    "gnssobsrv.cpp": "C03 C20 C32", "gnssobsrv.hpp": "C03 C20 C32",
    "nvarstr.cpp": "C07 C12 C08", "nvarstr.hpp": "C07 C12 C20",
    "obsrnx.cpp": "C19 C20 C21 C32 C29", "obsrnx.hpp": "C19 C20 C21 C32 C29",
    "rinex.hpp": "C13 C19 C20", "satellite.cpp": "C06 C10", "satellite.hpp": "C06 C10",
    "satsys.cpp": "C02 C03 C12", "satsys.hpp": "C02 C15 C16 C03",
    "sp3c.cpp": "C22 C23 C24 C30", "sp3c.hpp": "C22 C23 C24 C36 C30",
    "gauss_newton.hpp": "C26",
}


def blank(src):
    """the text with comments, strings and characters blanked out"""
    out = []
    i = 0
    st = None
    while i < len(src):
        c = src[i]
        if st is None:
            if src.startswith("//", i):
                st = "l"
            elif src.startswith("/*", i):
                st = "b"
            elif c == '"':
                st = '"'
                out.append('"')
                i += 1
                continue
            elif c == "'":
                st = "'"
                out.append("'")
                i += 1
                continue
            if st is None:
                out.append(c)
                i += 1
                continue
            out.append("  ")
            i += 2
            continue
        if st == "l":
            if c == "\n":
                st = None
                out.append(c)
            else:
                out.append(" ")
            i += 1
        elif st == "b":
            if src.startswith("*/", i):
                st = None
                out.append("  ")
                i += 2
            else:
                out.append(c if c == "\n" else " ")
                i += 1
        else:
            if c == "\\":
                out.append("\\\\" if False else "  ")
                i += 2
            elif c == st:
                st = None
                out.append(c)
                i += 1
            else:
                out.append("#" if c != " " else "_")
                i += 1
    return "".join(out)


OPS = [(r"(?<![<>=!+\-*/&|])<=(?!=)", ["<", ">"]), (r"(?<![<>=!\-])>=(?!=)", [">", "<"]),
       (r"==", ["!="]), (r"!=", ["=="]),
       (r"(?<=[\w\)\] ]) < (?=[\w\(\-])", [" <= ", " > "]), (r"(?<=[\w\)\] ]) > (?=[\w\(\-])", [" >= ", " < "]),
       (r"&&", ["||"]), (r"\|\|", ["&&"]),
       (r"(?<=[\w\)\]]) \+ (?=[\w\(])", [" - "]), (r"(?<=[\w\)\]]) - (?=[\w\(])", [" + "]),
       (r"(?<=[\w\)\]]) \* (?=[\w\(])", [" / "]), (r"(?<=[\w\)\]]) / (?=[\w\(])", [" * "]),
       (r"\+=", ["-=", "="]), (r"-=", ["+="]), (r"\+\+(?=\w)", ["--"]), (r"(?<=\w)\+\+", ["--"]),
       (r"!(?=[\w\(_])", [""]),
       (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
       (r"\bcontinue\b", ["break"]), (r"\bbreak;", [";"]),
       (r"(?<![\w.])(\d+)(?![\w.])", ["INT+1", "INT-1"]),
       (r"(?<![\w.])(\d+\.?\d*e-?\d+|\d+\.\d+)(?![\w.])", ["FLT"]),
       (r"\bsin\b", ["cos"]), (r"\bcos\b", ["sin"]), (r"\bstd::abs\b", [""])]


def mutants(path, rnd, per):
    src = open(path).read()
    b = blank(src)
    pos = 0
    res = []
    inmsg = False
    for ln, line in enumerate(b.split("\n"), 1):
        start = pos
        pos += len(line) + 1
        t = line.strip()
        if t.startswith("std::cerr") or t.startswith("std::cout"):
            inmsg = True
        skip = inmsg
        if inmsg and ";" in line:
            inmsg = False
        if skip or not t or t.startswith("#") or "static_assert" in t or t.startswith("template"):
            continue
        c = []
        for rx, reps in OPS:
            for m in re.finditer(rx, line):
                for r in reps:
                    if r.startswith("INT") and (re.match(r"return \d\d?;|(static )?(const|constexpr|char|double) .*\[\d+\]", t)
                                                or "strncmp" in t or "_CHARS" in t or "MAX_" in t):
                        continue  # which error it is, how large, how much is compared
                    if r.startswith("INT"):
                        v = int(m[0]) + (1 if r == "INT+1" else -1)
                        if v < 0:
                            continue
                        r = str(v)
                    elif r == "FLT":
                        r = "(%s*1.0009765625)" % m[0]
                    c.append((start + m.start(), start + m.end(), r))
        # character and string literals: another one
        for m in re.finditer(r"'#'", line):
            ch = src[start + m.start() + 1]
            if ch.isalnum():
                c.append((start + m.start() + 1, start + m.start() + 2, "Q" if ch != "Q" else "Z"))
        for m in re.finditer(r'"[#_]{2,}"', line):
            k = start + m.start() + 1 + rnd.randrange(m.end() - m.start() - 2)
            if src[k].isalpha():
                c.append((k, k + 1, "Q" if src[k] != "Q" else "Z"))
        # statements left out
        if re.match(r"^\s+[\w:\(\)\[\]\.\->\*&_, +'\"#]+(=|\().*;\s*$", line) and not re.match(
                r"^\s*(const|constexpr|auto|int|double|char|bool|std::\w+(<.*>)?|ngpt::\w+(<.*>)?|float|long|return|static|using|typedef|unsigned|size_t|datetime)\b[^(]*\w+\s*(=|\(|\{|;)", line):
            k = start + len(line) - len(line.lstrip())
            c.append((k, start + len(line.rstrip()), ";"))
        if re.match(r"^\s*return [^;]+;\s*$", line):
            k = start + line.index("return") + 7
            e = start + line.index(";")
            v = src[k:e]
            if v not in ("0",) and re.match(r"^-?\d+$", v):
                c.append((k, e, "0"))
        rnd.shuffle(c)
        for a, e, r in c[:per]:
            new = src[:a] + r + src[e:]
            res.append((ln, src[a:e], r, new, src.split("\n")[ln - 1].strip()))
    return res


def load(repo, build):
    spec = importlib.util.spec_from_file_location("chk%d" % random.getrandbits(40), VERIF + "/tools/check.py")
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    m.REPO = repo
    m.BUILD = build
    return m


def main():
    a = sys.argv[1:]
    out = a.pop(0)
    opt = dict(workers=4, per=1, seed=1, scale="0.3")
    files = []
    while a:
        x = a.pop(0)
        if x == "--workers":
            opt["workers"] = int(a.pop(0))
        elif x == "--per-line":
            opt["per"] = int(a.pop(0))
        elif x == "--seed":
            opt["seed"] = int(a.pop(0))
        elif x == "--scale":
            opt["scale"] = a.pop(0)
        elif x == "--redo":
            opt["redo"] = a.pop(0)
        else:
            files.append(x)
    files = files or sorted(CHECKS)
    rnd = random.Random(opt["seed"])
    todo = []
    for f in files:
        for m in mutants("/repo/src/" + f, rnd, opt["per"]):
            todo.append((f,) + m)
    if "redo" in opt:  # only those that survived before
        old = {"\t".join(l.split("\t")[1:5]).rstrip("\n") for l in open(opt["redo"]) if l.startswith("SURV")}
        todo = [x for x in todo if "%s\t%d\t%r->%r\t%s" % (x[0], x[1], x[2], x[3], x[5]) in old]
    rnd.shuffle(todo)
    done = set()
    if os.path.exists(out):
        for l in open(out):
            done.add("\t".join(l.split("\t")[1:5]).rstrip("\n"))
    print(len(todo), "mutants")
    lock = threading.Lock()
    stats = {}

    def worker(k):
        base = "%s/w%d" % (ROOT, k)
        shutil.rmtree(base, ignore_errors=True)
        shutil.copytree("/repo/src", base + "/repo/src")
        os.makedirs(base + "/ev")
        chk = load(base + "/repo", base + "/build")
        keep = None
        while True:
            with lock:
                if not todo:
                    return
                f, ln, old, new, text, line = todo.pop()
                ident = "%s\t%d\t%r->%r\t%s" % (f, ln, old, new, line)
                if ident in done:
                    continue
                done.add(ident)
            p = base + "/repo/src/" + f
            orig = open("/repo/src/" + f).read()
            open(p, "w").write(text)
            verdict = "SURVIVED"
            try:
                r = subprocess.run(["g++", "-fsyntax-only"] + [x for x in chk.COMMON if x != "-g"] +
                                   ["-I" + base + "/repo/src", "-I" + VERIF + "/shim", "-isystem",
                                    "/usr/include/eigen3", "-x", "c++", p], capture_output=True)
                if r.returncode:
                    verdict = "nocompile"
                else:
                    for c in CHECKS[f].split():
                        with Quiet():
                            exe = chk.build(c)
                        if exe is None:
                            verdict = "nocompile"
                            break
                        e = {x: y for x, y in os.environ.items() if x not in ("ASAN_OPTIONS",)}
                        e["LC_ALL"] = "C"
                        try:
                            r = subprocess.run([exe, "--tier", "quick", "--seed", "1", "--evidence",
                                                base + "/ev/e.json", "--replays", base + "/ev", "--known",
                                                VERIF + "/known_findings.txt", "--scale", opt["scale"]],
                                               env=e, capture_output=True, timeout=400, cwd=base)
                            rc = r.returncode
                        except subprocess.TimeoutExpired:
                            rc = 99
                        if rc:
                            verdict = "killed %s %s" % (c, "" if rc == 1 else "rc=%d" % rc)
                            break
            finally:
                open(p, "w").write(orig)
                # the build directory: what depends on the mutation goes away
                now = set(os.listdir(base + "/build")) if os.path.isdir(base + "/build") else set()
                for n in now:
                    q = base + "/build/" + n
                    try:
                        if not n.endswith(".o"):
                            os.unlink(q)
                        elif keep is not None and n not in keep:
                            os.unlink(q)
                    except OSError:
                        pass
                if keep is None:
                    keep = set()
                # objects of the unchanged tree
                for b in list(KEEPERS(chk)):
                    keep.add(b)
            with lock:
                stats[verdict.split()[0]] = stats.get(verdict.split()[0], 0) + 1
                with open(out, "a") as o:
                    o.write(verdict + "\t" + ident + "\n")
                if sum(stats.values()) % 50 == 0:
                    print(stats, flush=True)

    th = [threading.Thread(target=worker, args=(k,)) for k in range(opt["workers"])]
    for t in th:
        t.start()
    for t in th:
        t.join()
    print(stats)
    shutil.rmtree(ROOT, ignore_errors=True)


class Quiet:
    def __enter__(self):
        pass

    def __exit__(self, *a):
        pass


def KEEPERS(chk):
    """names of the objects of the unchanged tree"""
    if not hasattr(chk, "_keep"):
        names = set()
        import glob
        srcdir = chk.REPO + "/src"
        hdrs = sorted(glob.glob(srcdir + "/*.h*")) + sorted(glob.glob(VERIF + "/shim/ggdatetime/*.hpp"))
        hh = chk.sha(*[chk.rd(h) for h in hdrs], *hdrs)
        inc = ["-I" + srcdir, "-I" + VERIF + "/shim"]
        for s in sorted(glob.glob(srcdir + "/*.cpp")):
            b = os.path.basename(s)
            fl = chk.COMMON + chk.SAN + chk.COV + inc
            names.add(b[:-4] + "-" + chk.sha(hh, b, chk.rd(s), " ".join(fl)) + ".o")
        eng = sorted(glob.glob(VERIF + "/engine/*.hpp") + glob.glob(VERIF + "/harness/*.hpp"))
        eh = chk.sha(*[chk.rd(e) for e in eng])
        hfl = chk.COMMON + chk.SAN + inc + ["-I" + VERIF + "/engine", "-I" + VERIF + "/harness",
                                            "-isystem", "/usr/include/eigen3"]
        for h in glob.glob(VERIF + "/harness/C*.cpp"):
            pid = os.path.basename(h)[:-4]
            names.add(pid + "-" + chk.sha(hh, eh, chk.rd(h), " ".join(hfl)) + ".o")
        chk._keep = names
    return chk._keep


if __name__ == "__main__":
    main()
