"""Runs a script again and again, as its own main program: a line of
tab-separated arguments in; status and length of the output, and the output, out.
usage: pyserver.py SCRIPT"""
import io
import os
import sys

script = sys.argv[1]
with open(script, "rb") as f:
    code = compile(f.read(), script, "exec")
real = os.fdopen(os.dup(1), "wb", 0)
devnull = os.open(os.devnull, os.O_WRONLY)
os.dup2(devnull, 1)
os.dup2(devnull, 2)
for raw in sys.stdin.buffer:
    args = raw.rstrip(b"\n").decode("latin-1").split("\t")
    sys.argv = [script] + args
    out = io.StringIO()
    err = io.StringIO()
    so, se = sys.stdout, sys.stderr
    sys.stdout, sys.stderr = out, err
    status = 0
    note = ""
    glob = {"__name__": "__main__", "__file__": script, "__builtins__": __builtins__}
    try:
        exec(code, glob)
    except SystemExit as e:
        c = e.code
        status = 0 if c is None else c if isinstance(c, int) else 1
    except BaseException as e:  # an uncaught one ends the program with status 1
        status = 1
        note = "%s: %s" % (type(e).__name__, e)
    sys.stdout, sys.stderr = so, se
    b = out.getvalue().encode("latin-1", "replace")
    n = note.encode("latin-1", "replace").replace(b"\n", b" ")[:300]
    real.write(b"%d %d %d\n" % (status, len(b), len(n)) + b + n)
