#!/usr/bin/env python3
"""development aid: apply a textual change to a scratch copy of the package
and run checks on it.   mut.py FILE 'old' 'new' P06 [P07 ...]   (old must be unique,
or pass N@old to pick the N-th occurrence)"""
import os, shutil, subprocess, sys, tempfile
f, old, new, *pids = sys.argv[1:]
n = None
if "@" in old and old.split("@", 1)[0].isdigit():
    n, old = old.split("@", 1)
    n = int(n)
old = old.encode().decode("unicode_escape"); new = new.encode().decode("unicode_escape")
d = tempfile.mkdtemp(prefix="mut")
try:
    shutil.copytree("/repo/parametricmatrixmodels", d + "/parametricmatrixmodels")
    shutil.copytree("/repo/scripts", d + "/scripts")
    p = os.path.join(d, "parametricmatrixmodels", f)
    s = open(p).read()
    c = s.count(old)
    if n is None and c != 1 or n is not None and c <= n:
        sys.exit(f"old text occurs {c} times")
    i = -1
    for _ in range((n or 0) + 1):
        i = s.index(old, i + 1)
    s = s[:i] + new + s[i + len(old):]
    open(p, "w").write(s)
    compile(s, p, "exec")
    env = dict(os.environ, PMM_REPO=d, PMM_EVIDENCE=d)
    for pid in pids:
        r = subprocess.run([sys.executable, os.path.join(os.path.dirname(__file__), "..", "check.py"), pid], capture_output=True, text=True, env=env)
        v = [l[:260] for l in r.stdout.splitlines() if l.strip().startswith(("violated", "ANALYSIS"))]
        print(pid, "exit", r.returncode, *(v[:4]), sep="\n   ")
        if r.returncode == 2: print(r.stderr[-800:])
finally:
    shutil.rmtree(d)
