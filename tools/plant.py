#!/usr/bin/env python3
"""development aid: build and validate planted bugs from tools/plants/*.py
   plant.py ID [--notest]     (spec: dict(property, edits=[(file, old, new)], needs, breaks, demo))"""
import importlib.util, json, os, shutil, subprocess, sys
BASE = os.environ.get("PLANT_BASE", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
ENV = dict(os.environ, JAX_PLATFORMS="cpu", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
DEMO = '''#!/bin/bash
# cwd: the repository. exit 0 when the behaviour is right.
export JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"
here="$(cd "$(dirname "$0")" && pwd)"
exec timeout 280 /opt/venv/bin/python -W ignore "$here/demo.py"
'''
def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, env=kw.pop("env", ENV), **kw)
def specs():
    out = {}
    d = os.path.join(HERE, "plants")
    for f in sorted(os.listdir(d)):
        if f.endswith(".py"):
            s = importlib.util.spec_from_file_location(f[:-3], os.path.join(d, f))
            m = importlib.util.module_from_spec(s); s.loader.exec_module(m)
            out.update(m.S)
    return out
def main():
    S = specs()
    ids = [a for a in sys.argv[1:] if not a.startswith("-")] or list(S)
    test = "--notest" not in sys.argv
    for id in ids:
        s = S[id]
        d = f"/tmp/plant/{id}"
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs("/tmp/plant", exist_ok=True)
        sh(["cp", "-a", BASE, d], "/")
        for f, old, new in s["edits"]:
            p = os.path.join(d, "parametricmatrixmodels", f)
            t = open(p).read()
            if t.count(old) != 1:
                print(id, "EDIT", f, "occurs", t.count(old)); break
            open(p, "w").write(t.replace(old, new))
        else:
            o = os.path.join(os.path.dirname(HERE), "seeded", id)
            os.makedirs(o, exist_ok=True)
            diff = sh(["git", "diff", "--", "."], d).stdout
            open(o + "/patch.diff", "w").write(diff)
            open(o + "/demo.sh", "w").write(DEMO); os.chmod(o + "/demo.sh", 0o755)
            open(o + "/demo.py", "w").write(s["demo"].lstrip())
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(o + "/meta.json", "w"), indent=1)
            a = sh(["bash", o + "/demo.sh"], BASE); b = sh(["bash", o + "/demo.sh"], d)
            line = [id, s["property"], f"demo clean={a.returncode} bug={b.returncode}"]
            if a.returncode: line.append(a.stderr[-600:])
            line.append("| " + (b.stderr.strip().splitlines() or ["-"])[-1][:150])
            if test:
                r = sh("/opt/venv/bin/python -m pytest -q -p no:cacheprovider -n 8 --timeout=600 --continue-on-collection-errors --basetemp=%s/.bt -o junit_family=xunit2 --junitxml=%s/.j.xml; /usr/bin/python3 /opt/vp/results.py %s/.o.json junit:%s/.j.xml" % (d, d, d, d), d, env=dict(ENV, PYTHONPATH=d), shell=True)
                got = json.load(open(d + "/.o.json")) if os.path.exists(d + "/.o.json") else {}
                stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
                passed = set(got.get("passed", []))
                bad = [x for x in stable if x not in passed]
                line.append(f"tests missing={len(bad)} {bad[:3]}")
            c = sh([sys.executable, os.path.join(os.path.dirname(HERE), "check.py"), s["property"]], os.path.dirname(HERE), env=dict(ENV, PMM_REPO=d, PMM_EVIDENCE=d + "/.ev"))
            line.append(f"check={c.returncode}")
            print(*line, flush=True)
            for l in [l for l in c.stdout.splitlines() if l.strip().startswith(("violated", "ANALYSIS"))][:2]:
                print("    ", l.strip()[:220])
        shutil.rmtree(d, ignore_errors=True)
main()
