"""Obligation bookkeeping, evidence and verdicts shared by all checks."""
from __future__ import annotations

import contextlib
import json
import os
import time
import traceback

from .program import AnalysisError

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Report:
    def __init__(self, pid, tier="quick", seed=1):
        self.pid = pid
        self.tier = tier
        self.seed = seed
        self.t0 = time.time()
        self.obs = []          # (rule, construct, ok, msg, where)
        self.counts = {}
        self.rules = {}        # rule -> text
        self.funcs = set()
        self.minimum = {}      # rule -> minimal number of instances
        self.assumptions = []
        self.undecided = []    # (unit, reason)

    def rule(self, name, text, minimum=1):
        self.rules[name] = text
        self.minimum[name] = minimum

    def ob(self, rule, construct, ok, msg="", where=""):
        if rule not in self.rules:
            self.rules[rule] = rule
        self.obs.append((rule, str(construct), bool(ok), msg, where))
        return ok

    @contextlib.contextmanager
    def unit(self, name):
        """one independent part of the analysis: code the engine cannot follow
        leaves that part undecided (reported, never counted as holding)"""
        try:
            yield
        except AnalysisError as e:
            self.undecided.append((str(name), str(e)[:300]))
        except (RecursionError, MemoryError) as e:
            self.undecided.append((str(name), type(e).__name__))
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)[-1]
            self.undecided.append((str(name), f"internal {type(e).__name__}: {e} at {os.path.basename(tb.filename)}:{tb.lineno}"[:300]))

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def saw(self, interp):
        self.funcs |= interp.funcs_seen
        self.count("abstract_steps", interp.steps)
        self.count("events", len(interp.events))

    def assume(self, s):
        self.assumptions.append(s)


def known_findings():
    p = os.path.join(ROOT, "known_findings.jsonl")
    out = {}
    if os.path.exists(p):
        with open(p) as f:
            for line in f:
                line = line.strip()
                if not line:
                    continue
                d = json.loads(line)
                if d.get("status") == "known":
                    out[(d["property"], d["rule"], d["construct"])] = d
    return out


def finish(rep):
    """print the verdict, write evidence, return exit code"""
    known = known_findings()
    per = {}
    for rule, construct, ok, msg, where in rep.obs:
        d = per.setdefault(rule, [0, 0])
        d[0] += 1
        d[1] += 0 if ok else 1
    errs = []
    for rule, mn in rep.minimum.items():
        n = per.get(rule, [0, 0])[0]
        if n < mn:
            errs.append(f"rule {rule}: {n} instances analysed, at least {mn} expected")
    viol, kf = [], []
    seen = set()
    for rule, construct, ok, msg, where in rep.obs:
        if ok or (rule, construct) in seen:
            continue
        seen.add((rule, construct))
        k = known.get((rep.pid, rule, construct))
        if k:
            kf.append((k, msg))
        else:
            viol.append({"rule": rule, "rule_text": rep.rules[rule], "construct": construct, "message": msg, "where": where})
    ev = {
        "property": rep.pid,
        "tier": rep.tier,
        "seed": rep.seed,
        "level": "other",
        "coverage": {
            "explanation": "static value-flow analysis of /repo/parametricmatrixmodels; every obligation of every rule below was decided from the source on this run",
            "rules": {r: {"text": rep.rules[r], "instances": per.get(r, [0, 0])[0], "violated": per.get(r, [0, 0])[1]} for r in rep.rules},
            "obligations": len(rep.obs),
            "functions_analysed": len(rep.funcs),
            "functions": sorted(rep.funcs)[:400],
            "counts": rep.counts,
            "undecided": [{"unit": u, "reason": r} for u, r in rep.undecided],
            "known_findings": [f"{k['rule']} {k['construct']}" for k, _ in kf],
        },
        "assumptions": rep.assumptions,
        "violations": len(viol),
        "wall_s": round(time.time() - rep.t0, 3),
    }
    evdir = os.environ.get("PMM_EVIDENCE") or os.path.join(ROOT, "evidence")
    os.makedirs(evdir, exist_ok=True)
    with open(os.path.join(evdir, f"{rep.pid}.json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    print(f"{rep.pid}: {len(rep.obs)} obligations over {len(rep.funcs)} functions, {len(rep.rules)} rules, {ev['wall_s']} s")
    for r in rep.rules:
        print(f"  rule {r}: {per.get(r, [0, 0])[0]} instances, {per.get(r, [0, 0])[1]} violated")
    for u, r in rep.undecided[:20]:
        print(f"  undecided {u}: {r}")
    if len(rep.undecided) > 20:
        print(f"  ... {len(rep.undecided)} undecided units in all")
    for k, msg in kf:
        print(f"KNOWN-FINDING: property={rep.pid} {k['rule']} {k['construct']}: {k['what']}")
    if viol:
        rp = os.path.join(evdir, f"{rep.pid}.violation.json")
        with open(rp, "w") as f:
            json.dump(viol, f, indent=1)
        for v in viol:
            print(f"  violated {v['rule']} at {v['construct']} [{v['where']}]: {v['message']}")
        print(f"VIOLATION property={rep.pid} replay={rp}")
        return 1
    if errs:
        for e in errs:
            print(f"ANALYSIS-ERROR {rep.pid}: {e}")
        return 2
    return 0
