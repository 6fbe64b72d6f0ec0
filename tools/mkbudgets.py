"""Records, by hand, which criteria are budgets and which evaluators skip valid individuals (an/spec/budgets.json)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from an import prog
from an.absint import State, TooComplex, Interp
from an.checks.c13 import *
P = prog.load(("eo", "mo", "moeo", "edo", "smp"))
State.closure = True
out = {"budgets": [], "skip_valid": [], "throwing_budgets": []}
for f in criteria(P):
    try: r = judge(P, f.cls, criterion_runs(P, f))
    except TooComplex as e: print(f.n, e); continue
    print(f.n, r and (r[0], r[1], set(r[2])))
    if r and not r[2] and 'FitContinuator' not in f.n: out["budgets"].append(f.n.split("::operator()")[0])
for f in evaluators(P):
    if "DummyEval" in f.n: continue
    try: outs = Interp(P, Counting(P, f)).run(f, thiscls=f.cls)
    except TooComplex as e: print(f.n, e); continue
    ok = not any(s.prop.get("again") or s.prop.get("sets") for k, s, v in outs) and any(s.prop.get("evals") or s.prop.get("valid") is False for k, s, v in outs)
    print(ok, f.n)
    r = judge(P, f.cls, thrower_runs(outs))
    if r: print("   throws", r[1], set(r[2]))
    if r and not r[2]: out["throwing_budgets"].append(f.n.split("::operator()")[0])
    if ok: out["skip_valid"].append(f.n.split("::operator()")[0])
out = {k: sorted(set(v)) for k, v in out.items()}
json.dump(out, open(SPEC, "w"), indent=1)
