"""Records, by hand, which algorithms evaluate the population they are started with (an/spec/initial.json)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from an import prog
from an.absint import State, TooComplex
from an.checks.c03 import SPEC, analyse, name, roots
P = prog.load(("eo", "mo", "moeo", "edo", "smp"))
State.closure = True
out = []
for f, i in roots(P):
    try:
        ok = not analyse(P, None, f, i, True, quiet=True).bad
    except TooComplex as e:
        print("undecided", name(f), e)
        continue
    print(ok, name(f))
    if ok:
        out.append(name(f))
json.dump({"evaluates_its_initial_population": sorted(set(out))}, open(SPEC, "w"), indent=1)
