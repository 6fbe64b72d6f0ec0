"""Records the table of operations that reject misuse by throwing (an/spec/raises.json)
from the current tree. Run by hand when a new rejection is added; never by a check."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from an import prog
from an.checks import c18

P = prog.load(("eo", "mo", "moeo", "edo", "smp"))
first = {k: v[0] for k, v in c18.rejecting(P, ()).items() if v[0]}
full = {k: v[0] for k, v in c18.rejecting(P, first).items()}
json.dump(full, open(os.path.join(prog.HERE, "an", "spec", "raises.json"), "w"), indent=0, sort_keys=True)
print(len(full), sum(full.values()))
