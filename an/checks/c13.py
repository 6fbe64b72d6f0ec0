"""C13: evaluations and generations are counted one by one and budgets are enforced at their limit."""
import json
import os
from ..absint import Hooks, Interp, TooComplex, State, NULL, TRUE, FALSE, lin, mklin, mulc, add, mkcmp, mentions
from .. import witness
from ..composite import CRITERIA
from ..core import Check
from ..lib import *
from ..prog import HERE

SPEC = os.path.join(HERE, "an", "spec", "budgets.json")
EVALS = {"eoEvalFunc", "moEval"}
COUNT = {"eoValueParam"}


def counter_value(P, cls):
    """does an object of this class hold an integer count? (an evaluator that is a parameter)"""
    sup = P.superclasses(cls)
    return any(b.startswith("eoValueParam<unsigned") or b.startswith("eoValueParam<int") or b.startswith("eoValueParam<long") for b in sup)


class Counting(Hooks):
    def __init__(self, P, f):
        self.P, self.fn = P, f
        self.count = None

    def on_call(self, I, s, c):
        P = self.P
        if c.m in ("invalid", "invalidObjectiveVector") and c.obj == (("arg", 0),) and not c.args:
            k = s.prop.get("valid")
            if s.prop.get("evals"):
                return [(s, FALSE), (s, TRUE)]
            if k is not None:
                return [(s, FALSE if k else TRUE)]
            return [(s.setp("valid", True), FALSE), (s.setp("valid", False), TRUE)]
        r = c.ot.get("r") if c.ot else None
        if c.m == "operator()" and r and c.obj is not None and c.obj != (("this",),) and P.supers(r) & EVALS:
            return [(self.evaluate(s, c.node, c.fr), NULL)]
        if c.node.get("fe") is not None and c.obj is None and len(c.args) >= 1 and c.args[0] == ("loc", (("arg", 0),)):
            # a function pointer that computes the fitness
            s, u = I.fresh(self.evaluate(s, c.node, c.fr), c.node, c.fr, "fp")
            return [(s, u)]
        if c.m in ("fitness", "objectiveVector") and c.obj == (("arg", 0),) and c.args:
            return [(s.setp("sets", True) if s.prop.get("valid") is not False else s, NULL)]
        return None

    def evaluate(self, s, node, fr):
        if s.prop.get("valid") is not False:
            s = s.setp("again", fr.where(node))
        return s.setp("evals", min(s.prop.get("evals", 0) + 1, 3)).trace("%s: evaluation" % fr.where(node))

    def inline(self, I, fn, c):
        if c.obj is not None and c.obj[0] in (("arg", 0), ("arg", 1)):
            return False
        return fn.m in ("value",) or c.obj is not None and c.obj[0] == ("this",) or fn.lam


class Each(Hooks):
    """how often an arbitrary individual of the population is handed to the evaluator"""
    POP = (("arg", 1),)

    def __init__(self, P, f):
        self.P, self.fn = P, f

    def on_call(self, I, s, c):
        if c.m != "operator()" or c.obj is None or not c.args or c.args[0][0] != "loc":
            return None
        i = witness.index(c.args[0][1], self.POP)
        if i is None:
            return None
        out = []
        for x, w in witness.split(s, i, "individual"):
            out.append((x.setp("calls", min(x.prop.get("calls", 0) + 1, 3)) if w else x, NULL))
        return out

    def inline(self, I, fn, c):
        return fn.lam or fn.static or fn.cls is None or c.obj is not None and c.obj[0] == ("this",)


class Criterion(Hooks):
    """a criterion: everything it consults is inlined or opaque"""

    def inline(self, I, fn, c):
        if fn.m == "value" or fn.lam or fn.static:
            return True
        return c.obj is not None and c.obj[0] == ("this",) and fn.m != "className"


def limits(P, cls):
    """numeric attributes that an operation or initialiser of the criterion never changes"""
    fl = {}
    for f, cd in P.fields_of(cls):
        t = cd["tu"].types[f["t"]]
        if t.get("b") in ("int", "uint", "float"):
            fl[f["n"]] = t
    names = {P.classes[c]["n"] for c in [cls] + list(P.superclasses(cls)) if c in P.classes}
    for f in functions(P):
        if f.cn not in names or f.m not in ("operator()", "init", "initParam", "setup"):
            continue
        for n in nodes(f):
            t = n.get("a") if n.get("k") == "asg" else n.get("e") if n.get("k") == "un" and n.get("op", "")[:2] in ("++", "--") else None
            while isinstance(t, dict) and t.get("k") in ("load", "conv", "cast"):
                t = t["e"]
            if isinstance(t, dict) and t.get("k") == "mem":
                fl.pop(t["f"], None)
    return fl


def answers(I, outs):
    for k, s, v in outs:
        if k != "return":
            continue
        for t in (True, False):
            x = s.assume(v, t) if v is not None else None
            if x is not None:
                yield x, t


def compared(s, L):
    """{X: signs of X - L} for everything the path compared with the limit"""
    out = {}
    for f, sg in s.facts.items():
        if f[0] != "sg":
            continue
        k, d = lin(f[1])
        if L not in d or abs(d[L]) != 1 or len(d) < 2:
            continue
        sg = frozenset(sg)
        e = f[1]
        if d[L] > 0:
            e = mulc(e, -1)
            sg = frozenset({"-": "+", "+": "-", "0": "0"}[x] for x in sg)
        out[add(e, L)] = sg
    return out


def judge(P, cls, res):
    """res: [(state, goes on?)] -> (X, limit field, problems) of a budget, or None when it is not one"""
    if not {t for x, t in res} == {True, False}:
        return None
    own = {p for x, t in res for p, v in x.env.items() if v != ("i", p) and (p[0] == ("this",) or p[0][0] == "d" and mentions(p[0], lambda v: v == ("this",)))}
    best = None
    for name in limits(P, cls):
        L = ("i", (("this",), ("f", name)))
        xs = {X for x, t in res for X in compared(x, L)}
        for X in sorted(xs, key=repr) + sorted((("final", p) for p in own), key=repr):
            pr = []
            for x, t in res:
                now = x.read(X[1]) if X[0] == "final" else X
                if not isinstance(now, tuple) or now[0] == "loc" or mkcmp("<", now, L)[0] not in ("cmp", "c"):
                    pr.append("no count")
                    continue
                if x.assume(mkcmp("<", now, L), not t) is not None:
                    pr.append("goes on although its limit may have been reached" if t else "stops although the count may be below its limit")
                if X[0] == "final" or now in x.env.values():
                    continue
                # the count compared is the current one
                k, d = lin(now)
                if any(s[0] == "i" and s[1] in x.env and x.env[s[1]] != s for s in d):
                    pr.append("the value compared is not the current count")
                elif k != 0:
                    pr.append("the value compared with the limit is off by %s" % k)
            if best is None or len(pr) < len(best[2]):
                best = (X, name, pr)
    return best


def own_count(P, cls, X):
    """the count is kept by the criterion itself: nobody else can make it advance"""
    sy = [("i", X[1])] if X[0] == "final" else list(lin(X)[1])
    return len(sy) == 1 and sy[0][0] == "i" and not any(mentions(sy[0], lambda v: v == ("f", u)) for u in counters_used(P, cls))


def count_of(X):
    return ("i", X[1]) if X[0] == "final" else add(X, ("c", lin(X)[0]), -1)


def total_of(X):
    """the count measured from zero, not from the recorded start"""
    r = ("c", 0)
    for a, n in lin(count_of(X))[1].items():
        if not (a[0] == "i" and a[1][0] == ("this",)):
            r = add(r, mulc(a, n))
    return r


def restarted(P, f, X):
    """values that the count of a criterion can have right after its initialisation, or None"""
    init = next((g for g in functions(P) if g.m == "init" and g.cls == f.cls), None)
    if init is None:
        return None, []
    out = []
    I = Interp(P, Criterion())
    for k, s, v in I.run(init, thiscls=f.cls):
        if k != "return":
            continue
        if X[0] == "final":
            out.append((s.read(X[1]), s))
            continue
        k0, d = lin(X)
        r = ("c", 0)
        for a, n in d.items():
            r = add(r, mulc(s.read(a[1]) if a[0] == "i" else a, n))
        out.append((r, s))
    return init, out


def criterion_runs(P, f):
    I = Interp(P, Criterion())
    return list(answers(I, I.run(f, thiscls=f.cls)))


def thrower_runs(outs):
    return [(s, k == "return") for k, s, v in outs if k == "throw" or s.prop.get("evals")]


def counters_used(P, cls):
    return [f["n"] for f, cd in P.fields_of(cls) if cd["tu"].types[f["t"]]["sh"] == "r" and counter_value(P, cd["tu"].types[f["t"]].get("r") or "")]


def criteria(P):
    seen = set()
    for f in functions(P):
        if f.m == "operator()" and f.cls and not f.lam and (f.file, f.line) not in seen and P.supers(f.cls) & CRITERIA:
            seen.add((f.file, f.line))
            yield f


def evaluators(P):
    seen = set()
    for f in functions(P):
        if f.m == "operator()" and f.cls and not f.lam and (f.file, f.line) not in seen and P.supers(f.cls) & EVALS and f.params:
            seen.add((f.file, f.line))
            yield f


def check():
    c = Check("C13", ("eo", "mo", "moeo", "edo", "smp"), "a counting evaluator adds exactly as many to its count as it evaluates, on every path; an evaluator that skips valid individuals does so on every path; a budget criterion answers yes exactly while the current count is below its limit")
    P = c.prog
    State.closure = True
    with open(SPEC) as fh:
        spec = json.load(fh)
    for f in evaluators(P):
        if "DummyEval" in f.n or not any(n.get("k") == "call" for n in nodes(f)):
            continue
        cn = f.n.split("::operator()")[0]
        if cn not in spec["throwing_budgets"] and cn not in spec["skip_valid"] and not counter_value(P, f.cls):
            continue
        h = Counting(P, f)
        I = Interp(P, h)
        try:
            outs = I.run(f, thiscls=f.cls)
        except TooComplex as e:
            c.undecide(f.n, str(e))
            continue
        if cn in spec["throwing_budgets"]:
            c.count("evaluators that enforce a budget", f.n)
            r = judge(P, f.cls, thrower_runs(outs))
            for p in sorted(set(r[2] if r else ["does not depend on a count compared with the limit"]))[:1]:
                c.violation(f.file, f.line, f.n, "limit", p)
        if counter_value(P, f.cls):
            vf = next((P.fns[m["usr"]] for b in [f.cls] + list(P.superclasses(f.cls)) if b in P.classes for m in P.classes[b].get("methods", []) if m["n"] == "value" and not m.get("const") and not m.get("pt") and m["usr"] in P.fns), None)
            if vf is None:
                c.undecide(f.n, "no count found")
                continue
            vp = [v[1] for k, s, v in Interp(P, Hooks()).run(vf, thiscls=f.cls) if k == "return" and v and v[0] == "loc"]
            c.count("counting evaluators", f.n)
            for k, s, v in outs:
                n0, n1 = ("i", vp[0]), s.read(vp[0])
                d = add(n1, n0, -1)
                n = s.prop.get("evals", 0)
                c.count("paths through counting evaluators", f.n)
                if d != ("c", n):
                    c.violation(f.file, f.line, f.n, "count", "%d evaluation(s) on a path that changes the count by %s" % (n, d[1] if d[0] == "c" else "something else"), s.trail())
        bad = [s for k, s, v in outs if s.prop.get("again") or s.prop.get("sets")]
        if cn in spec["skip_valid"]:
            c.count("evaluators that skip valid individuals", f.n)
            for s in bad[:1]:
                c.violation(f.file, f.line, f.n, "evaluates-again", "an individual with a valid fitness is evaluated again", s.trail())
    for f in functions(P):
        if f.m != "operator()" or not f.cls or f.lam or "eoPopEvalFunc" not in P.supers(f.cls) or len(f.params) != 2 or not any(n.get("k") == "call" for n in nodes(f)):
            continue
        try:
            outs = Interp(P, Each(P, f)).run(f, thiscls=f.cls, s0=witness.setup(State(), "individual", Each.POP))
        except TooComplex as e:
            c.undecide(f.n, str(e))
            continue
        c.count("population evaluators", f.n)
        for k, s, v in outs:
            n = s.prop.get("calls", 0)
            if k == "return" and n != 1:
                c.violation(f.file, f.line, f.n, "each-once", "an individual of the population is evaluated %s" % ("more than once" if n > 1 else "not at all"), s.trail())
                break
    for f in criteria(P):
        cn = f.n.split("::operator()")[0]
        if cn not in spec["budgets"]:
            continue
        try:
            r = judge(P, f.cls, criterion_runs(P, f))
        except TooComplex as e:
            c.undecide(f.n, str(e))
            continue
        c.count("budget criteria", f.n)
        if r is None:
            c.violation(f.file, f.line, f.n, "no-limit", "the answer does not depend on a count compared with the limit")
            continue
        X, name, pr = r
        for p in sorted(set(pr))[:1]:
            c.violation(f.file, f.line, f.n, "limit", "%s" % p)
        if own_count(P, f.cls, X):
            c.count("criteria that count their own calls", f.n)
            q = X[1] if X[0] == "final" else next(iter(lin(X)[1]))[1]
            for x, t in criterion_runs(P, f):
                if x.read(q) == ("i", q):
                    c.violation(f.file, f.line, f.n, "no-step", "a call leaves the count as it was", x.trail())
                    break
        init, vals = restarted(P, f, X)
        if init is not None:
            c.count("starts of a budget", f.n)
        # an initialisation that the user asked not to restart counts everything counted so far
        unknown = lambda v: mentions(v, lambda q: isinstance(q, tuple) and q and q[0] in ("u", "uo"))
        bad = []
        if not unknown(count_of(X)):
            bad = [s for v, s in vals if v not in (("c", 0), count_of(X), total_of(X)) and not unknown(v)]
            if not bad and vals and not any(v == ("c", 0) or unknown(v) for v, s in vals):
                bad = [vals[0][1]]
        for s in bad[:1]:
            c.violation(init.file, init.line, init.n, "restart", "the count is not back at its start after the initialisation", s.trail())
        for u in counters_used(P, f.cls):
            c.count("counters consulted", f.n + " " + u)
            if not mentions(X, lambda v: v == ("f", u)):
                c.violation(f.file, f.line, f.n, "counter:" + u, "the count of one of its counters does not enter the comparison with the limit")
    c.need("counting evaluators", 3)
    c.need("evaluators that skip valid individuals", 5)
    c.need("evaluators that enforce a budget", 1)
    c.need("population evaluators", 1)
    c.need("budget criteria", 7)
    c.need("starts of a budget", 3)
    c.need("criteria that count their own calls", 2)
    return c
