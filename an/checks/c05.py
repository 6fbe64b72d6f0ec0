"""C05: checkpoints call every registered component exactly once, in order, and say goodbye."""
from ..absint import Interp, TooComplex, State
from ..composite import *
from ..core import Check
from ..lib import *

STATS = {"eoStatBase", "eoSortedStatBase", "moStatBase", "edoStatBase"}


def checkpoints(P):
    """one instantiation of every class that combines a criterion with other components"""
    seen = set()
    for cls, cd in sorted(P.classes.items()):
        if not cd.get("repo") or cd["n"] in seen or not P.supers(cls) & CRITERIA:
            continue
        cs = containers(P, cls)
        if cs and any(f.cls == cls and f.m == "operator()" for f in functions(P)):
            seen.add(cd["n"])
            yield cls, cd, cs


def check():
    c = Check("C05", ("eo", "mo", "moeo", "edo", "smp"), "for an arbitrary member of every container of a checkpoint: called exactly once per generation on every path, statistics before what shows them, final call exactly once when stopping and never otherwise, initialisation forwarded, registration appends the member")
    P = c.prog
    State.closure = True
    for cls, cd, cs in checkpoints(P):
        c.count("checkpoints", cd["n"])
        own = {f.m: f for f in functions(P) if f.cls == cls and f.m in Members.METHODS}
        late = "lastCall" in own
        for cont, e in sorted(cs.items()):
            if has_method(P, e, "lastCall") and not late and not says_goodbye(P, own["operator()"]):
                c.violation(cd["file"], cd["line"], cd["n"], "%s:final-call" % label(cont), "members of %s never receive their final call" % label(cont))
        if len(cs) < 2:
            own = {m: f for m, f in own.items() if m != "operator()"}
        for cont, e in sorted(cs.items()):
            for m, f in sorted(own.items()):
                if m != "operator()" and not has_method(P, e, m):
                    continue
                run(c, P, cls, cs, f, [("w", cont)], m, e, late)
        if len(cs) < 2:
            continue
        f = own["operator()"]
        stats = [k for k, e in cs.items() if P.supers(e) & STATS]
        shown = [k for k, e in cs.items() if not P.supers(e) & (STATS | CRITERIA)]
        for a in stats:
            for b in shown:
                order(c, P, cls, cs, f, a, b)
            together(c, P, cls, cs, f, a)
        registration(c, P, cls, cs)
    c.need("checkpoints", 3)
    c.need("calls of arbitrary members", 25)
    c.need("orders of a statistic and what shows it", 8)
    c.need("registrations", 10)
    return c


def says_goodbye(P, f):
    """the class gives final calls when it is about to answer no"""
    if any(n.get("k") == "call" and n.get("m") == "lastCall" for n in nodes(f)):
        return True
    return any(n.get("k") == "call" and n.get("f") in P.fns and P.fns[n["f"]].m == "operator()" and n.get("qual") and says_goodbye(P, P.fns[n["f"]]) or
               n.get("k") == "call" and n.get("f") in P.fns and P.fns[n["f"]].cn == f.cn and n["f"] != f.usr and says_goodbye(P, P.fns[n["f"]]) for n in nodes(f))


def outs_of(c, P, cls, f, h, s0):
    try:
        return Interp(P, h).run(f, thiscls=cls, s0=s0)
    except TooComplex as e:
        c.undecide("%s#%s" % (f.file, f.n), str(e))
        return []


def run(c, P, cls, cs, f, tracked, m, e, late):
    h = Members(P, cs, tracked)
    outs = outs_of(c, P, cls, f, h, entry(P, cls, tracked, unit=True))
    cont = tracked[0][1]
    inherited = len(cont) > 1 and not any(x["n"] == cont[-1][1] for x in P.classes[cls].get("fields", []))
    what = "a member of %s" % label(cont)
    c.count("calls of arbitrary members", "%s of %s in %s" % (m, what, f.n))
    for k, s, v in outs:
        if k != "return":
            continue
        n = s.prop.get(("calls", "w", m), 0)
        if n != 1 and not (n == 0 and inherited and m == "operator()"):
            c.violation(f.file, f.line, f.n, "%s:%s" % (label(cont), m), "%s receives %s %d times on a path through %s" % (what, m, n, f.n), s.trail())
        if m != "operator()":
            continue
        last = s.prop.get(("calls", "w", "lastCall"), 0)
        if not has_method(P, e, "lastCall") or late:
            want = 0
        elif v[0] == "c":
            want = 0 if v[1] else 1
        else:
            continue
        if last != want:
            c.violation(f.file, f.line, f.n, "%s:last" % label(cont), "%s receives its final call %d times when the checkpoint answers %s" % (what, last, v[1] if v[0] == "c" else v), s.trail())


def order(c, P, cls, cs, f, a, b):
    tr = [("w", a), ("x", b)]
    h = Members(P, cs, tr, shows=("x",))
    c.count("orders of a statistic and what shows it", "%s, %s in %s" % (label(a), label(b), f.n))
    for k, s, v in outs_of(c, P, cls, f, h, entry(P, cls, tr, unit=True)):
        if k == "return" and s.prop.get("late"):
            c.violation(f.file, f.line, f.n, "%s-after-%s" % (label(a), label(b)), "a member of %s is called at %s after a member of %s was shown at %s" % ((label(a), s.prop["late"][0], label(b), s.prop["late"][1])), s.trail())


def together(c, P, cls, cs, f, a):
    tr = [("w", a), ("x", a)]
    h = Members(P, cs, tr)
    c.count("pairs of statistics", "%s in %s" % (label(a), f.n))
    for k, s, v in outs_of(c, P, cls, f, h, entry(P, cls, tr)):
        if k == "return" and s.prop.get(("calls", "w", "operator()"), 0) != s.prop.get(("calls", "x", "operator()"), 0):
            c.violation(f.file, f.line, f.n, "%s:together" % label(a), "in one generation one member of %s is computed and another one is not" % label(a), s.trail())


def registration(c, P, cls, cs):
    for f in functions(P):
        if f.cls != cls or not (f.ctor and not f.node.get("cp") or f.m == "add"):
            continue
        want = [(i, P.supers(f.ty(p["t"]).get("r") or "")) for i, p in enumerate(f.params) if f.ty(p["t"])["sh"] == "r"]
        want = [(i, k) for i, sup in want for k, e in cs.items() if P.classes[e]["n"] in sup]
        if not want:
            continue
        for k, s, v in outs_of(c, P, cls, f, Hooks(), None):
            if k != "return":
                continue
            for i, cont in want:
                if f.ctor and sum(1 for j, x in want if j == i) > 1:
                    continue
                n = s.read(cont + (("f", "#n"),))
                n0 = ("c", 0) if f.ctor else State().read(cont + (("f", "#n"),))
                d = sub(n, n0)
                kept = [p for p, x in s.env.items() if p[:len(cont)] == cont and len(p) == len(cont) + 1 and p[-1][0] == "e" and x == ("loc", (("arg", i),))]
                c.count("registrations", "%s of %s" % (label(cont), f.n))
                if d[0] != "c" or d[1] < 1 or not kept:
                    c.violation(f.file, f.line, f.n, "register:%s" % label(cont), "the component given is not appended to %s" % label(cont), s.trail())
