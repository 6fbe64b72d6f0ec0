"""C16: statistics, monitors and stopping criteria only observe."""
from ..absint import Hooks, Interp, TooComplex, State, NULL, TRUE, FALSE
from ..core import Check
from ..lib import *

OBSERVERS = {"eoStatBase", "eoSortedStatBase", "eoMonitor", "moStatBase", "eoContinue", "moContinuator", "edoContinue", "edoStatBase", "moeoMetric", "eoDistance", "eoStat",
             "moeoArchiveObjectiveVectorSavingUpdater", "moeoBinaryMetricSavingUpdater", "eoCountedStateSaver", "eoTimedStateSaver"}   # updaters that only save
PRINTED = {"EO", "eoPop", "moeoArchive"}
# components that take the observed object by non-const reference and are held to other rules (C11)
TRUSTED = {"moEval", "moNeighborhood", "moComparator", "moNeighborComparator", "moSolComparator", "moSolNeighborComparator", "eoDistance", "moeoObjectiveVectorComparator", "moeoComparator"}
METHODS = ("operator()", "lastCall", "init", "printOn", "compute", "doit")
SHOWN = {"eoPop", "EO", "moeoArchive", "edoDistrib"}


class Look(Hooks):
    def __init__(self, P, f, report):
        self.P, self.fn, self.report = P, f, report
        self.reads = self.handed = 0
        self.shows = not P.supers(f.cls) & OBSERVERS   # a const operation of an observed object
        self.watch = {i for i, p in enumerate(f.params)}
        self.fields = {fl["n"] for fl, cd in P.fields_of(f.cls) if cd["tu"].types[fl["t"]]["sh"] in ("r", "p") and P.supers(cd["tu"].types[fl["t"]].get("r") or "") & SHOWN}

    def shown(self, p):
        """what the observer is shown that p lies in"""
        while p and p[0][0] == "d":
            v = p[0][1]
            if v[0] == "loc":
                p = v[1] + p[1:]
            elif v[0] == "i":
                q = v[1]
                if q[0] == ("this",) and len(q) == 2 and q[1][1] in self.fields:
                    return "the %s it refers to" % q[1][1]
                if q[0][0] == "arg" and len(q) > 1:
                    return "what it is shown"   # through a pointer of the observed vector
                return None
            else:
                return None
        if p and p[0] == ("this",) and self.fn.const and self.shows:
            return "the object it is asked about"
        if p and p[0][0] == "arg" and not self.shows and isinstance(p[0][1], int):
            t = self.fn.ty(self.fn.params[p[0][1]]["t"])
            if t["sh"] and t.get("rn") not in ("std::basic_ostream", "std::basic_istream", "std::ostream"):
                return "what it is shown"
        return None

    def on_write(self, I, s, path, v, node, fr):
        w = self.shown(path)
        if w:
            self.report(w, node, fr, s)
        return s

    def on_copy(self, I, s, dst, src, node, fr):
        w = self.shown(dst)
        if w:
            self.report(w, node, fr, s)
        return s

    def on_call(self, I, s, c):
        P = self.P
        for a in c.args:
            if a[0] == "loc" and self.shown(a[1]):
                self.handed += 1
        r = c.ot.get("r") if c.ot else None
        if r and c.obj is not None and c.obj != (("this",),):
            sup = P.supers(r)
            if sup & (OBSERVERS | TRUSTED) and not any(c.obj[:1] == (("arg", i),) for i in self.watch):
                t = c.fr.fn.ty(c.node["t"])
                if t.get("b") == "bool" and not t["sh"]:
                    return [(s, TRUE), (s, FALSE)]
                s, u = I.fresh(s, c.node, c.fr, "o")
                return [(s, ("loc", (("d", u),)) if t["sh"] == "r" else u)]
        return None

    def inline(self, I, fn, c):
        if fn.lam or fn.static or fn.cls is None:
            return True
        if c.obj is None:
            return True
        if c.obj[0] == ("this",) and len(c.obj) == 1:
            return True
        return self.shown(c.obj) is not None and not fn.const


def observers(P):
    seen = set()
    for f in functions(P):
        if not f.cls or f.lam or f.ctor or f.dtor or f.static or f.implicit or (f.file, f.line) in seen:
            continue
        sup = P.supers(f.cls)
        if not (sup & OBSERVERS and f.m in METHODS) and not (f.const and sup & PRINTED and not sup & OBSERVERS):
            continue
        seen.add((f.file, f.line))
        yield f


def check():
    c = Check("C16", ("eo", "mo", "moeo", "edo", "smp"), "no operation of a statistic, monitor, metric or criterion writes, on any path, into what it is shown or into a population, individual or archive it refers to")
    P = c.prog

    def work(sub, f):
        def report(what, node, fr, s):
            if (what, node.get("l")) in told:
                return
            told.add((what, node.get("l")))
            sub.violation(f.file, f.line, f.n, "modifies", "modifies %s at %s" % (what, fr.where(node)), s.trail())
        told = set()
        h = Look(P, f, report)
        I = Interp(P, h)
        try:
            I.run(f, thiscls=f.cls)
        except TooComplex as e:
            sub.undecide(f.n, str(e))
            return
        sub.count("operations of observers", f.n)
        sub.count("times the observed object is handed on", f.n, h.handed)

    c.each(list(observers(P)), work)
    c.need("operations of observers", 90)
    c.need("times the observed object is handed on", 60)
    return c
