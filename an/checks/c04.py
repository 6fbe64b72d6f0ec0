"""C04: algorithms obey their stopping criterion; combinations of criteria are conjunctions."""
from ..absint import Hooks, Interp, TooComplex, State, NULL, TRUE, FALSE
from .. import witness
from ..composite import CRITERIA, Members, containers, entry, label
from ..core import Check
from ..lib import *

# steps of the search itself; the first group is made once per iteration on the whole population or solution
WHOLE = {"eoBreed", "eoReplacement", "eoTransform", "eoSelect", "moNeighborhoodExplorer", "moeoPopNeighborhoodExplorer", "eoDistribUpdater", "edoEstimator", "eoAlgo"}
SINGLE = {"eoEvalFunc", "eoMonOp", "eoQuadOp", "eoBinOp", "eoFlight", "eoVelocity", "eoSelectOne", "eoPopEvalFunc", "edoSampler", "eoMerge", "eoReduce", "eoGenOp", "eoInit", "paradiseo::smp::Scheduler"}


class Run(Hooks):
    def __init__(self, P, c, fn):
        self.P, self.c, self.fn = P, c, fn
        self.consults = self.steps = 0

    def on_call(self, I, s, c):
        P = self.P
        r = c.ot.get("r") if c.ot else None
        if c.m is None or c.obj is None or not r:
            return None
        sup = P.supers(r)
        if c.m == "operator()" and sup & CRITERIA:
            return self.consult(I, s, c, sup)
        if c.m == "isContinue" or c.m == "operator()" and self.natural(c, sup):
            s, u = I.fresh(s, c.node, c.fr)
            return [(s, TRUE), (s.setp("stop", True).trace("%s: the search ends by itself" % c.fr.where(c.node)), FALSE)]
        whole, single = sup & WHOLE, sup & SINGLE
        if not (whole or single) or c.m in ("className", "setup", "init", "initParam", "lastCall", "terminate") or c.exact and c.m != "operator()":
            return None
        if c.obj[0][0] == "v" or c.obj == (("this",),):
            return None
        self.steps += 1
        refused = s.prop.get("refused")
        if refused:
            self.c.violation(self.fn.file, self.fn.line, self.fn.n, "goes-on", "the search goes on at %s although the criterion consulted at %s refused" % (c.fr.where(c.node), refused), s.trail())
        out = []
        for x, mark in self.marks(s, c, whole):
            if mark:
                site = (c.fr.where(c.node), c.m)
                if site in x.prop.get("done", ()):
                    self.c.violation(self.fn.file, self.fn.line, self.fn.n, "unasked", "the step at %s is made again without the criterion having been consulted" % site[0], x.trail())
                x = x.setp("done", tuple(sorted(set(x.prop.get("done", ())) | {site})))
            if any(k[0] == "asked" for k in x.prop if isinstance(k, tuple)):
                x = x.copy()
                for k in [k for k in x.prop if isinstance(k, tuple) and k[0] == "asked"]:
                    del x.prop[k]
            out += self.effect(I, x, c)
        return out

    def natural(self, c, sup):
        """a truth-valued functor over the whole population that is not a search operator"""
        t = c.fr.fn.ty(c.node["t"])
        if "moCoolingSchedule" in sup:
            return True
        return t.get("b") == "bool" and not sup & (WHOLE | SINGLE) and "eoFunctorBase" in sup and bool(c.args) and c.args[0][0] == "loc" and self.is_pop(c)

    def is_pop(self, c):
        t = c.fr.fn.ty(c.node["pt"][0]) if c.node.get("pt") else {}
        return "eoPop" in self.P.supers(t.get("r") or "")

    def marks(self, s, c, whole):
        if whole:
            return [(s, True)]
        a = c.args[0] if c.args else None
        if a is not None and a[0] == "loc":
            i = witness.index(a[1], (("arg", 0),))
            if i is not None:
                return witness.split(s, i, "w")
        return [(s, False)]

    def effect(self, I, s, c):
        n = len(c.args)
        for i, a in enumerate(c.args):
            t = c.fr.fn.ty(c.node["pt"][i]) if i < len(c.node.get("pt", [])) else None
            if a[0] == "loc" and t and t["sh"] == "r" and not t["cst"]:
                if "eoPop" in self.P.supers(t.get("r") or "") and a[1][0] == ("arg", 0):
                    continue   # sizes of the population are the replacement's business
                s, u = I.fresh(s, c.node, c.fr, "a%d" % i)
                s = s.write(a[1], u)
        t = c.fr.fn.ty(c.node["t"])
        if t.get("b") == "bool" and not t["sh"]:
            return [(s, TRUE), (s, FALSE)]
        s, u = I.fresh(s, c.node, c.fr)
        return [(s, ("loc", (("d", u),)) if t["sh"] == "r" else u)]

    def consult(self, I, s, c, sup):
        self.consults += 1
        where = c.fr.where(c.node)
        who = ("asked", c.obj)
        if s.prop.get(who):
            self.c.violation(self.fn.file, self.fn.line, self.fn.n, "asked-twice", "the criterion is consulted at %s and again at %s without a step in between" % (s.prop[who], where), s.trail())
        if c.args and c.args[0][0] == "loc" and self.fn.params:
            t, u = c.fr.fn.ty(c.node["pt"][0]).get("r"), self.fn.ty(self.fn.params[0]["t"]).get("r")
            if t == u and c.args[0][1][0][0] == "v" and c.args[0][1] != (("arg", 0),):
                self.c.violation(self.fn.file, self.fn.line, self.fn.n, "other-population", "the criterion is shown at %s something else than the current population or solution" % where, s.trail())
        s = s.setp("done", ()).setp(who, where)
        if self.inner(c):
            return [(s, TRUE), (s, FALSE)]
        return [(s.trace("%s: the criterion lets the search go on" % where), TRUE), (s.setp("refused", where).setp("stop", True).trace("%s: the criterion refuses" % where), FALSE)]

    def inner(self, c):
        """a criterion over single solutions inside an algorithm over populations ends an inner search only"""
        if not c.args or c.args[0][0] != "loc" or not self.fn.params:
            return False
        t, u = c.fr.fn.ty(c.node["pt"][0]).get("r"), self.fn.ty(self.fn.params[0]["t"]).get("r")
        return "eoPop" in self.P.supers(u or "") and "EO" in self.P.supers(t or "")

    def inline(self, I, fn, c):
        return bool(fn.lam) or fn.static or (c.obj is not None and c.obj == (("this",),)) or (c.obj is not None and c.obj[0][0] == "v" and fn.cls in self.P.classes and self.P.classes[fn.cls].get("repo"))


def algorithms(P):
    seen = set()
    for f in functions(P):
        if f.m != "operator()" or not f.cls or f.lam or (f.file, f.line) in seen:
            continue
        sup = P.supers(f.cls)
        if sup & CRITERIA or "moeoDMLSGenUpdater" in sup:
            continue
        for fl, cd in P.fields_of(f.cls):
            t = cd["tu"].types[fl["t"]]
            if t.get("r") and P.supers(t["r"]) & CRITERIA and consults(P, f, set()):
                seen.add((f.file, f.line))
                yield f
                break


def consults(P, f, seen):
    if f.usr in seen:
        return False
    seen.add(f.usr)
    for n in nodes(f):
        if n.get("k") == "call" and n.get("m") == "operator()" and n.get("ot") is not None and P.supers(f.ty(n["ot"]).get("r") or "") & CRITERIA:
            return True
        g = P.fns.get(n.get("f") or "") if n.get("k") == "call" else None
        if g is not None and g.body and g.cls and f.cls and (g.cls == f.cls or P.is_a(f.cls, g.cls)) and consults(P, g, seen):
            return True
    return False


def check():
    c = Check("C04", ("eo", "mo", "moeo", "edo", "smp"), "no search step follows a refusal, no step is repeated and no algorithm returns without its criterion having been consulted, no criterion is consulted twice for one iteration; a combination answers yes exactly when all members, each consulted, do")
    P = c.prog
    State.closure = True
    for f in algorithms(P):
        h = Run(P, c, f)
        s = State()
        if f.params and "eoPop" in P.supers(f.ty(f.params[0]["t"]).get("r") or ""):
            s = witness.setup(s, "w", (("arg", 0),))
        I = Interp(P, h)
        try:
            outs = I.run(f, thiscls=f.cls, s0=s)
        except TooComplex as e:
            c.undecide("%s#%s" % (f.file, f.n), str(e))
            continue
        c.count("algorithms", f.n)
        c.count("consultations", f.n, h.consults)
        c.count("search steps", f.n, h.steps)
        for k, s, v in outs:
            if k == "return" and not s.prop.get("stop"):
                c.violation(f.file, f.line, f.n, "gives-up", "returns although no criterion refused", s.trail())
        if not any(k == "return" for k, s, v in outs):
            c.violation(f.file, f.line, f.n, "never-ends", "does not return when the criterion refuses")
    combinations(c, P)
    c.need("algorithms", 15)
    c.need("search steps", 60)
    c.need("combinations of criteria", 6)
    return c


def combinations(c, P):
    seen = set()
    for f in functions(P):
        if f.m != "operator()" or not f.cls or f.lam or f.cn in seen or not P.supers(f.cls) & CRITERIA:
            continue
        cs = {k: e for k, e in containers(P, f.cls).items() if P.supers(e) & CRITERIA}
        for cont in cs:
            inherited = len(cont) > 1 and not any(x["n"] == cont[-1][1] for x in P.classes[f.cls].get("fields", []))
            if inherited:
                continue
            seen.add(f.cn)
            tr = [("w", cont)]
            h = Members(P, cs, tr)
            try:
                outs = Interp(P, h).run(f, thiscls=f.cls, s0=entry(P, f.cls, tr, unit=True))
            except TooComplex as e:
                c.undecide("%s#%s" % (f.file, f.n), str(e))
                continue
            c.count("combinations of criteria", f.n)
            for k, s, v in outs:
                if k != "return":
                    continue
                n = s.prop.get(("calls", "w", "operator()"), 0)
                if v[0] != "c":
                    c.violation(f.file, f.line, f.n, "answer", "answers neither yes nor no: %s" % (v,), s.trail())
                elif v[1] and s.prop.get("no"):
                    c.violation(f.file, f.line, f.n, "refusal-lost", "answers yes although a member refused", s.trail())
                elif v[1] and n != 1:
                    c.violation(f.file, f.line, f.n, "not-consulted", "answers yes although a member was consulted %d times" % n, s.trail())
                elif not v[1] and not s.prop.get("no"):
                    c.violation(f.file, f.line, f.n, "refusal-invented", "answers no although no member refused", s.trail())
                elif n > 1:
                    c.violation(f.file, f.line, f.n, "consulted-again", "a member is consulted %d times" % n, s.trail())
