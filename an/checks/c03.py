"""C03: individuals are evaluated between their production and their first use."""
import json
import os
from ..absint import Hooks, Interp, TooComplex, State, NULL, TRUE, FALSE, mkcmp, add
from .. import witness
from ..core import Check
from ..lib import *
from ..prog import HERE

# class -> arguments whose individuals must have been evaluated
USES = {"eoBreed": (0,), "eoSelect": (0,), "eoSelectOne": (0,), "eoReplacement": (0, 1), "eoMerge": (0, 1), "eoReduce": (0,), "eoReduceSplit": (0,), "eoContinue": (0,),
        "moeoFitnessAssignment": (0,), "moeoDiversityAssignment": (0,), "moeoArchive": (0,), "edoEstimator": (0,), "eoDistribUpdater": (1,), "moeoUnvisitedSelect": (0,), "eoStatBase": (0,)}
# class -> arguments left with individuals that were not evaluated
MAKES = {"eoBreed": (1,), "eoTransform": (0,), "eoFlight": (0,), "eoInit": (0,), "eoDistribution": (0,)}
# class -> arguments left with evaluated individuals
CLEANS = {"eoPopEvalFunc": (1,), "eoEvalFunc": (0,), "eoAlgo": (0,), "moLocalSearch": (0,), "eoAlgoReset": (0,), "moeoPopNeighborhoodExplorer": (2,)}
CHANGES = {"eoMonOp": (0,), "eoBinOp": (0,), "eoQuadOp": (0, 1)}
ALGOS = {"eoAlgo", "eoEDA", "eoAlgoReset", "eoPopEvalFunc"}
SPEC = os.path.join(HERE, "an", "spec", "initial.json")


def under(a, b):
    return a[:len(b)] == b


class Order(Hooks):
    def __init__(self, P, c, fn, quiet=False):
        self.P, self.c, self.fn, self.quiet = P, c, fn, quiet
        self.evals = self.uses = self.made = 0
        self.bad = False

    # ---- the set of individuals not evaluated since they were produced
    def raws(self, s):
        return [(k[1], v) for k, v in s.prop.items() if isinstance(k, tuple) and k[0] == "raw" and v is not None]

    def drop(self, s, p):
        ks = [k for k in s.prop if isinstance(k, tuple) and k[0] == "raw" and under(k[1], p)]
        if ks:
            s = s.copy()
            for k in ks:
                del s.prop[k]
        return s

    def make(self, I, s, p, t, node, fr, what):
        """[state]: p (of type t) now holds individuals that have not been evaluated"""
        self.made += 1
        s = self.drop(s, p)
        if not self.is_pop(t) and len(p) > 1 and p[-1][0] == "e":
            # one of them stands for all of its population
            cont, out = p[:-1], []
            s = s.trace("%s: %s, not evaluated yet" % (fr.where(node), what))
            if s.prop.get(("raw", cont)) is not None:
                out.append(s)
            s, w = I.fresh(s, node, fr, "one%d" % (len(p) + len(repr(p[0])) % 7))
            for f in (mkcmp("==", w, p[-1][1]), mkcmp("<", w, s.read(cont + (("f", "#n"),))), mkcmp(">=", w, ("c", 0))):
                s = s.assume(f, True) if s is not None else None
            if s is not None:
                out.append(s.setp(("raw", cont), w))
            return out
        if self.is_pop(t):
            s, w = I.fresh(s, node, fr, "any%d" % (len(p) + len(repr(p[0])) % 7))
            n = s.read(p + (("f", "#n"),))
            s2 = s.assume(mkcmp("<", w, n), True)
            s2 = s2.assume(mkcmp(">=", w, ("c", 0)), True) if s2 is not None else None
            if s2 is None:
                return [s]
            return [s2.setp(("raw", p), w).trace("%s: %s, not evaluated yet" % (fr.where(node), what))]
        return [s.setp(("raw", p), True).trace("%s: %s, not evaluated yet" % (fr.where(node), what))]

    def is_pop(self, t):
        return "eoPop" in self.P.supers((t or {}).get("r") or "")

    def where_raw(self, s, p):
        """[(state, raw?)] for the object at p: a population, an individual, or part of one"""
        states = [(s, False)]
        for q, w in self.raws(s):
            nxt = []
            for x, r in states:
                if r:
                    nxt.append((x, r))
                elif under(q, p):
                    nxt.append((x, True))
                elif under(p, q):
                    if w is True or len(p) == len(q):
                        nxt.append((x, True))
                    elif p[len(q)][0] == "e":
                        i = p[len(q)][1]
                        for t in (True, False):
                            y = x.assume(mkcmp("==", i, w), t)
                            if y is not None:
                                nxt.append((y, t))
                    else:
                        nxt.append((x, False))
                else:
                    nxt.append((x, False))
            states = nxt
        return states

    def use(self, s, p, what, node, fr):
        self.uses += 1
        out = []
        for x, r in self.where_raw(s, p):
            if r:
                self.bad = True
                if not self.quiet:
                    self.c.violation(self.fn.file, self.fn.line, self.fn.n, "unevaluated:%s" % what, "individuals not evaluated since they were produced are handed to %s at %s" % (what, fr.where(node)), x.trail())
                x = self.drop(x, p)
            out.append(x)
        return out

    def evaluated(self, s, p):
        self.evals += 1
        out = []
        for x, r in self.where_raw(s, p):
            if r:
                x = self.drop(x, p)
                for q, w in self.raws(x):
                    if under(p, q):
                        x = x.copy()
                        del x.prop[("raw", q)]
            out.append(x)
        return out

    # ---- memory
    def on_scope_end(self, I, s, vars_, fr):
        for v in vars_:
            s = self.drop(s, I.varpath(fr, v["id"]))
        return s

    def on_copy(self, I, s, dst, src, node, fr):
        rs = self.raws(s)
        if not rs or dst == src:
            return s
        add_ = []
        for q, w in rs:
            if under(q, src):
                add_.append((dst + q[len(src):], w))
            elif under(src, q) and len(src) > len(q):
                if w is True or src[len(q)][0] == "e" and len(src) == len(q) + 1 and s.assume(mkcmp("==", src[len(q)][1], w), True) is not None:
                    add_.append((dst, True))
        s = self.drop(s, dst)
        for q, w in add_:
            if w is True and q[-1][0] == "e" and q[-1][1] == s.read(q[:-1] + (("f", "#n"),)):
                # appended to a population
                cont = q[:-1]
                if s.prop.get(("raw", cont)) is None:
                    s, sy = I.fresh(s, node, fr, "app")
                    s2 = s.assume(mkcmp("<=", sy, q[-1][1]), True)
                    s2 = s2.assume(mkcmp(">=", sy, ("c", 0)), True) if s2 is not None else None
                    s = (s2 or s).setp(("raw", cont), sy)
            else:
                s = s.setp(("raw", q), w)
        return s

    # ---- calls
    def on_call(self, I, s, c):
        P = self.P
        if c.m in ("clear",) and c.obj is not None and self.raws(s):
            s2 = self.drop(s, c.obj)
            if s2 is not s:
                s2 = I.setsize(s2, c.obj, ("c", 0), c.node, c.fr)
                return [(s2, NULL)]
        if c.m == "resize" and c.obj is not None and c.args and c.args[0] == ("c", 0):
            s2 = self.drop(s, c.obj)
            return [(I.setsize(s2, c.obj, ("c", 0), c.node, c.fr), NULL)]
        if c.m == "swap" and c.args and c.args[-1][0] == "loc":
            a = c.obj if c.obj is not None else c.args[0][1] if c.args[0][0] == "loc" else None
            b = c.args[-1][1]
            if a is not None:
                rs = [(q, w) for q, w in self.raws(s) if under(q, a) or under(q, b)]
                if rs:
                    s2 = I.swap_objs(s, a, b, c.node, c.fr)
                    s2 = self.drop(self.drop(s2, a), b)
                    for q, w in rs:
                        s2 = s2.setp(("raw", b + q[len(a):] if under(q, a) else a + q[len(b):]), w)
                    return [(s2, NULL)]
            return None
        if c.m == "append" and c.obj is not None and len(c.args) == 2 and c.ot and self.is_pop(c.ot):
            s, u = I.fresh(s, c.node, c.fr, "appended")
            return [(x, NULL) for x in self.make(I, s.write(c.obj, u), c.obj, c.ot, c.node, c.fr, "individuals appended")]
        if c.m in ("invalid", "invalidObjectiveVector") and c.obj is not None and not c.args:
            # a valid one has been evaluated (whether it is up to date is another property)
            out = [(x, FALSE) for x in self.evaluated(s, c.obj)]
            self.evals -= 1
            return out + [(s, TRUE)]
        r = c.ot.get("r") if c.ot else None
        if not r or c.obj is None:
            return None
        sup = P.supers(r)
        known = self.field_type(c.obj)
        if known:
            sup = sup | P.supers(known)
        if c.obj == (("this",),) and c.m != "setup":
            return None
        if "paradiseo::smp::Scheduler" in sup and c.m == "operator()" and len(c.args) == 2 and c.args[1][0] == "loc":
            t = self.field_type(c.args[0][1]) if c.args[0][0] == "loc" else None
            if t and "eoEvalFunc" in P.supers(t):
                return [(x, NULL) for x in self.evaluated(s, c.args[1][1])]
            return [(s, NULL)]
        if c.m == "updateNeighborhood" and "eoVelocity" in sup or c.m == "setup" and sup & {"eoSelectOne"}:
            return [(x, NULL) for x in self.use(s, c.args[0][1], "the neighbourhood bests" if c.m != "setup" else "selection", c.node, c.fr)] if c.args and c.args[0][0] == "loc" else None
        if c.m == "apply" and "eoFlight" in sup and c.args and c.args[0][0] == "loc":
            return [(x, NULL) for x in self.make(I, s, c.args[0][1], self.ptype(c, 0), c.node, c.fr, "particles moved")]
        if c.m != "operator()" or not "eoFunctorBase" in sup:
            return None
        if c.exact and sup & ALGOS and c.obj[0] == ("this",) and len(c.obj) == 1:
            return None
        states = [s]
        hit = False
        for k, ii in USES.items():
            if k in sup:
                hit = True
                for i in ii:
                    if i < len(c.args) and c.args[i][0] == "loc":
                        states = [y for x in states for y in self.use(x, c.args[i][1], NAMES.get(k, k), c.node, c.fr)]
        for k, ii in CLEANS.items():
            if k in sup:
                hit = True
                for i in ii:
                    if i < len(c.args) and c.args[i][0] == "loc":
                        states = [y for x in states for y in self.evaluated(x, c.args[i][1])]
        if "edoSampler" in sup or "eoInit" in sup and not c.args:
            p = (("tmp", "made", I.site(c.node, c.fr)),)
            return [(y, ("loc", p)) for x in states for y in self.make(I, x, p, None, c.node, c.fr, "an individual sampled")]
        ch = next((ii for k, ii in CHANGES.items() if k in sup), None) if not hit else None
        if ch:
            out = [(x, FALSE) for x in states]
            for i in ch:
                if i < len(c.args) and c.args[i][0] == "loc":
                    nxt = []
                    for x in states:
                        x, u = I.fresh(x, c.node, c.fr, "op%d" % i)
                        nxt += self.make(I, x.write(c.args[i][1], u), c.args[i][1], self.ptype(c, i), c.node, c.fr, "individual varied")
                    states = nxt
            out += [(x, TRUE) for x in states]
            return out
        made = [(k, ii) for k, ii in MAKES.items() if k in sup]
        if not hit and not made:
            return None
        out = []
        for x in states:
            # whatever is handed over by reference may have another size and content
            for i, a in enumerate(c.args):
                t = self.ptype(c, i)
                if a[0] == "loc" and t and t["sh"] == "r" and not t["cst"] and not (sup & {"eoPopEvalFunc", "eoEvalFunc"}):
                    x, u = I.fresh(x, c.node, c.fr, "arg%d" % i)
                    keep = [(q, w) for q, w in self.raws(x) if under(q, a[1])]
                    x = x.write(a[1], u)
                    x = self.drop(x, a[1]) if sup & {"eoReplacement", "eoSelect", "eoMerge", "eoReduce"} else x
            xs = [x]
            for k, ii in made:
                for i in ii:
                    if i < len(c.args) and c.args[i][0] == "loc":
                        xs = [y for x in xs for y in self.make(I, x, c.args[i][1], self.ptype(c, i), c.node, c.fr, "individuals produced")]
            t = c.fr.fn.ty(c.node["t"])
            for x in xs:
                if t.get("b") == "bool" and not t["sh"]:
                    out += [(x, TRUE), (x, FALSE)]
                else:
                    x, u = I.fresh(x, c.node, c.fr, "ret")
                    out.append((x, ("loc", (("d", u),)) if t["sh"] == "r" else u))
        return out

    def ptype(self, c, i):
        pt = c.node.get("pt") or []
        return c.fr.fn.ty(pt[i]) if i < len(pt) else None

    def field_type(self, p):
        """the declared class of the component of the analysed algorithm at p"""
        if p[0][0] == "d" and p[0][1][0] == "i":
            p = p[0][1][1]
        if p[0] == ("this",) and len(p) == 2:
            for f, cd in self.P.fields_of(self.fn.cls):
                if f["n"] == p[1][1]:
                    return cd["tu"].types[f["t"]].get("r")
        return None

    def inline(self, I, fn, c):
        if fn.lam or fn.static or fn.ctor:
            return True
        if c.obj is not None and c.obj[0] == ("this",):
            return True
        return fn.cls is None and fn.file and not fn.file.startswith("/")


NAMES = {"eoBreed": "reproduction", "eoSelect": "selection", "eoSelectOne": "selection", "eoReplacement": "replacement", "eoMerge": "merging", "eoReduce": "reduction", "eoContinue": "the stopping criterion",
         "moeoFitnessAssignment": "worth assignment", "moeoDiversityAssignment": "diversity assignment", "moeoArchive": "the archive", "edoEstimator": "the estimator", "eoDistribUpdater": "the distribution update"}


def roots(P):
    seen = set()
    for f in functions(P):
        if f.m != "operator()" or not f.cls or f.lam or (f.file, f.line) in seen or not f.params:
            continue
        sup = P.supers(f.cls)
        if not sup & ALGOS:
            continue
        i = 1 if "eoPopEvalFunc" in sup else 0
        if i >= len(f.params) or not (P.supers(f.ty(f.params[i]["t"]).get("r") or "") & {"eoPop", "eoDistribution"}):
            continue
        if not any(n.get("k") == "call" for n in nodes(f)):
            continue
        seen.add((f.file, f.line))
        yield f, i


def analyse(P, c, f, i, raw, quiet=False):
    h = Order(P, c, f, quiet)
    I = Interp(P, h)
    s = State()
    p = (("arg", i),)
    if raw:
        s = witness.setup(s, "initial", p)
        s = s.setp(("raw", p), witness.sym("initial"))
    outs = I.run(f, thiscls=f.cls, s0=s)
    for k, x, v in outs:
        if k == "return":
            for q, w in h.raws(x):
                if under(q, p):
                    h.bad = True
                    if not quiet:
                        c.violation(f.file, f.line, f.n, "left-unevaluated", "returns with individuals of the population not evaluated", x.trail())
    return h


def name(f):
    return "%s#%s" % (f.file, f.n)


def check():
    c = Check("C03", ("eo", "mo", "moeo", "edo", "smp"), "on every path of every population-based algorithm an arbitrary individual is evaluated between its production and its use by selection, replacement, archive, worth assignment, estimation or stopping criterion, and before the algorithm returns")
    P = c.prog
    State.closure = True
    with open(SPEC) as fh:
        initial = set(json.load(fh)["evaluates_its_initial_population"])
    found = set()
    for f, i in roots(P):
        raw = name(f) in initial or "eoPopEvalFunc" in P.supers(f.cls)
        try:
            h = analyse(P, c, f, i, raw)
        except TooComplex as e:
            c.undecide(name(f), str(e))
            continue
        if raw:
            found.add(name(f))
        c.count("algorithms started with an unevaluated population" if raw else "algorithms that expect an evaluated population", f.n)
        c.count("evaluations", f.n, h.evals)
        c.count("uses", f.n, h.uses)
        c.count("productions", f.n, h.made)
    c.need("algorithms started with an unevaluated population", 12)
    c.need("uses", 60)
    c.need("productions", 15)
    return c
