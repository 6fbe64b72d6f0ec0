"""C11: evaluating neighbours leaves the solution alone; neighbours are used only once evaluated.

Three analyses over the same events (apply a move, undo it, evaluate, read or set a fitness, draw a
neighbour, compare):
 - evaluators of neighbours: content and fitness of the solution are followed as terms ("as found",
   "with the move of n applied") and must be "as found" again at every return, and a full evaluation
   must give the neighbour the fitness of the solution with that neighbour's move applied;
 - explorers, statistics and memories: the solution is not written while neighbours are explored, and
   every neighbour whose fitness is used has been evaluated since it was last drawn or the solution
   last changed;
 - accepted moves: whoever applies a neighbour's move to an individual gives it that neighbour's
   fitness before anything else happens to it.
"""
from ..absint import Hooks, Interp, TooComplex, State, NULL, TRUE, FALSE, mentions
from ..core import Check
from ..lib import *
from ..prog import walk

THIS, ARG0, ARG1 = (("this",),), (("arg", 0),), (("arg", 1),)


def place(path):
    """an object, or the container it is an element of"""
    out = []
    for x in path:
        if x[0] == "e":
            break
        out.append(x)
    return tuple(out)


def bare(e):
    """an expression without value conversions"""
    while isinstance(e, dict):
        if e.get("k") in ("load", "conv", "tobool", "cast", "temp") and isinstance(e.get("e"), dict):
            e = e["e"]
        elif e.get("k") == "call" and e.get("m") == "operator bool":
            e = e["obj"]
        else:
            break
    return e


def shape(e):
    e = bare(e)
    if isinstance(e, dict):
        return tuple(sorted((k, shape(v)) for k, v in e.items() if k not in ("l", "t", "ot", "rt", "pt", "cm") and k[0] != "_"))
    if isinstance(e, list):
        return tuple(shape(x) for x in e)
    return repr(e)


def flips(node):
    """x = !x"""
    if node.get("k") == "asg" and node.get("op", "=") == "=":
        a, b = node["a"], bare(node["b"])
    elif node.get("k") == "call" and node.get("m") == "operator=" and len(node.get("a", [])) == 1 and "obj" in node:
        a, b = node["obj"], bare(node["a"][0])
    else:
        return False
    return b.get("k") == "un" and b.get("op") == "!" and shape(a) == shape(b["e"])


def looks_only(fn, i):
    """a function that assigns nothing reached through its i-th parameter and hands it to nobody"""
    pid = fn.params[i].get("id")

    def reached(e):
        return any(x.get("k") == "ref" and x.get("d") == pid for x in walk(e))
    for n in nodes(fn):
        if n.get("k") == "asg" and reached(n["a"]) or n.get("k") == "un" and n.get("op", "")[:2] in ("++", "--") and reached(n["e"]):
            return False
        if n.get("k") == "call" and (any(reached(a) for a in n.get("a", []) if a.get("k") in ("ref", "conv")) or n.get("m") not in (None, "operator[]", "size", "operator bool") and "obj" in n and n["obj"].get("k") == "ref" and reached(n["obj"])):
            return False
    return True


class Base(Hooks):
    def __init__(self, P, sub, f):
        self.P, self.sub, self.f, self.done = P, sub, f, set()

    def bad(self, s, rule, msg, node=None, fr=None):
        f = fr.fn if fr is not None else self.f
        line = node.get("l", f.line) if node is not None else f.line
        if (rule, f.n) in self.done:
            return
        self.done.add((rule, f.n))
        self.sub.violation(f.file, line, f.n, rule, msg, s.trail())

    def static(self, c):
        t = c.fr.fn.ty(c.node["ot"]).get("r") if "ot" in c.node else None
        return self.P.supers(t) if t else set()

    def either(self, I, s, c):
        t = c.fr.fn.ty(c.node["t"])
        if t.get("b") == "bool":
            return [(s, TRUE), (s, FALSE)]
        return [I.fresh(s, c.node, c.fr, "r")]


# ---------------------------------------------------------------- evaluators of neighbours

class Evaluator(Base):
    """props: ("st", root) = (content, content its fitness belongs to or None); ("nf",) = what the neighbour's fitness belongs to"""

    def st(self, s, p):
        return s.prop.get(("st", place(p)), ("found", "found") if place(p) == ARG0 else ("?", "?"))

    def put(self, s, p, c, f):
        return s.setp(("st", place(p)), (c, f))

    def on_copy(self, I, s, dst, src, node, fr):
        if ("st", place(src)) in s.prop or place(src) == ARG0:
            if place(dst) == place(src):
                return s
            return self.put(s, dst, *self.st(s, src))
        if place(dst) == ARG0 or ("st", place(dst)) in s.prop:
            if src[-1:] == dst[-1:] or len(dst) == 1:
                return self.put(s, dst, "?", "?")
        return s

    def on_write(self, I, s, path, v, node, fr):
        if path[:1] == ARG0 and len(path) > 1 and path[1][0] == "e":
            if flips(node) and len(path) == 2:
                on = s.prop.get("flips", frozenset())
                return s.setp("flips", on ^ {path[1][1]})
            return s.setp("flips", s.prop.get("flips", frozenset()) | {"other"})
        return s

    def on_call(self, I, s, c):
        sup = self.static(c)
        if "moNeighbor" in sup and c.obj is not None:
            if c.m in ("move", "moveBack") and len(c.args) == 1 and c.args[0][0] == "loc":
                p = c.args[0][1]
                content, fit = self.st(s, p)
                who = ("move of", place(c.obj))
                if c.m == "move":
                    content = ("with", who) if content == "found" else "?"
                else:
                    content = "found" if content == ("with", who) else "?"
                return [(self.put(s, p, content, fit).trace("%s: %s" % (c.fr.where(c.node), "the move is applied" if c.m == "move" else "the move is undone")), NULL)]
            if c.m == "fitness" and len(c.args) == 1:
                v = self.fit_of(s, c.args[0])
                return [(s.setp("nf", v if v is not None else "value"), NULL)]
            if c.m == "fitness":
                return [I.fresh(s, c.node, c.fr, "nfit")]
            if c.m == "invalidate":
                return [(s.setp("nf", None), NULL)]
        if c.m in ("fitness", "objectiveVector", "invalidate", "invalid", "invalidateObjectiveVector", "invalidObjectiveVector") and sup & {"EO", "MOEO"} and c.obj is not None:
            content, fit = self.st(s, c.obj)
            if c.m in ("invalidate", "invalidateObjectiveVector"):
                return [(self.put(s, c.obj, content, None), NULL)]
            if c.m in ("invalid", "invalidObjectiveVector"):
                return [(s, TRUE if fit is None else FALSE)] if fit != "?" else self.either(I, s, c)
            if len(c.args) == 1:
                v = self.fit_of(s, c.args[0])
                return [(self.put(s, c.obj, content, v if v is not None else "?"), NULL)]
            return [(s, ("t", "fitness of", fit))]
        if c.m == "operator()" and "eoEvalFunc" in sup and len(c.args) == 1 and c.args[0][0] == "loc":
            content, fit = self.st(s, c.args[0][1])
            s = s.trace("%s: the individual is evaluated" % c.fr.where(c.node))
            if fit is None or fit == content:
                return [(self.put(s, c.args[0][1], content, content), NULL)]
            return [(self.put(s, c.args[0][1], content, content), NULL), (s.trace("   (an evaluation may skip an individual whose fitness is valid)"), NULL)]
        if "eoEvalFunc" in sup and c.obj != THIS and ("loc", ARG0) in c.args:
            fn = self.P.fns.get(c.fnref)
            if fn is not None and fn.body is not None and looks_only(fn, c.args.index(("loc", ARG0))):
                return self.either(I, s, c)
        if c.m == "operator()" and "moEval" in sup and c.obj != THIS and len(c.args) == 2:
            ok = c.args[0][0] == "loc" and self.st(s, c.args[0][1])[0] == "found"
            return [(s.setp("nf", "delegated" if ok else "?"), NULL)]
        return None

    def fit_of(self, s, v):
        if v[0] == "t" and v[1] == "fitness of":
            return v[2]
        if v[0] == "loc":
            w = s.whole(v[1]) if hasattr(s, "whole") else None
            if w and w[0] == "t" and w[1] == "fitness of":
                return w[2]
            w = s.read(v[1])
            if w and w[0] == "t" and w[1] == "fitness of":
                return w[2]
        return None

    def inline(self, I, fn, c):
        return c.obj is None or c.obj == THIS


# ---------------------------------------------------------------- explorers and whoever applies moves

class Explorer(Base):
    """props: ("ev", place) True when evaluated; "open" the individual moved but not yet given a fitness; "phase"."""

    def __init__(self, P, sub, f, sol=ARG0):
        Base.__init__(self, P, sub, f)
        self.sol = sol
        self.used = self.moves = 0

    def isn(self, t):
        return "moNeighbor" in self.P.supers(t or "")

    def key(self, s, p):
        return place(p)

    def fresh_place(self, p):
        return p[0][0] in ("v", "tmp")

    def ev(self, s, p):
        return s.prop.get(("ev", place(p)), False)

    def setev(self, s, p, b):
        return s.setp(("ev", place(p)), b)

    def use(self, s, v, c, what):
        if v[0] != "loc":
            return
        self.used += 1
        if not self.ev(s, v[1]):
            self.bad(s, "unevaluated", "a neighbour %s although it may not have been evaluated since it was drawn" % what, c.node, c.fr)

    def close(self, s, node=None, fr=None):
        if s.prop.get("open"):
            self.bad(s, "transfer", "an individual to which a neighbour's move was applied may not receive that neighbour's fitness", node, fr)
        return s

    def on_copy(self, I, s, dst, src, node, fr):
        if ("ev", place(src)) in s.prop or ("ev", place(dst)) in s.prop:
            if place(src) != place(dst) and len(src) <= len(place(src)) + 1:
                if place(dst) == dst or s.prop.get(("ev", place(dst)), True):
                    s = self.setev(s, dst, self.ev(s, src))
        if place(dst) == self.sol and len(dst) == 1:
            s = self.written(s, node, fr)
        return s

    def on_write(self, I, s, path, v, node, fr):
        if path[:len(self.sol)] == self.sol and len(path) > len(self.sol) and path[len(self.sol)][1] not in ("flag", "flagValue"):
            return self.written(s, node, fr)
        return s

    def written(self, s, node, fr):
        if s.prop.get("phase") == "explore":
            self.bad(s, "changed", "the current solution is changed while its neighbours are explored", node, fr)
        return s

    def on_call(self, I, s, c):
        sup = self.static(c)
        args = [a for a in c.args if a[0] == "loc"]
        if "moNeighborhood" in sup:
            if c.m in ("init", "next", "operator()") and len(args) == 2:
                return [(self.setev(s, args[1][1], False).trace("%s: a neighbour is drawn" % c.fr.where(c.node)), NULL)]
            if c.m == "hasNeighbor":
                k = s.prop.get("has")
                if k is not None:
                    return [(s, k)]
                return [(s.setp("has", TRUE), TRUE), (s.setp("has", FALSE), FALSE)]
            return self.either(I, s, c)
        if "moEval" in sup and c.m == "operator()" and len(args) == 2:
            return [(self.setev(s, args[1][1], True).trace("%s: the neighbour is evaluated" % c.fr.where(c.node)), NULL)]
        if sup & {"moNeighborComparator", "moSolNeighborComparator"} and c.m in ("operator()", "equals"):
            for a, t in zip(c.args, c.node.get("pt", [])):
                if self.isn(c.fr.fn.ty(t).get("r")):
                    self.use(s, a, c, "is compared")
            return self.either(I, s, c)
        if "moAspiration" in sup and c.m == "operator()" and len(args) == 2:
            self.use(s, args[1], c, "is shown to the aspiration criterion")
            return self.either(I, s, c)
        if sup & {"moMemory", "moAspiration"} and c.obj != THIS:
            return self.either(I, s, c)
        if "moNeighbor" in sup and c.obj is not None:
            if c.m in ("move", "moveBack") and len(args) == 1:
                p = args[0][1]
                self.moves += 1
                if place(p) == self.sol:
                    self.written(s, c.node, c.fr)
                s = self.close(s, c.node, c.fr)
                if p[0][0] in ("v", "tmp") and len(p) == 1:
                    return [(s, NULL)]      # a scratch copy
                if not self.ev(s, c.obj):
                    self.bad(s, "unevaluated", "a neighbour's move is applied although it may not have been evaluated since it was drawn", c.node, c.fr)
                return [(s.setp("open", (place(p), place(c.obj))).trace("%s: the move is applied" % c.fr.where(c.node)), NULL)]
            if c.m == "fitness" and not c.args:
                self.use(s, ("loc", c.obj), c, "tells its fitness")
                return [(s, ("t", "fitness of", place(c.obj)))]
        if sup & {"EO", "MOEO"} and c.m in ("fitness", "objectiveVector") and len(c.args) == 1 and c.obj is not None:
            if place(c.obj) == self.sol:
                self.written(s, c.node, c.fr)
            o = s.prop.get("open")
            if o and o[0] == place(c.obj):
                v = c.args[0]
                if v[0] == "loc":
                    v = s.read(v[1])
                if v and v[0] == "t" and v[1] == "fitness of" and v[2] != o[1]:
                    self.bad(s, "transfer", "an individual to which a neighbour's move was applied receives another neighbour's fitness", c.node, c.fr)
                elif v and v[0] == "t" and v[1] == "own fitness":
                    self.bad(s, "transfer", "an individual to which a neighbour's move was applied keeps the fitness of another individual", c.node, c.fr)
                s = s.setp("open", None)
            return [(s, NULL)]
        if sup & {"EO", "MOEO"} and c.m in ("fitness", "objectiveVector") and not c.args and c.obj is not None:
            return [(s, ("t", "own fitness", place(c.obj)))]
        if c.m == "operator()" and "eoEvalFunc" in sup and len(args) == 1:
            o = s.prop.get("open")
            if o and o[0] == place(args[0][1]):
                s = s.setp("open", None)
            return [(s, NULL)]
        if c.obj is not None and c.m in ("push_back", "emplace_back", "clear"):
            k = ("ev", place(c.obj))
            if c.m == "clear":
                s.prop[k] = True
            elif len(args) == 1 and (("ev", place(args[0][1])) in s.prop or k in s.prop):
                s.prop[k] = s.prop.get(k, False) and self.ev(s, args[0][1])
            if s.prop.get("open") and s.prop["open"][0] == place(c.obj):
                self.close(s, c.node, c.fr)
            return None
        if "eoFunctorBase" in sup and c.obj is not None and c.obj != THIS and c.m in ("operator()", "init", "lastCall"):
            return self.either(I, s, c)
        return None

    def inline(self, I, fn, c):
        if c.obj is None or c.obj == THIS:
            return True
        return False


def own(P, cls, m, n=1):
    """the operation a class really runs"""
    for x in [cls] + [y for y in P.superclasses(cls) if y != cls]:
        for y in P.classes.get(x, {}).get("methods", []):
            if y["n"] == m and len(y.get("pt", [])) == n and y["usr"] in P.fns and P.fns[y["usr"]].body is not None:
                return P.fns[y["usr"]]
    return None


def check():
    c = Check("C11", ("mo", "moeo"), "evaluating and exploring neighbours leaves the current solution as found on every path; a neighbour's fitness is used only after it was evaluated; an individual a move is applied to receives that neighbour's fitness")
    P = c.prog
    seen = set()
    evals, explorers, movers, watchers = [], [], [], []
    for f in functions(P):
        if not f.cls or f.lam or f.body is None or f.ctor or f.dtor:
            continue
        sup = P.supers(f.cls)
        key = (f.file, f.line)
        args = [P.supers(f.ty(p["t"]).get("r") or "") for p in f.params]
        if key in seen:
            continue
        if "moEval" in sup and f.m == "operator()" and len(f.params) == 2:
            evals.append(f)
        elif "moNeighborhood" in sup and args and "EO" in args[0] and f.m in ("init", "next", "cont", "hasNeighbor", "position"):
            watchers.append(f)
        elif sup & {"moNeighborComparator", "moSolNeighborComparator", "moTabuList", "moAspiration"} and len(args) == 2 and f.m in ("operator()", "equals", "check"):
            watchers.append(f)
        elif "moNeighborhoodExplorer" in sup:
            continue
        elif args and "EO" in args[0] and any(n.get("k") == "call" and n.get("m") in ("operator()", "move") and "ot" in n and P.supers(f.ty(n["ot"]).get("r") or "") & {"moEval", "moNeighbor"} for n in nodes(f)) and not sup & {"moNeighbor"}:
            movers.append(f)
        else:
            continue
        seen.add(key)
    done = set()
    for cn in sorted(P.classes):
        if "moNeighborhoodExplorer" in P.supers(cn) and P.classes[cn]["n"] not in done and own(P, cn, "operator()") is not None:
            done.add(P.classes[cn]["n"])
            explorers.append(cn)

    def ev(sub_, f):
        h = Evaluator(P, sub_, f)
        try:
            outs = Interp(P, h).run(f, thiscls=f.cls)
        except TooComplex as e:
            sub_.undecide(f.n, str(e))
            return
        sub_.count("evaluators of neighbours", f.n)
        full = any(n.get("k") == "call" and n.get("m") == "move" for n in nodes(f))
        trivial = not any(n.get("k") in ("call", "asg") for n in nodes(f))
        for k, s, v in outs:
            if k != "return" or trivial:
                continue
            sub_.count("paths of an evaluation", f.n)
            content, fit = h.st(s, ARG0)
            left = s.prop.get("flips")
            if left and any(x == "other" or mentions(x, lambda y: y[0] in ("u", "uo", "w", "wo")) for x in left):
                sub_.undecide(f.n, "writes to the solution could not be followed")
                continue
            if left:
                content = "?"
            if content != "found":
                h.bad(s, "changed", "the current solution may not be as it was found after a neighbour's evaluation")
            elif fit != "found":
                h.bad(s, "refitted", "the current solution may have lost its own fitness after a neighbour's evaluation")
            nf = s.prop.get("nf")
            if nf is None:
                h.bad(s, "unset", "an evaluation may leave the neighbour without fitness")
            elif full and nf != ("with", ("move of", ARG1)) and nf != "delegated":
                h.bad(s, "wrong", "a neighbour may receive a fitness that is not that of the solution with its move applied")

    def chain(sub_, h, cls, s0, steps):
        """run the operations one after the other on the same objects"""
        states = [(s0, None)]
        for m, phase in steps:
            f = own(P, cls, m)
            if f is None:
                continue
            h.f = f
            nxt = []
            for s, v in states:
                if m == "move" and v == FALSE:
                    continue
                for k, s2, v2 in Interp(P, h).run(f, thiscls=cls, s0=s.setp("phase", phase)):
                    if k == "return":
                        nxt.append((s2, v2))
            keys, states = set(), []
            for s, v in nxt:
                k = (s.key(), v)
                if k not in keys:
                    keys.add(k)
                    states.append((s, v))
        return [s for s, _ in states]

    def ex(sub_, cls):
        name = P.classes[cls]["n"]
        for first in ("initParam", "updateParam"):
            h = Explorer(P, sub_, own(P, cls, "operator()"))
            try:
                outs = chain(sub_, h, cls, State(), [(first, "before"), ("operator()", "explore"), ("accept", "explore"), ("move", "apply")])
            except TooComplex as e:
                sub_.undecide(name, str(e))
                continue
            for s in outs:
                sub_.count("paths of an exploration", name)
                h.close(s)
            sub_.count("uses of a neighbour's fitness", name, h.used)
            sub_.count("moves applied", name, h.moves)
        sub_.count("explorers", name)

    def mv(sub_, f):
        h = Explorer(P, sub_, f)
        watch = "moStat" in P.supers(f.cls) or "moeoPopNeighborhoodExplorer" in P.supers(f.cls)
        try:
            outs = Interp(P, h).run(f, thiscls=f.cls, s0=State().setp("phase", "explore" if watch else "apply"))
        except TooComplex as e:
            sub_.undecide(f.n, str(e))
            return
        for k, s, v in outs:
            if k == "return":
                sub_.count("paths of an exploration", f.n)
                h.close(s)
        sub_.count("uses of a neighbour's fitness", f.n, h.used)
        sub_.count("moves applied", f.n, h.moves)
        sub_.count("other users of neighbours", f.n)

    def watch(sub_, f):
        h = Explorer(P, sub_, f)
        s = State().setp("phase", "explore").setp(("ev", ARG1), True).setp(("ev", ARG0), True)
        try:
            Interp(P, h).run(f, thiscls=f.cls, s0=s)
        except TooComplex as e:
            sub_.undecide(f.n, str(e))
            return
        sub_.count("operations shown the solution", f.n)

    c.each(evals, ev)
    c.each(explorers, ex)
    c.each(movers, mv)
    c.each(watchers, watch)
    c.need("evaluators of neighbours", 6)
    c.need("explorers", 8)
    c.need("uses of a neighbour's fitness", 20)
    c.need("moves applied", 6)
    c.need("operations shown the solution", 20)
    return c
