"""C12: the record of the best individual seen so far never gets worse and is never stale."""
from ..absint import Hooks, Interp, TooComplex, State, NULL, TRUE, FALSE, mkcmp
from .. import witness
from ..core import Check
from ..lib import *

THIS, ARG = (("this",),), (("arg", 0),)
# class -> operation that is shown a candidate
KEEPERS = {"eoEvalKeepBest": "operator()", "moBestSoFarStat": "operator()", "moBestFitnessStat": "operator()", "moBestImprAspiration": "update", "moTSexplorer": "updateParam", "moVNSexplorer": "operator()"}
RETURNS = {"moTSexplorer", "moVNSexplorer"}     # searches whose end hands over the record
STARTS = {"moTSexplorer": "initParam", "moVNSexplorer": "initParam", "moBestImprAspiration": "init"}


class Shape:
    """where an individual keeps its fitness and whether it is valid"""
    def __init__(self, P, cls):
        self.fit, self.bad = self.suffix(P, cls, "fitness"), self.suffix(P, cls, "invalid")

    @staticmethod
    def suffix(P, cls, m):
        for b in [cls] + list(P.superclasses(cls)):
            if b not in P.classes:
                continue
            for x in P.classes[b].get("methods", []):
                if x["n"] == m and not x.get("pt") and x["usr"] in P.fns:
                    for k, s, v in Interp(P, Hooks()).run(P.fns[x["usr"]], thiscls=cls):
                        if k == "return" and v and v[0] == "loc":
                            return v[1][1:]
                        if k == "return" and v and v[0] == "i":
                            return v[1][1:]
        return None


class Keep(Hooks):
    def __init__(self, P, f, position=False):
        self.P, self.fn, self.position = P, f, position

    def on_call(self, I, s, c):
        r = c.ot.get("r") if c.ot else None
        if c.m == "moveApplied" and not c.args:
            return [(s.setp("idle", False), TRUE), (s.setp("idle", True), FALSE)]
        if r and c.obj is not None and c.obj != THIS and "eoFunctorBase" in self.P.supers(r) and c.m == "operator()":
            out = s
            for i, a in enumerate(c.args):
                if a[0] == "loc":
                    out, u = I.fresh(out, c.node, c.fr, "a%d" % i)
                    out = out.write(a[1], u)
            t = c.fr.fn.ty(c.node["t"])
            if t.get("b") == "bool":
                return [(out, TRUE), (out, FALSE)]
            out, u = I.fresh(out, c.node, c.fr, "r")
            return [(out, u)]
        if c.m in ("add", "update", "init", "next") and r and c.obj is not None and c.obj[0][0] == "d" and len(c.obj) == 1 and self.P.supers(r) & {"moMemory", "moAspiration"}:
            return [(s, NULL)]      # memories are shown the solution, they do not change it
        if c.m in ("operator[]", "at") and c.obj is not None and c.obj[0] == ("arg", 0) and len(c.args) == 1 and self.position:
            return [(x, ("loc", c.obj + (("e", witness.sym("position") if w else c.args[0]),))) for x, w in witness.split(s, c.args[0], "position")]
        return None

    def inline(self, I, fn, c):
        if fn.lam or fn.static or c.obj is None:
            return True
        if c.obj[0] in (("this",), ("arg", 0)):
            return fn.m not in ("className", "printOn")
        return fn.m in ("fitness", "invalid", "best", "value", "size", "invalidate")


def better(a, b):
    return mkcmp(">", a, b)


def judge(c, f, outs, record, cand, sh, what, scalar=False):
    """every path: the record becomes the candidate exactly when the candidate is strictly better or there was none"""
    for k, s, v in outs:
        if k != "return" or s.prop.get("idle"):
            continue
        fr = record if scalar else record + sh.fit
        r0, r1, x = ("i", fr), s.read(fr), s.read(cand + sh.fit)
        unset = None if scalar else s.known(("i", record + sh.bad)) 
        c.count("paths judged", f.n)
        if r1 != r0:
            if r1 != x:
                c.violation(f.file, f.line, f.n, "record", "%s takes the fitness of something else than the individual shown" % what, s.trail())
            elif unset is not True and s.assume(better(x, r0), False) is not None:
                c.violation(f.file, f.line, f.n, "worse", "%s is replaced by an individual that may not be strictly better" % what, s.trail())
            elif not scalar and (s.read(record) != s.read(cand)):
                c.violation(f.file, f.line, f.n, "partial", "%s takes the fitness but not the content of the individual" % what, s.trail())
        else:
            if not scalar and s.read(record) != ("i", record):
                c.violation(f.file, f.line, f.n, "partial", "%s takes the content but not the fitness of the individual" % what, s.trail())
            elif unset is True:
                c.violation(f.file, f.line, f.n, "unset", "%s stays empty although an individual was shown" % what, s.trail())
            elif s.assume(better(x, r0), True) is not None:
                c.violation(f.file, f.line, f.n, "stale", "%s is not replaced although the individual shown may be strictly better" % what, s.trail())


def individuals(P, cls):
    out = []
    for fl, cd in P.fields_of(cls):
        t = cd["tu"].types[fl["t"]]
        if not t["sh"] and "EO" in P.supers(t.get("r") or ""):
            out.append(((THIS + (("f", fl["n"]),)), t["r"]))
    return out


def methods(P, cn, m):
    seen = set()
    for f in sorted(functions(P), key=lambda f: "eoScalarFitness" in (f.cls or "")):   # plain numbers first
        if f.cn == cn and f.m == m and f.params and (f.file, f.line) not in seen:
            t = f.ty(f.params[0]["t"])
            sh = Shape(P, t.get("r") or "")
            if sh.fit is None or sh.bad is None:
                continue
            seen.add((f.file, f.line))
            yield f, t["r"], sh


def value_path(P, cls):
    for b in [cls] + list(P.superclasses(cls)):
        if b in P.classes:
            for m in P.classes[b].get("methods", []):
                if m["n"] == "value" and not m.get("const") and not m.get("pt") and m["usr"] in P.fns:
                    for k, s, v in Interp(P, Hooks()).run(P.fns[m["usr"]], thiscls=cls):
                        if k == "return" and v and v[0] == "loc":
                            return v[1]
    return None


def handed_over(P, f):
    """the attribute an operation copies to the solution it is given"""
    class H(Keep):
        def on_copy(self, I, s, dst, src, node, fr):
            return s.setp("from", src) if dst == ARG else s
    return {s.prop.get("from") for k, s, v in Interp(P, H(P, f)).run(f, thiscls=f.cls) if k == "return"}


def check():
    c = Check("C12", ("eo", "mo"), "on every path the record of a best individual becomes the individual shown exactly when that one is strictly better or there was no record, content and fitness together; a search that keeps one hands it over at its end; an arbitrary position of a particle's memory follows its fitness")
    P = c.prog
    State.closure = True
    for cn, m in sorted(KEEPERS.items()):
        for f, eot, sh in methods(P, cn, m):
            inds = individuals(P, f.cls)
            cand, scalar = ARG, False
            if cn in RETURNS:
                ends = [x for x in functions(P) if x.cls == f.cls and x.m == "terminate"]
                if not ends:
                    c.undecide(f.n, "no end of the search")
                    continue
                got = handed_over(P, ends[0])
                c.count("ends of searches", ends[0].n)
                if len(got) != 1 or None in got:
                    c.violation(ends[0].file, ends[0].line, ends[0].n, "not-returned", "the search ends without handing over its best solution on every path")
                    continue
                record = got.pop()
                if record not in [p for p, t in inds]:
                    c.violation(ends[0].file, ends[0].line, ends[0].n, "not-returned", "what the search hands over at its end is not its record")
                    continue
                rest = [p for p, t in inds if p != record]
                if cn == "moVNSexplorer":
                    if not rest:
                        c.undecide(f.n, "no candidate")
                        continue
                    cand = rest[0]
            else:
                record = value_path(P, f.cls) or (inds[0][0] if inds else None)
                if record is None:
                    c.undecide(f.n, "no record found")
                    continue
                scalar = cn == "moBestFitnessStat"
            try:
                outs = Interp(P, Keep(P, f)).run(f, thiscls=f.cls)
            except TooComplex as e:
                c.undecide(f.n, str(e))
                continue
            c.count("records", f.n)
            judge(c, f, outs, record, cand, sh, "the record", scalar)
            if cn in STARTS:
                for g in [x for x in functions(P) if x.cls == f.cls and x.m == STARTS[cn]][:1]:
                    c.count("starts of records", g.n)
                    for k, s, v in Interp(P, Keep(P, g)).run(g, thiscls=g.cls):
                        if k == "return" and (s.read(record) != s.read(ARG) or s.read(record + sh.fit) != s.read(ARG + sh.fit)):
                            c.violation(g.file, g.line, g.n, "start", "the record does not start from the initial solution", s.trail())
    particles(P, c)
    c.need("records", 5)
    c.need("ends of searches", 2)
    c.need("paths judged", 15)
    c.need("particle memories", 3)
    return c


class Social(Keep):
    """what is copied into a neighbourhood's record, and when"""
    def __init__(self, P, f, sh, report):
        Keep.__init__(self, P, f)
        self.sh, self.report, self.copies = sh, report, 0

    def on_copy(self, I, s, dst, src, node, fr):
        if dst[0] != ("this",) or len(dst) < 2 or s.read(src + self.sh.fit) != s.read(ARG + self.sh.fit):
            return s
        self.copies += 1
        x, r = s.read(src + self.sh.fit), s.read(dst + self.sh.fit)
        if s.assume(better(x, r), False) is not None:
            self.report("worse", "the best of a neighbourhood is replaced at %s by a particle that may not be strictly better" % fr.where(node), s)
        return s.setp("social", dst)


def particles(P, c):
    seen = set()
    for f in functions(P):
        if f.m != "updateNeighborhood" or not f.cls or "eoTopology" not in P.supers(f.cls) or (f.file, f.line) in seen:
            continue
        pot = f.ty(f.params[0]["t"]).get("r")
        sh = Shape(P, pot)
        bf = Shape.suffix(P, pot, "best")
        bb = Shape.suffix(P, pot, "invalidBest")
        if sh.fit is None or bf is None:
            continue
        seen.add((f.file, f.line))
        mem = [fl["n"] for fl, cd in P.fields_of(pot) if cd["tu"].types[fl["t"]].get("rn") == "std::vector" and not cd["tu"].types[fl["t"]]["sh"]]
        s0 = witness.setup(State(), "position", ARG)
        w = witness.sym("position")
        try:
            outs = Interp(P, Keep(P, f, True)).run(f, thiscls=f.cls, s0=s0)
        except TooComplex as e:
            c.undecide(f.n, str(e))
            continue
        c.count("particle memories", f.n)
        h = Social(P, f, sh, lambda rule, msg, s: c.violation(f.file, f.line, f.n, rule, msg, s.trail()))
        so = Interp(P, h).run(f, thiscls=f.cls)
        c.count("updates of a neighbourhood's best", f.n, h.copies)
        if not h.copies:
            c.violation(f.file, f.line, f.n, "stale", "the best of a neighbourhood is never replaced")
        recs = {s.prop["social"] for k, s, v in so if s.prop.get("social")}
        if len(recs) == 1 and not any(x[0] == "e" for x in list(recs)[0]):
            r = recs.pop()
            for k, s, v in so:
                if k == "return" and not s.prop.get("social") and s.assume(better(s.read(ARG + sh.fit), s.read(r + sh.fit)), True) is not None:
                    c.violation(f.file, f.line, f.n, "stale", "the best of the neighbourhood is not replaced although the particle may be strictly better", s.trail())
        for k, s, v in outs:
            if k != "return":
                continue
            c.count("paths judged", f.n)
            r0, r1, x = ("i", ARG + bf), s.read(ARG + bf), s.read(ARG + sh.fit)
            here = s.read(ARG + (("e", w),))
            taken = [n for n in mem if s.read(ARG + (("f", n), ("e", w))) == here]
            if r1 != r0:
                if r1 != x or s.assume(better(x, r0), False) is not None:
                    c.violation(f.file, f.line, f.n, "worse", "a particle's best fitness is replaced by one that may not be strictly better", s.trail())
                elif not taken:
                    c.violation(f.file, f.line, f.n, "partial", "a particle's best fitness is replaced but a position of its memory is not", s.trail())
            elif taken:
                c.violation(f.file, f.line, f.n, "partial", "a particle's best position is replaced but its best fitness is not", s.trail())
            elif s.assume(better(x, r0), True) is not None:
                c.violation(f.file, f.line, f.n, "stale", "a particle's memory is not updated although its fitness may be strictly better", s.trail())
