"""C17: selecting one individual yields a living member of the population passed in that call."""
from ..absint import Hooks, Interp, TooComplex, State, NULL, lin, mkcmp, mentions
from .. import witness
from ..core import Check
from ..lib import *

ONE = {"eoSelectOne", "moeoSelectOne"}
MANY = {"eoSelect", "moeoSelect"}
POP = (("arg", 0),)
SIZE = ("i", POP + (("f", "#n"),))
# draws from something else than the population shown, as documented: a copy of the fertile part, an archive
ELSEWHERE = {"eoTruncatedSelectOne", "moeoSelectFromPopAndArch"}
# operations that draw several times with a selector they were given
CLIENTS = ("eoSelectMany::operator()", "eoSelectNumber::operator()", "eoSelectPerc::operator()", "eoTruncSelect::operator()", "eoTruncatedSelectMany::operator()",
           "eoFastGA::operator()", "eoCellularEasyEA::operator()", "edoEDASA::operator()", "eoSelBinGenOp::apply")


class Drawing(Hooks):
    """populations are shown to selectors; pointers into a population are followed through vectors of pointers"""

    def __init__(self, P, fn, report=None):
        self.P, self.fn, self.report = P, fn, report
        self.draws = 0

    def selector(self, c):
        return c.obj is not None and c.obj != (("this",),) and self.P.supers(self.static(c)) & ONE

    def static(self, c):
        return c.fr.fn.ty(c.node["ot"]).get("r") or "" if "ot" in c.node else ""

    def on_call(self, I, s, c):
        if c.m == "setup" and self.selector(c) and not c.exact and c.args and c.args[0][0] == "loc":
            return [(s.setp(("set up", c.obj), c.args[0][1]).trace("%s: the selector is set up" % c.fr.where(c.node)), NULL)]
        if c.m == "operator()" and self.selector(c) and not c.exact and c.args and c.args[0][0] == "loc":
            p = c.args[0][1]
            self.draws += 1
            if self.report:
                self.report(I, s, c, p)
            s, u = I.fresh(s, c.node, c.fr, "sel")
            for f in (mkcmp("<", u, s.read(p + (("f", "#n"),))), mkcmp(">=", u, ("c", 0))):
                s = s.assume(f, True) or s
            return [(s, ("loc", p + (("e", u),)))]
        if c.m == "operator()" and c.obj is not None and "eoPerf2Worth" in self.P.supers(self.static(c)) and c.args and c.args[0][0] == "loc":
            s = s.copy()
            v = c.obj + (("f", "repValue"),)
            for p in [p for p in s.env if p[:len(v)] == v]:
                del s.env[p]
            s.env[v + (("f", "#n"),)] = s.read(c.args[0][1] + (("f", "#n"),))       # one worth per individual
            return [(s, NULL)]
        if c.n == "eoRng::uniform":
            s, u = I.fresh(s, c.node, c.fr, "real")
            s = s.assume(mkcmp(">=", u, ("c", 0)), True) or s
            return [(s, u)]
        if c.obj is not None and len(c.obj) == 2 and c.obj[0] == POP[0] and c.obj[1][0] == "e" and s.prop.get("looked at") != c.obj[1][1]:
            s.prop["looked at"] = c.obj[1][1]
        return self.pointers(I, s, c)

    # ---- vectors of pointers to the members of a population
    def it(self, I, s, v):
        v = I.itval(s, v)
        return v[1] if v else None

    def point(self, I, s, c, vec, src):
        s, u = I.fresh(s, c.node, c.fr, "pt")
        s = s.copy()
        n = len(vec)
        for p in [p for p in s.env if len(p) > n and p[:n] == vec and p[n][0] == "e"]:
            del s.env[p]
        s.env[vec + (("f", "#g"),)] = ("t", "g", u)
        return s.setp(("into", u), src)

    def pointed(self, s, vec):
        g = s.env.get(vec + (("f", "#g"),))
        return s.prop.get(("into", g[2])) if g and g[0] == "t" and g[1] == "g" else None

    def pointers(self, I, s, c):
        if c.n == "std::transform" and len(c.args) == 4:
            a, b = self.it(I, s, c.args[0]), self.it(I, s, c.args[2])
            t = c.fr.fn.ty(c.node["ta"][1]) if len(c.node.get("ta", [])) > 1 else {}
            if a and b and "*" in (t.get("s") or t.get("r") or ""):
                return [(self.point(I, s, c, b, a), NULL)]
        if c.n in ("std::sort", "std::nth_element", "std::partial_sort", "std::random_shuffle", "std::shuffle", "std::stable_sort", "std::reverse") and c.args:
            v = self.it(I, s, c.args[0])
            src = self.pointed(s, v) if v else None
            if src:
                return [(self.point(I, s, c, v, src), NULL)]
        return None

    def inline(self, I, fn, c):
        return not (fn.cls and self.P.supers(fn.cls) & {"eoPerf2Worth"})


def origin(s, path):
    """('member', index) | ('elsewhere', what) | ('unknown',)"""
    r = path[0]
    if r == POP[0]:
        if len(path) >= 2 and path[1][0] == "e":
            return "member", path[1][1]
        return "elsewhere", "the population itself"
    if r[0] == "d":
        v = r[1]
        if v[0] == "it":
            return origin(s, v[1] + (("e", v[2]),) + path[1:])
        if v[0] == "loc":
            return origin(s, v[1] + path[1:])
        if v[0] == "t" and v[1] == "elem" and v[2][0] == "t" and v[2][1] == "g":
            g = v[2][2]
            if s.prop.get(("into", g)) == POP:
                return "member", v[3][1] if len(v) > 3 and v[3][0] == "e" else None
            return "unknown",
        if v[0] == "i" and v[1][0] == ("this",):
            if any(x[0] == "e" for x in v[1]):
                return "elsewhere", "what a pointer kept from an earlier population points to"
            return "told",
        return "unknown",
    if r[0] in ("v", "tmp", "heap"):
        return "elsewhere", "a local copy"
    if r == ("this",):
        return "elsewhere", "a copy kept by the selector"
    return "unknown",


def kept(g):
    """the content a container of the selector had before it was set up"""
    while isinstance(g, tuple) and len(g) > 2 and g[0] == "t" and g[1] == "g":
        g = g[2]
    return isinstance(g, tuple) and len(g) == 2 and g[0] == "i" and g[1][:1] == (("this",),)


def in_range(s, i):
    """True, False or None (cannot be judged)"""
    if i[0] == "i" and i[1][0] == ("this",) and any(x[0] == "e" for x in i[1]) or i[0] == "t" and i[1] == "elem" and kept(i[2]):
        return "stale"
    if s.assume(mkcmp("<", i, SIZE), False) is None and s.assume(mkcmp(">=", i, ("c", 0)), False) is None:
        return True
    k, d = lin(i)
    if k >= 0 and len(d) == 1 and next(iter(d))[0] == "w" and s.prop.get("looked at") is not None:
        # a walk that nothing but the values met brings to its end: what it stopped behind may be the end
        return False if s.prop["looked at"] != i else None
    for a in d:
        if not (a == SIZE or a[0] == "u" and a[2] in ("rng", "el", "sel", "calls") or a[0] == "i" and a[1][0] == ("this",) and not any(x[0] == "e" for x in a[1])):
            return None
    if all(a == SIZE or a[0] == "u" for a in lin(i)[1]) or s.assume(mkcmp("<", i, SIZE), False) is not None:
        return False
    return None


def called_before(P, f, s):
    """the state after any number of earlier calls: numbers that the operation changes are unknown"""
    names = {x["n"] for x, cd in P.fields_of(f.cls) if cd["tu"].types[x["t"]].get("b") in ("int", "uint") and not cd["tu"].types[x["t"]]["sh"]}
    for n in nodes(f):
        t = n.get("a") if n.get("k") == "asg" else n.get("e") if n.get("k") == "un" and n.get("op", "")[:2] in ("++", "--") else None
        while isinstance(t, dict) and t.get("k") in ("load", "conv", "cast"):
            t = t["e"]
        if isinstance(t, dict) and t.get("k") == "mem" and t["f"] in names:
            u = ("u", ("calls", t["f"]), "calls")
            s = s.copy()
            s.env[(("this",), ("f", t["f"]))] = u
            s = s.assume(mkcmp(">=", u, ("c", 0)), True)
    return s


class Copying(Drawing):
    """what the individuals of the destination are copies of"""
    DEST = (("arg", 1),)

    def __init__(self, P, fn, alien):
        Drawing.__init__(self, P, fn)
        self.alien = alien
        self.copies = 0

    def on_call(self, I, s, c):
        if c.obj == self.DEST and c.m == "resize" and c.args:
            s.prop.pop("delivered", None)
            s.prop["filler"] = s.read(self.DEST + (("f", "#n"),))
        elif c.obj == self.DEST and c.m in ("begin", "end", "rbegin", "data", "front", "back"):
            s.prop.pop("filler", None)          # filled through iterators: positions are not followed
        elif c.obj == self.DEST and c.m in ("operator[]", "at") and c.args and "filler" in s.prop:
            out = []
            for x, same in witness.split(s, c.args[0], "k"):
                x = x.setp("delivered", True) if same else x
                out.append((x, ("loc", self.DEST + (("e", c.args[0]),))))
            return out
        return Drawing.on_call(self, I, s, c)

    def home(self, p):
        """the local individual or population that p is (part of)"""
        return p[:1]

    def good(self, s, src):
        o = origin(s, src)
        if o[0] != "elsewhere" or src == POP:
            return True
        if src[0][0] in ("v", "tmp", "heap"):
            return s.prop.get(("from", self.home(src))) != "other"
        return src[0] == ("this",)

    def on_copy(self, I, s, dst, src, node, fr):
        if src[0] == self.DEST[0] or len(dst) > 2:
            return s
        if dst[0] == self.DEST[0]:
            if len(dst) == 2 and dst[1][0] == "e":
                self.copies += 1
                if "filler" in s.prop and s.assume(mkcmp("==", dst[1][1], witness.sym("k")), True) is not None:
                    s = s.setp("delivered", True)
                if not self.good(s, src):
                    self.alien(I, s, node, fr)
        elif dst[0][0] in ("v", "tmp", "heap") and not (src[0][0] == "tmp" and ("from", src[:1]) not in s.prop):
            return s.setp(("from", self.home(dst)), "member" if self.good(s, src) else "other")
        return s

    def on_construct(self, I, s, e, path, fr):
        if len(path) == 1 and path[0][0] in ("v", "tmp", "heap") and not (e.get("cp") or e.get("mv")) and "EO" in self.P.supers(e.get("c") or ""):
            return s.setp(("from", path), "other")
        return s


def once(P, want):
    seen = set()
    for f in functions(P):
        if f.cls and not f.lam and (f.file, f.line) not in seen and want(f):
            seen.add((f.file, f.line))
            yield f


def setup_of(P, cls):
    for x in [cls] + [y for y in P.superclasses(cls) if y != cls]:
        for m in P.classes.get(x, {}).get("methods", []):
            if m["n"] == "setup" and m["usr"] in P.fns:
                return P.fns[m["usr"]]


def check():
    c = Check("C17", ("eo", "mo", "moeo", "edo", "smp"), "on every path a selector, after its setup with the population, returns a reference whose provenance is an element of the population passed in, at an index inside its range; who draws several times sets the selector up with that very population first; a selection of many copies only such elements")
    P = c.prog
    State.closure = True
    s0 = State().assume(mkcmp(">=", SIZE, ("c", 1)), True)

    def one(sub, f):
        cn = f.n.split("::operator()")[0]
        su = setup_of(P, f.cls)
        starts = [s0]
        try:
            if su is not None and su.body:
                h = Drawing(P, su)
                got = {}
                for k, s, v in Interp(P, h).run(su, thiscls=f.cls, s0=s0):
                    if k == "return":
                        got.setdefault(s.key(), s)
                starts = list(got.values())[:60]
                sub.count("setups followed", su.n)
            outs = []
            for s in starts:
                s = called_before(P, f, s)
                outs += Interp(P, Drawing(P, f)).run(f, thiscls=f.cls, s0=s)
        except TooComplex as e:
            sub.undecide(f.n, str(e))
            return
        sub.count("selectors of one", f.n)
        bad = set()
        for k, s, v in outs:
            if k != "return":
                continue
            if v is None or v[0] != "loc":
                continue
            sub.count("results judged", f.n)
            o = origin(s, v[1])
            if cn in ELSEWHERE:
                continue
            if o[0] == "elsewhere" and "p" not in bad:
                bad.add("p")
                sub.violation(f.file, f.line, f.n, "provenance", "the individual returned is %s, not a member of the population" % o[1], s.trail())
            elif o[0] == "member":
                sub.count("results that are members", f.n)
                if o[1] is not None:
                    r = in_range(s, o[1])
                    if r is True:
                        sub.count("indices inside the range", f.n)
                    elif r == "stale":
                        if "s" not in bad:
                            bad.add("s")
                            sub.violation(f.file, f.line, f.n, "stale", "the index of the individual returned was kept from before the selector was set up with the population", s.trail())
                    elif r is None:
                        sub.count("indices not judged", f.n)
                    elif r is False and "r" not in bad:
                        bad.add("r")
                        sub.violation(f.file, f.line, f.n, "range", "the index of the individual returned may lie outside the population", s.trail())
            else:
                sub.count("results of unknown provenance", f.n)

    c.each(list(once(P, lambda f: f.m == "operator()" and P.supers(f.cls) & ONE and len(f.params) == 1)), one)

    def client(sub, f):
        done = set()

        def report(I, s, k, p):
            sub.count("draws with a given selector", f.n)
            w = s.prop.get(("set up", k.obj))
            loc = k.fr.where(k.node)
            if w != p and loc not in done:
                done.add(loc)
                sub.violation(f.file, f.line, f.n, "setup:" + loc.split(":")[0], "the selector draws from a population it was not set up with (%s)" % loc, s.trail())
        try:
            Interp(P, Drawing(P, f, report)).run(f, thiscls=f.cls)
        except TooComplex as e:
            sub.undecide(f.n, str(e))
            return
        sub.count("clients of a selector", f.n)

    c.each(list(once(P, lambda f: f.n in CLIENTS)), client)
    def many(sub, f):
        done = set()

        def alien(I, s, node, fr):
            if not done:
                done.add(1)
                sub.violation(f.file, f.line, f.n, "copies", "an individual that is no copy of a member of the population is delivered (%s)" % fr.where(node), s.trail())
        h = Copying(P, f, alien)
        State.counting = True
        try:
            outs = Interp(P, h).run(f, thiscls=f.cls, s0=s0.assume(mkcmp(">=", witness.sym("k"), ("c", 0)), True))
        except TooComplex as e:
            sub.undecide(f.n, str(e))
            return
        finally:
            State.counting = False
        for k, s, v in outs:
            if k == "return" and "filler" in s.prop:
                sub.count("deliveries by position", f.n)
                State.counting = True
                s = s.assume(mkcmp("<", witness.sym("k"), s.read(h.DEST + (("f", "#n"),))), True)
                s = s and s.assume(mkcmp(">=", witness.sym("k"), s.prop["filler"]), True)
                State.counting = False
                if s is not None and not s.prop.get("delivered") and not done:
                    done.add(1)
                    sub.violation(f.file, f.line, f.n, "copies", "a position the destination was given may never receive a member of the population", s.trail())
        sub.count("selectors of many", f.n)
        sub.count("copies into the destination", f.n, h.copies)

    c.each(list(once(P, lambda f: f.m == "operator()" and P.supers(f.cls) & MANY and len(f.params) == 2 and any(n.get("k") == "call" for n in nodes(f)))), many)
    c.need("selectors of many", 6)
    c.need("copies into the destination", 6)
    c.need("deliveries by position", 8)
    c.need("selectors of one", 12)
    c.need("results that are members", 12)
    c.need("indices inside the range", 8)
    c.need("clients of a selector", 6)
    return c
