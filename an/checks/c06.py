"""C06: replacements, reductions and selections of many deliver the size asked for.

Sizes are followed as linear forms over the sizes at entry and the numbers requested (what a rule "how many" answers for a
size is one unknown non-negative number per rule and size).  A loop that appends or removes one individual per round is
resolved through the equal steps of its counter and of the size.  Differences of unsigned numbers that may be negative are
followed into their wrap-around.  The parts a strategy is assembled from (reductions, merges, inner replacements) are taken
at their contracts; every reduction and merge of the library is judged against the contract itself."""
from ..core import Check
from ..absint import Hooks, Interp, State, TooComplex, add, sub, mkcmp, lin, mentions, syms
from ..lib import functions, nodes

ARG0, ARG1 = (("arg", 0),), (("arg", 1),)
N = (("f", "#n"),)
N0, N1 = ("i", ARG0 + N), ("i", ARG1 + N)
ZERO = ("c", 0)


def howmany(path, n):
    if len(path) == 1 and path[0][0] == "d" and path[0][1][0] == "i":
        path = path[0][1][1]     # through an attribute that is a reference
    return ("t", "howmany", ("loc", path), n)


class Sizes(Hooks):
    def __init__(self, P, fn, merged_all=False):
        self.P, self.fn, self.merged_all = P, fn, merged_all
        self.parts = 0

    def cls_of(self, c):
        try:
            return c.fr.fn.ty(c.node["ot"]).get("r") or c.cls or ""
        except Exception:
            return c.cls or ""

    def on_call(self, I, s, c):
        if c.obj is None:
            # whoever gets iterators only cannot change how many individuals there are
            its = [I.itval(s, x) for x in c.args]
            rt = c.fr.fn.ty(c.node.get("rt", c.node.get("t", 0)))
            if its and its[0] and c.fnref is not None and "iterator" in (rt.get("rn") or rt.get("s") or "") and not c.node["n"].startswith("std::"):
                s, u = I.fresh(s, c.node, c.fr, "at")
                return [(s, ("it", its[0][1], u))]
            return None
        if c.m in ("fitness", "operator<", "operator>", "best_element", "worse_element") and self.P.supers(self.cls_of(c)) & {"EO", "eoPop"} and not (c.m == "fitness" and c.args):
            s, u = I.fresh(s, c.node, c.fr, "val")
            return [(s, u)]
        if c.m in ("it_best_element", "it_worse_element"):
            s, u = I.fresh(s, c.node, c.fr, "at")
            return [(s, ("it", c.obj, u))]
        if c.m != "operator()" and c.m not in ("updateByDeleting",):
            return None
        sup = self.P.supers(self.cls_of(c)) | {self.cls_of(c).split("<")[0]}
        if "eoHowMany" in sup and len(c.args) == 1 and self.fn.cn != "eoHowMany":
            v = howmany(c.obj, c.args[0])
            t = mkcmp(">=", v, ZERO)
            return [(s.assume(t, True) or s, v)]
        if "eoGenOp" in sup and len(c.args) == 1 and c.args[0][0] == "loc":
            # a general operator adds individuals of its own to the population being filled
            dest = s.read(c.args[0][1] + (("f", "dest"),))
            dest = dest[1] if dest[0] == "loc" else c.args[0][1] + (("f", "dest"),)
            n = s.read(dest + N)
            s, u = I.fresh(s, c.node, c.fr, "bred")
            s = s.assume(mkcmp(">=", u, n), True) or s
            s = I.setsize(I.mut(s, dest, c.node, c.fr, "bred"), dest, u, c.node, c.fr)
            return [(s, ("c", None))]
        if not c.args or c.args[0][0] != "loc":
            return None
        a = [I.deref(x) for x in c.args]
        p = a[0][1]
        if "eoReduce" in sup and len(a) == 2 and c.fr.depth >= 0:
            self.parts += 1
            n = c.args[1]
            if n[0] == "loc":
                n = s.read(n[1])
            s = s.assume(mkcmp("<=", n, s.read(p + N)), True)
            if s is None:
                return []
            s = I.mut(s, p, c.node, c.fr, "red")
            return [(I.setsize(s, p, n, c.node, c.fr), ("c", None))]
        if self.cls_of(c).split("<")[0] == "eoMerge" and len(a) == 2:
            self.parts += 1
            q = a[1][1]
            k = s.read(p + N)
            if not self.merged_all:
                k = ("t", "merged", ("loc", c.obj), k)
                s = s.assume(mkcmp(">=", k, ZERO), True) or s
            n = add(s.read(q + N), k)
            s = I.mut(s, q, c.node, c.fr, "mrg")
            return [(I.setsize(s, q, n, c.node, c.fr), ("c", None))]
        if "eoReplacement" in sup and len(a) == 2 and self.cls_of(c).split("<")[0] == "eoReplacement":
            self.parts += 1
            n = s.read(p + N)
            s = I.mut(I.mut(s, p, c.node, c.fr, "rp"), a[1][1], c.node, c.fr, "ro")
            return [(I.setsize(s, p, n, c.node, c.fr), ("c", None))]
        if "eoSurviveAndDie" in sup and len(a) == 2 and self.fn.cls != self.cls_of(c):
            # some are saved, some die, the rest stays
            self.parts += 1
            q = a[1][1]
            n = s.read(p + N)
            lucky, rest = ("t", "saved", ("loc", c.obj), n), ("t", "rest", ("loc", c.obj), n)
            for t in (mkcmp(">=", lucky, ZERO), mkcmp(">=", rest, ZERO), mkcmp("<=", add(lucky, rest), n)):
                s = s.assume(t, True) or s
            m = add(s.read(q + N), lucky)
            s = I.mut(I.mut(s, p, c.node, c.fr, "sdp"), q, c.node, c.fr, "sdq")
            return [(I.setsize(I.setsize(s, p, rest, c.node, c.fr), q, m, c.node, c.fr), ("c", None))]
        if sup & {"moeoFitnessAssignment", "moeoDiversityAssignment", "eoPopEvalFunc"}:
            # the individuals get new values, the population keeps its size
            self.parts += 1
            for x in a:
                if x[0] == "loc" and (x[1] == ARG0 or x[1] == ARG1 or x[1][0][0] in ("v", "tmp")):
                    n = s.read(x[1] + N)
                    s = I.mut(s, x[1], c.node, c.fr, "as")
                    s = I.setsize(s, x[1], n, c.node, c.fr)
            return [(s, ("c", None))]
        return None


def opaque(v):
    return mentions(v, lambda x: isinstance(x, tuple) and len(x) > 1 and x[0] in ("u", "uo", "w", "wo") and not (x[0] == "u" and x[-1] == "wrap")
                    or isinstance(x, tuple) and x and x[0] == "t" and len(x) > 1 and x[1] == "pj")


def flat(v):
    """int(floor(x)) and int(x) are one number for what is not negative"""
    if isinstance(v, tuple):
        v = tuple(flat(x) for x in v)
        if len(v) == 3 and v[:2] == ("t", "int") and isinstance(v[2], tuple) and v[2][:2] == ("t", "floor"):
            v = ("t", "int", v[2][2])
    return v


def wrapped(v):
    return mentions(v, lambda x: isinstance(x, tuple) and x[:1] == ("u",) and x[-1] == "wrap")


def verdict(s, got, wanted):
    """'ok', 'bad' or None (not judged) for each of the sizes wanted: one of them must be it"""
    if got[0] == "u" and got[-1] == "wrap":
        return "bad"
    res = []
    for w in wanted:
        d = sub(got, w)
        if s.signs2(d) == frozenset("0"):
            return "ok"
        if sub(flat(got), flat(w)) == ZERO:
            return "ok"
        res.append(d)
    if any(opaque(d) and not wrapped(d) for d in res):
        return None
    return "bad"


def show(v):
    k, d = lin(v)
    def sym(x):
        if x == N0:
            return "|first|"
        if x == N1:
            return "|second|"
        if x[0] == "i":
            return ".".join(str(y[1]) for y in x[1][-2:] if len(y) > 1)
        if x[0] == "u" and x[-1] == "wrap":
            return "a wrapped-around difference"
        if x[:2] == ("t", "howmany"):
            return "howMany(%s)" % show(x[3])
        return "(%s)" % x[1] if x[0] == "t" else "?"
    out = []
    for x, c in sorted(d.items(), key=repr):
        out.append(("+ " if c > 0 else "- ") + ("" if abs(c) == 1 else "%g " % abs(c)) + sym(x))
    if k or not out:
        out.append("%+g" % k)
    return " ".join(out).lstrip("+ ")


def once(P, base, nparams=2):
    seen = set()
    for f in functions(P):
        if f.cls and f.m == "operator()" and not f.lam and len(f.params) == nparams and base in P.supers(f.cls) and (f.file, f.line) not in seen:
            seen.add((f.file, f.line))
            yield f


def settings(P, cls):
    """[[(path, constant)]]: the truth values every constructor leaves in attributes nobody else writes"""
    ctors = [f for f in P.fns.values() if f.ctor and f.cls == cls and f.body is not None and not f.implicit and not f.node.get("cp") and not f.node.get("mv")]
    out = set()
    for f in ctors:
        try:
            for k, s, v in Interp(P, Hooks()).run(f, thiscls=cls):
                if k == "return":
                    out.add(tuple(sorted((p, x) for p, x in s.env.items() if p[0] == ("this",) and x[0] == "c" and isinstance(x[1], bool) and not rewritten(P, p[-1][1]))))
        except TooComplex:
            return [()]
    return sorted(out) or [()]


_written = {}


def rewritten(P, field):
    if not _written:
        _written[None] = True
        for f in functions(P):
            if not f.ctor:
                for n in nodes(f):
                    if n.get("k") == "asg" and n["a"].get("k") == "mem":
                        _written[n["a"]["f"]] = True
    return field in _written


def rules_of(P, cls):
    r = [(f["n"], c["tu"].types[f["t"]]["sh"]) for f, c in P.fields_of(cls) if c["tu"].types[f["t"]].get("r") == "eoHowMany"]
    return [n for n, sh in r if sh] or [n for n, sh in r]


def check():
    c = Check("C06", ("eo", "moeo"), "on every path on which a replacement, reduction, split, merge or selection of many returns, the linear form of the population's size equals the size at entry or the number requested; no unsigned difference that may be negative reaches a size; a reduction that can be met is not refused")
    P = c.prog
    State.closure = True
    State.counting = True

    def run(sub_, f, s0, kind, judge, merged_all=False):
        for x, cl in P.fields_of(f.cls):
            if cl["tu"].types[x["t"]].get("b") == "uint" and not cl["tu"].types[x["t"]]["sh"]:
                s0 = s0.assume(mkcmp(">=", ("i", (("this",), ("f", x["n"]))), ZERO), True) or s0
        h = Sizes(P, f, merged_all)
        outs = []
        try:
            for fixed in settings(P, f.cls):
                s1 = s0
                for p, v in fixed:
                    s1 = s1.assume(("i", p), v[1])
                outs += Interp(P, h).run(f, thiscls=f.cls, s0=s1)
        except TooComplex as ex:
            sub_.undecide("%s#%s" % (f.file, f.n), str(ex))
            return
        sub_.count(kind, f.n)
        sub_.count("parts taken at their contract", f.n, h.parts) if h.parts else None
        for k, s, v in outs:
            sub_.count("paths", f.n)
            judge(k, s, v)

    def size_goal(sub_, f, k, s, path, wanted, rule, text):
        if k != "return":
            return
        got = s.read(path + N)
        r = verdict(s, got, wanted)
        if r == "ok" and "-" in s.signs2(got) and not opaque(got) and any(x < 0 for x in lin(got)[1].values()):
            sub_.violation(f.file, f.line, f.n, "underflow", "more individuals may be removed than there are: %s left" % show(got), s.trail())
        if r is None:
            sub_.count("sizes not judged", f.n)
        else:
            sub_.count("sizes judged", f.n)
            if r == "bad":
                sub_.violation(f.file, f.line, f.n, rule, "%s: %s instead of %s" % (text, show(got), show(wanted[0])), s.trail())

    def reduction(sub_, f):
        n = ("i", ARG1)
        s0 = State().assume(mkcmp(">=", n, ZERO), True)

        def judge(k, s, v):
            size_goal(sub_, f, k, s, ARG0, [n], "size", "a reduction may leave a number of individuals other than the one requested")
        run(sub_, f, s0, "reductions", judge)
        # a request that can be met
        s1 = s0.assume(mkcmp("<=", n, N0), True)
        if s1 is not None:
            refusals = []

            class Refuse(Sizes):
                def on_throw(self, I, s, node, fr):
                    if fr.fn is f:
                        refusals.append(fr.where(node))
                    return s
            h = Refuse(P, f)
            try:
                Interp(P, h).run(f, thiscls=f.cls, s0=s1)
                sub_.count("requests that can be met", f.n)
                for w in sorted(set(refusals)):
                    sub_.violation(f.file, f.line, f.n, "refused", "a reduction to a number of individuals that are there may be refused (%s)" % w, [])
            except TooComplex:
                pass

    c.each([f for f in once(P, "eoReduce") if f.ty(f.params[1]["t"]).get("b") == "uint"], reduction)

    def split(sub_, f):
        rs = rules_of(P, f.cls)
        if not rs:
            return
        for r in rs:
            hm = howmany((("this",), ("f", r)), N0)

            def judge(k, s, v):
                size_goal(sub_, f, k, s, ARG0, [sub(N0, hm)], "size", "a split may leave a number of individuals other than all but those to be eliminated")
                size_goal(sub_, f, k, s, ARG1, [add(N1, hm), N1], "eliminated", "a split may hand back a number of individuals other than those eliminated")
            run(sub_, f, State(), "splits", judge)

    c.each([f for f in functions_of_splits(P)], split)

    def survive(sub_, f):
        def judge(k, s, v):
            if k != "return":
                return
            left, saved = s.read(ARG0 + N), sub(s.read(ARG1 + N), N1)
            if opaque(left) or opaque(saved):
                sub_.count("sizes not judged", f.n)
                return
            sub_.count("sizes judged", f.n)
            if "-" in s.signs2(left) or wrapped(left) or wrapped(saved) or "-" in s.signs2(saved) or "+" in s.signs2(sub(add(left, saved), N0)):
                sub_.violation(f.file, f.line, f.n, "partition", "of %s individuals %s may be saved and %s left" % (show(N0), show(saved), show(left)), s.trail())
        s0 = State().assume(mkcmp("==", N1, ZERO), True).assume(mkcmp(">=", N0, ("c", 1)), True)
        run(sub_, f, s0, "survivals", judge)

    c.each(list(once(P, "eoSurviveAndDie")), survive)

    def replacement(sub_, f):
        s0 = State().assume(mkcmp(">=", N0, ("c", 1)), True)
        if f.cn.split("<")[0] == "eoMGGReplacement":
            s0 = s0.assume(mkcmp(">=", N1, ("c", 1)), True)   # its best offspring always enters
        if f.cn.split("::")[-1].split("<")[0] in ("eoGenerationalReplacement", "moeoGenerationalReplacement"):
            s0 = s0.assume(mkcmp("==", N0, N1), True)   # documented: the offspring simply become the parents

        def judge(k, s, v):
            size_goal(sub_, f, k, s, ARG0, [N0], "size", "a replacement may leave another number of parents than there were")
        run(sub_, f, s0, "replacements", judge, merged_all="eoReduceMerge" in P.supers(f.cls) | {f.cn.split("<")[0]})

    c.each(list(once(P, "eoReplacement")), replacement)

    def merge(sub_, f):
        cn = f.cn.split("<")[0]
        fields = {x["n"] for x, _ in P.fields_of(f.cls)}

        def judge(k, s, v):
            if k != "return":
                return
            if cn == "eoPlus":
                wanted = [add(N1, N0)]
            elif {"combien", "rate"} <= fields:
                rate, comb = ("i", (("this",), ("f", "rate"))), ("i", (("this",), ("f", "combien")))
                if s.signs2(comb) == frozenset("0"):
                    wanted = [add(N1, ("t", "int", ("t", "*", N0, rate))), add(N1, ("t", "int", ("t", "*", rate, N0)))]
                    if s.signs2(rate) == frozenset("0"):
                        wanted.append(N1)
                else:
                    wanted = [add(N1, comb)]
            else:
                return
            size_goal(sub_, f, k, s, ARG1, wanted, "size", "a merge may add a number of individuals other than the one asked for")
        run(sub_, f, State().assume(mkcmp(">=", ("i", (("this",), ("f", "combien"))), ZERO), True), "merges", judge)

    c.each(list(once(P, "eoMerge")), merge)

    def many(sub_, f):
        cn = f.cn.split("<")[0]
        rs = rules_of(P, f.cls)
        fields = {x["n"] for x, _ in P.fields_of(f.cls)}
        src = N0
        s0 = State().assume(mkcmp(">=", N0, ("c", 1)), True)
        if rs:
            asked = [howmany((("this",), ("f", r)), src) for r in rs]
            if len(rs) > 1:
                first = [x for x in asked if "enitor" in repr(x)]
                asked = first or asked
        elif "nb_to_select" in fields:
            asked = [("i", (("this",), ("f", "nb_to_select")))]
            s0 = s0.assume(mkcmp(">=", asked[0], ZERO), True)
        elif "rate" in fields:
            asked = [("t", "int", ("t", "*", N0, ("i", (("this",), ("f", "rate"))))), ("t", "int", ("t", "*", ("i", (("this",), ("f", "rate"))), N0))]
        elif {"min", "max"} <= fields:
            asked = None
        elif "eoOneToOneBreeder" in P.supers(f.cls) | {cn}:
            asked = [N0]
        else:
            return

        # (a one-to-one breeder documents that it needs operators making one offspring of one parent)
        varies = cn != "eoOneToOneBreeder" and any(n.get("k") == "call" and n.get("m") == "operator()" and "ot" in n and "eoGenOp" in P.supers(f.ty(n["ot"]).get("r") or "") for n in nodes(f))

        def judge(k, s, v):
            if asked is None:
                lo, hi = ("i", (("this",), ("f", "min"))), ("i", (("this",), ("f", "max")))
                have = ("i", (("this",), ("f", "archive"), ("f", "#n")))
                if k != "return":
                    return
                got = s.read(ARG1 + N)
                if s.known(mkcmp("<", hi, lo)):
                    return
                if opaque(got):
                    sub_.count("sizes not judged", f.n)
                    return
                sub_.count("sizes judged", f.n)
                if "-" in s.signs2(sub(got, lo)) or "+" in s.signs2(sub(got, hi)):
                    sub_.violation(f.file, f.line, f.n, "size", "a selection between a least and a largest number may deliver %s" % show(got), s.trail())
                return
            got = s.read(ARG1 + N)
            if k == "return" and opaque(got) and varies:
                if any(s.signs2(sub(got, x)) == frozenset("0+") for x in asked):
                    sub_.violation(f.file, f.line, f.n, "size", "operators that add any number of individuals may leave more than were asked for", s.trail())
                return
            w = list(asked)
            for x in asked:
                if s.signs2(x) == frozenset("0"):
                    w.append(("c", 1))   # nobody asked for: one is delivered instead, with a warning
            size_goal(sub_, f, k, s, ARG1, w, "size", "a selection may deliver a number of individuals other than the one asked for")
        run(sub_, f, s0, "selections of many" if "eoSelect" in P.supers(f.cls) else "breeders", judge)

    c.each(list(once(P, "eoSelect")) + list(once(P, "eoBreed")), many)

    def rule(sub_, f):
        n = ("i", ARG0)
        cnt = ("i", (("this",), ("f", "count")))
        rate = ("i", (("this",), ("f", "rate")))
        s0 = State().assume(mkcmp(">=", n, ZERO), True)

        def judge(k, s, v):
            if k != "return":
                return
            sg = s.signs2(cnt)
            if sg == frozenset("+"):
                wanted = [cnt]
            elif sg == frozenset("-"):
                wanted = [add(n, cnt)]
            elif sg == frozenset("0"):
                wanted = [("t", "int", ("t", "ceil", ("t", "*", x, y))) for x, y in ((n, rate), (rate, n))]
            else:
                sub_.count("answers not judged", f.n)
                return
            r = verdict(s, v, wanted)
            sub_.count("answers judged" if r else "answers not judged", f.n)
            if r == "bad":
                sub_.violation(f.file, f.line, f.n, "answer", "the number answered may be %s instead of %s" % (show(v), show(wanted[0])), s.trail())
        run(sub_, f, s0, "how many", judge)

    c.each([f for f in functions(P) if f.n == "eoHowMany::operator()"][:1], rule)
    c.need("reductions", 5)
    c.need("splits", 4)
    c.need("replacements", 9)
    c.need("merges", 2)
    c.need("selections of many", 6)
    c.need("breeders", 2)
    c.need("sizes judged", 150)
    c.need("answers judged", 2)
    return c


def functions_of_splits(P):
    seen = set()
    for f in functions(P):
        if f.cls and f.m == "operator()" and len(f.params) == 2 and (f.file, f.line) not in seen and f.cn.split("<")[0].endswith("Split"):
            seen.add((f.file, f.line))
            yield f
