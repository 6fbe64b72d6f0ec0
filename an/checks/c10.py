"""C10: an archive holds mutually non-dominated members only, within its bound, and answers truly.

One arbitrary member M at position K stands for every member.  Its relation to the candidate
(dominates it, is dominated by it, equal, neither) is fixed at the start; every question the update asks about
M and the candidate is answered accordingly, every question about another member is answered both ways.  The
position of M is followed through the moves and removals on every path."""
from .. import absint
from ..absint import Hooks, Interp, State, TooComplex, add, sub, mkcmp, lin, mentions
from ..core import Check
from ..lib import functions, nodes

THIS = (("this",),)
ARG0 = (("arg", 0),)
N = (("f", "#n"),)
K = ("i", (("witness", "k"),))
W = ("i", (("witness", "w"),))
ZERO, ONE = ("c", 0), ("c", 1)
TRUE, FALSE = ("c", True), ("c", False)
RELATIONS = ("worse", "better", "equal", "apart")
# a selection by fitness and diversity, not a set of non-dominated solutions
STEPS = 80000
NOT_PARETO = {"moeoSPEA2Archive"}
BOXES = {"worse": ("worse", "same"), "better": ("better", "same"), "equal": ("same",), "apart": ("worse", "better", "same", "apart")}
WORDS = {"worse": "a member the candidate dominates", "better": "a member that dominates the candidate", "equal": "a member equal to the candidate", "apart": "a member incomparable with the candidate"}


class Lost(Exception):
    pass


def forget(s):
    """the position of M is no longer known, but it is somewhere"""
    s = s.copy()
    for f in [f for f in s.facts if mentions(f, lambda x: x == K)]:
        del s.facts[f]
    return s


def moved(s, to, old=None):
    facts = []
    if old is not None:
        sg = set(s.signs2(sub(to, old))) & set(s.signs2(sub(to, K)))
        if "0" not in sg:
            facts = [mkcmp("!=", to, old)] if len(sg) == 2 else [mkcmp("<" if "-" in sg else ">", to, old)]
    s = forget(s)
    for f in facts + [mkcmp("==", K, to), mkcmp(">=", K, ZERO)]:
        s = s.assume(f, True) or s
    if facts and len(sg) == 1:
        s = s.assume(mkcmp("<" if "-" in sg else ">", K, old), True) or s
    return s


def single(s):
    s = s.copy()
    s.prop.pop("dup", None)
    return s


def somewhere(s):
    s = forget(s)
    s = s.assume(mkcmp(">=", K, ZERO), True) or s
    return s.assume(mkcmp("<", K, s.read(THIS + N)), True) or s


class Archive(Hooks):
    def __init__(self, P, fn, rel):
        self.P, self.fn, self.rel = P, fn, rel
        self.query = fn.m in ("dominates", "contains")
        self.asked = 0
        self.pure = {}

    def static(self, c):
        return c.fr.fn.ty(c.node["ot"]).get("r") or "" if "ot" in c.node else ""

    def split(self, s, i):
        """[(state, is it M)]"""
        if s.prop.get("m") != "here":
            return [(s, False)]
        t = mkcmp("==", i, K)
        out = []
        for b in (True, False):
            x = s.assume(t, b)
            if x is not None and not b:
                if x.signs2(sub(K, add(i, ONE))) == frozenset("-"):
                    x = x.assume(mkcmp("<", K, i), True)
                elif x.signs2(sub(K, sub(i, ONE))) == frozenset("+"):
                    x = x.assume(mkcmp(">", K, i), True)
            if x is not None:
                out.append((x, b))
        return out

    def index(self, p):
        while p and p[0][0] == "d" and p[0][1][0] in ("it", "loc"):
            v = p[0][1]
            p = v[1] + ((("e", v[2]),) if v[0] == "it" else ()) + p[1:]
        if len(p) >= 2 and p[:1] == THIS and p[1][0] == "e":
            return p[1][1]
        return None

    def kinds(self, s, v):
        """[(state, 'M' | 'O' | 'C' | None)] what the individual or objective vector at v belongs to"""
        if v is None or v[0] != "loc":
            return [(s, None)]
        p = v[1]
        if p[:1] == ARG0 and not (len(p) > 1 and p[1][0] == "e"):
            return [(s, "C")]
        i = self.index(p)
        if i is not None:
            return [(x, "M" if b else "O") for x, b in self.split(s, i)]
        return [(s, s.prop.get(("is", p[:1])))]

    def on_copy(self, I, s, dst, src, node, fr):
        d = self.index(dst)
        if d is not None and len(dst) == 2:
            k = self.kinds(s, ("loc", src))
            if s.prop.get("m") == "here":
                td = s.known(mkcmp("==", d, K))
                if len(k) > 1:
                    raise Lost()
                w = k[0][1]
                if w == "M":
                    if td is True:
                        return s
                    if s.prop.get("dup") is not None:
                        raise Lost()
                    # M is now in two places until the old one is removed
                    old = self.index(src)
                    s = moved(s, d, old)
                    if old is not None:
                        if mentions(old, lambda x: x == K):
                            raise Lost()
                        s = s.setp("dup", old)
                    return s.trace("%s: the member is moved" % fr.where(node))
                if td is None:
                    raise Lost()
                if td:
                    s = s.setp("m", "gone").trace("%s: the member is overwritten" % fr.where(node))
                    if s.prop.get("dup") is not None:
                        s = single(moved(s.setp("m", "here"), s.prop["dup"]))
            if k[0][1] == "C":
                s = s.setp("c", True).trace("%s: the candidate is stored" % fr.where(node))
            return s
        if len(dst) == 1 and dst[0][0] in ("v", "tmp", "heap"):
            k = self.kinds(s, ("loc", src))
            if len(k) == 1 and k[0][1]:
                return s.setp(("is", dst), k[0][1])
            return s.setp(("is", dst), None) if ("is", dst) in s.prop else s
        return s

    def fork(self, I, s, c, tag):
        out = []
        for b in (True, False):
            out.append((s, ("c", b)))
        return out

    def compare(self, s, a, b, eq):
        """answers to: is a dominated by b (are they equal)?"""
        out = []
        for x, ka in self.kinds(s, a):
            for y, kb in self.kinds(x, b):
                ks = {ka, kb}
                if None in ks:
                    out += [(y, TRUE), (y, FALSE)]
                    continue
                self.asked += 1
                if "B" in ka + kb:
                    if {ka, kb} != {"BM", "BC"}:
                        ans = (True, False)
                    else:
                        r = y.prop.get("box")
                        ans = (r == "same",) if eq else (r == ("worse" if ka == "BM" else "better"),)
                    out += [(y, ("c", t)) for t in ans]
                    continue
                if eq:
                    ans = (True,) if ka == kb != "O" else (self.rel == "equal",) if ks == {"M", "C"} else (True, False)
                else:
                    ans = (False,) if ka == kb != "O" or ks <= {"M", "O"} else (self.rel == ("worse" if ka == "M" else "better"),) if ks == {"M", "C"} else (True, False)
                for t in ans:
                    z = y
                    if self.query and t and "C" in ks and (eq or ka == "C"):
                        z = z.setp("hit", True)
                    out.append((z, ("c", t)))
        return out

    def on_call(self, I, s, c):
        cls = self.static(c)
        sup = self.P.supers(cls) if cls else set()
        if c.m == "operator()" and ("moeoObjectiveVectorComparator" in sup or "moeoComparator" in sup) and len(c.args) == 2:
            return self.compare(s, c.args[0], c.args[1], False)
        if c.m in ("operator==", "operator!=") or c.n in ("operator==", "operator!=", "std::operator==", "std::operator!="):
            a, b = (("loc", c.obj), c.args[0]) if c.obj is not None and len(c.args) == 1 else (c.args[0], c.args[1]) if len(c.args) == 2 else (None, None)
            if a and b and a[0] == b[0] == "loc" and not I.itval(s, a):
                got = [k for _, k in self.kinds(s, a) + self.kinds(s, b)]
                if None not in got:
                    r = self.compare(s, a, b, True)
                    neg = (c.m or c.n).endswith("!=")
                    return [(x, ("c", v[1] != neg)) for x, v in r]
        if c.m == "operator()" and sup & {"moeoFitnessAssignment", "moeoDiversityAssignment"}:
            return [(s, ("c", None))]
        if c.m == "objectiveVector" and c.obj is not None and not c.args:
            return [(x, ("loc", c.obj + (("f", "objectiveVectorValue"),))) for x, _ in self.kinds(s, ("loc", c.obj))]
        if self.helper(c):
            s, u = I.fresh(s, c.node, c.fr, "help")
            return [(s.setp("helped", True), u)]
        box = self.projection(I, s, c)
        if box is not None:
            return box
        if c.obj == THIS:
            return self.change(I, s, c)
        if c.n in ("std::sort", "std::stable_sort", "std::random_shuffle", "std::shuffle", "std::reverse", "std::nth_element", "std::partial_sort") and c.args:
            v = I.itval(s, c.args[0])
            if v and v[1] == THIS:
                s = somewhere(s) if s.prop.get("m") == "here" else s
                return [(s, ("c", None))]
        if c.n in ("std::remove_if", "std::remove", "std::partition", "std::unique", "std::swap", "std::iter_swap", "std::swap_ranges", "std::rotate", "std::stable_partition"):
            if any((I.itval(s, a) or (0, 0))[1] == THIS or a[0] == "loc" and self.index(a[1]) is not None for a in c.args):
                if c.n in ("std::swap", "std::iter_swap"):
                    return self.swap(I, s, c)
                raise Lost()
        return None

    def helper(self, c):
        """a step of the update that neither changes who is in the archive nor compares solutions"""
        fn = self.P.fns.get(c.fnref) if c.fnref else None
        if c.obj != THIS or fn is None or not fn.cls or not fn.body or "moeoArchive" not in self.P.supers(fn.cls):
            return False
        if fn.usr not in self.pure:
            self.pure[fn.usr] = False
            t = fn.ty(fn.ret)
            if not t["sh"] and not t.get("r") and t.get("b") != "bool":
                self.pure[fn.usr] = not any(self.touches(n, fn, {fn.usr}) for n in nodes(fn))
        return self.pure[fn.usr]

    def touches(self, n, fn, seen):
        if n.get("k") != "call":
            return False
        ot = fn.ty(n["ot"]).get("r") or "" if "ot" in n else ""
        sup = self.P.supers(ot) if ot else set()
        if n.get("m") in ("push_back", "emplace_back", "pop_back", "erase", "insert", "resize", "clear", "swap", "assign", "operator()", "update") and "moeoArchive" in sup:
            return True
        if sup & {"moeoObjectiveVectorComparator", "moeoComparator"} and n.get("m") == "operator()":
            return True
        if n.get("m") == "operator=" and "MOEO" in sup:
            return True
        g = self.P.fns.get(n.get("f"))
        if g is not None and g.usr not in seen and g.cls and "moeoArchive" in self.P.supers(g.cls) and g.body:
            seen.add(g.usr)
            return any(self.touches(x, g, seen) for x in nodes(g))
        return False

    def swap(self, I, s, c):
        ix = []
        for a in c.args:
            v = I.itval(s, a)
            ix.append(v[2] if v else self.index(a[1]) if a[0] == "loc" else None)
        if None in ix or s.prop.get("dup") is not None:
            raise Lost()
        out = []
        for x, b in self.split(s, ix[0]):
            if b:
                out.append((moved(x, ix[1]), ("c", None)))
                continue
            for y, b2 in self.split(x, ix[1]):
                out.append((moved(y, ix[0]) if b2 else y, ("c", None)))
        return out

    def change(self, I, s, c):
        n = s.read(THIS + N)
        if c.m in ("operator[]", "at"):
            return [(x, ("loc", THIS + (("e", c.args[0]),))) for x, _ in self.split(s, c.args[0])]
        if c.m in ("back", "front"):
            i = sub(n, ONE) if c.m == "back" else ZERO
            return [(x, ("loc", THIS + (("e", i),))) for x, _ in self.split(s, i)]
        if c.m == "pop_back":
            out = []
            for x, b in self.split(s, sub(n, ONE)):
                dup = x.prop.get("dup")
                if b:
                    x = x.setp("m", "gone").trace("%s: the member is removed" % c.fr.where(c.node)) if dup is None else single(moved(x, dup))
                elif dup is not None:
                    if x.known(mkcmp("==", dup, sub(n, ONE))) is not True:
                        raise Lost()
                    x = single(x)
                if x.prop.get("c") not in (None, True) and x.known(mkcmp("==", x.prop["c"], sub(n, ONE))) is not False:
                    x = x.setp("c", None)
                out.append((I.setsize(x, THIS, sub(n, ONE), c.node, c.fr), ("c", None)))
            return out
        if c.m in ("push_back", "emplace_back") and len(c.args) == 1:
            out = []
            for x, k in self.kinds(s, c.args[0]):
                if k == "C":
                    x = x.setp("c", n).trace("%s: the candidate enters" % c.fr.where(c.node))
                elif k == "M":
                    raise Lost()
                out.append((I.setsize(x, THIS, add(n, ONE), c.node, c.fr), ("c", None)))
            return out
        if c.m == "clear":
            s = single(s.setp("m", "gone").setp("c", None))
            return [(I.setsize(s, THIS, ZERO, c.node, c.fr), ("c", None))]
        if c.m == "resize":
            out = []
            t = mkcmp("<", K, c.args[0])
            for x, b in ((s.assume(t, True), True), (s.assume(t, False), False)) if s.prop.get("m") == "here" else ((s, True),):
                if x is not None:
                    x = x if b else x.setp("m", "gone").setp("cut", True).trace("%s: the archive is cut" % c.fr.where(c.node))
                    out.append((I.setsize(x, THIS, c.args[0], c.node, c.fr), ("c", None)))
            return out
        if c.m == "erase" and len(c.args) == 1:
            v = I.itval(s, c.args[0])
            if not v:
                raise Lost()
            i = v[2]
            out = []
            if s.prop.get("dup") is not None or mentions(i, lambda x: x == K):
                raise Lost()
            here = s.prop.get("m") == "here"
            for op in ("==", "<", ">") if here else ("none",):
                x = s.assume(mkcmp(op, K, i), True) if here else s
                if x is None:
                    continue
                if op == "==":
                    x = x.setp("m", "gone").trace("%s: the member is removed" % c.fr.where(c.node))
                elif op == ">":
                    x = x.rename({K: add(K, ONE)})
                out.append((I.setsize(x, THIS, sub(n, ONE), c.node, c.fr), ("it", THIS, i)))
            return out
        if c.m in ("insert", "assign", "swap", "emplace", "sort", "shuffle"):
            if c.m in ("sort", "shuffle"):
                s = somewhere(s) if s.prop.get("m") == "here" else s
                return [(s, ("c", None))]
            raise Lost()
        return None

    def projection(self, I, s, c):
        """a point computed from one individual, whose dominance follows that of the individuals (not strictly)"""
        fn = self.P.fns.get(c.fnref) if c.fnref else None
        if c.obj != THIS or len(c.args) != 1 or fn is None or not fn.cls or "moeoArchive" not in self.P.supers(fn.cls) or fn.m in ("operator()", "update"):
            return None
        rt = fn.ty(fn.ret)
        if rt["sh"] or "moeoObjectiveVector" not in self.P.supers(rt.get("r") or ""):
            return None
        out = []
        path = (("tmp", I.site(c.node, c.fr)),)
        for x, k in self.kinds(s, c.args[0]):
            if k is None:
                return None
            for r in BOXES[self.rel] if k == "M" else (None,):
                y = x if r is None else x.setp("box", r)
                y, u = I.fresh(y, c.node, c.fr, "box")
                y = y.copy()
                for q in [q for q in y.env if q[:1] == path]:
                    del y.env[q]
                y.env[path + (("f", "#g"),)] = ("t", "g", ("box", "C")) if k == "C" or r == "same" else ("t", "g", u)
                y.env[path + N] = ("i", (("glob", "objectives"),))
                out.append((y.setp(("is", path), "B" + k), ("loc", path)))
        return out

    def inline(self, I, fn, c):
        return True


class Sizes(Archive):
    """the number of members alone"""

    def __init__(self, P, f):
        Archive.__init__(self, P, f, "apart")

    def on_call(self, I, s, c):
        sup = self.P.supers(self.static(c) or "")
        if self.helper(c) or c.m == "operator()" and sup & {"moeoObjectiveVectorComparator", "moeoComparator", "moeoFitnessAssignment", "moeoDiversityAssignment"}:
            return [I.fresh(s, c.node, c.fr, "help")]
        return None

    def on_copy(self, I, s, dst, src, node, fr):
        return s


class Several(Hooks):
    """an update with a population: every member of it is offered once, the answer tells whether one was admitted"""

    def __init__(self, P, fn):
        self.P, self.fn = P, fn
        self.offers = 0

    def on_call(self, I, s, c):
        if c.obj == THIS and c.m in ("operator()", "update") and len(c.args) == 1 and c.args[0][0] == "loc":
            p = c.args[0][1]
            if p[:1] == ARG0 and len(p) == 2 and p[1][0] == "e":
                self.offers += 1
                out = []
                t = mkcmp("==", p[1][1], W)
                for x, b in ((s.assume(t, True), True), (s.assume(t, False), False)):
                    if x is None:
                        continue
                    if b:
                        x = x.setp("offered", x.prop.get("offered", 0) + 1 if x.prop.get("offered", 0) < 2 else 2)
                    out += [(x.setp("any", True).trace("%s: a candidate is admitted" % c.fr.where(c.node)), TRUE), (x, FALSE)]
                return out
        if c.m == "operator()" and self.P.supers(c.fr.fn.ty(c.node["ot"]).get("r") or "" if "ot" in c.node else "") & {"moeoFitnessAssignment", "moeoDiversityAssignment"}:
            return [(s, ("c", None))]
        return None


def check():
    c = Check("C10", ("moeo",), "on every path of every archive update, for one arbitrary member and each of its possible relations to the candidate: a dominated member is gone, a candidate that is dominated (or equal to a member that stays) has not entered, no other member is lost, the answer is whether the candidate entered, the size is within the bound")
    P = c.prog
    State.closure = True
    absint.SOFT, absint.SOFT2 = 64, 200
    seen = set()
    singles, pops, queries = [], [], []
    for f in functions(P):
        if not f.cls or f.lam or (f.file, f.line) in seen or "moeoArchive" not in P.supers(f.cls) or len(f.params) != 1 or f.body is None:
            continue
        t = f.ty(f.params[0]["t"])
        psup = P.supers(t.get("r") or "") if t["sh"] == "r" else set()
        cn = f.cn.split("<")[0]
        if cn in NOT_PARETO:
            continue
        if f.m == "operator()" and "MOEO" in psup and "eoPop" not in psup:
            singles.append(f)
        elif f.m == "operator()" and "eoPop" in psup:
            pops.append(f)
        elif f.m in ("dominates", "contains"):
            queries.append(f)
        else:
            continue
        seen.add((f.file, f.line))

    def start(f):
        n = ("i", THIS + N)
        s = State().assume(mkcmp(">=", K, ZERO), True).assume(mkcmp("<", K, n), True).setp("m", "here")
        for x, cd in P.fields_of(f.cls):
            if x["n"] == "maxSize":
                s = s.assume(mkcmp("<=", n, ("i", THIS + (("f", "maxSize"),))), True)
        return s

    def bound(sub_, f):
        if not any(x["n"] == "maxSize" for x, _ in P.fields_of(f.cls)):
            return
        top = ("i", THIS + (("f", "maxSize"),))
        s = State().assume(mkcmp("<=", ("i", THIS + N), top), True).assume(mkcmp(">=", top, ZERO), True).assume(mkcmp(">=", ("i", THIS + N), ZERO), True)
        try:
            outs = Interp(P, Sizes(P, f)).run(f, thiscls=f.cls, s0=s)
        except TooComplex as e:
            sub_.undecide(f.n + " (bound)", str(e))
            return
        for k, s, v in outs:
            sub_.count("sizes against a bound", f.n)
            if k == "return" and "+" in s.signs2(sub(s.read(THIS + N), top)):
                sub_.violation(f.file, f.line, f.n, "bound", "the archive may end an update with more members than its bound", s.trail())
                return

    def one(sub_, f):
        done = set()
        bound(sub_, f)
        asked = 0
        for rel in RELATIONS:
            h = Archive(P, f, rel)
            try:
                I = Interp(P, h)
                I.maxsteps = STEPS
                outs = I.run(f, thiscls=f.cls, s0=start(f))
            except TooComplex as e:
                sub_.undecide(f.n + " (%s)" % rel, str(e))
                continue
            except Lost:
                sub_.undecide(f.n + " (%s)" % rel, "the place of a member could not be followed")
                continue
            asked += h.asked
            for k, s, v in outs:
                if k != "return":
                    continue
                sub_.count("paths of an update", f.n)
                judged = h.asked > 0        # (an archive that leaves the comparisons to an index is judged on its answer only)
                here, entered = s.prop.get("m") == "here", s.prop.get("c") is not None

                def bad(rule, msg):
                    if (rule, rel) not in done:
                        done.add((rule, rel))
                        sub_.violation(f.file, f.line, f.n, rule, msg, s.trail())
                if judged and rel == "worse" and here and (entered or not s.prop.get("helped")):
                    bad("kept", "a member the candidate dominates may stay in the archive")
                if judged and rel == "better" and entered:
                    bad("entered", "a candidate that a member dominates may enter the archive")
                if judged and rel == "equal" and entered and here:
                    bad("twice", "a candidate may enter beside a member with the same objectives")
                if judged and rel in ("better", "apart") and not here and not s.prop.get("cut"):
                    bad("dropped", "%s may be dropped" % WORDS[rel])
                if v in (TRUE, FALSE):
                    sub_.count("answers judged", f.n)
                    if (v == TRUE) != entered:
                        bad("answer", "the update may answer %s although the candidate %s" % ("yes" if v == TRUE else "no", "entered" if entered else "was not admitted"))
                else:
                    sub_.count("answers not judged", f.n)
        sub_.count("updates with one candidate", f.n)
        sub_.count("questions about a member and the candidate", f.n, asked)

    def several(sub_, f):
        bound(sub_, f)
        h = Several(P, f)
        done = set()
        s0 = State().assume(mkcmp(">=", W, ZERO), True).assume(mkcmp("<", W, ("i", ARG0 + N)), True)
        cn = f.cn.split("<")[0]
        if any(x["n"] == "maxSize" for x, _ in P.fields_of(f.cls)):
            s0 = s0.assume(mkcmp("<=", ("i", THIS + N), ("i", THIS + (("f", "maxSize"),))), True)
        try:
            outs = Interp(P, h).run(f, thiscls=f.cls, s0=s0)
        except TooComplex as e:
            sub_.undecide(f.n + " (population)", str(e))
            return
        sub_.count("updates with a population", f.n)
        for k, s, v in outs:
            if k != "return":
                continue
            sub_.count("paths of an update with a population", f.n)
            if s.prop.get("offered", 0) != 1 and "offer" not in done:
                done.add("offer")
                sub_.violation(f.file, f.line, f.n, "offered", "an individual of the population may be offered to the archive %s" % ("never" if not s.prop.get("offered") else "twice"), s.trail())
            if v in (TRUE, FALSE) and (v == TRUE) != bool(s.prop.get("any")) and "answer" not in done:
                done.add("answer")
                sub_.violation(f.file, f.line, f.n, "answer", "the update may answer %s although %s candidate was admitted" % ("yes" if v == TRUE else "no", "a" if s.prop.get("any") else "no"), s.trail())

    def query(sub_, f):
        rels = ("better", "apart") if f.m == "dominates" else ("equal", "apart")
        done = set()
        for rel in rels:
            h = Archive(P, f, rel)
            try:
                I = Interp(P, h)
                I.maxsteps = STEPS
                outs = I.run(f, thiscls=f.cls, s0=start(f))
            except (TooComplex, Lost) as e:
                sub_.undecide(f.n, str(e))
                continue
            for k, s, v in outs:
                if k != "return" or v not in (TRUE, FALSE):
                    continue
                sub_.count("answers of questions to an archive", f.n)
                if rel == rels[0] and v == FALSE and 1 not in done:
                    done.add(1)
                    sub_.violation(f.file, f.line, f.n, "question", "the archive may deny having %s" % WORDS[rel], s.trail())
                if v == TRUE and not s.prop.get("hit") and 2 not in done:
                    done.add(2)
                    sub_.violation(f.file, f.line, f.n, "question", "the archive may claim a member that no comparison has shown", s.trail())
        sub_.count("questions to an archive", f.n)

    c.each(singles, one)
    c.each(pops, several)
    c.each(queries, query)
    c.need("updates with one candidate", 4)
    c.need("updates with a population", 4)
    c.need("questions to an archive", 1)
    c.need("questions about a member and the candidate", 20)
    c.need("sizes against a bound", 1)
    return c
