"""C09: comparison relations obey their order laws for all values.

Relations over objective vectors are decided for one arbitrary objective: the relation is
interpreted with every objective it looks at being, in each direction (minimised, maximised), worse,
better or tied within the tolerance (only these facts are known, never a value), the arbitrary one
being fixed to each of these in turn, and every answer is held against the definition of the
relation.  Relations over one or two criteria (fitness, diversity, value, feasibility) are
interpreted once for each order of the two operands' criteria and must give the answer of their
definition.  Relations built from other relations are reduced to a table of the questions they ask
and the answer they give; no two rows may contradict irreflexivity or asymmetry.  For every other
order handed to sorting, the condition of a yes must be contradictory when the operands are the same
and when the answer with the operands exchanged is yes too."""
import itertools
from ..absint import Hooks, Interp, TooComplex, State, NULL, TRUE, FALSE, mkcmp, add, sub, mulc, syms, neg, canon, flip
from .. import absint, witness
from ..core import Check
from ..lib import *

THIS, A0, A1 = (("this",),), (("arg", 0),), (("arg", 1),)
ZERO = ("c", 0)
W = witness.sym("objective")
NOBJ = ("i", (("glob", "number of objectives"),))
TOL = ("i", (("glob", "tolerance"),))

# ------------------------------------------------------------------ objective vectors

#: class (or class::method) -> definition
VECTOR = {"moeoParetoObjectiveVectorComparator": "pareto", "moeoWeakObjectiveVectorComparator": "weak",
          "moeoStrictObjectiveVectorComparator": "strict", "moeoObjectiveObjectiveVectorComparator": "first",
          "moeoRealObjectiveVector::operator==": "same", "moeoRealObjectiveVector::operator!=": "differ",
          "moeoScalarObjectiveVector::operator==": "same", "moeoScalarObjectiveVector::operator!=": "differ"}
VECTOR.update({x + "::operator" + o: "first" for x in ("moeoRealObjectiveVector", "moeoScalarObjectiveVector") for o in ("<", ">", "<=", ">=")})
# a letter: is the first operand worse (w), better (b) or tied (t); direction; sign of first minus second
LETTERS = [("w", "min", "+"), ("w", "max", "-"), ("b", "min", "-"), ("b", "max", "+"), ("t", "min", "0"), ("t", "max", "0")]


class Vector(Hooks):
    def __init__(self, P, one, two, mode, letter):
        self.P, self.one, self.two, self.mode, self.letter = P, one, two, mode, letter
        self.looked = 0

    def letter_of(self, s, i):
        """[(state, letter)] of the objective at index i"""
        got = s.prop.get("at")
        if got and got[0] == i:
            return [(s, got[1])]
        s = self.leave(s)
        if not any(x[0] in ("w", "wo") for x in syms(i)):       # a pass over the objectives begins
            s = s.setp("met", None)
        out = []
        self.looked += 1
        for x, here in witness.split(s, i, "objective"):
            if here:
                x = x.setp("met", True)
                choice = [self.letter]
            elif self.mode == "first" and x.known(mkcmp("<", i, W)) is not False:
                if x.known(mkcmp("<", i, W)) is None:
                    y = x.assume(mkcmp(">", i, W), True)
                    if y is not None:
                        out += [(z, l) for l in LETTERS for z in [self.fix(y, i, l)] if z is not None]
                    x = x.assume(mkcmp("<", i, W), True)
                    if x is None:
                        continue
                choice = [l for l in LETTERS if l[0] == "t"]
            else:
                choice = LETTERS
            for l in choice:
                y = self.fix(x, i, l)
                if y is not None:
                    out.append((y, l))
        return out

    def fix(self, s, i, l):
        d = sub(("i", self.one + (("e", i),)), ("i", self.two + (("e", i),)))
        if l[2] == "+":
            s = s.assume(mkcmp(">", d, TOL), True)
            s = s.assume(mkcmp(">", d, ZERO), True) if s is not None else None
        elif l[2] == "-":
            s = s.assume(mkcmp(">", mulc(d, -1), TOL), True)
            s = s.assume(mkcmp("<", d, ZERO), True) if s is not None else None
        else:
            s = s.assume(mkcmp("<", d, TOL), True)
            s = s.assume(mkcmp("<", mulc(d, -1), TOL), True) if s is not None else None
        for x in (d, mulc(d, -1)):
            for n in ("fabs", "std::fabs", "abs", "std::abs"):
                s = s.assume(mkcmp("<" if l[2] == "0" else ">", ("t", n, x), TOL), True) if s is not None else None
        if s is None:
            return None
        s = s.setp("at", (i, l))
        return s.setp(("seen", l[0]), True) if l[0] in {"pareto": "wb", "weak": "b", "strict": "bt"}.get(self.mode, "wb") else s

    def about(self, v, met):
        if not isinstance(v, tuple):
            return False
        if v[:1] == ("i",) and len(v) == 2:
            return v[1][:-1] in (self.one, self.two) and v[1][-1][0] == "e" or met and v == W
        return any(self.about(x, met) for x in v)

    def leave(self, s):
        """what was known about the objective looked at before is not needed any more"""
        s = s.setp("at", None)
        met = s.prop.get("met")
        s.facts = {k: x for k, x in s.facts.items() if set(syms(k)) <= {W, NOBJ} or not self.about(k, met)}
        return s

    def on_call(self, I, s, c):
        if c.m in ("operator[]", "at") and c.obj in (self.one, self.two) and len(c.args) == 1:
            return [(x, ("loc", c.obj + (("e", c.args[0]),))) for x, _ in self.letter_of(s, c.args[0])]
        if c.m in ("nObjectives", "size") and (c.obj is None or c.obj in (self.one, self.two)) and not c.args:
            return [(s, NOBJ)]
        if c.m == "tolerance" and not c.args:
            return [(s, TOL)]
        if c.m in ("minimizing", "maximizing") and len(c.args) == 1:
            return [(x, TRUE if (l[1] == "min") == (c.m == "minimizing") else FALSE) for x, l in self.letter_of(s, c.args[0])]
        return None


def judge_vector(c, P, f, mode, one, two, negated=False):
    """(all answers, undecided)"""
    looked = 0
    base = mode if mode not in ("differ",) else "same"
    done = set()

    def bad(s, rule, msg):
        if rule not in done:
            done.add(rule)
            c.violation(f.file, f.line, f.n, rule, msg, s.trail())
    for l in LETTERS:
        h = Vector(P, one, two, mode, l)
        s0 = State().assume(mkcmp(">=", W, ZERO), True).assume(mkcmp("<", W, NOBJ), True).assume(mkcmp(">", TOL, ZERO), True)
        try:
            outs = Interp(P, h).run(f, thiscls=f.cls, s0=s0)
        except TooComplex as e:
            c.undecide(f.n, str(e))
            return
        looked += h.looked
        for k, s, v in outs:
            if k != "return":
                continue
            r = s.known(v) if v not in (TRUE, FALSE) else v == TRUE
            if r is None:
                c.count("answers not judged", f.n)
                if any(x[0] == "i" and x[1][:1] in (one[:1], two[:1]) for x in syms(v)):
                    bad(s, "sign", "the answer may depend on more than which objectives are better, worse or tied")
                continue
            c.count("answers judged", f.n)
            if mode == "differ" or negated:
                r = not r
            seen = {x: s.prop.get(("seen", x)) for x in "wbt"}
            it = {"w": "worse", "b": "better", "t": "tied"}[l[0]]
            how = "%s (%s)" % (it, "minimised" if l[1] == "min" else "maximised")
            if base == "pareto":
                if l[0] == "b" and r:
                    bad(s, "dominance", "dominated although an objective is %s" % how)
                if l[0] == "w" and not r and not seen["b"]:
                    bad(s, "dominance", "not dominated although no objective was found better and one is %s" % how)
                if r and not seen["w"]:
                    bad(s, "dominance", "dominated although no objective was found worse")
            elif base == "weak":
                if l[0] == "b" and r:
                    bad(s, "dominance", "weakly dominated although an objective is %s" % how)
                if not r and not seen["b"]:
                    bad(s, "dominance", "not weakly dominated although no objective was found better")
            elif base == "strict":
                if l[0] != "w" and r:
                    bad(s, "dominance", "strictly dominated although an objective is %s" % how)
                if not r and not (seen["b"] or seen["t"]):
                    bad(s, "dominance", "not strictly dominated although no objective was found better or tied")
            elif base == "first":
                if l[0] == "t":
                    if not any(seen[x] for x in "wb") and r:
                        bad(s, "lexicographic", "smaller although no objective was found different")
                elif r != (l[2] == "-"):
                    bad(s, "lexicographic", "the first objective that differs is %s but the answer is %s" % ("smaller" if l[2] == "-" else "greater", "yes" if r else "no"))
            elif base == "same":
                if l[0] != "t" and r:
                    bad(s, "equality", "equal although an objective is %s" % how)
                if not r and not (seen["w"] or seen["b"]):
                    bad(s, "equality", "not equal although no objective was found different")
    c.count("relations over objective vectors", f.n)
    c.count("objectives looked at", f.n, looked)


# ------------------------------------------------------------------ criteria

def sg(x):
    return {"-": -1, "0": 0, "+": 1}[x]


def lex(*crit):
    def f(o):
        for x in crit:
            if o[x] != "0":
                return o[x] == "-"
        return False
    return crit, f


def one(crit, op):
    return (crit,), lambda o: {"<": sg(o[crit]) < 0, ">": sg(o[crit]) > 0, "<=": sg(o[crit]) <= 0, ">=": sg(o[crit]) >= 0, "==": sg(o[crit]) == 0, "!=": sg(o[crit]) != 0}[op]


def swapped(d):
    crit, f = d
    return crit, lambda o: f({k: {"-": "+", "+": "-", "0": "0"}[v] for k, v in o.items()})


#: Class::method -> definition, in terms of the sign of (first - second) of each criterion
CRITERIA = {
    "moeoFitnessComparator::operator()": one("fitness", "<"),
    "moeoFitnessThenDiversityComparator::operator()": lex("fitness", "diversity"),
    "moeoDiversityThenFitnessComparator::operator()": lex("diversity", "fitness"),
    "moeoOneObjectiveComparator::operator()": one("objective", "<"),
    "moNeighborComparator::operator()": one("fitness", "<"), "moNeighborComparator::equals": one("fitness", "=="),
    "moSolNeighborComparator::operator()": one("fitness", "<"), "moSolNeighborComparator::equals": one("fitness", "=="),
    "moSolComparator::operator()": one("fitness", "<"), "moSolComparator::equals": one("fitness", "=="),
    "moEqualNeighborComparator::operator()": one("fitness", "<="), "moEqualSolNeighborComparator::operator()": one("fitness", "<="), "moEqualSolComparator::operator()": one("fitness", "<="),
    "EO::operator<": one("fitness", "<"), "EO::operator>": one("fitness", ">"), "PO::operator<": one("fitness", "<"),
    "eoVector::operator<": one("fitness", "<"), "eoVectorParticle::operator<": one("best", "<"),
    "MOEO::operator<": one("objectiveVector", "<"), "moeoVector::operator<": one("objectiveVector", "<"),
    "eoPop::Cmp::operator()": one("fitness", ">"), "eoPop::Cmp2::operator()": one("fitness", ">"),
}
FITVALUE = {"eoScalarFitness": False, "eoDualFitness": True}      # class -> has feasibility
NAMES = {"operator<": "<", "operator>": ">", "operator<=": "<=", "operator>=": ">=", "operator==": "==", "operator!=": "!="}


class Criteria(Hooks):
    def __init__(self, P, deep=False):
        self.P, self.deep = P, deep

    def root(self, p):
        if p and p[0][0] == "d" and p[0][1][0] == "i":
            p = p[0][1][1]
        return p[:1]

    def on_call(self, I, s, c):
        if c.m in ("fitness", "diversity", "objectiveVector", "best") and not c.args and c.obj is not None and not self.deep:
            p = self.root(c.obj) + (("f", c.m),)
            t = c.fr.fn.ty(c.node["rt"] if "rt" in c.node else c.node["t"])
            return [(s, ("i", p) if t.get("b") and not t["sh"] else ("loc", p))]
        if c.m in ("operator[]", "at") and c.obj is not None and c.obj[-1] == ("f", "objectiveVector") and len(c.args) == 1:
            want = ("i", THIS + (("f", "obj"),))
            if c.args[0] == want:
                return [(s, ("loc", c.obj[:1] + (("f", "objective"),)))]
            return None
        name = c.m or c.n
        if name in NAMES and not self.deep:
            a, b = (("loc", c.obj), c.args[0]) if c.obj is not None and len(c.args) == 1 else c.args if len(c.args) == 2 else (None, None)
            if a and b and a[0] == b[0] == "loc" and a[1][-1] == b[1][-1] and a[1][-1][1] in ("fitness", "diversity", "objectiveVector", "objective", "best") and len(a[1]) == 2:
                return [(s, mkcmp(NAMES[name], ("i", a[1]), ("i", b[1])))]
        if c.m and c.m.startswith("operator ") and c.obj is not None and len(c.obj) == 2 and c.obj[-1][1] in ("fitness", "diversity", "objective"):
            return [(s, ("i", c.obj))]
        r = (c.ot or {}).get("r") or ""
        if c.m == "operator()" and len(c.args) == 2 and r.startswith(("std::less<", "std::greater<")):
            a, b = [s.read(x[1]) if x[0] == "loc" else x for x in c.args]
            return [(s, mkcmp("<" if r.startswith("std::less") else ">", a, b))]
        if c.m in ("is_feasible",) and not c.args and c.obj is not None:
            return [(s, s.read(self.root(c.obj) + (("f", "_is_feasible"),)))]
        if c.m == "invalid" and not c.args:
            return [(s, FALSE)]
        return None


def judge_criteria(c, P, f, definition, operands, deep=False, field=None):
    crit, ref = definition
    done = set()
    for signs in itertools.product("-0+", repeat=len(crit)):
        o = dict(zip(crit, signs))
        s0 = State()
        for k, v in o.items():
            a, b = [("i", p + (("f", field.get(k, k) if field else k),)) for p in operands]
            if k == "feasible":
                s0 = s0.write(a[1], FALSE if v == "-" else TRUE).write(b[1], FALSE if v == "+" else TRUE)
            else:
                s0 = s0.assume(mkcmp({"-": "<", "0": "==", "+": ">"}[v], a, b), True)
        starts = [s0]
        if o.get("feasible") == "0":
            s1 = State()
            for k, v in o.items():
                a, b = [("i", p + (("f", field.get(k, k) if field else k),)) for p in operands]
                if k == "feasible":
                    s1 = s1.write(a[1], FALSE).write(b[1], FALSE)
                else:
                    s1 = s1.assume(mkcmp({"-": "<", "0": "==", "+": ">"}[v], a, b), True)
            starts.append(s1)
        for s0 in starts:
            if s0 is None:
                continue
            try:
                outs = Interp(P, Criteria(P, deep)).run(f, thiscls=f.cls, s0=s0)
            except TooComplex as e:
                c.undecide(f.n, str(e))
                return
            for k, s, v in outs:
                if k != "return":
                    continue
                r = v == TRUE if v in (TRUE, FALSE) else s.known(v) if v is not None else None
                if r is None:
                    c.count("answers not judged", f.n)
                    continue
                c.count("answers judged", f.n)
                if r != ref(o) and "order" not in done:
                    done.add("order")
                    c.violation(f.file, f.line, f.n, "order", "the answer is %s when %s" % ("yes" if r else "no", ", ".join("the first operand's %s is %s" % (k, {"-": "smaller", "0": "the same", "+": "greater"}[v2]) for k, v2 in o.items())), s.trail())
    c.count("relations over criteria", f.n)


# ------------------------------------------------------------------ relations built from other relations

class Table(Hooks):
    """questions about the operands are answered both ways and remembered"""

    def __init__(self, P):
        self.P = P

    def ask(self, s, q, values=(TRUE, FALSE)):
        got = s.prop.get(("q", q))
        if got is not None:
            return [(s, got)]
        return [(s.setp(("q", q), v), v) for v in values]

    def who(self, v):
        if v and v[0] == "loc" and v[1] in (A0, A1):
            return v[1][0][1]
        return None

    def on_call(self, I, s, c):
        args = [self.who(a) for a in c.args]
        if c.obj == THIS or c.obj is None or len(c.obj) == 2 and c.obj[0] == ("this",):
            fn = self.P.fns.get(c.fnref)
            t = c.fr.fn.ty(c.node["t"])
            if len(args) == 2 and None not in args and t.get("b") == "bool" and c.fr.depth == 0:
                return self.ask(s, (c.n, tuple(args)))
            if len(args) == 1 and None not in args and t.get("b") in ("bool", "int", "uint"):
                return self.ask(s, (c.n, tuple(args)), (TRUE, FALSE) if t.get("b") == "bool" else (("c", 0), ("c", 1)))
        if c.obj in (A0, A1) and not c.args and c.fr.fn.ty(c.node["t"]).get("b") == "bool":
            return self.ask(s, (c.n, (c.obj[0][1],)))
        return None


def judge_table(c, P, f):
    try:
        outs = Interp(P, Table(P)).run(f, thiscls=f.cls)
    except TooComplex as e:
        c.undecide(f.n, str(e))
        return
    rows = []
    for k, s, v in outs:
        r = v == TRUE if v in (TRUE, FALSE) else s.known(v)
        if k != "return" or r is None:
            c.count("answers not judged", f.n)
            continue
        rows.append(({q[1]: a for q, a in s.prop.items() if q[0] == "q"}, r, s))
        c.count("answers judged", f.n)

    def swap(t):
        return {(n, tuple(1 - x for x in w)): a for (n, w), a in t.items()}

    def fits(a, b):
        """may both rows hold of the same two operands, the relations asked being asymmetric"""
        if any(b.get(q, v) != v for q, v in a.items()):
            return False
        for t, u in ((a, b), (b, a), (a, a), (b, b)):
            for (n, w), v in t.items():
                if len(w) == 2 and v == TRUE and (w[0] == w[1] or u.get((n, (w[1], w[0]))) == TRUE):
                    return False
        return True
    done = set()
    for t, r, s in rows:
        if not r:
            continue
        folded = {}
        ok = True
        for (n, w), v in t.items():
            k = (n, (0,) * len(w))
            ok = ok and folded.get(k, v) == v and not (len(w) == 2 and v == TRUE)
            folded[k] = v
        if ok and "irreflexive" not in done:
            done.add("irreflexive")
            c.violation(f.file, f.line, f.n, "irreflexive", "an operand may compare below itself", s.trail())
        for t2, r2, s2 in rows:
            if r2 and fits(t, swap(t2)) and "asymmetric" not in done:
                done.add("asymmetric")
                c.violation(f.file, f.line, f.n, "asymmetric", "two operands may each compare below the other", s.trail() + s2.trail())
    c.count("relations over other relations", f.n)


# ------------------------------------------------------------------ orders used for sorting

class Order(Hooks):
    """what an operand is asked for is a number of its own; a comparison of two such answers compares the numbers"""

    def __init__(self, P):
        self.P = P

    def mine(self, v):
        """the operand's attribute a value stands for"""
        if v is None:
            return None
        if v[0] == "loc":
            v = ("i", v[1])
        if v[0] == "i" and side(v) is not None:
            return v
        return None

    def on_call(self, I, s, c):
        name = c.m or c.n
        t = c.fr.fn.ty(c.node["rt"] if "rt" in c.node else c.node["t"])
        here = ("loc", c.obj) if c.obj is not None else None
        vals = ([here] if here and len(c.args) < 2 else []) + list(c.args)
        both = [self.mine(v) for v in vals]
        if len(both) == 2 and None not in both and side(both[0]) != side(both[1]):
            if name in NAMES:
                return [(s, mkcmp(NAMES[name], *both))]
            r = (c.ot or {}).get("r") or ""
            if r.startswith(("std::less<", "std::greater<")):
                return [(s, mkcmp("<" if r.startswith("std::less") else ">", *both))]
            if name == "operator()" and t.get("b") == "bool" and len(c.args) == 2:
                return [(s, mkcmp("<", *both))]
        if here is not None and not c.args and self.mine(here) and (t.get("b") or t.get("r")) and name in ("fitness", "diversity", "objectiveVector", "worth", "size", "arity"):
            p = c.obj + (("f", name + "()"),)
            return [(s, ("i", p) if t.get("b") and not t["sh"] else ("loc", p))]
        return None


def side(v):
    """0 or 1 when the value belongs to one operand only"""
    found = set()

    def look(x):
        if isinstance(x, tuple):
            if x[:1] == ("arg",) and len(x) == 2:
                found.add(x[1])
            else:
                for y in x:
                    look(y)
    look(v)
    return found.pop() if len(found) == 1 else None


def blurred(v):
    """holds of something the two readings of the relation need not share (a place in a loop, an unknown result)"""
    return isinstance(v, tuple) and (v[:1] and v[0] in ("w", "wo", "u", "uo") or any(blurred(x) for x in v))


def turned(v, to):
    if isinstance(v, tuple):
        if v[:1] == ("lin",):
            r = ("c", v[1])
            for x, k in v[2]:
                r = add(r, mulc(turned(x, to), k))
            return r
        if v[:1] == ("arg",) and len(v) == 2:
            return ("arg", to[v[1]])
        return tuple(turned(x, to) for x in v)
    return v


def conjoin(s, facts, to):
    """the state with the facts of another one too, the operands having been exchanged or identified"""
    for k, x in facts.items():
        if s is None:
            return None
        if k[0] == "sg":
            d = turned(k[1], to)
            if d[0] == "c":
                if ("-" if d[1] < 0 else "+" if d[1] > 0 else "0") not in x:
                    return None
                continue
            d, fl = canon(d)
            s = s.assume(("cmp", tuple(sorted(flip(x) if fl else x)), d), True)
        elif x in (True, False):
            s = s.assume(turned(k, to), x)
    return s


def judge_order(c, P, f):
    try:
        outs = Interp(P, Order(P)).run(f, thiscls=f.cls)
    except TooComplex as e:
        c.undecide(f.n, str(e))
        return
    yes = []
    for k, s, v in outs:
        if k != "return" or v is None:
            continue
        if v not in (TRUE, FALSE) and v[0] not in ("cmp", "not"):
            c.count("answers not judged", f.n)
            continue
        s = s if v == TRUE else s.assume(v, True) if v != FALSE else None
        if s is not None and any(blurred(k) for k in s.facts):
            c.count("answers not judged", f.n)
            continue
        c.count("answers judged", f.n)
        if s is not None:
            yes.append(s)
    if any(conjoin(State(), s.facts, {0: 0, 1: 0}) is not None for s in yes):
        c.violation(f.file, f.line, f.n, "irreflexive", "an operand may compare before itself", yes[0].trail())
    elif any(conjoin(s, x.facts, {0: 1, 1: 0}) is not None for s in yes for x in yes):
        c.violation(f.file, f.line, f.n, "asymmetric", "two operands may each compare before the other", yes[0].trail())
    c.count("orders used for sorting", f.n)


#: relations that are not strict orders by definition
LOOSE = {"moeoWeakObjectiveVectorComparator", "moeoEpsilonObjectiveVectorComparator"}


def sorts(P, f):
    """a strict order handed to sorting, searching or ranking"""
    if f.m != "operator()" or len(f.params) != 2 or f.ty(f.ret).get("b") != "bool":
        return False
    a, b = [f.ty(p["t"]) for p in f.params]
    if a.get("r") != b.get("r") or a["sh"] != b["sh"] or a["sh"] in ("r", "R") and not (a.get("cst") and b.get("cst")):
        return False
    if not a.get("r") and not a.get("rn"):
        return False
    cn = f.cn.split("<")[0]
    return cn not in LOOSE and not cn.startswith("moEqual") and not any(x in P.supers(f.cls) for x in ("moAcceptanceCriterion", "moSolComparator", "moNeighborComparator", "eoBinOp", "eoQuadOp"))


TABLES = {"moeoGDominanceObjectiveVectorComparator", "moeoParetoDualObjectiveVectorComparator"}


def check():
    c = Check("C09", ("eo", "mo", "moeo"), "every relation's answer equals that of its definition for every order of the operands' criteria: objective vectors through one arbitrary objective (worse, better, tied; minimised, maximised), scalar criteria case by case, composed relations through the table of their questions")
    P = c.prog
    seen = set()
    State.closure = True
    absint.MAXSTATES = 2000
    work = []
    for f in sorted(functions(P), key=lambda f: "Dual" in (f.cls or "")):      # objectives that are plain numbers first
        if f.body is None or f.lam or not f.cn:
            continue
        cn = f.cn.split("<")[0]
        key = (f.file, f.line, f.cls if cn in FITVALUE else None)
        if key in seen:
            continue
        if len(f.params) == 2 and f.m == "operator()" and cn in VECTOR:
            work.append(("vector", f, VECTOR[cn]))
        elif cn + "::" + (f.m or "") in VECTOR and len(f.params) == 1:
            work.append(("vector1", f, VECTOR[cn + "::" + f.m]))
        elif len(f.params) == 2 and f.m == "operator()" and cn in TABLES:
            work.append(("table", f, None))
        elif f.n in CRITERIA and len(f.params) == (2 if f.m in ("operator()", "equals") else 1):
            work.append(("criteria", f, CRITERIA[f.n]))
        elif cn in FITVALUE and f.m in NAMES and len(f.params) == 1 and cn in P.supers(f.ty(f.params[0]["t"]).get("r") or ""):
            work.append(("fitness", f, None))
        elif sorts(P, f):
            work.append(("order", f, None))
        else:
            continue
        seen.add(key)

    def do(sub_, item):
        kind, f, d = item
        if kind == "vector":
            judge_vector(sub_, P, f, d, A0, A1)
        elif kind == "vector1":
            turned, negated = {"operator>": (True, False), "operator<=": (True, True), "operator>=": (False, True)}.get(f.m, (False, False))
            judge_vector(sub_, P, f, d, *((A0, THIS) if turned else (THIS, A0)), negated=negated)
        elif kind == "table":
            judge_table(sub_, P, f)
        elif kind == "order":
            judge_order(sub_, P, f)
        elif kind == "criteria":
            judge_criteria(sub_, P, f, d, (A0, A1) if len(f.params) == 2 else (THIS, A0))
        else:
            less = "std::less" in f.cls
            cn = f.cn.split("<")[0]
            op = NAMES[f.m]
            if FITVALUE[cn]:
                d = {"<": lex("feasible", "value"), ">": swapped(lex("feasible", "value"))}
                if op in ("<", ">"):
                    crit, g = d[op]
                elif op in ("<=", ">="):
                    crit, g0 = d[">" if op == "<=" else "<"]
                    g = lambda o, g0=g0: not g0(o)
                else:
                    crit, g = ("feasible", "value"), (lambda o: (o["feasible"] == o["value"] == "0") == (op == "=="))
            else:
                crit, g = one("value", op)
            if not less:
                g1 = g
                g = lambda o: g1(dict(o, value={"-": "+", "+": "-", "0": "0"}[o["value"]]))
            judge_criteria(sub_, P, f, (crit, g), (THIS, A0), deep=True, field={"value": "_value" if FITVALUE[cn] else "value", "feasible": "_is_feasible"})
    c.each(work, do)
    c.need("relations over objective vectors", 5)
    c.need("relations over criteria", 20)
    c.need("orders used for sorting", 8)
    c.need("relations over other relations", 2)
    c.need("answers judged", 100)
    return c
