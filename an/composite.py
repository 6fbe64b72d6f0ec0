"""Composites: classes that hold containers of pointers to other components and call them."""
import re
from .absint import Hooks, State, NULL, TRUE, FALSE, mkcmp, sub
from . import witness
from .lib import functions, nodes

CRITERIA = {"eoContinue", "moContinuator", "edoContinue"}
SEQ = ("std::vector", "std::list", "std::deque")


def elem_class(P, tname):
    m = re.match(r"std::(?:vector|list|deque)<(?:const )?(.*?) ?\*(?: const)?(?:, std::allocator<.*)?>$", tname or "")
    return m.group(1) if m else None


def containers(P, cls):
    """{path: element class} of the sequences of component pointers an object holds or is"""
    out = {}
    for fl, cd in P.fields_of(cls):
        t = cd["tu"].types[fl["t"]]
        if t.get("rn") in SEQ and not t["sh"]:
            e = elem_class(P, t["r"])
            if e in P.classes and "eoFunctorBase" in P.supers(e):
                out[(("this",), ("f", fl["n"]))] = e
    for b in P.superclasses(cls):
        if b.startswith(SEQ):
            e = elem_class(P, b)
            if e in P.classes and "eoFunctorBase" in P.supers(e):
                out[(("this",),)] = e
    return out


def label(path):
    return path[-1][1] if len(path) > 1 else "the members"


def has_method(P, cls, m):
    return any(x.get("n") == m for c in [cls] + list(P.superclasses(cls)) if c in P.classes for x in P.classes[c].get("methods", []))


def config_ints(P, cls):
    """integer attributes only constructors set"""
    fl = {f["n"] for f, cd in P.fields_of(cls) if cd["tu"].types[f["t"]].get("b") in ("int", "uint") and not cd["tu"].types[f["t"]]["sh"]}
    cn = P.classes[cls]["n"]
    for f in functions(P):
        if f.cn != cn or f.ctor:
            continue
        for n in nodes(f):
            t = n.get("a") if n.get("k") == "asg" else n.get("e") if n.get("k") == "un" and n.get("op", "")[:2] in ("++", "--") else None
            while isinstance(t, dict) and t.get("k") in ("load", "conv", "cast"):
                t = t["e"]
            if isinstance(t, dict) and t.get("k") == "mem":
                fl.discard(t["f"])
    return fl


class Members(Hooks):
    """counts the calls the arbitrary members receive, lets criteria answer both ways"""
    METHODS = ("operator()", "lastCall", "init")

    def __init__(self, P, conts, tracked, shows=()):
        self.P, self.conts, self.tracked, self.shows = P, conts, tracked, shows
        self.seen = 0

    def on_call(self, I, s, c):
        if c.obj is None or c.m not in self.METHODS:
            return None
        for cont, e in self.conts.items():
            i = witness.index(c.obj, cont)
            if i is None:
                continue
            self.seen += 1
            states = [(s, ())]
            for name, tc in self.tracked:
                if tc == cont:
                    states = [(x, w + ((name,) if t else ())) for st, w in states for x, t in witness.split(st, i, name)]
            out = []
            for x, w in states:
                for name in w:
                    x = x.setp(("calls", name, c.m), x.prop.get(("calls", name, c.m), 0) + 1)
                    if c.m == "operator()":
                        if name in self.shows:
                            x = x.setp("shown", c.fr.where(c.node))
                        elif x.prop.get("shown"):
                            x = x.setp("late", (c.fr.where(c.node), x.prop["shown"]))
                if c.m == "operator()" and self.P.supers(e) & CRITERIA:
                    y = x.setp("no", True)
                    for name in w:
                        y = y.setp(("no", name), True)
                    out += [(x, TRUE), (y, FALSE)]
                else:
                    out.append((x, NULL))
            return out
        return None

    def inline(self, I, fn, c):
        return bool(fn.lam) or fn.static or (c.obj is not None and c.obj[0] == ("this",))


def entry(P, cls, tracked, unit=False):
    s = State()
    for name, cont in tracked:
        s = witness.setup(s, name, cont)
    if len(tracked) == 2 and tracked[0][1] == tracked[1][1]:
        s = s.assume(mkcmp("==", witness.sym(tracked[0][0]), witness.sym(tracked[1][0])), False)
    if unit:
        s = s.copy()
        for f in config_ints(P, cls):
            s.env[(("this",), ("f", f))] = ("c", 1)
    return s
