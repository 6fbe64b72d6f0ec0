"""C08: whatever is saved can be loaded back field by field.

The saving and the loading method of one class are interpreted as a pair.  Saving yields, for every
path, the sequence of what is written: a field, the size of a container, its elements, a literal
word; consecutive elements of one container count as one entry and one arbitrary element of it must
be among them.  Loading yields the sequence of entries read and, by following each read value, the
field it ends up in; a word compared with a literal splits the path.  For every saving path, the
loading paths that take the same decisions must read exactly as many entries, store each in the field
it was written from, restore every flag the saving path depended on, replace the previous content of
every container and reach the arbitrary element.  Every pair is interpreted twice: with no element
and with at least one element in every container."""
from ..absint import Hooks, Interp, TooComplex, State, NULL, TRUE, FALSE, mkcmp, sub, syms, mentions
from .. import absint, witness
from ..core import Check
from ..prog import walk
from ..lib import *

THIS, A0, A1 = (("this",),), (("arg", 0),), (("arg", 1),)
ZERO = ("c", 0)
OUTS, INS = ("operator<<",), ("operator>>",)


class Stop(Exception):
    pass


def last(name):
    return (name or "").split("::")[-1]


class Stream(Hooks):
    def __init__(self, P, root, filled):
        self.P, self.root, self.filled = P, root, filled
        self.sized, self.extent, self.expect, self.cache = set(), None, (), {}

    # ------------------------------------------------------------ places of the object
    def norm(self, p):
        """a place reached through a reference or pointer of the object counts as that member"""
        while p is not None and p and p[0][0] == "d" and isinstance(p[0][1], tuple) and p[0][1][:1] == ("i",):
            p = p[0][1][1] + p[1:]
        return p

    def own(self, p):
        return p is not None and self.norm(p)[:len(self.root)] == self.root

    def place(self, p):
        """what part of the object a place is: ('size', C), ('elems', C) or ('field', f)"""
        q = self.norm(p)[len(self.root):]
        for k, x in enumerate(q):
            if x == ("f", "#n"):
                return ("size", q[:k])
            if x[0] == "e":
                return ("elems", q[:k])
        return ("field", q[:1]) if q else ("field", ())

    def about(self, v):
        """the parts of the object a value is made of"""
        if v is None:
            return set()
        if v[0] == "loc":
            return {self.place(v[1])} if self.own(v[1]) else set()
        out = set()

        def look(x):
            if isinstance(x, tuple):
                if x[:1] in (("i",), ("loc",)) and len(x) == 2 and isinstance(x[1], tuple) and self.own(x[1]):
                    out.add(self.place(x[1]))
                    return
                for y in x:
                    look(y)
        look(v)
        return out

    def index(self, v):
        """(container, index) of an element of the object"""
        if v is not None and v[0] in ("loc", "i") and self.own(v[1]):
            p = self.norm(v[1])
            for k, x in enumerate(p):
                if x[0] == "e":
                    return p[:k], x[1]
        return None

    def wname(self, C):
        return "element" + repr(C[len(self.root):])

    def witness(self, s, C):
        """the arbitrary element of a container, once its size is known"""
        if s.prop.get(("w", C)):
            return s
        n = s.read(C + (("f", "#n"),))
        w = witness.sym(self.wname(C))
        if self.filled:
            for cond in (mkcmp(">=", w, ZERO), mkcmp("<", w, n), mkcmp(">=", n, ("c", 1))):
                s = s.assume(cond, True) if s is not None else None
        else:
            s = s.assume(mkcmp("==", n, ZERO), True)
        return s.setp(("w", C), True) if s is not None else None

    def array(self, s, C):
        """the arbitrary element of a plain array"""
        w = witness.sym(self.wname(C))
        if self.extent is not None:
            for cond in (mkcmp(">=", w, ZERO), mkcmp("<", w, self.extent)):
                s = s.assume(cond, True) if s is not None else None
        return s.setp(("w", C), "array") if s is not None else None

    def at(self, s, C, i):
        """[(state, is it the arbitrary element)]"""
        return witness.split(s, i, self.wname(C))


class Save(Stream):
    def emit(self, s, item):
        out = s.prop.get("out", ())
        if s.prop.get("glue") and out:
            if out[-1][0] in ("elems", "glued") and item[0] == "elems" and out[-1][1] == item[1]:
                out = out[:-1] + (("glued", item[1]),)
            elif out[-1][0] == "lit" and item[0] == "lit":
                out = out[:-1] + (("lit", out[-1][1] + item[1]),)
            else:
                out = out[:-1] + (("run", out[-1], item),)
        elif not (out and item[0] == "elems" and out[-1] == item):
            out = out + (item,)
        return s.setp("out", out).setp("glue", True)

    def text(self, s, t):
        for k, w in enumerate(t.split()):
            if k or t[:1].isspace():
                s = s.setp("glue", None)
            s = self.emit(s, ("lit", w))
        if not t.strip() and t or t[-1:].isspace():
            s = s.setp("glue", None)
        return s

    def whole(self, s, C, glued):
        """all elements of a container, one after the other"""
        s = self.witness(s, C)
        if s is None:
            return []
        n = s.read(C + (("f", "#n"),))
        if self.filled:
            item = self.place(C + (("e", ZERO),))
            s = self.emit(s, item)
            if glued:
                s = s.setp("out", s.prop["out"][:-1] + (("glued", item[1]),))
            else:
                s = s.setp("glue", None)
            s = s.setp(("got", item[1]), True)
        return [s]

    def on_call(self, I, s, c):
        name = last(c.m or c.n)
        vals = ([("loc", c.obj)] if c.obj is not None else []) + list(c.args)
        st = ("loc", A0)
        if name in OUTS and len(vals) == 2 and vals[0] == st:
            v = vals[1]
            t = c.fr.fn.ty(c.node["pt"][-1]) if c.node.get("pt") else {}
            if v[0] == "c" and isinstance(v[1], str) and v[1].startswith("S:"):
                return [(self.text(s, v[1][2:]), st)]
            if v[0] == "c" and t.get("s", "").replace("const ", "") in ("char", "char &", "char &&") and not isinstance(v[1], (str, bool)):
                return [(self.text(s, chr(v[1])), st)]
            if "basic_ostream" in t.get("s", "") or "ios_base &(" in t.get("s", "") or v[0] in ("fn", "fun"):
                return [(s.setp("glue", None), st)]
            if v[0] == "i" and v[1][0][0] == "glob":
                return [(self.emit(s, ("lit", v[1][0][1])), st)]
            if v[0] == "loc" and v[1][0][0] == "glob":
                return [(self.emit(s, ("lit", v[1][0][1])), st)]
            return self.token(s, v, st)
        if name == "printOn" and c.args and c.args[0] == st and c.obj is not None and c.obj != self.root and self.own(c.obj):
            return self.token(s, ("loc", c.obj), NULL)
        if name in ("copy", "for_each") and len(c.args) == 3 and "ostream_iterator" in c.fr.fn.ty(c.node["a"][2]["t"]).get("s", ""):
            made = s.prop.get(("oit", c.args[2][1])) if c.args[2][0] == "loc" else None
            i, j = c.args[0], c.args[1]
            i, j = [s.read(x[1]) if x[0] == "loc" else x for x in (i, j)]
            if made is None or i[0] != "it" or j[0] != "it" or i[1] != j[1] or not self.own(i[1]):
                raise Stop("copy to a stream of something not followed")
            if i[2] != ZERO or j[2] != s.read(i[1] + (("f", "#n"),)):
                raise Stop("copy of a part of a container")
            return [(x, c.args[2]) for x in self.whole(s, i[1], made == "glued")]
        if name == "ostream_iterator" and c.args and c.args[0] == st:
            glued = len(c.args) == 1 or c.args[1][0] == "c" and isinstance(c.args[1][1], str) and not c.args[1][1][2:]
            return [(s.setp(("oit", c.obj), "glued" if glued else "apart"), ("loc", c.obj))]
        if c.obj == A0 and name in ("width", "precision", "setf", "unsetf", "fill", "flush", "good", "fail"):
            return [(s, ("u", c.site, ""))]
        if name in ("operator[]", "at", "size", "begin", "end", "empty") and c.obj is not None and self.own(c.obj):
            if not self.filled or name in ("operator[]", "at", "begin"):
                s2 = self.witness(s, c.obj)
                if s2 is None:
                    return []
                if s2 is not s:
                    s.facts, s.prop, s.env = s2.facts, s2.prop, s2.env
            return None
        if any(a == st for a in vals) and self.P.fns.get(c.fnref) is None:
            raise Stop("the stream goes to %s" % c.n)
        return None

    def token(self, s, v, st):
        where = self.index(v)
        if where:
            C, i = where
            kind = self.place(C + (("e", i),))
            if s.prop.get(("w", C)) is None:
                s = self.witness(s, C) if C in self.sized else self.array(s, C)
                if s is None:
                    return []
            out = []
            for x, here in self.at(s, C, i):
                x = self.emit(x, kind)
                out.append((x.setp(("got", kind[1]), True) if here else x, st))
            return out
        parts = self.about(v)
        if not parts:
            if v[0] == "c":
                return [(self.emit(s, ("lit", str(v[1]))), st)]
            raise Stop("something is written that is not followed: %s" % (v,))
        return [(self.emit(s, ("part", tuple(sorted(parts)))), st)]


class Load(Stream):
    def take(self, s, site):
        ins = s.prop.get("in", ())
        if not (ins and ins[-1] == site):
            s = s.setp(("at", site), len(ins))
            ins = ins + (site,)
        return s.setp("in", ins)

    def goes(self, s, site, what):
        k = ("to", site)
        return s.setp(k, tuple(sorted(set(s.prop.get(k, ())) | {what})))

    def source(self, s, v):
        """the entry a value was read from"""
        for x in ([v] if v[0] != "loc" else []) + list(syms(v) if v[0] != "loc" else ()):
            if x[0] == "u" and isinstance(x[1], tuple) and x[1][:1] == ("entry",):
                return x[1][1]
            if x[0] == "i":
                q = x[1]
                while q:
                    if s.prop.get(("holds", q)) is not None:
                        return s.prop[("holds", q)]
                    q = q[:-1]
        if v[0] == "t":
            for x in v[1:]:
                if isinstance(x, tuple):
                    r = self.source(s, x)
                    if r is not None:
                        return r
        if v[0] in ("loc", "it"):
            q = v[1]
            while q:
                if s.prop.get(("holds", q)) is not None:
                    return s.prop[("holds", q)]
                q = q[:-1]
            found = []
            mentions(v, lambda x: len(x) > 1 and x[0] == "u" and isinstance(x[1], tuple) and x[1][:1] == ("entry",) and found.append(x[1][1]))
            return found[0] if found else None
        return None

    def on_write(self, I, s, path, v, node, fr):
        if v is None:
            return s
        src = self.source(s, v) if isinstance(v, tuple) and v else None
        if self.own(path):
            kind = self.place(path)
            if kind[0] == "size":
                s = s.setp(("fresh", kind[1]), True)
            if src is not None:
                s = self.goes(s, src, kind)
                s = s.setp(("set", kind), True)
                s = self.reached(s, path)
        return s

    def reached(self, s, path):
        w = self.index(("loc", path))
        if w and s.known(mkcmp("==", w[1], witness.sym(self.wname(w[0])))) is True:
            s = s.setp(("got", self.place(path)[1]), True)
        return s

    def on_copy(self, I, s, dst, src, node, fr):
        h = s.prop.get(("holds", src))
        if h is not None:
            if self.own(dst):
                s = self.goes(s, h, self.place(dst))
                s = s.setp(("set", self.place(dst)), True)
                s = self.reached(s, dst)
            else:
                s = s.setp(("holds", dst), h)
        return s

    def read(self, I, s, c, site, v, st):
        """one entry is read into a place"""
        if v[0] != "loc":
            raise Stop("an entry is read into something not followed")
        p = v[1]
        out = []
        for k, short in s.prop.items():
            if isinstance(k, tuple) and k[0] == "short" and short and not self.own(p):
                h = s.prop[("over", k[1])]      # a further word of an entry that has several
                return [(s.setp(("holds", p), h).write(p, ("u", ("entry", h), "")), st)]
        w = self.index(v)
        if w:
            s = self.known_size(s, w[0])
            if s is None:
                return []
        for x, here in (self.at(s, *w) if w else [(s, False)]):
            x = self.take(x, site)
            if self.own(p):
                kind = self.place(p)
                x = self.goes(x, site, kind)
                x = x.setp(("set", kind), True)
                if here:
                    x = x.setp(("got", kind[1]), True)
                x = x.write(p, ("u", ("entry", site), ""))
            else:
                x = x.setp(("holds", p), site)
                x = x.write(p, ("u", ("entry", site), ""))
            x = self.expected(x, site)
            if x is not None:
                out.append((x, st))
        return out

    def expected(self, s, site):
        """a number read where the number of elements was written is that number"""
        k = s.prop[("at", site)]
        it = self.expect[k] if k < len(self.expect) else None
        if it and it[0] == "part" and len(it[1]) == 1 and it[1][0][0] == "size":
            n = ("u", ("entry", site), "")
            if not self.filled:
                return s.assume(mkcmp("==", n, ZERO), True)
            w = witness.sym(self.wname(self.root + it[1][0][1]))
            for cond in (mkcmp(">=", w, ZERO), mkcmp("<", w, n), mkcmp(">=", n, ("c", 1))):
                s = s.assume(cond, True) if s is not None else None
        return s

    def opened(self, s, c, h):
        """a stream over a string that holds words of an entry"""
        n = s.prop.get(("string", c.args[0][1]), 1) if c.args[0][0] == "loc" else 1
        return s.setp(("over", c.obj), h).setp(("words", c.obj), n).setp(("used", h), None).setp(("short", c.obj), None)

    def known_size(self, s, C):
        if s.prop.get(("w", C)) is None:
            if C in self.sized:
                return self.witness(s, C)
            return self.array(s, C)
        return s

    def on_call(self, I, s, c):
        name = last(c.m or c.n)
        vals = ([("loc", c.obj)] if c.obj is not None else []) + list(c.args)
        st = ("loc", A0)
        site = c.site
        if name in INS and len(vals) == 2 and vals[0][0] == "loc":
            if vals[0] == st:
                t = c.fr.fn.ty(c.node["pt"][-1]) if c.node.get("pt") else {}
                if t.get("s", "").endswith("(std::basic_istream<char> &)") or "ios_base &(" in t.get("s", ""):
                    return [(s, st)]
                return self.read(I, s, c, site, vals[1], st)
            over = s.prop.get(("over", vals[0][1]))
            if over is not None:
                if s.prop.get(("used", over)) is not None:
                    return [(x.setp("twice", True), vals[0]) for x, _ in self.read(I, s, c, over, vals[1], st)]
                t = c.fr.fn.ty(c.node["pt"][-1]) if c.node.get("pt") else {}
                short = s.prop.get(("words", vals[0][1]), 1) < (words(self.P, self.cache, t.get("r")) or 1)
                s = s.setp(("used", over), t.get("r") if short else "").setp(("short", vals[0][1]), short)
                keep = s.prop.get("in", ())
                return [(x.setp("in", keep), vals[0]) for x, _ in self.read(I, s, c, over, vals[1], st)]
        if name == "readFrom" and c.args and c.args[0] == st and c.obj is not None and c.obj != self.root:
            return self.read(I, s, c, site, ("loc", c.obj), NULL)
        if name.startswith("basic_istringstream") or name.startswith("basic_stringstream"):
            h = self.source(s, c.args[0]) if c.args else None
            if h is None:
                raise Stop("a stream over something not followed")
            return [(self.opened(s, c, h), ("loc", c.obj))]
        if name == "str" and len(c.args) == 1 and ("over", c.obj) in s.prop:
            h = self.source(s, c.args[0])
            if h is None:
                raise Stop("a stream over something not followed")
            return [(self.opened(s, c, h), NULL)]
        if ("over", c.obj) in s.prop and name in ("fail", "operator!", "operator bool", "good", "eof", "clear"):
            short = s.prop.get(("short", c.obj), False)
            if name in ("fail", "operator!"):
                return [(s, TRUE if short else FALSE)]
            if name == "operator bool" or name == "good" and short:
                return [(s, FALSE if short else TRUE)]
            if name == "eof" and short:
                return [(s, TRUE)]
            return [(s, NULL)] if name == "clear" else [(s, TRUE), (s, FALSE)]
        if name in ("operator+=", "append") and len(vals) == 2 and s.prop.get(("holds", vals[0][1])) is not None:
            if self.source(s, vals[1]) == s.prop[("holds", vals[0][1])]:
                k = ("string", vals[0][1])
                s = s.setp(k, s.prop.get(k, 1) + 1)
            return [(s, vals[0])]
        if name in ("operator==", "operator!=") and len(vals) == 2:
            for a, b in (vals, vals[::-1]):
                h = self.source(s, a)
                if h is None:
                    continue
                lit = b[1][2:] if b[0] == "c" and isinstance(b[1], str) else b[1][0][1] if b[0] in ("i", "loc") and b[1][0][0] == "glob" else None
                if lit is None:
                    continue
                had = s.prop.get(("word", h))
                eq, ne = (TRUE, FALSE) if name == "operator==" else (FALSE, TRUE)
                if had:
                    if had == ("is", lit):
                        return [(s, eq)]
                    if had == ("not", lit):
                        return [(s, ne)]
                return [(s.setp(("word", h), ("is", lit)), eq), (s.setp(("word", h), ("not", lit)), ne)]
        if c.obj == A0 and name == "tellg":
            return [(s.setp(("pos", site), s.prop.get("in", ())), ("u", ("pos", site), ""))]
        if c.obj == A0 and name == "seekg":
            for k, v in s.prop.items():
                if isinstance(k, tuple) and k[0] == "pos":
                    if c.args[0] == ("u", k, "") or mentions(c.args[0], lambda x: x == ("u", k, "")) or c.args[0][0] == "loc":
                        return [(s.setp("in", v), st)]
            raise Stop("the stream is moved to a place not followed")
        if c.obj == A0 and name in ("operator bool", "good"):
            return [(s, TRUE)]
        if c.obj == A0 and name in ("operator!", "fail", "bad", "eof"):
            return [(s, FALSE)]
        if name in ("transform", "copy") and len(c.args) >= 3:
            i, d = c.args[0], c.args[2]
            i, d = [s.read(x[1]) if x[0] == "loc" else x for x in (i, d)]
            if i[0] == "it" and s.prop.get(("holds", i[1])) is not None and d[0] == "it" and self.own(d[1]):
                h = s.prop[("holds", i[1])]
                kind = self.place(d[1] + (("e", ZERO),))
                s = self.goes(s, h, kind).setp(("set", kind), True)
                return [(s.setp(("got", kind[1]), True), c.args[2])]
        if c.obj is not None and self.own(c.obj) and name in ("insert", "push_back", "emplace_back", "emplace") and c.args:
            h = self.source(s, c.args[-1])
            if h is not None:
                kind = self.place(c.obj + (("e", ZERO),))
                s = self.goes(s, h, kind).setp(("set", kind), True)
                if not s.prop.get(("fresh", kind[1])):
                    s = s.setp(("stale", kind[1]), True)
                s = s.setp(("got", kind[1]), True)
                if c.obj in self.sized:
                    fresh = s.prop.get(("fresh", kind[1]))
                    s = I.setsize(s, c.obj, ("u", site, "n"), c.node, c.fr).setp(("fresh", kind[1]), fresh)
                return [(s, ("u", site, ""))]
        if c.obj is not None and self.own(c.obj) and name in ("swap", "operator=") and c.obj == self.root or c.obj is not None and self.own(c.obj) and name == "assign":
            raise Stop("the content is exchanged with that of another object")
        if c.obj is not None and s.prop.get(("holds", c.obj)) is not None and name in ("size", "length"):
            h = s.prop[("holds", c.obj)]
            return [(s, ("u", ("entry", h), ""))]
        if c.obj is not None and self.own(c.obj) and name in ("operator[]", "at") and len(c.args) == 1 and c.obj in self.sized:
            s = self.known_size(s, c.obj)
            if s is None:
                return []
            i = c.args[0]
            i = s.read(i[1]) if i[0] == "loc" else i
            return [(x, ("loc", c.obj + (("e", i),))) for x, _ in self.at(s, c.obj, i)]
        if name == "operator=" and c.obj is not None and self.own(c.obj) and self.index(("loc", c.obj)) and len(c.args) == 1:
            h = self.source(s, c.args[0])
            if h is not None:
                s = self.goes(s, h, self.place(c.obj)).setp(("set", self.place(c.obj)), True)
                return [(self.reached(s, c.obj), ("loc", c.obj))]
        if name == "operator*" and c.objval is not None:
            it = I.itval(s, c.objval)
            if it and self.own(it[1]) and it[1] in self.sized:
                s = self.known_size(s, it[1])
                return [(x, ("loc", it[1] + (("e", it[2]),))) for x, _ in self.at(s, it[1], it[2])] if s is not None else []
        if c.obj is not None and self.own(c.obj) and name == "resize" and c.obj in self.sized:
            out = []
            s = I.setsize(s, c.obj, c.args[0], c.node, c.fr)
            s = s.setp(("w", c.obj), None)
            s = self.known_size(s, c.obj)
            return [(s, NULL)] if s is not None else []
        if any(a == st for a in vals) and self.P.fns.get(c.fnref) is None:
            raise Stop("the stream goes to %s" % c.n)
        return None


# ------------------------------------------------------------------ judging a pair

def containers(P, cls, root):
    out = {}
    kinds = ("std::vector<", "std::set<", "std::list<", "std::deque<", "std::multiset<")
    if any(x.startswith(kinds) for x in P.superclasses(cls)):
        out[root] = True
    for f, cd in P.fields_of(cls):
        t = cd["tu"].types[f["t"]]
        if (t.get("r") or "").startswith(kinds) and not t["sh"]:
            out[root + (("f", f["n"]),)] = True
    return out


def words(P, cache, r):
    """how many words an object of a class is written with, by its own output operator"""
    if r not in cache:
        cache[r] = None
        for f in P.fns.values():
            if f.m is None and last(f.n) == "operator<<" or f.n.endswith("operator<<"):
                if f.body is not None and len(f.params) == 2 and f.ty(f.params[1]["t"]).get("r") == r:
                    try:
                        h = Save(P, A1, True)
                        outs = Interp(P, h).run(f)
                    except (TooComplex, Stop):
                        return None
                    ns = {len(s.prop.get("out", ())) for k, s, v in outs if k == "return"}
                    cache[r] = max(ns) if ns else None
                    break
    return cache[r]


#: parts of an object that are not part of what is saved, by design
DERIVED = {"MOEO": "fitness, diversity and flag are recomputed from the population the solution is put in",
           "eoExternalEO": "the wrapped object is read and written by functions of the user"}


def name(w):
    k, q = w
    f = "".join("." + str(x[1]) for x in q).lstrip(".") or "the object"
    return {"size": "the number of elements of %s", "elems": "the elements of %s", "field": "%s", "glued": "the elements of %s"}[k] % f


def show(item):
    if item[0] == "lit":
        return "the word %s" % item[1]
    if item[0] == "part":
        return " and ".join(name(x) for x in item[1])
    if item[0] == "run":
        return "%s and %s without anything between them" % (show(item[1]), show(item[2]))
    return name(item)


def array_length(P, cls):
    """the constant a class allocates its array with"""
    for f in P.fns.values():
        if f.cls != cls or not f.ctor or f.body is None:
            continue
        for n in nodes(f):
            if n.get("k") == "new" and "arr" in n:
                for x in walk(n["arr"]):
                    if x.get("k") == "ref" and x.get("dk") == "global" and f.ty(x["t"]).get("cst"):
                        return ("i", (("glob", x["n"]),))
    return None


def judge(c, P, w, r, cls, root, cache):
    """w writes, r reads"""
    done = set()
    cn = cls.split("<")[0]

    def bad(rule, msg, s):
        if rule not in done:
            done.add(rule)
            c.violation(r.file, r.line, r.n, rule, msg, s.trail())
    saved = set()
    cons = containers(P, cls, root)
    todo = []
    for filled in (False, True):
        if not filled and not cons:
            continue
        if not filled and "ObjectiveVector" in cn:
            continue
        extent = array_length(P, cls)

        def run(H, f, expect=()):
            h = H(P, root, filled)
            h.sized, h.expect = set(cons), expect
            s0 = State()
            h.extent = extent
            if extent is not None:
                s0 = s0.assume(mkcmp(">=", extent, ("c", 1)), True)
            if H is Save:
                for C in cons:
                    s0 = h.witness(s0, C)
            outs = Interp(P, h).run(f, thiscls=cls, s0=s0)
            return [s for k, s, v in outs if k == "return"]
        try:
            ws = run(Save, w)
            todo.append((filled, [(s, run(Load, r, s.prop.get("out", ()))) for s in ws]))
        except (TooComplex, Stop) as e:
            c.undecide("%s / %s" % (w.n, r.n), str(e))
            return
    if all(not rs for _, p in todo for _, rs in p):
        c.count("classes that refuse to be loaded", cn)
        return
    if any(not rs for _, p in todo for _, rs in p):
        c.undecide("%s / %s" % (w.n, r.n), "no loading path follows from what is saved")
        return
    if all(not s.prop.get("in") for _, p in todo for _, rs in p for s in rs):
        c.count("classes that are not loaded back", cn)
        return
    for filled, pairs in todo:
        for s, rs in pairs:
            out = s.prop.get("out", ())
            c.count("saving paths", w.n)
            for item in out:
                c.count("entries saved", w.n)
                if item[0] == "part":
                    saved |= {x[1][:1] for x in item[1] if x[0] == "field"}
                elif item[0] in ("elems", "glued"):
                    saved.add(item[1][:1])
                elif item[0] == "run" and "lit" in (item[1][0], item[2][0]):
                    c.undecide("%s / %s" % (w.n, r.n), "a value and a literal word are written as one")
                    return
                elif item[0] == "run":
                    bad("apart", "%s: cannot be told apart when read" % show(item), s)
            for item in out:
                if item[0] in ("elems", "glued") and filled and not s.prop.get(("got", item[1])):
                    bad("all saved", "an element of %s may not be saved" % name(("field", item[1])), s)
            flags = {k: v for k, v in s.facts.items() if k[0] == "i" and k[1][:len(root)] == root and v in (True, False)}
            saved |= {k[1][len(root):][:1] for k in flags}
            fits = []
            for t in rs:
                ins = t.prop.get("in", ())
                ok = True
                for key, d in t.prop.items():
                    if not (isinstance(key, tuple) and key[0] == "word"):
                        continue
                    k = t.prop[("at", key[1])]
                    it = out[k] if k < len(out) else None
                    if d and d[0] == "is" and not (it and it[0] == "lit" and it[1] == d[1]):
                        ok = False
                    if d and d[0] == "not" and it and it[0] == "lit" and it[1] == d[1]:
                        ok = False
                if ok:
                    fits.append(t)
            if not fits:
                bad("read back", "nothing read corresponds to saving %s" % ", ".join(map(show, out)), s)
            for t in fits:
                c.count("saving and loading paths compared", w.n)
                ins = t.prop.get("in", ())
                n = len(ins)
                if t.prop.get("twice"):
                    bad("count", "more than one value is read from one saved word", t)
                    continue
                if n != len(out):
                    what = show(out[n]) if n < len(out) else None
                    bad("count", "%d entries are read where %d were saved (%s)%s" % (n, len(out), ", ".join(map(show, out)) or "nothing", "" if filled else " when a container is empty"), t)
                    continue
                wrong = False
                for item, site in zip(out, ins):
                    to = t.prop.get(("to", site), ())
                    if item[0] == "lit":
                        continue
                    want = set(item[1]) if item[0] == "part" else {("elems", item[1])} if item[0] in ("elems", "glued") else set()
                    if not want:
                        continue
                    if all(x[0] == "size" for x in want) and not to:
                        continue
                    if any(x[0] == "elems" and ("field", x[1]) in to for x in want):
                        continue
                    if not want & set(to) and not any(("field", x[1][:1]) in want for x in to if x[0] != "size"):
                        bad("field", "%s is saved but the value read in its place %s" % (show(item), "goes to " + ", ".join(map(name, to)) if to else "is not stored"), t)
                        wrong = True
                    u = t.prop.get(("used", site))
                    if u:
                        bad("words", "%s is saved with several words (%s) but read from the first one only" % (show(item), u.split("<")[0]), t)
                        wrong = True
                if wrong:
                    continue
                for k, v in flags.items():
                    x = t.read(k[1])
                    if x in (TRUE, FALSE) and (x == TRUE) != v or x == ("i", k[1]):
                        bad("flag", "%s is %s when saved but %s after loading" % (name(("field", k[1][len(root):][:1])), v, "as before" if x == ("i", k[1]) else not v), t)
                for C in cons:
                    q = C[len(root):]
                    has = any(i[0] in ("elems", "glued") and i[1] == q or i[0] == "part" and ("size", q) in i[1] for i in out)
                    if has and (not t.prop.get(("fresh", q)) or t.prop.get(("stale", q))):
                        bad("previous content", "the previous content of %s is not replaced%s" % (name(("field", q)), "" if filled else " when the saved one is empty"), t)
                    elif filled and any(i[0] in ("elems", "glued") and i[1] == q for i in out) and not t.prop.get(("got", q)):
                        bad("all loaded", "an element of %s may not be loaded" % name(("field", q)), t)
    c.count("pairs of saving and loading", cn)
    if cn not in DERIVED and (P.is_a(cls, "EO") or cn == "eoRng"):
        moeo = "MOEO" in P.supers(cls)
        for f, cd in P.fields_of(cls):
            t = cd["tu"].types[f["t"]]
            if t["sh"] or not cd.get("repo") or cd["n"].split("<")[0] in DERIVED or moeo and cd["n"].split("<")[0] == "EO":
                continue
            c.count("fields that must be saved", cn)
            if (("f", f["n"]),) not in saved and root == THIS:
                c.violation(w.file, w.line, w.n, "complete", "%s is part of the object but never saved" % f["n"], [])


# ------------------------------------------------------------------ a state: objects saved and loaded by name

class StateSave(Hooks):
    """every registered object is written: one arbitrary element of the list of objects"""

    def __init__(self):
        self.seen = set()

    def on_call(self, I, s, c):
        if c.m == "printOn" and c.objval is not None and c.objval[0] == "i":
            p = c.objval[1]
            for k, x in enumerate(p):
                if x[0] == "e" and p[:1] == THIS:
                    C = p[:k]
                    self.seen.add(C)
                    out = []
                    for y, here in witness.split(s, x[1], "object"):
                        out.append((y.setp("saved", min(2, y.prop.get("saved", 0) + 1)) if here else y, NULL))
                    return out
        return None


class StateLoad(Hooks):
    """every line of the section of a known object reaches that object, every section header is looked up"""

    def __init__(self, c, f):
        self.c, self.f, self.done, self.loads, self.searched, self.looked = c, f, set(), 0, 0, set()
        self.P = c.prog

    def bad(self, s, rule, msg):
        if rule not in self.done:
            self.done.add(rule)
            self.c.violation(self.f.file, self.f.line, self.f.n, rule, msg, s.trail())

    def inner(self, I, g):
        """the test that tells a header from another line"""
        if g.body is None:
            return
        s = State().setp("str", A0)
        try:
            Interp(self.P, self).run(g, thiscls=g.cls, s0=s)
        except TooComplex as e:
            self.c.undecide(g.n, str(e))

    def texts(self, field):
        """every text a field of the state is given"""
        out = []
        for g in self.P.fns.values():
            if g.cls != self.f.cls:
                continue
            for n in nodes(g):
                if n.get("f") == field and "e" in n and "k" not in n:
                    src = n["e"]
                elif n.get("k") == "call" and n.get("op") == "=" and (n.get("obj") or {}).get("f") == field:
                    src = n["a"]
                else:
                    continue
                lits = [x["v"] for x in walk(src) if x.get("k") == "lit" and isinstance(x.get("v"), str)]
                if len(lits) != 1:
                    return []
                out += lits
        return out

    def lost(self, s):
        if s.prop.get("line") == "body" and s.prop.get("mode") == "object":
            self.bad(s, "line", "a line of a saved object may not reach the object it is loaded into")

    def on_call(self, I, s, c):
        name = last(c.m or c.n)
        vals = ([("loc", c.obj)] if c.obj is not None else []) + list(c.args)
        line = s.prop.get("line")
        if name == "getline" and len(vals) >= 2 and vals[0] == ("loc", A0) and vals[1][0] == "loc":
            self.lost(s)
            if line == "header":
                self.bad(s, "section", "the header of a section may be passed over")
            s = s.write(vals[1][1], ("u", c.site, "line")).setp("str", vals[1][1]).setp("line", "new").trace("%s: a line is read" % c.fr.where(c.node))
            return [(s, ("loc", A0))]
        if c.obj == A0:
            if name in ("operator bool", "good"):
                return [(s, TRUE), (s.setp("line", None), FALSE)]
            if name in ("fail", "operator!", "bad", "eof"):
                return [(s, FALSE), (s.setp("line", None), TRUE)]
        own = s.prop.get("str")
        if name == "find" and own is not None and c.obj == own and c.args and c.args[0][0] == "loc" and c.args[0][1][:1] == THIS and len(c.args[0][1]) == 2:
            texts = self.texts(c.args[0][1][1][1])
            self.searched += 1
            if texts and all("\n" in x for x in texts):
                self.bad(s, "header", "%s, which holds an end of line, is searched in a line: no section is ever recognised" % c.args[0][1][1][1])
        if c.obj == THIS and c.args and own is not None and c.args[0] == ("loc", own) and c.fr.fn.ty(c.node["t"]).get("b") == "bool":
            if self.P.fns.get(c.fnref) is not None and c.fnref not in self.looked:
                self.looked.add(c.fnref)
                self.inner(I, self.P.fns[c.fnref])
            if line == "new":
                return [(s.setp("line", "header"), TRUE), (s.setp("line", "body"), FALSE)]
            return [(s, TRUE if line == "header" else FALSE)]
        if name == "find" and c.obj is not None and c.obj[:1] == THIS and len(c.obj) == 2:
            if s.prop.get("mode") == "object":
                self.bad(s, "loaded", "an object whose section was found may not be loaded")
            return [(s.setp("mode", "asked").setp("line", None), ("u", c.site, ""))]
        if name in ("operator==", "operator!=") and s.prop.get("mode") == "asked":
            eq, ne = (TRUE, FALSE) if name == "operator==" else (FALSE, TRUE)
            return [(s.setp("mode", None), eq), (s.setp("mode", "object").trace("%s: the object of the section is known" % c.fr.where(c.node)), ne)]
        if name in ("operator+", "operator+=", "append", "operator<<") and own is not None and ("loc", own) in vals[0 if name == "operator+" else 1:]:
            if line == "body":
                s = s.setp("line", "kept")
            if name == "operator+":
                return [I.fresh(s, c.node, c.fr, "r")]
            return [(s, vals[0])]
        if name == "readFrom":
            self.lost(s)
            self.loads += 1
            return [(s.setp("mode", None).trace("%s: the object is loaded" % c.fr.where(c.node)), NULL)]
        return None


def states(c, P):
    for f in sorted(functions(P), key=lambda f: (f.file, f.line)):
        if not f.cls or f.body is None or len(f.params) != 1 or f.virt:
            continue
        t = f.ty(f.params[0]["t"]).get("r") or ""
        if f.m == "save" and "ostream" in t:
            h = StateSave()
            s0 = State()
            w = witness.sym("object")
            lists = [THIS + (("f", x["n"]),) for x, cd in P.fields_of(f.cls) if (cd["tu"].types[x["t"]].get("r") or "").startswith("std::vector<") and not cd["tu"].types[x["t"]]["sh"]]
            try:
                for C in lists:
                    n = s0.read(C + (("f", "#n"),))
                    s1 = s0
                    for cond in (mkcmp(">=", w, ZERO), mkcmp("<", w, n), mkcmp(">=", n, ("c", 1))):
                        s1 = s1.assume(cond, True)
                    h.seen = set()
                    outs = Interp(P, h).run(f, thiscls=f.cls, s0=s1)
                    if C not in h.seen:
                        continue
                    for k, s, v in outs:
                        if k == "return":
                            c.count("paths saving or loading a state", f.n)
                            if s.prop.get("saved", 0) != 1:
                                c.violation(f.file, f.line, f.n, "state", "a registered object may be saved %s" % ("never" if not s.prop.get("saved") else "twice"), s.trail())
                                break
            except TooComplex as e:
                c.undecide(f.n, str(e))
        elif f.m == "load" and "istream" in t:
            h = StateLoad(c, f)
            try:
                outs = Interp(P, h).run(f, thiscls=f.cls)
            except TooComplex as e:
                c.undecide(f.n, str(e))
                continue
            for k, s, v in outs:
                if k == "return":
                    c.count("paths saving or loading a state", f.n)
                    h.lost(s)
                    if s.prop.get("mode") == "object":
                        h.bad(s, "loaded", "an object whose section was found may not be loaded")


def check():
    c = Check("C08", ("eo", "mo", "moeo", "edo"), "for every path of a saving method the matching paths of its loading method read as many entries, store each in the field it was written from, restore the flags and replace the previous content; every field is saved")
    P = c.prog
    State.closure = True
    work, seen = [], set()
    for r in sorted(functions(P), key=lambda f: ("Dual" not in (f.cls or ""), f.usr)):
        if r.body is None or r.lam:
            continue
        if r.m == "readFrom" and len(r.params) == 1 and r.cls and "istream" in (r.ty(r.params[0]["t"]).get("r") or ""):
            w = [f for f in P.fns.values() if f.cls == r.cls and f.m == "printOn" and f.body is not None and len(f.params) == 1]
            root, cls = THIS, r.cls
        elif last(r.n) == "operator>>" and not r.cls and len(r.params) == 2 and r.file:
            cls = r.ty(r.params[1]["t"]).get("r")
            w = [f for f in P.fns.values() if last(f.n) == "operator<<" and not f.cls and f.body is not None and len(f.params) == 2 and f.ty(f.params[1]["t"]).get("r") == cls]
            root = A1
            if not cls or cls.split("<")[0] in ("eoPersistent", "eoObject"):
                continue
        else:
            continue
        if not w or (r.file, r.line) in seen:
            continue
        seen.add((r.file, r.line))
        work.append((w[0], r, cls, root))
    cache = {}
    states(c, P)
    c.need("paths saving or loading a state", 2)
    c.need("pairs of saving and loading", 12)
    c.need("saving and loading paths compared", 30)
    c.each(work, lambda sub_, it: judge(sub_, P, it[0], it[1], it[2], it[3], cache))
    return c
