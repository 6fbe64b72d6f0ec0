"""C20: no decision depends on uninitialised data."""
from ..absint import Hooks, Interp, TooComplex, State
from ..core import Check
from ..lib import *
from ..prog import walk

# the framework calls these before any other operation of a component
PROTO = ("init", "initParam", "setup")


def scalar(t):
    return t is not None and (t["sh"] == "p" or (not t["sh"] and not t.get("r") and not t.get("lam") and bool(t.get("b"))))


class Flow(Hooks):
    """flags ("un", path) mark scalars without a value"""
    def __init__(self, report, own=True):
        self.report, self.own = report, own

    def on_decl(self, I, s, v, vp, fr):
        if v.get("init") is None and not v.get("static") and scalar(fr.fn.ty(v["t"])) and fr.depth == 0 and not v.get("noarr"):
            return s.setp(("un", vp), "%s:%s" % (v["n"], v.get("l")))
        return self.drop(s, vp)

    def drop(self, s, p):
        ks = [k for k in s.prop if isinstance(k, tuple) and k[0] == "un" and k[1][:len(p)] == p]
        if ks:
            s = s.copy()
            for k in ks:
                del s.prop[k]
        return s

    def on_write(self, I, s, path, v, node, fr):
        return self.drop(s, path)

    def on_init(self, I, s, path, v, node, fr):
        return self.drop(s, path)

    def on_copy(self, I, s, dst, src, node, fr):
        return self.drop(s, dst)

    def on_read(self, I, s, path, node, fr):
        w = s.prop.get(("un", path))
        if w is not None:
            self.report(path, w, node, fr, s)

    def inline(self, I, fn, c):
        return self.own and c.obj == (("this",),) and fn.cls is not None


class Built(Flow):
    """constructors run in full: base constructors, helpers, nested objects"""
    def __init__(self):
        Flow.__init__(self, lambda *a: None)

    def inline(self, I, fn, c):
        return Hooks.inline(self, I, fn, c)


def check():
    c = Check("C20", ("eo", "mo", "moeo", "edo", "smp"), "every scalar attribute left open by a constructor, and every local declared without a value, is written on all paths before it is read (attributes: constructor, then the component's initialiser if it has one, then any operation)")
    P = c.prog
    ctors = {}
    for f in P.fns.values():
        if f.ctor and f.cls:
            ctors.setdefault(f.cls, []).append(f)
    # one representative instantiation per class template and set of open attributes
    items, seen = [], set()
    for cn in sorted(P.classes):
        cd = P.classes[cn]
        if not cd.get("repo") or cd.get("lambda") or not ctors.get(cn):
            continue
        fls = [(fl["n"], x["n"]) for fl, x in P.fields_of(cn) if scalar(x["tu"].types[fl["t"]]) and x.get("repo")]
        if not fls:
            continue
        user = any(not f.implicit for f in ctors[cn])
        if not user and not cd.get("poly"):
            continue
        key = (cd["n"], tuple(fls))
        if key in seen:
            continue
        seen.add(key)
        items.append(cn)

    def classes(sub, cn):
        cd = P.classes[cn]
        fls = {fl["n"]: (fl, x) for fl, x in P.fields_of(cn) if scalar(x["tu"].types[fl["t"]]) and x.get("repo")}
        sub.count("classes")
        sub.count("scalar attributes", n=len(fls))
        methods = {}
        for x in P.superclasses(cn):
            xd = P.classes.get(x)
            if xd is None or not xd.get("repo"):
                continue
            for m in xd.get("methods", []):
                f = P.fns.get(m["usr"])
                if f is not None and f.body and not f.ctor and not f.dtor and not f.static and not f.implicit:
                    methods.setdefault((f.m, tuple(f.ty(p["t"])["s"] for p in f.params)), f)
        for k in sorted(ctors[cn], key=lambda f: (f.line, len(f.params), f.usr)):
            if k.node.get("cp") or k.node.get("mv"):
                if k.implicit or k.node.get("defaulted"):
                    continue
            sub.count("constructors", "%s:%d %s" % (k.file, k.line, k.n))
            if k.node.get("implicit") or not k.body:
                ini = {i.get("f") for i in k.node.get("inits", []) or [] if i.get("f")}
                s = State()
                outs = [("return", s, None)]
                left0 = [n for n, (fl, x) in fls.items() if x is cd and not fl.get("init") and n not in ini]
                if not left0:
                    continue
            else:
                known = bases_known(P, k, cn)
                s0 = State()
                for n, (fl, x) in fls.items():
                    if x["name"] in known:
                        s0.prop[("un", (("this",), ("f", n)))] = n
                try:
                    outs = Interp(P, Built()).run(k, thiscls=cn, s0=s0)
                except TooComplex as e:
                    sub.undecide("%s#%s" % (k.file, k.n), str(e))
                    continue
                left0 = None
            starts = []
            for kind, s, v in outs:
                if kind != "return":
                    continue
                left = [k2[1][1][1] for k2 in s.prop if isinstance(k2, tuple) and k2[0] == "un" and len(k2[1]) == 2 and k2[1][0] == ("this",)] if left0 is None else left0
                if left:
                    s = s.copy()
                    for n in left:
                        s.prop[("un", (("this",), ("f", n)))] = n
                    starts.append(s)
                    sub.count("attributes left open by a constructor", "%s: %s" % (k.n, ", ".join(left)), n=len(left))
            if not starts:
                continue
            hits = {}

            def report(path, w, node, fr, s, hits=hits):
                if len(path) == 2 and path[0] == ("this",):
                    hits.setdefault(path[1][1], (fr.where(node), fr.fn.n))

            def go(f, ss):
                out = []
                for s in ss[:6]:
                    I = Interp(P, Flow(report))
                    I.maxsteps = 40000
                    try:
                        out += [x for kd, x, v in I.run(f, thiscls=cn, s0=s) if kd == "return"]
                    except TooComplex as e:
                        sub.undecide("%s#%s" % (f.file, f.n), str(e))
                sub.count("operations after construction")
                return out

            cur = starts
            for pn in PROTO:
                for (m, ps), f in methods.items():
                    if m == pn and f.acc != "private":
                        nxt = go(f, cur)
                        cur = [strip(x) for x in nxt][:6] or cur
            for (m, ps), f in methods.items():
                if m not in PROTO and f.acc == "public" and (f.m not in ("printOn",) or True):
                    go(f, cur)
            if hits and (iterator(P, cn) or only_static(P, cd["n"])):
                sub.count("classes whose objects are singular iterators or zero-initialised statics", cd["n"])
                continue
            for n, (where, fn) in hits.items():
                fl, x = fls[n]
                sub.violation(x["file"], fl.get("l") or x["line"], "%s::%s" % (x["n"], n), "uninitialised-attribute",
                              "the constructor at %s:%d leaves '%s' without a value and %s reads it at %s" % (k.file, k.line, n, fn, where))

    c.each(items, classes)

    # locals
    loc, seen = [], set()
    for f in functions(P):
        if (f.file, f.line) in seen:
            continue
        for n in nodes(f):
            if n.get("s") == "decl" and any(v.get("init") is None and not v.get("static") and scalar(f.ty(v["t"])) for v in n["v"]):
                seen.add((f.file, f.line))
                loc.append(f)
                break

    def locals_(sub, f):
        sub.count("functions with open locals", "%s:%d %s" % (f.file, f.line, f.n))

        def report(path, w, node, fr, s):
            sub.violation(f.file, int(w.split(":")[1]) if w.split(":")[1].isdigit() else f.line, f.n, "uninitialised-local:" + w.split(":")[0], "local '%s' may be read at %s before it has a value" % (w.split(":")[0], fr.where(node)), s.trail())
        I = Interp(P, Flow(report, own=False))
        I.maxsteps = 60000
        try:
            I.run(f, thiscls=f.cls)
        except TooComplex as e:
            sub.undecide("%s#%s" % (f.file, f.n), str(e))

    c.each(loc, locals_)
    c.need("classes", 150)
    c.need("constructors", 250)
    c.need("functions with open locals", 60)
    return c


def bases_known(P, k, cn, out=None):
    """the classes of which k runs an analysable constructor (a base copied from
    another object has the values of that object)"""
    out = set() if out is None else out
    out.add(cn)
    for i in k.node.get("inits", []) or []:
        e = i.get("e")
        if i.get("deleg") or not i.get("base"):
            continue
        for n in walk(e):
            if n.get("k") == "ctor":
                f = P.fns.get(n.get("f"))
                if f is not None and f.ctor and f.cls and (f.body or f.node.get("implicit")) and not f.node.get("cp") and not f.node.get("mv"):
                    bases_known(P, f, f.cls, out)
                break
    return out


def iterator(P, cn):
    """a default constructed iterator is singular: using it is the caller's error"""
    ms = {m["n"] for x in P.superclasses(cn) for m in (P.classes.get(x) or {}).get("methods", [])}
    return "operator*" in ms and "operator++" in ms


def strip(s):
    """forget parameter and local bindings of the finished call, keep the object"""
    s2 = s.copy()
    for p in [p for p in s2.env if p[0][0] in ("v", "arg", "tmp")]:
        del s2.env[p]
    return s2
