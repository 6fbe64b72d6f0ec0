"""C15: owned objects are released exactly once and never used afterwards."""
from ..absint import Hooks, Interp, TooComplex, State
from ..core import Check
from ..lib import *
from ..prog import walk

GROW = {"push_back", "resize", "insert", "emplace_back", "reserve", "assign", "swap", "emplace", "push_front"}
SHRINK = {"erase", "clear", "pop_back", "pop_front"}
VECTORS = ("std::vector", "std::deque", "std::basic_string")


def strip(e, through=("load", "conv", "temp", "cast", "decay")):
    while isinstance(e, dict) and e.get("k") in through and isinstance(e.get("e"), dict):
        e = e["e"]
    return e


def deletes(P, f, depth=0, seen=None):
    """delete expressions run by f, helpers of the same class included"""
    seen = set() if seen is None else seen
    if f.usr in seen:
        return []
    seen.add(f.usr)
    out = []
    for n in nodes(f):
        if n.get("k") == "del":
            out.append((f, n))
        elif n.get("k") == "call" and depth < 3 and n.get("f"):
            g = P.fns.get(n["f"])
            if g is not None and g.body and g.cls and f.cls and (g.cls == f.cls or P.is_a(f.cls, g.cls)):
                out += deletes(P, g, depth + 1, seen)
    return out


def nodes_of(fn):
    return list(nodes(fn))


def pointee(v):
    return v[1] if v[0] == "loc" else (("d", v),)


class Life(Hooks):
    """freed objects, and references into containers that may have moved"""
    def __init__(self, c, fn, own=False):
        self.c, self.fn, self.own, self.dels, self.moves = c, fn, own, 0, 0

    def bad(self, s, path, node, fr, what):
        for n in range(len(path), 0, -1):
            w = s.prop.get(("freed", path[:n]))
            if w is not None:
                self.c.violation(self.fn.file, self.fn.line, self.fn.n, "use-after-release", "the object released at %s is %s at %s" % (w, what, fr.where(node)), s.trail())
                return True
        if path and path[0][0] == "stale":
            self.c.violation(self.fn.file, self.fn.line, self.fn.n, "stale-reference", "'%s' refers into a container that may have been reallocated at %s and is used at %s" % (path[0][1], path[0][2], fr.where(node)), s.trail())
            return True
        return False

    def on_read(self, I, s, path, node, fr):
        self.bad(s, path, node, fr, "read")

    def on_write(self, I, s, path, v, node, fr):
        self.bad(s, path, node, fr, "written")
        return s

    def on_copy(self, I, s, dst, src, node, fr):
        self.bad(s, src, node, fr, "copied")
        if not self.bad(s, dst, node, fr, "assigned to"):
            ks = [k for k in s.prop if isinstance(k, tuple) and k[0] == "freed" and k[1][:len(dst)] == dst]
        return s

    def inline(self, I, fn, c):
        if c.obj is not None and c.obj[0] == ("this",) and len(c.obj) == 1 and fn.cls is not None and not fn.lam:
            return self.own or len(nodes_of(fn)) < 25 or any(n.get("k") == "del" for n in nodes(fn))
        return False

    def on_call(self, I, s, c):
        if c.m == "delete" and c.node.get("k") == "del":
            v = c.args[0]
            if v[0] == "c":
                return None
            p = pointee(v)
            self.dels += 1
            w = s.prop.get(("freed", p))
            if w is not None:
                self.c.violation(self.fn.file, self.fn.line, self.fn.n, "released-twice", "the object released at %s is released again at %s" % (w, c.fr.where(c.node)), s.trail())
                return [(s, v)]
            return [(s.setp(("freed", p), c.fr.where(c.node)), v)]
        if c.node.get("k") == "call":
            if c.obj is not None:
                self.bad(s, c.obj, c.node, c.fr, "used (%s)" % c.m)
            n = c.n or ""
            if c.obj is not None and c.m in GROW | SHRINK and n.startswith(VECTORS + ("eoPop::",)):
                return self.moved(I, s, c)
            for a in c.args:
                if a[0] == "loc":
                    self.bad(s, a[1], c.node, c.fr, "passed to %s" % c.m)
        return None

    def moved(self, I, s, c):
        """references obtained from elements of the container are no longer good"""
        self.moves += 1
        p = c.obj
        if c.m == "reserve":
            s = s.setp(("reserved", p), True)
        if s.prop.get(("reserved", p)) and c.m in ("push_back", "emplace_back"):
            return None
        hit = []
        for q, v in s.env.items():
            if q[0][0] == "v" and len(q) == 1 and v[0] == "loc" and len(v[1]) > len(p) and v[1][:len(p)] == p and v[1][len(p)][0] == "e":
                hit.append(q)
        if not hit:
            return None
        self.pend = [(q, ("loc", (("stale", self.name(I, q), c.fr.where(c.node)),))) for q in hit]
        s2 = s.copy()
        for q, v in self.pend:
            s2.env[q] = v
        s2, u = I.fresh(s2, c.node, c.fr)
        s2, n = I.fresh(s2, c.node, c.fr, "n")
        s2 = s2.copy()
        for k in [k for k in s2.env if len(k) > len(p) and k[:len(p)] == p]:
            del s2.env[k]
        s2.env[p + (("f", "#n"),)] = n
        return [(s2, u)]

    def name(self, I, q):
        return self.names.get(q[0][-1], "a reference")


def check():
    c = Check("C15", ("eo", "mo", "moeo", "edo", "smp", "mpi"), "a class whose destructor releases what it holds cannot be copied memberwise; nothing is released twice or used after its release; delete matches new and virtual destruction; no stored reference to a by-value parameter, a temporary or an element of a container that moved; reproduction operators announce as many offspring as they produce")
    P = c.prog
    # ---- owners
    owners = {}
    for f in functions(P):
        if f.dtor and f.cls in P.classes:
            ds = deletes(P, f)
            if ds:
                owners.setdefault(P.classes[f.cls]["n"], (f, ds, P.classes[f.cls]))
    for n, (f, ds, cd) in sorted(owners.items()):
        c.count("owning classes", "%s %s" % (n, f.loc()))
        for which, flag in (("copied", "cp"), ("assigned", "cpa")):
            ms = [m for m in cd["methods"] if m.get(flag)]
            if any(m.get("del") or m.get("acc") == "private" or (m.get("user") and not m.get("dflt")) for m in ms):
                for m in ms:
                    g = P.fns.get(m["usr"])
                    if g is not None and g.body and m.get("user"):
                        shallow(c, P, f, ds, g)
                continue
            if flag == "cp" and not ms and cd.get("hcc") == "deleted":
                continue
            if flag == "cpa" and not ms:
                continue
            if any(not m.get("impl") and not m.get("dflt") for m in ms):
                continue
            if only_static(P, n):
                c.count("owning classes with static objects only", n)
                continue
            d = ds[0]
            c.violation(cd["file"], cd["line"], n, "owner-" + which, "objects release what they hold (%s:%s) but can be %s memberwise: both copies release it" % (d[0].file, d[1].get("l"), which))
    # ---- forms of delete, virtual destructors
    forms = {}
    for f in functions(P):
        for n in nodes(f):
            if n.get("k") == "del":
                c.count("delete expressions", "%s:%s" % (f.file, n.get("l")))
                t = f.ty(n["dt"])
                cd = P.classes.get(t.get("r") or "")
                if cd is not None and not n.get("arr"):
                    kids = [x for x in P.classes.values() if cd["name"] in P.supers(x["name"]) and x["name"] != cd["name"]]
                    if kids and not cd.get("vdtor") and cd.get("repo"):
                        c.violation(f.file, n.get("l"), f.n, "delete-through-base", "deletes a %s, which has derived classes but no virtual destructor" % cd["n"])
                x = strip(n["e"])
                if x.get("k") == "mem":
                    forms.setdefault((x.get("fc") and P.classes.get(x["fc"], {}).get("n") or x.get("fc"), x["f"]), []).append(("delete", bool(n.get("arr")), f, n))
                elif x.get("k") == "ref" and x.get("dk") == "local":
                    forms.setdefault((f.usr, x["d"]), []).append(("delete", bool(n.get("arr")), f, n))
            if n.get("k") == "asg" and not n.get("op", "=").rstrip("="):
                new_form(P, f, forms, n["a"], n["b"])
            if n.get("s") == "decl":
                for v in n["v"]:
                    y = strip(v.get("init")) if v.get("init") else None
                    if isinstance(y, dict) and y.get("k") == "new":
                        forms.setdefault((f.usr, v["id"]), []).append(("new", bool(y.get("arr")), f, y))
        for i in f.node.get("inits", []) or []:
            y = strip(i.get("e")) if i.get("f") else None
            if isinstance(y, dict) and y.get("k") == "new":
                forms.setdefault((P.classes.get(f.cls, {}).get("n"), i["f"]), []).append(("new", bool(y.get("arr")), f, y))
    for k, us in sorted(forms.items(), key=repr):
        news = {a for w, a, f, n in us if w == "new"}
        if news:
            c.count("objects with both new and delete", str(k))
        for w, a, f, n in us:
            if w == "delete" and news and a not in news:
                c.violation(f.file, n.get("l"), f.n, "delete-form", "'%s' is allocated with new%s and released with delete%s" % (k[1], "[]" if True in news else "", "[]" if a else ""))
    # ---- stored references
    stores = {}
    seen = set()
    for f in functions(P):
        if not f.ctor:
            continue
        own = {fl["n"]: P.classes[f.cls]["tu"].types[fl["t"]] for fl in P.classes.get(f.cls, {}).get("fields", [])}
        for i in f.node.get("inits", []) or []:
            ft = own.get(i.get("f"))
            if ft is None or i.get("e") is None:
                continue
            if ft["sh"][:1] in ("r", "R"):
                c.count("reference attributes bound", "%s::%s" % (f.cn, i["f"]))
                x = strip(i["e"])
                if x.get("k") == "ref" and x.get("dk") == "param":
                    pt = f.ty(f.params[x["i"]]["t"])
                    if pt["sh"][:1] in ("r", "R"):
                        stores.setdefault(f.usr, {})[x["i"]] = i["f"]
                    elif (f.file, f.line, i["f"]) not in seen:
                        seen.add((f.file, f.line, i["f"]))
                        c.violation(f.file, f.line, f.n, "dangling:" + i["f"], "'%s' keeps a reference to the parameter '%s', which is passed by value and gone when the constructor returns" % (i["f"], f.params[x["i"]]["n"]))
                elif x.get("k") in ("ctor", "lit", "list") and (f.file, f.line, i["f"]) not in seen:
                    seen.add((f.file, f.line, i["f"]))
                    c.violation(f.file, f.line, f.n, "dangling:" + i["f"], "'%s' keeps a reference to a temporary" % i["f"])
            elif ft["sh"] == "p":
                x = strip(i["e"])
                if x.get("k") == "un" and x.get("op") == "&":
                    y = strip(x["e"])
                    if y.get("k") == "ref" and y.get("dk") == "param":
                        if not f.ty(f.params[y["i"]]["t"])["sh"]:
                            c.violation(f.file, f.line, f.n, "dangling:" + i["f"], "'%s' keeps the address of the by-value parameter '%s'" % (i["f"], f.params[y["i"]]["n"]))
                        else:
                            stores.setdefault(f.usr, {})[y["i"]] = i["f"]
    more = True
    while more:
        more = False
        for f in P.fns.values():
            if not f.ctor:
                continue
            for i in f.node.get("inits", []) or []:
                e = i.get("e")
                if isinstance(e, dict) and e.get("k") == "ctor" and e.get("f") in stores:
                    for ai, a in enumerate(e["a"]):
                        if ai in stores[e["f"]]:
                            x = strip(a)
                            if x.get("k") == "ref" and x.get("dk") == "param" and f.ty(f.params[x["i"]]["t"])["sh"][:1] in ("r", "R") and x["i"] not in stores.setdefault(f.usr, {}):
                                stores[f.usr][x["i"]] = i.get("f") or stores[e["f"]][ai]
                                more = True
    c.count("constructors that keep references to their arguments", n=len(stores))
    for f in functions(P):
        for n in kept_objects(f):
            if n.get("f") in stores:
                for ai, a in enumerate(n["a"]):
                    if ai not in stores[n["f"]]:
                        continue
                    c.count("arguments kept by reference")
                    x = a
                    tmp = False
                    while isinstance(x, dict) and x.get("k") in ("conv", "cast", "temp") and isinstance(x.get("e"), dict):
                        tmp = tmp or x["k"] == "temp"
                        x = x["e"]
                    byval = x.get("k") == "ref" and x.get("dk") == "param" and not f.ty(f.params[x["i"]]["t"])["sh"] and f.ctor and n.get("_kept")
                    if (tmp or x.get("k") in ("ctor", "lit") or byval) and (f.file, n.get("l"), ai) not in seen:
                        seen.add((f.file, n.get("l"), ai))
                        c.violation(f.file, n.get("l") or f.line, f.n, "dangling-argument", "%s keeps a reference ('%s') to its argument %d, which is %s here" % (n["n"], stores[n["f"]][ai], ai + 1, "a by-value parameter" if byval else "a temporary"))
    # ---- flow inside functions
    todo, seenf = [], set()
    for f in functions(P):
        if (f.file, f.line) in seenf or f.lam:
            continue
        has_del = any(True for _ in [1] if any(n.get("k") == "del" for n in nodes(f)))
        refs = False
        if not has_del:
            grow = any(n.get("k") == "call" and n.get("m") in GROW | SHRINK for n in nodes(f))
            if grow:
                refs = any(n.get("s") == "decl" and any(f.ty(v["t"])["sh"][:1] in ("r", "p") and v.get("init") for v in n["v"]) for n in nodes(f))
        if has_del or refs:
            seenf.add((f.file, f.line))
            todo.append(f)

    def one(sub, f):
        h = Life(sub, f, own=f.dtor)
        h.names = {}
        for n in nodes(f):
            if n.get("s") == "decl":
                for v in n["v"]:
                    h.names[v["id"]] = v["n"]
        I = Interp(P, h)
        I.maxsteps = 60000
        try:
            outs = I.run(f, thiscls=f.cls)
            if f.m == "operator=" and len(f.params) == 1 and f.ty(f.params[0]["t"]).get("r") == f.cls:
                sub.count("self-assignments", f.n)
                Interp(P, h).run(f, thiscls=f.cls, bind={0: ("loc", (("this",),))})
        except TooComplex as e:
            sub.undecide("%s#%s" % (f.file, f.n), str(e))
            return
        sub.count("functions with releases or references into containers", "%s %s" % (f.loc(), f.n))
        sub.count("releases", n=h.dels)
        sub.count("container moves", n=h.moves)
        # what an ordinary operation released must not stay reachable from the object
        if not f.dtor:
            for kind, s, v in outs:
                if kind != "return":
                    continue
                for k, w in s.prop.items():
                    if isinstance(k, tuple) and k[0] == "freed":
                        p = k[1]
                        own = None
                        if p[0][0] == "d" and len(p) == 1 and p[0][1][0] == "i" and p[0][1][1][0] == ("this",) and len(p[0][1][1]) == 2:
                            own = p[0][1][1]
                            if s.read(own) == p[0][1]:
                                sub.violation(f.file, f.line, f.n, "dangling-after-release", "returns with '%s' still pointing to the object released at %s" % (own[1][1], w), s.trail())
            # destruction of the whole object, derived part first
    c.each(todo, one)

    # ---- destructor chains
    chains = []
    for cn, cd in P.classes.items():
        if not cd.get("repo") or cd.get("lambda"):
            continue
        ds = []
        for x in P.superclasses(cn):
            for m in P.classes.get(x, {}).get("methods", []):
                g = P.fns.get(m["usr"]) if m.get("dtor") else None
                if g is not None and g.body and any(n.get("k") == "del" for n in nodes(g)):
                    ds.append(g)
        if len(ds) > 1:
            chains.append((cn, ds))
    done = set()
    for cn, ds in chains:
        key = tuple((g.file, g.line) for g in ds)
        if key in done:
            continue
        done.add(key)
        c.count("destructor chains", "%s: %s" % (P.classes[cn]["n"], ", ".join(g.n for g in ds)))
        freed = {}
        for g in ds:
            for f2, n in deletes(P, g):
                x = strip(n["e"])
                if x.get("k") == "mem" and strip(x.get("b") or {}).get("k") == "this":
                    k = (x.get("fc"), x["f"])
                    if k in freed and freed[k] is not g:
                        c.violation(g.file, g.line, g.n, "released-twice", "'%s' is released by this destructor and by %s" % (x["f"], freed[k].n))
                    freed.setdefault(k, g)

    unreleased(c, P)
    production(c, P)
    c.need("attributes given a new object", 15)
    c.need("owning classes", 15)
    c.need("delete expressions", 30)
    c.need("reference attributes bound", 200)
    c.need("constructors that keep references to their arguments", 200)
    c.need("functions with releases or references into containers", 60)
    return c


def new_form(P, f, forms, a, b):
    x, y = strip(a), strip(b)
    if y.get("k") != "new":
        return
    if x.get("k") == "mem":
        forms.setdefault((x.get("fc") and P.classes.get(x["fc"], {}).get("n") or x.get("fc"), x["f"]), []).append(("new", bool(y.get("arr")), f, y))
    elif x.get("k") == "ref" and x.get("dk") == "local":
        forms.setdefault((f.usr, x["d"]), []).append(("new", bool(y.get("arr")), f, y))


def kept_objects(f):
    """constructor calls whose object outlives the expression"""
    for i in f.node.get("inits", []) or []:
        e = i.get("e")
        if isinstance(e, dict) and e.get("k") == "ctor":
            e["_kept"] = True
            yield e
    for n in nodes(f):
        if n.get("s") == "decl":
            for v in n["v"]:
                e = v.get("init")
                if isinstance(e, dict) and e.get("k") == "ctor" and not f.ty(v["t"])["sh"]:
                    yield e
        elif n.get("k") == "new":
            for x in (n.get("init"), n.get("e"), n.get("c")):
                if isinstance(x, dict) and x.get("k") == "ctor":
                    x["_kept"] = True
                    yield x


def shallow(c, P, dtor, ds, g):
    """a user-written copy must not take over the pointer that will be released"""
    owned = set()
    for f2, n in ds:
        x = strip(n["e"])
        if x.get("k") == "mem":
            owned.add(x["f"])
    c.count("user-written copies of owners", g.n)

    def takes(e, fld):
        x = strip(e)
        return x.get("k") == "mem" and x.get("f") == fld and strip(x.get("b") or {}).get("k") == "ref" and strip(x["b"]).get("dk") == "param"
    for i in g.node.get("inits", []) or []:
        if i.get("f") in owned and i.get("e") and takes(i["e"], i["f"]):
            c.violation(g.file, g.line, g.n, "shallow-copy", "copies the pointer '%s', which both objects release" % i["f"])
    for n in nodes(g):
        if n.get("k") == "asg":
            x = strip(n["a"])
            if x.get("k") == "mem" and x["f"] in owned and strip(x.get("b") or {}).get("k") == "this" and takes(n["b"], x["f"]):
                c.violation(g.file, n.get("l") or g.line, g.n, "shallow-copy", "copies the pointer '%s', which both objects release" % x["f"])


class Positions(Hooks):
    """how many offspring positions of a populator an operator touches"""
    def on_call(self, I, s, c):
        cls = c.ot.get("r") if c.ot else None
        if cls and "eoPopulator" in I.prog.supers(cls):
            pos = s.prop.get("pos", 0)
            if c.m == "operator++":
                if pos > 6:
                    raise TooComplex("unbounded production")
                return [(s.setp("pos", pos + 1), ("loc", c.obj))]
            if c.m in ("operator*", "operator->"):
                s = s.setp("prod", max(s.prop.get("prod", 0), pos + 1))
                return [(s, ("loc", (("offspring", pos),)))]
            if c.m == "insert":
                return [(s.setp("prod", s.prop.get("prod", 0) + 1), ("c", 0))]
            if c.m == "reserve":
                return [(s.setp("reserved", True), ("c", 0))]
            if c.m == "apply" or c.m == "operator()":
                return None
        if c.m == "apply" and cls and "eoGenOp" in I.prog.supers(cls) and c.obj == (("this",),):
            s = s.setp("applied", "before" if not s.prop.get("reserved") else "after")
            s, u = I.fresh(s, c.node, c.fr)
            return [(s, u)]
        return None

    def inline(self, I, fn, c):
        return c.obj == (("this",),)


def fresh_object(e):
    e = strip(e)
    if e.get("k") == "un" and e.get("op") == "*":
        e = strip(e["e"])
    return e.get("k") == "new"


def unreleased(c, P):
    """an object an attribute is given with new is released, or handed on, by some operation of the class"""
    made, gone = {}, set()
    for f in functions(P):
        for n in nodes(f):
            if n.get("k") == "del":
                y = strip(n["e"])
                if y.get("k") == "un" and y.get("op") == "&":
                    y = strip(y["e"])
                if y.get("k") == "mem":
                    gone.add(y["f"])
            elif n.get("k") == "asg" and fresh_object(n["b"]):
                x = strip(n["a"])
                if x.get("k") == "mem":
                    made.setdefault((f.cn, x["f"]), (f, n.get("l")))
            elif n.get("s") == "return" and (n.get("e") or {}).get("k") == "load" and strip(n["e"]).get("k") == "mem":
                gone.add(strip(n["e"])["f"])
        for i in f.node.get("inits", []) or []:
            if i.get("f") and i.get("e") and fresh_object(i["e"]):
                made.setdefault((f.cn, i["f"]), (f, i["e"].get("l")))
    for (cn, fld), (f, l) in sorted(made.items(), key=repr):
        c.count("attributes given a new object", "%s::%s" % (cn, fld))
        if fld not in gone:
            c.violation(f.file, l, "%s::%s" % (cn, fld), "never-released", "is given a new object that nothing releases")


def production(c, P):
    seen = set()
    for f in functions(P):
        if f.cls and "eoGenOp" in P.supers(f.cls) and f.m in ("apply", "operator()") and (f.file, f.line) not in seen:
            seen.add((f.file, f.line))
            I = Interp(P, Positions())
            try:
                outs = I.run(f, thiscls=f.cls)
            except TooComplex as e:
                c.undecide("%s#%s" % (f.file, f.n), str(e))
                continue
            if f.m == "operator()":
                c.count("reproduction operators run", f.n)
                if any(s.prop.get("applied") == "before" for k, s, v in outs):
                    c.violation(f.file, f.line, f.n, "unreserved-production", "applies the operator without room for its offspring having been reserved: references to earlier offspring go stale")
                continue
            most = max([s.prop.get("prod", 0) for k, s, v in outs] or [0])
            c.count("reproduction operators", "%s touches %d" % (f.n, most))
            g = next((x for x in functions(P) if x.m == "max_production" and x.cls == f.cls), None)
            if g is None:
                continue
            vals = [v for k, s, v in Interp(P, Hooks()).run(g, thiscls=g.cls) if k == "return"]
            if vals and all(v[0] == "c" for v in vals) and min(v[1] for v in vals) < most:
                c.violation(f.file, f.line, f.n, "production", "produces up to %d offspring but announces %d: the population may be reallocated while references to earlier offspring are in use" % (most, min(v[1] for v in vals)))
    # iterators kept as attributes follow the container they point into
    seen = set()
    for f in functions(P):
        cd = P.classes.get(f.cls or "")
        if cd is None or not cd.get("repo") or f.static or f.dtor or f.lam or (f.file, f.line) in seen:
            continue
        its = [fl["n"] for fl, x in P.fields_of(f.cls) if "iterator" in (x["tu"].types[fl["t"]].get("rn") or "")]
        if not its or not any(n.get("k") == "call" and n.get("m") in GROW | SHRINK for n in nodes(f)):
            continue
        seen.add((f.file, f.line))
        h = Follow(its)
        try:
            outs = Interp(P, h).run(f, thiscls=f.cls)
        except TooComplex as e:
            c.undecide("%s#%s" % (f.file, f.n), str(e))
            continue
        c.count("operations that move a container with iterators kept into it", f.n)
        for k, s, v in outs:
            if k == "return" and s.prop.get("behind") and not f.ctor:
                c.violation(f.file, f.line, f.n, "stale-iterator", "returns with '%s' not repositioned after the container moved at %s" % s.prop["behind"], s.trail())


class Follow(Hooks):
    def __init__(self, its):
        self.its = its

    def on_call(self, I, s, c):
        if c.obj is not None and c.m in GROW | SHRINK and len(c.obj) == 2 and c.obj[0] == ("this",) or c.obj is not None and c.m in GROW | SHRINK and c.obj[0][0] == "d" and "this" in repr(c.obj):
            s2 = s.setp("behind", (self.its[0], c.fr.where(c.node)))
            s2, u = I.fresh(s2, c.node, c.fr)
            return [(s2, u)]
        return None

    def on_write(self, I, s, path, v, node, fr):
        return s.setp("behind", None) if path and path[-1] == ("f", self.its[0]) else s

    def on_copy(self, I, s, dst, src, node, fr):
        return s.setp("behind", None) if dst and dst[-1] == ("f", self.its[0]) else s
