"""C14: parallel evaluation and islands never race and never lose work."""
from ..absint import Hooks, Interp, TooComplex, State, TRUE, FALSE, mentions, mkcmp, sub
from ..core import Check
from ..lib import *
from ..prog import walk
from .. import witness

GUARDS = ("std::lock_guard", "std::unique_lock", "std::scoped_lock")
# the result stands for (part of) the container it is called on
STEP = {"operator[]", "at", "front", "back", "begin", "end", "cbegin", "cend", "rbegin", "rend", "operator*", "operator->", "data", "get"}
SYNC = ("std::mutex", "std::recursive_mutex", "std::timed_mutex", "std::shared_mutex", "std::condition_variable")


def skip(n):
    while isinstance(n, dict) and n.get("k") in ("load", "conv", "temp"):
        n = n.get("e")
    return n


def kids(n):
    for k, v in n.items():
        if k[0] == "_":
            continue
        if isinstance(v, dict):
            yield v
        elif isinstance(v, list):
            for x in v:
                if isinstance(x, dict):
                    yield x


def callee(n):
    """method or function a thread is started on: its reference, or the lambda"""
    n = skip(n)
    if not isinstance(n, dict):
        return None
    if n.get("k") == "un" and n.get("op") == "&":
        n = skip(n["e"])
    if n.get("k") == "ref" and n.get("dk") == "fn":
        return n
    if n.get("k") == "lambda":
        return n
    return None


class Acc:
    __slots__ = ("field", "idx", "w", "locks", "live", "fn", "line")

    def __init__(self, *a):
        self.field, self.idx, self.w, self.locks, self.live, self.fn, self.line = a

    def keys(self):
        """locks that protect this access; the lock of another element does not"""
        out = set()
        for m, i in self.locks:
            if i is None:
                out.add((m, None))
            elif i == self.idx:
                out.add((m, "own"))
        return out


class Launch:
    __slots__ = ("ref", "args", "where", "line", "fn", "live", "kind")

    def __init__(self, *a):
        self.ref, self.args, self.where, self.line, self.fn, self.live, self.kind = a


class St:
    """what may be running, and which locks are held"""
    __slots__ = ("live", "locks", "guards")

    def __init__(self, live=(), locks=(), guards=None):
        self.live, self.locks, self.guards = set(live), list(locks), dict(guards or {})

    def copy(self):
        return St(self.live, self.locks, self.guards)

    def held(self):
        return tuple(self.locks) + tuple(v[0] for v in self.guards.values() if v[1])


class Walk:
    """one pass over a method in program order; helper methods of the same object are followed"""
    def __init__(self, P, cls, callbacks=()):
        self.P, self.cls, self.callbacks = P, cls, callbacks
        self.acc, self.launch, self.ext, self.double, self.left = [], [], [], [], []
        self.fields = {fl["n"]: x["tu"].types[fl["t"]] for fl, x in P.fields_of(cls)}
        self.rec = True
        self.depth = 0

    def plain(self, f):
        """fields whose accesses need ordering"""
        t = self.fields.get(f)
        return t is not None and not any(x in t["s"] for x in ("atomic<",) + SYNC)

    # ---- locations
    def root(self, n, env):
        n = skip(n)
        if not isinstance(n, dict):
            return None
        k = n.get("k")
        if k == "mem":
            b = skip(n["b"])
            if isinstance(b, dict) and b.get("k") == "this":
                return (n["f"], None)
            return None if n.get("ar") else self.root(b, env)
        if k == "ref":
            v = env.get(n.get("d"))
            if v and v[0] == "alias":
                return v[1]
            if n.get("dk") in ("local", "param"):
                return (("local", n["d"]), None)
            return None
        if k == "idx":
            r = self.root(n.get("a") or n.get("b"), env)
            return r and (r[0], self.token(n.get("i"), env) if r[1] is None else r[1])
        if k == "un" and n.get("op") == "&":
            return self.root(n["e"], env)
        if k == "call":
            if n.get("obj") is not None and n.get("m") in STEP:
                r = self.root(n["obj"], env)
                if r and n["m"] in ("operator[]", "at") and r[1] is None:
                    return (r[0], self.token(n["a"][0], env))
                return r
            if n.get("n") in ("std::ref", "std::begin", "std::end", "std::move", "std::forward") and n.get("a"):
                return self.root(n["a"][0], env)
        return None

    def token(self, n, env):
        n = skip(n)
        if isinstance(n, dict):
            if n.get("k") == "ref" and n.get("dk") in ("local", "param"):
                v = env.get(n["d"])
                return v[1] if v and v[0] == "idx" else ("var", n["d"])
            if n.get("k") == "lit":
                return ("lit", n.get("v"))
        return ("expr", str(n.get("l")) if isinstance(n, dict) else "?")

    # ---- events
    def access(self, loc, w, st, fn, line):
        if loc is None or not isinstance(loc[0], str) or not self.plain(loc[0]) or not self.rec:
            return
        self.acc.append(Acc(loc[0], loc[1], w, st.held(), frozenset(st.live), fn, line))

    def lock(self, st, key, fn, line):
        if key in st.held() and self.rec:
            self.double.append((key, fn, line))

    def start(self, kind, ref, args, where, n, st, fn, env):
        self.launch.append(Launch(ref, [self.bound(a, env) for a in args], where, n.get("l"), fn, frozenset(st.live), kind)) if self.rec else None
        st.live.add((ref.get("f"), where))

    def bound(self, a, env):
        b = skip(a)
        if isinstance(b, dict) and b.get("k") == "this":
            return ("this",)
        if isinstance(b, dict) and b.get("k") == "call" and b.get("n") in ("std::ref", "std::cref"):
            r = self.root(b["a"][0], env)
            return ("alias", r) if r else None
        if isinstance(b, dict) and b.get("k") == "un" and b.get("op") == "&":
            r = self.root(b["e"], env)
            return ("alias", r) if r else None
        return ("idx", self.token(a, env))

    # ---- expressions
    def expr(self, n, st, fn, env, w=False):
        if not isinstance(n, dict):
            return
        k = n.get("k")
        if k in ("load", "conv", "temp"):
            return self.expr(n.get("e"), st, fn, env, w)
        if k == "lambda":
            return
        if k == "mem" or k == "ref" or k == "idx":
            r = self.root(n, env)
            self.access(r, w, st, fn, n.get("l"))
            if k == "idx":
                self.expr(n.get("i"), st, fn, env)
            elif k == "mem":
                b = skip(n["b"])
                if isinstance(b, dict) and (b.get("k") == "call" or n.get("ar")) and b.get("k") != "this":
                    self.expr(b, st, fn, env, w and not n.get("ar"))
            return
        if k == "asg":
            self.expr(n["b"], st, fn, env)
            return self.expr(n["a"], st, fn, env, True)
        if k == "un":
            op = n.get("op", "")
            if op == "&":
                return
            if op == "*":     # what a pointer points to is not part of the object that holds it
                return self.expr(n["e"], st, fn, env)
            return self.expr(n["e"], st, fn, env, w or op.startswith("++") or op.startswith("--"))
        if k == "bin" and n.get("op") in ("&&", "||"):
            self.expr(n["a"], st, fn, env)
            s2 = st
            for g in self.owned(n["a"]) if n["op"] == "&&" else ():
                s2 = st.copy()
                if g in s2.guards:
                    s2.guards[g] = (s2.guards[g][0], True)
            self.expr(n["b"], s2, fn, env)
            if s2 is not st:
                st.live |= s2.live
            return
        if k in ("call", "ctor"):
            return self.call(n, st, fn, env, w)
        for c in kids(n):
            self.expr(c, st, fn, env)

    def owned(self, n):
        """guards an expression (a conjunction) establishes as owned"""
        n = skip(n)
        if not isinstance(n, dict):
            return set()
        if n.get("k") == "bin" and n.get("op") == "&&":
            return self.owned(n["a"]) | self.owned(n["b"])
        if n.get("k") == "call" and n.get("m") in ("owns_lock", "operator bool", "try_lock"):
            o = skip(n.get("obj"))
            if isinstance(o, dict) and o.get("k") == "ref":
                return {o["d"]}
        return set()

    def refused(self, n):
        n = skip(n)
        if isinstance(n, dict) and n.get("k") == "un" and n.get("op") == "!":
            return self.owned(n["e"])
        return set()

    def call(self, n, st, fn, env, w=False, dest=None):
        name, m = n.get("n", ""), n.get("m")
        args, obj = n.get("a", []), n.get("obj")
        # threads and asynchronous calls
        if name == "std::thread::thread" and args and callee(args[0]):
            for a in args[1:]:
                self.passed(a, st, fn, env)
            return self.start("thread", callee(args[0]), args[1:], dest, n, st, fn, env)
        if name == "std::async":
            i = next((i for i, a in enumerate(args) if callee(a)), None)
            if i is not None:
                for a in args[i + 1:]:
                    self.passed(a, st, fn, env)
                deferred = i and str(skip(args[0]).get("v")) == "2"
                if dest is None or deferred:   # the temporary future waits at once
                    return
                return self.start("async", callee(args[i]), args[i + 1:], dest, n, st, fn, env)
        if name in ("std::ref", "std::cref"):
            return
        if m == "operator=" and obj is not None and args and self.starts(args[0]):
            return self.expr_into(args[0], st, fn, env, self.root(obj, env))
        if m in ("push_back", "emplace_back", "push_front", "push", "emplace", "insert") and obj is not None and args:
            dst = self.root(obj, env)
            if m.startswith("emplace") and callee(args[0]) and "thread" in str(n.get("c")):
                self.access(dst, True, st, fn, n.get("l"))
                return self.start("thread", callee(args[0]), args[1:], dst, n, st, fn, env)
            if any(self.starts(a) for a in args):
                self.access(dst, True, st, fn, n.get("l"))
                for a in args:
                    self.expr_into(a, st, fn, env, dst)
                return
        if (m in ("push_back", "emplace_back", "push", "insert") or m == "operator=") and obj is not None and args:
            dst = self.root(obj, env)
            for a in args:
                r = self.root(a, env)
                b = skip(a)
                if r is None and isinstance(b, dict) and b.get("k") == "ctor" and b.get("a"):
                    r = self.root(b["a"][0], env)
                if dst and r and isinstance(r[0], tuple):
                    for x in [x for x in st.live if x[1] is not None and x[1][0] == r[0]]:
                        st.live.discard(x)
                        st.live.add((x[0], dst))
        if m in ("join", "wait") or (m == "get" and "future" in str(n.get("c"))):
            r = self.root(obj, env)
            if r is not None:
                self.access(r, True, st, fn, n.get("l"))
                for x in [x for x in st.live if x[1] is not None and x[1][0] == r[0]]:
                    st.live.discard(x)
                self.joined.add(r[0])
            return
        # locks
        if m in ("lock", "unlock", "try_lock") and obj is not None:
            o = skip(obj)
            if isinstance(o, dict) and o.get("k") == "ref" and o.get("d") in st.guards:
                g = st.guards[o["d"]]
                if m == "lock":
                    self.lock(st, g[0], fn, n.get("l"))
                st.guards[o["d"]] = (g[0], m == "lock")
                return
            if any(x in str(n.get("c")) for x in SYNC):
                key = self.root(obj, env)
                if key is None:
                    return
                if m == "lock":
                    self.lock(st, key, fn, n.get("l"))
                    st.locks.append(key)
                elif m == "unlock" and key in st.locks:
                    st.locks.remove(key)
                return
        # a callable kept in a local
        f = env.get(skip(obj).get("d")) if m == "operator()" and isinstance(skip(obj), dict) and skip(obj).get("k") == "ref" else None
        if f and f[0] == "lambda":
            self.inside(f[1], st, env)
        # free and static helpers of the module
        g = self.P.fns.get(n.get("f")) if obj is None and n.get("k") == "call" else None
        if g is not None and g.body and g.file.startswith("smp/src") and not g.lam and self.depth < 6:
            for a in args:
                self.passed(a, st, fn, env)
            self.depth += 1
            self.body(g, st, self.params(g, args, env))
            self.depth -= 1
            return
        # helpers of the same object
        o = skip(obj) if obj is not None else None
        own = isinstance(o, dict) and o.get("k") == "this"
        if own:
            g = self.P.fns.get(n.get("f"))
            if g is not None and not g.body or g is None:
                g = self.P.final_overrider(self.cls, n.get("f"), m, len(args)) if n.get("f") else None
            for a in args:
                self.passed(a, st, fn, env)
            if g is not None and g.body and self.depth < 6:
                self.depth += 1
                self.body(g, st, self.params(g, args, env))
                self.depth -= 1
            return
        if obj is not None:
            r = None if n.get("ar") else self.root(n if m in STEP else obj, env)
            if n.get("ar"):
                self.expr(obj, st, fn, env)
            const = n.get("cm") or m in STEP
            if r is not None:
                self.access(r, (not const) or (w and m in STEP), st, fn, n.get("l"))
                if isinstance(r[0], str) and r[0] in self.fields and m == "operator()" and self.depth == 0 and not st.held():
                    for g in self.callbacks:   # the algorithm calls the island back
                        self.depth += 1
                        if self.depth < 6:
                            self.body(g, st, dict(env))
                        self.depth -= 1
            if m not in STEP:
                t = fn.ty(n["ot"]) if n.get("ot") is not None else None
                if t and t.get("r") and n.get("f"):
                    self.ext.append((n, t["r"], frozenset(st.live), fn)) if self.rec else None
            if not n.get("ar"):
                self.sub(obj, st, fn, env)
        pt = n.get("pt", [])
        for i, a in enumerate(args):
            if isinstance(skip(a), dict) and skip(a).get("k") == "lambda":
                g = self.P.fns.get(skip(a).get("f"))
                r = self.root(args[0], env) if i else None
                if r and g is not None and g.params and g.ty(g.params[0]["t"])["sh"] in ("r", "R"):   # an element of the range
                    env = dict(env)
                    env[g.params[0]["id"]] = ("alias", (r[0], r[1] if r[1] is not None else ("var", g.params[0]["id"])))
                self.inside(skip(a).get("f"), st, env)
                continue
            if i and obj is None and any(isinstance(x, dict) and x.get("k") == "ref" and x.get("n") in ("std::thread::join", "std::__basic_future::wait", "std::future::wait", "std::shared_future::wait") for x in walk(a)):
                r = self.root(args[0], env)
                if r is not None:
                    st.live = {x for x in st.live if x[1] is None or x[1][0] != r[0]}
                continue
            t = fn.ty(pt[i]) if i < len(pt) else None
            wr = bool(t and t["sh"] == "r" and not t.get("cst")) and name not in ("std::move", "std::forward", "std::begin", "std::end")
            self.expr(a, st, fn, env, wr)

    def params(self, g, args, env):
        e2 = dict(env)
        for p, a in zip(g.params, args):
            r = self.root(a, env)
            if g.ty(p["t"])["sh"] in ("r", "p", "R") and r:
                e2[p["id"]] = ("alias", r)
            else:
                e2[p["id"]] = ("idx", self.token(a, env))
        return e2

    def sub(self, n, st, fn, env):
        """operands hidden below the object of a call (its own access is recorded)"""
        n = skip(n)
        if not isinstance(n, dict):
            return
        if n.get("k") == "call":
            for a in n.get("a", []):
                self.expr(a, st, fn, env)
            if n.get("obj") is not None:
                if n.get("m") not in STEP:
                    self.expr(n, st, fn, env)
                else:
                    self.sub(n["obj"], st, fn, env)
        elif n.get("k") == "mem":
            b = skip(n["b"])
            if isinstance(b, dict) and b.get("k") == "this":
                return
            if n.get("ar"):
                self.expr(n, st, fn, env)
            else:
                self.sub(n["b"], st, fn, env)
        elif n.get("k") == "un":
            self.expr(n, st, fn, env)

    def passed(self, a, st, fn, env):
        b = skip(a)
        if isinstance(b, dict) and b.get("k") in ("this", "lambda"):
            return
        if isinstance(b, dict) and b.get("k") == "call" and b.get("n") in ("std::ref", "std::cref"):
            return
        self.expr(a, st, fn, env)

    def starts(self, n):
        return any(x.get("k") in ("call", "ctor") and x.get("n") in ("std::thread::thread", "std::async") and any(callee(a) for a in x.get("a", [])) for x in walk(n) if isinstance(x, dict))

    def expr_into(self, n, st, fn, env, dest):
        n = skip(n)
        if not isinstance(n, dict):
            return
        if n.get("k") in ("call", "ctor") and n.get("n") in ("std::thread::thread", "std::async"):
            if any(callee(a) for a in n.get("a", [])):
                return self.call(n, st, fn, env, dest=dest)
        if n.get("k") in ("call", "ctor"):
            if n.get("obj") is not None:
                self.expr_into(n["obj"], st, fn, env, dest)
            for a in n.get("a", []):
                self.expr_into(a, st, fn, env, dest)
            return
        self.expr(n, st, fn, env)

    def inside(self, usr, st, env):
        g = self.P.fns.get(usr)
        if g is None or not g.body or self.depth > 6:
            return
        self.depth += 1
        self.body(g, st, dict(env))
        self.depth -= 1

    # ---- statements
    def body(self, f, st, env):
        manual = list(st.locks)
        guards = dict(st.guards)
        self.stmt(f.body, st, f, env, manual)
        self.leave(st, f, f.body.get("el"), manual)
        st.guards = {k: v for k, v in st.guards.items() if k in guards}

    def leave(self, st, f, line, manual):
        for k in st.locks:
            if k not in manual and self.rec:
                self.left.append((k, f, line))

    def stmt(self, n, st, fn, env, manual):
        """True when control does not go on to the next statement"""
        if not isinstance(n, dict):
            return False
        s = n.get("s")
        if s is None:
            self.expr(n, st, fn, env)
            return False
        if s == "block":
            before = set(st.guards)
            end = False
            for x in n["b"]:
                if self.stmt(x, st, fn, env, manual):
                    end = True
                    break
            for g in [g for g in st.guards if g not in before]:
                del st.guards[g]
            return end
        if s == "expr":
            self.expr(n["e"], st, fn, env)
            return False
        if s == "decl":
            for v in n["v"]:
                self.decl(v, st, fn, env)
            return False
        if s == "if":
            if n.get("init"):
                self.stmt(n["init"], st, fn, env, manual)
            self.expr(n["c"], st, fn, env)
            a, b = st.copy(), st.copy()
            for g in self.owned(n["c"]):
                if g in a.guards:
                    a.guards[g] = (a.guards[g][0], True)
            for g in self.refused(n["c"]):
                if g in b.guards:
                    b.guards[g] = (b.guards[g][0], True)
            ea = self.stmt(n.get("a"), a, fn, env, manual)
            eb = self.stmt(n.get("b"), b, fn, env, manual) if n.get("b") else False
            self.meet(st, [x for x, e in ((a, ea), (b, eb)) if not e] or [a], st.live, [a, b])
            return ea and eb
        if s in ("while", "for", "do", "rfor"):
            if n.get("init"):
                self.stmt(n["init"], st, fn, env, manual)
            if s == "rfor":
                self.expr(n["range"], st, fn, env)
                v = n.get("var") or {}
                r = self.root(n["range"], env)
                t = fn.ty(v["t"]) if v.get("t") is not None else None
                if r and t and t["sh"] in ("r", "R"):
                    env[v["id"]] = ("alias", (r[0], r[1] if r[1] is not None else ("var", v["id"])))
            rec = self.rec
            for turn in (False, True):
                self.rec = rec and turn
                b = st.copy()
                if n.get("c"):
                    self.expr(n["c"], b, fn, env)
                if s == "rfor" and n.get("var"):
                    v = n["var"]
                self.stmt(n["b"], b, fn, env, manual)
                if n.get("inc"):
                    self.expr(n["inc"], b, fn, env)
                self.meet(st, [b], st.live, [b])
            self.rec = rec
            return False
        if s in ("return", "throw"):
            if n.get("e"):
                self.expr(n["e"], st, fn, env)
            self.leave(st, fn, n.get("l"), manual)
            return True
        if s in ("break", "continue"):
            return True
        for c in kids(n):
            self.stmt(c, st, fn, env, manual)
        return False

    def meet(self, st, outs, before, effects):
        """starts of any branch count; a join anywhere in the construct is taken to cover
        what it joins (that it reaches every started thread is decided separately)"""
        gone = set()
        new = set()
        for x in effects:
            gone |= {y for y in before if y not in x.live}
            new |= x.live - before
        st.live = (set(before) - gone) | new
        st.locks = [k for k in outs[0].locks if all(k in o.locks for o in outs)]
        for o in effects:
            for k in o.locks:
                if k not in st.locks:
                    st.locks.append(k)
        for g in list(st.guards):
            st.guards[g] = (st.guards[g][0], all(o.guards.get(g, (0, False))[1] for o in outs))

    def decl(self, v, st, fn, env):
        i = v.get("init")
        if i is None:
            return
        t = fn.ty(v["t"]) if v.get("t") is not None else None
        e = skip(i)
        if isinstance(e, dict) and e.get("k") == "ctor" and any(e.get("n", "").startswith(g + "::") for g in GUARDS):
            key = self.root(e["a"][0], env) if e.get("a") else None
            if key is not None:
                tag = " ".join(fn.ty(x)["s"] for x in e.get("pt", [])[1:]) if e.get("pt") else ""
                how = "try_to_lock" not in tag and "defer_lock" not in tag
                if how and "adopt" not in tag:
                    self.lock(st, key, fn, e.get("l"))
                if "adopt" in tag and key in st.locks:
                    st.locks.remove(key)
                st.guards[v["id"]] = (key, how)
            return
        lam = next((x for x in walk(i) if isinstance(x, dict) and x.get("k") == "lambda"), None)
        if lam is not None and t and (t.get("lam") or (t.get("rn") or "").startswith("std::function")):
            env[v["id"]] = ("lambda", lam.get("f"))
            return
        if self.starts(i):
            return self.expr_into(i, st, fn, env, (("local", v["id"]), None))
        if t and t["sh"] in ("r", "R", "p"):
            r = self.root(i, env)
            if r:
                env[v["id"]] = ("alias", r)
                self.sub(i, st, fn, env)
                return
        self.expr(i, st, fn, env)

    joined = set()


def run(P, cls, f, env=None, callbacks=()):
    w = Walk(P, cls, callbacks)
    w.joined = set()
    st = St()
    w.body(f, st, dict(env or {}))
    w.end = st.live
    return w


def concrete(P, usr):
    """bodies a started member function may stand for"""
    return [g for g in functions(P) if g.usr == usr or usr in g.ovu]


def entry_env(f, launch):
    """what the parameters of a started member function stand for"""
    env = {}
    args = launch.args[1:] if launch.args and not f.lam else launch.args
    for p, b in zip(f.params, args):
        if b and b[0] in ("alias", "idx"):
            env[p["id"]] = b
    return env


def member_refs(P):
    """member functions handed over as callbacks: referred to, but not started as a thread"""
    out = set()
    for f in functions(P):
        if not f.file.startswith("smp/src"):
            continue
        started = set()
        for n in nodes(f):
            if isinstance(n, dict) and n.get("k") in ("call", "ctor") and n.get("n") in ("std::thread::thread", "std::async", "std::vector::emplace_back"):
                for a in n.get("a", []):
                    r = callee(a)
                    if r:
                        started.add(id(r))
        for n in nodes(f):
            if isinstance(n, dict) and n.get("k") == "un" and n.get("op") == "&":
                r = skip(n["e"])
                if isinstance(r, dict) and r.get("k") == "ref" and r.get("dk") == "fn" and r.get("c") and id(r) not in started:
                    out.add(r["f"])
    return out


class Races:
    def __init__(self, c):
        self.c, self.seen = c, set()

    def pair(self, xs, ys, who, same=False):
        for a in xs:
            for b in ys:
                if a.field != b.field or not (a.w or b.w):
                    continue
                if same and (a.idx is not None or b.idx is not None):
                    continue
                self.c.count("pairs of concurrent accesses", "%s: %s:%s / %s:%s" % (a.field, a.fn.file, a.line, b.fn.file, b.line))
                if a.keys() & b.keys():
                    continue
                # report at the access without protection
                x, y = (a, b) if not a.keys() else (b, a)
                k = (x.fn.file, x.line, x.field)
                if k in self.seen:
                    continue
                self.seen.add(k)
                self.c.violation(x.fn.file, x.line, x.fn.n, "race", "%s of '%s' %s while %s may %s it (%s:%s)" % (
                    "write" if x.w else "read", x.field, "under another lock" if x.locks else "without a lock", who, "write" if y.w else "read", y.fn.file, y.line))


ZERO = ("c", 0)
NONE = ("c", 0)


def atomic(c):
    return "atomic" in (c.cls or c.n) and (c.m in ("load",) or (c.m or "").startswith("operator ") and not c.args)


class Worker(Hooks):
    """a worker's package: one arbitrary individual of it is followed; the package may be refilled by the coordinator
    whenever the worker does not hold the lock and has not yet seen that nothing more comes"""
    def __init__(self, c, fn, func, cont):
        self.c, self.fn, self.func, self.cont = c, fn, (("arg", func),), (("arg", cont),)
        self.size = self.cont + (("f", "#n"),)
        self.uses = 0

    def bad(self, rule, node, fr, msg, s):
        self.c.violation(self.fn.file, node.get("l") if node else self.fn.line, self.fn.n, rule, msg, s.trail())

    def refill(self, I, s, c):
        """the package with an arbitrary individual to follow, and without"""
        if s.prop.get("over") or not s.prop.get("shared"):
            return [s]
        s, u = I.fresh(s, c.node, c.fr, "filled")
        s = s.write(self.size, u)
        s = s.assume(mkcmp(">=", u, ZERO), True) or s
        return [x for x in (self.follow(s), s.setp("n", None)) if x is not None]

    def follow(self, s):
        w = witness.sym("w")
        s = s.assume(mkcmp("<", w, s.read(self.size)), True)
        s = s.assume(mkcmp(">=", w, ZERO), True) if s is not None else None
        return s.setp("n", 0) if s is not None else None

    def pending(self, s):
        """the followed individual is still in the package and not yet processed"""
        return s.prop.get("n") == 0 and s.assume(mkcmp("<", witness.sym("w"), s.read(self.size)), True) is not None

    def on_call(self, I, s, c):
        if atomic(c):
            if s.prop.get("over"):
                return [(s, TRUE)]
            ts = [s] if s.prop.get("lock") else self.refill(I, s, c)
            return [(s, FALSE)] + [(t.setp("over", True), TRUE) for t in ts]
        if c.m in ("unique_lock", "lock_guard", "lock", "scoped_lock") and ("lock" in (c.cls or c.n)):
            return [(t.setp("lock", True), NONE) for t in self.refill(I, s.setp("shared", True), c)]
        if c.m == "unlock":
            if not s.prop.get("cleared", True):
                self.bad("twice", c.node, c.fr, "the package is handed back with individuals that have already been processed", s)
            return [(s.setp("lock", False), NONE)]
        if c.n.startswith("std::this_thread::"):
            return [(s, NONE)]
        if c.obj == self.cont and c.m in ("clear", "resize", "erase", "pop_back"):
            if c.m == "clear":
                if self.pending(s):
                    self.bad("lost", c.node, c.fr, "the package is emptied before every individual in it has been processed", s)
                s = s.setp("n", None).setp("cleared", True)
                return [(I.setsize(s, self.cont, ZERO, c.node, c.fr) or s, NONE)]
            raise TooComplex("package edited")
        if c.m == "operator()" and c.obj == self.func and c.args and c.args[0][0] == "loc":
            i = witness.index(c.args[0][1], self.cont)
            if i is None:
                raise TooComplex("what is processed is not an element of the package")
            self.uses += 1
            out = []
            for x, here in witness.split(s, i, "w"):
                x = x.setp("cleared", False)
                if here:
                    if x.prop.get("n") == 1:
                        self.bad("twice", c.node, c.fr, "an individual of the package is processed twice", x)
                    if x.prop.get("n") == 0:
                        x = x.setp("n", 1).trace("%s: processed" % c.fr.where(c.node))
                out.append((x, NONE))
            return out
        return None

    def inline(self, I, fn, c):
        return c.obj == (("this",),) or fn.lam


class Batches(Hooks):
    """batches waiting in a queue: each is read, handed over to every selected neighbour (or integrated) and removed once"""
    def __init__(self, c, P, fn, follow=False):
        self.c, self.P, self.fn, self.follow = c, P, fn, follow
        self.reads = self.sent = 0
        self.late = []

    def bad(self, rule, node, msg, s):
        self.c.violation(self.fn.file, node.get("l") if node else self.fn.line, self.fn.n, rule, msg, s.trail())

    def judge(self, s, node):
        """the batch read last has been dealt with"""
        if s.prop.get("to") is not None and s.prop.get("given") != 1:
            self.late.append((node, "a batch is dealt with after %s a neighbour the topology selected" % ("missing" if not s.prop.get("given") else "being sent twice to"), s))

    def on_decl(self, I, s, var, path, fr):
        """one arbitrary neighbour of those the topology selects"""
        if self.follow and s.prop.get("ask"):
            t = fr.fn.ty(var["t"])
            if t.get("rn") == "std::vector" and not t["sh"]:
                x = witness.setup(s.setp("ask", None), "w", path)
                return x.setp("to", path) if x is not None else s
        return s

    def on_call(self, I, s, c):
        q = c.n.startswith("std::queue::") or c.n.startswith("std::deque::") or c.n.startswith("std::list::")
        if q and c.obj is not None and c.obj[0] == ("this",):
            if c.m == "front":
                self.reads += 1
                if s.prop.get("read") is None:
                    self.judge(s, c.node)
                    s.prop = dict(s.prop)
                    s.prop["read"] = c.node.get("l")
                    s.prop["given"] = 0
                    s.prop["to"] = None
                return None
            if c.m in ("pop", "pop_front"):
                if s.prop.get("read") is None:
                    self.bad("dropped", c.node, "a waiting batch is removed without having been read", s)
                n = c.obj + (("f", "#n"),)
                return [(s.setp("read", None).write(n, sub(s.read(n), ("c", 1))), NONE)]
        if c.m == "getIdNeighbors":
            s, u = I.fresh(s, c.node, c.fr, "neighbours")
            return [(s.setp("ask", True), u)]
        if c.n.startswith("std::map::") and c.m in ("operator[]", "at"):
            a = c.args[0]
            v = s.read(a[1]) if a[0] == "loc" else a
            return [(s, ("t", "at", v))]
        if c.n == "std::async":
            out = []
            idx = None
            for a in c.args:
                v = s.whole(a[1]) if a[0] == "loc" else a
                i = self.element(s, v) or self.element(s, a)
                if i is not None:
                    idx = i
            if idx is None:
                return [(s, NONE)]
            if idx[0] is not None and idx[0] != s.prop.get("to"):
                return [(s, NONE)]
            self.sent += 1
            for x, here in witness.split(s, idx[1], "w"):
                if here:
                    x = x.setp("given", min(2, x.prop.get("given", 0) + 1))
                out.append((x, NONE))
            return out
        if c.n in ("std::remove_if", "std::remove", "std::find_if", "std::move") and c.n != "std::move" or c.m == "erase":
            s, u = I.fresh(s, c.node, c.fr)
            return [(s, u)]
        return None

    def element(self, s, v):
        """(container, index) of the neighbour a value comes from"""
        hit = []

        def look(t):
            if len(t) == 2 and t[0] == "i" and isinstance(t[1], tuple) and len(t[1]) >= 2 and t[1][-1] and t[1][-1][0] == "e":
                hit.append((t[1][:-1], t[1][-1][1]))
            if len(t) == 4 and t[:2] == ("t", "pj") and t[2][0] == "u" and t[2][-1] == "neighbours" and t[3][0] == "e":
                hit.append((None, t[3][1]))
            return False
        mentions(v, look)
        return hit[0] if hit else None

    def inline(self, I, fn, c):
        return c.obj == (("this",),) and "convert" not in (fn.m or "")


def queues(f):
    """queues of the object a method takes batches from"""
    out = set()
    for n in nodes(f):
        if isinstance(n, dict) and n.get("k") == "call" and n.get("m") in ("front", "pop") and str(n.get("n")).startswith("std::queue"):
            o = skip(n.get("obj"))
            if isinstance(o, dict) and o.get("k") == "mem" and isinstance(skip(o["b"]), dict) and skip(o["b"]).get("k") == "this":
                out.add(o["f"])
    return out


def work(c, P, smp, walks):
    """every individual of a package is processed exactly once; every batch is read once and removed once"""
    State.closure = True
    seen = set()
    # started on their own, to deal with what is waiting
    refs = {L.ref.get("f") for w in walks.values() for L in w.launch}
    last = {f.usr for f in smp if refs & set([f.usr] + list(f.ovu))}
    for f in smp:
        if (f.file, f.line) in seen:
            continue
        ps = [f.ty(p["t"]) for p in f.params]
        func = next((i for i, t in enumerate(ps) if t.get("r") and "eoUF" in P.supers(t["r"])), None)
        cont = next((i for i, t in enumerate(ps) if t["sh"] == "r" and t.get("rn") == "std::vector" and "*, std::allocator" in t["s"]), None)
        if func is not None and cont is not None:
            seen.add((f.file, f.line))
            h = Worker(c, f, func, cont)
            locks = any(a.locks for a in walks[f.usr].acc)
            try:
                s0 = State().setp("shared", locks)
                outs = Interp(P, h).run(f, f.cls, h.follow(s0))
                if locks:
                    outs = outs + Interp(P, h).run(f, f.cls, s0.setp("n", None))
            except TooComplex as e:
                c.undecide(f.n, str(e))
                continue
            if not h.uses:
                c.undecide(f.n, "nothing processed")
                continue
            c.count("workers", f.n)
            for k, s, v in outs:
                if k != "return":
                    continue
                if s.prop.get("shared") and not s.prop.get("cleared", True):
                    h.bad("twice", None, None, "the worker leaves processed individuals in its package for the next evaluation", s)
                    break
                if h.pending(s):
                    h.bad("lost", None, None, "the worker ends with an individual of its package not processed", s)
                    break
            continue
        qs = any(isinstance(n, dict) and n.get("k") == "call" and n.get("m") in ("front", "pop", "pop_front") and str(n.get("n")).startswith("std::queue") for n in nodes(f))
        if qs:
            seen.add((f.file, f.line))
            h = Batches(c, P, f)
            try:
                State.counting = True
                outs = Interp(P, h).run(f, f.cls, State())
            except TooComplex as e:
                c.undecide(f.n, str(e))
                continue
            finally:
                State.counting = False
            c.count("methods taking batches from a queue", f.n)
            for k, s, v in outs:
                if k != "return":
                    continue
                if s.prop.get("read") is not None:
                    h.bad("kept", None, "a batch is read at line %s but stays in the queue" % s.prop["read"], s)
                    break
                if f.usr in last and any(s.assume(mkcmp(">", s.read((("this",), ("f", q), ("f", "#n"))), ZERO), True) is not None for q in queues(f)):
                    h.bad("drained", None, "it is run once for what is waiting but may return with batches left", s)
                    break
            try:
                h = Batches(c, P, f, True)
                for k, s, v in Interp(P, h).run(f, f.cls, State()):
                    if k == "return":
                        h.judge(s, None)
                if h.sent:
                    c.count("deliveries to selected neighbours", f.n)
                    for x in h.late:
                        h.bad("delivery", *x)
                elif h.late:
                    c.undecide(f.n + " (delivery)", "deliveries not recognised")
            except TooComplex as e:
                c.undecide(f.n + " (delivery)", str(e))


def check():
    c = Check("C14", ("smp",), "in the phases where a started thread may still run, every pair of accesses to the same attribute of a shared object, one of them a write, holds a common lock (that element's own lock where locks are per element) or the attribute is atomic; no lock is taken twice or left held; whatever is started is joined or waited for before its starter returns")
    P = c.prog
    smp = [f for f in functions(P) if f.file.startswith("smp/src") and f.cls and not f.lam]
    back = member_refs(P)
    called = set()
    for f in smp:
        for n in nodes(f):
            if isinstance(n, dict) and n.get("k") == "call" and n.get("obj") is not None and isinstance(skip(n["obj"]), dict) and skip(n["obj"]).get("k") == "this":
                called.add(n.get("f"))
    walks = {}
    for f in smp:
        cb = [g for u in back for g in concrete(P, u) if g.cls == f.cls and g.usr != f.usr]
        walks[f.usr] = run(P, f.cls, f, callbacks=cb)
        c.count("methods", f.n)
        for a in walks[f.usr].acc:
            c.count("accesses to attributes", "%s:%s %s" % (a.fn.file, a.line, a.field))
    races = Races(c)
    done = set()
    for f in smp:
        w = walks[f.usr]
        for key, fn, line in w.double:
            if (fn.file, line) not in done:
                done.add((fn.file, line))
                c.violation(fn.file, line, fn.n, "relock", "lock '%s' is taken while it is already held" % (key[0],))
        for key, fn, line in w.left:
            if (fn.file, line, key[0]) not in done:
                done.add((fn.file, line, key[0]))
                c.violation(fn.file, line, fn.n, "held", "lock '%s' is still held when the function is left" % (key[0],))
    started = {L.ref.get("f") for w in walks.values() for L in w.launch}
    # methods that take their object's lock may be called while threads run
    open_ = {}
    for f in smp:
        if f.acc in (None, "public") and not (started & set([f.usr] + list(f.ovu))) and not walks[f.usr].launch and f.usr not in called and not (back & set([f.usr] + list(f.ovu))) and any(a.locks for a in walks[f.usr].acc) and not f.ctor and not f.dtor:
            open_.setdefault(f.cls, []).append(f)
    for f in smp:
        w = walks[f.usr]
        if not w.launch:
            continue
        top = f.usr not in called and not any(u in back for u in [f.usr] + list(f.ovu))
        c.count("methods that start threads", f.n)
        if top:
            for usr, where in w.end:
                L = next((l for l in w.launch if l.ref.get("f") == usr), None)
                c.violation(L.fn.file, L.line, f.n, "joined", "what is started here may still run when %s returns" % f.n)
        if f.usr in called:
            continue
        ents = {}     # started function -> (launch, [(body, walk)])
        for L in w.launch:
            u = L.ref.get("f")
            if u in ents:
                continue
            same = bool(L.args) and L.args[0] == ("this",) or L.ref.get("k") == "lambda"
            bodies = []
            for g in ([P.fns[u]] if L.ref.get("k") == "lambda" and u in P.fns else concrete(P, u)):
                if same and g.cls != f.cls and not g.lam:
                    continue
                cb = [h for x in back for h in concrete(P, x) if h.cls == g.cls and h.usr != g.usr]
                bodies.append((g, run(P, f.cls if g.lam else g.cls, g, entry_env(g, L), cb)))
            ents[u] = (L, bodies, same)
            c.count("started functions", L.ref.get("n") or "lambda")
            if not bodies:
                c.count("started functions without a body", L.ref.get("n"))
        name = lambda g: "%s (started by %s)" % (g.n, f.n)
        for u, (L, bodies, same) in ents.items():
            for g, gw in bodies:
                cls = f.cls if g.lam else g.cls
                if same:
                    races.pair([a for a in w.acc if any(x[0] == u for x in a.live)], gw.acc, name(g))
                    races.pair(gw.acc, gw.acc, "another thread running " + g.n, same=True)
                # started by the started: runs as long as its starter may
                for L2 in gw.launch:
                    for h in concrete(P, L2.ref.get("f")):
                        hw = run(P, h.cls, h, entry_env(h, L2))
                        c.count("started functions", h.n)
                        if h.cls == f.cls:
                            races.pair([a for a in w.acc if any(x[0] == u for x in a.live)], hw.acc, name(h))
                        races.pair(hw.acc, hw.acc, "another thread running " + h.n, same=True)
                        for o in open_.get(h.cls, []):
                            races.pair(hw.acc, walks[o.usr].acc, o.n)
                # other started functions on the same kind of object
                for u2, (L3, b3, same3) in ents.items():
                    if u2 == u or same3 != same or not any(l.ref.get("f") == u2 and any(x[0] == u for x in l.live) for l in w.launch):
                        continue
                    for h, hw in b3:
                        if h.cls == g.cls:
                            races.pair(gw.acc, hw.acc, name(h))
                # calls of the coordinator on these objects
                for n, r, live, fn in w.ext:
                    if same or not any(x[0] == u for x in live):
                        continue
                    for h in concrete(P, n["f"]):
                        if h.cls == g.cls:
                            races.pair(gw.acc, walks[h.usr].acc, "%s (called by %s)" % (h.n, f.n))
        for o in open_.get(f.cls, []):
            c.count("methods callable during a run", o.n)
            races.pair([a for a in w.acc if a.live], walks[o.usr].acc, o.n)
    work(c, P, smp, walks)
    for k, n in (("workers", 1), ("methods taking batches from a queue", 1), ("deliveries to selected neighbours", 1), ("methods", 40), ("accesses to attributes", 60), ("methods that start threads", 3), ("started functions", 5), ("pairs of concurrent accesses", 8)):
        c.need(k, n)
    return c
