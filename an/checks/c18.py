"""C18: failures are raised, not swallowed."""
from ..absint import Hooks, Interp, TooComplex, NULL, TRUE, FALSE, neg, mkcmp
from ..core import Check
from ..lib import *
from ..prog import walk, HERE, AnalysisBroken
import json, os

STD_ERR = ("exception", "runtime_error", "logic_error", "invalid_argument", "domain_error", "length_error", "out_of_range", "range_error",
           "overflow_error", "underflow_error", "system_error", "bad_alloc", "bad_cast")
STD_ERR = {"std::" + x for x in STD_ERR}
FSTREAM = ("std::basic_ifstream", "std::basic_ofstream", "std::basic_fstream")
NEUTRAL = {"close", "peek", "precision", "setf", "unsetf", "width", "fill", "exceptions", "clear", "imbue", "flags", "tie", "swap", "setstate"}
FUSE = {"fgets", "fputs", "fread", "fwrite", "fprintf", "fscanf", "fgetc", "fputc", "fclose", "pclose", "fflush", "feof"}


def is_error(P, cls):
    return bool(cls) and (cls in STD_ERR or bool(P.supers(cls) & STD_ERR))


class H(Hooks):
    def __init__(self, c, fn, roots):
        self.roots = roots
        self.c, self.fn, self.uses, self.opens = c, fn, 0, 0

    def opened(self, I, s, c, p):
        s, u = I.fresh(s, c.node, c.fr, "open")
        self.opens += 1
        return s.setp(("strm", p), (u, c.fr.where(c.node))).trace("%s: file opened" % c.fr.where(c.node))

    def stream(self, s, p):
        return s.prop.get(("strm", p))

    def use(self, s, c, p, what):
        st = self.stream(s, p)
        self.uses += 1
        k = s.known(st[0])
        if k is not True:
            self.c.violation(self.fn.file, self.fn.line, self.fn.n, "unchecked-open" if k is None else "used-though-closed",
                             "the file opened at %s is used at %s (%s) %s" % (st[1], c.fr.where(c.node), what, "without a test that it could be opened" if k is None else "on the path where opening it failed"), s.trail())
        return s

    def inline(self, I, fn, c):
        return fn.usr in self.roots or any(a[0] == "loc" and ("strm", a[1]) in self.s.prop for a in c.args)

    def on_call(self, I, s, c):
        self.s = s
        n, m = c.n or "", c.m
        if c.node.get("k") == "ctor" and n.startswith(FSTREAM):
            real = [a for a in c.node.get("a", []) if not a.get("dflt")]
            if real and not c.node.get("cp") and not c.node.get("mv"):
                return [(self.opened(I, s, c, c.obj), NULL)]
            return [(s, NULL)]
        if m == "open" and c.obj is not None and n.startswith(FSTREAM):
            return [(self.opened(I, s, c, c.obj), NULL)]
        if c.obj is not None and self.stream(s, c.obj) is not None:
            u = self.stream(s, c.obj)[0]
            if m in ("is_open", "operator bool", "good"):
                return [(s, u)]
            if m in ("operator!", "fail"):
                return [(s, neg(u))]
            if m in ("bad", "eof", "rdstate"):
                s, v = I.fresh(s, c.node, c.fr)
                return [(s, v)]
            if m in NEUTRAL:
                s, v = I.fresh(s, c.node, c.fr)
                return [(s, v)]
            if n.startswith("std::"):
                s = self.use(s, c, c.obj, m)
                return [(s, ("loc", c.obj))] if m in ("operator<<", "operator>>") else [I.fresh(s, c.node, c.fr)]
        if m == "delete":
            return None
        for a in c.args:
            if a[0] == "loc" and self.stream(s, a[1]) is not None:
                fn = I.prog.fns.get(c.node.get("f"))
                if fn is not None and fn.body and not c.virt and m not in ("operator<<", "operator>>") and n not in ("operator<<", "operator>>"):
                    return None
                s = self.use(s, c, a[1], m or n)
                if "operator<<" in (m, n) or "operator>>" in (m, n):
                    return [(s, ("loc", a[1]))]
                return None
        if n in ("fopen", "popen", "freopen", "tmpfile", "opendir"):
            s, u = I.fresh(s, c.node, c.fr, "file")
            self.opens += 1
            return [(s.setp(("file", u), c.fr.where(c.node)).trace("%s: %s" % (c.fr.where(c.node), n)), u)]
        if n in FUSE:
            for a in c.args:
                if ("file", a) in s.prop:
                    self.uses += 1
                    if s.known(I.truth(a)) is not True and s.known(mkcmp("==", a, ("c", 0))) is not False:
                        self.c.violation(self.fn.file, self.fn.line, self.fn.n, "unchecked-open", "the result of opening at %s is used by %s at %s without a test for failure" % (s.prop[("file", a)], n, c.fr.where(c.node)), s.trail())
            if n == "pclose":
                s, u = I.fresh(s, c.node, c.fr, "status")
                return [(s.setp("status", (u, c.fr.where(c.node))), u)]
            return [I.fresh(s, c.node, c.fr)]
        if (n.startswith("eoLogger") or n in ("perror",)) or (m == "operator<<" and c.args and c.args[0][0] == "loc" and c.args[0][1][0] in (("glob", "std::cerr"), ("glob", "eo::log"), ("glob", "std::cout"))) \
                or (m == "operator<<" and c.obj is not None and c.obj[0] in (("glob", "std::cerr"), ("glob", "eo::log"), ("glob", "std::cout"))):
            s = s.setp("logged", True)
            if c.obj is not None:
                return [(s, ("loc", c.obj))]
            return [(s, ("loc", c.args[0][1]) if c.args and c.args[0][0] == "loc" else NULL)]
        return None


def disjuncts(e):
    while e.get("k") in ("tobool", "conv", "load", "temp") and isinstance(e.get("e"), dict):
        e = e["e"]
    if e.get("k") == "bin" and e.get("op") == "||":
        return disjuncts(e["a"]) + disjuncts(e["b"])
    return 1


def rejections(P, f, table=(), memo=None, depth=0):
    """number of conditions under which f itself, or a helper beside it, throws"""
    memo = {} if memo is None else memo
    if f.usr in memo:
        return memo[f.usr]
    memo[f.usr] = 0
    total = 0

    def go(n, w):
        nonlocal total
        if isinstance(n, list):
            for x in n:
                go(x, w)
            return
        if not isinstance(n, dict):
            return
        if n.get("s") == "if":
            for k, v in n.items():
                go(v, disjuncts(n["c"]) if k in ("a",) and isinstance(n.get("c"), dict) else w if k != "b" else 1)
            return
        if n.get("s") == "try":
            go(n.get("b"), w)
            for h in n["h"]:
                go(h.get("b"), 1)
            return
        if n.get("k") == "throw":
            total += w
        elif n.get("k") in ("call", "lambda", "ctor") and n.get("f") and depth < 4:
            g = P.fns.get(n["f"])
            if g is not None and g.body and g.file == f.file and g.usr != f.usr and key(g) not in table:
                r = rejections(P, g, table, memo, depth + 1)
                total += r * w if r == 1 else r
        for k, v in n.items():
            if k not in ("k", "s"):
                go(v, w)
    go(f.body, 1)
    for i in f.node.get("inits", []) or []:
        go(i, 1)
    memo[f.usr] = total
    return total


def key(f):
    return "%s|%s|%d" % (f.file, f.n, len(f.params))


def rejecting(P, table):
    """key -> (sum over overloads of the largest count among instantiations, a function)"""
    per = {}
    memo = {}
    for f in functions(P):
        k = key(f)
        if table and k not in table:
            continue
        r = rejections(P, f, table, memo if table else {}) if table else sum(1 for n in nodes(f) if n.get("k") == "throw") and rejections(P, f, ())
        d = per.setdefault(k, {})
        d[f.line] = (max(r, d.get(f.line, (0, f))[0]), f)
    return {k: (sum(x[0] for x in d.values()), min((x[1] for x in d.values()), key=lambda g: g.line)) for k, d in per.items()}


def contracts(c, P):
    """operations that reject misuse: the table lists, per operation, how many
    conditions it rejects by throwing"""
    table = json.load(open(os.path.join(HERE, "an", "spec", "raises.json")))
    have = rejecting(P, table)
    gone = [k for k in table if k not in have]
    for k in gone:
        c.count("operations of the table that no longer exist", k)
    if len(gone) > len(table) // 4:
        raise AnalysisBroken("%d of %d rejecting operations are gone" % (len(gone), len(table)))
    for k, n in sorted(table.items()):
        if k in have:
            got, f = have[k]
            c.count("operations that reject misuse", k)
            if got < n:
                c.violation(f.file, f.line, f.n, "misuse-accepted", "rejects %d of the %d conditions it has to report by throwing" % (got, n))


def check():
    c = Check("C18", ("eo", "mo", "moeo", "edo", "smp"), "every error object that is built is thrown or kept; every opened file is tested before use and its failure is thrown or reported; no handler swallows an error")
    P = c.prog
    contracts(c, P)
    up = callers(P)
    roots = {}
    seen = set()
    for f in functions(P):
        opens = False
        stmts = []
        for n in nodes(f):
            if n.get("k") == "throw" and n.get("e") is not None:
                t = f.ty(n["e"]["t"]) if "t" in n["e"] else None
                if t and is_error(P, t.get("r")):
                    c.count("error objects thrown", "%s:%s" % (f.file, n.get("l")))
            if n.get("s") == "expr":
                e = n["e"]
                while e.get("k") in ("tovoid", "conv", "cast", "temp") and isinstance(e.get("e"), dict):
                    e = e["e"]
                if e.get("k") == "ctor" and is_error(P, e.get("c")):
                    c.violation(f.file, e.get("l") or f.line, f.n, "built-not-thrown", "a %s is built and dropped: the failure it describes is never reported" % e["c"])
            if n.get("s") == "decl":
                for v in n["v"]:
                    t = f.ty(v["t"])
                    if is_error(P, t.get("r")) and not t["sh"]:
                        used = any(x.get("k") == "ref" and x.get("d") == v["id"] for x in nodes(f))
                        if not used:
                            c.violation(f.file, v.get("l") or f.line, f.n, "built-not-thrown", "error object '%s' is built and never used" % v["n"])
            if n.get("s") == "try":
                for h in n["h"]:
                    t = f.ty(h["ct"]) if h.get("ct") is not None else None
                    c.count("exception handlers", "%s:%s" % (f.file, h.get("l")))
                    if t is not None and not is_error(P, t.get("r")):
                        continue
                    acts = [x for x in walk(h["b"]) if x.get("k") in ("throw", "call") or (x.get("s") == "return" and x.get("e") is not None)]
                    if not acts:
                        c.violation(f.file, h.get("l") or f.line, f.n, "swallowed", "a handler for %s does nothing" % (t["s"] if t else "every exception"))
            if n.get("k") == "ctor" and (n.get("c") or "").startswith(FSTREAM) and n.get("a") or n.get("k") == "call" and (n.get("m") == "open" and (n.get("n") or "").startswith(FSTREAM) or n.get("n") in ("fopen", "popen")):
                opens = True
        if opens:
            lvl = {f.usr}
            for d in range(3):
                for u in lvl:
                    g = P.fns.get(u)
                    if g is not None and g.body and (g.file, g.line) not in seen:
                        roots[u] = g
                lvl = {v for u in lvl for v in up.get(u, ()) if v in P.fns and not P.fns[v].virt}
    uniq = {}
    for g in roots.values():
        uniq.setdefault((g.file, g.line), g)

    def one(sub, f):
        h = H(sub, f, roots)
        I = Interp(P, h)
        try:
            outs = I.run(f, thiscls=f.cls)
        except TooComplex as e:
            sub.undecide("%s#%s" % (f.file, f.n), str(e))
            return
        sub.count("functions that open files", "%s %s" % (f.file, f.n))
        sub.count("opens", n=h.opens)
        sub.count("uses of opened files", n=h.uses)
        rt = f.ty(f.ret) if f.ret is not None else None
        for kind, s, v in outs:
            if kind != "return" or f.dtor:
                continue
            for k, st in s.prop.items():
                if k[0] == "strm" and f.ctor and k[1][0][0] in ("this", "heap") and s.known(st[0]) is not True:
                    sub.violation(f.file, f.line, f.n, "unchecked-open", "the constructor keeps the file opened at %s without a test that it could be opened" % st[1], s.trail())
                if k[0] == "strm" and s.known(st[0]) is False and not s.prop.get("logged") and not (rt and rt["s"] in ("bool", "int")):
                    sub.violation(f.file, f.line, f.n, "failure-dropped", "returns normally although the file opened at %s is known not to be open" % st[1], s.trail())
            if s.prop.get("status"):
                u, w = s.prop["status"]
                if s.known(mkcmp("==", u, ("c", 0))) is not True and v != u:
                    sub.violation(f.file, f.line, f.n, "status-dropped", "returns a result although the command closed at %s may have failed" % w, s.trail())

    c.each(list(uniq.values()), one)
    c.need("error objects thrown", 60)
    c.need("exception handlers", 1)
    c.need("operations that reject misuse", 120)
    c.need("functions that open files", 12)
    c.need("uses of opened files", 10)
    return c
