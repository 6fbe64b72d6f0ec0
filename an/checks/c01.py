"""C01: a variation operator that wrote a genotype answers true."""
from ..absint import Hooks, Interp, TooComplex, State, TRUE, FALSE, mulc
from ..core import Check
from ..lib import *



class H(Hooks):
    def __init__(self, P, tracked):
        self.P, self.tracked = P, tracked
        self.nested = 0

    def on_write(self, I, s, path, v, node, fr):
        r = path[0]
        if r[0] == "arg" and r[1] in self.tracked and not is_fitness_path(path):
            if s.whole(path) == v:
                return s
            if len(path) == 1 and self.foreign(v):
                # replaced as a whole, fitness included, by a member of some archive or population
                return s.setp("mod", False).trace("%s: genotype %d replaced by an evaluated individual" % (fr.where(node), r[1] + 1))
            s = s.setp("mod", True).trace("%s: genotype %d written" % (fr.where(node), r[1] + 1))
        return s

    def foreign(self, v):
        return v[0] == "i" and v[1][0][0] in ("this", "d") and any(x[0] == "e" for x in v[1][1:])

    def inline(self, I, fn, c):
        # only code that can reach a tracked genotype, or that computes a truth value, matters here
        if fn.ty(fn.ret).get("b") == "bool" and not fn.ty(fn.ret)["sh"]:
            return True
        if fn.lam:
            return True
        for p, a in zip(fn.params, c.args):
            t = fn.ty(p["t"])
            if t["sh"][:1] in ("r", "p", "R") and not t["cst"]:
                return True
        if c.obj is not None and c.obj[0][0] in ("arg", "this") and not fn.const:
            return True
        return fn.ctor

    def on_call(self, I, s, c):
        if c.m == "operator()" and c.ot is not None and "eoEvalFunc" in self.P.supers(c.ot.get("r") or ""):
            if c.args and c.args[0][0] == "loc" and c.args[0][1][0][0] == "arg":
                return [(s.setp("mod", False).trace("%s: evaluated" % c.fr.where(c.node)), TRUE)]
            return [(s, TRUE)]
        if c.m == "operator()" and c.ot is not None and not c.exact:
            k = opkind(self.P, c.ot.get("r"))
            if k and c.virt:
                self.nested += 1
                out = [(s.trace("%s: nested operator answers false" % c.fr.where(c.node)), FALSE)]
                s2 = s
                for i in OPS[k]:
                    if i < len(c.args) and c.args[i][0] == "loc":
                        s2, u = I.fresh(s2, c.node, c.fr, "op%d" % i)
                        s2 = I.store(s2, c.args[i][1], u, c.node, c.fr)
                out.append((s2.trace("%s: nested operator answers true" % c.fr.where(c.node)), TRUE))
                return out
        return None


def one(c, item):
    P = c.prog
    usr, tracked = item
    f = P.fns[usr]
    h = H(P, tracked)
    I = Interp(P, h)
    site = "%s#%s" % (f.file, f.n)
    try:
        res = I.run(f)
    except TooComplex as e:
        c.undecide(site, str(e))
        c.count("operators too complex")
        return
    wrote = False
    for kind, s, v in res:
        if kind != "return":
            continue
        c.count("abstract paths")
        if not s.prop.get("mod"):
            continue
        wrote = True
        v = I.truth(v) if v is not None else FALSE
        t = s.known(v)
        if t is True:
            continue
        if t is False:
            c.violation(f.file, f.line, f.n, "false-after-change",
                        "answers 'unchanged' on a path that wrote the genotype", s.trail())
        else:
            c.undecide(site, "result not decided on a modifying path: %s" % (v,))
    c.count("operators", "%s (%s)" % (f.node["full"], f.loc()))
    if wrote:
        c.count("operators that write")
    c.notes |= I.notes
    c.count("nested operator calls", n=h.nested)


def check():
    c = Check("C01", ("eo", "mo", "moeo", "edo"),
              "for every override of a mutation/crossover call operator, on every abstract path: genotype written => result is true")
    P = c.prog
    items = []
    for f in functions(P):
        if f.m != "operator()" or f.cls is None or f.lam:
            continue
        k = opkind(P, f.cls)
        if not k or len(f.params) != (1 if k == "eoMonOp" else 2) or f.ty(f.ret).get("b") != "bool":
            continue
        tracked = [i for i in OPS[k] if f.ty(f.params[i]["t"])["sh"] == "r" and not f.ty(f.params[i]["t"])["cst"]]
        if tracked:
            items.append((f.usr, tracked))
    c.each(items, one)
    c.need("operators", 100)
    c.need("operators that write", 80)
    return c
