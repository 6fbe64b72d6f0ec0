"""C02: whoever changes an individual invalidates its fitness before handing it back."""
from ..absint import Hooks, Interp, TooComplex, State, TRUE, FALSE, NULL, add, _site, roottype
from ..core import Check
from ..lib import *

ENTRY = [("eoGenOp", "apply"), ("eoTransform", "operator()"), ("eoBreed", "operator()"), ("eoInit", "operator()"), ("eoFlight", "operator()"),
         ("eoFlight", "apply"), ("eoAlgo", "operator()"), ("moPerturbation", "operator()"), ("moDiversification", "operator()"),
         ("moNeighborhoodExplorer", "operator()"), ("eoInvalidateMonOp", "operator()"), ("eoInvalidateBinOp", "operator()"),
         ("eoInvalidateQuadOp", "operator()")]
# components that copy, order or judge individuals but never edit a genotype
SERVICES = {"moeoFitnessAssignment", "moeoDiversityAssignment", "eoContinue", "eoReplacement", "eoSelect", "eoSelectOne", "moeoArchive",
            "eoMerge", "eoReduce", "eoPerf2Worth", "eoParticleBestInit", "eoVelocity", "eoTopology", "moeoArchiveUpdater", "eoReduceSplit"}


class H(Hooks):
    def __init__(self, P, fn):
        self.P, self.fn = P, fn
        self.changes = 0

    def is_indiv(self, cls):
        return bool(cls) and bool({"EO", "PO"} & self.P.supers(cls))

    def note(self, s, path, fr, node, what):
        self.changes += 1
        if s.prop.get(("dirty", path)):
            return s
        return s.setp(("dirty", path), fr.where(node)).trace("%s: %s" % (fr.where(node), what))

    def clear(self, s, pre, fr, node, what):
        n = len(pre)
        ks = [k for k in s.prop if k[0] == "dirty" and k[1][:n] == pre]
        if not ks:
            return s
        s = s.copy()
        for k in ks:
            del s.prop[k]
        return s.trace("%s: %s" % (fr.where(node), what))

    def on_write(self, I, s, path, v, node, fr):
        last = path[-1]
        if last[0] == "f" and last[1] in VALID:
            pre = path[:-1]
            moeo = self.moeo(fr, path)
            if last[1] == "invalidFitness" and moeo:
                return s
            return self.clear(s, pre, fr, node, "fitness %s" % ("invalidated" if v == TRUE else "set"))
        if is_fitness_path(path) or any(x[0] == "f" and x[1] in AUX for x in path):
            return s
        if not self.tracked(s, path, fr):
            return s
        if s.whole(path) == v:
            return s
        return self.note(s, path, fr, node, "genotype written")

    def moeo(self, fr, path):
        """the written flag belongs to a multi-objective individual"""
        return fr.fn.cls is not None and ("MOEO" in self.P.supers(fr.thiscls or fr.fn.cls))

    def tracked(self, s, path, fr):
        """inside the genotype of an individual that outlives the call"""
        r = path[0]
        if r[0] in ("arg", "v"):
            t = roottype(self.P, self.fn, path)
            if t is None or t["cst"] and t["sh"]:
                return False
            if self.is_indiv(t.get("r")):
                return len(path) > 1
            if t.get("r") and ("eoPop" in self.P.supers(t["r"]) or "eoPopulator" in self.P.supers(t["r"])):
                n = [i for i, x in enumerate(path) if x[0] == "e"]
                return bool(n) and len(path) > n[0] + 1
        if r[0] == "this" and len(path) > 2 and path[1][0] == "f":
            ft = I_field(self.P, fr, path[1][1])
            return ft is not None and self.is_indiv(ft.get("r")) and not ft["sh"]
        return False

    def on_copy(self, I, s, dst, src, node, fr):
        s = self.clear(s, dst, fr, node, "replaced by a copy")
        n = len(src)
        for k in [k for k in s.prop if k[0] == "dirty" and k[1][:n] == src]:
            s = s.setp(("dirty", dst + k[1][n:]), s.prop[k])
        return s

    def dirty_call(self, I, s, c, idx, tag):
        for i in idx:
            if i < len(c.args) and c.args[i][0] == "loc":
                p = c.args[i][1]
                s, u = I.fresh(s, c.node, c.fr, "%s%d" % (tag, i))
                # the genotype changes, the fitness flags stay
                keep = {q: x for q, x in s.env.items() if q[:len(p)] == p and is_fitness_path(q[len(p) - 1:])}
                fl = {f: s.read(p + (("f", f),)) for f in FITNESS}
                s = s.write(p, u)
                s.env.update(keep)
                for f, x in fl.items():
                    s.env.setdefault(p + (("f", f),), x)
                s = self.note(s, p + (("f", "#genotype"),), c.fr, c.node, "operator says it changed individual %d" % (i + 1))
        return s

    def on_call(self, I, s, c):
        P = self.P
        if c.m == "operator()" and c.ot is not None and c.ot.get("r"):
            sup = P.supers(c.ot["r"])
            if "eoEvalFunc" in sup:
                return [(self.evaluated(I, s, c, 0), NULL)]
            if "eoPopEvalFunc" in sup or "eoPopEvalContinue" in sup:
                return [(self.clear_invalid(s, c), NULL)]
            if sup & SERVICES and not (sup & {"eoInvalidateMonOp"}):
                for i, a in enumerate(c.args):
                    t = c.fr.fn.ty(c.node["pt"][i]) if i < len(c.node.get("pt", [])) else None
                    if a[0] == "loc" and t and t["sh"] == "r" and not t["cst"]:
                        s, u = I.fresh(s, c.node, c.fr, "sv%d" % i)
                        s = s.write(a[1], u)
                return self.both(I, s, c)
            if c.exact:
                return None
            if sup & {"moPerturbation", "moDiversification", "eoInit", "moLocalSearch", "eoTransform", "eoBreed", "eoFlight"}:
                # contract: hands its operand back clean (checked for every implementation)
                i = {True: 0}.get(bool(sup & {"moPerturbation", "moDiversification", "eoInit", "moLocalSearch", "eoTransform", "eoFlight"}), 1)
                if i < len(c.args) and c.args[i][0] == "loc":
                    if "moLocalSearch" in sup:
                        s = self.stale_use(s, c, c.args[i][1])
                    s = self.clear(s, c.args[i][1], c.fr, c.node, "handed to a component that keeps fitness and genotype together")
                return self.both(I, s, c)
            k = opkind(P, c.ot["r"])
            if k and c.virt:
                if c.obj is not None and c.obj[0][0] == "d" and self.is_ls(c.obj[0][1]):
                    s = self.stale_use(s, c, c.args[0][1])
                    s = self.clear(s, c.args[0][1], c.fr, c.node, "local search")
                    return self.both(I, s, c)
                return [(s, FALSE), (self.dirty_call(I, s, c, OPS[k], "op"), TRUE)]
        if c.ot is not None and c.ot.get("r") and "eoPopulator" in P.supers(c.ot["r"]) and c.obj is not None:
            cur = c.obj + (("f", "#cur"),)
            if c.m == "operator*":
                return [(s, ("loc", c.obj + (("f", "#ind"), ("e", s.read(cur)))))]
            if c.m == "operator++":
                s = s.copy()
                s.env[cur] = add(s.read(cur), ("c", 1))
                return [(s, ("loc", c.obj))]
            if c.m == "tellp":
                return [(s, s.read(cur))]
            if c.m == "seekp":
                s = s.copy()
                s.env[cur] = c.args[0]
                return [(s, NULL)]
            if c.m in ("reserve",):
                return [(s, NULL)]
            if c.m in ("select", "source", "offspring", "exhausted"):
                s, u = I.fresh(s, c.node, c.fr)
                return [(s, ("loc", (("d", u),)) if c.m != "exhausted" else u)]
            if c.m == "insert" and c.args[0][0] == "loc":
                s, u = I.fresh(s, c.node, c.fr)
                return [(I.copyobj(s, c.obj + (("f", "#ind"), ("e", u)), c.args[0][1], c.node, c.fr), NULL)]
        if c.m in ("apply", "operator()") and c.ot is not None and c.ot.get("r") and "eoGenOp" in P.supers(c.ot["r"]) and not c.exact:
            s, u = I.fresh(s, c.node, c.fr)
            s = s.copy()
            if c.args and c.args[0][0] == "loc":
                s.env[c.args[0][1] + (("f", "#cur"),)] = u
            return [(s, NULL)]
        return None

    def stale_use(self, s, c, p):
        n = len(p)
        for k in s.prop:
            if k[0] == "dirty" and k[1][:n] == p:
                return s.setp("stale_use", c.fr.where(c.node)).trace("%s: local search starts from a changed individual still carrying its old fitness" % c.fr.where(c.node))
        return s

    def both(self, I, s, c):
        s, u = I.fresh(s, c.node, c.fr)
        return [(s, u)]

    def is_ls(self, v):
        return v[0] in ("u", "uo") and isinstance(v[1], tuple) and len(v[1]) > 1 and (_site.get(v[1][1]) or {}).get("m") == "getLocalSearch"

    def evaluated(self, I, s, c, i):
        """evaluators may skip individuals whose fitness is still valid: only an invalid one is surely evaluated"""
        if i >= len(c.args) or c.args[i][0] != "loc":
            return s
        p = c.args[i][1]
        n = len(p)
        if any(k[0] == "dirty" and k[1][:n] == p for k in s.prop):
            fl = s.env.get(p + (("f", "invalidObjectiveVectorValue"),)) or s.env.get(p + (("f", "invalidFitness"),))
            if fl == TRUE:
                s = self.clear(s, p, c.fr, c.node, "evaluated")
            else:
                s = s.trace("%s: evaluation may be skipped, the old fitness is still marked valid" % c.fr.where(c.node))
                return s
        s = s.copy()
        s.env[p + (("f", "invalidFitness"),)] = FALSE
        return s

    def clear_invalid(self, s, c):
        return s

    def inline(self, I, fn, c):
        if fn.lam or fn.ctor:
            return True
        for p, a in zip(fn.params, c.args):
            t = fn.ty(p["t"])
            if t["sh"][:1] in ("r", "p", "R") and not t["cst"]:
                return True
        if c.obj is not None and (not fn.const or fn.ty(fn.ret)["sh"] or fn.ty(fn.ret).get("b") == "bool"):
            return True
        return False


def I_field(P, fr, name):
    for f, c in P.fields_of(fr.thiscls or fr.fn.cls or ""):
        if f["n"] == name:
            return c["tu"].types[f["t"]]
    return None


def one(c, item):
    P = c.prog
    base, usr = item
    f = P.fns[usr]
    h = H(P, f)
    I = Interp(P, h)
    site = "%s#%s" % (f.file, f.n)
    try:
        res = I.run(f)
    except TooComplex as e:
        c.undecide(site, str(e))
        return
    c.count("functions", "%s (%s)" % (f.node["full"], f.loc()))
    if h.changes:
        c.count("functions that change individuals")
    for kind, s, v in res:
        if kind != "return":
            continue
        c.count("abstract paths")
        if s.prop.get("stale_use"):
            c.violation(f.file, f.line, f.n, "stale-start", "starts a local search at %s from a changed individual whose old fitness is still marked valid" % s.prop["stale_use"], s.trail())
        for k in s.prop:
            if k[0] == "dirty" and k[1][0][0] in ("arg", "this"):
                if opkind(P, f.cls) and f.m == "operator()" and not base.startswith("eoInvalidate") and not base.startswith("mo"):
                    continue
                c.violation(f.file, f.line, f.n, "stale-fitness",
                            f.cls + ": hands back an individual changed at %s whose stored fitness was neither invalidated nor recomputed" % s.prop[k], s.trail())
    c.notes |= I.notes


class Plain(Hooks):
    pass


# what must refuse to answer, and what must say "invalid", once a reset method ran
RESET = {"invalidate": (("fitness", "fitness_reference", "objectiveVector", "diversity"), ("invalid", "invalidObjectiveVector", "invalidDiversity")),
         "invalidateBest": (("best",), ("invalidBest",)),
         "invalidateObjectiveVector": (("objectiveVector",), ("invalidObjectiveVector", "invalid")),
         "invalidateDiversity": (("diversity",), ("invalidDiversity",))}


def protocol(c, cls):
    """invalidate(); then the getters refuse and the predicates say so; set; then the predicates deny"""
    P = c.prog
    byname = {}
    for x in P.superclasses(cls)[::-1]:
        for m in (P.classes.get(x) or {}).get("methods", []):
            f = P.fns.get(m["usr"])
            if f is not None and f.body:
                byname[(m["n"], len(f.params))] = f
    for rs, (getters, preds) in RESET.items():
        f = byname.get((rs, 0))
        if f is None:
            continue
        for kind, s, v in Interp(P, Plain()).run(f, thiscls=cls):
            for g in getters:
                gf = byname.get((g, 0))
                if gf is None or gf.n.startswith("std::"):
                    continue
                if g == "fitness" and "MOEO" in P.supers(cls) and rs != "invalidate":
                    continue
                c.count("getter refuses when invalid", "%s::%s after %s" % (cls, g, rs))
                for k2, s2, v2 in Interp(P, Plain()).run(gf, thiscls=cls, s0=s):
                    if k2 == "return":
                        c.violation(gf.file, gf.line, gf.n, "reads-invalid", "%s returns a value although the object was invalidated by %s" % (g, rs))
            for g in preds:
                gf = byname.get((g, 0))
                if gf is None:
                    continue
                c.count("validity predicate", "%s::%s after %s" % (cls, g, rs))
                for k2, s2, v2 in Interp(P, Plain()).run(gf, thiscls=cls, s0=s):
                    if k2 == "return" and s2.known(v2) is not True:
                        c.violation(gf.file, gf.line, gf.n, "not-invalid-after-reset", "%s does not answer true after %s" % (g, rs))
    for st, pred in (("fitness", "invalid"), ("objectiveVector", "invalidObjectiveVector"), ("best", "invalidBest"), ("diversity", "invalidDiversity")):
        f, gf = byname.get((st, 1)), byname.get((pred, 0))
        if f is None or gf is None or (st == "fitness" and "MOEO" in P.supers(cls)):
            continue
        c.count("setter validates", "%s::%s" % (cls, st))
        for kind, s, v in Interp(P, Plain()).run(f, thiscls=cls):
            if kind != "return":
                continue
            for k2, s2, v2 in Interp(P, Plain()).run(gf, thiscls=cls, s0=s):
                if k2 == "return" and s2.known(v2) is not False:
                    c.violation(f.file, f.line, f.n, "invalid-after-set", "%s still answers true after a value was set" % pred)


def check():
    c = Check("C02", ("eo", "mo", "moeo", "edo"),
              "typestate over every breeder, transform, generic operator, flight, initialiser, perturbation, algorithm: an individual whose genotype was written (or an operator answered true) has its validity flag rewritten before return")
    P = c.prog
    items, done = [], set()
    for base, m in ENTRY:
        for f in overriders(P, base, m):
            if f.usr in done or not f.params or "eoVelocityInit" in P.supers(f.cls):
                continue
            done.add(f.usr)
            items.append((base, f.usr))
    c.each(items, one)
    seen = set()
    for cls in sorted(P.classes):
        cd = P.classes[cls]
        if cd.get("repo") and P.supers(cls) & {"EO", "PO"}:
            key = cd["n"]
            if key in seen or cd["n"].startswith("D"):
                continue
            seen.add(key)
            try:
                protocol(c, cls)
            except TooComplex as e:
                c.undecide(cls, str(e))
    c.need("functions", 150)
    c.need("functions that change individuals", 60)
    c.need("getter refuses when invalid", 8)
    return c
