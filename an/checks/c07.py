"""C07: every random choice comes from the seedable generator."""
import re
from ..absint import Hooks, Interp, TooComplex, FALSE
from ..core import Check
from ..lib import *
from ..prog import walk

SYSTEM = {"rand", "srand", "random", "srandom", "rand_r", "random_r", "drand48", "erand48", "lrand48", "nrand48", "mrand48", "jrand48", "srand48",
          "arc4random", "getrandom", "getentropy", "getpid", "getppid", "gethostid", "pthread_self", "std::random_shuffle", "std::this_thread::get_id",
          "tempnam", "tmpnam", "mkstemp"}
SYSTEM |= {"std::" + x for x in list(SYSTEM) if not x.startswith("std::")}
CLOCK = {"time", "clock", "gettimeofday", "clock_gettime", "times", "getrusage", "ftime", "timespec_get"}
CLOCK |= {"std::" + x for x in CLOCK}
ENGINE = re.compile(r"^std::(mersenne_twister_engine|linear_congruential_engine|subtract_with_carry_engine|discard_block_engine|shuffle_order_engine|independent_bits_engine|seed_seq)\b")
DEVICE = re.compile(r"^std::random_device\b")
# classes whose declared purpose is to measure or to be driven by time
TIMED = {"eoContinue", "moContinuator", "eoUpdater", "eoDynUpdate", "eoUpdatable", "eoMonitor", "eoStatBase", "eoStat", "eoTimer", "eoTimerStat", "eoParam",
         "eoTimedDynUpdate", "moStatBase", "moMonitor", "eoEvalTimeThrowException", "eoEvalUserTimeThrowException", "eoLogger"}


def is_clock(n):
    return n.get("n") in CLOCK or (n.get("m") == "now" and "chrono" in (n.get("n") or ""))


def from_generator(node):
    """the expression draws from an eoRng"""
    return any(x.get("k") == "call" and x.get("c") == "eoRng" for x in walk(node))


def assoc_key(s):
    m = re.match(r"^(?:const )?std::(?:unordered_)?(?:multi)?(?:set|map)<(.*)$", s)
    if not m:
        return None
    depth, out = 0, ""
    for ch in m.group(1):
        if depth == 0 and ch in ",>":
            break
        depth += ch in "<([" and 1 or ch in ">)]" and -1 or 0
        out += ch
    return out


class Fresh(Hooks):
    """records reads of scalar attributes that the reseeding did not define"""
    def __init__(self, fields, root):
        self.fields, self.stale, self.root = fields, {}, root

    def on_call(self, I, s, c):
        # rand() is analysed on its own; the other draws only add to it
        if c.n == "eoRng::rand" and self.root.m != "rand":
            s, u = I.fresh(s, c.node, c.fr, "rng")
            return [(s, u)]
        if c.n == "eoRng::restart":
            s = s.copy()
            for g in I.prog.fns.values():
                if g.n == "eoRng::restart":
                    for n in nodes(g):
                        if n.get("k") == "asg" and n["a"].get("k") == "mem":
                            s, u = I.fresh(s, c.node, c.fr, "rng" + n["a"]["f"])
                            s.env[(("this",), ("f", n["a"]["f"]))] = u
            s, u = I.fresh(s, c.node, c.fr, "rng")
            return [(s, u)]
        return None

    def on_read(self, I, s, path, node, fr):
        if len(path) == 2 and path[0] == ("this",) and path[1][1] in self.fields and path not in s.env:
            self.stale.setdefault(path[1][1], fr.where(node))


def check():
    c = Check("C07", ("eo", "mo", "moeo", "edo"), "no library function takes randomness from the system, the clock, the process or addresses; reseeding defines every attribute the draws read; only user-level code reseeds")
    P = c.prog
    up = callers(P)

    def timed(f, seen=()):
        """reading the clock is this function's business, or that of everyone who calls it"""
        if f.cls and P.supers(f.cls) & TIMED:
            return True
        if f.lam or not f.cls:
            cs = [P.fns[u] for u in up.get(f.usr, ()) if u in P.fns and u not in seen]
            return bool(cs) and all(timed(g, seen + (f.usr,)) for g in cs)
        # a helper class used only by timed components
        return False

    done = set()
    for f in functions(P):
        if f.file in ("eo/src/utils/eoRNG.h", "eo/src/utils/eoRNG.cpp") and f.cls == "eoRng":
            continue
        c.count("functions")
        param_store = [n for n in nodes(f) if n.get("k") == "asg" and any(x.get("k") == "call" and x.get("m") == "value" for x in walk(n.get("a") or {}))]
        excused = {id(x) for n in param_store for x in walk(n)}
        for n in nodes(f):
            key = (f.file, n.get("l"), n.get("n"), n.get("k"))
            if n.get("k") == "call":
                if n.get("c") == "eoRng":
                    c.count("draws from the generator", "%s:%s %s" % (f.file, n.get("l"), n.get("m")))
                    if n.get("m") in ("reseed", "oldReseed", "clearCache", "readFrom") and f.cls and "eoFunctorBase" in P.supers(f.cls):
                        c.violation(f.file, n["l"], f.n, "reseeds", "a component resets the generator with %s in the middle of a run" % n["m"])
                if n.get("n") in SYSTEM:
                    c.violation(f.file, n["l"], f.n, "system-randomness", "takes a value from %s, which no seed of the library controls" % n["n"])
                elif is_clock(n):
                    c.count("clock reads", "%s:%s in %s" % (f.file, n["l"], f.n))
                    if id(n) not in excused and not timed(f):
                        c.violation(f.file, n["l"], f.n, "clock", "reads the clock (%s) outside a timing component" % n["n"])
            if n.get("k") in ("ctor", "temp") and n.get("c"):
                if DEVICE.match(n["c"]):
                    c.violation(f.file, n["l"], f.n, "system-randomness", "draws from std::random_device, which no seed of the library controls")
                elif ENGINE.match(n["c"]) and not (n.get("cp") or n.get("mv")):
                    if not any(from_generator(a) for a in n.get("a", [])):
                        c.violation(f.file, n["l"], f.n, "system-randomness", "private random engine not seeded from the library's generator")
                elif n["c"] == "eoRng" and any(is_clock(x) or x.get("n") in SYSTEM for a in n.get("a", []) for x in walk(a)):
                    c.violation(f.file, n["l"], f.n, "system-randomness", "private generator seeded from the clock or the process")
            if n.get("k") == "bin" and n.get("op") in ("<", ">", "<=", ">="):
                ts = [f.ty(n[x]["t"]) for x in ("a", "b") if x in n and "t" in n[x]]
                if len(ts) == 2 and all(t and t["sh"] == "p" for t in ts):
                    c.count("address comparisons", "%s:%s" % (f.file, n["l"]))
                    if any(t.get("r") for t in ts) and f.cls and P.supers(f.cls) & {"eoFunctorBase", "eoObject"}:
                        c.violation(f.file, n["l"], f.n, "address-order", "orders objects by their addresses")
            if n.get("k") == "call" and n.get("n") in ("std::sort", "std::stable_sort", "std::nth_element", "std::partial_sort", "std::max_element", "std::min_element") and n.get("a"):
                c.count("sorts and extrema", "%s:%s" % (f.file, n["l"]))
                t = f.ty(n["a"][0]["t"])["s"] if "t" in n["a"][0] else ""
                m = re.match(r"^__gnu_cxx::__normal_iterator<(?:[^,]*)\*\s*\*", t)
                base = {"std::nth_element": 3, "std::partial_sort": 3}.get(n["n"], 2)
                if re.search(r"\*\s*(const\s*)?\*,", t.split(", std::vector")[0] + ",") and len(n["a"]) == base:
                    c.violation(f.file, n["l"], f.n, "address-order", "%s over pointers without a comparator orders by address" % n["n"])
            it = None
            if n.get("s") == "rfor" and "t" in n["range"]:
                it = f.ty(n["range"]["t"])
            elif n.get("k") == "call" and n.get("m") in ("begin", "cbegin", "rbegin") and isinstance(n.get("ot"), int):
                it = f.ty(n["ot"])
            if it:
                k = assoc_key(it["s"])
                if k and k.rstrip().endswith("*") and not (f.cls and P.supers(f.cls) & {"eoLogger"}):
                    c.violation(f.file, n.get("l") or f.line, f.n, "address-order", "iterates over a container ordered by addresses (%s)" % it["s"][:80])
            if n.get("s") == "decl":
                for v in n["v"]:
                    if v.get("static"):
                        t = f.ty(v["t"])
                        c.count("function-local statics", "%s %s" % (f.n, v["n"]))
                        written = any(x.get("k") in ("asg", "un") and any(y.get("k") == "ref" and y.get("d") == v["id"] for y in walk(x.get("a") or x.get("e") or {})) for x in nodes(f) if x.get("k") == "asg" or x.get("op") in ("++pre", "--pre", "++post", "--post", "++", "--"))
                        varying = v.get("init") and any(y.get("k") == "ref" and y.get("dk") in ("local", "param") or y.get("k") == "this" or (y.get("k") == "call" and y.get("c") == "eoRng") for y in walk(v["init"]))
                        if (written or varying) and not t.get("cst") or varying:
                            c.violation(f.file, v.get("l") or f.line, f.n, "hidden-state", "function-local static '%s' carries state from one run into the next, beyond any seed" % v["n"])
    for name, v in P.vars.items():
        for x in walk(v.get("init") or {}):
            if x.get("k") in ("call", "ctor") and (x.get("n") in SYSTEM or DEVICE.match(x.get("c") or "") or ENGINE.match(x.get("c") or "")):
                c.violation(v["file"], v["line"], name, "system-randomness", "global initialised from %s" % (x.get("n") or x.get("c")))
    # reseeding leaves nothing behind
    R = {f.m: [g for g in P.fns.values() if g.cls == "eoRng" and g.m == f.m and g.body] for f in P.fns.values() if f.cls == "eoRng" and f.body}
    fields = {x["n"] for x in P.classes["eoRng"]["fields"] if x["n"] != "state"}
    rs = [f for f in R.get("reseed", [])]
    draws = [f for m in ("rand", "normal", "uniform", "random", "flip") for f in R.get(m, [])]
    for f in rs:
        for kind, s, v in Rng(P).run(f, thiscls="eoRng"):
            if kind != "return":
                continue
            for d in draws:
                h = Fresh(fields, d)
                try:
                    RngI(P, h).run(d, thiscls="eoRng", s0=s)
                except TooComplex as e:
                    c.undecide(d.n, str(e))
                    continue
                c.count("draws after reseeding", "%s/%d" % (d.n, len(d.params)))
                for fld, where in h.stale.items():
                    c.violation(f.file, f.line, f.n, "reseed-incomplete", "after reseeding, %s still reads the old '%s' at %s" % (d.n, fld, where))
    c.need("functions", 1500)
    c.need("draws from the generator", 100)
    c.need("clock reads", 10)
    c.need("sorts and extrema", 10)
    c.need("draws after reseeding", 4)
    return c


class RngI(Interp):
    """analyses the generator itself instead of using its model"""
    leaf_rng = False


def Rng(P):
    return RngI(P, Hooks())
