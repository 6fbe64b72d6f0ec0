"""Domain notions shared by the checks."""
OPS = {"eoMonOp": (0,), "eoBinOp": (0,), "eoQuadOp": (0, 1)}
# parts of an individual that are not its genotype
FITNESS = {"repFitness", "invalidFitness", "bestFitness", "invalidBestFitness", "objectiveVectorValue", "invalidObjectiveVectorValue",
           "fitnessValue", "invalidFitnessValue", "diversityValue", "invalidDiversityValue"}
AUX = {"velocities", "bestPositions"}
VALID = {"invalidFitness", "invalidObjectiveVectorValue"}


def opkind(P, cls):
    if not cls:
        return None
    sup = P.supers(cls)
    for k in OPS:
        if k in sup:
            return k
    return None


def is_fitness_path(path):
    return any(x[0] == "f" and x[1] in FITNESS for x in path[1:])


def isa(P, c, base):
    """static class of the object a method is called on"""
    r = c.ot.get("r") if c.ot else None
    return bool(r) and base in P.supers(r)


def functions(P):
    return sorted((f for f in P.fns.values() if f.body and not f.implicit), key=lambda f: (f.file, f.line, f.usr))


def overriders(P, base, method):
    for f in functions(P):
        if f.m == method and f.cls and not f.lam and base in P.supers(f.cls):
            yield f


def nodes(f):
    """every node of a function: body and constructor initialisers"""
    from .prog import walk
    if f.body:
        yield from walk(f.body)
    for i in f.node.get("inits", []) or []:
        yield from walk(i)


def callers(P):
    """usr -> set of functions with a direct call to it"""
    out = {}
    for f in P.fns.values():
        for n in nodes(f):
            u = n.get("f")
            if n.get("k") in ("call", "ctor") and u:
                out.setdefault(u, set()).add(f.usr)
            if n.get("k") == "lambda" and u:
                out.setdefault(u, set()).add(f.usr)
    return out


def only_static(P, n):
    """every object of the class has static storage, hence starts as zero"""
    stat = [v for v in P.vars.values() if v.get("t") is not None and v["tu"].types[v["t"]].get("rn") == n]
    if not stat:
        return False
    for cd in P.classes.values():
        tu = cd["tu"]
        if any(tu.types[fl["t"]].get("rn") == n and not tu.types[fl["t"]]["sh"] for fl in cd.get("fields", [])):
            return False
    for f in P.fns.values():
        for x in nodes(f):
            if x.get("k") == "new" and n in str(x.get("n", "")):
                return False
            if x.get("s") == "decl" and any(f.ty(v["t"]).get("rn") == n and not v.get("static") and not f.ty(v["t"])["sh"] for v in x["v"]):
                return False
    return True
