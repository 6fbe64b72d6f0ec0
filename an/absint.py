"""Abstract interpreter over the extracted program.

Collecting semantics on a finite-height domain with trace partitioning: a state maps
access paths to abstract values and keeps order/boolean facts about symbolic terms.
Calls to functions with a body in /repo are analysed in place (bounded depth); other calls
are modelled (standard library) or treated as opaque.  Loops run to a fixpoint with
widening of changing numeric values.  Nothing is executed and no solver is used.

Values (hashable tuples)
  ('c', x)            constant
  ('lin', k, ((sym, coef), ...))  linear integer/real form (never plain constants)
  ('loc', path)       reference / pointer to a location
  ('it', path, idx)   iterator into the container at path, at (linear) index idx; idx may be ENDV
  ('i', path)         initial content of a location (at entry of the analysed function)
  ('u', site)         unknown produced at a site;  ('uo', site): produced there earlier
  ('w', loop, path)   widened loop variable; ('wo', ...): its value in an earlier iteration
  ('t', name, ...)    pure term
  ('cmp', signs, lin) comparison: the sign of lin is in signs
  ('not', v)          negation
  ('lam', usr, depth, tuname)   closure
Paths are tuples: (root, seg, seg, ...) with seg = ('f', field) or ('e', idx).
"""
from .prog import walk


TRUE, FALSE, NULL = ("c", True), ("c", False), ("c", None)
MAXSTATES = 400
SOFT = 16
SOFT2 = 32
_symc = {}


def syms(v):
    """volatile symbols (fresh and loop values) occurring in a value or path"""
    if not isinstance(v, tuple) or not v:
        return frozenset()
    r = _symc.get(v)
    if r is None:
        if v[0] in ("u", "uo", "w", "wo") and len(v) == 3:
            r = frozenset([v])
        else:
            r = frozenset().union(*[syms(x) for x in v])
        if len(_symc) > 400000:
            _symc.clear()
        _symc[v] = r
    return r


def gc(s):
    """drop facts about values nothing refers to any more, and elements at forgotten positions"""
    old = [p for p in s.env if len(p) > 1 and any(x[0] == "e" and any(y[0] in ("uo", "wo") for y in syms(x)) for x in p[1:])]
    if old:
        used = set()
        for p, v in s.env.items():
            if p not in old:
                used |= syms(v)
        for v in s.prop.values():
            used |= syms(v)
        rm = []
        for p in old:
            for n in range(1, len(p)):
                if p[n][0] == "e" and p[:n] + (("f", "#g"),) in s.env:
                    ys = {y for y in syms(p[n]) if y[0] in ("uo", "wo")}
                    if ys and not ys & used:
                        rm.append(p)
                        break
        if rm:
            s = s.copy()
            for p in rm:
                del s.env[p]
    if not s.facts:
        return s
    live = None
    dead = []
    for f in s.facts:
        fs = syms(f)
        if fs:
            if live is None:
                live = set()
                for p, v in s.env.items():
                    live |= syms(p)
                    live |= syms(v)
                for k, v in s.prop.items():
                    live |= syms(k)
                    live |= syms(v)
            if not fs <= live:
                dead.append(f)
    if dead:
        s = s.copy()
        for f in dead:
            del s.facts[f]
    return s


class TooComplex(Exception):
    pass


# ------------------------------------------------------------------ linear forms
def isnum(v):
    return v[0] == "c" and isinstance(v[1], (int, float)) or v[0] == "lin"


def lin(v):
    """-> (const, {sym: coef})"""
    if v[0] == "c":
        x = v[1]
        if x is None:
            return 0, {}
        if isinstance(x, (bool, int, float)):
            return (int(x) if isinstance(x, bool) else x), {}
        return 0, {v: 1}
    if v[0] == "lin":
        return v[1], dict(v[2])
    return 0, {v: 1}


def mklin(k, d):
    d = {s: c for s, c in d.items() if c != 0}
    if not d:
        return ("c", k)
    if k == 0 and len(d) == 1:
        (s, c), = d.items()
        if c == 1:
            return s
    return ("lin", k, tuple(sorted(d.items(), key=repr)))


def add(a, b, cb=1):
    ka, da = lin(a)
    kb, db = lin(b)
    d = dict(da)
    for s, c in db.items():
        d[s] = d.get(s, 0) + cb * c
    return mklin(ka + cb * kb, d)


def sub(a, b):
    return add(a, b, -1)


def mulc(a, k):
    ka, da = lin(a)
    return mklin(ka * k, {s: c * k for s, c in da.items()})


ALL = frozenset("-0+")
OPS = {"<": frozenset("-"), "<=": frozenset("-0"), ">": frozenset("+"), ">=": frozenset("0+"), "==": frozenset("0"), "!=": frozenset("-+")}


def canon(d):
    """canonical orientation of a linear form; returns (form, flipped)"""
    if d[0] == "c":
        return d, False
    if d[0] == "lin":
        items = d[2]
        if items[0][1] < 0:
            return mulc(d, -1), True
        return d, False
    return d, False


def flip(s):
    return frozenset({"-": "+", "+": "-", "0": "0"}[x] for x in s)


def mkcmp(op, a, b):
    d = sub(a, b)
    if d[0] == "c" and not isinstance(d[1], str):
        x = d[1]
        sg = "-" if x < 0 else "+" if x > 0 else "0"
        return ("c", sg in OPS[op])
    signs = OPS[op]
    c, fl = canon(d)
    if fl:
        signs = flip(signs)
    return ("cmp", tuple(sorted(signs)), c)


def neg(v):
    if v[0] == "c":
        return ("c", not v[1])
    if v[0] == "not":
        return v[1]
    if v[0] == "cmp":
        return ("cmp", tuple(sorted(ALL - frozenset(v[1]))), v[2])
    return ("not", v)


def mentions(v, pred):
    if isinstance(v, tuple):
        if pred(v):
            return True
        return any(mentions(x, pred) for x in v)
    return False


def subst(v, m):
    if isinstance(v, tuple):
        r = m.get(v)
        if r is not None:
            return r
        if not v:
            return v
        n = tuple(subst(x, m) for x in v)
        if n == v:
            return v
        if v[0] == "lin":
            acc = ("c", n[1])
            for s, c in n[2]:
                acc = add(acc, mulc(s, c))
            return acc
        return n
    return v


# ------------------------------------------------------------------ states
class State:
    __slots__ = ("env", "facts", "prop", "_h", "tr")

    def __init__(self, env=None, facts=None, prop=None, tr=None):
        self.env = env if env is not None else {}
        self.facts = facts if facts is not None else {}
        self.prop = prop if prop is not None else {}
        self._h = None
        self.tr = tr  # trace for diagnostics (linked list), not part of the identity

    def copy(self):
        return State(dict(self.env), dict(self.facts), dict(self.prop), self.tr)

    def key(self):
        if self._h is None:
            self._h = (frozenset(self.env.items()), frozenset(self.facts.items()), frozenset(self.prop.items()))
        return self._h

    # functional updates
    def setp(self, k, v):
        s = self.copy()
        s.prop[k] = v
        return s

    def trace(self, msg):
        s = State(self.env, self.facts, self.prop, (self.tr, msg))
        return s

    def trail(self):
        out, t = [], self.tr
        while t is not None:
            out.append(t[1])
            t = t[0]
        return out[::-1]

    # ---- memory
    def read(self, path):
        env = self.env
        v = env.get(path)
        if v is not None:
            return v
        for n in range(len(path) - 1, 0, -1):
            # an element of a container whose elements were written generically
            if path[n][0] == "e":
                g = env.get(path[:n] + (("f", "#g"),))
                if g is not None and not (path[n] == ("f", "#n")):
                    return ("t", "elem", g) + path[n:]
            pre = path[:n]
            v = env.get(pre)
            if v is not None:
                if v[0] == "i":
                    return ("i", v[1] + path[n:])
                if v[0] == "lam":
                    return ("t", "pj", v, path[n:])
                return ("t", "pj", v) + path[n:]
        return ("i", path)

    def whole(self, path):
        """content of a location, partial writes included"""
        v = self.read(path)
        n = len(path)
        subs = tuple(sorted(((p[n:], x) for p, x in self.env.items() if len(p) > n and p[:n] == path), key=repr))
        return ("t", "obj", v, subs) if subs else v

    def kill_under(self, path, keep_self=False):
        n = len(path)
        for p in [p for p in self.env if len(p) >= n and p[:n] == path]:
            if keep_self and len(p) == n:
                continue
            del self.env[p]

    def write(self, path, v):
        """returns a new state with path := v (whole content replaced)"""
        s = self.copy()
        s.kill_under(path)
        # writing an element: other elements may alias
        for n in range(1, len(path)):
            if path[n][0] == "e":
                base = path[:n]
                idx = path[n]
                same = s.env.get(base + (("f", "#g"),))
                for p in [p for p in s.env if len(p) > n and p[:n] == base and p[n][0] == "e" and p[n] != idx]:
                    if not distinct(s, p[n][1], idx[1]):
                        del s.env[p]
                s.env[base + (("f", "#g"),)] = ("t", "g", v if v[0] == "c" else ("t", "wr", idx))
        s.env[path] = v
        return s

    def copy_object(self, dst, src):
        """*dst = *src for class objects"""
        if dst == src:
            return self
        n = len(src)
        sub_ = {p[n:]: v for p, v in self.env.items() if len(p) > n and p[:n] == src}
        base = self.read(src)
        s = self.write(dst, base)
        for k, v in sub_.items():
            s.env[dst + k] = v
        return s

    def rename(self, m):
        """substitute symbols everywhere"""
        s = State({}, {}, {}, self.tr)
        for p, v in self.env.items():
            s.env[subst(p, m)] = subst(v, m)
        for f, sg in self.facts.items():
            s.facts[subst(f, m)] = sg
        for k, v in self.prop.items():
            s.prop[subst(k, m) if isinstance(k, tuple) else k] = subst(v, m) if isinstance(v, tuple) else v
        return s

    # ---- facts
    def known(self, v):
        """truth value of boolean value v or None"""
        if v[0] == "c":
            return bool(v[1])
        if v[0] == "not":
            k = self.known(v[1])
            return None if k is None else not k
        if v[0] == "cmp":
            signs = frozenset(v[1])
            cur = self.signs(v[2])
            if cur <= signs:
                return True
            if not (cur & signs):
                return False
            return None
        return self.facts.get(v)

    def signs(self, d):
        if d[0] == "c":
            x = d[1]
            return frozenset("-" if x < 0 else "+" if x > 0 else "0")
        cur = self.facts.get(("sg", d))
        cur = frozenset(cur) if cur is not None else ALL
        if self.nonneg(d):
            cur = cur & frozenset("0+")
        if len(cur) > 1:
            k, dd = lin(d)
            key0 = mklin(0, dd)
            for f, sg in self.facts.items():
                if f[0] != "sg":
                    continue
                k2, d2 = lin(f[1])
                if d2 == dd and k2 != k:
                    sg = frozenset(sg)
                    delta = k - k2  # d = f + delta
                    if delta > 0:
                        if not (sg & {"-"}):
                            cur = cur & frozenset("+")
                        elif sg <= {"-"} and float(delta).is_integer():
                            # f <= -1 (integers) -> d <= delta-1
                            if delta == 1:
                                cur = cur & frozenset("-0")
                    else:
                        if not (sg & {"+"}):
                            cur = cur & frozenset("-")
                        elif sg <= {"+"} and delta == -1:
                            cur = cur & frozenset("0+")
        if State.counting and len(cur) > 1:
            cur = frozenset(x for x in cur if self.consistent(d, x))
        return cur or ALL

    counting = False   # linear inequalities between several quantities, equal steps of loop variables, unsigned wrap-around

    def consistent(self, d, sign):
        """may d have this sign under the linear facts (elimination of the quantities one by one, integers)"""
        rows = []

        eqs = []

        def put(f, sg):
            k, dd = lin(f)
            if not float(k).is_integer() or any(not float(c).is_integer() for c in dd.values()):
                return
            if "-" not in sg and "+" not in sg:
                eqs.append((k, dd))
            elif "-" not in sg:
                rows.append((k - (0 if "0" in sg else 1), dd))
            elif "+" not in sg:
                rows.append((-k - (0 if "0" in sg else 1), {x: -c for x, c in dd.items()}))
        put(d, sign)
        want = set(lin(d)[1])
        facts = [(f[1], sg, set(lin(f[1])[1])) for f, sg in self.facts.items() if f[0] == "sg"]
        while True:
            hit = [x for x in facts if x[2] & want]
            if not hit:
                break
            facts = [x for x in facts if not x[2] & want]
            for f, sg, ss in hit:
                put(f, sg)
                want |= ss
        for x in want:
            if x[0] == "i" and x[1][-1] == ("f", "#n"):
                rows.append((0, {x: 1}))
        return not contradictory(rows, eqs, want)

    def signs2(self, d):
        c, fl = canon(d)
        sg = self.signs(c)
        return flip(sg) if fl else sg

    def nonneg(self, d):
        """syntactically non-negative: sizes and sums of sizes"""
        k, dd = lin(d)
        if k < 0:
            return False
        return all(c > 0 and s[0] in ("i",) and s[1][-1] == ("f", "#n") for s, c in dd.items())

    closure = False   # also refute chains of order facts (a <= b < c <= a)

    def feasible(self, d):
        """no negative cycle among the order facts connected to d (integers)"""
        edges = []
        for f, sg in self.facts.items():
            if f[0] != "sg":
                continue
            k, dd = lin(f[1])
            if len(dd) > 2 or not float(k).is_integer():
                continue
            it = list(dd.items())
            if len(it) == 1:
                it.append((None, -it[0][1]))
            (a, x), (b, y) = it
            if x + y != 0 or abs(x) != 1:
                continue
            if x < 0:
                a, b = b, a
            # f = a - b + k
            sg = frozenset(sg)
            if "+" not in sg:
                edges.append((b, a, -k if "0" in sg else -k - 1))   # a - b <= -k
            if "-" not in sg:
                edges.append((a, b, k if "0" in sg else k - 1))     # b - a <= k
        for a in {x for e in edges for x in e[:2] if x is not None and x[0] == "i" and x[1][-1] == ("f", "#n")}:
            edges.append((a, None, 0))
        dist = {}
        n = len({x for e in edges for x in e[:2]})
        for _ in range(n + 1):
            ch = False
            for a, b, w in edges:
                v = dist.get(a, 0) + w
                if v < dist.get(b, 0):
                    dist[b] = v
                    ch = True
            if not ch:
                return True
        return False

    def assume(self, v, truth):
        """refined state, or None when infeasible"""
        if v[0] == "c":
            return self if bool(v[1]) == truth else None
        if v[0] == "not":
            return self.assume(v[1], not truth)
        if v[0] == "cmp":
            signs = frozenset(v[1])
            if not truth:
                signs = ALL - signs
            cur = self.signs(v[2])
            new = cur & signs
            if not new:
                return None
            old = self.facts.get(("sg", v[2]))
            if old is not None and frozenset(old) == new:
                return self
            s = self.copy()
            s.facts[("sg", v[2])] = tuple(sorted(new))
            if State.closure and not s.feasible(v[2]):
                return None
            return s
        k = self.facts.get(v)
        if k is not None:
            return self if k == truth else None
        s = self.copy()
        s.facts[v] = truth
        return s


_consistent = {}


def contradictory(rows, eqs, syms_):
    """do the relations k + sum(c x) >= 0 (rows) or = 0 (eqs) exclude each other (elimination, bounded)"""
    todo = set(syms_)
    eqs = list(eqs)
    rows = [(k, dict(d)) for k, d in rows]

    def plug(k, d, x, xk, xd):
        c = d.get(x)
        if not c:
            return k, d
        d = dict(d)
        del d[x]
        k += c * xk
        for y, z in xd.items():
            n = d.get(y, 0) + c * z
            if n:
                d[y] = n
            else:
                d.pop(y, None)
        return k, d
    while eqs:
        k, d = eqs.pop()
        if not d:
            if k:
                return True
            continue
        x = next((y for y, c in d.items() if abs(c) == 1), None)
        if x is None:
            rows += [(k, d), (-k, {y: -c for y, c in d.items()})]
            continue
        c = d[x]
        xk, xd = -k * c, {y: -z * c for y, z in d.items() if y != x}
        eqs = [plug(kk, dd, x, xk, xd) for kk, dd in eqs]
        rows = [plug(kk, dd, x, xk, xd) for kk, dd in rows]
        todo.discard(x)
    while True:
        best = {}
        for k, d in rows:
            if not d:
                if k < 0:
                    return True
                continue
            f = frozenset(d.items())
            if f not in best or k < best[f][0]:
                best[f] = (k, d)
        rows = list(best.values())
        pos, ng = {}, {}
        for k, d in rows:
            for x, c in d.items():
                if c > 0:
                    pos.setdefault(x, []).append((k, d))
                else:
                    ng.setdefault(x, []).append((k, d))
        if not rows:
            return False
        # a quantity bounded on one side only says nothing
        free = {x for x in set(pos) | set(ng) if x not in pos or x not in ng}
        if free:
            rows = [(k, d) for k, d in rows if not free & set(d)]
            continue
        x = min(pos, key=lambda y: (len(pos[y]) * len(ng[y]), repr(y)))
        if len(pos[x]) * len(ng[x]) > 60:
            return False
        new = [(k, d) for k, d in rows if x not in d]
        for k1, d1 in pos[x]:
            for k2, d2 in ng[x]:
                a, b = d1[x], -d2[x]
                dd = {}
                for y in list(d1) + [z for z in d2 if z not in d1]:
                    c = b * d1.get(y, 0) + a * d2.get(y, 0)
                    if y != x and c:
                        dd[y] = c
                new.append((b * k1 + a * k2, dd))
        rows = new


def solve(s, want):
    """replace the symbols wanted by what the equalities among the facts say they are; None when infeasible"""
    for _ in range(20):
        hit = None
        for f, sg in s.facts.items():
            if f[0] == "sg" and tuple(sg) == ("0",):
                k, dd = lin(f[1])
                for x, c in dd.items():
                    if want(x) and abs(c) == 1:
                        rest = {y: -z * c for y, z in dd.items() if y != x}
                        hit = (x, mklin(-k * c, rest))
                        break
            if hit:
                break
        if not hit:
            return s
        m = {hit[0]: hit[1]}
        r = State({}, {}, {}, s.tr)
        for p, v in s.env.items():
            r.env[subst(p, m)] = subst(v, m)
        for k, v in s.prop.items():
            r.prop[subst(k, m) if isinstance(k, tuple) else k] = subst(v, m) if isinstance(v, tuple) else v
        for f, sg in s.facts.items():
            if f[0] != "sg":
                r.facts[subst(f, m)] = sg
                continue
            d, fl = canon(subst(f[1], m))
            sg = flip(frozenset(sg)) if fl else frozenset(sg)
            if d[0] == "c":
                if not r.signs(d) <= sg:
                    return None
                continue
            old = r.facts.get(("sg", d))
            if old is not None:
                sg = sg & frozenset(old)
                if not sg:
                    return None
            r.facts[("sg", d)] = tuple(sorted(sg))
        s = r
    return s


def distinct(s, a, b):
    if a == b:
        return False
    try:
        d, _ = canon(sub(a, b))
    except Exception:
        return False
    if d[0] == "c":
        return d[1] != 0
    return "0" not in s.signs(d)


def part(s):
    """partition key for joining: property state and everything that is not a number or an opaque value"""
    ks = []
    for p, v in s.env.items():
        if v[0] == "c" and (isinstance(v[1], bool) or v[1] is None) or v[0] in ("loc", "lam", "fn"):
            ks.append((p, v))
        elif v[0] == "it":
            ks.append((p, v[1]))
    return frozenset(ks), frozenset(s.prop.items()), lasting(s)


def lasting(s):
    """facts about values that never go away (only kept apart where chains of facts matter)"""
    return frozenset((f, g) for f, g in s.facts.items() if not syms(f)) if State.closure else None


def join(a, b):
    """least state above two states of one partition"""
    if a.key() == b.key():
        return a
    diff = {}
    for p in set(a.env) | set(b.env):
        v, w = a.read(p), b.read(p)
        if v != w or p not in a.env:
            if v == w and p not in a.env:
                diff[p] = v
                continue
            j = ("u", ("join", p), "")
            diff[p] = ("it", v[1], j) if v[0] == "it" and w[0] == "it" and v[1] == w[1] else j
    facts = {k: v for k, v in a.facts.items() if b.facts.get(k) == v}
    for k, v in a.facts.items():
        w = b.facts.get(k)
        if w is not None and w != v and k[0] == "sg":
            u = frozenset(v) | frozenset(w)
            if u != ALL:
                facts[k] = tuple(sorted(u))
    r = State(dict(a.env), facts, dict(a.prop), a.tr)
    if diff:
        js = {("u", ("join", p), "") for p in diff}
        live = set()
        for p, v in r.env.items():
            if p not in diff:
                live |= (syms(p) | syms(v)) & js
        for k, v in r.prop.items():
            live |= (syms(k) | syms(v)) & js
        r.facts = {k: v for k, v in r.facts.items() if not (syms(k) & js)}
        if live:
            r = r.rename({x: ("uo",) + x[1:] for x in live})
            diff = {subst(p, {x: ("uo",) + x[1:] for x in live}): v for p, v in diff.items()}
        r.env.update(diff)
        if State.closure:
            # how the joined numbers compare with each other, with 0 and with arbitrary positions
            num = [(p, v) for p, v in sorted(diff.items(), key=repr) if v[0] == "u" and isnum(a.read(p)) and isnum(b.read(p))][:6]
            wit = sorted({x for s in (a, b) for f in s.facts for x in syms(f) if x[0] == "i"}, key=lambda x: (x[1][0][0] != "witness", repr(x)))[:6]
            for i, (p, v) in enumerate(num):
                others = [(("c", 0),) * 3] + [(x, x, x) for x in wit] + [(w, a.read(q), b.read(q)) for q, w in num[i + 1:]]
                for nw, xa, xb in others:
                    sg = a.signs2(sub(a.read(p), xa)) | b.signs2(sub(b.read(p), xb))
                    if sg != ALL:
                        r2 = r.assume(mkcmp({"-": "<", "+": ">", "0": "==", "-0": "<=", "+0": ">=", "+-": "!="}["".join(sorted(sg, key="+-0".index))], v, nw), True)
                        r = r2 if r2 is not None else r
    return r


def dedupe(states, cap=None):
    seen, out = set(), []
    for s in states:
        k = s.key()
        if k not in seen:
            seen.add(k)
            out.append(s)
    if len(out) > SOFT:
        # join states that only differ in facts: keep the facts they share
        grp = {}
        for s in out:
            s = gc(s)
            grp.setdefault((frozenset(s.env.items()), frozenset(s.prop.items()), lasting(s)), []).append(s)
        out = []
        for g in grp.values():
            r = g[0]
            for s in g[1:]:
                r = join(r, s)
            out.append(r)
        if len(out) > SOFT2:
            grp = {}
            for s in out:
                grp.setdefault(part(s), []).append(s)
            out = []
            for g in grp.values():
                r = g[0]
                for s in g[1:]:
                    r = join(r, s)
                out.append(r)
        if len(out) > MAXSTATES:
            raise TooComplex("more than %d abstract states" % MAXSTATES)
    return out


def dedupe_sv(lst):
    seen, out = set(), []
    for s, v in lst:
        k = (s.key(), v)
        if k not in seen:
            seen.add(k)
            out.append((s, v))
    if len(out) > SOFT:
        grp = {}
        for s, v in out:
            grp.setdefault(v, []).append(s)
        out = [(s, v) for v, g in grp.items() for s in dedupe(g)]
        if len(out) > SOFT2:
            # keep boolean results and locations apart, merge numeric results
            grp = {}
            for s, v in out:
                if v is None or v[0] in ("loc", "lam", "fn", "exc", "it") or v[0] == "c" and (isinstance(v[1], bool) or v[1] is None):
                    grp.setdefault(v, []).append(s)
                else:
                    r = ("u", ("joinv",), "")
                    s = s.copy()
                    s.facts = {f: x for f, x in s.facts.items() if r not in syms(f)}
                    grp.setdefault(r, []).append(s)
            out = [(s, v) for v, g in grp.items() for s in dedupe(g)]
        if len(out) > MAXSTATES:
            raise TooComplex("more than %d abstract states" % MAXSTATES)
    return out


class Out:
    __slots__ = ("norm", "brk", "cont", "ret", "thr")

    def __init__(self):
        self.norm, self.brk, self.cont, self.ret, self.thr = [], [], [], [], []

    def absorb(self, o, norm=False):
        self.brk += o.brk
        self.cont += o.cont
        self.ret += o.ret
        self.thr += o.thr
        if norm:
            self.norm += o.norm


class Frame:
    __slots__ = ("fn", "depth", "this", "thiscls", "lamdepth", "pending", "parent", "callnode")

    def __init__(self, fn, depth, this, thiscls, lamdepth=None, parent=None, callnode=None):
        self.fn, self.depth, self.this, self.thiscls, self.lamdepth = fn, depth, this, thiscls, lamdepth
        self.pending = []
        self.parent = parent
        self.callnode = callnode

    def where(self, node):
        return "%s:%s" % (self.fn.file, node.get("l", self.fn.line) if node else self.fn.line)

    def chain(self):
        out, f = [], self
        while f is not None:
            out.append(f.fn.n)
            f = f.parent
        return out[::-1]


class Call:
    """what a hook sees"""
    __slots__ = ("node", "n", "m", "cls", "obj", "objval", "args", "fr", "op", "ot", "virt", "exact", "site", "fnref")

    def __repr__(self):
        return "<Call %s obj=%s args=%s>" % (self.n, self.obj, self.args)


class Hooks:
    """Property-specific behaviour; every method may be overridden."""

    def on_call(self, I, s, c):
        """return None (default treatment) or list of (state, value)"""
        return None

    def on_write(self, I, s, path, v, node, fr):
        """called before the content of path is changed; returns the state"""
        return s

    def on_copy(self, I, s, dst, src, node, fr):
        """called before the object at dst is made equal to the object at src"""
        return s

    def on_branch(self, I, s, cond, truth, node, fr):
        return s

    def on_throw(self, I, s, node, fr):
        return s

    def on_loop(self, I, info, fr):
        pass

    def on_decl(self, I, s, var, path, fr):
        return s

    def on_construct(self, I, s, e, path, fr):
        return s

    def on_init(self, I, s, path, v, node, fr):
        return s

    def on_scope_end(self, I, s, vars_, fr):
        return s

    def inline(self, I, fn, c):
        """may a body be analysed in place?"""
        return True

    def opaque(self, I, s, c):
        """default treatment of calls without body; None -> engine default"""
        return None

    def on_read(self, I, s, path, node, fr):
        pass


_site = {}


class Interp:
    leaf_rng = True

    def __init__(self, prog, hooks, maxdepth=9):
        self.prog, self.hooks, self.maxdepth = prog, hooks, maxdepth
        self.notes = set()
        self.stats = {"functions": set(), "calls": 0, "stmts": 0, "loops": 0}
        self.active = []
        self.steps = 0
        self.maxsteps = 150000

    def copyobj(self, s, dst, src, node, fr):
        """*dst = *src"""
        s = self.hooks.on_copy(self, s, dst, src, node, fr)
        return s.copy_object(dst, src)

    def copybase(self, s, dst, src, node, fr):
        """the part of *dst that is a base class := the same part of *src; what
        other bases and the class itself hold stays"""
        cls = node.get("c")
        own = {f["n"] for f, c in self.prog.fields_of(cls)} if cls in self.prog.classes else set()
        n = len(dst)
        saved = {p: v for p, v in s.env.items() if len(p) > n and p[:n] == dst and p[n][0] == "f" and p[n][1] not in own and p[n][1] not in ("#n", "#g")}
        s2 = self.copyobj(s, dst, src, node, fr)
        if saved:
            s2 = s2.copy()
            s2.env.update(saved)
        return s2

    # ------------------------------------------------------------- entry
    def run(self, fn, thiscls=None, s0=None, this=None, bind=None):
        s = s0 or State()
        fr = Frame(fn, 0, this or (("this",),), thiscls or fn.cls)
        for i, p in enumerate(fn.params):
            s = self.bind_entry(s, fn, i, p, fr)
            if bind and i in bind:
                s = s.copy()
                s.env[self.varpath(fr, p["id"])] = bind[i]
        if fn.ctor:
            outs = self.run_ctor_inits(fn, [s], fr)
        else:
            outs = [s]
        return self.run_body(fn, outs, fr)

    def bind_entry(self, s, fn, i, p, fr):
        t = fn.ty(p["t"])
        vp = self.varpath(fr, p["id"])
        s = s.copy()
        if t["sh"] in ("r", "R") or (t["sh"] == "p"):
            s.env[vp] = ("loc", (("arg", i),))
        elif t["sh"]:
            s.env[vp] = ("i", (("arg", i),))
        else:
            s.env[vp] = ("i", (("arg", i),))
        return s

    def run_body(self, fn, states, fr):
        """-> [(kind, state, value)] with kind 'return' | 'throw'"""
        self.stats["functions"].add(fn.usr)
        o = self.stmt(fn.body, states, fr)
        res = [("return", s, v) for s, v in o.ret] + [("return", s, None) for s in o.norm] + [("throw", s, v) for s, v in o.thr]
        return res

    def run_ctor_inits(self, fn, states, fr):
        for ini in fn.node.get("inits", []):
            nxt = []
            for s in states:
                if "f" in ini:
                    path = fr.this + (("f", ini["f"]),)
                    fty = self.field_type(fr.thiscls or fn.cls, ini["f"])
                    for s2, v in self.ev(ini["e"], s, fr):
                        nxt.append(self.hooks.on_init(self, self.init_path(s2, path, v, fty, ini["e"], fr), path, v, ini["e"], fr))
                elif ini["e"] is not None:
                    e = ini["e"]
                    if e.get("k") == "ctor":
                        for s2 in self.construct(e, s, fr, fr.this, base=True):
                            nxt.append(s2)
                    else:
                        for s2, v in self.ev(e, s, fr):
                            nxt.append(s2)
                else:
                    nxt.append(s)
            for s2, v in fr.pending:
                pass
            fr.pending = []
            states = dedupe(nxt)
        return states

    def field_type(self, cls, name):
        for f, c in self.prog.fields_of(cls) if cls else []:
            if f["n"] == name:
                return c["tu"].types[f["t"]]
        return None

    def varpath(self, fr, vid):
        return (("v", fr.depth, fr.fn.tu.name, vid),)

    def find_var(self, s, fr, vid):
        p = self.varpath(fr, vid)
        if fr.lamdepth is not None and p not in s.env:
            for d in range(fr.lamdepth, -1, -1):
                q = (("v", d, fr.fn.tu.name, vid),)
                if q in s.env or any(k[0] == q[0] for k in s.env):
                    return q
            return (("v", fr.lamdepth, fr.fn.tu.name, vid),)
        return p

    def site(self, node, fr):
        i = node.get("_i")
        if i is None:
            i = node["_i"] = len(_site) + 1
            _site[i] = node
        return (fr.depth, i)

    def fresh(self, s, node, fr, tag=""):
        sym = ("u", self.site(node, fr), tag)
        return self.regen(s, sym, ("uo", self.site(node, fr), tag)), sym

    def regen(self, s, sym, old):
        pred = lambda v: v == sym
        if any(mentions(p, pred) or mentions(v, pred) for p, v in s.env.items()) or any(mentions(f, pred) for f in s.facts) or any(
                mentions(k, pred) or mentions(v, pred) for k, v in s.prop.items() if isinstance(k, tuple) or isinstance(v, tuple)):
            predo = lambda v: v == old
            s = s.copy()
            for f in [f for f in s.facts if mentions(f, predo)]:
                del s.facts[f]
            s = s.rename({sym: old})
        return s

    # ------------------------------------------------------------- statements
    def stmt(self, n, states, fr):
        o = Out()
        if n is None or not states:
            o.norm = states
            return o
        self.steps += len(states)
        if self.steps > self.maxsteps:
            raise TooComplex("step bound")
        self.stats["stmts"] += 1
        k = n["s"]
        if k == "expr":
            e = n["e"]
            for s in states:
                for s2, v in self.ev(e, s, fr):
                    o.norm.append(s2)
            self.flush(o, fr)
            o.norm = dedupe(o.norm)
        elif k == "block":
            declared = []
            cur = states
            for x in n["b"]:
                r = self.stmt(x, cur, fr)
                o.absorb(r)
                cur = dedupe(r.norm)
                if x and x["s"] == "decl":
                    declared += x["v"]
                if not cur:
                    break
            o.norm = cur
            if declared:
                self.end_scope(o, declared, fr)
        elif k == "decl":
            cur = states
            for v in n["v"]:
                nxt = []
                for s in cur:
                    nxt += self.declare(v, s, fr)
                self.flush(o, fr)
                cur = dedupe(nxt)
            o.norm = cur
        elif k == "if":
            cur = states
            decl = []
            if n.get("init"):
                r = self.stmt(n["init"], cur, fr)
                o.absorb(r)
                cur = r.norm
            if n.get("cv"):
                nxt = []
                for s in cur:
                    nxt += self.declare(n["cv"], s, fr)
                cur = nxt
                decl.append(n["cv"])
            t, f = [], []
            for s in cur:
                for s2, truth in self.branch(n["c"], s, fr):
                    (t if truth else f).append(s2)
            self.flush(o, fr)
            ra = self.stmt(n["a"], dedupe(t), fr)
            o.absorb(ra, True)
            if n.get("b"):
                rb = self.stmt(n["b"], dedupe(f), fr)
                o.absorb(rb, True)
            else:
                o.norm += f
            o.norm = dedupe(o.norm)
        elif k in ("while", "do", "for", "rfor"):
            self.loop(n, states, fr, o)
        elif k == "return":
            for s in states:
                if n.get("e") is None:
                    o.ret.append((s, None))
                else:
                    for s2, v in self.ev(n["e"], s, fr):
                        s2, v = self.ret_value(s2, v, n["e"], fr)
                        o.ret.append((s2, v))
            self.flush(o, fr)
            o.ret = dedupe_sv(o.ret)
        elif k == "break":
            o.brk = list(states)
        elif k == "continue":
            o.cont = list(states)
        elif k == "switch":
            self.switch(n, states, fr, o)
        elif k == "case":
            return self.stmt(n["b"], states, fr)
        elif k == "try":
            r = self.stmt(n["b"], states, fr)
            o.absorb(r, True)
            thr, o.thr = o.thr, []
            for s, v in dedupe_sv(thr):
                handled = False
                for h in n["h"]:
                    m = self.catches(h, v, fr)
                    if m is False:
                        continue
                    s2 = s
                    if h.get("v"):
                        vp = self.varpath(fr, h["v"]["id"])
                        s2 = s.copy()
                        s2.env[vp] = v if v else ("u", self.site(h["b"], fr), "exc")
                    fr2 = fr
                    saved = getattr(self, "_exc", None)
                    self._exc = v
                    r = self.stmt(h["b"], [s2], fr2)
                    self._exc = saved
                    o.absorb(r, True)
                    if m is True:
                        handled = True
                        break
                if not handled:
                    o.thr.append((s, v))
            o.norm = dedupe(o.norm)
        elif k in ("null", "other"):
            o.norm = states
        elif k == "label":
            return self.stmt(n["b"], states, fr)
        else:
            self.notes.add("unsupported statement " + k)
            o.norm = states
        return o

    def catches(self, h, v, fr):
        """True: surely, False: surely not, None: maybe"""
        ct = h.get("ct")
        if ct is None:
            return True
        want = fr.fn.ty(ct).get("r")
        if v and v[0] == "exc":
            got = v[1]
            if got is None:
                return None
            if want in self.prog.superclasses(got) or want == got:
                return True
            if want is not None and want.split("<")[0] in self.prog.supers(got):
                return True
            return False
        return None

    def end_scope(self, o, vars_, fr):
        hk = self.hooks
        def f(s):
            s = hk.on_scope_end(self, s, vars_, fr)
            ps = [self.varpath(fr, v["id"])[0] for v in vars_]
            dead = [p for p in s.env if p[0] in ps]
            return s, dead
        def g(lst):
            out = []
            for s in lst:
                s, dead = f(s)
                if dead:
                    s = s.copy()
                    for p in dead:
                        del s.env[p]
                    s = gc(s)
                out.append(s)
            return out
        o.norm, o.brk, o.cont = g(o.norm), g(o.brk), g(o.cont)
        o.ret = [(f(s)[0], v) for s, v in o.ret]
        o.thr = [(f(s)[0], v) for s, v in o.thr]

    def flush(self, o, fr):
        """exceptions raised while evaluating expressions"""
        if fr.pending:
            o.thr += fr.pending
            fr.pending = []

    def switch(self, n, states, fr, o):
        body = n["b"]
        items = body["b"] if body["s"] == "block" else [body]
        flat = []
        def add_case(x, labels):
            while x and x["s"] == "case":
                labels.append("dflt" if x.get("dflt") else x.get("v"))
                x = x["b"]
            flat.append((labels, x))
        for x in items:
            if x["s"] == "case":
                add_case(x, [])
            else:
                flat.append(([], x))
        cond = []
        for s in states:
            cond += self.ev(n["c"], s, fr)
        self.flush(o, fr)
        labels = [l for ls, _ in flat for l in ls]
        for s, v in cond:
            starts = []
            for i, (ls, _) in enumerate(flat):
                for l in ls:
                    if l == "dflt":
                        continue
                    c = mkcmp("==", v, ("c", l))
                    s2 = s.assume(c, True)
                    if s2 is not None:
                        starts.append((i, s2))
            s3 = s
            for l in labels:
                if l != "dflt" and s3 is not None:
                    s3 = s3.assume(mkcmp("==", v, ("c", l)), False)
            if s3 is not None:
                di = [i for i, (ls, _) in enumerate(flat) if "dflt" in ls]
                if di:
                    starts.append((di[0], s3))
                else:
                    o.norm.append(s3)
            for i, s2 in starts:
                cur = [s2]
                for ls, x in flat[i:]:
                    if not cur:
                        break
                    r = self.stmt(x, cur, fr)
                    o.norm += r.brk
                    o.cont += r.cont
                    o.ret += r.ret
                    o.thr += r.thr
                    cur = dedupe(r.norm)
                o.norm += cur
        o.norm = dedupe(o.norm)

    # ------------------------------------------------------------- loops
    def loop(self, n, states, fr, o):
        self.stats["loops"] += 1
        k = n["s"]
        cur = states
        scope = []
        if k == "for" and n.get("init"):
            r = self.stmt(n["init"], cur, fr)
            o.absorb(r)
            cur = r.norm
            if n["init"]["s"] == "decl":
                scope += n["init"]["v"]
        loopid = self.site(n, fr)
        if k == "rfor":
            if n.get("init"):
                r = self.stmt(n["init"], cur, fr)
                cur = r.norm
            nxt = []
            ip = (("v", fr.depth, fr.fn.tu.name, ("rf", loopid)),)
            for s in cur:
                for s2, v in self.ev(n["range"], s, fr):
                    rp = v[1] if v[0] == "loc" else (("tmp", loopid),)
                    s2 = s2.copy()
                    s2.env[ip] = ("it", rp, ("c", 0))
                    nxt.append(s2)
            self.flush(o, fr)
            cur = nxt
        info = {"node": n, "fr": fr, "entry": list(cur), "back": [], "exit": [], "brk": [], "ret": [], "thr": [], "w": {}, "heads": [], "body_in": []}
        heads, seen, acc = [], set(), {}
        work = dedupe(cur)
        anchor = work[0] if work else None
        exits = []
        rounds = 0
        first = True
        while work:
            rounds += 1
            if rounds > 60:
                raise TooComplex("loop at %s does not stabilise" % fr.where(n))
            new = []
            for s in work:
                kx = s.key()
                if kx not in seen:
                    if len(seen) > 2 * SOFT2:
                        pk = part(s)
                        if pk in acc:
                            s = join(acc[pk], s)
                            kx = s.key()
                        acc[pk] = s
                        if kx in seen:
                            continue
                    seen.add(kx)
                    new.append(s)
            if not new:
                break
            if len(seen) > MAXSTATES * 2:
                raise TooComplex("too many loop states at %s" % fr.where(n))
            heads += new
            # condition
            body_in = []
            if k == "do":
                body_in = new
            else:
                for s in new:
                    for s2, truth in self.loop_cond(n, s, fr, loopid):
                        if truth:
                            body_in.append(s2)
                        else:
                            exits.append(s2)
                self.flush(o, fr)
            body_in = dedupe(body_in)
            if k == "rfor":
                bi = []
                for s in body_in:
                    bi += self.rfor_bind(n, s, fr, loopid)
                body_in = bi
            info["body_in"] += body_in
            r = self.stmt(n["b"], body_in, fr)
            exits_b = r.brk
            info["brk"] += r.brk
            info["ret"] += r.ret
            info["thr"] += r.thr
            o.ret += r.ret
            o.thr += r.thr
            nxt = dedupe(r.norm + r.cont)
            if k == "for" and n.get("inc"):
                nn = []
                for s in nxt:
                    for s2, v in self.ev(n["inc"], s, fr):
                        nn.append(s2)
                self.flush(o, fr)
                nxt = nn
            elif k == "rfor":
                ip = (("v", fr.depth, fr.fn.tu.name, ("rf", loopid)),)
                nn = []
                for s in nxt:
                    it = s.env.get(ip)
                    if it is None or it[0] != "it":
                        nn.append(s)
                        continue
                    s2 = s.copy()
                    s2.env[ip] = ("it", it[1], add(it[2], ("c", 1)))
                    nn.append(s2)
                nxt = nn
            elif k == "do":
                nn = []
                for s in nxt:
                    for s2, truth in self.branch(n["c"], s, fr):
                        (nn if truth else exits).append(s2)
                self.flush(o, fr)
                nxt = nn
            exits += exits_b
            if first:
                for x in r.brk:
                    pass
            back = dedupe(nxt)
            info["back"] += back
            work = [self.widen(anchor, s, loopid, info) for s in back]
            work = dedupe(work)
            first = False
        if State.counting:
            ex = []
            for s in exits:
                s = self.settle(s)
                s = s and solve(s, lambda x: x[0] == "w" and x[1] == loopid)
                if s is not None:
                    ex.append(s)
            exits = ex
        info["heads"] = heads
        info["exit"] = exits
        self.hooks.on_loop(self, info, fr)
        o.norm += dedupe(exits)
        if k == "rfor":
            scope.append(n["var"])
            scope.append({"id": ("rf", loopid)})
        if scope:
            self.end_scope(o, scope, fr)
        o.norm = dedupe(o.norm)

    def settle(self, s):
        """facts that leave one sign only, once all facts are taken together"""
        for f, sg in list(s.facts.items()):
            if f[0] == "sg" and len(sg) > 1:
                n = frozenset(x for x in sg if s.consistent(f[1], x))
                if not n:
                    return None
                if n != frozenset(sg):
                    s = s.copy()
                    s.facts[f] = tuple(sorted(n))
        return s

    def loop_cond(self, n, s, fr, loopid):
        if n["s"] == "rfor":
            ip = (("v", fr.depth, fr.fn.tu.name, ("rf", loopid)),)
            it = s.env.get(ip)
            if it is None or it[0] != "it":
                return [(s, True), (s, False)]
            size = s.read(it[1] + (("f", "#n"),))
            out = []
            c = mkcmp("<", it[2], size)
            a = s.assume(c, True)
            b = s.assume(c, False)
            if a is not None:
                out.append((a, True))
            if b is not None:
                out.append((b, False))
            return out
        if n.get("cv"):
            out = []
            for s2 in self.declare(n["cv"], s, fr):
                out += self.branch(n["c"], s2, fr)
            return out
        if n.get("c") is None:
            return [(s, True)]
        return self.branch(n["c"], s, fr)

    def rfor_bind(self, n, s, fr, loopid):
        ip = (("v", fr.depth, fr.fn.tu.name, ("rf", loopid)),)
        it = s.env.get(ip)
        v = n["var"]
        t = fr.fn.ty(v["t"])
        vp = self.varpath(fr, v["id"])
        if it is None or it[0] != "it":
            s2, sym = self.fresh(s, n, fr, "rf")
            s2 = s2.copy()
            s2.env[vp] = sym
            return [s2]
        ep = it[1] + (("e", it[2]),)
        s = s.copy()
        s.kill_under(vp)
        if t["sh"][:1] in ("r", "R"):
            s.env[vp] = ("loc", ep)
        elif t.get("r"):
            s = self.copyobj(s, vp, ep, n, fr)
        else:
            s.env[vp] = s.read(ep)
        s = self.hooks.on_decl(self, s, v, vp, fr)
        return [s]

    def widen(self, anchor, s, loopid, info):
        """back edge: values that changed since the loop was entered become loop symbols"""
        env0 = anchor.env
        chg = []
        for p, v in s.env.items():
            v0 = env0.get(p)
            if v0 == v:
                continue
            w = ("w", loopid, p)
            if v0 is None and p not in env0 and p[-1] != ("f", "#n"):
                # created inside the loop (locals were scoped away): keep unless numeric
                if not isnum(v):
                    if v[0] == "it":
                        pass
                    else:
                        continue
            if v[0] == "c" and (isinstance(v[1], bool) or v[1] is None or isinstance(v[1], str)):
                continue
            if v[0] in ("loc", "lam", "i", "u", "uo", "cmp", "not", "t"):
                if not mentions(v, lambda x: isinstance(x, tuple) and len(x) > 0 and x[0] in ("lin",)) and depth(v) < 9:
                    continue
            if v[0] == "it":
                if v0 is not None and v0[0] == "it" and v0[1] == v[1]:
                    if v[2] == ENDV or v0[2] == v[2]:
                        continue
                    chg.append((p, v, ("it", v[1], w), w))
                    continue
                if isinstance(v[2], tuple) and v[2] == ENDV:
                    continue
                chg.append((p, v, ("it", v[1], w), w))
                continue
            if v == w:
                continue
            chg.append((p, v, w, w))
        if not chg:
            return s
        m = {}
        for p, v, nv, w in chg:
            m[w] = ("wo",) + w[1:]
        # record the step of each widened variable relative to its symbol
        for p, v, nv, w in chg:
            cur = v[2] if v[0] == "it" else v
            info["w"].setdefault(w, {"path": p, "init": set(), "steps": set(), "it": v[0] == "it"})
            i0 = env0.get(p)
            if i0 is not None:
                info["w"][w]["init"].add(i0)
            info["w"][w]["steps"].add(cur)
        s2 = s.copy()
        changed = {p for p, _, _, _ in chg}
        for p in changed:
            del s2.env[p]
        olds = set(m.values())
        for f in [f for f in s2.facts if mentions(f, lambda x: x in olds)]:
            del s2.facts[f]
        s2 = s2.rename(m)
        for p, v, nv, w in chg:
            p2 = subst(p, m)
            s2.env[p2] = nv
        # what is known about the new value carries over to its symbol
        comps = set()
        for f in s.facts:
            if f[0] == "sg":
                for sym in lin(f[1])[1]:
                    if sym[0] in ("i", "u", "t"):
                        comps.add(sym)
        for p, v, nv, w in chg:
            cur = v[2] if v[0] == "it" else v
            if not (isnum(cur) or cur[0] in ("w", "i", "u", "t", "wo", "uo")):
                continue
            v0 = env0.get(p)
            cands = set(comps)
            if v0 is not None:
                cands.add(v0[2] if v0[0] == "it" else v0)
            cands.add(("c", 0))
            if State.counting:
                for f in s.facts:
                    if f[0] == "sg":
                        k, dd = lin(f[1])
                        rest = {x: y for x, y in dd.items() if not (x[0] == "w" and x[1] == loopid)}
                        if len(rest) in (2, 3) and all(x[0] in ("i", "u", "t") for x in rest):
                            for sgn in (1, -1):
                                cands.add(mklin(0, {x: sgn * y for x, y in rest.items()}))
            cands = sorted(cands, key=lambda x: (len(repr(x)), repr(x)))
            for a in cands:
                if a[0] == "c" and (isinstance(a[1], (str, bool)) or a[1] is None) or a[0] in ("loc", "lam", "it"):
                    continue
                sg = s.signs2(sub(cur, a))
                if sg != ALL:
                    d, fl = canon(sub(w, subst(a, m)))
                    if d[0] != "c":
                        sg = flip(sg) if fl else sg
                        if State.counting and s2.signs(d) <= sg:
                            continue
                        s2.facts[("sg", d)] = tuple(sorted(sg))
        if State.counting:
            num = []
            for p, v, nv, w in chg:
                cur = v[2] if v[0] == "it" else v
                v0 = anchor.read(p) if p[-1] == ("f", "#n") else env0.get(p)
                if v0 is None:
                    continue
                v0 = v0[2] if v0[0] == "it" else v0
                if all(isnum(x) or x[0] in ("w", "i", "u", "t", "wo", "uo") for x in (cur, v0)):
                    num.append((w, cur, v0))
            for i, (w, cur, v0) in enumerate(num):
                for w2, cur2, v02 in num[:i]:
                    for k in (1, -1):
                        if s.signs2(sub(sub(cur, v0), mulc(sub(cur2, v02), k))) == frozenset("0"):
                            d, fl = canon(sub(sub(w, subst(v0, m)), mulc(sub(w2, subst(v02, m)), k)))
                            if d[0] != "c":
                                s2.facts[("sg", d)] = ("0",)
        return s2

    # ------------------------------------------------------------- declarations
    def declare(self, v, s, fr):
        t = fr.fn.ty(v["t"])
        vp = self.varpath(fr, v["id"])
        out = []
        if v.get("static"):
            # static local: initialised once, value unknown afterwards
            s = s.copy()
            s.env.setdefault(vp, ("i", (("static", fr.fn.usr, v["id"]),)))
            return [s]
        e = v.get("init")
        if e is None:
            s = s.copy()
            s.kill_under(vp)
            s.env[vp] = ("u", ("noinit", self.site(v, fr)), "")
            return [self.hooks.on_decl(self, s, v, vp, fr)]
        if v.get("bind"):
            for s2, val in self.ev(e, s, fr):
                s2 = s2.copy()
                s2.env[vp] = val
                out.append(s2)
            return out
        if e.get("k") == "ctor" and not t["sh"]:
            for s2 in self.construct(e, s, fr, vp):
                out.append(self.hooks.on_decl(self, s2, v, vp, fr))
            return out
        for s2, val in self.ev(e, s, fr):
            s3 = self.init_path(s2, vp, val, t, e, fr)
            out.append(self.hooks.on_decl(self, s3, v, vp, fr))
        return out

    def init_path(self, s, path, val, t, e, fr):
        if t is not None and t["sh"][:1] in ("r", "R"):
            s = s.copy()
            s.kill_under(path)
            s.env[path] = val
            return s
        if t is not None and t.get("r") and not t["sh"]:
            if val[0] == "loc":
                if val[1] == path:
                    return s
                return self.copyobj(s, path, val[1], e, fr)
            s = s.copy()
            s.kill_under(path)
            s.env[path] = val
            return s
        s = s.copy()
        s.kill_under(path)
        s.env[path] = self.rv(s, val)
        return s

    def rv(self, s, v):
        return v

    def ret_value(self, s, v, e, fr):
        """value leaving a function: class prvalues stay as locations"""
        return s, v

    # ------------------------------------------------------------- branching
    def branch(self, e, s, fr):
        """[(state, bool)]"""
        k = e["k"]
        if k == "bin" and e["op"] == "&&":
            out = []
            for s2, t in self.branch(e["a"], s, fr):
                if t:
                    out += self.branch(e["b"], s2, fr)
                else:
                    out.append((s2, False))
            return out
        if k == "bin" and e["op"] == "||":
            out = []
            for s2, t in self.branch(e["a"], s, fr):
                if t:
                    out.append((s2, True))
                else:
                    out += self.branch(e["b"], s2, fr)
            return out
        if k == "un" and e["op"] == "!":
            return [(s2, not t) for s2, t in self.branch(e["e"], s, fr)]
        out = []
        for s2, v in self.ev(e, s, fr):
            v = self.truth(v)
            for truth in (True, False):
                s3 = s2.assume(v, truth)
                if s3 is not None:
                    out.append((self.hooks.on_branch(self, s3, v, truth, e, fr), truth))
        return out

    def truth(self, v):
        if v[0] == "c":
            return ("c", bool(v[1]) if v[1] is not None else False)
        if v[0] == "lin":
            return mkcmp("!=", v, ("c", 0))
        if v[0] == "loc":
            if v[1][0][0] != "d":
                return TRUE
        return v

    # ------------------------------------------------------------- expressions
    def evs(self, es, s, fr):
        """evaluate a list of expressions left to right: [(state, [values])]"""
        cur = [(s, [])]
        for e in es:
            nxt = []
            for s2, vs in cur:
                for s3, v in self.ev(e, s2, fr):
                    nxt.append((s3, vs + [v]))
            cur = nxt
        return cur

    def ev(self, e, s, fr):
        if e is None:
            return [(s, NULL)]
        self.steps += 1
        if self.steps > self.maxsteps:
            raise TooComplex("step bound")
        k = e["k"]
        f = getattr(self, "x_" + k, None)
        if f is None:
            self.notes.add("unsupported expression " + k)
            s2, v = self.fresh(s, e, fr)
            return [(s2, v)]
        return f(e, s, fr)

    def x_lit(self, e, s, fr):
        if e.get("str"):
            return [(s, ("c", "S:" + str(e["v"])))]
        return [(s, ("c", e["v"]))]

    def x_zero(self, e, s, fr):
        t = fr.fn.ty(e["t"])
        if t.get("b") == "bool" and not t["sh"]:
            return [(s, FALSE)]
        if t["sh"] == "p":
            return [(s, NULL)]
        return [(s, ("c", 0))]

    def x_this(self, e, s, fr):
        return [(s, ("loc", fr.this))]

    def x_opaque(self, e, s, fr):
        s2, v = self.fresh(s, e, fr)
        return [(s2, v)]

    x_other = x_opaque
    x_typeid = x_opaque

    def x_load(self, e, s, fr):
        out = []
        for s2, v in self.ev(e["e"], s, fr):
            if v[0] == "loc":
                self.hooks.on_read(self, s2, v[1], e, fr)
                out.append((s2, s2.read(v[1])))
            else:
                out.append((s2, v))
        return out

    def x_tobool(self, e, s, fr):
        if State.counting:
            return [(s2, mkcmp("!=", v, ("c", 0)) if v[0] in ("t", "i", "u", "w", "lin") and fr.fn.ty(e["e"]["t"]).get("b") in ("int", "uint")
                     else self.truth(v) if v[0] != "it" else v) for s2, v in self.ev(e["e"], s, fr)]
        return [(s2, self.truth(v) if v[0] != "it" else v) for s2, v in self.ev(e["e"], s, fr)]

    def x_conv(self, e, s, fr):
        out = []
        for s2, v in self.ev(e["e"], s, fr):
            if e["ck"] == "FloatingToIntegral":
                if v[0] == "c" and isinstance(v[1], (int, float)) and not isinstance(v[1], bool):
                    v = ("c", int(v[1]))
                elif not integral(v):
                    v = ("t", "int", v)
                if State.counting and v[0] == "t" and fr.fn.ty(e["t"]).get("b") == "uint":
                    s2 = s2.assume(mkcmp(">=", v, ("c", 0)), True) or s2
            elif v[0] == "c" and isinstance(v[1], bool):
                v = ("c", int(v[1]))
            out.append((s2, v))
        return out

    def x_decay(self, e, s, fr):
        return [(s2, ("loc", v[1] + (("e", ("c", 0)),)) if v[0] == "loc" else v) for s2, v in self.ev(e["e"], s, fr)]

    def x_tovoid(self, e, s, fr):
        return self.ev(e["e"], s, fr)

    def x_temp(self, e, s, fr):
        out = []
        for s2, v in self.ev(e["e"], s, fr):
            if v[0] == "loc" and fr.fn.ty(e["e"]["t"]).get("r") and not fr.fn.ty(e["e"]["t"])["sh"]:
                out.append((s2, v))
            else:
                p = (("tmp", self.site(e, fr)),)
                s2 = s2.copy()
                s2.kill_under(p)
                s2.env[p] = v
                out.append((s2, ("loc", p)))
        return out

    def x_ref(self, e, s, fr):
        dk = e["dk"]
        if dk == "fn":
            return [(s, ("fn", e["f"], e["n"]))]
        if dk == "enum":
            return [(s, ("c", e["v"]))]
        if dk == "global":
            if "cv" in e:
                p = (("glob", e["n"]),)
                s2 = s
                if p not in s.env:
                    s2 = s.copy()
                    s2.env[p] = ("c", e["cv"])
                return [(s2, ("loc", p))]
            p = (("glob", e["n"]),)
            t = fr.fn.ty(e["t"])
            return [(s, ("loc", p))]
        if dk in ("local", "param", "slocal"):
            p = self.find_var(s, fr, e["d"])
            # a variable of reference type holds the location it is bound to
            v = s.env.get(p)
            if v is not None and v[0] == "loc" and self.is_ref_var(e, fr):
                return [(s, v)]
            if v is not None and self.is_ref_var(e, fr):
                return [(s, self.deref(v))]
            return [(s, ("loc", p))]
        s2, v = self.fresh(s, e, fr)
        return [(s2, v)]

    def is_ref_var(self, e, fr):
        """declared with reference type?  (expression types have references stripped)"""
        t = vartype(fr.fn.tu, e["d"])
        return t is not None and t["sh"][:1] in ("r", "R")

    def deref(self, v):
        if v[0] == "loc":
            return v
        if v[0] == "it":
            return ("loc", v[1] + (("e", v[2]),))
        return ("loc", (("d", v),))

    def x_mem(self, e, s, fr):
        out = []
        for s2, b in self.ev(e["b"], s, fr):
            b = self.deref(b)
            p = b[1] + (("f", e["f"]),)
            ft = self.field_type_by(e["fc"], e["f"])
            if ft is not None and ft["sh"][:1] in ("r", "R"):
                v = s2.read(p)
                out.append((s2, self.deref(v)))
            else:
                out.append((s2, ("loc", p)))
        return out

    def field_type_by(self, cls, f):
        key = (cls, f)
        if key in _ftab:
            return _ftab[key]
        c = self.prog.classes.get(cls)
        r = None
        if c:
            for x in c.get("fields", []):
                if x["n"] == f:
                    r = c["tu"].types[x["t"]]
        _ftab[key] = r
        return r

    def x_memfn(self, e, s, fr):
        return [(s2, ("fn", e["f"], e["n"])) for s2, b in self.ev(e["b"], s, fr)]

    def x_idx(self, e, s, fr):
        out = []
        for s2, (b, i) in self.evs([e["b"], e["i"]], s, fr):
            b = self.deref(b)
            p = b[1]
            if p and p[-1][0] == "e":
                p = p[:-1] + (("e", add(p[-1][1], i)),)
            else:
                p = p + (("e", i),)
            out.append((s2, ("loc", p)))
        return out

    def x_bin(self, e, s, fr):
        op = e["op"]
        if op in ("&&", "||"):
            return [(s2, ("c", t)) for s2, t in self.branch(e, s, fr)]
        if op == ",":
            return [(s2, vs[1]) for s2, vs in self.evs([e["a"], e["b"]], s, fr)]
        out = []
        for s2, (a, b) in self.evs([e["a"], e["b"]], s, fr):
            if State.counting and op in ("-", "<", ">=") and self.unsigned(e["a"], fr) and self.unsigned(e["b"], fr):
                if op != "-" and b == ("c", 0):
                    out.append((s2, ("c", op == ">=")))
                    continue
                if op == "-" and all(isnum(x) or x[0] in ("w", "i", "u", "t", "wo", "uo") for x in (a, b)):
                    d = mkcmp(">=", a, b)
                    yes, no = s2.assume(d, True), s2.assume(d, False)
                    if yes is not None:
                        out.append((yes, sub(a, b)))
                    if no is not None:
                        no, u = self.fresh(no, e, fr, "wrap")
                        no = no.assume(mkcmp(">", u, ("c", 1 << 16)), True)
                        out.append((no, u))
                    continue
            out.append((s2, self.binop(op, a, b, fr.fn.ty(e["t"]))))
        return out

    def unsigned(self, e, fr):
        return "t" in e and fr.fn.ty(e["t"]).get("b") == "uint"

    def binop(self, op, a, b, t=None):
        if op in OPS:
            if a[0] == "loc" and b[0] == "loc" or a == NULL or b == NULL:
                if op in ("==", "!="):
                    if a == b:
                        return ("c", op == "==")
                    for x, y in ((a, b), (b, a)):
                        if x == NULL and y[0] == "loc" and y[1][0][0] not in ("d", "arg"):
                            return ("c", op == "!=")
                        if x == NULL and y[0] == "loc":
                            v = ("t", "isnull", y)
                            return v if op == "==" else neg(v)
                        if x == NULL and y[0] != "c":
                            v = ("t", "isnull", y)
                            return v if op == "==" else neg(v)
                    v = ("t", "ptreq") + tuple(sorted((a, b), key=repr))
                    return v if op == "==" else neg(v)
            return mkcmp(op, a, b)
        if op == "+":
            if a[0] == "loc" or b[0] == "loc":
                p, i = (a, b) if a[0] == "loc" else (b, a)
                pp = p[1]
                if pp[-1][0] == "e":
                    return ("loc", pp[:-1] + (("e", add(pp[-1][1], i)),))
                return ("loc", pp + (("e", i),))
            if a[0] == "c" and isinstance(a[1], str) or b[0] == "c" and isinstance(b[1], str):
                return ("t", "+", a, b)
            return add(a, b)
        if op == "-":
            if a[0] == "loc" and b[0] == "loc":
                if a[1][:-1] == b[1][:-1] and a[1][-1][0] == "e" and b[1][-1][0] == "e":
                    return sub(a[1][-1][1], b[1][-1][1])
                return ("t", "-", a, b)
            if a[0] == "loc":
                return self.binop("+", a, mulc(b, -1))
            return sub(a, b)
        if a[0] == "c" and b[0] == "c" and isinstance(a[1], (int, float)) and isinstance(b[1], (int, float)):
            x, y = a[1], b[1]
            try:
                if op == "*":
                    return ("c", x * y)
                if op == "/":
                    return ("c", x // y if isinstance(x, int) and isinstance(y, int) else x / y)
                if op == "%":
                    return ("c", x % y)
                if op == "&":
                    return ("c", x & y)
                if op == "|":
                    return ("c", x | y)
                if op == "^":
                    return ("c", x ^ y)
                if op == "<<":
                    return ("c", x << y)
                if op == ">>":
                    return ("c", x >> y)
            except Exception:
                pass
        if op == "%" and b == ("c", 1):
            return ("c", 0)
        if op == "*":
            if a[0] == "c" and isinstance(a[1], (int, float)):
                return mulc(b, a[1])
            if b[0] == "c" and isinstance(b[1], (int, float)):
                return mulc(a, b[1])
            return ("t", "*") + tuple(sorted((a, b), key=repr))
        if op in ("|", "&") and (isbool(a) or isbool(b)):
            x, y = sorted((a, b), key=lambda v: 0 if v[0] == "c" else 1)
            if x[0] == "c":
                if op == "|":
                    return ("c", True) if x[1] else y
                return y if x[1] else ("c", False)
        return ("t", op, a, b)

    def x_un(self, e, s, fr):
        op = e["op"]
        if op == "!":
            return [(s2, neg(self.truth(v))) for s2, v in self.ev(e["e"], s, fr)]
        out = []
        for s2, v in self.ev(e["e"], s, fr):
            if op == "*":
                out.append((s2, self.deref(v)))
            elif op == "&":
                if v[0] == "fn":
                    out.append((s2, v))
                    continue
                out.append((s2, v))
            elif op == "-":
                out.append((s2, mulc(v, -1) if v[0] not in ("loc",) else ("t", "-", v)))
            elif op == "+":
                out.append((s2, v))
            elif op == "~":
                out.append((s2, ("t", "~", v)))
            elif op[:2] in ("++", "--"):
                if v[0] != "loc":
                    s3, u = self.fresh(s2, e, fr)
                    out.append((s3, u))
                    continue
                p = v[1]
                old = s2.read(p)
                d = 1 if op[:2] == "++" else -1
                if old[0] == "loc":
                    new = self.binop("+", old, ("c", d))
                elif old[0] == "it":
                    new = ("it", old[1], add(old[2], ("c", d)))
                else:
                    new = add(old, ("c", d))
                s3 = self.store(s2, p, new, e, fr)
                out.append((s3, v if op.endswith("pre") else old))
            else:
                s3, u = self.fresh(s2, e, fr)
                out.append((s3, u))
        return out

    def store(self, s, path, v, node, fr):
        s = self.hooks.on_write(self, s, path, v, node, fr)
        if s is None:
            return State()
        return s.write(path, v)

    def x_asg(self, e, s, fr):
        out = []
        op = e["op"]
        for s2, (b, a) in self.evs([e["b"], e["a"]], s, fr):
            if a[0] != "loc":
                out.append((s2, a))
                continue
            at = fr.fn.ty(e["a"]["t"])
            isb = at.get("b") == "bool" and not at["sh"].strip("rR")
            if op == "=":
                v = b
            elif isb:
                v = self.truth(self.binop(op[:-1], asbool(s2.read(a[1])), asbool(b)))
            else:
                v = self.binop(op[:-1], s2.read(a[1]), b)
            out.append((self.store(s2, a[1], v, e, fr), a))
        return out

    def x_cond(self, e, s, fr):
        out = []
        for s2, t in self.branch(e["c"], s, fr):
            out += self.ev(e["a"] if t else e["b"], s2, fr)
        return out

    def x_cast(self, e, s, fr):
        out = []
        t = fr.fn.ty(e["t"])
        for s2, v in self.ev(e["e"], s, fr):
            if e["how"] == "dynamic" and t["sh"] == "p":
                out.append((s2, v))
                s3, u = self.fresh(s2, e, fr, "dc")
                s3 = s3
                out.append((s3, NULL))
                continue
            if e.get("ck") == "FloatingToIntegral":
                if v[0] == "c" and isinstance(v[1], (int, float)):
                    v = ("c", int(v[1]))
                elif not integral(v):
                    v = ("t", "int", v)
            elif t.get("b") == "bool" and not t["sh"]:
                v = self.truth(v)
            elif v[0] == "c" and isinstance(v[1], bool) and t.get("b") in ("int", "uint", "float"):
                v = ("c", int(v[1]))
            out.append((s2, v))
        return out

    def x_list(self, e, s, fr):
        t = fr.fn.ty(e["t"])
        p = (("tmp", self.site(e, fr)),)
        out = []
        if not t.get("r") and not t["sh"]:
            if not e["a"]:
                return [(s, FALSE if t.get("b") == "bool" else ("c", 0))]
            return self.ev(e["a"][0], s, fr)
        for s2, vs in self.evs(e["a"], s, fr):
            s2 = s2.copy()
            s2.kill_under(p)
            for i, v in enumerate(vs):
                s2.env[p + (("e", ("c", i)),)] = v
            s2.env[p + (("f", "#n"),)] = ("c", len(vs))
            out.append((s2, ("loc", p)))
        return out

    def x_lambda(self, e, s, fr):
        return [(s, ("lam", e["f"], fr.depth, fr.fn.tu.name, fr.this, fr.thiscls))]

    def x_throw(self, e, s, fr):
        if e.get("e") is None:
            s2 = self.hooks.on_throw(self, s, e, fr)
            fr.pending.append((s2, getattr(self, "_exc", None)))
            return []
        t = fr.fn.ty(e["e"]["t"])
        for s2, v in self.ev(e["e"], s, fr):
            s2 = self.hooks.on_throw(self, s2, e, fr)
            fr.pending.append((s2, ("exc", t.get("r") or t["s"])))
        return []

    def x_del(self, e, s, fr):
        out = []
        for s2, v in self.ev(e["e"], s, fr):
            c = Call()
            c.node, c.n, c.m, c.cls, c.obj, c.objval, c.args, c.fr, c.op, c.ot, c.virt, c.exact, c.site, c.fnref = \
                e, "operator delete", "delete", None, None, None, [v], fr, None, None, False, False, self.site(e, fr), None
            r = self.hooks.on_call(self, s2, c)
            if r is not None:
                out += r
            else:
                out.append((s2, NULL))
        return out

    def x_new(self, e, s, fr):
        p = (("heap", self.site(e, fr)),)
        out = []
        ini = e.get("init")
        states = [s]
        if e.get("arr") and isinstance(e["arr"], dict):
            states = []
            for s2, v in self.ev(e["arr"], s, fr):
                s2 = s2.copy()
                s2.kill_under(p)
                s2.env[p + (("f", "#n"),)] = v
                states.append(s2)
            return [(s2, ("loc", p + (("e", ("c", 0)),))) for s2 in states]
        for s2 in states:
            if ini is not None and ini.get("k") == "ctor":
                for s3 in self.construct(ini, s2, fr, p):
                    out.append((s3, ("loc", p)))
            elif ini is not None:
                for s3, v in self.ev(ini, s2, fr):
                    s3 = s3.copy()
                    s3.kill_under(p)
                    s3.env[p] = v
                    out.append((s3, ("loc", p)))
            else:
                s3 = s2.copy()
                s3.kill_under(p)
                s3.env[p] = ("u", ("noinit", self.site(e, fr)), "")
                out.append((s3, ("loc", p)))
        c = Call()
        c.node, c.n, c.m, c.cls, c.obj, c.objval, c.args, c.fr, c.op, c.ot, c.virt, c.exact, c.site, c.fnref = \
            e, "operator new", "new", None, p, None, [], fr, None, None, False, False, self.site(e, fr), None
        res = []
        for s3, v in out:
            r = self.hooks.on_call(self, s3, c)
            res += r if r is not None else [(s3, v)]
        return res

    # ------------------------------------------------------------- construction
    def x_ctor(self, e, s, fr):
        p = (("tmp", self.site(e, fr)),)
        return [(s2, ("loc", p)) for s2 in self.construct(e, s, fr, p)]

    def construct(self, e, s, fr, path, base=False):
        """run the constructor call e for an object at path -> [state]"""
        cls = e.get("c")
        n = e["n"]
        out = []
        for s2, vs in self.evs(e["a"], s, fr):
            c = self.mkcall(e, fr, path, vs)
            s2 = self.hooks.on_construct(self, s2, e, path, fr)
            r = self.hooks.on_call(self, s2, c)
            if r is not None:
                out += [x for x, _ in r]
                continue
            r = self.std_ctor(e, s2, fr, path, vs, c, base)
            if r is not None:
                out += r
                continue
            fn = self.lookup(e["f"], fr)
            if (e.get("cp") or e.get("mv")) and vs and (fn is None or fn.implicit or self.memberwise_copy(fn)):
                src = vs[0]
                src = self.deref(src)
                out.append(self.copybase(s2, path, src[1], e, fr) if base else self.copyobj(s2, path, src[1], e, fr))
                continue
            if fn is not None and fn.body is not None and self.can_inline(fn, c):
                if not base:
                    s2 = s2.copy()
                    s2.kill_under(path)
                res = self.inline_call(fn, s2, c, path, (fr.thiscls if base else cls), vs, fr, e)
                out += [x for x, _ in res]
                continue
            if not base:
                s2, u = self.fresh(s2, e, fr, "obj")
                s2 = s2.copy()
                s2.kill_under(path)
                s2.env[path] = u
            s2 = self.havoc_args(s2, e, vs, fr)
            out.append(s2)
        return out

    def memberwise_copy(self, fn):
        return fn.node.get("defaulted") or fn.node.get("implicit")

    def std_ctor(self, e, s, fr, path, vs, c, base=False):
        n = e["n"]
        if not n.startswith(("std::", "__gnu_cxx::__normal_iterator")):
            return None
        cl = n.split("::")[1]
        if cl in ("vector", "list", "deque", "basic_string", "set", "map", "multiset", "queue", "valarray"):
            szp = path + (("f", "#n"),)
            s2 = s.copy()
            if e.get("cp") or e.get("mv"):
                src = self.deref(vs[0])
                return [self.copybase(s, path, src[1], e, fr) if base else self.copyobj(s, path, src[1], e, fr)]
            if base:
                for p in [p for p in s2.env if len(p) > len(path) and p[:len(path)] == path and (p[len(path)][0] == "e" or p[len(path)][1] in ("#n", "#g"))]:
                    del s2.env[p]
            else:
                s2.kill_under(path)
            real = [v for v, a in zip(vs, e["a"]) if not self.is_alloc(a, fr)]
            if not real:
                s2.env[szp] = ("c", 0)
                return [s2]
            a0 = real[0]
            pt = [fr.fn.ty(t) for t in e.get("pt", [])]
            if cl in ("vector", "list", "deque", "valarray") and pt and not pt[0].get("r") and pt[0]["sh"] == "" and pt[0].get("b") in ("uint", "int"):
                s2.env[szp] = a0
                if len(real) > 1:
                    v = real[1]
                    if v[0] == "loc":
                        v = s2.read(v[1])
                    s2.env[path + (("f", "#g"),)] = ("t", "fill", v)
                else:
                    s2.env[path + (("f", "#g"),)] = ("t", "fill", ("c", 0))
                return [s2]
            its = [self.itval(s2, v) for v in real[:2]]
            if len(its) == 2 and its[0] and its[1] and its[0][0] == "it" and its[1][0] == "it" and its[0][1] == its[1][1]:
                s2.env[szp] = sub(self.itidx(s2, its[1]), self.itidx(s2, its[0]))
                s2.env[path + (("f", "#g"),)] = ("t", "from", its[0][1])
                return [s2]
            s2, u = self.fresh(s2, e, fr, "obj")
            s2 = s2.copy()
            if base:
                s2.env[szp] = u
            else:
                s2.env[path] = u
            return [s2]
        if "iterator" in n and len(vs) == 1 and (e.get("cp") or e.get("mv") or True):
            v = vs[0]
            v2 = s.read(v[1]) if v[0] == "loc" else v
            s2 = s.copy()
            s2.kill_under(path)
            s2.env[path] = v2
            return [s2]
        if cl in ("move_iterator", "reverse_iterator", "back_insert_iterator"):
            s2 = s.copy()
            s2.kill_under(path)
            s2.env[path] = vs[0] if vs else NULL
            return [s2]
        return None

    def is_alloc(self, a, fr):
        t = fr.fn.ty(a["t"])
        return "allocator" in t["s"].split("<")[0] or a.get("dflt", False)

    # ------------------------------------------------------------- calls
    def lookup(self, usr, fr):
        return fr.fn.tu.fns.get(usr) or self.prog.fns.get(usr)

    def can_inline(self, fn, c):
        if fn.body is None or fn.n.startswith("gp_parse_tree::"):
            return False
        if len(self.active) >= self.maxdepth:
            self.notes.add("depth bound reached at " + fn.n)
            return False
        if fn.usr in self.active:
            return False
        return self.hooks.inline(self, fn, c)

    def mkcall(self, e, fr, obj, vs):
        c = Call()
        c.node, c.n, c.m, c.cls = e, e.get("n"), e.get("m"), e.get("c")
        c.obj, c.objval, c.args, c.fr = obj, None, vs, fr
        c.op, c.virt = e.get("op"), e.get("virt", False) and not e.get("qual")
        c.ot = fr.fn.ty(e["ot"]) if "ot" in e else None
        c.exact = False
        c.site = self.site(e, fr)
        c.fnref = e.get("f")
        return c

    def x_call(self, e, s, fr):
        self.stats["calls"] += 1
        out = []
        if "fe" in e:
            # indirect call: function pointer, member pointer
            for s2, vs in self.evs([e["fe"]] + e["a"], s, fr):
                f = vs[0]
                if f[0] == "lam":
                    out += self.call_lambda(f, s2, vs[1:], fr, e)
                    continue
                if f[0] == "loc":
                    f = s2.read(f[1])
                if f[0] == "fn":
                    fn = self.lookup(f[1], fr)
                    c = self.mkcall(e, fr, None, vs[1:])
                    c.n, c.fnref = f[2], f[1]
                    r = self.hooks.on_call(self, s2, c)
                    if r is not None:
                        out += r
                        continue
                    if fn is not None and self.can_inline(fn, c):
                        out += self.inline_call(fn, s2, c, None, None, vs[1:], fr, e)
                        continue
                c = self.mkcall(e, fr, None, vs[1:])
                c.n = c.n or "(indirect)"
                c.objval = f
                r = self.hooks.on_call(self, s2, c)
                if r is None:
                    r = self.opaque_call(e, s2, c, fr)
                out += r
            return out
        objs = [e["obj"]] if e.get("obj") is not None else []
        # the object expression is evaluated first
        for s2, vs in self.evs(objs + e["a"], s, fr):
            if objs:
                ov, args = vs[0], vs[1:]
            else:
                ov, args = None, vs
            out += self.do_call(e, s2, fr, ov, args)
        return dedupe_sv(out) if len(out) > 40 else out

    def do_call(self, e, s, fr, ov, args):
        obj = None
        if ov is not None:
            if ov[0] == "lam" and e.get("op") == "()":
                return self.call_lambda(ov, s, args, fr, e)
            if ov[0] == "loc":
                cur = s.env.get(ov[1])
                if cur is not None and cur[0] == "lam" and e.get("op") == "()":
                    return self.call_lambda(cur, s, args, fr, e)
            o2 = self.deref(ov) if ov[0] != "loc" else ov
            if e.get("ar") and ov[0] == "loc":
                o2 = ov
            obj = o2[1]
            if ov[0] == "it":
                obj = None
        c = self.mkcall(e, fr, obj, args)
        c.objval = ov
        cls = c.cls
        # dynamic class, when known
        if c.virt and obj is not None:
            dyn = self.dynamic_class(e, s, fr, obj)
            if dyn:
                c.exact = True
                c.cls = dyn
        r = self.hooks.on_call(self, s, c)
        if r is not None:
            return r
        n = e["n"]
        if (n.startswith("eoRng::") and self.leaf_rng) or n in QUIET or n.startswith(("eoLogger::", "eo::log")):
            r = self.repo_model(e, s, fr, c, n)
            if r is not None:
                return r
        if n.startswith("std::") or n.startswith("__gnu_cxx::") or "::" not in n or n.startswith("operator"):
            r = self.std_call(e, s, fr, c)
            if r is not None:
                return r
        fn = None
        if c.virt:
            if c.exact:
                fn, m = self.prog.final_overrider(c.cls, e["f"], e.get("m"), len(e["a"]))
                if fn is not None:
                    fn = fr.fn.tu.fns.get(fn.usr) or fn
            else:
                fn = None
        else:
            fn = self.lookup(e["f"], fr)
        if fn is not None and (fn.implicit or fn.body is None) and e.get("op") == "=" and args:
            src = self.deref(args[0])
            s2 = self.hooks.on_write(self, s, obj, s.whole(src[1]), e, fr)
            return [(self.copyobj(s2, obj, src[1], e, fr), ("loc", obj))]
        if fn is None and e.get("op") == "=" and obj is not None and e.get("m") == "operator=" and args and args[0][0] == "loc":
            s2 = self.hooks.on_write(self, s, obj, s.whole(args[0][1]), e, fr)
            return [(self.copyobj(s2, obj, args[0][1], e, fr), ("loc", obj))]
        if fn is not None and fn.body is not None and self.can_inline(fn, c):
            thiscls = c.cls if c.exact else self.obj_class(e, s, fr, obj, fn)
            return self.inline_call(fn, s, c, obj, thiscls, args, fr, e)
        return self.opaque_call(e, s, c, fr)

    def repo_model(self, e, s, fr, c, n):
        """the random generator and the logger are leaf services"""
        if n.startswith("eoRng::"):
            m = e.get("m")
            if m == "flip":
                s, u = self.fresh(s, e, fr, "rng")
                return [(s, u)]
            if m in ("random", "uniform", "normal", "negexp", "rand", "lognormal", "rand_init"):
                s, u = self.fresh(s, e, fr, "rng")
                if m == "random" and c.args:
                    s = s.copy()
                    s.facts[("sg", u)] = ("+", "0")
                    t = mkcmp("<", u, c.args[0])
                    if t[0] == "cmp":
                        s = s.assume(t, True) or s
                return [(s, u)]
            if m in ("roulette_wheel",):
                s, u = self.fresh(s, e, fr, "rng")
                if c.args and c.args[0][0] == "loc":
                    sz = s.read(c.args[0][1] + (("f", "#n"),))
                    s = s.copy()
                    s.facts[("sg", u)] = ("+", "0")
                    t = mkcmp("<", u, sz)
                    if t[0] == "cmp":
                        s = s.assume(t, True) or s
                return [(s, u)]
            if m == "choice" and c.args and c.args[0][0] == "loc":
                s, u = self.fresh(s, e, fr, "rng")
                return [(s, ("loc", c.args[0][1] + (("e", u),)))]
            return None
        t = fr.fn.ty(e.get("rt", e.get("t")))
        if c.objval is not None and t["sh"][:1] == "r":
            return [(s, ("loc", c.obj) if c.obj is not None else c.objval)]
        if c.args and t["sh"][:1] == "r":
            return [(s, c.args[0])]
        s, u = self.fresh(s, e, fr)
        return [(s, u)]

    def obj_class(self, e, s, fr, obj, fn):
        if obj == fr.this:
            return fr.thiscls
        return fn.cls

    def dynamic_class(self, e, s, fr, obj):
        if obj == fr.this and fr.thiscls:
            return fr.thiscls
        o = e.get("obj")
        while o is not None and o.get("k") in ("cast",) and o.get("ck") in ("NoOp", "DerivedToBase", "UncheckedDerivedToBase"):
            o = o["e"]
        t = fr.fn.ty(e["ot"]) if "ot" in e else None
        if t is None or not t.get("r"):
            return None
        if self.prog.supers(t["r"]) & VALUE_CLASSES:
            # individuals, populations and neighbours are values named by template arguments
            return t["r"]
        if o is not None and o.get("k") == "mem":
            ft = self.field_type_by(o["fc"], o["f"])
            if ft is not None and ft["sh"] == "" and ft.get("r"):
                return ft["r"]
            return None
        if o is not None and o.get("k") == "ref" and o.get("dk") in ("local", "param"):
            if not self.is_ref_var(o, fr) and fr.fn.ty(o["t"])["sh"] == "":
                return t["r"]
            return None
        if o is not None and o.get("k") in ("ctor", "temp"):
            return t["r"]
        if o is not None and o.get("k") == "call" and o.get("m") in ("operator[]", "at", "front", "back") and "ot" in o:
            r = fr.fn.ty(o["ot"]).get("r") or ""
            if r.startswith(("std::vector<" + t["r"] + ",", "std::deque<" + t["r"] + ",", "std::vector<" + t["r"] + ">")):
                return t["r"]       # elements held by value
        return None

    def bind_params(self, fn, s, args, fr2, fr, e):
        s = s.copy()
        for i, p in enumerate(fn.params):
            vp = self.varpath(fr2, p["id"])
            s.kill_under(vp)
            if i >= len(args):
                s.env[vp] = ("u", ("missing", i), "")
                continue
            t = fn.ty(p["t"])
            v = args[i]
            if t["sh"][:1] in ("r", "R"):
                if v[0] != "loc":
                    tp = (("tmp", (fr2.depth, "arg", i)),)
                    s.kill_under(tp)
                    s.env[tp] = v
                    v = ("loc", tp)
                s.env[vp] = v
            elif t.get("r") and not t["sh"] and v[0] == "loc":
                s = self.copyobj(s, vp, v[1], e, fr)
            else:
                s.env[vp] = v
        return s

    def inline_call(self, fn, s, c, obj, thiscls, args, fr, e):
        depth = fr.depth + 1
        fr2 = Frame(fn, depth, obj if obj is not None else (("nothis",),), thiscls or fn.cls, parent=fr, callnode=e)
        # purge a previous activation at this depth
        dead = [p for p in s.env if p[0][0] == "v" and p[0][1] >= depth]
        if dead:
            s = s.copy()
            for p in dead:
                del s.env[p]
        s = self.bind_params(fn, s, args, fr2, fr, e)
        self.active.append(fn.usr)
        try:
            states = [s]
            if fn.ctor:
                states = self.run_ctor_inits(fn, states, fr2)
            res = self.run_body(fn, states, fr2)
        finally:
            self.active.pop()
        out = []
        rt = fn.ty(fn.ret)
        for kind, s2, v in res:
            s2, v = self.prvalue(kind, s2, v, rt, depth, e, fr)
            dead = [p for p in s2.env if p[0][0] == "v" and p[0][1] >= depth]
            if dead:
                s2 = s2.copy()
                for p in dead:
                    del s2.env[p]
                if v is None or not syms(v):
                    s2 = gc(s2)
            if kind == "throw":
                fr.pending.append((s2, v))
            else:
                out.append((s2, v if v is not None else NULL))
        return dedupe_sv(out)

    def prvalue(self, kind, s, v, rt, depth, e, fr):
        """a class prvalue living in a variable or a temporary of the callee becomes a temporary of the call, so that two
        calls of one function in one expression do not share their result"""
        if kind == "return" and v is not None and v[0] == "loc" and rt["sh"][:1] not in ("r", "R", "p"):
            r = v[1][0]
            if (r[0] == "v" and r[1] == depth) or (r[0] == "tmp" and isinstance(r[1], tuple) and r[1][0] >= depth):
                tp = (("tmp", self.site(e, fr)),)
                if tp != v[1]:
                    s = self.copyobj(s, tp, v[1], e, fr)
                    v = ("loc", tp)
        return s, v

    def call_lambda(self, lam, s, args, fr, e):
        fn = None
        for tu in self.prog.tulist:
            if tu.name == lam[3]:
                fn = tu.fns.get(lam[1])
        c = self.mkcall(e, fr, None, args)
        if fn is None or fn.body is None or len(self.active) >= self.maxdepth:
            return self.opaque_call(e, s, c, fr)
        depth = fr.depth + 1
        fr2 = Frame(fn, depth, lam[4], lam[5], lamdepth=lam[2], parent=fr, callnode=e)
        dead = [p for p in s.env if p[0][0] == "v" and p[0][1] >= depth]
        if dead:
            s = s.copy()
            for p in dead:
                del s.env[p]
        s = self.bind_params(fn, s, args, fr2, fr, e)
        self.active.append(fn.usr)
        try:
            res = self.run_body(fn, [s], fr2)
        finally:
            self.active.pop()
        out = []
        rt = fn.ty(fn.ret)
        for kind, s2, v in res:
            s2, v = self.prvalue(kind, s2, v, rt, depth, e, fr)
            dead = [p for p in s2.env if p[0][0] == "v" and p[0][1] >= depth]
            if dead:
                s2 = s2.copy()
                for p in dead:
                    del s2.env[p]
                if v is None or not syms(v):
                    s2 = gc(s2)
            if kind == "throw":
                fr.pending.append((s2, v))
            else:
                out.append((s2, v if v is not None else NULL))
        return dedupe_sv(out)

    def call_value(self, f, s, args, fr, e):
        """call a callable value (lambda, functor object, function) from a std algorithm model"""
        if f[0] == "loc":
            cur = s.env.get(f[1])
            if cur is not None and cur[0] in ("lam", "fn"):
                f = cur
        if f[0] == "lam":
            return self.call_lambda(f, s, args, fr, e)
        if f[0] == "fn":
            fn = self.lookup(f[1], fr)
            c = self.mkcall(e, fr, None, args)
            c.n, c.fnref = f[2], f[1]
            if fn is not None and self.can_inline(fn, c):
                return self.inline_call(fn, s, c, None, None, args, fr, e)
        if f[0] == "loc":
            # functor object: find operator() of its class through the recorded argument type
            cls = self._functor_class(e, fr, f)
            if cls:
                for x in self.prog.superclasses(cls):
                    cd = self.prog.classes.get(x)
                    for m in (cd or {}).get("methods", []):
                        if m["n"] == "operator()" and len(m["pt"]) == len(args):
                            fn = fr.fn.tu.fns.get(m["usr"]) or self.prog.fns.get(m["usr"])
                            c = self.mkcall(e, fr, f[1], args)
                            c.n, c.m, c.cls, c.op, c.fnref = (cd["n"] + "::operator()"), "operator()", cls, "()", m["usr"]
                            c.node = e
                            r = self.hooks.on_call(self, s, c)
                            if r is not None:
                                return r
                            if fn is not None and self.can_inline(fn, c):
                                return self.inline_call(fn, s, c, f[1], cls, args, fr, e)
                            break
        s2, u = self.fresh(s, e, fr, "cv")
        return [(s2, u)]

    def _functor_class(self, e, fr, f):
        for a in e.get("a", []):
            t = fr.fn.ty(a["t"])
            if t.get("r") and not t["s"].startswith(("std::", "__gnu")) and t["sh"] in ("", "r", "R"):
                cls = t["r"]
                for x in self.prog.superclasses(cls):
                    cd = self.prog.classes.get(x)
                    if any(m["n"] == "operator()" for m in (cd or {}).get("methods", [])):
                        return cls
        return None

    def havoc_args(self, s, e, vs, fr, skip=()):
        pt = e.get("pt", [])
        if any(v[0] == "loc" for v in vs) and e.get("f"):
            eff = effects(self.prog)
            skip = tuple(skip) + tuple(i for i in range(len(vs)) if not eff.may_write(e["f"], i))
        for i, v in enumerate(vs):
            if i in skip:
                continue
            t = fr.fn.ty(pt[i]) if i < len(pt) else None
            if t is None or v[0] not in ("loc", "it"):
                continue
            if t["sh"][:1] in ("r", "p") and not t["cst"]:
                if v[0] == "loc":
                    p = v[1]
                    s, u = self.fresh(s, e, fr, "h%d" % i)
                    s = self.store(s, p, u, e, fr)
        return s

    def opaque_call(self, e, s, c, fr):
        r = self.hooks.opaque(self, s, c)
        if r is not None:
            return r
        args = c.args
        cm = e.get("cm", False)
        s = self.havoc_args(s, e, args, fr)
        t = fr.fn.ty(e.get("rt", e.get("t")))
        if c.obj is not None and not cm and not e.get("st"):
            ot = c.ot
            # a non-const method without body may change its object
            p = c.obj
            if not (ot and ot.get("cst")):
                s = self.havoc_obj(s, p, e, fr)
        if cm and c.obj is not None and not t["sh"]:
            v = ("t", "call", c.n, s.read(c.obj) if c.obj in s.env else ("i", c.obj)) + tuple(args)
            return [(s, v)]
        s, u = self.fresh(s, e, fr)
        if t["sh"][:1] in ("r", "R"):
            return [(s, ("loc", (("d", u),)))]
        if t.get("r") and not t["sh"]:
            p = (("tmp", c.site),)
            s = s.copy()
            s.kill_under(p)
            s.env[p] = u
            return [(s, ("loc", p))]
        if t["sh"] == "p":
            return [(s, u)]
        return [(s, u)]

    def havoc_obj(self, s, p, e, fr):
        if p == fr.this:
            return s
        if p[0][0] == "d" and len(p) == 1:
            # object behind a reference member: keep it opaque
            s, u = self.fresh(s, e, fr, "o")
            s = s.copy()
            s.kill_under(p)
            s.env[p] = u
            return s
        s, u = self.fresh(s, e, fr, "o")
        s = self.hooks.on_write(self, s, p, u, e, fr)
        return s.write(p, u)

    # ------------------------------------------------------------- standard library models
    def itval(self, s, v):
        """value of an iterator expression"""
        for _ in range(3):
            if v[0] == "loc":
                nv = s.read(v[1])
                if nv[0] in ("it", "loc"):
                    v = nv
                    if v[0] == "it":
                        return v
                    continue
                # pointer used as iterator
                if v[1][-1][0] == "e":
                    return ("it", v[1][:-1], v[1][-1][1])
                return None
            break
        return v if v[0] == "it" else None

    def itidx(self, s, it):
        if it[2] == ENDV:
            return s.read(it[1] + (("f", "#n"),))
        return it[2]

    def mut(self, s, path, e, fr, tag="m"):
        """content of the container at path changes in an unknown way, its size stays"""
        n = s.read(path + (("f", "#n"),))
        s, u = self.fresh(s, e, fr, tag)
        s = self.hooks.on_write(self, s, path + (("e", u),), u, e, fr)
        s = s.copy()
        for p in [p for p in s.env if len(p) > len(path) and p[:len(path)] == path and p[len(path)][0] == "e"]:
            del s.env[p]
        s.env[path + (("f", "#n"),)] = n
        s.env[path + (("f", "#g"),)] = ("t", "g", u)
        return s

    def setsize(self, s, path, v, e, fr):
        p = path + (("f", "#n"),)
        s = self.hooks.on_write(self, s, p, v, e, fr)
        s = s.copy()
        s.env[p] = v
        return s

    def std_call(self, e, s, fr, c):
        n = e["n"]
        m = e.get("m")
        r = None
        if n.startswith(("std::", "__gnu_cxx::")) and m is not None and c.objval is not None:
            r = self.std_method(e, s, fr, c, n, m)
        elif n in STD_FREE:
            r = getattr(self, "f_" + STD_FREE[n])(e, s, fr, c)
        elif e.get("op") and len(c.args) >= 1 and c.objval is None:
            r = self.free_op(e, s, fr, c)
        elif n in ("std::less::operator()",):
            pass
        return r

    def free_op(self, e, s, fr, c):
        op = e["op"]
        n = e["n"]
        if not (n.startswith("std::") or n.startswith("__gnu_cxx::")):
            return None
        a = c.args
        ia = [self.itval(s, v) for v in a]
        if len(a) == 2 and ia[0] and ia[1] and op in ("==", "!=", "<", ">", "<=", ">=", "-"):
            if ia[0][1] == ia[1][1]:
                x, y = self.itidx(s, ia[0]), self.itidx(s, ia[1])
                if op == "-":
                    return [(s, sub(x, y))]
                # begin/end style loops: index < size
                if op == "!=":
                    return [(s, self.it_ne(s, x, y))]
                if op == "==":
                    return [(s, neg(self.it_ne(s, x, y)))]
                return [(s, mkcmp(op, x, y))]
            v = ("t", "iteq", ia[0], ia[1])
            if op == "-":
                return [(s, ("t", "-", ia[0], ia[1]))]
            return [(s, v if op != "!=" else neg(v))]
        if op in ("<<", ">>"):
            if op == ">>" and len(a) == 2 and a[1][0] == "loc" and "istream" in fr.fn.ty(e["rt"])["s"]:
                s2, u = self.fresh(s, e, fr, "in")
                s2 = self.store(s2, a[1][1], u, e, fr)
                return [(s2, a[0])]
            if len(a) == 2 and "stream" in fr.fn.ty(e["rt"])["s"]:
                return [(s, a[0])]
            return None
        if op in ("==", "!=") and len(a) == 2:
            x = [s.read(v[1]) if v[0] == "loc" else v for v in a]
            x = [self.whole(s, v, xv) for v, xv in zip(a, x)]
            v = ("t", "eq") + tuple(sorted(x, key=repr))
            return [(s, v if op == "==" else neg(v))]
        if op in ("<", ">", "<=", ">="):
            x = [self.whole(s, v, s.read(v[1]) if v[0] == "loc" else v) for v in a]
            return [(s, mkcmp(op, x[0], x[1]))]
        if op == "+":
            p = (("tmp", c.site),)
            s2, u = self.fresh(s, e, fr, "str")
            s2 = s2.copy()
            s2.kill_under(p)
            s2.env[p] = u
            return [(s2, ("loc", p))]
        return None

    def whole(self, s, loc, v):
        return s.whole(loc[1]) if loc[0] == "loc" else v

    def it_ne(self, s, x, y):
        c = mkcmp("!=", x, y)
        if c[0] == "cmp":
            # iterators inside a range never pass its end: i != end is i < end when i <= end is known or plausible
            d = sub(x, y)
            k, dd = lin(d)
            sz = [sym for sym, cf in dd.items() if sym[0] == "i" and sym[1][-1] == ("f", "#n") or sym[0] == "u"]
            return mkcmp("<", x, y) if lin(x)[1] == {} or True else c
        return c

    def std_method(self, e, s, fr, c, n, m):
        cl = n.split("::")[-2]
        ov = c.objval
        a = c.args
        # ---------------- iterators
        iv = self.itval(s, ov) if ov is not None and ("iterator" in n) else None
        if "iterator" in n and ov is not None:
            op = e.get("op")
            if iv is None:
                # unknown iterator
                cur = s.read(ov[1]) if ov[0] == "loc" else ov
                if op in ("*", "->"):
                    return [(s, ("loc", (("d", cur),)))]
                if op in ("++", "--", "+=", "-=") and ov[0] == "loc":
                    s2, u = self.fresh(s, e, fr, "itx")
                    s2 = s2.copy()
                    s2.env[ov[1]] = u
                    return [(s2, ov)]
                if op in ("+", "-"):
                    s2, u = self.fresh(s, e, fr, "itx")
                    return [(s2, u)]
                return None
            if op in ("*", "->"):
                return [(s, ("loc", iv[1] + (("e", self.itidx(s, iv)),)))]
            if op == "[]":
                return [(s, ("loc", iv[1] + (("e", add(self.itidx(s, iv), a[0])),)))]
            if op in ("++", "--", "+=", "-="):
                d = ("c", 1) if op == "++" else ("c", -1) if op == "--" else a[0] if op == "+=" else mulc(a[0], -1)
                new = ("it", iv[1], add(self.itidx(s, iv), d))
                post = op in ("++", "--") and len(a) == 1
                if ov[0] == "loc":
                    s2 = s.copy()
                    s2.env[ov[1]] = new
                else:
                    s2 = s
                return [(s2, iv if post else ov)]
            if op in ("+", "-"):
                b = self.itval(s, a[0])
                if b is not None and op == "-":
                    if b[1] == iv[1]:
                        return [(s, sub(self.itidx(s, iv), self.itidx(s, b)))]
                    return [(s, ("t", "-", iv, b))]
                return [(s, ("it", iv[1], add(self.itidx(s, iv), a[0] if op == "+" else mulc(a[0], -1))))]
            if op in ("==", "!="):
                b = self.itval(s, a[0])
                if b is not None and b[1] == iv[1]:
                    v = self.it_ne(s, self.itidx(s, iv), self.itidx(s, b))
                    return [(s, v if op == "!=" else neg(v))]
                v = ("t", "iteq", iv, b or a[0])
                return [(s, v if op == "==" else neg(v))]
            if m == "base":
                return [(s, iv)]
            if op == "=":
                src = self.itval(s, a[0])
                s2 = s.copy()
                s2.env[ov[1]] = src if src is not None else (s.read(a[0][1]) if a[0][0] == "loc" else a[0])
                return [(s2, ov)]
        obj = c.obj
        if obj is None:
            return None
        szp = obj + (("f", "#n"),)
        # ---------------- containers
        if cl in ("vector", "deque", "list", "basic_string", "set", "map", "multiset", "queue", "array", "valarray", "initializer_list", "unordered_map", "unordered_set"):
            if m in ("size", "length"):
                return [(s, s.read(szp))]
            if m == "empty":
                return [(s, mkcmp("==", s.read(szp), ("c", 0)))]
            seq = cl in ("vector", "deque", "basic_string", "array", "valarray", "list", "initializer_list")
            if seq and (e.get("op") == "[]" or m == "at"):
                i = a[0]
                if i[0] == "loc":
                    i = s.read(i[1])
                return [(s, ("loc", obj + (("e", i),)))]
            if m in ("begin", "cbegin"):
                return [(s, ("it", obj, ("c", 0)))]
            if m in ("end", "cend"):
                return [(s, ("it", obj, s.read(szp)))]
            if m in ("rbegin", "rend", "crbegin", "crend"):
                s2, u = self.fresh(s, e, fr, "rit")
                return [(s2, ("it", obj, u))]
            if seq and m in ("front",):
                return [(s, ("loc", obj + (("e", ("c", 0)),)))]
            if seq and m in ("back",):
                return [(s, ("loc", obj + (("e", sub(s.read(szp), ("c", 1))),)))]
            if seq and m == "data":
                return [(s, ("loc", obj + (("e", ("c", 0)),)))]
            if seq and m in ("push_back", "emplace_back"):
                sz = s.read(szp)
                ep = obj + (("e", sz),)
                s2 = self.hooks.on_write(self, s, ep, a[0] if a else NULL, e, fr)
                s2 = s2.copy()
                if a and a[0][0] == "loc":
                    et = fr.fn.ty(e["pt"][0]) if e.get("pt") else {}
                    if et.get("r"):
                        s2 = self.copyobj(s2, ep, a[0][1], e, fr)
                    else:
                        s2 = s2.write(ep, s2.read(a[0][1]))
                    # appending does not disturb the other elements
                elif a:
                    s2 = s2.write(ep, a[0])
                s2 = s2.copy()
                s2.env[szp] = add(sz, ("c", 1))
                return [(s2, ("loc", ep) if m == "emplace_back" else NULL)]
            if seq and m == "pop_back":
                sz = s.read(szp)
                s2 = self.setsize(s, obj, sub(sz, ("c", 1)), e, fr)
                return [(s2, NULL)]
            if m == "clear":
                s2 = self.hooks.on_write(self, s, szp, ("c", 0), e, fr)
                s2 = s2.copy()
                n = len(obj)
                for p in [p for p in s2.env if len(p) > n and p[:n] == obj and p[n][0] == "e"]:
                    del s2.env[p]
                if obj in s2.env:
                    del s2.env[obj]
                s2.env[szp] = ("c", 0)
                return [(s2, NULL)]
            if m == "resize":
                v = a[0]
                s2 = self.setsize(s, obj, v, e, fr)
                return [(s2, NULL)]
            if m in ("reserve", "shrink_to_fit"):
                return [(s, NULL)]
            if m in ("capacity", "max_size"):
                return [(s, ("t", m, s.read(szp)))]
            if m == "assign":
                s2, u = self.fresh(s, e, fr, "as")
                s2 = self.store(s2, obj, u, e, fr)
                pt0 = fr.fn.ty(e["pt"][0])
                if not pt0.get("r") and pt0.get("b") in ("uint", "int") and not pt0["sh"]:
                    s2 = s2.copy()
                    s2.env[szp] = a[0]
                else:
                    i0, i1 = self.itval(s, a[0]), self.itval(s, a[1]) if len(a) > 1 else None
                    if i0 and i1 and i0[1] == i1[1]:
                        s2 = s2.copy()
                        s2.env[szp] = sub(self.itidx(s, i1), self.itidx(s, i0))
                return [(s2, NULL)]
            if m in ("erase",):
                sz = s.read(szp)
                if seq and a:
                    i0 = self.itval(s, a[0])
                    d = None
                    if len(a) == 1:
                        d = ("c", 1)
                    elif len(a) == 2 and i0:
                        i1 = self.itval(s, a[1])
                        if i1:
                            d = sub(self.itidx(s, i1), self.itidx(s, i0))
                    if d is not None:
                        tail = len(a) == 2 and self.itval(s, a[1]) and self.itidx(s, self.itval(s, a[1])) == sz
                        if tail:
                            s2 = self.setsize(s, obj, sub(sz, d), e, fr)
                        else:
                            s2 = self.mut(s, obj, e, fr, "er")
                            s2 = self.setsize(s2, obj, sub(sz, d), e, fr)
                        if not i0:
                            s2, u = self.fresh(s2, e, fr, "er")
                            return [(s2, ("it", obj, u))]
                        return [(s2, ("it", obj, self.itidx(s, i0)))]
                s2, u = self.fresh(s, e, fr, "er")
                s2 = self.store(s2, obj, u, e, fr)
                return [(s2, ("it", obj, u))]
            if m == "insert" and seq:
                sz = s.read(szp)
                s2 = self.mut(s, obj, e, fr, "in")
                i0 = self.itval(s, a[0])
                d = None
                if len(a) == 2:
                    d = ("c", 1)
                elif len(a) == 3:
                    x, y = self.itval(s, a[1]), self.itval(s, a[2])
                    if x and y and x[1] == y[1]:
                        d = sub(self.itidx(s, y), self.itidx(s, x))
                    elif not fr.fn.ty(e["pt"][1]).get("r"):
                        d = a[1]
                if d is None:
                    s2, d = self.fresh(s2, e, fr, "ind")
                s2 = self.setsize(s2, obj, add(sz, d), e, fr)
                return [(s2, ("it", obj, self.itidx(s, i0)) if i0 else NULL)]
            if m == "swap" and a:
                o2 = self.deref(a[0])[1]
                return [(self.swap_objs(s, obj, o2, e, fr), NULL)]
            if m == "operator=" or e.get("op") == "=":
                if a and a[0][0] == "loc":
                    s2 = self.hooks.on_write(self, s, obj, s.whole(a[0][1]), e, fr)
                    return [(self.copyobj(s2, obj, a[0][1], e, fr), ("loc", obj))]
                return None
            if cl in ("set", "map", "multiset", "unordered_map", "unordered_set", "queue"):
                if m in ("find", "count", "lower_bound", "upper_bound", "top") and m != "top":
                    s2, u = self.fresh(s, e, fr)
                    return [(s2, ("it", obj, u) if m != "count" else u)]
                if e.get("op") == "[]" or m == "at":
                    k = a[0]
                    if k[0] == "loc":
                        k = s.read(k[1])
                    return [(s, ("loc", obj + (("e", k),)))]
                if m in ("front", "top"):
                    return [(s, ("loc", obj + (("e", ("c", 0)),)))]
                if m in ("pop",):
                    s2 = self.mut(s, obj, e, fr, "pop")
                    return [(self.setsize(s2, obj, sub(s.read(szp), ("c", 1)), e, fr), NULL)]
                if m in ("push",):
                    s2 = self.mut(s, obj, e, fr, "push")
                    return [(self.setsize(s2, obj, add(s.read(szp), ("c", 1)), e, fr), NULL)]
        # ---------------- function objects of <functional>
        if cl in ("less", "greater", "less_equal", "greater_equal", "equal_to", "not_equal_to") and e.get("op") == "()":
            op = {"less": "<", "greater": ">", "less_equal": "<=", "greater_equal": ">=", "equal_to": "==", "not_equal_to": "!="}[cl]
            x = [s.read(v[1]) if v[0] == "loc" else v for v in a]
            return [(s, mkcmp(op, x[0], x[1]))]
        if cl in ("unique_ptr", "shared_ptr") and e.get("op") in ("*", "->") or m == "get" and cl in ("unique_ptr", "shared_ptr", "__shared_ptr"):
            v = s.read(obj)
            if m == "get":
                return [(s, v)]
            return [(s, self.deref(v))]
        if cl == "pair" and False:
            return None
        return None

    def swap_objs(self, s, p, q, e, fr):
        if p == q:
            return s
        vp, vq = s.whole(p), s.whole(q)
        s = self.hooks.on_write(self, s, p, vq, e, fr)
        s = self.hooks.on_write(self, s, q, vp, e, fr)
        t = (("tmp", ("swap", self.site(e, fr))),)
        s = self.copyobj(s, t, p, e, fr)
        s = self.copyobj(s, p, q, e, fr)
        s = self.copyobj(s, q, t, e, fr)
        s = s.copy()
        s.kill_under(t)
        return s

    # free functions
    def f_swap(self, e, s, fr, c):
        a = c.args
        if a[0][0] == "loc" and a[1][0] == "loc":
            return [(self.swap_objs(s, a[0][1], a[1][1], e, fr), NULL)]
        return None

    def f_iter_swap(self, e, s, fr, c):
        i, j = self.itval(s, c.args[0]), self.itval(s, c.args[1])
        if i and j:
            return [(self.swap_objs(s, i[1] + (("e", self.itidx(s, i)),), j[1] + (("e", self.itidx(s, j)),), e, fr), NULL)]
        return None

    def f_ident(self, e, s, fr, c):
        return [(s, c.args[0])]

    def f_mutrange(self, e, s, fr, c):
        """permutes / rewrites a range in place"""
        it = self.itval(s, c.args[0])
        if it is None:
            return None
        s2 = self.mut(s, it[1], e, fr)
        return [(s2, NULL)]

    def f_sort(self, e, s, fr, c):
        return self.f_mutrange(e, s, fr, c)

    def f_minmax(self, e, s, fr, c):
        a = [s.read(v[1]) if v[0] == "loc" else v for v in c.args[:2]]
        if len(c.args) == 2:
            op = "<" if e["n"].endswith("max") else ">"
            # max(a,b): (a<b)?b:a ; min(a,b): (b<a)?b:a
            cond = mkcmp("<", a[0], a[1]) if e["n"].endswith("max") else mkcmp("<", a[1], a[0])
            out = []
            for truth, v in ((True, c.args[1]), (False, c.args[0])):
                s2 = s.assume(cond, truth)
                if s2 is not None:
                    out.append((s2, v))
            return out
        return None

    def f_elem(self, e, s, fr, c):
        """an iterator into the range (min_element, find, ...)"""
        it = self.itval(s, c.args[0])
        if it is None:
            return None
        s2, u = self.fresh(s, e, fr, "el")
        end = self.itval(s, c.args[1]) if len(c.args) > 1 else None
        if end is not None and end[1] == it[1]:
            b, z = self.itidx(s, it), self.itidx(s, end)
            inside = e["n"] in ("std::min_element", "std::max_element") and s.assume(mkcmp("<", b, z), False) is None
            for f in (mkcmp(">=", u, b), mkcmp("<" if inside else "<=", u, z)):
                s2 = s2.assume(f, True) or s2
        return [(s2, ("it", it[1], u))]

    def f_copy(self, e, s, fr, c):
        d = self.itval(s, c.args[2])
        if d is None:
            v = c.args[2]
            v = s.read(v[1]) if v[0] == "loc" else v
            if v[0] == "t" and v[1] == "binsert":
                p = v[2]
                i0, i1 = self.itval(s, c.args[0]), self.itval(s, c.args[1])
                s2 = self.mut(s, p, e, fr, "cp")
                if i0 and i1 and i0[1] == i1[1] and not e["n"].endswith("_if"):
                    s2 = self.setsize(s2, p, add(s.read(p + (("f", "#n"),)), sub(self.itidx(s, i1), self.itidx(s, i0))), e, fr)
                else:
                    s2, u = self.fresh(s2, e, fr, "cpn")
                    s2 = self.setsize(s2, p, u, e, fr)
                return [(s2, c.args[2])]
            return None
        s2 = self.mut(s, d[1], e, fr, "cp")
        s3, u = self.fresh(s2, e, fr, "cpr")
        i0, i1 = self.itval(s, c.args[0]), self.itval(s, c.args[1])
        if i0 and i1 and i0[1] == i1[1]:
            return [(s3, ("it", d[1], add(self.itidx(s, d), sub(self.itidx(s, i1), self.itidx(s, i0)))))]
        return [(s3, ("it", d[1], u))]

    def f_swap_ranges(self, e, s, fr, c):
        i, j = self.itval(s, c.args[0]), self.itval(s, c.args[2])
        if i is None or j is None:
            return None
        s = self.mut(s, i[1], e, fr, "sr1")
        s = self.mut(s, j[1], e, fr, "sr2")
        return [(s, NULL)]

    def f_back_inserter(self, e, s, fr, c):
        p = self.deref(c.args[0])[1]
        return [(s, ("t", "binsert", p))]

    def f_distance(self, e, s, fr, c):
        i, j = self.itval(s, c.args[0]), self.itval(s, c.args[1])
        if i and j and i[1] == j[1]:
            return [(s, sub(self.itidx(s, j), self.itidx(s, i)))]
        return None

    def f_advance(self, e, s, fr, c):
        i = self.itval(s, c.args[0])
        if i and c.args[0][0] == "loc":
            s2 = s.copy()
            d = c.args[1]
            if d[0] == "loc":
                d = s.read(d[1])
            s2.env[c.args[0][1]] = ("it", i[1], add(self.itidx(s, i), d))
            return [(s2, NULL)]
        return None

    def f_next(self, e, s, fr, c):
        i = self.itval(s, c.args[0])
        if i:
            d = c.args[1] if len(c.args) > 1 else ("c", 1)
            if e["n"] == "std::prev":
                d = mulc(d, -1)
            return [(s, ("it", i[1], add(self.itidx(s, i), d)))]
        return None

    def f_begin(self, e, s, fr, c):
        p = self.deref(c.args[0])[1]
        if e["n"].endswith("begin"):
            return [(s, ("it", p, ("c", 0)))]
        return [(s, ("it", p, s.read(p + (("f", "#n"),))))]

    def f_pure(self, e, s, fr, c):
        x = tuple(s.read(v[1]) if v[0] == "loc" else v for v in c.args)
        return [(s, ("t", e["n"].split("::")[-1]) + x)]

    def f_noret(self, e, s, fr, c):
        fr.pending.append((s, ("exc", "abort")))
        return []

    def f_for_each(self, e, s, fr, c):
        return self.alg_loop(e, s, fr, c, 1)

    def f_transform(self, e, s, fr, c):
        if len(c.args) == 4:
            d = self.itval(s, c.args[2])
            r = self.alg_loop(e, s, fr, c, 1, fi=3)
            if r is None:
                return None
            out = []
            for s2, v in r:
                if d:
                    s2 = self.mut(s2, d[1], e, fr, "tr")
                else:
                    v2 = c.args[2]
                    v2 = s2.read(v2[1]) if v2[0] == "loc" else v2
                    if v2[0] == "t" and v2[1] == "binsert":
                        i0, i1 = self.itval(s, c.args[0]), self.itval(s, c.args[1])
                        p = v2[2]
                        sz = s2.read(p + (("f", "#n"),))
                        s2 = self.mut(s2, p, e, fr, "tr")
                        if i0 and i1 and i0[1] == i1[1]:
                            s2 = self.setsize(s2, p, add(sz, sub(self.itidx(s, i1), self.itidx(s, i0))), e, fr)
                out.append((s2, c.args[2]))
            return out
        return None

    def f_all_any(self, e, s, fr, c):
        return self.alg_loop(e, s, fr, c, 1, pred=e["n"].split("::")[-1])

    def f_generate(self, e, s, fr, c):
        it = self.itval(s, c.args[0])
        out = []
        for s2, v in self.call_value(c.args[-1], s, [], fr, e):
            s2 = self.mut(s2, it[1], e, fr, "gen") if it else s2
            out.append((s2, NULL))
        return out

    def alg_loop(self, e, s, fr, c, npar, fi=2, pred=None):
        """std::for_each and friends as a loop over [first,last)"""
        i0, i1 = self.itval(s, c.args[0]), self.itval(s, c.args[1])
        if i0 is None or i1 is None or i0[1] != i1[1]:
            return None
        f = c.args[fi]
        loopid = self.site(e, fr)
        ip = (("v", fr.depth, fr.fn.tu.name, ("al", loopid)),)
        s = s.copy()
        s.env[ip] = ("it", i0[1], self.itidx(s, i0))
        end = self.itidx(s, i1)
        info = {"node": e, "fr": fr, "entry": [s], "back": [], "exit": [], "brk": [], "ret": [], "thr": [], "w": {}, "heads": [], "body_in": []}
        seen, work, res = set(), [s], []
        anchor = s
        rounds = 0
        while work:
            rounds += 1
            if rounds > 40:
                raise TooComplex("algorithm loop does not stabilise")
            new = []
            for x in work:
                if x.key() not in seen:
                    seen.add(x.key())
                    new.append(x)
            info["heads"] += new
            nxt = []
            for x in new:
                it = x.env[ip]
                cond = mkcmp("<", it[2], end)
                ex = x.assume(cond, False)
                if ex is not None:
                    v = TRUE if pred in ("all_of", "none_of") else FALSE if pred == "any_of" else f
                    info["exit"].append(ex)
                    res.append((ex, v))
                y = x.assume(cond, True)
                if y is None:
                    continue
                info["body_in"].append(y)
                for z, rv in self.call_value(f, y, [("loc", it[1] + (("e", it[2]),))], fr, e):
                    z = z.copy()
                    z.env[ip] = ("it", it[1], add(it[2], ("c", 1)))
                    if pred:
                        for truth in (True, False):
                            z2 = z.assume(self.truth(rv), truth)
                            if z2 is None:
                                continue
                            stop = (truth and pred in ("any_of", "none_of")) or (not truth and pred == "all_of")
                            if stop:
                                info["brk"].append(z2)
                                res.append((z2, TRUE if pred == "any_of" else FALSE))
                            else:
                                nxt.append(z2)
                    else:
                        nxt.append(z)
            nxt = dedupe(nxt)
            info["back"] += nxt
            work = dedupe([self.widen(anchor, x, loopid, info) for x in nxt])
        self.hooks.on_loop(self, info, fr)
        out = []
        for x, v in res:
            x = x.copy()
            x.env.pop(ip, None)
            out.append((x, v))
        return dedupe_sv(out)


def effects(prog):
    e = getattr(prog, "_effects", None)
    if e is None:
        from .effects import Effects
        e = prog._effects = Effects(prog)
    return e


ENDV = ("end",)
QUIET = {"operator<<"}
VALUE_CLASSES = {"EO", "PO", "eoPop", "moNeighbor"}
_reftab = {}
_ftab = {}


def vartype(tu, vid):
    """declared type of a local variable or parameter"""
    tab = _reftab.get(tu.name)
    if tab is None:
        tab = _reftab[tu.name] = {}
        for f in tu.fns.values():
            for p in f.params:
                tab[p["id"]] = p["t"]
            for nd in walk(f.node.get("body")):
                if "id" in nd and "t" in nd and "n" in nd and "k" not in nd:
                    tab[nd["id"]] = nd["t"]
                    if nd.get("bind"):
                        tab[nd["id"]] = -1
    t = tab.get(vid)
    if t is None:
        return None
    return tu.types[t] if t >= 0 else {"sh": "r", "s": "binding", "cst": False}


def roottype(prog, fn, path):
    """type of the root of a path, when it is a variable, an argument or a field of this"""
    r = path[0]
    if r[0] == "v":
        for tu in prog.tulist:
            if tu.name == r[2]:
                return vartype(tu, r[3])
    if r[0] == "arg" and r[1] < len(fn.params):
        return fn.ty(fn.params[r[1]]["t"])
    return None


def depth(v):
    if isinstance(v, tuple) and v:
        return 1 + max((depth(x) for x in v), default=0)
    return 0


def asbool(v):
    return ("c", bool(v[1])) if v[0] == "c" and isinstance(v[1], (int, float)) else v


def isbool(v):
    return v[0] in ("cmp", "not") or v[0] == "c" and isinstance(v[1], bool)


def integral(v):
    """surely integral already (sizes, counters)"""
    k, d = lin(v)
    if k != int(k):
        return False
    return all(float(c).is_integer() and (s[0] in ("i", "w", "wo") and ("#n" in repr(s)) or s[0] == "t" and s[1] == "int") for s, c in d.items())


STD_FREE = {}
for names, h in ((("swap",), "swap"), (("iter_swap",), "iter_swap"),
                 (("move", "forward", "as_const", "ref", "cref", "addressof", "move_if_noexcept", "make_move_iterator"), "ident"),
                 (("reverse", "rotate", "random_shuffle", "shuffle", "fill", "iota", "partial_sort", "nth_element", "stable_sort", "sort", "make_heap", "push_heap", "pop_heap", "sort_heap", "fill_n"), "mutrange"),
                 (("min", "max"), "minmax"),
                 (("min_element", "max_element", "find", "find_if", "lower_bound", "upper_bound", "remove_if", "remove", "unique", "partition", "adjacent_find"), "elem"),
                 (("copy", "copy_if", "uninitialized_copy", "copy_backward", "move_backward"), "copy"),
                 (("swap_ranges",), "swap_ranges"), (("back_inserter", "inserter"), "back_inserter"),
                 (("distance",), "distance"), (("advance",), "advance"), (("next", "prev"), "next"),
                 (("begin", "end", "cbegin", "cend"), "begin"),
                 (("abs", "fabs", "sqrt", "exp", "log", "pow", "floor", "ceil", "sin", "cos", "tan", "isnan", "isinf", "isfinite", "round", "lround", "fmod", "rint"), "pure"),
                 (("for_each",), "for_each"), (("transform",), "transform"), (("all_of", "any_of", "none_of"), "all_any"), (("generate",), "generate"),
                 (("terminate", "abort", "exit"), "noret")):
    for nm in names:
        STD_FREE["std::" + nm] = h
for nm in ("fabs", "sqrt", "exp", "log", "pow", "floor", "ceil", "sin", "cos", "tan", "rint", "fmod", "abs", "round"):
    STD_FREE[nm] = "pure"
for nm in ("__assert_fail", "abort", "exit"):
    STD_FREE[nm] = "noret"
