"""Interprocedural may-effects: which functions may write through a parameter or their object.

Closed-world over the extracted program: a virtual function's effect is the union over its
overriders; a function without any body in the program may do everything its signature allows."""
from .prog import walk


def strip(e):
    """expression reached through casts, loads and temporaries"""
    while isinstance(e, dict) and e.get("k") in ("cast", "conv", "load", "temp", "decay"):
        e = e["e"]
    return e


def root(e):
    """the variable / this an lvalue expression is rooted in: ('v', id) | ('this',) | None"""
    while True:
        e = strip(e)
        if not isinstance(e, dict):
            return None
        k = e.get("k")
        if k == "ref":
            return ("v", e["d"]) if e.get("dk") in ("local", "param") else ("g", e.get("n"))
        if k == "this":
            return ("this",)
        if k == "mem":
            e = e["b"]
        elif k == "idx":
            e = e["b"]
        elif k == "un" and e["op"] in ("*", "&", "++pre", "--pre", "++post", "--post"):
            e = e["e"]
        elif k == "cond":
            return root(e["a"])
        elif k == "call" and e.get("obj") is not None and returns_inner(e):
            e = e["obj"]
        elif k == "call" and e.get("n") in ("std::move", "std::forward", "std::ref") and e.get("a"):
            e = e["a"][0]
        elif k == "bin" and e["op"] in ("+", "-", ","):
            e = e["a"] if e["op"] != "," else e["b"]
        else:
            return None


def returns_inner(e):
    return True


class Effects:
    def __init__(self, prog):
        self.prog = prog
        self.over = {}
        for f in prog.fns.values():
            for u in f.ovu:
                self.over.setdefault(u, []).append(f)
        self.memo = {}
        self.local = {}

    def bodies(self, usr):
        out = []
        f = self.prog.fns.get(usr)
        if f is not None and f.body:
            out.append(f)
        out += [g for g in self.over.get(usr, []) if g.body]
        return out

    def may_write(self, usr, i):
        """may a call of usr write what its i-th argument refers to?  (i == -1: its object)"""
        key = (usr, i)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = False  # recursion
        bs = self.bodies(usr)
        r = not bs
        for f in bs:
            if i >= 0:
                if i >= len(f.params):
                    r = True
                    break
                t = f.ty(f.params[i]["t"])
                if t["sh"] == "" or t["cst"] and t["sh"] in ("r", "p"):
                    continue
            if i == -1 and f.const:
                continue
            if self._writes(f, i):
                r = True
                break
        self.memo[key] = r
        return r

    def _aliases(self, f, rt):
        """local references / pointers derived from the root"""
        al = {rt}
        for _ in range(3):
            n = len(al)
            for nd in walk(f.body):
                if nd.get("s") == "decl":
                    for v in nd["v"]:
                        t = f.ty(v["t"])
                        if v.get("init") is not None and (t["sh"][:1] in ("r", "p", "R") or "iterator" in t["s"]) and not (t["cst"] and t["sh"] in ("r", "p")):
                            if root(v["init"]) in al or any(root(a) in al for a in v["init"].get("a", []) if isinstance(a, dict)):
                                al.add(("v", v["id"]))
                elif nd.get("s") == "rfor":
                    t = f.ty(nd["var"]["t"])
                    if t["sh"][:1] in ("r", "R") and not t["cst"] and root(nd["range"]) in al:
                        al.add(("v", nd["var"]["id"]))
            if len(al) == n:
                break
        return al

    def _writes(self, f, i):
        rt = ("this",) if i == -1 else ("v", f.params[i]["id"])
        al = self._aliases(f, rt)
        for nd in walk(f.body):
            k = nd.get("k")
            if k == "asg" and root(nd["a"]) in al:
                if i >= 0 and strip(nd["a"]).get("k") == "ref" and f.ty(f.params[i]["t"])["sh"] == "p" and root(nd["a"]) == rt:
                    continue
                return True
            if k == "un" and nd["op"][:2] in ("++", "--") and root(nd["e"]) in al:
                return True
            if k == "call":
                if nd.get("obj") is not None and root(nd["obj"]) in al and not nd.get("cm") and not nd.get("st"):
                    if nd.get("n", "").startswith("std::") and nd.get("m") in ("begin", "end", "operator[]", "size", "at", "front", "back", "rbegin", "rend", "data", "operator*", "operator->", "operator+", "operator-", "operator++", "base"):
                        pass
                    elif self.may_write(nd["f"], -1):
                        return True
                    elif f.ty(nd.get("rt", nd["t"]))["sh"][:1] in ("r", "p") and not f.ty(nd.get("rt", nd["t"]))["cst"]:
                        pass
                pt = nd.get("pt", [])
                for j, a in enumerate(nd.get("a", [])):
                    if root(a) in al:
                        if j < len(pt):
                            t = f.ty(pt[j])
                            if t["sh"] == "" and not "iterator" in t["s"] or t["cst"] and t["sh"] in ("r", "p"):
                                continue
                            if t["sh"] == "R" and nd.get("n") in ("std::move", "std::forward"):
                                continue
                        if nd.get("n") in ("std::distance", "std::find", "std::find_if", "std::count", "std::accumulate", "std::max_element", "std::min_element", "std::for_each"):
                            continue
                        if nd.get("f") is None or self.may_write(nd["f"], j):
                            return True
            if k == "ctor":
                pt = nd.get("pt", [])
                for j, a in enumerate(nd.get("a", [])):
                    if root(a) in al and j < len(pt):
                        t = f.ty(pt[j])
                        if t["sh"] in ("r", "p") and not t["cst"]:
                            return True
            if k == "del" and root(nd["e"]) in al:
                return True
        return False
