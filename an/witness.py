"""Arbitrary elements of containers: one symbolic index stands for every element.

A rule about "every element of a container" is decided for one element at an
arbitrary position W, 0 <= W < size.  Whenever the analysed function touches the
element at position i, the analysis splits into i == W and i != W; the order facts
kept by the interpreter decide which splits are possible."""
from .absint import State, add, mkcmp, sub


def sym(name):
    return ("i", (("witness", name),))


def setup(s, name, cont):
    """an arbitrary position of a container"""
    w = sym(name)
    n = s.read(cont + (("f", "#n"),))
    s = s.assume(mkcmp("<", w, n), True)
    return s.assume(mkcmp(">=", w, ("c", 0)), True) if s is not None else None


def index(path, cont):
    """index of the element of cont that path is, lies in, or is pointed to by"""
    n = len(cont)
    while path and path[0][0] == "d":
        v = path[0][1]
        if v[0] == "loc":
            path = v[1] + path[1:]
        elif v[0] == "i":
            path = v[1]
        else:
            return None
    if len(path) > n and path[:n] == cont and path[n][0] == "e":
        return path[n][1]
    return None


def split(s, idx, name):
    """[(state, is it the arbitrary element)]"""
    out = []
    c = mkcmp("==", idx, sym(name))
    for t in (True, False):
        x = s.assume(c, t)
        if x is not None:
            out.append((x, t))
    return out
