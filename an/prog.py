"""Loads the resolved program of /repo: runs the extractor over the driver translation
units and over the library's own .cpp files, and offers functions, classes and types."""
import glob, hashlib, json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, ".build")

FLAGS = ("-DDEPRECATED_MESSAGES -DWITH_EIGEN -D_GLIBCXX_USE_NANOSLEEP -I/usr/include/eigen3 -I{r}/eo -I{r}/eo/src "
         "-I{r}/eo/src/utils -I{r}/eo/src/ga -I{r}/eo/src/es -I{r}/eo/src/gp -I{r}/mo/src -I{r}/moeo/src -I{r}/edo/src "
         "-I{r}/edo/src/utils -I{r}/smp/src -I{r}/problems -std=gnu++17 -w")
MPI_FLAGS = (" -DWITH_MPI -I{r}/eo/src/mpi -I/usr/lib/x86_64-linux-gnu/openmpi/include -I/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi")

MODULES = ("eo", "mo", "moeo", "edo", "smp")
CPPS = {"eo": ["eo/src/*.cpp", "eo/src/utils/*.cpp", "eo/src/es/*.cpp", "eo/src/ga/*.cpp"],
        "mo": [], "moeo": ["moeo/src/core/*.cpp"], "edo": ["edo/src/utils/*.cpp"],
        "smp": ["smp/src/topology/*.cpp", "smp/src/notifier.cpp"], "mpi": ["eo/src/mpi/*.cpp"]}
EXCLUDE = {"smp/src/topology/topology.cpp"}  # template implementation, included from its header


class AnalysisBroken(Exception):
    """The analysis cannot answer (vanished anchor, extraction failure): neither pass nor violation."""


def _sources():
    out = []
    for m in ("eo", "mo", "moeo", "edo", "smp", "problems"):
        for d, ds, fs in os.walk(os.path.join(REPO, m)):
            ds[:] = sorted(x for x in ds if x not in ("test", "pyeo", "_build", "tutorial", "doc", ".git"))
            for f in sorted(fs):
                p = os.path.join(d, f)
                if "." not in f or f.endswith((".h", ".cpp", ".hpp", ".tcc")):
                    out.append(p)
    return sorted(out)


def _hash():
    h = hashlib.sha256()
    for p in _sources() + sorted(glob.glob(HERE + "/drivers/*")) + [HERE + "/extract/px.cpp", os.path.abspath(__file__)]:
        h.update(p.encode())
        try:
            with open(p, "rb") as f:
                h.update(f.read())
        except OSError:
            pass
    return h.hexdigest()[:20]


def build_tool():
    r = subprocess.run(["bash", HERE + "/extract/build.sh"], capture_output=True, text=True)
    if r.returncode != 0 or not os.path.exists(BUILD + "/px"):
        raise AnalysisBroken("extractor does not build: " + r.stderr[-400:])


def tus(modules):
    out = []
    for m in modules:
        if m in MODULES:
            out.append((m, os.path.join(HERE, "drivers", m + ".cpp"), FLAGS.format(r=REPO).split()))
        for pat in CPPS.get(m, []):
            for f in sorted(glob.glob(os.path.join(REPO, pat))):
                if os.path.relpath(f, REPO) in EXCLUDE:
                    continue
                fl = FLAGS + (MPI_FLAGS if m == "mpi" else "")
                out.append((os.path.relpath(f, REPO), f, fl.format(r=REPO).split()))
    return out


class Fn:
    __slots__ = ("usr", "n", "cls", "cn", "m", "file", "line", "params", "ret", "node", "tu", "prog", "ov", "ovu", "virt",
                 "ctor", "dtor", "const", "acc", "static", "lam", "implicit")

    def __init__(self, d, tu, prog):
        self.usr = d["usr"]; self.n = d["n"]; self.cls = d.get("c"); self.cn = d.get("cn"); self.m = d.get("m")
        self.file = d["file"]; self.line = d["line"]; self.params = d["params"]; self.ret = d["ret"]
        self.node = d; self.tu = tu; self.prog = prog; self.ov = d.get("ov", []); self.ovu = d.get("ovu", [])
        self.virt = d.get("virt", False); self.ctor = d.get("ctor", False); self.dtor = d.get("dtor", False)
        self.const = d.get("const", False); self.acc = d.get("acc"); self.static = d.get("static", False)
        self.lam = d.get("lambda", False)
        self.implicit = d.get("implicit", False) or d.get("defaulted", False)

    @property
    def body(self):
        return self.node.get("body")

    def loc(self, line=None):
        return "%s:%d" % (self.file, line or self.line)

    def ty(self, i):
        return self.tu.types[i] if i is not None and i >= 0 else {"s": "?", "sh": "", "cst": False}

    def __repr__(self):
        return "<Fn %s %s:%d>" % (self.n, self.file, self.line)


class TU:
    def __init__(self, name):
        self.name = name; self.types = []; self.fns = {}; self.nodecount = 0


class Program:
    def __init__(self, modules):
        self.modules = modules
        self.fns = {}        # usr -> Fn
        self.by_name = {}    # qualified name (no template args) -> [Fn]
        self.classes = {}    # full name -> dict
        self.cls_by_n = {}   # template/qualified name -> [dict]
        self.tmpls = {}
        self.vars = {}
        self.errors = []
        self.tulist = []
        self._supers = {}
        self._load()

    def _load(self):
        build_tool()
        key = _hash()
        cdir = os.path.join(BUILD, "cache", key)
        os.makedirs(cdir, exist_ok=True)
        # keep only this and the most recent other cache
        croot = os.path.join(BUILD, "cache")
        others = sorted((d for d in os.listdir(croot) if d != key), key=lambda d: os.path.getmtime(os.path.join(croot, d)))
        for d in others[:-2]:
            shutil.rmtree(os.path.join(croot, d), ignore_errors=True)
        work = tus(self.modules)

        def one(t):
            name, f, fl = t
            out = os.path.join(cdir, name.replace("/", "_") + ".json")
            if not os.path.exists(out):
                tmp = out + ".%d.tmp" % os.getpid()
                r = subprocess.run([BUILD + "/px", REPO, tmp, f, "--"] + fl, capture_output=True, text=True)
                err = [l for l in r.stderr.splitlines() if "error:" in l]
                if not os.path.exists(tmp):
                    return name, None, err or [r.stderr[-300:]]
                with open(tmp, "a") as g:
                    g.write(json.dumps({"kind": "errors", "e": err[:20]}) + "\n")
                os.replace(tmp, out)
            return name, out, None
        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(one, work))
        for name, out, err in res:
            if out is None:
                self.errors.append((name, err))
                continue
            self._read(name, out)
        if not self.fns:
            raise AnalysisBroken("no function extracted: %s" % self.errors[:2])

    def _read(self, name, path):
        tu = TU(name)
        self.tulist.append(tu)
        with open(path) as f:
            for line in f:
                o = json.loads(line)
                k = o["kind"]
                if k == "fn":
                    fn = Fn(o, tu, self)
                    tu.fns[fn.usr] = fn
                    if fn.usr not in self.fns:
                        self.fns[fn.usr] = fn
                        self.by_name.setdefault(fn.n, []).append(fn)
                elif k == "class":
                    o["tu"] = tu
                    if o["name"] not in self.classes or (o.get("repo") and len(o.get("methods", [])) > len(self.classes[o["name"]].get("methods", []))):
                        if o["name"] not in self.classes:
                            self.cls_by_n.setdefault(o["n"], []).append(o)
                        self.classes[o["name"]] = o
                elif k == "tmpl":
                    self.tmpls[o["n"]] = o
                elif k == "var":
                    self.vars.setdefault(o["n"], o)
                    o["tu"] = tu
                elif k == "types":
                    tu.types = o["tab"]
                elif k == "errors":
                    if o["e"]:
                        self.errors.append((name, o["e"]))

    # ---------------------------------------------------------------- classes
    def supers(self, cname):
        """All base classes (template/qualified names), itself included."""
        r = self._supers.get(cname)
        if r is not None:
            return r
        self._supers[cname] = r = set()
        c = self.classes.get(cname)
        if c is None:
            r.add(cname.split("<")[0])
            return r
        r.add(c["n"])
        for b in c["bases"]:
            r |= self.supers(b["name"])
        self._supers[cname] = r
        return r

    def superclasses(self, cname):
        """Full names of all bases, itself first, breadth first."""
        out, q = [], [cname]
        while q:
            x = q.pop(0)
            if x in out:
                continue
            out.append(x)
            c = self.classes.get(x)
            if c:
                q += [b["name"] for b in c["bases"]]
        return out

    def is_a(self, cname, base):
        return cname is not None and base in self.supers(cname)

    def fields_of(self, cname):
        """[(field dict, declaring class dict)] including bases."""
        out = []
        for x in self.superclasses(cname):
            c = self.classes.get(x)
            if c:
                for f in c.get("fields", []):
                    out.append((f, c))
        return out

    def final_overrider(self, cname, usr, name, nparams, const=None):
        """The body that a virtual call reaches when the dynamic class is cname."""
        for x in self.superclasses(cname):
            c = self.classes.get(x)
            if not c:
                continue
            for m in c.get("methods", []):
                if m["usr"] == usr or usr in m.get("ovu", []):
                    return self.fns.get(m["usr"]), m
        return None, None

    def methods(self, base=None, name=None):
        for f in self.fns.values():
            if f.cls is None:
                continue
            if name is not None and f.m != name:
                continue
            if base is not None and not self.is_a(f.cls, base):
                continue
            yield f


_cache = {}


def load(modules):
    modules = tuple(modules)
    if modules not in _cache:
        _cache[modules] = Program(modules)
    return _cache[modules]


# -------------------------------------------------------------------- tree walking
def walk(node):
    """All dict nodes of a statement/expression tree (pre-order)."""
    if isinstance(node, dict):
        yield node
        for k, v in node.items():
            if isinstance(v, (dict, list)):
                yield from walk(v)
    elif isinstance(node, list):
        for x in node:
            yield from walk(x)
