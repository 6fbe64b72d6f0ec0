"""Running a check: collecting obligations, violations, evidence, known findings."""
import json, multiprocessing, os, sys, time, traceback

from . import prog as P
from .prog import AnalysisBroken, HERE

KNOWN = os.path.join(HERE, "known_findings.txt")


def known_findings(pid):
    """{site: text} of the findings listed for this property (never written at run time)"""
    out = {}
    if os.path.exists(KNOWN):
        with open(KNOWN) as f:
            for line in f:
                line = line.strip()
                if line.startswith("known: property=%s " % pid):
                    rest = line.split(" ", 2)[2]
                    if rest.startswith("site="):
                        site, _, what = rest[5:].partition(" :: ")
                        out[site.strip()] = what.strip()
    return out


class Check:
    def __init__(self, pid, modules, rule):
        self.pid, self.modules, self.rule = pid, tuple(modules), rule
        self.t0 = time.time()
        self.obl = {}          # kind -> number of obligations analysed
        self.undecided = {}    # site -> reason
        self.viol = {}         # site -> dict
        self.samples = []
        self.notes = set()
        self.minimum = {}      # kind -> least number of instances for the analysis to be meaningful
        self.extra = {}
        self._prog = None

    @property
    def prog(self):
        if self._prog is None:
            self._prog = P.load(self.modules)
        return self._prog

    def each(self, items, work, jobs=None):
        """work(sub, item) for every item, in parallel; sub collects like this check"""
        items = list(items)
        self.prog
        global _JOB
        _JOB = (self, items, work)
        jobs = jobs or min(8, os.cpu_count() or 1)
        if jobs <= 1 or len(items) < 4:
            res = [_one(i) for i in range(len(items))]
        else:
            import gc
            gc.collect()
            gc.freeze()
            with multiprocessing.get_context("fork").Pool(jobs) as pool:
                res = pool.map(_one, range(len(items)), chunksize=max(1, min(4, len(items) // (jobs * 4))))
        for r in res:
            if isinstance(r, str):
                raise RuntimeError(r)
            self.merge(r)

    def sub(self):
        c = Check(self.pid, self.modules, self.rule)
        c._prog = self._prog
        return c

    def merge(self, r):
        obl, und, viol, samples, notes, extra = r
        for k, n in obl.items():
            self.obl[k] = self.obl.get(k, 0) + n
        for k, v in und.items():
            self.undecided.setdefault(k, v)
        for k, v in viol.items():
            self.viol.setdefault(k, v)
        for x in samples:
            if len(self.samples) < 14 and sum(1 for y in self.samples if y["kind"] == x["kind"]) < 4:
                self.samples.append(x)
        self.notes |= notes
        for k, v in extra.items():
            self.extra.setdefault(k, []).extend(v)

    def need(self, kind, n):
        self.minimum[kind] = n

    def count(self, kind, sample=None, n=1):
        self.obl[kind] = self.obl.get(kind, 0) + n
        if sample and len(self.samples) < 14 and self.obl[kind] in (n, 2, 7):
            self.samples.append({"kind": kind, "what": sample})

    def undecide(self, site, why):
        self.undecided.setdefault(site, why)

    def violation(self, file, line, func, rule, msg, trail=None):
        """site identity: file, function and rule (no line numbers)"""
        site = "%s#%s#%s" % (file, func, rule)
        if site not in self.viol:
            self.viol[site] = {"site": site, "file": file, "line": line, "function": func, "rule": rule, "message": msg,
                               "path": [str(x) for x in (trail or [])][:40]}

    def finish(self):
        tier = os.environ.get("VERIF_TIER", "quick")
        if tier not in ("quick", "thorough"):
            tier = "quick"
        try:
            seed = int(os.environ.get("VERIF_SEED", "0"))
        except ValueError:
            seed = 0
        broken = ["only %d instances of '%s' found, at least %d expected" % (self.obl.get(k, 0), k, n)
                  for k, n in self.minimum.items() if self.obl.get(k, 0) < n]
        known = known_findings(self.pid)
        new = [v for s, v in sorted(self.viol.items()) if s not in known]
        old = [v for s, v in sorted(self.viol.items()) if s in known]
        ev = {"property": self.pid, "tier": tier, "seed": seed, "level": "other",
              "coverage": {"explanation": "static analysis of the resolved program extracted from /repo's current sources; rule: " + self.rule,
                           "obligations_analysed": self.obl, "undecided": len(self.undecided),
                           "undecided_sites": ["%s: %s" % kv for kv in sorted(self.undecided.items())][:30],
                           "functions_in_program": len(self.prog.fns), "classes_in_program": len(self.prog.classes),
                           "modules": list(self.modules), "samples": self.samples,
                           "known_findings_seen": [v["site"] for v in old]},
              "wall_s": round(time.time() - self.t0, 2),
              "assumptions": sorted(self.notes)[:20],
              "violations": [{k: v[k] for k in ("site", "file", "line", "function", "message")} for v in new]}
        ev["coverage"].update(self.extra)
        os.makedirs(HERE + "/evidence", exist_ok=True)
        with open("%s/evidence/%s.json" % (HERE, self.pid), "w") as f:
            json.dump(ev, f, indent=1, sort_keys=True)
            f.write("\n")
        print("%s: %s" % (self.pid, self.rule))
        print("  analysed: " + ", ".join("%d %s" % (n, k) for k, n in sorted(self.obl.items())) +
              "; undecided %d; %.1f s" % (len(self.undecided), time.time() - self.t0))
        for v in old:
            print("KNOWN-FINDING: property=%s %s:%s %s: %s" % (self.pid, v["file"], v["line"], v["function"], known[v["site"]] or v["message"]))
        if new:
            rp = "%s/evidence/%s.violations.json" % (HERE, self.pid)
            with open(rp, "w") as f:
                json.dump(new, f, indent=1)
                f.write("\n")
            for v in new:
                print("%s:%s: in %s: %s [%s]" % (v["file"], v["line"], v["function"], v["message"], v["rule"]))
                for t in v["path"][-12:]:
                    print("      " + t)
            for v in new:
                print("VIOLATION property=%s replay=%s" % (self.pid, rp))
                break
            return 1
        if broken:
            for b in broken:
                print("ANALYSIS-BROKEN: " + b)
            return 3
        return 0


_JOB = None


def _one(i):
    chk, items, work = _JOB
    c = chk.sub()
    try:
        work(c, items[i])
    except Exception:
        return "%r: %s" % (items[i], traceback.format_exc())
    return c.obl, c.undecided, c.viol, c.samples, c.notes, c.extra


def main(pid):
    sys.setrecursionlimit(20000)
    import importlib
    try:
        mod = importlib.import_module("an.checks." + pid.lower())
        chk = mod.check()
        rc = chk.finish()
    except AnalysisBroken as e:
        print("ANALYSIS-BROKEN: %s" % e)
        rc = 3
    except Exception:
        traceback.print_exc()
        rc = 4
    sys.stdout.flush()
    return rc
