#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]

Extracts the type-checked program (MIR) of /repo's current tree, runs the rule of the property on it,
writes evidence/<property>.json and reports every construct that breaks the rule."""
import warnings
warnings.filterwarnings("ignore", category=DeprecationWarning)
import importlib, json, os, sys, time, traceback, argparse

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(30000)
import threading
threading.stack_size(512 * 1024 * 1024)
from facts import VERIF, REPO, load, ExtractError

KNOWN = os.path.join(VERIF, "known_findings.txt")


class Ctx:
    def __init__(self, pid, tier, prog):
        self.pid, self.tier, self.p = pid, tier, prog
        self.viol = {}
        self.obl = 0
        self.dis = 0
        self.counts = {}
        self.floors = []
        self.samples = []
        self.notes = []
        self.kinds = {}
        self.und = {}

    def ok(self, what=None, n=1, kind=None):
        """n obligations discharged"""
        self.obl += n
        self.dis += n
        if kind:
            self.kinds[kind] = self.kinds.get(kind, 0) + n
        if what and len(self.samples) < 12:
            self.samples.append(what)

    def bad(self, key, msg, where="", path=""):
        """an obligation that fails; key identifies the construct without line numbers"""
        self.obl += 1
        if key not in self.viol:
            self.viol[key] = {"key": key, "what": msg, "where": where, "path": path}

    def undecided(self, key, msg):
        """the rule does not understand this construct: nothing is claimed about it"""
        self.und[key] = msg

    def parallel(self, jobs):
        """run the jobs (functions of a context) in child processes and merge what they report"""
        import pickle, tempfile
        kids = []
        for j in jobs:
            fd, path = tempfile.mkstemp(prefix="le_")
            os.close(fd)
            pid = os.fork()
            if pid == 0:
                rc = 1
                try:
                    c = Ctx(self.pid, self.tier, self.p)
                    try:
                        j(c)
                    except Exception as ex:
                        c.failed(ex)
                    with open(path, "wb") as fh:
                        pickle.dump((c.viol, c.obl, c.dis, c.counts, c.samples, c.notes, c.kinds, c.und), fh)
                    rc = 0
                finally:
                    os._exit(rc)
            kids.append((pid, path))
        for pid, path in kids:
            os.waitpid(pid, 0)
            try:
                with open(path, "rb") as fh:
                    viol, obl, dis, counts, samples, notes, kinds, und = pickle.load(fh)
            except Exception:
                self.undecided("child", "an analysis process did not finish")
                continue
            finally:
                os.unlink(path)
            for k, v in viol.items():
                self.viol.setdefault(k, v)
            self.obl += obl
            self.dis += dis
            for k, v in counts.items():
                self.counts[k] = self.counts.get(k, 0) + v
            for k, v in kinds.items():
                self.kinds[k] = self.kinds.get(k, 0) + v
            for x in samples:
                self.sample(x)
            self.notes += notes
            self.und.update(und)

    def failed(self, ex):
        traceback.print_exc()
        if isinstance(ex, KeyError):
            self.undecided("anchor-missing", "a construct the rule is anchored on does not exist: %s" % ex)
        else:
            self.undecided("analysis-failed:%s" % type(ex).__name__, "the rule could not be decided on this tree: %r" % str(ex)[:200])

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def floor(self, name, minimum):
        """fail closed when fewer instances than confirmed by hand were analysed"""
        self.floors.append((name, minimum))

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)

    def note(self, s):
        self.notes.append(s)


def known(pid):
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith("finding: property=%s " % pid):
                rest = line[len("finding: property=%s " % pid):]
                key, _, what = rest.partition(" :: ")
                out[key.strip()[len("key="):] if key.startswith("key=") else key.strip()] = what
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    pid = a.pid
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    t0 = time.time()
    evd = os.path.join(VERIF, "evidence")
    os.makedirs(evd, exist_ok=True)
    rule = importlib.import_module("rules." + pid.lower())
    try:
        prog = load()
    except ExtractError as ex:
        print(str(ex))
        print("cannot analyse the tree: it does not type-check")
        return 2
    c = Ctx(pid, tier, prog)
    try:
        rule.run(c)
    except Exception as ex:
        c.failed(ex)
    for name, mn in c.floors:
        n = c.counts.get(name, 0)
        if n < mn and not c.und:
            c.bad("floor:%s" % name, "only %d instances of '%s' analysed, at least %d expected" % (n, name, mn))
    kn = known(pid)
    new = {k: v for k, v in c.viol.items() if k not in kn}
    for k in sorted(set(c.viol) & set(kn)):
        print("KNOWN-FINDING: property=%s %s" % (pid, kn[k] or c.viol[k]["what"]))
    for k in sorted(c.und):
        print("UNDECIDED: property=%s %s: %s" % (pid, k, c.und[k]))
    wall = time.time() - t0
    meta = rule.META
    cov = {
        "obligations": c.obl,
        "discharged": c.dis,
        "checker_cmd": "python3 engine/check.py %s --tier %s" % (pid, tier),
        "trusted_base": ["rustc nightly type checker and MIR construction", "engine/absint.py (abstract domain)",
                         "engine/models.py (models of std functions)", "engine/rules/%s.py" % pid.lower()] + meta.get("trusted", []),
        "explanation": meta["explanation"],
        "rule": meta["rule"],
        "functions_in_program": len(prog.fns),
        "analysed": c.counts,
        "obligation_kinds": c.kinds,
        "samples": c.samples,
        "known_findings": sorted(set(c.viol) & set(kn)),
        "exhaustive": bool(meta.get("exhaustive")),
    }
    if c.und:
        cov["undecided"] = c.und
        cov["exhaustive"] = False
    if c.notes:
        cov["notes"] = c.notes[:60]
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": meta["level"],
          "coverage": cov, "assumptions": meta.get("assumptions", []), "wall_s": round(wall, 2), "violations": len(new)}
    with open(os.path.join(evd, pid + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1, default=str)
    rp = os.path.join(evd, pid + ".violations.json")
    if os.path.exists(rp):
        os.unlink(rp)
    print("%s [%s] %s: %d obligations, %d discharged, %d findings listed as known, %d violations, %.1f s; analysed %s" % (
        pid, tier, meta["rule"][:100], c.obl, c.dis, len(set(c.viol) & set(kn)), len(new), wall, json.dumps(c.counts)))
    if new:
        with open(rp, "w") as fh:
            json.dump(list(new.values()), fh, indent=1)
        for k in sorted(new)[:25]:
            v = new[k]
            print("  - %s\n      at %s\n      %s%s" % (k, v["where"], v["what"], ("\n      path: " + v["path"]) if v["path"] else ""))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    return 0


_rc = [2]


def _t():
    _rc[0] = main()


if __name__ == "__main__":
    th = threading.Thread(target=_t)
    th.start()
    th.join()
    sys.exit(_rc[0])
