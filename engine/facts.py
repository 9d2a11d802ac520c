"""Extraction of the type-checked program of /repo and the model classes used by all rules."""
import json, os, subprocess, sys, shutil, tempfile, re, fcntl

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("LE_REPO", "/repo")
DRIVER_DIR = os.path.join(VERIF, "driver")


class ExtractError(Exception):
    pass


def _sysroot():
    return subprocess.check_output(["rustc", "+nightly", "--print", "sysroot"], text=True).strip()


def driver_path():
    return os.path.join(DRIVER_DIR, "target", "release", "le_facts")


def build_driver():
    lock = open(os.path.join(tempfile.gettempdir(), ".le_facts_build.lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        p = driver_path()
        srcs = [os.path.join(DRIVER_DIR, "src", f) for f in os.listdir(os.path.join(DRIVER_DIR, "src"))]
        if os.path.exists(p) and all(os.path.getmtime(p) >= os.path.getmtime(s) for s in srcs):
            return p
        r = subprocess.run(["cargo", "+nightly", "build", "--release", "--offline"], cwd=DRIVER_DIR,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0 or not os.path.exists(p):
            raise ExtractError("driver build failed:\n" + r.stdout[-3000:])
        os.utime(p)
        return p
    finally:
        lock.close()


def extract(repo=None, keep=None):
    """Type-check the library crate of `repo` with the wrapper and return the fact document."""
    repo = repo or REPO
    drv = build_driver()
    td = tempfile.mkdtemp(prefix="lefacts.")
    try:
        out = os.path.join(td, "facts.json")
        env = dict(os.environ)
        env["LD_LIBRARY_PATH"] = os.path.join(_sysroot(), "lib")
        env["LE_FACTS_OUT"] = out
        env["RUSTC_WORKSPACE_WRAPPER"] = drv
        env["CARGO_TARGET_DIR"] = os.path.join(td, "target")
        env.pop("RUSTFLAGS", None)
        r = subprocess.run(["cargo", "+nightly", "check", "--offline", "--lib", "-p", "little_exif"],
                           cwd=repo, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0 or not os.path.exists(out):
            raise ExtractError("extraction failed (rc=%d):\n%s" % (r.returncode, r.stdout[-4000:]))
        with open(out) as fh:
            doc = json.load(fh)
        if keep:
            shutil.copy(out, keep)
        return doc
    finally:
        shutil.rmtree(td, ignore_errors=True)


_gen = re.compile(r"::<")


def norm(name):
    """Strip `::<...>` generic segments: std::vec::Vec::<T, A>::len -> std::vec::Vec::len."""
    out = []
    i = 0
    n = len(name)
    while i < n:
        if name.startswith("::<", i) and not name.startswith("::<impl", i):
            d = 0
            j = i + 2
            while j < n:
                ch = name[j]
                if ch == "<":
                    d += 1
                elif ch == ">" and name[j - 1] != "-":
                    d -= 1
                    if d == 0:
                        break
                j += 1
            i = j + 1
        else:
            out.append(name[i])
            i += 1
    return "".join(out)


class Fn:
    __slots__ = ("path", "d", "blocks", "locals", "argc", "name", "kind", "file", "line", "pub", "succ", "rpo",
                 "_lb", "live_in", "loop_heads", "dropflags", "self_ty", "trait", "_dom", "upvars", "macros")

    def __init__(self, d):
        self.d = d
        self.path = d["path"]
        self.kind = d["kind"]
        self.name = d.get("name") or self.path.split("::")[-1]
        self.blocks = d["blocks"]
        self.locals = d["locals"]
        self.argc = d["argc"]
        self.file, self.line = d["sp"][0], d["sp"][1]
        self.macros = d["sp"][3]
        self.pub = d.get("pub")
        self.self_ty = d.get("self_ty")
        self.trait = d.get("impl_trait")
        self.upvars = d.get("upvars", [])
        self._dom = None
        self._lb = None
        self.succ = [self._succ(b) for b in self.blocks]
        self._rpo()
        self._live()

    @staticmethod
    def _succ(b):
        t = b["t"]
        k = t["t"]
        if k == "goto" or k == "drop" or k == "assert":
            return [t["to"]]
        if k == "switch":
            return list(dict.fromkeys([a[1] for a in t["arms"]] + [t["else"]]))
        if k == "call":
            return [] if t["to"] is None else [t["to"]]
        if k == "other":
            return list(t.get("succ", []))
        return []

    def _rpo(self):
        seen = set()
        order = []
        stack = [(0, iter(self.succ[0]))]
        seen.add(0)
        onstk = {0}
        heads = set()
        while stack:
            b, it = stack[-1]
            adv = False
            for s in it:
                if s in onstk:
                    heads.add(s)
                if s not in seen:
                    seen.add(s)
                    onstk.add(s)
                    stack.append((s, iter(self.succ[s])))
                    adv = True
                    break
            if not adv:
                order.append(b)
                onstk.discard(b)
                stack.pop()
        order.reverse()
        self.rpo = {b: i for i, b in enumerate(order)}
        self.loop_heads = heads

    # ---- liveness of locals (address-taken locals stay live once borrowed) ----
    def _live(self):
        def pl_use(p, out):
            out.add(p[0])
            for e in p[1:]:
                if isinstance(e, list) and e[0] == "i":
                    out.add(e[1])

        def op_use(o, out):
            if o.get("k") in ("copy", "move"):
                pl_use(o["p"], out)

        def rv_use(v, out):
            for k in ("o", "a", "b"):
                if k in v and isinstance(v[k], dict):
                    op_use(v[k], out)
            if "p" in v:
                pl_use(v["p"], out)
            for o in v.get("ops", []):
                op_use(o, out)

        n = len(self.blocks)
        borrowed = set()
        for b in self.blocks:
            for s in b["s"]:
                v = s.get("v")
                if v and v["r"] in ("ref", "rawptr"):
                    p = v["p"]
                    if "*" not in p[1:]:
                        borrowed.add(p[0])
        gen = [None] * n
        kill = [None] * n
        for i, b in enumerate(self.blocks):
            g, k = set(), set()

            def use(u):
                g.update(x for x in u if x not in k)
            for s in b["s"]:
                if "setdiscr" in s:
                    use({s["setdiscr"][0]})
                    continue
                u = set()
                rv_use(s["v"], u)
                p = s["p"]
                if len(p) > 1:
                    pl_use(p, u)
                use(u)
                if len(p) == 1:
                    k.add(p[0])
            t = b["t"]
            u = set()
            if t["t"] == "switch" or t["t"] == "assert":
                op_use(t["o"], u)
                for o in t.get("ops", []):
                    op_use(o, u)
            elif t["t"] == "call":
                for a in t["args"]:
                    op_use(a, u)
                op_use(t["f"], u)
                if len(t["d"]) > 1:
                    pl_use(t["d"], u)
            elif t["t"] == "drop":
                pl_use(t["p"], u)
            elif t["t"] == "return":
                u.add(0)
            use(u)
            gen[i], kill[i] = g, k
        live_in = [set() for _ in range(n)]
        ch = True
        order = sorted(self.rpo, key=lambda b: -self.rpo[b])
        while ch:
            ch = False
            for i in order:
                out = set()
                for s in self.succ[i]:
                    out |= live_in[s]
                t = self.blocks[i]["t"]
                if t["t"] == "call" and len(t["d"]) == 1:
                    out.discard(t["d"][0])
                new = gen[i] | (out - kill[i])
                if new != live_in[i]:
                    live_in[i] = new
                    ch = True
        self.live_in = [frozenset(l | borrowed) for l in live_in]
        # drop flags: unnamed bool locals whose switches lead straight to a drop
        df = set()
        cand = {i for i, l in enumerate(self.locals) if l[0] == "bool" and l[1] is None and i > self.argc}
        for c in cand:
            ok, used = True, False
            for b in self.blocks:
                t = b["t"]
                if t["t"] == "switch" and t["o"].get("p") == [c]:
                    used = True
                    if not any(not self.blocks[s]["s"] and self.blocks[s]["t"]["t"] == "drop" for s in self._succ(b)):
                        ok = False
                for s in b["s"]:
                    if s.get("p") == [c] and not (s["v"]["r"] == "use" and s["v"]["o"].get("k") == "const"):
                        ok = False
                if t["t"] == "call" and t["d"] == [c]:
                    ok = False
            if ok:
                df.add(c)
        self.dropflags = df

    def loop_body(self, head):
        """blocks of the natural loop of `head`"""
        c = getattr(self, "_lb", None)
        if c is None:
            c = self._lb = {}
        if head not in c:
            preds = {}
            for b in self.rpo:
                for s in self.succ[b]:
                    preds.setdefault(s, []).append(b)
            body = {head}
            st = [b for b in preds.get(head, []) if self.rpo[b] >= self.rpo[head]]
            while st:
                b = st.pop()
                if b in body:
                    continue
                body.add(b)
                st.extend(preds.get(b, []))
            c[head] = body
        return c[head]

    # ---- dominators ----
    def dom(self):
        if self._dom is None:
            nodes = sorted(self.rpo, key=lambda b: self.rpo[b])
            preds = {b: [] for b in nodes}
            for b in nodes:
                for s in self.succ[b]:
                    preds[s].append(b)
            full = set(nodes)
            dom = {b: full for b in nodes}
            dom[0] = {0}
            ch = True
            while ch:
                ch = False
                for b in nodes:
                    if b == 0:
                        continue
                    d = None
                    for p in preds[b]:
                        d = set(dom[p]) if d is None else d & dom[p]
                    d = (d or set()) | {b}
                    if d != dom[b]:
                        dom[b] = d
                        ch = True
            self._dom = dom
        return self._dom

    def calls(self):
        for i, b in enumerate(self.blocks):
            if b["cleanup"] or i not in self.rpo:
                continue
            t = b["t"]
            if t["t"] == "call":
                yield i, t

    def loc(self, sp):
        return "%s:%d" % (sp[0], sp[1])


class Prog:
    def __init__(self, doc):
        self.doc = doc
        self.fns = {}
        for f in doc["fns"]:
            self.fns[f["path"]] = Fn(f)
        self.adts = {a["path"]: a for a in doc["adts"]}
        self.consts = {c["path"]: c for c in doc["consts"]}
        self.impls = doc["impls"]
        self.statics = doc["statics"]
        # trait method -> local implementations
        self.trait_impls = {}
        for im in self.impls:
            if im["trait"]:
                for it in im["items"]:
                    nm = it.rsplit("::", 1)[-1]
                    self.trait_impls.setdefault(im["trait"] + "::" + nm, []).append(it)
        self._cg = None

    # -- callee resolution: list of local function paths a call may reach
    def targets(self, t):
        fr = t["f"].get("fnref")
        if not fr:
            return []
        r = fr.get("res")
        if r and r in self.fns:
            return [r]
        if fr["fn"] in self.fns and not fr.get("trait"):
            return [fr["fn"]]
        if fr.get("trait") and fr["trait"].startswith("little_exif::"):
            key = fr["trait"] + "::" + fr["fn"].rsplit("::", 1)[-1]
            outs = [p for p in self.trait_impls.get(key, []) if p in self.fns]
            if fr["fn"] in self.fns:
                outs.append(fr["fn"])
            return outs
        if r and fr["fn"] in self.fns:
            return [fr["fn"]]
        return []

    def callgraph(self):
        """path -> set of local callees (closures belong to their creator)."""
        if self._cg is None:
            cg = {}
            for p, f in self.fns.items():
                s = set()
                for i, b in enumerate(f.blocks):
                    if b["cleanup"] or i not in f.rpo:
                        continue
                    t = b["t"]
                    if t["t"] == "call":
                        s.update(self.targets(t))
                        for a in t["args"]:
                            if a.get("fnref"):
                                r = a["fnref"].get("res") or a["fnref"]["fn"]
                                if r in self.fns:
                                    s.add(r)
                            if a.get("closure") in self.fns:
                                s.add(a["closure"])
                        fr = t["f"].get("fnref")
                        if fr and fr["fn"].endswith("::into") and fr.get("trait") == "std::convert::Into":
                            for k, l in self.trait_impls.items():
                                if k == "std::convert::From::from":
                                    s.update(x for x in l if x in self.fns)
                    for st in b["s"]:
                        v = st.get("v")
                        if not v:
                            continue
                        if v["r"] == "agg" and v.get("kind") == "closure":
                            s.add(v["closure"])
                        for o in [v.get("o"), v.get("a"), v.get("b")] + list(v.get("ops", [])):
                            if isinstance(o, dict) and o.get("closure") in self.fns:
                                s.add(o["closure"])
                            if isinstance(o, dict) and o.get("fnref"):
                                r = o["fnref"].get("res") or o["fnref"]["fn"]
                                if r in self.fns:
                                    s.add(r)
                cg[p] = {x for x in s if x in self.fns}
            self._cg = cg
        return self._cg

    def reach(self, roots):
        cg = self.callgraph()
        seen = set()
        st = [r for r in roots if r in self.fns]
        while st:
            p = st.pop()
            if p in seen:
                continue
            seen.add(p)
            st.extend(cg[p] - seen)
        return seen

    def find(self, suffix):
        """The unique function whose path ends with `suffix`."""
        m = [p for p in self.fns if p.endswith(suffix)]
        if len(m) != 1:
            raise KeyError("anchor %r matches %d functions" % (suffix, len(m)))
        return self.fns[m[0]]


def load(repo=None):
    cached = os.environ.get("LE_FACTS_FILE")
    if cached:  # development only; MANIFEST commands never set it
        return Prog(json.load(open(cached)))
    return Prog(extract(repo))


if __name__ == "__main__":
    import sys
    if "--setup" in sys.argv:
        print(build_driver())
