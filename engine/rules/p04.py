"""Reading never changes a file; no operation touches another file than the one it is given."""
from lib import *

META = {
    "level": "proof",
    "exhaustive": True,
    "rule": "in the call graph (trait objects and closures resolved to every candidate) no reading operation reaches a call that opens a file for writing, creates, replaces or removes one, or acts outside "
            "the process; every path handed to the file system is the caller's own path",
    "explanation": "Effects are the calls of std that open or change files, run programs, use the network or change the environment. The mode of an open is the constant (or the parameter, resolved at "
                   "the call sites) given to OpenOptions. A path operand is traced back through copies, references and conversions to a parameter of the public operation.",
    "assumptions": ["crates the library depends on (brotli, miniz_oxide, quick-xml, crc, log, paste) do not use the file system"],
}
MODES = {"write": 1, "append": 1, "truncate": 1, "create": 1, "create_new": 1}
PATHFX = {"write", "copy", "rename", "remove_file", "remove_dir", "remove_dir_all", "create_dir", "create_dir_all", "hard_link", "soft_link", "set_permissions"}
FILEFX = {"create", "create_new"}
READPATH = {"read", "read_to_string", "metadata", "symlink_metadata", "read_dir", "read_link", "canonicalize", "exists"}
# operations that only pass a path on
SAMEPATH = {"as_ref", "deref", "new", "borrow", "clone", "to_path_buf", "to_owned", "as_path", "into", "from", "as_os_str", "as_str", "to_str", "to_string_lossy", "canonicalize",
            "unwrap", "expect", "branch", "unwrap_or", "ok_or", "ok", "into_os_string", "as_mut_os_str", "into_boxed_path", "try_into", "into_owned"}
DERIVE = {"join", "with_extension", "with_file_name", "parent", "set_extension", "set_file_name", "push", "pop", "temp_dir", "current_dir", "with_added_extension", "format", "file_name", "file_stem",
          "must_use", "add"}


def classify(name):
    """(effect kind, index of the argument that decides / path arguments)"""
    n = name.rsplit("::", 1)[-1]
    if name.startswith("std::fs::OpenOptions::") or name.startswith("std::os::unix::fs::OpenOptionsExt"):
        if n in MODES:
            return ("mode", n)
        if n == "open":
            return ("path", [1])
        return None
    if name.startswith("std::fs::File::") or name.startswith("std::fs::File>::"):
        if n in FILEFX:
            return ("mutate", [0])
        if n == "open":
            return ("path", [0])
        return None
    if name.startswith("std::fs::DirBuilder") or name.startswith("std::os::unix::fs::") and n in ("symlink", "chown", "lchown", "chroot"):
        return ("other", n)
    if name.startswith("std::fs::") and name.count("::") == 2:
        if n in PATHFX:
            return ("mutate", [0, 1] if n in ("copy", "rename", "hard_link", "soft_link") else [0])
        if n in READPATH:
            return ("path", [0])
    if name.startswith("std::path::Path::") and n in READPATH - {"read"}:
        return ("path", [0])
    if name.startswith(("std::process::", "std::net::", "std::os::unix::net::", "std::os::fd::", "core::arch", "libc::")):
        return ("outside", n)
    if name.startswith("std::env::") and n in ("set_var", "remove_var", "set_current_dir"):
        return ("outside", n)
    return None


class Fn:
    def __init__(self, f):
        self.f = f
        self.defs = {}
        self.calls = []
        self.refs = set()
        self.muts = {}
        for bi, b in enumerate(f.blocks):
            if b.get("cleanup"):
                continue
            for s in b["s"]:
                if "v" not in s or "p" not in s:
                    continue
                if len(s["p"]) == 1:
                    self.defs.setdefault(s["p"][0], []).append(("rv", s["v"]))
                else:
                    self.defs.setdefault(s["p"][0], []).append(("part", s["v"]))
                self.scan(s["v"])
            t = b["t"]
            if t.get("t") == "call":
                fr = t["f"].get("fnref") if isinstance(t["f"], dict) else None
                self.calls.append((bi, t, fr))
                self.defs.setdefault(t["d"][0], []).append(("call", t, fr))
                for a in t["args"]:
                    self.scan(a)

    def scan(self, v):
        """functions and closures mentioned as values"""
        if isinstance(v, dict):
            if "fnref" in v:
                self.refs.add(norm(v["fnref"].get("res") or v["fnref"]["fn"]))
            if v.get("kind") == "closure":
                for k in ("def", "closure", "adt", "path"):
                    if isinstance(v.get(k), str):
                        self.refs.add(norm(v[k]))
            for x in v.values():
                self.scan(x)
        elif isinstance(v, list):
            for x in v:
                self.scan(x)

    def sources(self, op, seen=None):
        """where the value of an operand comes from: ("const", value) ("param", i) ("call", name) ("?",)"""
        seen = seen if seen is not None else set()
        if not isinstance(op, dict):
            return {("?",)}
        if op.get("k") == "const":
            return {("const", str(op.get("v")))}
        pl = op.get("p")
        return self.place(pl, seen) if pl else {("?",)}

    def place(self, pl, seen):
        l = pl[0]
        if l in seen:
            return set()
        seen.add(l)
        if 1 <= l <= self.f.argc:
            out = {("param", l - 1) if len([x for x in pl[1:] if x != "*"]) == 0 else ("field", l - 1)}
            return out
        out = set()
        for d in self.defs.get(l, ()):
            if d[0] in ("rv", "part"):
                out |= self.rvalue(d[1], seen)
            else:
                t, fr = d[1], d[2]
                n = norm(fr["fn"]) if fr else "?"
                last = n.rsplit("::", 1)[-1]
                if last in SAMEPATH and t["args"] and not n.startswith("little_exif"):
                    out |= self.sources(t["args"][0], seen)
                else:
                    out.add(("call", n))
        return out or {("?",)}

    def rvalue(self, v, seen):
        if not isinstance(v, dict):
            return {("?",)}
        r = v.get("r")
        if r in ("use", "cast"):
            o = v.get("o")
            return self.sources(o, seen)
        if r in ("ref", "rawptr", "copyref", "addr"):
            return self.place(v["p"], seen)
        if r == "agg":
            out = set()
            for o in v.get("ops", ()):
                out |= self.sources(o, seen)
            return out or {("?",)}
        return {("?",)}


def run(c):
    p = c.p
    F = {k: Fn(f) for k, f in p.fns.items()}
    by_last = {}
    for k in F:
        by_last.setdefault(k.rsplit("::", 1)[-1], []).append(k)

    def targets(fr):
        """functions of the crate a call may run"""
        out = set()
        for n in (fr.get("res"), fr["fn"]):
            if n and norm(n) in F:
                out.add(norm(n))
        if not out or fr.get("reskind") == "Virtual":
            n = norm(fr["fn"])
            if n.startswith("little_exif"):
                last = n.rsplit("::", 1)[-1]
                tr = n.rsplit("::", 2)[-2] if n.count("::") > 1 else ""
                out |= {k for k in by_last.get(last, ()) if tr in k}
        return out

    edges = {k: set() for k in F}
    for k, f in F.items():
        for r in f.refs:
            if r in F:
                edges[k].add(r)
        for bi, t, fr in f.calls:
            if fr:
                edges[k] |= targets(fr)
        for q in F:
            if q.startswith(k + "::{closure"):
                edges[k].add(q)
    # ---- effects, possibly depending on a parameter
    fx = {k: set() for k in F}
    where = {}
    for k, f in F.items():
        for bi, t, fr in f.calls:
            if not fr:
                continue
            n = norm(fr["fn"])
            cl = classify(n)
            if cl is None:
                continue
            sp = t["sp"]
            loc = "%s:%d (%s)" % (sp[0], sp[1], k)
            if cl[0] == "mode":
                src = f.sources(t["args"][1]) if len(t["args"]) > 1 else {("?",)}
                for s in src:
                    if s == ("const", "False") or s == ("const", "false") or s == ("const", "0"):
                        continue
                    e = ("open." + cl[1], s[1] if s[0] == "param" else None, s[0] == "?")
                    fx[k].add(e)
                    where.setdefault((k, e), loc)
            elif cl[0] in ("mutate", "other", "outside"):
                e = (n, None, False)
                fx[k].add(e)
                where.setdefault((k, e), loc)
    direct = {k: set(v) for k, v in fx.items()}
    callers = {k: [] for k in F}
    for k, f in F.items():
        for bi, t, fr in f.calls:
            if fr:
                for g in targets(fr):
                    callers[g].append((k, t, f))
    # effects conditional on a parameter become effects of the caller, by the argument given there
    changed = True
    while changed:
        changed = False
        for g in F:
            for e in list(fx[g]):
                if e[1] is None:
                    continue
                for k, t, f in callers[g]:
                    if e[1] >= len(t["args"]):
                        continue
                    for s in f.sources(t["args"][e[1]]):
                        if s[0] == "const" and s[1].lower() in ("false", "0"):
                            continue
                        ne = (e[0], s[1] if s[0] == "param" else None, s[0] not in ("const", "param"))
                        if ne not in fx[k]:
                            fx[k].add(ne)
                            where.setdefault((k, ne), "%s:%d (%s)" % (t["sp"][0], t["sp"][1], k))
                            changed = True

    def reach(k):
        seen, todo, via = {k}, [k], {k: None}
        while todo:
            x = todo.pop()
            for y in edges[x]:
                if y not in seen:
                    seen.add(y)
                    via[y] = x
                    todo.append(y)
        return seen, via

    def path_to(via, k):
        out = []
        while k is not None:
            out.append(k.replace("little_exif::", ""))
            k = via[k]
        return " <- ".join(out)
    writers = ("write_to_file", "file_clear_metadata", "file_clear_app12_segment", "file_clear_app13_segment")
    pub = [k for k, f in p.fns.items() if getattr(f, "exported", None) or getattr(f, "pub", None)]
    roots = [k for k in pub if k.rsplit("::", 1)[-1] not in writers and reachable_api(p, k)]
    readers = [k for k in roots if k.rsplit("::", 1)[-1] in ("new_from_path", "new_from_vec")]
    if len(readers) < 2:
        raise KeyError("reading operations")
    for k in roots:
        seen, via = reach(k)
        c.count("operations that must not change files")
        for g in sorted(seen):
            for e in fx[g]:
                if e[1] is not None:
                    continue
                if e[2]:
                    c.undecided("mode:%s" % g, "the mode a file is opened with is not a constant")
                    continue
                if k in readers or e[0].startswith("std::"):
                    c.bad("reads:%s:%s" % (g.replace("little_exif::", ""), e[0].rsplit("::", 1)[-1]), "reading reaches a call that %s" % what(e[0]), where[(g, e)], path_to(via, g))
                else:
                    c.bad("pure:%s:%s:%s" % (k.rsplit("::", 1)[-1], g.replace("little_exif::", ""), e[0]), "%s reaches a call that %s" % (k.rsplit("::", 1)[-1], what(e[0])), where[(g, e)], path_to(via, g))
        c.ok("%s reaches %d functions, none that changes a file" % (k.replace("little_exif::", ""), len(seen)), kind="reads")
    # writers: nothing but the given file
    for k, es in direct.items():
        for e in es:
            n = e[0].rsplit("::", 1)[-1]
            if e[0].startswith("std::") and not (e[0].startswith("std::fs::") and n in ("write", "create")):
                c.bad("beyond:%s:%s" % (k.replace("little_exif::", ""), n), "a call that %s: more than the content of the given file changes" % what(e[0]), where[(k, e)])
    # paths
    pathpar = {k: set() for k in F}
    sites = []
    for k, f in F.items():
        for bi, t, fr in f.calls:
            if not fr:
                continue
            cl = classify(norm(fr["fn"]))
            if cl and cl[0] in ("path", "mutate"):
                for i in cl[1]:
                    if i < len(t["args"]):
                        sites.append((k, t, i, norm(fr["fn"])))
    todo, done = list(sites), set()
    while todo:
        k, t, i, name = todo.pop()
        f = F[k]
        key = (k, id(t), i)
        if key in done:
            continue
        done.add(key)
        c.count("path operands traced")
        loc = "%s:%d (%s)" % (t["sp"][0], t["sp"][1], k)
        bad = None
        src = f.sources(t["args"][i])
        roots_ = locals_of(f, t["args"][i])
        for bi2, t2, fr2 in f.calls:
            if fr2 and norm(fr2["fn"]).rsplit("::", 1)[-1] in ("set_extension", "set_file_name", "push", "pop") and "Path" in norm(fr2["fn"]) and t2["args"] and locals_of(f, t2["args"][0]) & roots_:
                bad = norm(fr2["fn"])
        for s in src:
            if s[0] == "const":
                bad = "constant %s" % s[1]
            elif s[0] == "call":
                last = s[1].rsplit("::", 1)[-1]
                if last in DERIVE or s[1].startswith("std::env::"):
                    bad = s[1]
                else:
                    c.undecided("path:%s" % k, "the origin of a path is not recognised: %s" % s[1])
            elif s[0] == "param":
                if s[1] not in pathpar[k]:
                    pathpar[k].add(s[1])
                    for kk, tt, ff in callers[k]:
                        if s[1] < len(tt["args"]):
                            todo.append((kk, tt, s[1], k))
            elif s[0] == "field" and "{closure" not in k:
                c.undecided("path:%s" % k, "a path is taken out of a structure")
        if bad:
            c.bad("path:%s:%s" % (k.replace("little_exif::", ""), name.rsplit("::", 1)[-1]), "a file is accessed at a path other than the one given to the operation (%s)" % bad, loc)
        else:
            c.ok("%s in %s works on the path given" % (name.rsplit("::", 1)[-1], k.replace("little_exif::", "")), kind="path")
    c.floor("path operands traced", 15)
    c.floor("operations that must not change files", 20)


def locals_of(f, op, d=0):
    out = set()
    pl = op.get("p") if isinstance(op, dict) else None
    if not pl:
        return out
    todo = [pl[0]]
    while todo:
        l = todo.pop()
        if l in out:
            continue
        out.add(l)
        for x in f.defs.get(l, ()):
            if x[0] in ("rv", "part") and isinstance(x[1], dict):
                v = x[1]
                if v.get("r") in ("ref", "rawptr", "copyref") and v.get("p"):
                    todo.append(v["p"][0])
                elif v.get("r") in ("use", "cast") and isinstance(v.get("o"), dict) and v["o"].get("p"):
                    todo.append(v["o"]["p"][0])
            elif x[0] == "call" and x[2] and norm(x[2]["fn"]).rsplit("::", 1)[-1] in ("deref", "deref_mut", "as_ref", "borrow", "as_path") and x[1]["args"] and x[1]["args"][0].get("p"):
                todo.append(x[1]["args"][0]["p"][0])
    return out


def what(e):
    n = e.rsplit("::", 1)[-1]
    if e.startswith("open."):
        return {"write": "opens a file for writing", "append": "opens a file for appending", "truncate": "empties a file", "create": "creates a file", "create_new": "creates a file"}[e[5:]]
    if e.startswith("std::fs"):
        return "changes the file system (%s)" % n
    return "acts outside the process (%s)" % e


def reachable_api(p, k):
    return k.startswith(("little_exif::metadata::", "<little_exif::metadata::", "little_exif::ifd::", "little_exif::exif_tag::", "little_exif::filetype::", "<little_exif::filetype::",
                         "little_exif::rational::", "little_exif::u8conversion::"))
