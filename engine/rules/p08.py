"""The metadata store: what was set is there, in the right directory, once; removing and asking act on exactly the tags meant."""
from lib import *
from exact import Exact, items_of
from oracle_tags import TAGS
import itertools

META = {
    "level": "other",
    "exhaustive": True,
    "rule": "each store operation maps every shape of the directory tree to the shape the reference store gives: the same tags (by identity of their unknown values) in the same directories",
    "explanation": "Each public operation on Metadata and ImageFileDirectory is evaluated abstractly on every directory tree up to a bound (all sub-sets of directories of up to three images "
                   "that can arise, with tags placed so that numbers collide across and inside directories); tag values are symbols, so identity of a value is identity of its symbol. "
                   "The code looks at tags only through their number and kind, so a larger tree differs only in how many elements are passed over.",
    "assumptions": ["std's Vec, slice and iterator operations behave as documented"],
}
KINDS = ("GENERIC", "EXIF", "INTEROP", "GPS")
KIND = {"0": "GENERIC", "E": "EXIF", "G": "GPS", "I": "INTEROP"}
PARENT = {"EXIF": "GENERIC", "GPS": "GENERIC", "INTEROP": "EXIF", "GENERIC": None}


class World:
    def __init__(self, p):
        self.p = p
        self.le = agg(ENDIAN, vidx(p, ENDIAN, "Little"), ())
        fs = [n for n, _ in p.adts[METADATA]["variants"][0]["fields"]]
        self.mf = fs
        self.me, self.mi = fs.index("endian"), fs.index("image_file_directories")
        tys = dict(p.adts[METADATA]["variants"][0]["fields"])
        self.dirs_ty = tys["image_file_directories"]
        fs = [n for n, _ in p.adts[IFD]["variants"][0]["fields"]]
        self.it, self.ik, self.inr = fs.index("tags"), fs.index("ifd_type"), fs.index("belongs_to_generic_ifd_nr")
        if len(self.mf) != 2 or len(fs) != 3:
            raise KeyError("fields of Metadata or ImageFileDirectory")
        self.tags_ty = dict(p.adts[IFD]["variants"][0]["fields"])["tags"]
        self.kinds = {vidx(p, GRP, k): k for k in KINDS}
        if len(p.adts[GRP]["variants"]) != 4:
            raise KeyError("a kind of directory other than %s" % (KINDS,))
        self.number = {}

    def kind(self, k):
        return agg(GRP, vidx(self.p, GRP, k), ())

    def lst(self, xs, ty):
        return mk("vec", agg("array", 0, xs), C(len(xs)), ty=ty)

    def ifd(self, k, n, tags):
        f = [None] * 3
        f[self.it], f[self.ik], f[self.inr] = self.lst(tags, self.tags_ty), self.kind(k), C(n)
        return agg(IFD, 0, f)

    def meta(self, dirs, endian=None):
        """dirs: list of ((kind, nr), [tag, ...])"""
        f = [None] * 2
        f[self.me] = endian or self.le
        f[self.mi] = self.lst([self.ifd(k, n, ts) for (k, n), ts in dirs], self.dirs_ty)
        return agg(METADATA, 0, f)

    def tag(self, name, tag):
        return variant(self.p, TAG, name, tag=tag)

    def unknown(self, num, k, tag, fmt="INT8U"):
        fs = self.p.adts[TAG]["variants"][vidx(self.p, TAG, "Unknown" + fmt)]["fields"]
        vals = []
        for n, ty in fs:
            vals.append(C(num) if ty == "u16" else self.kind(k) if ty == GRP else sym("%sUnknown%s.%s" % (tag, fmt, n), ty))
        return variant(self.p, TAG, "Unknown" + fmt, vals)

    # reading results back
    def num(self, t):
        """(number, kind) of a tag value"""
        if t.op != "agg" or t.a[0] != TAG:
            return None
        n = vname(self.p, TAG, t.a[1])
        if n in TAGS:
            return TAGS[n][0], KIND[TAGS[n][2]]
        num = [x.a[0] for x in t.a[2] if is_c(x)]
        k = [self.kinds[x.a[1]] for x in t.a[2] if x.op == "agg" and x.a[0] == GRP]
        return (num[0], k[0]) if len(num) == 1 and len(k) == 1 else None

    def read_ifd(self, e, st, d):
        d = e.val_deep(st, d)
        if d.op != "agg" or d.a[0] != IFD:
            return None
        k, n = e.val_deep(st, d.a[2][self.ik]), e.val_deep(st, d.a[2][self.inr])
        ts = items_of(e, st, e.val_deep(st, d.a[2][self.it]))
        if k.op != "agg" or not is_c(n) or ts is None:
            return None
        return (self.kinds[k.a[1]], n.a[0]), [e.val_deep(st, t) for t in ts]

    def read(self, e, st, m):
        m = e.val_deep(st, m)
        if m.op != "agg" or m.a[0] != METADATA:
            return None
        ds = items_of(e, st, m.a[2][self.mi])
        if ds is None:
            return None
        out = [self.read_ifd(e, st, d) for d in ds]
        if None in out:
            return None
        return e.val_deep(st, m.a[2][self.me]), out


class Undecided(Exception):
    pass


class Run:
    """one evaluation: outcomes are (engine, state, return value)"""

    def __init__(self, w, fn, args, env, again=None, budget=30000):
        h = Exact()
        self.outs = []

        def on_return(e, st, fn_, ret):
            if fn_ is fn:
                self.outs.append((e, st, ret))
        h.on_return = on_return

        def setup(st, a):
            if again is not None:
                st.env.update(again.env)
            for k, v in env.items():
                st.env[k] = v
        e = Engine(w.p, h, numeric=True, budget=budget, deadline=90, unroll=14, max_parts=100000)
        e.recurse, e.exact = 5, True
        e.analyse(fn, args=args, setup=setup)
        tops = [o for o in self.outs if len(o) == 3]
        self.outs = tops


def place(name, ty):
    return mk("sym", ("in", name), ty=ty)


ME = place("self", "&mut " + METADATA)
MEI = place("self", "&mut " + IFD)


def show_dirs(w, dirs):
    def one(t):
        x = w.num(t)
        n = vname(w.p, TAG, t.a[1]) if t.op == "agg" and t.a[0] == TAG else show(t)[:40]
        return "%s(%s)" % (n, "0x%04x" % x[0] if x else "?")
    return "{%s}" % ", ".join("%s%d:[%s]" % (k, n, " ".join(one(t) for t in ts)) for (k, n), ts in dirs)


def same(got, want, ordered=False):
    """the same directories, each once, with the same tags"""
    if len({k for k, _ in got}) != len(got):
        return "a directory exists twice"
    g, w = dict(got), dict(want)
    for k in w:
        if k not in g:
            return "directory %s%d is missing" % k
    for k in g:
        if k not in w:
            return "directory %s%d appears" % k
        a, b = list(g[k]), list(w[k])
        for t in b:
            if t in a:
                a.remove(t)
            else:
                return "a tag of %s%d is lost or changed" % k
        if a:
            return "a tag too many in %s%d" % k
    return None


# ----------------------------------------------------------------------
# the reference store
def ref_create(dirs, k, n):
    out = [(d, list(t)) for d, t in dirs]
    while k and (k, n) not in [d for d, _ in out]:
        out.append(((k, n), []))
        k = PARENT[k]
    return out


def ref_put(w, tags, t):
    return [x for x in tags if w.num(x)[0] != w.num(t)[0]] + [t]


def ref_set(w, dirs, t, at=None):
    k, n = at or (w.num(t)[1], 0)
    out = ref_create(dirs, k, n)
    return [(d, ref_put(w, ts, t) if d == (k, n) else ts) for d, ts in out]


def ref_remove(w, dirs, num, kind):
    return [(d, [t for t in ts if not (d[0] == kind and w.num(t)[0] == num)]) for d, ts in dirs]


def shapes(w, deep=False):
    """directory trees that can arise, in the order the store keeps them in"""
    subs = [()]
    for n in range(1, 4):
        for c in itertools.combinations(("EXIF", "INTEROP", "GPS"), n):
            if "INTEROP" in c and "EXIF" not in c:
                continue
            subs.append(c)
    one = [("GENERIC",) + s for s in subs]
    trees = [[]]
    trees += [[(k, 0) for k in a] for a in one]
    few = [("GENERIC",), ("GENERIC", "EXIF", "INTEROP", "GPS"), ("GENERIC", "EXIF"), ("GENERIC", "GPS")]
    for a in few:
        for b in few if not deep else one:
            trees.append([(k, 0) for k in a] + [(k, 1) for k in b])
    for b in few:
        # directories of image 1 without image 0, a gap, and three images
        trees.append([(k, 1) for k in b])
        trees.append([("GENERIC", 0)] + [(k, 2) for k in b])
        trees.append([(k, 0) for k in few[1]] + [(k, 1) for k in few[2]] + [(k, 2) for k in b])
    return trees


NAMES = {"GENERIC": ("ImageDescription", "Model", "Copyright"), "EXIF": ("ISO", "ExifVersion", "Gamma"), "INTEROP": ("InteroperabilityIndex", "InteroperabilityVersion"),
         "GPS": ("GPSLatitudeRef", "GPSLatitude", "GPSHPositioningError")}


def fill(w, tree, mode):
    """tags for a tree. mode: empty / full / mixed (every other directory empty) / alike (the same numbers in every directory) / twice (a number twice in a row, and apart)"""
    out = []
    for i, (k, n) in enumerate(tree):
        if mode == "empty":
            ts = []
        elif mode == "full":
            ts = [w.tag(x, "%s%d." % (k, n)) for x in NAMES[k]]
        elif mode == "mixed":
            ts = [w.unknown(num, k, "%s%d.%x." % (k, n, num)) for num in (1, 0x110)] if i % 2 else []
        elif mode == "alike":
            ts = [w.unknown(num, k, "%s%d.%x." % (k, n, num)) for num in (1, 2, 0x110, 0xfdea)]
        else:
            ts = [w.unknown(num, k, "%s%d.%d." % (k, n, j), f) for j, (num, f) in enumerate(((1, "INT8U"), (1, "STRING"), (0x110, "INT16U"), (0x110, "INT8U"), (0x110, "STRING"), (0x8888, "INT32U")))]
        ts = sorted(ts, key=lambda t: w.num(t)[0])
        out.append(((k, n), ts))
    return out


# ----------------------------------------------------------------------
class Checker:
    def __init__(self, c, w):
        self.c, self.w, self.n = c, w, 0

    def metadata(self, op, fn, args, dirs, want, key, what, ret=None, where=None):
        """run an operation on a metadata value and compare the tree it leaves (want: None = unchanged)"""
        c, w = self.c, self.w
        r = Run(w, fn, [ME] + args, {("D", ME): w.meta(dirs)})
        self.verdict(op, fn, r, dirs, want, key, what, ret)

    def verdict(self, op, fn, r, dirs, want, key, what, ret=None):
        c, w = self.c, self.w
        want = dirs if want is None else want
        desc = "%s on %s" % (what, show_dirs(w, dirs))
        if not r.outs:
            return c.bad(key + ":panic", "%s does not return" % desc, W(fn))
        for e, st, rv in r.outs:
            got = w.read(e, st, st.env.get(("D", ME)))
            if got is None:
                raise Undecided("%s: the resulting directories are not known" % op)
            if got[0] is not w.le:
                return c.bad(key + ":endian", "%s changes the byte order" % desc, W(fn))
            d = same(got[1], want)
            if d:
                return c.bad(key, "%s: %s; leaves %s" % (desc, d, show_dirs(w, got[1])), W(fn))
            if ret is not None:
                d = ret(e, st, rv)
                if d:
                    return c.bad(key + ":result", "%s: %s" % (desc, d), W(fn))
        c.ok("%s" % desc[:160] if self.n % 97 == 0 else None, kind=op)
        self.n += 1


def sub_job(w, name, f, part, parts):
    def job(c):
        ch = Checker(c, w)
        jobs = list(f(c, w, ch))
        for i, (key, g) in enumerate(jobs):
            if i % parts != part:
                continue
            try:
                g()
                c.count(name)
            except Undecided as x:
                c.undecided("%s" % key, str(x))
            except (Budget, KeyError, TypeError, AttributeError, IndexError) as x:
                c.undecided("%s:%s" % (key, type(x).__name__), "%s could not be evaluated: %r" % (name, str(x)[:160]))
    return job


def targets(w):
    """tags to set, remove and look for"""
    ts = [w.tag(n, "new.") for n in ("Model", "ISO", "GPSLatitudeRef", "InteroperabilityIndex")]
    ts += [w.unknown(num, k, "new.") for num, k in ((1, "GENERIC"), (0x110, "EXIF"), (2, "INTEROP"), (0xfdea, "GPS"))]
    return ts


def u_set(c, w, ch):
    fn = method(w.p, METADATA, "set_tag")
    for tree in shapes(w, c.tier == "thorough"):
        for mode in ("empty", "full", "alike", "twice", "mixed"):
            dirs = fill(w, tree, mode)
            for t in targets(w):
                def g(dirs=dirs, t=t):
                    ch.metadata("set_tag", fn, [t], dirs, ref_set(w, dirs, t), "set_tag:%s" % w.num(t)[1], "setting %s(0x%04x) of kind %s" % ((vname(w.p, TAG, t.a[1]),) + w.num(t)))
                yield "set_tag", g


def u_set_all(c, w, ch):
    fn = method(w.p, METADATA, "set_tag")
    for name in sorted(TAGS):
        t = w.tag(name, "new.")
        for dirs in (fill(w, [], "empty"), fill(w, [(k, n) for n in (0, 1) for k in KINDS], "alike")):
            def g(dirs=dirs, t=t, name=name):
                ch.metadata("set_tag-variant", fn, [t], dirs, ref_set(w, dirs, t), "set_tag-variant:%s" % name, "setting %s" % name)
            yield "set_tag", g


def u_remove(c, w, ch):
    f1, f2 = method(w.p, METADATA, "remove_tag"), method(w.p, METADATA, "remove_tag_by_hex_group")
    for tree in shapes(w, c.tier == "thorough"):
        for mode in ("empty", "full", "alike", "twice", "mixed"):
            dirs = fill(w, tree, mode)
            for t in targets(w):
                num, k = w.num(t)

                def cnt(e, st, rv, dirs=dirs, num=num, k=k):
                    v = e.val_deep(st, rv)
                    if not is_c(v):
                        raise Undecided("remove_tag: the count is not known")
                    there = any(w.num(x)[0] == num for d, ts in dirs if d[0] == k for x in ts)
                    n = len([d for d, _ in dirs if d[0] == k])
                    if there and not v.a[0]:
                        return "returns 0 although a tag was removed"
                    if not n and v.a[0]:
                        return "returns %d although there is no such directory" % v.a[0]
                    return None

                def g1(dirs=dirs, t=t, num=num, k=k):
                    ch.metadata("remove_tag", f1, [t], dirs, ref_remove(w, dirs, num, k), "remove_tag:%s" % k, "removing 0x%04x of kind %s" % (num, k), cnt)

                def g2(dirs=dirs, t=t, num=num, k=k):
                    ch.metadata("remove_by_number", f2, [C(num), w.kind(k)], dirs, ref_remove(w, dirs, num, k), "remove_by_number:%s" % k, "removing number 0x%04x of kind %s" % (num, k), cnt)
                yield "remove_tag", g1
                yield "remove_tag_by_hex_group", g2


def u_remove_all(c, w, ch):
    f1 = method(w.p, METADATA, "remove_tag")
    for name in sorted(TAGS):
        t = w.tag(name, "q.")
        num, k = w.num(t)
        dirs = []
        for n in (0, 1):
            for kk in KINDS:
                ts = [w.unknown(x, kk, "%s%d.%x." % (kk, n, x)) for x in sorted({num, num ^ 1, num ^ 0x100})]
                dirs.append(((kk, n), ts))

        def g(dirs=dirs, t=t, name=name, num=num, k=k):
            ch.metadata("remove_tag-variant", f1, [t], dirs, ref_remove(w, dirs, num, k), "remove_tag-variant:%s" % name, "removing %s" % name)
        yield "remove_tag", g


def drive(ch, op, fn, args, dirs, want, key, what, slack=0):
    """run a function that gives an iterator and step the iterator to its end; it must give exactly the tags wanted"""
    c, w = ch.c, ch.w
    desc = "%s on %s" % (what, show_dirs(w, dirs))
    r = Run(w, fn, [ME] + args, {("D", ME): w.meta(dirs)})
    if len(r.outs) != 1:
        if not r.outs:
            return c.bad(key + ":panic", "%s does not return" % desc, W(fn))
        raise Undecided("%s: several outcomes" % op)
    e, st, it = r.outs[0]
    it = e.val(st, it) if it.op == "ref" else it
    got = []
    if it.op == "agg" and it.a[0] == "xit":
        got = [e.val_deep(st, x) for x in it.a[2]]
    else:
        if it.op != "agg":
            raise Undecided("%s: gives an iterator that is not understood" % op)
        nx = [f for k, f in w.p.fns.items() if k.endswith("Iterator>::next") and it.a[0].split("::")[-1] in k and k.startswith("<")]
        if len(nx) != 1:
            raise Undecided("%s: no single next() of %s" % (op, it.a[0]))
        cell = place("it", "&mut " + it.a[0])
        v = it
        for k in range(len(want) + 3):
            r = Run(w, nx[0], [cell], {("D", cell): v}, again=st)
            if len(r.outs) != 1:
                if not r.outs:
                    return c.bad(key + ":panic", "%s: stepping does not return" % desc, W(nx[0]))
                raise Undecided("%s: several outcomes of next()" % op)
            e, st, rv = r.outs[0]
            rv = e.val(st, rv) if rv.op == "ref" else rv
            if rv.op != "agg":
                raise Undecided("%s: next() gives an unknown value" % op)
            if rv.a[1] == 0:
                break
            got.append(e.val_deep(st, rv.a[2][0]))
            v = st.env[("D", cell)]
        else:
            return c.bad(key, "%s: gives more than the %d tags there are" % (desc, len(want)), W(nx[0]))
    rest = list(want)
    for t in got:
        if t.op in ("cref",):
            t = t.a[0]
        if t.op != "agg":
            raise Undecided("%s: gives an unknown tag" % op)
        if t not in rest:
            return c.bad(key, "%s: gives %s, which does not match or was given before" % (desc, show(t)[:80]), W(fn))
        rest.remove(t)
    if rest:
        return c.bad(key, "%s: does not give %s" % (desc, show(rest[0])[:80]), W(fn))
    now = w.read(e, st, st.env.get(("D", ME)))
    if now is None or same(now[1], dirs):
        return c.bad(key + ":changes", "%s changes the metadata" % desc, W(fn))
    c.ok(None, kind=op)


def u_get(c, w, ch):
    f1, f2 = method(w.p, METADATA, "get_tag"), method(w.p, METADATA, "get_tag_by_hex")
    all_ = [f for k, f in w.p.fns.items() if "IntoIterator for &" in k and "Metadata" in k and k.endswith("into_iter") or (k.startswith("<&") and "Metadata as std::iter::IntoIterator" in k)]
    for tree in shapes(w, c.tier == "thorough"):
        for mode in ("empty", "full", "alike", "twice", "mixed"):
            dirs = fill(w, tree, mode)
            for t in targets(w):
                num, k = w.num(t)
                want = [x for d, ts in dirs if d[0] == k for x in ts if w.num(x)[0] == num]

                def g1(dirs=dirs, t=t, want=want, num=num, k=k):
                    drive(ch, "get_tag", f1, [ref(t)], dirs, want, "get_tag:%s" % k, "asking for 0x%04x of kind %s" % (num, k))

                def g2(dirs=dirs, t=t, want=want, num=num, k=k):
                    drive(ch, "get_tag_by_hex", f2, [C(num), agg(OPTION, 1, (w.kind(k),))], dirs, want, "get_tag_by_hex:%s" % k, "asking for number 0x%04x of kind %s" % (num, k))
                yield "get_tag", g1
                yield "get_tag_by_hex", g2
            for num in (1, 0x110, 0xfdea):
                want = [x for d, ts in dirs for x in ts if w.num(x)[0] == num]

                def g3(dirs=dirs, num=num, want=want):
                    drive(ch, "get_tag_by_hex", f2, [C(num), agg(OPTION, 0, ())], dirs, want, "get_tag_by_hex:any", "asking for number 0x%04x of any kind" % num)
                yield "get_tag_by_hex", g3
            if len(all_) == 1:
                def g4(dirs=dirs):
                    drive(ch, "iterate", all_[0], [], dirs, [x for _, ts in dirs for x in ts], "iterate", "going through all tags")
                yield "iterate", g4
    if len(all_) != 1:
        def g():
            raise Undecided("no single IntoIterator for &Metadata")
        yield "iterate", g


def u_dirs(c, w, ch):
    gi, gm, cr, mx = (method(w.p, METADATA, x) for x in ("get_ifd", "get_ifd_mut", "create_ifd", "get_max_generic_ifd_number"))
    en = method(w.p, METADATA, "get_endian")
    gs = method(w.p, METADATA, "get_ifds")
    for tree in shapes(w, c.tier == "thorough"):
        for mode in ("empty", "alike"):
            dirs = fill(w, tree, mode)
            d = dict(dirs)
            for k in KINDS:
                for n in (0, 1, 2, 7):
                    def found(e, st, rv, k=k, n=n, d=d):
                        v = e.val(st, rv) if rv.op == "ref" else rv
                        if v.op != "agg" or v.a[0] != OPTION:
                            raise Undecided("get_ifd: unknown result")
                        if v.a[1] == 0:
                            return "not found" if (k, n) in d else None
                        x = w.read_ifd(e, st, v.a[2][0])
                        if x is None:
                            raise Undecided("get_ifd: unknown directory")
                        return None if (k, n) in d and x == ((k, n), d[(k, n)]) else "gives %s%d" % x[0]

                    def at(e, st, rv, k=k, n=n, d=d):
                        x = w.read_ifd(e, st, rv)
                        if x is None:
                            raise Undecided("get_ifd_mut: unknown directory")
                        return None if x == ((k, n), d.get((k, n), [])) else "gives %s%d" % x[0]

                    def g1(dirs=dirs, k=k, n=n, found=found):
                        ch.metadata("get_ifd", gi, [w.kind(k), C(n)], dirs, None, "get_ifd:%s" % k, "asking for directory %s%d" % (k, n), found)

                    def g2(dirs=dirs, k=k, n=n, at=at):
                        ch.metadata("get_ifd_mut", gm, [w.kind(k), C(n)], dirs, ref_create(dirs, k, n), "get_ifd_mut:%s" % k, "asking for directory %s%d to change it" % (k, n), at)

                    def g3(dirs=dirs, k=k, n=n):
                        ch.metadata("create_ifd", cr, [w.kind(k), C(n)], dirs, ref_create(dirs, k, n), "create_ifd:%s" % k, "creating directory %s%d" % (k, n))
                    yield "get_ifd", g1
                    yield "get_ifd_mut", g2
                    yield "create_ifd", g3

            def g4(dirs=dirs):
                want = max([n for (k, n), _ in dirs if k == "GENERIC"] or [0])

                def r(e, st, rv):
                    v = e.val_deep(st, rv)
                    if not is_c(v):
                        raise Undecided("get_max_generic_ifd_number: unknown result")
                    return None if v.a[0] == want else "gives %d instead of %d" % (v.a[0], want)
                ch.metadata("max-number", mx, [], dirs, None, "max-number", "asking for the last image number", r)
            yield "get_max_generic_ifd_number", g4

            def g5(dirs=dirs):
                ch.metadata("get_endian", en, [], dirs, None, "get_endian", "asking for the byte order", lambda e, st, rv: None if e.val_deep(st, rv) is w.le else "gives another one")
            yield "get_endian", g5

            def g6(dirs=dirs):
                def r(e, st, rv):
                    ds = items_of(e, st, e.val_deep(st, rv))
                    if ds is None:
                        raise Undecided("get_ifds: unknown result")
                    got = [w.read_ifd(e, st, x) for x in ds]
                    return same(got, dirs)
                ch.metadata("get_ifds", gs, [], dirs, None, "get_ifds", "asking for all directories", r)
            yield "get_ifds", g6


def u_ifd(c, w, ch):
    st_, rm, tg = (method(w.p, IFD, x) for x in ("set_tag", "remove_tag", "get_tags"))

    def on(op, fn, args, k, n, tags, want, key, what, ordered):
        desc = "%s in directory %s" % (what, show_dirs(w, [((k, n), tags)]))
        r = Run(w, fn, [MEI] + args, {("D", MEI): w.ifd(k, n, tags)})
        if not r.outs:
            return c.bad(key + ":panic", "%s does not return" % desc, W(fn))
        for e, s, rv in r.outs:
            got = w.read_ifd(e, s, s.env.get(("D", MEI)))
            if got is None:
                raise Undecided("%s: the resulting directory is not known" % op)
            d = same([got], [((k, n), want)])
            if d:
                return c.bad(key, "%s: %s; leaves %s" % (desc, d, show_dirs(w, [got])), W(fn))
            nums = [w.num(t)[0] for t in got[1]]
            if ordered and nums != sorted(nums):
                return c.bad(key + ":order", "%s: the tags are not in ascending order: %s" % (desc, show_dirs(w, [got])), W(fn))
        c.ok(None, kind=op)
    base = {
        "none": [],
        "one": [(0x110, "INT8U")],
        "apart": [(1, "INT8U"), (0x110, "STRING"), (0xfdea, "INT8U")],
        "around": [(0x10f, "INT8U"), (0x111, "INT8U"), (0x211, "INT16U")],
        "twice": [(0x10f, "INT8U"), (0x110, "INT8U"), (0x110, "STRING"), (0x111, "INT8U")],
        "thrice": [(0x110, "INT8U"), (0x110, "INT16U"), (0x110, "STRING")],
        "ends": [(0x110, "INT8U"), (0x200, "INT16U"), (0x300, "INT16U"), (0xffff, "STRING")],
        "unsorted": [(0x300, "INT8U"), (0x110, "INT16U"), (0x200, "STRING")],
    }
    for name, spec in base.items():
        for k in KINDS:
            tags = [w.unknown(num, k, "t%d." % i, f) for i, (num, f) in enumerate(spec)]
            for num in (0, 1, 0x110, 0x300, 0xffff):
                for kk in KINDS:
                    t = w.unknown(num, kk, "new.", "INT32U")

                    def g1(tags=tags, t=t, k=k, num=num, kk=kk):
                        on("ifd.set_tag", st_, [t], k, 1, tags, ref_put(w, tags, t), "ifd.set_tag", "setting 0x%04x of kind %s" % (num, kk), True)
                    yield "ImageFileDirectory::set_tag", g1

                def g2(tags=tags, k=k, num=num):
                    on("ifd.remove_tag", rm, [C(num)], k, 1, tags, [x for x in tags if w.num(x)[0] != num], "ifd.remove_tag", "removing 0x%04x" % num, False)
                yield "ImageFileDirectory::remove_tag", g2

            def g3(tags=tags, k=k):
                r = Run(w, tg, [MEI], {("D", MEI): w.ifd(k, 1, tags)})
                for e, s, rv in r.outs:
                    xs = items_of(e, s, e.val_deep(s, rv))
                    if xs is None:
                        raise Undecided("get_tags: unknown result")
                    if [e.val_deep(s, x) for x in xs] != tags:
                        return c.bad("ifd.get_tags", "get_tags does not give the tags of the directory", W(tg))
                c.ok(None, kind="ifd.get_tags")
            yield "ImageFileDirectory::get_tags", g3


def u_new(c, w, ch):
    fn = method(w.p, METADATA, "new")

    def g():
        r = Run(w, fn, [], {})
        if len(r.outs) != 1:
            raise Undecided("Metadata::new: several outcomes")
        e, st, rv = r.outs[0]
        got = w.read(e, st, rv)
        if got is None:
            raise Undecided("Metadata::new: unknown result")
        if got[1] or got[0] is not w.le:
            return c.bad("new", "Metadata::new() is not an empty little-endian store: %s" % show_dirs(w, got[1]), W(fn))
        c.ok("Metadata::new() is empty", kind="new")
    yield "Metadata::new", g


def run(c):
    w = World(c.p)
    jobs = []
    for name, f, parts in (("set_tag", u_set, 3), ("set_tag of every tag", u_set_all, 1), ("remove_tag", u_remove, 3), ("remove_tag of every tag", u_remove_all, 1),
                           ("get_tag and iteration", u_get, 4), ("directories", u_dirs, 3), ("ImageFileDirectory", u_ifd, 1), ("new", u_new, 1)):
        for k in range(parts):
            jobs.append(sub_job(w, name, f, k, parts))
    c.parallel(jobs)
    c.floor("set_tag", 400)
    c.floor("remove_tag", 400)
    c.floor("get_tag and iteration", 800)
    c.floor("directories", 800)
    c.floor("ImageFileDirectory", 300)
