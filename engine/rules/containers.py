"""Evaluation of the public operations on images of a given structure: which bytes end up in the vector or the file.

An image is a list of parts (header bytes that are constants, payload bytes that are symbols). encode is replaced by a block of
symbols (or a failure), decode by a probe that records what it is given; everything in between is the code of /repo."""
from lib import *
from bytesio import *
import bytesio as B, os, time, signal

FT = "little_exif::filetype::FileExtension"
PATH = mk("sym", ("in", "path"), ty="&std::path::Path")
INEX = ("INEXACT", 0)
DECODED = ("DECODED", 0)
ENCODES = ("ENCODES", 0)
START = time.time()


class Api(IO):
    lacking = None

    def __init__(self, fmt, encoded, decoded=None):
        IO.__init__(self)
        self.ftype, self.encoded = fmt, encoded
        self.why = []

    def before(self, e, st, site, name, fr, args, t):
        m = name.rsplit("::", 1)[-1]
        if name.endswith("Metadata::encode") or name.endswith("metadata::Metadata>::encode"):
            if self.encoded is None:
                return [(st, errv(agg(IOERR, 0, (agg(EKIND, EKV["Other"], ()), mk("str", "no encoding")))))]
            st.env[ENCODES] = C((st.env[ENCODES].a[0] if ENCODES in st.env else 0) + 1)
            return [(st, okv(newlist(self.encoded, "std::vec::Vec<u8>")))]
        if name.endswith("Metadata::decode") or name.endswith("metadata::Metadata>::decode"):
            try:
                data, pos, _, _ = self.stream(e, st, args[0])
                st.env[DECODED] = arr(data[pos:])
            except Lost:
                st.env[INEX] = TRUE
                self.why.append(("decode", "argument"))
            g = gen_args(t["dty"])[0]
            tys = gen_args(g) if g.startswith("std") else [x.strip() for x in g.strip("()").split(",", 1)]
            return [(st, okv(agg("tuple", 0, tuple(mk("sym", ("in", "decoded", i), ty=ty) for i, ty in enumerate(tys)))))]
        if m in ("from_u8_vec", "from_u8_vec_res") and "U8conversion" in name and (t["dty"] == "std::string::String" or t["dty"].startswith("std::result::Result<std::string::String")):
            it = byte_items(e, st, e.val_deep(st, args[0]))      # decided by P03
            if it is not None and all(is_c(x) for x in it):
                bs = bytes(x.a[0] & 255 for x in it)
                try:
                    text = bs.decode().rstrip("\0")
                except UnicodeDecodeError:
                    text = bs.replace(b"\0", b"").decode("latin-1")
                return [(st, okv(mk("str", text)) if m.endswith("_res") else mk("str", text))]
        if m in ("sort_data", "reduce_to_a_minimum") and name.startswith("little_exif::metadata"):
            return [(st, UNIT)]
        if name.endswith("get_tag_by_hex"):
            h, g = e.val_deep(st, args[1]), e.val_deep(st, args[2])
            if not (is_c(h) and g.op == "agg"):
                return None
            # lacking: the tag the metadata does not have in the main directory (another directory may well have it)
            tag = mk("cref", mk("sym", ("in", "tag", h.a[0]), ty="little_exif::exif_tag::ExifTag"))
            return [(st, xit([] if self.lacking == h.a[0] and g.a[1] == 1 else [tag]))]
        if args and "GetTagIterator" in t["argtys"][0] and (fr.get("trait") or "std::iter").startswith("std::iter"):
            a, v = place_of(e, st, args[0])
            if v.op == "agg" and v.a[0] == "xit":
                return self.iterator(e, st, site, m, a if a is not None else v, list(v.a[2]), args, t, fr)
        if name.endswith("util::range_remove") and len(args) == 3:
            # on long vectors, what the function does on the short ones it is evaluated on
            a, v = place_of(e, st, args[0])
            it, lo, hi = items_of(e, st, v), e.val_deep(st, args[1]), e.val_deep(st, args[2])
            if it is not None and len(it) > 20000 and a is not None and is_c(lo) and is_c(hi):
                if lo.a[0] <= hi.a[0]:
                    e.setval(st, a, newlist(it[:lo.a[0]] + it[hi.a[0]:], "std::vec::Vec<u8>"), site)
                return [(st, UNIT)]
        if name.endswith("filetype::get_file_type"):
            return [(st, okv(self.ftype))]
        if name == "log::max_level":
            return [(st, agg("log::LevelFilter", 0, ()))]
        if name.startswith("log::") or name.startswith("log::__private_api"):
            return [(st, UNIT)] if t["dty"] == "()" else None
        try:
            r = self.more(e, st, site, name, m, fr, args, t)
        except Lost as ex:
            self.why.append((m, str(ex)))
            return None
        return r or IO.before(self, e, st, site, name, fr, args, t)

    def more(self, e, st, site, name, m, fr, args, t):
        return None


def api(p, name):
    return method(p, METADATA, name)


def known_terms(st, *data):
    """do the conditions of this path and its results speak of the bytes of the image only?"""
    seen, cond = set(), False

    def good(t):
        if isinstance(t, tuple):
            return all(good(x) for x in t)
        if not hasattr(t, "op") or t in seen:
            return True
        seen.add(t)
        if t.op == "sym":
            return isinstance(t.a[0], tuple) and (t.a[0][0] == "in" or t.a[0][-1] == "box" and cond)
        if t.op == "op" and isinstance(t.a[0], str) and t.a[0].startswith("call:"):
            return False
        return all(good(x) for x in t.a)
    if not all(good(x) for d in data if d is not None for x in d):
        return False
    cond = True         # a box is a non-null aligned pointer
    return all(good(k) for d in (st.facts, st.tr) for k in d) and all(good(x) for x in st.ne)


class Outcome:
    def __init__(self, ok, data, ret, dec, exact, encodes):
        self.ok, self.data, self.ret, self.dec, self.exact, self.encodes = ok, data, ret, dec, exact, encodes


def run(p, opname, fmt, data, encoded=None, hook=Api, budget=400000, deadline=30, args=None):
    """outcomes of a public operation on an image, or None if it is too much for the domain"""
    fn = api(p, opname)
    fts = p.adts[FT]["variants"]
    vi = [i for i, v in enumerate(fts) if v["name"] == fmt][0]
    ft = agg(FT, vi, tuple(getattr(hook, "flag", TRUE) for _ in fts[vi]["fields"]))
    h = hook(ft, encoded)
    cell = mk("sym", ("in", "buf"), ty="&mut std::vec::Vec<u8>")
    env = {("D", cell): newlist(data, "std::vec::Vec<u8>")}
    meta = mk("cref", mk("sym", ("in", "metadata"), ty=METADATA))
    byname = []
    infile = opname.startswith("file_") or opname.endswith("_file") or opname.endswith("_path")
    for n, ty in zip(range(fn.argc), fn.sig_in if hasattr(fn, "sig_in") else [fn.locals[i + 1][0] for i in range(fn.argc)]):
        if "Path" in ty:
            byname.append(PATH)
        elif "Vec<u8>" in ty:
            byname.append(cell if "mut" in ty else mk("cref", env[("D", cell)]))
        elif "FileExtension" in ty:
            byname.append(ft)
        else:
            byname.append(meta)

    import absint
    marks = []

    class Pass2(Pass):
        pass
    orig = absint.Engine.fresh

    def fresh(self, st, site, tag, ty):
        if tag != "box":            # filled as a whole before it is used; see Outcome.exact
            st.env[INEX] = TRUE
        h.why.append((site.fn.path.rsplit("::", 1)[-1], tag))
        return orig(self, st, site, tag, ty)
    absint.Engine.fresh = fresh
    try:
        P = Pass(p, fn, byname, env=env, content=data if infile else [], hook=h, budget=budget, deadline=deadline)
    except Budget:
        return None, h
    finally:
        absint.Engine.fresh = orig
    outs = []
    for e, st, ret in P.outs:
        ret = e.val_deep(st, ret)
        ok = is_ok(ret) if is_ok(ret) or is_err(ret) else None
        if infile:
            got = st.env[FSKEY]
            got = list(got.a[2]) if got.op == "agg" else None
        else:
            got = byte_items(e, st, st.env[("D", cell)]) if ("D", cell) in st.env else None
        r = None
        if ok:
            r = byte_items(e, st, ret.a[2][0])
        d = st.env.get(DECODED)
        d = list(d.a[2]) if d is not None else None
        outs.append(Outcome(ok, got, r, d, INEX not in st.env and known_terms(st, got, r, d), st.env[ENCODES].a[0] if ENCODES in st.env else 0))
    return outs, h


class TooLong(BaseException):
    pass


class alarm:
    """a single evaluation step can take arbitrarily long (a loop that appends for ever): end it"""

    def __init__(self, seconds):
        self.seconds = seconds

    def __enter__(self):
        def late(*_):
            raise TooLong()
        self.old = signal.signal(signal.SIGALRM, late)
        signal.alarm(int(self.seconds))

    def __exit__(self, ty, ex, tb):
        signal.alarm(0)
        signal.signal(signal.SIGALRM, self.old)


class Judge:
    """reports one obligation per (operation, image)"""

    def __init__(self, c, fmt):
        self.c, self.fmt = c, fmt

    def do(self, op, image, data, test, encoded=None, hook=Api, budget=400000, deadline=None):
        """test(outcome) -> None if right, a message if wrong"""
        c = self.c
        deadline = deadline or (15 if c.tier != "thorough" else 30)
        try:
            fn = api(c.p, op)
        except KeyError:
            c.bad("%s:missing" % op, "the operation no longer exists")
            return
        c.count("operation x image")
        if time.time() - START > (300 if c.tier != "thorough" else 700):
            c.undecided("%s:time" % self.fmt, "out of time")
            return
        key = "%s:%s:%s" % (self.fmt, op, image)
        try:
            t0 = time.time()
            with alarm(deadline + 10):
                outs, h = run(c.p, op, self.fmt, data, encoded, hook, budget, deadline)
            if time.time() - t0 > 4 and "LE_TIMES" in os.environ:
                print(key, time.time() - t0)
        except (RecursionError, TypeError, ValueError, AttributeError, IndexError, KeyError, AssertionError, OverflowError, Lost, TooLong) as ex:
            c.undecided(key, "%s on %s (%s) is beyond the domain: %s %s" % (op, image, self.fmt, type(ex).__name__, ex))
            return
        if outs is None:
            c.undecided(key, "%s on %s (%s) is beyond the budget of the domain" % (op, image, self.fmt))
            return
        if not outs:
            c.bad(key, "%s on an image with %s (%s) never returns (it panics or does not end)" % (op, image, self.fmt), W(fn)) if not h.why else c.undecided(key, "no outcome: %s" % h.why[:3])
            return
        wrong = []
        for o in outs:
            m = test(o)
            if m:
                wrong.append((m, o))
        if not wrong:
            c.ok("%s %s: %s" % (self.fmt, op, image), kind=op)
            return
        sure = [m for m, o in wrong if o.exact and o.ok is not None and (o.data is not None)]
        if sure:
            c.bad(key, "%s on an image with %s (%s): %s" % (op, image, self.fmt, sure[0]), W(fn))
        else:
            c.undecided(key, "%s on %s (%s): %s, but the evaluation is not exact: %s" % (op, image, self.fmt, wrong[0][0], sorted(set(map(str,h.why)))[:3]))


def be(n, k):
    return lit(n.to_bytes(k, "big"))


def le(n, k):
    return lit(n.to_bytes(k, "little"))


def cat(parts):
    return [x for q in parts for x in q]


def same(a, b):
    return a is not None and len(a) == len(b) and all(x is y for x, y in zip(a, b))


def diff(got, want):
    if got is None:
        return "the content is not known"
    k = next((i for i, (x, y) in enumerate(zip(got, want)) if x is not y), min(len(got), len(want)))
    return "%d bytes instead of %d, first difference at %d (%s instead of %s)" % (
        len(got), len(want), k, " ".join(show(x) for x in got[k:k + 4]) or "end", " ".join(show(x) for x in want[k:k + 4]) or "end")


def variants(parts, fill="pad", limit=3):
    """fill bytes are no part of a segment: those next to one that goes may go or stay"""
    idx = [i for i, (k, _) in enumerate(parts) if k == fill]
    if len(idx) > limit:
        idx = idx[:limit]
    out = []
    for m in range(1 << len(idx)):
        drop = {i for n, i in enumerate(idx) if m >> n & 1}
        out.append([x for i, x in enumerate(parts) if i not in drop])
    return out


def one_inserted(got, parts, piece, allowed):
    """got is the concatenation of the parts with piece put before one of the part numbers allowed"""
    for i in allowed:
        if same(got, cat(parts[:i]) + piece + cat(parts[i:])):
            return True
    return False
