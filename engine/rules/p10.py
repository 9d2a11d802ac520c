"""The format of an image is recognised from its first bytes, and from the extension of its name."""
from lib import *
from exact import Exact
import time

META = {
    "level": "proof",
    "exhaustive": True,
    "rule": "auto_detect gives a format exactly for inputs that start with that format's signature, whatever the other bytes are; from_str and get_file_type give a format exactly for its extensions in any case",
    "explanation": "auto_detect is evaluated abstractly on inputs whose signature bytes are the published ones (or differ from them in one byte) and whose other bytes are arbitrary symbols, for input lengths around "
                   "every signature length. from_str and get_file_type are evaluated for every extension in several spellings, near misses, and every failure of the path operations.",
    "assumptions": ["Read::read on a file or cursor with at least 32 bytes left fills a 32-byte buffer"],
}
X = None
SIG = {
    "PNG": [[0x89, 0x50, 0x4E, 0x47, 0x0D, 0x0A, 0x1A, 0x0A]],
    "JPEG": [[0xFF, 0xD8]],
    "NAKED_JXL": [[0xFF, 0x0A]],
    "TIFF": [[0x49, 0x49, 0x2A, 0x00], [0x4D, 0x4D, 0x00, 0x2A]],
    "WEBP": [[0x52, 0x49, 0x46, 0x46, X, X, X, X, 0x57, 0x45, 0x42, 0x50]],
    "JXL": [[0, 0, 0, 0x0C, 0x4A, 0x58, 0x4C, 0x20, 0x0D, 0x0A, 0x87, 0x0A]],
    "HEIF": [[0, 0, n, m] + list(b"ftyp" + b) for b in (b"heic", b"heif", b"avif") for n, m in ((0, 0x18), (0, 0x1c), (0, 0x20), (1, 0x2c))],
}
NONE = [list(b"GIF89a"), list(b"%PDF-1.7"), list(b"BM\0\0\0\0"), [0] * 16, list(b"II\0\x2a"), list(b"MM\x2a\0"), list(b"IM\x2a\0"), list(b"MI\0\x2a"), list(b"II\x2b\0"), list(b"MM\0\x2b"),
        list(b"RIFF") + [X] * 4 + list(b"WAVE"), list(b"RIFF") + [X] * 4 + list(b"AVI "), list(b"\0\0\0\x18ftypisom"), list(b"\0\0\0\x18ftypmp42"), list(b"\0\0\0\x18ftypqt  "),
        list(b"\0\0\0\x18moovheic"), list(b"Exif\0\0II\x2a\0"), list(b"\0\0\0\x0cjP  \r\n\x87\n"), list(b"\0\xff\xd8\xff"), list(b"<?xml version"), [0xD8, 0xFF, 0xFF, 0xD8], [0x0A, 0xFF, 0xFF, 0x0A]]
# bytes of a signature that a shorter test may leave out without mistaking one format for another
OPTIONAL = {"PNG": {4, 5, 6, 7}, "HEIF": {0, 1, 2, 3}}
EXT = {"png": "PNG", "jpg": "JPEG", "jpeg": "JPEG", "jxl": "JXL", "tif": "TIFF", "tiff": "TIFF", "webp": "WEBP", "heif": "HEIF", "hif": "HEIF", "heic": "HEIF", "avif": "HEIF"}
NOEXT = ["", "gif", "jp", "pn", "pngx", "jpegs", "heics", " png", "png ", ".png", "tifff", "ti", "bmp", "webm", "webpp", "jxll", "jx", "raw", "hei", "avi", "mp4", "jp2", "exif", "jpg.bak", "p ng"]


def spellings(x):
    return sorted({x, x.upper(), x.capitalize(), x[0] + x[1:].upper(), "".join(c.upper() if i % 2 else c for i, c in enumerate(x))})


def text(e, st, v):
    for _ in range(8):
        if v.op == "str":
            return v.a[0]
        if v.op in ("ref",):
            v = e.val(st, v)
        elif v.op == "cref" or v.op == "vec":
            v = v.a[0]
        else:
            return None
    return None


def S(x):
    return mk("cref", mk("str", x))


class Stop(Exception):
    pass


class Detect(Exact):
    def __init__(self, data, n, fail=False):
        self.data, self.n, self.fail = data, n, fail

    def before(self, e, st, site, name, fr, args, t):
        m = name.rsplit("::", 1)[-1]
        tr = fr.get("trait") or ""
        if tr == "std::io::Read" and m == "read":
            pos = (st.auto or 0)
            place, lo, hi = args[1], None, None
            for _ in range(4):
                if place.op == "ref" and place.a[1] and place.a[1][-1][0] == "s":
                    lo, hi = place.a[1][-1][1:3]
                    place = mk("ref", place.a[0], tuple(place.a[1][:-1]), 1)
                    break
                v = e.val(st, place) if place.op == "ref" else place
                if v.op != "ref":
                    break
                place = v
            if place.op != "ref":
                return None
            v = e.val(st, place)
            n = e.vlen(st, v)
            lo, hi = lo or C(0), hi or n
            if not (is_c(n) and is_c(lo) and is_c(hi)):
                return None
            n, lo, hi = n.a[0], lo.a[0], hi.a[0]
            v = strip_vec(v)
            old = list(v.a[2]) if v.op == "agg" and v.a[0] == "array" else [C(0)] * n
            if self.fail:
                return [(st, agg(RESULT, 1, (sym("ioerr", "std::io::Error"),)))]
            got = self.data[pos:min(self.n, pos + hi - lo)]
            e.setval(st, place, agg("array", 0, old[:lo] + got + old[lo + len(got):]), site)
            st.auto = pos + len(got)
            return [(st, agg(RESULT, 0, (C(len(got)),)))]
        return None


def detect(c):
    fn = [f for k, f in c.p.fns.items() if k.endswith("FileExtension::auto_detect")]
    if len(fn) != 1:
        raise KeyError("FileExtension::auto_detect")
    fn = fn[0]

    t0 = time.time()

    def go(sig, n, fail=False):
        if time.time() - t0 > 90:
            raise Stop("the analysis takes too long")
        data = [(C(b) if b is not None else mk("sym", ("in", "byte%d" % i), ty="u8")) for i, b in enumerate(sig)]
        for i in range(len(sig), 64):
            data.append(mk("sym", ("in", "byte%d" % i), ty="u8"))
        h = Detect(data, n, fail)
        outs = set()

        def on_return(e, st, f, ret):
            if f is fn:
                v = e.val_deep(st, ret)
                if v.op == "agg" and v.a[0] == OPTION and v.a[1] == 0:
                    outs.add(None)
                elif v.op == "agg" and v.a[0] == OPTION and v.a[2][0].op == "agg":
                    x = v.a[2][0]
                    outs.add((vname(c.p, FTYPE, x.a[1]), x.a[2]))
                else:
                    outs.add("?")
        h.on_return = on_return
        e = Engine(c.p, h, numeric=True, budget=20000, deadline=3, unroll=70, max_parts=100000)
        e.exact = True
        e.analyse(fn, args=[sym("cursor", "&mut T")])
        c.count("inputs recognised")
        return outs

    sigs = [(k, s) for k, ss in SIG.items() for s in ss]

    def expect(sig, n, want, key, what):
        try:
            outs = go(sig, n)
        except Budget as x:
            raise Stop(str(x))
        if "?" in outs or not outs:
            return c.undecided(key, "the result for %s is not known" % what)
        names = {o and o[0] for o in outs}
        if want in names:
            # the open bytes may complete the signature of another format, which is then right as well
            for k2, s2 in sigs:
                if all(x is None or j >= len(sig) or sig[j] is None or x == sig[j] or j in OPTIONAL.get(k2, ()) for j, x in enumerate(s2)):
                    names.discard(k2)
            names.add(want)
        if names != {want}:
            if want in names or len(names) > 1:
                # the result depends on bytes that are no part of a signature: it is wrong for some of them
                extra = names - {want}
            else:
                extra = names
            return c.bad(key, "%s is taken for %s instead of %s" % (what, "/".join(str(x or "nothing") for x in sorted(extra, key=str)), want or "nothing"), W(fn))
        if want == "PNG" and any(o[1] != (TRUE,) for o in outs):
            return c.bad(key, "a PNG is recognised without the zTXt chunk option", W(fn))
        c.ok("%s: %s" % (what, want), kind="signature" if want else "no signature")
    hexs = lambda s: " ".join("--" if b is None else "%02x" % b for b in s)
    sigs = [(k, s) for k, ss in SIG.items() for s in ss]
    for k, s in sigs:
        for n in (len(s), len(s) + 1, 32, 64):
            if n < 4:
                continue
            expect(s, n, k, "signature:%s" % k, "input of %d bytes starting %s" % (n, hexs(s)))
        if len(s) > 4:
            for n in range(4, len(s)):
                if k in OPTIONAL and not any(i not in OPTIONAL[k] for i in range(n, len(s))):
                    continue
                expect(s, n, None, "cut:%s" % k, "input of only %d bytes starting %s" % (n, hexs(s[:n])))
        for i, b in enumerate(s):
            if b is None or i in OPTIONAL.get(k, ()):
                continue
            for b2 in sorted({b ^ 1, b ^ 0x20, b ^ 0x80, 0, 0xff} - {b}):
                t = s[:i] + [b2] + s[i + 1:]
                if any(all(x is None or y is None or x == y or j in OPTIONAL.get(k2, ()) for j, (x, y) in enumerate(zip(s2, t))) for k2, s2 in sigs):
                    continue
                expect(t + [0x11] * (64 - len(t)), 32, None, "near:%s" % k, "input starting %s" % hexs(t))
    for t in NONE:
        expect(t + [0x11] * (64 - len(t)), 32, None, "other:%s" % hexs(t[:8]).replace(" ", ""), "input starting %s" % hexs(t))
    for n in (0, 1):
        try:
            outs = go([0xFF, 0xD8, 0xFF, 0xE0], n)
        except Budget as x:
            c.undecided("short", str(x))
            continue
        if outs == {None}:
            c.ok(kind="no signature")
        elif "?" in outs or not outs:
            c.undecided("short", "the result for an input of %d bytes is not known" % n)
        else:
            c.bad("short:%d" % n, "an input of %d bytes is taken for an image" % n, W(fn))
    outs = go([0xFF, 0xD8, 0xFF, 0xE0], 32, True)
    if outs == {None}:
        c.ok("an input that cannot be read is not recognised", kind="error")
    elif "?" in outs or not outs:
        c.undecided("read-error", "the result for an input that cannot be read is not known")
    else:
        c.bad("read-error", "an input that cannot be read is taken for an image", W(fn))


class Names(Exact):
    """strings of known content"""

    def __init__(self, exists=True, ext=None, utf8=True):
        self.exists, self.ext, self.utf8 = exists, ext, utf8

    def before(self, e, st, site, name, fr, args, t):
        m = name.rsplit("::", 1)[-1]
        if name.startswith("std::path::Path::"):
            if m == "try_exists":
                if self.exists == "error":
                    return [(st, agg(RESULT, 1, (sym("ioerr", "std::io::Error"),)))]
                return [(st, agg(RESULT, 0, (TRUE if self.exists else FALSE,)))]
            if m in ("exists", "is_file"):
                return [(st, TRUE if self.exists is True else FALSE)]
            if m == "extension":
                return [(st, agg(OPTION, 0, ()) if self.ext is None else agg(OPTION, 1, (S(self.ext),)))]
            return None
        if args and name.startswith("std::ffi::OsStr::") or name.startswith("std::ffi::os_str::OsStr::"):
            x = text(e, st, args[0])
            if x is not None:
                if m == "to_str":
                    return [(st, agg(OPTION, 1, (S(x),)) if self.utf8 else agg(OPTION, 0, ()))]
                if m == "to_string_lossy":
                    return [(st, S(x if self.utf8 else x + "\ufffd"))]
                if m in ("to_ascii_lowercase", "to_ascii_uppercase"):
                    return [(st, S(x.lower() if "lower" in m else x.upper()))]
                if m == "eq_ignore_ascii_case" and self.utf8:
                    y = text(e, st, args[1])
                    return None if y is None else [(st, TRUE if x.lower() == y.lower() else FALSE)]
            return None
        x = text(e, st, args[0]) if args else None
        if x is None:
            return None
        if m in ("to_lowercase", "to_ascii_lowercase"):
            return [(st, mk("str", x.lower()))]
        if m in ("to_uppercase", "to_ascii_uppercase"):
            return [(st, mk("str", x.upper()))]
        if m in ("as_str", "as_ref", "deref", "borrow"):
            return [(st, S(x))]
        if m in ("to_string", "to_owned", "into", "clone", "from", "into_owned") and t["dty"] in ("std::string::String", "std::borrow::Cow<'_, str>"):
            return [(st, mk("str", x))]
        if m in ("trim", "trim_start", "trim_end", "trim_matches") and len(args) == 1:
            return [(st, S({"trim": x.strip(), "trim_start": x.lstrip(), "trim_end": x.rstrip()}[m]))]
        if m in ("len", "is_empty") and name.startswith(("std::str::", "core::str::", "std::string::String::")):
            return [(st, C(len(x)) if m == "len" else TRUE if not x else FALSE)]
        if len(args) == 2:
            y = text(e, st, args[1])
            if y is not None:
                if (fr.get("trait") or "") == "std::cmp::PartialEq" and m in ("eq", "ne"):
                    return [(st, TRUE if (x == y) == (m == "eq") else FALSE)]
                if m == "eq_ignore_ascii_case":
                    return [(st, TRUE if x.lower() == y.lower() else FALSE)]
                if m in ("starts_with", "ends_with", "contains"):
                    f = {"starts_with": x.startswith, "ends_with": x.endswith, "contains": lambda z: z in x}[m]
                    return [(st, TRUE if f(y) else FALSE)]
                if m in ("strip_prefix", "strip_suffix"):
                    ok = x.startswith(y) if m == "strip_prefix" else x.endswith(y)
                    z = x[len(y):] if m == "strip_prefix" else x[:len(x) - len(y)]
                    return [(st, agg(OPTION, 1, (S(z),)) if ok else agg(OPTION, 0, ()))]
        return None


def names(c):
    fs = [f for k, f in c.p.fns.items() if k.endswith("FileExtension as std::str::FromStr>::from_str")]
    gt = [f for k, f in c.p.fns.items() if k.endswith("filetype::get_file_type")]
    if len(fs) != 1 or len(gt) != 1:
        raise KeyError("FileExtension::from_str / get_file_type")

    t0 = time.time()

    def go(fn, arg, h):
        if time.time() - t0 > 90:
            raise Stop("the analysis takes too long")
        outs = set()

        def on_return(e, st, f, ret):
            if f is not fn:
                return
            v = e.val_deep(st, ret)
            if v.op == "agg" and v.a[0] == RESULT and v.a[1] == 1:
                outs.add(None)
            elif v.op == "agg" and v.a[0] == RESULT and v.a[2][0].op == "agg" and v.a[2][0].a[0] == FTYPE:
                x = v.a[2][0]
                outs.add((vname(c.p, FTYPE, x.a[1]), x.a[2]))
            else:
                outs.add("?")
        h.on_return = on_return
        e = Engine(c.p, h, numeric=True, budget=20000, deadline=3, unroll=40, max_parts=100000)
        e.exact = True
        e.analyse(fn, args=[arg])
        c.count("names recognised")
        return outs

    def expect(fn, arg, h, want, key, what):
        try:
            outs = go(fn, arg, h)
        except Budget as x:
            raise Stop(str(x))
        if len(outs) != 1 or "?" in outs:
            return c.undecided(key, "the result for %s is not known: %s" % (what, outs))
        got = outs.pop()
        if (got and got[0]) != want:
            return c.bad(key, "%s gives %s instead of %s" % (what, got[0] if got else "an error", want or "an error"), W(fn))
        if want == "PNG" and got[1] != (TRUE,):
            return c.bad(key, "%s gives PNG without the zTXt chunk option" % what, W(fn))
        c.ok("%s: %s" % (what, want or "refused"), kind="name" if want else "refused")
    for x, k in EXT.items():
        for y in spellings(x):
            expect(fs[0], S(y), Names(), k, "name:%s" % x, "from_str(%r)" % y)
            expect(gt[0], sym("path", "&std::path::Path"), Names(ext=y), k, "extension:%s" % x, "a file with the extension %r" % y)
        expect(gt[0], sym("path", "&std::path::Path"), Names(ext=x, exists=False), None, "missing:%s" % x, "a missing file with the extension %r" % x)
        expect(gt[0], sym("path", "&std::path::Path"), Names(ext=x, exists="error"), None, "unknown-existence:%s" % x, "a file with the extension %r that cannot be looked up" % x)
        expect(gt[0], sym("path", "&std::path::Path"), Names(ext=x, utf8=False), None, "not-utf8:%s" % x, "a file whose extension is not text")
    for y in NOEXT:
        expect(fs[0], S(y), Names(), None, "name:%s" % (y or "empty"), "from_str(%r)" % y)
        expect(gt[0], sym("path", "&std::path::Path"), Names(ext=y), None, "extension:%s" % (y or "empty"), "a file with the extension %r" % y)
    expect(gt[0], sym("path", "&std::path::Path"), Names(ext=None), None, "no-extension", "a file without an extension")


def run(c):
    c.parallel([detect, names])
    c.floor("inputs recognised", 250)
    c.floor("names recognised", 130)
