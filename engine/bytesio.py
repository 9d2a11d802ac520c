"""Byte containers in memory and in a file: the operations of std::io, std::fs, String and fmt over byte sequences of a
definite length whose payload bytes stay symbols. A hook for abstract runs (see exact.py for the collections)."""
from exact import *
from exact import Exact, items_of, place_of, newlist, Fork, call, bools, order, some, NONE_
import models as M

IOERR = "std::io::Error"
FSKEY = ("FS", "content")
KINDS_EOF = "UnexpectedEof"


def okv(x):
    return agg(RESULT, 0, (x,))


def errv(x):
    return agg(RESULT, 1, (x,))


EKIND = "std::io::ErrorKind"
EKV = {"PermissionDenied": 1, "InvalidInput": 20, "UnexpectedEof": 37, "Other": 42}


def ioerr(kind):
    return agg(IOERR, 0, (agg(EKIND, EKV[kind], ()), mk("str", kind)))


def lit(bs):
    return [C(b) for b in bs]


def arr(items):
    return agg("array", 0, items)


def blob(name, n):
    """n payload bytes that nothing is known about"""
    return [mk("sym", ("in", "%s[%d]" % (name, i)), ty="u8") for i in range(n)]


def strval(e, st, v):
    """the text of a str/String/&str value, or None"""
    for _ in range(10):
        if v.op == "str":
            return v.a[0]
        if v.op in ("ref", "cref"):
            v = e.val(st, v)
        elif v.op == "vec" or (v.op == "agg" and v.a[0] == "array"):
            it = items_of(e, st, v)
            if it is None or not all(is_c(x) for x in it):
                return None
            try:
                return bytes(x.a[0] & 255 for x in it).decode()
            except UnicodeDecodeError:
                return None
        elif v.op == "agg" and v.a[0] == "std::borrow::Cow" and v.a[2]:
            v = v.a[2][0]
        elif ("D", v) in st.env:
            v = st.env[("D", v)]
        else:
            return None
    return None


def byte_items(e, st, v):
    """the bytes of a value behind any number of references"""
    for _ in range(10):
        if v.op == "str":
            return lit(v.a[0].encode())
        if v.op == "vec" and v.a[0].op == "slice":
            base, a, b = v.a[0].a
            it = byte_items(e, st, base)
            if it is None or not (is_c(a) and is_c(b)):
                return None
            return it[a.a[0]:b.a[0]]
        if v.op == "vec" and v.a[0].op == "fill" and is_c(v.a[1]) and v.a[1].a[0] < 100000:
            return [v.a[0].a[0]] * v.a[1].a[0]
        it = items_of(e, st, v)
        if it is not None:
            return it
        if v.op in ("ref", "cref"):
            v = e.val(st, v)
        elif ("D", v) in st.env:
            v = st.env[("D", v)]
        elif v.op == "agg" and v.a[0] == "std::borrow::Cow" and v.a[2]:
            v = v.a[2][0]
        elif v.op == "vec" and v.a[0].op in ("vec", "str", "ref", "cref"):
            v = v.a[0]
        else:
            return None
    return None


class Lost(Exception):
    """the value is outside what this domain describes"""


_asc = lambda f: lambda c: ord(c) < 128 and f(c)
CHAR_TESTS = {
    "is_whitespace": lambda c: c in "\t\n\x0b\x0c\r \x85\xa0\u1680\u2028\u2029\u202f\u205f\u3000" or "\u2000" <= c <= "\u200a",
    "is_ascii_whitespace": lambda c: c in "\t\n\x0c\r ", "is_ascii": lambda c: ord(c) < 128,
    "is_ascii_digit": _asc(str.isdigit), "is_ascii_alphabetic": _asc(str.isalpha), "is_ascii_alphanumeric": _asc(str.isalnum),
    "is_ascii_uppercase": _asc(str.isupper), "is_ascii_lowercase": _asc(str.islower),
    "is_ascii_hexdigit": lambda c: c in "0123456789abcdefABCDEF", "is_ascii_control": lambda c: ord(c) < 32 or ord(c) == 127,
    "is_ascii_punctuation": lambda c: "!" <= c <= "/" or ":" <= c <= "@" or "[" <= c <= "`" or "{" <= c <= "~", "is_ascii_graphic": lambda c: "!" <= c <= "~",
    "is_numeric": str.isnumeric, "is_alphabetic": str.isalpha, "is_alphanumeric": str.isalnum,
}


class IO(Exact):
    """hook: one file (whatever path), any number of handles and cursors; I/O on it succeeds"""

    def __init__(self, prog=None):
        self.writes_outside = []
        self.panicked = []

    # ------------------------------------------------------------------ readers and writers
    def target(self, e, st, r):
        """(reference to it, kind, ...) of a reader/writer: a cursor, a file handle, a buffered wrapper, a slice or a vector"""
        for _ in range(12):
            v = e.val(st, r) if r.op in ("ref", "cref") or ("D", r) in st.env else r
            if v.op == "agg":
                if v.a[0] == M.CUR:
                    return r, "cursor", v
                if v.a[0] == "file":
                    return r, "file", v
                if v.a[0] in ("bufr", "bufw"):
                    r2 = self.field(e, st, r, v, 0)
                    if v.a[0] == "bufw" and len(v.a[2]) > 1:
                        return r, "bufw", v
                    r = r2
                    continue
                if v.a[0] == "take":
                    return r, "take", v
                if v.a[0] == "chain":
                    return r, "chain", v
                if v.a[0] == "array":
                    return r, "bytes", v
                if v.a[0] == "std::boxed::Box":
                    r = self.field(e, st, r, v, 0)
                    continue
                return None
            if v.op in ("ref", "cref"):
                # a slice being read advances itself
                w = e.val(st, v)
                if (w.op == "vec" or (w.op == "agg" and w.a[0] == "array")) and v.op == "cref":
                    return r, "slice", v
                r = v
                continue
            if v.op == "vec":
                return r, "bytes", v
            if ("D", v) in st.env:
                r = v
                continue
            return None
        return None

    def field(self, e, st, r, v, i):
        if r.op == "ref":
            return mk("ref", r.a[0], tuple(r.a[1]) + (("f", i, None),), 1)
        if r.op == "cref":
            return mk("cref", v.a[2][i])
        return mk("ref", ("D", r), (("f", i, None),), 1)

    def fpos(self, st, v):
        return st.env[("FSPOS", v.a[2][0].a[0])].a[0]

    def set_fpos(self, st, v, n):
        st.env[("FSPOS", v.a[2][0].a[0])] = C(n)

    def content(self, st):
        return list(st.env[FSKEY].a[2])

    def open(self, st, mode):
        n = 0
        while ("FSPOS", n) in st.env:
            n += 1
        st.env[("FSPOS", n)] = C(0)
        return agg("file", 0, (C(n), mk("str", mode)))

    def stream(self, e, st, r):
        """(content, position, setter of position, setter of content or None)"""
        t = self.target(e, st, r)
        if t is None:
            raise Lost("reader")
        r, kind, v = t
        if kind == "cursor":
            inner, pos = v.a[2]
            data = byte_items(e, st, inner)
            if data is None or not is_c(pos):
                raise Lost("cursor")

            def setpos(n):
                w = e.val(st, r)
                e.setval(st, r, agg(M.CUR, 0, (w.a[2][0], C(n))), None)

            def setdata(xs):
                w = e.val(st, r)
                inner = w.a[2][0]
                if inner.op in ("ref",) or ("D", inner) in st.env:
                    p, old = place_of(e, st, inner)
                    if p is None:
                        raise Lost("cursor content")
                    e.setval(st, p, newlist(xs, old.ty) if old.op == "vec" else arr(xs), None)
                elif inner.op == "vec" or inner.op == "agg":
                    e.setval(st, r, agg(M.CUR, 0, (newlist(xs, inner.ty) if inner.op == "vec" else arr(xs), w.a[2][1])), None)
                else:
                    raise Lost("cursor content")
            return data, pos.a[0], setpos, setdata
        if kind == "file":
            return self.content(st), self.fpos(st, v), lambda n: self.set_fpos(st, v, n), lambda xs: st.env.__setitem__(FSKEY, arr(xs))
        if kind == "slice":
            data = byte_items(e, st, v)

            def adv(n):
                e.setval(st, r, mk("cref", arr(data[n:])), None)
            return data, 0, adv, None
        if kind == "take":
            inner, lim = v.a[2]
            data, pos, setpos, _ = self.stream(e, st, inner)
            if not is_c(lim):
                raise Lost("take")

            def adv(n):
                setpos(n)
                e.setval(st, r, agg("take", 0, (inner, C(lim.a[0] - (n - pos)))), None)
            return data[:pos + lim.a[0]], pos, adv, None
        raise Lost(kind)

    # ------------------------------------------------------------------
    def before(self, e, st, site, name, fr, args, t):
        try:
            return self.io(e, st, site, name, fr, args, t)
        except Lost:
            return None

    def fill(self, e, st, r, got, site):
        """put bytes at the start of the buffer r refers to"""
        lo = 0
        for _ in range(8):
            if r.op == "ref" and r.a[1] and r.a[1][-1][0] == "s":
                a = r.a[1][-1][1]
                if not is_c(a):
                    raise Lost("buffer")
                lo += a.a[0]
                r = mk("ref", r.a[0], tuple(r.a[1][:-1]), 1)
                continue
            v = e.val(st, r) if r.op == "ref" or ("D", r) in st.env else None
            if v is None:
                raise Lost("buffer")
            if v.op == "ref" or ("D", v) in st.env:
                r = v
                continue
            break
        it = byte_items(e, st, v)
        if it is None:
            raise Lost("buffer")
        xs = it[:lo] + got + it[lo + len(got):]
        e.setval(st, r, newlist(xs, v.ty) if v.op == "vec" and v.a[0].op != "slice" else arr(xs), site)

    def error_value(self, args):
        return None

    def io(self, e, st, site, name, fr, args, t):
        m = name.rsplit("::", 1)[-1]
        tr = fr.get("trait") or ""
        targs = e.p.targets(t)
        if targs:
            return None
        # --- errors and text
        if name in ("std::io::Error::new", "alloc::io::error::<impl std::io::Error>::new") or (name.endswith("io::Error::new")):
            k = e.val_deep(st, args[0])
            return [(st, agg(IOERR, 0, (k, args[1])))]
        if name.endswith("io::Error::other"):
            return [(st, agg(IOERR, 0, (agg(EKIND, EKV["Other"], ()), args[0])))]
        if name.endswith("io::Error::kind"):
            v = e.val_deep(st, args[0])
            if v.op == "agg" and v.a[0] == IOERR:
                return [(st, v.a[2][0])]
            return None
        if tr == "std::ops::FromResidual" and args and args[0].op == "agg" and args[0].a[0] == RESULT and args[0].a[2][0].op == "agg" and args[0].a[2][0].a[0] == IOERR:
            if gen_args(t["dty"])[1:] == ["std::io::Error"]:
                return [(st, args[0])]
        r = self.text(e, st, site, name, m, tr, args, t, fr)
        if r is not None:
            return r
        if tr in ("std::cmp::PartialEq",) and m in ("eq", "ne"):
            a, b = e.val_deep(st, args[0]), e.val_deep(st, args[1])
            sa, sb = strval(e, st, a), strval(e, st, b)
            if (a.op == "str" or b.op == "str") and sa is not None and sb is not None:
                return [(st, TRUE if (sa == sb) == (m == "eq") else FALSE)]
            xa, xb = byte_items(e, st, a), byte_items(e, st, b)
            if xa is not None and xb is not None and (self.seqty(t["argtys"][0]) and self.seqty(t["argtys"][1])):
                return self.seq_eq(e, st, xa, xb, m == "eq")
            return None
        # --- files
        if name.startswith("std::fs::") or "std::fs::" in name:
            return self.fs(e, st, site, name, m, args, t)
        if name.endswith("Path::exists") or name.endswith("Path::is_file"):
            return [(st, TRUE)]
        if name.endswith("Path::is_dir") or name.endswith("Path::is_symlink"):
            return [(st, FALSE)]
        if name.endswith("Path::metadata"):
            return [(st, okv(agg("fsmeta", 0, ())))]
        if name.endswith("::with_capacity") and "Buf" in name and "io::" in name:
            return [(st, agg("bufr" if "Reader" in name else "bufw", 0, (args[1],)))]
        if name in ("std::io::BufReader::new", "std::io::BufWriter::new", "std::io::LineWriter::new"):
            return [(st, agg("bufr" if "Reader" in name else "bufw", 0, (args[0],)))]
        if name in ("std::io::BufReader::into_inner", "std::io::BufReader::get_ref", "std::io::BufReader::get_mut", "std::io::BufWriter::get_ref", "std::io::BufWriter::get_mut"):
            v = e.val_deep(st, args[0])
            if v.op == "agg" and v.a[0] in ("bufr", "bufw"):
                if m == "into_inner":
                    return [(st, v.a[2][0])]
                p, _ = place_of(e, st, args[0])
                if p is not None:
                    return [(st, self.field(e, st, p, v, 0))]
        if name == "std::io::BufWriter::into_inner":
            v = e.val_deep(st, args[0])
            if v.op == "agg" and v.a[0] == "bufw":
                return [(st, okv(v.a[2][0]))]
        # --- reading
        if tr == "std::io::Read":
            if m == "by_ref":
                return [(st, args[0])]
            if m == "take":
                return [(st, agg("take", 0, (args[0], args[1])))]
            if m == "bytes":
                return None
            data, pos, setpos, _ = self.stream(e, st, args[0])
            have = data[pos:] if pos < len(data) else []
            if m in ("read", "read_exact"):
                buf = byte_items(e, st, args[1])
                if buf is None:
                    raise Lost("buffer")
                n = len(buf)
                got = have[:n]
                if m == "read_exact" and len(got) < n:
                    setpos(max(pos, len(data)))
                    return [(st, errv(ioerr(KINDS_EOF)))]
                self.fill(e, st, args[1], got, site)
                setpos(pos + len(got))
                return [(st, okv(UNIT if m == "read_exact" else C(len(got))))]
            if m in ("read_to_end", "read_to_string"):
                p, v = place_of(e, st, args[1])
                old = byte_items(e, st, v)
                if old is None or p is None:
                    raise Lost("buffer")
                e.setval(st, p, newlist(old + have, v.ty), site)
                setpos(max(pos, len(data)))
                return [(st, okv(C(len(have))))]
            return None
        if tr == "std::io::BufRead":
            return None
        if tr == "std::io::Seek":
            data, pos, setpos, _ = self.stream(e, st, args[0])
            if m == "stream_position":
                return [(st, okv(C(pos)))]
            if m == "rewind":
                setpos(0)
                return [(st, okv(UNIT))]
            if m == "seek" or m == "seek_relative":
                if m == "seek":
                    w = e.val_deep(st, args[1])
                    if w.op != "agg" or not is_c(w.a[2][0]):
                        raise Lost("seek")
                    off = w.a[2][0].a[0]
                    n = (0, len(data), pos)[w.a[1]] + off
                else:
                    if not is_c(args[1]):
                        raise Lost("seek")
                    n = pos + args[1].a[0]
                if n < 0:
                    return [(st, errv(ioerr("InvalidInput")))]
                setpos(n)
                return [(st, okv(C(n) if m == "seek" else UNIT))]
            return None
        if name == "std::io::Cursor::position":
            v = self.target(e, st, args[0])
            return [(st, v[2].a[2][1])] if v and v[1] == "cursor" else None
        if tr == "std::io::Write" or name in ("std::io::Write::write_all",):
            if m == "flush":
                return [(st, okv(UNIT))]
            if m in ("write", "write_all"):
                seg = byte_items(e, st, args[1])
                if seg is None:
                    raise Lost("data")
                tg = self.target(e, st, args[0])
                if tg is None:
                    raise Lost("writer")
                if tg[1] == "bytes":
                    p, v = place_of(e, st, args[0])
                    if p is None:
                        raise Lost("writer")
                    e.setval(st, p, newlist(byte_items(e, st, v) + seg, v.ty), site)
                else:
                    data, pos, setpos, setdata = self.stream(e, st, args[0])
                    if setdata is None:
                        raise Lost("writer")
                    if tg[1] == "file" and tg[2].a[2][1].a[0].find("w") < 0:
                        return [(st, errv(ioerr("PermissionDenied")))]
                    if tg[1] == "file" and "a" in tg[2].a[2][1].a[0]:
                        pos = len(data)
                    if pos > len(data):
                        data = data + [C(0)] * (pos - len(data))
                    setdata(data[:pos] + seg + data[pos + len(seg):])
                    setpos(pos + len(seg))
                return [(st, okv(UNIT if m == "write_all" else C(len(seg))))]
            return None
        if name == "std::io::copy":
            data, pos, setpos, _ = self.stream(e, st, args[0])
            seg = data[pos:]
            setpos(len(data))
            tg = self.target(e, st, args[1])
            if tg is None:
                raise Lost("writer")
            if tg[1] == "bytes":
                p, v = place_of(e, st, args[1])
                e.setval(st, p, newlist(byte_items(e, st, v) + seg, v.ty), site)
            else:
                d, po, sp, sd = self.stream(e, st, args[1])
                sd(d[:po] + seg + d[po + len(seg):])
                sp(po + len(seg))
            return [(st, okv(C(len(seg))))]
        # --- byte sequences
        if name.startswith(VECS) and args:
            if m in ("starts_with", "ends_with"):
                a, b = byte_items(e, st, args[0]), byte_items(e, st, args[1])
                if a is None or b is None:
                    return None
                if len(a) < len(b):
                    return [(st, FALSE)]
                return self.seq_eq(e, st, a[:len(b)] if m == "starts_with" else a[len(a) - len(b):], b, True)
            if m in ("copy_from_slice", "clone_from_slice"):
                b = byte_items(e, st, args[1])
                if b is None:
                    return None
                self.fill(e, st, args[0], b, site)
                return [(st, UNIT)]
            if m in ("to_vec", "to_owned", "into_vec"):
                it = byte_items(e, st, args[0])
                return [(st, newlist(it, t["dty"]))] if it is not None else None
            if m == "get" and not (is_c(args[1]) if args[1].op == "c" else False):
                it = byte_items(e, st, args[0])
                rb = M.range_bounds(e, st, args[1], C(len(it))) if it is not None else None
                if rb and is_c(rb[0]) and is_c(rb[1]):
                    a, b = rb[0].a[0], rb[1].a[0]
                    return [(st, some(mk("cref", arr(it[a:b]))) if 0 <= a <= b <= len(it) else NONE_)]
            if m == "splice":
                return None
            if m in ("resize",):
                p, v = place_of(e, st, args[0])
                it = byte_items(e, st, v)
                if it is None or not is_c(args[1]) or p is None:
                    return None
                n = args[1].a[0]
                e.setval(st, p, newlist(it[:n] + [args[2]] * (n - len(it)), v.ty), site)
                return [(st, UNIT)]
            if m == "split_at":
                it = byte_items(e, st, args[0])
                if it is None or not is_c(args[1]):
                    return None
                n = args[1].a[0]
                if n > len(it):
                    self.panicked.append(site)
                    return []
                return [(st, agg("tuple", 0, (mk("cref", arr(it[:n])), mk("cref", arr(it[n:])))))]
            if m in ("extend", "extend_from_slice", "append") and len(args) == 2:
                p, v = place_of(e, st, args[0])
                it = byte_items(e, st, v)
                p2, w = place_of(e, st, args[1])
                if it is not None and p is not None and not (w.op == "agg" and w.a[0] == "xit"):
                    more = byte_items(e, st, w)
                    if more is not None and m != "append":
                        more = [e.val_deep(st, x) if x.op in ("ref", "cref") else x for x in more]
                        e.setval(st, p, newlist(it + more, v.ty), site)
                        return [(st, UNIT)]
            if m in ("iter",):
                it = byte_items(e, st, args[0])
                p, v = place_of(e, st, args[0])
                if it is not None and items_of(e, st, v) is None:
                    return [(st, agg("xit", 0, [mk("cref", x) for x in it]))]
            if m in ("len", "is_empty"):
                it = byte_items(e, st, args[0])
                if it is not None:
                    return [(st, C(len(it)) if m == "len" else (FALSE if it else TRUE))]
        if tr == "std::iter::Extend" and m == "extend":
            p, v = place_of(e, st, args[0])
            it = byte_items(e, st, v) if v.op == "vec" or v.op == "agg" else None
            if it is None or p is None:
                return None
            _, w = place_of(e, st, args[1])
            if w.op == "agg" and w.a[0] == "xit":
                more = list(w.a[2])
            else:
                more = byte_items(e, st, w)
            if more is None:
                raise Lost("extend")
            more = [e.val_deep(st, x) if x.op in ("ref", "cref") else x for x in more]
            e.setval(st, p, newlist(it + more, v.ty), site)
            return [(st, UNIT)]
        if tr in ("std::ops::Index", "std::ops::IndexMut"):
            it = byte_items(e, st, args[0])
            if it is None:
                return None
            if is_c(args[1]) and type(args[1].a[0]) is int:
                return None
            rb = M.range_bounds(e, st, args[1], C(len(it)))
            if rb and is_c(rb[0]) and is_c(rb[1]):
                a, b = rb[0].a[0], rb[1].a[0]
                if not 0 <= a <= b <= len(it):
                    self.panicked.append(site)
                    return []
                if m == "index":
                    if self.is_text(e, st, args[0]):
                        try:
                            return [(st, mk("cref", mk("str", bytes(x.a[0] for x in it[a:b]).decode())))]
                        except (UnicodeDecodeError, AttributeError):
                            return None
                    return [(st, mk("cref", arr(it[a:b])))]
                p, v = place_of(e, st, args[0])
                if p is None or p.op != "ref":
                    return None
                return [(st, mk("ref", p.a[0], tuple(p.a[1]) + (("s", rb[0], rb[1]),), 1))]
            return None
        if m in ("to_be_bytes", "to_le_bytes", "to_ne_bytes") and name.startswith("core::num::"):
            v = e.val_deep(st, args[0])
            n = arr_len(t["dty"])
            if is_c(v) and n:
                bs = (v.a[0] % (1 << (8 * n))).to_bytes(n, "big" if m == "to_be_bytes" else "little")
                return [(st, arr(lit(bs)))]
            return None
        if m in ("from_be_bytes", "from_le_bytes") and name.startswith("core::num::"):
            it = byte_items(e, st, args[0])
            if it is not None and all(is_c(x) for x in it):
                return [(st, C(int.from_bytes(bytes(x.a[0] & 255 for x in it), "big" if m == "from_be_bytes" else "little", signed=t["dty"].startswith("i"))))]
            return None
        if m in ("into_iter",) and args and tr == "std::iter::IntoIterator":
            v = e.val_deep(st, args[0])
            if v.op == "vec" and items_of(e, st, v) is None:
                it = byte_items(e, st, v)
                if it is not None:
                    return [(st, agg("xit", 0, [mk("cref", x) for x in it] if t["argtys"][0].startswith("&") else it))]
            if v.op == "agg" and v.a[0] == "std::ops::Range" and is_c(v.a[2][0]) and is_c(v.a[2][1]) and v.a[2][1].a[0] - v.a[2][0].a[0] < 4000:
                return [(st, agg("xit", 0, [C(k) for k in range(v.a[2][0].a[0], v.a[2][1].a[0])]))]
        if tr == "std::iter::Iterator" and args:
            v = e.val(st, args[0]) if args[0].op == "ref" else args[0]
            if v.op == "agg" and v.a[0] == "std::ops::Range" and is_c(v.a[2][0]) and is_c(v.a[2][1]) and m != "next" and v.a[2][1].a[0] - v.a[2][0].a[0] < 4000 and args[0].op != "ref":
                xs = agg("xit", 0, [C(k) for k in range(v.a[2][0].a[0], v.a[2][1].a[0])])
                return self.iterator(e, st, site, m, xs, list(xs.a[2]), [xs] + list(args[1:]), t, fr)
        if tr == "std::ops::Neg" and m == "neg":
            a = e.val_deep(st, args[0])
            return [(st, C(-a.a[0]))] if is_c(a) and type(a.a[0]) is int else None
        if tr in ARITH and len(args) == 2:
            a, b = e.val_deep(st, args[0]), e.val_deep(st, args[1])
            if is_c(a) and is_c(b) and type(a.a[0]) is int and type(b.a[0]) is int and t["dty"] in INTS:
                x, y = a.a[0], b.a[0]
                if m in ("div", "rem") and (y == 0 or x < 0 or y < 0):
                    return None
                n = {"add": lambda: x + y, "sub": lambda: x - y, "mul": lambda: x * y, "div": lambda: x // y, "rem": lambda: x % y, "bitand": lambda: x & y, "bitor": lambda: x | y, "bitxor": lambda: x ^ y,
                     "shl": lambda: x << y, "shr": lambda: x >> y}[m]()
                if m == "shl":
                    n &= (1 << INTS[t["dty"]]) - 1
                lo, hi = (-(1 << INTS[t["dty"]] - 1), (1 << INTS[t["dty"]] - 1) - 1) if t["dty"][0] == "i" else (0, (1 << INTS[t["dty"]]) - 1)
                if not lo <= n <= hi:
                    self.panicked.append(site)
                    return []
                return [(st, C(n))]
            return None
        if name.startswith("std::collections::VecDeque::") or "VecDeque" in t["dty"] and m in ("new", "with_capacity", "from", "from_iter", "collect", "into"):
            return self.deque(e, st, site, m, args, t)
        if m in ("from", "into") and args and "VecDeque" in t["argtys"][0] and t["dty"].startswith("std::vec::Vec<"):
            return [(st, newlist(byte_items(e, st, args[0]), t["dty"]))] if byte_items(e, st, args[0]) is not None else None
        if name in ("std::vec::from_elem",):
            if is_c(args[1]) and args[1].a[0] < 100000:
                return [(st, newlist([args[0]] * args[1].a[0], t["dty"]))]
        if name.startswith("log::") or "log::__private_api" in name:
            if m == "max_level":
                return [(st, mk("sym", ("in", "loglevel"), ty=t["dty"]))]
            if t["dty"] == "()":
                return [(st, UNIT)]
        if tr in ("std::cmp::PartialOrd",) and "log::Level" in t["argtys"][0]:
            return [(st, FALSE)]
        return None

    def deque(self, e, st, site, m, args, t):
        if m in ("new", "with_capacity"):
            return [(st, newlist([], t["dty"]))]
        if m in ("from", "into", "from_iter"):
            it = byte_items(e, st, args[0])
            return [(st, newlist(it, t["dty"]))] if it is not None else None
        p, v = place_of(e, st, args[0])
        it = byte_items(e, st, v)
        if it is None:
            return None
        if m in ("len", "is_empty"):
            return [(st, C(len(it)) if m == "len" else FALSE if it else TRUE)]
        if m in ("iter", "front", "back", "get", "contains"):
            if m == "iter":
                return [(st, agg("xit", 0, [mk("cref", x) for x in it]))]
            k = 0 if m == "front" else len(it) - 1 if m == "back" else args[1].a[0] if m == "get" and is_c(args[1]) else None
            if k is None:
                return None
            return [(st, some(mk("cref", it[k])) if 0 <= k < len(it) else NONE_)]
        if p is None:
            return None
        ret = UNIT
        if m == "push_back":
            it = it + [args[1]]
        elif m == "push_front":
            it = [args[1]] + it
        elif m == "pop_front":
            ret, it = (some(it[0]), it[1:]) if it else (NONE_, it)
        elif m == "pop_back":
            ret, it = (some(it[-1]), it[:-1]) if it else (NONE_, it)
        elif m == "clear":
            it = []
        elif m == "make_contiguous":
            return [(st, args[0])]
        else:
            return None
        e.setval(st, p, newlist(it, v.ty), site)
        return [(st, ret)]

    def is_text(self, e, st, v):
        for _ in range(6):
            if v.op == "str":
                return True
            if v.op in ("ref", "cref"):
                v = e.val(st, v)
            else:
                return bool(v.ty and v.ty in ("str", "std::string::String"))
        return False

    def seqty(self, ty):
        while ty.startswith("&"):
            ty = strip_ref(ty)
        return ty.startswith("[") or ty.startswith("std::vec::Vec<") or ty in ("str", "std::string::String")

    def seq_eq(self, e, st, a, b, pos):
        """both sequences equal? forks on the first byte that is not known"""
        if len(a) != len(b):
            return [(st, FALSE if pos else TRUE)]
        out, cur = [], st
        for x, y in zip(a, b):
            o = order(e, cur, x, y)
            if o == 0:
                continue
            if o is not None:
                out.append((cur, FALSE if pos else TRUE))
                return out
            q = e.eq(cur, x, y)
            nxt = None
            for s, v in bools(e, cur, q):
                if v:
                    nxt = s
                else:
                    out.append((s, FALSE if pos else TRUE))
            if nxt is None:
                return out
            cur = nxt
        out.append((cur, TRUE if pos else FALSE))
        return out

    # ------------------------------------------------------------------
    def fs(self, e, st, site, name, m, args, t):
        if name == "std::fs::read":
            return [(st, okv(newlist(self.content(st), "std::vec::Vec<u8>")))]
        if name == "std::fs::write":
            seg = byte_items(e, st, args[1])
            if seg is None:
                raise Lost("data")
            st.env[FSKEY] = arr(seg)
            return [(st, okv(UNIT))]
        if name == "std::fs::metadata":
            return [(st, okv(agg("fsmeta", 0, ())))]
        if name == "std::fs::File::open":
            return [(st, okv(self.open(st, "r")))]
        if name == "std::fs::File::create":
            st.env[FSKEY] = arr([])
            return [(st, okv(self.open(st, "w")))]
        if name == "std::fs::OpenOptions::new" or name == "std::fs::File::options":
            return [(st, agg("openopt", 0, (mk("str", ""),)))]
        if name.startswith("std::fs::OpenOptions::"):
            p, v = place_of(e, st, args[0])
            if v.op != "agg" or v.a[0] != "openopt":
                raise Lost("options")
            fl = v.a[2][0].a[0]
            if m == "open":
                if "t" in fl:
                    st.env[FSKEY] = arr([])
                return [(st, okv(self.open(st, fl)))]
            c = {"read": "r", "write": "w", "truncate": "t", "append": "aw", "create": "c"}.get(m)
            if c is None:
                raise Lost("options")
            on = args[1]
            if not is_c(on):
                raise Lost("options")
            fl = "".join(sorted(set(fl) | set(c))) if on.a[0] else "".join(x for x in fl if x not in c)
            nv = agg("openopt", 0, (mk("str", fl),))
            if p is None:
                return [(st, mk("cref", nv))]
            e.setval(st, p, nv, site)
            return [(st, args[0])]
        if name == "std::fs::Metadata::len":
            return [(st, C(len(self.content(st))))]
        if name.startswith("std::fs::File::") and args:
            v = e.val_deep(st, args[0])
            if v.op != "agg" or v.a[0] != "file":
                raise Lost("file")
            if m == "set_len":
                if not is_c(args[1]):
                    raise Lost("length")
                c, n = self.content(st), args[1].a[0]
                if "w" not in v.a[2][1].a[0]:
                    return [(st, errv(ioerr("InvalidInput")))]
                st.env[FSKEY] = arr(c[:n] + [C(0)] * (n - len(c)))
                return [(st, okv(UNIT))]
            if m in ("sync_all", "sync_data"):
                return [(st, okv(UNIT))]
            if m == "metadata":
                return [(st, okv(agg("fsmeta", 0, ())))]
            if m == "try_clone":
                return [(st, okv(v))]
        return None

    # ------------------------------------------------------------------ text
    def text(self, e, st, site, name, m, tr, args, t, fr):
        if m == "write_fmt" and len(args) == 2:
            p, v = place_of(e, st, args[0])
            b = strval(e, st, args[1])
            if p is not None and b is not None:
                if v.op == "str":
                    e.setval(st, p, mk("str", v.a[0] + b), site)
                    return [(st, okv(UNIT))]
                it = byte_items(e, st, v) if v.op == "vec" else None
                if it is not None:
                    e.setval(st, p, newlist(it + lit(b.encode()), v.ty), site)
                    return [(st, okv(UNIT))]
            return None
        if m in CHAR_TESTS and args:
            x = e.val_deep(st, args[0])
            x = e.val_deep(st, e.val(st, x)) if x.op in ("ref", "cref") else x
            if is_c(x) and 0 <= x.a[0] < 0x110000:
                return [(st, TRUE if CHAR_TESTS[m](chr(x.a[0])) else FALSE)]
        if m in ("parse", "from_str_radix", "from_str") and ("impl str" in name or name.startswith("core::num::") or "from_str" in name):
            ity = gen_args(t["dty"])[0] if t["dty"].startswith("std::result::Result<") else ""
            x = strval(e, st, args[0])
            if x is not None and ity in INTS:
                base = args[1].a[0] if m == "from_str_radix" and is_c(args[1]) else 10 if m != "from_str_radix" else None
                if base is None:
                    return None
                body = x[1:] if x[:1] == "+" or x[:1] == "-" and ity[0] == "i" else x
                lo, hi = (-(1 << INTS[ity] - 1), (1 << INTS[ity] - 1) - 1) if ity[0] == "i" else (0, (1 << INTS[ity]) - 1)
                good = body != "" and all(ch in "0123456789abcdefghijklmnopqrstuvwxyz"[:base] for ch in body.lower()) and body.isascii()
                n = int(x, base) if good else None
                if n is not None and lo <= n <= hi:
                    return [(st, okv(C(n)))]
                return [(st, errv(agg("std::num::ParseIntError", 0, ())))]
        if m == "to_string" and t["dty"] == "std::string::String":
            v = e.val_deep(st, args[0])
            at = t["argtys"][0]
            while at.startswith("&"):
                at = strip_ref(at)
            if is_c(v) and type(v.a[0]) is int:
                if at in INTS:
                    return [(st, mk("str", str(v.a[0])))]
                if at == "char":
                    return [(st, mk("str", chr(v.a[0])))]
        if m in ("from_utf8", "from_utf8_lossy") and ("String" in name or "str" in name):
            it = byte_items(e, st, args[0])
            if it is None:
                return None
            if not all(is_c(x) for x in it):
                if m == "from_utf8_lossy":
                    return None
                return None
            b = bytes(x.a[0] & 255 for x in it)
            own = "String" in name
            if m == "from_utf8_lossy":
                return [(st, agg("std::borrow::Cow", 0, (mk("cref", mk("str", b.decode("utf8", "replace"))),)))]
            try:
                x = mk("str", b.decode())
                return [(st, okv(x if own else mk("cref", x)))]
            except UnicodeDecodeError:
                return [(st, errv(mk("op", "utf8err")))]
        if m in ("to_lowercase", "to_uppercase", "to_ascii_lowercase", "to_ascii_uppercase", "trim", "trim_end", "trim_start") and "str" in name.lower():
            s = strval(e, st, args[0])
            if s is None:
                return None
            f = {"to_lowercase": str.lower, "to_uppercase": str.upper, "to_ascii_lowercase": str.lower, "to_ascii_uppercase": str.upper, "trim": str.strip, "trim_end": str.rstrip, "trim_start": str.lstrip}[m]
            x = mk("str", f(s))
            return [(st, mk("cref", x) if m.startswith("trim") else x)]
        if m == "eq_ignore_ascii_case":
            a, b = strval(e, st, args[0]), strval(e, st, args[1])
            if a is not None and b is not None:
                return [(st, TRUE if a.lower() == b.lower() else FALSE)]
        if m in ("trim_matches", "trim_end_matches", "trim_start_matches") and "str" in name:
            s, c = strval(e, st, args[0]), args[1]
            if s is None or not is_c(c):
                return None
            ch = chr(c.a[0]) if isinstance(c.a[0], int) else c.a[0]
            f = {"trim_matches": str.strip, "trim_end_matches": str.rstrip, "trim_start_matches": str.lstrip}[m]
            return [(st, mk("cref", mk("str", f(s, ch))))]
        if m in ("as_str", "as_bytes", "to_string", "to_owned", "into_bytes", "deref", "as_ref", "borrow", "into", "from", "into_string", "into_owned", "clone", "into_boxed_str", "as_mut_str"):
            v = e.val_deep(st, args[0])
            if m == "to_string" and v.op == "agg" and v.a[0] == IOERR:
                s = strval(e, st, v.a[2][1])
                return [(st, mk("str", s))] if s is not None else None
            if v.op == "agg" and v.a[0] == "std::borrow::Cow" and v.a[2]:
                v = e.val_deep(st, v.a[2][0])
            if v.op == "str":
                if m in ("as_bytes",):
                    return [(st, mk("cref", arr(lit(v.a[0].encode()))))]
                if m == "into_bytes":
                    return [(st, newlist(lit(v.a[0].encode()), "std::vec::Vec<u8>"))]
                if t["dty"].startswith("&"):
                    return [(st, mk("cref", v))]
                if t["dty"] in ("std::string::String", "str") or m == "clone":
                    return [(st, v)]
                if t["dty"].startswith("std::vec::Vec<u8>"):
                    return [(st, newlist(lit(v.a[0].encode()), "std::vec::Vec<u8>"))]
            return None
        if m in ("len", "is_empty") and ("String" in name or "impl str" in name):
            s = strval(e, st, args[0])
            if s is not None:
                n = len(s.encode())
                return [(st, C(n) if m == "len" else (TRUE if n == 0 else FALSE))]
        if m in ("starts_with", "ends_with", "contains") and "impl str" in name:
            a, b = strval(e, st, args[0]), strval(e, st, args[1])
            if b is None and is_c(args[1]):
                b = chr(args[1].a[0]) if isinstance(args[1].a[0], int) else None
            if a is not None and b is not None:
                return [(st, TRUE if {"starts_with": a.startswith, "ends_with": a.endswith, "contains": a.__contains__}[m](b) else FALSE)]
        if m in ("bytes",) and "impl str" in name:
            it = byte_items(e, st, args[0])
            if it is not None:
                return [(st, agg("xit", 0, it))]
        if m in ("chars",) and "impl str" in name:
            s = strval(e, st, args[0])
            if s is not None:
                return [(st, agg("xit", 0, [C(ord(c)) for c in s]))]
        if name.startswith("core::fmt::rt::Argument::new_"):
            return [(st, agg("fmtarg", 0, (mk("str", m), args[0])))]
        if name in ("std::fmt::Arguments::new", "std::fmt::Arguments::from_str", "std::fmt::Arguments::from_str_nonconst", "core::fmt::rt::<impl std::fmt::Arguments>::new_const", "core::fmt::rt::<impl std::fmt::Arguments>::from_str"):
            return self.fmt(e, st, m, args)
        if name in ("std::fmt::format", "alloc::fmt::format", "std::fmt::Arguments::to_string"):
            v = args[0]
            if v.op == "str":
                return [(st, v)]
            return [(st, mk("op", "text", v, ty="std::string::String"))]
        if tr == "std::ops::Add" and m == "add" and "String" in t["argtys"][0]:
            a, b = strval(e, st, args[0]), strval(e, st, args[1])
            if a is not None and b is not None:
                return [(st, mk("str", a + b))]
        if m in ("push_str", "push") and "String" in name:
            p, v = place_of(e, st, args[0])
            a = strval(e, st, args[0])
            b = strval(e, st, args[1]) if m == "push_str" else (chr(args[1].a[0]) if is_c(args[1]) and isinstance(args[1].a[0], int) else None)
            if a is not None and b is not None and p is not None:
                e.setval(st, p, mk("str", a + b), site)
                return [(st, UNIT)]
        if name == "std::string::String::new" or (m == "default" and t["dty"] == "std::string::String"):
            return [(st, mk("str", ""))]
        return None

    def fmt(self, e, st, m, args):
        if m.startswith("from_str"):
            s = strval(e, st, args[0])
            return [(st, mk("str", s))] if s is not None else None
        tpl = byte_items(e, st, args[0])
        av = e.val_deep(st, args[1]) if len(args) > 1 else arr([])
        al = items_of(e, st, av)
        if tpl is None or al is None or not all(is_c(x) for x in tpl):
            return None
        b = bytes(x.a[0] for x in tpl)
        out, i, k = "", 0, 0
        while i < len(b):
            c = b[i]
            i += 1
            if c == 0:
                break
            if c < 0x80:
                out += b[i:i + c].decode()
                i += c
            elif c == 0x80:
                n = b[i] | b[i + 1] << 8
                out += b[i + 2:i + 2 + n].decode()
                i += 2 + n
            elif c >= 0xC0:
                flags, width, prec = 0x60000020, None, None
                if c & 1:
                    flags = int.from_bytes(b[i:i + 4], "little")
                    i += 4
                if c & 2:
                    width = int.from_bytes(b[i:i + 2], "little")
                    i += 2
                if c & 4:
                    prec = int.from_bytes(b[i:i + 2], "little")
                    i += 2
                if c & 8:
                    k = int.from_bytes(b[i:i + 2], "little")
                    i += 2
                if c & 16:
                    w = al[width].a[2][1] if al[width].op == "agg" and al[width].a[0] == "fmtarg" else None
                    w = e.val_deep(st, w) if w is not None else None
                    if w is None or not is_c(w):
                        return None
                    width = w.a[0]
                if prec is not None or c & 32:
                    return None
                a = al[k]
                k += 1
                x = self.show(e, st, a, flags)
                if x is None:
                    return None
                num = is_c(e.val_deep(st, a.a[2][1]))
                if width is not None and len(x) < width:
                    pad = width - len(x)
                    fill, al_ = chr(flags & 0x1FFFFF), flags >> 29 & 3
                    if flags >> 24 & 1 and num:
                        x = x[:1] + "0" * pad + x[1:] if x[:1] in "+-" else x[:2] + "0" * pad + x[2:] if x[:2] in ("0x", "0b", "0o") else "0" * pad + x
                    elif al_ == 1 or al_ == 3 and num:
                        x = fill * pad + x
                    elif al_ == 2:
                        x = fill * (pad // 2) + x + fill * (pad - pad // 2)
                    else:
                        x = x + fill * pad
                out += x
            else:
                return None
        return [(st, mk("str", out))]

    def show(self, e, st, a, flags=0):
        if a.op != "agg" or a.a[0] != "fmtarg":
            return None
        how, v = a.a[2][0].a[0], e.val_deep(st, a.a[2][1])
        s = strval(e, st, v)
        if how == "new_display":
            if v.op == "str" or (s is not None and v.op != "agg"):
                return s
            if is_c(v) and type(v.a[0]) is int:
                return str(v.a[0])
        if how in ("new_lower_hex", "new_upper_hex", "new_binary", "new_octal") and is_c(v) and type(v.a[0]) is int and v.a[0] >= 0:
            kind, pre = {"new_lower_hex": ("x", "0x"), "new_upper_hex": ("X", "0x"), "new_binary": ("b", "0b"), "new_octal": ("o", "0o")}[how]
            return (pre if flags >> 23 & 1 else "") + format(v.a[0], kind)
        if how == "new_debug" and v.op == "str":
            return '"%s"' % s
        return None


INTS = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64, "u128": 128, "i8": 8, "i16": 16, "i32": 32, "i64": 64, "isize": 64, "i128": 128}
ARITH = tuple("std::ops::" + x for x in ("Add", "Sub", "Mul", "Div", "Rem", "BitAnd", "BitOr", "BitXor", "Shl", "Shr"))
VECS = ("std::vec::Vec::", "core::slice::<impl [T]>::", "std::slice::<impl [T]>::", "alloc::slice::<impl [T]>::", "core::array::<impl [T; N]>::", "<[T]>::")


class Pass:
    """one evaluation of a function over byte containers"""

    def __init__(self, p, fn, args, env=(), content=None, hook=None, budget=60000, deadline=60):
        self.h = hook or IO()
        self.outs = []
        h = self.h

        def on_return(e, st, f, ret):
            if f is fn and not getattr(st, "inner", False):
                self.outs.append((e, st, ret))
        h.on_return = on_return

        def setup(st, a):
            st.env[FSKEY] = arr(content or [])
            for k, v in dict(env).items():
                st.env[k] = v
        e = Engine(p, h, numeric=True, budget=budget, deadline=deadline, unroll=4000, max_parts=100000)
        e.recurse, e.exact = 5, True
        self.engine = e
        self.res = e.analyse(fn, args=args, setup=setup)
