"""Layout of encoded directories: counts, entries, inline values, offsets, links."""
from lib import *
import oracle_tags as O

META = {
    "level": "proof",
    "exhaustive": True,
    "rule": "every directory is laid out as count, 12-byte entries in ascending order, link and value area; every stored offset is the position of what it points at",
    "explanation": "The directory encoder's MIR is interpreted abstractly for a directory with an arbitrary number of arbitrary tags. Loop invariants are affine equalities "
                   "between the offset counter, the lengths of the output and of the value area and the number of entries written; a typestate automaton follows the fields of each entry. "
                   "Recursive calls (sub-IFDs) are replaced by the property itself (induction on the nesting).",
    "assumptions": ["lengths and offsets fit the 32-bit fields (narrowing casts of lengths are taken as exact)",
                    "a tag's stored bytes are at most component count x component size (P02, P03)"],
}
U8V = "std::vec::Vec<u8>"
TT = "little_exif::exif_tag::TagType"
SIZE = {"INT8U": 1, "STRING": 1, "INT16U": 2, "INT32U": 4, "RATIONAL64U": 8, "INT8S": 1, "UNDEF": 1, "INT16S": 2, "INT32S": 4, "RATIONAL64S": 8, "FLOAT": 4, "DOUBLE": 8}


def flat(e, st, v, out):
    """content of a byte sequence as a list of pieces"""
    if v.op == "vec":
        b = v.a[0]
        if b.op == "cat":
            for x in b.a:
                flat(e, st, x, out)
        elif b.op == "fill":
            out.append(("zero" if b.a[0] is C(0) else "bytes", b, v.a[1]))
        elif b.op == "op" and b.a[0] == "to":
            out.append(("to", b, v.a[1]))
        else:
            out.append(("raw", b, v.a[1]))
    elif v.op == "agg" and v.a[0] == "array":
        z = all(x is C(0) for x in v.a[2])
        out.append(("zero" if z else "bytes", v, C(len(v.a[2]))))
    elif v.op == "op" and v.a[0] == "to":
        out.append(("to", v, C({"u16": 2, "u32": 4}.get(v.a[1], 0))))
    else:
        out.append(("raw", v, e.vlen(st, v)))
    return out


def truths(e, r):
    """the truth values a predicate can take over its evaluations"""
    out = set()
    for s, v in r:
        for b in (True, False):
            if e.assume(s.copy(), v, b):
                out.add(TRUE if b else FALSE)
    return out


class Cls:
    """one kind of tag as the encoder sees it"""
    def __init__(self, name, elem, fmt, tt, N, val, sub=None, members=()):
        self.name, self.elem, self.fmt, self.tt, self.N, self.val, self.sub = name, elem, fmt, tt, N, val, sub
        self.num = sym("num:" + name, "u16")
        self.members = members
        self.size = SIZE[fmt]


class Enc(Hook):
    def __init__(self, c, p, classes, F, main, endian, data, ev, co, off0, len0, self_nr, self_ty, n, m):
        self.c, self.p, self.classes, self.main = c, p, classes, main
        self.byelem = {k.elem: k for k in classes}
        self.names = F
        self.endian, self.data, self.ev, self.co, self.off0, self.len0 = endian, data, ev, co, off0, len0
        self.nr, self.ty, self.n, self.m = self_nr, self_ty, n, m
        self.fail = {}
        self.good = {}
        self.areas = set()
        self.where = {}
        self.returns = 0
        self.pointers = None

    # ---- verdicts: the last evaluation of an obligation at a site decides (earlier ones are fixpoint iterations)
    vague = None

    def inner(self, fn, head, d):
        """does the value depend on what a loop inside the loop over the entries does? (its invariants may not say enough)"""
        for x in lin_of(d)[0]:
            for y in x.syms if hasattr(x, "syms") else (x,):
                n = y.a[0] if y.op == "sym" else ()
                if n and n[0] == "phi":
                    n = n[1]
                    while isinstance(n, tuple) and isinstance(n[0], tuple):
                        n = n[0]
                    if isinstance(n, tuple) and len(n) >= 3 and n[1] == fn.path and n[2] != head and n[2] in fn.loop_body(head):
                        return True
        return False

    def judge(self, st, ok, key, msg, site):
        if ok:
            self.good[key] = self.good.get(key, 0) + 1
        else:
            self.fail[key] = (msg, site.where() if site else "")

    def cls_of(self, e, st, r):
        v = e.val_deep(st, r)
        k = self.byelem.get(v)
        if k:
            return k
        return None

    def on_elem(self, e, st, site, x):
        v = x.a[0] if x.op in ("cref",) else x
        k = self.byelem.get(v)
        if k:
            if st.auto[0] == "V":
                for r, x in st.env.items():
                    if r[0] != "D" and not r[0] == "G" and (x.ty and "Vec<u8>" in x.ty and not x.ty.startswith("&") or x.op in ("vec",) and self.u8(x)):
                        self.areas.add(r)
                self.judge(st, not st.auto[3], "pairing", "an entry ends with an offset or a value that is not paired with the other", site)
                for g in ("off", "val"):
                    st.env.pop(("G", g), None)
                st.auto = st.auto[:3] + ("",)
            st.auto = (st.auto[0], k.name, st.auto[2], st.auto[3])
            # a new element of this kind: its attributes are new values
            for s in (k.N, k.val.a[0] if k.val is not None else None, k.val.a[1] if k.val is not None else None, k.num):
                if s is not None and s.op == "sym":
                    e._rename(st, s)
            if k.val is not None and k.val.a[1].op == "sym" and k.val.a[1] is not k.N:
                st.assume_ge0(sub(mulc(k.N, k.size), k.val.a[1]))

    def on_call(self, e, st, site, name, fr, args, t):
        m = name.rsplit("::", 1)[-1]
        if fr.get("trait") == CONV and m == "to_u8_vec":
            ty = self_ty_of_conv(fr)
            v, en = e.val_deep(st, args[0]), e.val_deep(st, args[1])
            self.judge(st, en is self.endian, "endian", "a field is stored in a byte order other than the metadata's", site)
            w = {"u16": 2, "u32": 4}.get(ty)
            if w is None:
                return None
            return [(st, mk("vec", mk("op", "to", ty, v, en, ty=U8V), C(w), ty=U8V))]
        if m == "clone" and t["dty"] == ENDIAN:
            return [(st, e.val_deep(st, args[0]))]
        if m == "clone" and t["dty"] == TAG:
            return [(st, e.val_deep(st, args[0]))]
        if name in self.names and args:
            k = self.cls_of(e, st, args[0])
            if k is None:
                return None
            a = self.names[name]
            if a == "is_writable":
                return [(st, TRUE if k.sub != "skip" and not k.tt else FALSE)]
            if a == "is_string":
                return [(st, TRUE if k.fmt == "STRING" else FALSE)]
            if a == "format":
                return [(st, agg(FMT, vidx(self.p, FMT, k.fmt), ()))]
            if a == "number_of_components":
                return [(st, k.N)]
            if a == "as_u16":
                return [(st, k.num)]
            if a == "get_tag_type":
                i = vidx(self.p, TT, k.tt or "VALUE")
                fs = self.p.adts[TT]["variants"][i]["fields"]
                return [(st, agg(TT, i, [sym("tt:%s.%s" % (k.name, f), ty) for f, ty in fs]))]
            if a == "value_as_u8_vec":
                self.judge(st, e.val_deep(st, args[1]) is self.endian, "endian-value", "a value is stored in a byte order other than the metadata's", site)
                if k.val is None:
                    return [(st, agg("array", 0, ()))]
                return [(st, k.val)]
        f = e.p.fns.get(name)
        if f is self.main and site.fn is not None and args:
            return self.recurse(e, st, site, args, t)
        return None

    def is_ev(self, e, st, r):
        """does this reference lead to the output vector?"""
        for _ in range(6):
            if r is self.ev:
                return True
            if r is None or r.op != "ref":
                return False
            if r.a[0] == ("D", self.ev) and not r.a[1]:
                return True
            r = e.val(st, r)
        return False

    def recurse(self, e, st, site, args, t):
        """the property for the nested directory"""
        e.h  # noqa
        tgt, offr = args[3], args[4]
        self.judge(st, not self.is_ev(e, st, tgt), "subifd-target", "a sub-IFD is written between the entries of its parent", site)
        v = e.val(st, tgt)
        a = e.vlen(st, v)
        off = e.val_deep(st, offr)
        data = e.val_deep(st, args[1])
        self.judge(st, data is self.data, "subifd-data", "a sub-IFD is encoded with other metadata than its parent", site)
        me = e.val_deep(st, args[0])
        pend = self.found.get(me)
        self.judge(st, pend is not None, "subifd-which", "the directory encoded for a pointer tag is not the one found for it", site)
        self.payload(e, st, site, a, "the sub-IFD")
        L = e.fresh(st, site, "blk", "usize")
        lk = e.fresh(st, site, "lnk", "u64")
        st.assume_ge0(sub(L, C(6)))
        old = off
        self.setg(st, "subptr", old)
        e.setval(st, tgt, mk("vec", mk("op", "anyseq", L), add(a, L), ty=U8V), site)
        e.setval(st, offr, add(off, L), site)
        s2 = st.copy()
        r = agg("tuple", 0, (lk, mk("vec", mk("op", "to", "u32", old, self.endian, ty=U8V), C(4), ty=U8V)))
        return [(st, agg(RESULT, 0, (r,))), (s2, agg(RESULT, 1, (sym("encerr", "std::io::Error"),)))]

    # ---- ghosts
    def setg(self, st, k, v):
        st.env[("G", k)] = v

    def getg(self, st, k):
        return st.env.get(("G", k))

    def base(self, st):
        n = self.getg(st, "n")
        return add(add(self.off0, C(6)), mulc(n, 12)) if n is not None else None

    def same(self, st, a, b):
        d = sub(a, b)
        if is_c(d):
            return d.a[0] == 0
        return st.proves_ge0(d) and st.proves_ge0(mulc(d, -1))

    def payload(self, e, st, site, a, what):
        ph, k, srt, pend = st.auto
        b = self.base(st)
        if b is None:
            self.judge(st, False, "area-before-count", "%s is stored before the entry count" % what, site)
            return
        pos = add(b, a)
        if "o" in pend:
            X = self.getg(st, "off")
            self.judge(st, self.same(st, X, pos), "offset", "a stored offset does not point at %s it describes" % what, site)
            st.env.pop(("G", "off"), None)
            st.auto = (ph, k, srt, pend.replace("o", ""))
        else:
            self.judge(st, "v" not in pend, "unreferenced", "%s is stored without an offset that points at it" % what, site)
            self.setg(st, "val", pos)
            st.auto = (ph, k, srt, pend.replace("v", "") + "v")

    def pointer(self, e, st, site, X):
        ph, k, srt, pend = st.auto
        if "v" in pend:
            P = self.getg(st, "val")
            self.judge(st, self.same(st, X, P), "offset", "a stored offset does not point at the data it describes", site)
            st.env.pop(("G", "val"), None)
            st.auto = (ph, k, srt, pend.replace("v", ""))
        else:
            self.judge(st, "o" not in pend, "dangling", "an offset is stored but nothing is stored at that offset", site)
            self.setg(st, "off", X)
            st.auto = (ph, k, srt, pend.replace("o", "") + "o")

    def on_append(self, e, st, site, target, old, seg):
        ty = (old.ty or "") if old is not None else ""
        if "Vec<%s>" % TAG in ty or (target.ty and "Vec<%s>" % TAG in target.ty):
            ph, k, srt, pend = st.auto
            st.auto = (ph, k, False, pend)
            return
        if seg is None:
            pieces = [("raw", None, None)]
        else:
            pieces = flat(e, st, seg, [])
        if not self.is_ev(e, st, target):
            if not self.is_bytes(target, old, seg, pieces):
                return
            if not self.is_area(e, st, target):
                # a value put together: the offsets of strips are checked where they are computed
                k = next((x for x in self.classes if x.name == st.auto[1]), None)
                if st.auto[0] == "V" and k is not None and k.sub == "strips":
                    for kind, b, ln in pieces:
                        if kind == "to" and b.a[1] == "u32" and b.a[2] not in self.counts():
                            self.pointer(e, st, site, b.a[2])
                return
            a = e.vlen(st, old)
            for kind, b, ln in pieces:
                if kind != "zero":
                    self.payload(e, st, site, a, "the data")
                    break
                a = add(a, ln)
            return
        for kind, b, ln in pieces:
            self.field(e, st, site, kind, b, ln, old)
            if ln is not None and old is not None:
                old = mk("vec", mk("op", "part"), add(e.vlen(st, old), ln), ty=U8V)

    def u8(self, x):
        b = x.a[0]
        if b.op == "cat":
            return any(self.u8(y) for y in b.a if y.op == "vec") or any(y.op == "agg" for y in b.a)
        return b.op == "fill" and b.a[0] is C(0)

    def is_area(self, e, st, r):
        """a byte vector that lives as long as the loop over the entries"""
        for _ in range(6):
            if r is None or r.op != "ref":
                return False
            if not r.a[1] and r.a[0] in self.areas:
                return True
            r = e.val(st, r)
        return False

    def is_bytes(self, target, old, seg, pieces):
        tys = [x.ty for x in (old, target, seg) if x is not None and x.ty]
        if any("Vec<u8>" in y or strip_ref(y) == "[u8]" for y in tys):
            return True
        return not tys and any(k in ("to", "zero") for k, _, _ in pieces)

    def counts(self):
        return {k.N for k in self.classes}

    def field(self, e, st, site, kind, b, ln, old):
        ph, k, srt, pend = st.auto
        kk = next((x for x in self.classes if x.name == k), None)
        J = lambda ok, key, msg: self.judge(st, ok, key, msg, site)
        if ph == "S":
            ok = kind == "to" and b.a[1] == "u16"
            J(ok, "count-field", "a directory does not start with its 16-bit entry count")
            if ok:
                self.setg(st, "n", b.a[2])
                nt = self.getg(st, "total")
                if nt is not None:
                    J(self.same(st, nt, b.a[2]), "count", "the entry count of a directory is not the number of its entries")
            st.auto = ("V", None, srt, pend)
            return
        if kind == "to" and b.a[1] == "u16" and ph == "V":
            kn = next((x for x in self.classes if x.num is b.a[2]), None)
            J(kn is not None and (kk is None or kn is kk), "number-field", "an entry does not start with its tag's number")
            J(srt, "sorted", "the entries of a directory are not put into ascending order of their tag numbers")
            if old is not None:
                self.setg(st, "start", e.vlen(st, old))
            st.auto = ("N", kn.name if kn else None, srt, pend)
            return
        if ph == "N":
            ok = kind == "to" and b.a[1] == "u16" and kk is not None and is_c(b.a[2]) and b.a[2].a[0] == O_CODE[kk.fmt]
            J(ok, "format-field", "an entry's number is not followed by its own type code")
            st.auto = ("F", k, srt, pend)
            return
        if ph == "F":
            ok = kind == "to" and b.a[1] == "u32" and kk is not None and self.same(st, b.a[2], kk.N)
            J(ok, "components-field", "an entry's type is not followed by its own component count")
            st.auto = ("K", k, srt, pend)
            return
        if ph == "K":
            N = kk.N if kk else None
            if kind == "to" and b.a[1] == "u32" and kk is not None and kk.sub == "strips" and st.proves_ge0(sub(C(4), mulc(N, 4))):
                # the offset of the only strip, stored inline; it was checked where it was computed
                st.auto = ("V", k, srt, pend)
                return
            if kind == "to" and b.a[1] == "u32":
                X = b.a[2]
                if kk is not None and (kk.tt != "IFD_OFFSET" and kk.sub != "thumb"):
                    J(st.proves_ge0(sub(mulc(N, kk.size), C(5))), "inline", "a value of up to four bytes is stored out of line")
                sp = self.getg(st, "subptr")
                st.auto = ("V", k, srt, pend)
                self.pointer(e, st, site, X)
                return
            if kind == "raw":
                ok = kk is not None and (kk.val is not None and b is kk.val.a[0] or kk.sub == "strips")
                J(ok, "value-field", "the value field of an entry holds something else than the tag's value")
            elif kind == "to":
                J(False, "value-field", "the value field of an entry holds something else than the tag's value")
            elif kind == "bytes":
                J(False, "value-field", "the value field of an entry holds constant bytes")
            if kk is not None and N is not None:
                J(st.proves_ge0(sub(C(4), mulc(N, kk.size))), "inline-long", "a value of more than four bytes is stored inline")
            st.auto = ("V", k, srt, pend)
            return
        if ph == "V":
            if kind == "zero":
                # padding of the value field, or the link after the last entry: both are zeros; the lengths decide
                st.env[("G", "link")] = sub(e.vlen(st, old), self.len0) if old is not None else C(-1)
                return
            # the value area
            J(not pend, "pairing", "an entry ends with an offset or a value that is not paired with the other")
            J(kind == "raw", "link-field", "the entries are followed by something that is not part of the directory")
            st.auto = ("A", None, srt, "")
            return
        J(ph == "A" and kind == "zero" or kind == "raw", "after-area", "something is stored after the value area")

    def on_head(self, e, st, fn, bb):
        # an entry is complete at the head of the loop over the entries
        if fn is self.main and st.auto[0] == "V" and not any(h != bb and bb in fn.loop_body(h) for h in fn.loop_heads):
            a = st.env.pop(("G", "start"), None)
            if a is not None:
                d = sub(e.vlen(st, st.env[("D", self.ev)]), add(a, C(12)))
                if not self.same(st, d, C(0)) and self.inner(fn, bb, d) and not st.proves_ge0(sub(d, C(1))) and not st.proves_ge0(sub(C(-1), d)):
                    self.vague = "the number of bytes a loop writes into an entry is not known"
                    st.auto = ("V", None) + st.auto[2:]
                    return
                self.judge(st, self.same(st, e.vlen(st, st.env[("D", self.ev)]), add(a, C(12))), "entry-size", "an entry does not take twelve bytes", Site((), fn, bb, 0))
            st.auto = ("V", None) + st.auto[2:]

    def on_pred(self, e, st, site, kind, seq, clo, args, t):
        if kind.startswith("sort"):
            ety = elem_ty(seq.ty) if seq.ty else None
            if ety != TAG:
                return None
            ok = True
            if clo is None:
                ok = False
            else:
                a, b = self.classes[0], self.classes[1]
                if kind.endswith("by_key") or kind.endswith("cached_key"):
                    r = e.call_closure(st.copy(), site, clo, [mk("cref", a.elem)])
                    ok = bool(r) and all(v is a.num for _, v in r)
                else:
                    r = e.call_closure(st.copy(), site, clo, [mk("cref", a.elem), mk("cref", b.elem)])
                    want = mk("op", "ordering", a.num, b.num)
                    ok = bool(r) and all(self.ord_ok(v, a.num, b.num) for _, v in r)
            ph, k, _, pend = st.auto
            st.auto = (ph, k, ok, pend)
            return [(st, UNIT)]
        if kind == "find":
            ety = strip_ref(gen_args(t["dty"])[0]) if t["dty"].startswith(OPTION) else None
            if ety != IFD:
                return None
            it = e.val(st, args[0]) if args[0].op == "ref" else args[0]
            from models import iter_seq
            s = iter_seq(e, st, site, seq)
            src = s
            while src is not None and src.op in ("vec",):
                src = src.a[0]
            out = []
            isol = src is not None and src.op == "fill" and src.a[0] is self.olelem
            isdata = src is not None and src.op == "fill" and src.a[0] is self.dtelem
            if not (isol or isdata):
                return None
            want_ty = None
            # which directory does the predicate accept?
            acc = []
            for g in range(len(self.p.adts[GRP]["variants"])):
                for same_nr in (True, False):
                    nr = self.nr if same_nr else sym("other_nr", "u32")
                    s2 = st.copy()
                    if not same_nr:
                        s2.ne = s2.ne | {(sub(nr, self.nr), "eq0"), (sub(self.nr, nr), "eq0")}
                    x = agg(IFD, 0, (sym("xtags"), agg(GRP, g, ()), nr))
                    arg = mk("cref", mk("cref", x))
                    r = e.call_closure(s2, site, clo, [arg])
                    if r is None:
                        return None
                    vals = truths(e, r)
                    if vals - {FALSE}:
                        acc.append((g, same_nr, vals == {TRUE}))
            if isol:
                sty = self.ty
                ok = len(acc) == 1 and acc[0] == (sty.a[1], True, True)
                self.judge(st, ok, "pointers-of", "the sub-IFD pointers written into a directory are not the ones collected for it", site)
                s2 = st.copy()
                self.setg(st, "total", self.n)
                self.setg(s2, "total", add(self.n, self.m))
                return [(st, NONE), (s2, Some(ref(self.olelem)))]
            ok = len(acc) == 1 and acc[0][1] and acc[0][2]
            k = st.auto[1]
            self.judge(st, ok, "subifd-find", "the directory looked up for a pointer tag is not the one of that kind in the same image directory", site)
            s2 = st.copy()
            fe = agg(IFD, 0, (sym("subtags"), agg(GRP, acc[0][0] if acc else 0, ()), self.nr))
            self.found[fe] = True
            self.lastgroup = acc[0][0] if acc else None
            self.subs.add(acc[0][0] if acc else None)
            return [(st, NONE), (s2, Some(ref(fe)))]
        return None

    def ord_ok(self, v, a, b):
        return v.op == "op" and v.a[0] in ("cmp", "ordering") and v.a[1] is a and v.a[2] is b

    def assume_fits(self, *a):
        return True

    def on_return(self, e, st, fn, ret):
        if fn is not self.main:
            return
        if is_err(ret):
            return
        self.returns += 1
        site = None
        J = lambda ok, key, msg: self.judge(st, ok, key, msg, site)
        J(is_ok(ret), "result", "the encoder's result is %s" % show(ret)[:80])
        ph = st.auto[0]
        v = st.env[("D", self.ev)]
        off = st.env[("D", self.co)]
        L = sub(e.vlen(st, v), self.len0)
        J(self.same(st, L, sub(off, self.off0)), "conservation", "the offset counter does not advance by the number of bytes written: later offsets are wrong")
        n = self.getg(st, "n")
        J(not st.auto[3], "pairing-end", "the last entry has an offset or a value that is not paired with the other")
        if n is None:
            J(False, "count-field", "a directory is written without an entry count")
            return
        if is_ok(ret) and ret.a[2][0].op == "agg" and len(ret.a[2][0].a[2]) == 2:
            li, lv = ret.a[2][0].a[2]
            J(self.same(st, li, add(add(self.off0, C(2)), mulc(n, 12))), "link-position", "the position reported for the next-directory link is not that of the link field")
            x = lv
            while x.op == "vec":
                x = x.a[0]
            J(x is mk("op", "to", "u32", self.off0, self.endian, ty=U8V), "own-offset", "the offset reported for a directory is not where it starts")


O_CODE = {lib: code for (code, _sz, lib) in O.TYPES.values()}


def run(c):
    p = c.p
    main = method(p, IFD, "encode_ifd")
    acc = {n: method(p, TAG, n) for n in ("is_writable", "is_string", "format", "number_of_components", "as_u16", "get_tag_type", "value_as_u8_vec")}
    # ---- kinds of tags
    groups, special = {}, []
    vs = p.adts[TAG]["variants"]
    for i, v in enumerate(vs):
        t = variant(p, TAG, v["name"])
        tt = [r for _, r in evaluate(p, acc["get_tag_type"], [ref(t)])[1]]
        fm = [r for _, r in evaluate(p, acc["format"], [ref(t)])[1]]
        if len(tt) != 1 or tt[0].op != "agg" or len(fm) != 1 or fm[0].op != "agg":
            c.bad("kind:%s" % v["name"], "no definite kind or format")
            continue
        k, f = vname(p, TT, tt[0].a[1]), vname(p, FMT, fm[0].a[1])
        c.count("variants")
        if k == "VALUE":
            groups.setdefault(f, []).append(i)
        else:
            special.append((i, k, f))
    ne = set()
    classes = []
    for f, mem in groups.items():
        el = sym("tag:" + f, TAG)
        for i in range(len(vs)):
            if i not in mem:
                ne.add((el, i))
        N = sym("N:" + f, "u32")
        classes.append(Cls(f, el, f, None, N, mk("vec", sym("val:" + f), sym("L:" + f, "usize"), ty=U8V), members=mem))
    pointers = []
    for i, k, f in special:
        nm = vs[i]["name"]
        el = variant(p, TAG, nm)
        if k == "IFD_OFFSET":
            cl = Cls(nm, el, f, k, C(1), None, "ptr")
            pointers.append(el)
        elif nm == "StripOffsets":
            cnt = sym("strips", "usize")
            el = variant(p, TAG, nm, [el.a[2][0], mk("vec", mk("fill", sym("strip", U8V)), cnt, ty="std::vec::Vec<std::vec::Vec<u8>>")])
            cl = Cls(nm, el, f, k, cnt, None, "strips")
        elif nm == "ThumbnailOffset":
            cl = Cls(nm, el, f, k, C(1), None, "thumb")
        else:
            cl = Cls(nm, el, f, k, sym("N:" + nm, "u32"), mk("vec", sym("val:" + nm), sym("L:" + nm, "usize"), ty=U8V))
        classes.append(cl)
    n, m = sym("n", "usize"), sym("m", "usize")
    allc = mk("choice", *[k.elem for k in classes], ty=TAG)
    tags = mk("vec", mk("fill", allc), n, ty="std::vec::Vec<%s>" % TAG)
    ptrs = mk("vec", mk("fill", mk("choice", *pointers, ty=TAG) if len(pointers) > 1 else pointers[0]), m, ty="std::vec::Vec<%s>" % TAG)
    nr = sym("nr", "u32")
    endian = sym("endian", ENDIAN)
    ev = mk("sym", ("in", "encode_vec"), ty="&mut " + U8V)
    co = mk("sym", ("in", "current_offset"), ty="&mut u32")
    ol = mk("sym", ("in", "offset_ifds"), ty="&mut std::vec::Vec<%s>" % IFD)
    off0, len0 = sym("off0", "u32"), sym("len0", "usize")
    gty = range(len(p.adts[GRP]["variants"]))
    subs = set()

    def kind(c, g):
        gv = agg(GRP, g, ())
        gname = vname(p, GRP, g)
        selfv = agg(IFD, 0, (tags, gv, nr))
        dtelem = sym("data_ifd", IFD)
        olelem = agg(IFD, 0, (ptrs, gv, nr))
        data = agg(METADATA, 0, (endian, mk("vec", mk("fill", dtelem), sym("nifds", "usize"), ty="std::vec::Vec<%s>" % IFD)))
        h = Enc(c, p, classes, {f.path: k for k, f in acc.items()}, main, endian, data, ev, co, off0, len0, nr, gv, n, m)
        h.found = {}
        h.olelem, h.dtelem = olelem, dtelem
        h.subs = subs

        def setup(st, args):
            st.env[("D", ev)] = mk("vec", sym("prefix"), len0, ty=U8V)
            st.env[("D", co)] = off0
            st.env[("D", ol)] = mk("vec", mk("fill", olelem), sym("nol", "usize"), ty="std::vec::Vec<%s>" % IFD)
            st.auto = ("S", None, False, "")
            st.ne = st.ne | frozenset(ne)
        e = Engine(p, h, numeric=True, budget=80000, deadline=400, rem_opaque=True, eq_only=True, max_parts=200)
        e.analyse(main, args=[ref(selfv), ref(data), ol, ev, co], setup=setup)
        c.count("directories kinds")
        c.count("tag kinds", len(classes))
        c.count("abstract steps", e.steps)
        for k, cnt in h.good.items():
            if k not in h.fail:
                c.ok("%s in a %s directory (%d evaluations)" % (k, gname, cnt), kind=k)
        for k, (msg, w) in h.fail.items():
            if h.vague and k in ("entry-size", "conservation"):
                c.undecided("%s:%s" % (k, gname), h.vague)
            else:
                c.bad("%s:%s" % (k, gname), msg, w or W(main))
        if h.vague:
            c.undecided("entry-size:%s" % gname, h.vague)
        if not h.returns:
            c.bad("noreturn:%s" % gname, "no directory of this kind can be encoded", W(main))
        for need in ("count-field", "number-field", "format-field", "components-field", "offset", "conservation", "link-position", "own-offset", "sorted"):
            if need not in h.good and need not in h.fail:
                c.bad("%s:missing:%s" % (need, gname), "the encoder never writes this part of a directory", W(main))
    c.parallel([lambda c, g=g: kind(c, g) for g in gty])
    c.parallel([lambda c, en=en: top(c, main, en) for en in range(2)])
    c.parallel([pointers_rule])


HEADER = {"Little": [0x49, 0x49, 0x2A, 0, 8, 0, 0, 0], "Big": [0x4D, 0x4D, 0, 0x2A, 0, 0, 0, 8]}


class Top(Hook):
    """Metadata::encode: header, directories one after the other, links"""
    def __init__(self, c, p, main, endian, name, data, elem):
        self.c, self.p, self.main, self.endian, self.name, self.data, self.elem = c, p, main, endian, name, data, elem
        self.fail, self.good = {}, {}
        self.maxf = method(p, METADATA, "get_max_generic_ifd_number")

    judge = Enc.judge
    same = Enc.same

    def vroot(self, e, st, r):
        for _ in range(6):
            if r is None or r.op != "ref":
                return None
            v = e.val(st, r)
            if v.op not in ("ref",):
                return None if r.a[1] else r.a[0]
            r = v
        return None

    def on_call(self, e, st, site, name, fr, args, t):
        f = e.p.fns.get(name)
        if f is self.maxf:
            return [(st, sym("maxnr", "u32"))]
        if name.endswith("Clone::clone") and t["dty"] == ENDIAN:
            return [(st, e.val_deep(st, args[0]))]
        if f is not self.main:
            return None
        tgt, offr = args[3], args[4]
        root = self.vroot(e, st, tgt)
        v = e.val(st, tgt)
        a = e.vlen(st, v)
        off = e.val_deep(st, offr)
        J = lambda ok, key, msg: self.judge(st, ok, key, msg, site)
        J(e.val_deep(st, args[1]) is self.data, "same-data", "a directory is encoded with other metadata than the one being encoded")
        J(self.same(st, a, off), "offset-start", "the offset a directory is encoded at is not the length of what precedes it")
        ph, pend = st.auto
        if ph == 0:
            b = []
            for kind, x, ln in flat(e, st, v, []):
                if x is not None and x.op == "agg":
                    b += list(x.a[2])
                else:
                    b = None
                    break
            J(b is not None and [y.a[0] if is_c(y) else None for y in b] == HEADER[self.name], "header", "the data before the first directory is not the eight-byte header of the byte order")
            J(True, "first", "")
            st.env[("G", "want")] = C(4)
        J(not pend, "link", "a directory's link is not stored before the next directory")
        L = e.fresh(st, site, "blk", "usize")
        lk = e.fresh(st, site, "lnk", "u64")
        st.assume_ge0(sub(L, C(6)))
        st.assume_ge0(sub(lk, add(off, C(2))))
        st.assume_ge0(sub(add(off, sub(L, C(4))), lk))
        e.setval(st, tgt, mk("vec", mk("op", "anyseq", L), add(a, L), ty=U8V), site)
        e.setval(st, offr, add(off, L), site)
        lv = mk("vec", mk("op", "to", "u32", off, self.endian, ty=U8V), C(4), ty=U8V)
        st.env[("G", "own")] = off
        st.env[("G", "next")] = lk
        st.env[("G", "buf")] = tgt
        s2 = st.copy()
        st.auto = (1, "p")
        s2.auto = (1, "e")
        return [(st, agg(RESULT, 0, (agg("tuple", 0, (lk, lv)),))), (s2, agg(RESULT, 1, (sym("encerr", "std::io::Error"),)))]

    def on_patch(self, e, st, site, target, old, pos, seg):
        ph, pend = st.auto
        if ph == 0 or self.vroot(e, st, target) is None or self.vroot(e, st, target) != self.vroot(e, st, st.env.get(("G", "buf"))):
            return
        J = lambda ok, key, msg: self.judge(st, ok, key, msg, site)
        x = strip_vec(seg)
        own = st.env.get(("G", "own"))
        J(x.op == "op" and x.a[0] == "to" and x.a[1] == "u32" and self.same(st, x.a[2], own), "link-value", "what is stored as link is not the offset of the directory just encoded")
        w = st.env.get(("G", "want"))
        J(w is not None and self.same(st, pos, w), "link-place", "the offset of a directory is not stored in the link of the directory before it")
        st.env[("G", "want")] = st.env[("G", "next")]
        # a link lies within what was written before it was reported
        st.assume_ge0(sub(e.vlen(st, old), add(pos, C(4))))
        st.auto = (1, "")

    def on_pred(self, e, st, site, kind, seq, clo, args, t):
        if kind not in ("filter", "find"):
            return None
        from models import iter_seq
        s = iter_seq(e, st, site, seq)
        while s is not None and s.op == "vec":
            s = s.a[0]
        if s is None or not (s.op == "fill" and s.a[0] is self.elem):
            return None
        if self.n is None:
            return None
        acc = []
        caught = [x for x in self.captured(e, st, clo) if x.op in ("sym", "lin", "c") and (x.ty in ("u32", None, "u64", "usize"))]
        if len(caught) != 1:
            self.n = None
            return None
        nr0 = caught[0]
        for g in range(len(self.p.adts[GRP]["variants"])):
            for same_nr in (True, False):
                s2 = st.copy()
                nr = nr0 if same_nr else sym("other_nr", "u32")
                if not same_nr:
                    s2.ne = s2.ne | {(sub(nr, nr0), "eq0"), (sub(nr0, nr), "eq0")}
                x = agg(IFD, 0, (sym("xtags"), agg(GRP, g, ()), nr))
                r = e.call_closure(s2, site, clo, [mk("cref", mk("cref", x))])
                if r is None:
                    return None
                vals = truths(e, r)
                if vals - {FALSE}:
                    acc.append((g, same_nr, vals == {TRUE}))
        gi = vidx(self.p, GRP, "GENERIC")
        self.judge(st, acc == [(gi, True, True)], "which", "the directories written under a number are not the image directories of that number", site)
        last = st.env.get(("G", "n"))
        self.judge(st, last is not None and self.same(st, nr0, add(last, C(1))), "ascending", "image directories are not written in the order of their numbers starting with 0", site)
        st.env[("G", "n")] = nr0
        return None

    def captured(self, e, st, clo):
        c = e.val(st, clo) if clo.op in ("ref", "cref") else clo
        return [e.val_deep(st, x) for x in c.a[2]] if c.op == "agg" else []

    def on_return(self, e, st, fn, ret):
        if fn is not self.enc or st.auto is None:
            return
        J = lambda ok, key, msg: self.judge(st, ok, key, msg, None)
        if st.auto[1] == "e":
            J(is_err(ret), "error", "a directory that cannot be encoded is left out instead of being reported")
            return
        if not is_ok(ret):
            return
        J(st.auto[1] == "", "link-last", "the offset of the last directory is stored nowhere")
        if self.n is not None:
            n = st.env.get(("G", "n"))
            J(n is not None and st.proves_ge0(sub(n, sym("maxnr", "u32"))), "all", "image directories with the highest number are not written")
        self.oks += 1


def top(c, main, en):
    p = c.p
    enc = method(p, METADATA, "encode")
    name = vname(p, ENDIAN, en)
    elem = sym("anyifd", IFD)
    endian = agg(ENDIAN, en, ())
    data = agg(METADATA, 0, (endian, mk("vec", mk("fill", elem), sym("nifds", "usize"), ty="std::vec::Vec<%s>" % IFD)))
    h = Top(c, p, main, endian, name, data, elem)
    h.n, h.enc, h.oks = True, enc, 0

    def setup(st, args):
        st.auto = (0, "")
        st.env[("G", "n")] = C(-1)
    e = Engine(p, h, numeric=True, budget=60000, deadline=200, eq_only=True, rem_opaque=True)
    e.analyse(enc, args=[ref(data)], setup=setup)
    c.count("abstract steps", e.steps)
    for k, cnt in h.good.items():
        if k not in h.fail:
            c.ok("encode: %s with %s endian (%d evaluations)" % (k, name, cnt), kind="encode." + k)
    for k, (msg, w) in h.fail.items():
        c.bad("encode-%s:%s" % (k, name), msg, w or W(enc))
    if h.n is None:
        c.note("the order of the image directories was not recognised in this form")
    for need in ("header", "offset-start", "link-value", "link-place", "link-last"):
        if need not in h.good and need not in h.fail:
            c.undecided("encode-%s" % need, "not found in Metadata::encode")


class Ptr(Hook):
    """the pointer tag of every sub-IFD is put into the directory it belongs to"""
    def __init__(self, c, p, kinds, nr):
        self.c, self.p, self.kinds, self.nr = c, p, kinds, nr
        self.fail, self.good = {}, {}
        self.stop = self.unk = False

    judge = Enc.judge

    def on_elem(self, e, st, site, x):
        v = x
        while v.op == "cref":
            v = v.a[0]
        k = next((k for k in self.kinds if k[0] is v), None)
        if k is not None:
            st.auto = ("", k[1])
            e._rename(st, self.nr)

    def kind(self, st):
        return next((k for k in self.kinds if k[1] == st.auto[1]), None)

    def on_call(self, e, st, site, name, fr, args, t):
        f = e.p.fns.get(name)
        if f is None:
            return None
        if f is self.getptr:
            r = e.inline(name, site.fn, site.ctx, site.bb, st, args, site, None)
            out = []
            for s, v in r or ():
                k = self.kind(s)
                if k is not None and k[2] is not None:
                    s.auto = ("todo", s.auto[1])
                out.append((s, v))
            return out or None
        if f is self.settag:
            k = self.kind(st)
            v = e.val_deep(st, args[1])
            if k is not None and k[2] is not None and v.op == "agg" and v.a[:2] == k[2][1].a[:2]:
                d = e.val_deep(st, args[0])
                if d.op == "elem" and ("POSX",) in st.env and d.a[1] is st.env[("POSX",)].a[2][0]:
                    d = st.env[("POSX",)].a[2][1]
                if d.op != "agg" and not (d.op == "elem" and d.a[1].op == "c"):
                    self.unk = True
                    st.auto = ("", st.auto[1])
                    return [(st, UNIT)]
                ok = d.op == "agg" and d.a[2][1] is k[2][0] and d.a[2][2] is self.nr
                self.judge(st, ok, "into", "the pointer to a sub-IFD is put into a directory it does not belong to", site)
                st.auto = ("", st.auto[1])
                return [(st, UNIT)]
        if f is self.main:
            self.stop = True
            return []
        return None

    def on_append(self, e, st, site, target, old, seg):
        k = self.kind(st)
        if k is None or k[2] is None or st.auto[0] != "todo" or seg is None:
            return
        xs = seg.a[2] if seg.op == "agg" and seg.a[0] == "array" else ()
        for d in xs:
            if d.op == "agg" and d.a[0] == IFD:
                tags = d.a[2][0]
                if tags.op == "agg" and tags.a[0] == "array" and [x.a[:2] for x in tags.a[2]] == [k[2][1].a[:2]]:
                    ok = d.a[2][1] is k[2][0] and d.a[2][2] is self.nr
                    self.judge(st, ok, "new", "the pointer to a sub-IFD is collected for a directory it does not belong to", site)
                    st.auto = ("", st.auto[1])

    def on_pred(self, e, st, site, kind, seq, clo, args, t):
        if kind not in ("find", "position") or st.auto[0] != "todo":
            return None
        k = self.kind(st)
        acc = []
        for g in range(len(self.p.adts[GRP]["variants"])):
            for same_nr in (True, False):
                nr = self.nr if same_nr else sym("other_nr", "u32")
                s2 = st.copy()
                if not same_nr:
                    s2.ne = s2.ne | {(sub(nr, self.nr), "eq0"), (sub(self.nr, nr), "eq0")}
                x = agg(IFD, 0, (sym("xtags"), agg(GRP, g, ()), nr))
                s2.env[("FX",)] = x
                fx = mk("ref", ("FX",), (), 1)
                r = e.call_closure(s2, site, clo, [fx if kind == "position" else mk("cref", fx)])
                if r is None:
                    return None
                vals = truths(e, r)
                if vals - {FALSE}:
                    acc.append((g, same_nr, vals == {TRUE}))
        ok = acc == [(k[2][0].a[1], True, True)]
        self.judge(st, ok, "parent", "the directory looked up for a sub-IFD's pointer is not the parent of the same image directory", site)
        s2 = st.copy()
        key = ("FD", site.fn.path, site.bb)
        found = agg(IFD, 0, (sym("ptags"), agg(GRP, acc[0][0], ()) if acc else sym("pg"), self.nr if acc and acc[0][1] else sym("pnr", "u32")))
        if kind == "position":
            ix = e.fresh(st, site, "pos", "usize")
            st.assume_ge0(ix)
            st.env[("POSX",)] = agg("tuple", 0, (ix, found))
            return [(st, Some(ix)), (s2, NONE)]
        st.env[key] = found
        return [(st, Some(mk("ref", key, (), 1))), (s2, NONE)]

    def on_head(self, e, st, fn, bb):
        if fn is self.enc and st.auto[1]:
            if st.auto[0] == "todo":
                self.judge(st, False, "lost", "no pointer to a sub-IFD is stored: its tags are lost", Site((), fn, bb, 0))
            else:
                k = self.kind(st)
                if k is not None and k[2] is not None:
                    self.judge(st, True, "lost", "", None)
            st.auto = ("", "")


def pointers_rule(c):
    """every sub-IFD's pointer is collected for its parent"""
    p = c.p
    enc = method(p, METADATA, "encode")
    getptr = method(p, IFD, "get_offset_tag_for_parent_ifd")
    kinds = []
    nr = sym("nr", "u32")
    for g, v in enumerate(p.adts[GRP]["variants"]):
        d = agg(IFD, 0, (sym("tags:" + v["name"]), agg(GRP, g, ()), nr))
        r = [x for _, x in evaluate(p, getptr, [ref(d)])[1]]
        want = None
        if len(r) == 1 and r[0].op == "agg" and r[0].a[0] == OPTION and r[0].a[1] == 1:
            want = r[0].a[2][0].a[2]
        elif not (len(r) == 1 and r[0] is NONE):
            c.undecided("pointer-of:%s" % v["name"], "no definite pointer tag")
            return
        kinds.append((d, v["name"], want))
    h = Ptr(c, p, kinds, nr)
    h.getptr, h.settag, h.main, h.enc = getptr, method(p, IFD, "set_tag"), method(p, IFD, "encode_ifd"), enc
    data = agg(METADATA, 0, (sym("endian", ENDIAN), mk("vec", mk("fill", mk("choice", *[k[0] for k in kinds], ty=IFD)), sym("nifds", "usize"), ty="std::vec::Vec<%s>" % IFD)))

    def setup(st, args):
        st.auto = ("", "")
    e = Engine(p, h, numeric=True, budget=60000, deadline=200, eq_only=True, rem_opaque=True)
    e.analyse(enc, args=[ref(data)], setup=setup)
    for k, cnt in h.good.items():
        if k not in h.fail:
            c.ok("pointers: %s (%d evaluations)" % (k, cnt), kind="pointers." + k)
    for k, (msg, w) in h.fail.items():
        c.bad("pointers-%s" % k, msg, w or W(enc))
    if h.unk or ("lost" not in h.good and "lost" not in h.fail):
        c.undecided("pointers", "no loop over the sub-IFDs recognised")
