"""Decoding takes every entry, value, sub-directory and link from where the TIFF structure says it is."""
from lib import *

META = {
    "level": "proof",
    "exhaustive": True,
    "rule": "the decoder takes entry i of a directory from 2+12i bytes after its start: number, type, count, and the value from the entry itself or from the stored offset; "
            "every entry ends up in the decoded directory, every pointer is followed, and the link is the one behind the last entry",
    "explanation": "The directory decoder's MIR is interpreted abstractly over input bytes of arbitrary content and length: every value carries the position it was read from. "
                   "A typestate automaton over the decoder's events (tag lookups, value decoders, recursion, reads of strips and thumbnails, collection of tags) checks positions and completeness; loop invariants are inferred.",
    "assumptions": ["the value decoders themselves are decided by P02 and P03", "arithmetic is over unbounded integers"],
}
U8V = "std::vec::Vec<u8>"
TT = "little_exif::exif_tag::TagType"
WIDTH = {"u8": 1, "u16": 2, "u32": 4}


def region(v):
    """(content, start, length) if v is a contiguous part of the input"""
    while v.op == "cref":
        v = v.a[0]
    if v.op == "agg" and v.a[0] == "array" and v.a[2]:
        x = v.a[2][0]
        if x.op != "elem":
            return None
        for i, y in enumerate(v.a[2]):
            if y.op != "elem" or y.a[0] is not x.a[0] or sub(y.a[1], add(x.a[1], C(i))) is not C(0):
                return None
        return x.a[0], x.a[1], C(len(v.a[2]))
    if v.op == "vec" and v.a[0].op == "slice":
        b, lo, hi = v.a[0].a
        r = region(b)
        if r is not None:
            return r[0], add(r[1], lo), sub(hi, lo)
        while b.op == "vec" and b.a[0].op not in ("slice", "fill", "cat"):
            b = b.a[0]
        return b, lo, sub(hi, lo)
    if v.op == "vec" and v.a[0].op == "vec":
        return region(v.a[0])
    return None


class Dec(Hook):
    slices = True

    def __init__(self, c, p, F, V, P0, base, endian, group, nr, size, pair):
        self.size, self.pair = size, pair
        self.c, self.p, self.F, self.V, self.P0, self.base, self.endian, self.group, self.nr = c, p, F, V, P0, base, endian, group, nr
        self.fail, self.good = {}, {}
        self.unk = set()
        self.returns = set()
        vs = p.adts[TAG]["variants"]
        self.special = {}
        for i, v in enumerate(vs):
            tt = [r for _, r in evaluate(p, F["get_tag_type"], [ref(variant(p, TAG, v["name"]))])[1]]
            k = vname(p, TT, tt[0].a[1]) if len(tt) == 1 and tt[0].op == "agg" else None
            if k is None:
                raise KeyError("kind of " + v["name"])
            if k == "IFD_OFFSET":
                self.special[v["name"]] = (i, "ptr", variant(p, TAG, v["name"]), tt[0].a[2][0])
            elif k == "DATA_OFFSET":
                fs = [sym("tok:%s.%d" % (v["name"], j), ty) for j, (_, ty) in enumerate(v["fields"])]
                fs = [mk("vec", mk("sym", x.a[0]), sym("len" + x.a[0][1], "usize"), ty=x.ty) if x.ty == "std::vec::Vec<u32>" else x for x in fs]
                self.special[v["name"]] = (i, "data", variant(p, TAG, v["name"], fs), None)
        self.val = sym("named", TAG)
        self.tokV, self.tokU = sym("decoded", TAG), sym("unknown", TAG)
        self.ne = frozenset((t, i) for t in (self.val, self.tokV, self.tokU) for i, _, _, _ in self.special.values())
        self.count_term = self.n_entries = mk("op", "rd", "u16", V, P0, endian, ty="u16")

    def judge(self, st, ok, key, msg, site):
        if ok is None:
            self.unk.add(key)
        elif ok:
            self.good[key] = self.good.get(key, 0) + 1
        else:
            self.fail[key] = (msg, site.where() if site else "")

    def same(self, st, a, b):
        d = sub(a, b)
        if d is C(0) or (st.proves_ge0(d) and st.proves_ge0(mulc(d, -1))):
            return True
        # elements of one list at positions known to be equal
        ts, _k = lin_of(d)
        el = [t for t in ts if t.op == "elem"]
        for i, x in enumerate(el):
            for y in el[i + 1:]:
                if x.a[0] is y.a[0] and ts[x] == -ts[y] and x.a[1] is not y.a[1] and self.same(st, x.a[1], y.a[1]):
                    return self.same(st, sub(a, mulc(x, ts[x])), add(b, mulc(y, ts[y])))
        return False

    def at(self, st, v, ty, pos):
        """v is the ty stored at pos"""
        if v.op == "op" and v.a[0] == "rd":
            return v.a[1] == ty and v.a[2] is self.V and self.same(st, v.a[3], pos) and v.a[4] is self.endian
        return None if v.op not in ("c",) else False

    def g(self, st, k):
        return st.env.get(("G", k))

    # auto: (pending kind, frozenset of data tags seen / stored, cause of an error)
    def setp(self, st, pend=None, add_=(), cause=None):
        p, f, cz, sz = st.auto
        add_ = [x for x in add_ if x == 'stored' or x in self.pair]
        st.auto = (p if pend is None else pend, f | frozenset(add_), cz if cause is None else cause, '' if pend == '' else sz)

    def err(self, st, cause, ty="std::io::Error"):
        self.setp(st, cause=cause)
        return agg(RESULT, 1, (sym("err:" + cause, ty),))

    def on_call(self, e, st, site, name, fr, args, t):
        m = name.rsplit("::", 1)[-1]
        if fr.get("trait") == CONV and m in ("from_u8_vec", "from_u8_vec_res"):
            ty = self_ty_of_conv(fr)
            w = WIDTH.get(ty)
            r = region(e.val_deep(st, args[0]))
            if w is None or r is None:
                return None
            en = e.val_deep(st, args[1])
            v = mk("op", "rd", ty, r[0], r[1], en, ty=ty)
            if v is self.count_term:
                v = self.n_entries
            s2 = st.copy()
            out = []
            d = sub(r[2], C(w))
            if st.assume_ge0(d) and st.assume_ge0(mulc(d, -1)):
                self.judge(st, en is self.endian, "byte-order", "a field is read in a byte order other than the declared one", site)
                st.assume_ge0(v)
                st.assume_ge0(sub(C(256 ** w - 1), v))
                out.append((st, agg(RESULT, 0, (v,)) if m.endswith("res") else v))
            if not (d is C(0)) and m.endswith("res"):
                out.append((s2, self.err(s2, "conv")))
            return out
        if m == "clone" and t["dty"] in (ENDIAN, TAG, FMT, GRP):
            return [(st, e.val_deep(st, args[0]))]
        f = e.p.fns.get(name)
        F = self.F
        if f is None:
            if fr.get("trait") in ("std::io::Read", "std::io::Seek"):
                from models import MODELS
                r = MODELS.get("%s::%s" % (fr["trait"], m))
                r = r(e, st, site, t, args) if r else None
                for s, v in r or ():
                    if is_err(v):
                        self.setp(s, cause="io")
                return r
            return None
        if f is F["fmt_from"]:
            v = e.val_deep(st, args[0])
            out = []
            x = self.entry(st) if not st.auto[0] else sub(self.entry(st), C(12))
            if self.at(st, v, "u16", add(x, C(2))):
                x = sub(v.a[3], C(2))
            tot = mulc(mk("op", "rd", "u32", self.V, add(x, C(4)), self.endian, ty="u32"), self.size)
            for k, cond in (("small", sub(C(4), tot)), ("big", sub(tot, C(5))), ("overflow", sub(tot, C(1 << 32)))):
                s2 = st.copy()
                if s2.assume_ge0(cond) and (k == "overflow" or s2.assume_ge0(sub(C((1 << 32) - 1), tot))):
                    s2.auto = s2.auto[:3] + (k,)
                    out.append((s2, Some(mk("op", "fmt", C(self.size), v, ty=FMT))))
            self.setp(st, cause="format")
            return out + [(st, NONE)]
        if f is F["bytes"]:
            v = e.val_deep(st, args[0])
            if v.op == "op" and v.a[0] == "fmt":
                return [(st, v.a[1])]
            return None
        if f is F["from_u16"]:
            return self.lookup(e, st, site, args)
        if f is F["with_data"]:
            return self.value(e, st, site, "U", e.val_deep(st, args[0]), e.val_deep(st, args[1]), args[2], args[3], args[4], None)
        if f is F["decode_tag"]:
            return self.value(e, st, site, "N", e.val_deep(st, args[4]), e.val_deep(st, args[1]), args[2], args[3], args[5], e.val_deep(st, args[0]))
        if f is F["main"] and site.fn is not None:
            return self.recurse(e, st, site, args)
        return None

    def on_head(self, e, st, fn, bb):
        if fn is self.F["main"] and st.auto[0][:2] == "d:":
            self.setp(st, "")

    def entry(self, st):
        return add(add(self.P0, C(2)), mulc(self.g(st, "n"), 12))

    def lookup(self, e, st, site, args):
        v, gr = e.val_deep(st, args[0]), e.val_deep(st, args[1])
        if st.auto[0] and st.auto[0][:2] != "d:":
            # the entry at hand again?
            last = sub(self.entry(st), C(12))
            if self.at(st, v, "u16", last):
                k = st.auto[0]
                if k == "U":
                    return [(st, agg(RESULT, 1, (sym("notag", "std::string::String"),)))]
                if k == "N":
                    return [(st, agg(RESULT, 0, (self.val,)))]
                return [(st, agg(RESULT, 0, (self.special[k][2],)))]
            self.judge(st, False, "lost", "an entry is neither stored, followed nor reported", site)
        self.judge(st, self.at(st, v, "u16", self.entry(st)), "entry-number", "the tag number looked up is not the one of the next entry", site)
        self.judge(st, gr is self.group, "entry-group", "an entry is looked up in a directory other than its own", site)
        st.env[("G", "n")] = add(self.g(st, "n"), C(1))
        out = []
        s2 = st.copy()
        self.setp(s2, "U")
        out.append((s2, agg(RESULT, 1, (sym("notag", "std::string::String"),))))
        for nm, (i, k, tv, _) in self.special.items():
            if nm in self.skip:
                continue
            s2 = st.copy()
            self.setp(s2, nm)
            out.append((s2, agg(RESULT, 0, (tv,))))
        self.setp(st, "N")
        e._rename(st, self.val)
        st.ne = st.ne | self.ne
        return out + [(st, agg(RESULT, 0, (self.val,)))]

    def value(self, e, st, site, kind, num, fmt, raw, en, gr, tag):
        x = sub(self.entry(st), C(12))
        J = lambda ok, key, msg: self.judge(st, ok, key, msg, site)
        k = st.auto[0]
        if kind == "U" and k != "U" or kind == "N" and (k in ("", "U") or k in self.special and self.special[k][1] == "ptr"):
            self.unk.add("protocol")
        J(self.at(st, num, "u16", x), "value-number", "a value is decoded for a tag number other than its entry's")
        if self.at(st, num, "u16", x):
            x = num.a[3]
        isf = fmt.op == "op" and fmt.a[0] == "fmt"
        J(self.at(st, fmt.a[2], "u16", add(x, C(2))) if isf else None, "value-type", "a value is decoded with a type other than its entry's")
        J(e.val_deep(st, en) is self.endian, "value-byte-order", "a value is decoded in a byte order other than the declared one")
        J(e.val_deep(st, gr) is self.group, "value-group", "a value is decoded for a directory other than its own")
        if tag is not None:
            want = self.val if k == "N" else self.special[k][2] if k in self.special else None
            J(tag is want, "value-tag", "a value is decoded for a tag other than the one its entry names")
        r = region(e.val_deep(st, raw))
        if isf and r is not None:
            size = fmt.a[1].a[0]
            cnt = mk("op", "rd", "u32", self.V, add(x, C(4)), self.endian, ty="u32")
            tot = mulc(cnt, size)
            J(r[0] is self.V, "value-source", "a value is not taken from the input")
            J(self.same(st, r[2], tot), "value-length", "a value does not have the length its entry announces")
            small, big = st.copy(), st.copy()
            if small.assume_ge0(sub(C(4), tot)):
                J(self.same(small, r[1], add(x, C(8))), "value-inline", "a value of at most four bytes is not taken from its entry")
            if big.assume_ge0(sub(tot, C(5))):
                off = mk("op", "rd", "u32", self.V, add(x, C(8)), self.endian, ty="u32")
                J(self.same(big, r[1], add(self.base, off)), "value-offset", "a value of more than four bytes is not taken from the stored offset")
        else:
            v = e.val_deep(st, raw)
            # an empty value may be any empty sequence
            ok = None
            if v.op == "agg" and v.a[0] == "array" and not v.a[2] and isf:
                cnt = mk("op", "rd", "u32", self.V, add(x, C(4)), self.endian, ty="u32")
                ok = self.same(st, cnt, C(0)) or None
            J(ok, "value-source", "")
        s2 = st.copy()
        if kind == "U":
            return [(st, agg(RESULT, 0, (self.tokU,))), (s2, self.err(s2, "value", "std::string::String"))]
        if k in self.special and self.special[k][1] == "data":
            tok = self.special[k][2]
            self.setp(st, "d:" + k, (k,))
            out = [(s2, self.err(s2, "value"))]
            if k in self.pair and "thumb" in self.pair:
                one = mk("cmp", "eq", sub(e.vlen(st, tok.a[2][0]), C(1)), ty="bool")
                s3 = st.copy()
                if e.assume(s3, one, True):
                    s3.auto = (s3.auto[0], s3.auto[1] | {k + "=1"}) + s3.auto[2:]
                    out.append((s3, agg(RESULT, 0, (tok,))))
                if not e.assume(st, one, False):
                    return out
            return out + [(st, agg(RESULT, 0, (tok,)))]
        return [(st, agg(RESULT, 0, (self.tokV,))), (s2, self.err(s2, "value"))]

    def recurse(self, e, st, site, args):
        from models import as_cursor, set_pos
        J = lambda ok, key, msg: self.judge(st, ok, key, msg, site)
        k = st.auto[0]
        c = as_cursor(e, st, args[0])
        x = sub(self.entry(st), C(12))
        if k not in self.special or self.special[k][1] != "ptr" or c is None:
            J(None if k in ("", "N", "U") else False, "protocol", "a sub-directory is decoded for an entry that is no pointer")
            k = next(n for n, s in self.special.items() if s[1] == "ptr")
        d = sub(c[2], self.base)
        J(self.at(st, d, "u32", add(x, C(8))) if d.op == "op" else self.same(st, c[2], add(self.base, mk("op", "rd", "u32", self.V, add(x, C(8)), self.endian, ty="u32"))), "sub-offset", "a sub-directory is not decoded at the offset its pointer stores")
        J(self.same(st, args[1], self.base), "sub-base", "a sub-directory is decoded relative to another position than the data's start")
        J(e.val_deep(st, args[2]) is self.endian, "sub-byte-order", "a sub-directory is decoded in a byte order other than the declared one")
        J(e.val_deep(st, args[3]) is self.special[k][3], "sub-kind", "a sub-directory is decoded as one of another kind")
        J(e.val_deep(st, args[4]) is self.nr, "sub-number", "a sub-directory is decoded for another image")
        J(self.is_out(e, st, args[5]), "sub-target", "a sub-directory is not collected with the others")
        np = e.fresh(st, site, "subpos", "u64")
        st.assume_ge0(np)
        set_pos(e, st, c[0], c[1], np, site)
        e.havoc(st, args[5], site, "subs")
        s2 = st.copy()
        self.setp(st, "")
        return [(st, agg(RESULT, 0, (e.fresh(st, site, "sublink", "std::option::Option<u32>"),))), (s2, self.err(s2, "sub"))]

    def is_out(self, e, st, r):
        for _ in range(6):
            if r is self.out:
                return True
            if r is None or r.op != "ref":
                return False
            if r.a[0] == ("D", self.out) and not r.a[1]:
                return True
            r = e.val(st, r)
        return False

    def on_append(self, e, st, site, target, old, seg):
        xs = seg.a[2] if seg is not None and seg.op == "agg" and seg.a[0] == "array" else ()
        J = lambda ok, key, msg: self.judge(st, ok, key, msg, site)
        for x in xs:
            if x.ty == TAG or x.op == "agg" and x.a[0] == TAG:
                rt = target.a[0] if target.op == "ref" and not target.a[1] else None
                self.tagroots.add(rt)
                if x is self.tokU or x is self.tokV:
                    J(st.auto[0] == ("U" if x is self.tokU else "N"), "stored-once", "a decoded tag is stored for another entry")
                    self.setp(st, "")
                elif x.op == "agg":
                    nm = vname(self.p, TAG, x.a[1])
                    self.data_tag(e, st, site, nm, x)
                else:
                    self.unk.add("store")
            elif x.op == "agg" and x.a[0] == IFD:
                tags = x.a[2][0]
                J(x.a[2][1] is self.group and x.a[2][2] is self.nr, "dir-identity", "a directory is stored as another kind or for another image")
                J(self.is_out(e, st, target), "dir-target", "a directory is not stored with the others")
                roots = [r for r in self.tagroots if r is not None]
                J(len(roots) == 1 and len(self.tagroots) == 1 and tags is st.env.get(roots[0]) or None, "dir-tags", "")
                J(st.auto[0] == "" or st.auto[0][:2] == "d:", "lost", "an entry is neither stored, followed nor reported")
                J(self.same(st, self.g(st, "n"), self.n_entries), "all-entries", "not all entries of a directory are decoded")
                for a, b, done, what in (self.pair,):
                    if a in st.auto[1] and b in st.auto[1] and done not in st.auto[1]:
                        ok = False
                        if done == "thumb":
                            ok = not all(q + "=1" in st.auto[1] for q in (a, b))
                        J(ok, "lost-" + done, "a directory's %s: offsets and lengths are read but the data is left out" % what)
                self.setp(st, add_=("stored",))
            else:
                r = region(x) if x.op in ("vec", "agg") else None
                if r is not None and r[0] is self.V and "StripOffsets" in st.auto[1] and "strips" not in st.auto[1]:
                    O, B = self.special["StripOffsets"][2].a[2][0], self.special["StripByteCounts"][2].a[2][0]
                    k = self.g(st, "m")
                    o, b = (e.get_elem(z, k, "u32") for z in (O, B))
                    J(self.same(st, r[1], add(self.base, o)) and self.same(st, r[2], b), "strip", "a strip is not taken from its own offset and byte count")
                    st.env[("G", "m")] = add(k, C(1))

    def data_tag(self, e, st, site, nm, x):
        J = lambda ok, key, msg: self.judge(st, ok, key, msg, site)
        if nm in self.special and nm not in self.pair:
            return
        if nm == "StripOffsets":
            d = x.a[2][1]
            J(self.same(st, e.vlen(st, d), self.g(st, "m")), "strip-count", "the strips stored are not the strips read")
            O, B = self.special["StripOffsets"][2].a[2][0], self.special["StripByteCounts"][2].a[2][0]
            k = self.g(st, "m")
            ns = [e.vlen(st, z) for z in (O, B)]
            ns.append(mk("op", "min", *sorted(ns, key=lambda x: x.id), ty="usize"))
            J(any(self.same(st, k, z) for z in ns), "strips-all", "not all strips are read")
            self.setp(st, add_=("strips",))
        elif nm == "StripByteCounts":
            J(x.a[2][0] is self.special[nm][2].a[2][0], "strip-counts", "the strip byte counts stored are not the ones read")
        elif nm == "ThumbnailOffset":
            O, B = (self.special[q][2].a[2][0] for q in ("ThumbnailOffset", "ThumbnailLength"))
            r = region(x.a[2][1])
            o, b = (e.get_elem(z, C(0), "u32") for z in (O, B))
            J(r is not None and r[0] is self.V and self.same(st, r[1], add(self.base, o)) and self.same(st, r[2], b) if r is not None else None,
              "thumb", "the thumbnail is not taken from its own offset and length")
            self.setp(st, add_=("thumb",))
        elif nm == "ThumbnailLength":
            J(x.a[2][0] is self.special[nm][2].a[2][0], "thumb-length", "the thumbnail length stored is not the one read")
        else:
            J(st.auto[0] == "N", "stored-once", "a tag is stored that was not decoded")
            self.setp(st, "")

    def on_return(self, e, st, fn, ret):
        if fn is not self.F["main"]:
            return
        J = lambda ok, key, msg: self.judge(st, ok, key, msg, None)
        ln = e.vlen(st, self.V)
        room = sub(ln, self.P0)
        if is_err(ret):
            x = ret.a[2][0]
            if st.auto[2] or x.op == "op" and x.a[0] == "ioerr":
                self.returns.add("err")
                return
            short = st.proves_ge0(sub(add(mulc(self.n_entries, 12), C(5)), room))
            ovf = st.auto[3] == "overflow"
            J(short or ovf, "refused", "a directory is refused although everything it needs is there")
            return
        if not is_ok(ret):
            self.unk.add("result")
            return
        J(st.auto[2] in ("", "io"), "error-kept", "an entry that cannot be decoded is passed over without an error")
        if "stored" not in st.auto[1]:
            J(ret.a[2][0] is NONE and st.proves_ge0(sub(C(5), room)), "dir-stored", "a directory is left out")
            return
        o = ret.a[2][0]
        if o is NONE:
            self.returns.add("none")
            return
        if o.op == "agg" and o.a[1] == 1:
            self.returns.add("some")
            J(self.at(st, o.a[2][0], "u32", add(add(self.P0, C(2)), mulc(self.n_entries, 12))), "link", "the link returned is not the one behind the last entry")
        else:
            self.unk.add("link")


def run(c):
    p = c.p
    F = {"main": method(p, IFD, "decode_ifd"), "from_u16": method(p, TAG, "from_u16"), "with_data": method(p, TAG, "from_u16_with_data"),
         "get_tag_type": method(p, TAG, "get_tag_type"), "fmt_from": method(p, FMT, "from_u16"), "bytes": method(p, FMT, "bytes_per_component")}
    dt = [f for k, f in p.fns.items() if k.endswith("::decode_tag_with_format_exceptions")]
    if len(dt) != 1:
        raise KeyError("decode_tag_with_format_exceptions")
    F["decode_tag"] = dt[0]
    V = sym("V", U8V)
    P0, base = sym("P0", "u64"), sym("base", "u64")
    endian, group, nr = sym("endian", ENDIAN), sym("group", GRP), sym("nr", "u32")
    from models import CUR

    def battery(size, pair, n=None):
        """the decoder on any input; with n entries if n is given"""
        h = Dec(c, p, F, V, P0, base, endian, group, nr, size, pair)
        if n is not None:
            h.n_entries = C(n)
        h.tagroots = set()
        ptrs = [n for n, x in h.special.items() if x[1] == "ptr"]
        h.skip = [n for j, n in enumerate(ptrs) if size != 4 and j != (size + pair[0].count("r")) % len(ptrs)]
        cur = mk("sym", ("in", "cursor"), ty="&mut std::io::Cursor<&" + U8V + ">")
        h.out = out = mk("sym", ("in", "ifds"), ty="&mut std::vec::Vec<%s>" % IFD)

        def setup(st, args):
            st.env[("D", cur)] = agg(CUR, 0, (ref(V), P0))
            st.env[("G", "n")] = C(0)
            st.env[("G", "m")] = C(0)
            st.auto = ("", frozenset(), "", "")
            st.ne = st.ne | h.ne
            for s in (P0, base):
                st.assume_ge0(s)
                st.assume_ge0(sub(C((1 << 40)), s))
            st.assume_ge0(sub(C(1 << 62), e.vlen(st, V)))
        e = Engine(p, h, numeric=True, budget=150000, deadline=400 if n is None else 150, eq_only=True, max_parts=3000, unroll=0 if n is None else n + 1)
        e.analyse(F["main"], args=[cur, base, ref(endian), ref(group), nr, out], setup=setup)
        return h, e.steps

    def one(c, size, pair):
        h, steps = battery(size, pair)
        if h.fail:
            # an invariant that was not found is no error: it has to fail for a definite number of entries as well
            h.fail = confirm(c, h.fail, lambda n: battery(size, pair, n)[0].fail)
        c.count("abstract steps", steps)
        for k, cnt in h.good.items():
            if k not in h.fail:
                c.ok("%s, values of %d-byte components (%d evaluations)" % (k, size, cnt), kind=k)
        for k, (msg, w) in h.fail.items():
            c.bad(k, msg, w or W(F["main"]))
        for k in h.unk:
            c.undecided(k, "not recognised")
    pairs = (("StripOffsets", "StripByteCounts", "strips", "strips"), ("ThumbnailOffset", "ThumbnailLength", "thumb", "thumbnail"))
    c.parallel([lambda c, s=s, q=q: one(c, s, q) for s in (1, 2, 4, 8) for q in pairs])
    c.parallel([lambda c, a=a: top(c, F, *a) for a in top_cases(p)] + [lambda c: wrapper(c), lambda c: links(c, F)])


def confirm(c, fail, again):
    out = {}
    for n in (0, 1, 2, 4):
        try:
            f2 = again(n)
        except (Budget, AssertionError, KeyError) as x:
            c.note("confirmation with %d entries: %s" % (n, x))
            continue
        for k in f2:
            if k in fail:
                out[k] = fail[k]
        if set(out) == set(fail):
            break
    for k in fail:
        if k not in out:
            c.undecided(k, "not shown for any number of entries; holds for up to four entries")
    return out


class Link(Hook):
    """an empty directory whose link has given bytes"""
    slices = True

    def __init__(self, V, F):
        self.V, self.F = V, F
        self.got = set()

    def on_call(self, e, st, site, name, fr, args, t):
        m = name.rsplit("::", 1)[-1]
        if fr.get("trait") == CONV and m in ("from_u8_vec", "from_u8_vec_res"):
            ty = self_ty_of_conv(fr)
            v = e.val_deep(st, args[0])
            while v.op == "cref" or (v.op == "vec" and v.a[0].op == "agg"):
                v = v.a[0]
            if v.op != "agg" or v.a[0] != "array" or WIDTH.get(ty) != len(v.a[2]):
                return None
            bs = v.a[2]
            if all(x is C(0) for x in bs):
                r = C(0)
            else:
                r = mk("op", "number", ty, v, ty=ty)
                if all(is_c(x) for x in bs):
                    st.assume_ge0(sub(r, C(1)))
            return [(st, agg(RESULT, 0, (r,)) if m.endswith("res") else r)]
        if m == "clone" and t["dty"] in (ENDIAN, GRP):
            return [(st, e.val_deep(st, args[0]))]
        if e.p.fns.get(name) is None and fr.get("trait") in ("std::io::Read", "std::io::Seek"):
            from models import MODELS
            r = MODELS.get("%s::%s" % (fr["trait"], m))
            r = r(e, st, site, t, args) if r else None
            return [(s, v) for s, v in r if not is_err(v)] if r else r
        return None

    def on_return(self, e, st, fn, ret):
        if fn is self.F["main"] and is_ok(ret):
            o = ret.a[2][0]
            if o.op == "agg" and o.a[0] == OPTION:
                self.got.add("link" if o.a[1] else "none")
            else:
                self.got.add("?")


def links(c, F):
    """the chain ends at a link of four zero bytes and nowhere else"""
    p = c.p
    from models import CUR
    for nz, x in [(nz, x) for nz in range(16) for x in (1, 255) if nz or x == 1]:
        bs = [C(0), C(0)] + [C(x) if nz >> i & 1 else C(0) for i in range(4)]
        V = mk("vec", agg("array", 0, bs), C(6), ty=U8V)
        h = Link(V, F)
        cur = mk("sym", ("in", "cursor"), ty="&mut std::io::Cursor<&" + U8V + ">")
        out = mk("sym", ("in", "ifds"), ty="&mut std::vec::Vec<%s>" % IFD)

        def setup(st, args):
            st.env[("D", cur)] = agg(CUR, 0, (ref(V), C(0)))
            st.auto = ""
        e = Engine(p, h, numeric=True, budget=20000, deadline=60, unroll=6)
        try:
            e.analyse(F["main"], args=[cur, C(0), ref(agg(ENDIAN, 0, ())), ref(sym("group", GRP)), sym("nr", "u32"), out], setup=setup)
        except Budget:
            h.got.add("?")
        want = "link" if nz else "none"
        if h.got == {want}:
            c.ok("links: bytes %s end the chain: %s" % ("".join("x" if nz >> i & 1 else "0" for i in range(4)), want == "none"), kind="link-end")
        elif want not in h.got and "?" not in h.got and h.got:
            c.bad("link-end:%d" % nz, "the chain of directories %s at a link whose bytes are %s" % ("ends" if nz else "does not end", " ".join("non-zero" if nz >> i & 1 else "zero" for i in range(4))), W(F["main"]))
        else:
            c.undecided("link-end:%d" % nz, "result %s" % sorted(h.got))


def top_cases(p):
    II, MM = [0x49, 0x49], [0x4d, 0x4d]
    ids = {vname(p, ENDIAN, i): i for i in range(len(p.adts[ENDIAN]["variants"]))}
    exif = [0x45, 0x78, 0x69, 0x66, 0, 0]
    for pre in ([], exif):
        n = "behind an Exif prefix" if pre else "at the start"
        yield "II " + n, pre, II + [0x2a, 0], agg(ENDIAN, ids["Little"], ())
        yield "MM " + n, pre, MM + [0, 0x2a], agg(ENDIAN, ids["Big"], ())
        for h in (II + [0, 0x2a], MM + [0x2a, 0], II + [0x2b, 0], MM + [0, 0x2b], II + [0x2a, 1], MM + [1, 0x2a],
                  [0x49, 0x4d, 0x2a, 0], [0x4d, 0x49, 0, 0x2a], [0, 0, 0, 0x2a], [0x68, 0x74, 0x74, 0x70], [0x69, 0x69, 0x2a, 0]):
            yield "".join("%02x" % x for x in h) + " " + n, pre, h, None


class TopDec(Hook):
    """Metadata::decode: header, then the chain of image directories"""
    slices = True

    def __init__(self, c, p, F, dec, V, base, endian):
        self.c, self.p, self.F, self.dec, self.V, self.base, self.endian = c, p, F, dec, V, base, endian
        self.fail, self.good = {}, {}
        self.unk, self.returns = set(), set()
        self.chain = sym("chain", "std::vec::Vec<%s>" % IFD)

    judge = Dec.judge
    same = Dec.same

    def err(self, st, cause):
        st.auto = (st.auto[0], cause)
        return agg(RESULT, 1, (sym("err:" + cause, "std::io::Error"),))

    def vroot(self, e, st, r):
        for _ in range(6):
            if r is None or r.op != "ref":
                return None
            v = e.val(st, r)
            if v.op != "ref":
                return r
            r = v
        return None

    def on_call(self, e, st, site, name, fr, args, t):
        m = name.rsplit("::", 1)[-1]
        if fr.get("trait") == CONV and m in ("from_u8_vec", "from_u8_vec_res"):
            ty = self_ty_of_conv(fr)
            r = region(e.val_deep(st, args[0]))
            if WIDTH.get(ty) is None or r is None:
                return None
            if r[0] is self.V.a[0].a[1]:
                r = (self.V, add(r[1], C(len(self.V.a[0].a[0].a[2]))), r[2])
            v = mk("op", "rd", ty, r[0], r[1], e.val_deep(st, args[1]), ty=ty)
            d = sub(r[2], C(WIDTH[ty]))
            s2 = st.copy()
            out = []
            if st.assume_ge0(d) and st.assume_ge0(mulc(d, -1)):
                out.append((st, agg(RESULT, 0, (v,)) if m.endswith("res") else v))
            if d is not C(0) and m.endswith("res"):
                out.append((s2, self.err(s2, "conv")))
            return out
        if m == "clone" and t["dty"] in (ENDIAN, GRP):
            return [(st, e.val_deep(st, args[0]))]
        f = e.p.fns.get(name)
        if f is None:
            if fr.get("trait") in ("std::io::Read", "std::io::Seek"):
                from models import MODELS
                r = MODELS.get("%s::%s" % (fr["trait"], m))
                r = r(e, st, site, t, args) if r else None
                for s, v in r or ():
                    if is_err(v):
                        s.auto = (s.auto[0], "io")
                return r
            return None
        if f is not self.F["main"]:
            return None
        from models import as_cursor, set_pos
        J = lambda ok, key, msg: self.judge(st, ok, key, msg, site)
        c = as_cursor(e, st, args[0])
        if self.endian is None:
            J(False, "header", "data without a valid header is decoded as a directory")
            return []
        if c is None:
            self.unk.add("cursor")
            return None
        J(e.val_deep(st, args[1]) is self.base, "base", "offsets are not taken relative to the byte-order mark")
        J(e.val_deep(st, args[2]) is self.endian, "declared-order", "directories are not decoded in the byte order the header declares")
        g = e.val_deep(st, args[3])
        J(g.op == "agg" and vname(self.p, GRP, g.a[1]) == "GENERIC", "kind", "an image directory is decoded as a directory of another kind")
        n = st.env[("G", "n")]
        J(self.same(st, e.val_deep(st, args[4]), n), "number", "the image directories are not numbered in the order of their links")
        J(st.auto[0] != "end", "after-end", "a directory is decoded although the last one had no link")
        d = sub(c[2], self.base)
        w = st.env[("G", "want")]
        J(self.same(st, d, w) if st.auto[0] != "end" else None, "place", "an image directory is not decoded where the link leads")
        r = self.vroot(e, st, args[5])
        if r is None or r.a[1]:
            self.unk.add("collected")
            return None
        v = e.val_deep(st, r)
        if st.auto[0] == "start":
            J(is_c(e.vlen(st, v)) and e.vlen(st, v).a[0] == 0, "empty", "the directories are collected behind others")
        else:
            J(v is self.chain, "collected", "the directories of one image are not kept with the others")
        e.setval(st, r, self.chain, site)
        np = e.fresh(st, site, "subpos", "u64")
        st.assume_ge0(np)
        set_pos(e, st, c[0], c[1], np, site)
        st.env[("G", "n")] = add(n, C(1))
        lk = e.fresh(st, site, "nextlink", "u32")
        s2, s3 = st.copy(), st.copy()
        st.env[("G", "want")] = lk
        st.auto = ("some", "")
        s2.auto = ("end", "")
        return [(st, agg(RESULT, 0, (Some(lk),))), (s2, agg(RESULT, 0, (NONE,))), (s3, self.err(s3, "sub"))]

    def on_return(self, e, st, fn, ret):
        if fn is not self.dec:
            return
        J = lambda ok, key, msg: self.judge(st, ok, key, msg, None)
        if is_err(ret):
            self.returns.add("err")
            x = ret.a[2][0]
            if not st.auto[1] and not (x.op == "op" and x.a[0] == "ioerr"):
                J(self.endian is None, "refused", "data with a valid header is refused")
            return
        if not is_ok(ret):
            self.unk.add("result")
            return
        if self.endian is None:
            J(False, "header", "data without a valid header is accepted")
            return
        self.returns.add("ok")
        J(st.auto[1] == "", "error-kept", "an error while decoding is passed over")
        J(st.auto[0] == "end", "chain", "the chain of image directories is left before its end")
        x = ret.a[2][0]
        if x.op == "agg" and len(x.a[2]) == 2:
            J(x.a[2][0] is self.endian, "order-kept", "the byte order returned is not the declared one")
            J(e.val_deep(st, x.a[2][1]) is self.chain, "all-kept", "not all directories decoded are returned")
        else:
            self.unk.add("result")


def top(c, F, label, pre, head, endian):
    p = c.p
    dec = method(p, METADATA, "decode")
    from models import CUR
    rest = sym("V", U8V)
    bs = [C(x) for x in pre + head]
    ln = add(C(len(bs)), e_len(rest))
    V = mk("vec", mk("cat", agg("array", 0, bs), rest), ln, ty=U8V)
    h = TopDec(c, p, F, dec, V, C(len(pre)), endian)
    cur = mk("sym", ("in", "cursor"), ty="&mut std::io::Cursor<&" + U8V + ">")

    def setup(st, args):
        st.env[("D", cur)] = agg(CUR, 0, (ref(V), C(0)))
        st.env[("G", "n")] = C(0)
        st.env[("G", "want")] = mk("op", "rd", "u32", V, C(len(bs)), endian or NONE, ty="u32")
        st.auto = ("start", "")
        st.assume_ge0(sub(C(1 << 62), e_len(rest)))
    e = Engine(p, h, numeric=True, budget=60000, deadline=200, eq_only=True)
    e.analyse(dec, args=[cur], setup=setup)
    c.count("abstract steps", e.steps)
    for k, cnt in h.good.items():
        if k not in h.fail:
            c.ok("decode: %s, header %s (%d evaluations)" % (k, label, cnt), kind="decode." + k)
    for k, (msg, w) in h.fail.items():
        c.bad("decode-%s:%s" % (k, label), msg, w or W(dec))
    for k in h.unk:
        c.undecided("decode-" + k, "not recognised")
    if endian is None and h.returns == {"err"} and not h.fail:
        c.ok("decode: header %s is refused" % label, kind="decode.bad-header")
    elif endian is not None and "ok" not in h.returns and not h.fail:
        c.undecided("decode:" + label, "no successful end found")


def e_len(v):
    return mk("len", v, ty="usize")


class Wrap(Hook):
    def __init__(self, dec, toks):
        self.dec, self.toks = dec, toks
        self.arg = None

    def on_call(self, e, st, site, name, fr, args, t):
        if e.p.fns.get(name) is self.dec:
            from models import as_cursor
            c = as_cursor(e, st, args[0])
            v = e.val_deep(st, c[1]) if c is not None else None
            ok = c is not None and c[2] is C(0) and v is self.toks[0]
            self.arg = ok if self.arg is None else self.arg and ok
            s2 = st.copy()
            return [(st, agg(RESULT, 0, (agg("tuple", 0, self.toks[1:3]),))), (s2, agg(RESULT, 1, (self.toks[3],)))]
        if e.p.fns.get(name) is self.sort:
            st.auto = "sorted"
            return [(st, UNIT)]
        return None


def wrapper(c):
    """what is decoded is what the caller gets; an error stays one"""
    p = c.p
    dec, f = method(p, METADATA, "decode"), method(p, METADATA, "general_decoding_wrapper")
    toks = (sym("pre", U8V), sym("order", ENDIAN), sym("ifds", "std::vec::Vec<%s>" % IFD), sym("decerr", "std::io::Error"))
    for label, arg in (("data", agg(RESULT, 0, (toks[0],))), ("error", agg(RESULT, 1, (sym("preerr", "std::io::Error"),)))):
        h = Wrap(dec, toks)
        h.sort = method(p, METADATA, "sort_data")
        e, rs = evaluate(p, f, [arg], hook=h)
        got = set()
        for _, r in rs:
            if is_err(r):
                got.add(("err", r.a[2][0]))
            elif is_ok(r) and r.a[2][0].op == "agg" and r.a[2][0].a[0] == METADATA:
                got.add(("ok", r.a[2][0].a[2]))
            else:
                got.add(("?", r))
        if any(k == "?" for k, _ in got):
            c.undecided("wrapper-" + label, "result not recognised")
            continue
        if label == "error":
            good = {k for k, _ in got} == {"err"}
        else:
            fields = [x["name"] if isinstance(x, dict) else x[0] for x in p.adts[METADATA]["variants"][0]["fields"]]
            oks = [v for k, v in got if k == "ok"]
            good = h.arg and bool(oks) and all(dict(zip(fields, v)).get("endian") is toks[1] and dict(zip(fields, v)).get("image_file_directories") is toks[2] for v in oks) and "err" in {k for k, _ in got}
        if good:
            c.ok("wrapper: " + label, kind="wrapper." + label)
        else:
            c.bad("wrapper:" + label, "what was decoded is not what the caller gets" if label == "data" else "an error of the reader is passed over", W(f))
