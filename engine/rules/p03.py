"""Binary representation of values: width, byte order, element order, type codes and sizes."""
from lib import *
import oracle_tags as O

META = {
    "level": "proof",
    "exhaustive": True,
    "rule": "every conversion of a value to or from bytes yields the fixed-width bytes of each element, in the requested order, element after element, "
            "and accepts exactly the lengths that are multiples of the width",
    "explanation": "Each conversion impl is evaluated abstractly on its MIR for both byte orders with an arbitrary value; loops are decided by an invariant "
                   "(appended bytes so far = width x index) that the abstract interpreter has to prove at every append.",
    "assumptions": ["std's to_le_bytes/to_be_bytes/from_le_bytes/from_be_bytes are correct"],
}
WIDTH = {"u8": 1, "i8": 1, "u16": 2, "i16": 2, "u32": 4, "i32": 4, "u64": 8, "i64": 8, "f32": 4, "f64": 8}
RAT = {"little_exif::rational::uR64": "u32", "little_exif::rational::iR64": "i32"}
VEC = "std::vec::Vec<"


def lenient(v):
    v = strip_vec(v)
    return v


class Conv(ConvHook):
    """scalar conversions inside compound ones are terms of known width"""
    def __init__(self, elemty, n):
        self.elemty, self.n = elemty, n
        self.events = []

    def conv(self, e, st, site, m, ty, args, t):
        if m == "to_u8_vec":
            v, en = e.val_deep(st, args[0]), e.val_deep(st, args[1])
            n = 8 if ty in RAT else WIDTH.get(ty)
            if n is None:
                return None
            return [(st, mk("vec", mk("op", "to", ty, v, en), C(n), ty="std::vec::Vec<u8>"))]
        if ty not in RAT and ty not in WIDTH:
            return None
        v, en = e.val_deep(st, args[0]), e.val_deep(st, args[1])
        n = 8 if ty in RAT else WIDTH[ty]
        ln = e.vlen(st, v)
        r = mk("op", "from", ty, content(v), en, ty=ty)
        if st.proves_ge0(sub(ln, C(n))) and st.proves_ge0(sub(C(n), ln)):
            return [(st, r if m == "from_u8_vec" else agg(RESULT, 0, (r,)))]
        if m == "from_u8_vec":
            return [(st, mk("op", "bad-length", r))]
        s2 = st.copy()
        return [(st, agg(RESULT, 0, (mk("op", "bad-length", r),))), (s2, agg(RESULT, 1, (sym("converr", "std::io::Error"),)))]

    def on_append(self, e, st, site, target, old, seg):
        self.events.append((site, st.copy(), old, seg))


def content(v):
    """(base, from, to) of a slice-like value"""
    while v.op == "vec":
        v = v.a[0]
    if v.op == "slice":
        return mk("range", content(v.a[0]), v.a[1], v.a[2])
    return v


def eq(st, a, b):
    d = sub(a, b)
    if is_c(d):
        return d.a[0] == 0
    return st.proves_ge0(d) and st.proves_ge0(sub(C(0), d))


def run(c):
    p = c.p
    impls = {}
    for m in ("to_u8_vec", "from_u8_vec_res"):
        for f in p.trait_impls.get(CONV + "::" + m, []):
            F = p.fns[f]
            ty = F.self_ty
            impls.setdefault(ty, {})[m] = F
    default = p.find("U8conversion::from_u8_vec")
    ends = {n: ref(agg(ENDIAN, vidx(p, ENDIAN, n), ())) for n in ("Little", "Big")}
    want = list(WIDTH) + list(RAT) + [VEC + t + ">" for t in list(WIDTH) + list(RAT)] + ["std::string::String"]
    for ty in want:
        if ty not in impls or len(impls[ty]) != 2:
            c.bad("missing:%s" % ty, "no conversion for %s" % ty)
            continue
        c.count("conversions", 2)
        to, fr = impls[ty]["to_u8_vec"], impls[ty]["from_u8_vec_res"]
        W = lambda f: "%s:%d" % (f.file, f.line)
        for en, er in ends.items():
            e_ = er.a[0]
            v = sym("value", ty)
            b = sym("bytes", "[u8]")
            lb = mk("len", b)
            short = en[0].lower()
            if ty in WIDTH:
                n = WIDTH[ty]
                nm = "to_%s_bytes" % ("le" if en == "Little" else "be")
                _, res = evaluate(p, to, [ref(v), er], Hook())
                good = len(res) == 1 and scalar_to(res[0][1], nm, v, n)
                judge(c, good, "to:%s:%s" % (ty, en), "%s as %s-endian bytes is %s" % (ty, en, [show(r) for _, r in res][:2]), W(to))
                # from
                nm = "from_%s_bytes" % ("le" if en == "Little" else "be")

                def exact(st, args, n=n):
                    st.assume_ge0(sub(lb, C(n)))
                    st.assume_ge0(sub(C(n), lb))
                _, res = evaluate(p, fr, [ref(b), er], Hook(), setup=exact)
                oks = [r for _, r in res if is_ok(r)]
                good = bool(oks) and all(scalar_from(r.a[2][0], nm, b, n) for r in oks)
                judge(c, good, "from:%s:%s" % (ty, en), "%s from %s-endian bytes is %s" % (ty, en, [show(r) for r in oks][:2]), W(fr))
                for k, su in (("short", lambda st, args: st.assume_ge0(sub(C(n - 1), lb))), ("long", lambda st, args: st.assume_ge0(sub(lb, C(n + 1))))):
                    _, res = evaluate(p, fr, [ref(b), er], Hook(), setup=su)
                    good = bool(res) and all(is_err(r) for _, r in res)
                    judge(c, good, "from:%s:%s:%s" % (ty, en, k), "a %s of the wrong length is accepted" % ty, W(fr))
            elif ty in RAT:
                ety = RAT[ty]
                h = Conv(ety, 4)
                _, res = evaluate(p, to, [ref(v), er], h)
                good = bool(res)
                for st, r in res:
                    s = [strip_vec(x) for x in segs(r)]
                    good = good and len(s) == 2 and all(x.op == "op" and x.a[0] == "to" and x.a[1] == ety and x.a[3] is e_ for x in s) \
                        and [fieldno(x.a[2], v) for x in s] == [0, 1]
                judge(c, good, "to:%s:%s" % (ty, en), "a fraction is stored as %s" % [show(r) for _, r in res][:2], W(to))

                def exact8(st, args):
                    st.assume_ge0(sub(lb, C(8)))
                    st.assume_ge0(sub(C(8), lb))
                _, res = evaluate(p, fr, [ref(b), er], h, setup=exact8)
                oks = [r for _, r in res if is_ok(r)]
                good = bool(oks)
                for r in oks:
                    x = r.a[2][0]
                    good = good and x.op == "agg" and x.a[0] == ty and all(
                        y.op == "op" and y.a[0] == "from" and y.a[1] == ety and y.a[3] is e_ and y.a[2] is mk("range", b, C(4 * i), C(4 * i + 4)) for i, y in enumerate(x.a[2]))
                judge(c, good, "from:%s:%s" % (ty, en), "a fraction is read as %s" % [show(r) for r in oks][:2], W(fr))
                for k, su in (("short", lambda st, args: st.assume_ge0(sub(C(7), lb))), ("long", lambda st, args: st.assume_ge0(sub(lb, C(9))))):
                    _, res = evaluate(p, fr, [ref(b), er], h, setup=su)
                    judge(c, bool(res) and all(is_err(r) for _, r in res), "from:%s:%s:%s" % (ty, en, k), "a fraction of the wrong length is accepted", W(fr))
            elif ty == "std::string::String":
                _, res = evaluate(p, to, [ref(v), er], Hook())
                good = bool(res)
                for st, r in res:
                    s = segs(r)
                    good = good and len(s) == 2 and strip_vec(s[0]) is v and s[1] is agg("array", 0, (C(0),))
                judge(c, good, "to:String:%s" % en, "a text is stored as %s" % [show(r) for _, r in res][:2], W(to))
                h = StrHook()
                e, res = evaluate(p, fr, [ref(b), er], h)
                judge(c, bool(res) and not any(is_err(r) for _, r in res), "from:String:%s" % en, "some text values are refused", W(fr))
                judge(c, h.trims <= {(("trim_end_matches"), "\0")} and h.cuts == 0, "from:String:trim:%s" % en,
                      "reading a text drops more than its trailing NULs: %s" % sorted(map(str, h.trims)), W(fr))
                judge(c, h.utf8, "from:String:utf8:%s" % en, "reading a text does not decode UTF-8", W(fr))
            else:
                ety = ty[len(VEC):-1]
                n = 8 if ety in RAT else WIDTH[ety]
                vec_to(c, p, to, v, er, e_, ety, n, en, W(to))
                vec_from(c, p, fr, b, er, e_, ety, n, en, W(fr))
    c.floor("conversions", 50)
    # the panicking default reads the same thing
    _, res = evaluate(p, default, [ref(sym("bytes", "[u8]")), ref(sym("endian", ENDIAN))])
    rs = [r for _, r in res]
    good = bool(rs) and all(r.op == "op" and r.a[0] == "from" and r.a[2] is sym("bytes", "[u8]") and r.a[3] is sym("endian", ENDIAN) for r in rs)
    judge(c, good, "default", "the default conversion yields %s" % [show(r) for r in rs][:2], "%s:%d" % (default.file, default.line))
    # type codes and sizes
    F = {n: p.find("ExifTagFormat::" + n) for n in ("as_u16", "from_u16", "bytes_per_component")}
    codes = {v[0]: (v[2], v[1]) for v in O.TYPES.values()}
    for code, (lib, size) in sorted(codes.items()):
        i = vidx(p, FMT, lib)
        t = ref(agg(FMT, i, ()))
        for fn, args, exp in (("as_u16", [t], C(code)), ("bytes_per_component", [t], C(size)), ("from_u16", [C(code)], Some(agg(FMT, i, ())))):
            _, res = evaluate(p, F[fn], args)
            judge(c, bool(res) and all(r is exp for _, r in res), "%s:%s" % (fn, lib), "%s of %s is %s" % (fn, lib, [show(r) for _, r in res][:2]), "%s:%d" % (F[fn].file, F[fn].line))
            c.count("type codes")
    x = sym("code", "u16")
    for name, su in (("0", [C(0)]), (">12", None)):
        if su:
            _, res = evaluate(p, F["from_u16"], su)
        else:
            _, res = evaluate(p, F["from_u16"], [x], setup=lambda st, args: st.assume_ge0(sub(x, C(13))))
        judge(c, bool(res) and all(r is NONE for _, r in res), "from_u16:%s" % name, "type code %s is taken for a known type" % name, "")
    if len(p.adts[FMT]["variants"]) != 12:
        c.bad("formats", "there are %d value formats instead of 12" % len(p.adts[FMT]["variants"]))


class StrHook(Hook):
    def __init__(self):
        self.trims = set()
        self.cuts = 0
        self.utf8 = False

    def on_call(self, e, st, site, name, fr, args, t):
        m = name.rsplit("::", 1)[-1]
        if m.startswith("trim") or m.startswith("strip_"):
            pat = args[1] if len(args) > 1 else None
            self.trims.add((m, chr(pat.a[0]) if pat is not None and pat.op == "c" else (pat.a[0] if pat is not None and pat.op == "str" else show(pat) if pat is not None else "")))
        if m in ("split_off", "truncate", "pop", "replace", "split", "split_once", "to_lowercase", "to_uppercase", "from_utf8_lossy"):
            self.cuts += 1
        if m in ("from_utf8", "from_utf8_unchecked", "from_utf8_lossy"):
            self.utf8 = True
        return None


def judge(c, good, key, msg, where):
    if good:
        c.ok(key, kind=key.split(":")[0])
    else:
        c.bad(key, msg, where)


def segs(r):
    if r.op == "vec" and r.a[0].op == "cat":
        return list(r.a[0].a)
    return [r]


def fieldno(x, v):
    return x.a[2] if x.op == "fld" and x.a[0] is v else None


def scalar_to(r, nm, v, n):
    r = r
    if not (r.op == "agg" and r.a[0] == "array" and len(r.a[2]) == n):
        return False
    for i, x in enumerate(r.a[2]):
        if n == 1 and x is v:
            continue
        if not (x.op == "byte" and x.a[0] == nm and x.a[1] is v and (x.a[2] == i or x.a[2] is C(i))):
            return False
    return True


def scalar_from(r, nm, b, n):
    if n == 1 and r.op == "elem" and r.a[0] is b and r.a[1] is C(0):
        return True
    if not (r.op == "op" and r.a[0] == nm):
        return False
    x = r.a[1]
    cv = content(x)
    if cv.op == "range":
        return cv.a[0] is b and cv.a[1] is C(0) and cv.a[2] is C(n)
    if cv is b:
        return True
    if x.op == "agg" and x.a[0] == "array":
        return len(x.a[2]) == n and all(y.op == "elem" and y.a[0] is b and y.a[1] is C(i) for i, y in enumerate(x.a[2]))
    return False


def vec_to(c, p, to, v, er, e_, ety, n, en, where):
    h = Conv(ety, n)
    _, res = evaluate(p, to, [ref(v), er], h)
    key = "to:Vec<%s>:%s" % (ety.rsplit("::", 1)[-1], en)
    lv = mk("len", v)
    good = bool(res)
    why = ""
    for st, r in res:
        cnt = r.a[0] if r.op == "vec" else r
        if cnt.op == "op" and cnt.a[0] == "flatmapseq":
            inner, k, body = cnt.a[1:4]
            body = strip_vec(body)
            if not (body.op == "op" and body.a[0] == "to" and body.a[1] == ety and is_elem(body.a[2], v, k) and body.a[3] is e_):
                good, why = False, "element bytes are %s" % show(body)
            if not (inner.op == "agg" and inner.a[0] == "seqit" and inner.a[2][1] is C(0) and inner.a[2][0].a[1] is v):
                good, why = False, "not all elements are stored"
            continue
        if n == 1 and content(r) is v:
            continue
        # built by a loop: the result has width x count bytes
        ln = None
        try:
            ln = r.a[1] if r.op == "vec" else C(len(r.a[2]))
        except Exception:
            pass
        if ln is None or not eq(st, ln, mulc(lv, n)):
            good, why = False, "the result is not %d bytes per element" % n
    if good and not any(strip_vec(r).op == "op" for _, r in res) and not (n == 1 and all(content(r) is v for _, r in res)):
        ev = 0
        for site, st, old, seg in h.events:
            ev += 1
            ol = old.a[1] if old.op == "vec" else C(len(old.a[2]))
            s = strip_vec(seg) if seg is not None else None
            if s is not None and s.op == "agg" and s.a[0] == "array" and n == 1 and len(s.a[2]) == 1 and is_elem(s.a[2][0], v, None):
                if not eq(st, ol, s.a[2][0].a[1]):
                    good, why = False, "elements are not stored in order"
                continue
            if s is None or not (s.op == "op" and s.a[0] == "to" and s.a[1] == ety and s.a[3] is e_ and is_elem(s.a[2], v, None)):
                good, why = False, "appends %s" % (show(s) if s is not None else "unknown bytes")
                break
            if not eq(st, ol, mulc(s.a[2].a[1], n)):
                good, why = False, "elements are not stored in order"
        if ev == 0:
            good, why = False, "no element is stored"
    judge(c, good, key, "the bytes of a list of %s: %s" % (ety, why), where)


def is_elem(x, v, k):
    return x.op == "elem" and x.a[0] is v and (k is None or x.a[1] is k)


def vec_from(c, p, fr, b, er, e_, ety, n, en, where):
    key = "from:Vec<%s>:%s" % (ety.rsplit("::", 1)[-1], en)
    lb = mk("len", b)
    k = sym("count", "usize")

    h = Conv(ety, n)
    _, res = evaluate(p, fr, [ref(b), er], h)
    oks = [(st, r.a[2][0]) for st, r in res if is_ok(r)]
    good, why = bool(oks), "never succeeds"
    loop = False
    for st, r in oks:
        cnt = r.a[0] if r.op == "vec" else r
        if cnt.op == "op" and cnt.a[0] == "mapseq":
            inner, kk, body = cnt.a[1:4]
            if not good_from(body, b, ety, e_, kk, n):
                good, why = False, "elements are %s" % show(body)
            if not eq(st, mulc(r.a[1], n), lb):
                good, why = False, "not all bytes are read"
            continue
        if n == 1 and content(r) is b:
            continue
        loop = True
        ln = r.a[1] if r.op == "vec" else C(len(r.a[2])) if r.op == "agg" else None
        if ln is None or not eq(st, mulc(ln, n), lb):
            good, why = False, "a success does not account for every byte"
    if good and loop:
        if not h.events:
            good, why = False, "no element is read"
        for site, st, old, seg in h.events:
            ol = old.a[1] if old.op == "vec" else C(len(old.a[2]))
            x = seg.a[2][0] if seg is not None and seg.op == "agg" and len(seg.a[2]) == 1 else None
            if x is None or not good_from(x, b, ety, e_, ol, n, st):
                good, why = False, "element number %s is %s" % (show(ol), show(x) if x is not None else "?")
                break
    judge(c, good, key, "a list of %s: %s" % (ety, why), where)
    whole = mk("vec", sym("bytes", None), mulc(k, n), ty="[u8]")
    _, res = evaluate(p, fr, [ref(whole), er], Conv(ety, n))
    judge(c, bool(res) and not any(is_err(r) for _, r in res), key + ":refuse", "a list of %s with a whole number of elements is refused" % ety, where)


def good_from(x, b, ety, e_, idx, n, st=None):
    if n == 1 and x.op == "elem" and x.a[0] is b:
        return x.a[1] is idx or (st is not None and eq(st, x.a[1], idx))
    if not (x.op == "op" and x.a[0] == "from" and x.a[1] == ety and x.a[3] is e_ and x.a[2].op == "range" and x.a[2].a[0] is b):
        return False
    lo, hi = x.a[2].a[1], x.a[2].a[2]
    if st is None:
        return lo is mulc(idx, n) and sub(hi, lo) is C(n)
    return eq(st, lo, mulc(idx, n)) and eq(st, sub(hi, lo), C(n))
