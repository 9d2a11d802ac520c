"""Models of the std/external functions the crate calls (names as in the MIR facts, generics stripped)."""
from absint import *
import absint as A

MODELS = {}


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


def one(st, r):
    return [(st, r)]


def dty(t):
    return t["dty"]


def pure(name_filter=None):
    pass


# --- pure value terms: same arguments, same result ---------------------------------------
def purefn(tag, look=True):
    def m(e, st, site, t, args):
        vs = tuple(e.val_deep(st, a) if look else a for a in args)
        return one(st, mk("op", tag, *vs, ty=t["dty"]))
    return m


# --- identity-like reference conversions ------------------------------------------------
@model("std::ops::Deref::deref", "std::ops::DerefMut::deref_mut", "std::vec::Vec::as_slice", "std::vec::Vec::as_mut_slice",
       "std::string::String::as_str", "std::string::String::as_bytes", "core::str::<impl str>::as_bytes",
       "std::convert::AsRef::as_ref", "std::convert::AsMut::as_mut", "std::borrow::Borrow::borrow", "core::array::<impl [T; N]>::as_slice",
       "std::string::String::into_bytes", "std::hint::must_use", "core::array::<impl [T; N]>::as_ref",
       "std::borrow::Cow::into_owned", "std::iter::Iterator::by_ref", "std::path::PathBuf::as_path", "std::ops::Drop::drop")
def ident(e, st, site, t, args):
    return one(st, args[0])


@model("std::clone::Clone::clone", "std::slice::<impl [T]>::to_vec", "std::borrow::ToOwned::to_owned", "std::iter::Iterator::cloned_v", "std::slice::<impl [T]>::into_vec")
def clone(e, st, site, t, args):
    a = args[0]
    v = e.val_deep(st, a) if "Iter" not in (t["argtys"][0]) else e.val(st, a)
    if v.op == "cref":
        v = v.a[0]
    if t["dty"].startswith("&"):
        return one(st, e.val(st, a))
    if t["dty"].startswith("std::vec::Vec") and not (v.op == "vec") and not (v.op == "agg" and v.a[0] == "array"):
        return one(st, mk("vec", v, e.vlen(st, v), ty=t["dty"]))
    return one(st, v)


@model("std::convert::From::from", "std::convert::Into::into")
def conv(e, st, site, t, args):
    a = args[0]
    frm, to = t["argtys"][0], t["dty"]
    if frm == to:
        return one(st, a)
    if int_range(frm) and int_range(to):
        return one(st, a)
    if to.startswith("std::vec::Vec<") or to in ("std::string::String",):
        v = e.val_deep(st, a)
        if e.is_seq(v) or frm in ("&str",):
            if v.op == "agg" or v.op == "vec":
                return one(st, v)
            return one(st, mk("vec", v, e.vlen(st, v), ty=to))
    # a local From impl?
    key = "std::convert::From::from"
    for p in e.p.trait_impls.get(key, []):
        f = e.p.fns.get(p)
        if f and f.locals[0][0] == to and f.locals[1][0] == frm:
            r = e.inline(p, site.fn, site.ctx, site.bb, st, args, site, to)
            if r is not None:
                return r
    return one(st, mk("op", "from", e.val_deep(st, a), ty=to))


@model("std::string::ToString::to_string", "std::str::<impl str>::to_lowercase", "std::fmt::format", "std::fmt::Arguments::new",
       "std::fmt::Arguments::from_str", "core::fmt::rt::Argument::new_display", "core::fmt::rt::Argument::new_debug",
       "core::fmt::rt::Argument::new_lower_hex", "alloc::io::error::<impl std::io::Error>::new", "std::io::Error::kind",
       "log::max_level", "log::__private_api::loc", "log::__private_api::log", "std::io::Error::other",
       "core::fmt::rt::Argument::new_upper_hex", "std::io::Error::new")
def opaque_pure(e, st, site, t, args):
    vs = []
    for a in args:
        try:
            v = e.val_deep(st, a)
        except Infeasible:
            v = a
        if v.depth < 12:
            vs.append(v)
    n = norm(t["f"]["fnref"]["fn"]).rsplit("::", 1)[-1]
    if t["dty"] == "()":
        return one(st, UNIT)
    return one(st, mk("op", "call:" + n, *vs, ty=t["dty"]))


# --- lengths ---------------------------------------------------------------------------
@model("std::vec::Vec::len", "core::slice::<impl [T]>::len", "std::string::String::len", "core::str::<impl str>::len", "std::collections::VecDeque::len")
def length(e, st, site, t, args):
    return one(st, e.vlen(st, e.val_deep(st, args[0])))


@model("std::vec::Vec::is_empty", "core::slice::<impl [T]>::is_empty", "std::string::String::is_empty", "core::str::<impl str>::is_empty")
def is_empty(e, st, site, t, args):
    return one(st, e.cmp(st, "Eq", e.vlen(st, e.val_deep(st, args[0])), C(0), "usize"))


@model("std::vec::Vec::new", "std::string::String::new", "std::vec::Vec::with_capacity", "std::string::String::with_capacity")
def vnew(e, st, site, t, args):
    if norm(t["f"]["fnref"]["fn"]).endswith("with_capacity"):
        e.h.on_oblige(e, st, site, "alloc", None, (args[0],))
    return one(st, agg("array", 0, ()) if t["dty"] != "std::string::String" else mk("str", ""))


@model("std::default::Default::default")
def vdefault(e, st, site, t, args):
    if t["dty"].startswith("std::vec::Vec"):
        return one(st, agg("array", 0, ()))
    return None


@model("std::vec::from_elem")
def from_elem(e, st, site, t, args):
    e.h.on_oblige(e, st, site, "alloc", None, (args[1],))
    if is_c(args[1]) and args[1].a[0] <= 32:
        return one(st, agg("array", 0, [args[0]] * args[1].a[0]))
    st.assume_ge0(sub(C(ISIZE_MAX), args[1]))
    return one(st, mk("vec", mk("fill", args[0]), args[1], ty=t["dty"]))


@model("std::boxed::box_assume_init_into_vec_unsafe")
def box_into_vec(e, st, site, t, args):
    v = st.env.get(("D", mk("boxptr", args[0], ty=None)))
    b = args[0]
    for k, x in st.env.items():
        if k[0] == "D" and k[1].op in ("boxptr", "op") and b in _deps(k[1]):
            v = x
            # MaybeUninit wrapper: value sits in field 1 (ManuallyDrop) field 0
            while v.op == "upd" or (v.op == "agg" and v.a[0] not in ("array",)):
                if v.op == "upd":
                    v = v.a[3]
                elif v.a[2]:
                    v = v.a[2][-1]
                else:
                    break
            return one(st, v)
    m = re.search(r"; (\d+)\]", t["argtys"][0])
    if m:
        return one(st, mk("vec", e.fresh(st, site, "bx", None), C(int(m.group(1))), ty=t["dty"]))
    return None


def _deps(t, out=None):
    out = out if out is not None else set()
    out.add(t)
    for x in A._sub(t.a):
        _deps(x, out)
    return out


@model("std::boxed::Box::new_uninit")
def box_uninit(e, st, site, t, args):
    return one(st, e.fresh(st, site, "box", t["dty"]))


@model("std::boxed::Box::new")
def box_new(e, st, site, t, args):
    b = e.fresh(st, site, "box", t["dty"])
    st.env[("D", mk("boxof", b))] = args[0]
    return one(st, b)


def newvec(e, st, site, tag, ln, ty=None):
    return mk("vec", e.fresh(st, site, tag, None), ln, ty=ty)


def segs_of(e, v):
    """content of a sequence value as concatenation segments"""
    if v.op == "vec" and v.a[0].op == "cat":
        return list(v.a[0].a)
    if v.op == "agg" and v.a[0] == "array":
        return [v] if v.a[2] else []
    if v.op == "str":
        bs = v.a[0].encode()
        return [agg("array", 0, [C(x) for x in bs])] if bs else []
    return [v]


def catval(e, st, site, segs, ln, ty):
    """sequence value made of segments (adjacent literal arrays are merged)"""
    out = []
    for x in segs:
        if out and x.op == "agg" and x.a[0] == "array" and out[-1].op == "agg" and out[-1].a[0] == "array" and len(out[-1].a[2]) + len(x.a[2]) <= 64:
            out[-1] = agg("array", 0, out[-1].a[2] + x.a[2])
        else:
            out.append(x)
    if not out:
        return agg("array", 0, ())
    if len(out) == 1 and out[0].op == "agg":
        return out[0]
    if len(out) == 1 and out[0].op == "vec" and out[0].a[1] is ln and out[0].a[0].op == "op" and out[0].a[0].a[0] == "to":
        return mk("vec", out[0].a[0], ln, ty=ty or out[0].ty)
    if len(out) > 24 or sum(x.depth for x in out) > 400 or max(x.depth for x in out) > 40:
        return newvec(e, st, site, "ext", ln, ty)
    return mk("vec", mk("cat", *out), ln, ty=ty)


def is_u8_seq_ty(ty):
    return True


@model("std::vec::Vec::push", "std::string::String::push", "std::collections::VecDeque::push_back")
def push(e, st, site, t, args):
    v = e.val(st, args[0])
    ln = e.vlen(st, v)
    if t["argtys"][0].endswith("String"):
        nl = e.fresh(st, site, "sl", "usize")
        st.assume_ge0(sub(nl, add(ln, C(1))))
        seg = mk("op", "char", args[1])
        e.h.on_append(e, st, site, args[0], v, seg)
        e.setval(st, args[0], newvec(e, st, site, "push", nl, v.ty), site)
        return one(st, UNIT)
    st.assume_ge0(sub(C(ISIZE_MAX - 1), ln))
    seg = agg("array", 0, (args[1],))
    e.h.on_append(e, st, site, args[0], v, seg)
    e.setval(st, args[0], catval(e, st, site, segs_of(e, v) + [seg], add(ln, C(1)), v.ty), site)
    return one(st, UNIT)


@model("std::iter::Extend::extend", "std::vec::Vec::extend_from_slice", "std::vec::Vec::append", "std::string::String::push_str")
def extend(e, st, site, t, args):
    v = e.val(st, args[0])
    ln = e.vlen(st, v)
    src = args[1] if args[1].op == "iter" or (args[1].op == "agg" and args[1].a[0] in ITERS) else e.val_deep(st, args[1])
    if src.op == "iter" or (src.op == "agg" and src.a[0] in ITERS):
        seg = iter_seq(e, st, site, src)
    elif e.is_seq(src):
        seg = src
    elif args[1].ty and strip_ref(args[1].ty) in ("std::vec::Vec<u8>", "[u8]", "std::string::String", "str"):
        seg = src
    else:
        seg = None
    nm = norm(t["f"]["fnref"]["fn"])
    n = e.vlen(st, seg) if seg is not None else None
    if n is None:
        nl = e.fresh(st, site, "xl", "usize")
        st.assume_ge0(sub(nl, ln))
    else:
        nl = add(ln, n)
    st.assume_ge0(sub(C(ISIZE_MAX), nl))
    e.h.on_append(e, st, site, args[0], v, seg)
    if seg is None or n is None:
        if not nm.endswith("append"):
            e.havoc(st, args[1], site, "src")
        nv = newvec(e, st, site, "ext", nl, v.ty)
    else:
        nv = catval(e, st, site, segs_of(e, v) + segs_of(e, seg), nl, v.ty)
    e.setval(st, args[0], nv, site)
    if nm.endswith("append"):
        e.setval(st, args[1], agg("array", 0, ()), site)
    return one(st, UNIT)


def seq_count(e, st, a):
    """number of elements an IntoIterator argument yields, or None"""
    v = a
    for _ in range(6):
        if v.op == "iter" or (v.op == "agg" and v.a[0] in ITERS):
            return iter_count(e, st, v)
        if v.op in ("ref", "cref") or (v.ty and v.ty.startswith("&")):
            v = e.val(st, v)
            continue
        break
    if v.op == "iter" or (v.op == "agg" and v.a[0] in ITERS):
        return iter_count(e, st, v)
    if e.is_seq(v):
        return e.vlen(st, v)
    return None


@model("std::vec::Vec::clear", "std::string::String::clear")
def vclear(e, st, site, t, args):
    e.setval(st, args[0], agg("array", 0, ()), site)
    return one(st, UNIT)


@model("std::vec::Vec::truncate")
def truncate(e, st, site, t, args):
    v = e.val(st, args[0])
    ln = e.vlen(st, v)
    if st.proves_le(args[1], ln):
        nl = args[1]
    else:
        nl = e.fresh(st, site, "tl", "usize")
        st.assume_ge0(sub(ln, nl))
        st.assume_ge0(sub(args[1], nl))
    e.setval(st, args[0], newvec(e, st, site, "tr", nl, v.ty), site)
    return one(st, UNIT)


@model("std::vec::Vec::resize")
def resize(e, st, site, t, args):
    e.h.on_oblige(e, st, site, "alloc", None, (args[1],))
    e.setval(st, args[0], newvec(e, st, site, "rs", args[1]), site)
    return one(st, UNIT)


@model("std::vec::Vec::reserve_exact", "std::vec::Vec::reserve")
def reserve(e, st, site, t, args):
    e.h.on_oblige(e, st, site, "alloc", None, (args[1],))
    return one(st, UNIT)


@model("std::vec::Vec::try_reserve_exact", "std::vec::Vec::try_reserve")
def try_reserve(e, st, site, t, args):
    s2 = st.copy()
    st.tr[mk("reserved", args[1])] = True
    return [(st, Ok(UNIT)), (s2, Err(mk("op", "reserve_err", ty="std::collections::TryReserveError")))]


@model("std::vec::Vec::split_off")
def split_off(e, st, site, t, args):
    v = e.val(st, args[0])
    ln = e.vlen(st, v)
    ok = st.proves_le(args[1], ln)
    e.h.on_oblige(e, st, site, "split_off", ok, (args[1], ln))
    st.assume_ge0(sub(ln, args[1]))
    e.setval(st, args[0], newvec(e, st, site, "so", args[1], v.ty), site)
    return one(st, mk("vec", mk("slice", v, args[1], ln), sub(ln, args[1]), ty=t["dty"]))


@model("std::vec::Vec::insert")
def vinsert(e, st, site, t, args):
    v = e.val(st, args[0])
    ln = e.vlen(st, v)
    e.h.on_oblige(e, st, site, "insert", st.proves_le(args[1], ln), (args[1], ln))
    e.setval(st, args[0], newvec(e, st, site, "ins", add(ln, C(1)), v.ty), site)
    return one(st, UNIT)


@model("std::vec::Vec::remove", "std::vec::Vec::swap_remove")
def vremove(e, st, site, t, args):
    v = e.val(st, args[0])
    ln = e.vlen(st, v)
    e.h.on_oblige(e, st, site, "remove", st.proves_ge0(sub(sub(ln, args[1]), C(1))), (args[1], ln))
    st.assume_ge0(sub(sub(ln, args[1]), C(1)))
    e.setval(st, args[0], newvec(e, st, site, "rem", sub(ln, C(1)), v.ty), site)
    return one(st, mk("elem", v, args[1], ty=t["dty"]))


@model("std::vec::Vec::drain", "std::vec::Vec::splice")
def vdrain(e, st, site, t, args):
    v = e.val(st, args[0])
    ln = e.vlen(st, v)
    r = range_bounds(e, st, args[1], ln)
    if r:
        a, b = r
        ok = st.proves_le(a, b) and st.proves_le(b, ln)
        e.h.on_oblige(e, st, site, "drain", ok, (a, b, ln))
        st.assume_ge0(sub(b, a))
        st.assume_ge0(sub(ln, b))
        if norm(t["f"]["fnref"]["fn"]).endswith("drain"):
            nl = sub(ln, sub(b, a))
        else:
            n = seq_count(e, st, args[2])
            nl = add(sub(ln, sub(b, a)), n) if n is not None else e.fresh(st, site, "spl", "usize")
        e.setval(st, args[0], newvec(e, st, site, "dr", nl, v.ty), site)
        return one(st, mk("iter", "drain", mk("slice", v, a, b), sub(b, a)))
    e.h.on_oblige(e, st, site, "drain", False, ("?", ln))
    return None


@model("std::vec::Vec::retain")
def retain(e, st, site, t, args):
    v = e.val(st, args[0])
    r = e.h.on_pred(e, st, site, "retain", v, args[1], args, t)
    if r is not None:
        return r
    ln = e.vlen(st, v)
    nl = e.fresh(st, site, "rl", "usize")
    st.assume_ge0(sub(ln, nl))
    probe_closure(e, st, site, args[1], t)
    e.setval(st, args[0], newvec(e, st, site, "ret", nl, v.ty), site)
    return one(st, UNIT)


# --- indexing ---------------------------------------------------------------------------
def range_bounds(e, st, r, ln):
    r = e.val_deep(st, r)
    if r.op != "agg":
        return None
    k = r.a[0]
    if k == "std::ops::Range":
        return r.a[2][0], r.a[2][1]
    if k == "std::ops::RangeFrom":
        return r.a[2][0], ln
    if k == "std::ops::RangeTo":
        return C(0), r.a[2][0]
    if k == "std::ops::RangeToInclusive":
        return C(0), add(r.a[2][0], C(1))
    if k == "std::ops::RangeInclusive":
        return r.a[2][0], add(r.a[2][1], C(1))
    if k == "std::ops::RangeFull":
        return C(0), ln
    return None


def slice_val(e, st, v, a, b):
    if v.op == "agg" and v.a[0] == "array" and is_c(a) and is_c(b) and 0 <= a.a[0] <= b.a[0] <= len(v.a[2]):
        return agg("array", 0, v.a[2][a.a[0]:b.a[0]])
    if e.h.slices and v.op == "agg" and v.a[0] == "array" and v.a[2]:
        r = run_of(v)
        if r is not None:
            return mk("vec", mk("slice", r[0], add(r[1], a), add(r[1], b)), sub(b, a), ty="[u8]")
    if v.op == "vec" and v.a[0].op == "fill":
        return mk("vec", v.a[0], sub(b, a), ty=v.ty)
    if v.op == "vec" and v.a[0].op == "slice":
        base, off = v.a[0].a[0], v.a[0].a[1]
        return mk("vec", mk("slice", base, add(off, a), add(off, b)), sub(b, a), ty="[" + elem_ty(v.ty) + "]" if v.ty else None)
    if v.op == "vec" and v.a[0].op == "cat" and not st.proves_ge0(C(-1)):
        # boundaries that coincide with segment boundaries
        segs, pos, i0, i1 = v.a[0].a, C(0), None, None
        for i, x in enumerate(list(segs) + [None]):
            if i0 is None and sub(a, pos) is C(0):
                i0 = i
            if i1 is None and sub(b, pos) is C(0):
                i1 = i
            if x is not None:
                pos = add(pos, e.vlen(st, x))
        if i0 is not None and i1 is not None and i0 <= i1:
            return catval(e, st, None, list(segs[i0:i1]), sub(b, a), v.ty) if i1 > i0 else agg("array", 0, ())
        # inside one literal array
        if is_c(a) and is_c(b) and segs[0].op == "agg" and segs[0].a[0] == "array" and 0 <= a.a[0] <= b.a[0] <= len(segs[0].a[2]):
            return agg("array", 0, segs[0].a[2][a.a[0]:b.a[0]])
    return mk("vec", mk("slice", v, a, b), sub(b, a), ty="[" + elem_ty(v.ty) + "]" if v.ty else None)


@model("std::ops::Index::index", "std::ops::IndexMut::index_mut")
def index(e, st, site, t, args):
    base, ix = args
    mutable = norm(t["f"]["fnref"]["fn"]).endswith("index_mut")
    v = e.val_deep(st, base)
    ln = e.vlen(st, v)
    ity = t["argtys"][1]
    ety = strip_ref(t["dty"])
    if int_range(ity):
        ok = st.proves_ge0(sub(sub(ln, ix), C(1)))
        e.h.on_oblige(e, st, site, "index", ok, (ix, ln))
        if not st.assume_ge0(sub(sub(ln, ix), C(1))):
            raise Infeasible()
        if not mutable:
            r = take_choice(e, st, site, v, ix, ety)
            if r is not None:
                return r
        if base.op == "ref":
            return one(st, mk("ref", base.a[0], base.a[1] + (("i", ix, ety),), 1 if mutable else 0))
        return one(st, mk("cref", e.get_elem(v, ix, ety)))
    r = range_bounds(e, st, ix, ln)
    if r is None:
        e.h.on_oblige(e, st, site, "index?", False, (ix, ln))
        return None
    a, b = r
    isstr = v.op == "str" or "str" in t["argtys"][0].lower().replace("struct", "")[:30] and (v.ty in ("str", "std::string::String"))
    ok = st.proves_le(a, b) and st.proves_le(b, ln)
    if "&str" in t["argtys"][0] or "String" in t["argtys"][0] or v.ty in ("str", "std::string::String"):
        ok = ok and is_c(a) and a.a[0] == 0 and b is ln
        e.h.on_oblige(e, st, site, "str-slice", ok, (a, b, ln))
    else:
        e.h.on_oblige(e, st, site, "slice", ok, (a, b, ln))
    if not st.assume_ge0(sub(b, a)) or not st.assume_ge0(sub(ln, b)):
        raise Infeasible()
    if mutable and base.op == "ref":
        return one(st, mk("ref", base.a[0], base.a[1] + (("s", a, b),), 1))
    return one(st, mk("cref", slice_val(e, st, v, a, b)))


def take_choice(e, st, site, v, ix, ety, wrap=lambda x: x):
    """v[ix] of a sequence of mixed elements: one state per kind; the same index gives the same element
    until the loop that defines the index goes round"""
    x = e.get_elem(v, ix, ety)
    alts = choices(x)
    if alts is None:
        return None
    key = ("IX", v, ix)
    old = st.env.get(key)
    if old is not None:
        return [(st, wrap(mk("cref", old)))]
    out = []
    for i, y in enumerate(alts):
        s2 = st if i == len(alts) - 1 else st.copy()
        s2.env[key] = y
        e.h.on_elem(e, s2, site, mk("cref", y))
        out.append((s2, wrap(mk("cref", y))))
    return out


@model("core::slice::<impl [T]>::get", "core::slice::<impl [T]>::get_mut", "core::str::<impl str>::get")
def slice_get(e, st, site, t, args):
    base, ix = args
    v = e.val_deep(st, base)
    ln = e.vlen(st, v)
    out = []
    s2 = st.copy()
    if int_range(t["argtys"][1]):
        if st.assume_ge0(sub(sub(ln, ix), C(1))):
            ety = strip_ref(gen_args(t["dty"])[0]) if gen_args(t["dty"]) else None
            if norm(t["f"]["fnref"]["fn"]).endswith("get"):
                r = take_choice(e, st, site, v, ix, ety, Some)
                if r is not None:
                    if s2.assume_ge0(sub(ix, ln)):
                        r.append((s2, NONE))
                    return r
            if norm(t["f"]["fnref"]["fn"]).endswith("get_mut") and base.op == "ref":
                out.append((st, Some(mk("ref", base.a[0], base.a[1] + (("i", ix, ety),), 1))))
            else:
                out.append((st, Some(mk("cref", e.get_elem(v, ix, ety)))))
        if s2.assume_ge0(sub(ix, ln)):
            out.append((s2, NONE))
        return out
    r = range_bounds(e, st, ix, ln)
    if r is None:
        return None
    a, b = r
    if st.assume_ge0(sub(b, a)) and st.assume_ge0(sub(ln, b)):
        if norm(t["f"]["fnref"]["fn"]).endswith("get_mut") and base.op == "ref":
            out.append((st, Some(mk("ref", base.a[0], base.a[1] + (("s", a, b),), 1))))
        else:
            out.append((st, Some(mk("cref", slice_val(e, st, v, a, b)))))
    out.append((s2, NONE))
    return out


@model("core::slice::<impl [T]>::first", "core::slice::<impl [T]>::last", "core::slice::<impl [T]>::first_mut", "core::slice::<impl [T]>::last_mut")
def slice_first(e, st, site, t, args):
    n = norm(t["f"]["fnref"]["fn"])
    v = e.val_deep(st, args[0])
    ln = e.vlen(st, v)
    out = []
    s2 = st.copy()
    ety = strip_ref(gen_args(t["dty"])[0]) if gen_args(t["dty"]) else None
    if st.assume_ge0(sub(ln, C(1))):
        ix = C(0) if "first" in n else sub(ln, C(1))
        if n.endswith("_mut") and args[0].op == "ref":
            out.append((st, Some(mk("ref", args[0].a[0], args[0].a[1] + (("i", ix, ety),), 1))))
        else:
            out.append((st, Some(mk("cref", e.get_elem(v, ix, ety)))))
    if s2.assume_ge0(mulc(ln, -1)):
        out.append((s2, NONE))
    return out


@model("core::slice::<impl [T]>::starts_with", "core::slice::<impl [T]>::ends_with")
def starts_with(e, st, site, t, args):
    v, p = e.val_deep(st, args[0]), e.val_deep(st, args[1])
    front = norm(t["f"]["fnref"]["fn"]).endswith("starts_with")
    n, m = e.vlen(st, p), e.vlen(st, v)
    if is_c(n) and n.a[0] <= 64:
        if st.proves_ge0(sub(m, n)):
            q = e.eq(st, slice_val(e, st, v, C(0), n) if front else slice_val(e, st, v, sub(m, n), m), p)
            if q in (TRUE, FALSE) or e.h.slices:
                return one(st, q)
        elif is_c(m) and m.a[0] < n.a[0]:
            return one(st, FALSE)
    s2 = st.copy()
    tm = mk("op", "starts_with" if norm(t["f"]["fnref"]["fn"]).endswith("starts_with") else "ends_with", v, p, ty="bool")
    out = []
    if e.assume(st, tm, True) and st.assume_ge0(sub(e.vlen(st, v), e.vlen(st, p))):
        out.append((st, TRUEB))
    if e.assume(s2, tm, False):
        out.append((s2, FALSEB))
    return out


TRUEB, FALSEB = TRUE, FALSE


@model("core::str::<impl str>::starts_with", "core::str::<impl str>::ends_with", "core::slice::<impl [T]>::contains", "core::str::<impl str>::contains")
def str_pred(e, st, site, t, args):
    if norm(t["f"]["fnref"]["fn"]) == "core::slice::<impl [T]>::contains":
        v, x = e.val_deep(st, args[0]), e.val_deep(st, args[1])
        if v.op == "agg" and v.a[0] == "array" and len(v.a[2]) <= 32:
            rs = [e.eq(st, y, x) for y in v.a[2]]
            if TRUE in rs:
                return one(st, TRUE)
            if all(r is FALSE for r in rs):
                return one(st, FALSE)
    return one(st, mk("op", norm(t["f"]["fnref"]["fn"]).rsplit("::", 1)[-1], e.val_deep(st, args[0]), e.val_deep(st, args[1]), ty="bool"))


@model("std::str::from_utf8", "std::string::String::from_utf8")
def from_utf8(e, st, site, t, args):
    v = e.val_deep(st, args[0])
    s2 = st.copy()
    if t["dty"].find("&str") >= 0:
        ok = Ok(mk("cref", mk("vec", mk("op", "utf8", v), e.vlen(st, v), ty="str")))
    else:
        ok = Ok(mk("vec", mk("op", "utf8", v), e.vlen(st, v), ty="std::string::String"))
    return [(st, ok), (s2, Err(mk("op", "utf8err", v, ty="std::string::FromUtf8Error")))]


@model("core::str::<impl str>::trim_end_matches", "core::str::<impl str>::trim", "core::str::<impl str>::trim_start_matches", "core::str::<impl str>::trim_end", "core::str::<impl str>::trim_start")
def trim(e, st, site, t, args):
    v = e.val_deep(st, args[0])
    nl = e.fresh(st, site, "trim", "usize")
    st.assume_ge0(sub(e.vlen(st, v), nl))
    return one(st, mk("cref", newvec(e, st, site, "tv", nl, "str")))


# --- comparison -------------------------------------------------------------------------
@model("std::cmp::PartialEq::eq")
def peq(e, st, site, t, args):
    return one(st, e.eq(st, args[0], args[1]))


@model("std::cmp::PartialEq::ne")
def pne(e, st, site, t, args):
    return one(st, e.bnot(e.eq(st, args[0], args[1])))


@model("std::cmp::PartialOrd::lt", "std::cmp::PartialOrd::le", "std::cmp::PartialOrd::gt", "std::cmp::PartialOrd::ge")
def pord(e, st, site, t, args):
    op = norm(t["f"]["fnref"]["fn"])[-2:].capitalize()
    a, b = e.val_deep(st, args[0]), e.val_deep(st, args[1])
    ty = strip_ref(strip_ref(t["argtys"][0]))
    return one(st, e.cmp(st, op, a, b, ty))


@model("std::cmp::min", "std::cmp::max", "std::cmp::Ord::min", "std::cmp::Ord::max")
def minmax(e, st, site, t, args):
    a, b = args
    if not int_range(t["dty"]):
        return None
    mx = norm(t["f"]["fnref"]["fn"]).endswith("max")
    if is_c(a) and is_c(b):
        return one(st, C(max(a.a[0], b.a[0]) if mx else min(a.a[0], b.a[0])))
    r = mk("op", "max" if mx else "min", *sorted((a, b), key=lambda x: x.id), ty=t["dty"])
    for x in (a, b):
        st.assume_ge0(sub(r, x) if mx else sub(x, r))
    lo = [st.lower(a), st.lower(b)]
    hi = [st.upper(a), st.upper(b)]
    if None not in lo:
        st.assume_ge0(sub(r, C(max(lo) if mx else min(lo))))
    if None not in hi:
        st.assume_ge0(sub(C(max(hi) if mx else min(hi)), r))
    return one(st, r)


# --- Option / Result / ? ------------------------------------------------------------------
def fork_enum(e, st, v, adt, tys):
    """list of (state, vi, payload terms) for an Option/Result value term"""
    if v.op == "agg" and v.a[0] == adt:
        return [(st, v.a[1], v.a[2])]
    out = []
    names = e.variants(adt)
    for vi in range(len(names)):
        if v in st.tr and st.tr[v] != vi:
            continue
        if (v, vi) in st.ne:
            continue
        s = st.copy()
        s.tr[v] = vi
        ty = tys[vi] if vi < len(tys) else None
        out.append((s, vi, (mk("fld", v, vi, 0, ty=ty),) if ty is not None else ()))
    return out


def opt_tys(ty):
    g = gen_args(ty)
    return [None, g[0] if g else None]


def res_tys(ty):
    g = gen_args(ty)
    return [g[0] if g else None, g[1] if len(g) > 1 else None]


def enum_of(ty):
    b = base_ty(ty)
    if b == OPTION:
        return OPTION, opt_tys(ty)
    if b == RESULT:
        return RESULT, res_tys(ty)
    return None, None


@model("std::ops::Try::branch")
def branch(e, st, site, t, args):
    ty = t["argtys"][0]
    adt, tys = enum_of(ty)
    if adt is None:
        return None
    out = []
    for s, vi, pl in fork_enum(e, st, args[0], adt, tys):
        if adt == RESULT:
            if vi == 0:
                p = pl[0] if pl else UNIT
                if p.op == "fld" and tys[0] == "()":
                    p = UNIT
                out.append((s, agg(CF, 0, (p,))))
            else:
                out.append((s, agg(CF, 1, (Err(pl[0]),))))
        else:
            if vi == 1:
                out.append((s, agg(CF, 0, (pl[0],))))
            else:
                out.append((s, agg(CF, 1, (NONE,))))
    return out


@model("std::ops::FromResidual::from_residual")
def from_residual(e, st, site, t, args):
    a = args[0]
    if a.op == "agg" and a.a[0] == RESULT:
        return one(st, Err(mk("op", "errfrom", a.a[2][0], ty=res_tys(t["dty"])[1]) if a.a[2][0].op != "op" or a.a[2][0].a[0] != "errfrom" else a.a[2][0]))
    if a.op == "agg" and a.a[0] == OPTION:
        return one(st, NONE)
    if t["dty"].startswith(RESULT):
        return one(st, Err(mk("op", "errfrom", a, ty=res_tys(t["dty"])[1])))
    return None


def mapper(which, adt_out=None):
    """Option::map / Result::map / map_err / and_then ..."""
    def m(e, st, site, t, args):
        adt, tys = enum_of(t["argtys"][0])
        if adt is None:
            return None
        out = []
        n = norm(t["f"]["fnref"]["fn"]).rsplit("::", 1)[-1]
        for s, vi, pl in fork_enum(e, st, args[0], adt, tys):
            some = (adt == OPTION and vi == 1) or (adt == RESULT and vi == 0)
            x = pl[0] if pl else UNIT
            if n == "map":
                if some:
                    for s2, r in run_clo(e, s, site, args[1], [x], t):
                        out.append((s2, Some(r) if adt == OPTION else Ok(r)))
                else:
                    out.append((s, NONE if adt == OPTION else Err(x)))
            elif n == "map_err":
                if some:
                    out.append((s, Ok(x)))
                else:
                    for s2, r in run_clo(e, s, site, args[1], [x], t):
                        out.append((s2, Err(mk("op", "errfrom", r) if r.op == "sym" else r)))
            elif n == "and_then":
                if some:
                    out.extend(run_clo(e, s, site, args[1], [x], t))
                else:
                    out.append((s, NONE if adt == OPTION else Err(x)))
            elif n == "ok_or":
                out.append((s, Ok(x) if some else Err(args[1])))
            elif n == "ok_or_else":
                if some:
                    out.append((s, Ok(x)))
                else:
                    for s2, r in run_clo(e, s, site, args[1], [], t):
                        out.append((s2, Err(r)))
            elif n == "ok":
                out.append((s, Some(x) if some else NONE))
            elif n == "err":
                out.append((s, NONE if some else Some(x)))
            elif n == "unwrap_or":
                out.append((s, x if some else args[1]))
            elif n == "unwrap_or_else":
                if some:
                    out.append((s, x))
                else:
                    out.extend(run_clo(e, s, site, args[1], [x] if adt == RESULT else [], t))
            elif n == "unwrap_or_default":
                out.append((s, x if some else (C(0) if int_range(t["dty"]) else agg("array", 0, ()) if t["dty"].startswith("std::vec") else e.fresh(s, site, "def", t["dty"]))))
            elif n == "map_or":
                if some:
                    out.extend(run_clo(e, s, site, args[2], [x], t))
                else:
                    out.append((s, args[1]))
            elif n == "is_some_and" or n == "is_ok_and":
                if some:
                    out.extend(run_clo(e, s, site, args[1], [x], t))
                else:
                    out.append((s, FALSE))
            elif n == "map_or_else":
                if some:
                    out.extend(run_clo(e, s, site, args[2], [x], t))
                else:
                    out.extend(run_clo(e, s, site, args[1], [x] if adt == RESULT else [], t))
            elif n == "filter":
                if some:
                    for s2, r in run_clo(e, s, site, args[1], [mk("cref", x)], t):
                        s3 = s2.copy()
                        if e.assume(s2, r, True):
                            out.append((s2, Some(x)))
                        if e.assume(s3, r, False):
                            out.append((s3, NONE))
                else:
                    out.append((s, NONE))
            elif n == "or_else":
                if some:
                    out.append((s, Some(x) if adt == OPTION else Ok(x)))
                else:
                    out.extend(run_clo(e, s, site, args[1], [x] if adt == RESULT else [], t))
        return out
    return m


def run_clo(e, s, site, clo, xs, t):
    r = e.call_closure(s, site, clo, xs)
    if r is not None:
        return r
    if clo.op == "fn":
        nm = norm(clo.a[1])
        # enum constructors used as functions
        m = e.models.get(nm)
        if m is not None and m in (conv, clone, opaque_pure):
            return m(e, s, site, {"f": {"fnref": {"fn": clo.a[1]}}, "argtys": [xs[0].ty or "?"], "dty": "?"}, xs)
    e.havoc(s, clo, site, "clo")
    return [(s, e.fresh(s, site, "clo", None))]


for _n in ("map", "map_err", "and_then", "ok_or", "ok_or_else", "ok", "err", "unwrap_or", "unwrap_or_else", "unwrap_or_default", "map_or", "map_or_else", "filter", "or_else", "is_some_and", "is_ok_and"):
    MODELS["std::option::Option::" + _n] = mapper(_n)
    MODELS["std::result::Result::" + _n] = mapper(_n)


@model("std::option::Option::unwrap", "std::option::Option::expect", "std::result::Result::unwrap", "std::result::Result::expect", "std::result::Result::unwrap_err", "std::result::Result::expect_err")
def unwrap(e, st, site, t, args):
    adt, tys = enum_of(t["argtys"][0])
    if adt is None:
        return None
    n = norm(t["f"]["fnref"]["fn"])
    good = 1 if adt == OPTION else 0
    if n.endswith("_err"):
        good = 1
    out = []
    bad = False
    for s, vi, pl in fork_enum(e, st, args[0], adt, tys):
        if vi == good:
            out.append((s, pl[0] if pl else UNIT))
        else:
            bad = True
    e.h.on_oblige(e, st, site, "unwrap", not bad, (args[0],))
    return out


@model("std::result::Result::is_err", "std::result::Result::is_ok", "std::option::Option::is_some", "std::option::Option::is_none")
def is_x(e, st, site, t, args):
    n = norm(t["f"]["fnref"]["fn"]).rsplit("::", 1)[-1]
    v = e.val(st, args[0])
    ty = strip_ref(t["argtys"][0])
    adt, tys = enum_of(ty)
    want = {"is_err": 1, "is_ok": 0, "is_some": 1, "is_none": 0}[n]
    out = []
    for s, vi, pl in fork_enum(e, st, v, adt, tys):
        out.append((s, TRUE if vi == want else FALSE))
    return out


@model("std::option::Option::as_ref", "std::option::Option::as_mut", "std::result::Result::as_ref", "std::result::Result::as_mut", "std::option::Option::as_deref")
def as_ref(e, st, site, t, args):
    r = args[0]
    v = e.val(st, r)
    ty = strip_ref(t["argtys"][0])
    adt, tys = enum_of(ty)
    if adt is None:
        return None
    out = []
    mutf = 1 if norm(t["f"]["fnref"]["fn"]).endswith("as_mut") else 0
    for s, vi, pl in fork_enum(e, st, v, adt, tys):
        if not pl:
            out.append((s, agg(adt, vi, ())))
        elif r.op == "ref":
            out.append((s, agg(adt, vi, (mk("ref", r.a[0], r.a[1] + (("d", vi), ("f", 0, tys[vi])), mutf),))))
        else:
            out.append((s, agg(adt, vi, (mk("cref", pl[0]),))))
    return out


@model("std::option::Option::copied", "std::option::Option::cloned")
def opt_copied(e, st, site, t, args):
    adt, tys = enum_of(t["argtys"][0])
    if adt is None:
        return None
    out = []
    for s, vi, pl in fork_enum(e, st, args[0], adt, tys):
        out.append((s, Some(e.val(s, pl[0])) if vi == 1 else NONE))
    return out


@model("std::mem::replace")
def mem_replace(e, st, site, t, args):
    v = e.val(st, args[0])
    e.setval(st, args[0], args[1], site)
    return one(st, v)


@model("std::mem::swap")
def mem_swap(e, st, site, t, args):
    a, b = e.val(st, args[0]), e.val(st, args[1])
    e.setval(st, args[0], b, site)
    e.setval(st, args[1], a, site)
    return one(st, UNIT)


@model("std::mem::take")
def mem_take(e, st, site, t, args):
    v = e.val(st, args[0])
    e.setval(st, args[0], agg("array", 0, ()) if t["dty"].startswith("std::vec") else e.fresh(st, site, "def", t["dty"]), site)
    return one(st, v)


# --- integers -----------------------------------------------------------------------------
def _ity(t):
    return strip_ref(t["argtys"][0])


def checked(opn):
    def m(e, st, site, t, args):
        ty = _ity(t)
        a, b = args
        if not int_range(ty):
            return None
        r = e.binop(st, opn + "WithOverflow", a, b, ty, site) if opn != "Div" else None
        if r is None:
            return None
        val, ovf = r.a[2]
        lo, hi = int_range(ty)
        s2 = st.copy()
        out = []
        if st.assume_ge0(sub(val, C(lo))) and st.assume_ge0(sub(C(hi), val)):
            out.append((st, Some(val)))
        if not (s2.proves_ge0(sub(val, C(lo))) and s2.proves_ge0(sub(C(hi), val))):
            out.append((s2, NONE))
        return out
    return m


def saturating(opn):
    def m(e, st, site, t, args):
        ty = _ity(t)
        if not int_range(ty):
            return None
        lo, hi = int_range(ty)
        a, b = args
        val = e.binop(st, opn + "WithOverflow", a, b, ty, site).a[2][0]
        if e.fits(st, val, ty):
            return one(st, val)
        out = []
        s2 = st.copy()
        if st.assume_ge0(sub(val, C(lo))) and st.assume_ge0(sub(C(hi), val)):
            out.append((st, val))
        s3 = s2.copy()
        if s2.assume_ge0(sub(C(lo - 1), val)):
            out.append((s2, C(lo)))
        if s3.assume_ge0(sub(val, C(hi + 1))):
            out.append((s3, C(hi)))
        # collapse to one state: a fresh symbol bounded by both cases
        base = (out[0][0] if out else s3)
        return out
    return m


def wrapping(opn):
    def m(e, st, site, t, args):
        ty = _ity(t)
        if not int_range(ty):
            return None
        return one(st, e.binop(st, opn, args[0], args[1], ty, site))
    return m


for _t in ("u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize", "u128"):
    for _o in ("Add", "Sub", "Mul"):
        MODELS["core::num::<impl %s>::checked_%s" % (_t, _o.lower())] = checked(_o)
        MODELS["core::num::<impl %s>::saturating_%s" % (_t, _o.lower())] = saturating(_o)
        MODELS["core::num::<impl %s>::wrapping_%s" % (_t, _o.lower())] = wrapping(_o)


def abs_diff(e, st, site, t, args):
    return None


def to_bytes(n):
    def m(e, st, site, t, args):
        nm = norm(t["f"]["fnref"]["fn"]).rsplit("::", 1)[-1]
        v = e.val_deep(st, args[0])
        k = arr_len(t["dty"]) or n
        return one(st, agg("array", 0, [mk("byte", nm, v, i, ty="u8") for i in range(k)]))
    return m


def from_bytes(e, st, site, t, args):
    nm = norm(t["f"]["fnref"]["fn"]).rsplit("::", 1)[-1]
    v = e.val_deep(st, args[0])
    if v.op == "agg" and all(x.op == "c" for x in v.a[2]):
        bs = bytes(x.a[0] & 255 for x in v.a[2])
        if int_range(t["dty"]):
            return one(st, C(int.from_bytes(bs, "big" if "_be_" in nm else "little", signed=t["dty"].startswith("i"))))
    return one(st, mk("op", nm, v, ty=t["dty"]))


for _t, _n in (("u8", 1), ("i8", 1), ("u16", 2), ("i16", 2), ("u32", 4), ("i32", 4), ("u64", 8), ("i64", 8), ("f32", 4), ("f64", 8), ("usize", 8)):
    for _e in ("le", "be", "ne"):
        for _m in ("core::num::<impl %s>" % _t, "core::%s::<impl %s>" % (_t, _t)):
            MODELS["%s::to_%s_bytes" % (_m, _e)] = to_bytes(_n)
            MODELS["%s::from_%s_bytes" % (_m, _e)] = from_bytes


@model("std::convert::TryInto::try_into", "std::convert::TryFrom::try_from")
def try_into(e, st, site, t, args):
    to = res_tys(t["dty"])[0]
    n = arr_len(to)
    a = args[0]
    if n is not None:
        v = e.val_deep(st, a)
        ln = e.vlen(st, v)
        s2 = st.copy()
        out = []
        if st.assume_eq(ln, C(n)):
            if v.op == "agg":
                r = v
            else:
                r = mk("vec", v, C(n), ty=to)
            out.append((st, Ok(r)))
        if not (s2.lower(ln) == n and s2.upper(ln) == n):
            out.append((s2, Err(mk("op", "tryerr", ty="std::array::TryFromSliceError"))))
        return out
    if int_range(to) and int_range(t["argtys"][0]):
        lo, hi = int_range(to)
        s2 = st.copy()
        out = []
        if st.assume_ge0(sub(a, C(lo))) and st.assume_ge0(sub(C(hi), a)):
            out.append((st, Ok(a)))
        if not (s2.proves_ge0(sub(a, C(lo))) and s2.proves_ge0(sub(C(hi), a))):
            out.append((s2, Err(mk("op", "tryerr", ty="std::num::TryFromIntError"))))
        return out
    return None


@model("core::num::<impl i64>::unsigned_abs", "core::num::<impl i32>::unsigned_abs")
def uabs(e, st, site, t, args):
    r = mk("op", "abs", args[0], ty=t["dty"])
    st.assume_ge0(sub(r, args[0]))
    st.assume_ge0(add(r, args[0]))
    return one(st, r)


@model("core::num::<impl u64>::pow", "core::num::<impl usize>::pow", "core::num::<impl u32>::pow")
def powm(e, st, site, t, args):
    a, b = args
    ty = t["dty"]
    if is_c(a) and is_c(b) and b.a[0] < 200:
        v = a.a[0] ** b.a[0]
        e.h.on_oblige(e, st, site, "pow", v <= int_range(ty)[1], (a, b))
        return one(st, C(v & int_range(ty)[1]))
    ub, ua = st.upper(b), st.upper(a)
    ok = ub is not None and ua is not None and ub < 200 and ua ** ub <= int_range(ty)[1]
    e.h.on_oblige(e, st, site, "pow", ok, (a, b))
    r = mk("op", "pow", a, b, ty=ty)
    if ok:
        st.assume_ge0(sub(C(ua ** ub), r))
    return one(st, r)


@model("core::num::<impl u8>::from_str_radix", "core::num::<impl u32>::from_str_radix", "core::str::<impl str>::parse")
def parse(e, st, site, t, args):
    s2 = st.copy()
    g = res_tys(t["dty"])
    return [(st, Ok(e.fresh(st, site, "parse", g[0]))), (s2, Err(mk("op", "parseerr", ty=g[1])))]


# --- iterators -------------------------------------------------------------------------------
# ('iter', kind, source-term, remaining-count-term|None)
def elem_of(e, st, site, ty, tag="it"):
    return e.fresh(st, site, tag, ty)


# agg("seqit", it, i): position i of a slice/vec iterator; agg("mapit", inner, closure, body, idx); agg("derefit", inner); agg("enum", inner, i)
ITERS = ("seqit", "mapit", "derefit", "enum", "zipit", "std::ops::Range", "std::ops::RangeInclusive")


def mkseq(kind, v, n):
    it = mk("iter", kind, v, n)
    return it if n is None else agg("seqit", 0, (it, C(0)))


def iter_count(e, st, a):
    """remaining number of elements, or None"""
    if a.op == "iter":
        return a.a[2]
    if a.op != "agg":
        return None
    k = a.a[0]
    if k == "seqit":
        return sub(a.a[2][0].a[2], a.a[2][1])
    if k == "enum":
        inner, i = a.a[2]
        n = iter_count(e, st, inner)
        return n
    if k == "mapit":
        if a.a[2][1] is UNIT:
            return None
        return iter_count(e, st, a.a[2][0])
    if k == "derefit":
        return iter_count(e, st, a.a[2][0])
    if k == "zipit":
        na, nb = iter_count(e, st, a.a[2][0]), iter_count(e, st, a.a[2][1])
        if na is None or nb is None:
            return None
        if st.proves_le(na, nb):
            return sub(na, a.a[2][2])
        if st.proves_le(nb, na):
            return sub(nb, a.a[2][2])
        c = mk("op", "min", *sorted((na, nb), key=lambda x: x.id), ty="usize")
        st.assume_ge0(sub(na, c))
        st.assume_ge0(sub(nb, c))
        return sub(c, a.a[2][2])
    if k == "std::ops::Range":
        x, y = a.a[2]
        if st.proves_le(x, y):
            return sub(y, x)
        return None
    return None


def elem_at(e, st, site, a, idx, ty=None):
    """element number idx (from the current position) of an iterator, as a pure term, or None"""
    if a.op != "agg":
        return None
    k = a.a[0]
    if k == "seqit":
        it, i = a.a[2]
        if it.a[0] in ("iter", "bytes", "into_iter", "chunks_exact"):
            return seq_elem(e, st, it, add(i, idx), ty)
        return None
    if k == "std::ops::Range":
        return add(a.a[2][0], idx)
    if k == "enum":
        x = elem_at(e, st, site, a.a[2][0], idx)
        return agg("tuple", 0, (add(a.a[2][1], idx), x)) if x is not None else None
    if k == "zipit":
        j = add(a.a[2][2], idx)
        x, y = elem_at(e, st, site, a.a[2][0], j), elem_at(e, st, site, a.a[2][1], j)
        return agg("tuple", 0, (x, y)) if x is not None and y is not None else None
    if k == "derefit":
        x = elem_at(e, st, site, a.a[2][0], idx)
        if x is None:
            return None
        return e.val(st, x) if x.op in ("ref", "cref") else mk("deref", x)
    return None


def seq_elem(e, st, it, idx, ty=None):
    kind, src = it.a[0], it.a[1]
    if kind == "chunks_exact":
        v, k = src.a
        return mk("cref", slice_val(e, st, v, mulc(idx, k.a[0]), mulc(add(idx, C(1)), k.a[0])))
    ety = elem_ty(src.ty) if src.ty else (strip_ref(ty) if ty else None)
    if ety == "?":
        ety = strip_ref(ty) if ty else None
    if kind == "bytes":
        ety = "u8"
    x = e.get_elem(src, idx, ety)
    return mk("cref", x) if kind == "iter" else x


def generic(e, st, site, a):
    """forget the position: an opaque iterator with the remaining count"""
    if a.op == "iter":
        return a
    if a.op == "agg" and a.a[0] in ITERS:
        if a.a[0] == "seqit" and a.a[2][1] is C(0):
            return a.a[2][0]
        return mk("iter", "other", a, iter_count(e, st, a))
    return a


def iter_seq(e, st, site, a):
    """the sequence value an iterator yields, or None"""
    n = iter_count(e, st, a)
    if a.op == "agg" and a.a[0] == "derefit":
        a = a.a[2][0]
    if a.op == "agg" and a.a[0] == "seqit":
        it, i = a.a[2]
        if it.a[0] in ("iter", "bytes", "into_iter"):
            src = it.a[1]
            if i is C(0):
                return src
            return slice_val(e, st, src, i, it.a[2])
    if a.op == "iter" and a.a[0] == "rev" and a.a[1].op == "src":
        b = a.a[1].a[0]
        q = iter_seq(e, st, site, b) if b.op == "agg" else None
        if q is not None and q.op == "agg" and q.a[0] == "array":
            return agg("array", 0, tuple(reversed(q.a[2])))
        if q is not None:
            return mk("vec", mk("op", "rev", q), e.vlen(st, q), ty=q.ty)
    if a.op == "agg" and a.a[0] == "mapit":
        inner, clo, body, k, flat = a.a[2]
        if body is not UNIT:
            m = mk("op", "flatmapseq" if flat is C(1) else "mapseq", inner, k, body)
            cn = iter_count(e, st, inner)
            if flat is C(1):
                bl = e.vlen(st, body) if e.is_seq(body) or body.op in ("op",) else None
                if bl is not None and is_c(bl) and cn is not None:
                    return mk("vec", m, mulc(cn, bl.a[0]), ty=None)
                ln = e.fresh(st, site, "fml", "usize")
                st.assume_ge0(sub(C(ISIZE_MAX), ln))
                return mk("vec", m, ln, ty=None)
            if cn is not None:
                return mk("vec", m, cn, ty=None)
    if n is None:
        return None
    return mk("vec", mk("op", "collect", a), n, ty=None)


def seq_arg(e, st, site, a):
    """the sequence an IntoIterator argument yields, or None"""
    if a.op == "iter" or (a.op == "agg" and a.a[0] in ITERS):
        return iter_seq(e, st, site, a)
    v = e.val_deep(st, a)
    return v if e.is_seq(v) else None


@model("std::slice::<impl [T]>::concat", "alloc::slice::<impl [T]>::concat", "core::slice::<impl [T]>::concat")
def sl_concat(e, st, site, t, args):
    v = e.val_deep(st, args[0])
    if v.op == "agg" and v.a[0] == "array":
        xs = [e.val_deep(st, x) for x in v.a[2]]
        if all(e.is_seq(x) for x in xs):
            ln, segs = C(0), []
            for x in xs:
                ln = add(ln, e.vlen(st, x))
                segs += segs_of(e, x)
            return one(st, catval(e, st, site, segs, ln, t["dty"]))
    return None


def run_loop(e, st, site, it, item_ty, step, acc=None):
    """a consuming iterator method as a loop: step(state, element, accumulator) -> [(state, accumulator)];
    the fixpoint is taken over the iterator and the accumulator. List of (state, accumulator)."""
    cid = e.ctx_id(site.ctx)
    pid = (cid, site.fn.path, site.bb, "loop")
    kit, kacc = ("LI",) + pid, ("LA",) + pid
    st.env[kit] = it
    if acc is not None:
        st.env[kacc] = acc
    heads, counts, exits, work = {st.auto: st}, {}, {}, [st.auto]
    while work:
        k = work.pop(0)
        s = heads[k].copy()
        ex = []
        for s2, nv, x in advance(e, s, site, s.env[kit], item_ty):
            if nv is None:
                return None
            if x is None:
                ex.append(s2)
                continue
            s2.env[kit] = nv
            for s3, r in step(s2, x, s2.env.get(kacc)):
                if acc is not None:
                    s3.env[kacc] = r
                e.age(s3, site.fn, cid, site.ctx, site.bb, body={site.bb})
                old = heads.get(s3.auto)
                if old is None:
                    heads[s3.auto] = s3
                    work.append(s3.auto)
                    continue
                c = counts[s3.auto] = counts.get(s3.auto, 0) + 1
                if c > 60:
                    return None
                n = e.join(old, s3, pid, c >= e.widen_after)
                if n is not None:
                    heads[s3.auto] = n
                    if s3.auto not in work:
                        work.append(s3.auto)
        exits[k] = ex
    out = []
    for ex in exits.values():
        for s in ex:
            a = s.env.pop(kacc, None)
            s.env.pop(kit, None)
            out.append((s, a))
    return out


@model("core::slice::<impl [T]>::iter", "core::slice::<impl [T]>::iter_mut", "core::str::<impl str>::bytes", "core::str::<impl str>::chars", "std::collections::VecDeque::iter")
def it_slice(e, st, site, t, args):
    v = e.val_deep(st, args[0])
    nm = norm(t["f"]["fnref"]["fn"]).rsplit("::", 1)[-1]
    n = e.vlen(st, v)
    if nm == "chars":
        return one(st, mk("iter", nm, v, None))
    if nm == "iter_mut":
        # elements may be changed through the iterator
        nv = newvec(e, st, site, "itm", n, v.ty)
        e.setval(st, args[0], nv, site)
        return one(st, mkseq("iter_mut", nv, n))
    return one(st, mkseq(nm, v, n))


@model("std::iter::IntoIterator::into_iter")
def into_iter(e, st, site, t, args):
    a = args[0]
    if a.op == "iter" or (a.op == "agg" and a.a[0] in ITERS):
        return one(st, a)
    ty = t["argtys"][0]
    if base_ty(strip_ref(ty)) in ("std::vec::Vec",) or strip_ref(ty).startswith("["):
        v = e.val_deep(st, a)
        kind = "iter" if ty.startswith("&") and not ty.startswith("&mut") else "iter_mut" if ty.startswith("&mut") else "into_iter"
        if kind == "iter_mut":
            nv = newvec(e, st, site, "itm", e.vlen(st, v), v.ty)
            e.setval(st, a, nv, site)
            v = nv
        return one(st, mkseq(kind, v, e.vlen(st, v)))
    if ty == t["dty"]:
        return one(st, a)
    return one(st, mk("iter", "opaque", a, None))


@model("std::ops::RangeInclusive::new")
def ri_new(e, st, site, t, args):
    return one(st, agg("std::ops::RangeInclusive", 0, (args[0], args[1])))


@model("std::iter::repeat")
def it_repeat(e, st, site, t, args):
    return one(st, mk("iter", "repeat", mk("src", args[0]), None))


@model("std::iter::repeat_n")
def it_repeat_n(e, st, site, t, args):
    return one(st, mkseq("into_iter", mk("vec", mk("fill", args[0]), args[1]), args[1]))


@model("std::iter::Iterator::enumerate")
def it_enum(e, st, site, t, args):
    return one(st, agg("enum", 0, (args[0], C(0))))


def it_adapt(e, st, site, t, args):
    a = args[0]
    n = norm(t["f"]["fnref"]["fn"]).rsplit("::", 1)[-1]
    clo = args[1] if len(args) > 1 else None
    isit = a.op == "iter" or (a.op == "agg" and a.a[0] in ITERS)
    if n in ("map", "flat_map") and isit and clo is not None:
        k = mk("sym", ("mapidx", e.ctx_id(site.ctx), site.fn.path, site.bb), ty="usize")
        body = UNIT
        s = st.copy()
        cn = iter_count(e, st, a)
        if cn is not None:
            s.assume_ge0(sub(sub(cn, k), C(1)))
        x = elem_at(e, s, site, a, k)
        if x is not None:
            r = e.call_closure(s, site, clo, [x])
            if r:
                vs = {e.val_deep(s2, v) for s2, v in r}
                if len(vs) == 1:
                    body = list(vs)[0]
            elif r is None and clo.op == "fn":
                r = run_clo(e, s, site, clo, [x], t)
                vs = {e.val_deep(s2, v) for s2, v in r}
                if len(vs) == 1:
                    body = list(vs)[0]
        else:
            probe_closure(e, st, site, clo, t)
        e.havoc(st, clo, site, "mclo")
        if n == "map" or body is not UNIT:
            return one(st, agg("mapit", 0, (a, clo, body, k, C(1 if n == "flat_map" else 0))))
    if n in ("cloned", "copied") and isit:
        return one(st, agg("derefit", 0, (a,)))
    if n == "filter" and isit:
        r = e.h.on_pred(e, st, site, n, a, clo, args, t)
        if r is not None:
            return r
        cn = iter_count(e, st, a)
        if cn is not None and is_c(cn) and cn.a[0] <= 16:
            # a list that is known element by element
            kept = []
            for i in range(cn.a[0]):
                s = st.copy()
                x = elem_at(e, s, site, a, C(i))
                r = e.call_closure(s, site, clo, [mk("cref", x)]) if x is not None else None
                vs = {v for _, v in r} if r else None
                if vs == {TRUE}:
                    kept.append(x)
                elif vs != {FALSE}:
                    kept = None
                    break
            if kept is not None:
                return one(st, mkseq("into_iter", agg("array", 0, kept), C(len(kept))))
        vs = pred_values(e, st, site, a, clo)
        if vs == {TRUE}:
            return one(st, a)
        if vs == {FALSE}:
            return one(st, mk("iter", n, mk("src", a), C(0)))
    if n in ("take", "skip") and a.op == "agg" and a.a[0] == "seqit":
        it, i = a.a[2]
        src, tot = it.a[1], it.a[2]
        rem = sub(tot, i)
        if it.a[0] in ("iter", "bytes", "into_iter") and st.proves_le(args[1], rem):
            lo, hi = (i, add(i, args[1])) if n == "take" else (add(i, args[1]), tot)
            return one(st, mkseq(it.a[0], slice_val(e, st, src, lo, hi), sub(hi, lo)))
    if n == "take" and a.op == "iter" and a.a[0] == "repeat":
        return one(st, mkseq("into_iter", mk("vec", mk("fill", a.a[1].a[0]), args[1]), args[1]))
    if n == "rev" and isit:
        return one(st, mk("iter", "rev", mk("src", a), iter_count(e, st, a)))
    if n == "chain" and isit:
        q1, q2 = iter_seq(e, st, site, a), seq_arg(e, st, site, args[1])
        if q1 is not None and q2 is not None and q1.op in ("vec", "agg", "slice") and q2.op in ("vec", "agg", "slice"):
            l1, l2 = e.vlen(st, q1), e.vlen(st, q2)
            return one(st, mkseq("into_iter", catval(e, st, site, segs_of(e, q1) + segs_of(e, q2), add(l1, l2), None), add(l1, l2)))
    if n == "zip" and isit and a.op == "agg":
        b = args[1]
        if not (b.op == "iter" or b.op == "agg" and b.a[0] in ITERS):
            r = MODELS["std::iter::IntoIterator::into_iter"](e, st, site, t, [b])
            b = r[0][1] if r and len(r) == 1 else b
        na, nb = iter_count(e, st, a), iter_count(e, st, b) if b.op == "agg" else None
        if na is not None and nb is not None:
            z = mk("sym", ("zipidx", e.ctx_id(site.ctx), site.fn.path, site.bb), ty="usize")
            if elem_at(e, st.copy(), site, a, z) is not None and elem_at(e, st.copy(), site, b, z) is not None:
                return one(st, agg("zipit", 0, (a, b, C(0))))
    cnt = iter_count(e, st, a) if isit else None
    a = generic(e, st, site, a)
    if n in ("map", "inspect"):
        pass
    elif n == "take" and cnt is not None:
        c = mk("op", "min", *sorted((cnt, args[1]), key=lambda x: x.id), ty="usize")
        st.assume_ge0(sub(cnt, c))
        st.assume_ge0(sub(args[1], c))
        cnt = c
    elif n == "take":
        cnt = None
    elif n == "zip":
        b = args[1]
        cb = seq_count(e, st, b)
        if cnt is not None and cb is not None:
            if cnt is cb or (is_c(sub(cnt, cb)) and sub(cnt, cb).a[0] == 0):
                pass
            else:
                c = mk("op", "min", *sorted((cnt, cb), key=lambda x: x.id), ty="usize")
                st.assume_ge0(sub(cnt, c))
                st.assume_ge0(sub(cb, c))
                cnt = c
        else:
            cnt = None
    else:
        cnt2 = None
        if cnt is not None:
            cnt2 = e.fresh(st, site, "cnt", "usize")
            st.assume_ge0(sub(cnt, cnt2))
        cnt = cnt2
    if n in ("map", "filter", "inspect", "filter_map", "take_while", "skip_while", "flat_map") and clo is not None:
        # the closure body is analysed with an arbitrary element
        probe_closure(e, st, site, clo, t)
        e.havoc(st, clo, site, "mclo")
    return one(st, mk("iter", n, mk("src", a, *[x for x in args[1:]]), cnt))


def pred_values(e, st, site, a, clo):
    """possible results of a predicate closure on an arbitrary element of an iterator (None: unknown)"""
    k = mk("sym", ("predidx", e.ctx_id(site.ctx), site.fn.path, site.bb), ty="usize")
    s = st.copy()
    cn = iter_count(e, st, a)
    if cn is not None:
        s.assume_ge0(sub(sub(cn, k), C(1)))
    x = elem_at(e, s, site, a, k)
    if x is None:
        return None
    vals = set()
    for y in choices(x) or [x]:
        r = e.call_closure(s.copy(), site, clo, [mk("cref", y)])
        if r is None:
            return None
        vals |= {v for _, v in r}
    return vals


def probe_closure(e, st, site, clo, t):
    """analyse a closure handed to a lazy adaptor once with unknown arguments (for obligations/events)"""
    c = clo
    if c.op == "agg" and str(c.a[0]).startswith("closure:"):
        f = e.p.fns.get(c.a[0][len("closure:"):])
        if f is None:
            return
        xs = [mk("sym", ("cloarg", f.path, i), ty=f.locals[i][0]) for i in range(2, f.argc + 1)]
        s = st.copy()
        s.auto = st.auto
        e.call_closure(s, site, clo, xs)


for _n in ("map", "filter", "take", "zip", "cloned", "copied", "rev", "skip", "filter_map", "chain", "inspect", "step_by", "take_while", "skip_while", "peekable", "flat_map"):
    MODELS["std::iter::Iterator::" + _n] = it_adapt


def choices(x):
    """alternatives of an element that stands for one of several kinds"""
    if x is None:
        return None
    if x.op == "choice":
        return list(x.a)
    if x.op == "cref" and x.a[0].op == "choice":
        return [mk("cref", y) for y in x.a[0].a]
    return None


def advance(e, st, site, v, item_ty):
    """one next() of iterator value v: list of (state, new iterator value, element or None)"""
    out = []
    for s, nv, x in advance1(e, st, site, v, item_ty):
        alts = choices(x)
        if alts is None:
            out.append((s, nv, x))
            continue
        for i, y in enumerate(alts):
            s2 = s if i == len(alts) - 1 else s.copy()
            e.h.on_elem(e, s2, site, y)
            out.append((s2, nv, y))
    return out


def advance1(e, st, site, v, item_ty):
    if v.op == "agg" and v.a[0] == "std::ops::Range":
        a, b = v.a[2]
        s2 = st.copy()
        out = []
        if st.assume_ge0(sub(sub(b, a), C(1))):
            out.append((st, agg("std::ops::Range", 0, (add(a, C(1)), b)), a))
        if s2.assume_ge0(sub(a, b)):
            out.append((s2, v, None))
        return out
    if v.op == "agg" and v.a[0] == "std::ops::RangeInclusive":
        a, b = v.a[2][0], v.a[2][1]
        s2 = st.copy()
        out = []
        if st.assume_ge0(sub(b, a)):
            out.append((st, agg("std::ops::RangeInclusive", 0, (add(a, C(1)), b)), a))
        if s2.assume_ge0(sub(sub(a, b), C(1))):
            out.append((s2, v, None))
        return out
    if v.op == "agg" and v.a[0] == "seqit":
        it, i = v.a[2]
        n = it.a[2]
        s2 = st.copy()
        out = []
        if st.assume_ge0(sub(sub(n, i), C(1))):
            if it.a[0] in ("iter", "bytes", "into_iter", "chunks_exact"):
                x = seq_elem(e, st, it, i, item_ty)
            elif it.a[0] == "chunks":
                src, k = it.a[1].a
                hi = e.fresh(st, site, "chi", "usize")
                lo = mulc(i, k.a[0])
                st.assume_ge0(sub(e.vlen(st, src), hi))
                st.assume_ge0(sub(hi, add(lo, C(1))))
                st.assume_ge0(sub(add(lo, k), hi))
                x = mk("cref", slice_val(e, st, src, lo, hi))
            else:
                x = iter_elem(e, st, site, it, item_ty)
            out.append((st, agg("seqit", 0, (it, add(i, C(1)))), x))
        # a positional iterator never runs past its end
        if s2.assume_ge0(sub(i, n)) and s2.assume_ge0(sub(n, i)):
            out.append((s2, v, None))
        return out
    if v.op == "agg" and v.a[0] == "enum":
        inner, i = v.a[2]
        g = gen_args("<" + item_ty[1:-1] + ">") if item_ty and item_ty.startswith("(") else [None, None]
        out = []
        for s, ni, x in advance(e, st, site, inner, g[1]):
            if x is None:
                out.append((s, agg("enum", 0, (ni, i)), None))
            else:
                s.assume_ge0(sub(C(ISIZE_MAX - 1), i))
                if inner.op == "iter" and inner.a[2] is not None:
                    s.assume_ge0(sub(sub(inner.a[2], i), C(1)))
                out.append((s, agg("enum", 0, (ni, add(i, C(1)))), agg("tuple", 0, (i, x))))
        return out
    if v.op == "agg" and v.a[0] == "zipit":
        k = v.a[2][2]
        rem = iter_count(e, st, v)
        s2 = st.copy()
        out = []
        if st.assume_ge0(sub(rem, C(1))):
            out.append((st, agg("zipit", 0, v.a[2][:2] + (add(k, C(1)),)), elem_at(e, st, site, v, C(0))))
        if s2.assume_ge0(rem) and s2.assume_ge0(mulc(rem, -1)):
            out.append((s2, v, None))
        return out
    if v.op == "agg" and v.a[0] == "derefit":
        out = []
        for s, ni, x in advance(e, st, site, v.a[2][0], "&" + item_ty if item_ty else None):
            if x is None:
                out.append((s, agg("derefit", 0, (ni,)), None))
            else:
                y = e.val(s, x) if x.op in ("ref", "cref") or (x.ty and x.ty.startswith("&")) else e.fresh(s, site, "drf", item_ty)
                out.append((s, agg("derefit", 0, (ni,)), y))
        return out
    if v.op == "agg" and v.a[0] == "mapit" and v.a[2][4] is C(0):
        out = []
        inner, clo = v.a[2][0], v.a[2][1]
        cty = None
        if clo.op == "agg" and str(clo.a[0]).startswith("closure:"):
            f = e.p.fns.get(clo.a[0][len("closure:"):])
            cty = f.locals[2][0] if f and f.argc >= 2 else None
        elif clo.op == "fn" and clo.a[0] in e.p.fns:
            cty = e.p.fns[clo.a[0]].locals[1][0]
        for s, ni, x in advance(e, st, site, inner, cty):
            nv = agg("mapit", 0, (ni,) + v.a[2][1:])
            if x is None:
                out.append((s, nv, None))
            else:
                r = e.call_closure(s, site, clo, [x])
                if r is None:
                    r = run_clo(e, s, site, clo, [x], {"dty": item_ty or "?"})
                for s2, y in r:
                    out.append((s2, nv, y))
        return out
    s2 = st.copy()
    if v.op == "iter":
        x = iter_elem(e, st, site, v, item_ty)
        cnt = v.a[2]
        if cnt is not None:
            if not st.assume_ge0(sub(cnt, C(1))):
                return [(s2, v, None)]
        return [(st, v, x), (s2, v, None)]
    x = e.fresh(st, site, "it", item_ty)
    return [(st, None, x), (s2, None, None)]


@model("std::iter::Iterator::next")
def it_next(e, st, site, t, args):
    r = args[0]
    v = e.val(st, r)
    n = 0
    while v.op == "ref" and n < 4:
        r, v, n = v, e.val(st, v), n + 1
    item_ty = (gen_args(t["dty"]) or [None])[0]
    out = []
    for s, nv, x in advance(e, st, site, v, item_ty):
        if nv is None:
            e.havoc(s, r, site, "nx")
        elif nv is not v:
            e.setval(s, r, nv, site)
        out.append((s, Some(x) if x is not None else NONE))
    return out


def iter_elem(e, st, site, it, ty, idx=None):
    kind, src = it.a[0], it.a[1]
    x = e.fresh(st, site, "it", strip_ref(ty) if ty and ty.startswith("&") else ty)
    if ty and ty.startswith("&"):
        # a reference to some element
        key = ("it", e.ctx_id(site.ctx), site.fn.path, site.bb)
        if ty.startswith("&mut"):
            st.env[key] = x
            return mk("ref", key, (), 1)
        return mk("cref", x)
    if ty and ty.startswith("("):
        g = gen_args("<" + ty[1:-1] + ">")
        return agg("tuple", 0, [mk("cref", mk("fld", x, -1, i, ty=strip_ref(y))) if y.startswith("&") and not y.startswith("&mut") else mk("fld", x, -1, i, ty=y) for i, y in enumerate(g)])
    while src.op == "src":
        src = src.a[0]
        if src.op == "agg" and src.a[0] == "seqit":
            src = src.a[2][0].a[1]
        elif src.op == "iter":
            src = src.a[1]
    if int_range(ty) and src.op == "agg" and src.a[0] == "array" and src.a[2] and all(q.op == "c" for q in src.a[2]):
        vs = [q.a[0] for q in src.a[2]]
        st.assume_ge0(sub(x, C(min(vs))))
        st.assume_ge0(sub(C(max(vs)), x))
    if int_range(ty) and src.op == "agg" and src.a[0] == "std::ops::Range":
        a, b = src.a[2]
        st.assume_ge0(sub(x, a))
        st.assume_ge0(sub(sub(b, x), C(1)))
    return x


@model("std::iter::Iterator::count", "std::iter::ExactSizeIterator::len")
def it_count(e, st, site, t, args):
    a = args[0] if args[0].op != "ref" else e.val(st, args[0])
    n = iter_count(e, st, a)
    if n is not None:
        return one(st, n)
    return one(st, e.fresh(st, site, "count", "usize"))


@model("std::iter::Iterator::collect")
def it_collect(e, st, site, t, args):
    a = args[0]
    if t["dty"].startswith("std::vec::Vec"):
        q = iter_seq(e, st, site, a)
        if q is not None:
            if q.op == "agg" or q.op == "vec":
                return one(st, q)
            return one(st, mk("vec", q, e.vlen(st, q), ty=t["dty"]))
        n = e.fresh(st, site, "cl", "usize")
        st.assume_ge0(sub(C(ISIZE_MAX), n))
        return one(st, mk("vec", mk("op", "collect", a), n, ty=t["dty"]))
    return one(st, e.fresh(st, site, "coll", t["dty"]))


class NoModel(Exception):
    pass


def clo_item_ty(e, clo, fold):
    c = clo
    if c.op == "agg" and str(c.a[0]).startswith("closure:"):
        f = e.p.fns.get(c.a[0][len("closure:"):])
        i = 3 if fold else 2
        if f and f.argc >= i:
            return f.locals[i][0]
    return None


@model("std::iter::Iterator::find", "std::iter::Iterator::any", "std::iter::Iterator::all", "std::iter::Iterator::position",
       "std::iter::Iterator::max", "std::iter::Iterator::min", "std::iter::Iterator::max_by", "std::iter::Iterator::fold", "std::iter::Iterator::sum",
       "std::iter::Iterator::for_each", "std::iter::Iterator::last", "std::iter::Iterator::nth", "std::iter::Iterator::find_map", "std::iter::Iterator::max_by_key", "std::iter::Iterator::rposition")
def it_consume(e, st, site, t, args):
    n = norm(t["f"]["fnref"]["fn"]).rsplit("::", 1)[-1]
    a = args[0]
    it = e.val(st, a) if a.op == "ref" else a
    cnt = iter_count(e, st, it)
    if len(args) > 1:
        r = e.h.on_pred(e, st, site, n, it, args[1], args, t)
        if r is not None:
            return r
    if n in ("for_each", "fold") and (it.op == "iter" or it.op == "agg" and (it.a[0] in ITERS or it.a[0].startswith("std::ops::Range"))):
        clo = args[-1]
        item = clo_item_ty(e, clo, n == "fold")
        if item is not None:
            def step(s, x, acc):
                r = e.call_closure(s, site, clo, [x] if acc is None else [acc, x])
                if r is None:
                    raise NoModel()
                return r
            try:
                r = run_loop(e, st.copy(), site, it, item, step, args[1] if n == "fold" else None)
            except NoModel:
                r = None
            if r is not None:
                return [(s, UNIT if a is None else a) for s, a in r]
    for x in args[1:]:
        probe_closure(e, st, site, x, t)
        e.havoc(st, x, site, "cclo")
    if n == "position":
        s2 = st.copy()
        i = e.fresh(st, site, "pos", "usize")
        if cnt is not None:
            st.assume_ge0(sub(sub(cnt, i), C(1)))
        return [(st, Some(i)), (s2, NONE)]
    it = generic(e, st, site, it)
    if t["dty"].startswith(OPTION):
        s2 = st.copy()
        ty = gen_args(t["dty"])[0]
        x = iter_elem(e, st, site, it, ty) if it.op == "iter" else e.fresh(st, site, "fnd", ty)
        return [(st, Some(x)), (s2, NONE)]
    return one(st, e.mkret(st, site, t["dty"]))


# --- I/O -----------------------------------------------------------------------------------
# Cursor<T> is agg("cursor", inner, pos)
CUR = "cursor"


@model("std::io::Cursor::new")
def cur_new(e, st, site, t, args):
    return one(st, agg(CUR, 0, (args[0], C(0))))


def as_cursor(e, st, r):
    """(ref-to-cursor, inner, pos) if r refers to a modelled cursor"""
    for _ in range(4):
        v = e.val(st, r)
        if v.op == "agg" and v.a[0] == CUR:
            return r, v.a[2][0], v.a[2][1]
        if v.op in ("ref", "cref"):
            r = v
            continue
        if v.ty and strip_ref(v.ty).startswith("std::io::Cursor<") and not v.ty.startswith("&"):
            inner_ty = gen_args(v.ty)[0]
            inner = mk("fld", v, -1, 0, ty=inner_ty)
            pos = mk("fld", v, -1, 1, ty="u64")
            nv = agg(CUR, 0, (inner, pos))
            e.setval(st, r, nv, None)
            return r, inner, pos
        if v.ty and v.ty.startswith("&"):
            r = v
            continue
        return None
    return None


def set_pos(e, st, r, inner, pos, site):
    e.setval(st, r, agg(CUR, 0, (inner, pos)), site)


@model("std::io::Cursor::position")
def cur_pos(e, st, site, t, args):
    c = as_cursor(e, st, args[0])
    if c is None:
        return None
    return one(st, c[2])


@model("std::io::Cursor::set_position")
def cur_setpos(e, st, site, t, args):
    c = as_cursor(e, st, args[0])
    if c is None:
        return None
    set_pos(e, st, c[0], c[1], args[1], site)
    return one(st, UNIT)


@model("std::io::Cursor::get_ref", "std::io::Cursor::get_mut")
def cur_get(e, st, site, t, args):
    c = as_cursor(e, st, args[0])
    if c is None:
        return None
    r = c[0]
    if r.op == "ref":
        return one(st, mk("ref", r.a[0], r.a[1] + (("f", 0, None),), 1 if norm(t["f"]["fnref"]["fn"]).endswith("get_mut") else 0))
    if norm(t["f"]["fnref"]["fn"]).endswith("get_mut"):
        return one(st, mk("ref", ("D", r), (("f", 0, None),), 1))
    return one(st, mk("cref", c[1]))


@model("std::io::Cursor::into_inner")
def cur_into(e, st, site, t, args):
    v = args[0]
    if v.op == "agg" and v.a[0] == CUR:
        return one(st, v.a[2][0])
    return None


def cur_len(e, st, inner):
    return e.vlen(st, e.val_deep(st, inner))


def io_err(e, st, site):
    if e.h.slices:
        return mk("op", "ioerr", ty="std::io::Error")
    return mk("op", "ioerr", norm_site(site), ty="std::io::Error")


def norm_site(site):
    return (site.fn.path, site.bb)


def content_at(e, st, inner, pos, n, ty):
    """the n bytes at pos of what a cursor works on"""
    v = e.val_deep(st, inner)
    if is_c(n) and n.a[0] <= 16:
        return agg("array", 0, [e.get_elem(v, add(pos, C(i)), "u8") for i in range(n.a[0])])
    return mk("vec", mk("slice", v, pos, add(pos, n)), n, ty=ty)


@model("std::io::Read::read_exact")
def read_exact(e, st, site, t, args):
    buf = e.val_deep(st, args[1])
    n = e.vlen(st, buf)
    c = as_cursor(e, st, args[0])
    s2 = st.copy()
    nv = newvec(e, st, site, "rd", n, buf.ty)
    if is_c(n) and n.a[0] <= 16:
        nv = agg("array", 0, [e.fresh(st, site, ("rdb", i), "u8") for i in range(n.a[0])])
    out = []
    if c is not None:
        r, inner, pos = c
        ln = cur_len(e, st, inner)
        ok = True
        # success with n >= 1 implies pos + n <= len
        if is_c(n) and n.a[0] >= 1 or st.proves_ge0(sub(n, C(1))):
            ok = st.assume_ge0(sub(sub(ln, pos), n))
        if ok:
            if e.h.slices:
                nv = content_at(e, st, inner, pos, n, buf.ty)
            e.setval(st, args[1], nv, site)
            set_pos(e, st, r, inner, add(pos, n), site)
            out.append((st, Ok(UNIT)))
        np = e.fresh(s2, site, "errpos", "u64")
        set_pos(e, s2, r, inner, np, site)
        e.setval(s2, args[1], newvec(e, s2, site, "rde", n, buf.ty), site)
        out.append((s2, Err(io_err(e, s2, site))))
        return out
    for s, r in ((st, Ok(UNIT)), (s2, Err(io_err(e, st, site)))):
        e.havoc(s, args[0], site, "rdr")
        e.setval(s, args[1], nv, site)
        out.append((s, r))
    return out


@model("std::io::Read::read")
def read(e, st, site, t, args):
    buf = e.val_deep(st, args[1])
    n = e.vlen(st, buf)
    c = as_cursor(e, st, args[0])
    s2 = st.copy()
    k = e.fresh(st, site, "nread", "usize")
    st.assume_ge0(sub(n, k))
    nv = newvec(e, st, site, "rd", n, buf.ty)
    if is_c(n) and n.a[0] <= 16:
        nv = agg("array", 0, [e.fresh(st, site, ("rdb", i), "u8") for i in range(n.a[0])])
    e.setval(st, args[1], nv, site)
    if c is not None:
        r, inner, pos = c
        set_pos(e, st, r, inner, add(pos, k), site)
        # pos + k <= max(pos, len): k >= 1 implies pos + k <= len
    else:
        e.havoc(st, args[0], site, "rdr")
        e.havoc(s2, args[0], site, "rdr")
    return [(st, Ok(k)), (s2, Err(io_err(e, st, site)))]


@model("std::io::Read::read_to_end")
def read_to_end(e, st, site, t, args):
    v = e.val(st, args[1])
    ln = e.vlen(st, v)
    k = e.fresh(st, site, "nread", "usize")
    st.assume_ge0(sub(C(ISIZE_MAX), add(ln, k)))
    s2 = st.copy()
    e.setval(st, args[1], newvec(e, st, site, "rte", add(ln, k), v.ty), site)
    c = as_cursor(e, st, args[0])
    if c is not None:
        r, inner, pos = c
        np = e.fresh(st, site, "epos", "u64")
        st.assume_ge0(sub(np, pos))
        set_pos(e, st, r, inner, np, site)
    else:
        e.havoc(st, args[0], site, "rdr")
    e.havoc(s2, args[0], site, "rdr")
    e.setval(s2, args[1], newvec(e, s2, site, "rte2", e.fresh(s2, site, "l2", "usize"), v.ty), site)
    return [(st, Ok(k)), (s2, Err(io_err(e, st, site)))]


@model("std::io::Seek::seek")
def seek(e, st, site, t, args):
    c = as_cursor(e, st, args[0])
    if c is None:
        s2 = st.copy()
        e.havoc(st, args[0], site, "skr")
        e.havoc(s2, args[0], site, "skr")
        return [(st, Ok(e.fresh(st, site, "sk", "u64"))), (s2, Err(io_err(e, st, site)))]
    r, inner, pos = c
    w = args[1]
    s2 = st.copy()
    if w.op == "agg" and w.a[0].endswith("SeekFrom"):
        vs = ["Start", "End", "Current"]
        kind = vs[w.a[1]] if w.a[1] < 3 else None
        off = w.a[2][0]
        if kind == "Start":
            np = off
            set_pos(e, st, r, inner, np, site)
            return one(st, Ok(np))
        if kind == "Current":
            np = add(pos, off)
        else:
            np = add(cur_len(e, st, inner), off)
        out = []
        if st.assume_ge0(np) and st.assume_ge0(sub(C((1 << 64) - 1), np)):
            set_pos(e, st, r, inner, np, site)
            out.append((st, Ok(np)))
        if not (s2.proves_ge0(np) and s2.proves_ge0(sub(C((1 << 64) - 1), np))):
            out.append((s2, Err(io_err(e, s2, site))))
        return out
    np = e.fresh(st, site, "skp", "u64")
    set_pos(e, st, r, inner, np, site)
    return [(st, Ok(np)), (s2, Err(io_err(e, st, site)))]


@model("std::io::Seek::stream_position")
def spos(e, st, site, t, args):
    c = as_cursor(e, st, args[0])
    if c is None:
        s2 = st.copy()
        v = e.val(st, args[0])
        return [(st, Ok(e.fresh(st, site, "pos", "u64"))), (s2, Err(io_err(e, st, site)))]
    return one(st, Ok(c[2]))


@model("std::io::Read::take")
def take(e, st, site, t, args):
    a = args[0]
    return one(st, agg("take", 0, (a, args[1])))


@model("std::io::Write::write_all", "std::io::Write::flush", "std::fs::File::set_len", "std::fs::File::sync_all")
def io_unit(e, st, site, t, args):
    s2 = st.copy()
    c = as_cursor(e, st, args[0]) if "File" not in t["argtys"][0] and "write_all" in t["f"]["fnref"]["fn"] else None
    if c is None and "write_all" in t["f"]["fnref"]["fn"] and strip_ref(t["argtys"][0]) == "std::vec::Vec<u8>":
        # writing to a vector appends and never fails
        v, seg = e.val(st, args[0]), e.val_deep(st, args[1])
        e.h.on_append(e, st, site, args[0], v, seg)
        nl = add(e.vlen(st, v), e.vlen(st, seg))
        st.assume_ge0(sub(C(ISIZE_MAX), nl))
        e.setval(st, args[0], catval(e, st, site, segs_of(e, v) + segs_of(e, seg), nl, v.ty), site)
        return one(st, Ok(UNIT))
    for s, tag in ((st, "o"), (s2, "e")):
        if c is not None:
            r, inner, pos = c
            seg = e.val_deep(s, args[1])
            n = e.vlen(s, seg)
            iv = e.val_deep(s, inner)
            ln = e.vlen(s, iv)
            if tag == "o":
                e.h.on_patch(e, s, site, inner, iv, pos, seg)
            # Cursor<&mut Vec>/Vec grows as needed
            nl = mk("op", "max", *sorted((ln, add(pos, n)), key=lambda x: x.id), ty="usize")
            s.assume_ge0(sub(nl, ln))
            s.assume_ge0(sub(nl, add(pos, n)))
            if s.proves_le(add(pos, n), ln):
                nl = ln
            if tag == "o" and pos is ln and e.is_seq(iv) and e.is_seq(seg):
                nv = catval(e, s, site, segs_of(e, iv) + segs_of(e, seg), add(ln, n), iv.ty)
            else:
                nv = newvec(e, s, site, "cw" + tag, nl, iv.ty)
            if inner.op == "ref":
                e.setval(s, inner, nv, site)
                set_pos(e, s, r, inner, add(pos, n), site)
            elif inner.op in ("vec", "agg"):
                set_pos(e, s, r, nv, add(pos, n), site)
            else:
                e.havoc(s, args[0], site, "wr" + tag)
        else:
            e.havoc(s, args[0], site, "wr" + tag)
    return [(st, Ok(UNIT)), (s2, Err(io_err(e, st, site)))]


@model("core::panicking::panic", "std::rt::panic_fmt", "core::panicking::assert_failed", "core::panicking::panic_fmt", "std::rt::begin_panic", "core::panicking::unreachable_display", "core::panicking::panic_display", "core::option::expect_failed", "core::option::unwrap_failed", "core::result::unwrap_failed", "core::panicking::panic_explicit", "core::panicking::assert_failed_inner", "core::panicking::panic_nounwind", "std::process::abort", "core::panicking::assert_matches_failed")
def panics(e, st, site, t, args):
    e.h.on_oblige(e, st, site, "panic", False, tuple(args))
    return []


@model("core::slice::<impl [T]>::copy_from_slice", "core::slice::<impl [T]>::clone_from_slice")
def copy_from_slice(e, st, site, t, args):
    a, b = e.val_deep(st, args[0]), e.val_deep(st, args[1])
    la, lb = e.vlen(st, a), e.vlen(st, b)
    d = sub(la, lb)
    ok = st.lower(d) == 0 and st.upper(d) == 0
    e.h.on_oblige(e, st, site, "copy_from_slice", ok, (la, lb))
    r = args[0]
    if r.op == "ref" and r.a[1] and r.a[1][-1][0] == "s":
        e.h.on_patch(e, st, site, mk("ref", r.a[0], r.a[1][:-1], 1), e.val(st, mk("ref", r.a[0], r.a[1][:-1], 1)), r.a[1][-1][1], b)
    e.setval(st, args[0], newvec(e, st, site, "cfs", la, a.ty), site)
    return one(st, UNIT)


@model("core::slice::<impl [T]>::split_at", "core::slice::<impl [T]>::chunks", "core::slice::<impl [T]>::chunks_exact", "core::slice::<impl [T]>::windows")
def split_at(e, st, site, t, args):
    v = e.val_deep(st, args[0])
    ln = e.vlen(st, v)
    n = norm(t["f"]["fnref"]["fn"]).rsplit("::", 1)[-1]
    if n == "split_at":
        e.h.on_oblige(e, st, site, "split_at", st.proves_le(args[1], ln), (args[1], ln))
        st.assume_ge0(sub(ln, args[1]))
        return one(st, agg("tuple", 0, (mk("cref", slice_val(e, st, v, C(0), args[1])), mk("cref", slice_val(e, st, v, args[1], ln)))))
    e.h.on_oblige(e, st, site, n, st.proves_ge0(sub(args[1], C(1))), (args[1],))
    if n in ("chunks", "chunks_exact") and is_c(args[1]) and args[1].a[0] > 0:
        k = args[1].a[0]
        cnt = e.binop(st, "Div", ln, args[1], "usize", site)
        if n == "chunks":
            cnt2 = e.fresh(st, site, "nch", "usize")
            st.assume_ge0(sub(mulc(cnt2, k), ln))
            st.assume_ge0(sub(add(ln, C(k - 1)), mulc(cnt2, k)))
            rem = e.binop(st, "Rem", ln, args[1], "usize", site)
            if rem is C(0) or st.upper(rem) == 0:
                cnt2 = cnt
                n = "chunks_exact"
            cnt = cnt2
        return one(st, agg("seqit", 0, (mk("iter", n, mk("src", v, args[1]), cnt), C(0))))
    return one(st, mk("iter", n, mk("src", v, args[1]), None))


@model("std::slice::<impl [T]>::concat")
def concat(e, st, site, t, args):
    v = e.val_deep(st, args[0])
    if v.op == "agg" and v.a[0] == "array":
        tot = C(0)
        for x in v.a[2]:
            tot = add(tot, e.vlen(st, e.val_deep(st, x)))
        segs = []
        for x in v.a[2]:
            segs += segs_of(e, e.val_deep(st, x))
        return one(st, catval(e, st, site, segs, tot, t["dty"]))
    return None


for _n in ("std::slice::<impl [T]>::sort_by_key", "std::slice::<impl [T]>::sort_by", "std::slice::<impl [T]>::sort", "std::slice::<impl [T]>::sort_unstable_by_key", "std::slice::<impl [T]>::sort_unstable_by", "std::slice::<impl [T]>::sort_unstable", "std::slice::<impl [T]>::sort_by_cached_key", "core::slice::<impl [T]>::reverse"):
    def _sort(e, st, site, t, args):
        v = e.val(st, args[0])
        r = e.h.on_pred(e, st, site, norm(t["f"]["fnref"]["fn"]).rsplit("::", 1)[-1], v, args[1] if len(args) > 1 else None, args, t)
        if r is not None:
            return r
        for x in args[1:]:
            probe_closure(e, st, site, x, t)
        e.setval(st, args[0], newvec(e, st, site, "sort", e.vlen(st, v), v.ty), site)
        return one(st, UNIT)
    MODELS[_n] = _sort
