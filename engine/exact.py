"""Exact semantics of collections whose shape is known: a hook for abstract runs over data structures of a definite
shape (so many directories with so many tags) whose payload stays symbolic."""
import functools
import re
from absint import *
from facts import norm
import models as M

ORD = "std::cmp::Ordering"
LESS, EQUAL, GREATER = (agg(ORD, i, ()) for i in range(3))


def place_of(e, st, a):
    """(reference to the collection's place or None, its value)"""
    place, r = None, a
    for _ in range(8):
        if r.op == "ref":
            place = r
            r = e.val(st, r)
        elif r.op == "cref":
            place, r = None, r.a[0]
        elif ("D", r) in st.env:
            place = r
            r = st.env[("D", r)]
        else:
            break
    return place, r


def items_of(e, st, v):
    if v.op == "agg" and v.a[0] == "array":
        return list(v.a[2])
    if v.op == "vec":
        n = v.a[1] if len(v.a) > 1 else None
        if v.a[0].op == "agg" and v.a[0].a[0] == "array":
            return list(v.a[0].a[2])
        if n is not None and is_c(n) and n.a[0] == 0:
            return []
        if v.a[0].op == "cat":
            out = []
            for x in v.a[0].a:
                y = items_of(e, st, x)
                if y is None:
                    return None
                out += y
            return out
        if v.a[0].op == "vec":
            return items_of(e, st, v.a[0])
    return None


def inner(e, st, y):
    """what an item gives when it is iterated over: an iterator, an Option or a Result, a collection or a reference to one"""
    p, w = place_of(e, st, y)
    if w.op != "agg" and w.op != "vec":
        return None
    if w.op == "agg" and w.a[0] == "xit":
        return list(w.a[2])
    if w.op == "agg" and w.a[0] in (OPTION, RESULT):
        out = list(w.a[2]) if w.a[1] == (1 if w.a[0] == OPTION else 0) else []
    else:
        out = items_of(e, st, w)
    if out is not None and y.op in ("ref", "cref"):
        out = [mk("cref", x) for x in out]
    return out


def newlist(items, ty):
    return mk("vec", agg("array", 0, items), C(len(items)), ty=ty)


def xit(items):
    return agg("xit", 0, tuple(items))


def elem_ref(place, k, item, mutable):
    ty = item.ty or (item.a[0] if item.op == "agg" and isinstance(item.a[0], str) else None)
    if place is None:
        return mk("cref", item)
    step = (("i", C(k), ty),)
    if place.op == "ref":
        return mk("ref", place.a[0], tuple(place.a[1]) + step, mutable)
    return mk("ref", ("D", place), step, mutable)


def some(x):
    return agg(OPTION, 1, (x,))


NONE_ = agg(OPTION, 0, ())


class Fork(Exception):
    pass


def call(e, st, site, clo, xs, t):
    r = e.call_closure(st, site, clo, xs)
    if r is None:
        r = item(e, st, clo, xs)
    if r is None:
        raise Fork()
    return r


def item(e, st, f, xs):
    """a function of std passed by name"""
    f = e.val(st, f) if f.op in ("ref", "cref") else f
    if f.op != "fn" or len(xs) != 1:
        return None
    name = str(f.a[-1]) if len(f.a) > 1 else str(f.a[0])
    x = e.val_deep(st, xs[0])
    if x.op in ("ref", "cref") and name.rsplit("::", 1)[-1].startswith("is_"):
        x = e.val_deep(st, e.val(st, x))
    if x.op != "agg" or x.a[0] not in (OPTION, "std::result::Result"):
        return None
    m, full = name.rsplit("::", 1)[-1], x.a[1] == (1 if x.a[0] == OPTION else 0)
    if m in ("ok", "err") and x.a[0] == "std::result::Result":
        return [(st, some(x.a[2][0]) if full == (m == "ok") else NONE_)]
    if m in ("is_ok", "is_some", "is_err", "is_none"):
        return [(st, TRUE if full == (m in ("is_ok", "is_some")) else FALSE)]
    return None


def bools(e, st, v):
    """the states in which a boolean value is true / false"""
    if v is TRUE or v is FALSE:
        return [(st, v is TRUE)]
    out = []
    for b in (True, False):
        s = st.copy()
        if e.assume(s, v, b):
            out.append((s, b))
    return out


def order(e, st, a, b, d=0):
    """-1/0/1 if the order of two values is known"""
    a, b = e.val_deep(st, a), e.val_deep(st, b)
    if a is b:
        return 0
    if is_c(a) and is_c(b) and type(a.a[0]) is type(b.a[0]):
        return (a.a[0] > b.a[0]) - (a.a[0] < b.a[0])
    if a.op == "agg" and b.op == "agg" and a.a[0] == b.a[0] and d < 4:
        if a.a[1] != b.a[1]:
            return (a.a[1] > b.a[1]) - (a.a[1] < b.a[1])
        for x, y in zip(a.a[2], b.a[2]):
            o = order(e, st, x, y, d + 1)
            if o:
                return o
            if o is None:
                return None
        return 0 if len(a.a[2]) == len(b.a[2]) else None
    x = sub(a, b)
    if is_c(x):
        return (x.a[0] > 0) - (x.a[0] < 0)
    return None


VEC = ("std::vec::Vec::", "core::slice::<impl [T]>::", "std::slice::<impl [T]>::", "alloc::slice::<impl [T]>::", "core::array::<impl [T; N]>::", "std::collections::VecDeque::")


class Exact(Hook):
    slices = True

    def on_call(self, e, st, site, name, fr, args, t):
        r = self.before(e, st, site, name, fr, args, t)
        if r is not None:
            return r
        try:
            return self.exact(e, st, site, name, fr, args, t)
        except Fork:
            return None

    def before(self, e, st, site, name, fr, args, t):
        return None

    # ------------------------------------------------------------------
    def exact(self, e, st, site, name, fr, args, t):
        m = name.rsplit("::", 1)[-1]
        tr = fr.get("trait") or ""
        if e.p.targets(t):
            return None
        if tr in ("std::cmp::PartialOrd", "std::cmp::Ord", "std::cmp::PartialEq") or name.startswith("std::cmp::"):
            if len(args) == 2 and m in ("lt", "le", "gt", "ge", "cmp", "partial_cmp", "max", "min", "eq", "ne"):
                o = order(e, st, args[0], args[1])
                if o is None:
                    return None
                if m in ("max", "min"):
                    return [(st, args[1] if (o <= 0) == (m == "max") else args[0])]
                if m == "cmp":
                    return [(st, agg(ORD, o + 1, ()))]
                if m == "partial_cmp":
                    return [(st, some(agg(ORD, o + 1, ())))]
                return [(st, TRUE if {"lt": o < 0, "le": o <= 0, "gt": o > 0, "ge": o >= 0, "eq": o == 0, "ne": o != 0}[m] else FALSE)]
        if name.startswith("std::cmp::Ordering::") and args:
            a = e.val_deep(st, args[0])
            if a.op == "agg" and a.a[0] == ORD:
                o = a.a[1] - 1
                if m == "reverse":
                    return [(st, agg(ORD, 1 - o, ()))]
                if m == "then":
                    return [(st, a if o else e.val_deep(st, args[1]))]
                if m == "then_with":
                    return [(st, a)] if o else call(e, st, site, args[1], [], t)
                if m.startswith("is_"):
                    v = {"is_lt": o < 0, "is_le": o <= 0, "is_gt": o > 0, "is_ge": o >= 0, "is_eq": o == 0, "is_ne": o != 0}.get(m)
                    if v is not None:
                        return [(st, TRUE if v else FALSE)]
            return None
        if name.endswith("RangeInclusive::new") and is_c(args[0]) and is_c(args[1]) and args[1].a[0] - args[0].a[0] < 40:
            return [(st, xit([C(k) for k in range(args[0].a[0], args[1].a[0] + 1)]))]
        if m == "into_iter" and args and args[0].op == "agg" and args[0].a[0] == "std::ops::Range":
            lo, hi = args[0].a[2]
            if is_c(lo) and is_c(hi) and hi.a[0] - lo.a[0] < 40:
                return [(st, xit([C(k) for k in range(lo.a[0], hi.a[0])]))]
        # iterators
        if args:
            a = args[0]
            v = e.val(st, a) if a.op == "ref" else a
            if v.op == "ref":
                a, v = v, e.val(st, v)
            if v.op == "agg" and v.a[0] == "xit":
                return self.iterator(e, st, site, m, a, list(v.a[2]), args, t, fr)
            if tr == "std::iter::Iterator" and v.op == "agg" and isinstance(v.a[0], str) and v.a[0] in e.p.adts and m != "next" and args[0].op == "agg":
                drained = self.drain(e, st, site, v)
                if drained is not None:
                    out = []
                    for s2, items in drained:
                        r = self.iterator(e, s2, site, m, xit(items), items, [xit(items)] + list(args[1:]), t, fr)
                        if r is None:
                            return None
                        out += r
                    return out
        if m == "into_iter" and tr == "std::iter::IntoIterator" and args:
            ty = t["argtys"][0]
            place, v = place_of(e, st, args[0])
            it = items_of(e, st, v)
            if it is None:
                if v.op == "agg" and v.a[0] == OPTION:
                    return [(st, xit(v.a[2] if v.a[1] else ()))]
                return None
            if ty.startswith("&mut"):
                return [(st, xit([elem_ref(place, k, x, 1) for k, x in enumerate(it)]))]
            if ty.startswith("&"):
                return [(st, xit([mk("cref", x) for x in it]))]
            return [(st, xit(it))]
        if m in ("index", "index_mut") and tr in ("std::ops::Index", "std::ops::IndexMut") or m in ("get", "get_mut", "get_unchecked") and name.startswith(VEC):
            place, v = place_of(e, st, args[0])
            it = items_of(e, st, v)
            if args[1].op == "agg" and args[1].a[0] == "xit":       # lo..=hi
                ks = args[1].a[2]
                if ks and all(is_c(x) for x in ks) and ks[-1].a[0] - ks[0].a[0] + 1 == len(ks):
                    args[1] = agg("std::ops::Range", 0, (ks[0], C(ks[-1].a[0] + 1)))
                return None
            if it is None or not is_c(args[1]) or type(args[1].a[0]) is not int:
                return None
            k = args[1].a[0]
            inside = 0 <= k < len(it)
            if m.startswith("get"):
                return [(st, some(elem_ref(place if m == "get_mut" else None, k, it[k], 1)) if inside else NONE_)]
            if not inside:
                e.h.on_oblige(e, st, site, "bounds", False, (args[1], C(len(it))))
                return []
            return [(st, elem_ref(place if m == "index_mut" else None, k, it[k], 1))]
        if name.startswith(VEC) and args:
            place, v = place_of(e, st, args[0])
            it = items_of(e, st, v)
            if it is None:
                return None
            return self.vec(e, st, site, m, place, v, it, args, t)
        return None

    def drain(self, e, st, site, v):
        """everything an iterator type of the program gives"""
        short = v.a[0].split("::")[-1]
        nx = [(k, f) for k, f in e.p.fns.items() if k.startswith("<") and k.endswith("Iterator>::next") and ("::" + short + "<" in k or "::" + short + " " in k)]
        if len(nx) != 1:
            return None
        path, f = nx[0]
        cell = ("cell", site.bb, "it")
        states, out = [], []
        st.env[cell] = v
        states.append((st, []))
        for _ in range(200):
            new = []
            for s, got in states:
                for s2, r in e.inline(path, site.fn, site.ctx, site.bb, s, [mk("ref", cell, (), 1)], site, None) or []:
                    r = e.val(s2, r) if r.op == "ref" else r
                    if r.op != "agg":
                        raise Fork()
                    if r.a[1] == 0:
                        out.append((s2, got))
                    else:
                        new.append((s2, got + [r.a[2][0]]))
            states = new
            if not states:
                return out
        raise Fork()

    # ------------------------------------------------------------------
    def vec(self, e, st, site, m, place, v, it, args, t):
        put = lambda s, xs: e.setval(s, place, newlist(xs, v.ty), site)
        n = len(it)
        if m == "iter":
            return [(st, xit([mk("cref", x) for x in it]))]
        if m == "iter_mut":
            return [(st, xit([elem_ref(place, k, x, 1) for k, x in enumerate(it)]))]
        if m == "len":
            return [(st, C(n))]
        if m == "is_empty":
            return [(st, FALSE if n else TRUE)]
        if m in ("first", "last", "first_mut", "last_mut"):
            if not n:
                return [(st, NONE_)]
            k = 0 if m.startswith("first") else n - 1
            return [(st, some(elem_ref(place if m.endswith("mut") else None, k, it[k], 1)))]
        if m in ("to_vec", "into_vec", "as_slice", "as_ref"):
            return [(st, v)] if m != "as_slice" else None
        if m == "contains":
            x = e.val_deep(st, args[1])
            os = [order(e, st, x, y) for y in it]
            return None if None in os else [(st, TRUE if 0 in os else FALSE)]
        if m in ("partition_point", "binary_search", "binary_search_by", "binary_search_by_key"):
            def one(f, xs):
                r = call(e, st.copy(), site, f, xs, t)
                vs = {e.val_deep(s, y) for s, y in r}
                if len(vs) != 1:
                    raise Fork()
                return vs.pop()
            lo, hi = 0, n
            while lo < hi:
                mid = (lo + hi) // 2
                x = mk("cref", it[mid])
                if m == "partition_point":
                    y = one(args[1], [x])
                    if not is_c(y):
                        raise Fork()
                    if y is TRUE:
                        lo = mid + 1
                    else:
                        hi = mid
                    continue
                if m == "binary_search":
                    o = order(e, st, it[mid], args[1])
                elif m == "binary_search_by":
                    y = one(args[1], [x])
                    o = y.a[1] - 1 if y.op == "agg" and y.a[0] == ORD else None
                else:
                    o = order(e, st, one(args[2], [x]), args[1])
                if o is None:
                    raise Fork()
                if o == 0:
                    if sum(1 for y in it if order(e, st, y, it[mid]) == 0) > 1:
                        raise Fork()
                    return [(st, agg(RESULT, 0, (C(mid),)))]
                if o < 0:
                    lo = mid + 1
                else:
                    hi = mid
            return [(st, C(lo) if m == "partition_point" else agg(RESULT, 1, (C(lo),)))]
        if place is None:
            return None
        if m in ("dedup", "dedup_by_key", "dedup_by"):
            out = []
            for x in it:
                if out:
                    if m == "dedup":
                        o = order(e, st, out[-1], x)
                    elif m == "dedup_by_key":
                        ks = []
                        for y in (out[-1], x):
                            cell = ("cell", site.bb, 9)
                            st.env[cell] = y
                            r = call(e, st.copy(), site, args[1], [mk("ref", cell, (), 1)], t)
                            vs = {e.val_deep(s, z) for s, z in r}
                            if len(vs) != 1:
                                raise Fork()
                            ks.append(vs.pop())
                        o = order(e, st, ks[0], ks[1])
                    else:
                        return None
                    if o is None:
                        raise Fork()
                    if o == 0:
                        continue
                out.append(x)
            put(st, out)
            return [(st, UNIT)]
        if m in ("push", "push_back"):
            put(st, it + [args[1]])
            return [(st, UNIT)]
        if m == "pop":
            if not n:
                return [(st, NONE_)]
            put(st, it[:-1])
            return [(st, some(it[-1]))]
        if m == "clear":
            put(st, [])
            return [(st, UNIT)]
        if m in ("insert", "remove", "swap_remove", "truncate", "split_off"):
            k = args[1]
            if not is_c(k):
                return None
            k = k.a[0]
            if m == "truncate":
                put(st, it[:k])
                return [(st, UNIT)]
            if k > n or (k >= n and m in ("remove", "swap_remove")):
                e.h.on_oblige(e, st, site, m, False, (args[1], C(n)))
                return []
            if m == "insert":
                put(st, it[:k] + [args[2]] + it[k:])
                return [(st, UNIT)]
            if m == "split_off":
                put(st, it[:k])
                return [(st, newlist(it[k:], v.ty))]
            if m == "remove":
                put(st, it[:k] + it[k + 1:])
            else:
                put(st, it[:k] + it[-1:] + it[k + 1:-1] if k < n - 1 else it[:-1])
            return [(st, it[k])]
        if m in ("append", "extend", "extend_from_slice"):
            p2, w = place_of(e, st, args[1])
            more = list(w.a[2]) if w.op == "agg" and w.a[0] == "xit" else items_of(e, st, w)
            if more is None:
                return None
            if m != "append":
                more = [e.val_deep(st, x) if x.op in ("ref", "cref") else x for x in more]
            put(st, it + more)
            if m == "append":
                e.setval(st, p2, newlist([], w.ty), site)
            return [(st, UNIT)]
        if m in ("retain", "retain_mut"):
            states = [(st, [])]
            for k, x in enumerate(it):
                new = []
                for s, kept in states:
                    if m == "retain":
                        r = mk("cref", x)
                    else:
                        cell = ("cell", site.bb, k)
                        s.env[cell] = x
                        r = mk("ref", cell, (), 1)
                    for s2, y in call(e, s, site, args[1], [r], t):
                        for s3, b in bools(e, s2, y):
                            z = s3.env[cell] if m != "retain" else x
                            new.append((s3, kept + [z] if b else list(kept)))
                states = new
            for s, kept in states:
                put(s, kept)
            return [(s, UNIT) for s, _ in states]
        if m in ("sort", "sort_unstable", "sort_by", "sort_unstable_by", "sort_by_key", "sort_unstable_by_key", "sort_by_cached_key"):
            class Diverges(Exception):
                pass

            def one(f, xs):
                r = call(e, st.copy(), site, f, xs, t)
                if not r:
                    raise Diverges()
                vs = {e.val_deep(s, y) for s, y in r}
                if len(vs) != 1:
                    raise Fork()
                return vs.pop()

            def cmp(x, y):
                if m.endswith("key"):
                    o = order(e, st, keys[x], keys[y])
                elif m.endswith("by"):
                    r = one(args[1], [mk("cref", it[x]), mk("cref", it[y])])
                    o = r.a[1] - 1 if r.op == "agg" and r.a[0] == ORD else None
                else:
                    o = order(e, st, it[x], it[y])
                if o is None:
                    raise Fork()
                return o
            try:
                keys = [one(args[1], [mk("cref", x)]) for x in it] if m.endswith("key") and n > 1 else []
                put(st, [it[k] for k in sorted(range(n), key=functools.cmp_to_key(cmp))])
            except Diverges:
                e.h.on_oblige(e, st, site, "sort", False, ())
                return []
            return [(st, UNIT)]
        if m in ("reverse", "swap"):
            xs = list(it)
            if m == "reverse":
                xs.reverse()
            else:
                i, j = args[1], args[2]
                if not (is_c(i) and is_c(j) and i.a[0] < n and j.a[0] < n):
                    return None
                xs[i.a[0]], xs[j.a[0]] = xs[j.a[0]], xs[i.a[0]]
            put(st, xs)
            return [(st, UNIT)]
        if m == "drain":
            r = M.range_bounds(e, st, args[1], C(n))
            if not r or not (is_c(r[0]) and is_c(r[1])):
                return None
            a, b = r[0].a[0], r[1].a[0]
            if not 0 <= a <= b <= n:
                return []
            put(st, it[:a] + it[b:])
            return [(st, xit(it[a:b]))]
        return None

    # ------------------------------------------------------------------
    def iterator(self, e, st, site, m, a, it, args, t, fr):
        back = lambda s, xs: e.setval(s, a, xit(xs), site) if a.op == "ref" else None
        f = args[1] if len(args) > 1 else None
        if m in ("into_iter", "iter", "by_ref", "fuse"):
            return [(st, args[0])]
        if m == "peekable":
            return [(st, xit(it))]
        if m == "peek":
            return [(st, some(mk("cref", it[0])) if it else NONE_)]
        if m == "next":
            back(st, it[1:])
            return [(st, some(it[0]) if it else NONE_)]
        if m == "next_back":
            back(st, it[:-1])
            return [(st, some(it[-1]) if it else NONE_)]
        if m in ("count", "len"):
            return [(st, C(len(it)))]
        if m == "size_hint":
            return None
        if m == "last":
            return [(st, some(it[-1]) if it else NONE_)]
        if m == "nth" and is_c(f):
            k = f.a[0]
            back(st, it[k + 1:])
            return [(st, some(it[k]) if k < len(it) else NONE_)]
        if m == "rev":
            return [(st, xit(it[::-1]))]
        if m == "enumerate":
            return [(st, xit([agg("tuple", 0, (C(k), x)) for k, x in enumerate(it)]))]
        if m in ("cloned", "copied"):
            return [(st, xit([e.val(st, x) for x in it]))]
        if m in ("take", "skip") and is_c(f):
            k = f.a[0]
            return [(st, xit(it[:k] if m == "take" else it[k:]))]
        if m in ("zip", "chain"):
            p2, w = place_of(e, st, f)
            other = list(w.a[2]) if w.op == "agg" and w.a[0] == "xit" else items_of(e, st, w)
            if other is None:
                return None
            if not (w.op == "agg" and w.a[0] == "xit") and t["argtys"][1].startswith("&"):
                other = [mk("cref", x) for x in other]
            if m == "chain":
                return [(st, xit(it + other))]
            return [(st, xit([agg("tuple", 0, p) for p in zip(it, other)]))]
        if m == "collect":
            ty = t["dty"]
            if ty.startswith("std::vec::Vec"):
                return [(st, newlist(it, ty))]
            mm = re.match(r"std::(result::Result|option::Option)<(std::vec::Vec<.*)", ty)
            if mm and it and all(x.op == "agg" and x.a[0] in (OPTION, RESULT) for x in it):
                full = 0 if it[0].a[0] == RESULT else 1
                for x in it:
                    if x.a[1] != full:
                        return [(st, x)]
                return [(st, agg(it[0].a[0], full, (newlist([x.a[2][0] for x in it], None),)))]
            return None
        if m == "flatten":
            out = []
            for x in it:
                ys = inner(e, st, x)
                if ys is None:
                    return None
                out += ys
            return [(st, xit(out))]
        if m in ("map", "for_each", "inspect", "filter", "filter_map", "take_while", "skip_while", "flat_map", "partition"):
            states = [(st, [], [], 0)]
            for x in it:
                new = []
                for s, out, no, done in states:
                    if m == "take_while" and done:
                        new.append((s, out, no, done))
                        continue
                    if m == "skip_while" and done:
                        new.append((s, out + [x], no, done))
                        continue
                    arg = x if m in ("map", "for_each", "filter_map", "flat_map") else mk("cref", x)
                    for s2, y in call(e, s, site, f, [arg], t):
                        if m in ("map",):
                            new.append((s2, out + [y], no, 0))
                        elif m == "for_each":
                            new.append((s2, out, no, 0))
                        elif m == "inspect":
                            new.append((s2, out + [x], no, 0))
                        elif m == "filter_map":
                            if y.op != "agg":
                                raise Fork()
                            new.append((s2, out + list(y.a[2]) if y.a[1] == 1 else out, no, 0))
                        elif m == "flat_map":
                            ys = inner(e, s2, y)
                            if ys is None:
                                raise Fork()
                            new.append((s2, out + ys, no, 0))
                        else:
                            for s3, b in bools(e, s2, y):
                                if m == "filter":
                                    new.append((s3, out + [x] if b else out, no, 0))
                                elif m == "partition":
                                    new.append((s3, out + [x] if b else out, no if b else no + [x], 0))
                                elif m == "take_while":
                                    new.append((s3, out + [x] if b else out, no, 0 if b else 1))
                                else:
                                    new.append((s3, out if b else out + [x], no, 0 if b else 1))
                states = new
            if m == "for_each":
                return [(s, UNIT) for s, _, _, _ in states]
            if m == "partition":
                return [(s, agg("tuple", 0, (newlist(o, None), newlist(n, None)))) for s, o, n, _ in states]
            return [(s, xit(o)) for s, o, _, _ in states]
        if m in ("any", "all", "find", "position", "find_map", "rposition"):
            if m == "rposition":
                return None
            out, states = [], [st]
            for k, x in enumerate(it):
                new = []
                for s in states:
                    arg = mk("cref", x) if m == "find" else x
                    for s2, y in call(e, s, site, f, [arg], t):
                        if m == "find_map":
                            if y.op != "agg":
                                raise Fork()
                            if y.a[1] == 1:
                                e.setval(s2, a, xit(it[k + 1:]), site) if a.op == "ref" else None
                                out.append((s2, y))
                            else:
                                new.append(s2)
                            continue
                        for s3, b in bools(e, s2, y):
                            if b != (m != "all"):
                                new.append(s3)
                                continue
                            if a.op == "ref":
                                e.setval(s3, a, xit(it[k + 1:]), site)
                            out.append((s3, {"any": TRUE, "all": FALSE, "find": some(x), "position": some(C(k))}[m]))
                states = new
            end = {"any": FALSE, "all": TRUE}.get(m, NONE_)
            for s in states:
                back(s, [])
                out.append((s, end))
            return out
        if m in ("max_by_key", "min_by_key", "max_by", "min_by", "max", "min"):
            if not it:
                return [(st, NONE_)]
            keys = []
            if m.endswith("key"):
                for x in it:
                    r = call(e, st.copy(), site, f, [mk("cref", x)], t)
                    vs = {e.val_deep(s, y) for s, y in r}
                    if len(vs) != 1:
                        raise Fork()
                    keys.append(vs.pop())
            best = 0
            for k in range(1, len(it)):
                if m.endswith("_by"):
                    r = call(e, st.copy(), site, f, [mk("cref", it[best]), mk("cref", it[k])], t)
                    vs = {e.val_deep(s, y) for s, y in r}
                    y = vs.pop()
                    if vs or y.op != "agg":
                        raise Fork()
                    o = y.a[1] - 1
                else:
                    o = order(e, st, keys[best], keys[k]) if keys else order(e, st, it[best], it[k])
                if o is None:
                    raise Fork()
                # the last of equal maxima, the first of equal minima
                if (m.startswith("max") and o <= 0) or (m.startswith("min") and o > 0):
                    best = k
            return [(st, some(it[best]))]
        if m in ("fold", "try_fold"):
            if m == "try_fold":
                done, states = [], [(st, args[1])]
                ty = OPTION if t["dty"].startswith(OPTION) else RESULT
                full = 1 if ty == OPTION else 0
                if not t["dty"].startswith(ty):
                    return None
                for x in it:
                    new = []
                    for s, acc in states:
                        for s2, y in call(e, s, site, args[2], [acc, x], t):
                            if y.op != "agg" or y.a[0] != ty:
                                raise Fork()
                            if y.a[1] == full:
                                new.append((s2, y.a[2][0]))
                            else:
                                done.append((s2, y))
                    states = new
                return done + [(s, agg(ty, full, (acc,))) for s, acc in states]
            states = [(st, args[1])]
            for x in it:
                new = []
                for s, acc in states:
                    new += call(e, s, site, args[2], [acc, x], t)
                states = new
            return states
        if m in ("sum", "product"):
            x = C(0)
            if m == "product":
                return None
            for y in it:
                x = add(x, e.val_deep(st, y))
            return [(st, x)]
        raise Fork()
