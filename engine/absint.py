"""Abstract interpreter over the MIR facts.

Domain: per program point a small set of states partitioned by (typestate, shape of live
Result/Option/ControlFlow/bool locals).  A state maps places to Herbrand terms (global value
numbering), carries linear inequality facts over those terms, and an automaton state owned by
the rule.  States are joined at merge points and widened at loop heads; local callees are
analysed in the context of the call site (their MIR is inlined in the analysis).
Nothing is executed; every loop is abstracted by its fixpoint."""
import re, sys
import time
from math import gcd
from facts import norm

sys.setrecursionlimit(20000)

# --------------------------------------------------------------------------- terms
class T:
    __slots__ = ("op", "a", "ty", "id", "syms", "depth")

    def __repr__(self):
        return show(self)


_tab = {}
_EMPTY = frozenset()


def mk(op, *a, ty=None):
    key = (op, a, ty)
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op, t.a, t.ty, t.id = op, a, ty, len(_tab)
        s = None
        d = 0
        for x in _sub(a):
            if x.syms:
                s = x.syms if s is None else (s | x.syms)
            if x.depth > d:
                d = x.depth
        if op == "sym":
            s = frozenset((t,)) if s is None else s | {t}
        t.syms = _EMPTY if op == "choice" else s or _EMPTY  # the symbols of a choice are bound in it
        t.depth = d + 1
        _tab[key] = t
    return t


def _sub(a):
    for x in a:
        if isinstance(x, T):
            yield x
        elif isinstance(x, tuple):
            yield from _sub(x)


def show(t, d=0):
    if not isinstance(t, T):
        return str(t)
    if d > 5:
        return "…"
    if t.op == "c":
        return str(t.a[0])
    if t.op == "str":
        return repr(t.a[0])
    if t.op == "lin":
        return "(" + " + ".join(("%s*" % c if c != 1 else "") + show(x, d + 1) for x, c in t.a[0]) + (" + %d" % t.a[1] if t.a[1] else "") + ")"
    if t.op == "sym":
        return "$" + "/".join(str(x) for x in t.a[0])[:60]
    if t.op == "agg":
        return "%s#%s(%s)" % (str(t.a[0]).split("::")[-1], t.a[1], ", ".join(show(x, d + 1) for x in t.a[2]))
    if t.op == "ref":
        return "&%s%s" % ("mut " if t.a[2] else "", t.a[0])
    return "%s(%s)" % (t.op, ", ".join(show(x, d + 1) for x in t.a))


def C(n):
    return mk("c", int(n))


TRUE, FALSE = C(1), C(0)


def agg(adt, vi, fields=()):
    return mk("agg", adt, vi, tuple(fields))


UNIT = agg("tuple", 0, ())


def is_c(t):
    return t.op == "c"


def _div(a, b):
    if isinstance(a, int) and isinstance(b, int) and a % b == 0:
        return a // b
    from fractions import Fraction
    return Fraction(a) / b


def lin_of(t):
    if t.op == "c":
        return {}, t.a[0]
    if t.op == "lin":
        return dict(t.a[0]), t.a[1]
    return {t: 1}, 0


def mk_lin(d, k):
    d = {t: c for t, c in d.items() if c != 0}
    if not d:
        return C(k)
    if k == 0 and len(d) == 1:
        (t, c), = d.items()
        if c == 1:
            return t
    return mk("lin", tuple(sorted(d.items(), key=lambda x: x[0].id)), k)


def add(a, b, cb=1):
    d, k = lin_of(a)
    e, m = lin_of(b)
    d = dict(d)
    for t, c in e.items():
        d[t] = d.get(t, 0) + cb * c
    return mk_lin(d, k + cb * m)


def sub(a, b):
    return add(a, b, -1)


def mulc(a, c):
    d, k = lin_of(a)
    return mk_lin({t: x * c for t, x in d.items()}, k * c)


_ir = {}
for _n, _b in (("8", 8), ("16", 16), ("32", 32), ("64", 64), ("128", 128), ("size", 64)):
    _ir["u" + _n] = (0, (1 << _b) - 1)
    _ir["i" + _n] = (-(1 << (_b - 1)), (1 << (_b - 1)) - 1)
_ir["bool"] = (0, 1)
_ir["char"] = (0, 0x10FFFF)
ISIZE_MAX = (1 << 63) - 1


def int_range(ty):
    return _ir.get(ty)


def trange(t):
    if t.op == "c":
        return t.a[0], t.a[0]
    if t.op == "len":
        return 0, ISIZE_MAX
    r = _ir.get(t.ty)
    if r:
        return r
    return None, None


# --------------------------------------------------------------------------- types
def strip_ref(ty):
    if ty.startswith("&"):
        s = ty[1:]
        if s.startswith("'"):
            s = s.split(" ", 1)[1]
        if s.startswith("mut "):
            s = s[4:]
        return s
    if ty.startswith("*const ") or ty.startswith("*mut "):
        return ty.split(" ", 1)[1]
    if ty.startswith("std::boxed::Box<"):
        return ty[len("std::boxed::Box<"):-1]
    return ty


def elem_ty(ty):
    ty = ty.strip()
    if ty.startswith("["):
        inner = ty[1:-1]
        d = 0
        for i in range(len(inner)):
            ch = inner[i]
            if ch in "[(<":
                d += 1
            elif ch in "])" or (ch == ">" and inner[i - 1] != "-"):
                d -= 1
            elif ch == ";" and d == 0:
                return inner[:i]
        return inner
    if ty.startswith("std::vec::Vec<"):
        return ty[len("std::vec::Vec<"):-1]
    return "?"


def arr_len(ty):
    if not ty:
        return None
    m = re.match(r"^\[.*; (\d+)\]$", ty)
    return int(m.group(1)) if m else None


def gen_args(ty):
    """split generic args of Foo<A, B>."""
    i = ty.find("<")
    if i < 0 or not ty.endswith(">"):
        return []
    inner = ty[i + 1:-1]
    out, d, cur = [], 0, ""
    for j, ch in enumerate(inner):
        if ch in "<([":
            d += 1
        elif ch in ")]" or (ch == ">" and inner[j - 1] != "-"):
            d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


STD_ENUM = {
    "std::option::Option": ["None", "Some"],
    "std::result::Result": ["Ok", "Err"],
    "std::ops::ControlFlow": ["Continue", "Break"],
    "std::cmp::Ordering": ["Less", "Equal", "Greater"],
    "std::borrow::Cow": ["Borrowed", "Owned"],
    "std::io::ErrorKind": ["NotFound", "PermissionDenied", "ConnectionRefused", "ConnectionReset", "HostUnreachable", "NetworkUnreachable",
                         "ConnectionAborted", "NotConnected", "AddrInUse", "AddrNotAvailable", "NetworkDown", "BrokenPipe", "AlreadyExists",
                         "WouldBlock", "NotADirectory", "IsADirectory", "DirectoryNotEmpty", "ReadOnlyFilesystem", "FilesystemLoop",
                         "StaleNetworkFileHandle", "InvalidInput", "InvalidData", "TimedOut", "WriteZero", "StorageFull", "NotSeekable",
                         "QuotaExceeded", "FileTooLarge", "ResourceBusy", "ExecutableFileBusy", "Deadlock", "CrossesDevices", "TooManyLinks",
                         "InvalidFilename", "ArgumentListTooLong", "Interrupted", "Unsupported", "UnexpectedEof", "OutOfMemory", "InProgress",
                         "TooManyOpenFiles", "InputOutputError", "Other", "Uncategorized"],
    "std::io::SeekFrom": ["Start", "End", "Current"],
}
OPTION, RESULT, CF = "std::option::Option", "std::result::Result", "std::ops::ControlFlow"


def subst(t, m, memo=None):
    """replace symbols by symbols inside a term"""
    if memo is None:
        memo = {}
    if t in m:
        return m[t]
    if not t.syms or not any(x in m for x in t.syms):
        return t
    r = memo.get(t)
    if r is None:
        if t.op == "lin":
            d, k = {}, t.a[1]
            for x, c in t.a[0]:
                e, kk = lin_of(subst(x, m, memo))
                for y, z in e.items():
                    d[y] = d.get(y, 0) + z * c
                k += kk * c
            r = mk_lin(d, k)
        else:
            r = mk(t.op, *[_subst_a(x, m, memo) for x in t.a], ty=t.ty)
        memo[t] = r
    return r


def _subst_a(x, m, memo):
    if isinstance(x, T):
        return subst(x, m, memo)
    if isinstance(x, tuple):
        return tuple(_subst_a(y, m, memo) for y in x)
    return x


def Some(x):
    return agg(OPTION, 1, (x,))


NONE = agg(OPTION, 0, ())


def Ok(x):
    return agg(RESULT, 0, (x,))


def Err(x):
    return agg(RESULT, 1, (x,))


def base_ty(ty):
    i = ty.find("<")
    return ty[:i] if i > 0 else ty


# --------------------------------------------------------------------------- state
class State:
    __slots__ = ("env", "facts", "tr", "auto", "_idx", "_memo", "ne", "_eqs", "_rf")

    def __init__(self):
        self.env = {}
        self.facts = {}
        self.tr = {}
        self.ne = frozenset()
        self.auto = None
        self._idx = None
        self._memo = None
        self._eqs = None
        self._rf = None

    def copy(self):
        s = State()
        s.env = dict(self.env)
        s.facts = dict(self.facts)
        s.tr = dict(self.tr)
        s.ne = self.ne
        s.auto = self.auto
        return s

    def same(self, o):
        return self.env == o.env and self.facts == o.facts and self.tr == o.tr and self.ne == o.ne

    # -- linear facts: key = tuple of (atom, coef), value = greatest known lower bound
    def idx(self):
        if self._idx is None:
            ix = {}
            for key in self.facts:
                for t, c in key:
                    ix.setdefault((t, c > 0), []).append(key)
            self._idx = ix
            self._memo = {}
        return self._idx

    def touch(self):
        self._idx = None
        self._memo = None
        self._eqs = None

    def eqs(self):
        """known equalities, solved: pivot atom -> (linear rest, constant)"""
        if self._eqs is None:
            rows = {}
            done = set()
            for key, b in self.facts.items():
                if key in done:
                    continue
                neg = tuple((t, -c) for t, c in key)
                nb = self.facts.get(neg)
                if nb is None or nb != -b:
                    # a bound that meets the type's own range
                    if len(key) != 1:
                        continue
                    t0, c0 = key[0]
                    lo, hi = trange(t0)
                    x = lo if c0 < 0 else hi
                    if x is None or c0 * x != b:
                        continue
                done.add(neg)
                d, k = self.reduce(dict(key), -b, rows)
                if not d:
                    continue
                piv = max(d, key=lambda t: t.id)
                pc = d.pop(piv)
                r = ({t: _div(-c, pc) for t, c in d.items()}, _div(-k, pc))
                for q, (e, m) in list(rows.items()):
                    if piv in e:
                        e = dict(e)
                        x = e.pop(piv)
                        for t, c in r[0].items():
                            v = e.get(t, 0) + x * c
                            if v == 0:
                                e.pop(t, None)
                            else:
                                e[t] = v
                        rows[q] = (e, m + x * r[1])
                rows[piv] = r
            self._eqs = rows
        return self._eqs

    def rfacts(self):
        """the recorded facts with the known equalities substituted"""
        if self._rf is None or self._rf[0] is not self._eqs:
            rows = self.eqs()
            out = {}
            for key, b in self.facts.items():
                if not any(t in rows for t, _ in key):
                    continue
                d, k = self.reduce(dict(key), -b, rows)
                if not d:
                    continue
                nk = tuple(sorted(d.items(), key=lambda x: x[0].id))
                if nk not in out or out[nk] < -k:
                    out[nk] = -k
            self._rf = (self._eqs, out)
        return self._rf[1]

    def reduce(self, d, k, rows):
        """substitute solved equalities into the linear expression d + k"""
        hit = [t for t in d if t in rows]
        if not hit:
            return d, k
        d = dict(d)
        for t in hit:
            x = d.pop(t)
            e, m = rows[t]
            for u, c in e.items():
                v = d.get(u, 0) + x * c
                if v == 0:
                    d.pop(u, None)
                else:
                    d[u] = v
            k = k + x * m
        return d, k

    def lower(self, term):
        d, k = lin_of(term)
        if not d:
            return k
        rd, rk = self.reduce(d, k, self.eqs())
        if not rd:
            return -((-rk) // 1)
        self.idx()
        key = tuple(sorted(((t.id, c) for t, c in d.items())))
        m = self._memo.get(key)
        if m is None:
            budget = [600]
            m = self._lower(dict(d), 5, budget)
            self._memo[key] = m if m is not None else "none"
        if m == "none" or m is None:
            return None
        # bound is integral
        from math import ceil
        return k + (-((-m.numerator) // m.denominator) if hasattr(m, "numerator") else ceil(m))

    def qlower(self, term):
        """cheap lower bound: equalities, one recorded fact, type ranges"""
        d, k = lin_of(term)
        best = None
        for r, rk in ((d, k), self.reduce(d, k, self.eqs())):
            if not r:
                b = -((-rk) // 1)
                best = b if best is None or b > best else best
                continue
            key = tuple(sorted(r.items(), key=lambda x: x[0].id))
            f = self.facts.get(key)
            if f is None and r is not d or f is None and len(key) <= 4:
                f = self.rfacts().get(key)
            if f is not None:
                b = f + rk
                best = b if best is None or b > best else best
            tot = rk
            for t, c in r.items():
                lo, hi = trange(t)
                f = self.facts.get(((t, 1 if c > 0 else -1),))
                b = lo if c > 0 else hi
                if f is not None:
                    f = f if c > 0 else -f
                    b = f if b is None else (max(b, f) if c > 0 else min(b, f))
                if b is None:
                    tot = None
                    break
                tot += c * b
            if tot is not None:
                b = -((-tot) // 1)
                best = b if best is None or b > best else best
        return best

    def upper(self, term):
        d, k = lin_of(term)
        l = self.lower(mk_lin({t: -c for t, c in d.items()}, -k))
        return None if l is None else -l

    def _lower(self, d, depth, budget):
        from fractions import Fraction
        if not d:
            return 0
        budget[0] -= 1
        best = None
        # plain type bounds
        tot = 0
        for t, c in d.items():
            lo, hi = trange(t)
            b = lo if c > 0 else hi
            if b is None:
                tot = None
                break
            tot += c * b
        best = tot
        if depth <= 0 or budget[0] <= 0:
            return best
        # choose the atom that must be eliminated: fewest candidate facts
        ix = self._idx
        pick, cand = None, None
        for t, c in d.items():
            l = ix.get((t, c > 0), ())
            if not l:
                lo, hi = trange(t)
                b = lo if c > 0 else hi
                if b is None:
                    return best  # cannot be eliminated
                continue
            if pick is None or len(l) < len(cand):
                pick, cand = t, l
        if pick is None:
            return best
        c = d[pick]
        # option 0: type bound for pick
        lo, hi = trange(pick)
        b = lo if c > 0 else hi
        if b is not None and len(d) > 1:
            r = dict(d)
            del r[pick]
            x = self._lower(r, depth - 1, budget)
            if x is not None:
                x = x + c * b
                if best is None or x > best:
                    best = x
        for key in cand:
            if budget[0] <= 0:
                break
            fb = self.facts[key]
            fc = None
            for t, cc in key:
                if t is pick:
                    fc = cc
            m = c // fc if isinstance(c, int) and c % fc == 0 else Fraction(c) / fc
            r = dict(d)
            for t, cc in key:
                nv = r.get(t, 0) - m * cc
                if nv == 0:
                    r.pop(t, None)
                else:
                    r[t] = nv
            if any(len(r) > 7 for _ in (0,)):
                continue
            x = self._lower(r, depth - 1, budget)
            if x is not None:
                x = x + m * fb
                if best is None or x > best:
                    best = x
        return best

    def proves_ge0(self, term):
        l = self.lower(term)
        return l is not None and l >= 0

    def proves_le(self, a, b):
        return self.proves_ge0(sub(b, a))

    def assume_ge0(self, term):
        """False if contradictory."""
        d, k = lin_of(term)
        if not d:
            return k >= 0
        u = self.upper(term)
        if u is not None and u < 0:
            return False
        g = 0
        for c in d.values():
            g = gcd(g, abs(int(c)))
        b = -k
        if g > 1:
            d = {t: c // g for t, c in d.items()}
            b = -((-b) // g)
        key = tuple(sorted(d.items(), key=lambda x: x[0].id))
        if len(key) == 1:
            t, c = key[0]
            lo, hi = trange(t)
            if c == 1 and lo is not None and b <= lo:
                return True
            if c == -1 and hi is not None and b <= -hi:
                return True
        old = self.facts.get(key)
        if old is None or b > old:
            if len(self.facts) > 400:
                return True
            self.facts[key] = b
            self.touch()
        return True

    def assume_eq(self, a, b):
        return self.assume_ge0(sub(a, b)) and self.assume_ge0(sub(b, a))

    def drop_sym(self, s):
        bad = [k for k in self.facts if any(s in t.syms for t, _ in k)]
        for k in bad:
            del self.facts[k]
        if bad:
            self.touch()
        bad = [k for k in self.tr if s in k.syms]
        for k in bad:
            del self.tr[k]
        if self.ne:
            self.ne = frozenset(x for x in self.ne if s not in x[0].syms)


def run_of(v):
    """(sequence, start) if the array v consists of consecutive elements of a sequence"""
    x = v.a[2][0]
    if x.op != "elem":
        return None
    for i, y in enumerate(v.a[2]):
        if y.op != "elem" or y.a[0] is not x.a[0] or sub(y.a[1], add(x.a[1], C(i))) is not C(0):
            return None
    return x.a[0], x.a[1]


class Infeasible(Exception):
    pass


class Budget(Exception):
    pass


# --------------------------------------------------------------------------- engine
class Hook:
    """Rules subclass this."""
    slices = False  # reading from a cursor yields the bytes of its content at its position

    def on_call(self, e, st, site, name, fr, args, t):
        return None

    def on_oblige(self, e, st, site, kind, ok, detail):
        pass

    def on_head(self, e, st, fn, bb):
        """a state reaches the head of a loop"""

    def on_patch(self, e, st, site, target, old, pos, seg):
        """seg is written into the sequence target (value old) at position pos"""

    def on_append(self, e, st, site, target, old, seg):
        pass

    def on_inline_return(self, e, st, site, fn, ret):
        pass

    def on_return(self, e, st, fn, ret):
        pass

    def opaque(self, fn):
        return False

    def on_pred(self, e, st, site, kind, seq, clo, args, t):
        """a predicate-taking collection operation (find, any, filter, retain, ...); may decide its outcomes"""
        return None

    def on_elem(self, e, st, site, x):
        """one kind of a sequence of mixed elements has been taken"""
        pass

    def assume_fits(self, e, st, site, x, frm, to):
        """treat a narrowing of an unsigned value as exact"""
        return False


class Site:
    __slots__ = ("ctx", "fn", "bb", "si")

    def __init__(self, ctx, fn, bb, si=-1):
        self.ctx, self.fn, self.bb, self.si = ctx, fn, bb, si

    def sp(self):
        b = self.fn.blocks[self.bb]
        if self.si >= 0:
            return b["s"][self.si]["sp"]
        return b["t"]["sp"]

    def where(self):
        s = self.sp()
        return "%s:%d" % (s[0], s[1])

    def chain(self):
        return " <- ".join([self.fn.path] + [c[0] for c in reversed(self.ctx)])


DBG = None


class Engine:
    def __init__(self, prog, hook=None, models=None, max_parts=40, inline_depth=14, numeric=True, budget=2000000, widen_after=2, rem_opaque=False, eq_only=False, deadline=None, unroll=0):
        self.p = prog
        self.deadline = time.time() + deadline if deadline else None
        self.recurse = 0  # how often a function may be entered again while it runs
        self.exact = False
        self.unroll = unroll  # keep states apart by the values of their counters, up to this bound
        self.eq_only = eq_only  # loop invariants: affine equalities only
        self.rem_opaque = rem_opaque  # keep remainders as bounded atoms instead of expressing them through quotients
        self.h = hook or Hook()
        import models as M
        self.models = models or M.MODELS
        self.max_parts = max_parts
        self.inline_depth = inline_depth
        self.numeric = numeric
        self.steps = 0
        self.budget = budget
        self.widen_after = widen_after
        self.visited = set()
        self.calls_seen = 0
        self._ctx_ids = {}
        self._ctx_rev = {}

    # ---- ctx interning
    def ctx_id(self, ctx):
        i = self._ctx_ids.get(ctx)
        if i is None:
            i = len(self._ctx_ids)
            self._ctx_ids[ctx] = i
            self._ctx_rev[i] = ctx
        return i

    # ---- symbols
    def fresh(self, st, site, tag, ty):
        t = mk("sym", (self.ctx_id(site.ctx), site.fn.path, site.bb, site.si, tag), ty=ty)
        self._rename(st, t)
        return t

    def _rename(self, st, s):
        hit = False
        for k, v in st.env.items():
            if s in v.syms:
                hit = True
                break
        if hit:
            for k, v in list(st.env.items()):
                if s in v.syms:
                    st.env[k] = mk("sym", ("old", k if not isinstance(k[0], T) else k, s.a[0]), ty=v.ty)
        st.drop_sym(s)
        for k in [k for k in st.env if k[0] == "D" and s in k[1].syms]:
            del st.env[k]

    # ---- places
    def place_ty(self, fn, place):
        ty = fn.locals[place[0]][0]
        for e in place[1:]:
            if e == "*":
                ty = strip_ref(ty)
            elif isinstance(e, list):
                if e[0] == "f":
                    ty = e[3]
                elif e[0] in ("i", "ci"):
                    ty = elem_ty(ty)
        return ty

    def resolve(self, st, fid, fn, place):
        root, proj = (fid, place[0]), ()
        ty = fn.locals[place[0]][0]
        for e in place[1:]:
            if e == "*":
                v = self.read(st, root, proj, ty)
                ty = strip_ref(ty)
                if v.op == "ref":
                    root, proj = v.a[0], v.a[1]
                elif v.op == "cref":
                    root, proj = ("V", v.a[0]), ()
                else:
                    root, proj = ("D", v), ()
            elif e[0] == "f":
                proj = proj + (("f", e[1], e[3]),)
                ty = e[3]
            elif e[0] == "d":
                proj = proj + (("d", e[1]),)
            elif e[0] == "i":
                idx = self.read(st, (fid, e[1]), (), "usize")
                ty = elem_ty(ty)
                proj = proj + (("i", idx, ty),)
            elif e[0] == "ci":
                off = e[1]
                if e[3]:
                    ln = self.vlen(st, self.read(st, root, proj, ty))
                    idx = sub(ln, C(off))
                else:
                    idx = C(off)
                ty = elem_ty(ty)
                proj = proj + (("i", idx, ty),)
            elif e[0] == "ss":
                ln = self.vlen(st, self.read(st, root, proj, ty))
                a = C(e[1])
                b = sub(ln, C(e[2])) if e[3] else C(e[2])
                proj = proj + (("s", a, b),)
            else:
                proj = proj + (("?",),)
        return root, proj, ty

    def root_val(self, st, root, ty=None):
        if root[0] == "V":
            return root[1]
        v = st.env.get(root)
        if v is None:
            if root[0] == "D":
                return mk("deref", root[1], ty=ty)
            v = mk("sym", ("uninit", root), ty=ty)
            st.env[root] = v
        return v

    def read(self, st, root, proj, ty=None):
        rt = ty if not proj else None
        v = self.root_val(st, root, rt)
        vi = -1
        for n, e in enumerate(proj):
            if e[0] == "f":
                v = self.get_field(v, vi, e[1], e[2])
                vi = -1
            elif e[0] == "d":
                vi = e[1]
                if v.op == "agg" and v.a[0] != "tuple" and v.a[1] != vi:
                    raise Infeasible()
            elif e[0] == "i":
                v = self.get_elem(v, e[1], e[2])
            elif e[0] == "s":
                v = mk("vec", mk("slice", v, e[1], e[2]), sub(e[2], e[1]), ty=None)
            elif e[0] == "*b":
                v = mk("deref", v, ty=None)
            else:
                v = mk("proj?", v)
        if v.ty is None and ty is not None and v.op in ("deref", "fld", "elem"):
            v = mk(v.op, *v.a, ty=ty)
        return v

    def get_field(self, v, vi, i, ty):
        if v.op == "agg":
            if vi >= 0 and v.a[1] != vi and v.a[0] not in ("tuple",):
                raise Infeasible()
            if i < len(v.a[2]):
                return v.a[2][i]
        if v.op == "upd":
            base, uvi, ui, val = v.a
            if ui == i:
                return val
            return self.get_field(base, vi, i, ty)
        return mk("fld", v, vi, i, ty=ty)

    def get_elem(self, v, idx, ty):
        if v.op == "agg" and v.a[0] == "array" and is_c(idx) and 0 <= idx.a[0] < len(v.a[2]):
            return v.a[2][idx.a[0]]
        while v.op == "vec":
            c = v.a[0]
            if c.op == "fill":
                return c.a[0]
            if c.op == "slice":
                v, idx = c.a[0], add(c.a[1], idx)
            elif c.op == "cat":
                if is_c(idx) and c.a[0].op == "agg" and c.a[0].a[0] == "array" and 0 <= idx.a[0] < len(c.a[0].a[2]):
                    return c.a[0].a[2][idx.a[0]]
                alts = []
                for x in c.a:
                    if x.op == "vec" and x.a[0].op == "fill":
                        y = x.a[0].a[0]
                        alts += [z for z in (y.a if y.op == "choice" else (y,)) if z not in alts]
                    else:
                        alts = None
                        break
                if alts:
                    return mk("choice", *alts, ty=alts[0].ty) if len(alts) > 1 else alts[0]
                break
            elif c.op in ("sym", "op") or not (c.op in ("deref", "fld", "elem", "agg", "vec")):
                break
            else:
                v = c
            if v.op == "agg" and v.a[0] == "array" and is_c(idx) and 0 <= idx.a[0] < len(v.a[2]):
                return v.a[2][idx.a[0]]
        return mk("elem", v, idx, ty=ty)

    def write(self, st, root, proj, val, site):
        if root[0] == "V":
            return
        if not proj:
            st.env[root] = val
            return
        old = self.root_val(st, root)
        st.env[root] = self.upd(st, old, proj, val, site)

    def upd(self, st, v, proj, val, site, vi=-1):
        if not proj:
            return val
        e = proj[0]
        if e[0] == "d":
            return self.upd(st, v, proj[1:], val, site, e[1])
        if e[0] == "f":
            i = e[1]
            try:
                cur = self.get_field(v, vi, i, e[2])
            except Infeasible:
                cur = mk("sym", ("inf", site.bb), ty=e[2])
            nv = self.upd(st, cur, proj[1:], val, site)
            if v.op == "agg" and i < len(v.a[2]):
                f = list(v.a[2])
                f[i] = nv
                return agg(v.a[0], v.a[1], f)
            base = v
            if v.depth > 30:
                base = mk("sym", ("deep", self.ctx_id(site.ctx), site.fn.path, site.bb, site.si), ty=v.ty)
            # strip an older update of the same field
            chain = []
            b = base
            while b.op == "upd":
                if b.a[2] != i:
                    chain.append((b.a[1], b.a[2], b.a[3]))
                b = b.a[0]
            for c in reversed(chain):
                b = mk("upd", b, c[0], c[1], c[2], ty=base.ty)
            return mk("upd", b, vi, i, nv, ty=base.ty)
        if e[0] in ("i", "s"):
            if e[0] == "i" and v.op == "agg" and v.a[0] == "array" and is_c(e[1]) and 0 <= e[1].a[0] < len(v.a[2]):
                f = list(v.a[2])
                f[e[1].a[0]] = self.upd(st, f[e[1].a[0]], proj[1:], val, site)
                return agg("array", 0, f)
            if e[0] == "i" and v.op == "vec" and v.a[0].op == "agg" and v.a[0].a[0] == "array" and is_c(e[1]) and 0 <= e[1].a[0] < len(v.a[0].a[2]):
                return mk("vec", self.upd(st, v.a[0], proj, val, site), v.a[1], ty=v.ty)
            ln = self.vlen(st, v)
            return mk("vec", self.fresh(st, site, "ew", None), ln, ty=v.ty)
        return self.fresh(st, site, "w?", v.ty)

    # ---- vectors
    def vlen(self, st, v):
        if v.op == "vec":
            return v.a[1]
        if v.op == "agg" and v.a[0] == "array":
            return C(len(v.a[2]))
        if v.op == "str":
            return C(len(v.a[0].encode()))
        n = arr_len(v.ty)
        if n is not None:
            return C(n)
        if v.op == "upd":
            return self.vlen(st, v.a[0])
        return mk("len", v)

    def val(self, st, r, ty=None):
        """value behind a reference term"""
        if r.op == "ref":
            return self.read(st, r.a[0], r.a[1], ty)
        if r.op == "cref":
            return r.a[0]
        v = st.env.get(("D", r))
        if v is not None:
            return v
        return mk("deref", r, ty=ty or (strip_ref(r.ty) if r.ty else None))

    def val_deep(self, st, r):
        """look through nested references"""
        n = 0
        while n < 6:
            n += 1
            if r.op in ("ref", "cref"):
                r = self.val(st, r)
            elif r.ty and r.ty.startswith("&"):
                r = self.val(st, r)
            else:
                return r
        return r

    def setval(self, st, r, v, site):
        if r.op == "ref":
            self.write(st, r.a[0], r.a[1], v, site)
        elif r.op == "cref":
            pass
        else:
            st.env[("D", r)] = v

    def place_of(self, r):
        """ultimate ref term: for &mut &mut T chains return as is"""
        return r

    # ---- operands
    def const(self, o):
        if "fnref" in o:
            return mk("fn", o["fnref"].get("res") or o["fnref"]["fn"], o["fnref"]["fn"])
        if "closure" in o:
            return agg("closure:" + o["closure"], 0, ())
        ty = o["ty"]
        if "v" in o:
            return self.cval(o["v"], ty)
        if ty == "()":
            return UNIT
        if o.get("promoted") is not None or o.get("constdef"):
            return mk("konst", o.get("constdef") or ("promoted", o.get("promoted")), ty=ty)
        return mk("konst", "zst", ty=ty)

    def cval(self, v, ty):
        if ty.startswith("&"):
            inner = strip_ref(ty)
            if inner == "str":
                return mk("cref", mk("str", v)) if isinstance(v, str) else mk("konst", "?", ty=ty)
            if isinstance(v, str) and inner.startswith("&"):
                return mk("cref", self.cval(v, inner))
            return mk("cref", self.cval(v, inner))
        if isinstance(v, int):
            return C(v)
        if isinstance(v, list):
            if ty.startswith("("):
                return agg("tuple", 0, [self.cval(x, t) for x, t in zip(v, gen_args("<" + ty[1:-1] + ">"))])
            et = elem_ty(ty)
            return agg("array", 0, [self.cval(x, et) for x in v])
        if isinstance(v, dict):
            a = v.get("adt")
            if "variant" in v:
                return agg(a, self.variant_index(a, v["variant"]), ())
            ad = self.p.adts.get(a)
            if ad:
                fts = ad["variants"][0]["fields"]
                return agg(a, 0, [self.cval(v[n], t) if n in v else mk("konst", n, ty=t) for n, t in fts])
            return mk("konst", repr(sorted(v.items(), key=str)), ty=ty)
        if isinstance(v, str):
            if ty == "str":
                return mk("str", v)
            try:
                return C(int(v))
            except ValueError:
                return mk("konst", v, ty=ty)
        return mk("konst", str(v), ty=ty)

    def variants(self, adt):
        if adt in self.p.adts:
            return [v["name"] for v in self.p.adts[adt]["variants"]]
        return STD_ENUM.get(adt)

    def variant_index(self, adt, name):
        v = self.variants(adt)
        if v and name in v:
            return v.index(name)
        return -2 - sum(ord(x) << 8 * i for i, x in enumerate(name))

    def discr_val(self, adt, vi):
        if adt in self.p.adts:
            d = self.p.adts[adt]["variants"][vi]["discr"]
            return vi if d is None else d
        if adt == "std::cmp::Ordering":
            return vi - 1
        return vi

    def vi_of_discr(self, adt, val):
        vs = self.variants(adt)
        if vs is None:
            return val
        for i in range(len(vs)):
            if self.discr_val(adt, i) == val:
                return i
        return None

    def op(self, st, fid, fn, o):
        k = o.get("k")
        if k in ("copy", "move"):
            root, proj, ty = self.resolve(st, fid, fn, o["p"])
            return self.read(st, root, proj, ty)
        if k == "const":
            return self.const(o)
        return mk("konst", "rt", ty="bool")

    # ---- rvalues
    def rvalue(self, st, fid, fn, v, pty, site):
        r = v["r"]
        if r == "use":
            return self.op(st, fid, fn, v["o"])
        if r == "ref" or r == "rawptr":
            root, proj, ty = self.resolve(st, fid, fn, v["p"])
            if root[0] == "V" and not proj:
                return mk("cref", root[1])
            if root[0] == "V":
                return mk("cref", self.read(st, root, proj, ty))
            if root[0] == "D" and not proj and root not in st.env and not v.get("mut"):
                return root[1] if root[1].ty and root[1].ty.startswith("&") and not root[1].ty.startswith("&mut") else mk("ref", root, proj, 0)
            return mk("ref", root, proj, v.get("mut", 1 if r == "rawptr" else 0))
        if r == "repeat":
            o = self.op(st, fid, fn, v["o"])
            n = v["n"]
            if n is not None and n <= 64:
                return agg("array", 0, [o] * n)
            return mk("vec", mk("fill", o), C(n) if n is not None else self.fresh(st, site, "n", "usize"))
        if r == "agg":
            ops = [self.op(st, fid, fn, o) for o in v["ops"]]
            k = v["kind"]
            if k == "adt":
                return agg(v["adt"], v["vi"], ops)
            if k == "closure":
                return agg("closure:" + v["closure"], 0, ops)
            if k in ("tuple", "array"):
                return agg(k, 0, ops)
            return mk("op", "agg?", tuple(ops), ty=pty)
        if r == "discr":
            root, proj, ty = self.resolve(st, fid, fn, v["p"])
            x = self.read(st, root, proj, ty)
            adt = v.get("adt")
            if x.op == "agg":
                return C(self.discr_val(x.a[0], x.a[1]))
            if x in st.tr:
                return C(self.discr_val(adt, st.tr[x]))
            return mk("discr", x, adt, ty=pty)
        if r == "cast":
            x = self.op(st, fid, fn, v["o"])
            return self.cast(st, v["kind"], x, v["from"], v["to"], site)
        if r == "bin":
            a = self.op(st, fid, fn, v["a"])
            b = self.op(st, fid, fn, v["b"])
            return self.binop(st, v["op"], a, b, v["ty"], site)
        if r == "un":
            x = self.op(st, fid, fn, v["o"])
            if v["op"] == "Not":
                if v["ty"] == "bool":
                    return self.bnot(x)
                if is_c(x) and int_range(v["ty"]):
                    lo, hi = int_range(v["ty"])
                    return C(hi - x.a[0] if lo == 0 else -x.a[0] - 1)
                return mk("op", "not", x, ty=v["ty"])
            if v["op"] == "Neg":
                if int_range(v["ty"]):
                    return mulc(x, -1)
                return mk("op", "neg", x, ty=v["ty"])
            if v["op"] == "PtrMetadata":
                return self.vlen(st, self.val(st, x, strip_ref(v["ty"])))
            return mk("op", v["op"], x, ty=pty)
        return self.fresh(st, site, "rv", pty)

    def bnot(self, x):
        if is_c(x):
            return C(1 - x.a[0])
        if x.op == "not":
            return x.a[0]
        return mk("not", x, ty="bool")

    def fits(self, st, x, ty):
        r = int_range(ty)
        if r is None:
            return False
        if is_c(x):
            return r[0] <= x.a[0] <= r[1]
        lo = st.lower(x)
        if lo is None or lo < r[0]:
            return False
        hi = st.upper(x)
        return hi is not None and hi <= r[1]

    def cast(self, st, kind, x, frm, to, site):
        if kind.startswith("IntToInt") or (kind.startswith("Transmute") and int_range(to) and int_range(frm)):
            if x.op == "discr" or x.op == "cmp" or x.op == "not":
                pass
            if is_c(x) and int_range(to):
                lo, hi = int_range(to)
                n = x.a[0]
                span = hi - lo + 1
                return C((n - lo) % span + lo)
            if self.fits(st, x, to):
                self.h.on_oblige(self, st, site, "cast", True, (x, frm, to))
                return x
            self.h.on_oblige(self, st, site, "cast", False, (x, frm, to))
            if self.h.assume_fits(self, st, site, x, frm, to):
                st.assume_ge0(sub(C(int_range(to)[1]), x))
                if int_range(frm)[0] < 0:
                    st.assume_ge0(sub(x, C(int_range(to)[0])))
                return x
            t = mk("op", "trunc", x, to, ty=to)
            lo = st.lower(x)
            if lo is not None and lo >= 0 and int_range(to)[0] == 0:
                st.assume_ge0(sub(x, t))
            return t
        if kind.startswith("PointerCoercion"):
            if "ReifyFnPointer" in kind or "ClosureFnPointer" in kind:
                return x
            return x
        if kind.startswith("PtrToPtr") or kind.startswith("Transmute"):
            if x.op == "fld" and x.a[0].op == "fld":
                b = x.a[0].a[0]
                return mk("boxptr", b, ty=to)
            if kind.startswith("PtrToPtr"):
                return x
            return mk("op", "cast", x, to, ty=to)
        return mk("op", "cast", x, to, ty=to)

    def binop(self, st, op, a, b, ty, site):
        base = op.replace("WithOverflow", "").replace("Unchecked", "")
        rng = int_range(ty)
        if base in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            return self.cmp(st, base, a, b, ty)
        if base == "Cmp":
            return mk("op", "cmp3", a, b, ty="std::cmp::Ordering")
        if rng and base in ("Add", "Sub", "Mul"):
            if base == "Add":
                m = add(a, b)
            elif base == "Sub":
                m = sub(a, b)
            elif is_c(a):
                m = mulc(b, a.a[0])
            elif is_c(b):
                m = mulc(a, b.a[0])
            else:
                m = mk("op", "mul", *sorted((a, b), key=lambda x: x.id), ty="i128x")
                la, lb, ua, ub = st.lower(a), st.lower(b), st.upper(a), st.upper(b)
                if None not in (la, lb) and la >= 0 and lb >= 0:
                    st.assume_ge0(m)
                    if ua is not None and ub is not None:
                        st.assume_ge0(sub(C(ua * ub), m))
                    # a*b >= a if b>=1
                    if lb >= 1:
                        st.assume_ge0(sub(m, a))
                    if la >= 1:
                        st.assume_ge0(sub(m, b))
            if "WithOverflow" in op:
                return agg("tuple", 0, (m, mk("ovf", m, ty, ty="bool")))
            if self.fits(st, m, ty):
                return m
            return mk("op", "wrap", m, ty, ty=ty)
        if rng:
            if is_c(a) and is_c(b):
                x, y = a.a[0], b.a[0]
                try:
                    if base == "Div":
                        q = abs(x) // abs(y)
                        return C(q if (x < 0) == (y < 0) else -q)
                    if base == "Rem":
                        q = abs(x) % abs(y)
                        return C(q if x >= 0 else -q)
                    if base == "BitAnd":
                        return C(x & y)
                    if base == "BitOr":
                        return C(x | y)
                    if base == "BitXor":
                        return C(x ^ y)
                    lo, hi = rng
                    if base == "Shl":
                        n = (x << (y % 128))
                        return C((n - lo) % (hi - lo + 1) + lo)
                    if base == "Shr":
                        return C(x >> (y % 128))
                except ZeroDivisionError:
                    pass
            if ty == "bool":
                if base in ("BitAnd", "BitOr") and (is_c(a) or is_c(b)):
                    if is_c(b):
                        a, b = b, a
                    if base == "BitAnd":
                        return b if a.a[0] else FALSE
                    return TRUE if a.a[0] else b
                return mk("op", base, a, b, ty="bool")
            if base in ("Shl", "Shr") and is_c(b) and 0 <= b.a[0] < 64:
                if base == "Shl":
                    m = mulc(a, 1 << b.a[0])
                    if self.fits(st, m, ty):
                        return m
                    return mk("op", "shl", a, b, ty=ty)
                if (st.lower(a) or -1) >= 0 or int_range(ty)[0] == 0:
                    return self.quot(st, a, 1 << b.a[0], ty)
                return mk("op", "shr", a, b, ty=ty)
            la, lb = st.lower(a), st.lower(b)
            if base == "BitAnd" and is_c(a) and not is_c(b):
                a, b, la, lb = b, a, lb, la
            if la is not None and la >= 0 and is_c(b) and b.a[0] > 0 and not (self.rem_opaque and base != "Div"):
                if base == "Rem" or (base == "BitAnd" and (b.a[0] & (b.a[0] + 1)) == 0):
                    n = b.a[0] if base == "Rem" else b.a[0] + 1
                    return sub(a, mulc(self.quot(st, a, n, ty), n))
                if base == "Div":
                    return self.quot(st, a, b.a[0], ty)
            t = mk("op", base.lower(), a, b, ty=ty)
            if la is not None and la >= 0 and lb is not None and lb >= 0:
                if base == "Div":
                    st.assume_ge0(sub(a, t))
                    if is_c(b) and b.a[0] > 0:
                        st.assume_ge0(sub(a, mulc(t, b.a[0])))
                        st.assume_ge0(sub(add(mulc(t, b.a[0]), C(b.a[0] - 1)), a))
                elif base == "Rem":
                    st.assume_ge0(sub(a, t))
                    if lb >= 1:
                        st.assume_ge0(sub(sub(b, t), C(1)))
                elif base == "BitAnd":
                    st.assume_ge0(sub(a, t))
                    st.assume_ge0(sub(b, t))
                elif base in ("BitOr", "BitXor"):
                    ua, ub = st.upper(a), st.upper(b)
                    if ua is not None and ub is not None:
                        n = max(int(ua).bit_length(), int(ub).bit_length())
                        st.assume_ge0(sub(C((1 << n) - 1), t))
                    if base == "BitOr":
                        st.assume_ge0(sub(t, a))
                        st.assume_ge0(sub(t, b))
            return t
        return mk("op", base.lower(), a, b, ty=ty)

    def quot(self, st, a, n, ty):
        """a div n for a >= 0 and a constant n >= 1"""
        if n == 1:
            return a
        d, k = lin_of(a)
        if d and all(c % n == 0 for c in d.values()):
            q = mk_lin({x: c // n for x, c in d.items()}, k // n)
            if st.proves_ge0(q):
                return q
        t = mk("op", "div", a, C(n), ty=ty)
        st.assume_ge0(t)
        st.assume_ge0(sub(a, t))
        st.assume_ge0(sub(a, mulc(t, n)))
        st.assume_ge0(sub(add(mulc(t, n), C(n - 1)), a))
        return t

    def cmp(self, st, op, a, b, ty):
        if int_range(ty) or (a.op in ("c", "lin", "len") and b.op in ("c", "lin", "len")):
            if ty == "bool" and is_c(b) and not is_c(a):
                if op == "Eq":
                    return a if b.a[0] else self.bnot(a)
                if op == "Ne":
                    return self.bnot(a) if b.a[0] else a
            if op == "Ne":
                return self.bnot(self.cmp(st, "Eq", a, b, ty))
            if op == "Gt":
                return self.cmp(st, "Lt", b, a, ty)
            if op == "Ge":
                return self.bnot(self.cmp(st, "Lt", a, b, ty))
            if op == "Le":
                return self.bnot(self.cmp(st, "Lt", b, a, ty))
            d = sub(b, a)
            if op == "Eq":
                if is_c(d):
                    return TRUE if d.a[0] == 0 else FALSE
                return mk("cmp", "eq", d, ty="bool")
            # a < b  <=>  b - a - 1 >= 0
            d = sub(d, C(1))
            if is_c(d):
                return TRUE if d.a[0] >= 0 else FALSE
            return mk("cmp", "ge0", d, ty="bool")
        if op == "Ne":
            return self.bnot(self.eq(st, a, b))
        if op == "Eq":
            return self.eq(st, a, b)
        return mk("op", op, a, b, ty="bool")

    def eq(self, st, a, b):
        """structural equality of two value terms"""
        a = self.val_deep(st, a)
        b = self.val_deep(st, b)
        if a is b:
            return TRUE
        if a.op == "c" and b.op == "c":
            return FALSE
        if a.op == "str" and b.op == "str":
            return FALSE
        if a.op in ("c", "lin", "len") or b.op in ("c", "lin", "len"):
            return self.cmp(st, "Eq", a, b, "i64")
        if a.op == "agg" and b.op == "agg" and not str(a.a[0]).startswith("closure"):
            if a.a[0] == b.a[0] and a.a[1] == b.a[1] and len(a.a[2]) == len(b.a[2]):
                r = [self.eq(st, x, y) for x, y in zip(a.a[2], b.a[2])]
                if all(x is TRUE for x in r):
                    return TRUE
                if any(x is FALSE for x in r):
                    return FALSE
            elif a.a[0] == b.a[0]:
                return FALSE
        if b.op == "agg" and a.op != "agg":
            a, b = b, a
        if a.op == "agg" and not a.a[2] and a.a[0] not in ("tuple", "array"):
            # fieldless variant against an opaque value
            if b in st.tr:
                return TRUE if st.tr[b] == a.a[1] else FALSE
            if (b, a.a[1]) in st.ne:
                return FALSE
            return mk("isvar", b, a.a[0], a.a[1], ty="bool")
        if a.id > b.id and a.op != "agg":
            a, b = b, a
        return mk("op", "eq", a, b, ty="bool")

    # ---- branching on a boolean term
    def assume(self, st, t, truth):
        """refine st in place; False if infeasible"""
        while t.op == "not":
            t = t.a[0]
            truth = not truth
        if t.op == "c":
            return bool(t.a[0]) == truth
        if t in st.tr:
            return st.tr[t] == truth
        if t.op == "cmp":
            k, d = t.a
            if k == "ge0":
                if truth:
                    return st.assume_ge0(d)
                return st.assume_ge0(sub(C(-1), d))
            if truth:
                if (d, "eq0") in st.ne:
                    return False
                return st.assume_ge0(d) and st.assume_ge0(mulc(d, -1))
            st.ne = st.ne | {(d, "eq0"), (mulc(d, -1), "eq0")}
            lo, up = st.lower(d), st.upper(d)
            if lo == 0 and up == 0:
                return False
            if lo == 0:
                return st.assume_ge0(sub(d, C(1)))
            if up == 0:
                return st.assume_ge0(sub(C(-1), d))
            return True
        if t.op == "isvar":
            b, adt, vi = t.a
            if truth:
                if b in st.tr:
                    return st.tr[b] == vi
                st.tr[b] = vi
                return True
            if b in st.tr:
                return st.tr[b] != vi
            st.ne = st.ne | {(b, vi)}
            vs = self.variants(adt)
            if vs:
                left = [i for i in range(len(vs)) if (b, i) not in st.ne]
                if not left:
                    return False
                if len(left) == 1:
                    st.tr[b] = left[0]
            return True
        if t.op == "op" and t.a[0] == "BitAnd" and truth:
            return self.assume(st, t.a[1], True) and self.assume(st, t.a[2], True)
        if t.op == "op" and t.a[0] == "BitOr" and not truth:
            return self.assume(st, t.a[1], False) and self.assume(st, t.a[2], False)
        if t.op == "op" and t.a[0] == "eq" and truth:
            la, lb = t.a[1], t.a[2]
            # equal byte strings have equal length
            if self.is_seq(la) or self.is_seq(lb):
                if not st.assume_eq(self.vlen(st, la), self.vlen(st, lb)):
                    return False
        st.tr[t] = truth
        return True

    def is_seq(self, t):
        return t.op in ("vec", "str") or (t.op == "agg" and t.a[0] == "array") or bool(t.ty and (t.ty.startswith("[") or t.ty.startswith("std::vec::Vec") or t.ty in ("str", "std::string::String")))

    # ---- partition key
    def shape(self, t, d=0):
        if t.op == "agg":
            a = t.a[0]
            if a in (OPTION, RESULT, CF):
                if d < 2 and t.a[2]:
                    return (t.a[1],) + tuple(self.shape(x, d + 1) for x in t.a[2])
                return (t.a[1],)
            if a == "tuple" and d < 2:
                return ("t",) + tuple(self.shape(x, d + 1) for x in t.a[2])
            if a in self.p.adts and self.p.adts[a]["kind"] == "enum" and not t.a[2]:
                return ("e", t.a[1])
        if t.op == "c" and t.ty == "bool":
            return t.a[0]
        return None

    @staticmethod
    def phi_at(x, cid, fn, bb):
        while isinstance(x, tuple) and isinstance(x[0], tuple):
            x = x[0]
        return isinstance(x, tuple) and len(x) >= 3 and x[0] == cid and x[1] == fn.path and x[2] == bb

    def pkey(self, st, fid, fn, live):
        if self.exact:
            # no joins: states that differ in anything alive or reachable stay apart
            return (st.auto, tuple((l, st.env[(fid, l)]) for l in sorted(live) if (fid, l) in st.env),
                    frozenset((r, v) for r, v in st.env.items() if r[0] != fid))
        out = []
        for l in sorted(live):
            if l in fn.dropflags:
                continue
            v = st.env.get((fid, l))
            if v is None:
                continue
            ty = fn.locals[l][0]
            if ty == "bool":
                out.append((l, v.a[0] if v.op == "c" else None))
            elif v.op == "agg":
                s = self.shape(v)
                if s is not None:
                    out.append((l, s))
                if self.unroll and v.a[0] == "xit":
                    out.append((l, "x", len(v.a[2])))
                elif self.unroll and v.a[2] and is_c(v.a[2][0]) and type(v.a[2][0].a[0]) is int:
                    out.append((l, "u", min(v.a[2][0].a[0], self.unroll)))
            elif self.unroll and v.op == "c" and int_range(ty):
                out.append((l, "u", min(v.a[0], self.unroll)))
        return (st.auto, tuple(out))

    # ---- join
    def join(self, A, B, ctxkey, widen):
        """Return None if B is subsumed by A, else the joined state."""
        env = {}
        subst = {}   # phi -> termB  (termA for first-time phis in substA)
        substA = {}
        newphi = False
        for root, a in A.env.items():
            b = B.env.get(root)
            if b is None:
                if root[0] != "D":
                    newphi = True
                    continue
                b = mk("deref", root[1], ty=a.ty or (strip_ref(root[1].ty) if root[1].ty else None))
            if a is b:
                env[root] = a
                continue
            v, n = self.jterm(a, b, (ctxkey, root), substA, subst, A, B)
            newphi = newphi or n
            env[root] = v
        for root, b in B.env.items():
            if root[0] == "D" and root not in A.env:
                a = mk("deref", root[1], ty=b.ty or (strip_ref(root[1].ty) if root[1].ty else None))
                if a is not b:
                    v, n = self.jterm(a, b, (ctxkey, root), substA, subst, A, B)
                    newphi = True
                    env[root] = v
        S = State()
        S.env = env
        S.auto = A.auto
        S.tr = {k: v for k, v in A.tr.items() if B.tr.get(k) == v}
        S.ne = A.ne & B.ne
        changed = newphi or len(S.tr) != len(A.tr) or len(S.ne) != len(A.ne)
        if not self.numeric:
            return S if changed else None

        def sb(key, m):
            d = {}
            k = 0
            for t, c in key:
                r = m.get(t)
                if r is None:
                    d[t] = d.get(t, 0) + c
                else:
                    e, kk = lin_of(r)
                    for x, y in e.items():
                        d[x] = d.get(x, 0) + c * y
                    k += c * kk
            return mk_lin(d, k)

        cand = dict.fromkeys(A.facts)
        phis = [p for p in subst if int_range(p.ty) or p.ty == "len"]
        if not widen:
            for key in list(B.facts):
                cand.setdefault(key)
            # templates around the phis
            fresh = [p for p in phis if p in substA]
            if fresh and len(phis) <= 24 and not self.eq_only:
                others = set(phis)
                for st_, m in ((A, substA), (B, subst)):
                    near = set()
                    for p in phis:
                        for t in lin_of(m.get(p, p))[0]:
                            near.add(t)
                    for key in st_.facts:
                        if len(key) <= 3 and any(t in near for t, _ in key):
                            for t, _ in key:
                                if t not in near:
                                    others.add(t)
                others = list(others)[:24]
                seen_ = set(others)
                for o in self.env_atoms(A):
                    if o not in seen_ and len(others) < 40:
                        seen_.add(o)
                        others.append(o)
                delta = {}
                for p in fresh:
                    dd = sub(subst[p], substA[p])
                    if dd.op == "c" and dd.a[0] != 0:
                        delta[p] = dd.a[0]
                for p in delta:
                    for q in delta:
                        if p.id < q.id and abs(delta[p]) != abs(delta[q]):
                            from math import gcd
                            g = gcd(delta[p], delta[q])
                            x, y = delta[q] // g, -delta[p] // g
                            cand.setdefault(((p, x), (q, y)))
                            cand.setdefault(((p, -x), (q, -y)))
                for p in fresh:
                    cand.setdefault(((p, 1),))
                    cand.setdefault(((p, -1),))
                    for o in others:
                        if o is not p:
                            x, y = sorted((p, o), key=lambda z: z.id)
                            cand.setdefault(((x, 1), (y, -1)))
                            cand.setdefault(((x, -1), (y, 1)))
        if self.eq_only:
            # counters: the guard of the loop bounds the joined value as well
            for p in [p for p in phis if p in substA]:
                dl = sub(subst[p], substA[p])
                if not is_c(dl) or dl.a[0] == 0:
                    continue
                d, _k = lin_of(substA[p])
                if not d and dl.a[0] > 0:
                    # first time round: what the guard demands of the bound, it demands relative to the counter
                    for key, b in B.facts.items():
                        if len(key) > 3 or p in dict(key):
                            continue
                        la = A.facts.get(key)
                        if la is not None and la >= b:
                            continue
                        nk = tuple(sorted(key + ((p, -1),), key=lambda z: z[0].id))
                        cand.setdefault(nk)
                for key in B.facts:
                    if len(key) > 4 or not any(t in d for t, _ in key):
                        continue
                    x = dict(key)
                    t = next(t for t in x if t in d)
                    m = abs(d[t]) // abs(x[t])
                    if m > 1:
                        x = {u: v * m for u, v in x.items()}
                    sg = -1 if any(x.get(t, 0) * c > 0 for t, c in d.items()) else 1
                    for t, c in d.items():
                        x[t] = x.get(t, 0) + sg * c
                    x[p] = x.get(p, 0) - sg
                    nk = tuple(sorted(((t, c) for t, c in x.items() if c), key=lambda z: z[0].id))
                    if nk and len(nk) <= 6:
                        cand.setdefault(nk)
        if not widen or self.eq_only:
            for v in env.values():
                self.range_cands(v, cand, 0)
        facts = {}
        for key, b in self.affine_join(A, B, substA, subst):
            facts[key] = b
            neg = tuple((t, -c) for t, c in key)
            facts[neg] = -b
            cand.pop(key, None)
            cand.pop(neg, None)
        for key in cand:
            ta = sb(key, substA)
            la = A.facts.get(key)
            if la is None:
                la = A.qlower(ta) if self.eq_only else A.lower(ta)
                if la is None or la < -(1 << 33):
                    continue
            tb = sb(key, subst)
            lb = B.qlower(tb) if self.eq_only else B.lower(tb)
            if lb is None or (lb < la and widen and not (self.eq_only and lb >= -8)):
                if lb is not None and widen:
                    # threshold 0/1
                    for th in (1, 0):
                        if th < la and lb >= th:
                            facts[key] = th
                            break
                continue
            b = la if la <= lb else lb
            want = cand[key]
            if want is not None and b > want:
                b = want
            if b < -(1 << 33) and len(key) > 1:
                continue
            if len(key) == 1:
                t, c = key[0]
                lo, hi = trange(t)
                if (c == 1 and lo is not None and b <= lo) or (c == -1 and hi is not None and b <= -hi):
                    continue
            facts[key] = b
        S.facts = facts
        if not changed:
            for k, v in A.facts.items():
                if facts.get(k) != v:
                    changed = True
                    break
        if not changed:
            return None
        return S

    def range_cands(self, v, cand, d):
        """start <= end of the ranges being iterated"""
        if v.op == "agg" and d < 5:
            if v.a[0] == "std::ops::Range" and len(v.a[2]) == 2:
                e, k = lin_of(sub(v.a[2][1], v.a[2][0]))
                if e and len(e) <= 6:
                    cand[tuple(sorted(e.items(), key=lambda x: x[0].id))] = -k
            elif v.a[0] != "array":
                for x in v.a[2]:
                    self.range_cands(x, cand, d + 1)

    def affine_join(self, A, B, substA, subst):
        """Karr's join: the linear equalities over join variables that hold on both sides"""
        rows = []
        for t, (e, k) in A.eqs().items():
            d = {u: -c for u, c in e.items()}
            d[t] = d.get(t, 0) + 1
            rows.append((d, -k))
        for p, a in substA.items():
            d, k = lin_of(a)
            d = {u: -c for u, c in d.items()}
            d[p] = d.get(p, 0) + 1
            rows.append((d, -k))
        if not rows:
            return []
        beqs = B.eqs()
        work = []
        for d, k in rows:
            r, rk = {}, k
            for t, c in d.items():
                x = subst.get(t)
                if x is None:
                    r[t] = r.get(t, 0) + c
                else:
                    e, kk = lin_of(x)
                    for u, m in e.items():
                        r[u] = r.get(u, 0) + c * m
                    rk = rk + c * kk
            r = {t: c for t, c in r.items() if c != 0}
            r, rk = B.reduce(r, rk, beqs)
            r = dict(r)
            if rk != 0:
                r["k"] = rk
            work.append((r, d, k))
        out = []
        # eliminate residuals: combinations of rows whose residual vanishes on the other side
        while work:
            r, d, k = work.pop()
            if not r:
                out.append((d, k))
                continue
            piv = next(iter(sorted(r, key=lambda t: -1 if t == "k" else t.id, reverse=True)))
            pc = r[piv]
            nw = []
            for r2, d2, k2 in work:
                c = r2.get(piv)
                if c:
                    m = _div(-c, pc)
                    r2, d2 = dict(r2), dict(d2)
                    for src, dst in ((r, r2), (d, d2)):
                        for t, x in src.items():
                            v = dst.get(t, 0) + m * x
                            if v == 0:
                                dst.pop(t, None)
                            else:
                                dst[t] = v
                    k2 = k2 + m * k
                nw.append((r2, d2, k2))
            work = nw
        res = []
        for d, k in out:
            if not d or len(d) > 12:
                continue
            den = 1
            for c in list(d.values()) + [k]:
                if not isinstance(c, int):
                    den = den * c.denominator // gcd(den, c.denominator)
            d = {t: int(c * den) for t, c in d.items()}
            k = int(k * den)
            g = 0
            for c in d.values():
                g = gcd(g, abs(c))
            if g > 1 and k % g == 0:
                d = {t: c // g for t, c in d.items()}
                k //= g
            res.append((tuple(sorted(d.items(), key=lambda x: x[0].id)), -k))
        return res

    def env_atoms(self, A):
        """integer atoms that occur as values (iterator ends, lengths, counters) in the environment"""
        out = {}

        def go(v, d):
            if v.op in ("c", "str") or d > 4:
                return
            if v.op == "lin" or v.op == "len" or int_range(v.ty):
                for t in lin_of(v)[0]:
                    out[t] = True
            elif v.op == "agg":
                if v.a[0] != "array":
                    for x in v.a[2]:
                        go(x, d + 1)
            elif v.op == "vec":
                go(v.a[1], d + 1)
            elif v.op == "iter" and v.a[2] is not None:
                go(v.a[2], d + 1)
        for v in A.env.values():
            go(v, 0)
            if len(out) > 60:
                break
        return list(out)

    @staticmethod
    def segs(v):
        """the pieces a sequence value is made of"""
        if v.op == "vec" and v.a[0].op == "cat":
            return list(v.a[0].a)
        if v.op == "agg" and v.a[0] == "array":
            return [agg("array", 0, (x,)) for x in v.a[2]]
        return [v]

    @staticmethod
    def is_zeros(x):
        return (x.op == "vec" and x.a[0].op == "fill" and x.a[0].a[0] is C(0)) or (x.op == "agg" and x.a[0] == "array" and all(y is C(0) for y in x.a[2]))

    @staticmethod
    def own_phi(x, pid):
        return x.op == "sym" and x.a[0][0] == "phi" and x.a[0][1] == (pid, "id")

    def zero_split(self, st, v):
        """(leading pieces, number of zeros at the end)"""
        ps = self.segs(v)
        n = C(0)
        while ps and self.is_zeros(ps[-1]):
            n = add(n, self.vlen(st, ps[-1]))
            ps = ps[:-1]
        return ps, n

    def zero_tail(self, a, b):
        """do two sequences differ in the number of zeros at their end only?"""
        if not (a.op == "vec" or b.op == "vec"):
            return False
        pa, pb = self.segs(a), self.segs(b)
        if not (len(pa) > 1 and self.is_zeros(pa[-1]) or len(pb) > 1 and self.is_zeros(pb[-1])):
            return False
        while pa and self.is_zeros(pa[-1]):
            pa = pa[:-1]
        while pb and self.is_zeros(pb[-1]):
            pb = pb[:-1]
        return bool(pa) and len(pa) == len(pb) and all(x is y or self.same_to(x, y) for x, y in zip(pa, pb))

    @staticmethod
    def same_to(x, y):
        """bytes of two integers of one type"""
        return x.op == y.op == "vec" and x.a[0].op == y.a[0].op == "op" and x.a[0].a[0] == y.a[0].a[0] == "to" and x.a[0].a[1] == y.a[0].a[1] and x.a[1] is y.a[1]

    def jterm(self, a, b, pid, sa, sb, A, B):
        """(joined term, structure-changed?)"""
        if a is b:
            return a, False
        phi_is = a.op == "sym" and a.a[0][0] == "phi" and a.a[0][1] == pid
        if phi_is:
            if int_range(a.ty):
                sb[a] = b if (b.op in ("c", "lin", "len") or int_range(b.ty)) else b
            return a, False
        if a.op == "agg" and b.op == "agg" and a.a[0] == b.a[0] and a.a[1] == b.a[1] and len(a.a[2]) == len(b.a[2]):
            ch = False
            fs = []
            if a.a[0] == "array" and a.a[2] and self.h.slices:
                ra, rb = run_of(a), run_of(b)
                if ra is not None and rb is not None and ra[0] is rb[0]:
                    v, n = self.jterm(ra[1], rb[1], (pid, "run"), sa, sb, A, B)
                    return agg("array", 0, [mk("elem", ra[0], add(v, C(i)), ty=x.ty) for i, x in enumerate(a.a[2])]), n
            for i, (x, y) in enumerate(zip(a.a[2], b.a[2])):
                v, n = self.jterm(x, y, (pid, i), sa, sb, A, B)
                ch = ch or n
                fs.append(v)
            return agg(a.a[0], a.a[1], fs), ch
        if a.op == "op" and b.op == "op" and a.a[0] == b.a[0] == "to" and a.a[1] == b.a[1] and a.ty == b.ty:
            v, n = self.jterm(a.a[2], b.a[2], (pid, "to"), sa, sb, A, B)
            w, n2 = self.jterm(a.a[3], b.a[3], (pid, "en"), sa, sb, A, B)
            return mk("op", "to", a.a[1], v, w, ty=a.ty), n or n2
        if a.op == "op" and b.op == "op" and a.a[0] == b.a[0] == "rd" and a.a[1] == b.a[1] and a.a[2] is b.a[2] and a.a[4] is b.a[4]:
            v, n = self.jterm(a.a[3], b.a[3], (pid, "rd"), sa, sb, A, B)
            return mk("op", "rd", a.a[1], a.a[2], v, a.a[4], ty=a.ty), n
        if a.op == "op" and b.op == "op" and a.a[0] == b.a[0] == "fmt" and a.a[1] is b.a[1]:
            v, n = self.jterm(a.a[2], b.a[2], (pid, "fmt"), sa, sb, A, B)
            return mk("op", "fmt", a.a[1], v, ty=a.ty), n
        if (a.op == "lin" or b.op == "lin") and self.h.slices:
            d = sub(a, b)
            ra = [(x, k) for x, k in lin_of(d)[0].items() if x.op == "op" and x.a[0] == "rd"]
            if len(ra) == 2 and ra[0][1] == -ra[1][1]:
                (x, k), (y, _) = ra
                if not any(z is x for z in lin_of(a)[0]):
                    x, y, k = y, x, -k
                if any(z is y for z in lin_of(b)[0]) and x.a[1] == y.a[1] and x.a[2] is y.a[2] and x.a[4] is y.a[4]:
                    v, n = self.jterm(x, y, (pid, "la"), sa, sb, A, B)
                    w, n2 = self.jterm(sub(a, mulc(x, k)), sub(b, mulc(y, k)), (pid, "lr"), sa, sb, A, B)
                    return add(w, mulc(v, k)), n or n2
        if a.op == "cref" and b.op == "cref":
            v, n = self.jterm(a.a[0], b.a[0], (pid, "cref"), sa, sb, A, B)
            return mk("cref", v), n
        if a.op == "iter" and b.op == "iter" and a.a[0] == b.a[0] and a.a[2] is not None and b.a[2] is not None and a.a[1].op in ("vec", "slice") and b.a[1].op in ("vec", "slice"):
            v, n = self.jterm(a.a[1], b.a[1], (pid, "isrc"), sa, sb, A, B)
            k, n2 = self.jterm(a.a[2], b.a[2], (pid, "icnt"), sa, sb, A, B)
            return mk("iter", a.a[0], v, k), n or n2
        sqa = a.op == "vec" or (a.op == "agg" and a.a[0] == "array") or a.op == "str"
        sqb = b.op == "vec" or (b.op == "agg" and b.a[0] == "array") or b.op == "str"
        lenA = None
        if sqa or sqb or (a.ty and a.ty == b.ty and a.ty.startswith("std::vec::Vec")):
            la, lb = self.vlen(A, a), self.vlen(B, b)
            ln, n = self.jterm(la, lb, (pid, "len"), sa, sb, A, B)
            u = self.fill_kinds(a), self.fill_kinds(b)
            if u[0] is not None and u[1] is not None and (u[0] or u[1]) and (a.op == "vec" or b.op == "vec") and (
                    len(set(u[0] + u[1])) == 1 or not any(is_c(x) for x in u[0] + u[1])):
                ks = list(u[0]) + [x for x in u[1] if x not in u[0]]
                i = mk("fill", mk("choice", *ks, ty=ks[0].ty) if len(ks) > 1 else ks[0])
                n2 = not (a.op == "vec" and a.a[0] is i)
            elif not (a.op == "vec" and self.own_phi(a.a[0], pid)) and self.zero_tail(a, b):
                (pa, za), (pb, zb) = self.zero_split(A, a), self.zero_split(B, b)
                k, n2 = self.jterm(za, zb, (pid, "zt"), sa, sb, A, B)
                tail = mk("vec", mk("fill", C(0)), k)
                pre = C(0)
                for j, x in enumerate(pa):
                    if x is not pb[j]:
                        pa[j], n3 = self.jterm(x, pb[j], (pid, "zp", j), sa, sb, A, B)
                        n2 = n2 or n3
                    pre = add(pre, self.vlen(A, x))
                return mk("vec", mk("cat", *pa, tail), add(pre, k), ty=a.ty or b.ty), n2 or not (a.op == "vec" and a.a[0].op == "cat" and a.a[0].a[-1] is tail)
            elif a.op == "vec" and b.op == "vec" and a.a[0].op == b.a[0].op == "slice" and a.a[0].a[0] is b.a[0].a[0]:
                lo, n2 = self.jterm(a.a[0].a[1], b.a[0].a[1], (pid, "lo"), sa, sb, A, B)
                i = mk("slice", a.a[0].a[0], lo, add(lo, ln))
            elif a.op == "vec":
                i, n2 = self.jterm(a.a[0], b.a[0] if b.op == "vec" else b, (pid, "id"), sa, sb, A, B)
            else:
                i, n2 = mk("sym", ("phi", (pid, "id"))), True
            return mk("vec", i, ln, ty=a.ty or b.ty), n or n2
        ints = ("c", "lin", "len")
        ty = None
        if a.op in ints or int_range(a.ty) or b.op in ints or int_range(b.ty):
            ty = a.ty if int_range(a.ty) else b.ty if int_range(b.ty) else None
            if a.op == "len" or b.op == "len":
                ty = ty or "usize"
            if ty is None:
                ty = "i128"
            # keep bools as bool
            wa, wb = self.wrange(A, a), self.wrange(B, b)
            if ty != "bool":
                los = [x[0] for x in (wa, wb)]
                if None not in los and min(los) >= 0:
                    ty = "u64" if ty in ("i128", "len") else ty
        else:
            ty = a.ty if a.ty == b.ty else (a.ty or b.ty)
        if a.op == "upd" or b.op == "upd":
            # struct values: join the field overlay
            fa, fb = self.updmap(a), self.updmap(b)
            if fa[0] is fb[0]:
                base = fa[0]
                ch = False
                for key in sorted(set(fa[1]) | set(fb[1]), key=str):
                    x = fa[1].get(key) or mk("fld", base, key[0], key[1], ty=None)
                    y = fb[1].get(key) or mk("fld", base, key[0], key[1], ty=None)
                    if key not in fa[1]:
                        ch = True
                    v, n = self.jterm(x, y, (pid, key), sa, sb, A, B)
                    ch = ch or n
                    base = mk("upd", base, key[0], key[1], v, ty=fa[0].ty)
                return base, ch
        p = mk("sym", ("phi", pid), ty=ty)
        if int_range(ty):
            sa[p] = a
            sb[p] = b
        return p, True

    def fill_kinds(self, v):
        """kinds of elements of a sequence that is only known by them (None: more is known)"""
        if v.op == "agg" and v.a[0] == "array":
            if len(set(v.a[2])) > 1 or not all(is_c(x) for x in v.a[2]):
                return None
            return list(v.a[2][:1])
        if v.op != "vec":
            return None
        c = v.a[0]
        out = []
        for x in c.a if c.op == "cat" else (v,):
            if x.op == "agg" and x.a[0] == "array":
                k = self.fill_kinds(x)
                if k is None:
                    return None
                out += [z for z in k if z not in out]
                continue
            if x.op != "vec" or x.a[0].op != "fill":
                return None
            y = x.a[0].a[0]
            for z in y.a if y.op == "choice" else (y,):
                if z not in out:
                    out.append(z)
        return out

    def wrange(self, st, t):
        return st.lower(t), st.upper(t)

    def updmap(self, t):
        m = {}
        while t.op == "upd":
            m.setdefault((t.a[1], t.a[2]), t.a[3])
            t = t.a[0]
        return t, m

    # ---- run one function in a context
    def run(self, fn, ctx, st, args):
        cid = self.ctx_id(ctx)
        fid = "f%d" % cid
        for i, a in enumerate(args):
            st.env[(fid, i + 1)] = a
        self.visited.add(fn.path)
        table = {}
        counts = {}
        outs = {}
        outc = {}
        work = {}
        contrib = {}
        last = {}
        edges = {}
        cur = [None, 0, None]

        def push(bb, s):
            live = fn.live_in[bb]
            for r in [r for r in s.env if r[0] == fid and r[1] not in live and not (r[1] == 0)]:
                del s.env[r]
            if bb in fn.loop_heads:
                # elements taken by an index that the loop changes
                for r in [r for r in s.env if r[0] == "IX"]:
                    if any(x.op == "sym" and x.a[0][0] == "phi" and self.phi_at(x.a[0][1], cid, fn, bb) for x in r[2].syms) or is_c(r[2]):
                        del s.env[r]
                self.h.on_head(self, s, fn, bb)
            k = self.pkey(s, fid, fn, live)
            tb = table.setdefault(bb, {})
            if k not in tb and len(tb) >= self.max_parts:
                k = (s.auto, "merged")
            cur[1] += 1
            if bb not in fn.loop_heads:
                tb.setdefault(k, True)
                src = (cur[0], cur[1])
                contrib.setdefault((bb, k), {})[src] = s
                if cur[2] is not None:
                    cur[2].add((bb, k, src))
                work[(bb, k)] = True
                return
            back = cur[0] is not None and fn.rpo[cur[0][0]] >= fn.rpo[bb]
            old = tb.get(k)
            if old is None:
                if back:
                    self.age(s, fn, cid, ctx, bb)
                tb[k] = s
                work[(bb, k)] = True
                return
            c = counts.get((bb, k), 0)
            n = self.join(old, s, (cid, fn.path, bb, k), c >= self.widen_after)
            if DBG: DBG(self, fn, bb, k, old, s, n)
            if n is not None:
                counts[(bb, k)] = c + 1
                if c > 60:
                    raise Budget("no convergence at %s bb%d" % (fn.path, bb))
                tb[k] = n
                work[(bb, k)] = True

        push(0, st)
        while work:
            bb, k = min(work, key=lambda x: fn.rpo[x[0]])
            del work[(bb, k)]
            if bb in fn.loop_heads:
                s = table[bb][k].copy()
            else:
                cs = contrib.get((bb, k))
                if not cs:
                    table[bb].pop(k, None)
                    last.pop((bb, k), None)
                    s = None
                else:
                    s = None
                    for src in list(cs):
                        x = cs[src]
                        if s is None:
                            s = x
                        else:
                            n = self.join(s, x, (cid, fn.path, bb, k), False)
                            if n is not None:
                                s = n
                    l = last.get((bb, k))
                    if l is not None and l.same(s):
                        continue
                    last[(bb, k)] = s
                    s = s.copy()
            self.steps += 1
            if self.steps > self.budget:
                raise Budget("step budget in %s" % fn.path)
            if self.deadline and time.time() > self.deadline:
                raise Budget("time budget in %s" % fn.path)
            cur[0], cur[1], cur[2] = (bb, k), 0, set()
            for ko in [x for x in outc if x[0] == (bb, k)]:
                del outc[ko]
            if s is not None:
                try:
                    self.block(fn, ctx, cid, fid, bb, s, push, outc, (bb, k))
                except Infeasible:
                    pass
            olde = edges.get((bb, k), ())
            for (b2, k2, src) in olde:
                if (b2, k2, src) not in cur[2]:
                    contrib[(b2, k2)].pop(src, None)
                    work[(b2, k2)] = True
            edges[(bb, k)] = cur[2]
        for (src, key), s2 in outc.items():
            old = outs.get(key)
            if old is None:
                outs[key] = s2
            else:
                n = self.join(old, s2, (cid, fn.path, "ret", key), False)
                if n is not None:
                    outs[key] = n
        res = []
        for (auto, sh), s in outs.items():
            ret = s.env.get((fid, 0), UNIT)
            for r in [r for r in s.env if r[0] == fid]:
                del s.env[r]
            res.append((s, ret))
        return res

    def age(self, st, fn, cid, ctx, head, body=None):
        """a state enters a loop head over the back edge in a new partition: symbols created inside the loop
        denote the previous iteration from here on"""
        if body is None:
            body = fn.loop_body(head)
        mapping = {}

        def inloop(nm):
            # nm: name tuple of a symbol
            if nm[0] == "phi":
                x = nm[1]
                while isinstance(x, tuple) and isinstance(x[0], tuple):
                    x = x[0]
                if isinstance(x, tuple) and len(x) >= 3 and isinstance(x[0], int):
                    return self.ctx_in(x[0], x[2], cid, ctx, fn, body)
                return True
            if nm[0] in ("old", "it"):
                return True
            if isinstance(nm[0], int) and len(nm) >= 3:
                return self.ctx_in(nm[0], nm[2], cid, ctx, fn, body)
            return False

        syms = set()
        for v in st.env.values():
            syms |= v.syms
        for k in st.facts:
            for t, _ in k:
                syms |= t.syms
        for k in st.tr:
            syms |= k.syms
        for k in st.ne:
            syms |= k[0].syms
        for s in syms:
            if s.op == "sym" and inloop(s.a[0]):
                nm = s.a[0]
                if nm[0] == "it":
                    continue
                mapping[s] = mk("sym", ("it", cid, head, nm), ty=s.ty)
        if not mapping:
            return
        memo = {}
        st.env = {(k if k[0] != "D" else ("D", subst(k[1], mapping, memo))): subst(v, mapping, memo) for k, v in st.env.items()}
        nf = {}
        for key, b in st.facts.items():
            d, kk = {}, 0
            for t, c in key:
                e, m = lin_of(subst(t, mapping, memo))
                for x, y in e.items():
                    d[x] = d.get(x, 0) + y * c
                kk += m * c
            d = {x: y for x, y in d.items() if y}
            if d:
                nk = tuple(sorted(d.items(), key=lambda x: x[0].id))
                nf[nk] = max(nf.get(nk, b - kk), b - kk)
        st.facts = nf
        st.tr = {subst(k, mapping, memo): v for k, v in st.tr.items()}
        st.ne = frozenset((subst(k[0], mapping, memo),) + tuple(k[1:]) for k in st.ne)
        st.touch()

    def ctx_in(self, xid, xbb, cid, ctx, fn, body):
        if xid == cid:
            return xbb in body or not isinstance(xbb, int)
        x = self._ctx_rev.get(xid)
        if x is None or len(x) <= len(ctx) or x[:len(ctx)] != ctx:
            return False
        return x[len(ctx)][1] in body

    def block(self, fn, ctx, cid, fid, bb, st, push, outs, me):
        b = fn.blocks[bb]
        dead = b.get("sd") or ()
        di = 0
        for si, s in enumerate(b["s"]):
            while di < len(dead) and dead[di][0] <= si:
                st.env.pop((fid, dead[di][1]), None)
                di += 1
            site = Site(ctx, fn, bb, si)
            if "setdiscr" in s:
                root, proj, ty = self.resolve(st, fid, fn, s["setdiscr"])
                self.write(st, root, proj, self.fresh(st, site, "sd", ty), site)
                continue
            v = self.rvalue(st, fid, fn, s["v"], s["pty"], site)
            p = s["p"]
            if len(p) == 1:
                st.env[(fid, p[0])] = v
            else:
                root, proj, ty = self.resolve(st, fid, fn, p)
                self.write(st, root, proj, v, site)
        for _, l in dead[di:]:
            st.env.pop((fid, l), None)
        t = b["t"]
        k = t["t"]
        if k == "goto" or k == "drop":
            push(t["to"], st)
            return
        if k == "return":
            ret = st.env.get((fid, 0), UNIT)
            for s2, r2 in self.h_return(fn, ctx, st, ret):
                key = (s2.auto, self.shape(r2))
                s2.env[(fid, 0)] = r2
                for r in [r for r in s2.env if r[0] == fid and r[1] != 0]:
                    del s2.env[r]
                outs[(me, key)] = s2
            return
        if k == "switch":
            self.switch(fn, fid, bb, st, t, push)
            return
        if k == "assert":
            site = Site(ctx, fn, bb)
            self.assert_(fn, fid, st, t, site)
            push(t["to"], st)
            return
        if k == "call":
            site = Site(ctx, fn, bb)
            self.calls_seen += 1
            for s2, ret in self.call(fn, ctx, fid, bb, st, t, site):
                if t["to"] is None:
                    continue
                d = t["d"]
                if len(d) == 1:
                    s2.env[(fid, d[0])] = ret
                else:
                    root, proj, ty = self.resolve(s2, fid, fn, d)
                    self.write(s2, root, proj, ret, site)
                push(t["to"], s2)
            return
        if k == "other":
            for x in t.get("succ", []):
                push(x, st.copy())

    def h_return(self, fn, ctx, st, ret):
        r = self.h.on_return(self, st, fn, ret) if not ctx else None
        return [(st, ret)]

    def is_unreach(self, fn, bb):
        b = fn.blocks[bb]
        return not b["s"] and b["t"]["t"] == "unreachable"

    def switch(self, fn, fid, bb, st, t, push):
        x = self.op(st, fid, fn, t["o"])
        arms = t["arms"]
        els = t["else"]
        if is_c(x):
            for v, to in arms:
                if v == x.a[0]:
                    push(to, st)
                    return
            push(els, st)
            return
        if t["ty"] == "bool":
            # arms: [[0, F]], else T
            for truth, to in ((False, arms[0][1]), (True, els)) if arms and arms[0][0] == 0 else ((True, arms[0][1]), (False, els)):
                s = st.copy()
                if self.assume(s, x, truth):
                    push(to, s)
            return
        if x.op == "discr":
            b, adt = x.a
            vs = self.variants(adt)
            seen = set()
            for v, to in arms:
                vi = self.vi_of_discr(adt, v)
                seen.add(vi)
                if (b, vi) in st.ne or (b in st.tr and st.tr[b] != vi):
                    continue
                s = st.copy()
                s.tr[b] = vi
                self.on_variant(s, b, adt, vi)
                push(to, s)
            if not self.is_unreach(fn, els):
                s = st.copy()
                if vs:
                    left = [i for i in range(len(vs)) if i not in seen and (b, i) not in st.ne]
                    if b in st.tr:
                        left = [i for i in left if i == st.tr[b]]
                    if not left:
                        return
                    if len(left) == 1:
                        s.tr[b] = left[0]
                        self.on_variant(s, b, adt, left[0])
                    else:
                        s.ne = s.ne | {(b, i) for i in seen if i is not None}
                push(els, s)
            return
        # integer switch
        for v, to in arms:
            s = st.copy()
            if (sub(x, C(v)), "eq0") in s.ne:
                continue
            if x.op in ("sym", "deref", "fld", "elem", "op", "len", "lin"):
                if not s.assume_eq(x, C(v)):
                    continue
                self.bind_const(s, x, v)
            push(to, s)
        if not self.is_unreach(fn, els):
            s = st.copy()
            s.ne = s.ne | {(sub(x, C(v)), "eq0") for v, _ in arms}
            lo = s.lower(x)
            vals = sorted(v for v, _ in arms)
            for v in vals:
                if lo is not None and v == lo:
                    lo += 1
            if lo is not None:
                if not s.assume_ge0(sub(x, C(lo))):
                    return
            hi = s.upper(x)
            for v in reversed(vals):
                if hi is not None and v == hi:
                    hi -= 1
            if hi is not None:
                if not s.assume_ge0(sub(C(hi), x)):
                    return
            push(els, s)

    def on_variant(self, st, b, adt, vi):
        pass

    def bind_const(self, st, x, v):
        """x is known to be the constant v: replace exact occurrences in the environment"""
        if x.op in ("sym", "deref", "fld", "elem"):
            c = C(v)
            for r, t in list(st.env.items()):
                if t is x:
                    st.env[r] = c

    # ---- assertions
    def assert_(self, fn, fid, st, t, site):
        kind = t["kind"]
        cond = self.op(st, fid, fn, t["o"])
        exp = bool(t["exp"])
        if kind.startswith("Misaligned") or kind.startswith("NullPointer"):
            return
        ops = [self.op(st, fid, fn, o) for o in t["ops"]]
        if kind == "bounds":
            ln, ix = ops
            ok = st.proves_ge0(sub(sub(ln, ix), C(1)))
            self.h.on_oblige(self, st, site, "bounds", ok, (ix, ln))
            if not st.assume_ge0(sub(sub(ln, ix), C(1))):
                raise Infeasible()
            st.assume_ge0(ix)
            return
        if cond.op == "ovf":
            m, ty = cond.a
            lo, hi = int_range(ty)
            ok = is_c(m) and lo <= m.a[0] <= hi
            if not ok:
                ok = self.fits(st, m, ty)
            self.h.on_oblige(self, st, site, kind, ok, (m, ty))
            if not st.assume_ge0(sub(m, C(lo))) or not st.assume_ge0(sub(C(hi), m)):
                raise Infeasible()
            return
        if kind in ("div0", "rem0"):
            # cond: divisor == 0 expected false
            s2 = st.copy()
            ok = not self.assume(s2, cond, not exp)
            self.h.on_oblige(self, st, site, kind, ok, (cond,))
            if not self.assume(st, cond, exp):
                raise Infeasible()
            return
        s2 = st.copy()
        ok = not self.assume(s2, cond, not exp)
        self.h.on_oblige(self, st, site, kind, ok, (cond,) + tuple(ops))
        if not self.assume(st, cond, exp):
            raise Infeasible()

    # ---- calls
    def havoc(self, st, a, site, tag, seen=None):
        """everything mutably reachable from argument term a becomes unknown"""
        seen = seen if seen is not None else set()
        if a in seen:
            return
        seen.add(a)
        if a.op == "ref":
            if a.a[2]:
                root, proj = a.a[0], a.a[1]
                try:
                    old = self.read(st, root, proj)
                except Infeasible:
                    old = None
                if old is not None:
                    self.havoc(st, old, site, tag + "'", seen)
                self.write(st, root, proj, self.fresh(st, site, ("hv", tag), old.ty if old is not None else None), site)
            else:
                try:
                    old = self.read(st, a.a[0], a.a[1])
                    if old.op in ("agg", "ref"):
                        self.havoc(st, old, site, tag + "'", seen)
                except Infeasible:
                    pass
            return
        if a.op == "agg":
            for i, x in enumerate(a.a[2]):
                self.havoc(st, x, site, tag + "." + str(i), seen)
            return
        if a.op == "upd":
            self.havoc(st, a.a[3], site, tag + "u", seen)
            self.havoc(st, a.a[0], site, tag + "u'", seen)
            return
        if a.ty and a.ty.startswith("&mut") and a.op != "agg":
            st.env[("D", a)] = self.fresh(st, site, ("hvd", tag), strip_ref(a.ty))
            return
        if a.op in ("iter",):
            for x in a.a:
                if isinstance(x, T):
                    self.havoc(st, x, site, tag + "i", seen)

    def call(self, fn, ctx, fid, bb, st, t, site):
        fr = t["f"].get("fnref")
        args = [self.op(st, fid, fn, a) for a in t["args"]]
        dty = t["dty"]
        if fr is None:
            f = self.op(st, fid, fn, t["f"])
            if f.op == "fn":
                name = norm(f.a[1])
                loc = f.a[0] if f.a[0] in self.p.fns else None
                if loc:
                    return self.inline(loc, fn, ctx, bb, st, args, site, dty)
            return self.default(st, site, "<fnptr>", args, dty)
        name = norm(fr["fn"])
        ov = self.h.on_call(self, st, site, name, fr, args, t)
        if ov is not None:
            return ov
        tg = self.p.targets(t)
        if len(tg) == 1:
            r = self.inline(tg[0], fn, ctx, bb, st, args, site, dty)
            if r is not None:
                return r
            return self.default(st, site, name, args, dty)
        if len(tg) > 1:
            return self.default(st, site, name, args, dty)
        m = self.models.get(name)
        if m is not None:
            r = m(self, st, site, t, args)
            if r is not None:
                return r
        return self.default(st, site, name, args, dty)

    def default(self, st, site, name, args, dty, pure=False):
        if not pure:
            for i, a in enumerate(args):
                self.havoc(st, a, site, "a%d" % i)
        return [(st, self.mkret(st, site, dty))]

    def mkret(self, st, site, dty):
        if dty == "()":
            return UNIT
        return self.fresh(st, site, "r", dty)

    def inline(self, path, fn, ctx, bb, st, args, site, dty):
        f = self.p.fns[path]
        again = (path == fn.path) + sum(c[0] == path for c in ctx)
        if len(ctx) >= self.inline_depth or again > self.recurse or self.h.opaque(f):
            return None
        nctx = ctx + ((fn.path, bb),)
        if len(args) != f.argc:
            # closure called through FnOnce: (closure, (args...))
            return None
        self.h_inline(f, st, args)
        return self.run(f, nctx, st, args)

    def h_inline(self, f, st, args):
        pass

    def call_closure(self, st, site, clo, cargs):
        """Analyse a closure body (or fn item) applied to cargs; list of (st, ret) or None."""
        c = clo
        if c.op in ("ref", "cref"):
            c = self.val(st, c)
        if c.op == "fn":
            if c.a[0] in self.p.fns:
                return self.inline(c.a[0], site.fn, site.ctx, site.bb, st, cargs, site, None)
            return None
        if c.op == "agg" and str(c.a[0]).startswith("closure:"):
            path = c.a[0][len("closure:"):]
            f = self.p.fns.get(path)
            if f is None or f.argc != len(cargs) + 1:
                return None
            if any(x[0] == path for x in site.ctx) or len(site.ctx) >= self.inline_depth:
                return None
            sty = f.locals[1][0]
            nctx = site.ctx + ((site.fn.path, site.bb),)
            if sty.startswith("&"):
                key = ("clo", self.ctx_id(nctx), path)
                st.env[key] = c
                selfarg = mk("ref", key, (), 1 if sty.startswith("&mut") else 0)
            else:
                selfarg = c
            return self.run(f, nctx, st, [selfarg] + cargs)
        return None

    # ---- entry
    def analyse(self, fn, auto=None, args=None, setup=None):
        st = State()
        st.auto = auto
        if args is None:
            args = []
            for i in range(1, fn.argc + 1):
                args.append(mk("sym", ("arg", fn.path, i, fn.locals[i][1] or ""), ty=fn.locals[i][0]))
        if setup:
            setup(st, args)
        return self.run(fn, (), st, args)
