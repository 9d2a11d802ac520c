"""Taking Exif data out of XMP removes exactly the exif: elements and attributes."""
from rules.containers import *
import itertools

META = {
    "level": "other",
    "exhaustive": False,
    "rule": "on every listed document, the events written are the events read without the exif: elements (with all they hold) and the exif: attributes, in the same order",
    "explanation": "the XMP filter is evaluated abstractly on documents given as the sequence of events the XML parser yields; the parser and the writer are replaced by that sequence and by a list. "
                   "All element trees up to a bound with all assignments of exif and other names, and larger documents with every kind of event, are evaluated.",
    "assumptions": ["quick-xml yields the events of a well-formed document and writes the events it is given", "white space between elements does not matter",
                    "the prefix exif is bound to the Exif namespace"],
}
EV = ["Start", "End", "Empty", "Text", "CData", "Comment", "Decl", "PI", "DocType", "Eof"]
EVENT, QN, ATTR = "quick_xml::events::Event", "quick_xml::name::QName", "quick_xml::events::attributes::Attribute"
POS, OUT = ("XMLPOS", 0), ("XMLOUT", 0)
TREE = ("Start", "Empty")
INPUT = mk("sym", ("in", "xml"), ty="&[u8]")
RESULT = mk("sym", ("in", "xmlout"), ty="std::vec::Vec<u8>")


def bref(b):
    return mk("cref", arr(lit(b)))


def attr(k, v):
    return agg(ATTR, 0, (agg(QN, 0, (bref(k),)), agg("std::borrow::Cow", 0, (bref(v),))))


def start(name, attrs=()):
    return agg("quick_xml::events::BytesStart", 0, (arr(lit(name)), arr([attr(k, v) for k, v in attrs])))


def ev(kind, name=b"", attrs=()):
    k = EV.index(kind)
    if kind == "Eof":
        return agg(EVENT, k, ())
    if kind in TREE:
        return agg(EVENT, k, (start(name, attrs),))
    return agg(EVENT, k, (agg("quick_xml::events::Bytes" + kind, 0, (arr(lit(name)),)),))


class Xml(Api):
    """the XML parser yields given events, the writer records what it is given"""

    def __init__(self, events):
        Api.__init__(self, None, None)
        self.events = events

    def obj(self, e, st, v, ty):
        v = e.val_deep(st, v)
        for _ in range(4):
            if v.op in ("ref", "cref"):
                v = e.val_deep(st, e.val(st, v))
            else:
                break
        return v if v.op == "agg" and isinstance(v.a[0], str) and v.a[0].startswith(ty) else None

    def more(self, e, st, site, name, m, fr, args, t):
        qx = (fr.get("reskrate") or fr.get("krate")) == "quick_xml" if isinstance(fr, dict) else "quick_xml" in name
        a0 = e.val_deep(st, args[0]) if args else None
        if m == "into_inner" and a0 is not None and a0.op == "agg" and a0.a[0] == "xmlcursor":
            return [(st, RESULT)]
        b = self.obj(e, st, args[0], "quick_xml::events::Bytes") if args else None
        if b is not None:
            if m in ("deref", "borrow") or m == "as_ref" and qx:
                return [(st, mk("cref", self.rawtext(b)))]
            if m in ("clone", "into_owned", "to_owned"):
                return [(st, b)]
        q = self.obj(e, st, args[0], QN) if args else None
        if q is not None:
            if m == "as_ref" or m == "into_inner":
                return [(st, q.a[2][0])]
            if m in ("prefix", "local_name") or m == "decompose":
                bs = byte_items(e, st, q.a[2][0])
                s = bytes(x.a[0] for x in bs)
                pre, _, loc = s.rpartition(b":")
                l = agg("quick_xml::name::LocalName", 0, (bref(loc),))
                p = agg(OPTION, 1, (agg("quick_xml::name::Prefix", 0, (bref(pre),)),)) if b":" in s else agg(OPTION, 0, ())
                return [(st, l if m == "local_name" else p if m == "prefix" else agg("tuple", 0, (l, p)))]
        for ty in ("quick_xml::name::LocalName", "quick_xml::name::Prefix"):
            x = self.obj(e, st, args[0], ty) if args else None
            if x is not None and m in ("as_ref", "into_inner"):
                return [(st, x.a[2][0])]
        if not qx:
            return None
        if m in ("from_reader", "from_str") and "Reader" in name:
            st.env[POS] = C(0)
            return [(st, agg("quick_xml::Reader", 0, ()))]
        if m == "buffer_position" or m == "error_position":
            return [(st, C(0))]
        if m in ("read_event_into", "read_event"):
            k = st.env[POS].a[0]
            st.env[POS] = C(k + 1)
            return [(st, okv(self.events[min(k, len(self.events) - 1)]))]
        if "Writer" in name:
            if m == "new":
                st.env[OUT] = arr([])
                return [(st, agg("quick_xml::Writer", 0, ()))]
            if m == "write_event":
                x = self.obj(e, st, args[1], EVENT)
                if x is None:
                    x = self.obj(e, st, args[1], "quick_xml::events::BytesStart")
                    raise Lost("event")
                st.env[OUT] = arr(list(st.env[OUT].a[2]) + [e.val_deep(st, x)])
                return [(st, okv(UNIT))]
            if m == "into_inner":
                return [(st, agg("xmlcursor", 0, ()))]
            return None
        if m == "new" and "BytesStart" in name:
            s = strval(e, st, args[0])
            return None if s is None else [(st, start(s.encode()))]
        if m in ("clone", "into_owned", "to_owned", "borrow") and self.obj(e, st, args[0], EVENT) is not None:
            return [(st, self.obj(e, st, args[0], EVENT))]
        if b is None:
            if m == "from" and "Attribute" in name:
                return None
            return None
        if m in ("name", "local_name") and b.a[0].endswith(("BytesStart", "BytesEnd")):
            qn = agg(QN, 0, (mk("cref", b.a[2][0]),))
            return [(st, qn)] if m == "name" else None
        if m in ("attributes", "html_attributes"):
            return [(st, xit([okv(x) for x in b.a[2][1].a[2]]))]
        if m == "with_checks":
            return [(st, args[0])]
        if m == "extend_attributes":
            x = self.obj(e, st, args[1], "xit")
            if x is None:
                raise Lost("attributes %s" % str(e.val_deep(st, args[1]))[:300])
            e.setval(st, args[0], agg(b.a[0], 0, (b.a[2][0], arr(list(b.a[2][1].a[2]) + [self.plain(e, st, y) for y in x.a[2]]))), site)
            return [(st, args[0])]
        if m == "push_attribute":
            e.setval(st, args[0], agg(b.a[0], 0, (b.a[2][0], arr(list(b.a[2][1].a[2]) + [self.plain(e, st, args[1])]))), site)
            return [(st, UNIT)]
        if m == "clear_attributes":
            e.setval(st, args[0], agg(b.a[0], 0, (b.a[2][0], arr([]))), site)
            return [(st, args[0])]
        if m == "unescape":
            return [(st, okv(agg("std::borrow::Cow", 0, (mk("cref", b.a[2][0]),))))]
        if m == "into_inner":
            return [(st, agg("std::borrow::Cow", 0, (mk("cref", b.a[2][0]),)))]
        return None

    def plain(self, e, st, v):
        x = self.obj(e, st, v, ATTR)
        if x is None:
            raise Lost("attribute")
        return e.val_deep(st, x)

    def rawtext(self, b):
        out = list(b.a[2][0].a[2])
        if b.a[0].endswith("BytesStart"):
            for x in b.a[2][1].a[2]:
                out += lit(b" ") + list(x.a[2][0].a[2][0].a[0].a[2]) + lit(b'="') + list(x.a[2][1].a[2][0].a[0].a[2]) + lit(b'"')
        return arr(out)


def plainev(e, st, v):
    """an event as (kind, bytes, attributes), or None"""
    k = EV[v.a[1]]
    if k == "Eof":
        return (k,)
    b = v.a[2][0]
    for _ in range(3):
        b = e.val_deep(st, e.val(st, b)) if b.op in ("ref", "cref") else b

    def raw(x):
        it = byte_items(e, st, x)
        if it is None or not all(is_c(y) for y in it):
            raise Lost("bytes")
        return bytes(y.a[0] & 255 for y in it)
    if k in TREE:
        return (k, raw(b.a[2][0]), tuple((raw(x.a[2][0].a[2][0]), raw(x.a[2][1].a[2][0])) for x in b.a[2][1].a[2]))
    return (k, raw(b.a[2][0]))


def want(evs):
    out, depth = [], 0
    for x in evs:
        if x[0] == "Start":
            if depth or x[1].startswith(b"exif:"):
                depth += 1
                continue
        elif x[0] == "End" and depth:
            depth -= 1
            continue
        if depth or x[0] == "Eof" or x[0] == "Empty" and x[1].startswith(b"exif:"):
            continue
        if x[0] in TREE:
            x = (x[0], x[1], tuple(a for a in x[2] if not a[0].startswith(b"exif:")))
        out.append(x)
    return out


def norm(evs):
    """white space between elements and the way an element without content is written do not matter"""
    out = []
    for x in evs:
        if x[0] == "Text" and not x[1].strip() or x[0] == "Eof":
            continue
        if x[0] == "Empty":
            out += [("Start",) + x[1:], ("End", x[1])]
        else:
            out.append(x)
    return out


def forests(n):
    """ordered forests with n nodes, as nested tuples"""
    if n == 0:
        yield ()
    for k in range(n):
        for sub in forests(k):
            for rest in forests(n - 1 - k):
                yield (sub,) + rest


def count(f):
    return sum(1 + count(x) for x in f)


A = ((b"exif:Flash", b"1"), (b"xmlns:exif", b"ns"), (b"dc:title", b"t"), (b"exif:Make", b"x"), (b"exifEX:Lens", b"l"), (b"tiff:Make", b"y"), (b"exif", b"0"))


def documents(c):
    root = lambda body: [("Decl", b"xml"), ("Start", b"x:xmpmeta", A[1:2])] + body + [("End", b"x:xmpmeta"), ("Eof",)]
    for n in range(1, 5 if c.tier != "thorough" else 6):
        for f in forests(n):
            for kinds in itertools.product((0, 1), repeat=n):
                for mode in range(3):
                    it = iter(kinds)
                    num = itertools.count()

                    def build(f):
                        out = []
                        for sub in f:
                            i = next(num)
                            name = (b"exif:e%d" if next(it) else b"rdf:k%d") % (i % 3)
                            at = A[i % 3:i % 3 + 2 + i % 2] if mode != 1 else ()
                            if sub:
                                out += [("Start", name, at)] + ([("Text", b"\n ")] if mode == 2 else []) + build(sub) + [("End", name)]
                            elif mode == 1 or (mode == 2 and i % 2):
                                out += [("Start", name, at), ("Text", b"v%d" % i), ("End", name)]
                            else:
                                out += [("Empty", name, at)]
                            if mode == 2:
                                out.append(("Text", b"\n "))
                        return out
                    yield "tree %s kinds %s mode %d" % (str(f).replace(" ", "").replace(",", ""), "".join(map(str, kinds)), mode), root(build(f))
    S = lambda n, *a: ("Start", n, a)
    E = lambda n: ("End", n)
    T = lambda s: ("Text", s)
    yield "every kind of event", [("Decl", b"xml version"), ("DocType", b"d"), ("PI", b"xpacket begin"), ("Comment", b" c "), S(b"x:xmpmeta"), ("CData", b"cd"), ("Comment", b"exif:"), T(b" exif:Flash "), E(b"x:xmpmeta"), ("PI", b"xpacket end"), ("Eof",)]
    yield "every kind of event inside Exif", root([S(b"exif:A"), ("CData", b"cd"), ("Comment", b"x"), ("PI", b"p"), T(b"t"), ("Empty", b"rdf:x", ()), S(b"rdf:Seq"), S(b"rdf:li"), T(b"1"), E(b"rdf:li"), E(b"rdf:Seq"), T(b"u"), E(b"exif:A"), T(b"after"), ("Comment", b"kept")])
    yield "names that look like Exif", root([S(b"exifEX:A", *A), T(b"1"), E(b"exifEX:A"), ("Empty", b"exif", A), ("Empty", b"aux:exif", ()), S(b"Exif:B"), T(b"2"), E(b"Exif:B"), S(b"xexif:C"), E(b"xexif:C"), ("Empty", b"exi:f", ()), ("Empty", b"EXIF:D", ((b"EXIF:d", b"1"), (b"myexif:e", b"2"), (b"x.exif:f", b"3"))),
                                           S(b"myexif:G", (b"xmlns:myexif", b"exif:")), T(b"3"), E(b"myexif:G"), ("Empty", b"x-exif:H", ())])
    yield "all attributes are Exif", root([("Empty", b"rdf:Description", ((b"exif:a", b"1"), (b"exif:b", b"2"))), S(b"rdf:D", (b"exif:a", b"1")), E(b"rdf:D")])
    yield "many attributes", root([S(b"rdf:Description", *[((b"exif:a%d" if i % 3 else b"dc:a%d") % i, b"v%d" % i) for i in range(12)]), E(b"rdf:Description")])
    yield "a hundred attributes", root([S(b"rdf:Description", *[((b"exif:a%d" if i % 9 == 2 else b"dc:a%d") % i, b"v") for i in range(100)]), E(b"rdf:Description")])
    for n in (20, 260):
        yield "%d levels of Exif" % n, root([S(b"exif:A")] + [S(b"exif:B")] * n + [T(b"t")] + [E(b"exif:B")] * n + [T(b"u"), E(b"exif:A"), T(b"after")])
        yield "%d levels without Exif" % n, root([S(b"dc:A")] * n + [T(b"t"), S(b"exif:B"), E(b"exif:B")] + [E(b"dc:A")] * n + [T(b"after")])
    yield "Exif of the same name nested", root([S(b"exif:A"), S(b"exif:A"), T(b"1"), E(b"exif:A"), T(b"2"), E(b"exif:A"), S(b"dc:x"), T(b"3"), E(b"dc:x")])
    yield "an empty Exif element inside Exif", root([S(b"exif:A"), ("Empty", b"exif:B", ()), T(b"1"), E(b"exif:A"), T(b"2")])
    yield "text directly after Exif", root([S(b"exif:A"), E(b"exif:A"), T(b"text"), ("Empty", b"exif:B", ()), T(b"\ntext\n"), S(b"exif:C"), T(b"x"), E(b"exif:C"), T(b"\n"), T(b"y")])
    yield "values that name Exif", root([S(b"dc:x", (b"dc:y", b"exif:z")), T(b"exif:Flash"), E(b"dc:x")])
    yield "no Exif", root([S(b"rdf:RDF"), T(b"\n"), S(b"rdf:Description", (b"dc:a", b"1")), T(b"x"), E(b"rdf:Description"), T(b"\n"), E(b"rdf:RDF")])
    yield "Exif as the root", [S(b"exif:A"), T(b"x"), E(b"exif:A"), ("Eof",)]
    yield "nothing", [("Eof",)]


def entry(p):
    """the function of the XMP module that takes the XMP data and gives the new data"""
    fns = [f for n, f in p.fns.items() if "{closure" not in n and f.argc == 1 and f.locals[1][0].endswith("[u8]") and f.locals[0][0].startswith("std::result::Result<std::vec::Vec<u8>")]
    named = [f for f in fns if f.path.endswith("::remove_exif_from_xmp")]
    return (named or [f for f in fns if "::xmp::" in f.path] or [None])[0]


def run(c):
    fn = entry(c.p)
    if fn is None:
        c.bad("XMP:missing", "there is no function that takes Exif data out of XMP")
        return
    docs = list(documents(c))

    def job(c, lo, hi):
        for name, evs in docs[lo:hi]:
            c.count("document")
            if time.time() - START > (300 if c.tier != "thorough" else 700):
                c.undecided("XMP:time", "out of time")
                return
            h = Xml([ev(*x) for x in evs])
            try:
                with alarm(20):
                    P = Pass(c.p, fn, [INPUT], hook=h, budget=400000, deadline=15)
                    res = []
                    for e, st, ret in P.outs:
                        ret = e.val_deep(st, ret)
                        res.append((is_ok(ret) and ret.a[2][0] is RESULT, [plainev(e, st, x) for x in st.env[OUT].a[2]] if OUT in st.env else None, is_err(ret)))
            except (Budget, RecursionError, TypeError, ValueError, AttributeError, IndexError, KeyError, AssertionError, Lost, TooLong) as ex:
                c.undecided("XMP:" + name, "%s: %s %s" % (name, type(ex).__name__, ex))
                continue
            w = norm(want(evs))
            if any("INEXACT" in str(k) for e, st, r in P.outs for k in st.env) or len(res) > 1:
                res = []
            if not res or res[0][1] is None or not (res[0][0] or res[0][2]):
                if P.outs or h.why or not getattr(P.engine, "exact", False):
                    c.undecided("XMP:" + name, "%s is beyond the domain %s" % (name, h.why[:3]))
                else:
                    c.bad("XMP:" + name, "%s: it never returns (it panics or does not end)" % name, W(fn))
                continue
            ok, got, bad = res[0]
            if bad:
                c.bad("XMP:" + name, "%s: it fails" % name, W(fn))
            elif norm(got) == w:
                c.ok(name, kind="document")
            else:
                g = norm(got)
                k = next((i for i, (x, y) in enumerate(zip(g, w)) if x != y), min(len(g), len(w)))
                c.bad("XMP:" + name, "%s: the result should be the document without its exif elements and attributes: event %d is %s instead of %s" % (name, k, g[k:k + 1] or "missing", w[k:k + 1] or "no event"), W(fn))

    k = (len(docs) + 15) // 16
    c.parallel([(lambda c, i=i: job(c, i, i + k)) for i in range(0, len(docs), k)])
    c.floor("document", 200)
