"""Tag identity: number and IFD of every tag, in both directions."""
from lib import *
import oracle_tags as O

META = {
    "level": "proof",
    "exhaustive": True,
    "rule": "for every tag variant and every (number, IFD) pair the abstract value of the tag lookup functions equals the published table",
    "explanation": "The tag functions are evaluated on the compiled program's MIR, one abstract run per variant and per (number, IFD) pair, "
                   "plus one run per IFD with a symbolic number constrained to differ from every listed number; results are compared with an "
                   "independent transcription of the Exif/TIFF/GPS tables.",
}


def run(c):
    p = c.p
    as_u16, group, from_u16, withd, unk = [p.find("ExifTag::" + n) for n in ("as_u16", "get_group", "from_u16", "from_u16_with_data", "is_unknown")]
    vs = p.adts[TAG]["variants"]
    names = {v["name"]: i for i, v in enumerate(vs)}
    gname = {k: vidx(p, GRP, v) for k, v in O.GROUPS.items()}
    for g in p.adts[GRP]["variants"]:
        if g["name"] not in O.GROUPS.values():
            c.bad("group:%s" % g["name"], "IFD kind without an entry in the reference table")

    def one(fn, args, key, setup=None):
        e, res = evaluate(p, fn, args, setup=setup)
        if not res:
            c.bad("panics:" + key, "no normal return of %s for %s" % (fn.path, key), fn.file)
        return [r for _, r in res]

    def ident(key, fn, args, want):
        rs = one(fn, args, key)
        good = bool(rs) and all(r is want for r in rs)
        if good:
            c.ok("%s(%s) = %s" % (fn.name, key, show(want)), kind=fn.name)
        elif rs:
            c.bad("%s:%s" % (fn.name, key), "%s(%s) yields %s, the tables say %s" % (fn.name, key, [show(r) for r in rs], show(want)),
                  "%s:%d" % (fn.file, fn.line))

    # number and IFD of every variant
    numbers = {}
    for v in vs:
        n = v["name"]
        t = variant(p, TAG, n)
        c.count("variants")
        if n in O.TAGS:
            h, ty, g = O.TAGS[n]
            ident(n, as_u16, [ref(t)], C(h))
            ident(n, group, [ref(t)], agg(GRP, gname[g], ()))
            ident(n, unk, [ref(t)], FALSE)
            numbers[(h, g)] = n
        elif n in O.OFFSET_TAGS:
            ident(n, as_u16, [ref(t)], C(O.OFFSET_TAGS[n][0]))
            ident(n, unk, [ref(t)], FALSE)
        elif n.startswith("Unknown"):
            ident(n, as_u16, [ref(t)], t.a[2][1])
            ident(n, group, [ref(t)], t.a[2][2])
            ident(n, unk, [ref(t)], TRUE)
        else:
            # a tag the reference does not list: only consistency can be required of it
            hs = one(as_u16, [ref(t)], n)
            gs = one(group, [ref(t)], n)
            if len(hs) == 1 and is_c(hs[0]) and len(gs) == 1 and gs[0].op == "agg":
                gk = [k for k, i in gname.items() if i == gs[0].a[1]]
                if (hs[0].a[0], gk[0]) in numbers:
                    c.bad("dup:%s" % n, "%s has the same number and IFD as %s" % (n, numbers[(hs[0].a[0], gk[0])]))
                numbers[(hs[0].a[0], gk[0])] = n
    for n in list(O.TAGS) + list(O.OFFSET_TAGS):
        if n not in names:
            c.bad("missing:%s" % n, "the tag is no longer offered")
    # lookup by number
    data = sym("raw", "std::vec::Vec<u8>")
    endian = sym("endian", ENDIAN)
    fsym = sym("format", FMT)
    fvars = p.adts[FMT]["variants"]

    def expect_tag(key, fn, args, want):
        rs = one(fn, args, key)
        oks = [r for r in rs if is_ok(r)]
        wrong = [r for r in rs if not is_err(r) and not (is_ok(r) and is_variant(r.a[2][0], TAG, names.get(want, -9)))]
        if oks and not wrong:
            c.ok("%s(%s) = %s" % (fn.name, key, want), kind=fn.name)
        else:
            c.bad("%s:%s" % (fn.name, key), "%s(%s) yields %s instead of the tag %s" % (fn.name, key, [show(r) for r in rs][:4], want),
                  "%s:%d" % (fn.file, fn.line))

    offs = {h: n for n, (h, _) in O.OFFSET_TAGS.items()}
    for (h, g), n in sorted(numbers.items()):
        ga = ref(agg(GRP, gname[g], ()))
        expect_tag("0x%04x,%s" % (h, O.GROUPS[g]), from_u16, [C(h), ga], n)
        expect_tag("0x%04x,%s" % (h, O.GROUPS[g]), withd, [C(h), ref(fsym), ref(data), ref(endian), ga], n)
        c.count("numbers")
    for g, gi in gname.items():
        ga = ref(agg(GRP, gi, ()))
        for h, n in offs.items():
            expect_tag("0x%04x,%s" % (h, O.GROUPS[g]), from_u16, [C(h), ga], n)
            expect_tag("0x%04x,%s" % (h, O.GROUPS[g]), withd, [C(h), ref(fsym), ref(data), ref(endian), ga], n)
        # every other number: those listed for another IFD one by one, all remaining ones as one symbolic class
        every = sorted({h for (h, _) in numbers} | set(offs))
        here = {h for (h, g2) in numbers if g2 == g} | set(offs)
        hs = sym("number", "u16")

        def setup(st, args):
            for k in every:
                d = sub(hs, C(k))
                st.ne = st.ne | {(d, "eq0"), (mulc(d, -1), "eq0")}
        for num, nm, su in [(hs, "unlisted", setup)] + [(C(h), "0x%04x" % h, None) for h in every if h not in here]:
            rs = one(from_u16, [num, ga], nm + "," + O.GROUPS[g], su)
            if rs and all(is_err(r) for r in rs):
                c.ok("from_u16(%s, %s) = Err" % (nm, O.GROUPS[g]), kind="from_u16")
            else:
                c.bad("from_u16:%s,%s" % (nm, O.GROUPS[g]), "number %s is accepted in %s, where the tables do not list it: %s" % (nm, O.GROUPS[g], [show(r) for r in rs]))
            for fi, fv in enumerate(fvars):
                rs = one(withd, [num, ref(agg(FMT, fi, ())), ref(data), ref(endian), ga], "%s,%s,%s" % (nm, fv["name"], O.GROUPS[g]), su)
                want = names.get("Unknown" + fv["name"], -9)
                good = [r for r in rs if is_ok(r) and is_variant(r.a[2][0], TAG, want) and r.a[2][0].a[2][1] is num
                        and r.a[2][0].a[2][2] is agg(GRP, gi, ())]
                wrong = [r for r in rs if not is_err(r) and r not in good]
                if good and not wrong:
                    c.ok("from_u16_with_data(%s, %s, %s) keeps number, type and IFD" % (nm, fv["name"], O.GROUPS[g]), kind="from_u16_with_data")
                    c.count("unknown combinations")
                else:
                    c.bad("unknown:%s,%s,%s" % (nm, fv["name"], O.GROUPS[g]), "an unlisted tag (%s) of type %s in %s becomes %s" % (nm, fv["name"], O.GROUPS[g], [show(r) for r in rs][:4]),
                          "%s:%d" % (withd.file, withd.line))
    c.floor("variants", 163)
    c.floor("numbers", 147)
    c.floor("unknown combinations", 4000)
