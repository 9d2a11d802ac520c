"""Data type, component count and payload of every tag."""
from lib import *
import oracle_tags as O

META = {
    "level": "proof",
    "exhaustive": True,
    "rule": "for every tag variant the abstract values of its type, string-ness, component count, serialised payload and decoded payload equal those of the published type",
    "explanation": "Each tag function is evaluated abstractly on the compiled MIR for every variant with a symbolic value of symbolic length; "
                   "conversions are uninterpreted, so the payload terms show which bytes, type and byte order are used.",
    "assumptions": ["a tag value has fewer than 2^32-1 components (the count field of the format is 32 bits wide)"],
}

RUST = {"BYTE": "std::vec::Vec<u8>", "ASCII": "std::string::String", "SHORT": "std::vec::Vec<u16>", "LONG": "std::vec::Vec<u32>",
        "RATIONAL": "std::vec::Vec<little_exif::rational::uR64>", "SBYTE": "std::vec::Vec<i8>", "UNDEFINED": "std::vec::Vec<u8>",
        "SSHORT": "std::vec::Vec<i16>", "SLONG": "std::vec::Vec<i32>", "SRATIONAL": "std::vec::Vec<little_exif::rational::iR64>",
        "FLOAT": "std::vec::Vec<f32>", "DOUBLE": "std::vec::Vec<f64>"}
# tags whose content the library computes itself or that Exif marks as not writable by an editor
MAY_SKIP = {"ExifOffset", "GPSInfo", "InteropOffset", "OECF", "SpatialFrequencyResponse", "DeviceSettingDescription"}
LIBTYPE = {v[2]: k for k, v in O.TYPES.items()}


def run(c):
    p = c.p
    F = {n: p.find("ExifTag::" + n) for n in ("format", "is_string", "number_of_components", "value_as_u8_vec", "is_writable", "from_u16_with_data",
                                              "from_u16", "get_group", "as_u16")}
    endian = sym("endian", ENDIAN)
    data = sym("raw", "std::vec::Vec<u8>")

    def vals(fn, args, setup=None):
        e, res = evaluate(p, fn, args, setup=setup)
        return res

    def ident(n, fn, args, want, setup=None, why=""):
        res = vals(F[fn], args, setup)
        good = bool(res)
        for st, r in res:
            if r is want:
                continue
            if isinstance(want, T) and want.op in ("lin", "len", "c") and is_c(sub(want, r)) and sub(want, r).a[0] == 0:
                continue
            if want.op in ("lin", "len") and st.proves_ge0(sub(want, r)) and st.proves_ge0(sub(r, want)):
                continue
            good = False
        if good:
            c.ok("%s(%s%s) = %s" % (fn, n, why, show(want)), kind=fn)
        else:
            c.bad("%s:%s%s" % (fn, n, why), "%s of %s%s is %s, expected %s" % (fn, n, why, [show(r) for _, r in res][:3] or "a panic", show(want)),
                  "%s:%d" % (F[fn].file, F[fn].line))

    for v in p.adts[TAG]["variants"]:
        n = v["name"]
        t = variant(p, TAG, n)
        c.count("variants")
        if n in O.TAGS:
            ty = O.TAGS[n][1]
        elif n in O.OFFSET_TAGS:
            ty = O.OFFSET_TAGS[n][1]
        elif n.startswith("Unknown"):
            ty = LIBTYPE[n[len("Unknown"):]]
        else:
            # not in the reference: take its own format as given and require the rest to agree with it
            rs = vals(F["format"], [ref(t)])
            if len(rs) != 1 or rs[0][1].op != "agg":
                c.bad("format:%s" % n, "no definite format")
                continue
            ty = LIBTYPE[vname(p, FMT, rs[0][1].a[1])]
        lib = O.TYPES[ty][2]
        ident(n, "format", [ref(t)], agg(FMT, vidx(p, FMT, lib), ()))
        ident(n, "is_string", [ref(t)], TRUE if ty == "ASCII" else FALSE)
        # the carried value
        fty = v["fields"][0][1]
        if fty == RUST[ty]:
            c.ok(kind="value type")
        else:
            c.bad("type:%s" % n, "%s carries %s, a %s tag needs %s" % (n, fty, ty, RUST[ty]))
        val = t.a[2][0]
        # count
        if n == "StripOffsets":
            ln = mk("len", t.a[2][1])
            want = ln
        elif n in ("ThumbnailOffset", "ThumbnailLength"):
            ln, want = None, C(1)
        else:
            ln = mk("len", val)
            want = add(ln, C(1)) if ty == "ASCII" else ln

        def setup(st, args, ln=ln):
            if ln is not None:
                st.assume_ge0(sub(ln, C(1)))
                st.assume_ge0(sub(C((1 << 32) - 2), ln))
        ident(n, "number_of_components", [ref(t)], want, setup)
        # payload out
        if n in ("StripOffsets", "ThumbnailOffset"):
            ident(n, "value_as_u8_vec", [ref(t), ref(endian)], agg("array", 0, ()))
        else:
            rs = vals(F["value_as_u8_vec"], [ref(t), ref(endian)])
            want = mk("op", "to", fty, val, endian, ty="std::vec::Vec<u8>")
            if rs and all(strip_vec(r) is want for _, r in rs):
                c.ok("value_as_u8_vec(%s) = to_bytes(value, byte order)" % n, kind="value_as_u8_vec")
            else:
                c.bad("value_as_u8_vec:%s" % n, "the bytes of %s are %s" % (n, [show(r) for _, r in rs][:3]), "%s:%d" % (F["value_as_u8_vec"].file, F["value_as_u8_vec"].line))
        if n not in MAY_SKIP:
            ident(n, "is_writable", [ref(t)], TRUE)
        # payload in
        if n.startswith("Unknown"):
            num, grp, fm = [C(0xfff0)], ["0"], lib
        elif n in O.OFFSET_TAGS:
            num, grp, fm = [C(O.OFFSET_TAGS[n][0])], list(O.GROUPS), lib
        elif n in O.TAGS:
            num, grp, fm = [C(O.TAGS[n][0])], [O.TAGS[n][2]], lib
        else:
            num = [r for _, r in vals(F["as_u16"], [ref(t)])]
            gs = [r for _, r in vals(F["get_group"], [ref(t)])]
            grp = [k for k, g in O.GROUPS.items() if gs and gs[0] is agg(GRP, vidx(p, GRP, g), ())]
            fm = lib
        for g in grp:
            ga = ref(agg(GRP, vidx(p, GRP, O.GROUPS[g]), ()))
            rs = vals(F["from_u16_with_data"], [num[0], ref(agg(FMT, vidx(p, FMT, fm), ())), ref(data), ref(endian), ga])
            want = mk("op", "from", fty, data, endian, ty=fty)
            oks = [r for _, r in rs if is_ok(r)]
            if oks and all(is_variant(r.a[2][0], TAG, vidx(p, TAG, n)) and strip_vec(r.a[2][0].a[2][0]) is want for r in oks):
                c.ok("from_u16_with_data(%s) carries from_bytes(all the bytes, byte order)" % n, kind="from_u16_with_data")
            else:
                c.bad("from_u16_with_data:%s,%s" % (n, O.GROUPS[g]), "decoding %s yields %s" % (n, [show(r) for r in oks][:3]),
                      "%s:%d" % (F["from_u16_with_data"].file, F["from_u16_with_data"].line))
    c.floor("variants", 163)
