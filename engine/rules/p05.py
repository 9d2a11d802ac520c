"""Every public operation works on the format of the image it is given."""
from lib import *

META = {
    "level": "proof",
    "exhaustive": True,
    "rule": "each public operation, evaluated for every file format, hands its own arguments to the codec of exactly that format, passes that codec's result on, "
            "and refuses formats it does not support without touching any codec",
    "explanation": "The public operations are evaluated abstractly for every file format (and, for files, every combination of extension and recognised content); "
                   "the first call into a codec module is the observed effect. Both outcomes of the codec call are followed to the operation's return.",
    "assumptions": ["functions of the codec modules work on the format their module is named after (decided by the properties about each format)"],
}
MODS = {"PNG": "png", "JPEG": "jpg", "JXL": "jxl", "TIFF": "tiff", "WEBP": "webp", "HEIF": "heif", "NAKED_JXL": None}
CODECS = ("png", "jpg", "jxl", "tiff", "webp", "heif")


class Disp(Hook):
    def __init__(self, ext=None, content=None):
        self.ext, self.content = ext, content
        self.paths = []

    def on_call(self, e, st, site, name, fr, args, t):
        parts = name.split("::")
        if parts[0] == "little_exif" and parts[1] in CODECS:
            vals = tuple(e.val_deep(st, a) for a in args)
            ev = ("codec", parts[1], parts[-1], vals)
            return self.outcome(e, st, site, ev, t["dty"])
        if name.endswith("Metadata::decode") or name.endswith("::decode_ifd"):
            if name.endswith("decode_ifd"):
                return None
            v = content_of(e, st, args[0])
            return self.outcome(e, st, site, ("decode", v), t["dty"])
        if name.endswith("Metadata::encode"):
            return self.outcome(e, st, site, ("encode", e.val_deep(st, args[0])), t["dty"])
        if name.endswith("::auto_detect"):
            if self.content is not None:
                return [(st, self.content)]
            return None
        if name.endswith("filetype::get_file_type"):
            return [(st, self.ext)]
        return None

    def outcome(self, e, st, site, ev, dty):
        if not dty.startswith("std::result::Result"):
            r = e.fresh(st, site, "codec", dty)
            st.auto = st.auto + ((ev, r),)
            return [(st, r)]
        g = gen_args(dty)
        ok = UNIT if g[0] == "()" else e.fresh(st, site, "ok", g[0])
        er = e.fresh(st, site, "err", g[1])
        s2 = st.copy()
        st.auto = st.auto + ((ev, agg(RESULT, 0, (ok,))),)
        s2.auto = s2.auto + ((ev, agg(RESULT, 1, (er,))),)
        return [(st, agg(RESULT, 0, (ok,))), (s2, agg(RESULT, 1, (er,)))]


def content_of(e, st, v):
    """bytes a cursor argument works on"""
    for _ in range(6):
        v = strip_vec(e.val_deep(st, v))
        if v.op == "agg" and v.a[2] and v.a[0] != "array":
            v = v.a[2][0]
        elif v.op not in ("ref", "cref", "vec"):
            break
    return v


def run(c):
    p = c.p
    fts = p.adts[FTYPE]["variants"]
    ft = {v["name"]: agg(FTYPE, i, tuple(sym("zTXt", ty) for _, ty in v["fields"])) for i, v in enumerate(fts)}
    for n in MODS:
        if n not in ft:
            c.bad("format:%s" % n, "the file format is no longer known")
    path = sym("path", "std::path::Path")
    meta = sym("metadata", METADATA)
    buf = sym("buffer", "std::vec::Vec<u8>")

    def paths(fn, args, hook):
        e = Engine(p, hook, numeric=False, budget=400000)

        def setup(st, a):
            # a buffer passed by mutable reference lives in a cell that the operation could change
            for x in a:
                if x.ty == "&mut std::vec::Vec<u8>":
                    st.env[("D", x)] = buf
        res = e.analyse(fn, args=args, auto=(), setup=setup)
        return [(st.auto, r) for st, r in res]

    def judge(key, fn, res, fmt, mod, want_args, kind):
        c.count("operation x format")
        where = W(fn)
        if mod is None:
            good = bool(res) and all(is_err(r) and not [x for x in au if x[0][0] == "codec"] for au, r in res)
            (c.ok("%s refuses %s" % (fn.name, fmt), kind="refused") if good else
             c.bad("%s:%s" % (key, fmt), "%s on %s does not fail: codecs reached %s" % (fn.name, fmt, [[x[0][1:3] for x in au] for au, _ in res][:3]), where))
            return
        reach = 0
        for au, r in res:
            cod = [x for x in au if x[0][0] == "codec"]
            if not cod:
                if is_err(r):
                    continue  # failed before (missing file, unknown type, encoding error)
                c.bad("%s:%s:none" % (key, fmt), "%s on %s succeeds without using a codec" % (fn.name, fmt), where)
                continue
            reach += 1
            if len(cod) > 1:
                c.bad("%s:%s:many" % (key, fmt), "%s on %s uses several codecs: %s" % (fn.name, fmt, [x[0][1:3] for x in cod]), where)
                continue
            (_, m, f, vals), out = cod[0]
            if m != mod:
                c.bad("%s:%s:codec" % (key, fmt), "%s on %s uses the %s codec (%s)" % (fn.name, fmt, m, f), where)
                continue
            bad = [w for w in want_args if not any(x is w for x in vals)]
            if bad:
                c.bad("%s:%s:args" % (key, fmt), "%s on %s calls %s::%s without its own argument: %s" % (fn.name, fmt, m, f, [show(v) for v in vals]), where)
                continue
            if is_err(out):
                er = r.a[2][0] if is_err(r) else None
                while er is not None and er.op == "op" and er.a[0] == "errfrom":
                    er = er.a[1]
                good = er is out.a[2][0]
                what = "a failure of %s::%s is not reported" % (m, f)
            elif kind == "read":
                dec = [x for x in au if x[0][0] == "decode"]
                if len(dec) != 1 or dec[0][0][1] is not out.a[2][0]:
                    good, what = False, "the Exif block found by %s::%s is not what gets decoded" % (m, f)
                elif is_err(dec[0][1]):
                    good, what = is_err(r), "a failure to decode is not reported"
                else:
                    good, what = is_ok(r), "decoded metadata is not returned"
            elif kind == "bytes":
                good, what = is_ok(r) and r.a[2][0] is (out.a[2][0] if is_ok(out) else out), "the bytes of %s::%s are not returned" % (m, f)
            else:
                good, what = is_ok(r), "success of %s::%s is not reported" % (m, f)
            if good:
                c.ok("%s on %s -> %s::%s" % (fn.name, fmt, m, f), kind=kind)
            else:
                c.bad("%s:%s:result" % (key, fmt), "%s on %s: %s" % (fn.name, fmt, what), where)
        if not reach:
            c.bad("%s:%s:unreached" % (key, fmt), "%s on %s never uses a codec" % (fn.name, fmt), where)

    F = lambda n: method(p, METADATA, n)
    okft = lambda n: agg(RESULT, 0, (ft[n],))
    ops_vec = {"new_from_vec": ("read", [ref(buf)], None), "clear_metadata": ("unit", ["mut"], None), "write_to_vec": ("unit", [ref(meta), "mut"], None),
               "clear_app12_segment": ("seg", ["mut"], 0xec), "clear_app13_segment": ("seg", ["mut"], 0xed), "as_u8_vec": ("bytes", [ref(meta)], None)}
    ops_file = {"file_clear_metadata": ("unit", [], None), "write_to_file": ("unit", [ref(meta)], None),
                "file_clear_app12_segment": ("seg", [], 0xec), "file_clear_app13_segment": ("seg", [], 0xed)}
    for name, (kind, a, marker) in ops_vec.items():
        fn = F(name)
        for fmt, mod in MODS.items():
            if fmt not in ft:
                continue
            h = Disp(content=fork_opt(p, ft))
            args = [mk("sym", ("in", "mutbuf"), ty="&mut std::vec::Vec<u8>") if x == "mut" else x for x in a] + [ft[fmt]]
            mb = args[a.index("mut")] if "mut" in a else None
            bufv = buf
            want = [bufv] if name != "as_u8_vec" else []
            if ref(meta) in a and name != "as_u8_vec":
                want.append(meta)
            if marker is not None:
                want.append(C(marker))
            m = mod
            if kind == "seg":
                m = mod if fmt == "JPEG" else None
            if name == "as_u8_vec" and fmt in ("TIFF", "JXL"):
                m = None
            if name == "as_u8_vec" and m:
                res = paths(fn, args, h)
                # what is framed is the encoded form of this metadata
                for au, r in res:
                    enc = [x for x in au if x[0][0] == "encode"]
                    cod = [x for x in au if x[0][0] == "codec"]
                    if cod and not (len(enc) == 1 and enc[0][0][1] is meta and is_ok(enc[0][1]) and any(strip_vec(v) is enc[0][1].a[2][0] for v in cod[0][0][3])):
                        c.bad("%s:%s:payload" % (name, fmt), "%s for %s frames something other than this metadata's encoding" % (name, fmt), W(fn))
                    if fmt == "PNG" and cod and not any(v is ft["PNG"].a[2][0] for v in cod[0][0][3]):
                        c.bad("%s:%s:zTXt" % (name, fmt), "the choice between zTXt and eXIf is not passed on", W(fn))
                judge(name, fn, res, fmt, m, [], kind)
                continue
            judge(name, fn, paths(fn, args, h), fmt, m, want, kind if kind != "seg" else "unit")
    for name, (kind, a, marker) in ops_file.items():
        fn = F(name)
        for fmt, mod in MODS.items():
            if fmt not in ft:
                continue
            h = Disp(ext=okft(fmt), content=fork_opt(p, ft))
            m = mod if kind != "seg" or fmt == "JPEG" else None
            want = [path] + ([meta] if a else []) + ([C(marker)] if marker is not None else [])
            judge(name, fn, paths(fn, a + [ref(path)], h), fmt, m, want, kind if kind != "seg" else "unit")
        for what, er in (("unsupported", "unsup"), ("missing", "miss")):
            h = Disp(ext=Err(sym(er, "std::io::Error")))
            judge(name, fn, paths(fn, a + [ref(path)], h), what, None, [], kind)
    # reading a file: the recognised content decides, then the extension
    fn = F("new_from_path")
    for ext in list(MODS) + [None]:
        for cont in list(MODS) + [None]:
            h = Disp(ext=okft(ext) if ext else Err(sym("noext", "std::io::Error")), content=Some(ft[cont]) if cont else NONE)
            mod = MODS[cont] if cont else MODS[ext] if ext else None
            judge("new_from_path", fn, paths(fn, [ref(path)], h), "%s/%s" % (ext, cont), mod, [path], "read")
    c.floor("operation x format", 130)


def fork_opt(p, ft):
    return NONE
