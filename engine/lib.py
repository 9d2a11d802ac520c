"""Helpers shared by the rules."""
from absint import *
import absint as A
from facts import norm

TAG = "little_exif::exif_tag::ExifTag"
FMT = "little_exif::exif_tag_format::ExifTagFormat"
GRP = "little_exif::ifd::ExifTagGroup"
ENDIAN = "little_exif::endian::Endian"
FTYPE = "little_exif::filetype::FileExtension"
CONV = "little_exif::u8conversion::U8conversion"
METADATA = "little_exif::metadata::Metadata"
IFD = "little_exif::ifd::ImageFileDirectory"


def sym(name, ty=None):
    return mk("sym", ("in", name), ty=ty)


def vidx(prog, adt, name):
    for i, v in enumerate(prog.adts[adt]["variants"]):
        if v["name"] == name:
            return i
    raise KeyError("%s has no variant %s" % (adt, name))


def vname(prog, adt, i):
    return prog.adts[adt]["variants"][i]["name"]


def variant(prog, adt, name, fields=None, tag=""):
    i = vidx(prog, adt, name)
    v = prog.adts[adt]["variants"][i]
    if fields is None:
        fields = [sym("%s%s.%s" % (tag, name, n), ty) for n, ty in v["fields"]]
    return agg(adt, i, fields)


def ref(v):
    return mk("cref", v)


def self_ty_of_conv(fr):
    """type T of <T as U8conversion<_>>::method"""
    g = fr.get("gargs")
    if isinstance(g, list):
        return g[0]
    return g


class ConvHook(Hook):
    """U8conversion calls become uninterpreted conversion terms: to(value, endian), from(bytes, endian)."""

    def on_call(self, e, st, site, name, fr, args, t):
        if fr.get("trait") == CONV:
            m = name.rsplit("::", 1)[-1]
            ty = self_ty_of_conv(fr)
            return self.conv(e, st, site, m, ty, args, t)
        return None

    def conv(self, e, st, site, m, ty, args, t):
        if m == "to_u8_vec":
            v, en = e.val_deep(st, args[0]), e.val_deep(st, args[1])
            return [(st, mk("op", "to", ty, v, en, ty=t["dty"]))]
        if m in ("from_u8_vec", "from_u8_vec_res"):
            v, en = e.val_deep(st, args[0]), e.val_deep(st, args[1])
            r = mk("op", "from", ty, v, en, ty=ty)
            if m == "from_u8_vec":
                return [(st, r)]
            s2 = st.copy()
            return [(st, agg(RESULT, 0, (r,))), (s2, agg(RESULT, 1, (sym("converr", "std::io::Error"),)))]
        return None


def strip_vec(v):
    """look through vec wrappers that only record a length"""
    while v.op == "vec":
        v = v.a[0]
    return v


def evaluate(prog, fn, args, hook=None, setup=None, numeric=True, budget=200000):
    e = Engine(prog, hook or ConvHook(), numeric=numeric, budget=budget)
    return e, e.analyse(fn, args=args, setup=setup)


def is_variant(v, adt, i):
    return v.op == "agg" and v.a[0] == adt and v.a[1] == i


def is_err(v):
    return v.op == "agg" and v.a[0] == RESULT and v.a[1] == 1


def is_ok(v):
    return v.op == "agg" and v.a[0] == RESULT and v.a[1] == 0


def method(prog, ty, name):
    """the inherent method `name` of type `ty`, in whichever module its impl block lives"""
    short = ty.split("<")[0]
    m = [f for k, f in prog.fns.items() if (k.endswith("<impl %s>::%s" % (ty, name)) or k == "%s::%s" % (short, name)) and not k.startswith("<")]
    if len(m) != 1:
        raise KeyError("%s::%s (%d candidates)" % (ty, name, len(m)))
    return m[0]


def W(f):
    return "%s:%d" % (f.file, f.line)
