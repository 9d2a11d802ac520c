"""Clearing a TIFF keeps what the stored pixels need and drops everything else."""
from lib import *
from exact import Exact
from oracle_tags import TAGS
from rules.p08 import World, Run, ME, Undecided, show_dirs, same, KIND, KINDS

META = {
    "level": "other",
    "exhaustive": True,
    "rule": "reduce_to_a_minimum keeps a tag of an image directory if TIFF 6.0 needs it to find or interpret the stored pixels, drops every descriptive or private tag and every sub-directory, "
            "and changes nothing about what it keeps; writing refuses metadata that lacks a tag every TIFF must have before anything is written",
    "explanation": "The reduction is evaluated abstractly on directory trees that hold every tag the library names (alone, all together, and in several images) and tags it does not name; values are symbols. "
                   "The writer is evaluated on metadata with all required tags and with each one missing; calls of write operations are the observed effect.",
    "assumptions": ["std's Vec, slice and iterator operations behave as documented"],
}
# TIFF 6.0: tags without which the strips cannot be found or are read as other pixels
MUST = {"ImageWidth", "ImageHeight", "BitsPerSample", "Compression", "PhotometricInterpretation", "StripOffsets", "StripByteCounts", "RowsPerStrip", "SamplesPerPixel", "XResolution",
        "YResolution", "ResolutionUnit", "ColorMap", "PlanarConfiguration", "YCbCrCoefficients", "YCbCrSubSampling", "YCbCrPositioning", "ReferenceBlackWhite", "ThumbnailOffset", "ThumbnailLength"}
MUST_NUM = {0x010a: "FillOrder", 0x0124: "T4Options", 0x0125: "T6Options", 0x013d: "Predictor", 0x0152: "ExtraSamples", 0x0153: "SampleFormat", 0x015b: "JPEGTables"}
# part of the description of the image; neither is wrong
MAY = {"CellWidth", "CellHeight", "Orientation", "TransferFunction", "WhitePoint", "PrimaryChromaticities"}
# descriptive or private tags the library has no name for
DROP_NUM = {0x010d: "DocumentName", 0x011d: "PageName", 0x013c: "HostComputer", 0x02bc: "XMP", 0x4746: "Rating", 0x83bb: "IPTC", 0x8649: "Photoshop", 0x9c9b: "XPTitle", 0x9c9d: "XPAuthor",
            0xc4a5: "PrintIM", 0xc614: "UniqueCameraModel", 0xc62f: "CameraSerialNumber", 0xfde8: "private", 0x010b: "unassigned", 0x0001: "private"}
REQUIRED = ("ImageWidth", "ImageHeight", "Compression", "PhotometricInterpretation", "StripOffsets", "RowsPerStrip", "StripByteCounts", "XResolution", "YResolution", "ResolutionUnit")
FORMATS = ("INT8U", "STRING", "INT16U", "INT32U", "RATIONAL64U", "UNDEF")


def generic(w):
    return [n for n in sorted(TAGS) if TAGS[n][2] == "0" and n not in ("ExifOffset", "GPSInfo", "InteropOffset")]


def verdict(w, t):
    """True: has to stay, False: has to go, None: either"""
    n = vname(w.p, TAG, t.a[1])
    if n in TAGS or n in MUST:
        return True if n in MUST else None if n in MAY else False
    num = w.num(t)[0]
    return True if num in MUST_NUM else False if num in DROP_NUM else None


def strips(w):
    out = []
    for n in ("StripOffsets", "StripByteCounts", "ThumbnailOffset", "ThumbnailLength"):
        out.append(n)
    return out


NUM = {"StripOffsets": 0x111, "StripByteCounts": 0x117, "ThumbnailOffset": 0x201, "ThumbnailLength": 0x202}


def run_reduce(c, w, fn, dirs, key, what):
    r = Run(w, fn, [ME], {("D", ME): w.meta(dirs)}, budget=3000000)
    desc = "%s: %s" % (what, show_dirs(w, dirs)[:300])
    if not r.outs:
        return c.bad(key + ":panic", "%s does not return" % desc, W(fn))
    for e, st, rv in r.outs:
        got = w.read(e, st, st.env.get(("D", ME)))
        if got is None:
            raise Undecided("%s: the result is not known" % what)
        if got[0] is not w.le:
            return c.bad("byte-order", "%s: the byte order is changed" % desc, W(fn))
        g = dict(got[1])
        if len(g) != len(got[1]):
            return c.bad("dir-twice", "%s: a directory exists twice" % desc, W(fn))
        for (k, n), ts in dirs:
            if k != "GENERIC":
                if (k, n) in g:
                    return c.bad("sub-kept:%s" % k, "%s: sub-directory %s%d is kept" % (desc, k, n), W(fn))
                continue
            if (k, n) not in g:
                return c.bad("image-lost", "%s: image directory %d is lost" % (desc, n), W(fn))
            left = list(g.pop((k, n)))
            for t in ts:
                v = verdict(w, t)
                nm = vname(w.p, TAG, t.a[1])
                if nm.startswith("Unknown"):
                    num = w.num(t)[0]
                    nm = "%s(0x%04x)" % (MUST_NUM.get(num) or DROP_NUM.get(num) or "tag", num)
                if t in left:
                    left.remove(t)
                    if v is False:
                        return c.bad("kept:%s" % nm, "%s: %s is kept although no pixel needs it" % (desc, nm), W(fn))
                elif v is True:
                    return c.bad("lost:%s" % nm, "%s: %s is dropped or changed although the stored pixels cannot be read without it" % (desc, nm), W(fn))
            if left:
                return c.bad("appears", "%s: a tag appears: %s" % (desc, show(left[0])[:80]), W(fn))
        if g:
            return c.bad("dir-appears", "%s: a directory appears" % desc, W(fn))
    c.ok(desc[:200], kind="reduce")


def reduce_(c):
    w = World(c.p)
    World.num_ = World.num
    base = w.num
    w.num = lambda t: (NUM[vname(w.p, TAG, t.a[1])], "GENERIC") if t.op == "agg" and t.a[0] == TAG and vname(w.p, TAG, t.a[1]) in NUM else base(t)
    fn = method(c.p, METADATA, "reduce_to_a_minimum")
    names = [n for n in dict.fromkeys(generic(w) + list(NUM))]
    n0 = lambda n: NUM.get(n) or TAGS[n][0]
    T = lambda n, t: w.tag(n, t)
    trees = []
    for n in names:
        trees.append(([(("GENERIC", 0), [T(n, "a.")])], "one tag"))
    for num in list(MUST_NUM) + list(DROP_NUM):
        for f in FORMATS:
            trees.append(([(("GENERIC", 0), [w.unknown(num, "GENERIC", "u.", f)])], "one unnamed tag"))
    allof = lambda tag: sorted([T(n, tag) for n in names] + [w.unknown(x, "GENERIC", tag + "%x." % x, "INT16U") for x in list(MUST_NUM) + list(DROP_NUM)], key=lambda t: w.num(t)[0])
    trees.append(([(("GENERIC", 0), allof("a."))], "all tags together"))
    trees.append(([(("GENERIC", n), allof("a%d." % n)[n::3]) for n in range(3)], "three images"))
    sub = {"EXIF": "ISO", "GPS": "GPSAltitude", "INTEROP": "InteroperabilityIndex"}
    few = ("ImageWidth", "ImageDescription", "Model", "StripOffsets")
    full = [(("GENERIC", n), [T(x, "g%d." % n) for x in few]) for n in range(2)]
    for n in range(2):
        for k, x in sub.items():
            full.append(((k, n), [T(x, "s%d." % n)]))
    full.sort(key=lambda d: (d[0][1], KINDS.index(d[0][0])))
    trees.append((full, "sub-directories of two images"))
    for k, x in sub.items():
        trees.append(([(("GENERIC", 0), [T("ImageWidth", "g.")]), ((k, 0), [T(x, "s."), T("ImageWidth", "z.")])], "a %s sub-directory" % k))
        trees.append(([(("GENERIC", 0), [T("Make", "g.")]), (("GENERIC", 1), [T("ImageWidth", "g.")]), ((k, 1), [])], "an empty %s sub-directory" % k))
    trees.append(([], "empty metadata"))
    trees.append(([(("GENERIC", 0), [])], "an empty directory"))
    # the same number twice, one of them a kept one
    for a in ("Model", "ImageWidth"):
        trees.append(([(("GENERIC", 0), [T(a, "1."), T(a, "2.")])], "a tag twice"))
    for dirs, what in trees:
        try:
            run_reduce(c, w, fn, dirs, "reduce", what)
            c.count("trees reduced")
        except (Undecided, Budget) as x:
            c.undecided("reduce:%s" % what, str(x))


class Wr(Exact):
    def __init__(self):
        self.enc = {}

    def before(self, e, st, site, name, fr, args, t):
        m = name.rsplit("::", 1)[-1]
        if name.endswith("Metadata::encode") and t["dty"].startswith("std::result::Result"):
            v = mk("sym", ("in", "encoded"), ty="std::vec::Vec<u8>")
            s2 = st.copy()
            st.auto = (st.auto or ()) + (("encoded",),)
            s2.auto = (s2.auto or ()) + (("encode-failed",),)
            return [(st, agg(RESULT, 0, (v,))), (s2, agg(RESULT, 1, (sym("encerr", "std::io::Error"),)))]
        if (fr.get("trait") or "").startswith("std::io::Write") or (fr.get("trait") or "") == "std::io::Seek":
            st.auto = (st.auto or ()) + (("write", m, tuple(e.val_deep(st, a) for a in args[1:])),)
            if m == "write_all":
                s2 = st.copy()
                return [(st, agg(RESULT, 0, (UNIT,))), (s2, agg(RESULT, 1, (sym("ioerr", "std::io::Error"),)))]
        return None


def writer(c):
    w = World(c.p)
    fn = [f for k, f in c.p.fns.items() if k.endswith("tiff::generic_write_metadata")]
    if len(fn) != 1:
        raise KeyError("tiff::generic_write_metadata")
    fn = fn[0]
    tags = [w.tag(n, "q.") for n in REQUIRED]
    cur = mk("sym", ("in", "cursor"), ty="&mut T")

    def go(dirs):
        h = Wr()
        outs = []

        def on_return(e, st, fn_, ret):
            if fn_ is fn:
                outs.append((e, st, e.val_deep(st, ret)))
        h.on_return = on_return
        e = Engine(c.p, h, numeric=True, budget=30000, deadline=60, unroll=14, max_parts=100000)
        e.recurse, e.exact = 5, True

        def setup(st, a):
            st.env[("D", ME)] = w.meta(dirs)
        args = []
        for i in range(fn.nargs if hasattr(fn, "nargs") else 2):
            args.append(ME if METADATA in fn.locals[i + 1][0] else cur)
        e.analyse(fn, args=args, setup=setup)
        return outs
    for n in REQUIRED:
        for rest in ([], [w.tag("ImageDescription", "d."), w.tag("ColorMap", "d.")]):
            for other in ([], [(("EXIF", 0), [w.tag(n, "x.")])]):
                dirs = [(("GENERIC", 0), [t for t, m in zip(tags, REQUIRED) if m != n] + rest)] + other
                outs = go(dirs)
                if not outs:
                    c.undecided("required:%s" % n, "the writer has no outcome")
                for e, st, r in outs:
                    wrote = [a for a in (st.auto or ()) if a[0] == "write" and a[1].startswith("write")]
                    if not is_err(r):
                        c.bad("required:%s" % n, "a TIFF is written although %s is missing" % n, W(fn))
                    elif wrote:
                        c.bad("required-late:%s" % n, "something is written before %s is found missing" % n, W(fn))
                    else:
                        c.ok("without %s: refused, nothing written" % n, kind="required")
                c.count("writes without a required tag")
    for extra in ([], [w.tag("ColorMap", "q."), w.tag("SamplesPerPixel", "q."), w.tag("BitsPerSample", "q.")]):
        outs = go([(("GENERIC", 0), tags + extra)])
        if not any(is_ok(r) for _, _, r in outs):
            c.bad("complete-refused", "a TIFF with all required tags is not written", W(fn))
        for e, st, r in outs:
            au = st.auto or ()
            if is_ok(r):
                ws = [a for a in au if a[0] == "write" and a[1] in ("write", "write_all")]
                if [a[1] for a in ws] != ["write_all"] or show(strip_vec(ws[0][2][0])).find("encoded") < 0:
                    c.undecided("written", "the encoded metadata is not written by one write_all: %s" % [a[1] for a in ws])
                else:
                    c.ok(kind="complete")
            elif ("encode-failed",) in au and any(a[0] == "write" and a[1].startswith("write") for a in au):
                c.bad("written-despite-error", "something is written although the metadata cannot be encoded", W(fn))
            else:
                c.ok(kind="error-kept")
        c.count("complete writes")


def run(c):
    c.parallel([reduce_, writer])
    c.floor("trees reduced", 150)
    c.floor("writes without a required tag", 40)
