"""A JPEG keeps everything but its Exif segment."""
from rules.containers import *
import itertools

META = {
    "level": "other",
    "exhaustive": False,
    "rule": "on every listed segment structure, clearing removes exactly the segments of that kind, writing leaves one Exif segment that holds the encoding before the first scan, reading decodes the Exif segment, and a failed write changes nothing",
    "explanation": "the public operations are evaluated abstractly, for a vector and for a file, on JPEG segment structures whose lengths and markers are given and whose payload bytes are arbitrary symbols; "
                   "the resulting sequence of symbols is compared with the one the structure determines.",
    "assumptions": ["std::io and std::fs do what they document and I/O on the image succeeds", "segment lengths outside the listed structures behave as the listed ones"],
}


def seg(m, body, fill=0):
    return lit([0xFF] * (fill + 1) + [m]) + be(len(body) + 2, 2) + body


def long(n):
    return blob("v", 40) + lit([0x5A]) * (n - 40)


EX = lit(b"Exif\0\0")
SOI, EOI = lit([0xFF, 0xD8]), lit([0xFF, 0xD9])
SCAN = lit([0x12, 0xFF, 0x00, 0x34]) + cat([lit([0xFF, 0xD0 + i, 0x50 + i]) for i in range(8)]) + lit([0xE1, 0xFF, 0x00])


def sequences(n):
    """every sequence of n segments before the scan"""
    b = blob
    kinds = [lambda i: ("app", seg(0xE0, lit(b"JFIF\0") + b("jfif%d" % i, 4))), lambda i: ("exif", seg(0xE1, EX + b("old%d" % i, 2 + i))), lambda i: ("app", seg(0xE1, lit(b"http://ns.adobe.com/xap/1.0/\0") + b("xmp%d" % i, 3))),
             lambda i: ("app12", seg(0xEC, b("d%d" % i, 3 + i))), lambda i: ("app13", seg(0xED, b("p%d" % i, i))), lambda i: ("seg", seg(0xDB, b("q%d" % i, 5))), lambda i: ("app", seg(0xE1, lit(b"Ex"))),
             lambda i: ("fill", None)]
    for ks in itertools.product(range(len(kinds)), repeat=n):
        parts, fill = [], 0
        for i, k in enumerate(ks):
            kind, body = kinds[k](i)
            if kind == "fill":
                fill += 1
                continue
            # fill bytes are no part of a segment: they may go or stay with it
            if fill and kind in ("exif", "app12", "app13"):
                parts.append(("pad", lit([0xFF] * fill)))
                fill = 0
            parts.append((kind, lit([0xFF] * fill) + body))
            fill = 0
        yield "segments " + " ".join(map(str, ks)), parts + [("scan", seg(0xDA, b("s", 4)) + SCAN), ("eoi", EOI)]


def images():
    b = blob
    app0 = ("app", seg(0xE0, lit(b"JFIF\0") + b("jfif", 9)))
    ex = lambda n=7, nm="old": ("exif", seg(0xE1, EX + b(nm, n)))
    xmp = ("app", seg(0xE1, lit(b"http://ns.adobe.com/xap/1.0/\0") + b("xmp", 5)))
    dqt = ("seg", seg(0xDB, b("q", 6)))
    sof = ("seg", seg(0xC0, b("sof", 9)))
    dht = ("seg", seg(0xC4, b("h", 3)))
    sos = ("scan", seg(0xDA, b("s", 4)) + SCAN)
    a12 = lambda nm, n=3: ("app12", seg(0xEC, b(nm, n)))
    a13 = lambda nm, n=4: ("app13", seg(0xED, b(nm, n)))
    eoi = ("eoi", EOI)
    yield "no Exif", [app0, dqt, sof, dht, sos, eoi]
    yield "one Exif segment", [app0, ex(), dqt, sof, sos, eoi]
    yield "an Exif segment first", [ex(8), app0, dqt, sof, sos, eoi]
    yield "two adjacent Exif segments", [ex(5), ex(9, "old2"), dqt, sof, sos, eoi]
    yield "Exif segments apart", [app0, ex(5), dqt, ex(2, "old2"), sof, dht, ex(1, "old3"), sos, eoi]
    yield "XMP before Exif", [app0, xmp, ex(), dqt, sos, eoi]
    yield "XMP only", [xmp, dqt, sos, eoi]
    yield "APP1 shorter than the Exif header", [("app", seg(0xE1, lit(b"Exi"))), ("app", seg(0xE1, [])), ex(), dqt, sos, eoi]
    yield "APP1 that differs in its last header byte", [("app", seg(0xE1, lit(b"ExifX\0") + b("x", 4))), ex(), sos, eoi]
    yield "APP12 and APP13", [app0, a12("d"), ex(), a13("p"), dqt, a12("e", 9), a12("f", 0), a13("r", 2), sos, eoi]
    yield "neighbouring application segments", [app0, ("app", seg(0xEB, b("i", 3))), ("app", seg(0xEE, lit(b"Adobe") + b("a", 7))), a13("p"), a13("r", 1), a12("d"), ("app", seg(0xE2, b("icc", 5))), ex(), dqt, sos, eoi]
    yield "a long Exif segment", [app0, ex(300), dqt, sos, eoi]
    yield "a long segment before Exif", [app0, ("seg", seg(0xDB, b("q", 530))), ex(), sos, eoi]
    yield "empty segments", [("seg", seg(0xFE, [])), ex(0), ("seg", seg(0xFE, [])), sos, eoi]
    yield "a segment that looks like it holds markers", [("app", seg(0xE2, cat([SOI, seg(0xE1, EX + b("in", 3)), seg(0xEC, b("j", 2)), EOI]))), ex(), dqt, sos, eoi]
    yield "several scans", [app0, ex(), dqt, sof, dht, sos, dht, sos, ("seg", seg(0xFE, b("com", 2))), sos, eoi]
    yield "segments after a scan", [app0, sof, sos, ex(), a12("d"), a13("p"), dht, sos, ex(3, "old2"), a13("r", 1), sos, eoi]
    yield "Exif after the scan", [app0, sof, sos, ("exif", seg(0xE1, EX + lit([1, 2, 3]))), eoi]
    yield "APP12 after the scan", [app0, sof, sos, ("app12", seg(0xEC, lit([1, 2, 3]))), eoi]
    yield "APP13 after the scan", [app0, sof, sos, ("app13", seg(0xED, lit([1, 2, 3]))), eoi]
    yield "Exif after every restart marker", [app0] + [x for i in range(8) for x in (("scan", seg(0xDA, b("s%d" % i, 2)) + lit([1, 0xFF, 0xD0 + i, 2])), ex(3, "o%d" % i), a12("d%d" % i, 2))] + [eoi]
    yield "fill bytes before Exif", [app0, ("pad", lit([0xFF])), ex(), dqt, sof, sos, eoi]
    yield "fill bytes before application segments", [app0, ("pad", lit([0xFF])), ex(), ("pad", lit([0xFF] * 2)), a12("d"), dqt, ("pad", lit([0xFF] * 3)), a13("p"), sos, eoi]
    yield "more than 64 KiB", [app0, ex(), dqt] + [("app", seg(0xE2, lit([i + 1]) * 65000)) for i in range(3)] + [sof, ex(3, "old2"), sos, eoi]
    yield "no end marker", [app0, ex(), dqt, sos]
    yield "data after the end", [app0, ex(), dqt, sos, eoi, ("tail", SOI + seg(0xE1, EX + b("t", 3)) + seg(0xEC, b("u", 3)) + EOI)]


def run(c):
    p = c.p
    V = blob("new", 9)
    j = Judge(c, "JPEG")
    items = list(images())
    for n in range(4 if c.tier == "thorough" else 3):
        items += list(sequences(n))

    def job(c, lo, hi):
        j = Judge(c, "JPEG")
        for name, parts in items[lo:hi]:
            data = SOI + cat([b for _, b in parts])
            for pre in ("", "file_"):
                for op, kind in (("clear_metadata", "exif"), ("clear_app12_segment", "app12"), ("clear_app13_segment", "app13")):
                    wants = [SOI + cat([b for k, b in v if k != kind]) for v in variants(parts)]
                    want = wants[0]
                    j.do(pre + op, name, data, lambda o: ("it fails" if not o.ok else None if any(same(o.data, w) for w in wants) else "the image should lose its %s segments and nothing else: %s" % (kind, diff(o.data, want))))
            def rest(v):
                v = [x for x in v if x[0] != "exif"]
                return [SOI] + [b for _, b in v], next(i for i, (k, _) in enumerate(v) if k == "scan") + 1
            rests = [rest(v) for v in variants(parts)]
            kept, first = rests[0]
            for op in ("write_to_vec", "write_to_file"):
                for v in (V, blob("even", 300)):
                    s = seg(0xE1, EX + v)
                    j.do(op, "%s, %d bytes" % (name, len(v)), data, lambda o: ("it fails" if not o.ok else None if any(one_inserted(o.data, k, s, range(1, f + 1)) for k, f in rests) else
                         "the image should be what it was without Exif plus one APP1 segment with the encoding: %s" % diff(o.data, kept[0] + s + cat(kept[1:]))), encoded=v)
                j.do(op, name + ", encoding fails", data, lambda o: ("it reports success" if o.ok else None if same(o.data, data) else "the image is changed although writing fails: %s" % diff(o.data, data)))
            exif = [b[b.index(C(0xE1)) + 3:] for k, b in parts if k == "exif"]
            for op in ("new_from_vec", "new_from_path"):
                def read(o):
                    if not exif:
                        return "metadata is found in an image that has none" if o.ok or o.dec is not None else None
                    if not o.ok or o.dec is None:
                        return "no metadata is found"
                    return None if any(same(o.dec, x) or same(o.dec, x[6:]) for x in exif[:1]) else "what is decoded is not the Exif segment: %s" % diff(o.dec, exif[0])
                j.do(op, name, data, read)
            for op in ("new_from_path", "new_from_vec", "clear_metadata", "clear_app12_segment"):
                c.count(op)

    def lengths(c):
        j = Judge(c, "JPEG")
        parts = [SOI, seg(0xE0, blob("j", 3)), seg(0xDA, blob("s", 2)), SCAN, EOI]
        data = cat(parts)
        for op in ("write_to_vec", "write_to_file", "as_u8_vec"):
            for n in (65526, 65527):
                v = long(n)
                s = seg(0xE1, EX + v)
                j.do(op, "metadata of %d bytes" % n, data, lambda o: ("it fails" if not o.ok else None if (same(o.ret, s) if op == "as_u8_vec" else one_inserted(o.data, parts, s, (1, 2))) else "the segment is not the encoding"), encoded=v)
            for n in (65528, 65536, 70000):
                j.do(op, "metadata of %d bytes" % n, data, lambda o: ("it reports success, but a segment can not hold that" if o.ok else None if same(o.data, data) or op != "write_to_vec" and same(o.data, data) or op == "as_u8_vec" else "the image is changed although writing fails"), encoded=long(n))
        for n in (0, 1, 9, 255, 256):
            v = blob("v", n)
            j.do("as_u8_vec", "metadata of %d bytes" % n, data, lambda o: ("it fails" if not o.ok else None if same(o.ret, seg(0xE1, EX + v)) else "it is not an APP1 segment with the encoding"), encoded=v)

    k = (len(items) + 31) // 32
    c.parallel([(lambda c, i=i: job(c, i, i + k)) for i in range(0, len(items), k)] + [lengths])
    c.floor("operation x image", 200)
