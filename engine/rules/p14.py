"""A JPEG XL file keeps every box but its Exif box."""
from rules.containers import *
import itertools

META = {
    "level": "other",
    "exhaustive": False,
    "rule": "on every listed box structure, clearing removes exactly the Exif boxes (plain and Brotli), writing leaves one Exif box with the encoding after the file type box, a bare codestream is put into a container first, reading decodes the Exif box, and a failed write changes nothing",
    "explanation": "the public operations are evaluated abstractly, for a vector and for a file, on box structures whose types and lengths are given and whose payload bytes are arbitrary symbols; "
                   "the resulting sequence of symbols is compared with the one the structure determines.",
    "assumptions": ["std::io and std::fs do what they document and I/O on the image succeeds", "Brotli decompression gives what was compressed", "box lengths outside the listed structures behave as the listed ones; boxes of 4 GiB and more are left out"],
}

SIG = lit(bytes([0, 0, 0, 12]) + b"JXL " + bytes([0x0D, 0x0A, 0x87, 0x0A]))
FTYP = lit(bytes([0, 0, 0, 20]) + b"ftypjxl " + bytes(4) + b"jxl ")
EX = lit(b"Exif\0\0")


def box(name, body, open_end=False):
    return be(0 if open_end else len(body) + 8, 4) + lit(name) + body


def exif_box(v):
    return box(b"Exif", be(6, 4) + EX + v)


PLAIN = {}


class Jxl(Api):
    def more(self, e, st, site, name, m, fr, args, t):
        if name.endswith("BrotliDecompress"):
            data, pos, setpos, _ = self.stream(e, st, args[0])
            z = data[pos:]
            out = next((PLAIN[k] for k in PLAIN if same(z, blob(k[0], k[1]))), None)
            if out is None:
                st.env[INEX] = TRUE
                self.why.append(("brotli", "input"))
                return None
            place, v = place_of(e, st, args[1])
            e.setval(st, place, newlist(list(items_of(e, st, v)) + out, "std::vec::Vec<u8>"), site)
            return [(st, okv(UNIT))]
        return None


def brob(kind, nm, n, plain=None):
    if plain is not None:
        PLAIN[(nm, n)] = plain
    return box(b"brob", lit(kind) + blob(nm, n))


def images():
    b = blob
    code = ("box", box(b"jxlc", b("code", 9)))
    ex = lambda n=7, nm="old": ("exif", exif_box(b(nm, n)))
    ex0 = lambda n=6, nm="old0": ("exif", box(b"Exif", be(0, 4) + b(nm, n)))
    xml = ("box", box(b"xml ", b("xmp", 5)))
    lvl = ("box", box(b"jxll", b("lvl", 1)))
    zex = lambda nm="z": ("exif", brob(b"Exif", nm, 6, be(0, 4) + b(nm + "plain", 8)))
    zxml = ("box", brob(b"xml ", "zx", 5))
    part = lambda i, n=5, last=False: ("box", box(b"jxlp", b("p%d" % i, n), last))
    yield "no Exif", [code]
    yield "a level and no Exif", [lvl, code]
    yield "Exif before the code", [ex(), code]
    yield "Exif after the code", [code, ex()]
    yield "Exif without the Exif header", [lvl, ex0(), code]
    yield "Exif box that is last and open", [code, ("exif", box(b"Exif", be(0, 4) + b("o", 5), True))]
    yield "two Exif boxes", [ex(2), ex(3, "old2"), code]
    yield "Exif boxes apart", [ex(3), code, ex(2, "old2"), xml]
    yield "XML and Exif", [xml, ex(), code]
    yield "XML only", [xml, code]
    yield "compressed Exif", [zex(), code]
    yield "compressed XML", [zxml, code]
    yield "compressed XML and Exif", [zxml, ex(), code]
    yield "compressed XML, then compressed Exif", [zxml, zex(), code]
    yield "compressed Exif, then plain Exif", [zex(), xml, ex(4), code]
    yield "plain Exif, then compressed Exif", [ex(4), lvl, zex(), code]
    yield "partial code boxes", [part(0), ex(5), part(1), xml, part(2, 9)]
    yield "partial code boxes, the last open", [part(0), ex(5), part(1), part(2, 9, True)]
    yield "an open code box", [ex(), ("box", box(b"jxlc", b("code", 9), True))]
    yield "an open code box that looks like Exif", [ex(), ("box", box(b"jxlc", exif_box(b("i", 3)), True))]
    yield "an open code box without Exif", [lvl, ("box", box(b"jxlc", b("code", 3), True))]
    yield "an open empty box", [ex(), code, ("box", box(b"free", [], True))]
    yield "empty boxes", [("box", box(b"free", [])), ex(0), ("box", box(b"free", [])), code]
    yield "an empty box last", [ex(1), code, ("box", box(b"free", []))]
    yield "a box that looks like it holds boxes", [("box", box(b"free", exif_box(b("in", 3)))), ex(), code]
    yield "similar names", [("box", box(b"exif", b("e1", 4))), ("box", box(b"EXIF", b("e2", 4))), ("box", box(b"Exiv", b("e3", 4))), ex(2), code]
    yield "a long Exif box", [ex(300), code]
    yield "more than 64 KiB", [ex(3), ("box", box(b"jxlc", b("code", 5) + lit([7]) * 70000)), ex(2, "old2"), ("box", box(b"xml ", lit([8]) * 70000))]
    yield "a long code box", [ex(3), ("box", box(b"jxlc", b("code", 280))), ex(2, "old2")]


def sequences(n):
    b = blob
    kinds = [lambda i: ("exif", exif_box(b("old%d" % i, 2 + i))), lambda i: ("exif", brob(b"Exif", "z%d" % i, 4 + i, be(0, 4) + b("zp%d" % i, 9 + i))), lambda i: ("box", brob(b"xml ", "zx%d" % i, 3)),
             lambda i: ("box", box(b"xml ", b("x%d" % i, 4 + i))), lambda i: ("box", box(b"jxlp", b("p%d" % i, 5))), lambda i: ("box", box(b"jxll", b("l%d" % i, 1))), lambda i: ("box", box(b"free", []))]
    for ks in itertools.product(range(len(kinds)), repeat=n):
        yield "boxes " + " ".join(map(str, ks)), [kinds[k](i) for i, k in enumerate(ks)] + [("box", box(b"jxlc", b("code", 9)))]


def run(c):
    V, V2 = blob("new", 9), blob("even", 300)
    items = list(images())
    for n in range(5 if c.tier == "thorough" else 4):
        items += list(sequences(n))

    def one_exif(o, parts, v):
        if not o.ok:
            return "it fails"
        return None if one_inserted(o.data, parts, exif_box(v), range(2, len(parts) + 1)) or one_inserted(o.data, parts, box(b"Exif", be(0, 4) + v), range(2, len(parts) + 1)) else \
            "the image should be what it was without Exif plus one Exif box with the encoding: %s" % diff(o.data, cat(parts[:2]) + exif_box(v) + cat(parts[2:]))

    def job(c, part):
        j = Judge(c, "JXL")
        for name, parts in part:
            data = SIG + FTYP + cat([b for _, b in parts])
            kept = [SIG, FTYP] + [b for k, b in parts if k != "exif"]
            open_end = parts[-1][1][:4] == be(0, 4)
            for op in ("clear_metadata", "file_clear_metadata"):
                j.do(op, name, data, lambda o: ("it fails" if not o.ok else None if same(o.data, cat(kept)) else "the image should lose its Exif boxes and nothing else: %s" % diff(o.data, cat(kept))), hook=Jxl)
            for op in ("write_to_vec", "write_to_file"):
                for v in (V, V2):
                    def written(o):
                        m = one_exif(o, kept, v)
                        if not m and open_end and parts[-1][0] == "box" and not same(o.data[-len(parts[-1][1]):], parts[-1][1]):
                            return "the box that extends to the end is no longer the last"
                        return m
                    j.do(op, "%s, %d bytes" % (name, len(v)), data, written, encoded=v, hook=Jxl)
                j.do(op, name + ", encoding fails", data, lambda o: ("it reports success" if o.ok else None if same(o.data, data) else "the image is changed although writing fails: %s" % diff(o.data, data)), hook=Jxl)
            exif = []
            for k, b in parts:
                if k == "exif":
                    exif.append(PLAIN[next(k2 for k2 in PLAIN if same(b[12:], blob(*k2)))][4:] if same(b[4:8], lit(b"brob")) else b[12:])
            for op in ("new_from_vec", "new_from_path"):
                def read(o):
                    if not exif:
                        return "metadata is found in an image that has none" if o.ok or o.dec is not None else None
                    if not o.ok or o.dec is None:
                        return "no metadata is found"
                    x = exif[0]
                    return None if same(o.dec, x) or same(o.dec, x[6:]) and same(x[:6], EX) else "what is decoded is not the first Exif box: %s" % diff(o.dec, x)
                j.do(op, name, data, read, hook=Jxl)

    def bare(c):
        j = Judge(c, "JXL")
        for n in (10, 40, 300, 70000):
            data = lit([0xFF, 0x0A]) + (blob("code", n) if n < 1000 else blob("code", 9) + lit([7]) * (n - 9))
            name = "a bare codestream of %d bytes" % len(data)
            parts = [SIG, FTYP, box(b"jxlc", data)]
            for op in ("clear_metadata", "file_clear_metadata"):
                j.do(op, name, data, lambda o: (None if same(o.data, data) else "the image is changed: %s" % diff(o.data, data)), hook=Jxl)
            for op in ("new_from_vec", "new_from_path"):
                j.do(op, name, data, lambda o: ("metadata is found in an image that has none" if o.ok or o.dec is not None else None if same(o.data, data) else "the image is changed"), hook=Jxl)
            for op in ("write_to_vec", "write_to_file"):
                for v in (V, V2):
                    j.do(op, "%s, metadata of %d bytes" % (name, len(v)), data, lambda o: one_exif(o, parts, v), encoded=v, hook=Jxl)
                j.do(op, name + ", encoding fails", data, lambda o: ("it reports success" if o.ok else None if same(o.data, data) else "the image is changed although writing fails: %s" % diff(o.data, data)), hook=Jxl)

    k = (len(items) + 31) // 32
    c.parallel([(lambda c, i=i: job(c, items[i:i + k])) for i in range(0, len(items), k)] + [bare])
    c.floor("operation x image", 300)
