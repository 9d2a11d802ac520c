"""A WebP file keeps its image: one Exif chunk, the extended header, sizes and padding."""
from rules.containers import *
import itertools

META = {
    "level": "other",
    "exhaustive": False,
    "rule": "on every listed chunk structure, clearing removes the EXIF chunk and its flag, writing leaves one EXIF chunk and sets the flag in an (added) VP8X chunk with the image's dimensions, sizes are right, every other chunk is untouched, and a failed write changes nothing",
    "explanation": "the public operations are evaluated abstractly, for a vector and for a file, on RIFF chunk structures whose names and lengths are given and whose payload bytes are arbitrary symbols; "
                   "the resulting sequence of symbols is parsed by the rule and compared with what the structure determines.",
    "assumptions": ["std::io and std::fs do what they document and I/O on the image succeeds", "chunk lengths and image dimensions outside the listed ones behave as the listed ones"],
}


def chunk(name, body):
    return lit(name) + le(len(body), 4) + body + (lit([0]) if len(body) % 2 else [])


def riff(chunks):
    body = cat([chunk(n, b) for n, b in chunks])
    return lit(b"RIFF") + le(len(body) + 4, 4) + lit(b"WEBP") + body


def parse(data):
    """chunks of a WebP file or a message"""
    if data is None or not all(is_c(x) for x in data[:12]):
        return "the header is not there"
    if bytes(x.a[0] for x in data[:4]) != b"RIFF" or bytes(x.a[0] for x in data[8:12]) != b"WEBP":
        return "the signature is not there"
    n = int.from_bytes(bytes(x.a[0] for x in data[4:8]), "little")
    if n + 8 != len(data):
        return "the RIFF size is %d, but %d bytes follow it" % (n, len(data) - 8)
    at, out = 12, []
    while at < len(data):
        h = data[at:at + 8]
        if len(h) < 8 or not all(is_c(x) for x in h):
            return "there is no chunk header at %d" % at
        n = int.from_bytes(bytes(x.a[0] for x in h[4:]), "little")
        if at + 8 + n + n % 2 > len(data):
            return "the chunk at %d is longer than the file" % at
        if n % 2 and data[at + 8 + n] is not C(0):
            return "the chunk at %d is not padded with 0" % at
        out.append((bytes(x.a[0] for x in h[:4]), data[at + 8:at + 8 + n]))
        at += 8 + n + n % 2
    return out


def vp8x(flags, w=None, h=None):
    d = blob("dim", 6) if w is None else le(w - 1, 3) + le(h - 1, 3)
    return b"VP8X", lit([flags, 0, 0, 0]) + d


def vp8(w, h, n=5):
    return b"VP8 ", blob("tag", 3) + lit([0x9d, 0x01, 0x2a]) + le(w, 2) + le(h, 2) + blob("vp8", n)


def vp8l(w, h, alpha=0, n=5):
    return b"VP8L", lit([0x2f]) + le((w - 1) | (h - 1) << 14 | alpha << 28, 4) + blob("vp8l", n)


def images():
    b = blob
    ex = lambda n=8, nm="old": (b"EXIF", b(nm, n))
    xmp = (b"XMP ", b("xmp", 7))
    icc = (b"ICCP", b("icc", 5))
    anmf = lambda i: (b"ANMF", b("f%d" % i, 18))
    anim = (b"ANIM", b("anim", 6))
    alph = (b"ALPH", b("alph", 9))
    raw = lambda n=6: (b"VP8 ", b("frame", n))
    yield "extended, no Exif", [vp8x(0x20), icc, raw()]
    yield "extended, Exif at the end", [vp8x(0x2c), icc, raw(7), ex(), xmp]
    yield "extended, Exif of odd length", [vp8x(0x0c), raw(), ex(7), xmp]
    yield "extended, Exif before XMP of odd length", [vp8x(0x0c), raw(), ex(1), (b"XMP ", b("x", 3))]
    yield "extended, alpha", [vp8x(0x18), alph, raw(), ex()]
    yield "extended, alpha without Exif", [vp8x(0x14), alph, raw(5), xmp]
    yield "extended, only alpha", [vp8x(0x10), alph, raw()]
    yield "extended, animation", [vp8x(0x0a), anim, anmf(0), anmf(1), ex(11)]
    yield "extended, animation without Exif", [vp8x(0x02), anim, anmf(0), anmf(1)]
    yield "extended, Exif before the image", [vp8x(0x08), ex(3), raw(), xmp]
    yield "extended, two Exif chunks", [vp8x(0x08), raw(), ex(3), ex(4, "old2")]
    yield "extended, Exif chunks apart", [vp8x(0x0c), raw(), ex(2), xmp, ex(5, "old2")]
    yield "extended, unknown chunks", [vp8x(0x28), icc, raw(), (b"ABCD", b("u", 3)), ex(6), (b"wxyz", b("v", 4))]
    yield "extended, lossless", [vp8x(0x3c), icc, (b"VP8L", b("l", 12)), ex(8), xmp]
    yield "extended, empty chunks", [vp8x(0x08), raw(), (b"ABCD", []), ex(0)]
    yield "extended, more than 64 KiB", [vp8x(0x0c), raw(3), (b"ABCD", lit([7]) * 70001), ex(5), (b"XMP ", b("x", 5)), (b"WXYZ", lit([8]) * 70000)]
    yield "extended, long chunks", [vp8x(0x08), raw(300), ex(270), (b"XMP ", b("x", 258))]


def simple():
    for w, h in ((1, 1), (300, 20), (2, 16383), (16383, 1), (640, 480), (0x1234, 0x0F0F)):
        yield "VP8 of %d x %d" % (w, h), [vp8(w, h)], (w, h, 0)
        yield "VP8L of %d x %d" % (w, h), [vp8l(w, h)], (w, h, 0)
    yield "VP8 of odd length", [vp8(70, 50, 4)], (70, 50, 0)
    yield "VP8 with upscaling", [(b"VP8 ", blob("tag", 3) + lit([0x9d, 0x01, 0x2a]) + le(70 | 1 << 14, 2) + le(50 | 2 << 14, 2) + blob("d", 2))], (70, 50, 0)
    yield "VP8L with alpha", [vp8l(16384, 9, 1)], (16384, 9, 1)
    yield "VP8L of odd length", [vp8l(9, 16384, 0, 4)], (9, 16384, 0)
    yield "VP8L and an unknown chunk", [vp8l(100, 200), (b"ABCD", blob("u", 5))], (100, 200, 0)


def sequences(n):
    b = blob
    kinds = [lambda i: (b"EXIF", b("old%d" % i, 3 + i)), lambda i: (b"XMP ", b("xmp%d" % i, 4 + i)), lambda i: (b"VP8 ", b("im%d" % i, 5 + i)), lambda i: (b"ALPH", b("al%d" % i, 2 + i)),
             lambda i: (b"ICCP", b("icc%d" % i, i)), lambda i: (b"ANMF", b("an%d" % i, 16 + i))]
    for ks in itertools.product(range(len(kinds)), repeat=n):
        cs = [kinds[k](i) for i, k in enumerate(ks)]
        yield "chunks " + " ".join(map(str, ks)), [vp8x(0x34 | (0x08 if 0 in ks else 0))] + cs


def flag(ch, on):
    """the VP8X chunk with the Exif bit set or cleared"""
    n, b = ch
    return n, [C(b[0].a[0] | 8 if on else b[0].a[0] & ~8)] + b[1:]


def check_written(o, want, v):
    """want: the chunks that must be there, in order; one EXIF chunk with v among them, not between an ALPH and its image"""
    if not o.ok:
        return "it fails"
    got = parse(o.data)
    if isinstance(got, str):
        return got
    at = [i for i, (n, _) in enumerate(got) if n == b"EXIF"]
    if len(at) != 1:
        return "there are %d EXIF chunks" % len(at)
    i = at[0]
    if not same(got[i][1], v):
        return "the EXIF chunk does not hold the encoding: %s" % diff(got[i][1], v)
    if i == 0:
        return "the EXIF chunk is the first"
    if i + 1 < len(got) and got[i - 1][0] == b"ALPH" and got[i + 1][0] in (b"VP8 ", b"VP8L"):
        return "the EXIF chunk separates the alpha from the image data"
    return others(got[:i] + got[i + 1:], want)


def others(got, want):
    if [n for n, _ in got] != [n for n, _ in want]:
        return "the other chunks are %s instead of %s" % ([n.decode() for n, _ in got], [n.decode() for n, _ in want])
    for (n, a), (_, b) in zip(got, want):
        if not same(a, b):
            return "the chunk %s is not what it was%s: %s" % (n.decode(), " (apart from its flag)" if n == b"VP8X" else "", diff(a, b))
    return None


def run(c):
    V, V2 = blob("new", 9), blob("even", 300)
    items = [(n, ch, None) for n, ch in images()] + list(simple())
    for n in range(4 if c.tier == "thorough" else 3):
        items += [(nm, ch, None) for nm, ch in sequences(n)]

    def job(c, part):
        j = Judge(c, "WEBP")
        for name, chunks, dims in part:
            data = riff(chunks)
            ext = chunks[0][0] == b"VP8X"
            rest = [x for x in chunks if x[0] != b"EXIF"]
            clean = ([flag(rest[0], False)] + rest[1:]) if ext else rest
            full = ([flag(rest[0], True)] + rest[1:]) if ext else [vp8x(0x08 | (0x10 if dims[2] else 0), dims[0], dims[1])] + rest
            for op in ("clear_metadata", "file_clear_metadata"):
                def cleared(o):
                    if not o.ok:
                        return "it fails"
                    got = parse(o.data)
                    return got if isinstance(got, str) else others(got, clean)
                j.do(op, name, data, cleared)
            for op in ("write_to_vec", "write_to_file") if "64 KiB" not in name else ("write_to_file",):
                for v in (V, V2):
                    j.do(op, "%s, %d bytes" % (name, len(v)), data, lambda o: check_written(o, full, v), encoded=v)
                j.do(op, name + ", encoding fails", data, lambda o: ("it reports success" if o.ok else None if same(o.data, data) else "the image is changed although writing fails: %s" % diff(o.data, data)))
            exif = [b for n, b in chunks if n == b"EXIF"]
            for op in ("new_from_vec", "new_from_path"):
                def read(o):
                    if not exif:
                        return "metadata is found in an image that has none" if o.ok or o.dec is not None else None
                    if not o.ok or o.dec is None:
                        return "no metadata is found"
                    d = o.dec
                    if same(d[:6], lit(b"Exif\0\0")):
                        d = d[6:]
                    x = exif[0]
                    return None if same(d, x) or same(d, x + [C(0)] * (len(x) % 2)) else "what is decoded is not the EXIF chunk: %s" % diff(d, x)
                j.do(op, name, data, read)

    def alone(c):
        j = Judge(c, "WEBP")
        for n in (0, 1, 2, 9, 255, 256, 300):
            v = blob("v", n)
            j.do("as_u8_vec", "metadata of %d bytes" % n, [], lambda o: ("it fails" if not o.ok else None if same(o.ret, chunk(b"EXIF", v)) else "it is not an EXIF chunk with the encoding"), encoded=v)

    k = (len(items) + 23) // 24
    c.parallel([(lambda c, i=i: job(c, items[i:i + k])) for i in range(0, len(items), k)] + [alone])
    c.floor("operation x image", 400)
