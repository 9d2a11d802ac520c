"""A PNG keeps every chunk but those that hold Exif data."""
from rules.containers import *
import itertools, zlib, hashlib

META = {
    "level": "other",
    "exhaustive": False,
    "rule": "on every listed chunk structure, clearing removes exactly the chunks that hold Exif data and takes it out of the XMP chunk, writing leaves one text chunk with the encoding between the header and the end, checksums and lengths are right, reading decodes the Exif data, and a failed write changes nothing",
    "explanation": "the public operations are evaluated abstractly, for a vector and for a file, on chunk structures whose names, keywords and lengths are given and whose payload bytes are arbitrary symbols (metadata: constants that cover all byte values); "
                   "the resulting sequence is compared with the one the structure determines. CRC-32, zlib and the XMP filter are injective stand-ins.",
    "assumptions": ["std::io and std::fs do what they document and I/O on the image succeeds", "crc and miniz_oxide compute CRC-32 and zlib streams", "chunk lengths outside the listed structures behave as the listed ones",
                    "what the XMP filter keeps is the subject of P15"],
}

SIG = lit(bytes([0x89, 0x50, 0x4E, 0x47, 0x0D, 0x0A, 0x1A, 0x0A]))
EX = lit(b"Exif\0\0")
RAW = b"Raw profile type exif"
XMPK = b"XML:com.adobe.xmp"
ZIP, CLEAN = {}, {}


def digest(items):
    h = hashlib.blake2b(digest_size=8)
    for x in items:
        h.update(b"%d;" % (x.a[0] & 255) if is_c(x) else str(x.a).encode() + b";")
    return h.digest()


def crc(items):
    """CRC-32 of constants; of anything else a number that depends on all of it"""
    if all(is_c(x) for x in items):
        return zlib.crc32(bytes(x.a[0] & 255 for x in items))
    return int.from_bytes(digest(items)[:4], "big")


def packed(items):
    z = blob("zlib(%s)" % digest(items).hex(), 7 + len(items) % 5)
    ZIP[tuple(z)] = list(items)
    return z


def cleaned(items):
    z = blob("clean(%s)" % digest(items).hex(), 3 + len(items) % 7)
    CLEAN[tuple(z)] = list(items)
    return z


class Png(Api):
    def more(self, e, st, site, name, m, fr, args, t):
        if "crc::" in name and m == "new":
            return [(st, agg("crcengine", 0, ()))]
        if "crc::" in name and m == "checksum":
            it = byte_items(e, st, e.val_deep(st, args[1]))
            if it is None or not all(is_c(x) or x.op == "sym" and x.a[0][0] == "in" for x in it):
                raise Lost("crc input")
            return [(st, C(crc(it)))]
        if m == "compress_to_vec_zlib":
            it = byte_items(e, st, e.val_deep(st, args[0]))
            if it is None:
                raise Lost("zlib input")
            return [(st, newlist(packed(it), "std::vec::Vec<u8>"))]
        if m == "decompress_to_vec_zlib":
            it = byte_items(e, st, e.val_deep(st, args[0]))
            if it is None:
                raise Lost("zlib input")
            if tuple(it) in ZIP:
                return [(st, okv(newlist(ZIP[tuple(it)], "std::vec::Vec<u8>")))]
            return [(st, errv(mk("sym", ("in", "zlib error"), ty="miniz_oxide::inflate::DecompressError")))]
        if name.endswith("remove_exif_from_xmp"):
            it = byte_items(e, st, e.val_deep(st, args[0]))
            if it is None:
                raise Lost("xmp input")
            return [(st, okv(newlist(cleaned(it), "std::vec::Vec<u8>")))]
        return None


class Plain(Png):
    flag = FALSE


def chunk(name, body):
    c = lit(name) + body
    return be(len(body), 4) + c + be(crc(c), 4)


def rawtext(data, wrap=0):
    """the text of a raw profile, as ImageMagick and others write it; data are constants"""
    b = bytes(x.a[0] for x in data)
    h = b.hex()
    if wrap:
        h = "\n".join(h[i:i + wrap] for i in range(0, len(h), wrap))
    return lit(("\nexif\n%8d\n%s\n" % (len(b), h)).encode())


def ztxt(key, text):
    return chunk(b"zTXt", lit(key + b"\0\0") + packed(text))


def text(key, text):
    return chunk(b"tEXt", lit(key + b"\0") + text)


def itxt(key, text, comp=0, lang=b"", trans=b""):
    return chunk(b"iTXt", lit(key + b"\0" + bytes([comp, 0]) + lang + b"\0" + trans + b"\0") + (packed(text) if comp else text))


DATA = EX + lit(b"II*\0" + bytes(range(256)))
ODD = lit(b"MM\0*" + bytes(range(255, 0, -7)))


def images():
    b = blob
    ihdr = ("box", chunk(b"IHDR", b("ihdr", 13)))
    idat = lambda i=0, n=9: ("idat", chunk(b"IDAT", b("d%d" % i, n)))
    iend = ("iend", chunk(b"IEND", []))
    exif = lambda n=9, nm="old": ("exif", chunk(b"eXIf", b(nm, n)), b(nm, n))
    raw = lambda how, data=DATA, wrap=0: ("exif", how(RAW, rawtext(data, wrap)), data)
    other = lambda nm, n=3, name=b"gAMA": ("box", chunk(name, b(nm, n)))
    xmp = lambda how, **k: ("xmp", how(XMPK, b("xmp", 8), **k), how(XMPK, cleaned(b("xmp", 8)), **k))
    yield "no Exif", [ihdr, idat(), iend]
    yield "eXIf", [ihdr, exif(), idat(), iend]
    yield "eXIf after the image", [ihdr, idat(), exif(7), iend]
    yield "eXIf that is empty", [ihdr, exif(0), idat(), iend]
    yield "two eXIf chunks", [ihdr, exif(3), exif(4, "old2"), idat(), iend]
    yield "eXIf chunks apart", [ihdr, exif(3), idat(), exif(4, "old2"), iend]
    yield "a long eXIf", [ihdr, exif(300), idat(), iend]
    yield "a profile in zTXt", [ihdr, raw(ztxt), idat(), iend]
    yield "a profile in tEXt", [ihdr, raw(text), idat(), iend]
    yield "a profile in iTXt", [ihdr, raw(itxt), idat(), iend]
    yield "a compressed profile in iTXt", [ihdr, raw(lambda k, t: itxt(k, t, 1, b"en", b"tr")), idat(), iend]
    yield "a wrapped profile", [ihdr, raw(ztxt, DATA, 72), idat(), iend]
    yield "a profile that ends in a zero", [ihdr, raw(ztxt, DATA + lit([0])), idat(), iend]
    yield "a wrapped profile without Exif header", [ihdr, raw(ztxt, ODD, 72), idat(), iend]
    yield "a profile after the image", [ihdr, idat(), raw(ztxt, ODD), iend]
    yield "a profile and eXIf", [ihdr, raw(ztxt), idat(), exif(5), iend]
    yield "eXIf and two profiles", [ihdr, exif(5), raw(ztxt), idat(), raw(text, ODD), iend]
    yield "other text chunks", [ihdr, ("box", text(b"Title", b("t", 4))), ("box", ztxt(b"Comment", b("c", 7))), ("box", itxt(b"Author", b("a", 3), 0, b"en", b"Autor")), raw(ztxt), idat(), iend]
    yield "only other text chunks", [ihdr, ("box", text(b"Title", b("t", 4))), ("box", ztxt(b"Comment", b("c", 7))), idat(), ("box", itxt(b"Author", b("a", 3))), iend]
    yield "similar keywords", [ihdr, ("box", ztxt(b"Raw profile type exiF", b("c", 7))), ("box", ztxt(b"Raw profile type exif2", b("c2", 7))), ("box", ztxt(b"Raw profile type xmp", b("c3", 7))), ("box", text(b"Raw profile type exi", b("c4", 7))),
                               ("box", text(b"XML:com.adobe.xmP", b("c5", 7))), idat(), iend]
    yield "a longer keyword than XMP", [ihdr, ("box", itxt(b"XML:com.adobe.xmp2", b("c", 7))), idat(), iend]
    yield "a shorter keyword than XMP", [ihdr, ("box", itxt(b"XML:com.adobe", b("c", 7))), ("box", itxt(b"XML:com.adobe.xmP", b("e", 7))), idat(), iend]
    yield "a longer keyword that holds a profile", [ihdr, ("box", ztxt(RAW + b"2", rawtext(ODD))), idat(), iend]
    yield "a shorter keyword that holds a profile", [ihdr, ("box", ztxt(RAW[:-1], rawtext(ODD))), ("box", text(RAW[:3], rawtext(ODD))), raw(ztxt), idat(), iend]
    yield "a keyword that is not UTF-8", [ihdr, ("box", text(b"R\xe9sum\xe9", b("t", 4))), exif(4), idat(), iend]
    yield "XMP", [ihdr, xmp(itxt), idat(), iend]
    yield "XMP with a language and keyword", [ihdr, xmp(itxt, lang=b"en", trans=b"Daten"), idat(), iend]
    yield "compressed XMP", [ihdr, xmp(itxt, comp=1), idat(), iend]
    yield "compressed XMP with a language", [ihdr, xmp(itxt, comp=1, lang=b"de-DE", trans=b"x"), idat(), iend]
    yield "XMP in zTXt", [ihdr, xmp(ztxt), idat(), iend]
    yield "XMP in tEXt", [ihdr, xmp(text), idat(), iend]
    yield "XMP and eXIf", [ihdr, xmp(itxt), exif(), idat(), iend]
    yield "eXIf, XMP, profile", [ihdr, exif(3), xmp(itxt, comp=1), raw(ztxt), idat(), iend]
    yield "profile, XMP after the image", [ihdr, raw(ztxt), idat(), xmp(itxt), other("tm", 7, b"tIME"), iend]
    yield "many chunks", [ihdr, other("g", 4), other("c", 32, b"cHRM"), other("p", 6, b"PLTE"), other("t", 2, b"tRNS"), other("ph", 9, b"pHYs"), exif(6), idat(0), idat(1, 5), idat(2, 0), other("tm", 7, b"tIME"), iend]
    yield "all chunk types", [ihdr] + [other(n.decode(), 2 + i % 4, n) for i, n in enumerate([b"cHRM", b"gAMA", b"cICP", b"iCCP", b"sBIT", b"sRGB", b"PLTE", b"bKGD", b"hIST", b"tRNS", b"pHYs", b"sPLT", b"vpAg"])] + [exif(1), idat(), other("tm", 7, b"tIME"), iend]
    yield "unknown chunks", [ihdr, other("a", 3, b"abCd"), exif(2), other("e", 4, b"exIf"), other("e2", 5, b"EXIF"), idat(), other("z", 6, b"ztXt"), iend]
    yield "a chunk that looks like it holds chunks", [ihdr, ("box", chunk(b"abCd", chunk(b"eXIf", b("in", 3)) + chunk(b"IEND", []))), exif(2), idat(), iend]
    yield "a long image", [ihdr, exif(2), idat(0, 270), idat(1, 260), iend]
    yield "more than 64 KiB", [ihdr, exif(2), ("box", chunk(b"abCd", lit([7]) * 70000)), idat(), exif(3, "old2"), ("box", chunk(b"abCe", lit([8]) * 70000)), iend]
    yield "animation", [ihdr, other("ac", 8, b"acTL"), other("f0", 26, b"fcTL"), idat(), other("f1", 26, b"fcTL"), other("fd", 9, b"fdAT"), exif(5), iend]
    yield "data after the end", [ihdr, exif(3), idat(), iend, ("tail", chunk(b"eXIf", b("t", 3)) + blob("junk", 5))]


def sequences(n):
    b = blob
    kinds = [lambda i: ("exif", chunk(b"eXIf", b("o%d" % i, 3 + i)), b("o%d" % i, 3 + i)),
             lambda i: ("exif", ztxt(RAW, rawtext(lit(b"II*\0" + bytes([i + 1] * (i + 2))))), lit(b"II*\0" + bytes([i + 1] * (i + 2)))),
             lambda i: ("box", ztxt(b"Comment", b("c%d" % i, 6))), lambda i: ("xmp", itxt(XMPK, b("x%d" % i, 8)), itxt(XMPK, cleaned(b("x%d" % i, 8)))),
             lambda i: ("box", chunk(b"gAMA", b("g%d" % i, 4))), lambda i: ("box", chunk(b"tEXt", lit(b"Title\0") + b("t%d" % i, 3)))]
    for ks in itertools.product(range(len(kinds)), repeat=n):
        for cut in range(n + 1):
            cs = [kinds[k](i) for i, k in enumerate(ks)]
            yield "chunks %s | %s" % (" ".join(map(str, ks[:cut])), " ".join(map(str, ks[cut:]))), [("box", chunk(b"IHDR", b("ihdr", 13)))] + cs[:cut] + [("idat", chunk(b"IDAT", b("d", 6)))] + cs[cut:] + [("iend", chunk(b"IEND", []))]


V = lit(b"II*\0" + bytes((7 * k + 3) % 256 for k in range(256)))
V2 = lit(b"MM\0*" + bytes([0, 9, 10, 15, 16, 159, 160, 255, 99]))


def parse(data, upto=None):
    if data is None or not same(data[:8], SIG):
        return "the signature is not there"
    at, out = 8, []
    while True:
        h = data[at:at + 8]
        if len(h) < 8 or not all(is_c(x) for x in h):
            return "there is no chunk header at %d" % at
        n = int.from_bytes(bytes(x.a[0] for x in h[:4]), "big")
        if at + 12 + n > len(data):
            return "the chunk at %d is longer than the file" % at
        body = data[at + 8:at + 8 + n]
        if not same(data[at + 8 + n:at + 12 + n], be(crc(h[4:] + body), 4)):
            return "the checksum of the chunk at %d is wrong" % at
        out.append((bytes(x.a[0] for x in h[4:]), body, data[at:at + 12 + n]))
        at += 12 + n
        if out[-1][0] == b"IEND":
            return out, data[at:]


def profile(body):
    """the data of a raw profile text, or a message"""
    it = body
    if not all(is_c(x) for x in it):
        return "it is no text"
    s = bytes(x.a[0] for x in it).decode("latin-1").split("\n")
    if len(s) < 5 or s[0] or s[1] != "exif" or not s[2].strip().isdigit():
        return "the profile has no header"
    try:
        d = bytes.fromhex("".join(s[3:]))
    except ValueError:
        return "the profile is not hexadecimal"
    return d, int(s[2])


def check_written(o, want, tail, v):
    if not o.ok:
        return "it fails"
    got = parse(o.data)
    if isinstance(got, str):
        return got
    got, rest = got
    if not same(rest, tail):
        return "the data after the end is not what it was"
    n = len(got) - len(want)
    if n != 1:
        return "there are %d chunks more than without Exif: %s" % (n, [x[0].decode("latin-1") for x in got])
    for i in range(1, len(got) - 1):
        if all(same(g[2], w) for g, w in zip(got[:i] + got[i + 1:], want)):
            name, body, _ = got[i]
            if got[i - 1][0] == b"IDAT" and got[i + 1][0] == b"IDAT":
                return "the image data is interrupted"
            if name == b"eXIf":
                return None if same(body, v) else "the eXIf chunk does not hold the encoding"
            k = len(RAW)
            if name != b"zTXt" or not same(body[:k + 2], lit(RAW + b"\0\0")):
                return "the new chunk is not the profile"
            t = ZIP.get(tuple(body[k + 2:]))
            if t is None:
                return "the profile is not compressed data"
            d = profile(t)
            if isinstance(d, str):
                return d
            d, ln = d
            if d[:6] != b"Exif\0\0" or not same(lit(d[6:6 + len(v)]), v) or d[6 + len(v):].strip(b"\0"):
                return "the profile does not hold the encoding"
            return None if ln == len(d) else "the profile's length says %d instead of %d" % (ln, len(d))
    return "the other chunks are not what they were: %s" % [x[0].decode("latin-1") for x in got]


def run(c):
    items = list(images())
    for n in range(4 if c.tier == "thorough" else 3):
        items += list(sequences(n))

    def job(c, part):
        j = Judge(c, "PNG")
        for name, parts in part:
            data = SIG + cat([x[1] for x in parts])
            kept = [x[2] if x[0] == "xmp" else x[1] for x in parts if x[0] != "exif"]
            tail = cat([x[1] for x in parts if x[0] == "tail"])
            want = SIG + cat(kept)
            for op in ("clear_metadata", "file_clear_metadata"):
                j.do(op, name, data, lambda o: ("it fails" if not o.ok else None if same(o.data, want) else "the image should lose its Exif data and nothing else: %s" % diff(o.data, want)), hook=Png)
            for op in ("write_to_vec", "write_to_file"):
                for v in ((V, V2) if not name.startswith("chunks") else (V2,)):
                    j.do(op, "%s, %d bytes" % (name, len(v)), data, lambda o: check_written(o, [x for x in kept if x is not tail and not (tail and same(x, tail))], tail, v), encoded=v, hook=Png)
                j.do(op, name + ", encoding fails", data, lambda o: ("it reports success" if o.ok else None if same(o.data, data) else "the image is changed although writing fails: %s" % diff(o.data, data)), hook=Png)
            exif = [x[2] for x in parts if x[0] == "exif"]
            for op in ("new_from_vec", "new_from_path"):
                def read(o):
                    if not exif:
                        return "metadata is found in an image that has none" if o.ok or o.dec is not None else None
                    if not o.ok or o.dec is None:
                        return "no metadata is found"
                    x = exif[0]
                    return None if same(o.dec, x) or same(x[:6], EX) and same(o.dec, x[6:]) else "what is decoded is not the first Exif data: %s" % diff(o.dec, x)
                j.do(op, name, data, read, hook=Png)

    def alone(c):
        j = Judge(c, "PNG")
        for v in (V, V2, []):
            def text_of(it):
                d = profile(it)
                if isinstance(d, str):
                    return d
                d, ln = d
                if d[:6] != b"Exif\0\0" or not same(lit(d[6:6 + len(v)]), v) or d[6 + len(v):].strip(b"\0") or ln != len(d):
                    return "the profile does not hold the encoding"

            def packed_form(o):
                if not o.ok or o.ret is None:
                    return "it fails"
                pre = lit(b"zTXt" + RAW + b"\0\0")
                if not same(o.ret[:len(pre)], pre):
                    return "it is not the content of a zTXt chunk"
                t = ZIP.get(tuple(o.ret[len(pre):]))
                return text_of(t) if t is not None else "the profile is not compressed data"
            j.do("as_u8_vec", "metadata of %d bytes as chunk" % len(v), [], packed_form, encoded=v, hook=Png)
            j.do("as_u8_vec", "metadata of %d bytes as text" % len(v), [], lambda o: "it fails" if not o.ok or o.ret is None else text_of(o.ret), encoded=v, hook=Plain)

    k = (len(items) + 31) // 32
    c.parallel([(lambda c, i=i: job(c, items[i:i + k])) for i in range(0, len(items), k)] + [alone])
    c.floor("operation x image", 300)
