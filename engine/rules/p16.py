"""Writing or clearing a TIFF replaces the whole content by the encoding."""
from rules.containers import *

META = {
    "level": "other",
    "exhaustive": False,
    "rule": "after writing or clearing, the vector or file holds exactly the encoding, whether that is shorter, as long as or longer than the old content; reading decodes the whole content; a failed write or an undecodable content changes nothing",
    "explanation": "the public operations are evaluated abstractly, for a vector and for a file, on contents of given lengths whose bytes are arbitrary symbols, with encodings of given lengths whose bytes are arbitrary symbols.",
    "assumptions": ["std::io and std::fs do what they document and I/O on the image succeeds", "lengths outside the listed ones behave as the listed ones",
                    "which tags clearing keeps is the subject of P09, how they are encoded of P06 and P08"],
}

SIGS = {"little endian": b"II*\0", "big endian": b"MM\0*"}


class Undecodable(Api):
    def before(self, e, st, site, name, fr, args, t):
        if name.endswith("Metadata::decode") or name.endswith("metadata::Metadata>::decode"):
            return [(st, errv(agg(IOERR, 0, (agg(EKIND, EKV["Other"], ()), mk("str", "undecodable")))))]
        return Api.before(self, e, st, site, name, fr, args, t)


# ImageWidth, ImageHeight, Compression, PhotometricInterpretation, StripOffsets, RowsPerStrip, StripByteCounts, XResolution, YResolution, ResolutionUnit
REQUIRED = (0x100, 0x101, 0x103, 0x106, 0x111, 0x116, 0x117, 0x11a, 0x11b, 0x128)
SHORT = {h: type("Short%x" % h, (Api,), {"lacking": h, "__doc__": "the main directory lacks a tag every TIFF needs"}) for h in REQUIRED}


def run(c):
    olds = (8, 9, 12, 40, 64, 300, 70000) if c.tier != "thorough" else (8, 9, 10, 12, 16, 40, 63, 64, 65, 255, 256, 257, 300, 700, 70000, 1100000)
    news = (8, 9, 40, 63, 64, 300) if c.tier != "thorough" else (8, 9, 12, 40, 63, 64, 65, 255, 256, 257, 300, 700, 9000)

    def job(c, sig, n):
        j = Judge(c, "TIFF")
        data = lit(SIGS[sig]) + (blob("old", n - 4) if n < 1000 else blob("old", 40) + lit([5]) * (n - 44))
        old = "a %s file of %d bytes" % (sig, n)

        def untouched(o):
            return "it reports success" if o.ok else None if same(o.data, data) else "the image is changed although the operation fails: %s" % diff(o.data, data)
        for k in news if n < 1000 else (40,):
            v = lit(b"II*\0") + (blob("new", k - 4) if k < 1000 else blob("new", 40) + lit([7]) * (k - 44))

            def exact(o):
                return "it fails" if not o.ok else None if same(o.data, v) else "the content is not the encoding: %s" % diff(o.data, v)
            for op in ("write_to_vec", "write_to_file"):
                j.do(op, "%s, metadata of %d bytes" % (old, k), data, exact, encoded=v)

            def cleared(o):
                d = o.dec
                if o.ok and not (d is not None and (same(d, data) or same(d, lit(b"Exif\0\0") + data))):
                    return "what is decoded for the reduction is not the content"
                return exact(o)
            for op in ("clear_metadata", "file_clear_metadata"):
                j.do(op, "%s, reduced to %d bytes" % (old, k), data, cleared, encoded=v)
        for op in ("write_to_vec", "write_to_file"):
            j.do(op, old + ", encoding fails", data, untouched)
            for h in REQUIRED if n < 1000 else ():
                j.do(op, old + ", tag %#x is missing" % h, data, untouched, encoded=lit(b"II*\0") + blob("new", 20), hook=SHORT[h])
        for op in ("clear_metadata", "file_clear_metadata"):
            j.do(op, old + ", encoding fails", data, untouched)
            j.do(op, old + ", the content can not be decoded", data, untouched, encoded=lit(b"II*\0") + blob("new", 20), hook=Undecodable)
        for op in ("new_from_vec", "new_from_path"):
            def read(o):
                if not o.ok or o.dec is None:
                    return "no metadata is found"
                return None if same(o.dec, data) or same(o.dec, lit(b"Exif\0\0") + data) else "what is decoded is not the content: %s" % diff(o.dec, lit(b"Exif\0\0") + data)
            j.do(op, old, data, read)
    c.parallel([(lambda c, s=s, n=n: job(c, s, n)) for s in SIGS for n in olds])
    c.floor("operation x image", 150)
