PROPS = []


def prop(**k):
    PROPS.append(k)


prop(id="P01", title="Every tag keeps its standard number, directory and identity in both directions",
     statement="For every Exif, GPS, interoperability and TIFF tag the library names, writing the tag uses the tag number and the directory that the Exif/TIFF standards assign to it, and reading that number in that directory yields the same named tag again. "
               "A number that is not known in a directory is kept as an unknown tag with its own number, format and directory; no two named tags share the same number and directory.",
     over=["inputs"], for_all="all named tags x all five directories x all 65536 tag numbers x all value formats",
     why="The tests sample about a dozen of the 150 tags; a transposed digit, a wrong directory letter or a swapped pair in the table only shows on the one tag concerned.",
     files=["src/exif_tag/mod.rs", "src/ifd/mod.rs"],
     mech=[("tag table and its generated lookups", "src/exif_tag/mod.rs"), ("directory kinds", "src/ifd/mod.rs:ExifTagGroup")],
     technique="abstract interpretation of the tag lookup functions' MIR over every enum variant and every integer interval, compared with an independent tag table",
     note="Decides the whole table: each lookup is evaluated for every variant and for every interval of tag numbers the compiled switch distinguishes. Trusts the reference table in engine/oracle_tags.py (transcribed from the Exif 2.32 / TIFF 6.0 documents).")

prop(id="P02", title="Every tag has its standard type, component count and payload",
     statement="Each named tag reports and stores the data type the standards assign to it, its component count is the number of elements of its value (plus one for the terminating NUL of a text value), and its stored bytes are exactly its value in the chosen byte order. "
               "Decoding stored bytes of the right type yields the tag carrying exactly those values, and every ordinary tag can be written.",
     over=["inputs"], for_all="all named and unknown tags x all values of any length x both byte orders",
     why="Tests write a handful of tags with short sample values; a wrong type or count of one tag corrupts only files that use that tag.",
     files=["src/exif_tag/mod.rs", "src/exif_tag/decode.rs", "src/exif_tag_format.rs"],
     mech=[("type, count and payload of a tag", "src/exif_tag/mod.rs"), ("format codes", "src/exif_tag_format.rs")],
     technique="abstract interpretation of the tag accessors' MIR with symbolic values of symbolic length for every variant",
     note="Every accessor is evaluated for all variants with an arbitrary value; the returned terms must equal the standard's. Conversions of a value to bytes are opaque here (P03 decides them).")

prop(id="P03", title="Values are stored and read with the right width, byte order and element order",
     statement="Every value is stored as its elements' fixed-width bytes in the byte order asked for, element after element and numerator before denominator; text is stored with one terminating NUL and read without its trailing NULs. "
               "Reading takes exactly the same layout apart again and refuses byte strings whose length is not a multiple of the element width. "
               "Type codes and component sizes are those of the TIFF standard.",
     over=["inputs"], for_all="all 12 value types x values of any length x both byte orders",
     why="Tests convert a few short vectors; a wrong width, swapped order or dropped element for one type in one byte order only shows for files that use it.",
     files=["src/u8conversion.rs", "src/rational.rs", "src/exif_tag_format.rs"],
     mech=[("value conversions", "src/u8conversion.rs"), ("type codes and sizes", "src/exif_tag_format.rs")],
     technique="abstract interpretation of each conversion's MIR with inferred loop invariants (bytes appended = width x index) for values of arbitrary length",
     note="Each of the 26 conversion impls is decided for all values of any length in both byte orders; std's to_le_bytes family is trusted.")

prop(id="P04", title="Reading never changes a file, and only the given file is ever touched",
     statement="Reading metadata, and every operation that works on bytes in memory, never opens a file for writing, creates, replaces or removes one, so files that may only be read can be read. "
               "Writing and clearing change the content of the file they are given and no other: no temporary, backup or neighbouring file, no other program and no network. "
               "Every path handed to the operating system is the caller's own.",
     over=["inputs"], for_all="all public operations x all image formats x all contents x all call paths",
     why="A test sees only the file it looks at, as a user who may write it; a stray file, a changed neighbour or a needless write mode shows only in another directory or with other permissions.",
     files=["src/general_file_io.rs", "src/metadata/metadata_io.rs", "src/webp/file.rs", "src/png/mod.rs", "src/jpg.rs", "src/jxl.rs", "src/tiff/file.rs", "src/heif/mod.rs"],
     mech=[("opening files", "src/general_file_io.rs"), ("file operations", "src/metadata/metadata_io.rs")],
     technique="effect analysis over the call graph (MIR, trait objects and closures resolved to all candidates) with provenance of open modes and path operands",
     note="Decides all call paths. Trusts that the third-party crates (compression, XML, CRC, logging) do not use the file system.")

prop(id="P05", title="Every operation works on the format of the image it is given",
     statement="Reading, writing, clearing and segment removal act on an image with the codec of that image's own format, for files as for byte buffers, and hand it exactly the caller's data, metadata and segment marker. "
               "When reading a file, the recognised content decides over the extension, and the extension decides when the content is not recognised. "
               "An operation that a format does not support fails without touching the image, and a codec's failure is reported to the caller.",
     over=["inputs"], for_all="all 11 public operations x all formats x all combinations of extension and recognised content",
     why="The dispatch has over a hundred cases; tests exercise the common ones, and a swapped arm or marker compiles because all codecs have the same shape.",
     files=["src/metadata/metadata_io.rs", "src/metadata/mod.rs"],
     mech=[("dispatch to the codecs", "src/metadata/metadata_io.rs"), ("decoding wrapper", "src/metadata/mod.rs:general_decoding_wrapper")],
     technique="abstract interpretation of each public operation's MIR for every format; codec calls are the observed effects and both their outcomes are followed",
     note="Decides all operation x format combinations, including extension/content conflicts. What each codec does with the image is the subject of other properties.")

prop(id="P06", title="Encoded metadata is a well-formed TIFF structure with correct offsets and counts",
     statement="Whatever tags are set, encoding produces a directory per image and sub-directory whose entry count equals its 12-byte entries in ascending tag order, whose values of at most four bytes are stored inline padded to four, and whose longer values, strips and thumbnail lie exactly at the offset and with the length stored for them. "
               "Every sub-directory is reachable through its pointer tag in its own image directory and every image directory through the link of the one before it, the last link being zero. "
               "A directory that cannot be encoded fails the operation instead of disappearing.",
     over=["inputs"], for_all="all sets of tags x all value lengths x any number of image directories x both byte orders",
     why="Offsets, counts and padding depend on how values of every length combine; tests encode a few fixed directories, so an offset that is wrong only after an odd-length value or in the third directory passes them.",
     files=["src/ifd/mod.rs", "src/metadata/mod.rs", "src/ifd/get.rs"],
     mech=[("directory encoder", "src/ifd/mod.rs:encode_ifd"), ("image directory chain and sub-directory pointers", "src/metadata/mod.rs:encode")],
     technique="abstract interpretation of the encoder's MIR with inferred affine loop invariants over the output length, run as a typestate automaton over the appended pieces for every kind of tag",
     note="Decided for every kind of tag (76 value shapes) with symbolic lengths, any number of entries and any number of directories, in both byte orders; arithmetic is over unbounded integers (data beyond 4 GiB is out of scope).")

prop(id="P07", title="Decoding takes every value, sub-directory and link from where TIFF puts it",
     statement="Decoding accepts exactly the four TIFF headers with and without a preceding Exif identifier, in the byte order they declare, and follows the chain of image directories until a link of four zero bytes. "
               "In each directory it takes entry i from 2+12i bytes after its start, a value of at most four bytes from the entry and a longer one from its offset, strips and thumbnail from their own offsets and lengths, and each sub-directory from its pointer. "
               "Every entry ends up in the decoded directory of its kind and image number, and an entry that cannot be decoded fails the operation.",
     over=["inputs"], for_all="all byte strings of any length x any number of entries and directories x both byte orders",
     why="Tests decode a few files whose values happen to lie one after the other; a wrong base, a position not restored after a pointer, or a link misread only shows in files laid out differently.",
     files=["src/ifd/mod.rs", "src/metadata/mod.rs"],
     mech=[("directory decoder", "src/ifd/mod.rs:decode_ifd"), ("header and chain of directories", "src/metadata/mod.rs:decode")],
     technique="abstract interpretation of the decoder's MIR over input of arbitrary content and length, with inferred loop invariants, as a typestate automaton over the places values are read from",
     note="Decided for any number of entries, all tag kinds and both byte orders; a failure whose loop invariant was not found is confirmed for 1, 2 and 4 entries before it is reported. Arithmetic is over unbounded integers.")

prop(id="P08", title="The metadata store holds exactly the tags that were set, each once, in its place",
     statement="Setting a tag puts it into the first image's directory of its kind, replaces every earlier value of that number there, creates the directories it needs and leaves everything else as it was; removing a tag removes its number from every directory of its kind and nothing else. "
               "Asking for a tag, going through all tags and asking for a directory by kind and image number give exactly the matching ones, each once, and change nothing. "
               "No sequence of these operations loses or duplicates a tag or a directory, and the tags of a directory stay in ascending order.",
     over=["inputs", "histories"], for_all="all operations x all stores that operations or decoding can produce, with up to three images and any tag values",
     why="Tests set and read back a few tags of one image; collisions of numbers between kinds, duplicates in a decoded file and several images are not sampled.",
     files=["src/metadata/set.rs", "src/metadata/get.rs", "src/metadata/mod.rs", "src/metadata/iterator.rs", "src/ifd/set.rs", "src/ifd/get.rs"],
     mech=[("setting and removing", "src/metadata/set.rs"), ("queries", "src/metadata/get.rs"), ("directories", "src/metadata/mod.rs:create_ifd"), ("one directory", "src/ifd/set.rs")],
     level="other", technique="abstract interpretation of the store operations' MIR over shapes: the directory tree is enumerated, all tag values are opaque; each operation's effect is compared with a reference store",
     note="One step from every shape with up to three images (incl. empty, duplicated and colliding numbers) is decided; since each step ends in such a shape again, sequences of steps are covered by induction. More images are not enumerated.")

prop(id="P09", title="Clearing a TIFF keeps what its pixels need and drops everything else",
     statement="Clearing the metadata of a TIFF keeps, in every image of the file and with unchanged value, each tag that TIFF 6.0 needs to find or interpret the stored pixels, including strips and embedded thumbnails. "
               "It drops every descriptive or private tag and every Exif, GPS and interoperability directory, however many there are. "
               "Writing metadata to a TIFF that lacks a tag every TIFF must have is refused before anything is written.",
     over=["inputs"], for_all="all sets of tags in any number of image directories and sub-directories x all values",
     why="Tests clear files that hold a few common tags; a tag that is wrongly dropped makes other files unreadable, and one wrongly kept leaks what the user wanted removed.",
     files=["src/metadata/edit.rs", "src/tiff/mod.rs"],
     mech=[("reduction to the minimum", "src/metadata/edit.rs:reduce_to_a_minimum"), ("required tags", "src/tiff/mod.rs:check_for_required_tags")],
     level="other", technique="abstract interpretation of the reduction's MIR over directory trees with every tag (opaque values), against the tag tables of TIFF 6.0; effect order of the writer for every missing tag",
     note="Every named tag and 22 unnamed ones, alone, together and spread over images. Tags that are neither needed nor private (Orientation, transfer functions) may be kept or dropped.")

prop(id="P10", title="An image's format is recognised by its signature, or by its extension",
     statement="Content that begins with the signature of PNG, JPEG, TIFF (either byte order), WebP, JPEG XL (bare or boxed) or HEIC/HEIF/AVIF is recognised as that format whatever follows, and content that begins with no such signature, or is too short for it, is not recognised. "
               "The name of a format and the extension of a file give that format in any spelling of upper and lower case; every other name, a missing extension and a file that does not exist are refused.",
     over=["inputs"], for_all="all inputs of any length x all extensions and spellings",
     why="Tests recognise one sample per format; the second TIFF byte order, a look-alike RIFF or ISO file or an upper-case extension decides whether a user's file is treated as the wrong format.",
     files=["src/filetype.rs"],
     mech=[("recognition by content", "src/filetype.rs:auto_detect"), ("recognition by name", "src/filetype.rs:from_str"), ("extension of a path", "src/filetype.rs:get_file_type")],
     technique="abstract interpretation of the recognisers' MIR over inputs with fixed signature bytes and symbolic remaining bytes, with every one-byte deviation, against published signatures",
     note="805 inputs with symbolic bytes and 194 names. Which ISO brands beyond heic, heif and avif count as HEIF is left open, as are bytes of the PNG signature after the fourth.")

CONT = "abstract interpretation of the public operations' MIR on images of given structure with symbolic payload bytes (in memory and through a model of the file), compared with the structure the format demands"
CONTWHY = "Tests use a few sample files whose segments are in the usual order and of usual length; "

prop(id="P11", title="A JPEG keeps every byte but its Exif segment",
     statement="Writing metadata to a JPEG leaves exactly one Exif segment, which holds the encoded metadata and stands before the first scan; clearing leaves none, and the removal of APP12 or APP13 removes exactly those segments. All other bytes, among them XMP and ICC segments, every scan, fill bytes and whatever follows the end marker, stay as they were and in their order, for files and in memory alike. "
               "Reading finds the first Exif segment wherever it is, and metadata that cannot be encoded or is too long for a segment fails and leaves the image untouched.",
     over=["inputs"], for_all="all JPEG images x all positions, numbers and lengths of segments x all metadata",
     why=CONTWHY + "a second Exif segment, XMP in APP1, marker-like bytes in the scan, fill bytes or a segment of the maximal length show a wrong boundary.",
     files=["src/jpg.rs"], mech=[("segment scanner and editors", "src/jpg.rs")], technique=CONT, level="other",
     note="All sequences of up to two (thorough: three) of eight segment kinds and 18 larger structures, payload bytes arbitrary; longer structures and other lengths are covered only as far as the code treats them alike. Trusts std::io as modelled in engine/bytesio.py.")

prop(id="P12", title="A WebP keeps its image, and its header tells the truth",
     statement="Writing metadata to a WebP leaves exactly one EXIF chunk with the encoded metadata, sets the Exif flag, and gives a simple file the extended header with the width, height and alpha flag of its image; clearing removes every EXIF chunk and the flag. Every other chunk stays as it was and in its order, an alpha chunk stays next to its image, and RIFF size, chunk sizes and padding are right, for files and in memory alike. "
               "Reading finds the EXIF chunk wherever it is, and metadata that cannot be encoded fails and leaves the image untouched.",
     over=["inputs"], for_all="all WebP images x all orders and lengths of chunks x all dimensions x all metadata",
     why=CONTWHY + "odd lengths, two EXIF chunks, a chunk between EXIF and the end or a width other than the height show a wrong offset or field.",
     files=["src/webp/file.rs", "src/webp/vec.rs", "src/webp/mod.rs", "src/webp/riff_chunk.rs"],
     mech=[("file operations", "src/webp/file.rs"), ("operations in memory", "src/webp/vec.rs"), ("dimensions of simple files", "src/webp/mod.rs")], technique=CONT, level="other",
     note="All sequences of up to two (thorough: three) of six chunk kinds after VP8X, 16 larger structures, 17 simple files, payload bytes arbitrary. Clearing relies on the Exif flag of the file being right, as the format demands. Trusts std::io as modelled.")

prop(id="P13", title="A PNG keeps every chunk but those that hold Exif data",
     statement="Writing metadata to a PNG leaves exactly one chunk with Exif data, which holds the encoded metadata as a raw profile (or as eXIf) after the header and never between two image data chunks; clearing removes every eXIf chunk and Exif profile and takes Exif out of the XMP chunk. Every other chunk stays as it was and in its order, and every chunk that is written has the right length and checksum, for files and in memory alike. "
               "Reading gives the data of the first chunk that holds Exif, whether plain, compressed or wrapped, and metadata that cannot be encoded fails and leaves the image untouched.",
     over=["inputs"], for_all="all PNG images x all orders, kinds and lengths of chunks x all metadata",
     why=CONTWHY + "several text chunks, XMP, an eXIf chunk after the image or data that merely looks like a chunk show a position that is off after a removal.",
     files=["src/png/mod.rs", "src/png/text.rs", "src/png/read.rs", "src/png/chunk.rs"],
     mech=[("parser and editors", "src/png/mod.rs"), ("text chunks", "src/png/text.rs"), ("chunk kinds", "src/png/chunk.rs")], technique=CONT, level="other",
     note="All sequences of up to two (thorough: three) of six chunk kinds around the image data and 38 larger structures; payload bytes arbitrary, the metadata covers all byte values. CRC-32, zlib and the XMP filter are stand-ins that are different for different input; trusts std::io as modelled.")

prop(id="P14", title="A JPEG XL file keeps every box but its Exif box",
     statement="Writing metadata to a JPEG XL file leaves exactly one Exif box with the encoded metadata after the file type box; clearing removes every Exif box, plain or Brotli-compressed. Every other box, also a last box that extends to the end, stays as it was and in its order, and a bare codestream is put unchanged into a container when metadata is written, for files and in memory alike. "
               "Reading decodes the first Exif box wherever it is, and metadata that cannot be encoded fails and leaves the image untouched.",
     over=["inputs"], for_all="all JPEG XL images x all orders, kinds and lengths of boxes x all metadata",
     why=CONTWHY + "compressed boxes, partial codestreams, an empty box or a last box without length show a wrong boundary.",
     files=["src/jxl.rs"], mech=[("box scanner and editors", "src/jxl.rs")], technique=CONT, level="other",
     note="All sequences of up to three (thorough: four) of seven box kinds, 28 larger structures and bare codestreams, payload bytes arbitrary. Boxes with 64-bit lengths are left out; Brotli is a stand-in. Trusts std::io as modelled.")

prop(id="P16", title="A TIFF that is written or cleared holds exactly the new encoding",
     statement="Writing metadata to a TIFF, or clearing it, replaces the whole content by the encoding: nothing of the old content is left before, in or after it, whether the new content is shorter, as long or longer. Reading and clearing decode the whole old content. "
               "If the metadata cannot be encoded, its main directory lacks a tag every TIFF must have (ImageWidth, ImageHeight, Compression, PhotometricInterpretation, StripOffsets, RowsPerStrip, StripByteCounts, XResolution, YResolution, ResolutionUnit), or the old content cannot be decoded, the operation fails and leaves the content untouched, for files and in memory alike.",
     over=["inputs"], for_all="all contents x all encodings of any length",
     why="Tests rewrite a file with metadata of nearly the same size; a stale tail only appears if the new encoding is shorter, and lost data only on an operation that fails.",
     files=["src/tiff/file.rs", "src/tiff/vec.rs", "src/tiff/mod.rs"],
     mech=[("file operations", "src/tiff/file.rs"), ("operations in memory", "src/tiff/vec.rs"), ("common part", "src/tiff/mod.rs")], technique=CONT, level="other",
     note="All pairs of 6 (thorough: 14) old and 6 (13) new lengths in both byte orders, all content bytes arbitrary; each required tag lacking on its own; contents of 70000 bytes (thorough: 1.1 MB). The encoding and the reduction themselves are decided by P06, P08 and P09. Trusts std::io as modelled.")

prop(id="P15", title="Taking Exif out of XMP removes the Exif items and nothing else",
     statement="When the Exif data of an XMP packet is removed, every element with the prefix exif disappears with everything in it, and every attribute with that prefix disappears from the elements that stay. All other elements, attributes, values, texts, comments, instructions and declarations stay as they are and in their order, also those whose names merely resemble Exif. "
               "White space between elements aside, a packet without Exif data stays as it is.",
     over=["inputs"], for_all="all well-formed XMP packets",
     why="The tests remove Exif from one packet; nested or same-named elements, empty elements, text directly behind a removed element or similar prefixes decide whether foreign data is lost or Exif data is left.",
     files=["src/xmp.rs"], mech=[("event filter", "src/xmp.rs:remove_exif_from_xmp"), ("attribute filter", "src/xmp.rs:get_exif_filtered_event")],
     technique="exact abstract interpretation of the filter's MIR on event sequences of systematically enumerated documents, compared with the sequence the document determines", level="other",
     note="All element trees of up to four (thorough: five) elements with every assignment of Exif and other names in three layouts, and 13 larger documents with every kind of event. quick-xml is modelled as a source and a sink of events; malformed packets are left out.")

NA = dict(technique="", note="")

prop(id="P17", title="A HEIF file keeps its image when metadata is written or cleared",
     statement="Writing metadata to a HEIF file leaves one Exif item with the encoded metadata, clearing leaves none, and every item location that is moved by it still leads to the same data. All other boxes and items stay as they were and in their order.",
     over=["inputs"], for_all="all HEIF/HEIC/AVIF files x all metadata",
     why="Tests compare a few sample files; offsets of other items only go wrong for particular item orders, construction methods and box versions.",
     files=["src/heif/container.rs", "src/heif/mod.rs"], mech=[("box tree and item locations", "src/heif/container.rs")],
     na="The result depends on data-dependent offset arithmetic over a tree of trait objects (item location table with variable field widths, rebuilt and re-measured twice); the abstract domain loses the box identities behind dyn dispatch and "
        "downcasts before the locations are rewritten, so no sound verdict was reached in the time available. Dispatch to the codec and file effects are covered by P05 and P04.", **NA)

prop(id="P18", title="What is written is read back unchanged",
     statement="Reading an image after writing metadata to it gives metadata that is equal to what was written, tag by tag and value by value, apart from the order of the tags.",
     over=["inputs", "histories"], for_all="all metadata x all supported images",
     why="The tests read back a handful of tags from five sample images.",
     files=["src/metadata/metadata_io.rs", "src/ifd/mod.rs"], mech=[("encode and decode", "src/ifd/mod.rs")],
     na="Equality of decode(encode(m)) with m composes two loops over runtime lengths and offsets of unbounded data; a static argument would need a relational proof over the whole byte string. The parts that are decidable are separate properties: "
        "both directions against the TIFF layout (P01-P03, P06, P07) and the containers (P11-P14, P16).", **NA)

prop(id="P19", title="Decimal numbers become the nearest rational",
     statement="Converting a floating-point number to a rational value gives a numerator and denominator within range whose quotient is within the documented tolerance of the number, for every finite number.",
     over=["inputs"], for_all="all finite floating-point numbers",
     why="Tests convert about ten numbers.",
     files=["src/rational.rs"], mech=[("continued fraction", "src/rational.rs")],
     na="The claim is about rounding errors of an iterative floating-point computation with a data-dependent number of steps; it needs an error analysis over IEEE arithmetic that the abstract domain (linear integer terms) does not have.", **NA)

prop(id="P20", title="A write that is interrupted leaves the old or the new image",
     statement="If the process or the machine stops while metadata is written to a file, the file afterwards holds either the complete old or the complete new content.",
     over=["crash points"], for_all="all crash points of all writing operations",
     why="No test stops a write.",
     files=["src/jpg.rs", "src/png/mod.rs", "src/webp/file.rs", "src/jxl.rs", "src/tiff/file.rs", "src/heif/mod.rs"], mech=[("writing in place", "src/general_file_io.rs:open_write_file")],
     na="The library rewrites files in place and never claims atomic replacement; the property does not hold by design, and what a file system keeps after a crash is not decided by the source.", **NA)

prop(id="P21", title="Malformed input is refused without a panic or endless work",
     statement="Whatever bytes it is given, every reading, writing and clearing operation returns: it does not panic, loop for ever or allocate memory out of proportion to the input.",
     over=["inputs"], for_all="all byte strings x all operations",
     why="Tests use well-formed images.",
     files=["src/png/text.rs", "src/webp/vec.rs", "src/heif/box_header.rs", "src/ifd/mod.rs", "src/jxl.rs"], mech=[("parsers", "src/")],
     na="It is known not to hold (index and slice operations on lengths taken from the input, assertions, unchecked link cycles; see DESIGN.md section 4) in too many places for small repairs, and a panic-reachability analysis of the rest would be dominated by "
        "false alarms, because the bounds are runtime quantities correlated across functions.", **NA)

prop(id="P22", title="Compressed data is compressed and expanded correctly",
     statement="Profiles and text that are stored compressed in PNG and JPEG XL images expand to exactly the bytes that were compressed.",
     over=["inputs"], for_all="all byte strings",
     why="Tests compress a few profiles.",
     files=["src/png/text.rs", "src/jxl.rs"], mech=[("zlib", "src/png/text.rs"), ("Brotli", "src/jxl.rs")],
     na="The algorithms are those of miniz_oxide and brotli, outside this repository; that the right bytes are handed to them and taken from them is decided by P13 and P14.", **NA)
