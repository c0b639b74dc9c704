"""property id -> check function(run)"""
from . import compress, convert, enc, export, files, formats, heads, objects, pattern, pictures, texts, threads, writes

CHECKS = {
    "P01": enc.check_p01, "P02": enc.check_p02, "P03": enc.check_p03,
    "P04": enc.check_p04, "P05": enc.check_p05, "P07": enc.check_p07,
    "P08": writes.check_p08, "P09": writes.check_p09,
    "P11": threads.check_p11, "P24": threads.check_p24,
    "P16": pattern.check_p16, "P17": pattern.check_p17, "P18": pattern.check_p18, "P19": pattern.check_p19,
    "P20": pattern.check_p20,
    "P12": texts.check_p12, "P13": texts.check_p13,
    "P10": heads.check_p10, "P22": export.check_p22, "P23": compress.check_p23, "P21": files.check_p21, "P06": objects.check_p06, "P25": pictures.check_p25,
    "P26": convert.check_p26,
    "P14": formats.check_p14, "P15": formats.check_p15,
}

_ENC = "TLA+ encoder state machine (TLC exhaustive) + trace validation of real encodings"
_FMT = "TLA+ record languages of the formats (TLC exhaustive) + trace validation of real files"
NOTES = {
    "P01": (_ENC, "Spec exhaustive for all command sequences up to the model bound; the real transcoder is compared command by command on enumerated and random designs."),
    "P02": (_ENC, "Same, with displacement/limit boundary enumeration; the bound itself is also stated independently of the algorithm."),
    "P03": (_ENC, "Same, over thread-change command interleavings with attributes, thread lists and change modes."),
    "P04": (_ENC, "Same, over control commands and sequins."),
    "P05": (_ENC, "Same, over option commands at every position; lock points within 0.04 units."),
    "P08": (_FMT, "Every record of seven writers' languages against the decoder, exhaustively; real files of low-level and of high-level designs decoded by the specification, and read back by the real reader."),
    "P09": (_FMT, "Rounding model exhaustive; real files of long fractional designs within half a unit of the design at every position."),
    "P14": (_FMT, "Record decoders of about forty formats, over generated files with boundary displacements, all control codes and headers."),
    "P15": (_FMT, "Same files cut at every byte of the stitch data."),
    "P07": (_ENC + "; TLA+ machine of matrix programs", "Same, with exact decimal matrices (scales, quarter turns, 3-4-5 rotations); programs over matrix objects and whole-design transforms stepped through the matrix machine."),
    "P24": ("TLA+ functions of colour parsing/comparison (TLC exhaustive over a small universe) + trace validation",
            "Every textual form, number and channel list over boundary values against the specification's value; nearest search and equality laws checked on the recorded results."),
    "P11": ("TLA+ thread-list and palette-rule predicates + trace validation of real files",
            "Thread lists with repeats, ties and exhausted palettes written by every thread-carrying writer, judged by the specification's predicates."),
    "P16": ("TLA+ functions between stops and repeated colours (TLC exhaustive: they undo each other) + trace validation",
            "All designs of stitches, stops and changes up to the model bound; the real conversions on the same enumeration and on random designs; PEC/PES/JEF files."),
    "P17": ("TLA+ state machine of the composition API (TLC exhaustive and simulation) + behaviours replayed into the real class + recorded histories validated",
            "Behaviours TLC generates are replayed call for call on the real design and every observation compared; random histories recorded from the real class are checked against the specification."),
    "P18": ("TLA+ merge function (TLC exhaustive over pairs of designs) + trace validation of real merges",
            "Commands, threads and metadata of sums in every spelling (add_pattern, +=, +, repeated), with and without movement."),
    "P19": ("TLA+ block views (TLC exhaustive: partitions) + trace validation", "Colour, stitch and command blocks of every enumerated and of random designs."),
    "P20": ("TLA+ reinterpretation functions (TLC exhaustive: stitches kept, idempotent) + trace validation",
            "Trim interpolation, frame eject, jump merging, trimmed jumps and the stable pattern on enumerated and random designs."),
    "P12": ("TLA+ CSV grammar and text forms of commands (TLC exhaustive: what is quoted reads back) + trace validation of written and read texts",
            "The characters of real CSV files are parsed by the specification; documents with other quoting, line ends and column counts are read by the real reader and compared."),
    "P13": ("TLA+ functions of the metadata fields (TLC exhaustive: cut to size, carried twice is carried once) + trace validation, chains of formats",
            "Texts of boundary lengths and alphabets in every carrying format, alone and in chains of conversions; bytes outside the text's field must not change."),
    "P22": ("TLA+ state machine of the template exporter's nesting (TLC exhaustive: well bracketed, every section opened is closed) + trace validation of exported texts",
            "Every command sequence up to the model bound; real exports with tokens for each template, with subsets of templates given, on enumerated and random designs."),
    "P23": ("TLA+ machine expanding the bit stream block by block (TLC exhaustive: every short text in every small code expands to itself) + real expansions validated step by step",
            "Streams of every shape (code lengths to 16 bits, one-symbol codes, runs, several blocks, overlapping references, cut lengths), stored blocks of all sizes across 65535, and whole HUS files."),
    "P21": ("TLA+ machine of a directory of design files (TLC exhaustive over histories) and of settings decided one by one + recorded histories stepped through it",
            "Histories of write/read/convert by name over every registered extension in every letter case; what reaches each writer under subsets of the settings compared with the encoder specification under the format's documented defaults."),
    "P06": ("TLA+ heap model of designs, copies and derivations (TLC exhaustive: separation, isolation, repeatability) + recorded histories stepped through the object machine",
            "Histories of writes in every format (encoding on and off, failing streams), derivations, copies, views and modifications; every object's value after every operation."),
    "P10": ("TLA+ layouts of the headers and sections of the written formats, over the encoder and record specifications + trace validation of real files",
            "Counts, offsets, lengths, extents and texts of nine binary and five list formats recomputed by the specification from the design and from the bytes behind them, including designs large enough to use every byte of a count."),
    "P25": ("TLA+ machine of line drawing on a grid (TLC exhaustive: nearest pixels, both directions alike) + trace validation of decoded pictures and texts",
            "SVG paths, text rows, every pixel of small PNG pictures and every dot of PEC thumbnails against the design's stitch blocks and threads."),
    "P26": ("TLA+ transition system of conversions, composing the encoder, record, header-colour and reader specifications (TLC exhaustive over small designs and routes: nothing lost, nothing new, settled) + recorded chains of conversions stepped through it",
            "Chains of one to four conversions by file name from 39 formats' files and from CSV/JSON high-level designs into every written stitch format; each file read back against the conversion of what the file before it was read as, the last against the first."),
}
NOT_APPLICABLE = {}
