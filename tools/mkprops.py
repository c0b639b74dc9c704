#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=None, observe=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
             why_tests_cant=why,
             anchors=dict(files=["pyembroidery/" + f for f in files],
                          mechanism=[dict(name=n, where=w) for n, w in mechanism]))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = None
    P.append(d)

ENC = "pyembroidery/EmbEncoder.py Transcoder."
PAT = "pyembroidery/EmbPattern.py EmbPattern."

prop("P01", "Encoding keeps every needle penetration, in order and in place",
 "When a design is encoded for a machine, the needle penetrates exactly at the (transformed, optionally rounded) positions of the design's stitches, in their original order, with the first stitch after a trim, stop or colour change reached by a jump and sewn at its own position. The only penetrations that may be added are the documented ones: tie-on/tie-off locks when enabled, subdivisions of an over-long stitch in sew-to mode, and the conversions of sequins chosen by the sequin option. Nothing after the design's end command is sewn, and an unstitched travel (jump) ends at the position it names.",
 ["inputs", "programs", "configurations"], "every sequence of core and middle-level commands, every combination of encoder settings",
 "tests encode a handful of fixed designs; the encoder is a state machine over ~40 commands and ~10 options whose interactions (break+jump, sequin+trim, stop+tie) are not enumerated",
 ["EmbEncoder.py"], [("command dispatch", ENC + "transcode_main"), ("stitch/jump emission", ENC + "stitch_at, jump_at, needle_to, sew_to, sequin_at")],
 [("state_trimmed/state_jumping/state_sequin_mode", "what the next stitch needs first", ENC + "__init__")],
 ["EmbPattern.get_normalized_pattern(settings).stitches"])

prop("P02", "Encoded moves never exceed the length limits in force",
 "When the limit for jumps is no larger than the limit for stitches and a long-stitch handling other than 'none' is in force, no two consecutive positions of the encoded design (starting from the origin) are further apart on either axis than the applicable limit: jumps, and the travel to a new starting point, within the jump limit; stitches, and whatever subdivides an over-long stitch, within the stitch limit. An over-long move is divided into the smallest sufficient number of equal steps along the straight line to its destination.",
 ["inputs", "programs", "configurations"], "every design, every pair of limits, limits changed on the fly inside the design, every long-stitch handling",
 "tests check one or two long moves with one limit; the bound must hold for every displacement, direction and limit, including limits changed in mid-design",
 ["EmbEncoder.py"], [("gap interpolation", ENC + "interpolate_gap_stitches"), ("on-the-fly limits", ENC + "transcode_main OPTION_MAX_*")],
 None, ["consecutive differences of the encoded stitches"])

prop("P03", "Thread changes and thread list stay aligned through encoding",
 "After encoding, each colour block sewn has exactly one thread, and it is the thread the source design designates for that block (by position in the thread list, by the thread carried in the change command, or by an explicit change-sequence entry), with a placeholder only where the design supplies none. Colour breaks before the first or after the last stitching produce no change, explicit colour changes between sewn blocks always do, and in needle-set mode the thread list is kept whole. The change command, needle numbering (cyclic up to the needle count) and the presence of a leading change conform to the colour-change, needle-set or stop mode requested.",
 ["inputs", "programs", "configurations"], "every interleaving of stitches with colour breaks, colour changes, needle sets and change-sequence commands, every thread-list length, needle count and change mode",
 "tests cover a few two/three colour designs; alignment depends on lookahead and on index bookkeeping over the whole command history",
 ["EmbEncoder.py", "EmbFunctions.py", "EmbPattern.py"], [("change plan", ENC + "build_thread_change_sequence"), ("change emission", ENC + "next_change_sequence"), ("break suppression", ENC + "color_break, lookahead_stitch"), ("command packing", "pyembroidery/EmbFunctions.py encode_thread_change/decode_embroidery_command")],
 [("order_index/change_sequence", "which planned change comes next", ENC + "__init__")],
 ["encoded threadlist and COLOR_CHANGE/NEEDLE_SET/STOP commands"])

prop("P04", "Encoded output is a well-formed low-level command sequence",
 "The encoded design contains only low-level machine commands and has exactly one end command, as its last command, whatever the source contains. A trim is emitted only when something was sewn since the last trim, stop or change, and is emitted for each explicit trim, sequence break or frame eject at such a point (and at colour changes when explicit trimming is on). Sequin ejects occur only inside sequin mode, and no jump or trim occurs inside it.",
 ["inputs", "programs", "configurations"], "every command sequence and every setting",
 "the guarantee quantifies over all command histories; tests look at a few",
 ["EmbEncoder.py"], [("termination", ENC + "end_here"), ("trim state", ENC + "tie_off_and_trim_if_needed, trim_here"), ("sequin mode", ENC + "toggle_sequins, sequin_at, jump_at")],
 None, ["encoded command list"])

prop("P05", "Encoder options given inside a design act from that point on",
 "Tie-on and tie-off locks, long-stitch handling, sequin handling, implicit/explicit trim, length limits and speed commands behave the same whether given as settings or as commands inside the design, and a command inside the design changes only what follows it. A lock is four small stitches at about one third, two thirds, one third and none of the way from the needle towards the neighbouring stitch, never exceeding the stitch limit, made after the first stitch of a sewn run (tie-on) or before the trim or change that ends it (tie-off), and none when the option is off or the neighbouring command is not a stitch.",
 ["inputs", "programs", "configurations"], "every placement of option commands in a design and every combination of options",
 "tests set single options on one design; interactions of an option switched in mid-design with pending state are never explored",
 ["EmbEncoder.py"], [("on-the-fly options", ENC + "transcode_main"), ("locks", ENC + "tie_on, tie_off, lock_stitch")], None, ["encoded command list"])

prop("P06", "Writing, encoding and converting never alter the caller's objects",
 "Encoding a design, obtaining a derived copy of it, or writing it in any format (with encoding on or off) leaves the source design's commands, threads and metadata and the caller's settings exactly as they were, including on error. Doing the same operation twice gives the same result, except for placeholder threads and a file's creation date, and a copy can be modified without affecting its original.",
 ["inputs", "histories", "configurations"], "every design, every output format, encoding on and off, every deriving operation, repeated in any order",
 "tests never compare the source before and after for every format and option; aliasing shows only on a later use",
 ["EmbPattern.py", "EmbEncoder.py", "PecWriter.py", "PesWriter.py", "JefWriter.py", "Vp3Writer.py"],
 [("settings copy", PAT + "write_embroidery"), ("normalization to a new pattern", PAT + "get_normalized_pattern"), ("copying", PAT + "copy/__copy__/__deepcopy__")], None, ["pattern.stitches/threadlist/extras before and after"])

prop("P07", "Transform settings and in-design matrix commands compose as documented",
 "Translation, scale and rotation given as settings map every position by one affine transform, and a matrix command inside a design affects exactly the positions after it, composed with what is already in force; a reset restores the identity. Matrix scale and rotate without 'origin' keep the current needle position fixed, and a design can equally be translated or transformed as a whole or per colour with the same result for every command's position and no other change. Matrix objects compose associatively, an inverse undoes its matrix, equal matrices compare equal however they were made, and a matrix prints as the nine numbers it holds.",
 ["inputs", "programs"], "every sequence of transform commands and settings and every position",
 "tests check a few fixed transforms; composition order and the fixed point depend on the whole command history",
 ["EmbMatrix.py", "EmbEncoder.py", "EmbPattern.py"], [("matrix algebra", "pyembroidery/EmbMatrix.py EmbMatrix"), ("matrix commands", ENC + "transcode_main MATRIX_*"), ("whole-design operations", PAT + "transform, translate, move_center_to_origin")], None, ["positions of encoded stitches"])

prop("P08", "Designs written to a stitch file read back as the same stitches",
 "Reading back a file written as DST, EXP, JEF, PEC, PES, VP3, U01, XXX, TBF or G-code yields the design that was written: the same stitches at the same positions (to the format's resolution), and the same jumps, trims, stops, sequins, speed and colour-change or needle commands at the same points between them, up to what the format has no record for (for instance VP3 keeps neither jumps nor stops, and trims are jumps in DST). This holds for low-level designs whose control commands stand where the needle is, and nothing is lost, added or reordered for any displacement the format can represent. A design the format cannot represent as it stands reads back the same once it has been encoded with the format's own settings.",
 ["inputs", "programs"], "every low-level command sequence, every displacement in range (including boundary values on either or both axes), every format and version",
 "tests round-trip a few shapes; record encodings have boundary values, escape codes and mode switches that only specific displacements or command orders reach",
 ["DstWriter.py", "DstReader.py", "ExpWriter.py", "ExpReader.py", "JefWriter.py", "JefReader.py", "PecWriter.py", "PecReader.py", "PesWriter.py", "PesReader.py", "Vp3Writer.py", "Vp3Reader.py", "U01Writer.py", "U01Reader.py", "XxxWriter.py", "XxxReader.py", "TbfWriter.py", "TbfReader.py", "GcodeWriter.py", "GcodeReader.py"],
 [("record encoders", "pyembroidery/*Writer.py"), ("record decoders", "pyembroidery/*Reader.py")], None, ["EmbPattern.read after EmbPattern.write"])

prop("P09", "Rounding to machine units never accumulates",
 "In every delta-coded stitch format the position reached after any prefix of the written file differs from the design's position at that point by at most one half machine unit for designs with fractional coordinates, however many stitches precede it; a design already in machine units is reproduced exactly.",
 ["inputs", "histories"], "every sequence of fractional positions of any length",
 "tests round-trip integer positions; drift depends on the whole history of fractional parts",
 ["DstWriter.py", "ExpWriter.py", "JefWriter.py", "PecWriter.py", "PesWriter.py", "Vp3Writer.py", "U01Writer.py", "XxxWriter.py", "TbfWriter.py", "PmvWriter.py"],
 [("running rounded position", "pyembroidery/*Writer.py: dx = int(round(x - xx)); xx += dx"), ("encoder rounding", ENC + "transcode_main")], None, ["prefix sums of the file's deltas"])

prop("P10", "Counts, lengths, offsets and extents in a file describe its body",
 "Every header or section field in a written file that counts, measures or locates something agrees with the design and the bytes actually written: stitch, colour and thread counts (as the format counts them: a DST or U01 count is of the design's commands), section lengths and offsets, end pointers, and (within one unit) design extents and final position. Fixed-size header fields stay at their fixed offsets whatever the design's name, text and thread list are.",
 ["inputs"], "every design, thread list and text metadata (any length, any characters), every binary output format",
 "tests never parse headers; own readers skip most of these fields, so machines would be the first to notice",
 ["DstWriter.py", "JefWriter.py", "PecWriter.py", "PesWriter.py", "Vp3Writer.py", "U01Writer.py", "XxxWriter.py", "TbfWriter.py", "PmvWriter.py", "InfWriter.py", "EdrWriter.py", "ColWriter.py", "WriteHelper.py"],
 [("header writers", "pyembroidery/*Writer.py"), ("placeholder patching", "pyembroidery/Vp3Writer.py, PesWriter.py, PecWriter.py, XxxWriter.py")], None, ["bytes of the written file"])

prop("P11", "Threads survive the formats that store them; palettes pick nearest",
 "Formats that store thread colours and descriptions (PES, VP3, XXX, TBF, EDR, COL, INF, CSV, JSON, extended DST) give back the same threads in the same order, each with the colour and those of its texts that the format has fields for, cut to the field's size (extended DST: as many threads as fit its header). Formats with a fixed palette give each thread the palette entry nearest in the red-mean metric among those its rule allows (PEC: distinct threads get distinct entries while entries remain, and equal threads equal entries; JEF: a thread equal to the one before keeps its entry, a different one never gets the entry of the one before).",
 ["inputs"], "every thread list: any colours, repeats, text fields, any length",
 "tests use few threads; ties, exhausted palettes, repeats and long lists are not reached",
 ["EmbThread.py", "EmbThreadPec.py", "EmbThreadJef.py", "PecWriter.py", "PesWriter.py", "JefWriter.py", "Vp3Writer.py", "XxxWriter.py", "TbfWriter.py", "EdrWriter.py", "ColWriter.py", "InfWriter.py", "DstWriter.py"],
 [("palette choice", "pyembroidery/EmbThread.py build_unique_palette, build_nonrepeat_palette, find_nearest_color_index"), ("thread records", "pyembroidery/*Writer.py")], None, ["threadlist after reading back"])

prop("P12", "CSV and JSON keep a whole design without loss",
 "A design saved as CSV or JSON and loaded again has the same commands with the same coordinates and the same thread, needle and order attributes, the same threads and the same text metadata, for every command of the library including middle-level ones, and for any text. The plain, delta and full CSV versions describe the same design. (CSV does not tell an absent thread text from an empty one.)",
 ["inputs", "programs"], "every command with any attributes, any coordinates, any text in threads and metadata",
 "tests cover most commands with one attribute setting and plain ASCII text",
 ["CsvWriter.py", "CsvReader.py", "JsonWriter.py", "JsonReader.py", "EmbFunctions.py"],
 [("command naming", "pyembroidery/EmbFunctions.py get_command_dictionary, get_common_name_dictionary, get_textual_command, decode_textual_command"), ("csv quoting", "pyembroidery/CsvWriter.py csv")], None, ["pattern read back"])

prop("P13", "Text metadata survives the formats that carry it",
 "Name, author, category, keywords, comments, copyright and similar metadata stored by a format come back from it unchanged when they fit the format's field, and are truncated or replaced without disturbing any other part of the file when they do not. Metadata of a source design is carried through encoding and format conversion.",
 ["inputs"], "every text of any length and alphabet, every metadata-carrying format",
 "tests write one or two ASCII names",
 ["DstWriter.py", "DstReader.py", "PesWriter.py", "PesReader.py", "PecWriter.py", "PecReader.py", "TbfWriter.py", "TbfReader.py", "Vp3Writer.py", "GcodeWriter.py", "GcodeReader.py", "CsvWriter.py", "JsonWriter.py", "EmbEncoder.py"],
 [("metadata fields", "pyembroidery/*Writer.py"), ("metadata through encoding", ENC + "transcode_metadata")], None, ["pattern.extras after reading back"])

prop("P14", "Every reader decodes its format's records as defined",
 "For every readable format, a file made of that format's records loads as exactly the commands those records denote: positions are the running sum of the signed displacements in the format's units and axis direction, each control code gives its command (jump, trim, stop, colour change, needle, sequin, speed, end), and the colour section gives the threads. Reading never depends on anything but the file's content.",
 ["inputs", "programs"], "every sequence of records of every readable format (about forty)",
 "most readers have no test at all or one sample file",
 ["DstReader.py", "DsbReader.py", "DszReader.py", "EmdReader.py", "ExpReader.py", "ExyReader.py", "FxyReader.py", "GtReader.py", "HusReader.py", "InbReader.py", "JefReader.py", "JpxReader.py", "KsmReader.py", "MaxReader.py", "MitReader.py", "NewReader.py", "PcdReader.py", "PcmReader.py", "PcqReader.py", "PcsReader.py", "PecReader.py", "PesReader.py", "PhbReader.py", "PhcReader.py", "PmvReader.py", "SewReader.py", "ShvReader.py", "SpxReader.py", "StcReader.py", "StxReader.py", "TapReader.py", "TbfReader.py", "U01Reader.py", "Vp3Reader.py", "XxxReader.py", "ZhsReader.py", "ZxyReader.py", "A100Reader.py", "A10oReader.py", "BroReader.py", "DatReader.py"],
 [("record decoders", "pyembroidery/*Reader.py read"), ("integer decoding", "pyembroidery/ReadHelper.py")], None, ["pattern after read"])

prop("P15", "A truncated stitch file yields a clean prefix of the design",
 "Reading a stitch file cut off anywhere inside its stitch data terminates without an exception and gives the commands of the complete records before the cut, and nothing after them but an end command. No command is invented from partial bytes.",
 ["inputs", "crash_points"], "every cut position in the stitch data of every delta-coded format",
 "tests only read complete files",
 ["DstReader.py", "ExpReader.py", "JefReader.py", "PecReader.py", "PesReader.py", "U01Reader.py", "XxxReader.py", "TbfReader.py", "SewReader.py", "DsbReader.py", "KsmReader.py", "EmdReader.py", "ReadHelper.py"],
 [("short-read detection", "pyembroidery/*Reader.py: if len(byte) != n: break"), ("short integer reads", "pyembroidery/ReadHelper.py")], None, ["pattern after reading a prefix of a file"])

prop("P16", "Stops map to repeated colours and back without losing either",
 "In formats that represent a stop as a repeat of the current colour, a design with stops is written with one additional repeated colour entry and change per stop, and reading interprets a change between two equal successive threads as a stop and removes the repeated thread. Conversion in either direction keeps every stitch, the order of all stops and colour changes, and the thread of every block that has one. In JEF a stop is the palette entry 0, the next stop of the same block goes back to the block's entry.",
 ["inputs", "programs"], "every interleaving of stitches, stops and colour changes, every thread list including missing and repeated threads",
 "tests cover one design with a single stop",
 ["EmbPattern.py", "PecWriter.py", "PesWriter.py", "PecReader.py", "JefReader.py", "JefWriter.py"],
 [("stop to duplicate", PAT + "interpolate_stop_as_duplicate_color"), ("duplicate to stop", PAT + "interpolate_duplicate_color_as_stop")], None, ["stitches and threadlist"])

prop("P17", "The composition API tracks the needle exactly",
 "Building a design through the API appends exactly the command asked for at the position asked for: absolute calls at the given position, relative calls at the last appended position plus the displacement, also after any other call, and insertion at a position shifts nothing but later indexes and, when relative, is relative to the command before that place. Counting, bounds, indexing, and thread and metadata access reflect exactly what has been added.",
 ["histories", "programs"], "every sequence of API calls",
 "tests use a few fixed call sequences; the cursor is hidden state that each call must maintain",
 ["EmbPattern.py"], [("cursor", PAT + "_previousX/_previousY"), ("append/insert", PAT + "add_stitch_absolute, add_stitch_relative, insert_stitch_relative, add_command, add_block, __iadd__")],
 [("_previousX/_previousY", "the last appended position", PAT + "__init__")], ["pattern.stitches after each call"])

prop("P18", "Merging designs appends one after the other and changes neither source",
 "Adding one design to another gives the stitches of the first followed by those of the second, moved as requested, with a colour change between them exactly when both sew and the adjoining threads differ, every block keeping its own thread, and the metadata of both, the added design's values winning. What merely ends the first (its end command, trailing breaks) and the changes that lead the second are left out; movement is by matrix commands placed before the added part. The added design is unchanged, can be added repeatedly, and merging with an empty design on either side works; a design without threads goes on in the thread in force.",
 ["inputs", "histories"], "every pair of designs, including empty or thread-less ones, every displacement and scale, repeated merges",
 "tests merge two specific designs once; later mutation through shared data is not observed",
 ["EmbPattern.py"], [("merge", PAT + "add_pattern, __iadd__, __add__, __radd__")], None, ["both patterns before and after"])

prop("P19", "Block views partition the design",
 "Iterating a design by colour block, by stitch block or by command block visits every stitch exactly once, in order, and pairs it with the thread in force at that point. Command blocks are maximal runs of one command whose concatenation is the design; stitch blocks are the maximal runs of stitches; colour blocks are separated exactly at the colour changes, needle sets and colour breaks, and the k-th block that is not empty of commands gets the k-th thread. A colour change ends the block it belongs to, a needle set starts one, a colour break is in none; breaks and needle sets before anything of a block change nothing.",
 ["inputs", "programs"], "every command sequence and thread list",
 "tests iterate few designs; edge positions of separators (first, last, adjacent) are not enumerated",
 ["EmbPattern.py"], [("block iteration", PAT + "get_as_stitchblock, get_as_command_blocks, get_as_colorblocks")], None, ["the yielded blocks"])

prop("P20", "Post-processing changes jumps and trims but never the stitching",
 "Operations that reinterpret a loaded design (jump runs to trims, merging jumps, making the design stable, stop/colour fixes, frame ejects) keep every needle penetration at its position and in order, keep all colour changes and stops (the stable pattern keeps stitching and colour blocks only; the frame-eject conversion turns a stop between jump runs into a frame eject), and perform exactly the reinterpretation requested. In particular a run of jumps becomes a trim if and only if it reaches the requested jump count or travel distance.",
 ["inputs", "programs", "configurations"], "every sequence of stitches, jumps, trims and changes, every parameter value",
 "tests use one or two runs; correctness depends on run boundaries and interleaved commands",
 ["EmbPattern.py", "DstReader.py", "JefReader.py"], [("jump/trim interpolation", PAT + "interpolate_trims"), ("derived patterns", PAT + "get_pattern_merge_jumps, get_pattern_interpolate_trim, get_stable_pattern, interpolate_frame_eject")], None, ["stitches after the operation"])

prop("P21", "File type is chosen by extension, settings before format defaults",
 "Reading or writing by file name selects the handler registered for the extension regardless of letter case, unsupported output types are refused with an I/O error before anything is written, and reading and writing through a file name or a stream opened in the format's mode give the same result. A format's own encoding defaults apply exactly where the caller gave no setting, and turning encoding off writes the design's commands as they are.",
 ["inputs", "configurations"], "every registered extension, every letter case, every subset of settings, every output format",
 "tests use a few lower-case names and default settings",
 ["EmbPattern.py", "PyEmbroidery.py"], [("dispatch", PAT + "static_read, static_write, convert, supported_formats"), ("setting defaults", PAT + "write_embroidery")], None, ["bytes written / pattern read"])

prop("P22", "Template export opens and closes every section in balance",
 "The template-driven text writer emits the start and end text of design, colour, block, stitch, jump, trim, stop and end segments exactly at the corresponding transitions: starts and ends are properly nested and balanced, each colour or block section contains precisely its own stitches, and every placeholder is replaced by the value at that command. Any template subset gives the corresponding subsequence of the output.",
 ["inputs", "programs", "configurations"], "every command sequence and every subset of template entries",
 "tests use one or two templates on one design",
 ["GenericWriter.py"], [("section state machine", "pyembroidery/GenericWriter.py write")], None, ["the written text"])

prop("P23", "Decompression restores the bytes that were compressed",
 "Expanding compressed data yields exactly the original bytes: for stored blocks of any size, and for every valid Huffman-coded stream with literals and back-references, with the result cut to the requested length.",
 ["inputs"], "every byte string and every valid compressed stream",
 "tests expand one or two short samples",
 ["EmbCompress.py", "HusReader.py"], [("store", "pyembroidery/EmbCompress.py compress"), ("expand", "pyembroidery/EmbCompress.py EmbCompress")], None, ["bytes returned"])

prop("P24", "A thread's colour means the same however it is given or compared",
 "Setting a thread's colour by name, by 3-, 4-, 6- or 8-digit hex text, by number or by channel list gives the same colour value, its channels and hex text recompose to it, and nearest-colour search returns an entry no other entry beats in the red-mean metric. Equality among threads is an equivalence consistent with hashing, and comparing a thread to a number or a text compares its colour to the one they denote (an unknown name denotes black; malformed hex is out of scope). The printed form (repr) of a thread, read back as Python, is a thread with the same colour and texts.",
 ["inputs"], "every colour and every textual form",
 "tests check a few colours",
 ["EmbThread.py"], [("parsing", "pyembroidery/EmbThread.py EmbThread.set, parse_string_color, color_hex"), ("equality", "pyembroidery/EmbThread.py __eq__, __hash__"), ("distance", "pyembroidery/EmbThread.py color_distance_red_mean, find_nearest_color_index")], None, ["EmbThread values"])

prop("P25", "Picture and text exports show every stitch in its own colour",
 "The vector (SVG), raster (PNG, PEC thumbnail) and text exports describe the whole design: every sewn block appears once, in order, with its own thread's colour and through exactly its positions (in the raster as the lines between its stitches, of the width asked for, later blocks above earlier ones and nothing else; in a thumbnail as the dots of its stitches, scaled to the frame), the canvas covers the design's bounds, and the text export has one line per command with its colour (the embroidermodder form: per command it has a code for, with the number of the colour).",
 ["inputs"], "every design: any number of blocks, colours and positions including negative and single-point designs",
 "tests only check that the files can be written",
 ["SvgWriter.py", "PngWriter.py", "TxtWriter.py", "PecGraphics.py"], [("svg paths", "pyembroidery/SvgWriter.py write"), ("txt rows", "pyembroidery/TxtWriter.py write"), ("raster", "pyembroidery/PngWriter.py, PecGraphics.py draw_scaled")], None, ["written text or decoded raster"])

prop("P26", "Converting between formats keeps the stitches, changes and colours",
 "Converting a file with a format's default settings gives a file that, read back, is the design read from the source as that format holds it: the same penetrations at the same positions in the same order up to the precision of the format, the same thread changes, stops and trims in what the format tells apart, and, where the format stores colours as they are (CSV, JSON, VP3, XXX), each sewn block in the colour it had before, including around stops. Along any chain of conversions every penetration of the first machine design is found, in order, in the last, converting again to the same format changes neither stitches nor changes, and the source file is left as it was.",
 ["inputs", "histories"], "every design, every source format and every chain of target formats",
 "tests convert one small design once between pairs of formats; what accumulates over chains, and designs as machines leave them (odd jumps, stops, missing threads), is not sampled",
 ["EmbPattern.py"], [("convert", PAT + "convert, static_read, static_write"), ("encoding", PAT + "write_embroidery"), ("stop blocks", "pyembroidery/XxxWriter.py write")], None, ["the file written, as read back"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for d in P:
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d) + "\n")
print(len(P))
