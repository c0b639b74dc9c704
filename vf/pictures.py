"""Pictures and text exports against the design (P25)."""
import io, random, re, struct, zlib
import xml.etree.ElementTree as ET
from .cmds import *
from . import core, enc
from .pattern import body_of
from .writes import HIGH_W, Sink, make_pattern, read_back, settings_for, spec_q

COLORS = [0xFF0000, 0x00FF00, 0x0000FF, 0xFFFFFF, 0, 0x050403, 0x123456, 0x80FF40, 0x232323, 0x0F0F0F, 0xFE0000, 0x7F7F00]
LOW_W = {STITCH: 12, JUMP: 2, TRIM: 1.5, COLOR_CHANGE: 2, STOP: .7, END: .3, SLOW: .3}
ANY_W = {STITCH: 8, JUMP: 2, TRIM: 2, COLOR_CHANGE: 3, STOP: 1, END: 1, SLOW: .5, FAST: .5, NEEDLE_SET: .2, SEQUIN_MODE: .4, SEQUIN_EJECT: .5,
         COLOR_BREAK: .2, STITCH_BREAK: .3, SEQUENCE_BREAK: .3, FRAME_EJECT: .3, M_TRANSLATE: .3, TIE_ON: .2, NEEDLE_AT: .4, pack(COLOR_CHANGE, 1, 2): .3}
LOOSE_W = {**LOW_W, NEEDLE_SET: .5, COLOR_BREAK: .4, SEQUIN_MODE: .2, STITCH_BREAK: .2}
HIGH = {k: v for k, v in HIGH_W.items() if k != NEEDLE_SET}


def big_milli(v):
    return max(-CLAMP, min(CLAMP, int(round(v * 1000))))


def svg_of(data):
    root = ET.fromstring(data.decode("utf8"))
    strip = lambda t: t.split("}")[-1]
    assert strip(root.tag) == "svg"
    box = [big_milli(float(v)) for v in root.get("viewBox").replace(",", " ").split()]
    assert len(box) == 4
    paths = []
    for e in root.iter():
        if strip(e.tag) != "path":
            continue
        assert e.get("fill") == "none"
        c = e.get("stroke")
        assert re.fullmatch("#[0-9a-fA-F]{6}", c)
        d = e.get("d")
        assert re.fullmatch(r"\s*M[-+ML0-9.eE, ]*", d)
        n = [float(v) for v in re.findall(r"[-+]?[0-9.]+(?:[eE][-+]?[0-9]+)?", d)]
        assert len(n) % 2 == 0
        paths.append(dict(rgb=int(c[1:], 16), pts=[[big_milli(a), big_milli(b)] for a, b in zip(n[::2], n[1::2])]))
    return dict(box=box, size=[big_milli(float(root.get("width"))), big_milli(float(root.get("height")))], paths=paths)


NORMAL = re.compile(r"^(-?[0-9]+\.[0-9]),(-?[0-9]+\.[0-9]) color:([0-9]+) command:([A-Z0-9_]+) flags:([0-9]+)$")
MIMIC = re.compile(r"^(-?[0-9]+\.[0-9]),(-?[0-9]+\.[0-9]) color:([0-9]+) flags:([0-9]+)$")


def rows_of(data, mimic):
    text = data.decode("utf8")
    assert text == "" or text.endswith("\n")
    out = []
    for line in text.split("\n")[:-1]:
        m = (MIMIC if mimic else NORMAL).match(line)
        assert m, line
        k = 10 if mimic else 1
        g = m.groups()
        out.append(dict(x=big_milli(float(g[0]) * k), y=big_milli(float(g[1]) * k), color=int(g[2]), cmd=[] if mimic else [ord(ch) for ch in g[3]], flags=int(g[-1])))
    return out


def png_of(data):
    """an 8-bit RGBA picture whose rows have no filter"""
    assert data[:8] == b"\x89PNG\r\n\x1a\n"
    i, z, tags = 8, b"", []
    while i < len(data):
        n = struct.unpack("!I", data[i:i + 4])[0]
        tag, body = data[i + 4:i + 8], data[i + 8:i + 8 + n]
        assert struct.unpack("!I", data[i + 8 + n:i + 12 + n])[0] == zlib.crc32(tag + body)
        tags.append(tag)
        if tag == b"IHDR":
            w, h, depth, kind, a, b, c = struct.unpack("!2I5B", body)
            assert (depth, kind, a, b, c) == (8, 6, 0, 0, 0)
        if tag == b"IDAT":
            z += body
        i += 12 + n
    assert tags[0] == b"IHDR" and tags[-1] == b"IEND"
    raw = zlib.decompress(z)
    assert len(raw) == h * (4 * w + 1)
    rows, pal = [], {}
    for y in range(h):
        line = raw[y * (4 * w + 1):(y + 1) * (4 * w + 1)]
        assert line[0] == 0
        rows.append([pal.setdefault(tuple(line[1 + 4 * x:5 + 4 * x]), len(pal) + 1) for x in range(w)])
    return dict(w=w, h=h, pal=[list(k) for k in pal], pix=rows)


def recolor(r, p):
    last = None
    for t in p.threadlist:
        t.color = last = r.choice([c for c in COLORS if c != last])
    return [t.color & 0xFFFFFF for t in p.threadlist]


def source(r, fmt, pipe):
    """a pattern, and what the specification needs to know of it"""
    from pyembroidery import EmbPattern
    small = fmt == "png"
    if pipe:
        g = (r.choice([1, 3, 4]), r.choice([1, 2, 3])) if small else r.choice([(10, 12), (3, 1), (40, 10)])
        w = HIGH if fmt != "txt" else HIGH_W
        src = enc.Gen(r, w, maxlen=r.choice([4, 8, 14]), coord=g[0], grid=g[1]).design()
        nth = r.choice([0, 1, 2, 3, 5])
        p = enc.build(src, nth)
        return p, dict(pipe=True, src=enc.spec_src(src), nthr=nth, q=[], efmt=fmt), [list(s) for s in src]
    m = r.choice([1, 4, 9, 12]) if small else r.choice([9, 45, 60]) if fmt == "guides" else r.choice([1, 9, 60, 700])
    off = r.choice([0, 0, 5, -m, -90, 1000])
    flat = r.choice([1, 1, 1, 0])
    frac = 0 if small or fmt in ("pec", "pes") else r.choice([0, 0, .5, .25, .3])

    def at(r_):
        return off + r_.randint(-m, m) + r_.choice([0, frac])
    q = body_of(r, r.choice([0, 1, 2, 5, 9, 14]), ANY_W if fmt == "txt" else LOW_W if fmt in ("pec", "pes") or r.random() < .5 else LOOSE_W, at, uniq=False)
    if fmt in ("pec", "pes"):
        q = [[x, y, f] for x, y, f in q if f != END] + [[q[-1][0] if q else 0, q[-1][1] if q else 0, END]]
    if not flat:
        q = [[x, off, f] for x, y, f in q]
    p = EmbPattern()
    marked = r.random() < .4       # colours go by the order of the changes, whatever thread, needle or order a command names
    for s in q:
        more = pack(0, *(r.choice([None, 0, 1, 2, 9]) for _ in range(3))) if marked and s[2] in (STITCH, JUMP, TRIM, STOP, COLOR_CHANGE) and r.random() < .5 else 0
        p.stitches.append([s[0], s[1], s[2] | more])
    n = r.choice([0, 1, 2, 4]) if fmt not in ("pec", "pes") else 1 + sum(s[2] == COLOR_CHANGE for s in q)
    from pyembroidery import EmbThread
    for _ in range(n):
        p.threadlist.append(EmbThread(0))
    return p, dict(pipe=False, src=[], nthr=0, q=[enc_q(s) for s in q], efmt=fmt), q


def enc_q(s):
    f = s[2]
    return [milli(s[0]), milli(s[1]), 255 if f == NO_COMMAND else f & 0xFF, 0]


def one(r, fmt, pipe, big=False):
    from pyembroidery import EmbPattern, write_png, write_svg, write_txt
    import pyembroidery
    sfmt = "png" if fmt == "guides" else fmt
    p, d, design = source(r, fmt, pipe and fmt != "guides")
    if fmt == "guides":            # two writings of it must have the same colours
        while len(p.threadlist) < len(design) + 1:
            p.add_thread(0)
        d["nthr"] = len(p.threadlist)
    rgbs = recolor(r, p)
    s = {} if d["pipe"] else dict(encode=False)
    over = {}
    if d['pipe'] and r.random() < .4:
        over = r.choice([dict(full_jump=True), dict(full_jump=False), dict(explicit_trim=True), dict(sequin_contingency=SEQ_STITCH), dict(sequin_contingency=SEQ_JUMP)])
        s.update(over)
    d.update(over=enc.spec_over(over), mimic=False, lw=3, fancy=False, bg=[])
    if fmt == "txt" and r.random() < .4:
        d["mimic"] = True
        s.update(r.choice([dict(mimic=True), dict(version="embroidermodder")]))
    if sfmt == "png":
        if r.random() < .6:
            s["linewidth"] = d["lw"] = r.choice([1, 2, 3, 4, 5, 7])
        if r.random() < .4:
            s["fancy"] = d["fancy"] = r.random() < .7
        if r.random() < .5:
            c = r.choice(COLORS)
            s["background"] = r.choice([c, "#%06x" % c])
            d["bg"] = [c]
    if fmt == "pes":
        s["version"] = r.choice(["1", "6", "1t", "6t"])
    writer = getattr(pyembroidery, "write_" + sfmt)
    extra = dict(svg=None, rows=[], png=None, bytes=[], read=[], diff=[], same=False)

    def file(**more):
        out = Sink()
        writer(p, out, dict(s, **more))
        return out.getvalue()

    def go():
        if fmt == "guides":
            a, b = png_of(file()), png_of(file(guides=True))
            va = [[a["pal"][v - 1] for v in row] for row in a["pix"]]
            vb = [[b["pal"][v - 1] for v in row] for row in b["pix"]]
            same = (a["w"], a["h"]) == (b["w"], b["h"])
            diff = [[x, y] for y in range(a["h"]) for x in range(a["w"]) if va[y][x] != vb[y][x]] if same else []
            out = [v for v in diff if min(v) > 36]
            return dict(same=same, diff=out[:50] + diff[:20])
        data = file()
        if fmt == "svg":
            return dict(svg=svg_of(data))
        if fmt == "txt":
            return dict(rows=rows_of(data, d["mimic"]))
        if fmt == "png":
            return dict(png=png_of(data))
        back = read_back(fmt, data)
        read = []
        while "pec_graphic_%d" % len(read) in back.extras:
            g = back.extras["pec_graphic_%d" % len(read)]
            text = pyembroidery.PecGraphics.get_graphic_as_string(g)
            assert text == pyembroidery.PecGraphics.get_graphic_as_string(bytearray(g[0]))
            read.append(dict(bytes=list(g[0]), stride=g[1], text=[[ord(ch) for ch in line] for line in text.split("\n")]))
        return dict(bytes=list(data), read=read)
    ok, res = core.guarded(go)
    if ok == "ok":
        extra.update(res)
    for k in ("svg", "png"):
        if extra[k] is None:
            extra[k] = 0
    return dict(d, fmt=fmt, rgbs=rgbs, ok=ok == "ok", **extra,
                inp=dict(fmt=fmt, settings={k: repr(v) for k, v in s.items()}, design=design, colors=["%06x" % c for c in rgbs], error=None if ok == "ok" else res))


def check_p25(run):
    run.model("RasterMC", deeper=dict(N=5))

    def go(fmts, n, seed):
        def inner():
            r = random.Random(run.seed * 83 + seed)
            return [one(r, f, r.random() < .5) for f in fmts for _ in range(n)]
        return core.in_child(inner)
    run.suite("pictures.text", "PicTrace", go(["svg", "txt"], run.n(200, 3000), 1), clauses=["svg.", "txt.", "picture."], chunk=600)
    run.suite("pictures.raster", "PicTrace", go(["png"], run.n(120, 2000), 2) + go(["guides"], run.n(20, 200), 3), clauses=["png.", "picture."], chunk=100)
    run.suite("pictures.thumbnails", "PicTrace", go(["pec", "pes"], run.n(40, 500), 4), clauses=["thumb.", "picture."], chunk=100)
