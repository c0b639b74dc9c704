"""Designs written to stitch files and read back (P08, P09)."""
import io, random, re
from .cmds import *
from . import core, enc
from .formats import writer_for, reader_for, q4, thread_ints, NOPOST, le32

# format -> largest displacement of a stitch, of a jump, commands a design may hold, share of each
LIMITS = dict(dst=(121, 121), exp=(127, 127), jef=(127, 127), u01=(255, 255), xxx=(124, 127), tbf=(127, 127),
              pec=(2047, 2047), pes=(2047, 2047), vp3=(9000, 9000), gcode=(100000, 100000))
CONTROLS = [TRIM, STOP, COLOR_CHANGE, NEEDLE_SET, SLOW, FAST, SEQUIN_MODE, SEQUIN_EJECT]
FMTS = sorted(LIMITS)
FRACTIONS = (0, 0, .2, .4, .6, .8, .125, .25, .375, .625, .75, .875)


class Sink(io.BytesIO):
    """a stream whose bytes survive close()"""
    def close(self):
        pass


def step(r, m):
    b = [0, 1, -1, m, -m, m - 1, 1 - m, m // 2, 62, 63, 64, -63, -64, -65, 40, 41, 13, 14, 121, 123, 124, 125, 126, 127,
         128, 129, 255, 256, 2046, 2047]
    v = r.choice([r.choice(b), r.choice(b), r.randint(-m, m), r.randint(-m, m), r.randint(-9, 9)])
    return max(-m, min(m, v))


def low_level(r, fmt, n, frac=None, sequins=False, half=False):
    """a low-level design [[x, y, flag, needle]]: control commands where the needle is"""
    ms, mj = LIMITS[fmt]
    lim = 15000 if fmt == "vp3" else 300000
    x = y = 0
    fx = fy = 0
    out = []
    mode = False
    for _ in range(n):
        k = r.random()
        if k < .5:
            f, m = STITCH, ms
        elif k < .68:
            f, m = JUMP, mj
        else:
            f, m = r.choice(CONTROLS), None
            if f == TRIM and mode:
                f, m = STITCH, ms          # the encoder leaves sequin mode before it trims
            if half and f in (TRIM, SEQUIN_MODE, SEQUIN_EJECT):
                f, m = STITCH, ms
            if f in (SEQUIN_MODE, SEQUIN_EJECT) and not sequins:
                f, m = JUMP, mj
            if f == NEEDLE_SET and fmt in ("pec", "pes", "jef", "vp3"):
                f = COLOR_CHANGE       # these keep threads per change
            if f == SEQUIN_EJECT and not mode:
                f = SEQUIN_MODE
            if f == SEQUIN_EJECT:
                m = mj
            if f == SEQUIN_MODE:
                mode = not mode
        if f == JUMP and mode:
            f, m = STITCH, ms          # no jumps inside sequin mode
        nd = None
        if m is not None:
            if frac:
                m = m - 1 if m < 32000 else m - 2
            for _try in range(50):
                dx, dy = step(r, m), step(r, m)
                if half and abs(dx) < 3 and abs(dy) < 3:
                    continue
                if abs(x + dx) < lim and abs(y + dy) < lim:
                    break
            else:
                dx = dy = 0
            x, y = x + dx, y + dy
            if frac:
                fx, fy = r.choice(frac), r.choice(frac)
        if f == NEEDLE_SET:
            nd = r.randint(1, 16)
        out.append([x + fx, y + fy, f, nd])
    out.append([x + fx, y + fy, END, None])
    return out


def make_pattern(r, q, extra_threads=2):
    from pyembroidery import EmbPattern, EmbThread
    p = EmbPattern()
    r2 = random.Random(repr(q))
    marked = r2.random() < .5     # files are read in order: what a command says of threads, needles or order means nothing to them
    for x, y, f, nd in q:
        p.stitches.append([x, y, f if nd is None else pack(f, None, nd)])
        if marked and f in (STITCH, JUMP, TRIM, STOP, COLOR_CHANGE, SEQUIN_EJECT, END) and r2.random() < (.8 if f in (COLOR_CHANGE, STOP, TRIM) else .4):
            p.stitches[-1][2] |= pack(0, *(r2.choice([None, 0, 0, 1, 2, 9]) for _ in range(3)))
    need = 1 + sum(1 for s in q if s[2] in (COLOR_CHANGE, NEEDLE_SET))
    last = None
    for i in range(need + r.randint(0, extra_threads)):
        while True:
            c = r.choice([r.randint(0, 0xFFFFFF), r.choice([0xFF0000, 0x00FF00, 0x0000FF, 0xFFFFFF, 0x000000])])
            if c != last:
                break
        last = c
        t = EmbThread()
        t.color = c
        t.description, t.catalog_number, t.brand = "t%d" % i, str(i), "b"
        p.add_thread(t)
    if r.random() < .25:         # what the design is called has nothing to do with its stitches
        dress(r, p)
    return p


TEXTS = ["a", "", "name", "x" * 15, "x" * 16, "x" * 17, "y" * 300, "\u00fc" * 9, "\u4e2d\u6587" * 30, "a\rb", "a\nb\r\nc", "\x1a", "\x00z", "LA:\rST:  1\r", "\U0001f9f5" * 5,
         "tab\there", " lead", "G1 X5 Y5", "M0)", "(x"]
KEYS = ["name", "category", "author", "keywords", "comments", "copyright", "tp", "other"]


def dress(r, p):
    """texts and thread attributes of any length"""
    for k in KEYS:
        if r.random() < .4:
            p.extras[k] = r.choice(TEXTS)
    for t in p.threadlist:
        for a in ("description", "catalog_number", "brand", "chart", "details"):
            if r.random() < .3:
                setattr(t, a, r.choice(TEXTS + [None]))


def spec_q(q):
    return [[milli(s[0]), milli(s[1]), s[2], 0 if s[3] is None else s[3] + 1] for s in q]


def settings_for(r, fmt):
    s, o = {}, dict(trimat=3, trims=False, keepstop=False)
    if fmt == "dst" and r.random() < .5:
        s["trim_at"] = o["trimat"] = r.choice([2, 3, 4, 5, 6, 7, 8])
    if fmt == "dst" and r.random() < .2:
        s["version"] = "extended"
    if fmt == "jef":
        if r.random() < .5:
            s["trims"] = o["trims"] = r.random() < .8
        if r.random() < .5:
            s["trim_at"] = o["trimat"] = r.choice([2, 3, 4, 5])
    if fmt == "pes":
        s["version"] = r.choice([1, 6, "1", "6", "1t", "6t"])
    return s, o


NUM = re.compile(r"([A-Za-z])\s*([-+]?[0-9]*\.?[0-9]+)")


def gcode_records(data):
    """lines of G-code -> <<g, x, y, m>>"""
    out = []
    for line in data.decode("utf8", "replace").replace("\r", "\n").split("\n"):
        line = re.sub(r"\([^)]*\)?", "", line).split(";")[0]
        w = {}
        for k, v in NUM.findall(line):
            w[k.upper()] = float(v)
        if not w:
            continue
        none = -999999999
        def z(k, s):
            return none if k not in w else max(-CLAMP, min(CLAMP, int(round(w[k] * s))))
        out.append([z("G", 1), z("X", 10000), z("Y", 10000), z("M", 1)])
    return out


def body(fmt, data):
    """the stitch data of a written file, found the way its readers do"""
    if fmt == "dst":
        return data[512:]
    if fmt in ("u01", "xxx"):
        return data[0x100:]
    if fmt == "tbf":
        return data[0x600:]
    if fmt == "jef":
        return data[int.from_bytes(data[0:4], "little"):]
    if fmt == "pec":
        return data[8 + 528:]
    if fmt == "pes":
        return data[int.from_bytes(data[8:12], "little") + 528:]
    return data


def aux_of(fmt, data):
    if fmt == "jef":
        n = min(int.from_bytes(data[24:28], "little"), 4000)
        return [int.from_bytes(data[0x74 + 4 * i:0x78 + 4 * i], "little") for i in range(n)]
    if fmt == "tbf":
        return list(data[0x10A:0x20A])
    return []


def write_file(p, fmt, settings):
    from pyembroidery import EmbPattern
    out = Sink()
    EmbPattern.write_embroidery(writer_for(fmt), p, out, settings)
    return out.getvalue()


def write_case(r, fmt, q, settings, o, half=False, frac=False, name=None):
    """what the written file denotes"""
    st = dict(settings, encode=False)
    p = make_pattern(r, q)
    ok, data = core.guarded(lambda: write_file(p, fmt, dict(st)))
    err = None if ok == "ok" else data
    data = data if ok == "ok" else b""
    sf = "pec" if fmt == "pes" else fmt
    b = body(fmt, data)
    if sf in ("pec", "pes"):
        b = b[:20 * len(q) + 64]
    if sf == "xxx":
        b = b[:8 * len(q) + 32]
    c = dict(kind="w", fmt=sf, pipe=False, q=spec_q(q), o=o, half=half, ok=ok == "ok", base=0, start=0,
             bytes=[] if fmt == "gcode" else list(b), aux=aux_of(fmt, data),
             recs=gcode_records(data) if fmt == "gcode" else [],
             tol=(6 if fmt == "gcode" else (510 if frac and not half and fmt == "vp3" else 10 if fmt == "vp3" else 0)),
             inp=dict(fmt=fmt, settings={k: repr(v) for k, v in st.items()}, design=q, error=err))
    if fmt == "gcode" and half:
        c["tol"] = -494          # G-code keeps more than whole units
    return c


def read_back(fmt, data):
    from pyembroidery import EmbPattern
    p = EmbPattern()
    EmbPattern.read_embroidery(reader_for(fmt), io.BytesIO(data), None, p)
    return p


def e2e_case(r, fmt, q, settings, o):
    """written and read back by the real code"""
    from pyembroidery import EmbPattern
    sf = "pec" if fmt == "pes" else fmt
    post = dict(NOPOST)
    if fmt == "dst":
        post = dict(kind="trim", cnt=3, dist=-1, clip=True)
    if fmt == "jef":
        post = dict(kind="trim", cnt=0, dist=30000, clip=True)
    p = make_pattern(r, q)
    st = dict(settings)
    threads = []

    def go():
        data = write_file(p, fmt, dict(st, encode=False))
        b = read_back(fmt, data)
        threads.extend(b.threadlist)
        return [q4(s) for s in b.stitches]
    ok, res = core.guarded(go)
    qq = spec_q(q)
    o = dict(o, keepstop=True)
    return dict(kind="e", fmt=sf, pipe=False, q=qq, o=o, ok=ok == "ok", res=res if ok == "ok" else [], post=post, wthr=[],
                tol=(60 if fmt == "gcode" else 510 if fmt == "vp3" else 0), bytes=[], recs=[],
                inp=dict(fmt=fmt, settings={k: repr(v) for k, v in st.items()}, design=q, error=None if ok == "ok" else res))


HIGH_W = {STITCH: 12, JUMP: 4, TRIM: 3, STOP: 1.2, COLOR_CHANGE: 1.5, COLOR_BREAK: 1.5, STITCH_BREAK: 1,
          SEQUENCE_BREAK: 1.5, NEEDLE_AT: 1, SEW_TO: 1, SEQUIN_EJECT: 1.5, FRAME_EJECT: .6, END: .2, SLOW: .7, FAST: .7,
          NEEDLE_SET: .5, M_TRANSLATE: .3}
OVERRIDES = [dict(), dict(), dict(), dict(full_jump=True), dict(full_jump=False), dict(explicit_trim=True), dict(explicit_trim=False),
             dict(writes_speeds=False), dict(max_stitch=40, max_jump=40), dict(max_jump=60), dict(max_stitch=60),
             dict(long_stitch_contingency=LONG_SEW), dict(translate=(12, -24)), dict(scale=2), dict(scale=(1, 1)), dict(rotate=90),
             dict(sequin_contingency=SEQ_REMOVE), dict(sequin_contingency=SEQ_STITCH), dict(sequin_contingency=SEQ_JUMP),
             dict(round=False), dict(round=True), dict(needle_count=2)]


def pipe_cases(r, fmt, n):
    """high-level designs written by default: the file, and the file read back"""
    out = []
    for _ in range(n):
        # positions on a grid that over-long moves divide evenly
        src = enc.Gen(r, HIGH_W, maxlen=r.choice([4, 10, 18]), coord=10, grid=12).design()
        nth = r.choice([0, 1, 2, 3, 5])
        s, o = settings_for(r, fmt)
        over = r.choice(OVERRIDES)
        s = dict(s, **over)
        if fmt == "gcode" or over.get("scale") == 2:
            s = {k: v for k, v in s.items() if k not in ("max_stitch", "max_jump")}
        sf = "pec" if fmt == "pes" else fmt
        common = dict(fmt=sf, efmt=fmt, pipe=True, src=enc.spec_src(src), nthr=nth, over=enc.spec_over(s), half=False, base=0, start=0, wthr=[])
        inp = dict(fmt=fmt, settings={k: repr(v) for k, v in s.items()}, design=[list(x) for x in src], threads=nth)
        ok, data = core.guarded(lambda: write_file(enc.build(src, nth), fmt, dict(s)))
        err = None if ok == "ok" else data
        data = data if ok == "ok" else b""
        b = body(fmt, data)
        if sf == "pec":
            k = b.find(b"\xff\x00\x00")
            b = b[:k + 2] if k >= 0 else b
        if sf == "xxx":
            k = b.find(b"\x7f\x7f\x02\x14")
            b = b[:k + 4] if k >= 0 else b
        tol = 6 if fmt == "gcode" else 510 if fmt == "vp3" else 0
        out.append(dict(common, kind="w", o=o, ok=ok == "ok", bytes=[] if fmt == "gcode" else list(b), aux=aux_of(fmt, data),
                        recs=gcode_records(data) if fmt == "gcode" else [], tol=tol, inp=dict(inp, error=err)))
        if ok != "ok":
            continue

        def back():
            return [q4(s) for s in read_back(fmt, data).stitches]
        ok, res = core.guarded(back)
        post = dict(NOPOST)
        if fmt == "dst":
            post = dict(kind="trim", cnt=3, dist=-1, clip=True)
        if fmt == "jef":
            post = dict(kind="trim", cnt=0, dist=30000, clip=True)
        out.append(dict(common, kind="e", o=dict(o, keepstop=True), ok=ok == "ok", res=res if ok == "ok" else [], post=post,
                        bytes=[], recs=[], tol=60 if fmt == "gcode" else tol, inp=dict(inp, error=None if ok == "ok" else res)))
    return out


def drive_pipe(seed, per):
    def go():
        r = random.Random(seed)
        return [c for fmt in FMTS for c in pipe_cases(r, fmt, per)]
    return core.in_child(go)


def drive_writes(seed, per, maxn=18):
    def go():
        r = random.Random(seed)
        cases = []
        for fmt in FMTS:
            for k in range(per):
                frac = None if k % 2 == 0 else FRACTIONS
                q = low_level(r, fmt, r.randint(0, maxn), frac, sequins=fmt == "dst")
                if r.random() < .12:
                    q = q[:-1]              # a design need not have an end
                s, o = settings_for(r, fmt)
                cases.append(write_case(r, fmt, q, s, o, frac=frac is not None))
                cases.append(e2e_case(r, fmt, q, s, o))
        return cases
    return core.in_child(go)


def drive_far(seed, per):
    """designs of some hundred commands"""
    def go():
        r = random.Random(seed)
        cases = []
        for fmt in FMTS:
            for k in range(per):
                q = low_level(r, fmt, r.randint(200, 400), None if k % 2 == 0 else FRACTIONS, sequins=fmt == "dst")
                s, o = settings_for(r, fmt)
                cases.append(write_case(r, fmt, q, s, o, frac=k % 2 == 1))
                cases.append(e2e_case(r, fmt, q, s, o))
        return cases
    return core.in_child(go)


def drive_half(seed, per, length):
    def go():
        r = random.Random(seed)
        cases = []
        for fmt in FMTS:
            for k in range(per):
                frac = r.choice([(.5,), (.5, 0), (.25, .75, .5), (.1, .3, .7, .9), (.125, .375, .625, .875, .5), (.49, .51), (0,)])
                q = low_level(r, fmt, length if k else length * 3, frac, half=True)
                s, o = settings_for(r, fmt)
                cases.append(write_case(r, fmt, q, s, o, half=True))
        return cases
    return core.in_child(go)


def check_p08(run):
    run.model("FormatsMC")
    run.model("FormatsMC", constants=dict(N=1, Wide="TRUE"))
    if run.thorough:
        run.model("FormatsMC", constants=dict(N=2), timeout=1500)
    run.suite("write.records", "FmtTrace", drive_writes(run.seed * 31 + 8, run.n(60, 700)))
    run.suite("write.long", "FmtTrace", drive_far(run.seed * 31 + 188, run.n(2, 8)), chunk=20)
    run.suite("encode.write.read", "FmtTrace", drive_pipe(run.seed * 31 + 88, run.n(60, 700)))


def check_p09(run):
    run.model("DriftMC", deeper=dict(N=9))
    run.suite("write.drift", "FmtTrace", drive_half(run.seed * 31 + 9, run.n(12, 120), run.n(90, 220)), chunk=600)
