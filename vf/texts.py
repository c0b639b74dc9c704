"""Designs as text (P12) and text metadata (P13)."""
import io, json, random
from .cmds import *
from . import core
from .threads import codes, rec, rand_thread, color, write_text, read_any, CSVTEXTS
from .writes import write_file

ALL = [STITCH, JUMP, TRIM, STOP, END, COLOR_CHANGE, SEQUIN_MODE, SEQUIN_EJECT, NEEDLE_SET, SLOW, FAST, SET_CHANGE_SEQUENCE, SEW_TO, NEEDLE_AT,
       M_TRANSLATE, M_SCALE_O, M_ROTATE_O, M_RESET, M_SCALE, M_ROTATE, TIE_ON_SMALL, TIE_OFF_SMALL, TIE_ON_NONE, TIE_OFF_NONE, OPT_MAX_STITCH, OPT_MAX_JUMP,
       OPT_EXPLICIT, OPT_IMPLICIT, STITCH_BREAK, SEQUENCE_BREAK, COLOR_BREAK, TIE_ON, TIE_OFF, FRAME_EJECT, LONG_NONE, LONG_JUMP, LONG_SEW, SEQ_UTIL,
       SEQ_JUMP, SEQ_STITCH, SEQ_REMOVE]
NAMES = dict(zip("STITCH JUMP TRIM STOP END COLOR_CHANGE SEQUIN_MODE SEQUIN_EJECT NEEDLE_SET SLOW FAST SET_CHANGE_SEQUENCE SEW_TO NEEDLE_AT MATRIX_TRANSLATE "
                 "MATRIX_SCALE_ORIGIN MATRIX_ROTATE_ORIGIN MATRIX_RESET MATRIX_SCALE MATRIX_ROTATE CONTINGENCY_TIE_ON_THREE_SMALL CONTINGENCY_TIE_OFF_THREE_SMALL "
                 "CONTINGENCY_TIE_ON_NONE CONTINGENCY_TIE_OFF_NONE OPTION_MAX_STITCH_LENGTH OPTION_MAX_JUMP_LENGTH OPTION_EXPLICIT_TRIM OPTION_IMPLICIT_TRIM "
                 "STITCH_BREAK SEQUENCE_BREAK COLOR_BREAK TIE_ON TIE_OFF FRAME_EJECT CONTINGENCY_LONG_STITCH_NONE CONTINGENCY_LONG_STITCH_JUMP_NEEDLE "
                 "CONTINGENCY_LONG_STITCH_SEW_TO CONTINGENCY_SEQUIN_UTILIZE CONTINGENCY_SEQUIN_JUMP CONTINGENCY_SEQUIN_STITCH CONTINGENCY_SEQUIN_REMOVE".split(), ALL))
WORDS = CSVTEXTS + ["", " ", " lead", "trail ", "\r", "a\r\nb", "\n", ",", '"', '","', "a,", ",a", 'x""y', "@", ">", "\t", "0", "None", "é\n", "UNKNOWN 3", "$1", "'q'"]
KEYS = ["name", "author", "copyright", "category", "keywords", "comments", "Name"]


def rand_text(r):
    k = r.random()
    if k < .6:
        return r.choice(WORDS)
    return "".join(r.choice('ab",\n\r #*@$>\'é金') for _ in range(r.randint(1, 8)))


def rand_command(r):
    k = r.random()
    if k < .06:
        f = r.choice([8, 10, 0x20, 0xAF, 0xC6, 0xE3, 0xFE, 0x99])     # numbers no command has
    elif k < .5:
        f = r.choice([STITCH, JUMP, COLOR_CHANGE, NEEDLE_SET])
    else:
        f = r.choice(ALL)
    if r.random() < .35:
        return pack(f, *[r.choice([None, 0, 1, 9, 10, 99, 100, 254]) for _ in range(3)])
    return f


def coords(r, exact):
    """plain decimals TLC reads; exact: any float"""
    if exact:
        return r.choice([r.uniform(-1e3, 1e3), 0.1 + 0.2, 1e-7, -1e22, 1 / 3.0, r.randint(-10 ** 9, 10 ** 9), 2.5e-300])
    return r.choice([r.randint(-9, 9), r.randint(-90000, 90000), r.randint(-800, 800) / 8.0, float(r.randint(-50, 50)), 0.5, -0.125, 0])


def text_design(r, n, exact=False):
    from pyembroidery import EmbPattern
    p = EmbPattern()
    for _ in range(n):
        p.stitches.append([coords(r, exact), coords(r, exact), rand_command(r)])
    if r.random() < .1 and n:
        p.stitches[-1][2] = -1
    for _ in range(r.choice([0, 0, 1, 2, 5])):
        t = rand_thread(r, [color(r), 0, 0xFFFFFF], WORDS[:-8] + [None] * 9)
        for a in ("description", "catalog_number", "details", "brand", "chart", "weight"):
            if r.random() < .2:
                setattr(t, a, rand_text(r))
        p.add_thread(t)
    for _ in range(r.choice([0, 0, 1, 2, 4])):
        p.extras[r.choice(KEYS) if r.random() < .7 else rand_text(r)] = rand_text(r)
    return p


def exts(p):
    return [[codes(k), codes(v)] for k, v in p.extras.items() if isinstance(v, str)]


def u4(cmd):
    cmd = int(cmd)
    return [cmd & 255, (cmd >> 8) & 255, (cmd >> 16) & 255, (cmd >> 24) & 255]


def qs(p):
    return [[milli(s[0]), milli(s[1])] + u4(s[2]) for s in p.stitches]


def same_exact(p, b):
    if len(p.stitches) != len(b.stitches):
        return False
    return all(float(s[0]) == float(t[0]) and float(s[1]) == float(t[1]) and s[2] == t[2] for s, t in zip(p.stitches, b.stitches))


def describe(p):
    return dict(stitches=[list(s) for s in p.stitches], threads=[repr(vars(t)) for t in p.threadlist], extras=repr(p.extras))


def csv_case(r, n, exact=False):
    p = text_design(r, n, exact)
    if exact:
        for s in p.stitches:
            if r.random() < .2:
                s[0] = float(s[0])
    ver = r.choice(["default", "delta", "full"])
    st = dict(encode=False) if r.random() < .5 else {}
    if ver != "default" or r.random() < .3:
        if ver == "delta" and r.random() < .4:
            st["deltas"] = True
        elif ver == "full" and r.random() < .4:
            st["displacement"] = True
        else:
            st["version"] = ver

    by_name = r.random() < .2

    def go():
        if by_name:
            from pyembroidery import EmbPattern
            EmbPattern.static_write(p, "t.csv", dict(st))
            with open("t.csv", "rb") as f:
                data = f.read()
            b = EmbPattern.static_read("t.csv")
        else:
            data = write_text(p, "csv", dict(st))
            b = read_any("csv", data)
        return data.decode("utf8"), qs(b), [rec(t) for t in b.threadlist], exts(b), same_exact(p, b)
    ok, res = core.guarded(go)
    t, rq, rt, re_, ex = res if ok == "ok" else ("", [], [], [], True)
    inv = {v: k for k, v in NAMES.items()}
    counts = [[codes("COMMAND_" + inv[f]), f] for f in sorted({s[2] & 255 for s in p.stitches if s[2] != -1 and (s[2] & 255) in inv})]
    keys = ["STITCH_COUNT:", "THREAD_COUNT:", "NEEDLE_COUNT:"] + ["EXTENTS_%s:" % k for k in ("LEFT", "TOP", "RIGHT", "BOTTOM", "WIDTH", "HEIGHT")]
    c = dict(kind="csv", ok=ok == "ok", q=qs(p), thr=[rec(t) for t in p.threadlist], ext=exts(p), version=ver, text=[ord(ch) for ch in t],
             keys=[codes(k) for k in keys], counts=counts, res=rq, rthr=rt, rext=re_, exact=ex,
             inp=dict(design=describe(p), settings=st, error=None if ok == "ok" else res))
    if exact:        # numbers TLC does not read: only what came back is judged
        c.update(kind="csv.reader", text=[], res=[], rthr=[], rext=[])
        c["ok"] = ok == "ok" and ex and rt == c["thr"] and sorted(re_) == sorted(c["ext"])
    return c


def json_case(r, n, exact=False):
    p = text_design(r, n, exact)
    if r.random() < .2:
        p.extras["n"] = r.choice([5, 1.5, True])

    def go():
        data = write_text(p, "json", r.choice([{}, dict(encode=False)]))
        b = read_any("json", data)
        return json.loads(data.decode("utf8")), qs(b), [rec(t) for t in b.threadlist], exts(b), same_exact(p, b) and all(
            b.extras.get(k) == v for k, v in p.extras.items())
    ok, res = core.guarded(go)
    doc, rq, rt, re_, ex = res if ok == "ok" else (dict(stitches=[], threadlist=[], extras={}), [], [], [], True)
    thr = [rec(t) for t in p.threadlist]
    c = dict(kind="json", ok=ok == "ok", q=qs(p), thr=thr, ext=exts(p), doc=docs(doc), dthr=dthreads(doc), dext=dexts(doc), res=rq, rthr=rt, rext=re_,
             exact=ex, inp=dict(design=describe(p), error=None if ok == "ok" else res))
    if exact:
        c.update(kind="json.reader", doc=[], res=[], dthr=[], rthr=[], dext=[], rext=[])
        c["ok"] = ok == "ok" and ex and rt == thr and sorted(re_) == sorted(c["ext"])
    return c


def docs(doc):
    return [[milli(s[0]), milli(s[1]), codes(str(s[2]))] for s in doc["stitches"]]


def dthreads(doc):
    out = []
    for t in doc["threadlist"]:
        v = str(t["color"]).lstrip("#")
        out.append([int(v, 16) & 0xFFFFFF] + [codes(t[k]) for k in ("description", "catalog_number", "details", "brand", "chart", "weight")])
    return out


def dexts(doc):
    return [[codes(k), codes(v)] for k, v in doc["extras"].items() if isinstance(v, str)]


# ---------------------------------------------------------------- the readers on texts of others
def field(r, s):
    """one of the ways to write a field"""
    special = any(ch in s for ch in ',"\r\n')
    if special or s == "" or r.random() < .5:
        return '"%s"' % s.replace('"', '""') if (special or s or r.random() < .5) else ""
    return s


def command_text(r):
    k = r.random()
    name = r.choice(list(NAMES) if k < .6 else ["STITCH", "JUMP", "COLOR_CHANGE", "NEEDLE_SET"])
    if r.random() < .05:
        return "UNKNOWN %d" % r.choice([8, 0x10203E3, 255, 0xFFFFFF99, 2 ** 31 + 10])
    att = [a + str(r.choice([0, 1, 9, 10, 99, 254])) for a in r.sample("tno", r.choice([0, 0, 0, 1, 2, 3]))]
    return " ".join([name] + att)


def dec(r):
    return r.choice([str(r.randint(-999, 999)), "%.1f" % r.uniform(-90, 90), "%.3f" % r.uniform(-9, 9), "%.2f" % r.uniform(-9, 9), "0", "-0.5", "007"])


def csv_text(r, n):
    rows = []
    for i in range(n):
        k = r.random()
        if k < .5:
            row = ["*", str(i), command_text(r)]
            if r.random() < .9:
                row += [dec(r), dec(r)] + ([dec(r), dec(r)] if r.random() < .2 else [])
        elif k < .6:
            row = ["$", str(i), "#%06x" % r.randint(0, 0xFFFFFF)] + [rand_text(r) for _ in range(r.choice([0, 1, 2, 3, 4, 4, 5, 6, 6]))]
            if len(row) == 7 and all(len(x) <= 3 for x in row[2:5]):
                row.pop()
        elif k < .68:
            row = ["$", str(i)] + [str(r.randint(0, 255)) for _ in range(3)] + [r.choice(["Red", "Ä", "a,b"]), r.choice(["100", "x"])]
        elif k < .8:
            row = ["@", r.choice(KEYS + ["k\n", ""]), rand_text(r)] + (["more"] if r.random() < .1 else [])
        elif k < .85:
            row = ["#", "[X]", "text"][:r.randint(1, 3)]
        elif k < .9:
            row = [">", "STITCH_COUNT:", "77"]
        else:
            row = []
        rows.append(row)
    eol = r.choice(["\n", "\r\n", "\r"])
    out = ""
    for row in rows:
        out += ",".join(field(r, f) for f in row) + (eol if r.random() < .9 else r.choice(["\n", "\r\n"]))
    return out if r.random() < .8 else out.rstrip("\r\n") if not out.rstrip("\r\n").endswith('"') or True else out


def csv_reader_case(r, n):
    t = csv_text(r, n)

    def go():
        b = read_any("csv", t.encode("utf8"))
        return qs(b), [rec(x) for x in b.threadlist], exts(b)
    ok, res = core.guarded(go)
    rq, rt, re_ = res if ok == "ok" else ([], [], [])
    return dict(kind="csv.reader", ok=ok == "ok", text=[ord(ch) for ch in t], res=rq, rthr=rt, rext=re_, inp=dict(text=t, error=None if ok == "ok" else res))


def json_reader_case(r, n):
    doc = dict(stitches=[[float(dec(r)), r.randint(-99, 99), command_text(r)] for _ in range(n)],
               threadlist=[dict(color="#%06x" % r.randint(0, 0xFFFFFF), **{k: r.choice([None, rand_text(r)]) for k in
                                ("description", "catalog_number", "details", "brand", "chart", "weight")}) for _ in range(r.randint(0, 3))],
               extras={r.choice(KEYS): rand_text(r) for _ in range(r.randint(0, 3))})
    t = json.dumps(doc, ensure_ascii=r.random() < .5, indent=r.choice([None, 1]))

    def go():
        b = read_any("json", t.encode("utf8"))
        return qs(b), [rec(x) for x in b.threadlist], exts(b)
    ok, res = core.guarded(go)
    rq, rt, re_ = res if ok == "ok" else ([], [], [])
    return dict(kind="json.reader", ok=ok == "ok", doc=docs(doc), dthr=dthreads(doc), dext=dexts(doc), res=rq, rthr=rt, rext=re_,
                inp=dict(text=t, error=None if ok == "ok" else res))


def check_p12(run):
    run.model("CsvMC", deeper=dict(N=4))

    def go():
        r = random.Random(run.seed * 131 + 12)
        out = []
        for _ in range(run.n(250, 3000)):
            out.append(csv_case(r, r.choice([0, 1, 3, 8, 12])))
            out.append(json_case(r, r.choice([0, 1, 3, 8, 20])))
            out.append(json_reader_case(r, r.randint(0, 8)))
            out.append(csv_reader_case(r, r.randint(0, 12)))
        for n in (100, 300):
            out.append(csv_case(r, n))
            out.append(json_case(r, n))
            out.append(json_reader_case(r, n))
            out.append(csv_reader_case(r, n))
        for _ in range(run.n(100, 1000)):
            out.append(csv_case(r, 6, True))
            out.append(json_case(r, 6, True))
        return out
    run.suite("text.designs", "TextTrace", core.in_child(go, timeout=600))


# ---------------------------------------------------------------- metadata
METATEXT = ["Flower", "a name of sixteen", "exactly sixteen!", "  spaced  ", "", "x", "two\nlines", "tab\there", "cr\r\nlf", "end\x1amark", "Blüte", "花の刺繍", "naïve café é",
            "😀😀😀😀😀", "a" * 15 + "é", "a" * 14 + "金", "b" * 17, "LA:x", "AU:me", "TC:#ff0000,a,b", "(round)", ";", "n" * 255, "n" * 256, "é" * 128, "x" * 254 + "é", "c" * 383,
            "c" * 384, "q" * 600, "#1", "%s", "0", "  ", "trail   "]
MFMTS = ["dst", "dstx", "pec", "pes1", "pes6", "tbf", "csv", "json"]
OTHERS = ["exp", "jef", "u01", "xxx", "vp3", "gcode"]
REAL = dict(dstx=("dst", dict(version="extended")), pes1=("pes", dict(version="1")), pes6=("pes", dict(version="6")))


def meta_design(r, ext):
    from pyembroidery import EmbPattern, EmbThread
    p = EmbPattern()
    for b in range(r.randint(1, 3)):
        p.add_thread(EmbThread([0xFF0000, 0x00AA00, 0x0000FF][b]))
        if b:
            p.add_command(COLOR_CHANGE, 40 * b, 0)
        for k in range(r.randint(2, 4)):
            p.add_stitch_absolute(STITCH, 40 * b + 10 * k, 7 * k)
    p.add_command(END, 40 * b + 10 * k, 7 * k)
    p.extras.update(ext)
    return p


def save(fmt, p, encode):
    real, st = REAL.get(fmt, (fmt, {}))
    st = dict(st)
    if not encode:
        st["encode"] = False
    if real == "jef":
        st["date"] = "20260101120000"
    return real, (write_text(p, real, st) if real in ("csv", "json") else write_file(p, real, st))


def meta_case(r, fmts):
    ext = {}
    for k in KEYS:
        if r.random() < .5:
            ext[k] = r.choice(METATEXT) if r.random() < .8 else "".join(r.choice("abc é金😀\n;,") for _ in range(r.randint(0, 20)))
    p = meta_design(r, ext)
    plain = p.copy()
    plain.extras.clear()
    encode = r.random() < .5

    def go():
        a, b = p, plain
        first = None
        for fmt in fmts:
            real, da = save(fmt, a, encode)
            _, db = save(fmt, b, encode)
            if first is None:
                first = (da, db)
            a, b = read_any(real, da), read_any(real, db)
        da, db = first
        base = 8 if fmts[0] == "pec" else int.from_bytes(da[8:12], "little")
        diff = [i for i in range(min(len(da), len(db))) if da[i] != db[i]]
        return (exts(a), [spec_stitch(s) for s in a.stitches] == [spec_stitch(s) for s in b.stitches],
                [rec(t) for t in a.threadlist] == [rec(t) for t in b.threadlist], len(da) == len(db), diff[:200], min(base, 10 ** 6))
    ok, res = core.guarded(go)
    rext, sameq, samet, samelen, diff, base = res if ok == "ok" else ([], True, True, True, [], 0)
    if "dstx" in fmts or "dst" in fmts:
        samet = True         # fewer threads fit beside longer texts; none in DST
    return dict(kind="meta", ok=ok == "ok", fmts=fmts, ext=exts(p), rext=rext, sameq=sameq, samet=samet, samelen=samelen, diff=diff, base=base,
                placed=fmts[0] not in ("csv", "json", "pes6", "gcode"),
                inp=dict(fmts=fmts, extras=repr(ext), encode=encode, error=None if ok == "ok" else res))


def check_p13(run):
    run.model("MetaMC", deeper=dict(N=4))

    def go():
        r = random.Random(run.seed * 131 + 13)
        out = []
        for f in MFMTS:
            for _ in range(run.n(70, 700)):
                out.append(meta_case(r, [f]))
        for f in OTHERS:
            for _ in range(run.n(15, 150)):
                out.append(meta_case(r, [f]))
        for _ in range(run.n(250, 2500)):
            out.append(meta_case(r, [r.choice(MFMTS) for _ in range(r.randint(2, 3))]))
        return out
    run.suite("text.metadata", "TextTrace", core.in_child(go, timeout=600))
