"""Threads: colours, equality, palettes and the fields the formats carry (P24, P11)."""
import io, random
from .cmds import *
from . import core
from .formats import writer_for, reader_for
from .writes import write_file, read_back, Sink

FIELDS = ("description", "catalog_number", "details", "brand", "chart", "weight")
HEXD = "0123456789abcdefABCDEF"
COLORS = [0, 1, 0xFFFFFF, 0xFF0000, 0x00FF00, 0x0000FF, 0x808080, 0x7F7F7F, 0x010203, 0xFEFFFE, 0x800000, 0x0A0B0C,
          0xAABBCC, 0x112233, 0xED171F, 0x0E1F7C]


def codes(t):
    """a text as code points; the absent and the empty text are the same"""
    if t is None:
        return []
    if not isinstance(t, str):
        return [0x110000]
    return [ord(ch) for ch in t]


def rgb_of(t):
    try:
        return int(t.color) & 0xFFFFFF
    except Exception:
        return -1


def rec(t):
    if t is None:
        return [-1] + [[]] * 6
    return [rgb_of(t)] + [codes(getattr(t, f, None)) for f in FIELDS]


def color(r, pool=None):
    if pool and r.random() < .6:
        return r.choice(pool)
    return r.choice([r.choice(COLORS), r.randint(0, 0xFFFFFF), r.randint(0, 0xFFFFFF)])


# ------------------------------------------------------------------ P24
def hexform(r):
    n = r.choice([3, 4, 6, 6, 8])
    return "".join(r.choice(HEXD) for _ in range(n))


NAMES = []


def names():
    """colour names to ask for: those of the specification's table"""
    if not NAMES:
        import os, re
        for m in re.finditer(r"<< <<([\d,]+)>>, (\d+)>>", open(os.path.join(core.SPEC, "Names.tla")).read()):
            NAMES.append("".join(chr(int(c)) for c in m.group(1).split(",")))
    return NAMES


def case_of(r, t):
    return r.choice([t, t, t.upper(), t.capitalize(), "".join(r.choice([c.upper(), c]) for c in t)])


def set_cases(r, n):
    from pyembroidery import EmbThread, EmbPattern
    out = []
    todo = [("text", x) for x in names()] + [("text", case_of(r, x)) for x in names()]
    for _ in range(n):
        k = r.random()
        if k < .35:
            todo.append(("text", "#" + hexform(r)))
        elif k < .5:
            todo.append(("hex", r.choice(["#", ""]) + hexform(r)))
        elif k < .7:
            c = color(r)
            todo.append(("number", r.choice([c, c, 0xFF000000 | c, c - (1 << 24), 0x12000000 | c])))
        elif k < .95:
            todo.append(("rgb", [r.choice([0, 1, 255, 128, 254, r.randint(0, 255)]) for _ in range(3)]))
        else:
            todo.append(("text", case_of(r, r.choice(["nosuchcolor", "redd", "bluee", "xred", "", "lightgoldenrod"]))))
    for form, v in todo:
        f = dict(form=form, text=[], low=0, rgb=[0, 0, 0])
        if form in ("text", "hex"):
            f["text"] = codes(v)
        elif form == "number":
            f["low"] = v & 0xFFFFFF
        else:
            f["rgb"] = v
        texts = {}
        if form == "hex":
            how = r.choice(["set_hex_color", "dict.hex"])
        elif form == "rgb":
            how = r.choice(["set_color", "dict.list", "dict.tuple"])
        else:
            how = r.choice(["ctor", "set", "add_thread", "dict.color", "dict.rgb", "dict.color"] + (["iadd"] if form == "text" else []))
        if how.startswith("dict"):
            for key, field in (("name", 0), ("description", 0), ("desc", 0), ("id", 1), ("catalog", 1), ("details", 2),
                               ("brand", 3), ("manufacturer", 3), ("chart", 4), ("weight", 5)):
                if field not in [x[1] for x in texts.values()] and r.random() < .2:
                    texts[key] = ("%s-%d" % (key, r.randint(0, 99)), field)
        want = [[]] * 6
        for key, (val, field) in texts.items():
            want[field] = codes(val)
        d = {key: val for key, (val, field) in texts.items()}
        more = r.choice([(), (), (255,), (0,), (7,)])      # what follows the three channels

        def go():
            t = EmbThread(r.choice([0, 0x123456]))
            if how == "ctor":
                t = EmbThread(v)
            elif how == "set":
                t.set(v)
            elif how == "set_hex_color":
                t.set_hex_color(v)
            elif how == "set_color":
                t.set_color(*v)
            elif how in ("add_thread", "iadd"):
                p = EmbPattern()
                if how == "iadd":
                    p += v
                else:
                    p.add_thread(v)
                t = p.threadlist[-1]
            else:
                d[dict(hex="hex", list="color", tuple="rgb", color="color", rgb="rgb")[how[5:]]] = tuple(v) + more if how == "dict.tuple" else v + list(more) if how == "dict.list" else v
                if r.random() < .5:
                    p = EmbPattern()
                    p.add_thread(d)
                    t = p.threadlist[-1]
                else:
                    t = EmbThread(d)
            if r.random() < .3:
                t = EmbThread(t)
            o = t.get_opaque_color() & 0xFFFFFFFF
            again = eval(repr(t), {"EmbThread": EmbThread})       # the call it prints as
            return [rgb_of(t), [t.get_red(), t.get_green(), t.get_blue()], codes(t.hex_color()), rec(t)[1:], [o >> 24, o & 0xFFFFFF],
                    [rgb_of(again), rec(again)[1:]], again == t]
        ok, res = core.guarded(go)
        res = res if ok == "ok" else [0, [0, 0, 0], [], [], [0, 0], [0, []], False]
        out.append(dict(kind="set", f=f, ok=ok == "ok", color=res[0], chan=res[1], hex=res[2], texts=res[3], want=want, opaque=res[4], again=res[5], same=bool(res[6]),
                        inp=dict(form=form, value=repr(v), how=how, d=repr(d), error=None if ok == "ok" else res)))
    return out


def rand_thread(r, pool, texts=("a", "b", None, None), n=6):
    from pyembroidery import EmbThread
    t = EmbThread()
    t.color = color(r, pool)
    for f in FIELDS[:n]:
        if r.random() < .35:
            setattr(t, f, r.choice(texts))
    return t


QUOTED = ["it's", 'say "hi"', "back\\", "two\nlines", "both ' and \"", "%s {0}", "\u00fc\u4e2d"]


def reread(t):
    """the thread its printed form names"""
    from pyembroidery import EmbThread
    try:
        return rec(eval(repr(t), {"EmbThread": EmbThread}))
    except Exception:
        return []


def eq_cases(r, n):
    from pyembroidery import EmbThread
    out = []
    for _ in range(n):
        pool = [color(r) for _ in range(2)]
        ths = [rand_thread(r, pool, ("a", "b", None, None) if r.random() < .8 else QUOTED) for _ in range(3)]
        base = ths[0]
        f = r.choice(FIELDS)
        t = EmbThread(base)
        if r.random() < .6:
            setattr(t, f, r.choice(["x", None, "a"]))
        if r.random() < .3:
            t.color = t.color | 0xFF000000
        ths.append(t)
        t = EmbThread(base)
        t.color ^= r.choice([0, 1, 1 << 8, 1 << 16, 1 << 23])
        ths.append(t)
        texts = [ths[0].hex_color(), r.choice(names()), "#%06X" % (ths[1].color & 0xFFFFFF)]

        def go():
            return dict(eq=[[bool(a == b) for b in ths] for a in ths], ne=[[bool(a != b) for b in ths] for a in ths],
                        hash=[hash(a) % 1000003 for a in ths],
                        num=[[bool(a == (b.color & 0xFFFFFF)) and not (a != (b.color & 0xFFFFFF)) for b in ths] for a in ths],
                        txt=[[bool(a == x) and not (a != x) for x in texts] for a in ths],
                        rep=[reread(a) for a in ths],
                        other=[bool(a == None) or bool(a == 1.5) or bool(a == [a.color]) or not (a != None) for a in ths])
        ok, res = core.guarded(go)
        c = dict(kind="eq", ok=ok == "ok", thr=[rec(t) for t in ths], texts=[codes(x) for x in texts],
                 inp=dict(threads=[repr(t) for t in ths], texts=texts, error=None if ok == "ok" else res))
        c.update(res if ok == "ok" else dict(eq=[], ne=[], hash=[], num=[], txt=[], rep=[], other=[]))
        out.append(c)
    return out


def near_cases(r, n):
    from pyembroidery import EmbThread
    from pyembroidery.EmbThread import find_nearest_color_index
    out = []
    for _ in range(n):
        m = r.choice([0, 1, 2, 3, 5, 9, 20])
        c = color(r)
        pal = []
        for _k in range(m):
            k = r.random()
            pal.append(None if k < .15 else color(r) if k < .6 else
                       sum(max(0, min(255, ((c >> s) & 255) + r.randint(-40, 40))) << s for s in (0, 8, 16)))
        ent = [None if x is None else EmbThread(x) for x in pal]

        def go():
            t = EmbThread(c)
            i = r.choice([lambda: t.find_nearest_color_index(ent), lambda: find_nearest_color_index(t, ent),
                          lambda: find_nearest_color_index(c, ent)])()
            return 0 if i is None else int(i) + 1
        ok, res = core.guarded(go)
        out.append(dict(kind="near", ok=ok == "ok", pal=[-1 if x is None else x for x in pal], color=c,
                        idx=max(-1, min(res, 10 ** 6)) if ok == "ok" else 0, inp=dict(color=c, palette=pal, error=None if ok == "ok" else res)))
    return out


def drive24(seed, n):
    def go():
        r = random.Random(seed)
        return set_cases(r, n) + eq_cases(r, n) + near_cases(r, n)
    return core.in_child(go, timeout=600)


def check_p24(run):
    run.model("ThreadMC", deeper=dict(N=3))
    run.suite("thread.colour", "ThreadTrace", drive24(run.seed * 31 + 24, run.n(1000, 12000)))


# ------------------------------------------------------------------ P11
TEXTS = ["Red", "Poppy Red", "x", "Ä rot", "зелёный", "金色", "a" * 40, "1000", "A-12", "\U0001f600 smile", "semi;colon", "tab\tbed"]
CSVTEXTS = TEXTS + ['quo"te', "com,ma", "#hash", "line\nbreak", "*", "$", '""', "'", "a\\b"]


def design(r, ths, change=None):
    """each thread sews its own block"""
    from pyembroidery import EmbPattern
    p = EmbPattern()
    for k, t in enumerate(ths):
        p.add_thread(t)
        if k:
            p.stitches.append([k * 3, 0, COLOR_CHANGE if change is None else r.choice([COLOR_CHANGE, COLOR_BREAK])])
        for j in range(r.randint(1, 3)):
            p.stitches.append([k * 3 + j, j * 2, STITCH])
    if r.random() < .8:
        p.stitches.append([0, 0, END])
    return p


def thread_list(r, fmt, n, textpool):
    pool = [color(r) for _ in range(r.choice([1, 2, 4, 30]))]
    if fmt == "pal" and r.random() < .4:      # a few colours and their neighbours, again and again
        pool = [sum(max(0, min(255, ((c >> s) & 255) + r.choice([0, 0, 1, -1, 2]))) << s for s in (0, 8, 16)) for c in pool[:4] for _ in range(3)]
    out = []
    for k in range(n):
        t = rand_thread(r, pool, textpool)
        if fmt == "pes6" and r.random() < .1:
            t.description = r.choice(["w" * 300, "é" * 200, "x" * 255, "y" * 256, "金" * 90, "a" + "é" * 127])
        if fmt == "dstx":
            t.catalog_number = None if r.random() < .5 else str(r.randint(1, 9999))
            if t.description and r.random() < .2:
                t.description += ", dark"
            if t.description == "tab\tbed":
                t.description = None
        if fmt == "inf" and t.chart and "\0" in t.chart:
            t.chart = None
        if out and r.random() < .25:
            t = out[-1] if r.random() < .5 else r.choice(out)
        out.append(t)
    return out


CARRY = ["csv", "json", "pes6", "vp3", "xxx", "tbf", "edr", "col", "inf", "dstx"]


def carry_case(r, fmt, n):
    from pyembroidery import EmbPattern, EmbThread
    real = dict(pes6="pes", dstx="dst").get(fmt, fmt)
    ths = thread_list(r, fmt, n, CSVTEXTS if fmt in ("csv", "json") else TEXTS)
    if fmt not in ("csv", "json", "edr", "col", "inf", "dstx", "tbf"):
        # a change between two equal threads is a stop in these formats or may be taken for one
        def held(t):           # as the file holds it
            return [rgb_of(t)] + [(v or "").encode("utf8")[:253] for v in (t.description, t.catalog_number, t.brand, t.chart)]
        if fmt == "pes6":
            kept = []
            for t in ths:
                if not kept or held(kept[-1]) != held(t):
                    kept.append(t)
            ths = kept
    s = dict(pes=dict(version=r.choice(["6", 6, "6t"])), dst=dict(version="extended"), csv=dict(version=r.choice(["default", "delta", "full"]))).get(real, {})

    def go():
        p = design(r, ths)
        if fmt in ("csv", "json", "edr", "col", "inf"):
            data = write_text(p, real, s)
        else:
            data = write_file(p, real, dict(s))
        if fmt == "col":
            b = EmbPattern()
            reader_for(fmt).read(io.TextIOWrapper(io.BytesIO(data), encoding="utf8", newline=""), b)
        else:
            b = read_any(real, data)
        return [rec(t) for t in b.threadlist]
    ok, res = core.guarded(go)
    return dict(kind="carry", fmt=fmt, ok=ok == "ok", thr=[rec(t) for t in ths], res=res if ok == "ok" else [], base=124,
                inp=dict(fmt=fmt, settings=repr(s), threads=[repr(t) for t in ths], error=None if ok == "ok" else res))


def write_text(p, fmt, settings):
    """through a stream opened the way the library opens files of this format"""
    from pyembroidery import EmbPattern
    w = writer_for(fmt)
    raw = Sink()
    f = io.TextIOWrapper(raw, encoding="utf8", newline="") if getattr(w, "WRITE_FILE_IN_TEXT_MODE", False) else raw
    EmbPattern.write_embroidery(w, p, f, settings)
    f.flush()
    return raw.getvalue()


def read_any(fmt, data):
    from pyembroidery import EmbPattern
    rd = reader_for(fmt)
    f = io.BytesIO(data)
    if getattr(rd, "READ_FILE_IN_TEXT_MODE", False):
        f = io.TextIOWrapper(f, encoding="utf8", newline="")
    p = EmbPattern()
    EmbPattern.read_embroidery(rd, f, None, p)
    return p


def pal_cases(r, n):
    """the palette functions themselves on small palettes"""
    from pyembroidery import EmbThread
    import importlib
    ET = importlib.import_module("pyembroidery.EmbThread")
    out = []
    for _ in range(n):
        m = r.randint(1, 8)
        pal = [None if r.random() < .15 else color(r) for _k in range(m)]
        rule = r.choice(["unique", "nonrepeat", "any"])
        if rule == "nonrepeat" and sum(x is not None for x in pal) < 2:
            pal += [1, 0xFF00FF]
        if all(x is None for x in pal):
            pal.append(0x00FF00)
        pool = [x for x in pal if x is not None] + [color(r)]
        ths = thread_list(r, "any", r.randint(0, 9), ("a", None, None))
        for t in ths:
            if r.random() < .4:
                t.color = r.choice(pool)
        fn = dict(unique=ET.build_unique_palette, nonrepeat=ET.build_nonrepeat_palette, any=ET.build_palette)[rule]
        ok, res = core.guarded(lambda: [int(i) + 1 for i in fn([None if x is None else EmbThread(x) for x in pal], ths)])
        out.append(dict(kind="pal", pal="given", entries=[-1 if x is None else x for x in pal], rule=rule, ok=ok == "ok",
                        thr=[rec(t) for t in ths], idx=res if ok == "ok" else [],
                        inp=dict(rule=rule, palette=pal, threads=[repr(t) for t in ths], error=None if ok == "ok" else res)))
    return out


def file_pal_case(r, fmt, n):
    """the palette section of a written PEC, PES or JEF file"""
    ths = thread_list(r, "pal", n, ("a", "b", None, None, None))

    def go():
        p = design(r, ths)
        s = dict(version=r.choice(["1", "6", "1t", "6t"])) if fmt == "pes" else {}
        data = write_file(p, fmt, s)
        if fmt == "jef":
            k = int.from_bytes(data[24:28], "little")
            return [int.from_bytes(data[0x74 + 4 * i:0x78 + 4 * i], "little") + 1 for i in range(min(k, 1000))]
        at = 8 if fmt == "pec" else int.from_bytes(data[8:12], "little")
        k = data[at + 48] + 1
        return [b + 1 for b in data[at + 49:at + 49 + k]]
    ok, res = core.guarded(go)
    return dict(kind="pal", pal="jef" if fmt == "jef" else "pec", rule="nonrepeat" if fmt == "jef" else "unique", entries=[],
                ok=ok == "ok", thr=[rec(t) for t in ths], idx=[min(i, 10 ** 6) for i in res] if ok == "ok" else [],
                inp=dict(fmt=fmt, threads=[repr(t) for t in ths], error=None if ok == "ok" else res))


def drive11(seed, n):
    def go():
        r = random.Random(seed)
        out = []
        for fmt in CARRY:
            for _ in range(n):
                k = r.choice([1, 1, 2, 3, 5, 8, 20])
                out.append(carry_case(r, fmt, min(k, 21) if fmt == "xxx" else k))
        out += pal_cases(r, 6 * n)
        for fmt in ("pec", "pes", "jef"):
            for _ in range(n):
                out.append(file_pal_case(r, fmt, r.choice([1, 2, 3, 6, 12, 30])))
            for k in (63, 64, 65, 66, 80, 130):
                out.append(file_pal_case(r, fmt, k))
        return out
    return core.in_child(go, timeout=600)


def check_p11(run):
    run.model("ThreadMC", deeper=dict(N=3))
    run.suite("thread.carry", "ThreadTrace", drive11(run.seed * 31 + 11, run.n(40, 500)))
