"""Files by name, handlers and settings (P21)."""
import importlib, io, os, random, types
from .cmds import *
from . import core, enc, formats
from .pattern import body_of

RW = "pec pes exp dst jef vp3 csv xxx u01 tbf pmv gcode edr col inf json".split()
W = "svg png txt".split()
ODD = {"10o": "A10oReader", "100": "A100Reader"}
TEXT_READ = {"csv", "col"}
TEXT_WRITE = {"json"}
DATE = "20200102030405"


def module(fmt, kind):
    return importlib.import_module("pyembroidery." + ODD.get(fmt, fmt.capitalize() + kind))


class Keep(io.BytesIO):
    def close(self):
        pass


class KeepText(io.StringIO):
    def close(self):
        pass


class Ids:
    """things -> small numbers"""
    def __init__(self):
        self.d = {}

    def __call__(self, v):
        return self.d.setdefault(v, len(self.d) + 1)


def state(p):
    if p is None:
        return ("none",)
    return (tuple((milli(s[0]), milli(s[1]), int(s[2])) for s in p.stitches),
            tuple((t.color, t.description, t.catalog_number, t.brand, t.chart) for t in p.threadlist), tuple(sorted((str(k), str(v)) for k, v in p.extras.items())))


def via_write(fmt, p, st):
    """what the format's writer makes of p through a stream"""
    from pyembroidery import EmbPattern
    if fmt in TEXT_WRITE:
        s = KeepText()
        EmbPattern.write_embroidery(module(fmt, "Writer"), p, s, dict(st))
        return s.getvalue().encode("utf8")
    s = Keep()
    EmbPattern.write_embroidery(module(fmt, "Writer"), p, s, dict(st))
    return s.getvalue()


def via_read(fmt, data, st):
    from pyembroidery import EmbPattern
    s = io.TextIOWrapper(io.BytesIO(data), encoding="utf8", newline="") if fmt in TEXT_READ else io.BytesIO(data)
    return EmbPattern.read_embroidery(module(fmt, "Reader"), s, dict(st))


def ordinary(r, n):
    """a design every format can hold"""
    out, x, y = [], 0, 0
    for _ in range(n):
        x += r.randint(-90, 90)
        y += r.randint(-90, 90)
        f = r.choice([STITCH] * 6 + [JUMP, TRIM, COLOR_CHANGE, STOP])
        out.append((x, y, f, None, None, None))
    out.append((x, y, END, None, None, None))
    return out


WORDS = ["a", "x\ry", "a\r\nb", "l\nm", "\u00fc\u4e2d", 'q"q', "a,b", "\r", "x\r"]


def dress(r):
    """texts for the designs of a history"""
    if r.random() < .5:
        return {}, []
    return {k: r.choice(WORDS) for k in ("name", "author", "comments", "other") if r.random() < .5}, [r.choice([None] + WORDS) for _ in range(3)]


def built(src, nth, texts):
    p = enc.build(src, nth)
    p.extras.update(texts[0])
    for t, v in zip(p.threadlist, texts[1]):
        if v is not None:
            t.description = v
    return p


def cased(r, ext):
    k = r.random()
    return ext if k < .3 else ext.upper() if k < .6 else "".join(r.choice([ch, ch.upper()]) for ch in ext)


STEMS = ["a", "b.dst", "x.y.z", "n a", "A", "d.pes/c", "d.pes/e.f", "caf\u00e9", "dst", ".h.k"]
PLAIN = ["noext", "d.pes/noext", ".dst", "d.pes/.pes", "..jef", "a.", "b.exp.", "c.zip", "d.dst2", "e.ds", "f. dst", "g.art", "h.bmp", "i.pesx", "j.d st"]


def pick_name(r, exts):
    if r.random() < .12:
        return r.choice(PLAIN)
    return r.choice(STEMS) + "." + cased(r, r.choice(exts))


def read_into(path, st):
    from pyembroidery import EmbPattern
    p = EmbPattern()
    p.read(path, **st)
    return p


def history(r, n):
    from pyembroidery import EmbPattern
    import pyembroidery
    ids = Ids()
    root = os.path.join(os.getcwd(), "h%d" % r.randint(0, 1 << 40))
    os.makedirs(os.path.join(root, "d.pes"))
    ron = [b for b in formats.BUILDERS]
    st = dict(date=DATE)
    if r.random() < .4:
        st["max_stitch"] = r.choice([40, 70, 121])
    if r.random() < .2:
        st["full_jump"] = True
    if r.random() < .2:
        st["scale"] = r.choice([2, (1, -1)])
    if r.random() < .3:                 # of reading
        st.update(r.choice([dict(trim_at=r.choice([1, 2, 5])), dict(trims=False), dict(trims=True), dict(trim_distance=r.choice([.5, 2.0, 20.0]), trims=True), dict(clipping=False)]))
    designs = [(ordinary(r, r.randint(1, 12)), r.choice([0, 3, 13, 13])) for _ in range(2)]
    texts = dress(r)
    ready = set()
    # files of types that are only read
    for _ in range(r.randint(0, 2)):
        f = r.choice(ron)(r, r.randint(1, 5))
        name = r.choice(STEMS) + "." + cased(r, f["ext"])
        with open(os.path.join(root, name), "wb") as fh:
            fh.write(bytes(f["head"]) + bytes(b for q in f["recs"] for b in q) + bytes(f["tail"]))
        ready.add(name)

    def listing():
        out = []
        for base, _, names in os.walk(root):
            for nm in names:
                path = os.path.join(base, nm)
                with open(path, "rb") as fh:
                    out.append([[ord(ch) for ch in os.path.relpath(path, root)], ids(fh.read())])
        return sorted(out)

    def content(name):
        path = os.path.join(root, name)
        if os.path.isfile(path):
            with open(path, "rb") as fh:
                return fh.read()

    def ref(fn):
        random.seed(5)              # threads that are missing are given random colours
        ok, v = core.guarded(fn)
        return v if ok == "ok" else None

    def fmt_of(name):
        e = os.path.splitext(name)[1][1:].lower()
        return e

    def outcome(fn):
        random.seed(5)
        ok, v = core.guarded(fn)
        if ok == "ok":
            return "ok", v
        return ("refused" if v.split(":")[0] in ("OSError", "IOError", "FileNotFoundError") else "raised"), v

    codes = lambda nm: [ord(ch) for ch in nm]
    first = listing()
    ops, log = [], []
    for _ in range(n):
        k = r.random()
        have = [os.path.relpath(os.path.join(b, nm), root) for b, _, ns in os.walk(root) for nm in ns]
        src, nth = r.choice(designs)
        rec = dict(op="", name=[], to=[], refs=[], res=0, **{"as": ""})
        if k < .3:
            name = pick_name(r, RW + W + ["hus", "10o", "dat"])
            e = fmt_of(name)
            p = built(src, nth, texts)
            if e in RW + W:
                v = ref(lambda: via_write(e, built(src, nth, texts), st))
                if v is None:
                    continue
                rec["refs"] = [[e, ids(v)]]
            how = r.choice(["static", "method", "module"])
            path = os.path.join(root, name)
            fn = {"static": lambda: EmbPattern.static_write(p, path, dict(st)), "method": lambda: p.write(path, **st),
                  "module": lambda: pyembroidery.write(p, path, dict(st))}[how]
            rec.update(op="write", name=codes(name))
            o, v = outcome(fn)
        elif k < .6:
            name = r.choice(have) if have and r.random() < .8 else pick_name(r, RW + W + ["hus", "sew"])
            e = fmt_of(name)
            data = content(name)
            has = e in RW or any(e == f for f in READ_ONLY)
            if data is not None and has:
                v = ref(lambda: state(via_read(e, data, st)))
                if v is None:
                    continue
                rec["refs"] = [[e, ids(v)]]
            path = os.path.join(root, name)
            how = r.choice(["static", "module", "new", "named", "spread", "method"]) if has and data is not None else r.choice(["static", "module"])
            fn = {"static": lambda: EmbPattern.static_read(path, dict(st)), "module": lambda: pyembroidery.read(path, dict(st)),
                  "new": lambda: EmbPattern(path, dict(st)), "named": lambda: EmbPattern(path, settings=dict(st)), "spread": lambda: EmbPattern(path, **st),
                  "method": lambda: read_into(path, st)}[how]
            rec.update(op="read", name=codes(name))
            o, v = outcome(fn)
            if o == "ok":
                if v is None:
                    o = "nothing"
                else:
                    rec["res"] = ids(state(v))
        elif k < .8:
            name = r.choice(have) if have and r.random() < .85 else pick_name(r, RW + ["hus"])
            to = pick_name(r, RW + W + ["sew"])
            e, e2 = fmt_of(name), fmt_of(to)
            data = content(name)
            if data is not None and (e in RW or e in READ_ONLY) and e2 in RW + W:
                v = ref(lambda: via_write(e2, via_read(e, data, st), st))
                if v is None:
                    continue            # such a design cannot be written in that format
                rec["refs"] = [[e2, ids(v)]]
            elif data is not None and (e in RW or e in READ_ONLY):
                if ref(lambda: via_read(e, data, st)) is None:
                    continue
            how = r.choice([EmbPattern.convert, pyembroidery.convert])
            rec.update(op="convert", name=codes(name), to=codes(to))
            o, v = outcome(lambda: how(os.path.join(root, name), os.path.join(root, to), dict(st)))
            if o == "ok" and not (data is not None and (e in RW or e in READ_ONLY)):
                o = "nothing"           # convert has no result of its own to tell
        elif k < .9:
            e = r.choice("pec pes exp dst jef vp3 csv json txt gcode xxx tbf u01 svg png".split())
            name = pick_name(r, [e, e, "zzz", "svg", "png", "txt"])
            p = built(src, nth, texts)
            v = ref(lambda: via_write(e, built(src, nth, texts), st))
            if v is None:
                continue
            rec["refs"] = [[e, ids(v)]]
            rec.update(op="writeas", name=codes(name))
            rec["as"] = e
            o, v = outcome(lambda: getattr(pyembroidery, "write_" + e)(p, os.path.join(root, name), dict(st)))
        else:
            e = r.choice("pec pes exp dst jef vp3 csv json gcode xxx tbf u01".split())
            c = [nm for nm in have if fmt_of(nm) == e]
            if not c:
                continue
            name = r.choice(c)
            data = content(name)
            v = ref(lambda: state(via_read(e, data, st)))
            if v is None:
                continue
            rec["refs"] = [[e, ids(v)]]
            rec.update(op="readas", name=codes(name))
            rec["as"] = e
            o, v = outcome(lambda: getattr(pyembroidery, "read_" + e)(os.path.join(root, name), dict(st)))
            if o == "ok":
                rec["res"] = ids(state(v)) if v is not None else 0
        rec["outcome"] = o
        rec["after"] = listing()
        ops.append(rec)
        log.append([rec["op"], "".join(map(chr, rec["name"])), "".join(map(chr, rec["to"])), rec["as"], o, str(v)[:120] if o in ("refused", "raised") else ""])
    return dict(dir=first, ops=ops, inp=dict(history=log, designs=[[list(s) for s in d[0]] for d in designs], settings={k: repr(v) for k, v in st.items()}, texts=texts))


READ_ONLY = "sew shv 10o 100 bro dat dsb dsz emd exy fxy gt inb ksm tap spx stx phb phc new max mit pcd pcq pcm pcs jpx stc zhs zxy hus".split()


# ------------------------------------------------------------------ settings
GIVEN = dict(max_jump=[40.3, 127.7, 300.1], max_stitch=[31.3, 70.3, 200.7], full_jump=[True, False], round=[True, False], writes_speeds=[True, False],
             sequin_contingency=[SEQ_UTIL, SEQ_JUMP, SEQ_STITCH, SEQ_REMOVE], thread_change_command=[COLOR_CHANGE, NEEDLE_SET, STOP],
             explicit_trim=[True, False], translate=[(10, -20), (0, 0)], scale=[2, (1, -1), (1, 1), .5], rotate=[90, 180, 0])
SRC_W = {STITCH: 10, JUMP: 3, TRIM: 2, COLOR_BREAK: 1.5, SLOW: 1, FAST: 1, SEQUIN_EJECT: 2, STITCH_BREAK: 1, COLOR_CHANGE: 1, STOP: .6, NEEDLE_SET: .4, END: .4}


def divides(src, s):
    f = {2: 2, .5: .5}.get(s.get("scale"), 1) if not isinstance(s.get("scale"), tuple) else 1
    t = s.get("translate", (0, 0))
    pts = [(0, 0), (-t[0], -t[1])] + [(c[0] * f, c[1] * f) for c in src]
    gaps = {abs(a[k] - b[k]) for a in pts for b in pts for k in (0, 1)}
    return any(g and g % m == 0 for g in gaps for m in (70, 121, 124, 127, 255, 2047, 3200))


def settings_case(r, fmt, given, encode):
    from pyembroidery import EmbPattern
    writer = module(fmt, "Writer")
    src = enc.Gen(r, SRC_W, maxlen=12, coord=60, grid=r.choice([2, 2, 8])).design()
    nth = r.choice([0, 2, 3, 5])
    s = {k: r.choice(GIVEN[k]) for k in given}
    while s.get("rotate") and divides(src, s):      # a turned gap which is a whole number of limits may come out as either
        src = enc.Gen(r, SRC_W, maxlen=8, coord=60, grid=2).design()
    other = {"version": "x", "my own": [1]} if r.random() < .3 else {}
    st = dict(s, **other)
    if encode != "default":
        st["encode"] = encode == "on"
    seen = []

    def write(pattern, stream, settings=None):
        seen.append((pattern, dict(settings or {})))
    spy = types.SimpleNamespace(**{k: getattr(writer, k) for k in dir(writer) if not k.startswith("__")})
    spy.write = write
    p = enc.build(src, nth)
    ths = {t.color: i + 1 for i, t in enumerate(p.threadlist)}
    ok, err = core.guarded(lambda: EmbPattern.write_embroidery(spy, p, io.BytesIO(), st if st or r.random() < .5 else None))
    good = ok == "ok" and len(seen) > 0
    out = [spec_stitch(x) for x in seen[0][0].stitches] if good else []
    thr = [ths.get(t.color, 0) for t in seen[0][0].threadlist] if good else []
    kept = all(k in seen[0][1] and seen[0][1][k] == v for k, v in st.items()) if good else True
    raw = [spec_stitch(x) for x in enc.build(src, nth).stitches]
    enced = encode == "on" or encode == "default" and fmt not in ("csv", "json", "col", "edr", "inf")
    return dict(ok=good, fmt=fmt, encode=encode, over=enc.spec_over(s), src=enc.spec_src(src) if enced else raw, nthr=nth, out=out, thr=thr,
                kept=kept, calls=len(seen),
                inp=dict(fmt=fmt, settings={k: repr(v) for k, v in st.items()}, design=[list(x) for x in src], threads=nth, error=None if good else str(err)[:300]))


def check_p21(run):
    run.model("FilesMC", deeper=dict(N=6))
    run.model("DefaultsMC")

    def go():
        r = random.Random(run.seed * 61 + 21)
        return [history(r, r.randint(3, 9)) for _ in range(run.n(250, 2500))]
    run.suite("files.histories", "FilesTrace", core.in_child(go))

    def spied():
        r = random.Random(run.seed * 61 + 22)
        out = []
        for fmt in RW + W + ["generic"]:
            for k in GIVEN:
                for enc_ in ("default", "on"):
                    out.append(settings_case(r, fmt, [k], enc_))
                    out.append(settings_case(r, fmt, [x for x in GIVEN if x != k], enc_))
            for _ in range(run.n(30, 400)):
                out.append(settings_case(r, fmt, [x for x in GIVEN if r.random() < r.choice([0, .2, .5])], r.choice(["default", "default", "on", "off"])))
        return out
    run.suite("settings.defaults", "SettingsTrace", core.in_child(spied))
