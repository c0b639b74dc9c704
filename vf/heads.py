"""Header and section fields of written files against the design and the bytes behind them (P10)."""
import random, re
from .cmds import *
from . import core, enc
from .writes import low_level, make_pattern, write_file, spec_q, settings_for, dress, LIMITS, HIGH_W, OVERRIDES
from .export import NAMES
from .threads import rand_thread
from .files import DATE

BIN = ["dst", "tbf", "u01", "xxx", "jef", "pec", "pes", "vp3", "pmv"]
LISTS = ["inf", "edr", "col"]

def rgbs(p):
    return [[(t.color >> 16) & 255, (t.color >> 8) & 255, t.color & 255] for t in p.threadlist]


ROW = {"gcode": re.compile(r"^\(([A-Z_ 0-9]+): (-?[0-9.]+)\)$"), "csv": re.compile(r'^">","([A-Z_ 0-9]+):?","(-?[0-9.e]+)"$')}


def rows_of(fmt, data):
    names = {"COMMAND_" + n: "COMMAND %d" % f for n, f in NAMES.items()}
    out = []
    for line in data.decode("utf8", "replace").split("\n"):
        m = ROW[fmt].match(line.rstrip("\r"))
        if m:
            try:
                v = max(-CLAMP, min(CLAMP, int(round(float(m.group(2)) * 1000))))
            except ValueError:
                continue
            out.append([names.get(m.group(1), m.group(1)), v])
    return out


def beside(p, s):
    """the file with the order of the needles written along with a TBF file"""
    write_file(p, "tbf", dict(s, ct0="a.ct0"))
    with open("a.ct0", "rb") as f:
        return f.read()


def one(r, fmt, pipe):
    from pyembroidery import EmbPattern
    side, fmt = fmt == "ct0", "tbf" if fmt == "ct0" else fmt
    s, o = settings_for(r, fmt)
    s["date"] = DATE
    nth = r.choice([0, 0, 1, 1, 2, 3, 5, 9, 22, 60]) if r.random() < .95 else r.choice([100, 120])
    if fmt in LISTS or fmt == "csv":
        pipe = False
    if pipe:
        src = enc.Gen(r, HIGH_W, maxlen=r.choice([4, 10, 18]), coord=10, grid=12).design()
        over = r.choice(OVERRIDES)
        s = dict(s, **over)
        if fmt == "gcode" or over.get("scale") == 2:
            s = {k: v for k, v in s.items() if k not in ("max_stitch", "max_jump")}
        p = enc.build(src, nth)
        q = []
        if r.random() < .5:
            for t in p.threadlist:
                t.color = r.choice([0xFF0000, 0x00FF00, 0x0000FF, 0, 0xFFFFFF, r.randrange(1 << 24)])
    else:
        pool = [0xFF0000, 0x00FF00, 0, 0x123456]
        frac = None if r.random() < .5 else (0, 0, .2, .4, .6, .8, .125, .25, .375, .625)
        n = r.choice([0, 1, 2, 5, 12, 25])
        q = low_level(r, fmt if fmt in LIMITS else "xxx", n, frac, sequins=fmt == "dst")
        if fmt in ("pec", "pes", "jef", "vp3", "pmv"):
            q = [[a, b, STITCH if c == SEQUIN_EJECT else c, d] for a, b, c, d in q]
        if r.random() < .03:
            q = []
        if r.random() < .3:  # changes in a row
            q = [y for x in q for y in ([x, list(x)] if x[2] == COLOR_CHANGE and r.random() < .5 else [x])]
        if fmt in ("pec", "pes", "jef", "vp3", "dst") and r.random() < .4:  # many blocks, few colours
            q = [y for x in q for y in ([x, [x[0], x[1], COLOR_CHANGE, None]] if x[2] == STITCH and r.random() < .3 else [x])]
            pool = r.sample([0xFF0000, 0x00FF00, 0, 0xFFFFFF], 2)
        if fmt == "tbf" and r.random() < .4:   # any needle a byte can name
            q = [x if x[2] != NEEDLE_SET and (x[2] != STITCH or r.random() < .6) else x[:2] + [NEEDLE_SET, r.choice([0, 0, 1, 17, 99, 254])] for x in q]
        # some designs lie on one side of the origin, or far from it
        if q and r.random() < .4:
            ax, ay, k = r.choice([-100, 0, 100]), r.choice([-100, 0, 100]), r.choice([1, 1, 3, 25])
            q = [[ax * i, ay * i, JUMP, None] for i in range(1, k + 1)] + [[a + ax * k, b + ay * k, c, d] for a, b, c, d in q]
        elif fmt == "jef" and r.random() < .4:  # thin ones, about as long as a hoop
            n, t = r.choice([2, 5, 6, 10, 11, 14, 15, 20, 21, 26]), r.random() < .5
            q = [[0, 100 * i, JUMP, None] if t else [100 * i, 0, JUMP, None] for i in range(n)]
            q += [[q[-1][0] + r.randint(-60, 60), q[-1][1] + r.randint(-60, 60), STITCH, None], [q[-1][0], q[-1][1], END, None]]
        p = EmbPattern()
        for x, y, f, nd in q:
            p.stitches.append([x, y, f if nd is None else pack(f, None, nd)])
            if f in (STITCH, JUMP, TRIM, STOP, COLOR_CHANGE, END) and q[0][0] % 3 == 0 and r.random() < .3:
                p.stitches[-1][2] |= pack(0, *(r.choice([None, 0, 1, 2, 9]) for _ in range(3)))
        for _ in range(nth):
            p.threadlist.append(rand_thread(r, pool))
        s["encode"] = False
        src = []
    # far away designs would need more digits or bits than these headers have
    dress(r, p)
    given = rgbs(p)
    ok, data = core.guarded(lambda: beside(p, dict(s)) if side else write_file(p, fmt, dict(s)))
    err = None if ok == "ok" else data
    data = data if ok == "ok" else b""
    text = fmt in ROW
    ver = s.get("version", "1")
    ver = str(ver) if fmt == "pes" else "1"
    return dict(fmt="ct0" if side else fmt, efmt=fmt, pipe=pipe, q=spec_q(q), src=enc.spec_src(src), nthr=nth, over=enc.spec_over(s) if pipe else {}, rgbs=given, version=ver,
                bytes=[] if text else list(data), rows=rows_of(fmt, data) if text else [], ok=ok == "ok",
                inp=dict(fmt=fmt, settings={k: repr(v) for k, v in s.items()}, design=q or [list(x) for x in src], threads=nth, extras={k: repr(v) for k, v in p.extras.items()},
                         error=err))


def big(r, fmt, n):
    """so many stitches that counts and lengths need all their bytes"""
    q, x, y = [], 0, 0
    for i in range(n):
        x, y = (x + 1, y) if (i // 300) % 2 == 0 else (x - 1, y)
        y += (i % 300 == 0)
        q.append([x, y, STITCH, None])
    q.append([x, y, END, None])
    p = make_pattern(r, q, 0)
    ok, data = core.guarded(lambda: write_file(p, fmt, dict(encode=False, version="6" if fmt == "pes" else "default", date=DATE)))
    return dict(fmt=fmt, efmt=fmt, pipe=False, q=spec_q(q), src=[], nthr=1, over={}, rgbs=rgbs(p), version="6", bytes=list(data) if ok == "ok" else [], rows=[], ok=ok == "ok",
                inp=dict(fmt=fmt, stitches=n, error=None if ok == "ok" else data))


def drive(seed, per, fmts):
    def go():
        r = random.Random(seed)
        return [one(r, fmt, r.random() < .5) for fmt in fmts for _ in range(per)]
    return core.in_child(go)


def check_p10(run):
    run.suite("headers.fields", "HeadTrace", drive(run.seed * 79 + 10, run.n(60, 900), BIN), chunk=600)
    run.suite("headers.long", "HeadTrace", core.in_child(lambda: [big(random.Random(5), f, 9000 if f == "vp3" else 33000) for f in BIN]), chunk=3)
    run.suite("headers.lists", "HeadTrace", drive(run.seed * 79 + 11, run.n(60, 500), LISTS + ["gcode", "csv"]), chunk=600)
    run.suite("headers.sidecar", "HeadTrace", drive(run.seed * 79 + 12, run.n(60, 500), ["ct0"]), chunk=600)
