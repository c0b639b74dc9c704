"""Conversions from file to file, chained (P26)."""
import os, random, shutil, tempfile
from .cmds import *
from . import core, enc, formats
from .writes import FMTS, HIGH_W
from .threads import rgb_of

TARGETS = FMTS + ["csv", "json"]
WEIGHTS = [3 if f in ("pes", "dst", "exp", "jef", "vp3") else 2 for f in TARGETS]


def colors(r, n):
    out = []
    while len(out) < n:
        c = r.choice([r.randint(0, 0xFFFFFF), r.choice([0xFF0000, 0x00FF00, 0x0000FF, 0xFFFF00, 0x101010])])
        if not out or c != out[-1]:
            out.append(c)
    return out


def start(r, root, long):
    """a first file: its name, and whether its design is already a machine's"""
    from pyembroidery import EmbPattern, EmbThread, write
    if r.random() < .45:
        for _ in range(20):
            f = r.choice(formats.BUILDERS)(r, r.randint(300, 900) if long else r.randint(1, 16))
            name = os.path.join(root, "first." + f["ext"])
            with open(name, "wb") as o:
                o.write(bytes(f["head"]) + bytes(b for q in f["recs"] for b in q) + bytes(f["tail"]))
            return name, True
    p = EmbPattern()
    src = enc.Gen(r, HIGH_W, maxlen=900 if long else r.choice([4, 10, 18, 40]), coord=10, grid=12).design()
    for x, y, f, t, n, o in src:
        p.stitches.append([x, y, pack(f, t, n, o)])
    for c in colors(r, r.choice([0, 1, 2, 3, 5, 8])):
        t = EmbThread()
        t.color = c
        p.add_thread(t)
    name = os.path.join(root, "first." + r.choice(["csv", "json"]))
    write(p, name, dict(encode=False))
    return name, False


def seen(name):
    import pyembroidery
    p = pyembroidery.read(name)
    return [spec_stitch(s) for s in p.stitches], [rgb_of(t) for t in p.threadlist]


def simple(q, thr, most=150):
    """what the specification decides exactly: whole or half units in range, neighbouring threads that differ"""
    return (len(q) <= most and all(v % 500 == 0 and abs(v) < 9000000 for s in q for v in s[:2]) and all(a != b for a, b in zip(thr, thr[1:]))
            and all(-1 < s[2] < 256 and (s[2] != 9 or s[4] != 1) for s in q))      # needle 0 is none: U01 has no change to it


def chain_case(r, root, k, long=False):
    import pyembroidery
    box = {}
    most = 3000 if long else 150
    name, low = start(r, root, long)
    ok, res = core.guarded(lambda: seen(name))
    if ok != "ok" or not simple(*res, most):
        return None
    src, thr = res
    if name.endswith(".jpx"):
        thr = [-1] * len(thr)          # knows how many threads, not which: the reader invents them
    steps, route = [], [os.path.basename(name)]
    tol = 1000
    for i in range(k):
        fmt = r.choices(TARGETS, WEIGHTS)[0]
        if fmt == "vp3" and any(abs(v) > 1500000 for s in src for v in s[:2]):
            fmt = "csv"
        dst = os.path.join(root, "f%d.%s" % (i, fmt))
        before = open(name, "rb").read()

        def go():
            pyembroidery.convert(name, dst)
            return seen(dst) + (open(name, "rb").read() == before,)
        ok, res = core.guarded(go)
        route.append(fmt)
        if ok != "ok":
            steps.append(dict(fmt=fmt, ok=False, q=[], thr=[], kept=True))
            box["error"] = res
            break
        q, t, kept = res
        steps.append(dict(fmt=fmt, ok=True, q=q, thr=t, kept=kept))
        tol += {"gcode": 60, "vp3": 510}.get(fmt, 500)
        name = dst
        if not simple(q, t, most):
            break
    plain = src if low else next((s["q"] for s in steps if s["ok"] and s["fmt"] not in ("csv", "json")), [])
    return dict(src=src, thr=thr, steps=steps, plain=[[s[0], s[1], s[2], s[4]] for s in plain], tol=tol,
                inp=dict(route=route, first=src, threads=thr, error=box.get("error")))


def drive(seed, n, k, long=False):
    def go():
        r = random.Random(seed)
        out = []
        while len(out) < n:
            root = tempfile.mkdtemp(prefix="conv_")
            try:
                c = chain_case(r, root, r.randint(1, k), long)
                if c:
                    out.append(c)
            finally:
                shutil.rmtree(root, ignore_errors=True)
        return out
    return core.in_child(go)


def check_p26(run):
    run.model("ConvertMC", deeper=dict(N=3))
    run.suite("convert.chains", "ConvTrace", drive(run.seed * 131 + 26, run.n(600, 6000), 4), chunk=1500)
    run.suite("convert.long", "ConvTrace", drive(run.seed * 131 + 261, run.n(8, 60), 3, True), chunk=3)
