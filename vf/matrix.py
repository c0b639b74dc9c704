"""Transforms built step by step, and designs moved as a whole (P07)."""
import math, random, re
from fractions import Fraction as F
from .cmds import *
from . import core, enc

ELEMS = [("translate", None), ("scale", (2, 2)), ("scale", (.5, .5)), ("scale", (-1, 1)), ("scale", (1, -1)), ("scale", (2, .5)), ("scale", (-2, -2)), ("scale", (1, 1)),
         ("rotate", 90), ("rotate", 180), ("rotate", -90), ("rotate", 270), ("rotate", 360), ("rotate", 45 * 2), ("rotate", "345")]
DEG = math.degrees(math.atan2(4, 3))
I = (F(1), F(0), F(0), F(1), F(0), F(0))


def mul(m, n):
    """n acts first"""
    a, b, c, d, e, f = m
    A, B, C, D, E, G = n
    return (A * a + B * c, A * b + B * d, C * a + D * c, C * b + D * d, E * a + G * c + e, E * b + G * d + f)


def inv(m):
    a, b, c, d, e, f = m
    det = a * d - b * c
    a2, b2, c2, d2 = d / det, -b / det, -c / det, a / det
    return (a2, b2, c2, d2, -(e * a2 + f * c2), -(e * b2 + f * d2))


def tame(m):
    """within what the specification's decimals hold exactly"""
    for n in (m, inv(m)):
        for v in n[:4]:
            if abs(v) > 4 or (v * 100).denominator != 1:
                return False
        for v in n[4:]:
            if abs(v) > 3000 or (v * 1000).denominator != 1:
                return False
    return True


def elem(r):
    k, a = r.choice(ELEMS)
    if k == "translate":
        a = (r.randint(-40, 40), r.randint(-40, 40)) if r.random() < .7 else (r.randint(-80, 80) / 2, r.choice([0, .25, -7.5]))
        return k, a, (F(1), F(0), F(0), F(1), F(a[0]), F(a[1]))
    if k == "scale":
        return k, a, (F(a[0]), F(0), F(0), F(a[1]), F(0), F(0))
    co, si = ((F(3, 5), F(4, 5)) if a == "345" else (F(round(math.cos(math.radians(a)))), F(round(math.sin(math.radians(a))))))
    return k, (DEG if a == "345" else a), (co, si, -si, co, F(0), F(0))


def spec_m(m):
    return [int(v * 10000) for v in m[:4]] + [int(v * 1000) for v in m[4:]]


def spec_a(k, a, m):
    if k == "translate":
        return [milli(a[0]), milli(a[1])]
    return [int(m[0] * 10000), int((m[3] if k == "scale" else m[1]) * 10000)]


def nine(m):
    a, b, c, d, e, f = [float(v) for v in m]
    return [a, b, 0, c, d, 0, e, f, 1]


POINTS = [(0, 0), (1, 0), (0, 1), (-30, 70)]


def cl(v):
    try:
        return max(-10 ** 9, min(10 ** 9, int(round(v * 1000))))
    except Exception:
        return 10 ** 9


def probe(m):
    """every way of asking what a transform does to a point"""
    ways = [[], [], [], []]
    third = True
    for x, y in POINTS:
        ways[0].append(m.point_in_matrix_space(x, y))
        ways[1].append(m.point_in_matrix_space((x, y)))
        p = m.point_in_matrix_space([x, y, 77])
        third = third and len(p) == 3 and p[2] == 77 and len(ways[0][-1]) == 2 and len(ways[1][-1]) == 2
        ways[2].append(p)
        v = [x, y, 88]
        m.apply(v)
        third = third and v[2:] == [88]
        ways[3].append(v)
    # and what it prints and hands out: nine numbers that are this transform
    for nine in ([float(v) for v in re.findall(r"[-+]?[0-9.]+(?:[eE][-+]?[0-9]+)?", str(m))], list(m.get_matrix())):
        third = third and len(nine) == 9
        ways.append([[x * nine[0] + y * nine[3] + nine[6], x * nine[1] + y * nine[4] + nine[7]] for x, y in POINTS] if len(nine) == 9 else ways[0])
    return [[[cl(p[0]), cl(p[1])] for p in w] for w in ways], third


def compile_case(r, n):
    from pyembroidery import EmbMatrix
    reg = [EmbMatrix(), EmbMatrix() if r.random() < .7 else EmbMatrix(list(EmbMatrix.get_identity()))]
    sh = [I, I]
    ops, log = [], []
    tries = 0
    while len(ops) < n and tries < 200:
        tries += 1
        op = r.choice(["post"] * 6 + ["pre"] * 4 + ["postcat", "precat", "inverse", "inverse", "reset", "times", "timesinto", "copy", "rebuild"])
        k = r.randint(0, 1)
        rec = dict(op=op, r=k + 1, kind="none", a=[0, 0], q=[0, 0], cat=[], ok=True, args=True)
        args_ok = [True]
        note = [op, k]
        if op in ("post", "pre"):
            kind, a, em = elem(r)
            q = (0, 0)
            if op == "post" and kind != "translate" and r.random() < .5:
                q = r.choice([(10, 20), (-7, 0), (0, 5), (100, -100)])
            T = lambda s: (F(1), F(0), F(0), F(1), F(s * q[0]), F(s * q[1]))
            new = mul(mul(mul(sh[k], T(1)), em), T(-1)) if op == "post" else mul(em, sh[k])
            rec.update(kind=kind, a=spec_a(kind, a, em), q=[q[0] * 1000, q[1] * 1000])
            short = r.random()
            def call(m, kind=kind, a=a, q=q, op=op, short=short):
                f = getattr(m, op + "_" + kind)
                if kind == "translate":
                    return f(a[0], a[1])
                xs = (a,) if kind == "rotate" else (a[0],) if a[0] == a[1] and short < .5 else tuple(a)
                if q == (0, 0):
                    return f(*xs) if op == "pre" or short < .8 or len(xs) == 1 and kind == "scale" else f(*xs, x=None, y=None)
                return f(*xs, x=q[0], y=q[1]) if short < .5 or len(xs) == 1 and kind == "scale" else f(*(xs + q))
            go = lambda: call(reg[k])
            note += [kind, str(a), q]
        elif op in ("postcat", "precat"):
            es = [elem(r) for _ in range(r.randint(0, 3))]
            new = sh[k]
            good = True
            for _, _, em in es:
                new = mul(new, em) if op == "postcat" else mul(em, new)
                good = good and tame(new)
            if not good:
                continue
            rec["cat"] = [spec_m(em) for _, _, em in es]
            given = [nine(em) for _, _, em in es]
            if r.random() < .3:
                given = [tuple(g) for g in given]
            keep = [list(g) for g in given]
            def go(given=given, keep=keep, op=op, args_ok=args_ok):
                getattr(reg[k], "post_cat" if op == "postcat" else "pre_cat")(given)
                args_ok[0] = [list(g) for g in given] == keep
            note += [[spec_m(em) for _, _, em in es]]
        elif op == "inverse":
            new = inv(sh[k])
            go = lambda: reg[k].inverse()
        elif op == "reset":
            new = I
            go = lambda: reg[k].reset()
        elif op == "times":
            new = mul(sh[0], sh[1])
            def go():
                reg[k] = reg[0] @ reg[1]
        elif op == "timesinto":
            new = mul(sh[k], sh[1 - k])
            def go():
                reg[k] @= reg[1 - k]
        elif op == "copy":
            new = sh[1 - k]
            def go():
                reg[k] = EmbMatrix(reg[1 - k].get_matrix())      # two transforms over one list
        else:
            new = sh[k]
            def go():
                reg[k] = EmbMatrix(tuple(reg[k].get_matrix()))
        if not tame(new):
            continue
        sh[k] = new
        st, v = core.guarded(go)
        rec["ok"] = st == "ok"
        rec["args"] = args_ok[0]
        rec.update(probes=[[], []], thirds=True, equal=False, unequal=False, whole=False)
        if rec["ok"]:
            def look():
                a, t1 = probe(reg[0])
                b, t2 = probe(reg[1])
                return a, b, t1 and t2, reg[0] == reg[1], reg[0] != reg[1]
            st, v = core.guarded(look)
            rec["ok"] = st == "ok"
            if rec["ok"]:
                rec.update(probes=[v[0], v[1]], thirds=v[2], equal=bool(v[3]), unequal=bool(v[4]))
                # equality is only asked where both are whole numbers, exactly
                rec["whole"] = all(float(x).is_integer() for m in reg for x in m.m)
        note.append(str(v)[:80] if not rec["ok"] else "")
        ops.append(rec)
        log.append(note)
        if not rec["ok"]:
            break
    return dict(kind="matrix", ops=ops, inp=log)


DESIGN = {STITCH: 10, JUMP: 3, TRIM: 2, COLOR_CHANGE: 2, STOP: 1.5, END: .7, COLOR_BREAK: 1, NEEDLE_SET: 1, SEQUIN_EJECT: 1, SLOW: .5, STITCH_BREAK: .5, SEW_TO: .5,
          M_TRANSLATE: .3, OPT_MAX_STITCH: .2}


def design_case(r):
    from pyembroidery import EmbMatrix
    g = enc.Gen(r, DESIGN, maxlen=r.choice([3, 8, 16]), coord=60, grid=r.choice([1, 1, .5]), attrs=.3)
    src = g.design() if r.random() < .95 else []
    # a matrix or option command carries parameters, not a position
    nth = r.randint(0, 4)
    p = enc.build(src, nth)
    p.extras["name"] = "n"
    before = [[milli(s[0]), milli(s[1])] for s in p.stitches]
    rest = lambda: ([s[2:] for s in p.stitches], [(t, t.color, t.description) for t in p.threadlist], dict(p.extras))
    objs = [id(s) for s in p.stitches]
    r0 = rest()
    op = r.choice(["translate", "transform", "blocks", "centre"])
    m = I
    for _ in range(r.randint(1, 3)):
        n = mul(m, elem(r)[2])
        if tame(n):
            m = n
    a = (r.choice([0, 5, -12, 2.5, 100]), r.choice([0, 7, -1.5, -40]))
    M = EmbMatrix(nine(m))
    keep = list(M.m)
    moved = [True] * len(src)
    def go():
        if op == "translate":
            p.translate(a[0], a[1])
        elif op == "transform":
            p.transform(M)
        elif op == "centre":
            p.move_center_to_origin()
        else:
            at = {id(s): i for i, s in enumerate(p.stitches)}
            seen = set()
            for i in range(len(moved)):
                moved[i] = False
            for block, thread in list(p.get_as_colorblocks()):
                for s in block:
                    M.apply(s)
                    if id(s) in at:
                        moved[at[id(s)]] = True
            # stitches must be in a block; other commands between blocks may be left out
            for i, s in enumerate(src):
                if s[2] in (STITCH, JUMP, SEQUIN_EJECT, TRIM, STOP):
                    moved[i] = True
    st, v = core.guarded(go)
    after = [[cl(s[0]), cl(s[1])] for s in p.stitches]
    r1 = rest()
    return dict(kind="design", op=op, a=[milli(a[0]), milli(a[1])], m=spec_m(m), before=before, after=after if len(after) == len(before) else [], moved=moved, ok=st == "ok",
                rest=r0 == r1, args=M.m == keep, inp=dict(op=op, a=a, m=[str(x) for x in m], src=src, err=str(v)[:100]))


def suites(run):
    run.model("MatrixMC", deeper=dict(N=4))
    def go():
        r = random.Random(run.seed * 71 + 7)
        return [compile_case(r, r.randint(2, 10)) for _ in range(run.n(1500, 15000))]
    run.suite("matrix.programs", "MatrixTrace", core.in_child(go))
    def go2():
        r = random.Random(run.seed * 73 + 8)
        return [design_case(r) for _ in range(run.n(1500, 15000))]
    run.suite("matrix.designs", "MatrixTrace", core.in_child(go2))
