"""Stitch formats: files of random records (P14), their prefixes (P15), written designs (P08, P09)."""
import io, random, re, struct
from .cmds import *
from . import core

NOPOST = dict(kind="none", cnt=0, dist=-1, clip=True)
PAL = {}


def palettes():
    if not PAL:
        txt = open(core.SPEC + "/Palettes.tla").read()
        for m in re.finditer(r"(\w+)Palette == <<(.*?)>>", txt, re.S):
            PAL[m.group(1).lower()] = [int(v) for v in m.group(2).replace("\n", " ").split(",")]
    return PAL


def le16(v): return list(struct.pack("<H", v & 0xFFFF))
def be16(v): return list(struct.pack(">H", v & 0xFFFF))
def le32(v): return list(struct.pack("<I", v & 0xFFFFFFFF))
def be32(v): return list(struct.pack(">I", v & 0xFFFFFFFF))
def le24(v): return le32(v)[:3]
def be24(v): return be32(v)[1:]
def rgb(v): return [(v >> 16) & 255, (v >> 8) & 255, v & 255]


def sb(r):
    """a signed byte, boundary biased"""
    return r.choice([0, 0, 1, -1, 2, 127, -127, 126, 64, -64, 63, r.randint(-127, 127), r.randint(-127, 127), r.randint(-30, 30)])


def ub(r):
    return r.choice([0, 0, 1, 255, 128, 127, r.randint(0, 255), r.randint(0, 255), r.randint(0, 40)])


def nz(r, f=sb):
    """first byte of a pair: anything but the escape 0x80"""
    return f(r) & 0xFF


CALM = []        # not empty: long files, whose steps must not add up to more than TLC's numbers hold


def s16(r):
    if CALM:
        return r.choice([0, 1, -1, 127, 128, -128, 255, 256, -256, -3000, 3000, r.randint(-300, 300)])
    return r.choice([0, 1, -1, 127, 128, -128, -129, 255, 256, -256, 32767, -32768, r.randint(-3000, 3000), r.randint(-40, 40)])


def up16(r, m):
    return s16(r) if CALM else s16(r) % m


def big(r, m=60000):
    return r.choice([0, 1, -1, 127, 255, 256, -256, 32768, -32769, r.randint(-m, m), r.randint(-300, 300)])


def wpick(r, table):
    return r.choices([t[0] for t in table], [t[1] for t in table])[0]


# ---- records: functions r -> list of bytes
def rec_dst(r):
    k = r.random()
    if k < .08:
        return [0, 0, 0xC3]
    if k < .12:
        return [0, 0, 0x43]
    if k < .25 and True:
        # a ready-made trim: jumps that cancel out
        a = _dst(r, 2, 2, 0x80)
        n = r.choice([1, 2, 3, 4, 5])
        out = _dst(r, 2, 2, 0x80)
        d = -4
        for _ in range(n - 2):
            out += _dst(r, d, d, 0x80)
            d = -d
        return out + (_dst(r, d // 2, d // 2, 0x80) if n > 1 else [])
    if k < .45:
        return _dst(r, r.randint(-121, 121), r.randint(-121, 121), 0x80)
    if k < .5:
        # any bits of the displacement, also redundant spellings
        return [r.randint(0, 255), r.randint(0, 255), 3 | (r.randint(0, 15) << 2)]
    return _dst(r, sb(r) % 122 * r.choice([1, -1]), sb(r) % 122 * r.choice([1, -1]), 0)


def _dst(r, dx, dy, hi):
    def digits(v):
        out = []
        for _ in range(5):
            m = v % 3
            if m == 2:
                m = -1
            out.append(m)
            v = (v - m) // 3
        return out            # least significant first
    x, y = digits(dx), digits(-dy)
    b = [0, 0, 3 | hi]
    for k, (byte, p, m) in enumerate([(0, 0, 1), (1, 0, 1), (0, 2, 3), (1, 2, 3), (2, 2, 3)]):
        if x[k] == 1: b[byte] |= 1 << p
        if x[k] == -1: b[byte] |= 1 << m
    for k, (byte, p, m) in enumerate([(0, 7, 6), (1, 7, 6), (0, 5, 4), (1, 5, 4), (2, 5, 4)]):
        if y[k] == 1: b[byte] |= 1 << p
        if y[k] == -1: b[byte] |= 1 << m
    return b


def rec_ctl3(order, table, signbits):
    """three-byte records; order tells where ctrl, a, b go"""
    def f(r):
        c = wpick(r, table)
        if callable(c):
            c = c(r)
        if r.random() < .02:
            c = r.randrange(256)          # any code at all
        if signbits and (c & 0x100):      # 0x100 marks codes that take sign bits
            c = (c & 0xFF) | r.choice([0] + [b for b in signbits]) | r.choice([0] + [b for b in signbits])
        c &= 0xFF
        a, b = ub(r), ub(r)
        return dict(cab=[c, a, b], abc=[a, b, c])[order]
    return f


S = 0x100
rec_u01 = rec_ctl3("cab", [(S | 0x80, 12), (S | 0x81, 6), (S | 0x82, 1), (S | 0x83, 1), (S | 0x84, 1), (S | 0x85, 1),
                           (S | 0x86, 1), (S | 0x87, 2), (S | 0x88, 2), (lambda r: S | 0x80 | r.randint(9, 23), 2)], (0x20, 0x40))
rec_dsb = rec_ctl3("cab", [(S | 0x80, 12), (S | 0x81, 6), (0xE7, 2), (0xE8, 2), (lambda r: r.randint(0xE9, 0xF7), 2)], (0x20, 0x40))
rec_dsz = rec_ctl3("abc", [(S | 0x80, 12), (S | 0x81, 6), (0x82, 2), (0x9B, 2), (lambda r: r.randint(0x83, 0x9A), 2)], (0x20, 0x40))
rec_10o = rec_ctl3("cab", [(S | 0x80, 12), (S | 0x90, 6), (0x8A, 1), (0x85, 2), (0x82, 2), (0x81, 2)], (0x20, 0x40))
rec_stc = rec_ctl3("abc", [(1, 12), (0, 6), (lambda r: r.randint(2, 24), 2)], ())
rec_inb = rec_ctl3("abc", [(S | 0x80, 12), (S | 0x82, 6), (S | 0x81, 2)], (0x20, 0x40))
rec_new = rec_ctl3("abc", [(S | 0x80, 12), (S | 0x81, 6), (S | 0x82, 2), (S | 0x00, 3)], (0x20, 0x40))
rec_sun = rec_ctl3("abc", [(7, 12), (4, 6), (0x80, 2), (0x87, 2), (0x84, 1)], ())
rec_ksm = rec_ctl3("abc", [(S | 0x80, 14), (S | 0x87, 1), (S | 0x93, 1), (S | 0x9D, 1), (S | 0x97, 1), (S | 0x98, 1), (S | 0x99, 2),
                           (lambda r: S | 0x80 | r.randint(0x0B, 0x12), 1), (S | 0x85, 1), (S | 0x9B, 1)], (0x20, 0x40))
rec_zhs = rec_ctl3("cab", [(2, 12), (1, 6), (4, 2), (0x41, 2), (0x10, 1)], ())


def rec_zxy(r):
    k = r.random()
    if k < .1:
        return [0x20, r.randint(0, 254), r.randint(0, 12)]
    c = r.choice([0, 4, 8, 12]) | (0 if k < .7 else r.choice([2, 2, 3]))
    if r.random() < .02:
        return [r.randrange(256), ub(r), r.randint(0, 12)]
    return [c, ub(r), ub(r)]


def rec_tbf(r):
    c = wpick(r, [(0x80, 12), (0x90, 6), (0x81, 2), (0x40, 1), (0x86, 2), (r.choice([v for v in range(256) if v != 0x81]), .4)])
    if c == 0x90 and r.random() < .3:
        return [0, 0, c]
    return [sb(r) & 255, sb(r) & 255, c]


def rec_100(r):
    k = r.random()
    c = 0x61 if k < .6 else r.choice([1, 0x21, 3]) if k < .85 else r.choice([0, 0x20, 0x62])
    x, y = ub(r), ub(r)
    if x == 128: x = 0
    if y == 128: y = 0
    return [c, r.randint(0, 255), x, y]


def rec_mit(r):
    ctrl = wpick(r, [(7, 8), (12, 4), (4, 1), (5, 1), (8, 3), (15, .5), (1, .5)])
    b0 = ((ctrl >> 2) << 5) | r.randint(0, 31) | r.choice([0, 0x80])
    b1 = ((ctrl & 3) << 5) | r.randint(0, 31) | r.choice([0, 0x80])
    return [b0, b1]


def pair(esc):
    def f(r):
        k = r.random()
        if k < .65:
            a, b = sb(r), sb(r)
            return [a & 255, b & 255]
        return esc(r)
    return f


rec_exp = pair(lambda r: [0x80, r.choice([4, 4, 4, 2, 1, 0x80] * 6 + [r.randrange(256)])] + r.choice([[0, 0], [sb(r) & 255, sb(r) & 255], [7, 0]]))
rec_sew = pair(lambda r: [0x80, r.choice([2, 2, 4, 4, 1, 0x10, 3] * 6 + [r.randrange(256)]), sb(r) & 255, sb(r) & 255])
rec_jpx = pair(lambda r: [0x80, r.choice([2, 2, 2, 1] * 8 + [r.randrange(256)])] + r.choice([[0, 0], [sb(r) & 255, sb(r) & 255]]))
rec_emd = pair(lambda r: r.choice(([[0x80, 0x80, sb(r) & 255, sb(r) & 255]] * 3 + [[0x80, 0x2A], [0x80, 0x7D], [0x80, 0xAD], [0x80, 0x90]]) * 4 + [[0x80, r.randrange(256)]]))


def _bro(r):
    k = r.random()
    if k < .15:
        return [0x80, r.randint(0, 255), 0]
    c = r.choice([0x7E, 3, 3, r.randint(0xE1, 0xEF)] * 8 + [r.randrange(256)])
    return [0x80, r.randint(0, 255), c] + le16(s16(r)) + le16(s16(r))


rec_bro = pair(_bro)


def rec_xxx(r):
    k = r.random()
    if k < .6:
        return [r.choice([x for x in [sb(r) & 255] if x not in (0x7D, 0x7E, 0x7F)] or [0]), sb(r) & 255]
    if k < .7:
        return [r.choice([0x7D, 0x7E])] + le16(s16(r)) + le16(s16(r))
    if k < .85:
        return [0x7F, 1, sb(r) & 255, sb(r) & 255]
    if k < .92:
        return [0x7F, 3] + r.choice([[0, 0], [sb(r) & 255, sb(r) & 255]])
    return [0x7F, r.choice([8, 8, 0x0A, 0x17, r.randrange(256)]), 0, 0]


def rec_pec(r):
    k = r.random()
    if k < .06:
        return [0xFE, 0xB0, r.choice([1, 2])]
    def num(v, fl, long):
        if not long and -64 <= v <= 63:
            return [v & 127]
        u = v & 0xFFF
        return [0x80 | fl | (u >> 8), u & 255]
    def val(r):
        return r.choice([0, 1, -1, 62, 63, 64, -63, -64, -65, 127, 128, -128, 2047, -2048, r.randint(-2048, 2047), r.randint(-70, 70)])
    fl = r.choice([0, 0, 0, 0x10, 0x20])
    return num(val(r), fl, fl != 0 or r.random() < .2) + num(val(r), fl, fl != 0 or r.random() < .2)


def rec_pcd(r):
    return [r.randint(0, 255)] + le24(big(r)) + [r.randint(0, 255)] + le24(big(r)) + [wpick(r, [(0, 10), (4, 4), (1, 2), (3, .5), (r.randrange(256), .3)])]


def rec_pcm(r):
    return be24(big(r)) + [r.randint(0, 255)] + be24(big(r)) + [r.randint(0, 255)] + [wpick(r, [(0, 10), (4, 4), (1, 2), (r.randrange(256), .3)])]


def rec_max(r):
    return le24(big(r)) + [r.randint(0, 255)] + le24(big(r)) + [r.randint(0, 255)]


def rec_spx(r):
    return [r.randint(0, 255), r.randint(0, 255)] + be16(up16(r, 20000)) + be16(up16(r, 20000)) + [sb(r) & 255, r.randint(0, 255), 0]


def rec_shv(r):
    k = r.random()
    if k < .7:
        return [r.choice([v for v in [sb(r) & 255] if v != 128] or [1]), sb(r) & 255]
    if k < .85:
        return [0x80, 1] + be16(up16(r, 4000)) + be16(up16(r, 4000))
    return [0x80, r.choice([2, 2, 3])]


# ---- whole files: r, records -> dict
def entry(r, lo, hi):
    """an entry of a palette: as a rule the next one, so that every entry is seen"""
    if r.random() < .25:
        return r.randint(lo, hi)
    at = r.__dict__.setdefault("entries", {})
    at[hi] = at.get(hi, lo - 1) + 1
    if at[hi] > hi:
        at[hi] = lo
    return at[hi]


def filler(r, n):
    return [r.randint(0, 255) for _ in range(n)]


def f_plain(ext, fmt, rec, offset, end, tol=0, fill=None):
    def build(r, n):
        recs = [rec(r) for _ in range(n)]
        head = filler(r, offset) if fill is None else fill(r, offset)
        return dict(ext=ext, fmt=fmt, head=head, recs=recs, tail=r.choice(end), aux=[], thr=[], tol=tol)
    return build


def text512(r, n):
    lab = r.choice([b"LA:Some name       \r", b"", b"LA:" + bytes([0xE9, 0xFF]) + b"\r"])
    body = lab + b"ST:    12\rCO:  1\r+X:   10\r-X:    0\r+Y:    5\r-Y:   3\rAX:+    0\r"
    return list(body) + [0x1A] + [0x20] * (n - len(body) - 1)


def f_dat(r, n):
    return dict(ext="dat", fmt="dat", head=[], recs=[[q[0] | 0x80] + q[1:] for q in [rec_u01(r) for _ in range(n)]], tail=[0xF8, 0, 0], aux=[], thr=[], tol=0)


def f_sun(r, n):
    h = filler(r, 256)
    k = 3 * r.choice([0, 0, 0, 1, 2, 5])       # what could be records of the other kind of DAT
    h[:k] = [b for _ in range(k // 3) for b in rec_u01(r)]
    for i in range(0, k, 3):
        h[i] = r.choice([0x80, 0x81, 0x86, 0x88, 0x8A]) | r.choice([0, 0x20, 0x40])
    h[k] &= 0x7F
    return dict(ext="dat", fmt="sun", head=h, recs=[rec_sun(r) for _ in range(n)], tail=[0, 0, 0], aux=[], thr=[], tol=0)


def f_xxx(r, n):
    recs = [rec_xxx(r) for _ in range(n)]
    cols = [r.randint(0, 0xFFFFFF) for _ in range(r.choice([0, 1, 2, 5, 21, 25]))]
    head = filler(r, 0x100)
    head[0x27:0x2B] = le32(len(cols))
    tail = [0x7F, r.choice([0x7F, 0x18]), 2, 0x14, 0, 0]
    for c in cols:
        tail += [0] + rgb(c)
    return dict(ext="xxx", fmt="xxx", head=head, recs=recs, tail=tail, aux=[], thr=cols, tol=0, thr_after=True)


def jef_palette(r, recs):
    """one entry per change; 0 is a stop"""
    pal = [entry(r, 1, 78)]
    for _ in range(sum(1 for q in recs if q[:2] == [0x80, 1])):
        pal.append(r.choice([0, pal[0], pal[-1] or 1, entry(r, 1, 78), entry(r, 1, 78)]))
    return pal[:r.choice([len(pal)] * 9 + [1])] + r.choice([[]] * 4 + [[0], [5]])


def jef_threads(pal):
    return [e for e in pal if e != 0]


def f_jef(r, n):
    recs = []
    for _ in range(n):
        k = r.random()
        if k < .6:
            recs.append([sb(r) & 255, sb(r) & 255])
        elif k < .8:
            recs.append([0x80, 2] + r.choice([[0, 0], [sb(r) & 255, sb(r) & 255]]))
        elif k < .9:
            recs.append([0x80, 1, 0, 0])
        else:
            for _ in range(r.choice([2, 3, 4])):
                recs.append([0x80, 2, 0, 0])
    pal = jef_palette(r, recs)
    off = 0x74 + 8 * len(pal)
    head = le32(off) + filler(r, 20) + le32(len(pal)) + filler(r, 88)
    for p in pal:
        head += le32(p)
    head += [0x0D, 0, 0, 0] * len(pal)
    return dict(ext="jef", fmt="jef", head=head, recs=recs, tail=[0x80, 0x10], aux=pal, pal="jef",
                idx=jef_threads(pal), tol=0)


def f_jpx(r, n):
    nc = r.randint(0, 4)
    head = le32(0x3C + 4 * nc) + filler(r, 0x1C) + le32(nc) + filler(r, 0x18)
    for _ in range(nc):
        head += le32(r.randint(0, 99))
    return dict(ext="jpx", fmt="jpx", head=head, recs=[rec_jpx(r) for _ in range(n)], tail=[0x80, 0x10], aux=[], thr=None, nthr=nc, tol=0)


def f_stx(r, n):
    off = 0x18 + r.randint(0, 20)
    head = list(b"STX") + filler(r, 9) + le32(0) + le32(0) + le32(off)
    head += filler(r, off - len(head))
    return dict(ext="stx", fmt="exp", head=head, recs=[rec_exp(r) for _ in range(n)], tail=[], aux=[], thr=[], tol=0)


def f_sew(r, n):
    idx = [entry(r, 0, 78) for _ in range(r.randint(0, 9))]
    head = le16(len(idx))
    for i in idx:
        head += le16(i)
    head += filler(r, 0x1D78 - len(head))
    return dict(ext="sew", fmt="sew", head=head, recs=[rec_sew(r) for _ in range(n)], tail=[0x80, 0x20, 0, 0], aux=[], pal="sew", idx=idx, tol=0)


def f_tbf(r, n):
    recs = [rec_tbf(r) for _ in range(n)]
    head = [0x20] * 0x600
    order = [r.choice([1, 2, 3, 7, 15, r.randint(1, 250)]) if r.random() < .9 else 0 for _ in range(256)]
    cols = [r.randint(0, 0xFFFFFF) for _ in range(r.randint(0, 12))]
    head[0x83:0x93] = list(b"A name          ")
    head[0x10A:0x20A] = order
    for k, c in enumerate(cols):
        head[0x20E + 5 * k:0x213 + 5 * k] = [0x45] + rgb(c) + [0x20]
    return dict(ext="tbf", fmt="tbf", head=head, recs=recs, tail=r.choice([[0, 0, 0x8F, 0x1A], [0x1A]]), aux=order, thr=cols, tol=0)


def pec_head(r, idx):
    h = list(b"LA:") + list(b"label           \r") + [0x20] * 12 + [0xFF, 0x00, 6, 38] + [0x20] * 12
    h += [(len(idx) - 1) & 255] + idx + [0x20] * (463 - len(idx))
    return h


def f_pec(r, n, ext="pec", idx=None):
    recs = [rec_pec(r) for _ in range(n)]
    nc = sum(1 for q in recs if q[0] == 0xFE)
    idx = [entry(r, 1, 64)]
    for _ in range(nc):
        idx.append(entry(r, 1, 64) if r.random() < .7 else r.choice(idx[-2:]))
    head = list(b"#PEC0001") + pec_head(r, idx)
    body = sum(len(q) for q in recs) + 2
    head += [0, 0] + le24(20 + body - 1) + [0x31, 0xFF, 0xF0] + le16(10) + le16(10) + le16(0x1E0) + le16(0x1B0)
    return dict(ext="pec", fmt="pec", head=head, recs=recs, tail=[0xFF, 0] + [0] * (228 * (len(idx) + 1) - 1), aux=[], pal="pec", idx=idx, tol=0, post="dup")


def f_phb(r, n):
    recs = [rec_pec(r) for _ in range(n)]
    nc = sum(1 for q in recs if q[0] == 0xFE)
    idx = [entry(r, 1, 64)]
    for _ in range(nc):
        idx.append(entry(r, 1, 64) if r.random() < .7 else r.choice(idx[-2:]))
    a, b, c, k = r.randint(0x60, 0xA0) + len(idx), r.randint(5, 20), r.randint(5, 20), r.randint(0, 3)
    p1 = 0x52 + a
    p2 = p1 + b + 2
    p3 = p2 + c
    head = filler(r, p3 + 15 + k + 0x15)
    head[0x71:0x73] = le16(len(idx))
    head[0x73:0x73 + len(idx)] = idx
    head[0x54:0x58] = le32(a)
    head[p1:p1 + 4] = le32(b)
    head[p2:p2 + 4] = le32(c)
    head[p3 + 14] = k
    return dict(ext="phb", fmt="pec", head=head, recs=recs, tail=[0xFF, 0], aux=[], pal="pec", idx=idx, tol=0, post="dup")


def f_phc(r, n):
    recs = [rec_pec(r) for _ in range(n)]
    nc = sum(1 for q in recs if q[0] == 0xFE)
    idx = [entry(r, 1, 64)]
    for _ in range(nc):
        idx.append(entry(r, 1, 64) if r.random() < .7 else r.choice(idx[-2:]))
    h, st = r.randint(1, 4), r.randint(1, 3)
    pec_add = 0x4F + len(idx)
    gsize = h * st * len(idx)
    off = gsize + r.randint(0, 4)
    head = filler(r, 0x4F)
    head[0x2B] = pec_add & 255
    head[0x30:0x32] = le16(off)
    head[0x4A] = h
    head[0x4C] = st
    head[0x4D:0x4F] = le16(len(idx))
    head += idx
    head += filler(r, gsize)
    head += filler(r, off + pec_add - len(head))
    b1, b2, k = r.randint(0, 9), r.randint(0, 9), r.randint(0, 3)
    head += le16(b1) + filler(r, b1) + le32(b2) + filler(r, b2 + 10) + [k] + filler(r, k + 0x1D)
    return dict(ext="phc", fmt="pec", head=head, recs=recs, tail=[0xFF, 0], aux=[], pal="pec", idx=idx, tol=0, post="dup")


def f_zxy(r, n):
    d = r.randint(2, 30)
    head = [0] + be16(d) + filler(r, d)
    return dict(ext="zxy", fmt="zxy", head=head, recs=[rec_zxy(r) for _ in range(n)], tail=[0x20, 0xFF, 0], aux=[], thr=[], tol=0)


def f_pc(ext):
    def build(r, n):
        cols = [r.randint(0, 0xFFFFFF) for _ in range(r.randint(0, 5))]
        recs = [rec_pcd(r) for _ in range(n)]
        head = [0x32, r.randint(0, 3)] + le16(len(cols))
        for c in cols:
            head += rgb(c) + [0]
        head += le16(n)
        return dict(ext=ext, fmt="pcd", head=head, recs=recs, tail=[], aux=[], thr=cols, tol=2)
    return build


def f_pcm(r, n):
    idx = [entry(r, 0, 15) for _ in range(r.randint(0, 5))]
    head = [0x32, 0] + be16(len(idx))
    for i in idx:
        head += be16(i)
    head += be16(n)
    return dict(ext="pcm", fmt="pcm", head=head, recs=[rec_pcm(r) for _ in range(n)], tail=[], aux=[], pal="pcm", idx=idx, tol=2)


def f_max(r, n):
    head = filler(r, 0xD5) + le32(n)
    return dict(ext="max", fmt="max", head=head, recs=[rec_max(r) for _ in range(n)], tail=filler(r, 5), aux=[n], thr=[], tol=2)


def f_pmv(r, n):
    recs = []
    left = n
    while left > 0:
        k = r.choice([0, 1, 2, 5, left])
        k = min(k, left)
        blk = le16(k) + le16(2 * k)
        for _ in range(k):
            x, y = r.choice([0, 1, 32, 33, 63, r.randint(0, 63)]), r.choice([0, 1, 16, 17, 31, r.randint(0, 31)])
            recs.append(blk + [x, y])
            blk = []
        if blk:
            recs.append(blk)
        left -= k
    return dict(ext="pmv", fmt="pmv", head=filler(r, 0x64), recs=recs, tail=le16(0) + le16(256) + filler(r, 9), aux=[], thr=[], tol=0)


def f_shv(r, n):
    recs = [rec_shv(r) for _ in range(n)]
    idx = [entry(r, 0, 42) for _ in range(r.randint(1, 4))]
    counts = [r.randint(1, 12) for _ in idx]
    name = b"Shv name"[:r.randint(0, 8)]
    w, h = r.randint(0, 6), r.randint(0, 7)
    head = filler(r, 0x56) + [len(name)] + list(name) + [w, h] + filler(r, 4 + ((h + 1) // 2) * w) + [len(idx)] + filler(r, 18)
    for k, i in enumerate(idx):
        head += be32(counts[k]) + [i] + (filler(r, 9) if k + 1 < len(idx) else filler(r, 7))
    return dict(ext="shv", fmt="shv", head=head, recs=recs, tail=[], aux=counts, pal="shv", idx=idx, tol=0)


def f_zhs(r, n):
    cols = [r.randint(0, 0xFFFFFF) for _ in range(r.randint(0, 5))]
    txt = "".join("&$chart%d&#desc%d&#cat%d\x00\x00" % (i, i, i) for i in range(len(cols))).encode()
    hdr = [len(cols)]
    for c in cols:
        hdr += rgb(c)
    hdr += le16(len(txt)) + list(txt)
    head = filler(r, 0x0F)
    so = 0x17 + len(hdr)
    head += le32(so) + le32(0x17) + hdr
    return dict(ext="zhs", fmt="zhs", head=head, recs=[rec_zhs(r) for _ in range(n)], tail=[0x80, 0, 0], aux=[], thr=cols, tol=0)


BUILDERS = [
    f_plain("dst", "dst", rec_dst, 512, [[0, 0, 0xF3], []], fill=text512),
    f_plain("tap", "dst", rec_dst, 0, [[0, 0, 0xF3]]),
    f_plain("exy", "dst", rec_dst, 0x100, [[0, 0, 0xF3]]),
    f_plain("exp", "exp", rec_exp, 0, [[]]), f_stx,
    f_plain("u01", "u01", rec_u01, 0x100, [[0xF8, 0, 0], [0xF8, 0, 0, 1, 2, 3]]),
    f_plain("dsb", "dsb", rec_dsb, 512, [[0xF8, 0, 0]], fill=text512),
    f_plain("dsz", "dsz", rec_dsz, 512, [[0, 0, 0x9E]], fill=text512),
    f_plain("fxy", "dsz", rec_dsz, 0x100, [[0, 0, 0x9E]]),
    f_plain("gt", "dsz", rec_dsz, 0x200, [[0, 0, 0x9E]]),
    f_plain("10o", "10o", rec_10o, 0, [[0x87, 0, 0]]),
    f_plain("100", "100", rec_100, 0, [[]]),
    f_plain("mit", "mit", rec_mit, 0, [[0, 0]]),
    f_plain("stc", "stc", rec_stc, 0x28, [[0, 0, 25]]),
    f_plain("inb", "inb", rec_inb, 0x2000, [[0, 0, 4]]),
    f_plain("new", "new", rec_new, 2, [[0, 0, 0x11]]),
    f_plain("ksm", "ksm", rec_ksm, 0x200, [[0, 0, 0x88]]),
    f_plain("emd", "emd", rec_emd, 0x30, [[0x80, 0xFD]]),
    f_plain("bro", "bro", rec_bro, 0x100, [[0x80, 0, 2], [0x80, 0, 0xE0]]),
    f_plain("spx", "spx", rec_spx, 0x11E, [[]]),
    f_dat, f_sun, f_xxx, f_jef, f_jpx, f_sew, f_tbf, f_pec, f_phb, f_phc, f_zxy, f_pc("pcd"), f_pc("pcq"), f_pc("pcs"),
    f_pcm, f_max, f_pmv, f_shv, f_zhs,
]


def reader_for(ext):
    from pyembroidery import EmbPattern
    for ft in EmbPattern.supported_formats():
        if ft["extension"] == ext:
            return ft["reader"]
    raise core.MachineryError("no reader registered for " + ext)


def writer_for(ext):
    from pyembroidery import EmbPattern
    for ft in EmbPattern.supported_formats():
        if ft["extension"] == ext and "writer" in ft:
            return ft["writer"]
    raise core.MachineryError("no writer registered for " + ext)


def q4(s):
    """stitch of a design -> <<x, y, flag, needle>>"""
    try:
        a = unpack(s[2])
        return [milli(s[0]), milli(s[1]), a[0], a[2]]
    except Exception:
        return [CLAMP, CLAMP, 998, 0]


def thread_ints(tl):
    out = []
    for t in tl:
        try:
            out.append(int(t.color) & 0xFFFFFF)
        except Exception:
            out.append(-7)
    return out


def read_settings(r, fmt, ext):
    """settings for readers that post-process, and what they ask for"""
    s = {}
    if fmt == "dst":
        cnt, dist, clip = 3, None, True
        if r.random() < .6:
            if r.random() < .6:
                cnt = s["trim_at"] = r.choice([1, 2, 3, 4, 5, 8])
            if r.random() < .5:
                dist = s["trim_distance"] = r.choice([3.0, 0.4, 5.0, 50.0, None])
            if r.random() < .5:
                clip = s["clipping"] = r.random() < .5
        return s, dict(kind="trim", cnt=cnt, dist=-1 if dist is None else int(dist * 10000), clip=clip)
    if fmt == "jef":
        cnt, dist, clip, trims = None, 3.0, True, False
        if r.random() < .6:
            if r.random() < .5:
                cnt = s["trim_at"] = r.choice([2, 3, 4, 5])
            if r.random() < .5:
                trims = s["trims"] = r.random() < .7
            if r.random() < .5:
                dist = s["trim_distance"] = r.choice([3.0, 0.4, 5.0, 50.0, None])
            if r.random() < .5:
                clip = s["clipping"] = r.random() < .5
        if trims and cnt is None:
            cnt = 3
        return s, dict(kind="trim", cnt=cnt or 0, dist=-1 if dist is None else int(dist * 10000), clip=clip)
    return s, dict(NOPOST)


def spoil(p):
    """what is done to a design that was read is no business of files read later"""
    def go():
        for t in p.threadlist:
            t.color = 0x123457
            t.description = t.brand = t.chart = t.catalog_number = "spoilt"
        for s in p.stitches:
            s[0] += 1
        p.extras["spoilt"] = "1"
        p.add_thread(1)
        p.stitch_abs(5, 5)
    core.guarded(go)


def read_case(r, f, cut=None):
    """the real reader on a file; `cut`: bytes kept of the stitch data"""
    from pyembroidery import EmbPattern
    body = [b for q in f["recs"] for b in q]
    data = bytes(f["head"]) + bytes(body) + bytes(f["tail"])
    whole = True
    if cut is not None:
        data = data[:len(f["head"]) + cut]
        whole = False
    st, post = read_settings(r, f["fmt"], f["ext"])
    p = EmbPattern()

    def go():
        EmbPattern.read_embroidery(reader_for(f["ext"]), io.BytesIO(data), st or None, p)
        return [q4(s) for s in p.stitches]
    ok, res = core.guarded(go)
    wthr = f["idx"] if f.get("pal") else f.get("thr")
    rthr = thread_ints(p.threadlist)
    spoil(p)
    if wthr is None:
        wthr, rthr = [f["nthr"]], [len(rthr)]
    anythr = False
    if not whole and (f.get("thr_after") or f["fmt"] == "jef"):
        anythr = True          # colours not reached yet
    if f.get("post") == "dup":
        post = dict(NOPOST, kind="dup")
    return dict(kind="r", fmt=f["fmt"], pipe=False, bytes=list(data[len(f["head"]):]), base=len(f["head"]), start=len(f["head"]),
                aux=f["aux"], ok=ok == "ok", res=res if ok == "ok" else [], post=post, tol=f["tol"],
                wthr=wthr, rthr=rthr, pal=f.get("pal", ""), anythr=anythr, cut=not whole,
                inp=dict(ext=f["ext"], settings={k: repr(v) for k, v in st.items()}, data=data[:4000].hex(), error=None if ok == "ok" else res))


def drive_reads(seed, per, maxrec=24):
    def go():
        r = random.Random(seed)
        cases = []
        for b in BUILDERS:
            for k in range(per * (3 if b in BUILDERS[:3] or b in (f_jef, f_pec, f_tbf) else 1)):
                cases.append(read_case(r, b(r, r.randint(0, maxrec))))
        return cases
    return core.in_child(go)


def drive_cuts(seed, per, maxrec=8):
    """every prefix of the stitch data of small files"""
    def go():
        r = random.Random(seed)
        cases = []
        for b in BUILDERS:
            for k in range(per):
                f = b(r, r.randint(2, maxrec))
                n = sum(len(q) for q in f["recs"])
                for cut in range(n + 1):
                    cases.append(read_case(r, f, cut))
        return cases
    return core.in_child(go)


def drive_long(seed, per, cuts):
    """files of several hundred records, whole or cut at a few places"""
    def go():
        r = random.Random(seed)
        cases = []
        CALM.append(1)
        for b in BUILDERS:
            for k in range(per):
                f = b(r, r.randint(300, 450))
                if not cuts:
                    cases.append(read_case(r, f))
                    continue
                n = sum(len(q) for q in f["recs"])
                h = len(f["head"])
                at = {r.randint(0, n) for _ in range(cuts)} | {n - 1, n - 2, n - 3}
                at |= {x - h + r.randint(0, 3) for x in (256, 512, 1024, 2048)}
                for cut in sorted(x for x in at if 0 <= x <= n):
                    cases.append(read_case(r, f, cut))
        return cases
    return core.in_child(go)


def check_p14(run):
    run.suite("read.records", "FmtTrace", drive_reads(run.seed * 31 + 14, run.n(25, 250)))
    run.suite("read.long", "FmtTrace", drive_long(run.seed * 31 + 141, run.n(1, 5), 0), chunk=20)
    from . import loads
    run.suite("read.files", "LoadTrace", loads.drive_loads(run.seed * 31 + 114, run.n(40, 400)))
    from . import compress
    run.suite("read.compressed", "CompressTrace", compress.drive_hus(run.seed * 31 + 115, run.n(60, 600)))


def check_p15(run):
    run.suite("read.prefixes", "FmtTrace", drive_cuts(run.seed * 31 + 15, run.n(5, 25)))
    run.suite("read.longcuts", "FmtTrace", drive_long(run.seed * 31 + 151, run.n(1, 3), run.n(2, 20)), chunk=20)
