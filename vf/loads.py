"""Whole files of random records, headers and texts as they load (P14)."""
import io, random
from .cmds import *
from . import core
from .formats import (le16, be16, le24, be24, le32, be32, rgb, sb, s16, filler, rec_pec, rec_dst, reader_for, q4, spoil)
from .threads import rec, codes, color

TEXTS = ["", "a", "name", " two words ", "red", "Käfer", "针", "\u20ac5", "x" * 255, "y" * 40, "tab\tin", "1234", "#00", "naïve 🧵"]
NOT_UTF8 = [b"\xff", b"caf\xe9", b"\x80abc", b"\xc3", b"\xe2\x82", b"\xed\xa0\x80", b"\xc0\xaf", b"ab\xfe"]


def raw(r, limit=255, bad=.12):
    if r.random() < bad:
        return r.choice(NOT_UTF8)
    t = r.choice(TEXTS) if r.random() < .8 else "".join(r.choice("ab ü,;%") for _ in range(r.randint(0, 12)))
    b = t.encode("utf8")
    return b if len(b) <= limit else b[:limit]


def t8(b):
    return [len(b)] + list(b)


def t16(b):
    return be16(len(b)) + list(b)


# ------------------------------------------------------------------ PEC and PES
def pec_block(r, n, ncol=None, pool=None):
    recs = [rec_pec(r) for _ in range(n)]
    k = sum(1 for q in recs if q[0] == 0xFE) + 1 if ncol is None else ncol
    pool = pool or [r.randint(1, 64) for _ in range(r.randint(1, 5))] + [r.choice([x for x in range(256) if x % 65])]   # entry 0 is no thread
    idx = [r.choice(pool) for _ in range(k)]
    stride, high = r.randint(0, 3), r.randint(0, 4)
    label = (raw(r, 16) + b" " * 16)[:16]
    b = list(b"LA:") + list(label) + filler(r, 15) + [stride, high] + filler(r, 12) + [(k - 1) & 255] + idx + filler(r, 463 - k)
    body = [x for q in recs for x in q] + [0xFF]
    pics = filler(r, stride * high * (k + 1))
    pics = [0] + pics[1:] if pics else []
    tail = [0] if not pics else []       # the zero behind FF is the first byte of the pictures
    b += filler(r, 2) + le24(16 + len(body)) + filler(r, 11) + body + pics + tail
    return b, k


def filler_head(r, version):
    pass


def pes_thread(r):
    return t8(raw(r)) + rgb(r.choice([0, 0xFFFFFF, r.randint(0, 0xFFFFFF)])) + filler(r, 5) + t8(raw(r)) + t8(raw(r)) + t8(raw(r))


def f_pes(r):
    v = r.choice(["#PES0001", "#PES0020", "#PES0022", "#PES0030", "#PES0040", "#PES0050", "#PES0055", "#PES0056", "#PES0060", "#PES0060",
                  "#PES0070", "#PES0080", "#PES0090", "#PES0100", "#PEC0001", "#PES0110", "#EMB0001"])
    n = r.randint(0, 14)
    block, k = pec_block(r, n)
    if v == "#PEC0001":
        return "pes", list(v.encode()) + block
    b = []
    w = v[4:]
    if v.startswith("#PES") and w in ("0040", "0050", "0055", "0056", "0060", "0070", "0080", "0090", "0100"):
        b += filler(r, 4)
        for _ in range(5):
            b += t8(raw(r))
        if w != "0040":
            if w in ("0090", "0100"):
                b += filler(r, 14) + t8(raw(r))
            b += filler(r, {"0050": 24, "0055": 24, "0056": 24, "0060": 36, "0070": 36, "0080": 38, "0090": 30, "0100": 38}[w])
            b += t8(raw(r)) + filler(r, {"0080": 26, "0090": 34, "0100": 34}.get(w, 24))
            counts = [0, 0, 0]
            if r.random() < .5:
                counts[r.randrange(3)] = r.choice([1, 256])
            nt = r.choice([0, 0, 1, 2, k, k, k, max(0, k - 1), k + 1, k + 3])
            for c in counts + [nt]:
                b += le16(c)
            same = pes_thread(r)
            for _ in range(nt):
                b += same if r.random() < .3 else pes_thread(r)
    b += filler(r, r.randint(0, 9))
    return "pes", list(v.encode()) + le32(12 + len(b)) + b + block


def f_pec(r):
    block, k = pec_block(r, r.randint(0, 12), ncol=r.choice([None, None, 0, 1, 2, 5, 40]))
    return "pec", list(b"#PEC0001") + block


# ------------------------------------------------------------------ VP3
def f_vp3(r):
    blocks = []
    n = r.choice([0, 1, 1, 2, 3, 5])
    for i in range(n):
        st = []
        for _ in range(r.randint(0, 10)):
            k = r.random()
            if k < .6:
                x = sb(r)
                st += [x & 255 if x != -128 else 0, sb(r) & 255]
            elif k < .8:
                st += [0x80, 1] + be16(s16(r)) + be16(s16(r)) + r.choice([[0x80, 2], [0x80, 2], [0, 0]])
            elif k < .92:
                st += [0x80, 3]
            else:
                st += [0x80, r.choice([2, 2, 0, 5])]
        st += r.choice([[], [0]])
        nc = r.choice([1, 1, 1, 2, 3])
        th = [nc, r.randint(0, 255)]
        for _ in range(nc):
            th += rgb(r.randint(0, 0xFFFFFF)) + filler(r, 3)
        th += filler(r, 2) + t16(raw(r)) + t16(raw(r)) + t16(raw(r))
        sec = [0, 1, 0] + be32(3 + len(st)) + [0x0A, 0xF6, 0] + st
        at = lambda: r.choice([0, 0, 100, -100, r.randint(-90000, 90000), 100 * r.randint(-400, 400)])
        inner = be32(at()) + be32(at()) + th + be32(at()) + be32(at()) + sec
        blocks.append([0, 5, 0] + be32(len(inner)) + inner)
    body = [b for q in blocks for b in q]
    inner = be32(r.choice([0, r.randint(-50000, 50000)])) + be32(r.choice([0, 12345, r.randint(-50000, 50000)])) + filler(r, 3) + filler(r, 24)
    inner += t16(raw(r)) + filler(r, 18) + [0x78, 0x78, 0x50, 0x50, 1, 0] + t16("Produced by     Software Ltd".encode("utf8")) + be16(n) + body
    design = [0, 3, 0] + be32(len(inner)) + inner
    rest = t16(raw(r)) + [b for _ in range(4) for b in be32(r.randint(-90000, 90000))] + be32(r.randint(0, 99999)) + filler(r, 5) + design
    rest = [0, 2, 0] + be32(len(rest)) + rest
    return "vp3", list(b"%vsm%\0") + t16(raw(r)) + rest


# ------------------------------------------------------------------ thread lists
def f_edr(r):
    n = r.randint(0, 8)
    b = []
    for _ in range(n):
        b += rgb(color(r)) + filler(r, 1)
    return "edr", b[:len(b) - r.choice([0, 0, 0, 1, 2, 3])] if b else b


def nozero(b):
    return bytes(x for x in b if x)


def f_inf(r):
    n = r.randint(0, 6)
    b = filler(r, 12) + be32(n)
    for i in range(n):
        t = be16(i + 1) + rgb(color(r)) + filler(r, 2)
        for _ in range(r.choice([2, 2, 2, 1, 0])):
            t += list(nozero(raw(r))) + [0]
        if r.random() < .1:
            t += list(nozero(raw(r)))
        b += be16(len(t) + 2) + t
    return "inf", b[:len(b) - r.choice([0, 0, 0, 1, 3])] if n and len(b) > 40 else b


def f_col(r):
    n = r.randint(0, 7)
    nl = r.choice(["\n", "\r\n"])
    rows = ["%s,%d,%d,%d" % (r.choice(["", "7", "a b", str(i), "12x"]), *rgb(color(r))) for i in range(n)]
    t = nl.join([str(n)] + rows)
    return "col", t + r.choice([nl, ""]) if n else str(n) + nl


# ------------------------------------------------------------------ G-code
def number(r, lim=400):
    v = r.choice([0, 1, -1, r.randint(-lim, lim), r.randint(-lim, lim)])
    d = r.choice([0, 1, 2, 3])
    s = "-" if v < 0 or r.random() < .05 else r.choice(["", "", "", "+"])
    t = s + str(abs(v))
    if d:
        t += "." + "".join(r.choice("0123456789") for _ in range(d))
    return t


def f_gcode(r):
    lines = []
    for i in range(r.randint(0, 6)):
        k = r.random()
        if k < .6:
            c = r.choice(["#%06x" % color(r), "red", "#abc", "blue", "#12345678"])
            lines.append("(Thread%d: %s %s)" % (i, c, r.choice(["", "dark", "a b"])))
        elif k < .8:
            lines.append(r.choice(["(Thread: #ff0000)", "(Threads1: #00ff00)", "(STITCH_COUNT: 12)", "; Thread3: #123456 tone", "(Thread7:)", "(name: Thread2: red)", "()"]))
        else:
            lines.append("(" + r.choice(["x", "Käfer", "G0 X1 Y1", "a;b", "Thread 1: red"]) + ")")
    for _ in range(r.randint(0, 20)):
        k = r.random()
        sp = r.choice([" ", " ", "", "  ", "\t"])
        if k < .55:
            w = [r.choice(["G00", "G0", "G01", "G1", "g1", "G1.0"])]
            a = ["X" + number(r), "Y" + number(r)]
            if r.random() < .3:
                a[r.randrange(2)] = a[r.randrange(2)].lower()
            if r.random() < .15:
                r.shuffle(a)
            if r.random() < .12:
                a = [r.choice(a)]
            w += a
            if r.random() < .2:
                w.append(r.choice(["Z1.0", "F500", "E2"]))
            if r.random() < .1:
                w.insert(0, "N%d" % r.randint(1, 99))
            t = sp.join(w)
        elif k < .8:
            t = r.choice(["M00", "M0", "M1", "M30", "M2", "G20", "G21", "G70", "G71", "G90", "G91", "G91", "M3", "G4 P1", "G17", "M06", "m0"])
        elif k < .9:
            t = r.choice(["", "%", "/", "G00 Z0.0", "Z1"])
        else:
            t = "G1 X%s (half) Y%s" % (number(r), number(r))
        if r.random() < .1:
            t += r.choice([" (note)", " ; note X9", "; Y1"])
        lines.append(t)
    nl = r.choice(["\n", "\n", "\r\n", "\r"])
    return "gcode", nl.join(lines) + (nl if r.random() < .85 else "")


# ------------------------------------------------------------------ DST
def whole(h, k):
    """h cut to k bytes, or a little less: a colour is not cut in two."""
    at = h.rfind(b"#", max(0, k - 7), k)
    return h[:k] if at < 0 else h[:at]


def f_dst(r):
    h = b""
    def line(k, v):
        return k + b":" + v + r.choice([b"\r", b"\r", b"\n", b"\r\n"])
    for _ in range(r.randint(0, 9)):
        k = r.choice([b"LA", b"LA", b"AU", b"CP", b"ST", b"CO", b"+X", b"-Y", b"PD", b"ZZ", b"TC", b"TC"])
        if k == b"TC":
            v = ("#%06x" % color(r)).encode()
            if r.random() < .8:
                v += b"," + r.choice([b"red", b"", b" dark blue ", b"a,b", "süß".encode("utf8")]) + r.choice([b",", b",", b""]) + r.choice([b"12", b"", b" x "])
        else:
            v = r.choice([b"", b"   12", b"name            ", b"+    5", b"******", nozero(raw(r, 30)).replace(b"\r", b"").replace(b"\n", b"")])
        h += line(k, v)
    if r.random() < .2:
        h = whole(h, r.randint(0, len(h)))
    h = whole(h, 500) + r.choice([b"\x1a", b"", b"\r"])
    h = (h + b" " * 512)[:512]
    return "dst", list(h) + [b for q in [rec_dst(r) for _ in range(r.randint(0, 10))] for b in q] + [0, 0, 0xF3]


FILES = [f_pes] * 8 + [f_pec, f_vp3, f_vp3, f_gcode, f_gcode, f_dst, f_inf, f_edr, f_col]


def load_case(r, build):
    from pyembroidery import EmbPattern
    fmt, data = build(r)
    text = isinstance(data, str)
    got = {}

    def go():
        p = EmbPattern()
        if fmt == "col":
            f = io.TextIOWrapper(io.BytesIO(data.encode("utf8")), encoding="utf8")
        else:
            f = io.BytesIO(data.encode("utf8") if text else bytes(data))
        EmbPattern.read_embroidery(reader_for(fmt), f, None, p)
        got["p"] = p
        return [q4(s) for s in p.stitches]
    ok, res = core.guarded(go)
    p = got.get("p")
    good = ok == "ok"
    ext, other, gfx, version = [], [], [], 0
    if good:
        pics = {}
        for k, v in p.extras.items():
            k = str(k)
            if k.startswith("pec_graphic_"):
                pics[int(k[12:])] = v
            elif k == "version":
                version = int(round(10 * v))
            elif v not in (None, ""):
                if fmt == "dst" and k not in ("name", "author", "copyright"):
                    other.append([codes(k), codes(v)])
                else:
                    ext.append([k.encode("ascii", "replace").decode(), codes(v)])
        for i in sorted(pics):
            g, stride, th = pics[i]
            gfx.append([list(bytearray(g)), int(stride), -1 if th is None else int(th.color) & 0xFFFFFF])
        other = [o for o in other if o[1]]
    thr = [rec(t) for t in p.threadlist] if good else []
    if good:
        spoil(p)
    data_ = [ord(ch) for ch in data] if text and fmt == "col" else list(data.encode("utf8")) if text else list(data)
    if fmt == "gcode":
        data_ = [ord(ch) for ch in data]
    return dict(fmt=fmt, bytes=data_, ok=good, res=res if good else [], thr=thr,
                ext=ext, other=other, gfx=gfx, version=version,
                inp=dict(fmt=fmt, data=(data if text else bytes(data).hex())[:3000], error=None if good else res))


def drive_loads(seed, per):
    def go():
        r = random.Random(seed)
        return [load_case(r, b) for b in FILES for _ in range(per)]
    return core.in_child(go)
