"""Compressed streams (P23): a writer of valid streams of every shape, stored blocks, HUS files."""
import io, random, struct
from . import core

STITCHES = {0x80, 0x81, 0x84, 0x88}


def complete(r, k, most=16):
    """k code lengths, a complete code (k >= 2)"""
    ls = [0]
    while len(ls) < k:
        c = [i for i, l in enumerate(ls) if l < most]
        # mostly the deepest, so that codes get long; sometimes any
        i = max(c, key=lambda j: ls[j]) if r.random() < .6 else r.choice(c)
        ls[i] += 1
        ls.append(ls[i])
    r.shuffle(ls)
    return ls


def code(ls):
    """symbol -> bits of the canonical code"""
    at, out = 0, {}
    for l in range(1, 17):
        for s, v in enumerate(ls):
            if v == l:
                out[s] = format(at >> (16 - l), "0%db" % l)
                at += 1 << (16 - l)
    assert at == 1 << 16
    return out


def bits(v, n):
    return format(v, "0%db" % n) if n else ""


def length(v):
    return bits(v, 3) if v < 7 else "111" + "1" * (v - 7) + ("" if v == 20 else "0")


def trail(ls):
    while ls and ls[-1] == 0:
        ls = ls[:-1]
    return ls


def table(r, used, alphabet, most=16, extra=3):
    """(lengths or None, code) of a code for the used symbols"""
    used = sorted(used)
    if len(used) == 1 and r.random() < .8:
        return None, {used[0]: ""}
    syms = set(used)
    while len(syms) < 2 or r.random() < .4 and len(syms) < alphabet and extra > 0:
        syms.add(r.randrange(alphabet))
        extra -= 1
    syms = sorted(syms)
    ls = [0] * alphabet
    for s, l in zip(syms, complete(r, len(syms), most)):
        ls[s] = l
    return trail(ls), code(ls)


def short(r, ls, cd, skip):
    if ls is None:
        return bits(0, 5) + bits(list(cd)[0], 5)
    out = bits(len(ls), 5)
    i = 0
    while i < len(ls):
        if skip and i == 3:
            z = 0
            while z < 3 and ls[3 + z:4 + z] == [0] and 3 + z < len(ls) - 1:
                z += 1
            z = r.choice([0, z, z])
            out += bits(z, 2)
            i += z
        out += length(ls[i])
        i += 1
    return out


def chars_table(r, ls, cd):
    """the lengths of the character code, themselves in a code"""
    if ls is None:
        c = list(cd)[0]
        lens, lcode = None, {r.randrange(19): ""}
        return short(r, lens, lcode, True) + bits(0, 9) + bits(c, 9)
    ops = []                 # (symbol, extra bits)
    i = 0
    while i < len(ls):
        if ls[i]:
            ops.append((ls[i] + 2, ""))
            i += 1
            continue
        z = 0
        while i + z < len(ls) and ls[i + z] == 0:
            z += 1
        k = r.random()
        if z >= 20 and k < .8:
            n = min(z, 20 + 511) if k < .6 else r.randint(20, min(z, 20 + 511))
            ops.append((2, bits(n - 20, 9)))
        elif z >= 3 and k < .8:
            n = min(z, 18) if k < .6 else r.randint(3, min(z, 18))
            ops.append((1, bits(n - 3, 4)))
        else:
            n = 1
            ops.append((0, ""))
        i += n
    lens, lcode = table(r, {o[0] for o in ops}, 19)
    # a code of fewer than four lengths has no symbol that gives one
    return short(r, lens, lcode, True) + bits(len(ls), 9) + "".join(lcode[o[0]] + o[1] for o in ops)


def dist_symbol(x):
    return 0 if x == 0 else x.bit_length()


def block(r, toks):
    ls, cc = table(r, {t[0] for t in toks}, 511, extra=r.choice([0, 2, 40]))
    dsy = {dist_symbol(t[1]) for t in toks if 256 <= t[0] < 510}
    if not dsy:
        dl, dc = r.choice([(None, {0: ""}), (None, {5: ""}), ([1, 1], None)])
    else:
        dl, dc = table(r, dsy, 17)
    out = bits(len(toks), 16) + chars_table(r, ls, cc) + short(r, dl, dc, False)
    for ch, x in toks:
        out += cc[ch]
        if 256 <= ch < 510:
            d = dist_symbol(x)
            out += dc[d] + (bits(x - (1 << (d - 1)), d - 1) if d else "")
    return out


def tokens(r, n):
    toks, data = [], []
    alpha = r.choice([[0], [0, 1], list(range(0x80, 0x92)), list(range(256)), [r.randrange(256) for _ in range(6)]])
    for _ in range(n):
        if data and r.random() < .4:
            x = r.choice([0, len(data) - 1, 1, r.randrange(len(data)), r.randrange(len(data))])
            x = min(x, len(data) - 1)
            ln = r.choice([3, 3, 4, 5, 6, x + 1, x + 2, r.randint(3, 20), 256])
            ln = max(3, min(256, ln))
            if x.bit_length() > 16:
                x = 0
            toks.append((ln + 253, x))
            for _ in range(ln):
                data.append(data[len(data) - 1 - x])
        else:
            v = r.choice(alpha)
            toks.append((v, 0))
            data.append(v)
    return toks, data


def pack_bits(s):
    s += "0" * (-len(s) % 8)
    return [int(s[i:i + 8], 2) for i in range(0, len(s), 8)]


def stream(r, n, end=None):
    """(bytes, data, ended): a valid stream of about n tokens in one or more blocks"""
    toks, data = tokens(r, n)
    end = r.random() < .5 if end is None else end
    if end:
        toks = toks + [(510, 0)]
    out, k = "", 0
    while k < len(toks):
        m = len(toks) - k if r.random() < .6 else r.randint(1, len(toks) - k)
        out += block(r, toks[k:k + m])
        k += m
    return pack_bits(out), data, end


def flush(r):
    """a stream whose last block has one symbol only, taking no bits, and starts where the last byte ends"""
    for _ in range(400):
        toks, data = tokens(r, r.randint(1, 6))
        out = block(r, toks)
        k = r.randint(1, 9)
        if r.random() < .6:
            last = [(r.randrange(256), 0)] * k
        else:
            last = [(r.choice([256, 257, 270]), r.choice([0, 1]) if len(data) > 1 else 0)] * k
        out += block(r, last)
        if len(out) % 8 == 0:
            for c, x in last:
                if c < 256:
                    data.append(c)
                else:
                    for _i in range(c - 253):
                        data.append(data[len(data) - 1 - x])
            return pack_bits(out), data, True, False
    return stream(r, 3) + (True,)


def stream_case(r, n):
    from pyembroidery import expand
    if n:
        b, data, ended = stream(r, n)
        junk = True
    else:
        b, data, ended, junk = flush(r)
    k = r.random()
    size = -1 if ended and k < .4 else len(data) if k < .7 else r.randint(0, len(data)) if k < .9 or not ended else len(data) + r.randint(1, 9)
    if r.random() < .3 and (ended or size >= 0) and (junk or 0 <= size <= len(data)):
        b = b + [r.randrange(256) for _ in range(r.randint(1, 4))]        # what follows the stream in a file
    orig = data if size < 0 else data[:size]
    given = r.choice([bytes, bytearray])(b)
    ok, res = core.guarded(lambda: list(expand(given, size) if size >= 0 else expand(given)))
    good = ok == "ok" and all(isinstance(v, int) for v in res)
    return dict(kind="stream", follow=True, ok=good, b=b, size=size, orig=orig, out=res if good else [],
                inp=dict(bytes=b, size=size, error=None if good else str(res)[:300]))


def store_case(r, n, follow):
    from pyembroidery import compress, expand
    data = [r.randrange(256) for _ in range(n)] if r.random() < .8 else [r.choice([0, 255])] * n
    given = r.choice([bytes, bytearray])(data)
    cut = r.choice([0, n, n // 2, max(0, n - 1), r.randint(0, n)])
    def go():
        b = compress(given)
        return list(b), list(expand(b, n) if r.random() < .7 else expand(b)), list(expand(b, cut))
    ok, res = core.guarded(go)
    b, back, part = res if ok == "ok" else ([], [], [])
    return dict(kind="store", follow=follow, ok=ok == "ok", b=b if follow else [], size=n, orig=data, out=back, back=back, part=part, cut=cut,
                inp=dict(size=n, data=data[:64], error=None if ok == "ok" else str(res)[:300]))


def coded(r, data):
    """a stream of exactly these bytes: literals and the references a search finds"""
    toks, i = [], 0
    while i < len(data):
        best = (0, 0)
        if r.random() < .7:
            for x in range(0, min(i, 40)):
                ln = 0
                while ln < 256 and i + ln < len(data) and data[i + ln] == data[i + ln - 1 - x]:
                    ln += 1
                best = max(best, (ln, x))
        if best[0] >= 3:
            toks.append((best[0] + 253, best[1]))
            i += best[0]
        else:
            toks.append((data[i], 0))
            i += 1
    toks.append((510, 0))
    out, k = "", 0
    while k < len(toks):
        m = len(toks) - k if r.random() < .6 else r.randint(1, len(toks) - k)
        out += block(r, toks[k:k + m])
        k += m
    return pack_bits(out)


def hus_case(r, n):
    from pyembroidery import EmbPattern, HusReader
    from .threads import rgb_of
    from .formats import entry, spoil
    cmds, xs, ys = [], [], []
    for _ in range(n):
        cmds.append(r.choice([0x80] * 6 + [0x81, 0x81, 0x84, 0x88, 0x88]))
        z = r.random() < .3
        xs.append(0 if z else r.choice([0, 1, 255, 127, 128, 129, r.randrange(256)]))
        ys.append(0 if z else r.choice([0, 1, 255, 127, 128, 129, r.randrange(256)]))
    k = r.random()
    if k < .5:
        cmds.append(0x90); xs.append(0); ys.append(0)
        if r.random() < .3:
            cmds.append(0x80); xs.append(5); ys.append(5)
    idx = [entry(r, 0, 28) for _ in range(r.randint(0, 5))]
    st = [coded(r, l) for l in (cmds, xs, ys)]
    head = 0x2A + 2 * len(idx) + r.choice([0, 0, 7])
    offs = [head, head + len(st[0]), head + len(st[0]) + len(st[1])]
    f = struct.pack("<III4hIII", 0x00C8AF5B, len(cmds), len(idx), r.randint(-300, 300), 40, -50, 60, *offs)
    f += r.choice([b"abcdefgh", bytes(8)]) + struct.pack("<H", 0) + b"".join(struct.pack("<H", i) for i in idx)
    f += bytes(head - len(f)) + b"".join(bytes(s) for s in st)
    def go():
        p = EmbPattern()
        HusReader.read(io.BytesIO(f), p)
        seen = [[int(s[0]), int(s[1]), int(s[2]) & 0xFF] for s in p.stitches], [rgb_of(t) for t in p.threadlist]
        spoil(p)
        return seen
    ok, res = core.guarded(go)
    out, thr = res if ok == "ok" else ([], [])
    return dict(kind="hus", ok=ok == "ok", cmds=cmds, xs=xs, ys=ys, out=out, thr=thr, wthr=idx,
                inp=dict(file=list(f), error=None if ok == "ok" else str(res)[:300]))


def drive_hus(seed, n):
    def go():
        r = random.Random(seed)
        return [hus_case(r, r.randint(0, 20)) for _ in range(n)]
    return core.in_child(go)


def check_p23(run):
    run.model("CompressMC", deeper=dict(N=4))
    def go():
        r = random.Random(run.seed * 97 + 23)
        out = [stream_case(r, r.choice([1, 1, 2, 3, 5, 8, 13, 30, 80])) for _ in range(run.n(350, 3000))]
        out += [stream_case(r, 0) for _ in range(run.n(60, 400))]
        out += [stream_case(r, n) for n in (300, 600, 1000) for _ in range(run.n(2, 20))]
        return out
    run.suite("expand.streams", "CompressTrace", core.in_child(go), chunk=800)
    def stored():
        r = random.Random(run.seed * 97 + 24)
        small = list(range(0, 20)) + [254, 255, 256, 257, 258, 300, 511, 512, 513]
        big = [768, 1000, 1024, 1280, 4096, 0x1234, 0x7FFF, 0x8000, 65534, 65535, 65536, 65537, 66000] + [r.randint(20, 70000) for _ in range(run.n(4, 40))]
        if run.thorough:
            big += list(range(600, 3000, 7)) + [131070, 131071, 140000]
        return [store_case(r, n, True) for n in small] + [store_case(r, n, False) for n in big]
    run.suite("expand.stored", "CompressTrace", core.in_child(stored))
    def files():
        r = random.Random(run.seed * 97 + 25)
        return [hus_case(r, r.randint(0, 30)) for _ in range(run.n(150, 1500))] + [hus_case(r, n) for n in (200, 500) for _ in range(run.n(2, 10))]
    run.suite("hus.files", "CompressTrace", core.in_child(files))
