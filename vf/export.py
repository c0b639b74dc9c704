"""Exports: the template writer (P22)."""
import io, random
from .cmds import *
from . import core
from .pattern import make, threads, body_of
from .texts import NAMES
from .writes import Sink

WRAPS = ["document_start", "document_end", "color_start", "color_end", "color_join", "block_start", "block_end", "block_join", "segment_start", "segment_join", "segment_end"]
SEGS = ["segment", "stitch", "jump", "trim", "stop", "end", "color_change", "needle_set", "slow", "fast", "sequin_mode", "sequin"]
HOLD = ["index", "x", "y", "dx", "dy", "idx", "idy", "ix", "iy", "last_x", "last_y", "z", "cmd", "cmd_thread", "cmd_needle", "cmd_order",
        "document_index", "color_index", "block_index", "_x", "_y", "_idx", "_idy", "_ix", "_iy", "_last_x", "_last_y",
        "document_index1", "color_index1", "block_index1"]
WHOLE = {"index", "cmd", "cmd_thread", "cmd_needle", "cmd_order", "document_index", "color_index", "block_index", "document_index1", "color_index1", "block_index1"}
STATS = ["stitch_total", "thread_total", "extents_left", "extends_top", "extends_right", "extends_bottom", "extends_width", "extends_height",
         "extents_left_mm", "extends_top_mm", "extends_right_mm", "extends_bottom_mm", "extends_width_mm", "extends_height_mm"]
COUNTS = {n: n.lower() + "_count" for n in NAMES}
GEN_W = {STITCH: 6, JUMP: 2, TRIM: 2, COLOR_CHANGE: 2, STOP: 1, END: .7, NEEDLE_SET: .7, SLOW: .4, FAST: .4, SEQUIN_MODE: .3, SEQUIN_EJECT: .4,
         pack(STITCH, 1, 3): 1, pack(STITCH, None, 2): .6, pack(COLOR_CHANGE, 2, 5, 1): .5, pack(NEEDLE_SET, None, 3): .4,
         0x3F: .25, 0xFE: .1}            # codes without a name
TEXTS = ["brand", "catalog_number", "chart", "details", "weight"]
SEP = "\x1f"


def number(name, text):
    if text == "None":
        return 0 if name.startswith("cmd_") else 999999937
    if name in WHOLE:
        return int(text) + (1 if name.startswith("cmd_") else 0)
    return milli(float(text))


def generic_case(r, q, T):
    from pyembroidery import EmbPattern, GenericWriter
    if q and q[0][2] & 0xFF in (0x3F, 0xFE):    # outside any document there is no number of it
        q = [[q[0][0], q[0][1], JUMP]] + q[1:]
    thr = [t & 0xFFFFFF for t in threads(r)]
    ext = {}
    for k in ("name", "author", "other key"):
        if r.random() < .4:
            ext[k] = r.choice(["a", "b{x}", "ü", ""])
    p = make(q, thr, ext)
    for t in p.threadlist:
        for a in TEXTS:
            if r.random() < .4:
                setattr(t, a, r.choice(["a", "b c", "{x}", "40", "ü", ""]))
    st = dict(encode=False)
    for t in T:
        if t[-2:] in ("_3", "_x"):
            continue
        if t == "pattern_start":
            names = sorted(COUNTS)
            st[t] = SEP.join(["@first"] + ["{%s}" % s for s in STATS] + ["{%s}" % COUNTS[n] for n in names]) + "\n"
        elif t == "pattern_end":
            st[t] = "@last\n"
        elif t == "thread_entry":
            st[t] = SEP.join(["@thread", "{thread_index}", "{thread_color}", "{thread_description}", "{thread_red}", "{thread_green}", "{thread_blue}"]
                             + ["{thread_%s}" % a for a in TEXTS]) + "\n"
        elif t == "metadata_entry":
            st[t] = SEP.join(["@meta", "{metadata_index}", "{metadata_key}", "{metadata_value}"]) + "\n"
        else:
            st[t] = SEP.join([t, "{cmd_str}", "{command}"] + ["{%s}" % h for h in HOLD]) + "\n"
    for t in sorted(T):
        if t.endswith("_3"):            # a template of its own for needle 3
            n = t[:-2]
            st[n] = {None: (r.choice(["{cmd_needle}", "{cmd_needle}{cmd_needle}"]), st[n]), "3": t + st[n][len(n):], "33": t + st[n][len(n):], "4": "!"}
            if st[n][None][0] == "{cmd_needle}":
                st[n]["33"] = "!"
        elif t.endswith("_x"):          # one of its own for a place
            n = t[:-2]
            st[n] = {None: ("{x}", st[n]), "30": t + st[n][len(n):], "30.0": t + st[n][len(n):], "": "!"}
    zinc = 10.0
    if r.random() < .4:
        st["stitch_z_travel"] = zinc = r.choice([0.0, 2.5, -1.0, 7])
    names = sorted(COUNTS)

    def go():
        out = Sink()
        EmbPattern.write_embroidery(GenericWriter, p, out, dict(st))
        toks, first, last, stats, counts, ths, meta, good = [], 0, 0, [], [], [], [], True
        lines = out.getvalue().decode("utf8").split("\n")
        assert lines[-1] == ""
        for k, line in enumerate(lines[:-1]):
            f = line.split(SEP)
            if f[0] == "@first":
                first += 1
                stats = [int(f[1]), int(f[2])] + [milli(float(v)) for v in f[3:15]]
                counts = [[dict(NAMES)[n], int(v)] for n, v in zip(names, f[15:])]
                good = good and k == 0
            elif f[0] == "@last":
                last += 1
                good = good and k == len(lines) - 2
            elif f[0] == "@thread":
                rgb = [int(v) for v in f[4:7]]
                ths.append([int(f[1]), int(f[2][1:], 16)])
                good = good and (rgb[0] << 16 | rgb[1] << 8 | rgb[2]) == ths[-1][1] and f[3] == "None" and not toks and f[7:] == [str(getattr(p.threadlist[int(f[1])], a)) for a in TEXTS]
            elif f[0] == "@meta":
                meta.append([int(f[1])] + f[2:])
                good = good and not toks and not ths
            else:
                v = [number(h, t) for h, t in zip(HOLD, f[3:])]
                good = good and f[1] == next((n for n, c in NAMES.items() if c == v[12]), f[1]) and len(f) == 3 + len(HOLD) and f[2] == str(q[v[0]][2])
                toks.append([f[0], v])
        return toks, first, last, stats, counts, ths, meta, good
    ok, res = core.guarded(go)
    toks, first, last, stats, counts, ths, meta, good = res if ok == "ok" else ([], 0, 0, [], [], [], [], True)
    return dict(kind="template", ok=ok == "ok", q=[spec_stitch(s) for s in q], T=sorted(T), zinc=milli(zinc), thr=[[i, t] for i, t in enumerate(thr)],
                ext=[[i, k, v] for i, (k, v) in enumerate(ext.items())], out=toks, first=first, last=last, stats=stats, counts=counts, threads=ths, meta=meta,
                names=good, inp=dict(design=q, threads=thr, extras=ext, settings={k: repr(v) for k, v in st.items()}, error=None if ok == "ok" else res))


def templates(r):
    k = r.random()
    if k < .25:
        T = set(WRAPS + SEGS)
    elif k < .5:
        T = set(WRAPS) | set(r.sample(SEGS, r.randint(1, len(SEGS))))
    else:
        T = {t for t in WRAPS if r.random() < .7} | {t for t in SEGS if r.random() < .6}
    T |= {t for t in ("pattern_start", "pattern_end", "thread_entry", "metadata_entry") if r.random() < .5}
    for s in SEGS:
        if s in T and r.random() < .2:
            T.add(s + "_3")
        elif s in T and r.random() < .15:
            T.add(s + "_x")
    return T


def half(r):
    return r.choice([0, 0, .5, 1.5, 2.5, -1.5, 30, -121, 7, r.randint(-500, 500) / 2.0])


def check_p22(run):
    run.model("GenericMC", deeper=dict(N=6))

    def go():
        from .pattern import all_bodies
        r = random.Random(run.seed * 131 + 22)
        out = []
        for q in all_bodies([STITCH, TRIM, COLOR_CHANGE, END], run.n(4, 5)):
            out.append(generic_case(r, q, templates(r)))
        for _ in range(run.n(400, 4000)):
            out.append(generic_case(r, body_of(r, r.randint(0, 14), GEN_W, half, uniq=False), templates(r)))
        for n in (100, 250):
            out.append(generic_case(r, body_of(r, n, GEN_W, half, uniq=False), templates(r)))
        return out
    run.suite("template.texts", "GenericTrace", core.in_child(go))
