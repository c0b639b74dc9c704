"""Encoder checks (P01-P05, P07): real transcoder runs judged by spec/EncTrace.tla,
the specification itself model-checked by spec/EncoderMC.tla."""
import math, random
from .cmds import *
from . import core

INF = 1000000000

ROTS = [(90, 0, 1, 0), (180, -1, 0, 0), (270, 0, -1, 0), (-90, 0, -1, 0),
        (math.degrees(math.atan2(4, 3)), .6, .8, 1), (math.degrees(math.atan2(3, 4)), .8, .6, 1),
        (-math.degrees(math.atan2(4, 3)), .6, -.8, 1), (math.degrees(math.atan2(24, 7)), .28, .96, 2)]
# (sx, sy, decimal digits used, doublings used)
SCALES = [(2, 2, 0, 1), (.5, .5, 1, 1), (-1, 1, 0, 0), (1, -1, 0, 0), (2, .5, 1, 1), (-1, -1, 0, 0), (1, 4, 0, 2)]


class Gen:
    """Random designs for the encoder: x, y, flag, thread, needle, order."""

    def __init__(self, rng, weights, maxlen=14, coord=60, grid=1, attrs=0.0, digits=3):
        self.r = rng
        self.w = list(weights.items())
        self.maxlen, self.coord, self.grid, self.attrs, self.digits = maxlen, coord, grid, attrs, digits

    def pt(self):
        r = self.r
        k = r.random()
        m = self.coord if k < .8 else self.coord // 8 + 1
        return (r.randint(-m, m) * self.grid, r.randint(-m, m) * self.grid)

    def design(self):
        r = self.r
        n = r.randint(1, self.maxlen)
        out = []
        digits = self.digits
        dbl = 2
        last = (0, 0)
        for _ in range(n):
            f = r.choices([a for a, _ in self.w], [b for _, b in self.w])[0]
            x, y = self.pt()
            if r.random() < .12:
                x, y = last
            elif r.random() < .15:
                x, y = last[0], y
            t = ne = o = None
            if f in (COLOR_CHANGE, NEEDLE_SET, COLOR_BREAK, SET_CHANGE_SEQUENCE):
                if r.random() < self.attrs:
                    t = r.randint(0, 4)
                if r.random() < self.attrs:
                    ne = r.randint(0, 7)
                if f == SET_CHANGE_SEQUENCE and r.random() < .7:
                    o = r.randint(0, 4)
            elif f in (STITCH, JUMP, SEQUIN_EJECT, TRIM, NEEDLE_AT, SEW_TO) and r.random() < self.attrs * .2:
                t = r.randint(0, 3)
            if f in (M_SCALE, M_SCALE_O):
                s = r.choice([s for s in SCALES if s[2] <= digits and s[3] <= dbl])
                digits -= s[2]
                dbl -= s[3]
                x, y = s[0], s[1]
            elif f in (M_ROTATE, M_ROTATE_O):
                s = r.choice([s for s in ROTS if s[3] <= digits])
                digits -= s[3]
                x, y = s[0], 0
            elif f in (OPT_MAX_STITCH, OPT_MAX_JUMP):
                x, y = r.choice([5, 7, 10, 12.5, 31, 40, 121]), 0
            elif f in (M_TRANSLATE,):
                pass
            elif 0xD0 <= f or f in (M_RESET,):
                pass
            if f in (STITCH, JUMP, SEW_TO, NEEDLE_AT, SEQUIN_EJECT):
                last = (x, y)
            out.append((x, y, f, t, ne, o))
        return out


def spec_src(src):
    q = []
    for x, y, f, t, n, o in src:
        a = unpack(pack(f, t, n, o)) if f != NO_COMMAND else [255, 0, 0, 0]
        if f in (M_SCALE, M_SCALE_O):
            xy = [int(round(x * 10000)), int(round(y * 10000))]
        elif f in (M_ROTATE, M_ROTATE_O):
            xy = [int(round(math.cos(math.radians(x)) * 10000)), int(round(math.sin(math.radians(x)) * 10000))]
        else:
            xy = [milli(x), milli(y)]
        q.append(xy + a)
    return q


def spec_cfg(s):
    """what the documented defaults make of a settings dict"""
    def lim(v):
        return INF if v is None or v == float("inf") else milli(v)
    seq = s.get("sequin_contingency", SEQ_JUMP if s.get("strip_sequins", True) else SEQ_UTIL)
    tr = s.get("translate") or (0, 0)
    sc = s.get("scale") if s.get("scale") is not None else (1, 1)
    if not isinstance(sc, (tuple, list)):
        sc = (sc, sc)
    ro = s.get("rotate") or 0
    return dict(ms=lim(s.get("max_stitch")), mj=lim(s.get("max_jump")), full=bool(s.get("full_jump", False)),
                round=bool(s.get("round", False)), needles=s.get("needle_count", 5),
                tcc=s.get("thread_change_command", COLOR_CHANGE), seq=seq,
                speeds=bool(s.get("writes_speeds", True)), explicit=bool(s.get("explicit_trim", False)),
                tieon=s.get("tie_on", TIE_ON_NONE) in (True, TIE_ON_SMALL) and s.get("tie_on") is not False,
                tieoff=s.get("tie_off", TIE_OFF_NONE) in (True, TIE_OFF_SMALL) and s.get("tie_off") is not False,
                long=s.get("long_stitch_contingency", LONG_JUMP),
                translate=[milli(tr[0]), milli(tr[1])], scale=[int(round(sc[0] * 10000)), int(round(sc[1] * 10000))],
                rot=[int(round(math.cos(math.radians(ro)) * 10000)), int(round(math.sin(math.radians(ro)) * 10000))])


CFG_KEYS = dict(max_stitch="ms", max_jump="mj", full_jump="full", round="round", needle_count="needles",
                thread_change_command="tcc", sequin_contingency="seq", writes_speeds="speeds", explicit_trim="explicit",
                tie_on="tieon", tie_off="tieoff", long_stitch_contingency="long", translate="translate", scale="scale", rotate="rot")


def spec_over(s):
    """the fields of a specification configuration that the caller's settings determine"""
    c = spec_cfg(s)
    return {CFG_KEYS[k]: c[CFG_KEYS[k]] for k in s if k in CFG_KEYS}


def build(src, nth):
    from pyembroidery import EmbPattern, EmbThread
    p = EmbPattern()
    p.threadlist.extend(EmbThread(0x010203 * (i + 1)) for i in range(nth))
    for x, y, f, t, n, o in src:
        p.stitches.append([x, y, NO_COMMAND if f == NO_COMMAND else pack(f, t, n, o)])
    return p


def drive(jobs):
    """jobs: (settings, src, nthreads, tol, bounded, name) -> cases"""
    def go():
        from pyembroidery import EmbPattern, EmbThread
        cases = []
        for settings, src, nth, tol, bounded, name in jobs:
            p = EmbPattern()
            ths = [EmbThread(0x010203 * (i + 1)) for i in range(nth)]
            p.threadlist.extend(ths)
            for x, y, f, t, n, o in src:
                p.stitches.append([x, y, NO_COMMAND if f == NO_COMMAND else pack(f, t, n, o)])
            st, res = core.guarded(lambda: p.get_normalized_pattern(dict(settings)))
            ids = {id(t): i + 1 for i, t in enumerate(ths)}
            out, thr = [], []
            if st == "ok":
                out = [spec_stitch(s) for s in res.stitches]
                thr = [ids.get(id(t), 0) for t in res.threadlist]
                # a thread equal to a source thread by value counts as that thread
                for k, t in enumerate(res.threadlist):
                    if thr[k] == 0:
                        for i, s in enumerate(ths):
                            if s.color == t.color and t.description == s.description:
                                thr[k] = i + 1
            cases.append(dict(name=name, inp=dict(settings={k: repr(v) for k, v in settings.items()},
                                                  src=[list(s) for s in src], threads=nth,
                                                  error=None if st == "ok" else res),
                              cfg=spec_cfg(settings), src=spec_src(src), tl=list(range(1, nth + 1)), tol=tol,
                              bounded=bounded, ok=st == "ok", out=out, thr=thr))
        return cases
    return core.in_child(go)


CORE_W = {STITCH: 12, JUMP: 4, TRIM: 3, STOP: 1.2, COLOR_CHANGE: 1.5, COLOR_BREAK: 1.5, STITCH_BREAK: 2,
          SEQUENCE_BREAK: 1.5, NEEDLE_AT: 2, SEW_TO: 2, SEQUIN_EJECT: 1.2, SEQUIN_MODE: .8, FRAME_EJECT: .8,
          END: .5, SLOW: .5, FAST: .5, NEEDLE_SET: .6, NO_COMMAND: .4}


def rand_settings(r, over=()):
    s = {}
    if r.random() < .8:
        s["max_stitch"] = r.choice([7, 10, 12.5, 31, 40, 121, 127, 2047])
        if r.random() < .85:
            s["max_jump"] = (s["max_stitch"] if r.random() < .6 else s["max_stitch"] * 3 if r.random() < .5
                             else min(s["max_stitch"], r.choice([5, 7, 10, 31])))
    elif r.random() < .5:
        s["max_jump"] = r.choice([7, 10, 31])
    if r.random() < .5:
        s["full_jump"] = r.random() < .8
    if r.random() < .5:
        s["round"] = r.random() < .9
    if r.random() < .35:
        s["long_stitch_contingency"] = r.choice([LONG_SEW, LONG_JUMP, LONG_NONE])
    if r.random() < .5:
        s["sequin_contingency"] = r.choice([SEQ_UTIL, SEQ_UTIL, SEQ_JUMP, SEQ_STITCH, SEQ_REMOVE])
    elif r.random() < .3:
        s["strip_sequins"] = r.random() < .5
    if r.random() < .3:
        s["explicit_trim"] = r.random() < .7
    if r.random() < .3:
        s["writes_speeds"] = r.random() < .4
    if r.random() < .3:
        s["thread_change_command"] = r.choice([COLOR_CHANGE, NEEDLE_SET, STOP])
    if r.random() < .3:
        s["needle_count"] = r.choice([1, 2, 3, 7, 12, 15, 20, 254])
    s.update(over)
    return s


def bounded(s, src):
    ms, mj = s.get("max_stitch", float("inf")), s.get("max_jump", float("inf"))
    fixed = not any(c[2] in (OPT_MAX_JUMP, OPT_MAX_STITCH, LONG_NONE) for c in src)
    # rounding after division of a gap keeps the bound only for whole limits
    return bool(fixed and mj <= ms and mj < INF and s.get("long_stitch_contingency", LONG_JUMP) != LONG_NONE
                and ms < 1e9)


def jobs_for(r, n, gen, over=(), tol=3, settings=rand_settings, half=False):
    jobs = []
    for k in range(n):
        s = settings(r, over)
        g = gen(r)
        src = g.design()
        jobs.append((s, src, r.choice([0, 1, 2, 3, 4, 5]), tol, bounded(s, src), None))
    return jobs


def small_exhaustive(alphabet, length, settings_list, nth=2):
    """every sequence of up to `length` commands of an alphabet of (x,y,flag,t,n,o)"""
    import itertools
    jobs = []
    for n in range(1, length + 1):
        for q in itertools.product(alphabet, repeat=n):
            for s in settings_list:
                jobs.append((s, list(q), nth, 3, bounded(s, q), None))
    return jobs


def c(f, x=0, y=0, t=None, n=None, o=None):
    return (x, y, f, t, n, o)


ALPHA = [c(STITCH, 20, 0), c(STITCH, 20, -26), c(JUMP, -15, 4), c(TRIM), c(COLOR_BREAK), c(COLOR_CHANGE),
         c(STITCH_BREAK), c(SEQUIN_EJECT, 5, 5), c(STOP), c(END)]


def check_p01(run):
    run.model("EncoderMC", "EncoderMC_core", idle_ok=['Option'], deeper=dict(N=5))
    r = random.Random(run.seed * 7919 + 1)
    jobs = small_exhaustive(ALPHA, 3, [dict(max_stitch=10, max_jump=10, full_jump=True, round=True)])
    jobs += jobs_for(r, run.n(1200), lambda r: Gen(r, CORE_W, grid=r.choice([1, 1, .5, .25])))
    lock = dict(CORE_W); lock.update({TIE_ON: 1, TIE_OFF: 1})
    jobs += jobs_for(r, run.n(300), lambda r: Gen(r, lock, coord=28), over=dict(tie_on=True, tie_off=True), tol=40)
    jobs += jobs_for(r, run.n(300), lambda r: Gen(r, CORE_W, maxlen=40, coord=300, grid=r.choice([1, .5])))
    jobs += jobs_for(r, run.n(10, 60), lambda r: Gen(r, CORE_W, maxlen=600, coord=300, grid=r.choice([1, .5])))
    run.suite("encode.core", "EncTrace", drive(jobs), clauses=["P01."])


def check_p02(run):
    run.model("EncoderMC", "EncoderMC_long", idle_ok=['Control', 'Change', 'Option'], deeper=dict(N=5))
    r = random.Random(run.seed * 7919 + 2)
    w = {STITCH: 10, JUMP: 6, TRIM: 2, COLOR_CHANGE: 1, SEW_TO: 3, NEEDLE_AT: 3, STITCH_BREAK: 1, SEQUIN_EJECT: 2,
         OPT_MAX_STITCH: 1, OPT_MAX_JUMP: 1, LONG_SEW: 1, LONG_JUMP: 1, LONG_NONE: .4, FRAME_EJECT: .7, STOP: 1}
    wf = {k: v for k, v in w.items() if k not in (OPT_MAX_STITCH, OPT_MAX_JUMP, LONG_NONE)}

    def sets(r, over):
        s = rand_settings(r, over)
        s["max_stitch"] = r.choice([7, 10, 12.5, 31, 40, 121, 127, 255, 2047, 3.25])
        s["max_jump"] = s["max_stitch"] if r.random() < .6 else r.choice([m for m in [3, 5, 7, 10, 31, 121] if m <= s["max_stitch"]] or [s["max_stitch"]])
        if s.get("long_stitch_contingency") == LONG_NONE and r.random() < .7:
            del s["long_stitch_contingency"]
        return s
    jobs = jobs_for(r, run.n(900), lambda r: Gen(r, w, coord=r.choice([30, 120, 400]), grid=r.choice([1, .5])), settings=sets)
    jobs += jobs_for(r, run.n(900), lambda r: Gen(r, wf, coord=r.choice([60, 400, 1200]), maxlen=8), settings=sets)
    jobs += jobs_for(r, run.n(10, 60), lambda r: Gen(r, w, coord=400, maxlen=600), settings=sets)
    # every displacement around multiples of the limit, on one axis, both axes
    L = 10
    for dx in [0, 1, 9, 10, 11, 19, 20, 21, 29, 30, 31, -9, -10, -11, -20, -21, 100, 101]:
        for dy in [0, 5, 10, 11, -10, -11, 20, -20, 21, 30, -31, 100]:
            for f in (STITCH, JUMP, SEW_TO):
                src = [c(STITCH, 0, 0), c(f, dx, dy), c(STITCH, dx, dy)]
                for full in (True, False):
                    s = dict(max_stitch=L, max_jump=L, full_jump=full)
                    jobs.append((s, src, 1, 3, True, None))
    # and a hair over or under a multiple of a long limit
    for L in (100, 121, 1000, 2047):
        for k in (1, 2, 3, 7):
            for d in (-.5, -.125, 0, .125, .25):
                for f in (STITCH, JUMP, SEW_TO, SEQUIN_EJECT):
                    v = r.choice([1, -1]) * (k * L + d)
                    x, y = r.choice([(v, 0), (0, v), (v, -v), (v, 5), (-3, v), (v, v + .125)])
                    jobs.append((dict(max_stitch=L, max_jump=L, full_jump=r.random() < .5), [c(STITCH, 0, 0), c(f, x, y), c(STITCH, x, y)], 1, 3, True, None))
    run.suite("encode.long", "EncTrace", drive(jobs), clauses=["P02."])


def check_p03(run):
    run.model("EncoderMC", "EncoderMC_thread", idle_ok=['Travel1', 'Option'], deeper=dict(N=5))
    r = random.Random(run.seed * 7919 + 3)
    w = {STITCH: 8, COLOR_CHANGE: 3, COLOR_BREAK: 4, NEEDLE_SET: 2, SET_CHANGE_SEQUENCE: 2, TRIM: 1, JUMP: 2,
         STOP: 1, TIE_ON: .5, SEQUIN_EJECT: .7, SEW_TO: .7, NEEDLE_AT: .7, END: .4, SEQUENCE_BREAK: .5, STITCH_BREAK: .5}

    def sets(r, over):
        s = rand_settings(r, over)
        s["thread_change_command"] = r.choice([COLOR_CHANGE, COLOR_CHANGE, NEEDLE_SET, STOP])
        s["needle_count"] = r.choice([1, 2, 3, 5, 7, 10])
        if r.random() < .2:
            del s["needle_count"]         # five
        return s
    jobs = jobs_for(r, run.n(900), lambda r: Gen(r, w, attrs=.5), settings=sets)
    jobs += jobs_for(r, run.n(500), lambda r: Gen(r, w, attrs=.5, maxlen=30), settings=sets)
    alpha = [c(STITCH, 5, 0), c(COLOR_BREAK), c(COLOR_CHANGE), c(NEEDLE_SET, 0, 0, None, 3), c(SEQUENCE_BREAK),
             c(COLOR_CHANGE, 0, 0, 1, None), c(TIE_ON), c(END), c(SET_CHANGE_SEQUENCE, 0, 0, 2, None, 1)]
    jobs += small_exhaustive(alpha, 3, [dict(), dict(thread_change_command=NEEDLE_SET, needle_count=2, explicit_trim=True)], nth=3)
    # many changes: needle wrap and long thread lists
    for nc in (1, 2, 5, 12):
        for tcc in (COLOR_CHANGE, NEEDLE_SET, STOP):
            src = []
            for k in range(15):
                src += [c(STITCH, k, k), c(COLOR_BREAK if k % 2 else COLOR_CHANGE)]
            jobs.append((dict(needle_count=nc, thread_change_command=tcc), src, 9, 3, False, None))
    jobs += jobs_for(r, run.n(10, 60), lambda r: Gen(r, w, attrs=.1, maxlen=600), settings=sets)
    run.suite("encode.threads", "EncTrace", drive(jobs), clauses=["P03."])


def check_p04(run):
    run.model("EncoderMC", "EncoderMC_control", idle_ok=['Option'], deeper=dict(N=5))
    r = random.Random(run.seed * 7919 + 4)
    w = {STITCH: 8, JUMP: 3, TRIM: 3, STOP: 1, COLOR_CHANGE: 1.5, COLOR_BREAK: 1.5, SEQUENCE_BREAK: 2, FRAME_EJECT: 1,
         SEQUIN_EJECT: 4, SEQUIN_MODE: 2, STITCH_BREAK: 1, END: 1, OPT_EXPLICIT: .5, OPT_IMPLICIT: .5, SEW_TO: 1,
         SEQ_UTIL: .7, SEQ_JUMP: .4, SEQ_STITCH: .4, SEQ_REMOVE: .4, NO_COMMAND: 1, TIE_ON: .4, TIE_OFF: .4,
         M_TRANSLATE: .3, SET_CHANGE_SEQUENCE: .4, NEEDLE_SET: .5, SLOW: .4, FAST: .4, 0x20: .2, 0x99: .2}

    def sets(r, over):
        s = rand_settings(r, over)
        s.pop("strip_sequins", None)
        s["sequin_contingency"] = r.choice([SEQ_UTIL, SEQ_UTIL, SEQ_UTIL, SEQ_JUMP, SEQ_STITCH, SEQ_REMOVE])
        return s
    jobs = jobs_for(r, run.n(1200), lambda r: Gen(r, w, coord=r.choice([8, 40])), settings=sets)
    alpha = [c(STITCH, 20, 0), c(SEQUIN_EJECT, 5, 5), c(SEQUIN_MODE), c(TRIM), c(JUMP, -30, 4), c(SEQUENCE_BREAK),
             c(END), c(FRAME_EJECT, 9, 9), c(COLOR_CHANGE), c(STOP)]
    jobs += small_exhaustive(alpha, 3, [dict(max_stitch=10, max_jump=10, full_jump=True, sequin_contingency=SEQ_UTIL)])
    jobs += [(dict(), [], 0, 3, False, None)]
    jobs += jobs_for(r, run.n(10, 60), lambda r: Gen(r, w, coord=40, maxlen=600), settings=sets)
    run.suite("encode.control", "EncTrace", drive(jobs), clauses=["P04."])


def check_p05(run):
    run.model("EncoderMC", "EncoderMC_option", idle_ok=['Travel1'], deeper=dict(N=5))
    r = random.Random(run.seed * 7919 + 5)
    w = {STITCH: 10, JUMP: 2, TRIM: 3, STOP: .5, COLOR_CHANGE: 1, COLOR_BREAK: 1, SEQUENCE_BREAK: 1.5, SEQUIN_EJECT: 2,
         SEQUIN_MODE: .5, TIE_ON: 1, TIE_OFF: 1, TIE_ON_SMALL: 1, TIE_OFF_SMALL: 1, TIE_ON_NONE: .7, TIE_OFF_NONE: .7,
         OPT_MAX_STITCH: .7, OPT_MAX_JUMP: .5, OPT_EXPLICIT: .8, OPT_IMPLICIT: .6, LONG_NONE: .5, LONG_JUMP: .5,
         LONG_SEW: .8, SEQ_UTIL: .6, SEQ_JUMP: .4, SEQ_STITCH: .5, SEQ_REMOVE: .4, SLOW: .7, FAST: .7, NEEDLE_AT: .7,
         SEW_TO: .7, STITCH_BREAK: .6, FRAME_EJECT: .4}

    def sets(r, over):
        s = rand_settings(r, over)
        for k in ("tie_on", "tie_off"):
            v = r.choice([None, True, False, TIE_ON_SMALL if k == "tie_on" else TIE_OFF_SMALL,
                          TIE_ON_NONE if k == "tie_on" else TIE_OFF_NONE])
            if v is not None:
                s[k] = v
        return s
    jobs = jobs_for(r, run.n(1500), lambda r: Gen(r, w, coord=r.choice([6, 28, 28, 60])), settings=sets, tol=40)
    jobs += jobs_for(r, run.n(300), lambda r: Gen(r, w, coord=28, maxlen=40), settings=sets, tol=40)
    # each option once, before / between / after, as setting or command
    base = [c(STITCH, 0, 0), c(STITCH, 20, 15), c(TRIM), c(STITCH, 40, -15), c(SEQUIN_EJECT, 44, -10), c(COLOR_CHANGE),
            c(SLOW), c(STITCH, 5, 5), c(STITCH, 9, 9), c(COLOR_BREAK), c(STITCH, 0, 1)]
    for f in (TIE_ON_SMALL, TIE_OFF_SMALL, OPT_EXPLICIT, LONG_SEW, LONG_NONE, SEQ_UTIL, SEQ_STITCH, SEQ_REMOVE, SEQ_JUMP):
        for pos in range(len(base) + 1):
            for lim in (10, 40):
                jobs.append((dict(max_stitch=lim, max_jump=lim), base[:pos] + [c(f)] + base[pos:], 2, 40, False, None))
    # a lock point: what stands before, the command that asks for it, what stands after
    around = [c(STITCH, 30, 60), c(SEQUIN_EJECT, 60, -30), c(JUMP, 9, 70), c(STITCH_BREAK), c(M_TRANSLATE, 8, 1), c(SLOW), c(NEEDLE_AT, -48, 0)]
    for x in around:
        for ask in (c(TIE_OFF), c(TIE_ON), c(TRIM), c(COLOR_CHANGE), c(SEQUENCE_BREAK)):
            for y in around:
                k = r.randrange(6)
                ms, mj = [(10, 40), (40, 10), (10, 10), (25, 100), (500, 500), (12.5, 31)][k]
                jobs.append((dict(max_stitch=ms, max_jump=mj, tie_on=True, tie_off=True,
                                  sequin_contingency=r.choice([SEQ_REMOVE, SEQ_REMOVE, SEQ_STITCH, SEQ_UTIL]),
                                  long_stitch_contingency=r.choice([LONG_NONE, LONG_SEW])),
                             [c(STITCH, 0, 0), c(STITCH, 0, 8), x, ask, y, c(STITCH, 1, 1)], 2, 40, False, None))
    jobs += jobs_for(r, run.n(10, 60), lambda r: Gen(r, w, coord=28, maxlen=600), settings=sets, tol=40)
    run.suite("encode.options", "EncTrace", drive(jobs), clauses=["P05."])


def check_p07_encoder(run):
    run.model("EncoderMC", "EncoderMC_matrix", idle_ok=['Control', 'Change'], deeper=dict(N=5))
    r = random.Random(run.seed * 7919 + 7)
    w = {STITCH: 10, JUMP: 2, TRIM: 1, COLOR_CHANGE: .7, M_TRANSLATE: 2, M_SCALE_O: 1.2, M_ROTATE_O: 1.2, M_SCALE: 1.2,
         M_ROTATE: 1.2, M_RESET: .8, SEW_TO: .5, FRAME_EJECT: .3, SEQUIN_EJECT: .4}

    def sets(r, over):
        s = {}
        if r.random() < .4:
            s["translate"] = (r.randint(-30, 30), r.randint(-30, 30))
        if r.random() < .4:
            s["scale"] = r.choice([2, -1, (2, 1), (1, -1), (-1, 2), (-1, -1), 1])
        if r.random() < .4:
            s["rotate"] = r.choice([90, 180, 270, -90, ROTS[4][0], ROTS[5][0]])
        if r.random() < .5:
            s["max_stitch"] = s["max_jump"] = r.choice([10.3, 31.7, 127.9])
        return s
    jobs = jobs_for(r, run.n(1500), lambda r: Gen(r, w, coord=r.choice([5, 40]), grid=5, digits=2), settings=sets, tol=8)

    def sets2(r, over):
        s = {"round": True}
        if r.random() < .5:
            s["translate"] = (r.choice([.5, 1.25, -3, 2.75]), r.choice([.5, 0, -7.25]))
        if r.random() < .5:
            s["scale"] = r.choice([.5, 2, -1, (1, -.5), .25])
        return s
    w2 = {k: v for k, v in w.items() if k not in (M_ROTATE, M_ROTATE_O, M_SCALE)}
    jobs += jobs_for(r, run.n(400), lambda r: Gen(r, w2, coord=40, digits=0), settings=sets2, tol=8)
    run.suite("encode.matrix", "EncTrace", drive(jobs), clauses=["P07."])


def check_p07(run):
    check_p07_encoder(run)
    from . import matrix
    matrix.suites(run)
