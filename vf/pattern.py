"""Designs as values: the composition API, merging, block views, reinterpretations (P16-P20)."""
import copy, io, json, os, random, re, tempfile, shutil
from .cmds import *
from . import core
from .threads import rgb_of, write_text, read_any
from .writes import write_file, read_back

RELM = ["move", "stitch", "stop", "trim", "color_change", "needle_change", "sequin_eject", "sequin_mode", "end"]
KEYS = ["name", "author", "note"]
WORDS = ["a", "b c", "Design 7", "x", ""]
FLAGS = [STITCH, JUMP, TRIM, STOP, END, COLOR_CHANGE, SEQUIN_MODE, SEQUIN_EJECT, NEEDLE_SET, SLOW, FAST, COLOR_BREAK,
         STITCH_BREAK, SEQUENCE_BREAK, SEW_TO, NEEDLE_AT, TIE_ON, FRAME_EJECT, OPT_EXPLICIT, SEQ_UTIL, SET_CHANGE_SEQUENCE]


def coord(r):
    return r.choice([r.randint(-9, 9), r.randint(-400, 400), r.randint(-40, 40) / 4.0, 0])


def command(r):
    """a flag with attributes: the packed number and the four bytes"""
    f = r.choice(FLAGS)
    t = n = o = None
    if f in (COLOR_CHANGE, NEEDLE_SET, COLOR_BREAK, SET_CHANGE_SEQUENCE) and r.random() < .5:
        t, n, o = [r.choice([None, 0, 1, 7, 254]) for _ in range(3)]
    cmd = pack(f, t, n, o)
    return cmd, unpack(cmd)


def thread(n):
    """a thread as a number: its colour, and above it what else tells it from threads of that colour"""
    from pyembroidery import EmbThread
    t = EmbThread(n & 0xFFFFFF)
    if n >> 24:
        t.catalog_number = str(n >> 24)
    return t


def tnum(t):
    if getattr(t, "description", None) == "Random":
        return -2
    k = getattr(t, "catalog_number", None)
    return rgb_of(t) + (int(k) << 24 if k else 0)


def ext_of(p):
    return sorted([str(k), v if isinstance(v, str) else "?" + repr(v)] for k, v in p.extras.items())


def points(r, dots):
    """a list of points in one of the accepted forms"""
    k = r.choice(["flat", "complex", "tuples", "lists", "commands"])
    bare = [[x, y, unpack(STITCH)] for x, y in dots]
    if k == "flat":
        out = [v for d in dots for v in d]
        return tuple(out) if r.random() < .5 else out, bare
    if k == "complex":
        return [complex(x, y) for x, y in dots], bare
    if k == "tuples":
        return tuple((x, y) for x, y in dots), bare
    if k == "lists":
        return [[x, y] for x, y in dots], bare
    out, want = [], []
    for x, y in dots:
        if r.random() < .5:
            cmd, b = command(r)
            out.append((x, y, cmd))
            want.append([x, y, b])
        else:
            out.append((x, y))
            want.append([x, y, unpack(STITCH)])
    return out, want


def observe(r, p):
    def item(i):
        return [i, spec_stitch(p[i])]
    n = len(p.stitches)
    dec = []
    for i, (k, x, y, c, t, nd, o) in enumerate(p.get_as_stitches()):
        dec.append([milli(x), milli(y), c if k == i else 997] + [0 if v is None else v + 1 for v in (t, nd, o)])
    q = p.copy()
    fl = r.sample(FLAGS, 4)
    other = p.copy()
    k = r.randint(0, 3)
    if k == 0 and n:
        other.stitches[r.randrange(n)][r.randint(0, 1)] += 1
    elif k == 1:
        other.extras["zz"] = "1"
    elif k == 2:
        other.add_thread(0x123456)
    else:
        other.add_command(0xE1)
    nt = len(p.threadlist)
    odd = p.copy()
    value = r.choice(["", 0, 0.0, False, "0", (), 7, "x"])
    odd.metadata("odd", value)
    kept = odd.get_metadata("odd", 5) == value and odd["odd"] == value and type(odd.get_metadata("odd")) is type(value)
    return dict(q=[spec_stitch(s) for s in p.stitches], thr=[tnum(t) for t in p.threadlist], nthr=p.count_threads(),
                ext=ext_of(p), len=len(p), stitches=p.count_stitches(), bounds=[milli(v) for v in r.choice([p.bounds, p.extents, p.extends])()],
                counts=[[f, p.count_stitch_commands(f)] for f in fl], changes=p.count_color_changes(), needles=p.count_needle_sets(),
                match=[[f, [spec_stitch(s) for s in p.get_match_commands(f)]] for f in fl[:2]],
                items=[item(r.randrange(-n, n)) for _ in range(2)] if n else [], decode=dec,
                tget=[[i, tnum(p.get_thread(i))] for i in range(nt)] + [[i, tnum(p.get_thread_or_filler(i))] for i in range(nt + 1)],
                single=[tnum(t) for t in p.get_singleton_threadlist()], unique=sorted(tnum(t) for t in p.get_unique_threadlist()),
                same=p == q and not (p != q) and all(p.get_metadata(kk) == v and p[kk] == v for kk, v in p.extras.items())
                and p.get_metadata("nokey", 5) == 5 and p.get_metadata("nokey") is None and kept, other=p == other or not p != other)


def api_step(r, p, allow):
    """one call on p: (what the specification is told, the pattern afterwards)"""
    n = len(p.stitches)
    m = r.choice(allow)
    o = dict(m=m, at=False, k=0, x=0, y=0, n=0, c=[0, 0, 0, 0], l=[], s="", t="")

    def xy():
        x, y = coord(r), coord(r)
        o["x"], o["y"] = milli(x), milli(y)
        return x, y

    def some():
        """the coordinates, or as many of them as the caller cares to give"""
        x, y = xy()
        k = r.choice([2] * 7 + [0, 1])
        if k < 2:
            o["y"] = 0
        if k < 1:
            o["x"] = 0
        return (x, y)[:k]
    if m in RELM:
        x, y = xy()
        kw = {}
        if r.random() < .3 and n:
            o["at"], o["k"] = True, r.randint(-n, n)
            kw["position"] = o["k"]
        if m == "needle_change":
            o["n"] = r.randint(0, 9)
            p.needle_change(o["n"], x, y, **kw)
        elif r.random() < .2 and not kw:
            o["x"] = o["y"] = 0
            getattr(p, m)()
        elif r.random() < .1:
            o["y"] = 0
            getattr(p, m)(x, **kw)
        else:
            getattr(p, m)(x, y, **kw)
    elif m in ("move_abs", "stitch_abs"):
        x, y = xy()
        if r.random() < .3:
            o["at"], o["k"] = True, r.randint(-n - 2, n + 2)
            getattr(p, m)(x, y, o["k"])
        else:
            getattr(p, m)(x, y)
    elif m in ("add_stitch_absolute", "add_stitch_relative", "add_command", "prepend_command"):
        a = some()
        cmd, o["c"] = command(r)
        getattr(p, m)(cmd, *a)
    elif m == "insert":
        a = some()
        cmd, o["c"] = command(r)
        o["k"] = r.randint(-n - 2, n + 2)
        p.insert(o["k"], cmd, *a)
    elif m == "insert_stitch_relative":
        if not n:
            o["m"] = "query"
            return o, p
        a = some()
        cmd, o["c"] = command(r)
        o["k"] = r.randint(-n, n)
        p.insert_stitch_relative(o["k"], cmd, *a)
    elif m == "append_translation":
        x, y = xy()
        p.append_translation(x, y)
    elif m == "set_item":
        if not n:
            o["m"] = "query"
            return o, p
        x, y = xy()
        cmd, o["c"] = command(r)
        o["k"] = r.randrange(-n, n)
        p[o["k"]] = [x, y, cmd]
    elif m in ("points", "add_block"):
        form, want = points(r, [(coord(r), coord(r)) for _ in range(r.choice([0, 1, 2, 3]))])
        o["l"] = [[milli(x), milli(y), b] for x, y, b in want]
        if m == "points":
            p += form
        else:
            o["n"] = r.choice([-1, r.randint(0, 0xFFFFFF)])
            th = None if o["n"] == -1 else r.choice([thread(o["n"]), "#%06x" % o["n"]])
            if not want and r.random() < .5:
                form = None
            p.add_block(form, th) if th is not None or r.random() < .5 else p.add_block(form)
    elif m == "iadd_thread":
        o["n"] = r.randint(0, 0xFFFFFF)
        p += r.choice([thread(o["n"]), "#%06X" % o["n"]])
    elif m == "iadd_command":
        cmd, o["c"] = command(r)
        o["m"] = "add_command"
        p += cmd
    elif m == "add_thread":
        o["n"] = r.choice([0x112233, 0x445566, r.randint(0, 0xFFFFFF)])
        p.add_thread(r.choice([thread(o["n"]), "#%06x" % o["n"], o["n"]]))
    elif m == "metadata":
        o["s"], o["t"] = r.choice(KEYS), r.choice(WORDS)
        how = r.randint(0, 2)
        if how == 0:
            p.metadata(o["s"], o["t"])
        elif how == 1:
            p[o["s"]] = o["t"]
        else:
            p += (o["s"], o["t"])
    elif m == "translate":
        x, y = xy()
        p.translate(x, y)
    elif m == "center":
        p.move_center_to_origin()
    elif m == "fix_color_count":
        p.fix_color_count()
    elif m == "clear":
        p.clear()
    elif m == "copy":
        from pyembroidery import EmbPattern
        q = r.choice([lambda: p.copy(), lambda: copy.copy(p), lambda: copy.deepcopy(p), lambda: EmbPattern(p)])()
        # what happens to the original afterwards is none of the copy's business
        p.translate(5, 5)
        p.add_thread(1)
        for t in p.threadlist:
            t.color = 7
        p.metadata("name", "changed")
        p.stitch(1, 1)
        p = q
    elif m == "json":
        p = read_any("json", write_text(p, "json", dict(encode=False)))
    elif m in MORE:
        more_step(r, p, m, o)
    return o, p


MORE = ["merge", "merge_self", "transform", "stitchblock", "trims", "frame", "stop_as_dup", "dup_as_stop"]


def more_step(r, p, m, o):
    """whole-design operations in the middle of a history; o is told what they got"""
    from pyembroidery import EmbMatrix
    if m == "merge" or m == "merge_self":
        # what leads the added design is dropped either by leaving it out or by blanking it (P18)
        lead = [s for s in p.stitches if s[2] & 0xFF not in (JUMP, TRIM)][:1]
        if m == "merge_self" and (not lead or lead[0][2] & 0xFF not in SEWS or len(p.stitches) > 12 or not p.threadlist
                                  or any(tnum(t) < 0 for t in p.threadlist)):
            m = o["m"] = "merge"
        if m == "merge":
            q = blocks_design(r, r.choice([0, 1, 1, 2]))
            if q and q[0][2] & 0xFF in (COLOR_CHANGE, COLOR_BREAK, NEEDLE_SET) or not any(s[2] & 0xFF in SEWS for s in q):
                q = []
            t = threads(r, .2, r.choice([0, 1, 2]))
            if t and p.threadlist and r.random() < .4:
                t[0] = tnum(p.threadlist[-1])
            t = [v for v in t if v >= 0]
            ext = {k: r.choice(WORDS) for k in KEYS if r.random() < .2}
            B = make(q, t, ext)
        else:
            B = p
        o["b"] = dict(q=[spec_stitch(s) for s in B.stitches], thr=[tnum(v) for v in B.threadlist], ext=[list(e) for e in ext_of(B)], cur=[0, 0])
        o["mv"] = dict(t=[], s=[], r=[])
        if r.random() < .4:
            dx, dy = r.choice([(5, -3), (None, 7), (2.5, None)])
            o["mv"]["t"] = [milli(dx or 0), milli(dy or 0)]
            p.add_pattern(B, dx, dy)
        elif r.random() < .5:
            p.add_pattern(B)
        else:
            p += B
    elif m == "transform":
        a = r.choice([(1, 0, 0, 1), (-1, 0, 0, 1), (1, 0, 0, -1), (0, 1, -1, 0), (0, -1, 1, 0), (2, 0, 0, 2), (2, 0, 0, 1), (1, 0, 1, 1)])
        if any(abs(v) > 20000 for s in p.stitches for v in s[:2]):
            a = (1, 0, 0, 1)
        e, f = coord(r), coord(r)
        o["mx"] = list(a) + [milli(e), milli(f)]
        p.transform(EmbMatrix((a[0], a[1], 0, a[2], a[3], 0, e, f, 1)))
    elif m == "stitchblock":
        if p.threadlist and r.random() < .5:
            t, o["at"] = p.threadlist[-1], True
        else:
            o["n"] = r.choice([0x112233, r.randint(0, 0xFFFFFF)])
            t = thread(o["n"])
        form, want = points(r, [(coord(r), coord(r)) for _ in range(r.randint(1, 3))])
        o["l"] = [[milli(x), milli(y), b] for x, y, b in want]
        p.add_stitchblock(([[x, y, pack4(b)] for x, y, b in want], t))
    elif m == "trims":
        a = post_arg(r, "trims")
        o["arg"] = dict(cnt=a["cnt"], dist=-1 if a["dist"] < 0 else milli(a["dist"]), clip=a["clip"])
        p.interpolate_trims(a["cnt"] or None, None if a["dist"] < 0 else a["dist"], a["clip"])
    elif m == "frame":
        p.interpolate_frame_eject()
    elif m == "stop_as_dup":
        p.interpolate_stop_as_duplicate_color()
    elif m == "dup_as_stop":
        if any(tnum(t) < 0 for t in p.threadlist):        # a filler is equal to nothing the specification knows
            o["m"] = "query"
        else:
            p.interpolate_duplicate_color_as_stop()


API = RELM + ["stitch", "stitch", "move_abs", "stitch_abs", "add_stitch_absolute", "add_stitch_relative", "add_stitch_relative",
              "add_command", "prepend_command", "insert", "insert_stitch_relative", "insert_stitch_relative", "append_translation",
              "set_item", "points", "add_block", "iadd_thread", "iadd_command", "add_thread", "metadata", "translate", "center", "fix_color_count",
              "copy", "json"]
SEWS = (STITCH, SEW_TO, NEEDLE_AT)


def pack4(b):
    return b[0] | b[1] << 8 | b[2] << 16 | b[3] << 24


def api_case(r, n, allow=API):
    from pyembroidery import EmbPattern
    p = EmbPattern()
    steps = []
    for _ in range(n):
        box = {}

        def go():
            box["o"], box["p"] = api_step(r, p, allow + MORE + (["clear"] if r.random() < .05 else []))
            return observe(r, box["p"])
        ok, obs = core.guarded(go)
        if ok != "ok":
            o = box.get("o") or dict(m="query", at=False, k=0, x=0, y=0, n=0, c=[0, 0, 0, 0], l=[], s="", t="")
            steps.append(dict(o=o, ok=False, err=obs))
            break
        p = box["p"]
        steps.append(dict(o=box["o"], ok=True, obs=obs))
    return dict(kind="api", ok=True, steps=steps, inp=dict(calls=[s["o"] for s in steps], error=steps[-1].get("err")))


# ---------------------------------------------------------------- replaying behaviours of the model
def replay_case(calls):
    """calls: what ApiMC did; the same calls on the real design"""
    from pyembroidery import EmbMatrix, EmbPattern
    r = random.Random(1)
    p = EmbPattern()
    steps = []
    for o in calls:
        box = [p]

        def go(p=p, o=o, box=box):
            x, y = o["x"] / 1000.0, o["y"] / 1000.0
            m = o["m"]
            cmd = o["c"][0] | o["c"][1] << 8 | o["c"][2] << 16 | o["c"][3] << 24
            if m in RELM:
                a = ([o["n"]] if m == "needle_change" else []) + [x, y] + ([o["k"]] if o["at"] else [])
                getattr(p, m)(*a)
            elif m in ("move_abs", "stitch_abs"):
                getattr(p, m)(*([x, y] + ([o["k"]] if o["at"] else [])))
            elif m in ("add_stitch_absolute", "add_stitch_relative", "add_command", "prepend_command"):
                getattr(p, m)(cmd, x, y)
            elif m in ("insert", "insert_stitch_relative"):
                getattr(p, m)(o["k"], cmd, x, y)
            elif m == "append_translation":
                p.append_translation(x, y)
            elif m == "set_item":
                p[o["k"]] = [x, y, cmd]
            elif m == "iadd_thread":
                p += thread(o["n"])
            elif m == "add_thread":
                p.add_thread(o["n"])
            elif m == "add_block":
                p.add_block([(v[0] / 1000.0, v[1] / 1000.0) for v in o["l"]], None if o["n"] == -1 else thread(o["n"]))
            elif m == "translate":
                p.translate(x, y)
            elif m == "center":
                p.move_center_to_origin()
            elif m == "fix_color_count":
                p.fix_color_count()
            elif m == "metadata":
                p.metadata(o["s"], o["t"])
            elif m == "clear":
                p.clear()
            elif m == "merge":
                b = o["b"]
                q = make([[v[0] / 1000.0, v[1] / 1000.0, pack4(v[2:])] for v in b["q"]], b["thr"], dict(b["ext"]))
                p.add_pattern(q, *[v / 1000.0 for v in o["mv"]["t"]])
            elif m == "transform":
                a = o["mx"]
                p.transform(EmbMatrix((a[0], a[1], 0, a[2], a[3], 0, a[4] / 1000.0, a[5] / 1000.0, 1)))
            elif m == "stitchblock":
                t = p.threadlist[-1] if o["at"] else thread(o["n"])
                p.add_stitchblock(([[v[0] / 1000.0, v[1] / 1000.0, pack4(v[2])] for v in o["l"]], t))
            elif m == "trims":
                a = o["arg"]
                p.interpolate_trims(a["cnt"] or None, None if a["dist"] < 0 else a["dist"] / 1000.0, a["clip"])
            elif m == "frame":
                p.interpolate_frame_eject()
            elif m == "stop_as_dup":
                p.interpolate_stop_as_duplicate_color()
            elif m == "dup_as_stop":
                p.interpolate_duplicate_color_as_stop()
            elif m == "copy":
                p = p.copy()
            elif m == "json":
                p = read_any("json", write_text(p, "json", dict(encode=False)))
            box[0] = p
            return observe(r, p)
        ok, obs = core.guarded(go)
        p = box[0]
        steps.append(dict(o=o, ok=ok == "ok", obs=obs) if ok == "ok" else dict(o=o, ok=False, err=obs))
        if ok != "ok":
            break
    return dict(kind="api", ok=True, steps=steps, inp=dict(calls=calls))


def model_behaviours(num, depth, seed):
    r = core.run_tlc("ApiMC", env={"DEPTH": str(depth)}, simulate="num=%d" % num, depth=depth + 2, seed=seed, workers=4)
    if r.violated:
        raise core.MachineryError("ApiMC violates %s\n%s" % (r.violated, r.out[-3000:]))
    out = []
    for m in re.finditer(r'^"?CALLS (.*?)"?$', r.out, re.M):
        out.append(json.loads(m.group(1).replace('\\"', '"').replace("\\\\", "\\")))
    if len(out) < num // 2:
        raise core.MachineryError("ApiMC gave %d behaviours\n%s" % (len(out), r.out[-2000:]))
    return r, out


def check_p17(run):
    run.model("PatternMC", "PatternMC_api", idle_ok=['GrowA', 'Turn', 'GrowB'], deeper=dict(N=4))
    r, calls = model_behaviours(run.n(120, 1000), 12, run.seed)
    run.states += r.generated
    run.models.append(dict(module="ApiMC", cfg="ApiMC", distinct=r.distinct, generated=r.generated, depth=12, wall_s=round(r.wall, 1), actions={}))
    cases = core.in_child(lambda: [replay_case(c) for c in calls])
    run.suite("replay.behaviours", "PatTrace", cases, clauses=["api."], chunk=1000)

    def go():
        q = random.Random(run.seed * 131 + 17)
        return [api_case(q, q.choice([3, 8, 14, 20])) for _ in range(run.n(500, 5000))] + [api_case(q, 120) for _ in range(run.n(3, 30))]
    run.suite("api.histories", "PatTrace", core.in_child(go), clauses=["api."], chunk=1000)


# ---------------------------------------------------------------- block views
def body_of(r, n, w, coordfn=None, uniq=True):
    """commands [x, y, flag]; positions all different when uniq"""
    out = []
    fl = r.choices(list(w), list(w.values()), k=n)
    for i, f in enumerate(fl):
        if uniq:
            out.append([i + 1, r.randint(-9, 9), f])
        else:
            out.append([coordfn(r), coordfn(r), f])
    return out


def make(q, thr, ext=None):
    from pyembroidery import EmbPattern
    p = EmbPattern()
    for s in q:
        p.stitches.append(list(s))
    for t in thr:
        p.add_thread(thread(t))
    p.extras.update(ext or {})
    return p


COL = [0x110000, 0x220000, 0x330000, 0x440000, 0x550000, 0x1110000, 0x2110000, 0x1330000]


def threads(r, equal=.3, n=None):
    out = []
    for _ in range(r.randint(0, 5) if n is None else n):
        out.append(out[-1] if out and r.random() < equal else r.choice(COL))
    return out


def all_bodies(flags, n):
    import itertools
    for k in range(n + 1):
        for f in itertools.product(flags, repeat=k):
            yield [[i + 1, -i, x] for i, x in enumerate(f)]


def block_case(r, q, thr):
    p = make(q, thr)

    def go():
        return ([[[spec_stitch(s) for s in b], tnum(t)] for b, t in p.get_as_colorblocks()],
                [[[spec_stitch(s) for s in b], tnum(t)] for b, t in p.get_as_stitchblock()],
                [[spec_stitch(s) for s in b] for b in p.get_as_command_blocks()])
    ok, res = core.guarded(go)
    res = res if ok == "ok" else ([], [], [])
    return dict(kind="blocks", ok=ok == "ok", q=[spec_stitch(s) for s in q], thr=thr, cb=res[0], sb=res[1], cmd=res[2],
                inp=dict(design=q, threads=thr, error=None if ok == "ok" else res))


def check_p19(run):
    run.model("PatternMC", "PatternMC_blocks", idle_ok=['Turn', 'GrowB', 'Call'], deeper=dict(N=7))

    def go():
        r = random.Random(run.seed * 131 + 19)
        out = []
        for q in all_bodies([STITCH, JUMP, COLOR_CHANGE, COLOR_BREAK, NEEDLE_SET], run.n(4, 5)):
            out.append(block_case(r, q, threads(r)))
        w = {STITCH: 8, JUMP: 2, TRIM: 2, COLOR_CHANGE: 2, COLOR_BREAK: 2, NEEDLE_SET: 1, STOP: 1, SEQUENCE_BREAK: 1, SEW_TO: 1, SEQUIN_EJECT: .5, END: .3,
             pack(STITCH, 1, 2): 1, pack(COLOR_CHANGE, 1, None): .7, pack(NEEDLE_SET, None, 3): .7, pack(COLOR_BREAK, 0, None, None): .5}
        for _ in range(run.n(500, 5000)):
            out.append(block_case(r, body_of(r, r.randint(0, 30), w), threads(r)))
        for n in (300, 1500):       # long designs, with few and with many blocks
            for v in (w, {STITCH: 300, COLOR_CHANGE: 1, JUMP: 3, TRIM: 1}, {STITCH: 1}):
                out.append(block_case(r, body_of(r, n, v), threads(r, .3, 5)))
        return out
    run.suite("blocks.views", "PatTrace", core.in_child(go), clauses=["blocks."])


# ---------------------------------------------------------------- reinterpretations
def zig(r):
    return r.choice([0, 0, 5, -5, 10, 20, 30, 31, -31, r.randint(-60, 60), r.randint(-8, 8) / 4.0])


def post_arg(r, op):
    a = dict(cnt=0, dist=-1, clip=True)
    if op == "trims":
        a["cnt"] = r.choice([0, 1, 2, 3, 3, 4, 8])
        a["dist"] = r.choice([-1, -1, 0, 10, 30, 30.5])
        a["clip"] = r.random() < .6
    elif op == "jump_trims":
        a["cnt"] = r.choice([1, 2, 3, 3, 5])
    elif op == "stop":
        a["cnt"] = r.choice([COLOR_CHANGE, COLOR_CHANGE, NEEDLE_SET, COLOR_BREAK])
    return a


def post_case(r, op, q, thr, a, explicit=True):
    p = make(q, thr, dict(name="n"))
    before = [list(s) for s in p.stitches]
    tb = list(p.threadlist)

    def go():
        if op == "trims":
            args = (a["cnt"] or None, None if a["dist"] < 0 else a["dist"])
            p.interpolate_trims(*args) if a["clip"] and r.random() < .5 else p.interpolate_trims(*(args + (a["clip"],)))
            return p, True
        if op == "dup":
            p.interpolate_duplicate_color_as_stop()
            return p, True
        if op == "stop":
            p.interpolate_stop_as_duplicate_color() if a["cnt"] == COLOR_CHANGE and r.random() < .5 else p.interpolate_stop_as_duplicate_color(a["cnt"])
            return p, True
        if op == "round":
            p.interpolate_stop_as_duplicate_color()
            p.interpolate_duplicate_color_as_stop()
            return p, True
        if op == "frame":
            p.interpolate_frame_eject()
            return p, True
        if op == "fix":
            p.fix_color_count()
            return p, True
        n = (p.get_pattern_merge_jumps() if op == "merge_jumps" else p.get_pattern_interpolate_trim(a["cnt"]) if op == "jump_trims"
             else p.get_stable_pattern())
        kept = [list(s) for s in p.stitches] == before and p.threadlist == tb and p.extras == {"name": "n"}
        for s in n.stitches:        # the derived design is its own
            s[0] += 1000
        kept = kept and [list(s) for s in p.stitches] == before
        for s in n.stitches:
            s[0] -= 1000
        return n, kept
    ok, res = core.guarded(go)
    n, kept = res if ok == "ok" else (make([], []), True)
    return dict(kind="post", op=op, ok=ok == "ok", q=[spec_stitch(s) for s in before], thr=thr,
                arg=dict(cnt=a["cnt"], dist=-1 if a["dist"] < 0 else milli(a["dist"]), clip=a["clip"]),
                res=[spec_stitch(s) for s in n.stitches], rthr=[tnum(t) for t in n.threadlist], ext=n.extras == {"name": "n"} or ok != "ok", kept=kept,
                inp=dict(op=op, design=before, threads=thr, arg=a, error=None if ok == "ok" else res))


POST_W = {STITCH: 6, JUMP: 9, TRIM: 2, COLOR_CHANGE: 1.5, STOP: 1.5, COLOR_BREAK: .7, NEEDLE_SET: .5, SEQUIN_MODE: .4, SEQUIN_EJECT: .8, SLOW: .5, FAST: .5,
          END: .4, STITCH_BREAK: .3, SEQUENCE_BREAK: .3, SEW_TO: .3, pack(STITCH, 2, 1): .5, pack(COLOR_CHANGE, None, 4): .5, pack(JUMP, 1, None): .5}


def check_p20(run):
    run.model("PatternMC", "PatternMC_post", idle_ok=['Turn', 'GrowB', 'Call'], deeper=dict(N=6))

    def go():
        r = random.Random(run.seed * 131 + 20)
        out = []
        for op, flags, n in (("trims", [STITCH, JUMP, TRIM, COLOR_CHANGE], 5), ("frame", [JUMP, STOP, STITCH, END], 5),
                             ("jump_trims", [STITCH, JUMP, TRIM, COLOR_CHANGE], 5), ("merge_jumps", [STITCH, JUMP, STOP], 5),
                             ("stable", [STITCH, JUMP, COLOR_CHANGE, COLOR_BREAK, NEEDLE_SET], 4)):
            for q in all_bodies(flags, n + (1 if run.thorough else 0)):
                if r.random() < .5 or run.thorough:
                    for s in q:
                        s[0] = r.choice([0, 0, 12, 40])
                        s[1] = r.choice([0, 0, -20])
                    thr = threads(r, 0 if op == "stable" else .3)
                    out.append(post_case(r, op, q, thr, post_arg(r, op)))
        for op in ("trims", "trims", "frame", "jump_trims", "merge_jumps", "stable"):
            for _ in range(run.n(150, 2000)):
                q = body_of(r, r.randint(0, 24), POST_W, zig, uniq=False)
                out.append(post_case(r, op, q, threads(r), post_arg(r, op)))
            for n in (150, 300):
                q = body_of(r, n, POST_W, zig, uniq=False)
                out.append(post_case(r, op, q, threads(r, .3, 40), post_arg(r, op)))
        return out
    run.suite("post.designs", "PatTrace", core.in_child(go), clauses=["post."])


# ---------------------------------------------------------------- stops and repeated colours
STOP_W = {STITCH: 5, STOP: 3, COLOR_CHANGE: 3, JUMP: 1, TRIM: .5, COLOR_BREAK: .7, NEEDLE_SET: .5, SEW_TO: .3, SEQUENCE_BREAK: .2, END: .1,
          pack(STITCH, 1, 1): .4, pack(STOP, 1, 1): .2, pack(COLOR_CHANGE, 2, None): .4}


def stop_design(r, jumps):
    """stitches, stops and changes, every block sewn"""
    x = y = 0
    out = []

    def go(f):
        nonlocal x, y
        x, y = x + r.randint(1, 9), y + r.choice([-7, -2, 0, 3, 9])
        out.append([x, y, f])
    for b in range(r.randint(1, 5)):
        if b:
            out.append([x, y, COLOR_CHANGE])
        for _ in range(r.randint(0, 3)):
            if r.random() < .5:
                out.append([x, y, STOP])
            else:
                go(r.choice([STITCH, STITCH, JUMP if jumps else STITCH]))
        go(STITCH)
        for _ in range(r.randint(0, 3)):
            if r.random() < .4:
                out.append([x, y, STOP])
            else:
                go(r.choice([STITCH, STITCH, JUMP if jumps else STITCH]))
    out.append([x, y, END])
    return out


def file_case(r, fmt, ver):
    q = stop_design(r, fmt == "jef")
    blocks = 1 + sum(1 for s in q if s[2] == COLOR_CHANGE)
    thr = []
    for _ in range(max(0, blocks + r.choice([0, 0, 0, 1, 2, -1, -2]))):
        thr.append(r.choice([c for c in (0xFF0000, 0x00AA00, 0x0000FF, 0xFFFF00, 0x101010) if not thr or c != thr[-1]]))
    p = make(q, thr)

    def go():
        st = dict(encode=False)
        if ver:
            st["version"] = ver
        data = write_file(p, fmt, st)
        if fmt == "jef":
            n = int.from_bytes(data[24:28], "little")
            idx = [int.from_bytes(data[0x74 + 4 * i:0x78 + 4 * i], "little") for i in range(min(n, 999))]
        else:
            base = int.from_bytes(data[8:12], "little") if fmt == "pes" else 8
            idx = list(data[base + 49:base + 49 + ((data[base + 48] + 1) & 0xFF)])
        b = read_back(fmt, data)
        return idx, [spec_stitch(s) for s in b.stitches], [rgb_of(t) for t in b.threadlist]
    ok, res = core.guarded(go)
    idx, rq, rt = res if ok == "ok" else ([], [], [])
    return dict(kind="file", fmt=fmt, ok=ok == "ok", q=[spec_stitch(s) for s in q], thr=thr, idx=idx, res=rq, rthr=rt,
                inp=dict(fmt=fmt, version=ver, design=q, threads=thr, error=None if ok == "ok" else res))


def check_p16(run):
    run.model("PatternMC", "PatternMC_stops", idle_ok=['Turn', 'GrowB', 'Call'], deeper=dict(N=7))

    def go():
        r = random.Random(run.seed * 131 + 16)
        out = []
        for op in ("dup", "stop", "round"):
            for q in all_bodies([STITCH, STOP, COLOR_CHANGE, COLOR_BREAK], run.n(4, 6)):
                out.append(post_case(r, op, q, threads(r, .5), post_arg(r, op)))
        for op in ("dup", "dup", "stop", "stop", "round", "fix"):
            for _ in range(run.n(120, 1500)):
                out.append(post_case(r, op, body_of(r, r.randint(0, 20), STOP_W, zig, uniq=False), threads(r, .5), post_arg(r, op)))
            for n in (100, 300):
                out.append(post_case(r, op, body_of(r, n, STOP_W, zig, uniq=False), threads(r, .5, n // 4), post_arg(r, op)))
        return out
    run.suite("stops.designs", "PatTrace", core.in_child(go), clauses=["post."])

    def files():
        r = random.Random(run.seed * 131 + 161)
        return [file_case(r, f, v) for f, v in (("pec", None), ("pes", "1"), ("pes", "6"), ("jef", None)) for _ in range(run.n(80, 800))]
    run.suite("stops.files", "PatTrace", core.in_child(files), clauses=["file."])


# ---------------------------------------------------------------- merging
MERGE_W = {STITCH: 8, JUMP: 2, TRIM: 2, STOP: 1, SEW_TO: .5, SEQUENCE_BREAK: .5, SLOW: .3, SEQUIN_EJECT: .3}


def blocks_design(r, nblocks, lead=0):
    """blocks that all sew, with a change before each but the first"""
    x = 0
    out = []
    for _ in range(lead):
        out.append([0, 0, r.choice([COLOR_BREAK, COLOR_CHANGE])])
    for b in range(nblocks):
        if b:
            out.append([x, 3, r.choice([COLOR_CHANGE, COLOR_CHANGE, COLOR_BREAK, NEEDLE_SET])])
        n = r.randint(1, 4)
        at = r.randrange(n)
        for i in range(n):
            x += r.randint(1, 5)
            out.append([x, r.randint(-9, 9), STITCH if i == at else r.choices(list(MERGE_W), list(MERGE_W.values()))[0]])
    k = r.random()
    if k < .3:
        out.append([x, 0, END])
    elif k < .5:
        out.append([0, 0, COLOR_BREAK])
        if k < .4:
            out.append([x, 0, END])
    elif k < .6 and nblocks:
        out.append([x, 0, COLOR_CHANGE])
    return out


def merge_case(r, long=False):
    from pyembroidery import EmbPattern
    na, nb = r.choice([0, 0, 1, 1, 2, 3]), r.choice([0, 1, 1, 2, 3])
    if long:
        na, nb = r.randint(0, 120), r.randint(60, 150)
    if r.random() < .01:
        na, nb = r.choice([0, 1, 40]), r.choice([1, 40])
    qa = blocks_design(r, na)
    if not na and any(s[2] == COLOR_CHANGE for s in qa):
        qa = []
    qb = blocks_design(r, nb, r.choice([0, 0, 0, 1]))
    if r.random() < .35:         # commands may name a thread, a needle or an order
        for s in qa + qb:
            if s[2] != NO_COMMAND and r.random() < .4:
                s[2] = pack(s[2] & 0xFF, *(r.choice([None, 0, 1, 3]) for _ in range(3)))
    ta = threads(r, .2, max(0, na + r.choice([0, 0, 0, 0, 1, 2, -1])))
    tb = threads(r, .2, max(0, nb + r.choice([0, 0, 0, 0, 1, -1])))
    if r.random() < .4 and ta and tb and na:
        tb[0] = ta[min(na, len(ta)) - 1]
    if not tb and nb > 1:
        ta = ta[:na]
    ea = {k: r.choice(WORDS) for k in KEYS if r.random() < .4}
    eb = {k: r.choice(WORDS) for k in KEYS if r.random() < .4}
    A, B = make(qa, ta, ea), make(qb, tb, eb)
    me = bool(ta or na < 2) and r.random() < .08           # the design added to itself
    if me:
        qb, tb, eb, B = qa, ta, ea, A
    cur = [0, 0]
    if qa and r.random() < .5:          # built by the composition API: relative calls go on from its last command
        A.stitches.clear()
        for x, y, c in qa:
            A.add_stitch_absolute(c, x, y)
        cur = qa[-1][:2]
    mv = dict(t=[], s=[], r=[])
    kw = {}
    how = r.choice(["add_pattern", "add_pattern", "add_pattern", "file", "+=", "+", "radd"])
    if me and how == "file":
        how = "add_pattern"
    if how in ("add_pattern", "file"):
        if r.random() < .6:
            dx, dy = r.choice([(5, -3), (0, 0), (None, 7), (2.5, None), (100, 50)])
            kw.update(dx=dx, dy=dy)
            mv["t"] = [milli(dx or 0), milli(dy or 0)]
        if r.random() < .3:
            sx, sy = r.choice([(2, 2), (2, None), (None, 3), (-1, 1), (.5, 2)])
            kw.update(sx=sx, sy=sy)
            mv["s"] = [milli(sx if sx is not None else sy), milli(sy if sy is not None else sx)]
        if r.random() < .3:
            kw["rotate"] = r.choice([90, 45, 0, -30])
            mv["r"] = [milli(kw["rotate"]), 0]
    times = r.choice([1, 1, 1, 2, 3]) if how in ("add_pattern", "file", "+=") and not me else 1
    keepA, keepB = A.copy(), B.copy()
    same = lambda p, q: p.stitches == q.stitches and p.threadlist == q.threadlist and p.extras == q.extras

    def go():
        a = A
        kept = True
        if how in ("add_pattern", "file"):
            B_ = B
            if how == "file":               # a design named by its file
                B_ = "added.json"
                with open(B_, "wb") as f:
                    f.write(write_text(B, "json", dict(encode=False)))
            for _ in range(times):
                a.add_pattern(B_, **kw)
        elif how == "+=":
            for _ in range(times):
                a += B
        else:
            a = A + B if how == "+" else EmbPattern.__radd__(B, A)
            kept = same(A, keepA)
            if not A.threadlist or not B.threadlist:
                pass
        kept = kept and (same(B, keepB) or me and a is A)
        res = [spec_stitch(s) for s in a.stitches], [tnum(t) for t in a.threadlist], ext_of(a)
        for s in a.stitches:          # the sum is its own
            s[0] += 9
        a.extras["zz"] = 1
        kept = kept and (same(B, keepB) or me and a is A) and (how in ("add_pattern", "file", "+=") or same(A, keepA))
        return res + (kept,)
    ok, res = core.guarded(go)
    rq, rt, re_, kept = res if ok == "ok" else ([], [], [], True)
    side = lambda q, t, e, cu: dict(q=[spec_stitch(s) for s in q], thr=t, ext=sorted([k, v] for k, v in e.items()), cur=[milli(v) for v in cu])
    return dict(kind="merge", ok=ok == "ok", A=side(qa, ta, ea, cur), B=side(qb, tb, eb, [0, 0]), mv=mv, times=times, res=rq, rthr=rt, rext=re_, kept=kept,
                inp=dict(A=[qa, ta, ea], B="A itself" if me else [qb, tb, eb], how=how, args=repr(kw), times=times, error=None if ok == "ok" else res))


def check_p18(run):
    run.model("PatternMC", "PatternMC_merge", idle_ok=['Call'], deeper=dict(N=4))

    def go():
        r = random.Random(run.seed * 131 + 18)
        return [merge_case(r) for _ in range(run.n(1500, 15000))] + [merge_case(r, True) for _ in range(run.n(8, 80))]
    run.suite("merge.designs", "PatTrace", core.in_child(go), clauses=["merge."])
