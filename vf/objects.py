"""Histories over design objects: what is read is not altered, what is repeated comes out the same, copies are separate (P06)."""
import copy, io, random
from .cmds import *
from . import core, enc
from .files import RW, W, Ids, DATE, Keep, KeepText, TEXT_WRITE, module
from .compress import hus_case
from .formats import BUILDERS
from .loads import FILES
from .threads import rand_thread, read_any

FMTS = RW + W + ["generic"]
HIGH = {STITCH: 10, JUMP: 3, TRIM: 2, COLOR_BREAK: 1, SLOW: .6, FAST: .6, SEQUIN_EJECT: 1, STITCH_BREAK: 1, COLOR_CHANGE: 2, STOP: 1.5, NEEDLE_SET: .5, END: .7,
        SEQUENCE_BREAK: .5, TIE_ON: .4, TIE_OFF: .4, FRAME_EJECT: .3, M_TRANSLATE: .2, SEW_TO: .5, NEEDLE_AT: .5}
LOW = {STITCH: 10, JUMP: 3, TRIM: 2, COLOR_CHANGE: 2, STOP: 1.5, END: .7}


def thread_value(t):
    return (t.color, t.description, t.catalog_number, t.details, t.brand, t.chart, t.weight)


def value(p):
    try:
        return ("design", tuple(tuple(s) for s in p.stitches), tuple(thread_value(t) for t in p.threadlist), tuple((k, v if isinstance(v, (str, int)) else repr(v)) for k, v in p.extras.items()),
                getattr(p, "_previousX", 0), getattr(p, "_previousY", 0))
    except Exception as ex:
        return ("broken", repr(ex))


class Broken(io.BytesIO):
    """a stream that fails at its n-th write"""
    def __init__(self, n):
        io.BytesIO.__init__(self)
        self.n = n

    def write(self, b):
        self.n -= 1
        if self.n < 0:
            raise IOError("device full")
        return io.BytesIO.write(self, b)

    def close(self):
        pass


def settings(r, fmt):
    s = {}
    for k, vs in (("max_stitch", [40, 121]), ("max_jump", [40, 300]), ("full_jump", [True, False]), ("round", [True, False]), ("explicit_trim", [True]),
                  ("tie_on", [True]), ("tie_off", [True]), ("scale", [2, (1, -1)]), ("rotate", [90]), ("translate", [(5, 5)]),
                  ("thread_change_command", [NEEDLE_SET, STOP]), ("sequin_contingency", [SEQ_UTIL, SEQ_STITCH]), ("writes_speeds", [False])):
        if r.random() < .08:
            s[k] = r.choice(vs)
    if r.random() < .5:
        s["encode"] = r.random() < .4
    s["date"] = DATE
    if fmt == "pes":
        s["version"] = r.choice(["1", "6", "1t", "6t", 6])
    if fmt == "dst":
        s["version"] = r.choice(["default", "extended"])
    if fmt == "csv":
        s["version"] = r.choice(["default", "delta", "full"])
    if fmt == "txt":
        s["mimic"] = r.random() < .5
    if fmt == "jef":
        s["trims"] = r.random() < .5
    if fmt == "generic":
        s.update(segment_start="[", segment_end="]", stitch="{x},{y};", color_start="<{thread_color}", color_end=">", block_start="(", block_end=")", jump="j")
        s["metadata_entry"] = "{metadata_key}"
    return s


def new_design(r):
    from pyembroidery import EmbPattern
    low = r.random() < .5
    g = enc.Gen(r, LOW if low else HIGH, maxlen=r.choice([3, 8, 16]), coord=60, grid=r.choice([1, .5]))
    p = EmbPattern()
    for x, y, f, t, n, o in g.design():
        p.stitches.append([x, y, pack(f, t, n, o)])
    for _ in range(r.choice([0, 0, 1, 2, 4, 12])):
        p.threadlist.append(rand_thread(r, [0xFF0000, 0x00FF00, 0x123456, 0]))
    if r.random() < .3 and p.threadlist:
        p.threadlist.append(p.threadlist[0])         # one thread used twice
    for k in ("name", "author", "comments", "other"):
        if r.random() < .4:
            p.extras[k] = r.choice(["a", "long text " * 6, "\u00fc"])
    return p


DERIVE = ["copy", "copy.copy", "deepcopy", "new", "normal", "stable", "trims", "merge", "add", "radd", "sum"]
COPIES = ["copy", "copy.copy", "deepcopy", "new"]
VIEWS = ["stitches", "stitchblock", "commands", "colorblocks", "unique", "singleton", "bounds", "counts", "str", "eq", "match"]


def derive(p, q, kind, st):
    from pyembroidery import EmbPattern
    if kind == "copy":
        return p.copy()
    if kind == "copy.copy":
        return copy.copy(p)
    if kind == "deepcopy":
        return copy.deepcopy(p)
    if kind == "new":
        return EmbPattern(p)
    if kind == "normal":
        return p.get_normalized_pattern(st)
    if kind == "stable":
        return p.get_stable_pattern()
    if kind == "trims":
        return p.get_pattern_interpolate_trim(3)
    if kind == "merge":
        return p.get_pattern_merge_jumps()
    return p + q


def view(p, q, kind):
    if kind == "stitches":
        return [list(map(str, s)) for s in p.get_as_stitches()]
    if kind == "stitchblock":
        return [(str(b[0]), thread_value(b[1])) for b in p.get_as_stitchblock()]
    if kind == "commands":
        return [str(b) for b in p.get_as_command_blocks()]
    if kind == "colorblocks":
        return [(str(b[0]), thread_value(b[1])) for b in p.get_as_colorblocks()]
    if kind == "unique":
        return sorted(str(thread_value(t)) for t in p.get_unique_threadlist())
    if kind == "singleton":
        return [thread_value(t) for t in p.get_singleton_threadlist()]
    if kind == "bounds":
        return str(p.bounds())
    if kind == "counts":
        return [p.count_stitches(), p.count_color_changes(), p.count_needle_sets(), p.count_threads(), len(p)]
    if kind == "str":
        return str(p)
    if kind == "match":
        return [str(s) for s in p.get_match_commands(STITCH)]
    return [p == q, p != q]


def modify(r, p, threads):
    """an in-place change; threads: the change may be to a thread itself"""
    k = r.choice(["append", "cell", "del", "extra", "thread+", "thread", "thread-", "api", "translate", "fix", "dup"] + ["thread"] * 2)
    if k == "append" or k == "cell" and not p.stitches:
        p.stitch_abs(r.randint(-50, 50), 7)
    elif k == "cell":
        s = r.choice(p.stitches)
        s[r.choice([0, 1])] = r.randint(100, 999)
    elif k == "del":
        del p.stitches[r.randint(0, len(p.stitches)):]
    elif k == "extra":
        p.extras[r.choice(["name", "author", "new"])] = "changed %d" % r.randint(0, 99)
    elif k == "thread+":
        p.add_thread(r.randint(0, 0xFFFFFF))
    elif k == "thread" and threads and p.threadlist:
        t = r.choice(p.threadlist)
        t.color = r.randint(0, 0xFFFFFF)
        t.description = "changed"
    elif k == "thread-":
        del p.threadlist[:r.randint(0, 2)]
    elif k == "translate":
        p.translate(r.randint(1, 9), 3)
    elif k == "fix":
        p.fix_color_count()
    elif k == "dup":
        p.interpolate_duplicate_color_as_stop()
    else:
        p.color_change()
        p.trim(1, 2)
    return k


GIVEN = ["thread", "thread", "block", "iadd", "ctor"]


def gift(r):
    """something of the caller's, and how a design takes it"""
    from pyembroidery import EmbThread
    how = r.choice(GIVEN)
    d = {}
    for k, vs in (("name", ["a"]), ("description", ["b"]), ("desc", ["c"]), ("brand", ["d"]), ("manufacturer", ["e"]), ("id", ["1"]), ("catalog", ["2"]),
                  ("details", ["f"]), ("chart", ["g"]), ("weight", ["40"])):
        if r.random() < .3:
            d[k] = r.choice(vs)
    for k, vs in (("hex", ["#112233", "445566"]), ("rgb", [[1, 2, 3], (4, 5, 6), "red"]), ("color", [[7, 8, 9], 0x123456, "#abcdef"])):
        if r.random() < .5:
            v = r.choice(vs)
            d[k] = list(v) if isinstance(v, list) else v
    pts = [r.choice([[1, 2], (3, 4), [5, 6, JUMP]]) for _ in range(r.randint(0, 4))]
    if r.random() < .2:
        pts = [complex(*v[:2]) for v in pts]
    pts = [list(v) if isinstance(v, list) else v for v in pts]
    if how == "thread":
        return how, d, lambda p: p.add_thread(d)
    if how == "ctor":
        return how, d, lambda p: p.add_thread(EmbThread(d))
    if how == "block":
        with_thread = r.random() < .6
        return how, [pts, d], lambda p: p.add_block(pts, d if with_thread else None)
    return how, pts, lambda p: p.__iadd__(pts)


def spoil(v):
    """the caller goes on with it"""
    if isinstance(v, list):
        for w in v:
            spoil(w)
        v.append(99)
    elif isinstance(v, dict):
        for w in v.values():
            spoil(w)
        v.clear()
    return v


def snapshot(s):
    return repr(sorted(s.items(), key=lambda kv: kv[0])) if s is not None else "None"


def shelf(r):
    """files to be read, some of them more than once"""
    out = []
    for b in r.sample(BUILDERS, 3):
        f = b(r, r.randint(0, 8))
        out.append((f["ext"], bytes(f["head"]) + bytes(x for q in f["recs"] for x in q) + bytes(f["tail"])))
    k = r.random()
    if k < .3:
        out.append(("hus", bytes(hus_case(r, 4)["inp"]["file"])))
    else:
        fmt, data = r.choice(FILES)(r)
        out.append((fmt, data.encode("utf8") if isinstance(data, str) else bytes(data)))
    return out


def history(r, n):
    from pyembroidery import EmbPattern
    ids = Ids()
    library = shelf(r)
    objs = [new_design(r) for _ in range(r.randint(1, 2))]
    own = [True] * len(objs)                 # made of threads of its own
    first = [ids(value(p)) for p in objs]
    ops, log, recent = [], [], []
    for _ in range(n):
        k = r.random()
        if recent and r.random() < .35:
            what, how, i, j, fmt, st = r.choice(recent)      # the same again
            st = None if st is None else dict(st)
        else:
            i, j, fmt = r.randrange(len(objs)), r.randrange(len(objs)), ""
            st = None
            what = "write" if k < .5 else "derive" if k < .65 else "view" if k < .75 else "modify"
            if what == "write":
                fmt = r.choice(FMTS)
                st = settings(r, fmt) if r.random() < .85 or fmt in ("jef", "generic") else None
                how = "w:" + fmt + ("" if r.random() < .8 else "!%d" % r.choice([0, 1, 2, 5, 20]))
            elif what == "derive":
                how = r.choice(DERIVE)
                st = {k: v for k, v in settings(r, "").items()} if how == "normal" and r.random() < .7 else None
            elif what == "view":
                how = r.choice(VIEWS)
            else:
                how = ""
        if what != "read" and r.random() < .12 or what == "read" and r.random() < .3:
            what, how, st = "read", "r:%d" % r.randrange(len(library)), None
        p, q = objs[i], objs[j]
        before = snapshot(st)
        random.seed(5)
        rec = dict(what={"write": "use", "view": "use"}.get(what, what), how="", srcs=[i + 1], obj=0, res=0, ok=True, copy=False)
        pairs = what == "derive" and how in ("add", "radd", "sum") or what == "view" and how == "eq"
        took = True
        if what == "modify" and r.random() < .3:
            rec["obj"] = i + 1
            again = r.randrange(1 << 30)
            twin = copy.deepcopy(p)
            g, given, act = gift(random.Random(again))
            _, given2, act2 = gift(random.Random(again))
            kept = repr(given)
            ok, v = core.guarded(lambda: act(p))
            took = ok == "ok" and repr(given) == kept                       # as the caller made it
            core.guarded(lambda: act2(twin))                                # the same to a copy: the same
            now = value(p)
            took = took and value(twin)[:4] == now[:4]
            spoil(given)
            took = took and value(p) == now                                 # and not held
            how = "give " + g
        elif what == "modify":
            rec["obj"] = i + 1
            s0 = r.getstate()
            ok, v = core.guarded(lambda: modify(r, p, own[i]))
            how = str(v)[:40]
        elif what == "read":
            fmt, data = library[int(how[2:])]
            ok, v = core.guarded(lambda: read_any(fmt, data))
            rec.update(what="derive", srcs=[], ok=ok == "ok")
            if rec["ok"]:
                objs.append(v)
                own.append(True)
                rec["obj"] = len(objs)
            recent.append((what, how, i, j, "", None))
        elif what == "derive":
            ok, v = core.guarded(lambda: derive(p, q, how, st))
            rec["ok"] = ok == "ok"
            if rec["ok"]:
                objs.append(v)
                rec.update(obj=len(objs), copy=how in COPIES)
                own.append(rec["copy"])
                if not rec["copy"]:           # other derived designs name the same threads
                    own[i] = own[j] = False
            recent.append((what, how, i, j, fmt, st))
        elif what == "view":
            ok, v = core.guarded(lambda: view(p, q, how))
            rec["res"] = ids(repr((ok, v)))
            recent.append((what, how, i, j, fmt, st))
        else:
            f, _, br = how[2:].partition("!")
            s = Broken(int(br)) if br and f not in TEXT_WRITE else KeepText() if f in TEXT_WRITE else Keep()
            ok, v = core.guarded(lambda: EmbPattern.write_embroidery(module(f, "Writer"), p, s, st))
            rec["res"] = ids(repr((ok, v if ok != "ok" else None, s.getvalue())))
            recent.append((what, how, i, j, fmt, st))
        if pairs:
            rec["srcs"].append(j + 1)
        rec["how"] = "%s %s" % (how, before)
        rec["settings"] = took and snapshot(st) == before
        rec["after"] = [ids(value(p)) for p in objs]
        ops.append(rec)
        log.append([what, how, i, j, before, [a for a in rec["after"]]])
    return dict(world=first, ops=ops, inp=dict(history=log, designs=[value(p)[1:4] for p in objs[:2]]))


def check_p06(run):
    run.model("ObjectsMC", deeper=dict(N=4))
    def go():
        r = random.Random(run.seed * 67 + 6)
        return [history(r, r.randint(4, 14)) for _ in range(run.n(1500, 12000))]
    run.suite("objects.histories", "ObjectsTrace", core.in_child(go))
