#!/usr/bin/env python3
"""dev.py P01 [P02..] [--models] [--full]: run checks, show the smallest failing cases per clause."""
import sys, time, json
sys.path.insert(0, '/verif')
from vf import core, registry
models = "--models" in sys.argv
tier = "thorough" if "--full" in sys.argv else "quick"
seed = 1
for a in sys.argv:
    if a.startswith("--seed="): seed = int(a[7:])
class R(core.Run):
    def model(self, *a, **k):
        if models:
            r = core.Run.model(self, *a, **k)
            print("  model", a, k, r.distinct, r.generated, round(r.wall, 1)); return r
for p in [a for a in sys.argv[1:] if not a.startswith("-")]:
    t = time.time()
    run = R(p, tier, seed)
    try:
        registry.CHECKS[p](run)
    except core.MachineryError as e:
        print(p, "MACHINERY", str(e)[:3000]); continue
    print(p, [(s["suite"], s["cases"], s["failing"]) for s in run.suites], "%.1fs" % (time.time() - t), "known:", len(run.known))
    seen = {}
    for s, c, cl in sorted(run.violations, key=lambda v: len(json.dumps(v[1]))):
        k = (s, tuple(cl))
        seen[k] = seen.get(k, 0) + 1
        if seen[k] <= 1 and len(seen) <= 12:
            print("  ", s, cl, json.dumps({k: v for k, v in c.items() if k not in ("cfg", "src")})[:1500])
    if "--explain" in sys.argv and run.violations:
        done = set()
        for s, c, cl in sorted(run.violations, key=lambda v: len(json.dumps(v[1]))):
            if (s, tuple(cl)) in done: continue
            done.add((s, tuple(cl)))
            mod = [x["trace_spec"] for x in run.suites if x["suite"] == s][0]
            r, _ = core.judge(mod, [{k: v for k, v in c.items() if k not in ("inp", "name", "note")}], env={"EXPLAIN": "1"})
            i = r.out.find("<<"); j = r.out.find('<<"VERDICT')
            print("== explain", s, cl, json.dumps(c.get("inp"))[:1200]); print(r.out[i:j] if i >= 0 else r.out[-1500:])
    for k, n in seen.items(): print("  #", k, n)
