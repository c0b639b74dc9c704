"""plant(id, property, needs, what_it_breaks, edits, demo): confirms a planted bug in a scratch copy of
/repo (demo passes before and fails after, stable tests pass) and keeps it in /verif/seeded/<id>."""
import json, os, shutil, subprocess, sys, tempfile

BASE = {t for t in json.load(open("/opt/vp/BASELINE.json")).get("stable", [])} if os.path.exists("/opt/vp/BASELINE.json") else set()


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def plant(bug, prop, needs, breaks, edits, demo):
    tmp = tempfile.mkdtemp(prefix="plant_")
    try:
        cp = os.path.join(tmp, "repo")
        subprocess.check_call(["cp", "-a", "/repo", cp])
        d = os.path.join(tmp, "demo")
        os.makedirs(d)
        with open(os.path.join(d, "demo.py"), "w") as f:
            f.write("import os, sys\nsys.dont_write_bytecode = True\nsys.path.insert(0, os.getcwd())\n" + demo)
        with open(os.path.join(d, "demo.sh"), "w") as f:
            f.write('#!/bin/bash\nexec python3 "$(dirname "$0")/demo.py"\n')
        r0 = sh("bash %s/demo.sh" % d, cp)
        if r0.returncode != 0:
            print(bug, "demo fails on the clean tree:\n", r0.stdout.decode()[-1500:]); return False
        for file, old, new in edits:
            path = os.path.join(cp, "pyembroidery", file)
            b = open(path, "rb").read()
            crlf = b"\r\n" in b
            o, n = old.encode(), new.encode()
            if crlf:
                o, n = o.replace(b"\n", b"\r\n"), n.replace(b"\n", b"\r\n")
            if b.count(o) != 1:
                print(bug, "text found", b.count(o), "times in", file); return False
            open(path, "wb").write(b.replace(o, n))
        r1 = sh("bash %s/demo.sh" % d, cp)
        if r1.returncode == 0:
            print(bug, "demo passes with the patch"); return False
        work = os.path.join(tmp, "cwd"); os.makedirs(work)
        t = sh("PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/opt/vp/lib:%s PYTEST_DISABLE_PLUGIN_AUTOLOAD=1 /opt/venv/bin/python -m pytest -q -p no:cacheprovider "
               "-p pytest_timeout -p vp_seed --timeout=300 --rootdir=%s %s/test" % (cp, cp, cp), work)
        tail = t.stdout.decode().strip().split("\n")[-1]
        if t.returncode != 0:
            print(bug, "tests notice:", "\n".join(l for l in t.stdout.decode().split("\n") if l.startswith(("FAILED", "ERROR")))[:600] or tail); return False
        diff = subprocess.run(["git", "diff"], cwd=cp, stdout=subprocess.PIPE).stdout
        for file, _, _ in edits:                # lines of the original repository only
            base = subprocess.run(["git", "show", "4614fc7:pyembroidery/" + file], cwd=cp, stdout=subprocess.PIPE).stdout
            old = {l.strip() for l in base.split(b"\n")}
            one = subprocess.run(["git", "diff", "--", "pyembroidery/" + file], cwd=cp, stdout=subprocess.PIPE).stdout
            new = [l for l in one.split(b"\n") if l.startswith(b"-") and not l.startswith(b"---") and l[1:].strip() not in old]
            if new:
                print(bug, "changes lines of our own:", new); return False
        out = os.path.join("/verif/seeded", bug)
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        for f in ("demo.py", "demo.sh"):
            shutil.copy(os.path.join(d, f), out)
        open(os.path.join(out, "patch.diff"), "wb").write(diff)
        json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(os.path.join(out, "meta.json"), "w"), indent=1)
        print(bug, "kept;", tail, "| demo:", r1.stdout.decode().strip().split("\n")[-1][:150])
        return True
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def tryall(names=None):
    """runs the property's quick check against every planted bug (applied to a copy of /repo)"""
    res = {}
    for b in sorted(names or os.listdir("/verif/seeded")):
        meta = json.load(open("/verif/seeded/%s/meta.json" % b))
        tmp = tempfile.mkdtemp(prefix="plant_")
        try:
            subprocess.check_call(["cp", "-a", "/repo", tmp + "/repo"])
            subprocess.check_call(["git", "apply", "/verif/seeded/%s/patch.diff" % b], cwd=tmp + "/repo")
            env = dict(os.environ, VERIF_REPO=tmp + "/repo")
            r = subprocess.run([sys.executable, "/verif/check.py", meta["property"]], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            out = r.stdout.decode()
            hit = r.returncode == 1 and "VIOLATION property=%s " % meta["property"] in out
            cl = sorted({l.strip() for l in out.split("\n") if "failing clauses" in l})
            print("%-28s %s %s rc=%d %s" % (b, meta["property"], "CAUGHT" if hit else "missed", r.returncode, "; ".join(cl)[:160]), flush=True)
            res[b] = hit
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    return res


if __name__ == "__main__":
    tryall(sys.argv[1:])
