"""Applies each case of selftest/cases/*.py to a scratch copy and compares the checks' verdicts.

usage: python3 -B selftest/run.py [name-or-property ...]
BUG cases must be reported (exit 1) by every listed property; OK cases must leave all listed (default: all) checks at 0."""
import glob, json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
VER = os.path.dirname(HERE)
ALL = sorted(os.path.basename(p)[:-3].upper() for p in glob.glob(VER + "/sa/rules/c[0-9][0-9].py"))
cases = []
def BUG(name, props, file, *edits):
    cases.append((name, "bug", props.split(), file, edits))
def OK(name, props, file, *edits):
    cases.append((name, "ok", props.split() or ALL, file, edits))
for f in sorted(glob.glob(HERE + "/cases/*.py")):
    exec(compile(open(f).read(), f, "exec"), dict(BUG=BUG, OK=OK))
def one(c):
    name, kind, props, file, edits = c
    d = tempfile.mkdtemp(prefix="st_", dir="/tmp")
    try:
        os.mkdir(d + "/r")
        for n in os.listdir("/repo"):
            if n in (".git", "build", "dist"):
                continue
            s = os.path.join("/repo", n)
            (shutil.copytree if os.path.isdir(s) else shutil.copy)(s, os.path.join(d, "r", n))
        path = os.path.join(d, "r", "CHECLabPy", file)
        t = open(path).read()
        for i in range(0, len(edits), 2):
            o, n = edits[i], edits[i + 1]
            if t.count(o) < 1:
                return name, "BROKEN CASE: text not found: " + o[:60]
            t = t.replace(o, n, 1)
        open(path, "w").write(t)
        try:
            compile(t, path, "exec")
        except SyntaxError as e:
            return name, "BROKEN CASE: %s" % e
        res = []
        for p in props:
            if p not in ALL:
                res.append("%s has no rule" % p)
                continue
            r = subprocess.run([sys.executable, "-B", "-m", "sa.check", p, "--repo", d + "/r"], cwd=VER, capture_output=True, text=True)
            want = 1 if kind == "bug" else 0
            if r.returncode != want:
                res.append("%s exit %d%s" % (p, r.returncode, "" if want else ": " + "\n     ".join(
                    [l for l in (r.stdout + r.stderr).splitlines() if not l.startswith("ok")][:8])))
        return name, "; ".join(res)
    finally:
        shutil.rmtree(d)
sel = sys.argv[1:]
cs = [c for c in cases if not sel or any(s == c[0] or s in c[2] and (c[1] == "bug" or len(c[2]) < len(ALL)) or c[0].startswith(s) for s in sel)]
if sel and all(s in ALL for s in sel):
    cs += [(n, k, sel, f, e) for n, k, p, f, e in cases if k == "ok" and len(p) == len(ALL)]
bad = 0
with ThreadPoolExecutor(8) as ex:
    for name, r in ex.map(one, cs):
        if r:
            bad += 1
            print("FAIL %-32s %s" % (name, r))
print("%d cases, %d failed" % (len(cs), bad))
