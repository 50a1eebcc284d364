"""Builds and confirms planted bugs: python3 -B tools/mkseed.py SPEC.py [id ...]

A spec file calls SEED(id, property, file-under-CHECLabPy, [(old, new), ...], demo_source, needs, breaks).
For each: the patch is made in a scratch copy of /repo (outside /repo and /verif), the demonstration must pass on the
unchanged copy and fail on the patched one, the stable tests must pass with it, and all removed lines must be original.
Only then is seeded/<id>/ written; the property's check is run and its verdict printed."""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
VER = os.path.dirname(HERE)
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", HOME="/root", MPLCONFIGDIR="/opt/venv/mplconfig",
           NUMBA_NUM_THREADS="4")
seeds = []


def SEED(id, prop, file, edits, demo, needs, breaks):
    seeds.append((id, prop, file if isinstance(file, list) else [file], edits, demo, needs, breaks))


DEMO_SH = """#!/bin/bash
# run with cwd at the repository root; exit 0: the property holds on this demonstration
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONWARNINGS=ignore
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
"""


def run(cmd, cwd, timeout=290):
    return subprocess.run(cmd, cwd=cwd, env=ENV, capture_output=True, text=True, timeout=timeout)


def blame_ok(files, diff):
    """all removed lines come from the base commit"""
    cur, bad, removed = None, [], 0
    old = 0
    blames = {}
    for l in diff.splitlines():
        if l.startswith("--- a/"):
            cur = l[6:]
            blames[cur] = subprocess.run(["git", "blame", "-s", "--root", cur], cwd="/repo", capture_output=True, text=True).stdout.splitlines()
        elif l.startswith("@@"):
            old = int(l.split()[1].split(",")[0][1:])
        elif l.startswith("-"):
            removed += 1
            if not blames[cur][old - 1].lstrip("^").startswith("e31385b"[:6]):
                bad.append(l)
            old += 1
        elif l.startswith(" "):
            old += 1
    return bad, removed


def one(s):
    id, prop, files, edits, demo, needs, breaks = s
    d = tempfile.mkdtemp(prefix="seed_", dir="/tmp")
    msg = []
    try:
        r = d + "/repo"
        subprocess.run(["cp", "-a", "/repo", r], check=True)
        dd = d + "/demo"
        os.mkdir(dd)
        open(dd + "/demo.py", "w").write(demo.lstrip("\n"))
        open(dd + "/demo.sh", "w").write(DEMO_SH)
        a = run(["bash", dd + "/demo.sh"], r)
        if a.returncode != 0:
            return id, False, "demo fails on the unchanged tree: " + (a.stdout + a.stderr)[-1500:]
        for e in edits:
            f, o, n = e if len(e) == 3 else (files[0],) + tuple(e)
            p = os.path.join(r, "CHECLabPy", f)
            t = open(p).read()
            if t.count(o) < 1:
                return id, False, "text not found: " + o[:80]
            open(p, "w").write(t.replace(o, n, 1))
        diff = run(["git", "diff"], r).stdout
        bad, removed = blame_ok(files, diff)
        if bad or not removed:
            msg.append("WARNING not original lines: %s (removed %d)" % (bad, removed))
        b = run(["bash", dd + "/demo.sh"], r)
        if b.returncode == 0:
            return id, False, "demo passes with the bug"
        run(["find", "CHECLabPy", "-name", "__pycache__", "-prune", "-exec", "rm", "-rf", "{}", "+"], r)
        base = json.load(open("/opt/vp/BASELINE.json"))
        env = dict(ENV, PYTHONPATH=r)
        t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "CHECLabPy/spectrum_fitters", "CHECLabPy/stats",
                            "--continue-on-collection-errors", "--ignore=CHECLabPy/core/tests/test_io.py", "CHECLabPy/core/tests",
                            "-rA"], cwd=r, env=env, capture_output=True, text=True)
        passed = {l.split()[1] for l in t.stdout.splitlines() if l.startswith("PASSED")}
        npass = len(passed)
        t0 = STABLE
        if not t0 <= passed:
            return id, False, "tests lost: %s" % sorted(t0 - passed)
        c = subprocess.run([sys.executable, "-B", "-m", "sa.check", prop, "--repo", r], cwd=VER, capture_output=True, text=True) \
            if os.path.exists(VER + "/sa/rules/%s.py" % prop.lower()) else None
        out = VER + "/seeded/" + id
        os.makedirs(out, exist_ok=True)
        open(out + "/patch.diff", "w").write(diff)
        shutil.copy(dd + "/demo.py", out)
        shutil.copy(dd + "/demo.sh", out)
        os.chmod(out + "/demo.sh", 0o755)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(out + "/meta.json", "w"), indent=1)
        msg.append("CAUGHT" if c and c.returncode == 1 else "MISSED (exit %s)" % (c.returncode if c else "no rule"))
        if c and c.returncode == 1:
            msg += [l[:300] for l in c.stdout.splitlines() if not l.startswith("ok")][:3]
        msg.append("demo: " + (b.stdout + b.stderr).strip().splitlines()[-1][:150])
        return id, True, "\n   ".join(msg)
    finally:
        shutil.rmtree(d)


exec(compile(open(sys.argv[1]).read(), sys.argv[1], "exec"), dict(SEED=SEED))
sel = sys.argv[2:]


def stable():
    b = json.load(open("/opt/vp/BASELINE.json"))
    d = tempfile.mkdtemp(prefix="seed_", dir="/tmp")
    try:
        r = d + "/repo"
        subprocess.run(["cp", "-a", "/repo", r], check=True)
        t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "CHECLabPy/spectrum_fitters", "CHECLabPy/stats",
                            "--continue-on-collection-errors", "--ignore=CHECLabPy/core/tests/test_io.py", "CHECLabPy/core/tests",
                            "-rA"], cwd=r, env=dict(ENV, PYTHONPATH=r), capture_output=True, text=True)
        return {l.split()[1] for l in t.stdout.splitlines() if l.startswith("PASSED")}
    finally:
        shutil.rmtree(d)


STABLE = stable()
print("%d tests pass on the unchanged tree" % len(STABLE))
todo = [s for s in seeds if not sel or s[0] in sel]
with ThreadPoolExecutor(4) as ex:
    for id, ok, m in ex.map(one, todo):
        print("%s %s: %s" % ("KEPT" if ok else "REJECTED", id, m), flush=True)
