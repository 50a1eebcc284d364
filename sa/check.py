"""Entry point of every check:  python3 -m sa.check C15 [--repo /repo]

Exit 0: every decided obligation holds (undecided ones are printed and counted).
Exit 1: a line  VIOLATION property=<id> replay=<path>  for each violated obligation.
Exit 2: the analysis is broken (a public anchor vanished, nothing was decided).
"""
import importlib
import json
import os
import sys
import time
import traceback
from contextlib import contextmanager

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)

from .loader import Program, AnchorError          # noqa: E402
from .interp import Interp, Limit, flat_events    # noqa: E402
from .terms import *                              # noqa: E402,F403
from . import terms as T                          # noqa: E402

OK, BAD, UND = "ok", "bad", "undecided"


class Ctx:
    def __init__(self, prop, prog, tier="quick"):
        self.prop, self.P, self.tier = prop, prog, tier
        self.obs = []
        self.keys = {}
        self.functions = set()
        self.npaths = 0
        self.nevents = 0
        self.explanation = ""
        self.assumptions = []
        self.interps = []

    # -------------------------------------------------- obligations
    def add(self, verdict, key, what, where=None, path=None):
        """key identifies the obligation (rule + construct); a key keeps its worst verdict"""
        rank = {OK: 0, UND: 1, BAD: 2}
        o = self.keys.get(key)
        if o is None:
            o = dict(key=key, verdict=verdict, what=what, where=where or "", instances=1)
            self.keys[key] = o
            self.obs.append(o)
        else:
            o["instances"] += 1
            if rank[verdict] > rank[o["verdict"]]:
                o.update(verdict=verdict, what=what, where=where or "")
        if path and verdict != OK:
            o["path"] = path
        return verdict == OK

    def ok(self, key, what, where=None):
        return self.add(OK, key, what, where)

    def bad(self, key, what, where=None, path=None):
        return self.add(BAD, key, what, where, path)

    def und(self, key, what, where=None):
        return self.add(UND, key, what, where)

    def judge(self, key, verdict, what_ok, what_bad=None, where=None, path=None):
        if verdict is True:
            return self.ok(key, what_ok, where)
        if verdict is None:
            return self.und(key, what_bad or what_ok, where)
        return self.bad(key, what_bad or ("not: " + what_ok), where, path)

    @contextmanager
    def section(self, key):
        """an analysis step that a refactoring may take out of reach: then undecided"""
        try:
            yield
        except AnchorError:
            raise
        except Limit as e:
            self.und(key, "analysis budget exceeded: %s" % e)
        except RecursionError:
            self.und(key, "analysis budget exceeded: recursion")
        except Exception as e:                                   # noqa: BLE001
            self.und(key, "not analysable: %s: %s" % (type(e).__name__, e))
            self.keys[key]["trace"] = traceback.format_exc()

    # -------------------------------------------------- interpreters
    def interp(self, **kw):
        I = Interp(self.P, **kw)
        if self.tier == "thorough":
            I.maxpaths *= 4
            I.maxsteps *= 4
        self.interps.append(I)
        return I

    def count(self, paths):
        self.npaths += len(paths)
        for p in paths:
            for e, _ in flat_events(p.events):
                self.nevents += 1
        return paths

    def run(self, fn, I=None, **kw):
        I = I or self.interp()
        self.functions.add(fn.qual)
        return self.count(I.run(fn, **kw))

    def method(self, cls, name, I=None, **kw):
        """paths of a method as looked up on the class"""
        d, f = cls.lookup(name)
        if f is None:
            raise AnchorError("%s.%s not found" % (cls.qual, name))
        from .loader import Func
        if not isinstance(f, Func):
            raise AnchorError("%s.%s is not a function" % (cls.qual, name))
        return self.run(f, I, cls=cls, **kw)


# ------------------------------------------------------------ known findings
def known_findings(prop):
    out = {}
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if line.startswith("known: property=%s key=" % prop):
                    rest = line.split(" key=", 1)[1]
                    key, _, text = rest.partition(" :: ")
                    out[key.strip()] = text.strip()
    return out


def main(argv):
    prop = argv[0]
    repo = "/repo"
    if "--repo" in argv:
        repo = argv[argv.index("--repo") + 1]
    verbose = "-v" in argv
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        tier = "thorough"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    t0 = time.time()
    try:
        prog = Program(repo)
    except SyntaxError as e:
        print("analysis broken: %s" % e)
        return 2
    ctx = Ctx(prop, prog, tier)
    rule = importlib.import_module("sa.rules.%s" % prop.lower())
    try:
        rule.run(ctx)
    except AnchorError as e:
        print("analysis broken: anchor vanished: %s" % e)
        return 2
    for I in ctx.interps:
        ctx.functions |= {q if isinstance(q, str) else q.qual for q in I.inlined}
    known = known_findings(prop)
    bad = [o for o in ctx.obs if o["verdict"] == BAD and o["key"] not in known]
    kn = [o for o in ctx.obs if o["verdict"] == BAD and o["key"] in known]
    und = [o for o in ctx.obs if o["verdict"] == UND]
    good = [o for o in ctx.obs if o["verdict"] == OK]
    edir = os.path.join(HERE, "evidence")
    if repo == "/repo":
        os.makedirs(os.path.join(edir, "replay"), exist_ok=True)
    for o in kn:
        print("KNOWN-FINDING: property=%s %s: %s" % (prop, o["key"], known[o["key"]] or o["what"]))
    replay = os.path.join(edir, "replay", prop + ".json")
    for o in bad:
        print("VIOLATION property=%s replay=%s" % (prop, replay))
        print("  rule/construct: %s\n  at: %s\n  %s" % (o["key"], o["where"], o["what"]))
        if o.get("path"):
            print("  path: %s" % o["path"])
    for o in und:
        print("undecided: %s: %s" % (o["key"], o["what"][:300]))
        if verbose and o.get("trace"):
            print(o["trace"])
    if verbose:
        for o in good:
            print("ok: %s: %s (%s)" % (o["key"], o["what"][:200], o["where"]))
    wall = round(time.time() - t0, 3)
    print("%s: %d obligations, %d discharged, %d violated, %d known, %d undecided; %d functions, %d paths, %d events, %.1fs"
          % (prop, len(ctx.obs), len(good), len(bad), len(kn), len(und), len(ctx.functions), ctx.npaths, ctx.nevents, wall))
    if repo == "/repo":
        samples = [dict(obligation=o["key"], verdict=o["verdict"], what=o["what"][:400], where=o["where"])
                   for o in (bad + kn + good)[:12]]
        ev = dict(
            property=prop, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level="other",
            coverage=dict(
                explanation=" ".join((ctx.explanation or rule.__doc__ or "").split()),
                obligations=len(ctx.obs), discharged=len(good), undecided=len(und), known_findings=len(kn),
                instances=sum(o["instances"] for o in ctx.obs),
                functions_analysed=len(ctx.functions), modules_parsed=len(prog.modules),
                paths=ctx.npaths, events=ctx.nevents,
                undecided_list=[o["key"] + ": " + o["what"][:200] for o in und][:40],
                samples=samples),
            assumptions=ctx.assumptions, wall_s=wall, violations=len(bad))
        with open(os.path.join(edir, prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        if bad:
            with open(replay, "w") as f:
                json.dump(dict(property=prop, violations=bad,
                               how="run 'python3 -m sa.check %s -v' in /verif" % prop), f, indent=1, default=str)
    if bad:
        return 1
    if not good and not kn:
        print("analysis broken: no obligation was decided")
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
