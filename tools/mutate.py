"""Single-edit mutants of one source file against the checks: lists the edits no check reports.

usage: python3 -B tools/mutate.py core/io/hdf5_writer.py [--rules C12,C13] [--every N]
The survivors are read by hand: an edit that breaks a property shows a gap, the others are equivalent or out of scope."""
import ast, copy, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
VER = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SLOW = {"C01", "C02", "C03", "C06", "C07", "C08"}
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
       ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.Mod: ast.Mult, ast.FloorDiv: ast.Div, ast.Pow: ast.Mult}


def docs(tree):
    out = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Module, ast.ClassDef, ast.FunctionDef)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(
                n.body[0].value, ast.Constant):
            out.add(id(n.body[0].value))
            out.add(id(n.body[0]))
        if isinstance(n, ast.Call) and (getattr(n.func, "id", "") == "print" or getattr(n.func, "attr", "") in ("add_argument", "ArgumentParser", "format")) \
                or isinstance(n, ast.Raise):
            for x in ast.walk(n):
                out.add(id(x))
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            out.add(id(n))
    return out


def sites(tree):
    """(description, function applied to a copy's node at the same walk position)"""
    skip = docs(tree)
    for i, n in enumerate(ast.walk(tree)):
        if id(n) in skip:
            continue
        ln = getattr(n, "lineno", 0)
        if isinstance(n, ast.Compare) and type(n.ops[0]) in CMP:
            yield i, ln, "cmp", lambda m: m.ops.__setitem__(0, CMP[type(m.ops[0])]())
        if isinstance(n, (ast.BinOp, ast.AugAssign)) and type(n.op) in BIN and not (
                isinstance(n, ast.BinOp) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            yield i, ln, "op", lambda m: setattr(m, "op", BIN[type(m.op)]())
        if isinstance(n, ast.BoolOp):
            yield i, ln, "bool", lambda m: setattr(m, "op", ast.Or() if isinstance(m.op, ast.And) else ast.And())
        if isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                yield i, ln, "flip", lambda m: setattr(m, "value", not m.value)
            elif isinstance(n.value, (int, float)):
                yield i, ln, "const+1", lambda m: setattr(m, "value", m.value + 1)
            elif isinstance(n.value, str):
                yield i, ln, "str", lambda m: setattr(m, "value", m.value + "x")
        if isinstance(n, (ast.If, ast.While, ast.IfExp)):
            yield i, ln, "negate", lambda m: setattr(m, "test", ast.UnaryOp(ast.Not(), m.test))
        if isinstance(n, ast.Call) and len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
            yield i, ln, "swap", lambda m: m.args.__setitem__(slice(0, 2), [m.args[1], m.args[0]])
        if isinstance(n, ast.Call):
            for k in range(len(n.keywords)):
                yield i, ln, "dropkw", lambda m, k=k: m.keywords.pop(k)
        if isinstance(n, ast.Return) and n.value is not None:
            pass
        for fld in ("body", "orelse", "finalbody"):
            b = getattr(n, fld, None)
            if isinstance(b, list):
                for k, s in enumerate(b):
                    if id(s) in skip or isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.Pass, ast.Import, ast.ImportFrom, ast.Raise)):
                        continue
                    if isinstance(s, (ast.Assign, ast.AugAssign, ast.Expr, ast.If, ast.Continue, ast.Break, ast.For, ast.Return)):
                        yield i, s.lineno, "delete", lambda m, fld=fld, k=k: getattr(m, fld).__setitem__(k, ast.Pass())


def mutants(src):
    tree = ast.parse(src)
    for i, ln, kind, f in sites(tree):
        t = copy.deepcopy(tree)
        m = list(ast.walk(t))[i]
        f(m)
        ast.fix_missing_locations(t)
        try:
            yield ln, kind, ast.unparse(t)
        except Exception:
            continue


def main():
    file = sys.argv[1]
    opt = {a.split("=")[0]: a.split("=")[1] for a in sys.argv[2:] if "=" in a}
    allr = sorted(p[:-3].upper() for p in os.listdir(VER + "/sa/rules") if p[0] == "c" and p[1:3].isdigit() and len(p) == 6)
    rules = opt.get("--rules", "").split(",") if "--rules" in opt else [r for r in allr if r not in SLOW]
    src = open("/repo/CHECLabPy/" + file).read()
    base = ast.unparse(ast.parse(src))
    lines = src.splitlines()
    ms = [m for m in mutants(src) if m[2] != base][:: int(opt.get("--every", 1))]

    def one(m):
        ln, kind, text = m
        d = tempfile.mkdtemp(prefix="mu_", dir="/tmp")
        try:
            shutil.copytree("/repo/CHECLabPy", d + "/r/CHECLabPy", ignore=shutil.ignore_patterns("__pycache__", "tests"))
            for n in ("setup.py", "README.md", "dev", "examples", "tutorials"):
                s = "/repo/" + n
                if os.path.isfile(s):
                    shutil.copy(s, d + "/r")
                elif os.path.isdir(s):
                    shutil.copytree(s, d + "/r/" + n)
            open(d + "/r/CHECLabPy/" + file, "w").write(text)
            und = 0
            for r in rules:
                x = subprocess.run([sys.executable, "-B", "-m", "sa.check", r, "--repo", d + "/r"], cwd=VER, capture_output=True, text=True)
                if x.returncode == 1:
                    return m, r
                if x.returncode:
                    return m, r + " exit %d" % x.returncode
                und += " 0 undecided" not in x.stdout
            return m, "-" + str(und)
        finally:
            shutil.rmtree(d)
    n = 0
    import difflib
    with ThreadPoolExecutor(8) as ex:
        for m, r in ex.map(one, ms):
            if r.startswith("C") and "exit" not in r:
                n += 1
                continue
            d = [l for l in difflib.unified_diff(base.splitlines(), m[2].splitlines(), lineterm="", n=0) if l[:1] in "+-" and l[:3] not in ("+++", "---")]
            print("%4d %-8s %-8s %s" % (m[0], m[1], r, " => ".join(x.strip()[1:].strip()[:90] for x in d[:2])))
    print("%s: %d mutants, %d reported, %d not" % (file, len(ms), n, len(ms) - n))


if __name__ == "__main__":
    main()
