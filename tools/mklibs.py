"""Snapshot of the names the installed libraries provide, for rule C29 (run with /opt/venv/bin/python; writes sa/libs.json).
Only library namespaces are read; the code under analysis is not imported."""
import ast, importlib, inspect, io, json, os, pkgutil, subprocess, sys, sysconfig, types, warnings
warnings.simplefilter("ignore")
os.environ["MPLBACKEND"] = "agg"
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "sa", "libs.json")
MODS = """numpy numpy.linalg numpy.random numpy.ma numpy.fft numpy.polynomial numpy.testing numpy.lib numpy.lib.stride_tricks numpy.core
pandas pandas.errors pandas.api pandas.api.types pandas.io pandas.io.pytables pandas.plotting pandas.core pandas.tseries
matplotlib matplotlib.pyplot matplotlib.ticker matplotlib.patches matplotlib.colors matplotlib.collections matplotlib.cm matplotlib.figure matplotlib.axes
matplotlib.lines matplotlib.gridspec matplotlib.dates matplotlib.patheffects matplotlib.style matplotlib.transforms matplotlib.animation matplotlib.backends.backend_pdf matplotlib.image matplotlib.legend matplotlib.text matplotlib.rcsetup
mpl_toolkits.axes_grid1
scipy scipy.stats scipy.special scipy.optimize scipy.interpolate scipy.ndimage scipy.signal scipy.integrate scipy.linalg scipy.constants scipy.fft
astropy astropy.io astropy.io.fits astropy.units astropy.constants astropy.time astropy.stats
numba numba.typed numba.types numba.core numba.core.errors
iminuit iminuit.cost iminuit.util iminuit.iminuit_warnings
tables yaml tqdm packaging packaging.version
os os.path sys re json pickle math cmath argparse warnings inspect pkgutil importlib importlib.util collections collections.abc functools itertools operator copy glob shutil time datetime
gzip struct abc enum multiprocessing threading subprocess string random types typing pathlib tempfile io logging contextlib traceback textwrap bisect heapq statistics fractions decimal numbers weakref csv hashlib urllib urllib.request socket signal queue concurrent.futures dataclasses errno fnmatch getpass platform pprint uuid zipfile zlib bz2 unittest""".split()
CLASSES = """pandas.DataFrame pandas.Series pandas.Index pandas.HDFStore pandas.Timestamp numpy.ndarray numpy.ma.MaskedArray matplotlib.figure.Figure matplotlib.axes.Axes matplotlib.colorbar.Colorbar iminuit.Minuit
argparse.ArgumentParser argparse.Namespace datetime.datetime datetime.timedelta collections.defaultdict collections.OrderedDict collections.Counter collections.deque pathlib.Path multiprocessing.pool.Pool
builtins.str builtins.bytes builtins.list builtins.dict builtins.set builtins.tuple builtins.int builtins.float builtins.frozenset io.TextIOWrapper io.BufferedReader gzip.GzipFile
pandas.core.groupby.generic.DataFrameGroupBy pandas.core.groupby.generic.SeriesGroupBy matplotlib.patches.Rectangle matplotlib.patches.Circle matplotlib.collections.PatchCollection
scipy.interpolate.interp1d numba.typed.List numba.typed.Dict astropy.time.Time random.Random numpy.random.RandomState numpy.random.Generator matplotlib.gridspec.GridSpec matplotlib.backends.backend_pdf.PdfPages""".split()


def sig(o):
    """[names by position, number of required, keyword-only names, required keyword-only, *args, **kwargs] or None"""
    try:
        s = inspect.signature(o)
    except (ValueError, TypeError):
        return None
    pos, req, kwo, kreq, va, vk, po = [], 0, [], [], 0, 0, 0
    for p in s.parameters.values():
        if p.kind in (p.POSITIONAL_ONLY, p.POSITIONAL_OR_KEYWORD):
            pos.append(p.name)
            po += p.kind == p.POSITIONAL_ONLY
            req += p.default is p.empty
        elif p.kind == p.KEYWORD_ONLY:
            kwo.append(p.name)
            if p.default is p.empty:
                kreq.append(p.name)
        elif p.kind == p.VAR_POSITIONAL:
            va = 1
        else:
            vk = 1
    return [pos, req, kwo, kreq, va, vk, po]


def one(name):
    """names of a freshly imported module"""
    m = importlib.import_module(name)
    names = set(dir(m))
    for n in list(getattr(m, "__all__", [])):
        names.add(n)
    if "__getattr__" in vars(m):
        # names provided on demand: every string in the module's source that it answers to
        try:
            for x in ast.walk(ast.parse(inspect.getsource(m))):
                if isinstance(x, ast.Constant) and isinstance(x.value, str) and x.value.isidentifier():
                    names.add(x.value)
        except (OSError, SyntaxError, TypeError):
            pass
    kinds, sigs = {}, {}
    for n in sorted(names):
        try:
            o = getattr(m, n)
        except Exception:
            continue
        if isinstance(o, types.ModuleType):
            kinds[n] = "m" + o.__name__
        elif inspect.isclass(o):
            kinds[n] = "c" + o.__module__ + "." + o.__qualname__
        else:
            kinds[n] = "f" if callable(o) else "o"
        if callable(o) and not n.startswith("_"):
            s = sig(o)
            if s is not None:
                sigs[n] = s
    return kinds, sigs


def classes():
    out = {}
    for q in CLASSES:
        mod, _, n = q.rpartition(".")
        try:
            c = getattr(importlib.import_module(mod), n)
        except Exception:
            continue
        meths = {}
        for a in dir(c):
            try:
                o = getattr(c, a)
            except Exception:
                meths[a] = None
                continue
            st = inspect.getattr_static(c, a, None)
            if callable(o) and not isinstance(st, property) and not inspect.isclass(o):
                s = sig(o)
                if s is not None and not isinstance(st, (staticmethod, classmethod)) and s[0]:
                    s = [s[0][1:], max(0, s[1] - 1), *s[2:6], max(0, s[6] - 1)]
                elif s is not None and not s[0] and not s[4]:
                    s = None
                meths[a] = s
            else:
                meths[a] = None
        out[q] = dict(attrs=meths, dynamic=hasattr(c, "__getattr__"), real=c.__module__ + "." + c.__qualname__, new=sig(c))
    return out


TOPS = ("numpy", "pandas", "matplotlib", "scipy", "astropy", "numba", "iminuit", "tables", "yaml", "tqdm", "packaging", "mpl_toolkits")


def vocab():
    """every attribute name that classes and modules of the libraries are seen to have"""
    for m in MODS:
        try:
            importlib.import_module(m)
        except Exception:
            pass
    names = set()
    for k, m in list(sys.modules.items()):
        if k.split(".")[0] not in TOPS and k.split(".")[0] not in sys.stdlib_module_names:
            continue
        for n in dir(m):
            names.add(n)
            try:
                o = getattr(m, n)
            except Exception:
                continue
            if inspect.isclass(o):
                try:
                    names.update(dir(o))
                except Exception:
                    pass
    site = sysconfig.get_paths()["purelib"]
    roots = [os.path.join(site, t) for t in TOPS] + [os.path.join(sysconfig.get_paths()["stdlib"], t) for t in ("argparse.py", "multiprocessing", "gzip.py", "datetime.py", "struct.py", "pickle.py", "json", "collections", "logging", "subprocess.py", "tempfile.py", "zipfile.py", "inspect.py", "types.py", "os.py", "io.py", "threading.py")]
    for r in roots:
        files = [r] if r.endswith(".py") else [os.path.join(d, f) for d, ds, fs in os.walk(r) for f in fs if f.endswith(".py") and "tests" not in d]
        for f in files:
            try:
                t = ast.parse(open(f, encoding="utf-8").read())
            except Exception:
                continue
            for x in ast.walk(t):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                    names.add(x.attr)
    return sorted(n for n in names if n.isidentifier())


if __name__ == "__main__":
    if sys.argv[1:] == ["--vocab"]:
        old = sys.stdout
        sys.stdout = io.StringIO()
        r = vocab()
        old.write(json.dumps(r))
        sys.exit()
    if len(sys.argv) > 1:
        old = sys.stdout
        sys.stdout = io.StringIO()
        r = classes() if sys.argv[1] == "--classes" else one(sys.argv[1])
        old.write(json.dumps(r))
        sys.exit()
    D = dict(modules={}, sigs={}, tops=[], known=[], stdlib=sorted(sys.stdlib_module_names))
    for m in MODS:
        p = subprocess.run([sys.executable, __file__, m], capture_output=True, text=True, cwd="/tmp")
        if p.returncode:
            print("not there:", m, p.stderr.strip().split("\n")[-1][:100])
            continue
        k, s = json.loads(p.stdout)
        D["modules"][m] = k
        for n, x in s.items():
            D["sigs"][m + "." + n] = x
    D["classes"] = json.loads(subprocess.run([sys.executable, __file__, "--classes"], capture_output=True, text=True, cwd="/tmp").stdout)
    site = sysconfig.get_paths()["purelib"]
    tops = set()
    for x in pkgutil.iter_modules([site]):
        tops.add(x.name)
    D["tops"] = sorted(tops)
    known = set()
    for top in ("numpy", "pandas", "matplotlib", "scipy", "astropy", "numba", "iminuit", "tables", "yaml", "tqdm", "packaging", "mpl_toolkits"):
        base = os.path.join(site, top)
        for d, dirs, files in os.walk(base):
            dirs[:] = [x for x in dirs if x not in ("tests", "__pycache__", "test", "sphinxext", "f2py", "cuda")]
            pre = os.path.relpath(d, site).replace(os.sep, ".")
            if "__init__.py" in files:
                known.add(pre)
            for f in files:
                if f.endswith(".py") and f != "__init__.py":
                    known.add(pre + "." + f[:-3])
                elif f.endswith(".so"):
                    known.add(pre + "." + f.split(".")[0])
    D["known"] = sorted(known)
    D["vocab"] = " ".join(json.loads(subprocess.run([sys.executable, __file__, "--vocab"], capture_output=True, text=True, cwd="/tmp").stdout))
    import builtins
    D["builtins"] = {n: sig(getattr(builtins, n)) if callable(getattr(builtins, n)) else None for n in dir(builtins)}
    with open(OUT, "w") as f:
        json.dump(D, f, sort_keys=True, separators=(",", ":"))
    print(len(D["modules"]), "modules", len(D["sigs"]), "signatures", len(D["known"]), "submodules", os.path.getsize(OUT), "bytes")
