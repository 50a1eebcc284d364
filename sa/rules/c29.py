"""Names.  Scope analysis (symbol tables) of every module for global names; every import, attribute chain on a module or class,
member of self and of objects whose class is evident (constructor results, self attributes and locals with one type), and every
call with a known callee is resolved against the package's own definitions or the snapshot of the installed libraries
(sa/libs.json: namespaces and signatures only)."""
import ast
import builtins
import json
import os
import symtable
import warnings

from .util import *
from ..loader import Func as LFunc, Module as LModule, walk_own

LIBS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "libs.json")
PKG = "CHECLabPy"
MODULE_DUNDER = {"__name__", "__file__", "__path__", "__doc__", "__package__", "__spec__", "__loader__", "__builtins__", "__annotations__", "__class__", "__module__", "__qualname__"}
# decorators that keep the signature
KEEP = ("staticmethod", "classmethod", "abstractmethod", "njit", "jit", "wraps", "contextmanager", "lru_cache", "cached_property", "property")
RETURNS = {"matplotlib.pyplot.figure": "matplotlib.figure.Figure", "matplotlib.pyplot.gcf": "matplotlib.figure.Figure", "matplotlib.pyplot.gca": "matplotlib.axes.Axes",
           "matplotlib.pyplot.subplot": "matplotlib.axes.Axes", "matplotlib.pyplot.axes": "matplotlib.axes.Axes", "pandas.concat": None, "pandas.read_csv": "pandas.DataFrame",
           "pandas.merge": "pandas.DataFrame", "multiprocessing.Pool": "multiprocessing.pool.Pool", "gzip.open": "gzip.GzipFile", "datetime.datetime.now": "datetime.datetime",
           "matplotlib.pyplot.colorbar": "matplotlib.colorbar.Colorbar"}
ARRAYS = ("zeros", "ones", "empty", "full", "arange", "linspace", "logspace", "geomspace", "array", "concatenate", "stack", "vstack", "hstack", "column_stack", "digitize", "bincount", "eye", "tile",
          "loadtxt", "genfromtxt", "meshgrid_", "frombuffer", "argsort_", "histogram_", "logical_and_")
METHODS = {("matplotlib.figure.Figure", "add_subplot"): "matplotlib.axes.Axes", ("matplotlib.figure.Figure", "add_axes"): "matplotlib.axes.Axes", ("matplotlib.figure.Figure", "gca"): "matplotlib.axes.Axes",
           ("matplotlib.figure.Figure", "colorbar"): "matplotlib.colorbar.Colorbar", ("matplotlib.axes.Axes", "twinx"): "matplotlib.axes.Axes", ("matplotlib.axes.Axes", "twiny"): "matplotlib.axes.Axes",
           ("matplotlib.axes.Axes", "get_figure"): "matplotlib.figure.Figure",
           ("pandas.DataFrame", "groupby"): "pandas.core.groupby.generic.DataFrameGroupBy",
           ("pandas.core.groupby.generic.DataFrameGroupBy", "agg"): "pandas.DataFrame"}
for _m in ("copy", "drop_duplicates", "reset_index", "set_index", "sort_values", "sort_index", "rename", "fillna", "dropna", "assign", "astype", "head", "tail", "sample", "merge", "join", "query", "drop", "nlargest"):
    METHODS["pandas.DataFrame", _m] = "pandas.DataFrame"
for _m in ("sum", "mean", "min", "max", "count", "first", "last", "std", "var", "median", "apply_"):
    METHODS["pandas.core.groupby.generic.DataFrameGroupBy", _m] = "pandas.DataFrame"
for _m in ("upper", "lower", "strip", "lstrip", "rstrip", "replace", "format", "join", "title", "capitalize", "zfill", "ljust", "rjust", "center"):
    METHODS["builtins.str", _m] = "builtins.str"
METHODS["builtins.str", "split"] = METHODS["builtins.str", "splitlines"] = METHODS["builtins.str", "rsplit"] = "builtins.list"
for _m in ("reshape", "ravel", "flatten", "copy", "astype", "transpose", "squeeze", "repeat", "round_", "swapaxes"):
    METHODS["numpy.ndarray", _m] = "numpy.ndarray"
COLUMNS = ("pandas.DataFrame", "pandas.Series", "pandas.core.groupby.generic.DataFrameGroupBy", "argparse.Namespace", "pandas.HDFStore")


class Lib:
    def __init__(self):
        with open(LIBS) as f:
            d = json.load(f)
        self.mods, self.sigs, self.classes = d["modules"], d["sigs"], d["classes"]
        self.vocab = set(d["vocab"].split())
        self.known, self.tops, self.stdlib, self.builtins = set(d["known"]), set(d["tops"]), set(d["stdlib"]), d["builtins"]
        self.walked = {k.split(".")[0] for k in self.known}
        self.real = {c["real"]: q for q, c in self.classes.items()}

    def installed(self, dotted):
        t = dotted.split(".")[0]
        return t in self.tops or t in self.stdlib

    def is_module(self, d):
        return d in self.mods or d in self.known

    def module_missing(self, d):
        """True if module d certainly does not exist"""
        t = d.split(".")[0]
        if t in self.walked:
            return not self.is_module(d)
        return False

    def step(self, cur, a):
        """member a of module cur: ("module", m) / ("class", q) / ("func", q) / ("other",) / ("missing",) / None"""
        ns = self.mods.get(cur)
        if ns is None:
            return ("module", cur + "." + a) if cur + "." + a in self.known else None
        if a in ns:
            k = ns[a]
            if k[0] == "m":
                return ("module", k[1:])
            if k[0] == "c":
                return ("class", self.name(k[1:], cur + "." + a), cur + "." + a)
            if k[0] == "f":
                return ("func", cur + "." + a)
            return ("other",)
        if self.is_module(cur + "." + a):
            return ("module", cur + "." + a)
        if a.startswith("__"):
            return None
        return ("missing",)

    def name(self, real, seen):
        if seen in self.classes:
            return seen
        return self.real.get(real, seen)


def run(ctx):
    C = Check(ctx)
    n = 0
    for name in sorted(ctx.P.modules):
        m = ctx.P.modules[name]
        if ".tests" in name or name.startswith("_ref"):
            continue
        n += 1
        with ctx.section(C.short(m)):
            C.module(m)
    if n < 40:
        raise AnchorError("modules of the package")
    C.finish()
    ctx.functions |= C.fns
    ctx.assumptions.append("sa/libs.json describes the installed libraries; names of libraries that are not installed here (%s) are not checked" % ", ".join(sorted(C.absent)) )
    ctx.assumptions.append("objects whose class is not evident from the function or class that uses them are not resolved")


class Check:
    def __init__(self, ctx):
        self.ctx, self.P, self.L = ctx, ctx.P, Lib()
        self.absent = set()
        self.memo = {}
        self.members_memo = {}
        self.attr_types_memo = {}
        self.busy = set()
        self.dynamic = {}
        self.fns = set()
        self.pending = []
        for name, m in self.P.modules.items():
            if m.is_pkg and "globals()" in ast.unparse(m.tree):
                self.dynamic[name] = True

    def short(self, m):
        return m.name.replace(PKG + ".", "")

    def bad(self, m, what, text, node, scope):
        self.ctx.bad("%s:%s" % (scope, what), text, "%s:%d" % (m.rel, node.lineno))

    # ------------------------------------------------------------ modules
    def module(self, m):
        P = self.P
        with open(m.path, encoding="utf-8") as f:
            src = f.read()
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            top = symtable.symtable(src, m.path, "exec")
        names = {s.get_name() for s in top.get_symbols() if s.is_assigned() or s.is_imported() or s.is_namespace()} | set(m.env)
        if any(isinstance(n, ast.ImportFrom) and any(a.name == "*" for a in n.names) for n in ast.walk(m.tree)):
            if any(isinstance(n, ast.ImportFrom) and any(a.name == "*" for a in n.names) and not self.star_known(m, n) for n in ast.walk(m.tree)):
                names.add("*")
        self.scopes(m, top, names)
        # variables of the module body
        body = ast.FunctionDef(name="<module>", args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), body=m.tree.body, decorator_list=[])
        loc, types = self.locals(m, body, None, None, {}, {})
        written = {n for f in ast.walk(m.tree) if isinstance(f, ast.Global) for n in f.names}
        types = {k: v for k, v in types.items() if k not in written}
        for s in m.tree.body:
            # functions and classes are bound in m.env
            self.stmt(m, s, None, None, self.short(m), {k: v for k, v in loc.items() if v is None and not isinstance(m.env.get(k), (LFunc, Class))}, None, types)

    def star_known(self, m, n):
        for _, d in self.P.import_binding(m, n):
            if d in self.P.modules and d not in self.dynamic:
                return True
        return False

    def scopes(self, m, top, names):
        glob = set(names)

        def collect(t):
            for s in t.get_symbols():
                if s.is_declared_global() and s.is_assigned():
                    glob.add(s.get_name())
            for c in t.get_children():
                collect(c)
        collect(top)
        found = []

        def go(t, path):
            for s in t.get_symbols():
                n = s.get_name()
                if not s.is_referenced():
                    continue
                if t.get_type() == "module":
                    free = not (s.is_assigned() or s.is_imported() or s.is_namespace()) or n not in glob
                else:
                    free = s.is_global()
                if free and n not in glob and not hasattr(builtins, n) and n not in MODULE_DUNDER and "*" not in glob:
                    found.append((n, t, path))
            for c in t.get_children():
                go(c, path + [c.get_name()])
        go(top, [])
        for n, t, path in found:
            line = t.get_lineno()
            cand = [x.lineno for x in ast.walk(m.tree) if isinstance(x, ast.Name) and x.id == n and x.lineno >= line]
            key = ".".join([self.short(m)] + path)
            self.ctx.bad("%s:%s" % (key, n), "name %s is not defined" % n, "%s:%d" % (m.rel, min(cand) if cand else line))
        self.ctx.ok("%s:globals" % self.short(m), "every global name is bound", "%s:1" % m.rel)

    # ------------------------------------------------------------ walking code
    def handle(self, m, stmts, cls, fn, scope, env=None, selfname=None, types=None):
        for s in stmts:
            self.stmt(m, s, cls, fn, scope, env or {}, selfname, types or {})

    def stmt(self, m, s, cls, fn, scope, env, selfname, types, guarded=False):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for d in s.decorator_list:
                self.expr(m, d, cls, fn, scope, env, selfname, types)
            for d in s.args.defaults + [x for x in s.args.kw_defaults if x is not None]:
                self.expr(m, d, cls, fn, scope, env, selfname, types)
            self.function(m, s, cls, fn, scope, env, selfname, types)
            return
        if isinstance(s, ast.ClassDef):
            c = self.P.classes.get((m.name + "." + s.name) if cls is None else cls.qual + "." + s.name) if fn is None else None
            for b in s.bases:
                self.expr(m, b, cls, fn, scope, env, selfname, types)
            for x in s.body:
                self.stmt(m, x, c, None, "%s.%s" % (scope, s.name), env, None, types)
            return
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            if not guarded:
                self.imports(m, s, scope)
            return
        if isinstance(s, ast.Try):
            g = guarded or any(self.catches(h) for h in s.handlers)
            for x in s.body:
                self.stmt(m, x, cls, fn, scope, env, selfname, types, g)
            for b in [h.body for h in s.handlers] + [s.orelse, s.finalbody]:
                for x in b:
                    self.stmt(m, x, cls, fn, scope, env, selfname, types, guarded)
            for h in s.handlers:
                if h.type is not None:
                    self.expr(m, h.type, cls, fn, scope, env, selfname, types)
            return
        for f, v in ast.iter_fields(s):
            if f in ("body", "orelse", "finalbody") and isinstance(v, list):
                for x in v:
                    if isinstance(x, ast.stmt):
                        self.stmt(m, x, cls, fn, scope, env, selfname, types, guarded)
            elif isinstance(v, ast.AST):
                self.expr(m, v, cls, fn, scope, env, selfname, types, guarded)
            elif isinstance(v, list):
                for x in v:
                    if isinstance(x, ast.AST):
                        self.expr(m, x, cls, fn, scope, env, selfname, types, guarded)

    def finish(self):
        """locals a plain flow analysis cannot prove bound: decided per path"""
        byfn = {}
        for m, node, cls, outer, key, name, n in self.pending:
            byfn.setdefault(id(node), (m, node, cls, outer, key, []))[5].append((name, n))
        for m, node, cls, outer, key, uses in byfn.values():
            f = next((f for f in self.P.funcs.values() if f.node is node), None)
            names = {u for u, _ in uses}
            where = "%s:%d" % (m.rel, uses[0][1].lineno)
            if f is None:
                self.ctx.und("%s:bound" % key, "nested function: whether %s is always assigned is not decided" % ", ".join(sorted(names)), where)
                continue
            with self.ctx.section("%s:bound" % key):
                try:
                    paths = self.ctx.run(f, self.ctx.interp(), cls=f.cls) if f.cls is not None else self.ctx.run(f, self.ctx.interp())
                except Limit:
                    self.ctx.und("%s:bound" % key, "too many paths", where)
                    continue
                hit = {}
                lines = {u: {x.lineno for v, x in uses if v == u} for u in names}
                for p in paths:
                    for t in p.st.notes:
                        loc, _, text = t.partition(": ")
                        if text.startswith("undefined name ") and text[15:] in names and loc.startswith(m.rel + ":") and int(loc.rpartition(":")[2]) in range(node.lineno, node.end_lineno + 1):
                            hit.setdefault(text[15:], (loc, p.cond_str()[:200]))
                for u in sorted(names):
                    if u in hit:
                        self.ctx.bad("%s:%s" % (key, u), "%s is used on a path that never assigns it" % u, hit[u][0], hit[u][1])
                    elif any(isinstance(l, (ast.For, ast.While, ast.AsyncFor)) and any(isinstance(x, ast.Name) and x.id == u and not isinstance(x.ctx, ast.Load) for y in l.body for x in ast.walk(y))
                             for l in walk_own(node)):
                        self.ctx.und("%s:%s" % (key, u), "%s is assigned in some rounds of a loop only" % u, where)
                    else:
                        self.ctx.ok("%s:%s" % (key, u), "assigned on every path that uses it", where)

    @staticmethod
    def catches(h):
        t = h.type
        ns = [t] if not isinstance(t, ast.Tuple) else t.elts
        return t is None or any(isinstance(x, ast.Name) and x.id in ("ImportError", "ModuleNotFoundError", "AttributeError", "Exception", "NameError") for x in ns)

    def function(self, m, node, cls, outer, scope, env, selfname, types):
        key = "%s.%s" % (scope, node.name)
        a = node.args
        params = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + [x.arg for x in (a.vararg, a.kwarg) if x is not None]
        local = dict(env)
        for n in params:
            local[n] = None
        mine = selfname
        if cls is not None and outer is None:
            decos = [self.P.dotted(m, d) for d in node.decorator_list]
            static = any(d.split(".")[-1] == "staticmethod" for d in decos)
            mine = None
            if not static and a.args and (a.args[0].arg in ("self", "cls") or not any(d.split(".")[-1] == "classmethod" for d in decos) and node.name not in ("__new__",)):
                mine = a.args[0].arg
        elif selfname is not None and selfname in params:
            mine = None
        self.fns.add("%s.%s" % (m.name, key.partition(".")[2] or node.name))
        for name, n in unbound(node):
            self.pending.append((m, node, cls, outer, key, name, n))
        loc, ty = self.locals(m, node, cls, mine, local, types)
        for x in node.body:
            self.stmt(m, x, cls, node, key, loc, mine, ty)
        self.ctx.ok("%s" % key, "names resolved", "%s:%d" % (m.rel, node.lineno))

    def locals(self, m, node, cls, mine, env, outer_types):
        """local bindings (None: a value, ("import", dotted)) and the variables of one evident type"""
        loc, types = dict(env), {k: v for k, v in outer_types.items() if env.get(k, 1) is None or k not in env}
        cand = {}
        params = {x.arg for x in node.args.posonlyargs + node.args.args + node.args.kwonlyargs} | {x.arg for x in (node.args.vararg, node.args.kwarg) if x is not None}
        for p in params:
            types.pop(p, None)
            cand[p] = [None]
        if mine is not None:
            cand.pop(mine, None)
        glob = set()
        nodes = list(walk_own(node))
        for n in nodes:
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                glob |= set(n.names)
        for n in nodes:
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                for k, d in self.P.import_binding(m, n):
                    if k != "*":
                        loc[k] = ("import", d)
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                loc[n.name] = None
                cand.setdefault(n.name, []).append(None)
        for n in nodes:
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)) and n.id not in glob:
                loc[n.id] = None
            if isinstance(n, ast.ExceptHandler) and n.name:
                loc[n.name] = None
                cand.setdefault(n.name, []).append(None)
        # variables a nested scope assigns
        done = set()
        pend = []
        for n in nodes:
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        pend.append((t.id, n.value))
                        done.add(id(t))
                    elif isinstance(t, ast.Tuple) and isinstance(n.value, ast.Call) and len(t.elts) == 2 and self.callee_name(m, n.value.func, loc) == "matplotlib.pyplot.subplots" and self.single(n.value):
                        for e, ty in zip(t.elts, ("matplotlib.figure.Figure", "matplotlib.axes.Axes")):
                            if isinstance(e, ast.Name):
                                pend.append((e.id, ty))
                                done.add(id(e))
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value is not None:
                pend.append((n.target.id, n.value))
                done.add(id(n.target))
            elif isinstance(n, ast.With):
                for i in n.items:
                    if isinstance(i.optional_vars, ast.Name):
                        pend.append((i.optional_vars.id, i.context_expr))
                        done.add(id(i.optional_vars))
            elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                done.add(id(n.target))
                pend.append((n.target.id, None))
        for n in nodes:
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and id(n) not in done:
                pend.append((n.id, None))
        order = [k for k, _ in pend]
        for k in order:
            types.pop(k, None)
        for _ in range(2):
            got = {}
            for k, v in pend:
                t = v if isinstance(v, str) or v is None else self.infer(m, v, cls, mine, loc, types)
                got.setdefault(k, []).append(t)
            new = {k: ts[0] for k, ts in got.items() if k not in params and k not in glob and ts[0] is not None and all(t == ts[0] for t in ts)}
            types.update(new)
        for g in glob:
            types.pop(g, None)
        for k, v in loc.items():
            if v is not None:
                types.pop(k, None)
        return loc, types

    @staticmethod
    def single(call):
        """plt.subplots() with one axes"""
        names = [k.arg for k in call.keywords]
        return not call.args and not any(k in names for k in ("nrows", "ncols", "squeeze", None))

    # ------------------------------------------------------------ imports
    def imports(self, m, s, scope):
        if isinstance(s, ast.Import):
            for a in s.names:
                self.module_exists(m, a.name, s, scope)
            return
        base = s.module or ""
        if s.level:
            parts = m.name.split(".")
            if not m.is_pkg:
                parts = parts[:-1]
            parts = parts[:len(parts) - (s.level - 1)]
            base = ".".join(parts + ([base] if base else []))
        if not self.module_exists(m, base, s, scope):
            return
        for a in s.names:
            if a.name == "*":
                continue
            if base.split(".")[0] == PKG:
                if not self.own(base, a.name):
                    self.bad(m, a.name, "%s has no %s" % (base, a.name), s, scope)
            elif self.L.installed(base):
                r = self.L.step(base, a.name)
                if r == ("missing",):
                    self.bad(m, a.name, "%s has no %s" % (base, a.name), s, scope)

    def own(self, base, name):
        """does module `base` of the package bind name"""
        M = self.P.modules.get(base)
        if M is None:
            return False
        if name in M.env or base + "." + name in self.P.modules or name in MODULE_DUNDER:
            return True
        if base in self.dynamic:
            return any(name in x.env for q, x in self.P.modules.items() if q.rpartition(".")[0] == base)
        if os.path.isdir(os.path.join(os.path.dirname(M.path), name)) and M.is_pkg:
            return True
        tree = M.tree
        return any(isinstance(n, ast.ImportFrom) and any(a.name == "*" for a in n.names) for n in ast.walk(tree)) or self.assigned_global(M, name)

    @staticmethod
    def assigned_global(M, name):
        def top(stmts):
            for s in stmts:
                if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                    continue
                for n in ast.walk(s):
                    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id == name:
                        return True
            return False
        return top(M.tree.body) or any(isinstance(n, ast.Global) and name in n.names for n in ast.walk(M.tree))

    def module_exists(self, m, d, node, scope):
        if d.split(".")[0] == PKG:
            if d in self.P.modules or os.path.isdir(os.path.join(self.P.root, *d.split("."))):
                return True
            self.bad(m, d, "there is no module %s" % d, node, scope)
            return False
        if not self.L.installed(d):
            self.absent.add(d.split(".")[0])
            return False
        if self.L.module_missing(d):
            self.bad(m, d, "there is no module %s" % d, node, scope)
            return False
        return True

    # ------------------------------------------------------------ resolving
    def chain(self, node):
        parts = []
        while isinstance(node, ast.Attribute):
            parts.append(node.attr)
            node = node.value
        if isinstance(node, ast.Name):
            return node.id, parts[::-1]
        return None, None

    def binding(self, m, name, loc):
        if name in loc:
            return loc[name]
        return m.env.get(name)

    def target(self, m, node, loc):
        """what an expression denotes: ("module", m) ("class", q, sigq) ("func", q) ("pmodule", M) ("pclass", C) ("pfunc", F) ("missing", owner, name) or None"""
        root, parts = self.chain(node)
        if root is None:
            return None
        if root in loc and loc[root] is None:
            return None
        b = self.binding(m, root, loc)
        if b is None:
            if root in self.L.builtins and not parts:
                return ("builtin", root)
            if root in ("str", "bytes", "list", "dict", "set", "tuple", "int", "float") and "builtins." + root in self.L.classes:
                cur = ("class", "builtins." + root, None)
            else:
                return None
            if not parts:
                return ("builtin", root)
        elif isinstance(b, (LFunc,)):
            cur = ("pfunc", b)
        elif isinstance(b, Class):
            cur = ("pclass", b)
        elif b[0] == "import":
            cur = self.dotted_target(b[1])
            if cur is None:
                return None
        else:
            return None
        for p in parts:
            cur = self.member(cur, p)
            if cur is None or cur[0] == "missing":
                return cur
        return cur

    def dotted_target(self, d):
        parts = d.split(".")
        if parts[0] == PKG:
            cur = ("pmodule", self.P.modules.get(PKG))
        elif self.L.installed(parts[0]) and (parts[0] in self.L.mods or parts[0] in self.L.known):
            cur = ("module", parts[0])
        else:
            return None
        for p in parts[1:]:
            cur = self.member(cur, p)
            if cur is None or cur[0] == "missing":
                return None          # reported at the import
        return cur

    def member(self, cur, a):
        k = cur[0]
        if k == "module":
            r = self.L.step(cur[1], a)
            if r == ("missing",):
                return ("missing", cur[1], a)
            if r is not None and r[0] == "module" and not (r[1] in self.L.mods or r[1] in self.L.known):
                return None
            return r if r is not None and r[0] in ("module", "class", "func") else None
        if k == "pmodule":
            M = cur[1]
            if M is None:
                return None
            b = M.env.get(a)
            if b is None:
                q = M.name + "." + a
                if q in self.P.modules:
                    return ("pmodule", self.P.modules[q])
                if self.own(M.name, a):
                    return None
                return ("missing", M.name, a)
            if isinstance(b, LFunc):
                return ("pfunc", b)
            if isinstance(b, Class):
                return ("pclass", b)
            if b[0] == "import":
                return self.dotted_target(b[1])
            return None
        if k == "pclass":
            C = cur[1]
            d, mem = C.lookup(a)
            if mem is not None:
                if isinstance(mem, LFunc):
                    return ("pmember", C, mem)
                return None
            names, open_ = self.class_names(C, cls_only=True)
            if open_ or a in names or a in dir(type) or a in dir(object):
                return None
            return ("missing", C.name, a)
        if k == "class":
            c = self.L.classes.get(cur[1])
            if c is None or c["dynamic"] or a in c["attrs"] or a.startswith("__"):
                return None
            return ("missing", cur[1], a)
        return None

    # ------------------------------------------------------------ class members
    def class_names(self, C, cls_only=False):
        """names every instance of C (mro) may have; open if they cannot be listed"""
        k = (C.qual, cls_only)
        if k in self.members_memo:
            return self.members_memo[k]
        names, open_ = set(dir(object)), False
        for b in C.mro:
            if isinstance(b, Class):
                names |= set(b.members)
                for f in b.members.values():
                    if isinstance(f, LFunc):
                        n, o = self.assigned(f)
                        names |= n
                        open_ |= o
                for q, f in self.P.funcs.items():
                    if f.cls is b and f not in b.members.values():
                        n, o = self.assigned(f)
                        names |= n
                        open_ |= o
                if "__getattr__" in b.members or "__getattribute__" in b.members:
                    open_ = True
                for s in b.node.body:
                    for n in ast.walk(s) if not isinstance(s, (ast.FunctionDef, ast.ClassDef)) else ():
                        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                            names.add(n.id)
                names |= self.outside().get(b.name, set())
                meta = b.metaclass
                if isinstance(meta, Class):
                    n, o = self.class_names(meta)
                    names |= n
                    open_ |= o
                    for f in meta.members.values():
                        if isinstance(f, LFunc):
                            for x in ast.walk(f.node):
                                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                                    names.add(x.attr)
                                elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "setattr":
                                    open_ = True
            elif b in ("object", "builtins.object", "abc.ABC", "ABC"):
                names |= {"register"}
            elif b in self.L.classes:
                names |= set(self.L.classes[b]["attrs"])
            elif b in ("builtins.Exception", "Exception", "ValueError", "KeyError", "IOError", "Warning", "UserWarning", "RuntimeError"):
                names |= set(dir(Exception))
            elif b in ("enum.Enum", "enum.IntEnum", "enum.Flag", "enum.IntFlag"):
                names |= set(dir(int)) | {"name", "value", "_name_", "_value_", "_member_map_", "_member_names_", "_missing_", "__members__", "mro"}
            elif b in ("type", "abc.ABCMeta"):
                names |= set(dir(type)) | {"register"}
            else:
                open_ = True
        self.members_memo[k] = (names, open_)
        return names, open_

    def assigned(self, f):
        """attributes a method assigns to its first parameter"""
        a = f.node.args
        first = (a.posonlyargs + a.args)[0].arg if a.posonlyargs + a.args else None
        names, open_ = set(), False
        if first is None:
            return names, open_
        made = {first}
        if f.name == "__new__":
            for n in ast.walk(f.node):
                if isinstance(n, ast.Return) and isinstance(n.value, ast.Name):
                    made.add(n.value.id)
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id in made:
                names.add(n.attr)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr" and n.args and isinstance(n.args[0], ast.Name) and n.args[0].id in made:
                if len(n.args) > 1 and isinstance(n.args[1], ast.Constant):
                    names.add(n.args[1].value)
                else:
                    open_ = True
            elif isinstance(n, ast.Attribute) and n.attr == "__dict__" and isinstance(n.value, ast.Name) and n.value.id in made:
                open_ = True
        return names, open_

    def outside(self):
        """attributes set on classes from outside: {class name: names}"""
        if "outside" not in self.memo:
            out = {}
            for m in self.P.modules.values():
                for n in ast.walk(m.tree):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name):
                        r = m.env.get(n.value.id)
                        if isinstance(r, tuple) and r[0] == "import":
                            r = self.P.resolve(r[1])
                        if isinstance(r, Class):
                            out.setdefault(r.name, set()).add(n.attr)
            self.memo["outside"] = out
        return self.memo["outside"]

    def leaf_classes(self, C):
        subs = self.P.subclasses(C)
        if not subs:
            return [C]
        return [k for k in subs if not self.P.subclasses(k)] or [C]

    def self_member(self, C, a):
        """"ok" / class in which attribute a of self is not there"""
        if a.startswith("__") and a in dir(type):
            return None
        for K in self.leaf_classes(C):
            names, open_ = self.class_names(K)
            if open_ or a in names:
                continue
            return K
        return None

    # ------------------------------------------------------------ types
    def callee_name(self, m, func, loc):
        t = self.target(m, func, loc)
        return t[1] if t is not None and t[0] == "func" else None

    def infer(self, m, e, cls, mine, loc, types, depth=0):
        if depth > 4:
            return None
        if isinstance(e, ast.JoinedStr) or isinstance(e, ast.Constant) and isinstance(e.value, str):
            return "builtins.str"
        if isinstance(e, (ast.List, ast.ListComp)):
            return "builtins.list"
        if isinstance(e, (ast.Dict, ast.DictComp)):
            return "builtins.dict"
        if isinstance(e, (ast.Set, ast.SetComp)):
            return "builtins.set"
        if isinstance(e, ast.Name):
            return types.get(e.id) if e.id in types and (loc.get(e.id, 1) is None) else None
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and mine is not None and e.value.id == mine and cls is not None:
            return self.attr_of(cls, e.attr, depth)
        if isinstance(e, ast.Attribute):
            b = self.infer(m, e.value, cls, mine, loc, types, depth + 1)
            return self.attr_of(b, e.attr, depth) if isinstance(b, Class) else None
        if isinstance(e, ast.Call):
            t = self.target(m, e.func, loc)
            if t is None:
                if isinstance(e.func, ast.Attribute):
                    b = self.infer(m, e.func.value, cls, mine, loc, types, depth + 1)
                    if isinstance(b, str):
                        return METHODS.get((b, e.func.attr)) if not self.inplace(e) else None
                    if isinstance(b, Class):
                        d, f = b.lookup(e.func.attr)
                        if isinstance(f, LFunc) and not self.P.subclasses(b):
                            return self.returned(f, depth + 1)
                return None
            if t[0] == "pclass":
                meta = [k.metaclass for k in t[1].mro if isinstance(k, Class) and isinstance(k.metaclass, Class) and "__call__" in k.metaclass.members]
                return t[1] if not meta and "__new__" not in t[1].members else None
            if t[0] == "class":
                return t[1] if t[1] in self.L.classes else None
            if t[0] == "func":
                if t[1] in RETURNS:
                    return RETURNS[t[1]]
                q = t[1].split(".")
                if q[0] == "numpy" and len(q) == 2 and q[1] in ARRAYS:
                    return "numpy.ndarray"
                return None
            if t[0] == "pfunc":
                return self.returned(t[1], depth + 1)
            if t[0] == "pmember" and (t[2].deco("staticmethod") or t[2].deco("classmethod")):
                return self.returned(t[2], depth + 1)
            if t[0] == "builtin":
                return "builtins." + t[1] if t[1] in ("str", "list", "dict", "set", "tuple", "int", "float") else None
        return None

    @staticmethod
    def inplace(e):
        return any(k.arg == "inplace" for k in e.keywords)

    def returned(self, f, depth):
        """the one evident type of what a function returns"""
        if f.qual in self.busy or depth > 4 or f.is_generator or [d for d in f.decorators if d.split(".")[-1] not in ("staticmethod", "classmethod", "njit", "jit", "property", "cached_property")]:
            return None
        k = ("ret", f.qual)
        if k in self.memo:
            return self.memo[k]
        self.busy.add(f.qual)
        try:
            a = f.node.args
            env = {x.arg: None for x in a.posonlyargs + a.args + a.kwonlyargs}
            mine = a.args[0].arg if f.cls is not None and a.args and not f.deco("staticmethod") and not f.deco("classmethod") else None
            loc, ty = self.locals(f.module, f.node, f.cls, mine, env, {})
            rets = [n.value for n in walk_own(f.node) if isinstance(n, ast.Return)]
            ts = [self.infer(f.module, r, f.cls, mine, loc, ty, depth) if r is not None else None for r in rets]
            r = ts[0] if ts and ts[0] is not None and all(t == ts[0] for t in ts) else None
        finally:
            self.busy.discard(f.qual)
        self.memo[k] = r
        return r

    def attr_of(self, C, a, depth):
        d, f = C.lookup(a)
        if isinstance(f, LFunc):
            if f.deco("property", "cached_property") and not any(a in k.members and k.members[a] is not f for k in self.P.subclasses(C)):
                return self.returned(f, depth + 1)
            return None
        return self.attr_type(C, a)

    def attr_type(self, cls, a):
        """type of self.a if every assignment in the class family agrees"""
        k = (cls.qual, a)
        if k in self.attr_types_memo:
            return self.attr_types_memo[k]
        self.attr_types_memo[k] = None
        fam = {c for c in cls.mro if isinstance(c, Class)} | set(self.P.subclasses(cls))
        for c in list(fam):
            fam |= set(self.P.subclasses(c))
        ts, outside = [], False
        for c in fam:
            if a in c.members:
                outside = True
        for q, f in self.P.funcs.items():
            if not isinstance(f.node, (ast.FunctionDef,)):
                continue
            first = f.node.args.args[0].arg if f.node.args.args else None
            for n in ast.walk(f.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)) and n.attr == a:
                    if f.cls in fam and isinstance(n.value, ast.Name) and n.value.id == first:
                        v = self.value_for(f.node, n)
                        if isinstance(v, str):
                            ts.append(v)
                        elif v is None:
                            ts.append(None)
                        elif isinstance(v, ast.Constant) and v.value is None:
                            continue            # unset until assigned
                        else:
                            env = {x.arg: None for x in f.node.args.args + f.node.args.kwonlyargs}
                            loc, ty = self.locals(f.module, f.node, f.cls, first, env, {})
                            ts.append(self.infer(f.module, v, f.cls, first, loc, ty))
                    else:
                        outside = True
        r = ts[0] if ts and not outside and ts[0] is not None and all(t == ts[0] for t in ts) else None
        self.attr_types_memo[k] = r
        return r

    @staticmethod
    def value_for(fnode, target):
        for s in ast.walk(fnode):
            if isinstance(s, ast.Assign) and any(t is target for t in s.targets):
                return s.value
            if isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Tuple) and any(e is target for e in t.elts):
                        return None
        return None

    # ------------------------------------------------------------ expressions
    def expr(self, m, e, cls, fn, scope, env, selfname, types, guarded=False):
        if isinstance(e, ast.Lambda):
            loc = dict(env)
            ty = dict(types)
            for x in e.args.args + e.args.kwonlyargs + e.args.posonlyargs:
                loc[x.arg] = None
                ty.pop(x.arg, None)
            mine = None if selfname in [x.arg for x in e.args.args] else selfname
            self.expr(m, e.body, cls, fn, scope, loc, mine, ty, guarded)
            return
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            loc, ty = dict(env), dict(types)
            for g in e.generators:
                for n in ast.walk(g.target):
                    if isinstance(n, ast.Name):
                        loc[n.id] = None
                        ty.pop(n.id, None)
            for c in ast.iter_child_nodes(e):
                self.expr(m, c, cls, fn, scope, loc, selfname, ty, guarded)
            return
        if isinstance(e, ast.Call):
            self.call(m, e, cls, fn, scope, env, selfname, types, guarded)
        elif isinstance(e, ast.Attribute):
            self.attribute(m, e, cls, fn, scope, env, selfname, types, guarded, False)
        for c in ast.iter_child_nodes(e):
            if isinstance(e, ast.Call) and c is e.func and isinstance(c, ast.Attribute):
                for g in ast.iter_child_nodes(c):
                    if isinstance(g, ast.expr):
                        self.expr(m, g, cls, fn, scope, env, selfname, types, guarded)
                continue
            if isinstance(e, ast.Attribute) and isinstance(c, ast.Attribute) and self.chain(e)[0] is not None and self.target(m, c, env) is not None and self.target(m, c, env)[0] == "missing":
                continue
            if isinstance(c, (ast.stmt, ast.expr, ast.keyword, ast.comprehension, ast.slice, ast.withitem, ast.FormattedValue, ast.ExceptHandler, ast.match_case)):
                self.expr(m, c, cls, fn, scope, env, selfname, types, guarded)

    def attribute(self, m, e, cls, fn, scope, env, selfname, types, guarded, called):
        """attribute load; returns the function it denotes, if evident: (Func|sig list, bound)"""
        if not isinstance(e.ctx, ast.Load):
            return None
        t = self.target(m, e, env)
        if t is not None:
            if t[0] == "missing":
                if t[2] == e.attr and not guarded and t[2] not in self.outer_attrs() and not self.probed(m, fn, e):
                    self.bad(m, "%s.%s" % (t[1].split(".")[-1], t[2]), "%s has no %s" % (t[1], t[2]), e, scope)
                return None
            return t
        if isinstance(e.value, ast.Name) and selfname is not None and e.value.id == selfname and cls is not None:
            K = self.self_member(cls, e.attr)
            if K is not None:
                if not guarded and not self.probed(m, fn, e):
                    self.bad(m, "%s.%s" % (selfname, e.attr), "%s has no %s" % (K.name, e.attr), e, scope)
                return None
            if called:
                fs = {self.method(K, e.attr) for K in self.leaf_classes(cls)}
                if len(fs) == 1:
                    f = fs.pop()
                    return ("bound", f) if f is not None else None
            return None
        if isinstance(e.value, ast.Call) and isinstance(e.value.func, ast.Name) and e.value.func.id == "super" and cls is not None and not e.value.args:
            fs = set()
            after = cls
            d, f = cls.lookup(e.attr, after=after)
            if f is None:
                ext = [b for b in cls.mro if isinstance(b, str) and b not in ("object", "builtins.object", "abc.ABC", "ABC")]
                if not ext and e.attr not in dir(object) and not self.P.subclasses(cls):
                    self.bad(m, "super.%s" % e.attr, "no base class of %s has %s" % (cls.name, e.attr), e, scope)
                return None
            if called and isinstance(f, LFunc) and not self.multi(cls):
                return ("bound", f)
            return None
        ty = self.infer(m, e.value, cls, selfname, env, types)
        if ty is None and t is None and not guarded and self.nowhere(m, e.attr) and not self.probed(m, fn, e):
            self.bad(m, ".%s" % e.attr, "nothing in the package or the installed libraries has an attribute %s" % e.attr, e, scope)
            return None
        if isinstance(ty, Class):
            names, open_ = self.class_names(ty)
            if open_ and e.attr not in names and not guarded and self.nowhere(m, e.attr) and not self.probed(m, fn, e):
                self.bad(m, "%s.%s" % (ty.name, e.attr), "%s has no %s" % (ty.name, e.attr), e, scope)
                return None
            if not open_ and e.attr not in names and e.attr not in self.outer_attrs():
                if not guarded and not self.probed(m, fn, e):
                    self.bad(m, "%s.%s" % (ty.name, e.attr), "%s has no %s" % (ty.name, e.attr), e, scope)
                return None
            if called:
                f = self.method(ty, e.attr)
                return ("bound", f) if f is not None else None
            return None
        if isinstance(ty, str):
            c = self.L.classes.get(ty)
            if c is None or c["dynamic"] and ty not in COLUMNS:
                return None
            if e.attr not in c["attrs"]:
                if ty in COLUMNS and (not called or ty == "pandas.HDFStore") or guarded or e.attr.startswith("__") or e.attr in self.outer_attrs() and not called:
                    return None
                self.bad(m, "%s.%s" % (ty.split(".")[-1], e.attr), "%s has no %s" % (ty, e.attr), e, scope)
                return None
            return ("sig", c["attrs"][e.attr], "%s.%s" % (ty, e.attr)) if called and c["attrs"][e.attr] is not None else None
        return None

    def nowhere(self, m, a):
        """is the attribute name unknown everywhere: package members, assigned attributes, columns and keys, installed libraries"""
        if "vocab" not in self.memo:
            v = set(self.L.vocab)
            for M in self.P.modules.values():
                if M.name.startswith("_ref"):
                    continue
                v |= set(M.env) | set(M.name.split("."))
                for n in ast.walk(M.tree):
                    if isinstance(n, ast.Attribute) and not isinstance(n.ctx, ast.Load):
                        v.add(n.attr)
                    elif isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value.isidentifier():
                        v.add(n.value)
                    elif isinstance(n, ast.keyword) and n.arg:
                        v.add(n.arg)
                    elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                        v.add(n.name)
            for C in self.P.classes.values():
                v |= set(C.members)
            self.memo["vocab"] = v
        if a in self.memo["vocab"] or a.startswith("__"):
            return False
        k = ("absent", m.name)
        if k not in self.memo:
            self.memo[k] = {d.split(".")[0] for n in ast.walk(m.tree) if isinstance(n, (ast.Import, ast.ImportFrom))
                            for _, d in self.P.import_binding(m, n) if not self.L.installed(d) and d.split(".")[0] != PKG}
        gone = self.memo[k]
        # the TARGET libraries (C++ bindings) name their members in mixed case
        return not gone or all(g.startswith("target_") or g == "PyPDF2" for g in gone) and a == a.lower() and not a.startswith("f") \
            and not any(w in a for w in ("page", "pdf", "read", "write", "merge", "box"))

    def outer_attrs(self):
        """attribute names assigned on objects other than self"""
        if "outer" not in self.memo:
            out = set()
            for m in self.P.modules.values():
                for n in ast.walk(m.tree):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and not (isinstance(n.value, ast.Name) and n.value.id == "self"):
                        out.add(n.attr)
            self.memo["outer"] = out
        return self.memo["outer"]

    @staticmethod
    def multi(cls):
        """is a subclass combining this class with others"""
        return False

    def method(self, K, a):
        d, f = K.lookup(a)
        if isinstance(f, LFunc) and not f.deco("property", "cached_property"):
            return f
        return None

    def probed(self, m, fn, e):
        """guarded by hasattr of the same name"""
        body = fn if fn is not None else m.tree
        for n in ast.walk(body):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("hasattr", "getattr") and len(n.args) > 1 and isinstance(n.args[1], ast.Constant) and n.args[1].value == e.attr:
                return True
        # try: x.attr except AttributeError is handled by the caller
        return False

    def call(self, m, e, cls, fn, scope, env, selfname, types, guarded):
        if isinstance(e.func, ast.Attribute):
            t = self.attribute(m, e.func, cls, fn, scope, env, selfname, types, guarded, True)
        else:
            t = self.target(m, e.func, env)
        if t is None or guarded:
            return
        what = ast.unparse(e.func)[:60]
        sig = None
        if t[0] == "func":
            sig = self.L.sigs.get(t[1])
        elif t[0] == "class":
            c = self.L.classes.get(t[1])
            sig = self.L.sigs.get(t[2]) if len(t) > 2 and t[2] else (c["new"] if c else None)
        elif t[0] == "builtin":
            sig = self.L.builtins.get(t[1])
            if t[1] in ("type", "super", "dict", "print", "getattr", "max", "min", "range", "slice", "iter", "next", "vars", "dir"):
                sig = None
        elif t[0] == "sig":
            sig = t[1]
        elif t[0] == "pfunc":
            sig = self.own_sig(t[1], False)
        elif t[0] == "bound":
            sig = self.own_sig(t[1], not t[1].deco("staticmethod"))
        elif t[0] == "pmember":
            f = t[2]
            sig = self.own_sig(f, f.deco("classmethod"))
        elif t[0] == "pclass":
            sig = self.ctor(t[1])
        if sig is None:
            return
        why = bind(sig, e)
        if why:
            self.bad(m, "call:%s" % what, "%s: %s" % (what, why), e, scope)

    def own_sig(self, f, drop):
        if not isinstance(f.node, (ast.FunctionDef, ast.AsyncFunctionDef)):
            return None
        if any(d.split(".")[-1] not in KEEP for d in f.decorators):
            return None
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        req = len(pos) - len(a.defaults)
        po = len(a.posonlyargs)
        if drop:
            if not pos:
                return None if a.vararg else [[], 0, [], [], -1, 0, 0]
            pos, req, po = pos[1:], max(0, req - 1), max(0, po - 1)
        kwo = [x.arg for x in a.kwonlyargs]
        kreq = [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]
        if a.kwarg is not None:
            to = self.forwards(f)
            if to is not None:
                tp, tr, tk, tkr, tva, tvk, tpo = to[0]
                given, star = to[1], to[2]
                own = set(pos) | set(kwo)
                extra = [k for k in tp[tpo:] + tk if k not in own and k not in given]
                if a.vararg is None:
                    return [pos, req, kwo + extra, kreq, 0, tvk, po]
                if star and not pos and not given and not kwo:
                    return [tp, tr, tk, tkr, tva, tvk, tpo]
                return [pos, req, kwo + extra, kreq, 1, tvk, po]
        return [pos, req, kwo, kreq, int(a.vararg is not None), int(a.kwarg is not None), po]

    def forwards(self, f, depth=0):
        """(signature, names given, passes *args) of the base constructor a constructor hands its **kwargs to and nothing else"""
        if f.cls is None or f.name != "__init__" or len(self.memo.setdefault("fwd", [])) > 6:
            return None
        kw = f.node.args.kwarg.arg
        uses = [n for n in ast.walk(f.node) if isinstance(n, ast.Name) and n.id == kw]
        if len(uses) != 1:
            return None
        for s in f.node.body:
            c = s.value if isinstance(s, ast.Expr) else None
            if not (isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == "__init__" and isinstance(c.func.value, ast.Call)
                    and isinstance(c.func.value.func, ast.Name) and c.func.value.func.id == "super" and not c.func.value.args):
                continue
            if not any(k.arg is None and k.value is uses[0] for k in c.keywords):
                return None
            d, g = f.cls.lookup("__init__", after=f.cls)
            if not isinstance(g, LFunc) or any(len(k.node.bases) > 1 for k in self.P.subclasses(f.cls)):
                return None
            self.memo["fwd"].append(f)
            try:
                sig = self.own_sig(g, True)
            finally:
                self.memo["fwd"].pop()
            if sig is None:
                return None
            stars = [x for x in c.args if isinstance(x, ast.Starred)]
            n = len(c.args) - len(stars)
            given = set(sig[0][:n]) | {k.arg for k in c.keywords if k.arg is not None}
            if stars and not (len(stars) == 1 and f.node.args.vararg is not None and isinstance(stars[0].value, ast.Name) and stars[0].value.id == f.node.args.vararg.arg):
                return None
            return sig, given, bool(stars)
        return None

    def ctor(self, C):
        for k in C.mro:
            if isinstance(k, Class):
                if isinstance(k.metaclass, Class) and "__call__" in k.metaclass.members:
                    return None
                for n in ("__new__", "__init__"):
                    if isinstance(k.members.get(n), LFunc):
                        if n == "__new__" and any(isinstance(x, Class) and "__init__" in x.members for x in C.mro):
                            return None
                        return self.own_sig(k.members[n], True)
            elif k in ("abc.ABC", "ABC", "object", "builtins.object"):
                continue
            else:
                return None
        if C.deco_dataclass() if hasattr(C, "deco_dataclass") else C.node.decorator_list:
            return None
        return [[], 0, [], [], 0, 0, 0]


def bind(sig, call):
    """why the call cannot bind to the signature, or None"""
    pos, req, kwo, kreq, va, vk, po = sig
    if va == -1:
        return "takes no arguments, not even the object"
    star = any(isinstance(a, ast.Starred) for a in call.args)
    dstar = any(k.arg is None for k in call.keywords)
    n = sum(1 for a in call.args if not isinstance(a, ast.Starred))
    if n > len(pos) and not va:
        return "%d positional arguments for %d" % (n, len(pos))
    names = [k.arg for k in call.keywords if k.arg is not None]
    for k in names:
        if k in kwo or k in pos[po:]:
            if not star and k in pos[:n]:
                return "argument %s given twice" % k
            continue
        if not vk:
            return "no argument named %s" % k
    if not star and not dstar:
        missing = [p for p in pos[n:req] if p not in names] + [p for p in kreq if p not in names]
        if missing:
            return "argument %s is missing" % ", ".join(missing)
    return None


# ------------------------------------------------------------------ definite assignment
EVERY = None                     # state after code that does not complete


def unbound(node):
    """(name, use) of locals a flow analysis does not prove assigned; loop bodies count as entered"""
    a = node.args
    params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | {x.arg for x in (a.vararg, a.kwarg) if x is not None}
    local, glob, deleted = set(), set(), set()
    for n in walk_own(node):
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            glob |= set(n.names)
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            local.add(n.id)
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Del):
            deleted.add(n.id)
    # targets of comprehensions are not locals of the function
    inner = set()
    for n in walk_own(node):
        if isinstance(n, ast.comprehension):
            inner |= {x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)}
    stores = {}
    for n in walk_own(node):
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for g in n.generators:
                for x in ast.walk(g.target):
                    if isinstance(x, ast.Name):
                        stores.setdefault(x.id, set()).add(id(x))
    real = {n.id for n in walk_own(node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and id(n) not in stores.get(n.id, ())}
    local = (real - params | deleted) - glob
    out = []

    def meet(xs):
        xs = [x for x in xs if x is not EVERY]
        if not xs:
            return EVERY
        r = set(xs[0])
        for x in xs[1:]:
            r &= x
        return r

    def use(e, s):
        """uses in an expression, then what it binds"""
        if e is None or s is EVERY:
            return s
        stack = [(e, frozenset())]
        binds = set()
        while stack:
            n, hidden = stack.pop()
            if isinstance(n, (ast.Lambda, ast.FunctionDef, ast.ClassDef)):
                continue
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                h = hidden | {x.id for g in n.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}
                for c in ast.iter_child_nodes(n):
                    stack.append((c, h))
                continue
            if isinstance(n, ast.Name):
                if isinstance(n.ctx, ast.Load):
                    if n.id in local and n.id not in s and n.id not in hidden and n.id not in binds:
                        out.append((n.id, n))
                elif n.id not in hidden:
                    binds.add(n.id)
            for c in ast.iter_child_nodes(n):
                stack.append((c, hidden))
        return s | binds

    def block(stmts, s):
        for x in stmts:
            s = stmt(x, s)
        return s

    def ends(x):
        c = x.value if isinstance(x, ast.Expr) else None
        if isinstance(c, ast.Call):
            t = ast.unparse(c.func)
            return t in ("exit", "quit", "sys.exit", "os._exit") or t.endswith("parser.error")
        return False

    def stmt(x, s):
        if s is EVERY:
            return s
        if isinstance(x, (ast.Return, ast.Raise)):
            for c in ast.iter_child_nodes(x):
                use(c, s)
            return EVERY
        if isinstance(x, (ast.Continue, ast.Break)):
            return EVERY
        if isinstance(x, ast.If):
            s = use(x.test, s)
            return meet([block(x.body, s), block(x.orelse, s)])
        if isinstance(x, (ast.For, ast.AsyncFor)):
            s = use(x.target, use(x.iter, s))
            b = block(x.body, s)
            names = {n.id for y in x.body for n in ast.walk(y) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} if b is EVERY or has_break(x) else set()
            r = s | (b or set()) | names
            return block(x.orelse, r) if x.orelse and not has_break(x) else (block(x.orelse, set(r)) and r) or r
        if isinstance(x, ast.While):
            s = use(x.test, s)
            b = block(x.body, s)
            names = {n.id for y in x.body for n in ast.walk(y) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
            return s | (b or set()) | names
        if isinstance(x, (ast.With, ast.AsyncWith)):
            for i in x.items:
                s = use(i.optional_vars, use(i.context_expr, s)) if i.optional_vars is not None else use(i.context_expr, s)
            return block(x.body, s)
        if isinstance(x, ast.Try) or x.__class__.__name__ == "TryStar":
            b = block(x.body, s)
            done = block(x.orelse, b) if x.orelse and b is not EVERY else b
            hs = []
            for h in x.handlers:
                hs.append(block(h.body, (s | {h.name}) if h.name else set(s)))
            r = meet([done] + hs)
            if x.finalbody:
                f = block(x.finalbody, set(s))
                r = EVERY if f is EVERY or r is EVERY else r | f
            return r
        if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            return s | {x.name}
        if isinstance(x, ast.Delete):
            for t in x.targets:
                for y in t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]:
                    if isinstance(y, ast.Name):
                        if y.id in local and y.id not in s:
                            out.append((y.id, y))
                        s = s - {y.id}
                    else:
                        s = use(y, s)
            return s
        if isinstance(x, (ast.Import, ast.ImportFrom)):
            return s | {(a.asname or a.name.split(".")[0]) for a in x.names}
        if isinstance(x, ast.Assign):
            s = use(x.value, s)
            for t in x.targets:
                s = use(t, s)
            return s
        if isinstance(x, ast.AugAssign):
            if isinstance(x.target, ast.Name) and x.target.id in local and x.target.id not in s:
                out.append((x.target.id, x.target))
            return use(x.target, use(x.value, s))
        if isinstance(x, ast.AnnAssign):
            return use(x.target, use(x.value, s)) if x.value is not None else s
        if isinstance(x, ast.Match):
            s = use(x.subject, s)
            return s | {n.id for n in ast.walk(x) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        for c in ast.iter_child_nodes(x):
            s = use(c, s)
        return EVERY if ends(x) else s

    def has_break(loop):
        stack = list(loop.body)
        while stack:
            n = stack.pop()
            if isinstance(n, ast.Break):
                return True
            if isinstance(n, (ast.For, ast.While, ast.FunctionDef, ast.ClassDef)):
                continue
            stack.extend(c for c in ast.iter_child_nodes(n) if isinstance(c, (ast.stmt, ast.ExceptHandler)))
        return False

    block(node.body, params & local)
    return out
