"""Whole-package loader: syntax trees, imports, classes, method resolution order."""
import ast
import os
import warnings

PKG = "CHECLabPy"


def _parse(src, path):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return ast.parse(src, path)


class Func:
    def __init__(self, qual, module, node, cls=None, outer=None):
        self.qual, self.module, self.node, self.cls, self.outer = qual, module, node, cls, outer
        self.name = getattr(node, "name", "<lambda>")
        self.decorators = []      # dotted names (resolved as far as possible)
        self.deco_nodes = getattr(node, "decorator_list", [])

    @property
    def is_generator(self):
        if not hasattr(self, "_gen"):
            self._gen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_own(self.node))
        return self._gen

    def deco(self, *names):
        return any(d == n or d.endswith("." + n) for d in self.decorators for n in names)

    def loc(self, node=None):
        return "%s:%s" % (self.module.rel, getattr(node or self.node, "lineno", "?"))

    def __repr__(self):
        return "<Func %s>" % self.qual


class Class:
    def __init__(self, qual, module, node):
        self.qual, self.module, self.node = qual, module, node
        self.name = node.name
        self.members = {}         # name -> Func | ast expr (last binding)
        self.order = []           # member names in definition order
        self.bases = []           # Class or dotted str
        self.mro = []
        self.metaclass = None

    def lookup(self, name, after=None):
        """(definer, member) following the mro; `after` = start after that class"""
        mro = self.mro
        if after is not None:
            mro = mro[mro.index(after) + 1:] if after in mro else []
        for c in mro:
            if isinstance(c, Class) and name in c.members:
                return c, c.members[name]
        return None, None

    def is_subclass(self, other):
        return other in self.mro

    def external_bases(self):
        return [c for c in self.mro if isinstance(c, str) and c not in ("object", "builtins.object")]

    def __repr__(self):
        return "<Class %s>" % self.qual


class Module:
    def __init__(self, name, path, rel, tree, is_pkg):
        self.name, self.path, self.rel, self.tree, self.is_pkg = name, path, rel, tree, is_pkg
        self.env = {}             # name -> ('import', dotted) | Func | Class | ('expr', node)


def walk_own(fn_node):
    """nodes of a function body, not of nested functions/classes"""
    body = fn_node.body if isinstance(fn_node.body, list) else [fn_node.body]
    stack = list(body)
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            continue
        stack.extend(ast.iter_child_nodes(n))


class Program:
    def __init__(self, root="/repo"):
        self.root = root
        self.modules = {}
        self.classes = {}
        self.funcs = {}
        self.errors = []
        base = os.path.join(root, PKG)
        for d, dirs, files in os.walk(base):
            dirs[:] = sorted(x for x in dirs if x not in ("tests", "__pycache__"))
            for f in sorted(files):
                if f.endswith(".py"):
                    self._load(os.path.join(d, f))
        for m in self.modules.values():
            self._index(m)
        for c in self.classes.values():
            self._bases(c)
        for c in self.classes.values():
            c.mro = self._mro(c, ())
        for f in self.funcs.values():
            f.decorators = [self.dotted(f.module, n.func if isinstance(n, ast.Call) else n)
                            for n in f.deco_nodes]

    def _load(self, path):
        rel = os.path.relpath(path, self.root)
        parts = rel[:-3].split(os.sep)
        is_pkg = parts[-1] == "__init__"
        if is_pkg:
            parts = parts[:-1]
        name = ".".join(parts)
        with open(path, encoding="utf-8") as fh:
            src = fh.read()
        tree = _parse(src, path)
        self.modules[name] = Module(name, path, rel, tree, is_pkg)

    # ------------------------------------------------------------ indexing
    def _index(self, m):
        self._index_block(m, m.tree.body, m.env)

    def import_binding(self, m, node):
        """yield (local name, dotted) for an import statement in module m"""
        if isinstance(node, ast.Import):
            for a in node.names:
                if a.asname:
                    yield a.asname, a.name
                else:
                    yield a.name.split(".")[0], a.name.split(".")[0]
        else:
            mod = node.module or ""
            if node.level:
                parts = m.name.split(".")
                if not m.is_pkg:
                    parts = parts[:-1]
                parts = parts[:len(parts) - (node.level - 1)]
                mod = ".".join(parts + ([mod] if mod else []))
            for a in node.names:
                if a.name == "*":
                    yield "*", mod
                else:
                    yield a.asname or a.name, mod + "." + a.name

    def _index_block(self, m, stmts, env):
        for s in stmts:
            if isinstance(s, (ast.Import, ast.ImportFrom)):
                for n, d in self.import_binding(m, s):
                    if n == "*":
                        if d in self.modules:
                            for k in self._names_of(d):
                                env[k] = ("import", d + "." + k)
                        continue
                    env[n] = ("import", d)
            elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = Func(m.name + "." + s.name, m, s)
                env[s.name] = f
                self.funcs[f.qual] = f
            elif isinstance(s, ast.ClassDef):
                env[s.name] = self._index_class(m, s)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    for n, e in self._targets(t, s.value):
                        env[n] = ("expr", e)
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value:
                env[s.target.id] = ("expr", s.value)
            elif isinstance(s, (ast.If, ast.Try, ast.With, ast.For, ast.While)):
                for field in ("body", "orelse", "finalbody"):
                    self._index_block(m, getattr(s, field, []), env)
                for h in getattr(s, "handlers", []):
                    sub = {}
                    self._index_block(m, h.body, sub)
                    for k, v in sub.items():
                        env.setdefault(k, v)

    def _names_of(self, modname):
        return [k for k in self.modules[modname].env if not k.startswith("_")]

    @staticmethod
    def _targets(t, value):
        if isinstance(t, ast.Name):
            yield t.id, value
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, e in enumerate(t.elts):
                v = value.elts[i] if isinstance(value, (ast.Tuple, ast.List)) and len(value.elts) == len(t.elts) \
                    else ast.copy_location(ast.Subscript(value, ast.Constant(i), ast.Load()), value)
                if isinstance(e, ast.Name):
                    ast.fix_missing_locations(v)
                    yield e.id, v

    def _index_class(self, m, node, prefix=None):
        qual = (prefix or m.name) + "." + node.name
        c = Class(qual, m, node)
        self.classes[qual] = c
        self._class_block(c, m, node.body)
        return c

    def _class_block(self, c, m, stmts):
        for s in stmts:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = Func(c.qual + "." + s.name, m, s, cls=c)
                # property setters keep the getter under the plain name
                if any(isinstance(d, ast.Attribute) and d.attr in ("setter", "deleter", "getter")
                       for d in s.decorator_list):
                    f.qual = c.qual + "." + s.name + ".setter"
                    c.members[s.name + ".setter"] = f
                    self.funcs[f.qual] = f
                    continue
                self.funcs[f.qual] = f
                self._member(c, s.name, f)
            elif isinstance(s, ast.ClassDef):
                self._member(c, s.name, self._index_class(m, s, c.qual))
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    for n, e in self._targets(t, s.value):
                        self._member(c, n, e)
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                if s.value is not None:
                    self._member(c, s.target.id, s.value)
            elif isinstance(s, (ast.Import, ast.ImportFrom)):
                for n, d in self.import_binding(m, s):
                    self._member(c, n, ("import", d))
            elif isinstance(s, (ast.If, ast.Try, ast.With)):
                for field in ("body", "orelse", "finalbody"):
                    self._class_block(c, m, getattr(s, field, []))

    @staticmethod
    def _member(c, name, v):
        if name not in c.members:
            c.order.append(name)
        c.members[name] = v

    def _bases(self, c):
        for b in c.node.bases:
            d = self.dotted(c.module, b)
            r = self.resolve(d)
            c.bases.append(r if isinstance(r, Class) else d)
        for k in c.node.keywords:
            if k.arg == "metaclass":
                d = self.dotted(c.module, k.value)
                r = self.resolve(d)
                c.metaclass = r if isinstance(r, Class) else d

    def _mro(self, c, seen):
        if c in seen:
            return [c]
        seqs = []
        for b in c.bases:
            seqs.append(list(self._mro(b, seen + (c,))) if isinstance(b, Class) else [b])
        seqs.append(list(c.bases))
        out = [c]
        while any(seqs):
            seqs = [s for s in seqs if s]
            if not seqs:
                break
            for s in seqs:
                h = s[0]
                if not any(h in t[1:] for t in seqs):
                    break
            else:
                h = seqs[0][0]
            out.append(h)
            seqs = [[x for x in s if x is not h and x != h] for s in seqs]
        return out

    # ------------------------------------------------------------ resolving
    def dotted(self, m, node):
        """dotted name of a Name/Attribute chain as seen from module m"""
        if isinstance(node, ast.Call):
            return self.dotted(m, node.func)
        if isinstance(node, ast.Name):
            b = m.env.get(node.id)
            if isinstance(b, tuple) and b[0] == "import":
                return b[1]
            if isinstance(b, (Func, Class)):
                return b.qual
            if b is not None:
                return m.name + "." + node.id
            return node.id
        if isinstance(node, ast.Attribute):
            return self.dotted(m, node.value) + "." + node.attr
        return "<expr>"

    def resolve(self, dotted, _depth=0):
        """Module | Func | Class | ('expr', module, node) | ('ext', dotted) | None"""
        if _depth > 20:
            return None
        if dotted in self.classes:
            return self.classes[dotted]
        if dotted in self.funcs and self.funcs[dotted].cls is None:
            return self.funcs[dotted]
        if not (dotted == PKG or dotted.startswith(PKG + ".")):
            return ("ext", dotted)
        if dotted in self.modules:
            # a package attribute may shadow a submodule of the same name
            parent, _, leaf = dotted.rpartition(".")
            return self.modules[dotted]
        head, _, leaf = dotted.rpartition(".")
        owner = self.resolve(head, _depth + 1)
        if isinstance(owner, Module):
            b = owner.env.get(leaf)
            if b is None:
                return None
            if isinstance(b, tuple) and b[0] == "import":
                if b[1] == dotted:
                    return None
                return self.resolve(b[1], _depth + 1)
            if isinstance(b, tuple) and b[0] == "expr":
                return ("expr", owner, b[1])
            return b
        if isinstance(owner, Class):
            d, mem = owner.lookup(leaf)
            if mem is None:
                return None
            if isinstance(mem, (Func, Class)):
                return mem
            if isinstance(mem, tuple) and mem[0] == "import":
                return self.resolve(mem[1], _depth + 1)
            return ("classattr", owner, leaf)
        return None

    # ------------------------------------------------------------ anchors
    def cls(self, dotted):
        r = self.resolve(dotted)
        if not isinstance(r, Class):
            raise AnchorError("class %s not found" % dotted)
        return r

    def fn(self, dotted):
        r = self.resolve(dotted)
        if not isinstance(r, Func):
            raise AnchorError("function %s not found" % dotted)
        return r

    def subclasses(self, c, strict=True):
        return [x for x in self.classes.values() if c in x.mro and (x is not c or not strict)]


class AnchorError(Exception):
    """an anchor of the analysis vanished: the analysis is broken, not the property"""
