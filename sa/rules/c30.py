"""Plug-in discovery.  The list built by child_subclasses is reduced to its generators (source collections, element, filters)
and must contain every direct subclass and, by induction over the class tree, everything the recursion yields for each of
them, filtered by nothing but abstractness and names already listed.  The import closure of every module asking for subclasses
(package initialisers interpreted with the tree's actual module list) must contain each module defining one.  Factory lookup
is reduced to the pairing of names and classes; automatic file opening to the guard under which each reader is built."""
import ast
import copy

from .util import *
from .refs import reference
from ..loader import Func as LFunc
from ..terms import elem, subst, item

CS = "CHECLabPy.core.child_subclasses"
BASES = {"CHECLabPy.core.reducer.WaveformReducer": "CHECLabPy.waveform_reducers",
         "CHECLabPy.core.spectrum_fitter.SpectrumFitter": "CHECLabPy.spectrum_fitters",
         "CHECLabPy.core.io.waveform.WaveformReader": "CHECLabPy.core.io"}
FACTORY = "CHECLabPy.core.factory.Factory"
READER = "CHECLabPy.core.io.waveform.WaveformReader"
SAME = ("list", "builtins.list", "tuple", "builtins.tuple", "iter", "builtins.iter", "sorted", "builtins.sorted", "reversed", "builtins.reversed", "itertools.chain")
DEDUP = ("set", "builtins.set", "frozenset", "dict.fromkeys", "builtins.dict.fromkeys")
PASS = ("int", "str")


KEYED = mk("keyed by name")


class Unknown(Exception):
    pass


def carried(t):
    """the loop-carried collection behind a list or set"""
    t = plain(t)
    while t.op in ("setv", "listv") and len(t.args[0]) == 1 and t.args[0][0][0] == "splice":
        t = plain(t.args[0][0][1])
    return t


def run(ctx):
    P = ctx.P
    fn = P.funcs.get(CS)
    if fn is None:
        raise AnchorError(CS)
    with ctx.section("search"):
        search(ctx, fn)
    with ctx.section("offered"):
        offered(ctx)
    with ctx.section("factory"):
        for f in sorted(P.subclasses(P.cls(FACTORY)), key=lambda c: c.qual):
            factory(ctx, f)
    with ctx.section("from_path"):
        from_path(ctx)
    ctx.assumptions.append("inspect.isabstract, type.__subclasses__, importlib.import_module and pkgutil behave as documented")


# ------------------------------------------------------------------ the search
def elements(t, n=0):
    """generators of the elements of t: (element, chain of sources, filter cubes as a list of (atom, polarity))"""
    t = plain(t)
    if n > 12:
        raise Unknown("nesting")
    if t.op in ("listv", "tuple"):
        segs = t.args[0] if t.args and isinstance(t.args[0], tuple) else t.args
        for s in segs:
            if isinstance(s, Term):
                yield s, [], []
            elif s[0] == "item":
                yield s[1], [], []
            elif s[0] == "splice":
                yield from elements(s[1], n + 1)
            else:
                raise Unknown(s[0])
        return
    if t.op == "comp":
        for x, chain, cs in elements(t.args[0], n + 1):
            m = {elem(t.args[0]): x}
            for cubes, segs in t.args[2]:
                for cube in (cubes or ((),)):
                    cc = [(subst(a, m), pol) for a, pol in cube]
                    for s in segs:
                        if s[0] == "item":
                            yield subst(s[1], m), chain, cs + cc
                        elif s[0] == "splice":
                            for y, ch, c2 in elements(subst(s[1], m), n + 1):
                                yield y, chain + ch, cs + cc + c2
                        else:
                            raise Unknown(s[0])
        return
    if t.op == "poly":
        for mono, c in t.args[0]:
            if c != 1 or len(mono) != 1:
                raise Unknown(show(t)[:80])
            yield from elements(mono[0], n + 1)
        return
    k = keyed(t)
    if k is not None:
        for e, chain, cs in k[0]:
            yield e, chain, cs + ([(KEYED, False)] if k[1] else [])
        return
    if t.op == "call" and t.args[0] in SAME + DEDUP:
        for a in t.args[1]:
            yield from elements(a, n + 1)
        return
    yield elem(t), [t], []


def final(t):
    """(term whose elements are the result, unique names by construction, what was dropped)"""
    t = plain(t)
    while True:
        if t.op == "call" and t.args[0] in SAME + DEDUP and len(t.args[1]) == 1:
            t = plain(t.args[1][0])
        elif t.op == "listv" and len(t.args[0]) == 1 and t.args[0][0][0] == "splice":
            t = plain(t.args[0][0][1])
        else:
            break
    if t.op == "slice" or t.op == "item":
        return t, False, "only a part of the classes is returned"
    return t, False, None


def is_name_of(a, e):
    a = plain(a)
    return a.op == "attr" and a.args[0] is e and a.args[1] in ("__name__", "__qualname__")


def search(ctx, fn):
    names = [a.arg for a in fn.node.args.args]
    base = param(names[0])
    # a helper that does the recursion itself is analysed in place of the public function
    I = ctx.interp(opaque={CS})
    paths = ctx.run(fn, I)
    ctx.count(paths)
    for p in paths:
        cs = p.cond_str()[:200]
        if p.kind != "return":
            ctx.judge("search:result", None, "", "raises", fn.loc(), cs)
            continue
        try:
            t, unique, lost = final(p.value)
            if t.op in ("phi",):
                raise Unknown("a list built by a while loop")
            gens = list(elements(t))
        except Unknown as e:
            ctx.und("search:result", "not understood: %s" % e, fn.loc(), cs)
            continue
        if lost:
            ctx.bad("search:complete", lost, fn.loc(), cs)
            continue
        subs = mk("meth", base, "__subclasses__", (), ())
        alt = mk("call", "builtins.type.__subclasses__", (base,), ())
        d, r, other = [], [], []
        for e, chain, cubes in gens:
            if chain and chain[0] is alt:
                chain = [subs] + chain[1:]
            if chain == [subs] and e is elem(subs):
                d.append((e, cubes))
            elif len(chain) == 2 and chain[0] is subs and is_rec(chain[1], elem(subs)) and e is elem(chain[1]):
                r.append((e, cubes))
            elif len(chain) == 1 and is_rec(chain[0], base):
                raise Unknown("self recursion")
            else:
                other.append((e, chain, cubes))
        und = any(x.op in UNKNOWN_OPS or x.op in ("phi", "callv") for e, chain, _ in other for c in chain for x in subterms(c))
        for what, leaves, key in (("direct subclasses", d, "direct"), ("classes further down the tree", r, "deep")):
            good, why = False, "%s are not listed" % what
            for e, cubes in leaves:
                extra = [(a, pol) for a, pol in cubes if not allowed(a, pol, e)]
                if not extra:
                    good = True
                else:
                    why = "%s are listed only when %s" % (what, conds_str(extra)[:160])
            ctx.judge("search:%s" % key, good or (None if und else False), "%s are listed" % what, why, fn.loc(), cs)
        for e, cubes in d:
            ok = any(a.op == "truth" and abstract(a.args[0], e) and not pol for a, pol in cubes)
            ctx.judge("search:concrete", ok, "abstract classes are left out", "abstract classes are listed", fn.loc(), cs)
        for e, cubes in d + r:
            ok = unique or any(named_in(p, a, e) and not pol for a, pol in cubes)
            ctx.judge("search:once", ok, "one class per name", "classes of the same name can be listed more than once", fn.loc(), cs)
        for e, chain, cubes in other:
            if und:
                ctx.und("search:other", "generator not understood: %s" % show(e)[:80], fn.loc(), cs)


def is_rec(t, e):
    if t.op != "call" or t.args[0] != CS:
        return False
    a = list(t.args[1]) + [v for _, v in t.args[2]]
    return len(a) == 1 and a[0] is e


def abstract(t, e):
    t = plain(t)
    if t.op == "call" and t.args[0] == "inspect.isabstract":
        a = list(t.args[1]) + [v for _, v in t.args[2]]
        return a == [e]
    return t.op == "attr" and t.args[0] is e and t.args[1] == "__abstractmethods__"


def allowed(a, pol, e):
    if a is KEYED:
        return True
    if a.op == "truth" and abstract(a.args[0], e) and not pol:
        return True
    if a.op == "in" and not pol:
        return is_name_of(a.args[0], e) or a.args[0] is e
    return False


def named_in(p, a, e):
    """name of e not in the names listed so far"""
    if a is KEYED:
        return True
    if a.op != "in" or not is_name_of(a.args[0], e):
        return False
    c = carried(a.args[1])
    if c.op == "phi":
        lid, ref = c.args[0], c.args[1]
        return adds(p.events, lid, ref)
    if c.op in ("comp",):
        it = plain(c.args[0])
        segs = [s for alt in c.args[2] for s in alt[1]]
        return it.op == "phi" and len(segs) == 1 and segs[0][0] == "item" and is_name_of(segs[0][1], elem(c.args[0])) and not any(cube for cubes, _ in c.args[2] for cube in cubes)
    return False


def adds(events, lid, ref):
    """on every loop path that appends something, the names collection ref receives a name too"""
    seen = False
    for e, _ in flat_events(events):
        if e.kind != "loop":
            continue
        for bp in e.paths:
            muts = [x for x in bp.events if x.kind == "mut" and x.name in ("append", "add", "insert") and isinstance(x.base, Term) and carried(x.base).op == "phi"]
            sets = [x for x in bp.events if x.kind == "setitem" and isinstance(x.base, Term) and carried(x.base).op == "phi" and carried(x.base).args[1] is ref]
            if not muts and not sets:
                continue
            own = [x for x in muts if carried(x.base).args[1] is ref and x.args and plain(x.args[-1]).op == "attr" and plain(x.args[-1]).args[1] in ("__name__", "__qualname__")] + sets
            if any(carried(m.base).args[0] == lid for m in muts):
                seen = True
                if not own:
                    return False
    return seen


def keyed(t):
    """values of a dictionary keyed by the name of the value: its generators"""
    t = plain(t)
    if t.op == "meth" and t.args[1] == "values" and not t.args[2]:
        t = plain(t.args[0])
    elif t.op == "values":
        t = plain(t.args[0])
    else:
        return None
    gens, named = [], True
    segs = t.args[0] if t.op == "dictv" else [("merge", t)]
    for s in segs:
        u = plain(s[1]) if s[0] == "merge" else None
        if u is None or u.op not in ("dcomp", "comp"):
            raise Unknown("a dictionary: %s" % show(t)[:80])
        for x, chain, cs in elements(u.args[0]):
            m = {elem(u.args[0]): x}
            for cubes, inner in u.args[2]:
                for cube in (cubes or ((),)):
                    cc = [(subst(a, m), pol) for a, pol in cube]
                    for q in inner:
                        if q[0] != "kv":
                            raise Unknown(q[0])
                        k, v = subst(q[1], m), subst(q[2], m)
                        named = named and is_name_of(k, v)
                        gens.append((v, chain, cs + cc))
    return gens, named


# ------------------------------------------------------------------ who is imported
def offered(ctx):
    P = ctx.P
    walks = {}
    for pkg in sorted(set(BASES.values())):
        walks[pkg] = walk(ctx, pkg)
    sites = []
    for m in P.modules.values():
        if ".tests" in m.name or m.name.startswith("_ref"):
            continue
        sites += calls(P, m)
    n = 0
    for m, arg, node, scope, before in sites:
        for base, pkg in sorted(BASES.items()):
            if arg == base or arg == "<cls>" and scope is not None and scope.cls is not None and scope.cls.qual == base:
                n += 1
                site(ctx, m, base, pkg, node, scope, before, walks)
    if not n:
        raise AnchorError("no use of child_subclasses")
    for base, pkg in sorted(BASES.items()):
        with ctx.section("concrete:%s" % base.split(".")[-1]):
            leaves(ctx, base, pkg)


def calls(P, m):
    """uses of child_subclasses in a module: (module, dotted argument, node, function or None, imports executed before)"""
    out = []

    def scan(stmts, scope, before):
        for s in stmts:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                continue
            if isinstance(s, ast.ClassDef):
                scan(s.body, scope, before)
                continue
            if isinstance(s, (ast.Import, ast.ImportFrom)):
                before.extend(targets(P, m, s))
                continue
            blocks = [getattr(s, f, []) for f in ("body", "orelse", "finalbody")] + [h.body for h in getattr(s, "handlers", [])]
            nested = {id(x) for b in blocks for y in b for x in ast.walk(y)}
            for x in ast.walk(s):
                if id(x) not in nested and isinstance(x, ast.Call) and resolves(P, m, x.func) == CS:
                    a = x.args[0] if x.args else (x.keywords[0].value if x.keywords else None)
                    d = P.dotted(m, a) if a is not None else None
                    r = P.resolve(d) if d else None
                    if isinstance(r, Class):
                        d = r.qual
                    elif isinstance(a, ast.Name) and a.id in ("cls", "self"):
                        d = "<cls>"
                    out.append((m, d, x, scope, list(before)))
            for b in blocks:
                scan(b, scope, before)

    scan(m.tree.body, None, [])
    for f in P.funcs.values():
        if f.module is m and isinstance(f.node, (ast.FunctionDef, ast.AsyncFunctionDef)) and f.qual != CS:
            scan(f.node.body, f, [])
    return out


def resolves(P, m, node):
    try:
        r = P.resolve(P.dotted(m, node))
    except Exception:
        return None
    return r.qual if isinstance(r, LFunc) else None


def targets(P, m, s):
    """modules of the package an import statement loads"""
    out = []
    if isinstance(s, ast.Import):
        for a in s.names:
            out.append(a.name)
    else:
        for _, d in P.import_binding(m, s):
            head = d.rpartition(".")[0]
            out.append(d)
            out.append(head)
    res = []
    for d in out:
        parts = d.split(".")
        for i in range(1, len(parts) + 1):
            q = ".".join(parts[:i])
            if q in P.modules and q not in res:
                res.append(q)
    return res


def module_imports(P, m):
    """(certain, conditional) modules loaded when m is loaded"""
    sure, maybe = [], []

    def scan(stmts, lst):
        for s in stmts:
            if isinstance(s, (ast.Import, ast.ImportFrom)):
                lst.extend(targets(P, m, s))
            elif isinstance(s, ast.ClassDef):
                scan(s.body, lst)
            elif isinstance(s, (ast.If, ast.For, ast.While)):
                scan(s.body, maybe)
                scan(s.orelse, maybe)
            elif isinstance(s, (ast.Try, ast.With)):
                scan(s.body, lst)
                for h in getattr(s, "handlers", []):
                    scan(h.body, maybe)
                scan(getattr(s, "orelse", []), lst)
                scan(getattr(s, "finalbody", []), lst)
    scan(m.tree.body, sure)
    return sure, maybe


def closure(P, start, walks, cond=False):
    seen, todo = set(), list(start)
    while todo:
        q = todo.pop()
        if q in seen or q not in P.modules:
            continue
        seen.add(q)
        parts = q.split(".")
        todo += [".".join(parts[:i]) for i in range(1, len(parts))]
        sure, maybe = module_imports(P, P.modules[q])
        todo += sure + (maybe if cond else [])
        if q in walks:
            w, ok = walks[q]
            todo += w if ok or not cond else direct(P, q)
    return seen


def direct(P, pkg):
    return sorted(q for q in P.modules if q.rpartition(".")[0] == pkg)


def plugins(P, base, pkg):
    b = P.cls(base)
    return [c for c in P.subclasses(b) if (c.module.name == pkg or c.module.name.startswith(pkg + ".")) and not is_abstract(c)]


def is_abstract(c):
    return bool(open_methods(c))


def open_methods(c):
    meta = [x.metaclass for x in c.mro if isinstance(x, Class) and x.metaclass is not None]
    if "abc.ABC" not in c.external_bases() and not any(m == "abc.ABCMeta" or isinstance(m, Class) and "abc.ABCMeta" in m.external_bases() for m in meta):
        return []
    names = {n for k in c.mro if isinstance(k, Class) for n, v in k.members.items() if isinstance(v, LFunc) and declared(v)}
    return sorted(n for n in names if isinstance(c.lookup(n)[1], LFunc) and declared(c.lookup(n)[1]))


def declared(f):
    return f.deco("abstractmethod", "abstractproperty", "abstractclassmethod", "abstractstaticmethod")


def leaves(ctx, base, pkg):
    """a class nobody derives from and that declares nothing abstract itself must be concrete"""
    P = ctx.P
    b = P.cls(base)
    for c in sorted(P.subclasses(b), key=lambda c: c.qual):
        if not c.module.name.startswith(pkg + ".") or P.subclasses(c) or any(isinstance(v, LFunc) and declared(v) for v in c.members.values()):
            continue
        o = open_methods(c)
        ctx.judge("concrete:%s" % c.name, not o, "%s is concrete" % c.name, "%s is never offered: it does not implement %s" % (c.name, ", ".join(o)), "%s:%d" % (c.module.rel, c.node.lineno))


def site(ctx, m, base, pkg, node, scope, before, walks):
    P = ctx.P
    need = {c.module.name: c for c in plugins(P, base, pkg)}
    where = "%s:%d" % (m.rel, node.lineno)
    key = "offered:%s:%s" % (m.name.replace("CHECLabPy.", ""), base.split(".")[-1])
    parents = [m.name.rpartition(".")[0]] if "." in m.name else []
    if scope is None:
        start = list(before)
        late = closure(P, parents + [m.name], walks, True) - closure(P, start, walks)
    else:
        start = [m.name] + list(before)
        late = set()
    got = closure(P, start, walks)
    maybe = closure(P, start, walks, True)
    for q in sorted(need):
        c = need[q]
        if q in got or q == m.name:
            ctx.ok(key, "%s is loaded" % q, where)
        elif q in maybe:
            ctx.und(key, "%s is loaded only conditionally" % q, where)
        elif scope is None and q in closure(P, [m.name], walks):
            ctx.bad(key, "%s is loaded only after the subclasses were listed: %s is not offered" % (q, c.name), where)
        elif q in late:
            ctx.und(key, "%s may be loaded later" % q, where)
        else:
            ctx.bad(key, "%s is not imported by anything %s imports: %s is not offered" % (q, m.name, c.name), where)


class Walk(ast.NodeTransformer):
    def __init__(self, P, m, pkg):
        self.P, self.m, self.pkg, self.n = P, m, pkg, 0

    def visit_Call(self, node):
        self.generic_visit(node)
        d = self.P.dotted(self.m, node.func)
        if d not in ("pkgutil.iter_modules", "pkgutil.walk_packages"):
            return node
        path = node.args[0] if node.args else next((k.value for k in node.keywords if k.arg == "path"), None)
        text = ast.unparse(path) if path is not None else ""
        if "__path__" not in text and "__file__" not in text:
            raise Unknown("walk over %s" % (text or "everything"))
        prefix = node.args[1] if len(node.args) > 1 else next((k.value for k in node.keywords if k.arg == "prefix"), ast.Constant(""))
        self.n += 1
        items = []
        for q in direct(self.P, self.pkg) + [self.pkg + ".tests"]:
            leaf = q.rpartition(".")[2]
            if leaf == "tests" and q not in self.P.modules and not self.tests():
                continue
            ispkg = q in self.P.modules and self.P.modules[q].is_pkg or leaf == "tests"
            items.append(ast.Tuple([ast.Constant(None), ast.BinOp(copy.deepcopy(prefix), ast.Add(), ast.Constant(leaf)), ast.Constant(ispkg)], ast.Load()))
        return ast.copy_location(ast.List(items, ast.Load()), node)

    def tests(self):
        import os
        return os.path.exists(os.path.join(os.path.dirname(self.m.path), "tests", "__init__.py"))


def walk(ctx, pkg):
    """modules loaded by the package initialiser through import_module: (names, whether all paths agree)"""
    P = ctx.P
    m = P.modules.get(pkg)
    if m is None or not m.is_pkg:
        raise AnchorError("package " + pkg)
    if "import_module" not in ast.dump(m.tree) and "__import__" not in ast.dump(m.tree):
        return [], True
    W = Walk(P, m, pkg)
    body = [s for s in copy.deepcopy(m.tree).body if not isinstance(s, (ast.FunctionDef, ast.ClassDef))]
    fdef = ast.FunctionDef(name="<module %s>" % pkg, args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]),
                           body=body or [ast.Pass()], decorator_list=[], returns=None, type_params=[])
    try:
        fdef = W.visit(fdef)
        ast.copy_location(fdef, m.tree.body[0])
        fdef.lineno, fdef.col_offset = 1, 0
        ast.fix_missing_locations(fdef)
        f = LFunc(pkg + ".<module>", m, fdef)
        I = ctx.interp()
        env = dict(m.env)
        # helper functions of the initialiser see the module list too
        for q, g in list(P.funcs.items()):
            if g.module is m and g.cls is None:
                g.node = W.visit(copy.deepcopy(g.node))
                ast.fix_missing_locations(g.node)
        paths = ctx.run(f, I)
    except (Unknown, Limit) as e:
        ctx.und("walk:%s" % pkg.split(".")[-1], "not understood: %s" % e, "%s:1" % m.rel)
        return [], False
    ctx.count(paths)
    sets, certain = [], True
    for p in paths:
        got = set()
        for e, loops in flat_events(p.events):
            if e.kind in ("call", "callv") and str(e.name or "").split(".")[-1] in ("import_module", "__import__"):
                a = list(e.args or ()) + [v for _, v in (e.kwargs or ())]
                c = plain(a[0]) if a else None
                if c is None or not is_const(c):
                    certain = False
                    continue
                x = c.args[0]
                if x.startswith("."):
                    x = pkg + x
                if loops and any(l.paths and len(l.paths) > 1 for l in loops):
                    certain = False
                if x in P.modules:
                    got.add(x)
                elif x.startswith(pkg + "."):
                    pass
                else:
                    ctx.bad("walk:%s" % pkg.split(".")[-1], "imports %s, which does not exist" % x, e.loc)
        if p.kind == "raise" and not swallowed(p):
            continue
        sets.append((got, p))
    if not sets:
        ctx.und("walk:%s" % pkg.split(".")[-1], "no completing path", "%s:1" % m.rel)
        return [], False
    out = set.intersection(*[g for g, _ in sets])
    for g, p in sets:
        if any(e.kind == "handler" for e, _ in flat_events(p.events)) and certain:
            ctx.bad("walk:%s" % pkg.split(".")[-1], "a module that fails to load is left out silently", "%s:1" % m.rel, p.cond_str()[:160])
            break
    ctx.judge("walk:%s" % pkg.split(".")[-1], True if certain else None, "loads %d modules" % len(out), "a module name is not known", "%s:1" % m.rel)
    return sorted(out), certain


def swallowed(p):
    return False


# ------------------------------------------------------------------ factory
def factory(ctx, f):
    P = ctx.P
    name = f.name
    definer, fn = f.lookup("produce")
    if not isinstance(fn, LFunc):
        raise AnchorError(f.qual + ".produce")
    pn = [a.arg for a in fn.node.args.args][1]
    I = ctx.interp(opaque={CS})
    paths = ctx.run(fn, I, cls=f)
    ctx.count(paths)
    want = param(pn)
    nret = 0
    for p in paths:
        cs = p.cond_str()[:200]
        if p.kind == "raise":
            x = exc_type(p)
            ctx.judge("%s:unknown" % name, x == "KeyError", "an unknown name raises KeyError", "raises %s" % x, fn.loc(), cs)
            continue
        nret += 1
        v = plain(p.value) if p.value is not None else NONE
        if v.op != "callv":
            und = any(x.op in UNKNOWN_OPS for x in subterms(v))
            ctx.judge("%s:built" % name, None if und else False, "", "returns %s instead of an instance of the named class" % show(v)[:100], fn.loc(), cs)
            continue
        target, pos, kw = v.args[0], v.args[1], v.args[2]
        target = members(ctx, I, f, target)
        conds = [(members(ctx, I, f, a), pol) for a, pol in p.conds]
        try:
            ok, why = chosen(target, want, conds)
        except Unknown as e:
            ok, why = None, str(e)
        ctx.judge("%s:built" % name, ok, "the class of that name is built", why, fn.loc(), cs)
        a = [show(x) for x in pos]
        k = [(n, show(x)) for n, x in kw]
        va, vk = fn.node.args.vararg, fn.node.args.kwarg
        ctx.judge("%s:arguments" % name, (va is not None and a == ["star(%s)" % va.arg]) and (vk is not None and len(k) == 1 and k[0][1] == vk.arg) or None,
                  "arguments are handed on", "arguments are handed on differently: %s %s" % (a, k), fn.loc(), cs)
    if not nret:
        ctx.bad("%s:built" % name, "nothing is ever built", fn.loc())


def members(ctx, I, f, t):
    """class attributes of the factory replaced by what their definition says"""
    m = {}
    for x in subterms(t):
        if x.op in ("classattr", "attr") and len(x.args) >= 2 and isinstance(x.args[-1], str) and x.args[-1] in f.members:
            owner = x.args[0]
            if owner == f.qual or isinstance(owner, Term) and owner.op in ("class", "new", "obj"):
                v = class_expr(ctx, f, x.args[-1])
                if v is not None:
                    m[x] = v
    return subst(t, m) if m else t


_cache = {}


def class_expr(ctx, f, name, depth=0):
    node = f.members.get(name)
    if not isinstance(node, ast.AST) or depth > 3:
        return None
    used = sorted({n.id for n in ast.walk(node) if isinstance(n, ast.Name) and n.id in f.members and isinstance(f.members[n.id], ast.AST)})
    src = "def f(%s):\n    return %s\n" % (", ".join(used), ast.unparse(node))
    like = f.lookup("produce")[1]

    class L:
        module = f.module
    R = reference(ctx, src, like=L)["f"]
    args = {}
    for u in used:
        v = class_expr(ctx, f, u, depth + 1)
        if v is None:
            return None
        args[u] = v
    ps = ctx.run(R, ctx.interp(opaque={CS}), args=args)
    return ps[0].value if len(ps) == 1 and ps[0].kind == "return" else None


def pairing(t):
    """(term of names, term of classes) of a dictionary"""
    t = plain(t)
    while t.op == "call" and t.args[0] in ("dict", "builtins.dict") and len(t.args[1]) == 1 and not t.args[2]:
        t = plain(t.args[1][0])
    if t.op == "pairs":
        t = plain(t.args[0])
    if t.op == "dictv" and len(t.args[0]) == 1 and t.args[0][0][0] == "merge":
        t = plain(t.args[0][0][1])
        if t.op == "pairs":
            t = plain(t.args[0])
    if t.op == "zip":
        a = t.args[0] if isinstance(t.args[0], tuple) else t.args
        if len(a) == 2:
            return "zip", a[0], a[1]
    if t.op in ("dcomp", "comp"):
        return "comp", t, None
    return None, None, None


def is_names(a, b):
    """a lists the names of the classes b, in the same order"""
    a, b = seq(a), seq(b)
    if a.op == "comp" and seq(a.args[0]) is b:
        alts = a.args[2]
        e = elem(a.args[0])
        if len(alts) == 1 and not any(alts[0][0]) and len(alts[0][1]) == 1 and alts[0][1][0][0] == "item":
            return is_name_of(alts[0][1][0][1], e)
        return False
    if a.op in ("call", "meth", "comp") and seq(a) is not b:
        return False
    raise Unknown("names %s" % show(a)[:80])


def seq(t):
    t = plain(t)
    while True:
        if t.op == "call" and t.args[0] in ("list", "tuple", "builtins.list", "builtins.tuple") and len(t.args[1]) == 1:
            t = plain(t.args[1][0])
        elif t.op == "listv" and len(t.args[0]) == 1 and t.args[0][0][0] == "splice":
            t = plain(t.args[0][0][1])
        else:
            return t


def complete(t):
    """is t the full list of subclasses"""
    t = seq(t)
    if t.op == "call" and t.args[0] == CS:
        return True
    if t.op == "comp" or t.op == "slice" or t.op == "item":
        return False
    raise Unknown("classes %s" % show(t)[:80])


def chosen(t, want, conds):
    t = plain(t)
    if t.op == "item" and t.args[1] is want or t.op == "meth" and t.args[1] == "get" and t.args[2] and t.args[2][0] is want or t.op == "get" and t.args[1] is want:
        how, a, b = pairing(t.args[0])
        if how == "zip":
            if not is_names(a, b):
                return False, "names and classes are not paired: %s with %s" % (show(a)[:80], show(b)[:60])
            return complete(b), "only a part of the classes can be built"
        if how == "comp":
            e = elem(a.args[0])
            src = a.args[0]
            ok = True
            for cubes, segs in a.args[2]:
                for s in segs:
                    if s[0] != "kv":
                        raise Unknown(s[0])
                    ok = ok and pair_ok(s[1], s[2], src)
                if any(cubes):
                    return False, "only a part of the classes can be built"
            z = plain(src)
            if z.op == "zip":
                z = (z.args[0] if isinstance(z.args[0], tuple) else z.args)[1]
            return ok and complete(z), "names and classes are not paired"
        raise Unknown("lookup in %s" % show(t.args[0])[:100])
    if t.op in ("elem", "item"):
        for a, pol in conds:
            if a.op == "eq" and pol and want in (a.args[0], a.args[1]):
                n = a.args[1] if a.args[0] is want else a.args[0]
                src = t if t.op == "elem" else t.args[0]
                if src.op != "elem":
                    raise Unknown(show(t)[:80])
                return pair_ok(n, t, src.args[0]), "the name compared is not the name of the class built"
        if t.op == "elem":
            return False, "a class is built whose name was not compared with the one requested"
    if t.op in ("item", "meth") and not any(x.op in UNKNOWN_OPS for x in subterms(t)) and not mentions(t, want):
        return False, "the class built does not depend on the name"
    if t.op == "item" and t.args[1] is not want and mentions(t.args[1], want):
        return False, "looked up under %s" % show(t.args[1])[:80]
    raise Unknown(show(t)[:100])


def mentions(t, x):
    return any(y is x for y in subterms(t))


def pair_ok(k, v, src):
    """k is the name of v, both taken from an element of src"""
    k, v = plain(k), plain(v)
    if is_name_of(k, v):
        return True
    z = plain(src)
    if z.op == "zip":
        a = z.args[0] if isinstance(z.args[0], tuple) else z.args
        if len(a) == 2:
            e = elem(src)
            if k is item(e, const(0)) and v is item(e, const(1)):
                return is_names(a[0], a[1])
            if k is item(e, const(1)) and v is item(e, const(0)):
                return is_names(a[1], a[0])
            # elements of a zip may be normalised to the elements of its parts
            ka, kb = seq(a[0]), seq(a[1])
            if k is elem(a[0]) and v is elem(a[1]):
                return is_names(a[0], a[1])
            raise Unknown("pairs %s" % show(z)[:80])
    return False


# ------------------------------------------------------------------ automatic opening
def from_path(ctx):
    P = ctx.P
    w = P.cls(READER)
    definer, fn = w.lookup("from_path")
    if not isinstance(fn, LFunc):
        raise AnchorError(READER + ".from_path")
    names = [a.arg for a in fn.node.args.args]
    path = param(names[1])
    I = ctx.interp(opaque={CS})
    paths = ctx.run(fn, I, cls=w)
    ctx.count(paths)
    nret = nraise = 0
    for p in paths:
        cs = p.cond_str()[:200]
        if p.kind == "raise":
            nraise += 1
            ctx.ok("from_path:none", "raises when nothing is compatible", fn.loc())
            continue
        v = plain(p.value) if p.value is not None else NONE
        if v is NONE:
            ctx.bad("from_path:none", "returns nothing when no reader is compatible", fn.loc(), cs)
            continue
        nret += 1
        if v.op != "callv":
            und = any(x.op in UNKNOWN_OPS for x in subterms(v)) or v.op not in ("new", "obj", "const", "call")
            ctx.judge("from_path:reader", None if und else False, "", "returns %s" % show(v)[:100], fn.loc(), cs)
            continue
        r = plain(v.args[0])
        try:
            ok, why = compatible(r, path, p)
        except Unknown as e:
            ok, why = None, str(e)
        ctx.judge("from_path:reader", ok, "the reader declared itself compatible with this file", why, fn.loc(), cs)
        a = v.args[1]
        ctx.judge("from_path:path", bool(a) and a[0] is path or dict(v.args[2]).get("path") is path or None, "opens that file", "opens %s" % ", ".join(show(x) for x in a)[:80], fn.loc(), cs)
        if len(names) > 2:
            m = param(names[2])
            got = a[1] if len(a) > 1 else dict(v.args[2]).get(names[2])
            ctx.judge("from_path:max_events", got is m, "hands on the number of events", "the number of events is not handed on", fn.loc(), cs)
    ctx.judge("from_path:some", nret > 0, "a reader is opened", "no reader is ever opened", fn.loc())


def compatible(r, path, p):
    """is reader term r taken from the subclasses under the guard r.is_compatible(path)"""
    def guard(a, pol, e):
        return a.op == "truth" and pol and plain(a.args[0]).op == "meth" and plain(a.args[0]).args[0] is e and plain(a.args[0]).args[1] == "is_compatible" \
            and (list(plain(a.args[0]).args[2]) + [x for _, x in plain(a.args[0]).args[3]])[:1] == [path]
    if r.op == "elem":
        src = seq(r.args[0])
        if src.op == "call" and src.args[0] == CS:
            ok = any(guard(a, pol, r) for a, pol in p.conds)
            return ok, "the reader built was not asked whether it can read the file"
        if src.op == "comp":
            return from_comp(src, path, guard)
    if r.op == "item" or r.op == "call" and r.args[0] in ("next", "builtins.next", "first"):
        src = seq(r.args[0] if r.op == "item" else r.args[1][0])
        if src.op == "call" and src.args[0] == "iter":
            src = seq(src.args[1][0])
        if src.op == "comp":
            return from_comp(src, path, guard)
        if src.op == "call" and src.args[0] == CS:
            return False, "the reader built was not asked whether it can read the file"
    if r.op in ("last", "phi"):
        raise Unknown("reader chosen in a loop")
    if r.op == "class":
        return False, "%s is built whether or not it can read the file" % r.args[0]
    raise Unknown(show(r)[:100])


def from_comp(src, path, guard):
    it = seq(src.args[0])
    if it.op == "call" and it.args[0] == CS:
        e = elem(src.args[0])
        ok = True
        for cubes, segs in src.args[2]:
            for s in segs:
                if s[0] != "item" or s[1] is not e:
                    raise Unknown(show(src)[:80])
            for cube in (cubes or ((),)):
                ok = ok and any(guard(a, pol, e) for a, pol in cube)
        return ok, "the reader built was not asked whether it can read the file"
    raise Unknown(show(src)[:80])
