"""Reference functions: small specifications written as Python source, interpreted by the same abstract interpreter as
the code; observed and specified normal forms are compared per compatible path (equality of global value numbers)."""
import ast
import itertools
from .util import *
from ..loader import Module, _parse

PREAMBLE = "import os\nimport numpy as np\nimport pandas as pd\n"
_n = itertools.count()


def reference(ctx, src, like=None):
    """{name: Func}; names are resolved in the module of `like` first"""
    P = ctx.P
    name = "_ref%d" % next(_n)
    m = Module(name, "<reference>", "<reference>", _parse(PREAMBLE + src, "<reference>"), False)
    P.modules[name] = m
    before_c, before_f = set(P.classes), set(P.funcs)
    P._index(m)
    for q in set(P.classes) - before_c:
        P._bases(P.classes[q])
    for q in set(P.classes) - before_c:
        c = P.classes[q]
        c.mro = P._mro(c, ())
    if like is not None:
        for k, v in like.module.env.items():
            m.env.setdefault(k, v)
    for q in set(P.funcs) - before_f:
        f = P.funcs[q]
        f.decorators = [P.dotted(m, n.func if isinstance(n, ast.Call) else n) for n in f.deco_nodes]
    return {k: v for k, v in m.env.items() if isinstance(v, (Func, Class))}


def cset(p):
    return {plain(a): pol for a, pol in p.conds}


def compatible(I, a, b):
    ca, cb = cset(a), cset(b)
    if any(cb.get(k, v) != v for k, v in ca.items()):
        return False
    # facts of one path may refute an atom of the other
    for x, y in ((a, cb), (b, ca)):
        for atom, pol in y.items():
            d = I.decide(x.st, atom) if x.st is not None else None
            if d is not None and d != pol:
                return False
    return True


def default_project(p):
    if p.kind == "raise":
        return ("raise", exc_type(p))
    return ("return", plain(p.value) if isinstance(p.value, Term) else p.value)


def same(ctx, key, I, got, ref, project=default_project, what="", where=None, extra=()):
    """every pair of compatible paths of observation and reference has equal projections"""
    voc = set(extra)
    for r in ref:
        for v in proj_terms(project(r)):
            voc |= vocab(v)
        for c, _ in r.conds:
            voc |= vocab(plain(c))
    verdict, msg, path = True, "", None
    if not got:
        verdict, msg = None, "no path"
    for g in got:
        pg = project(g)
        mates = [r for r in ref if compatible(I, g, r)]
        if not mates:
            verdict, msg = (None if verdict is True else verdict), "no reference path for %s" % g.cond_str()[:200]
            continue
        for r in mates:
            pr = project(r)
            if pg == pr:
                continue
            known = all(known_of(v, voc) for v in proj_terms(pg)) and all(known_of(plain(c), voc) for c, _ in g.conds)
            v = False if known else None
            if v is False and verdict is not False or v is None and verdict is True:
                verdict, path = v, g.cond_str()
                msg = "%s instead of %s" % (show_proj(pg), show_proj(pr))
    ctx.judge(key, verdict, what or "equals its specification on %d paths" % len(got), (what + ": " if what else "") + msg[:900],
              where, path)
    return verdict


def known_of(t, voc):
    for w in vocab(t) - voc:
        if w[0] == "call" and w[1] in DISTINCT:
            continue
        return False
    return True


def proj_terms(x):
    if isinstance(x, Term):
        yield x
    elif isinstance(x, (tuple, list, set, frozenset)):
        for y in x:
            yield from proj_terms(y)
    elif isinstance(x, dict):
        for k, y in x.items():
            yield from proj_terms(y)


def show_proj(x):
    if isinstance(x, Term):
        return show(x)[:500]
    if isinstance(x, (tuple, list)):
        return "(" + ", ".join(show_proj(y) for y in x) + ")"
    if isinstance(x, dict):
        return "{" + ", ".join("%s: %s" % (k, show_proj(y)) for k, y in x.items()) + "}"
    return str(x)
