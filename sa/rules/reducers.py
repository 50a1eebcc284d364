"""Reducer classes, their columns, and their prepared states."""
from .util import *

RED = "CHECLabPy.core.reducer."


def classes(ctx):
    base = ctx.P.cls(RED + "WaveformReducer")
    return base, [c for c in ctx.P.subclasses(base)]


def columns(ctx, cls):
    """name -> Func of the columns a class offers (own ones; inherited ones belong to the parent)"""
    return {n: m for n, m in cls.members.items() if isinstance(m, Func) and m.deco("column")}


def all_columns(ctx, cls):
    """the columns evaluated by the class itself: its own, without those a parent already offers"""
    inherited = set()
    for c in cls.mro:
        if isinstance(c, Class) and c is not cls:
            inherited |= set(columns(ctx, c))
    return {n: f for n, f in columns(ctx, cls).items() if n not in inherited}


def kwnames(cls):
    out = []
    for k in cls.mro:
        if isinstance(k, Class):
            f = k.members.get("__init__")
            if isinstance(f, Func):
                a = f.node.args
                for x in a.args[3:] + a.kwonlyargs:
                    if x.arg not in out and x.arg != "_disable_by_default":
                        out.append(x.arg)
    return out


KW = param("kwargs")


def build(ctx, cls, I):
    """instances with symbolic settings, without the variant that only replaces process by the null process"""
    kw = [(n, param(n)) for n in kwnames(cls)] + [("**", KW)]
    res = I.build(cls, [param("n_pixels"), param("n_samples")], kw)
    out = []
    for st, ref in res:
        h = st.heap.get(ref)
        if h is not None and h.kind == "obj" and "process" in h.attrs:
            continue
        out.append((st, ref))
    return out or res


def prepared(ctx, cls, I, wf=param("waveforms"), built=None):
    """[(path of _prepare, state, instance)]"""
    d, prep = cls.lookup("_prepare")
    out = []
    for st, ref in built or build(ctx, cls, I):
        for p in ctx.count(I.run(prep, cls=cls, st=fresh(st), self_v=ref, args={arg1(prep): wf})):
            out.append((p, ref))
    return out


def fresh(st):
    """a copy of the state without the events so far"""
    s = st.copy()
    s.events = []
    return s


def arg1(fn):
    return fn.node.args.args[1].arg


def phases(ctx, cls, I, wf=param("waveforms")):
    """yields (name, Func, path, instance) for _prepare, each column from each prepared state, and _post"""
    cols = all_columns(ctx, cls)
    prep = cls.lookup("_prepare")[1]
    post = cls.lookup("_post")[1]
    for p, ref in prepared(ctx, cls, I, wf):
        yield "_prepare", prep, p, ref
        if p.kind != "return":
            continue
        for n, f in cols.items():
            for q in ctx.count(I.run(f, cls=cls, st=fresh(p.st), self_v=ref)):
                yield n, f, q, ref
        if isinstance(post, Func):
            for q in ctx.count(I.run(post, cls=cls, st=fresh(p.st), self_v=ref)):
                yield "_post", post, q, ref
