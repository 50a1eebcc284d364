"""Appending: the constructor must open the store without truncating it and load the recorded byte count of every table the
file holds; every store operation of the appender must keep existing rows (append mode, metadata merged as old entries
overridden by new ones on every path that finds a stored table of metadata); finishing flushes every registered table and
records per-table and total byte counts over old and new rows.  Same conservation analysis as for the writer (C12)."""
from .util import *
from .hdf5 import *
from . import c12, dl1

DESTRUCTIVE = {"remove", "clear", "put", "flush_all", "truncate", "remove_row", "__delitem__"}


def run(ctx):
    P = ctx.P
    base = P.cls(APPENDER)
    for cls in [base] + list(P.subclasses(base)):
        w = c12.one(ctx, cls, True)
        with ctx.section("%s.__init__" % cls.name):
            if w is not None:
                opening(ctx, cls, w)
        with ctx.section("%s:destructive" % cls.name):
            if w is not None:
                kept(ctx, cls, w)


def opening(ctx, cls, w):
    key = "%s.__init__" % cls.name
    d, f = cls.lookup("__init__")
    N = getattr(w, "N", None)
    gen = cls.lookup("_generate_contents_list")[1]
    read = cls.lookup("get_n_bytes")[1]
    opq = {x.qual for x in (gen, read) if isinstance(x, Func)}
    ver = cls.lookup("version")[1]
    if isinstance(ver, Func):
        opq.add(ver.qual)
    I = ctx.interp(opaque=opq)
    for p in ctx.run(f, I, cls=cls):
        if p.kind == "raise":
            ctx.judge(key + ":missing", True if exc_type(p) == "FileNotFoundError" else None, "a missing file is reported", "raises %s" % exc_type(p), f.loc())
    if N is None:
        ctx.und(key + ":sizes", "no byte counts found")
        return
    for st, ref in I.build(cls, [param("path")], {}):
        v = st.heap[ref].attrs.get(N.args[1])
        v = plain(I.freeze(st, v)) if v is not None else None
        es = dl1.dict_entries(v) if v is not None else None
        if es is None:
            ctx.und(key + ":sizes", "the byte counts start as %s" % (show(v)[:200] if v is not None else "nothing"), f.loc())
            continue
        if not es:
            ctx.bad(key + ":sizes", "the sizes of the tables the file already holds are not loaded, so they are recorded as if empty", f.loc())
        for k, x, conds in es:
            r = [y for y in subterms(x) if y.op == "call" and str(y.args[0]).endswith("get_n_bytes") or
                 y.op == "meth" and y.args[1] == "get_n_bytes" or y.op == "item" and y.args[1] is const("n_bytes")]
            same = any(mentions(y, k) for y in r)
            ctx.judge(key + ":sizes", True if r and same else (False if is_const(x) else None), "the recorded size of each table",
                      "%s starts as %s" % (show(k), show(x)[:200]), f.loc())
            src = show(k)
            ctx.judge(key + ":tables", None if "keys" not in src else (False if any(y.op == "slice" for y in subterms(k)) else True), "every table in the file",
                      "sizes of %s" % src[:200], f.loc())
            if conds not in ((), ((),)):
                live = [a for cs in conds for a, pol in cs]
                ctx.judge(key + ":tables", False if live and all(known_vocab(a, [k, x]) for a in live) and not any(
                    a.op in ("in", "eq") and mentions(a, k) for a in live) else None, "", "only when %s" % "; ".join(conds_str(c) for c in conds), f.loc())


def kept(ctx, cls, w):
    """no public method of the appender removes stored rows or attributes"""
    for n in ("append", "finish", "__exit__", "add_metadata", "add_mapping", "__init__"):
        d, f = cls.lookup(n)
        if not isinstance(f, Func):
            continue
        key = "%s.%s:kept" % (cls.name, n)
        for p in ctx.run(f, cls=cls):
            for e, loops in flat_events(p.events):
                on = isinstance(e.base, Term) and (unphi(e.base) is w.S or plain(e.base).op == "call" and plain(e.base).args[0] == "pandas.HDFStore")
                if on and e.kind in ("meth", "mut") and e.name in DESTRUCTIVE and n != "add_mapping":
                    ctx.bad(key, "stored rows may be removed (%s)" % e.name, e.loc, p.cond_str())
                if on and e.kind == "delitem":
                    ctx.bad(key, "a stored table is deleted", e.loc, p.cond_str())
                if on and e.kind == "setitem" and n not in ("add_mapping", "write"):
                    v = plain(e.value)
                    if v is not call("pandas.DataFrame"):
                        ctx.judge(key, False if known_vocab(v, []) else None, "", "a stored table is replaced by %s" % show(v)[:200], e.loc, p.cond_str())
                    else:
                        # an empty table may only be created where none exists
                        k = unphi(e.args[0])
                        conds = list(p.conds) + [c for _, b in loops for c in b.conds]
                        guard = any(not pol and a.op == "in" and unphi(a.args[0]) is k and mentions(unphi(a.args[1]), w.S) for a, pol in conds)
                        ctx.judge(key, True if guard else False, "an empty table is created only where none exists",
                                  "a stored table is replaced by an empty one", e.loc, conds_str(conds))
        ctx.ok(key, "keeps stored tables", f.loc())
