"""Conservation of appended frames: on every path of the public append of every writer class the frame enters the buffer of
its table (at the end) and the table is registered; wherever a buffer is emptied, on any path of any public method, the
whole buffer was written to the store before, in order, by a row-preserving value flow, to the same table, in append mode
and with its size added to the byte count; finishing flushes every registered table, records the byte counts, stores every
metadata table, then closes; leaving the context finishes on every path; mapping, metadata and direct writes reach the
store under their own names."""
import ast
from .util import *
from .hdf5 import *

APPEND_KW = {"index", "data_columns", "expectedrows", "min_itemsize", "complevel", "complib", "chunksize", "encoding", "columns",
             "nan_rep", "errors", "axes", "format", "append", "dropna"}


class W:
    pass


def discover(ctx, cls):
    """attributes of the writer, from what append() does"""
    w = W()
    w.cls = cls
    sn = store_attr(ctx, cls)
    if sn is None:
        raise AnchorError("the HDFStore of %s" % cls.qual)
    w.S = attr(SELF, sn)
    d, f = cls.lookup("append")
    if not isinstance(f, Func):
        raise AnchorError("%s.append" % cls.qual)
    w.append = f
    names = [a.arg for a in f.node.args.args]
    w.df, w.key = param(names[1]), param(names[2])
    w.paths = ctx.run(f, cls=cls)
    w.B = w.K = None
    for p in returns(w.paths):
        for e, loops in flat_events(p.events):
            if e.kind == "mut" and any(plain(a) is w.df for a in e.args) and unphi(e.base) is not w.S:
                b = unphi(e.base)
                if b.op == "item" and b.args[1] is w.key:
                    w.B = b.args[0]
            if e.kind == "setitem" and e.args and plain(e.args[0]) is w.key and mentions(plain(e.value), w.df) and plain(e.base) is not w.S \
                    and plain(e.value).op == "listv":
                w.B = plain(e.base)
            if e.kind == "mut" and e.name == "add" and [plain(a) for a in e.args] == [w.key]:
                w.K = unphi(e.base)
    return w


def emptied(e, w):
    """the table whose buffer this event empties"""
    B = w.B
    if e.kind == "setitem" and unphi(e.base) is B and plain(e.value).op == "listv" and not plain(e.value).args[0]:
        return unphi(e.args[0])
    if e.kind == "mut" and e.name == "clear":
        b = unphi(e.base)
        if b is B:
            return "all"
        if b.op == "item" and b.args[0] is B:
            return b.args[1]
    if e.kind in ("mut", "meth") and e.name == "pop" and unphi(e.base) is B and e.args:
        return unphi(e.args[0])
    if e.kind == "delitem" and unphi(e.base) is B and e.args:
        return unphi(e.args[0])
    if e.kind == "setattr" and plain(e.base) is SELF and B is attr(SELF, e.name):
        return "all"
    if e.kind in ("mut", "meth") and e.name in ("pop", "remove", "reverse", "insert", "sort") and unphi(e.base).op == "item" and unphi(e.base).args[0] is B:
        return ("part", e.name)
    return None


def scan(ctx, w, where, p, key, sorts, pending_df=None):
    """check every flush and every emptying in one straight-line list of events; returns the flushed keys"""
    evs = events(p)
    done = {}
    n = None
    for e in evs:
        fl = flushes([e], w.S)
        for _, name, k, data, kw in fl:
            frames, prob = rows_of(data, sorts)
            if prob:
                ctx.bad("%s:rows" % key, prob, e.loc, conds_str(p.conds))
                continue
            src = frames is not None and frames.op == "item" and frames.args[0] is w.B
            if not src:
                if frames is not None and pending_df is not None and frames is pending_df:
                    continue
                ctx.judge("%s:rows" % key, False if frames is not None and frames.op == "item" and frames.args[0].op == "item" and frames.args[0].args[0] is w.B
                          else None, "", "stores %s" % show(data)[:200], e.loc)
                continue
            if frames.args[1] is not k:
                ctx.judge("%s:table" % key, False if known_vocab(k, [frames]) else None, "", "the rows of %s are stored to %s" % (show(frames.args[1]), show(k)),
                          e.loc, conds_str(p.conds))
                continue
            if name != "append":
                ctx.bad("%s:append" % key, "replaces the rows already in the table (%s)" % name, e.loc, conds_str(p.conds))
                continue
            if kw.get("append", const(True)) is not const(True):
                ctx.judge("%s:append" % key, False if is_const(kw["append"]) else None, "", "append=%s" % show(kw["append"]), e.loc)
            if kw.get("dropna", const(False)) not in (const(False), NONE):
                ctx.judge("%s:append" % key, False if is_const(kw["dropna"]) else None, "", "rows without values are dropped", e.loc)
            if kw.get("format", const("table")) not in (const("table"), const("t"), NONE):
                ctx.judge("%s:append" % key, False if is_const(kw["format"]) else None, "", "format %s cannot be appended to" % show(kw["format"]), e.loc)
            if kw.get("columns", NONE) is not NONE:
                ctx.und("%s:append" % key, "columns=%s" % show(kw["columns"]), e.loc)
            if any(x not in APPEND_KW and not x.startswith("**") for x in kw):
                ctx.und("%s:append" % key, "unknown arguments %s" % sorted(kw), e.loc)
            if k in done:
                ctx.bad("%s:once" % key, "the same buffer is stored twice", e.loc, conds_str(p.conds))
            done[k] = (data, e)
            ctx.ok("%s:rows" % key, "the whole buffer, in order", e.loc)
            ctx.ok("%s:append" % key, "appended to its table", e.loc)
        k = emptied(e, w)
        if k is not None:
            if isinstance(k, tuple):
                ctx.bad("%s:emptied" % key, "buffered frames are removed or reordered (%s)" % k[1], e.loc, conds_str(p.conds))
            elif k == "all":
                ctx.judge("%s:emptied" % key, False, "", "the buffers of all tables are emptied", e.loc, conds_str(p.conds))
            else:
                ctx.judge("%s:emptied" % key, True if k in done else False, "only after it was stored",
                          "the buffer of %s is emptied without having been stored before" % show(k), e.loc, conds_str(p.conds))
                done.setdefault(k, (None, None))
                done[k] = done[k] + ("emptied",)
    for k, v in done.items():
        if v[0] is None:
            continue
        ctx.judge("%s:kept" % key, "emptied" in v, "the stored buffer is emptied", "the stored frames stay in the buffer and are stored again",
                  v[1].loc, conds_str(p.conds))
        # byte counts
        ok, what = False, "the size of the stored rows is not added to the byte count"
        for e in evs:
            if e.kind == "setitem" and e.args and unphi(e.args[0]) is k and unphi(e.base) is not w.B:
                b = unphi(e.base)
                val = unphi(e.value)
                inc = sub(val, item(b, k))
                s = size_of(inc, v[0])
                if s is True:
                    ok = b
                    partial(ctx, "%s:bytes" % key, inc, e)
                elif size_of(sub(const(0), inc), v[0]) is True:
                    ok, what = False, "the size of the stored rows is subtracted from the byte count"
                    break
                elif s is None and mentions(val, v[0]):
                    s2 = size_of(val, v[0])
                    if s2 is True:
                        ok, what = False, "the byte count of the table is overwritten by that of the last rows stored"
                        break
                    ok = None if ok is False else ok
        ctx.judge("%s:bytes" % key, True if isinstance(ok, Term) else ok, "the size of the stored rows is added", what, where, conds_str(p.conds))
        if isinstance(ok, Term):
            w.N = ok
    return {k: v for k, v in done.items() if v[0] is not None}


def partial(ctx, key, t, e):
    """memory_usage that leaves out the index or the content of object columns"""
    for x in subterms(t):
        if x.op == "meth" and x.args[1] == "memory_usage":
            kw = dict(x.args[3])
            idx = kw.get("index", x.args[2][0] if x.args[2] else const(True))
            deep = kw.get("deep", x.args[2][1] if len(x.args[2]) > 1 else const(False))
            for nm, v, want in (("the index", idx, True), ("the strings of the rows", deep, True)):
                ctx.judge(key + ":all", True if v is const(True) else (False if is_const(v) else None), "counts %s" % nm, "the size leaves out %s" % nm, e.loc)


def check_append(ctx, w, sorts):
    cls = w.cls
    key = "%s.append" % cls.name
    f = w.append
    for p in w.paths:
        if p.kind == "raise":
            ctx.und(key, "raises %s when %s" % (exc_type(p), p.cond_str()), f.loc())
            continue
        got = [e for e in p.events if e.kind == "mut" and unphi(e.base) is not w.S and any(plain(a) is w.df for a in e.args)] if w.B is not None else []
        got2 = [e for e in p.events if e.kind == "setitem" and w.B is not None and plain(e.base) is w.B and mentions(plain(e.value), w.df)]
        direct = [x for x in flushes(p.events, w.S) if mentions(x[3], w.df) and not any(y.op == "item" and y.args[0] is w.B for y in subterms(x[3]))]
        if direct and w.B is None:
            ctx.und(key, "stores each frame directly", f.loc())
            continue
        n = 0
        for e in got:
            if unphi(e.base) is item(w.B, w.key) and e.name == "append":
                n += 1
            elif unphi(e.base) is item(w.B, w.key) and e.name in ("insert", "appendleft"):
                ctx.bad(key + ":buffer", "the frame is not put at the end of the buffer (%s)" % e.name, e.loc, p.cond_str())
            elif unphi(e.base) is item(w.B, w.key) and e.name == "extend":
                n += 1
            else:
                ctx.und(key + ":buffer", "buffered by %s.%s" % (show(plain(e.base)), e.name), e.loc)
        n += len(got2)
        ctx.judge(key + ":buffer", n == 1 if not direct else None, "enters the buffer of its table once",
                  "the frame enters the buffer %d times" % n, f.loc(), p.cond_str())
        if w.K is None:
            for e in p.events:
                if e.kind == "setattr" and plain(e.base) is SELF and plain(e.value).op in ("setv", "listv") and plain(e.value).args[0] == (("item", w.key),):
                    ctx.bad(key + ":registered", "the tables registered before are dropped (%s is replaced)" % e.name, e.loc, p.cond_str())
        add_ = [e for e in p.events if e.kind == "mut" and w.K is not None and unphi(e.base) is w.K and e.name in ("add", "append")
                and [plain(a) for a in e.args] == [w.key]]
        if w.K is not None:
            ctx.judge(key + ":registered", bool(add_), "the table is registered", "the table is not registered for the final flush", f.loc(), p.cond_str())
        # the emptied buffer must contain the new frame
        idx = {id(e): i for i, e in enumerate(p.events)}
        ins = [idx[id(e)] for e in got + got2]
        for e in p.events:
            k = emptied(e, w)
            if k is w.key and ins:
                fl = [idx[id(x[0])] for x in flushes(p.events, w.S)]
                late = [i for i in ins if fl and min(fl) < i < idx[id(e)]]
                ctx.judge(key + ":order", not late, "frames enter before the buffer is stored",
                          "the frame enters the buffer after it was stored and before it is emptied", e.loc, p.cond_str())
        scan(ctx, w, f.loc(), p, key, sorts)


def own_state(ctx, w):
    """what a writer collects is its own: made by its constructor, one container per table"""
    cls = w.cls
    d, f = cls.lookup("__init__")
    if not isinstance(f, Func):
        return
    key = "%s:own" % cls.name
    if w.B.op == "dictv" and not w.B.args[0]:
        ctx.bad(key, "frames are collected in a container of the class, which every writer shares", w.append.loc())
    for b in [w.B] + sorted(getattr(w, "M", ()), key=show):
        if b.op == "dictv" and b is not w.B and not b.args[0]:
            ctx.bad(key, "metadata is collected in a container of the class, which every writer shares", w.append.loc())
        if b.op != "attr" or b.args[0] is not SELF:
            continue
        n = b.args[1]
        sets = [[e for e, _ in events_of(p, "setattr") if e.name == n and plain(e.base) is SELF] for p in returns(ctx.run(f, cls=cls))]
        if sets and all(not x for x in sets):
            holder, m = cls.lookup(n)
            ctx.judge(key + ":" + n, None if m is None or isinstance(m, Func) else False, "", "%s is one object shared by every writer" % n, f.loc())
        elif sets:
            ctx.ok(key + ":" + n, "made when the writer is made", f.loc())
    # the factory of missing entries makes a new one each time
    for c in cls.mro:
        init = c.members.get("__init__") if isinstance(c, Class) else None
        if not isinstance(init, Func):
            continue
        local = {t.id for s in ast.walk(init.node) if isinstance(s, ast.Assign) for t in s.targets if isinstance(t, ast.Name)
                 if isinstance(s.value, (ast.Dict, ast.List, ast.Set, ast.Call, ast.ListComp, ast.DictComp))}
        for n in ast.walk(init.node):
            if isinstance(n, ast.Lambda) and isinstance(n.body, ast.Name) and n.body.id in local and not n.args.args:
                ctx.bad(key + ":factory", "the entries of all tables share one container (%s)" % n.body.id, init.loc(n))


def flat_paths(p):
    """the path and the bodies of its loops: (path, loop events around it)"""
    yield p, ()
    for e in p.events:
        if e.kind == "loop":
            for b in e.paths:
                for q, l in flat_paths(b):
                    yield q, (e,) + l


def check_finish(ctx, w, sorts, appender=False):
    cls = w.cls
    d, f = cls.lookup("finish")
    if not isinstance(f, Func):
        raise AnchorError("%s.finish" % cls.qual)
    key = "%s.finish" % cls.name
    for p in ctx.run(f, cls=cls):
        if p.kind == "raise":
            ctx.und(key, "raises %s" % exc_type(p), f.loc())
            continue
        fl_loop = None
        for i, e in enumerate(p.events):
            if e.kind != "loop":
                continue
            inside = [x for b, _ in flat_paths_of(e) for x in flushes(b.events, w.S)]
            if inside:
                fl_loop = (i, e)
                break
        if fl_loop is None:
            ctx.bad(key + ":flush", "the remaining buffers are not stored", f.loc(), p.cond_str())
            continue
        i, e = fl_loop
        base = unphi(e.base)
        while base.op == "call" and base.args[0] in ("sorted", "list", "tuple", "set") and base.args[1]:
            base = base.args[1][0]
        if base.op in ("keys", "items"):
            base = base.args[0]
        full = base is w.K or base is w.B
        if not full and base.op == "attr" and base.args[0] is SELF and w.K is None:
            fed = [x for p2 in w.paths for x, _ in flat_events(p2.events) if x.kind in ("mut", "setitem", "setattr") and (
                isinstance(x.base, Term) and unphi(x.base) is base or x.kind == "setattr" and x.name == base.args[1])]
            if not fed and base.args[1] in own_attrs(ctx, cls):
                ctx.bad(key + ":tables", "goes through %s, which appended tables never enter" % show(base), e.loc)
        ctx.judge(key + ":tables", True if full else (False if base.op == "item" and (base.args[0] is w.K or base.args[0] is w.B) else None),
                  "every registered table", "flushes the tables of %s" % show(base)[:200], e.loc)
        k = elem(e.base, e.value.args[1] if e.value.op == "elem" else 0)
        later = [x for x in p.events[i + 1:] if x.kind == "loop" and any(meta_update(y, w) and "n_bytes" in meta_update(y, w)[2]
                                                                      for q in x.paths for y in q.events)]
        bad_exit = [b for b in e.paths if getattr(b, "exit", None) in ("break", "return")]
        if bad_exit:
            ctx.bad(key + ":tables", "the loop over the tables is left early when %s" % conds_str(bad_exit[0].conds), e.loc)
        for b in e.paths:
            if getattr(b, "exit", None) in ("break", "return", "raise"):
                continue
            done = scan(ctx, w, f.loc(), b, key, sorts)
            keys = [x for x in done]
            if not keys:
                empty = any((not pol and (a.op == "truth" or a.op == "lt") and mentions(unphi(a), w.B)) or
                            (pol and a.op in ("eq", "not", "le") and mentions(unphi(a), w.B)) for a, pol in b.conds)
                only = [a for a, pol in b.conds if not mentions(unphi(a), w.B)]
                ctx.judge(key + ":flush", True if empty else (False if not b.conds or only else None), "tables with buffered frames are stored",
                          "the buffer of a table is not stored when %s" % conds_str(b.conds), e.loc)
            elif any(unphi(a) is mk("truth", item(w.B, kk)) and not pol for a, pol in b.conds for kk in keys):
                ctx.bad(key + ":flush", "a buffer is only stored when it is empty", e.loc, conds_str(b.conds))
            else:
                ctx.ok(key + ":flush", "tables with buffered frames are stored", e.loc)
            check_recorded(ctx, w, key, b, k, base, keys, e, later)
        # totals: after the loop
        tail = p.events[i + 1:]
        tot = None
        saved = closed = None
        for j, x in enumerate(tail):
            r = meta_update(x, w)
            if r and r[2] and "total_bytes" in r[2]:
                tot = r[2]["total_bytes"]
            if r and saved is not None:
                ctx.bad(key + ":order", "metadata is added after the metadata was stored", x.loc)
            if x.kind == "loop" and (unphi(x.base) in w.M):
                saved = j
                check_saved(ctx, w, key, x, appender)
            if x.kind in ("meth", "mut") and x.name == "close" and unphi(x.base) is w.S:
                closed = j
            elif closed is not None and x.kind in ("meth", "mut", "setitem", "loop") and (
                    x.kind == "loop" or unphi(x.base) is w.S or mentions(unphi(x.base), w.S)):
                ctx.bad(key + ":order", "the store is used after it was closed", x.loc)
        ctx.judge(key + ":metadata", True if saved is not None else False, "every metadata table is stored",
                  "the metadata is not stored", f.loc(), p.cond_str())
        ctx.judge(key + ":close", closed is not None, "the file is closed last", "the file is not closed", f.loc(), p.cond_str())
        N = getattr(w, "N", None)
        if tot is None:
            ctx.bad(key + ":total", "the total byte count is not recorded", f.loc(), p.cond_str())
        elif N is not None:
            check_total(ctx, w, key, tot, N, base, p, f, appender)


def own_attrs(ctx, cls):
    d, f = cls.lookup("__init__")
    return {e.name for p in returns(ctx.run(f, cls=cls)) for e, _ in events_of(p, "setattr") if plain(e.base) is SELF}


def strip_iter(t):
    t = unphi(t)
    while t.op == "call" and t.args[0] in ("sorted", "list", "tuple", "set") and t.args[1]:
        t = t.args[1][0]
    return t.args[0] if t.op in ("keys", "items") else t


def check_recorded(ctx, w, key, b, k, base, keys, loop, later):
    """the byte count recorded with each table is the one after its last flush"""
    rec = None
    for x in b.events:
        r = meta_update(x, w)
        if r and "n_bytes" in r[2]:
            rec = r
    where = loop.loc
    N = getattr(w, "N", None)
    if rec is None and later:
        l = later[-1]
        if strip_iter(l.base) is not base:
            ctx.und(key + ":n_bytes", "byte counts are recorded for %s" % show(unphi(l.base))[:200], l.loc)
            return
        for q in l.paths:
            check_recorded(ctx, w, key, q, elem(l.base, l.value.args[1] if l.value.op == "elem" else 0), base, [], l, ())
        return
    if rec is None:
        ctx.bad(key + ":n_bytes", "the byte count of the table is not recorded", where, conds_str(b.conds))
        return
    kk, nn, ents, ev = rec
    inner = unphi(ents["n_bytes"])
    okk = kk in (k, unphi(k)) or (kk.op == "elem" and strip_iter(kk.args[0]) is base) or keys == [kk]
    cur, after, late = None, False, False
    for x in b.events:
        if x.kind == "setitem" and N is not None and unphi(x.base) is N and x.args and unphi(x.args[0]) is kk:
            if after:
                late = True
            cur = unphi(x.value)
        if x is ev:
            after = True
    spec = cur if cur is not None else (item(N, kk) if N is not None else None)
    okv = None if spec is None else (inner is spec or (None if not known_vocab(inner, [spec]) else False))
    if late:
        okv = False
    ctx.judge(key + ":n_bytes", False if not okk and kk.op in ("const", "elem") else (False if is_const(nn) and nn is not const("metadata") else okv),
              "the final byte count of the table is recorded with it",
              "records %s for %s/%s%s" % (show(inner)[:200], show(kk), show(nn), " before its rows are stored" if late else ""), where, conds_str(b.conds))


def check_total(ctx, w, key, tot, N, base, p, f, appender):
    """sum over every table of the byte count"""
    def every(x):
        x = unphi(x)
        if x.op == "values" and x.args[0] is N:
            return True
        if x.op in ("comp",) and len(x.args[2]) == 1:
            return True
        return None
    t = plain(tot)
    n = t
    if n.op == "call" and n.args[0] in ("sum", "numpy.sum", "int", "float"):
        arg = n.args[1][0] if n.args[1] else dict(n.args[2]).get("a", NONE)
        s = show(unphi_deep(arg))
        if appender and arg.op == "comp" and strip_iter(arg.args[0]) is w.K:
            ctx.bad(key + ":total", "leaves out the rows the file already held: %s" % show(t)[:200], f.loc(), p.cond_str())
            return
        ok = True if (show(N) in s or "n_bytes" in s) else None
        ctx.judge(key + ":total", ok, "the sum of all byte counts", "is %s" % show(t)[:200], f.loc())
        return
    if appender:
        ctx.judge(key + ":total", False if n.op in ("sumcomp", "fold") and unphi(n.args[0]) is w.K else None, "",
                  "leaves out the rows the file already held: %s" % show(t)[:200], f.loc())
        return
    core = [x for x in subterms(n) if x.op == "sumcomp"] if n.op == "poly" else []
    if core and is_const(sub(n, core[0])):
        ctx.bad(key + ":total", "is off by %s" % show(sub(n, core[0])), f.loc(), p.cond_str())
        return
    if n.op == "fold" and is_const(n.args[3]) and n.args[3] is not const(0):
        ctx.bad(key + ":total", "the sum starts from %s" % show(n.args[3]), f.loc(), p.cond_str())
        return
    if n.op in ("sumcomp", "fold"):
        it = unphi(n.args[0])
        alts = n.args[2]
        acc0 = mk("acc", n.args[1])
        if any(sub(const(0), sub(unphi(v), acc0) if n.op == "fold" else unphi(v)).op in ("item", "meth", "attr") for cs, v in alts):
            ctx.bad(key + ":total", "byte counts are subtracted: %s" % show(t)[:300], f.loc(), p.cond_str())
            return
        grow = all(mentions_loc(v, N) for cs, v in alts)
        if n.op == "fold":
            acc = mk("acc", n.args[1])
            grow = grow and all(mentions(v, acc) for cs, v in alts)
        ctx.judge(key + ":total", (True if it in (w.K, w.B, N) else None) if grow else False, "the sum of all byte counts",
                  "not every table is counted: %s" % show(t)[:300], f.loc())
        return
    ctx.judge(key + ":total", False if is_const(n) or n.op in ("last", "item") else None, "", "is %s" % show(t)[:200], f.loc())


def unphi_deep(t):
    return unphi(t)


def mentions_loc(v, N):
    v = unphi(v)
    return any(x.op == "item" and x.args[0] is N or x is N for x in subterms(v))


def flat_paths_of(e):
    for b in e.paths:
        for q in flat_paths(b):
            yield q


def meta_update(e, w):
    """(key, name, entries, event) of an update of the pending metadata"""
    M = w.M
    if e.kind == "mut" and e.name == "update":
        b = unphi(e.base)
        if b.op == "item" and b.args[0].op == "item" and b.args[0].args[0] in M:
            ents = {}
            for a in e.args:
                a = plain(a)
                if a.op == "dictv":
                    for s in a.args[0]:
                        if s[0] == "kv" and is_const(s[1]):
                            ents[s[1].args[0]] = s[2]
            ents.update(dict(e.kwargs))
            return b.args[0].args[1], b.args[1], ents, e
    if e.kind == "setitem":
        b = unphi(e.base)
        if b.op == "item" and b.args[0].op == "item" and b.args[0].args[0] in M and e.args and is_const(plain(e.args[0])):
            return b.args[0].args[1], b.args[1], {plain(e.args[0]).args[0]: e.value}, e
    return None


def check_saved(ctx, w, key, loop, appender):
    """every pending metadata table is set on the storer of its key"""
    M = unphi(loop.base)
    for b in loop.paths:
        ex = getattr(b, "exit", None)
        if ex in ("break", "return"):
            ctx.bad(key + ":metadata", "stops before every metadata table is stored, when %s" % conds_str(b.conds), loop.loc)
            continue
        inner = [e for e in b.events if e.kind == "loop"]
        exists(ctx, key, b, inner, w, loop)
        sets = [(q, e) for e in inner for q in e.paths]
        ok = False
        for e in inner:
            src = unphi(e.base)
            if src.op == "items" or src.op == "keys":
                src = src.args[0]
            if not (src.op == "item" and src.args[0] is M):
                continue
            ok = True
            k = src.args[1]
            for q in e.paths:
                if getattr(q, "exit", None) in ("break", "return"):
                    ctx.bad(key + ":metadata", "stops before every metadata table is stored", e.loc, conds_str(q.conds))
                    continue
                ss = [x for x in q.events if x.kind == "setattr"]
                if not ss:
                    en0 = elem_of(e)
                    known = all(known_vocab(unphi(a), [src, M, w.S]) or held(unphi(a), k, en0, w) and pol for a, pol in q.conds)
                    ctx.judge(key + ":metadata", False if not q.conds or known else None, "", "a metadata table is not stored when %s" % conds_str(q.conds), e.loc)
                    continue
                x = ss[-1]
                name = x.name if isinstance(x.name, Term) else const(x.name)
                tgt = unphi(x.base)
                val = unphi(x.value)
                en = elem_of(e)
                okt = tgt.op == "attr" and tgt.args[1] == "attrs" and tgt.args[0].op == "meth" and tgt.args[0].args[1] == "get_storer" \
                    and unphi(tgt.args[0].args[0]) is w.S and tgt.args[0].args[2] and tgt.args[0].args[2][0] is k
                okn = unphi(name) is en if en is not None else None
                new = item(src, en) if en is not None else None
                voc = known_vocab(val, [src, w.S, tgt], {("call", "getattr"), ("call", "hasattr"), ("meth", "get")})
                if val is new:
                    okv = True
                    if appender:
                        okv = absent(q, tgt, name) if okt else None
                        if okv is None:
                            ctx.bad(key + ":merge", "the entries already stored under the name are lost", x.loc, conds_str(q.conds))
                            okv = True
                elif appender:
                    okv = merged(ctx, key, val, tgt, name, new, x, q)
                else:
                    okv = False if voc else None
                if okt is False and not (tgt.op == "attr" and tgt.args[1] == "attrs" and known_vocab(tgt, [src, w.S], {("meth", "get_storer"), ("attr", "attrs")})):
                    okt = None
                verdict = False if okt is False or okn is False or okv is False else (None if None in (okt, okn, okv) else True)
                ctx.judge(key + ":metadata", verdict, "stored with its table under its name",
                          "%s.%s = %s" % (show(tgt)[:200], show(name), show(val)[:200]), x.loc, conds_str(q.conds))
        if not ok:
            ctx.judge(key + ":metadata", False if not inner and not any(x.kind == "mut" or x.kind == "setattr" for x in b.events) else None, "",
                      "metadata of a table is not stored when %s" % conds_str(b.conds), loop.loc)


def held(a, k, en, w):
    """hasattr(<the attributes of the table>, <the name>)"""
    x = a.args[0] if a.op == "truth" else a
    if x.op != "call" or x.args[0] != "hasattr" or len(x.args[1]) != 2 or en is None or x.args[1][1] is not en:
        return False
    t = x.args[1][0]
    return t.op == "attr" and t.args[1] == "attrs" and t.args[0].op == "meth" and t.args[0].args[1] == "get_storer" and t.args[0].args[2] \
        and t.args[0].args[2][0] is k


def exists(ctx, key, b, inner, w, loop):
    """a table that was never written exists (empty) before its metadata is set; one that was written is not replaced"""
    made = [unphi(e.args[0]) for e in b.events if e.kind == "setitem" and unphi(e.base) is w.S] + [
        unphi(e.args[0]) for e in b.events if e.kind in ("meth", "mut") and e.name in ("put", "append") and unphi(e.base) is w.S and e.args]
    conds = [(unphi(a), pol) for a, pol in b.conds]

    def there(k):
        for a, pol in conds:
            x = a.args[0] if a.op == "truth" else a
            if x.op == "in" and x.args[0] is k and mentions(x.args[1], w.S):
                return pol
        return None
    for k in made:
        t = there(k)
        ctx.judge(key + ":replaced", t is False if t is not None or not conds else None, "an empty table is made only where none exists",
                  "the table of %s is replaced by an empty one when %s" % (show(k), conds_str(b.conds)), loop.loc, conds_str(b.conds))
    ks = set()
    for e, _ in flat_events(b.events):
        if e.kind == "setattr" and isinstance(e.base, Term):
            ks |= {x.args[2][0] for x in subterms(unphi(e.base)) if x.op == "meth" and x.args[1] == "get_storer" and x.args[2]}
    for k in ks:
        t = there(k)
        ctx.judge(key + ":exists", True if t or k in made else (False if t is False or not conds else None), "set on a table that exists",
                  "metadata of a table without rows is set on nothing, when %s" % (conds_str(b.conds) or "it was never written"), loop.loc, conds_str(b.conds))


def absent(q, tgt, name):
    """True: on this path nothing mergeable is stored under the name"""
    name = unphi(name)
    for a, pol in q.conds:
        a = unphi(a)
        x = a.args[0] if a.op == "truth" else a
        if x.op == "call" and x.args[0] == "hasattr" and not pol and len(x.args[1]) == 2 and x.args[1][1] is name:
            return True
        if x.op == "in" and x.args[0] is name and not pol:
            return True
        if (x.op == "isinstance" or x.op == "call" and x.args[0] == "isinstance") and not pol and mentions(x, tgt):
            return True
        if x.op == "is" and NONE in x.args and pol and mentions(x, tgt):
            return True
    return None


def merged(ctx, key, val, tgt, name, new, x, q):
    """{**old, **new}"""
    old = [call("getattr", tgt, name)]
    v = val
    if v.op == "dictv":
        parts = [s[1] for s in v.args[0] if s[0] == "merge"]
        if len(parts) != len(v.args[0]):
            return None
    elif v.op == "bitor":
        parts = list(v.args[:2])
    else:
        return False if new is not None and not mentions(v, new) and known_vocab(v, [tgt, new], {("call", "getattr"), ("meth", "get")}) else None
    if new is None or len(parts) != 2:
        return None
    isold = lambda t: t.op == "call" and t.args[0] == "getattr" or t.op == "attr" or (t.op in ("item", "meth") and not mentions(t, new))   # noqa: E731
    if parts[1] is new and isold(parts[0]):
        ctx.ok(key + ":merge", "new entries over the stored ones", x.loc)
        return True
    if parts[0] is new:
        ctx.bad(key + ":merge", "the stored entries replace the new ones", x.loc, conds_str(q.conds))
        return True
    return None


def elem_of(e):
    v = e.value
    if v.op == "tuple":
        v = v.args[0][0]
    return unphi(v) if v.op == "elem" else None


def check_exit(ctx, cls):
    d, f = cls.lookup("__exit__")
    fin = cls.lookup("finish")[1]
    if not isinstance(f, Func):
        raise AnchorError("%s.__exit__" % cls.qual)
    I = ctx.interp(opaque={fin.qual})
    key = "%s.__exit__" % cls.name
    for p in ctx.run(f, I, cls=cls):
        n = [e for e, l in flat_events(p.events) if e.kind in ("call", "meth") and str(e.name).split(".")[-1] == "finish" and not l]
        ctx.judge(key, len(n) == 1 if not any(e.kind == "loop" for e in p.events) else None, "finishes on every path",
                  "the file is finished %d times when %s" % (len(n), p.cond_str()), f.loc(), p.cond_str())
        if p.kind == "return" and p.value is not None and plain(p.value) not in (NONE, const(False)):
            ctx.judge(key + ":errors", False if is_const(plain(p.value)) else None, "", "errors inside the context are hidden", f.loc())
    d, f = cls.lookup("__enter__")
    for p in returns(ctx.run(f, cls=cls)) if isinstance(f, Func) else ():
        ctx.judge("%s.__enter__" % cls.name, plain(p.value) is SELF, "the writer itself", "returns %s" % show(plain(p.value)), f.loc())


def check_direct(ctx, w):
    cls = w.cls
    d, f = cls.lookup("write")
    key = "%s.write" % cls.name
    for p in returns(ctx.run(f, cls=cls)):
        loops = [e for e in p.events if e.kind == "loop"]
        if len(loops) != 1:
            ctx.judge(key, False if not loops and not any(e.kind in ("meth", "mut", "setitem", "call", "callv") for e in p.events) else None, "",
                      "no frame is written" if not loops else "%d loops" % len(loops), f.loc())
            continue
        l = loops[0]
        for b in l.paths:
            ex = getattr(b, "exit", None)
            if ex in ("break", "return"):
                ctx.bad(key, "not every frame is written", l.loc, conds_str(b.conds))
                continue
            put = []
            for e in b.events:
                if e.kind == "setitem" and unphi(e.base) is w.S:
                    put.append((unphi(e.args[0]), unphi(e.value)))
                if e.kind in ("meth", "mut") and e.name == "put" and unphi(e.base) is w.S and len(e.args) > 1:
                    put.append((unphi(e.args[0]), unphi(e.args[1])))
            if not put:
                ctx.judge(key, False, "", "a frame is not written when %s" % conds_str(b.conds), l.loc)
                continue
            k, v = put[-1]
            fr = rows_of(v)
            good = k.op == "elem" and fr[0] is not None and fr[1] is None and fr[0].op == "item" and fr[0].args[1] is k
            ctx.judge(key, True if good else (False if fr[1] or known_vocab(v, [k]) else None), "every frame is written under its name",
                      "%s is written as %s" % (show(v)[:150], show(k)), l.loc, conds_str(b.conds))
            if w.K is not None:
                reg = any(e.kind == "mut" and e.name == "add" and unphi(e.base) is w.K and [unphi(a) for a in e.args] == [k] for e in b.events)
                ctx.judge(key + ":registered", reg, "the table is registered", "the table is not registered, so its byte count is not recorded", l.loc)
            N = getattr(w, "N", None)
            if N is not None:
                s = [unphi(e.value) for e in b.events if e.kind == "setitem" and unphi(e.base) is N and unphi(e.args[0]) is k]
                ok = size_of(s[-1], v) if s else False
                for e in b.events:
                    if ok and e.kind == "setitem" and unphi(e.base) is N and unphi(e.args[0]) is k:
                        partial(ctx, key + ":bytes", unphi(e.value), e)
                if s and ok is None:
                    for e in b.events:
                        if e.kind == "setitem" and unphi(e.base) is N and size_of(sub(unphi(e.value), item(N, k)), v):
                            ok = False
                ctx.judge(key + ":bytes", ok, "its size is recorded", "byte count is %s" % (show(s[-1])[:200] if s else "not set"), l.loc)


def check_meta(ctx, w):
    cls = w.cls
    d, f = cls.lookup("add_mapping")
    key = "%s.add_mapping" % cls.name
    m = param(f.node.args.args[1].arg)
    for p in returns(ctx.run(f, cls=cls)):
        put = [(unphi(e.args[0]), unphi(e.value)) for e in p.events if e.kind == "setitem" and unphi(e.base) is w.S]
        put += [(unphi(e.args[0]), unphi(e.args[1])) for e in p.events if e.kind in ("meth", "mut") and e.name == "put" and unphi(e.base) is w.S and len(e.args) > 1]
        ok = [1 for k, v in put if k is const("mapping") and v is m]
        ctx.judge(key, True if ok else (False if all(known_vocab(v, [m]) for k, v in put) else None), "the mapping is stored", "stores %s" % put, f.loc())
        st = [(unphi(e.base), e.name, unphi(e.value)) for e in p.events if e.kind == "setattr"]
        good = [1 for b, n, v in st if n == "metadata" and v is attr(m, "metadata") and "'mapping'" in show(b)]
        other = [x.args[2][0] for b, n, v in st for x in subterms(b) if x.op == "meth" and x.args[1] == "get_storer" and x.args[2]]
        if st and other and all(is_const(x) and x.args[0] not in ("mapping", "/mapping") for x in other):
            ctx.bad(key + ":metadata", "its metadata is set on %s, not on the mapping" % show(other[0]), f.loc(), p.cond_str())
            continue
        ctx.judge(key + ":metadata", True if good else (False if not st or all(known_vocab(v, [m], {("attr", "metadata"), ("meth", "copy")}) and n != "metadata"
                                                                             for b, n, v in st) else None),
                  "with its metadata", "stores %s" % [(n, show(v)) for b, n, v in st], f.loc(), p.cond_str())
    d, f = cls.lookup("add_metadata")
    key = "%s.add_metadata" % cls.name
    names = [a.arg for a in f.node.args.args]
    K, N = param(names[1]), param(names[2])
    kw = param(f.node.args.kwarg.arg) if f.node.args.kwarg else None
    w.M = set()
    for p in ctx.run(f, cls=cls):
        if p.kind == "raise":
            continue
        n = 0
        for e, l in flat_events(p.events):
            if e.kind == "mut" and e.name == "update":
                b = unphi(e.base)
                if b.op == "item" and b.args[0].op == "item":
                    ok = b.args[1] is N and b.args[0].args[1] is K and [plain(a) for a in e.args] == [kw]
                    n += 1
                    w.M.add(b.args[0].args[0])
                    ctx.judge(key, ok, "kept under its table and name", "%s updated with %s" % (show(b), [show(plain(a)) for a in e.args]), e.loc, p.cond_str())
        if not n:
            s = [e for e, _ in flat_events(p.events) if e.kind in ("setitem", "mut")]
            whole = [e for e in s if e.kind == "setitem" and plain(e.value) is kw]
            for e in whole:
                b = unphi(e.base)
                if b.op == "item":
                    w.M.add(b.args[0])
                ctx.bad(key, "entries given earlier under the same name are dropped", e.loc, p.cond_str())
            if not whole:
                ctx.judge(key, False if not s else None, "", "the entries are not kept when %s" % p.cond_str(), f.loc(), p.cond_str())
    for nm in ("info", "mapping"):
        got = ctx.run(f, cls=cls, args={a: (const(nm) if a == names[2] else param(a)) for a in names[1:]} | ({} if kw is None else {}))
        ctx.judge(key + ":reserved-%s" % nm, all(p.kind == "raise" for p in got), "the name %s is refused" % nm,
                  "the reserved name %s is accepted, and overwrites what the file keeps under it" % nm, f.loc())
    # reserved names are refused, everything else accepted
    for p in raises(ctx.run(f, cls=cls)):
        only = all(a.op == "in" and a.args[0] is N for a, pol in p.conds) or all(mentions(a, N) for a, pol in p.conds)
        ctx.judge(key + ":reserved", only, "only reserved names are refused", "refused when %s" % p.cond_str(), f.loc())


def run(ctx):
    P = ctx.P
    base = P.cls(WRITER)
    app = P.classes.get(APPENDER)
    for cls in [base] + [c for c in P.subclasses(base) if app is None or app not in c.mro]:
        one(ctx, cls, False)


def one(ctx, cls, appender):
    sorts = ()
    if cls.qual != WRITER:
        sorts = ("['iev', 'pixel']",)
    with ctx.section("%s" % cls.name):
        w = discover(ctx, cls)
        if w.B is None:
            lost = [p for p in returns(w.paths) if not any(e.kind not in ("getattr", "getitem") and e.name != "memory_usage" and (
                any(isinstance(a, Term) and plain(a) is w.df for a in list(e.args) + [v for _, v in e.kwargs]) or isinstance(e.value, Term) and plain(e.value) is w.df)
                for e, _ in flat_events(p.events))]
            ctx.judge("%s.append" % cls.name, False if lost else None, "", "the frame is neither buffered nor stored when %s" % lost[0].cond_str()
                      if lost else "no buffer of frames found", w.append.loc())
            return None
        f, ps = stores(ctx, cls)
        for p, d in ps:
            for n, v in d.items():
                m = mode_of(v)
                want = ("w",) if not appender else ("r+", "a")
                ctx.judge("%s:mode" % cls.name, m.args[0] in want if is_const(m) else None, "opened with mode %s" % show(m),
                          "opened with mode %s" % show(m), f.loc())
        check_meta(ctx, w)
        own_state(ctx, w)
        check_append(ctx, w, sorts)
        check_finish(ctx, w, sorts, appender)
        check_direct(ctx, w)
        check_exit(ctx, cls)
        return w
