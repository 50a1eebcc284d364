"""Shared facts about the HDF5 writer classes: which attribute is the store, the buffer, the registered keys and the byte
counts (found from what the public methods do), and the flushes on a path."""
from .util import *

WRITER = IO + "hdf5_writer.HDF5Writer"
READER = IO + "hdf5_reader.HDF5Reader"
APPENDER = IO + "hdf5_appender.HDF5Appender"
DROPPING = {"head", "tail", "drop_duplicates", "dropna", "query", "iloc", "loc", "sample", "groupby", "nlargest", "nsmallest",
            "drop", "truncate", "filter", "mask", "first", "last", "iloc[]", "agg", "mean", "sum", "where"}
REORDER = {"sort_values", "sort_index", "reindex", "sort", "iloc"}
KEEPING = {"copy", "astype", "reset_index", "infer_objects", "convert_dtypes", "rename", "assign", "set_index", "pipe"}


def unphi(t):
    """the value a mutated container had: the same location (rows already written are accounted for by the events)"""
    def f(x):
        if x.op == "phi" and len(x.args) > 1 and isinstance(x.args[1], tuple) and len(x.args[1]) == 3:
            b, k, n = x.args[1]
            if k == "item" and isinstance(n, Term):
                return item(unphi(b), unphi(n))
            if k == "attr":
                return mk("attr", unphi(b), n)
        return None
    return rewrite(plain(t), f) if isinstance(t, Term) else t


def stores(ctx, cls):
    """[(attribute, HDFStore call)] assigned by the constructor"""
    d, f = cls.lookup("__init__")
    if not isinstance(f, Func):
        raise AnchorError("%s.__init__" % cls.qual)
    out = []
    for p in returns(ctx.run(f, cls=cls)):
        found = {}
        for e, _ in events_of(p, "setattr"):
            v = plain(e.value)
            if plain(e.base) is SELF and v.op == "call" and v.args[0] == "pandas.HDFStore":
                found[e.name] = v
        out.append((p, found))
    return f, out


def mode_of(v):
    d = dict(v.args[2])
    if "mode" in d:
        return d["mode"]
    return v.args[1][1] if len(v.args[1]) > 1 else const("a")


def size_of(t, df):
    """byte count of a data frame: memory usage summed; True, False or None"""
    n = t
    while n.op == "call" and n.args[0] in ("numpy.sum", "sum", "int", "float", "numpy.int64") or n.op == "meth" and n.args[1] in ("sum", "item"):
        if n.op == "meth":
            n = n.args[0]
        else:
            n = n.args[1][0] if n.args[1] else dict(n.args[2]).get("a", NONE)
    if n.op == "meth" and n.args[1] == "memory_usage":
        return n.args[0] is df
    return None


class Flush:
    """one write of buffered frames: store.append of key, and what follows on the path"""
    def __init__(self, e, key, data, kw):
        self.e, self.key, self.data, self.kw = e, key, data, kw


def events(p):
    """linear events of a path or loop body, without descending into loops"""
    return list(p.events)


def store_attr(ctx, cls):
    f, ps = stores(ctx, cls)
    names = {n for p, d in ps for n in d}
    if len(names) != 1:
        return None
    return names.pop()


def flushes(evs, S):
    """store.append events on the list of events"""
    out = []
    for e in evs:
        if e.kind in ("meth", "mut") and e.name in ("append", "append_to_multiple", "put") and unphi(e.base) is S:
            kw = dict(e.kwargs)
            a = [unphi(x) for x in e.args]
            key = a[0] if a else unphi(kw.pop("key", NONE))
            data = a[1] if len(a) > 1 else unphi(kw.pop("value", NONE))
            out.append((e, e.name, key, data, {k: unphi(v) for k, v in kw.items()}))
    return out


def rows_of(t, sorts=()):
    """(frames, problem): the list of frames whose rows, in order, are the rows of t; problem names a row-changing step"""
    t = unphi(t)
    if t.op == "call" and t.args[0] in ("pandas.concat",):
        kw = dict(t.args[2])
        a = t.args[1][0] if t.args[1] else kw.get("objs")
        ax = kw.get("axis", t.args[1][1] if len(t.args[1]) > 1 else const(0))
        if ax is not const(0) and ax is not const("index"):
            return None, "concatenated along axis %s" % show(ax) if is_const(ax) else None
        if kw.get("join", const("outer")) is const("inner"):
            return a, "columns missing in one frame are dropped"
        return a, None
    if t.op == "meth":
        b, prob = rows_of(t.args[0], sorts)
        n = t.args[1]
        if prob:
            return b, prob
        if n in REORDER:
            by = t.args[2][0] if t.args[2] else dict(t.args[3]).get("by", NONE)
            if n == "sort_values" and show(by) in sorts:
                return b, None
            return b, "rows are reordered (%s)" % n
        if n in DROPPING:
            return b, "rows or columns may be dropped (%s)" % n
        if n in KEEPING:
            return b, None
        return None, None
    if t.op == "item":
        b, prob = rows_of(t.args[0], sorts)
        if b is not None and t.args[1].op in ("slice", "lt", "le", "eq", "in"):
            return b, "rows are selected (%s)" % show(t)[:120]
        if b is not None and is_const(t.args[1]):
            return b, "only a part is stored (%s)" % show(t)[:120]
    return t, None
