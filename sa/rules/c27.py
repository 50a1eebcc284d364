"""Derivations leave their source alone.  No path of any function of the package that is given a mapping, and no path of the
calibration and shifting functions, writes storage reachable from what it was given (may-share analysis over the value
flow), and what the latter return shares no storage with it.  The metadata of the derived mappings is read off the final
abstract state as an independent copy of the source's metadata with overriding entries, and those entries must describe the
derived table: one more than its own largest row and column, and the size scaled by the factor the rows are divided by."""
from .util import *
from .alias import Writes, roots
from .refs import reference
from ..terms import item

M = "CHECLabPy.utils.mapping"
DERIVE = {"get_superpixel_mapping": ("superpixel", 2), "get_tm_mapping": ("slot", 8)}
PURE = {"CHECLabPy.calib.illumination_profile.IlluminationProfile.unfold": ("image",),
        "CHECLabPy.calib.illumination_profile.IlluminationProfile.fold": ("image",),
        "CHECLabPy.calib.amplitude_calibrator.AmplitudeCalibrator.__call__": ("values", "pixels"),
        "CHECLabPy.calib.waveform.WaveformCalibrator.__call__": ("waveforms", "fci"),
        "CHECLabPy.calib.time_calibrator.TimeCalibrator.__call__": ("waveforms",),
        "CHECLabPy.utils.waveform.shift_array": ("arr",),
        "CHECLabPy.utils.waveform.shift_waveform": ("waveforms",),
        "CHECLabPy.utils.waveform.BaselineSubtractor.subtract": ("waveforms",)}
STATEFUL = ("BaselineSubtractor",)
MUTATORS = ("update", "pop", "popitem", "clear", "setdefault", "__setitem__", "__delitem__", "insert", "drop", "sort", "append", "extend", "remove", "reverse", "sort_values", "sort_index",
            "set_index", "reset_index", "rename", "fillna", "replace", "fill", "put", "itemset", "partition", "resize", "setfield", "setflags", "byteswap", "mask", "where", "interpolate", "clip", "eval", "query")
INPLACE_ONLY = ("drop", "sort_values", "sort_index", "set_index", "reset_index", "rename", "fillna", "replace", "mask", "where", "interpolate", "clip", "eval", "query", "byteswap", "append")
KEYS = ("cfgfile", "is_single_module", "n_pixels", "n_modules", "n_tmpix", "n_superpixels", "fOTUpRow_l", "fOTUpRow_u", "fOTUpCol_l", "fOTUpCol_u", "fOTUpX_l", "fOTUpX_u", "fOTUpY_l", "fOTUpY_u")
COPY = ("numpy.copy", "copy.copy", "copy.deepcopy", "dict", "builtins.dict", "collections.OrderedDict")
IMAGE = ("image",)


class Unknown(Exception):
    pass


def run(ctx):
    P = ctx.P
    W = Writes(ctx)
    for name, (group, k) in sorted(DERIVE.items()):
        fn = P.funcs.get(M + "." + name)
        if fn is None:
            raise AnchorError(M + "." + name)
        with ctx.section(name):
            derived(ctx, fn, name, group, k)
    for q, names in sorted(PURE.items()):
        fn = P.funcs.get(q)
        cls = None
        if fn is None and q.rsplit(".", 1)[0] in P.classes:
            cls = P.cls(q.rsplit(".", 1)[0])
            fn = cls.lookup(q.rsplit(".", 1)[1])[1]
        if not isinstance(fn, Func):
            raise AnchorError(q)
        with ctx.section(short(q)):
            pure(ctx, W, fn, q)
    n = 0
    for q, fn in sorted(P.funcs.items()):
        if q in PURE or ".tests." in q or q.startswith("_ref"):
            continue
        names = [a.arg for a in fn.node.args.args if a.arg in ("mapping", "tc_mapping")]
        own = fn.cls is not None and fn.module.name.startswith("CHECLabPy.plotting") if getattr(fn, "cls", None) is not None else False
        if not names and not own:
            continue
        n += 1
        with ctx.section(short(q)):
            unwritten(ctx, W, fn, q, {param(a) for a in names})
    ctx.assumptions.append("functions of external libraries write their arguments only where documented to")


def short(q):
    return ".".join(q.split(".")[-2:])


def pure(ctx, W, fn, q):
    """nothing given is written; the result is new"""
    names = [a.arg for a in fn.node.args.args]
    method = bool(names) and names[0] == "self"
    prot = {param(a) for a in names if a != "self"}
    paths = ctx.run(fn, ctx.interp(), cls=fn.cls) if method and getattr(fn, "cls", None) is not None else ctx.run(fn, ctx.interp())
    state = method and not any(s in q for s in STATEFUL)
    for p in paths:
        cs = p.cond_str()[:200]
        hits = written(W, p, prot, state)
        for e, rs, how in hits:
            ctx.bad("%s:inputs" % short(q), "%s writes %s" % (how, ", ".join(sorted(show(r) for r in rs))), e.loc, cs)
        if not hits:
            ctx.ok("%s:inputs" % short(q), "no write reaches an argument", fn.loc())
        if p.kind == "return" and p.value is not None:
            s = {r for r in roots(p.value) if r in prot or r.op == "attr" and plain(r.args[0]) is SELF}
            arr = {param(a) for a in PURE[q]}
            s = {r for r in s if r in arr or r.op == "attr" and method}
            ctx.judge("%s:new" % short(q), not s, "a new array", "the result shares its data with %s" % ", ".join(sorted(show(r) for r in s)), fn.loc(), cs)


def written(W, p, prot, state=False, own=()):
    out = []
    for e, t, how in W.of(p.events):
        if isinstance(t, Term):
            rs = roots(t, True)
            r = rs & prot
            if state or own:
                r |= {x for x in rs if x.op == "attr" and plain(x.args[0]) is SELF and (state or x.args[1] in own)}
            if r:
                out.append((e, r, how))
    for e, _ in flat_events(p.events):
        if e.own:
            continue
        if e.kind in ("setattr", "delattr", "delitem") and isinstance(e.base, Term):
            rs = roots(e.base, True)
            r = {x for x in rs & prot}
            if (state or own) and plain(e.base) is not SELF:
                r |= {x for x in rs if x.op == "attr" and plain(x.args[0]) is SELF and (state or x.args[1] in own)}
            if r:
                out.append((e, r, "%s of %s" % ({"setattr": "assignment", "delattr": "deletion", "delitem": "deletion"}[e.kind], e.name or "an entry")))
        elif e.kind == "meth" and e.name in MUTATORS and isinstance(e.base, Term):
            kw = dict(e.kwargs)
            if e.name in INPLACE_ONLY and kw.get("inplace") is not TRUE:
                continue
            rs = roots(e.base, True)
            r = rs & prot
            if state or own:
                r |= {x for x in rs if x.op == "attr" and plain(x.args[0]) is SELF and (state or x.args[1] in own)}
            if r:
                out.append((e, r, "%s()" % e.name))
    return out


def unwritten(ctx, W, fn, q, prot):
    cls = getattr(fn, "cls", None)
    own = ("mapping", "_mapping", "tm_mapping") if cls is not None else ()
    try:
        paths = ctx.run(fn, ctx.interp(), cls=cls) if cls is not None else ctx.run(fn, ctx.interp())
    except Limit as e:
        ctx.und("%s:mapping" % short(q), "too many paths", fn.loc())
        return
    n = 0
    for p in paths:
        for e, rs, how in written(W, p, prot, own=own):
            n += 1
            ctx.bad("%s:mapping" % short(q), "%s writes %s" % (how, ", ".join(sorted(show(r) for r in rs))), e.loc, p.cond_str()[:200])
    if not n:
        ctx.ok("%s:mapping" % short(q), "no write reaches the mapping", fn.loc())


# ------------------------------------------------------------------ derived metadata
def entry(meta, key, src):
    """value of meta[key] in the final state; src: the metadata it was derived from"""
    t = meta
    while True:
        if t.op == "newarr":
            t = t.args[0]
        elif t.op == "filled":
            for s in reversed(t.args[1]):
                if s[0] != "at" or not is_const(plain(s[1])):
                    raise Unknown(str(s)[:100])
                if plain(s[1]).args[0] == key:
                    return resolve(s[2], src)
            t = t.args[0]
        elif t.op == "mutated":
            ops = t.args[1]
            for o in reversed(ops):
                kw = dict(o[2]) if len(o) > 2 else {}
                if o[0] == "update":
                    if key in kw:
                        return resolve(kw[key], src)
                    for a in o[1]:
                        d = plain(a)
                        if d.op != "dictv" or any(s[0] != "kv" or not is_const(s[1]) for s in d.args[0]):
                            raise Unknown(show(a)[:100])
                        for s in reversed(d.args[0]):
                            if s[1].args[0] == key:
                                return resolve(s[2], src)
                elif o[0] in ("pop", "clear", "popitem"):
                    if o[0] != "pop" or not o[1] or not is_const(plain(o[1][0])) or plain(o[1][0]).args[0] == key:
                        return None
                elif o[0] == "__setitem__":
                    if not is_const(plain(o[1][0])):
                        raise Unknown(show(o[1][0])[:100])
                    if plain(o[1][0]).args[0] == key:
                        return resolve(o[1][1], src)
                elif o[0] == "setdefault":
                    continue
                else:
                    raise Unknown(o[0])
            t = t.args[0]
        elif t.op == "dictv":
            for s in reversed(t.args[0]):
                if s[0] == "kv":
                    if not is_const(s[1]):
                        raise Unknown(show(s[1])[:100])
                    if s[1].args[0] == key:
                        return resolve(s[2], src)
                elif s[0] == "merge":
                    if s[1] is src or plain(s[1]) is src:
                        return item(src, const(key))
                    return entry(s[1], key, src)
                else:
                    raise Unknown(s[0])
            return None
        elif t is src:
            return item(src, const(key))
        elif t.op == "call" and t.args[0] in COPY:
            kw = dict(t.args[2])
            x = t.args[1][0] if t.args[1] else kw.get("a", kw.get("x"))
            if x is None:
                return kw.get(key)
            if t.args[1] and key in kw:
                return resolve(kw[key], src)
            t = x
        elif t.op == "meth" and t.args[1] == "copy":
            t = t.args[0]
        else:
            raise Unknown(show(t)[:150])


def resolve(v, src):
    def f(x):
        if x.op == "item" and is_const(x.args[1]) and isinstance(x.args[1].args[0], str) and x.args[0].op in ("filled", "newarr", "mutated", "dictv"):
            try:
                e = entry(x.args[0], x.args[1].args[0], src)
            except Unknown:
                return None
            return e
    return rewrite(v, f)


def derived(ctx, fn, name, group, k):
    a = fn.node.args.args[0].arg
    ref = reference(ctx, '''
from %s import %s
def driver(mapping):
    df = %s(mapping)
    return df, df.metadata, df['row'], df['col']
def apply(g, v):
    return g(v)
''' % (M, name, name), fn)
    I = ctx.interp()
    src = attr(param("mapping"), "metadata")
    for p in returns(ctx.run(ref["driver"], I)):
        cs = p.cond_str()[:200]
        df, meta, row, col = p.value.args[0]
        df = with_columns(df, p)
        key = name
        shared = src in roots(meta) or any(x is src for x in roots(meta))
        ctx.judge(key + ":copied", not shared, "its own metadata", "the derived mapping shares the metadata of the pixel mapping", fn.loc(), cs)
        def get(n):
            try:
                return entry(meta, n, src), True
            except Unknown as e:
                ctx.und("%s:%s" % (key, n), "not a known entry: %s" % e, fn.loc())
                return None, False
        for n, c in (("n_rows", row), ("n_columns", col)):
            v, okv = get(n)
            if not okv:
                continue
            g = extent(v, df, c) if v is not None else False
            ctx.judge("%s:%s" % (key, n), g, "one more than the largest of the derived table", "%s is %s" % (n, show(v)[-200:] if v is not None else "missing"), fn.loc(), cs)
        v, okv = get("size")
        if okv:
            f = factor(v, item(src, const("size"))) if v is not None else None
            ctx.judge(key + ":size", True if f == k else (False if v is None or f is not None else None), "%d times the pixel size" % k, "size is %s" % (show(v)[:200] if v is not None else "missing"), fn.loc(), cs)
        for n in KEYS:
            v, okv = get(n)
            if okv:
                ctx.judge(key + ":kept", True if v is item(src, const(n)) else (False if v is None or not any(x.op in UNKNOWN_OPS for x in subterms(v)) else None), "as in the source",
                          "entry %s is %s" % (n, show(v)[:200] if v is not None else "dropped"), fn.loc(), cs)
        for n in ("row", "col", "xpix", "ypix"):
            with ctx.section("%s:%s" % (key, n)):
                layout(ctx, I, ref["apply"], fn, df, n, group, k, key, cs)


def with_columns(df, p):
    """the table with the columns assigned to it"""
    st = tuple(("at", plain(e.args[0]), e.value) for e, l in flat_events(p.events)
               if e.kind == "setitem" and isinstance(e.base, Term) and plain(e.base) is plain(df) and e.args and is_const(plain(e.args[0])))
    return mk("filled", df, st) if st and df.op != "filled" else df


def extent(v, df, col):
    """v is max(col)+1: True, False, None"""
    v = plain(v)
    t = plain(col)
    want = []
    if v.op == "poly":
        d = {tuple(m): c for m, c in v.args[0]}
        one = d.pop((), 0)
        if len(d) == 1:
            (m, c), = d.items()
            if len(m) == 1 and m[0].op == "call":
                x = m[0]
                fnm = x.args[0].split(".")[-1]
                kw = dict(x.args[2])
                b = plain(x.args[1][0] if x.args[1] else kw.get("a", NONE))
                while b.op == "attr" and b.args[1] == "values" or b.op == "meth" and b.args[1] in ("to_numpy", "unique"):
                    b = plain(b.args[0])
                if b.op == "item" and is_const(b.args[1]):
                    same = b is t
                    if fnm in ("max", "amax", "nanmax"):
                        if same:
                            return c == 1 and one == 1
                        frame = plain(b.args[0])
                        return False if frame is plain(df) or frame is plain(t.args[0]) or frame is param("mapping") or frame.op == "item" and plain(frame.args[0]) is param("mapping") else None
                    if fnm in ("min", "mean", "sum", "median"):
                        return False
        return None
    if v.op == "item" and mentions(v, param("mapping")) and plain(v.args[0]) is attr(param("mapping"), "metadata"):
        return False                                          # the source's own count
    if is_const(v):
        return False
    if v.op == "call" and v.args[0].split(".")[-1] in ("max", "amax"):
        return False                                          # the largest index, not the count
    if v.op in ("floordiv", "div"):
        return None
    return None


def factor(v, base):
    v = plain(v)
    if v is base:
        return 1
    if v.op == "poly" and len(v.args[0]) == 1:
        m, c = v.args[0][0]
        if len(m) == 1 and m[0] is base:
            return c
        if all(x is base for x in m):
            return -1
    if is_const(v):
        return -1
    return None


FIRST = param("first")


def layout(ctx, I, app, fn, df, n, group, k, key, cs):
    """the derived row (column) is the pixel's one divided by the number of pixels along an element"""
    t = plain(df) if df.op != "filled" else df
    v = None
    over = None
    if t.op == "filled":
        for s in t.args[1]:
            if s[0] == "at" and is_const(plain(s[1])) and plain(s[1]).args[0] == n:
                over = s[2]
        t = plain(t.args[0])
    while t.op == "meth" and t.args[1] in ("reset_index", "copy", "sort_values", "sort_index", "astype"):
        t = plain(t.args[0])
    if not (t.op == "meth" and t.args[1] in ("agg", "aggregate")):
        ctx.und("%s:%s" % (key, n), "the table is %s" % show(t)[:150], fn.loc())
        return
    g = plain(t.args[0])
    if g.op == "meth" and g.args[1] == "groupby" and g.args[2]:
        by = plain(g.args[2][0])
        got = by.args[0] if is_const(by) else [x[1].args[0] if isinstance(x, tuple) else x.args[0] for x in by.args[0]] if by.op in ("listv", "tuple") else None
        good = got == group or got == [group]
        ctx.judge("%s:group" % key, True if good else (False if got is not None else None), "one row per %s" % group, "one row per %s" % (got,), fn.loc(), cs)
    spec = None
    d = plain(t.args[2][0]) if t.args[2] else NONE
    if d.op == "dictv":
        for s in d.args[0]:
            if s[0] == "kv" and is_const(s[1]) and s[1].args[0] == n:
                spec = s[2]
    if spec is None:
        for kk, x in t.args[3]:
            if kk == n and plain(x).op == "tuple":
                spec = plain(x).args[0][1]
    if spec is None:
        ctx.und("%s:%s" % (key, n), "aggregated by %s" % show(d)[:150], fn.loc())
        return
    if n in ("xpix", "ypix"):
        x = plain(spec)
        named = x.args[0].split(".")[-1] if is_const(x) and isinstance(x.args[0], str) or x.op == "ext" else None
        ctx.judge("%s:%s" % (key, n), True if named == "mean" else False if named is not None else None, "the mean over its pixels", "%s is %s" % (n, show(x)[:100]), fn.loc(), cs)
        return
    if is_const(plain(spec)) and isinstance(plain(spec).args[0], str):
        v = FIRST if plain(spec).args[0] in ("first", "last", "min", "max") else call("agg", const(plain(spec).args[0]))
    else:
        out = returns(I.run(app, args={"g": spec, "v": param("v")}))
        if len(out) != 1:
            ctx.und("%s:%s" % (key, n), "%d paths" % len(out), fn.loc())
            return
        def one(x):
            if x.op == "item" and is_const(x.args[1]) and is_num(x.args[1]):
                b = plain(x.args[0])
                if b.op == "attr" and b.args[1] in ("values", "iloc", "array", "iat") and plain(b.args[0]) is param("v") or b.op == "meth" and b.args[1] == "to_numpy" and plain(b.args[0]) is param("v"):
                    return FIRST
            if x.op == "call" and x.args[0] in ("numpy.min", "numpy.max", "numpy.amin", "numpy.amax", "min", "max"):
                kw = dict(x.args[2])
                b = plain(x.args[1][0] if x.args[1] else kw.get("a", NONE))
                if b.op == "attr" and b.args[1] == "values":
                    b = plain(b.args[0])
                if b is param("v"):
                    return FIRST
        v = rewrite(plain(out[0].value), one)
    if over is not None:
        def col(x):
            if x.op == "item" and x.args[1] is const(n):
                return v
        v = rewrite(over, col)
    while v.op == "call" and v.args[0] in ("int", "numpy.int64", "numpy.int32") and len(v.args[1]) == 1:
        v = plain(v.args[1][0])
    v = plain(v)
    want = plain(returns(I.run(reference(ctx, "def f(first):\n    return first // %d\n" % k, fn)["f"]))[0].value)
    known = not any(x.op in UNKNOWN_OPS or x.op in ("meth",) for x in subterms(v))
    ctx.judge("%s:%s" % (key, n), True if v is want else (False if known else None), "the pixel's %s over %d" % (n, k), "%s is %s" % (n, show(v)[:200]), fn.loc(), cs)
