"""Charge resolution and statistics.  The tables built with pandas are normalised to a small relational algebra (bag of
contributions, grouping keys, filters, added columns); adding must put the new contribution once into bag(accumulated) +
bag(buffered) and keep what was there, finishing must report sums over exactly that bag grouped per pixel and true value and
per true value, and both tables' columns must be the documented formulas of their own sums."""
from .util import *
from .refs import reference
from ..terms import item

MODULE = "CHECLabPy.utils.resolutions"
REF = '''
import numpy as np
def resolution_frame(pixel, x, y):
    return np.power(y - x, 2)
def statistics_sum(pixel, x, y):
    return y
def statistics_sum2(pixel, x, y):
    return y ** 2
def mc_charge_resolution_abs(x, s, n):
    return np.sqrt(s / n + x)
def mc_charge_resolution(x, s, n):
    return np.sqrt(s / n + x) / np.abs(x)
def lab_charge_resolution_abs(x, s, n):
    return np.sqrt(s / n)
def lab_charge_resolution(x, s, n):
    return np.sqrt(s / n) / np.abs(x)
def mean(x, s, s2, n):
    return s / n
def std(x, s, s2, n):
    return np.sqrt(s2 / n - (s / n) ** 2)
'''
KINDS = {"ChargeResolution": "true", "ChargeStatistics": "amplitude"}
ACC, FRAMES = param("acc"), param("frames")
NOISE = ("reset_index", "copy", "sort_values", "sort_index", "astype", "infer_objects")
LOSE = ("drop_duplicates", "head", "tail", "sample", "dropna", "nlargest", "nsmallest", "first", "last", "mean", "median", "max", "min", "count", "nunique", "unique", "prod", "std", "var", "size")


MATH = ("sqrt", "abs", "absolute", "fabs", "power", "square", "mean", "sum", "exp", "log", "sign", "maximum", "minimum")


def understood(t):
    """only arithmetic, known columns and elementary functions"""
    return not any(x.op in UNKNOWN_OPS or x.op == "meth" or x.op == "call" and x.args[0].split(".")[-1] not in MATH for x in subterms(t))


class Unknown(Exception):
    pass


class Rel:
    """bag: list of base contributions; keys: grouping or None; filters; cols: added columns; lost: what was dropped"""
    def __init__(self, bag, keys=None, filters=(), cols=None, lost=(), drop=()):
        self.bag, self.keys, self.filters, self.cols, self.lost, self.drop = list(bag), keys, tuple(filters), dict(cols or {}), tuple(lost), tuple(drop)

    def but(self, **kw):
        d = dict(bag=self.bag, keys=self.keys, filters=self.filters, cols=self.cols, lost=self.lost, drop=self.drop)
        d.update(kw)
        return Rel(**d)

    def same_rows(self, o):
        return sorted(map(str, self.bag)) == sorted(map(str, o.bag)) and self.keys == o.keys and self.filters == o.filters

    def __str__(self):
        t = " + ".join(b if isinstance(b, str) else "frame" for b in self.bag) or "nothing"
        if self.keys:
            t = "sum by (%s) of %s" % (", ".join(self.keys), t)
        for f in self.filters:
            t += " where %s" % f
        for l in self.lost:
            t += " after %s" % l
        return t


def names(t):
    t = plain(t)
    if is_const(t) and isinstance(t.args[0], str):
        return (t.args[0],)
    if t.op in ("listv", "tuple"):
        xs = [s[1] if isinstance(s, tuple) else s for s in t.args[0]]
        if all(is_const(x) for x in xs):
            return tuple(x.args[0] for x in xs)
    raise Unknown(show(t)[:120])


def kwof(t, pos, i=1):
    kw = dict(t.args[i + 1])
    for n, v in zip(pos, t.args[i]):
        kw.setdefault(n, v)
    return kw


def rel(t, cols_of=None):
    """relational normal form of a data frame term"""
    if t.op == "filled":
        r = rel(t.args[0], cols_of)
        cols = dict(r.cols)
        for s in t.args[1]:
            if s[0] == "at" and is_const(s[1]):
                cols[s[1].args[0]] = s[2]
            else:
                raise Unknown(str(s)[:100])
        return r.but(cols=cols)
    if t.op == "newarr":
        return rel(t.args[0], cols_of)
    if t.op == "mutated":
        raise Unknown(show(t)[:120])
    if t is ACC:
        return Rel(["acc"])
    if t.op == "call":
        n = t.args[0]
        if n == "numpy.copy":
            return rel(kwof(t, ("a",))["a"], cols_of)
        if n == "pandas.DataFrame":
            kw = kwof(t, ("data",))
            if "data" not in kw:
                return Rel([])
            d = plain(kw["data"])
            if kw.get("copy", const(True)) is not const(True):
                raise Unknown("frame that shares the caller's arrays")
            if d.op == "dictv":
                return Rel([d])
            raise Unknown(show(t)[:120])
        if n == "pandas.concat":
            kw = kwof(t, ("objs", "axis"))
            if kw.get("axis") not in (None, const(0), const("index")) or kw.get("join") is const("inner"):
                raise Unknown(show(t)[:120])
            o = kw["objs"]
            o2 = plain(o)
            out, lost = [], []
            segs = o2.args[0] if o2.op == "listv" else tuple(("item", x) for x in o2.args[0]) if o2.op == "tuple" else (("splice", o2),)
            for s in segs:
                if s[0] == "splice":
                    out.append(bagname(s[1]))
                    continue
                r = rel(s[1], cols_of)
                if r.filters or r.cols:
                    raise Unknown("filtered part")
                if r.keys:
                    lost.append(r.keys)
                out += r.bag
            return Rel(out, lost=tuple("grouping by %s" % (k,) for k in set(lost) if False))
        if n.startswith("numpy.") and t.args[2] or t.args[1]:
            a = kwof(t, ("a",)).get("a")
            if a is not None and plain(a).op == "meth" and plain(a).args[1] == "groupby":
                return group(n.split(".")[-1], plain(a), cols_of)
    if t.op == "meth":
        b, n = t.args[0], t.args[1]
        kw = kwof(t, (), 2)
        if n in NOISE:
            if n == "reset_index" and kw.get("drop") is const(True):
                r = rel(b, cols_of)
                return r.but(lost=r.lost + ("dropping the index",)) if r.keys else r
            return rel(b, cols_of)
        if n == "drop":
            r = rel(b, cols_of)
            what = kw.get("columns", t.args[2][0] if t.args[2] else None)
            if what is None:
                raise Unknown(show(t)[:120])
            return r.but(drop=r.drop + names(what))
        if plain(b).op == "meth" and plain(b).args[1] == "groupby":
            if n in ("agg", "aggregate") and t.args[2]:
                f = plain(t.args[2][0])
                f = f.args[0] if is_const(f) else show(f).split(".")[-1]
                return group(f, plain(b), cols_of)
            return group(n, plain(b), cols_of)
        if n in LOSE:
            r = rel(b, cols_of)
            return r.but(lost=r.lost + (n + "()",))
        if n == "append" or n == "merge" or n == "join":
            raise Unknown(n)
    if t.op == "item":
        b, i = t.args[0], t.args[1]
        if plain(b).op == "attr" and plain(b).args[1] in ("loc", "iloc"):
            which = plain(b).args[1]
            src = plain(b).args[0]
            r = rel(src, cols_of)
            if plain(i).op in ("slice",) and all(x is NONE for x in plain(i).args):
                return r
            if which == "iloc" or plain(i).op == "slice":
                return r.but(lost=r.lost + ("%s[%s]" % (which, show(i)[:60]),))
            return r.but(filters=r.filters + (cond(i, r),))
        if plain(i).op == "slice":
            r = rel(b, cols_of)
            return r.but(lost=r.lost + ("[%s]" % show(i)[:60],))
        if plain(i).op in ("not", "eq", "lt", "le", "bitand", "bitor", "invert", "ne"):
            r = rel(b, cols_of)
            return r.but(filters=r.filters + (cond(i, r),))
        if plain(i).op == "listv":
            rel(b, cols_of)
            raise Unknown("column selection")
    raise Unknown(show(t)[:160])


def bagname(t):
    if plain(t) is FRAMES:
        return "frames"
    raise Unknown(show(t)[:120])


def group(f, g, cols_of):
    r = rel(g.args[0], cols_of)
    kw = kwof(g, ("by",), 2)
    keys = tuple(sorted(names(kw.get("by", NONE))))
    for k, v in kw.items():
        if k not in ("by", "as_index", "sort", "observed", "group_keys"):
            raise Unknown("groupby(%s)" % k)
    if f != "sum":
        return r.but(keys=keys, lost=r.lost + (f + "()",))
    if r.keys and not set(keys) <= set(r.keys):
        return r.but(keys=keys, lost=r.lost + ("sum by %s" % (r.keys,),))
    return r.but(keys=keys, cols={})


def cond(i, r):
    """row condition as text over columns"""
    def col(x):
        if x.op == "item" and is_const(x.args[1]) and isinstance(x.args[1].args[0], str):
            try:
                if rel(x.args[0]).bag is not None:
                    return param("$" + x.args[1].args[0])
            except Unknown:
                return None
        if x.op == "attr" and x.args[1] == "values" and x.args[0].op == "item":
            return col(x.args[0])
        return None
    def inv(x):
        if x.op == "invert" and x.args[0].op in ("eq", "lt", "le", "not"):
            return x.args[0].args[0] if x.args[0].op == "not" else mk("not", x.args[0])
    t = rewrite(rewrite(plain(i), col), inv)
    return show(t)


def run(ctx):
    P = ctx.P
    for base, xkey in KINDS.items():
        b = P.cls(MODULE + "." + base)
        for c in [b] + sorted(P.subclasses(b), key=lambda x: x.qual):
            with ctx.section(c.name):
                kind(ctx, c, base, xkey)


def state(ctx, I, c, kindname):
    pos = [param("mc")] if kindname == "ChargeResolution" else []
    out = I.build(c, pos, [])
    st, r = out[0]
    if len(out) != 1:
        raise Unknown("%d constructions" % len(out))
    st = st.copy()
    buf = acc = None
    for a, v in st.heap[r].attrs.items():
        t = I.freeze(st, v)
        h = I.hobj(st, v)
        if h is not None and h.kind == "list" and not h.segs:
            buf = a
        elif t.op == "call" and t.args[0] == "pandas.DataFrame" and not t.args[1] and not t.args[2]:
            acc = a
    if buf is None or acc is None:
        raise AnchorError("%s: buffer and accumulated table" % c.name)
    I.hobj(st, st.heap[r].attrs[buf]).segs = (("splice", FRAMES),)
    for a, v in list(st.heap[r].attrs.items()):
        t = I.freeze(st, v)
        if is_const(t) and is_num(t):
            st.heap[r].attrs[a] = param("number " + a)
    st.heap[r].attrs[acc] = ACC
    return st, r, buf, acc


def bags(I, st, r, buf, acc):
    """(accumulated rel, list of buffered contributions)"""
    a = rel(I.freeze(st, st.heap[r].attrs[acc]))
    b = plain(I.freeze(st, st.heap[r].attrs[buf]))
    out = []
    if b.op == "listv":
        for s in b.args[0]:
            if s[0] == "splice":
                out.append(bagname(s[1]))
            else:
                out += rel(s[1]).bag
    elif b.op == "tuple":
        for s in b.args[0]:
            out += rel(s).bag
    else:
        out.append(bagname(b))
    return a, out


def kind(ctx, c, base, xkey):
    I = ctx.interp()
    try:
        st, r, buf, acc = state(ctx, I, c, base)
    except Unknown as e:
        ctx.und(c.name, "state: %s" % e)
        return
    ref = reference(ctx, REF, c.lookup("add")[1])
    def want(name, *args):
        f = ref[name]
        a = [x.arg for x in f.node.args.args]
        return plain(returns(ctx.interp().run(f, args=dict(zip(a, args))))[0].value)
    add(ctx, I, c, st, r, buf, acc, base, xkey, want)
    finish(ctx, I, c, st, r, buf, acc, base, xkey, want)


def once(ctx, key, got, expect, what, loc, cs):
    """each expected contribution exactly once"""
    for e in expect:
        n = got.count(e)
        ctx.judge("%s:%s" % (key, e if isinstance(e, str) else "new"), n == 1, "exactly once", "%s %s" % (what.get(e if isinstance(e, str) else "new"), "lost" if n == 0 else "counted %d times" % n), loc, cs)


def add(ctx, I, c, st, r, buf, acc, base, xkey, want):
    _, fn = c.lookup("add")
    if not isinstance(fn, Func):
        raise AnchorError(c.name + ".add")
    args = [param("pixel"), param("x"), param("y")]
    k = c.name + ":add"
    for p in I.method(st, r, "add", args):
        ctx.count([p])
        if p.kind != "return":
            continue
        cs = p.cond_str()[:300]
        for e, _ in flat_events(p.events[len(st.events):]):
            if e.kind in ("setitem", "inplace", "mut") and isinstance(e.base, Term) and root(e.base) in args:
                ctx.bad(k + ":inputs", "adding changes the array %s" % root(e.base).args[0], e.loc, cs)
        try:
            a, b = bags(I, p.st, r, buf, acc)
        except Unknown as e:
            ctx.und(k, "not a known table operation: %s" % e, fn.loc())
            continue
        tot = a.bag + b
        frames = [x for x in tot if not isinstance(x, str)]
        ctx.judge(k + ":new", len(frames) == 1, "one contribution per call", "a call adds %d contributions" % len(frames), fn.loc(), cs)
        once(ctx, k, tot, ["acc", "frames"], {"acc": "what was accumulated is", "frames": "what was buffered is"}, fn.loc(), cs)
        grouped(ctx, k, a, ("pixel", xkey), fn, cs)
        for f in frames[:1]:
            frame(ctx, k, f, args, base, xkey, want, fn, cs)


def root(t):
    while True:
        t = plain(t)
        if t.op in ("filled", "mutated") or t.op == "item" and plain(t.args[1]).op == "slice":
            t = t.args[0]
        elif t.op == "call" and t.args[0] in ("numpy.asarray", "numpy.ravel", "numpy.reshape"):
            t = kwof(t, ("a",)).get("a", NONE)
        else:
            return t


def grouped(ctx, k, a, keys, fn, cs, filters=None):
    if a.keys is not None:
        ctx.judge(k + ":keys", a.keys == tuple(sorted(keys)), "summed per %s" % (keys,), "intermediate sums are per (%s)" % ", ".join(a.keys), fn.loc(), cs)
    ctx.judge(k + ":lossless", not a.lost, "only sums", "contributions are reduced by %s" % ", ".join(a.lost), fn.loc(), cs)
    over = sorted(set(a.cols) & set(("n", "sum", "sum2") + keys))
    ctx.judge(k + ":intact", not over, "sums as accumulated", "the accumulated columns %s are overwritten" % over, fn.loc(), cs)
    if filters is not None:
        ctx.judge(k + ":filters", set(a.filters) <= set(filters), "nothing left out", "rows are left out where not (%s)" % ", ".join(a.filters), fn.loc(), cs)


def isone(t):
    """True, False (another number), None (not known)"""
    t = plain(t)
    if is_const(t):
        return t.args[0] == 1
    if t.op == "call":
        n = t.args[0].split(".")[-1]
        if n in ("ones", "ones_like"):
            return True
        if n.startswith(("int", "uint", "float")) and len(t.args[1]) == 1:
            return isone(t.args[1][0])
        if n == "full" or n == "full_like":
            return isone(kwof(t, ("shape", "fill_value")).get("fill_value", param("?")))
        if n in ("zeros", "zeros_like", "len"):
            return False
    return None


def frame(ctx, k, d, args, base, xkey, want, fn, cs):
    kv = {s[1].args[0]: plain(s[2]) for s in d.args[0] if s[0] == "kv" and is_const(s[1])}
    exp = {"pixel": args[0], xkey: args[1]}
    if base == "ChargeResolution":
        exp["sum"] = want("resolution_frame", *args)
    else:
        exp["sum"] = want("statistics_sum", *args)
        exp["sum2"] = want("statistics_sum2", *args)
    for n, e in exp.items():
        g = kv.get(n)
        g2 = conv(g) if g is not None else None
        ctx.judge("%s:column:%s" % (k, n), True if g2 is e else (False if g is None or understood(g2) else None),
                  "as added", "column %s is %s" % (n, show(g) if g is not None else "missing"), fn.loc(), cs)
    n = kv.get("n")
    ctx.judge(k + ":column:n", True if n is not None and isone(n) else (False if n is None or isone(n) is False or n in args else None), "one count per entry", "n is %s" % (show(n) if n is not None else "missing"), fn.loc(), cs)


def conv(t):
    def f(x):
        if x.op == "call" and x.args[0] in ("numpy.asarray", "numpy.array", "numpy.ravel", "numpy.copy"):
            kw = kwof(x, ("a",))
            v = kw.get("a", kw.get("object"))
            return conv(v) if v is not None else None
        if x.op == "attr" and x.args[1] == "values":
            return conv(x.args[0])
    return rewrite(plain(t), f)


def finish(ctx, I, c, st, r, buf, acc, base, xkey, want):
    _, fn = c.lookup("finish")
    if not isinstance(fn, Func):
        raise AnchorError(c.name + ".finish")
    k = c.name + ":finish"
    nonzero = ()
    if base == "ChargeResolution":
        nonzero = ("not(0 == $%s)" % xkey,)
    for p in I.method(st, r, "finish", []):
        ctx.count([p])
        if p.kind != "return":
            continue
        cs = p.cond_str()[:200]
        try:
            a, b = bags(I, p.st, r, buf, acc)
            once(ctx, k + ":kept", a.bag + b, ["acc", "frames"], {"acc": "what was accumulated is", "frames": "what was buffered is"}, fn.loc(), cs)
            grouped(ctx, k + ":kept", a, ("pixel", xkey), fn, cs, nonzero)
        except Unknown as e:
            ctx.und(k + ":kept", "not a known table operation: %s" % e, fn.loc())
        v = p.value
        v = v if v.op == "tuple" else plain(v)
        if v.op != "tuple" or len(v.args[0]) != 2:
            ctx.und(k, "returns %s" % show(v)[:200], fn.loc())
            continue
        sets = [e for e, l in flat_events(p.events[len(st.events):]) if e.kind == "setitem" and isinstance(e.base, Term) and e.args and is_const(plain(e.args[0])) and isinstance(plain(e.args[0]).args[0], str)]
        for name, t, keys in (("pixel", v.args[0][0], ("pixel", xkey)), ("camera", v.args[0][1], (xkey,))):
            kk = "%s:%s" % (k, name)
            try:
                g = rel(t)
            except Unknown as e:
                ctx.und(kk, "not a known table operation: %s" % e, fn.loc())
                continue
            for e in sets:
                if plain(e.base) is plain(t):
                    g.cols[plain(e.args[0]).args[0]] = e.value
            once(ctx, kk, g.bag, ["acc", "frames"], {"acc": "what was accumulated is", "frames": "what was buffered is"}, fn.loc(), cs)
            ctx.judge(kk + ":keys", g.keys == tuple(sorted(keys)), "sums per (%s)" % ", ".join(keys), "sums are per (%s)" % ", ".join(g.keys or ("nothing",)), fn.loc(), cs)
            ctx.judge(kk + ":lossless", not g.lost, "only sums", "contributions are reduced by %s" % ", ".join(g.lost), fn.loc(), cs)
            ctx.judge(kk + ":filters", set(g.filters) == set(nonzero), "only undefined entries left out" if nonzero else "nothing left out",
                      "rows kept: %s" % (", ".join(g.filters) or "all, also where the resolution is undefined"), fn.loc(), cs)
            lostc = [x for x in g.drop if x in (xkey, "n", "sum", "sum2") or x == "pixel" and name == "pixel"]
            ctx.judge(kk + ":columns", not lostc, "columns kept", "columns %s dropped" % lostc, fn.loc(), cs)
            formulas(ctx, kk, g, p, base, xkey, want, fn, cs)


def formulas(ctx, kk, g, p, base, xkey, want, fn, cs):
    x, s, s2, n = param("x"), param("s"), param("s2"), param("n")
    colp = {xkey: x, "sum": s, "sum2": s2, "n": n}
    bad = []
    def col(t):
        if t.op in ("attr", "meth") and t.args[1] in ("values", "to_numpy", "array") and t.args[0].op == "item":
            return col(t.args[0])
        if t.op == "item" and is_const(t.args[1]) and isinstance(t.args[1].args[0], str):
            try:
                q = rel(t.args[0])
            except Unknown:
                return None
            nm = t.args[1].args[0]
            if not q.same_rows(g):
                bad.append("%s of %s" % (nm, q))
                return param("other " + nm)
            if nm in q.cols:
                return rewrite(q.cols[nm], col)
            return colp.get(nm, param("column " + nm))
        if t.op == "attr" and t.args[1] in colp:
            try:
                q = rel(t.args[0])
            except Unknown:
                return None
            return colp[t.args[1]] if q.same_rows(g) else param("other " + t.args[1])
        return None
    if base == "ChargeResolution":
        facts = {plain(a): pol for a, pol in p.conds}
        mc = facts.get(mk("truth", param("mc")))
        if mc is None:
            ctx.und(kk + ":formula", "depends on %s" % cs, fn.loc())
            return
        pre = "mc_" if mc else "lab_"
        exp = {o: want(pre + o, x, s, n) for o in ("charge_resolution", "charge_resolution_abs")}
    else:
        exp = {o: want(o, x, s, s2, n) for o in ("mean", "std")}
    for o, e in exp.items():
        t = g.cols.get(o)
        if t is None:
            ctx.judge("%s:%s" % (kk, o), None, "", "no column %s found" % o, fn.loc(), cs)
            continue
        got = plain(rewrite(t, col))
        known = understood(got)
        ctx.judge("%s:%s" % (kk, o), True if got is e else (False if known else None), "the documented formula of its own sums", "%s is %s instead of %s" % (o, show(got)[:200], show(e)[:200]), fn.loc(), cs)
