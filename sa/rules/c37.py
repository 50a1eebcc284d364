"""Conversions of calibration and mapping.  Each conversion has a closed definition; the normal form of what the code returns
is compared with it.  Lists of pixels are evaluated position by position inside one block, the data sheet converter on each of
the sixteen sets of given values, the time correction as coefficients of the two samples it reads, the configuration reader by
the structure of its patterns."""
import itertools
try:
    from re import _parser as sre
except ImportError:
    import sre_parse as sre

from .util import *
from ..terms import elem, to_poly, from_poly, mul, add, sub as minus, mk, rng, item

C = "CHECLabPy.calib."
U = "CHECLabPy.utils."


def run(ctx):
    for name, fn in (("profile", profile), ("amplitude", amplitude), ("sheet", sheet), ("pixels", pixels), ("time", time),
                     ("hv", hv), ("order", order)):
        with ctx.section(name):
            fn(ctx)


def args_of(f):
    a = f.node.args
    return {x.arg: param(x.arg) for x in a.posonlyargs + a.args + a.kwonlyargs if x.arg not in ("self", "cls")}


def same(ctx, key, got, want, what, loc, path=None, prefix="this is "):
    got = plain(got)
    r = match(got, want) if got.op != "param" else got in want
    ctx.judge(key, r, what, prefix + show(got)[:220] + ", not " + show(want[0])[:220], loc, path)


def inv(x):
    return mk("inv", x)


# ------------------------------------------------------------------ values
def profile(ctx):
    c = ctx.P.cls(C + "illumination_profile.IlluminationProfile")
    for name, want in (("unfold", lambda i, p: mul(i, inv(p))), ("fold", lambda i, p: mul(i, p))):
        d, f = c.lookup(name)
        for p in returns(ctx.run(f, ctx.interp(), cls=c, args=args_of(f))):
            image = param(list(args_of(f))[0])
            same(ctx, "profile:" + name, p.value, [want(image, attr(SELF, "profile"))], "%s is the inverse of the other direction" % name, f.loc(), p.cond_str())


def amplitude(ctx):
    c = ctx.P.cls(C + "amplitude_calibrator.AmplitudeCalibrator")
    I = ctx.interp()
    names = ("ff", "pedestal", "conversion")
    d, f = c.lookup("__call__")
    v, px = (param(n) for n in list(args_of(f))[:2])
    ff, ped, conv = (attr(SELF, n) for n in names)
    at = lambda x: item(x, px)
    want = mul(mul(minus(v, at(ped)), inv(conv)), at(ff))
    for p in returns(ctx.run(f, I, cls=c, args=args_of(f))):
        same(ctx, "amplitude:formula", p.value, [want], "(value - pedestal[pixel]) / conversion * flat-field[pixel]", f.loc(), p.cond_str())
    d, f = c.lookup("__init__")
    for p in ctx.run(f, I, cls=c, args=args_of(f)):
        if p.kind == "raise":
            continue
        for e in p.events:
            if e.kind == "setattr" and e.name in names and e.value is not None:
                same(ctx, "amplitude:init", e.value, [param(e.name)], "coefficients stored under their own name", f.loc(), p.cond_str(), "%s = " % e.name)


# ------------------------------------------------------------------ data sheet
def sheet(ctx):
    c = ctx.P.cls(C + "sipm_data_sheet.SiPMDataSheetConverter")
    d, f = c.lookup("__call__")
    names = list(args_of(f))
    want = ("vover", "opct", "pde", "gain")
    if set(names) != set(want):
        return ctx.und("sheet", "parameters %s" % names, f.loc())
    paths = ctx.run(f, ctx.interp(), cls=c, args=args_of(f))
    for given in itertools.product((None, 0, 1), repeat=len(names)):
        on = {n: g for n, g in zip(names, given) if g is not None}
        key = "sheet:%d given" % len(on)
        for p in paths:
            t = [truth(a, on) for a, _ in p.conds]
            if any(x is not None and bool(x) != pol for x, (_, pol) in zip(t, p.conds)):
                continue
            if any(x is None for x in t):
                ctx.und(key, "condition %s" % p.cond_str()[:200], f.loc())
                continue
            what = "given %s" % (", ".join(n + " = 0" * (not g) for n, g in sorted(on.items())) or "nothing")
            if len(on) != 1:
                ctx.judge(key, p.kind == "raise", "refused", "%s: %s" % (what, "a result" if p.kind == "return" else p.kind), f.loc(), p.cond_str())
                continue
            if p.kind != "return":
                ctx.bad(key, "%s: refused" % what, f.loc(), p.cond_str())
                continue
            (n,) = on
            r, why = interpolated(plain(p.value), n)
            ctx.judge(key, r, "every column interpolated along the given one", "%s: %s" % (what, why), f.loc(), p.cond_str())


def truth(a, on):
    """value of a condition when exactly the names in `on` are given (0: zero, 1: another number), or None"""
    def num(t):
        t = plain(t)
        if is_const(t):
            v = t.args[0]
            return v if isinstance(v, (int, bool)) or v is None else None
        if t.op == "call" and t.args[0] == "sum" and len(t.args[1]) == 1:
            return num_sum(t.args[1][0])
        if t.op == "len":
            return num_len(t.args[0])
        if t.op == "poly":
            r = 0
            for m, c in t.args[0]:
                x = c
                for y in m:
                    z = num(y)
                    if z is None:
                        return None
                    x *= z
                r += x
            return r
        r = truth(t, on)
        return None if r is None else int(r)

    def num_sum(t):
        t = plain(t)
        if t.op != "listv" and t.op != "tuple":
            return None
        xs = [s[1] for s in t.args[0]] if t.op == "listv" and all(s[0] == "item" for s in t.args[0]) else list(t.args[0]) if t.op == "tuple" else None
        if xs is None:
            return None
        vs = [num(x) for x in xs]
        return None if None in vs else sum(vs)

    def num_len(t):
        return None
    if a.op == "is":
        x, y = (plain(z) for z in a.args[:2])
        if y.op == "param":
            x, y = y, x
        if x.op == "param" and is_const(y) and y.args[0] is None:
            return x.args[0] not in on
        return None
    if a.op == "not":
        r = truth(plain(a.args[0]), on)
        return None if r is None else not r
    if a.op in ("eq", "lt", "le"):
        x, y = (num(z) for z in a.args[:2])
        if x is None or y is None:
            return None
        return {"eq": x == y, "lt": x < y, "le": x <= y}[a.op]
    if a.op == "truth":
        x = plain(a.args[0])
        if x.op == "param":
            return bool(on.get(x.args[0]))
        x = num(x)
        return None if x is None else bool(x)
    if a.op in ("and", "or"):
        xs = a.args[0] if isinstance(a.args[0], tuple) else a.args
        vs = [truth(plain(x), on) for x in xs]
        if None in vs:
            return None
        return all(vs) if a.op == "and" else any(vs)
    return None


def values_of(t):
    """column of the table that a term is: (key)"""
    t = plain(t)
    if t.op == "attr" and t.args[1] == "values":
        t = plain(t.args[0])
    elif t.op == "meth" and t.args[1] == "to_numpy":
        t = plain(t.args[0])
    if t.op == "item" and plain(t.args[0]) is attr(SELF, "df"):
        return plain(t.args[1])
    return None


def interpolated(v, n):
    df = attr(SELF, "df")
    if v.op != "dcomp":
        return None if v.op != "const" else False, "the result is %s" % show(v)[:120]
    it = plain(v.args[0])
    if it not in (attr(df, "columns"), df):
        return None, "columns %s" % show(it)[:80]
    e = elem(it, v.args[1])
    for cs in v.args[2]:
        conds, segs = cs[0], cs[1]
        if any(conds):
            return None, "columns are chosen"
        for s in segs:
            if s[0] != "kv" or plain(s[1]) is not e:
                return None, "the result is %s" % show(v)[:160]
            x = plain(s[2])
            col = on = at = None
            if x.op in ("callv",) and plain(x.args[0]).op == "call" and plain(x.args[0]).args[0] == "scipy.interpolate.interp1d":
                g = plain(x.args[0])
                pos, kw = list(g.args[1]), dict(g.args[2])
                if set(kw) - {"x", "y"}:
                    return None, "interpolation with %s" % sorted(kw)
                on = values_of(pos[0] if pos else kw.get("x"))
                col = values_of(pos[1] if len(pos) > 1 else kw.get("y"))
                at = x.args[1][0] if x.args[1] else None
            elif x.op == "call" and x.args[0] == "numpy.interp":
                return None, "numpy.interp needs a sorted column"
            if on is None or col is None or at is None:
                return None, "each column becomes %s" % show(x)[:160]
            if on is not const(n) or plain(at) is not param(n):
                return False, "interpolated along %s at %s" % (show(on), show(at))
            if col is not e:
                return False, "column %s holds the values of %s" % (show(e), show(col))
    return True, ""


# ------------------------------------------------------------------ lists of pixels
class Position(Exception):
    pass


def at(t, src, n, o):
    """polynomial in L (the entry of the list) and B (its position) of element o of the block of n that belongs to an entry"""
    t = plain(t)
    L, B = param("entry"), param("position")
    if is_const(t):
        return t
    if t.op == "poly":
        r = const(0)
        for m, c in t.args[0]:
            x = from_poly({(): c})
            for y in m:
                x = mul(x, at(y, src, n, o))
            r = add(r, x)
        return r
    if t.op == "call":
        kw = dict(t.args[2])
        pos = list(t.args[1])
        if t.args[0] in ("numpy.asarray", "numpy.array", "numpy.ravel") and len(pos) + len(kw) == 1:
            return at((pos or list(kw.values()))[0], src, n, o)
        if t.args[0] == "numpy.repeat":
            a = kw.get("a", pos[0] if pos else None)
            k = kw.get("repeats", pos[1] if len(pos) > 1 else None)
            if a is not None and unwrapped(a) is src and k is not None and is_const(plain(k)):
                if plain(k).args[0] != n:
                    raise Position("every entry is repeated %s times" % show(k))
                return L
        if t.args[0] == "numpy.tile":
            a = kw.get("A", pos[0] if pos else None)
            a = plain(a) if a is not None else a
            if a is not None and a.op == "call" and a.args[0] == "numpy.arange":
                ends = arange(a)
                if ends and all(is_const(x) for x in ends):
                    m = ends[1].args[0] - ends[0].args[0]
                    if m == n:
                        return const(ends[0].args[0] + o)
        if t.args[0] == "numpy.arange":
            ends = arange(t)
            if ends and is_const(ends[0]) and not is_const(ends[1]):
                return add(add(mul(const(n), B), const(o)), ends[0])
    if t.op == "mod" or t.op == "floordiv":
        x, k = at(t.args[0], src, n, o), plain(t.args[1])
        if k.op == "len" and unwrapped(k.args[0]) is src:
            raise Position("the offset in an entry depends on the number of entries")
        if is_const(k) and isinstance(k.args[0], int) and k.args[0] > 0:
            d = to_poly(x)
            k = k.args[0]
            whole = {m: c for m, c in d.items() if c % k == 0 and m}
            rest = {m: c for m, c in d.items() if m not in whole}
            if set(rest) <= {()}:
                c = rest.get((), 0)
                if t.op == "mod":
                    return const(int(c % k))
                return add(from_poly({m: q // k for m, q in whole.items()}), const(int(c // k)))
    raise Position(None)


def arange(t):
    kw, pos = dict(t.args[2]), list(t.args[1])
    if kw or not 1 <= len(pos) <= 2:
        return None
    pos = [plain(x) for x in pos]
    return (const(0), pos[0]) if len(pos) == 1 else tuple(pos)


def unwrapped(t):
    t = plain(t)
    while t.op == "call" and t.args[0] in ("numpy.asarray", "numpy.array", "list", "numpy.atleast_1d"):
        xs = list(t.args[1]) + [x for _, x in t.args[2]]
        if len(xs) != 1:
            break
        t = plain(xs[0])
    return t


def pixels(ctx):
    c = ctx.P.cls(C + "pixel_masks.PixelMasks")
    L = param("entry")
    for name, n in (("convert_superpixels_to_pixels", 4), ("convert_module_to_pixels", 64)):
        d, f = c.lookup(name)
        src = param(list(args_of(f))[0])
        for p in returns(ctx.run(f, ctx.interp(), args=args_of(f))):
            key = "pixels:" + name
            v = plain(p.value)
            try:
                wrong = None
                for o in range(n):
                    x = at(v, src, n, o)
                    want = add(mul(const(n), L), const(o))
                    if x is not want:
                        wrong = "element %d of the block of an entry is %s, not %s" % (o, show(x), show(want))
                        break
                ctx.judge(key, wrong is None, "the %d pixels of each entry, in the order of the list" % n, wrong, f.loc(), p.cond_str())
            except Position as ex:
                if ex.args[0]:
                    ctx.bad(key, ex.args[0], f.loc(), p.cond_str())
                else:
                    ctx.und(key, "the list is %s" % show(v)[:160], f.loc(), p.cond_str())


# ------------------------------------------------------------------ time correction
def time(ctx):
    f = ctx.P.funcs[C + "time_calibrator.apply_t_cor"]
    names = list(args_of(f))
    W, T = param(names[0]), param(names[1])
    S = item(attr(W, "shape"), const(1))
    n = 0
    for p in ctx.count(ctx.interp().run(f, args=args_of(f))):
        if p.kind != "return":
            continue
        for e, conds in with_conds(p.events, list(p.conds)):
            if e.kind != "setitem" or len(e.args) != 1 or plain(e.args[0]).op != "tuple" or len(plain(e.args[0]).args[0]) != 2:
                continue
            n += 1
            one_sample(ctx, f, e, W, T, S, conds)
        if not n:
            ctx.und("time", "no samples written", f.loc())


def with_conds(events, conds):
    for e in events:
        if e.kind == "loop":
            for bp in e.paths:
                yield from with_conds(bp.events, conds + list(bp.conds))
        else:
            yield e, conds


def at_least_zero(c, pol):
    """a whole number that the condition says is not negative"""
    if c.op not in ("lt", "le"):
        return None
    a, b = (plain(x) for x in c.args[:2])
    if pol:
        return to_poly(minus(minus(b, a), const(1 if c.op == "lt" else 0)))
    return to_poly(minus(minus(a, b), const(1 if c.op == "le" else 0)))


def one_sample(ctx, f, e, W, T, S, conds):
    key = "time:formula"
    pix, sam = (plain(x) for x in plain(e.args[0]).args[0])
    v = plain(e.value)
    x = minus(sam, item(T, pix))
    d = to_poly(v)
    reads = {}
    for m, c in d.items():
        ws = [y for y in m if y.op == "item" and plain(y.args[0]) is W]
        if len(ws) != 1:
            return ctx.und(key, "a sample becomes %s" % show(v)[:160], f.loc())
        rest = list(m)
        rest.remove(ws[0])
        reads.setdefault(ws[0], {})[tuple(rest)] = c
    loc = e.loc if isinstance(getattr(e, "loc", None), str) else f.loc()
    idx = {}
    for w in reads:
        i = plain(w.args[1])
        if i.op != "tuple" or len(i.args[0]) != 2:
            return ctx.und(key, "a sample is read at %s" % show(i)[:100], loc)
        if plain(i.args[0][0]) is not pix:
            return ctx.judge(key, False if known(i) else None, "", "pixel %s reads %s" % (show(pix), show(w)[:100]), loc)
        idx[w] = plain(i.args[0][1])
    if len(idx) == 1:
        return ctx.judge(key, None, "", "a sample becomes %s" % show(v)[:160], loc)
    if len(idx) != 2:
        return ctx.judge(key, False, "", "a sample is made from %d samples" % len(idx), loc)
    (wa, a), (wb, b) = idx.items()
    gap = minus(b, a)
    if not is_const(gap):
        return ctx.und(key, "samples at %s and %s" % (show(a)[:60], show(b)[:60]), loc)
    if gap.args[0] < 0:
        (wa, a), (wb, b) = (wb, b), (wa, a)
        gap = minus(b, a)
    if gap.args[0] != 1:
        return ctx.bad(key, "interpolated between samples %s apart" % show(gap), loc)
    # over a clamped path the lower sample is fixed by the edge; otherwise it is the one below x
    cb, ca = from_poly(reads[wb]), from_poly(reads[wa])
    want_b = minus(x, a)
    ok = plain(cb) is plain(want_b) and plain(ca) is plain(minus(const(1), want_b))
    if not ok:
        return ctx.judge(key, False if known(cb) and known(ca) else None, "", "sample %s has the weight %s, not %s" % (show(b)[:60], show(cb)[:120], show(want_b)[:120]), loc)
    ctx.ok(key, "linear interpolation of the pixel's own waveform at sample - correction", loc)
    fl = mk("call", "math.floor", (x,), ())
    key = "time:samples"
    low = is_const(a) and a.args[0] == 0
    high = a is minus(S, const(2))
    lo, hi = const(0), minus(S, const(2))
    if a is fl or a in clamped(fl, lo, hi):
        return ctx.ok(key, "the samples on both sides, or the two at the edge", loc)
    if not low and not high:
        return ctx.judge(key, False if known(a) else None, "", "the lower sample is %s" % show(a)[:100], loc)
    want = to_poly(minus(const(0), fl)) if low else to_poly(minus(fl, S))
    r = None
    for c, pol in conds:
        g = at_least_zero(c, pol)
        if g is not None:
            k = g.pop((), 0)
            if g == want:
                near = k in ((-1, 0) if low else (1, 2))
                r = True if near or r else False
    ctx.judge(key, r, "the samples on both sides, or the two at the edge", "the %s samples are used when %s" % ("first" if low else "last", " and ".join(("" if pol else "not ") + show(c)[-60:] for c, pol in conds)), loc)


def clamped(x, lo, hi):
    """x kept within both limits, as nested calls"""
    def both(fn, u, v):
        return [mk("call", fn, (u, v), ()), mk("call", fn, (v, u), ())]
    out = []
    for a, u, b, v in (("max", lo, "min", hi), ("min", hi, "max", lo)):
        for y in both(a, x, u):
            out += both(b, y, v)
    return out + [mk("call", "numpy.clip", (x, lo, hi), ())]


def known(t):
    bad = []

    def g(x):
        if x.op in UNKNOWN_OPS or x.op in ("callv", "meth") or x.op == "call" and x.args[0] not in ("math.floor", "math.ceil", "int", "round", "min", "max", "abs"):
            bad.append(x)
        return False
    contains(t, g)
    return not bad


# ------------------------------------------------------------------ configuration files
def pattern_parts(text):
    """literals and number groups of a pattern, None if anything else"""
    try:
        tree = sre.parse(text)
    except Exception:
        return None
    out = []
    for op, av in tree:
        name = str(op)
        if name == "LITERAL":
            if out and isinstance(out[-1], str):
                out[-1] += chr(av)
            else:
                out.append(chr(av))
        elif name == "SUBPATTERN":
            inner = list(av[-1])
            if len(inner) != 1 or str(inner[0][0]) != "MAX_REPEAT":
                if any(str(o) in ("SUBPATTERN", "BRANCH", "MAX_REPEAT") for o, _ in inner):
                    return None
                out.append(("other", str(inner)))
                continue
            lo, hi, sub = inner[0][1]
            sub = list(sub)
            digit = len(sub) == 1 and str(sub[0][0]) == "IN" and [(str(o), str(x)) for o, x in sub[0][1]] in ([("CATEGORY", "CATEGORY_DIGIT")], [("RANGE", "(48, 57)")])
            if lo != 1 or str(hi) != "MAXREPEAT" or not digit:
                return None
            out.append(av[0])
        else:
            return None
    return out


def hv(ctx):
    f = ctx.P.funcs[U + "files.extract_hv_cfg"]
    for p in returns(ctx.run(f, ctx.interp(), args=args_of(f))):
        v = p.value
        if v.op != "tuple" or len(v.args[0]) != 2:
            ctx.und("hv", "the result is %s" % show(v)[:80], f.loc())
            continue
        arrays = [root(x) for x in v.args[0]]
        if arrays[0] is arrays[1]:
            ctx.bad("hv", "both results are one array", f.loc())
            continue
        for e, loops in flat_events(p.events):
            if e.kind != "setitem" or root(e.base) not in arrays:
                continue
            which = arrays.index(root(e.base))
            key = "hv:" + ("dac", "switch")[which]
            k = plain(e.args[0])
            groups = [group(x) for x in (k.args[0] if k.op == "tuple" else ())] + [group(e.value)]
            if len(groups) != 3 or None in groups or len({g[0] for g in groups}) != 1:
                ctx.und(key, "written at %s" % show(k)[:100], f.loc())
                continue
            parts = pattern_parts(groups[0][0])
            if parts is None:
                ctx.und(key, "pattern %r" % groups[0][0], f.loc())
                continue
            want = ["M:", 1, "/F/S:", 2, ("|HV=", "|HVOn=")[which], 3]
            ctx.judge(key + " pattern", parts == want, "the lines of this quantity", "the pattern is %r" % groups[0][0], f.loc())
            ctx.judge(key + " place", [g[1] for g in groups] == [1, 2, 3], "stored at module, superpixel", "groups %s are module, superpixel and value" % [g[1] for g in groups], f.loc())


def root(t):
    while t.op in ("filled", "mutated"):
        t = t.args[0]
    return t


def group(t):
    """(pattern, number of the group) of int(match.group(n))"""
    t = plain(t)
    if t.op == "call" and t.args[0] == "int" and len(t.args[1]) == 1:
        t = plain(t.args[1][0])
    else:
        return None
    if t.op == "meth" and t.args[1] == "group" and len(t.args[2]) == 1 and is_const(plain(t.args[2][0])):
        n, m = plain(t.args[2][0]).args[0], plain(t.args[0])
    elif t.op == "item" and is_const(plain(t.args[1])) and plain(t.args[0]).op == "meth" and plain(t.args[0]).args[1] == "groups":
        n, m = plain(t.args[1]).args[0] + 1, plain(plain(t.args[0]).args[0])
    elif t.op == "item" and is_const(plain(t.args[1])):
        n, m = plain(t.args[1]).args[0], plain(t.args[0])
    else:
        return None
    pat = None
    if m.op == "call" and m.args[0] in ("re.search", "re.match", "re.fullmatch") and m.args[1]:
        if m.args[0] == "re.fullmatch":
            return None
        pat = plain(m.args[1][0])
    elif m.op == "meth" and m.args[1] in ("search", "match"):
        pat = plain(m.args[0])
    if pat is not None and pat.op == "call" and pat.args[0] == "re.compile" and len(pat.args[1]) == 1:
        pat = plain(pat.args[1][0])
    if pat is None or not is_const(pat) or not isinstance(pat.args[0], str) or not isinstance(n, int):
        return None
    return pat.args[0], n


# ------------------------------------------------------------------ order of files
def order(ctx):
    q = U + "files."
    f = ctx.P.funcs[q + "natural_keys"]
    text = param(list(args_of(f))[0])
    for p in returns(ctx.run(f, ctx.interp(), args=args_of(f))):
        v = plain(p.value)
        if v.op == "call" and v.args[0] == "re.split":
            ctx.bad("order:number", "a number becomes text", f.loc(), p.cond_str())
            continue
        if v.op != "comp":
            ctx.und("order:key", show(v)[:100], f.loc())
            continue
        it = plain(v.args[0])
        ok = None
        if it.op == "call" and it.args[0] == "re.split" and len(it.args[1]) == 2 and is_const(plain(it.args[1][0])) and plain(it.args[1][1]) is text:
            ok = pattern_parts(plain(it.args[1][0]).args[0]) == [1]
            kw = dict(it.args[2])
            if ok and kw.get("maxsplit", const(0)) is not const(0):
                ok = False
        ctx.judge("order:split", ok, "text and whole numbers alternate", "the text is split as %s" % show(it)[:100], f.loc())
        e = elem(it, v.args[1])
        for cs in v.args[2]:
            conds, segs = cs[0], cs[1]
            digit = None
            for cc in conds:
                for a, pol in cc if cc and isinstance(cc[0], tuple) else [cc] if cc else []:
                    if a.op == "truth" and plain(a.args[0]) in (mk("meth", e, "isdigit", (), ()), mk("meth", e, "isdecimal", (), ())):
                        digit = pol
            val = plain(segs[0][1]) if len(segs) == 1 and segs[0][0] == "item" else None
            if digit is None or val is None:
                ctx.und("order:number", show(v)[:120], f.loc())
                continue
            want = mk("call", "int", (e,), ()) if digit else e
            ctx.judge("order:number", match(val, [want]) if val is not e else val is want, "numbers are compared as numbers, text as text", "%s becomes %s" % ("a number" if digit else "text", show(val)[:80]), f.loc())
    f = ctx.P.funcs[q + "sort_file_list"]
    files = param(list(args_of(f))[0])
    for p in returns(ctx.run(f, ctx.interp(), args=args_of(f))):
        v = p.value
        keys = None
        if v.op == "mutated" and v.args[0] is files and len(v.args[1]) == 1 and v.args[1][0][0] == "sort":
            m = v.args[1][0]
            keys = dict(m[2]) if len(m) > 2 else {}
        elif plain(v).op == "call" and plain(v).args[0] == "sorted" and len(plain(v).args[1]) == 1 and plain(plain(v).args[1][0]) is files:
            keys = dict(plain(v).args[2])
        if keys is None:
            ctx.judge("order:sort", False if plain(v) is files and v.op != "mutated" else None, "", "the list is %s" % show(v)[:100], f.loc())
            continue
        rev = keys.get("reverse")
        k = keys.get("key")
        ok = k is not None and "natural_keys" in show(k) and (rev is None or rev is const(False))
        ctx.judge("order:sort", True if ok else False if k is None or rev is const(True) else None, "sorted by text and numbers, ascending", "sorted with %s" % {a: show(b)[:40] for a, b in keys.items()}, f.loc())
