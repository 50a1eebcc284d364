"""Shifting and averaging of waveforms.  The array that `shift_array` returns is evaluated as a list of intervals of samples,
each filled with the fill value or taken from the input at a fixed offset; the ends of the intervals are linear in the shift n
and the number of samples S, and every comparison between two of them is decided on each of the seven ranges of n (n > S,
n = S, 0 < n < S, 0, -S < n < 0, n = -S, n < -S).  The average waveforms are matched against the mean over all events of the subtracted and
aligned event, the list of dead pixels against its definition."""
from .util import *
from ..terms import elem, length

M = "CHECLabPy.utils.waveform."

# a linear form: (constant, u, v) with u, v >= 0
REGIMES = {
    "0 < n < S": ((1, 1, 0), (2, 1, 1)),
    "n = S": ((1, 1, 0), (1, 1, 0)),
    "n > S": ((2, 1, 1), (1, 1, 0)),
    "n = 0": ((0, 0, 0), (1, 1, 0)),
    "-S < n < 0": ((-1, -1, 0), (2, 1, 1)),
    "n = -S": ((-1, -1, 0), (1, 1, 0)),
    "n < -S": ((-2, -1, -1), (1, 1, 0)),
}


def cases_of(regime):
    """(n, S) with u and v taken apart into small values, the rest, and their order"""
    n, S = REGIMES[regime]
    one = [(0, 0, 0), (1, 0, 0), (2, 0, 0)]
    us, vs = one + [(3, 1, 0)], one + [(3, 0, 1)]
    pairs = [(u, v) for u in us for v in vs if not (u[1] and v[2])]
    pairs += [((3, 1, 0), (3, 1, 0)), ((4, 1, 1), (3, 0, 1)), ((3, 1, 0), (4, 1, 1))]
    out = []
    for u, v in pairs:
        r = tuple(tuple((f[0] if i == 0 else 0) + f[1] * u[i] + f[2] * v[i] for i in range(3)) for f in (n, S))
        if r not in out:
            out.append(r)
    return out


class Undecided(Exception):
    pass


class Broken(Exception):
    pass


def plus(a, b, k=1):
    return tuple(x + k * y for x, y in zip(a, b))


def sign(a):
    if all(x == 0 for x in a):
        return 0
    if all(x >= 0 for x in a):
        return 1 if a[0] > 0 else None
    if all(x <= 0 for x in a):
        return -1 if a[0] < 0 else None
    return None


def nonneg(a):
    """True / False / None"""
    if all(x >= 0 for x in a):
        return True
    if all(x <= 0 for x in a) and a[0] < 0:
        return False
    return None


def le(a, b):
    r = nonneg(plus(b, a, -1))
    if r is None:
        raise Undecided("order of %s and %s" % (a, b))
    return r


ZERO = (0, 0, 0)


class Shift:
    def __init__(self, arr, num, fill, case):
        self.arr, self.num, self.fill = arr, num, fill
        self.n, self.S = case

    # ---------------------------------------------------------- numbers
    def form(self, t):
        t = plain(t)
        if is_const(t) and isinstance(t.args[0], int) and not isinstance(t.args[0], bool):
            return (t.args[0], 0, 0)
        if t is self.num:
            return self.n
        if self.is_length(t):
            return self.S
        if t.op == "poly":
            r = ZERO
            for m, c in t.args[0]:
                if c != int(c) or len(m) > 1:
                    raise Undecided(show(t)[:80])
                r = plus(r, self.form(m[0]) if m else (1, 0, 0), int(c))
            return r
        if t.op in ("call",):
            name = t.args[0]
            xs = list(t.args[1]) if isinstance(t.args[1], tuple) else []
            if name in ("abs", "numpy.abs", "numpy.absolute") and len(xs) == 1:
                f = self.form(xs[0])
                return f if le(ZERO, f) else plus(ZERO, f, -1)
            if name in ("min", "max", "numpy.minimum", "numpy.maximum") and len(xs) == 2:
                a, b = self.form(xs[0]), self.form(xs[1])
                small = le(a, b)
                return a if small == name.endswith(("min", "minimum")) else b
        if t.op in ("min", "max", "abs"):
            xs = t.args[0] if isinstance(t.args[0], tuple) else t.args
            fs = [self.form(x) for x in xs]
            if t.op == "abs":
                return fs[0] if le(ZERO, fs[0]) else plus(ZERO, fs[0], -1)
            r = fs[0]
            for f in fs[1:]:
                r = r if le(r, f) == (t.op == "min") else f
            return r
        raise Undecided("number %s" % show(t)[:80])

    def is_length(self, t):
        if t.op == "item" and t.args[0].op == "attr" and t.args[0].args[1] == "shape" and self.same_shape(t.args[0].args[0]):
            i = plain(t.args[1])
            return is_const(i) and i.args[0] in (1, -1)
        if t.op == "item" and t.args[0].op == "call" and t.args[0].args[0] == "numpy.shape":
            i = plain(t.args[1])
            return is_const(i) and i.args[0] in (1, -1) and any(plain(x) is self.arr for _, x in t.args[0].args[2])
        return False

    def same_shape(self, t):
        t = plain(t)
        return t is self.arr or t.op == "call" and t.args[0].endswith("_like") or t.op == "meth" and t.args[1] == "copy" and plain(t.args[0]) is self.arr

    def cond(self, c):
        """truth of a path condition, or None"""
        try:
            if c.op in ("lt", "le"):
                a, b = (self.form(x) for x in c.args[:2])
                return le(a, b) if c.op == "le" else not le(b, a)
            if c.op in ("eq", "is"):
                a, b = (self.form(x) for x in c.args[:2])
                d = sign(plus(a, b, -1))
                if d is None:
                    return None
                return d == 0
            if c.op == "truth":
                d = sign(self.form(c.args[0]))
                return None if d is None else d != 0
        except Undecided:
            return None
        return None

    # ---------------------------------------------------------- intervals
    def bounds(self, key):
        """(a, b) of a slice of the samples"""
        if key.op == "tuple":
            xs = key.args[0]
            if len(xs) != 2:
                raise Undecided("index %s" % show(key)[:80])
            if not whole(xs[0]):
                raise Undecided("index %s" % show(key)[:80])
            return self.slice(xs[1])
        if whole(key):
            return ZERO, self.S
        raise Undecided("index %s" % show(key)[:80])

    def slice(self, s):
        if is_const(s) and s.args[0] is Ellipsis:
            return ZERO, self.S
        if s.op != "slice":
            raise Undecided("index %s" % show(s)[:80])
        a, b, c = s.args
        if not (is_const(c) and c.args[0] in (None, 1)):
            raise Undecided("step %s" % show(c))
        lo = ZERO if none(a) else self.end(a)
        hi = self.S if none(b) else self.end(b)
        if not le(lo, hi):
            hi = lo
        return lo, hi

    def end(self, t):
        f = self.form(t)
        if not le(ZERO, f):
            f = plus(f, self.S)
            if not le(ZERO, f):
                f = ZERO
        return f if le(f, self.S) else self.S

    # ---------------------------------------------------------- arrays: list of (lo, hi, what)
    def array(self, t):
        """the pieces of an array over its samples and its length"""
        if t is self.arr:
            return [(ZERO, self.S, ("arr", ZERO))], self.S
        if t is self.fill or is_const(t) and not isinstance(t.args[0], (str, type(None))):
            return None, t
        if t.op == "filled":
            ps, n = self.array(t.args[0])
            if ps is None:
                raise Undecided(show(t)[:80])
            for w in t.args[1]:
                if w[0] != "at":
                    raise Undecided("written by %s" % w[0])
                lo, hi = self.bounds(w[1])
                ps = self.write(ps, lo, hi, self.array(w[2]))
            return ps, n
        if t.op == "newarr":
            return self.array(t.args[0])
        if t.op == "call":
            name, kw = t.args[0], dict(t.args[2])
            pos = list(t.args[1])
            like = kw.get("a", kw.get("prototype", pos[0] if pos else None))
            if name == "numpy.copy" and like is not None:
                return self.array(like)
            if name in ("numpy.empty_like", "numpy.zeros_like", "numpy.full_like", "numpy.ones_like") and like is not None and self.same_shape(like):
                if name == "numpy.full_like":
                    v = plain(kw.get("fill_value", pos[1] if len(pos) > 1 else None))
                    what = ("fill",) if v is self.fill else ("other", v)
                else:
                    what = {"numpy.empty_like": ("undefined",), "numpy.zeros_like": ("other", const(0))}.get(name, ("other", const(1)))
                return [(ZERO, self.S, what)], self.S
            if name == "numpy.roll":
                k = kw.get("shift", pos[1] if len(pos) > 1 else None)
                ax = kw.get("axis", pos[2] if len(pos) > 2 else None)
                if k is None or ax is None or not (is_const(plain(ax)) and plain(ax).args[0] in (1, -1)):
                    raise Undecided(show(t)[:80])
                ps, n = self.array(like)
                if ps != [(ZERO, self.S, ("arr", ZERO))]:
                    raise Undecided("roll of a changed array")
                k = self.form(k)
                if k == ZERO:
                    return ps, n
                if le(ZERO, k) and le(k, self.S):
                    return [(ZERO, k, ("arr", plus(k, self.S, -1))), (k, self.S, ("arr", k))], n
                m = plus(k, self.S)
                if le(k, ZERO) and le(ZERO, m):
                    return [(ZERO, m, ("arr", k)), (m, self.S, ("arr", m))], n
                return [(ZERO, self.S, ("wrapped",))], n
        if t.op == "meth" and t.args[1] in ("copy", "__array__") and not t.args[2]:
            return self.array(t.args[0])
        if t.op == "mutated":
            raise Undecided(show(t)[:80])
        if t.op in ("item", "getitem") or t.op == "index":
            ps, n = self.array(t.args[0])
            if ps is None:
                raise Undecided(show(t)[:80])
            lo, hi = self.bounds(t.args[1])
            return [(plus(a, lo, -1), plus(b, lo, -1), move(w, plus(ZERO, lo, -1))) for a, b, w in self.cut(ps, lo, hi)], plus(hi, lo, -1)
        raise Undecided("array %s" % show(t)[:80])

    def cut(self, ps, lo, hi):
        out = []
        for a, b, w in ps:
            x = a if le(lo, a) else lo
            y = b if le(b, hi) else hi
            if not le(y, x):
                out.append((x, y, w))
        return out

    def write(self, ps, lo, hi, value):
        vs, n = value
        if le(hi, lo):
            if vs is not None and not le(n, (1, 0, 0)):
                raise Broken("%d or more samples are written to none" % n[0])
            return ps
        if vs is None:
            new = [(lo, hi, ("fill",) if n is self.fill else ("other", n))]
        else:
            if plus(n, plus(hi, lo, -1), -1) != ZERO:
                d = plus(n, plus(hi, lo, -1), -1)
                if sign(d) is None:
                    raise Undecided("lengths %s and %s" % (n, plus(hi, lo, -1)))
                raise Broken("the part read and the part written differ in length")
            new = [(plus(a, lo), plus(b, lo), move(w, lo)) for a, b, w in vs]
        return self.cut(ps, ZERO, lo) + new + self.cut(ps, hi, self.S)


def move(w, d):
    return ("arr", plus(w[1], d)) if w[0] == "arr" else w


def none(t):
    return is_const(t) and t.args[0] is None


def whole(t):
    return t.op == "slice" and none(t.args[0]) and none(t.args[1]) and is_const(t.args[2]) and t.args[2].args[0] in (None, 1) or is_const(t) and t.args[0] is Ellipsis


def joined(ps):
    out = []
    for a, b, w in ps:
        if a == b:
            continue
        if out and out[-1][2] == w and out[-1][1] == a:
            out[-1] = (out[-1][0], b, w)
        else:
            out.append((a, b, w))
    return out


def expected(r, n, S):
    m = plus(S, n)
    return {
        "0 < n < S": [(ZERO, n, ("fill",)), (n, S, ("arr", n))],
        "n = 0": [(ZERO, S, ("arr", ZERO))],
        "-S < n < 0": [(ZERO, m, ("arr", n)), (m, S, ("fill",))],
    }.get(r, [(ZERO, S, ("fill",))])


def words(ps, sh):
    def f(x):
        out = []
        for k in range(-2, 3):
            for s in range(-2, 3):
                if plus(tuple(k * y for y in sh.n), tuple(s * y for y in sh.S)) == x:
                    out.append((abs(k) + abs(s), {0: "", 1: "n", -1: "-n"}.get(k, "%d*n" % k) + ("" if not s else "%+d*S" % s if abs(s) > 1 else "+S" if s > 0 else "-S") or "0"))
        return min(out)[1].lstrip("+") if out else str(x)
    def g(w):
        return "arr[i - (%s)]" % f(w[1]) if w[0] == "arr" else show(w[1])[:40] if len(w) > 1 else w[0]
    return ", ".join("[%s, %s): %s" % (f(a), f(b), g(w)) for a, b, w in ps)


def run(ctx):
    with ctx.section("shift"):
        shift(ctx)
    with ctx.section("align"):
        align(ctx)
    for name, per_pixel in (("get_average_wf", False), ("get_average_wf_per_pixel", True)):
        with ctx.section(name):
            average(ctx, name, per_pixel)
    with ctx.section("dead"):
        dead(ctx)


def names_of(f):
    a = f.node.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]


def shift(ctx):
    f = ctx.P.funcs[M + "shift_array"]
    I = ctx.interp()
    a = names_of(f)
    if a[:3] != ["arr", "num", "fill_value"]:
        return ctx.und("shift", "signature", f.loc())
    arr, num, fill = (param(x) for x in a[:3])
    paths = ctx.count(I.run(f, args={x: param(x) for x in a}))
    for r in REGIMES:
        for case in cases_of(r):
            one_case(ctx, f, paths, arr, num, fill, r, case)


def one_case(ctx, f, paths, arr, num, fill, r, case):
    sh = Shift(arr, num, fill, case)
    key = "shift:" + r
    for p in paths:
        truth = [sh.cond(c) for c, _ in p.conds]
        if any(t is not None and t != pol for t, (_, pol) in zip(truth, p.conds)):
            continue
        if any(t is None for t in truth):
            ctx.und(key, "condition %s" % p.cond_str(), f.loc())
            continue
        if p.kind != "return":
            ctx.bad(key, "no result for a shift with %s" % r, f.loc(), p.cond_str())
            continue
        try:
            ps, n = sh.array(p.value)
            if ps is None:
                raise Undecided(show(p.value)[:80])
            ps = joined(ps)
            want = joined(expected(r, sh.n, sh.S))
            ctx.judge(key, ps == want and n == sh.S, "sample i is sample i - n of the input where that exists, else the fill value",
                      "for %s the result is %s; it has to be %s" % (where(sh), words(ps, sh), words(want, sh)), f.loc(), p.cond_str())
        except Undecided as ex:
            ctx.und(key, str(ex), f.loc())
        except Broken as ex:
            ctx.bad(key, "for %s %s" % (where(sh), ex), f.loc(), p.cond_str())


def where(sh):
    def f(x):
        return " ".join([str(x[0])] + ["%+d*%s" % (c, n) for c, n in zip(x[1:], "uv") if c])
    return "n = %s, S = %s%s" % (f(sh.n), f(sh.S), " (u, v >= 0)" if any(sh.n[1:] + sh.S[1:]) else "")


# ------------------------------------------------------------------ reductions
def red(t, names):
    """(operand, axis) if t reduces an array with one of the numpy functions"""
    t = plain(t)
    if t.op == "call" and t.args[0] in ["numpy." + n for n in names]:
        kw = dict(t.args[2])
        if set(kw) - {"a", "axis"} or t.args[1]:
            return None
        return kw.get("a"), kw.get("axis")
    if t.op == "meth" and t.args[1] in names:
        kw = dict(t.args[3])
        pos = list(t.args[2])
        if set(kw) - {"axis"} or len(pos) > 1:
            return None
        return t.args[0], kw.get("axis", pos[0] if pos else None)
    return None


def axis_is(a, *n):
    return a is not None and is_const(plain(a)) and plain(a).args[0] in n


def align(ctx):
    q = M + "shift_waveform"
    f = ctx.P.funcs[q]
    I = ctx.interp(opaque={M + "shift_array"})
    wf, t, fill = param("waveforms"), param("t_shift"), param("fill_value")
    for p in returns(ctx.run(f, I, args={a: param(a) for a in names_of(f)})):
        v = plain(p.value)
        if v.op != "call" or v.args[0] != M + "shift_array":
            ctx.und("align", show(v)[:120], f.loc())
            continue
        kw = dict(v.args[2])
        ok = kw.get("arr") is wf
        ctx.judge("align:array", True if ok else False if known_vocab(kw.get("arr")) else None, "the waveforms themselves are shifted", "%s is shifted" % show(kw.get("arr"))[:100], f.loc())
        ctx.judge("align:fill", kw.get("fill_value") is fill, "the fill value is passed on", "the fill value is %s" % show(kw.get("fill_value"))[:60], f.loc())
        n = plain(kw.get("num"))
        r = None
        why = "the shift is %s" % show(n)[:160]
        if n.op == "poly":
            ms = {m: c for m, c in n.args[0]}
            pos = [m for m in ms if m == (t,)]
            rest = [m for m in ms if m != (t,)]
            if len(pos) == 1 and len(rest) == 1 and len(rest[0]) == 1:
                am = red(rest[0][0], ("argmax",))
                avg = red(am[0], ("mean", "sum")) if am and (am[1] is None or none(am[1]) or axis_is(am[1], 0, -1)) else None
                if avg is not None and ms[pos[0]] == 1 and ms[rest[0]] == -1 and plain(avg[0]) is wf and axis_is(avg[1], 0):
                    r = True
                elif am or known(rest[0][0]):
                    r = False
            elif known(n):
                r = False
        elif known(n):
            r = False
        ctx.judge("align:shift", r, "the maximum of the average over the pixels goes to t_shift", why, f.loc())


KNOWN = {"numpy." + n for n in ("mean", "sum", "max", "min", "argmax", "argmin", "median", "amax", "zeros")} | {"len", "int"}


def known(t):
    """only operations with a fixed numerical meaning here"""
    bad = []

    def f(x):
        if x.op == "call" and x.args[0] not in KNOWN and not str(x.args[0]).startswith(M):
            bad.append(x)
        if x.op in UNKNOWN_OPS and x.op != "last" or x.op == "callv" or x.op == "meth" and x.args[1] not in ("mean", "sum", "max", "argmax", "min", "argmin"):
            bad.append(x)
        return False
    contains(t, f)
    return not bad


def average(ctx, name, per_pixel):
    f = ctx.P.funcs[M + name]
    B = M + "BaselineSubtractor."
    I = ctx.interp(opaque={M + "shift_waveform", M + "shift_array", B + "subtract", B + "__init__"})
    src, t = param("source"), param("t_shift")
    for p in returns(ctx.run(f, I, args={a: param(a) for a in names_of(f)})):
        v = plain(p.value)
        loc = f.loc()
        counts = (length(src), attr(src, "n_events"))
        if v.op != "poly":
            v = poly_of(v)
        tot, other = None, []
        for m, c in (v.args[0] if v is not None else ()):
            sums = [x for x in m if x.op == "sumcomp"]
            zeros = [x for x in m if plain(x).op == "call" and plain(x).args[0] in ("numpy.zeros", "numpy.zeros_like")]
            if len(sums) == 1 and tot is None:
                tot = (sums[0], [x for x in m if x is not sums[0]], c)
            elif not zeros:
                other.append(m)
        if tot is None or other:
            only_last = tot is None and v is not None and contains(p.value, lambda y: y.op == "last") and not contains(p.value, lambda y: y.op == "phi")
            ctx.judge(name + ":events", False if only_last and known(p.value) else None, "", "the result is %s" % show(p.value)[:160], loc)
            continue
        s, rest, c = tot
        it = plain(s.args[0])
        if it is not src:
            ctx.judge(name + ":events", False if known(it) and it.op in ("item", "getitem") else None, "", "the sum runs over %s" % show(it)[:80], loc)
            continue
        norm = c == 1 and len(rest) == 1 and any(rest[0] is inv_(x) for x in counts)
        ctx.judge(name + ":norm", True if norm else False if all(known(x) for x in rest) else None, "the sum is divided by the number of events",
                  "the sum over the events is multiplied by %s" % " * ".join([str(c)] + [show(x)[:60] for x in rest]), loc)
        e = elem(it, s.args[1])
        for cs in s.args[2]:
            conds, val = cs[0], plain(cs[1])
            if any(isinstance(x, tuple) and x for x in conds):
                ctx.judge(name + ":events", None, "", "events enter conditionally", loc)
                continue
            ctx.ok(name + ":events", "every event of the source enters", loc)
            wf = val
            if not per_pixel:
                m = red(val, ("mean",))
                if m is None or not axis_is(m[1], 0):
                    ctx.judge(name + ":term", False if known(val) else None, "", "each event adds %s" % show(val)[:160], loc)
                    continue
                wf = plain(m[0])
            if wf.op != "call" or wf.args[0] != M + "shift_waveform":
                ctx.judge(name + ":term", False if known(wf) and wf.op == "call" and str(wf.args[0]).startswith(M) else None, "", "each event adds %s" % show(val)[:160], loc)
                continue
            kw = dict(wf.args[2])
            ctx.judge(name + ":align", plain(kw.get("t_shift")) is t, "each event is aligned to t_shift", "each event is aligned to %s" % show(kw.get("t_shift"))[:60], loc)
            ctx.judge(name + ":fill", True if plain(kw.get("fill_value")) is const(0) else False, "the samples shifted in are zero", "the samples shifted in are %s" % show(kw.get("fill_value"))[:60], loc)
            w = plain(kw.get("waveforms"))
            ok = w.op == "call" and w.args[0] == B + "subtract" and plain(dict(w.args[2]).get("waveforms")) is e
            ctx.judge(name + ":subtract", True if ok else False if known(w) else None, "each event has its baseline subtracted", "each event enters as %s" % show(w)[:120], loc)


def inv_(x):
    from ..terms import mk
    return mk("inv", x)


def poly_of(v):
    from ..terms import Term
    if v.op == "sumcomp":
        class One:
            args = ((((v,), 1),),)
        return One
    return None


# ------------------------------------------------------------------ dead pixels
def dead(ctx):
    q = M + "obtain_dead_pixel_list_r1"
    f = ctx.P.funcs[q]
    I = ctx.interp()
    src, thr, mx = (param(x) for x in ("source", "threshold_percent", "max_events"))
    for p in returns(ctx.run(f, I, args={a: param(a) for a in names_of(f)})):
        loc = f.loc()
        v = plain(p.value)
        cond = None
        if v.op == "item" and plain(v.args[1]) is const(0):
            w = plain(v.args[0])
            if w.op == "call" and w.args[0] in ("numpy.where", "numpy.nonzero"):
                xs = list(w.args[1]) + [x for _, x in w.args[2]]
                cond = xs[0] if len(xs) == 1 else None
        elif v.op == "call" and v.args[0] == "numpy.flatnonzero":
            xs = list(v.args[1]) + [x for _, x in v.args[2]]
            cond = xs[0] if len(xs) == 1 else None
        if cond is None:
            ctx.und("dead", "the list is %s" % show(v)[:100], loc)
            continue
        cond = plain(cond)
        a = b = None
        if cond.op in ("lt", "le"):
            a, b = plain(cond.args[0]), plain(cond.args[1])
        pk = red(a, ("max", "amax")) if a is not None else None
        if pk is None or b is None:
            ctx.judge("dead:test", False if a is not None and known(a) and known(b) else None, "", "a pixel is dead if %s" % show(cond)[:200], loc)
            continue
        r = cond.op == "lt" and b.op == "poly" and len(b.args[0]) == 1
        if r:
            (m, c), = b.args[0]
            fac = [x for x in m if x is not thr]
            mean = red(fac[0], ("mean",)) if len(fac) == 1 and len(m) == 2 else None
            r = c == 1 and mean is not None and plain(mean[0]) is a and (mean[1] is None or none(mean[1]) or axis_is(mean[1], 0, -1))
        ctx.judge("dead:test", True if r else False if known(b) else None, "dead: the peak is below the threshold fraction of the average peak", "a pixel is dead if %s" % show(cond)[:240], loc)
        ok = axis_is(pk[1], 1, -1)
        avg = red(pk[0], ("mean", "sum"))
        if avg is None or not ok or not axis_is(avg[1], 0):
            ctx.judge("dead:peak", False if known(a) else None, "", "the peak height is %s" % show(a)[:160], loc)
            continue
        ctx.ok("dead:peak", "the peak height is the maximum of the pixel's average waveform", loc)
        for e, loops in flat_events(p.events):
            if e.kind == "loop" and isinstance(e.base, Term) and plain(e.base) is src:
                events(ctx, e, loc)


def events(ctx, e, loc):
    for bp in e.paths:
        ws = [x for x in bp.events if x.kind == "setitem"]
        if bp.exit in ("fall", "continue") and not ws:
            ctx.judge("dead:events", None, "", "an event is left out when %s" % " and ".join(show(c)[:60] for c, _ in bp.conds), loc)
        elif bp.exit in ("fall", "continue"):
            ok = len(ws) == 1 and plain(ws[0].value) is e.value
            ctx.judge("dead:events", True if ok else None, "each event is stored unchanged", "", loc)
