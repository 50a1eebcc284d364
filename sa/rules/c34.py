"""Running statistics.  Inductive invariant of the update, decided as an identity of rational functions: with n samples seen,
mean = S/n and m2 = Q - S^2/n (S, Q: sum and sum of squares), one update by x must give n + 1, and sums S + x and Q + x^2.
The symbolic results of every path are brought to a quotient of polynomials in sample, mean, count and m2 and the two sides
cross-multiplied; nothing is executed and no numbers are tried."""
from fractions import Fraction

from .util import *

Q = "CHECLabPy.stats.welfords.welfords_online_algorithm"
NAMES = ("sample", "mean", "count", "m2")
WRONG = ("floordiv", "mod")
EXACT = ("float", "builtins.float", "numpy.float64", "numpy.float_", "numpy.asarray")
ROUNDS = ("int", "builtins.int", "round", "builtins.round", "numpy.floor", "numpy.round", "numpy.rint", "math.floor", "math.ceil", "numpy.ceil", "abs", "builtins.abs", "math.fabs", "numpy.abs",
          "numpy.float32", "numpy.float16", "sqrt", "numpy.sqrt", "math.sqrt")


class Unknown(Exception):
    pass


# polynomials: {((name, power), ...): Fraction}
def padd(a, b, k=1):
    d = dict(a)
    for m, c in b.items():
        d[m] = d.get(m, 0) + k * c
        if not d[m]:
            del d[m]
    return d


def pmul(a, b):
    d = {}
    for m, c in a.items():
        for n, e in b.items():
            x = dict(m)
            for v, p in n:
                x[v] = x.get(v, 0) + p
            k = tuple(sorted(x.items()))
            d[k] = d.get(k, 0) + c * e
            if not d[k]:
                del d[k]
    return d


def num(c):
    return {(): Fraction(c)} if c else {}


def var(n):
    return {((n, 1),): Fraction(1)}


ONE = num(1)


def radd(a, b):
    return padd(pmul(a[0], b[1]), pmul(b[0], a[1])), pmul(a[1], b[1])


def rmul(a, b):
    return pmul(a[0], b[0]), pmul(a[1], b[1])


def ratio(t, env):
    """term -> (numerator, denominator)"""
    t = plain(t)
    if t in env:
        return env[t]
    if t.op == "const" and isinstance(t.args[0], (int, float, Fraction)) and not isinstance(t.args[0], bool):
        return num(Fraction(t.args[0])), ONE
    if t.op == "poly":
        out = ({}, ONE)
        for mono, c in t.args[0]:
            r = (num(Fraction(c)), ONE)
            for x in mono:
                r = rmul(r, ratio(x, env))
            out = radd(out, r)
        return out
    if t.op == "mul":
        r = (ONE, ONE)
        for x in t.args:
            r = rmul(r, ratio(x, env))
        return r
    if t.op == "inv":
        n, d = ratio(t.args[0], env)
        if not n:
            raise Unknown("division by zero")
        return d, n
    if t.op == "pow":
        b, e = t.args[0], plain(t.args[1])
        if is_const(e) and isinstance(e.args[0], (int, float)) and e.args[0] == int(e.args[0]):
            k, r = int(e.args[0]), (ONE, ONE)
            x = ratio(b, env)
            if k < 0:
                x = x[1], x[0]
            for _ in range(abs(k)):
                r = rmul(r, x)
            return r
    if t.op == "call" and len(t.args[1]) == 1 and t.args[0] in EXACT:
        return ratio(t.args[1][0], env)
    # an operation that is not a rational function: an independent quantity
    if t.op in WRONG or t.op == "call" and t.args[0] in ROUNDS:
        return var("<%s>" % show(t)), ONE
    raise Unknown(show(t)[:100])


def same(a, b):
    return not padd(pmul(a[0], b[1]), pmul(b[0], a[1]), -1)


def text(r):
    def f(p):
        return " + ".join("%s%s" % ("" if c == 1 and m else "%s " % c, " ".join(v if k == 1 else "%s^%d" % (v, k) for v, k in m)) for m, c in sorted(p.items())) or "0"
    return f(r[0]) if r[1] == ONE else "(%s) / (%s)" % (f(r[0]), f(r[1]))


def run(ctx):
    fn = ctx.P.funcs.get(Q)
    if fn is None:
        raise AnchorError(Q)
    names = [a.arg for a in fn.node.args.args]
    if names[:4] != list(NAMES):
        raise AnchorError(Q + " parameters")
    with ctx.section("welfords"):
        step(ctx, fn)
    ctx.assumptions.append("real arithmetic; the running values start at count 0, mean 0, m2 0 and are only replaced by the function's results")


def step(ctx, fn):
    I = ctx.interp()
    paths = ctx.run(fn, I)
    ctx.count(paths)
    if not paths:
        ctx.und("result", "no path", fn.loc())
    for p in paths:
        cs = p.cond_str()[:200]
        if p.kind != "return":
            ctx.judge("returns", None if p.kind == "raise" and p.conds else False, "", "an update does not return", fn.loc(), cs)
            continue
        env = {param(n): (var(n), ONE) for n in NAMES}
        known = True
        for c in p.conds:
            k = fixed(c)
            if k is None:
                if not solved(c, env):
                    known = False
            elif k[0] == "eq":
                env[param(k[1])] = (num(k[2]), ONE)
                if k[1] == "count" and k[2] in (0, 1):
                    env[param("m2")] = ({}, ONE)
        for e, _ in flat_events(p.events):
            if e.kind in ("setitem", "mut", "setattr") and isinstance(e.base, Term) and plain(e.base) in env:
                ctx.und("result", "writes into an argument", e.loc)
        try:
            v = I.freeze(p.st, p.value) if p.value is not None else NONE
            parts = pieces(v)
            if parts is None:
                raise Unknown(show(v)[:100])
            if len(parts) != 3:
                ctx.bad("result", "returns %d values" % len(parts), fn.loc(), cs)
                continue
            mean, count, m2 = (ratio(x, env) for x in parts)
            first = dict(env)
            first[param("count")] = first[param("m2")] = first[param("mean")] = ({}, ONE)
            if not p.conds and any(s.op == "inv" and not ratio(s.args[0], first)[0] for t in parts for s in subterms(t)):
                ctx.bad("first", "the first sample divides by zero", fn.loc(), cs)
                continue
            x, mu, n, q = (env[param(k)] for k in NAMES)
            one = (ONE, ONE)
            n1 = radd(n, one)
            s1 = radd(rmul(n, mu), x)
            q1 = radd(radd(q, rmul(n, rmul(mu, mu))), rmul(x, x))
            ok = same(count, n1)
            ctx.judge("count", ok or (False if known else None), "count + 1", "the count becomes %s" % text(count), fn.loc(), cs)
            ok = same(rmul(mean, n1), s1)
            ctx.judge("mean", ok or (False if known else None), "mean of the samples including the new one", "the mean becomes %s, which times the new count is not the sum of the samples" % text(mean), fn.loc(), cs)
            # m2' + S'^2 / n' = Q + x^2
            ok = same(radd(m2, rmul(rmul(s1, s1), (n1[1], n1[0]))), q1)
            ctx.judge("m2", ok or (False if known else None), "sum of squared deviations including the new sample", "m2 becomes %s, not the sum of squared deviations" % text(m2), fn.loc(), cs)
        except Unknown as e:
            ctx.und("result", "not a rational function: %s" % e, fn.loc(), cs)


def solved(c, env):
    """a condition on an expression: an inequation leaves the identity generic, an equation is solved for the sample"""
    a, pol = c
    if a.op == "not":
        a, pol = a.args[0], not pol
    try:
        if a.op == "truth":
            r, pol = ratio(a.args[0], env), not pol
        elif a.op == "eq":
            r = radd(ratio(a.args[0], env), rmul((num(-1), ONE), ratio(a.args[1], env)))
        elif a.op in ("lt", "le"):
            for x in a.args:
                ratio(x, env)
            return True
        else:
            return False
    except Unknown:
        return False
    if not pol:
        return True
    lead, rest = {}, {}
    for m, k in r[0].items():
        d = dict(m)
        e = d.pop("sample", 0)
        if e > 1:
            return False
        (lead if e else rest)[tuple(sorted(d.items()))] = k
    if not lead or env[param("sample")] != (var("sample"), ONE):
        return False
    env[param("sample")] = ({m: -k for m, k in rest.items()}, lead)
    return True


def fixed(c):
    """a path condition: ("eq", parameter, value) / ("free",) for an order comparison of the arguments / None if not understood"""
    a, pol = c[0], c[1]
    if a.op == "not":
        a, pol = a.args[0], not pol
    if a.op == "eq":
        x, y = plain(a.args[0]), plain(a.args[1])
        if is_const(x):
            x, y = y, x
        if x.op == "param" and is_const(y) and isinstance(y.args[0], (int, float)):
            return ("eq", x.args[0], y.args[0]) if pol else ("free",)
    if a.op == "truth":
        x = plain(a.args[0])
        if x.op == "param":
            return ("free",) if pol else ("eq", x.args[0], 0)
    if a.op == "param":
        return ("free",) if pol else ("eq", a.args[0], 0)
    if a.op in ("lt", "le") and all(y.op in ("param", "const", "poly") for y in subterms(a) if y is not a):
        return ("free",)
    return None


def pieces(v):
    if v.op in ("tuple", "listv"):
        a = v.args[0] if v.args and isinstance(v.args[0], tuple) else v.args
        return [s[1] if isinstance(s, tuple) else s for s in a]
    return None
