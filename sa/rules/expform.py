"""Normal form for formulas built from sums, products, powers, exp, log, sqrt, factorials: a sum of coefficient times a product
of bases raised to exponents, where the exponents are again such sums.  exp(u) is the base e with exponent u, exp(c log b) is
b^c, sqrt is the exponent 1/2.  Two formulas that are equal by the laws of exponents (for positive bases) get the same form."""
from fractions import Fraction as F
import math

from .util import *

E = ("e",)
EXP = ("exp", "math.exp", "numpy.exp", "cmath.exp")
LOG = ("log", "math.log", "numpy.log")
SQRT = ("sqrt", "math.sqrt", "numpy.sqrt")
POW = ("pow", "math.pow", "numpy.power", "numpy.float_power")
LGAMMA = ("math.lgamma", "scipy.special.gammaln", "scipy.special.loggamma")
FACT = ("math.factorial", "scipy.special.factorial")
GAMMA = ("math.gamma", "scipy.special.gamma")
COMB = ("math.comb", "scipy.special.binom", "scipy.special.comb")
SAME = ("float", "numpy.float64", "numpy.asarray", "numpy.float32", "numpy.array", "numpy.square")
LIMIT = 400


class Deep(Exception):
    pass


def freeze(d):
    return frozenset(d.items())


def thaw(f):
    return dict(f)


def const_of(d):
    """the number a form is, or None"""
    if not d:
        return F(0)
    if len(d) == 1:
        (m, c), = d.items()
        if not m:
            return c
    return None


def num(c):
    c = F(c)
    return {frozenset(): c} if c else {}


def add_(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + k * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def mono(bases):
    return frozenset((b, x) for b, x in bases.items() if x)


def mulm(m, n):
    r = dict(m)
    for b, x in n:
        y = freeze(add_(thaw(r.get(b, frozenset())), thaw(x)))
        if y:
            r[b] = y
        else:
            r.pop(b, None)
    return frozenset(r.items())


def mul_(a, b):
    if len(a) * len(b) > LIMIT:
        raise Deep()
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k, extra = tidy(mulm(m, n))
            v = r.get(k, 0) + c * d * extra
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    # a product of sums may have left sums raised to small whole powers
    return r


def tidy(m):
    """numbers raised to whole powers become coefficients"""
    k, r = F(1), {}
    for b, x in m:
        if b[0] == "n":
            e = const_of(thaw(x))
            if e is not None and e.denominator == 1:
                k *= b[1] ** int(e)
                continue
        r[b] = x
    return frozenset(r.items()), k


def base(b, x=None):
    return {frozenset([(b, freeze(x if x is not None else num(1)))]): F(1)}


def root(c, e):
    """c ** e as (coefficient, number bases)"""
    if e.denominator == 1:
        return c ** int(e), {}
    if c == 1:
        return F(1), {}
    if c > 0 and e.denominator == 2:
        p = c ** e.numerator
        n, d = math.isqrt(p.numerator), math.isqrt(p.denominator)
        if n * n == p.numerator and d * d == p.denominator:
            return F(n, d), {}
    r = {}
    for v, s in ((c.numerator, 1), (c.denominator, -1)):
        if abs(v) != 1 or v < 0:
            r[("n", F(v))] = num(e * s)
    return F(1), r


def pow_(a, x):
    """a ** x"""
    e = const_of(x)
    if e is not None and e == 0:
        return num(1)
    if not a:
        return {} if e is not None and e > 0 else base(("s", frozenset()), x)
    if e is not None and e.denominator == 1 and 0 < e <= 4 and len(a) > 1:
        r = a
        for _ in range(int(e) - 1):
            r = mul_(r, a)
        return r
    if len(a) == 1:
        (m, c), = a.items()
        if e is not None:
            k, extra = root(c, e)
        elif c == 1:
            k, extra = F(1), {}
        else:
            k, extra = F(1), {("n", c): x}
        r = {frozenset(): k}
        for b, y in m:
            r = mul_(r, base(b, mul_(thaw(y), x)))
        for b, y in extra.items():
            r = mul_(r, base(b, y))
        return r
    # a sum: make its first coefficient 1
    lead = sorted(a, key=lambda m: (len(m), str(sorted(map(str, m)))))[0]
    c = a[lead]
    if c < 0:
        c = -c if e is None or e.denominator != 1 else c
    s = ("s", freeze({m: v / c for m, v in a.items()}))
    return mul_(pow_(num(c), x), base(s, x))


def exp_(u):
    """e ** u, with the logarithms taken out"""
    r, rest = num(1), {}
    for m, c in u.items():
        logs = [(b, y) for b, y in m if b[0] == "log" and const_of(thaw(y)) == 1]
        if len(logs) == 1:
            b = logs[0][0]
            others = {frozenset(p for p in m if p != logs[0]): c}
            r = mul_(r, pow_(thaw(b[1]), others))
        else:
            rest[m] = c
    return mul_(r, base(E, rest)) if rest else r


def log_(a):
    if len(a) == 1:
        (m, c), = a.items()
        r = {}
        for b, y in m:
            if b == E:
                r = add_(r, thaw(y))
            else:
                r = add_(r, mul_(thaw(y), base(("log", freeze(base(b))))))
        if c != 1:
            r = add_(r, base(("log", freeze(num(c)))))
        return r
    return base(("log", freeze(a)))


def lgamma_(a):
    c = const_of(a)
    if c in (1, 2):
        return {}
    return base(("lgamma", freeze(a)))


def gamma_recurrence(d):
    """all gamma functions of a form taken at 1 + u, where u has no integer part"""
    r = {}
    for m, c in d.items():
        t = num(c)
        for b, y in m:
            e = gamma_recurrence(thaw(y))
            if b == E:
                t = mul_(t, exp_(e))
                continue
            if b[0] == "lgamma":
                x = gamma_at_one(gamma_recurrence(thaw(b[1])))
            elif b[0] == "log":
                x = log_(gamma_recurrence(thaw(b[1])))
            elif b[0] == "s":
                x = gamma_recurrence(thaw(b[1]))
            else:
                x = base(b)
            t = mul_(t, pow_(x, e))
        r = add_(r, t)
    return r


def gamma_at_one(a):
    c = const_of(a)
    n = a.get(frozenset(), 0)
    if n != int(n) or abs(n) > 20 or c is not None and c < 1:
        return lgamma_(a)
    u = add_(a, num(n), -1)
    r = {} if c is not None else lgamma_(add_(u, num(1)))
    for i in range(1, int(n)):
        r = add_(r, log_(add_(u, num(i))))
    for i in range(int(n), 1):
        r = add_(r, log_(add_(u, num(i))), -1)
    return r


class Form:
    """forms of terms; inline: functions replaced by their single value, names: terms renamed"""

    def __init__(self, P, inline=None, names=None):
        self.P, self.inline, self.names, self.memo = P, inline or {}, names or {}, {}

    def of(self, t):
        t = plain(t)
        if t not in self.memo:
            self.memo[t] = self._of(t)
        return self.memo[t]

    def args(self, t):
        xs = list(t.args[1])
        kw = dict(t.args[2])
        return xs, kw

    def _of(self, t):
        if t in self.names:
            return self.of_name(self.names[t])
        if t.op in ("attr", "ext", "global", "name", "lib", "modattr") and show(t) in ("math.pi", "numpy.pi", "scipy.constants.pi"):
            return base(("pi",))
        if is_const(t):
            v = t.args[0]
            if isinstance(v, bool) or not isinstance(v, (int, float, F)):
                return base(("t", t))
            if isinstance(v, float) and (v != v or v in (math.inf, -math.inf)):
                return base(("t", t))
            if v == math.pi:
                return base(("pi",))
            if isinstance(v, float):
                r = F(v).limit_denominator(10 ** 6)
                v = r if float(r) == v else F(v)
            return num(v)
        if t.op == "poly":
            r = {}
            for m, c in t.args[0]:
                x = num(F(c).limit_denominator(10 ** 12) if isinstance(c, float) else c)
                for a in m:
                    x = mul_(x, self.of(a))
                r = add_(r, x)
            return r
        if t.op == "inv":
            return pow_(self.of(t.args[0]), num(-1))
        if t.op == "mul":
            r = num(1)
            for a in t.args:
                r = mul_(r, self.of(a))
            return r
        if t.op == "pow":
            return pow_(self.of(t.args[0]), self.of(t.args[1]))
        if t.op in ("sqrt", "exp", "log") and len(t.args) == 1:
            return self.func(t.op, [self.of(t.args[0])], t)
        if t.op == "neg":
            return mul_(num(-1), self.of(t.args[0]))
        if t.op == "call":
            xs, kw = self.args(t)
            n = t.args[0]
            if n in self.inline:
                names, body, sub = self.inline[n]
                kw = dict(zip(names, xs), **kw)
                if set(kw) == set(names):
                    f = Form(self.P, self.inline, {param(k): self.of(v) for k, v in kw.items()})
                    return f.of(body)
            if not kw or len(kw) + len(xs) <= 2:
                r = self.func(n, [self.of(x) for x in xs + list(kw.values())], t)
                if r is not None:
                    return r
            items = tuple((("", i), freeze(self.of(x))) for i, x in enumerate(xs)) + tuple((k, freeze(self.of(v))) for k, v in sorted(kw.items()))
            return base(("call", n, items))
        if t.op == "meth" and t.args[1] in ("copy", "astype"):
            return self.of(t.args[0])
        if t.op == "item":
            return base(("item", freeze(self.of(t.args[0])), freeze(self.of(t.args[1]))))
        return base(("t", t))

    def of_name(self, v):
        return v if isinstance(v, dict) else base(("p", v))

    def func(self, n, xs, t):
        if n in EXP and len(xs) == 1:
            return exp_(xs[0])
        if n in ("math.exp2", "numpy.exp2") and len(xs) == 1:
            return pow_(num(2), xs[0])
        if n in LOG and len(xs) == 1:
            return log_(xs[0])
        if n in SQRT and len(xs) == 1:
            return pow_(xs[0], num(F(1, 2)))
        if n in POW and len(xs) == 2:
            return pow_(xs[0], xs[1])
        if n in LGAMMA and len(xs) == 1:
            return lgamma_(xs[0])
        if n in GAMMA and len(xs) == 1:
            return exp_(lgamma_(xs[0]))
        if n in FACT and len(xs) == 1:
            return exp_(lgamma_(add_(xs[0], num(1))))
        if n in COMB and len(xs) == 2:
            a, b = xs
            one = num(1)
            return exp_(add_(add_(lgamma_(add_(a, one)), lgamma_(add_(b, one)), -1), lgamma_(add_(add_(a, b, -1), one)), -1))
        if n == "numpy.square" and len(xs) == 1:
            return mul_(xs[0], xs[0])
        if n in SAME and len(xs) == 1:
            return xs[0]
        return None


def bases(d, seen=None):
    """all bases in a form"""
    seen = set() if seen is None else seen
    for m in d:
        for b, x in m:
            seen.add(b)
            bases(thaw(x), seen)
            for p in b[1:]:
                if isinstance(p, frozenset):
                    bases(thaw(p), seen)
                if isinstance(p, tuple):
                    for q in p:
                        if isinstance(q, tuple) and len(q) == 2 and isinstance(q[1], frozenset):
                            bases(thaw(q[1]), seen)
    return seen


def text(d, n=200):
    def ft(b):
        if b[0] in ("e", "pi"):
            return b[0]
        if b[0] == "n":
            return str(b[1])
        if b[0] in ("p",):
            return str(b[1])
        if b[0] == "t":
            return show(b[1])[:40]
        if b[0] == "call":
            return "%s(%s)" % (b[1].split(".")[-1], ", ".join(text(thaw(v), 40) for _, v in b[2]))
        return "%s(%s)" % (b[0], ", ".join(text(thaw(x), 60) for x in b[1:] if isinstance(x, frozenset)))
    out = []
    for m, c in d.items():
        ps = []
        for b, x in m:
            e = const_of(thaw(x))
            ps.append(ft(b) if e == 1 else "%s^%s" % (ft(b), e if e is not None else "(%s)" % text(thaw(x), 80)))
        out.append("*".join(([str(c)] if c != 1 or not ps else []) + sorted(ps)))
    return (" + ".join(sorted(out)) or "0")[:n]
