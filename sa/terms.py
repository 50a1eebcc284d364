"""Herbrand terms with a normal form (the value domain of the analysis).

A Term is an interned (op, args) pair.  Numeric arithmetic is kept as a polynomial
with rational coefficients over opaque terms, so that re-associated, commuted,
distributed or constant-folded arithmetic has one representation.
"""
from fractions import Fraction
import math
import re
import string

_TABLE = {}
_COUNT = [0]


class Term:
    __slots__ = ("op", "args", "n")

    def __repr__(self):
        return show(self)

    def __lt__(self, other):
        return self.n < other.n


def _key(op, args):
    if op == "const":
        v = args[0]
        return (op, type(v).__name__, repr(v) if isinstance(v, float) else v)
    return (op, args)


def mk(op, *args):
    k = _key(op, args)
    t = _TABLE.get(k)
    if t is None:
        t = Term()
        t.op = op
        t.args = args
        t.n = _COUNT[0]
        _COUNT[0] += 1
        _TABLE[k] = t
    return t


def const(v):
    if isinstance(v, float) and not isinstance(v, bool):
        if v == v and v not in (math.inf, -math.inf) and v == int(v) and abs(v) < 1e300:
            v = int(v)
    return mk("const", v)


NONE = const(None)
TRUE = const(True)
FALSE = const(False)


def is_const(t):
    return isinstance(t, Term) and t.op == "const"


def cval(t, default=None):
    return t.args[0] if is_const(t) else default


def is_num(t):
    return is_const(t) and isinstance(t.args[0], (int, float)) and not isinstance(t.args[0], bool)


def param(name):
    return mk("param", name)


def tup(*items):
    return mk("tuple", tuple(items))


def ext(name):
    if name == "numpy.newaxis":
        return const(None)
    return mk("ext", name)


# ---------------------------------------------------------------- polynomials
def to_poly(t):
    if is_const(t):
        v = t.args[0]
        if isinstance(v, bool):
            return {(): Fraction(int(v))} if v else {}
        if isinstance(v, int):
            return {(): Fraction(v)} if v else {}
        if isinstance(v, float) and v == v and abs(v) != math.inf:
            return {(): Fraction(repr(v))}
        return {(t,): Fraction(1)}
    if t.op == "poly":
        return dict(t.args[0])
    return {(t,): Fraction(1)}


def from_poly(d):
    d = {m: c for m, c in d.items() if c}
    if not d:
        return const(0)
    if list(d) == [()]:
        c = d[()]
        return const(int(c)) if c.denominator == 1 else const(float(c))
    if len(d) == 1:
        (m, c), = d.items()
        if c == 1 and len(m) == 1:
            return m[0]
    return mk("poly", tuple(sorted(d.items(), key=lambda mc: tuple(x.n for x in mc[0]))))


def _inv(t):
    if t.op == "inv":
        return t.args[0]
    return mk("inv", t)


def _mono_mul(a, b):
    out = list(a)
    for x in b:
        y = _inv(x)
        if y in out:
            out.remove(y)
        else:
            out.append(x)
    return tuple(sorted(out))


def add(a, b):
    d = to_poly(a)
    for m, c in to_poly(b).items():
        d[m] = d.get(m, 0) + c
    return from_poly(d)


def neg(a):
    return from_poly({m: -c for m, c in to_poly(a).items()})


def sub(a, b):
    return add(a, neg(b))


def mul(a, b):
    pa, pb = to_poly(a), to_poly(b)
    if len(pa) * len(pb) > 60:
        return mk("mul", *sorted([a, b]))
    d = {}
    for m1, c1 in pa.items():
        for m2, c2 in pb.items():
            m = _mono_mul(m1, m2)
            d[m] = d.get(m, 0) + c1 * c2
    return from_poly(d)


def div(a, b):
    pb = to_poly(b)
    if list(pb) == [()]:
        return from_poly({m: c / pb[()] for m, c in to_poly(a).items()})
    if not pb:
        return mk("div0", a)
    if len(pb) == 1:
        (m, c), = pb.items()
        invm = tuple(sorted(_inv(x) for x in m))
        return mul(a, from_poly({invm: 1 / c}))
    return mul(a, mk("inv", b))


def power(a, b):
    if is_num(b) and isinstance(b.args[0], int) and 0 <= b.args[0] <= 4:
        r = const(1)
        for _ in range(b.args[0]):
            r = mul(r, a)
        return r
    if is_num(a) and is_num(b) and isinstance(b.args[0], int) and 4 < b.args[0] <= 64:
        return from_poly({(): a.args[0] ** b.args[0]})
    if is_num(b) and b.args[0] == -1:
        return div(const(1), a)
    if is_num(b) and b.args[0] == 0.5:
        return mk("call", "sqrt", (a,), ())
    return mk("pow", a, b)


def floordiv(a, b):
    if is_num(a) and is_num(b) and b.args[0]:
        return const(a.args[0] // b.args[0])
    return mk("floordiv", a, b)


def mod(a, b):
    if is_num(a) and is_num(b) and b.args[0]:
        return const(a.args[0] % b.args[0])
    return mk("mod", a, b)


# ---------------------------------------------------------------- comparisons
def cmp_atom(op, a, b):
    """-> (atom, polarity); atom is a Term, decided comparisons give TRUE/FALSE"""
    if op == ">":
        return cmp_atom("<", b, a)
    if op == ">=":
        return cmp_atom("<=", b, a)
    if op == "!=":
        t, p = cmp_atom("==", a, b)
        return t, not p
    if op == "is not":
        t, p = cmp_atom("is", a, b)
        return t, not p
    if op == "not in":
        t, p = cmp_atom("in", a, b)
        return t, not p
    if is_const(a) and is_const(b):
        va, vb = a.args[0], b.args[0]
        try:
            r = {"<": lambda: va < vb, "<=": lambda: va <= vb, "==": lambda: va == vb,
                 "is": lambda: va is vb or (va == vb and type(va) is type(vb)),
                 "in": lambda: va in vb}[op]()
            return (TRUE if r else FALSE), True
        except TypeError:
            pass
    if op in ("<", "<="):
        # len(x) > 0  <=>  bool(x)
        if op == "<" and a == const(0) and b.op == "len":
            return mk("truth", b.args[0]), True
        if op == "<=" and a == const(1) and b.op == "len":
            return mk("truth", b.args[0]), True
        if op == "<" and b == const(1) and a.op == "len":
            return mk("truth", a.args[0]), False
        if op == "<=" and b == const(0) and a.op == "len":
            return mk("truth", a.args[0]), False
        return mk("lt" if op == "<" else "le", a, b), True
    if op == "==":
        if a == b and a.op in ("const", "param", "attr"):
            return TRUE, True
        for x, y in ((a, b), (b, a)):
            if y == const(0) and x.op == "len":
                return mk("truth", x.args[0]), False
            if y == NONE:
                return mk("is", x, NONE), True
        a, b = sorted([a, b])
        return mk("eq", a, b), True
    if op == "is":
        if b.op in ("tuple", "fstr", "poly", "obj", "newarr", "listv", "dictv") and a == NONE:
            return FALSE, True
        if a.op in ("tuple", "fstr", "poly", "obj", "newarr", "listv", "dictv", "func", "class",
                    "comp") and b == NONE:
            return FALSE, True
        if a == NONE and b != NONE:
            a, b = b, a
        if b in (TRUE, FALSE) and not is_const(a):
            return mk("is", a, b), True
        return mk("is", a, b), True
    if op == "in":
        if b.op == "meth" and b.args[1] == "keys":
            b = b.args[0]
        return mk("in", a, b), True
    return mk("cmp", op, a, b), True


# ---------------------------------------------------------------- traversal
def subterms(t, seen=None):
    """all sub-terms (including through nested tuples), each once"""
    if seen is None:
        seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, Term):
            if x in seen:
                continue
            seen.add(x)
            yield x
            stack.extend(x.args)
        elif isinstance(x, tuple):
            stack.extend(x)


def contains(t, pred):
    return any(pred(x) for x in subterms(t))


def mentions(t, x):
    return any(y is x for y in subterms(t))


def rewrite(t, f, memo=None):
    """bottom-up rewriting; f(term) returns a replacement or None"""
    if memo is None:
        memo = {}

    def go(x):
        if isinstance(x, Term):
            if x in memo:
                return memo[x]
            r = f(x)
            if r is None:
                if x.op == "poly":
                    r = x
                    if any(go(y) is not y for m, c in x.args[0] for y in m):
                        r = const(0)
                        for m, c in x.args[0]:
                            p = from_poly({(): c})
                            for y in m:
                                p = mul(p, go(y))
                            r = add(r, p)
                elif x.op == "inv":
                    y = go(x.args[0])
                    r = x if y is x.args[0] else div(const(1), y)
                else:
                    a = tuple(go(y) for y in x.args)
                    r = x if all(p is q for p, q in zip(a, x.args)) else rebuild(x.op, a)
            memo[x] = r
            return r
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        return x
    return go(t)


def rebuild(op, a):
    if op == "item":
        return item(a[0], a[1])
    return mk(op, *a)


def subst(t, mapping, memo=None):
    return rewrite(t, mapping.get, memo)


# ---------------------------------------------------------------- selectors
def item(base, idx):
    if base.op == "tuple" and is_const(idx) and isinstance(idx.args[0], int):
        items = base.args[0]
        if -len(items) <= idx.args[0] < len(items):
            return items[idx.args[0]]
    if base.op == "listv" and is_const(idx) and isinstance(idx.args[0], int):
        segs = base.args[0]
        i = idx.args[0]
        if i >= 0 and len(segs) > i and all(s[0] == "item" for s in segs[:i + 1]):
            return segs[i][1]
        if i < 0 and len(segs) >= -i and all(s[0] == "item" for s in segs[i:]):
            return segs[i][1]
    if base.op == "dictv" and is_const(idx):
        for s in reversed(base.args[0]):
            if s[0] == "kv" and s[1] == idx:
                return s[2]
            if s[0] == "kv" and is_const(s[1]):
                continue
            break
    # x[elem(range(len(x)))] -> elem(x)
    if idx.op == "elem":
        it = idx.args[0]
        if it.op == "range" and it.args[0] == const(0) and it.args[2] == const(1) \
                and it.args[1].op == "len" and it.args[1].args[0] == base:
            return elem(base, idx.args[1])
    # x[a:b][k] -> x[a+k]
    if base.op == "item" and base.args[1].op == "slice" and is_const(idx) and isinstance(idx.args[0], int) and idx.args[0] is not True \
            and idx.args[0] is not False and idx.args[0] >= 0:
        lo, hi, step = base.args[1].args
        lo = const(0) if lo is NONE else lo
        if is_num(lo) and isinstance(lo.args[0], int) and lo.args[0] >= 0 and step in (NONE, const(1)):
            k = lo.args[0] + idx.args[0]
            if hi is NONE or is_num(hi) and isinstance(hi.args[0], int) and hi.args[0] > k:
                return item(base.args[0], const(k))
    return mk("item", base, idx)


def rng(a, b=None, c=None):
    if b is None:
        a, b = const(0), a
    return mk("range", a, b, c if c is not None else const(1))


def elem(it, depth=0):
    return mk("elem", it, depth)


def length(t):
    if t.op == "tuple":
        return const(len(t.args[0]))
    if t.op == "listv" and all(s[0] == "item" for s in t.args[0]):
        return const(len(t.args[0]))
    if t.op == "dictv" and all(s[0] == "kv" and is_const(s[1]) for s in t.args[0]):
        return const(len({s[1] for s in t.args[0]}))
    if is_const(t) and isinstance(t.args[0], str):
        return const(len(t.args[0]))
    if t.op == "range" and t.args[0] == const(0) and t.args[2] == const(1):
        return t.args[1]
    if t.op == "call" and t.args[0] in ("list", "tuple", "sorted", "reversed") and t.args[1]:
        return length(t.args[1][0])
    if t.op == "comp" and len(t.args[2]) == 1 and t.args[2][0][0] == ((),) and len(t.args[2][0][1]) == 1 \
            and t.args[2][0][1][0][0] == "item":
        return length(t.args[0])
    if t.op in ("items", "values", "enumerate"):
        return length(t.args[0])
    return mk("len", t)


# ---------------------------------------------------------------- strings
def fstr(parts):
    """parts: list of str or (Term, conv, spec)"""
    out = []
    for p in parts:
        if isinstance(p, tuple):
            v, conv, spec = p
            if is_const(v) and isinstance(v.args[0], (str, int)) and not conv:
                try:
                    p = format(v.args[0], spec or "")
                except (ValueError, TypeError):
                    pass
            elif v.op == "fstr" and not conv and not spec:
                for q in v.args[0]:
                    if isinstance(q, str) and out and isinstance(out[-1], str):
                        out[-1] += q
                    else:
                        out.append(q)
                continue
        if isinstance(p, str):
            if not p:
                continue
            if out and isinstance(out[-1], str):
                out[-1] += p
            else:
                out.append(p)
        else:
            v, conv, spec = p
            out.append((v, conv or "", norm_spec(spec or "")))
    if not out:
        return const("")
    if len(out) == 1 and isinstance(out[0], str):
        return const(out[0])
    return mk("fstr", tuple(out))


def norm_spec(s):
    m = re.fullmatch(r"0(\d+)d?", s)
    if m:
        return "0%d" % int(m.group(1))
    m = re.fullmatch(r"(\d*)d", s)
    if m:
        return m.group(1)
    return s


def fmt_parts(fmt, args, kwargs):
    parts, auto = [], 0
    try:
        for lit, field, spec, conv in string.Formatter().parse(fmt):
            if lit:
                parts.append(lit)
            if field is None:
                continue
            name = re.split(r"[.\[]", field)[0]
            if name == "":
                v = args[auto]
                auto += 1
            elif name.isdigit():
                v = args[int(name)]
            else:
                v = kwargs[name]
            if field != name:
                return None
            parts.append((v, conv or "", spec))
    except (IndexError, KeyError, ValueError):
        return None
    return parts


def percent_parts(fmt, args):
    parts, i, pos = [], 0, 0
    for m in re.finditer(r"%(?:%|([-#0 +]*\d*(?:\.\d+)?)([diouxXeEfFgGcrs]))", fmt):
        parts.append(fmt[pos:m.start()])
        pos = m.end()
        if m.group(0) == "%%":
            parts.append("%")
            continue
        if i >= len(args):
            return None
        ty = m.group(2)
        spec = m.group(1) + ("" if ty in "s" else ty)
        parts.append((args[i], "r" if ty == "r" else "", spec if ty != "r" else m.group(1)))
        i += 1
    parts.append(fmt[pos:])
    return parts if i == len(args) else None


# ---------------------------------------------------------------- printing
def show(t, depth=0):
    if not isinstance(t, Term):
        if isinstance(t, tuple):
            return "(" + ", ".join(show(x, depth + 1) for x in t) + ")"
        return repr(t)
    if depth > 14:
        return "..."
    o, a = t.op, t.args
    s = lambda x: show(x, depth + 1)
    if o == "const":
        return repr(a[0])
    if o in ("param", "ext", "class"):
        return str(a[0])
    if o == "func":
        return str(a[0])
    if o == "attr":
        return "%s.%s" % (s(a[0]), a[1])
    if o == "item":
        return "%s[%s]" % (s(a[0]), s(a[1]))
    if o == "slice":
        return ":".join("" if x == NONE else s(x) for x in a)
    if o == "tuple":
        return "(" + ", ".join(s(x) for x in a[0]) + ")"
    if o == "listv":
        return "[" + ", ".join(s(x[1]) if x[0] == "item" else "*" + s(x[1]) for x in a[0]) + "]"
    if o == "dictv":
        return "{" + ", ".join("%s: %s" % (s(x[1]), s(x[2])) if x[0] == "kv" else "**" + s(x[1])
                               for x in a[0]) + "}"
    if o == "poly":
        out = []
        for m, c in a[0]:
            f = "*".join(s(x) for x in m)
            if not f:
                out.append(str(c))
            elif c == 1:
                out.append(f)
            else:
                out.append("%s*%s" % (c, f))
        return "(" + " + ".join(out) + ")"
    if o == "inv":
        return "1/" + s(a[0])
    if o == "call":
        return "%s(%s)" % (a[0], ", ".join([s(x) for x in a[1]] + ["%s=%s" % (k, s(v)) for k, v in a[2]]))
    if o == "callv":
        return "%s(%s)" % (s(a[0]), ", ".join([s(x) for x in a[1]] + ["%s=%s" % (k, s(v)) for k, v in a[2]]))
    if o == "meth":
        return "%s.%s(%s)" % (s(a[0]), a[1], ", ".join([s(x) for x in a[2]] + ["%s=%s" % (k, s(v)) for k, v in a[3]]))
    if o == "fstr":
        return "f'" + "".join(p if isinstance(p, str) else "{%s%s}" % (s(p[0]), ":" + p[2] if p[2] else "")
                              for p in a[0]) + "'"
    if o == "elem":
        return "each<%s>" % s(a[0]) + ("'" * a[1])
    if o in ("lt", "le", "eq", "is", "in"):
        return "%s %s %s" % (s(a[0]), {"lt": "<", "le": "<=", "eq": "==", "is": "is", "in": "in"}[o], s(a[1]))
    if o == "newarr":
        return s(a[0]) + "#%s" % a[1]
    return "%s(%s)" % (o, ", ".join(s(x) if isinstance(x, (Term, tuple)) else str(x) for x in a))
