"""Index ranges.  Interval analysis with bounds relative to the number of samples S (at least 20) and of pixels P: every subscript
of an array of known shape made by a reducer with its default settings, and by the compiled kernels, is evaluated to lower and
upper bounds k*S + m*P + c, refined by the comparisons made on the way to that subscript, and must lie inside the array.  Every
division in a compiled kernel must have a divisor that those comparisons keep away from zero."""
import ast
import math
from fractions import Fraction as F

from .util import *
from ..terms import to_poly
from .shapes import Shapes, P_, S_
from . import reducers

SMIN = 20
KERNELS = ("CHECLabPy.calib.", "CHECLabPy.waveform_reducers.")
ARG = ("numpy.argmax", "numpy.argmin", "numpy.nanargmax", "numpy.nanargmin")
ROUND = ("numpy.round", "numpy.rint", "numpy.around", "round")
CASTS = ("int", "numpy.int64", "numpy.int32", "numpy.intp", "numpy.int_", "numpy.trunc", "math.trunc")
FLOOR = ("math.floor", "numpy.floor", "floor")
CEIL = ("math.ceil", "numpy.ceil", "ceil")


def run(ctx):
    P = ctx.P
    seen, calls = {}, []
    base, classes = reducers.classes(ctx)
    for cls in classes:
        if cls.is_abstract() if hasattr(cls, "is_abstract") else False:
            continue
        with ctx.section("reducer:%s" % cls.name):
            reducer(ctx, cls, seen, calls)
    for q, f in sorted(P.funcs.items()):
        if q.startswith(KERNELS) and f.cls is None and f.deco("njit", "jit", "guvectorize", "vectorize") and kernel_shapes(f) is not None:
            with ctx.section("kernel:%s" % q):
                kernel(ctx, f, seen, calls)
    for key, (verdicts, what, where, why, path) in sorted(seen.items()):
        v = False if False in verdicts else None if None in verdicts else True
        ctx.judge(key, v, what, why or what, where, path)
    ctx.assumptions.append("events have at least %d samples, the number the reducer was made for; waveforms are finite; built-in window settings" % SMIN)


# ------------------------------------------------------------------ what is analysed
def reducer(ctx, cls, seen, calls):
    I = ctx.interp()
    I.trace = True
    kw = [(n, param(n)) for n in reducers.kwnames(cls) if n in ("reference_pulse_path", "mapping")]
    built = [(st, r) for st, r in I.build(cls, [param("n_pixels"), param("n_samples")], kw)
             if "process" not in st.heap[r].attrs]
    wf = param("waveforms")
    env = {wf: (P_, S_), param("n_pixels"): P_, param("n_samples"): S_}
    for p, ref in reducers.prepared(ctx, cls, I, wf, built):
        check(ctx, cls.name, p, env, seen, calls=calls)
        if p.kind != "return":
            continue
        for n, f in reducers.all_columns(ctx, cls).items():
            for q in ctx.count(I.run(f, cls=cls, st=reducers.fresh(p.st), self_v=ref)):
                check(ctx, cls.name, q, env, seen, calls=calls)


def kernel_shapes(f):
    """parameter shapes of a kernel that is analysed on its own"""
    a = [x.arg for x in f.node.args.args]
    if f.deco("guvectorize"):
        for d in f.node.decorator_list:
            for x in getattr(d, "args", ()):
                if isinstance(x, ast.Constant) and isinstance(x.value, str) and "->" in x.value:
                    parts = x.value.replace(" ", "").replace("->", ",").replace("),(", ")|(").split("|")
                    if len(parts) == len(a):
                        return {n: tuple(S_ for c in s.strip("()").split(",") if c) or (() if i < len(a) - 1 else (const(1),)) for i, (n, s) in enumerate(zip(a, parts))}
        return None
    sigs = []
    for d in f.node.decorator_list:
        for x in ast.walk(d):
            if isinstance(x, ast.Tuple) or isinstance(x, ast.Call) and x is not d and isinstance(x.func, ast.Subscript):
                sigs.append(x.elts if isinstance(x, ast.Tuple) else x.args)
    for s in sigs:
        if len(s) == len(a) and all(isinstance(x, (ast.Subscript, ast.Name)) for x in s):
            n = [0 if isinstance(x, ast.Name) else len(x.slice.elts) if isinstance(x.slice, ast.Tuple) else 1 for x in s]
            if 2 in n and set(n) <= {2, 1}:
                return {k: (P_, S_) if d == 2 else (P_,) for k, d in zip(a, n)}
    return None


def kernel(ctx, f, seen, calls):
    shapes = kernel_shapes(f)
    I = ctx.interp()
    I.trace = True
    env = {param(k): v for k, v in shapes.items()}
    pre = peaks(f, shapes, calls)
    for p in ctx.run(f, I, args={k: param(k) for k in shapes}):
        check(ctx, f.name, p, env, seen, pre)


def peaks(f, shapes, calls):
    """bounds of the integer arguments: every call of an element-wise kernel passes the position of an extremum along the samples"""
    out = {}
    for k in shapes:
        if shapes[k] == ():
            args = [a for q, n, a in calls if q == f.qual and n == k]
            b = ([], [])
            if args and all(args):
                b = [(F(0), F(0), F(0), False)], [(F(1), F(0), F(-1), False)]
            out[param(k)] = b
    return out


# ------------------------------------------------------------------ obligations
def check(ctx, owner, p, env, seen, pre=None, calls=None):
    sh = Shapes(ctx.P, env)
    sh.cmp, sh.dims = {}, {}
    done = set()
    if calls is not None:
        B = Bounds(ctx, sh, (), (), {})
        for t in [p.value] + [x for e, _ in flat_events(p.events) if e.kind in ("setattr", "setitem") for x in (e.value,)]:
            for c in subterms(t) if isinstance(t, Term) else ():
                if c.op == "call" and c.args[0] in ctx.P.funcs:
                    names = [a.arg for a in ctx.P.funcs[c.args[0]].node.args.args]
                    kw = dict(zip(names, c.args[1]), **dict(c.args[2]))
                    calls += [(c.args[0], k, B.position(v)) for k, v in kw.items()]
    for e, loops in flat_events(p.events):
        if e.kind not in ("getitem", "setitem", "div") or not isinstance(e.base, Term) or e.node is None:
            continue
        k = (e.kind, e.base, e.args, e.extra, id(e.node))
        if k in done:
            continue
        done.add(k)
        B = Bounds(ctx, sh, e.extra or (), loops, pre or {})
        if e.kind == "div":
            if e.fn is None or not e.fn.deco("njit", "jit"):
                continue
            text = ast.unparse(e.node)[:80] if isinstance(e.node, ast.expr) else "division"
            key = "%s:%s:%s:division by %s" % (owner, e.fn.name, "", ast.unparse(e.node.right)[:60] if isinstance(e.node, ast.BinOp) else text)
            v = B.nonzero(e.args[0])
            note(seen, key, v, "never zero", e.loc, "the divisor %s can be zero here" % show(e.args[0])[:120], B.conds)
            continue
        dims = sh.of(plain(e.base))
        if dims is None or not e.args:
            continue
        idx = plain(e.args[0])
        idxs = list(idx.args[0]) if idx.op == "tuple" else [idx]
        if any(x.op == "const" and x.args[0] is Ellipsis for x in idxs):
            continue
        ax = 0
        for x in idxs:
            x = plain(x)
            if x is NONE:
                continue
            if ax >= len(dims):
                break
            d = dims[ax]
            ax += 1
            if d is None:
                continue
            v, why = B.index(x, d)
            if v is SKIP:
                continue
            src = ast.unparse(e.node)[:90] if isinstance(e.node, ast.expr) else "subscript"
            key = "%s:%s:%s" % (owner, e.fn.name if e.fn is not None else "?", src)
            note(seen, key, v, "inside the array", e.loc, why, B.conds)


def note(seen, key, v, what, where, why, conds):
    cur = seen.setdefault(key, [set(), what, where, None, None])
    cur[0].add(v)
    if v is not True and (cur[3] is None or v is False and cur[3][0] != "!"):
        cur[2], cur[3] = where, why
        cur[4] = " and ".join(("" if pol else "not ") + show(a)[:60] for a, pol in conds)[:300]


class SKIP:
    pass


# ------------------------------------------------------------------ bounds k*S + m*P + c
def le_all(a, b):
    """a <= b for every S >= SMIN and P >= 1 (a, b: (kS, kP, c))"""
    s, p, c = b[0] - a[0], b[1] - a[1], b[2] - a[2]
    return s >= 0 and p >= 0 and s * SMIN + p + c >= 0


def plus(x, y):
    return (x[0] + y[0], x[1] + y[1], x[2] + y[2], x[3] or y[3])


def scale(x, f):
    return (x[0] * f, x[1] * f, x[2] * f, x[3])


def prune(xs, low):
    """drop bounds implied by another one"""
    xs = list(dict.fromkeys(xs))
    out = []
    for x in xs:
        if any(y is not x and (le_all(x[:3], y[:3]) if low else le_all(y[:3], x[:3])) and (y[:3] != x[:3] or y[3]) for y in xs):
            continue
        out.append(x)
    return (out or xs[:1])[:5]


class Bounds:
    def __init__(self, ctx, sh, conds, loops, pre):
        self.ctx, self.sh, self.conds, self.loops, self.pre = ctx, sh, conds, loops, pre
        self.memo, self.depth = {}, 0
        self.cmp = []                        # (poly D, strict): D >= 0 or D > 0
        self.neq = []                        # poly D: D != 0
        for a, pol in conds:
            if (a, pol) not in sh.cmp:
                sh.cmp[a, pol] = list(self.add(a, pol))
            self.cmp += [c for c in sh.cmp[a, pol] if c[1] is not None]
            self.neq += [c[0] for c in sh.cmp[a, pol] if c[1] is None]

    def add(self, a, pol):
        """what a comparison says: (D, strict), or (D, None) for D != 0"""
        if a.op == "in" and not pol and plain(a.args[1]).op in ("tuple", "listv", "setv"):
            for x in plain(a.args[1]).args[0]:
                yield from self.add(mk("eq", a.args[0], x), False) if isinstance(x, Term) else ()
            return
        if a.op == "truth" and pol:
            a, pol = mk("eq", a.args[0], const(0)), False
        if a.op not in ("lt", "le", "eq"):
            return
        x, y = (self.dim(t) for t in a.args[:2])
        try:
            d = to_poly(sub(y, x))
        except Exception:
            return
        neg = {m: -c for m, c in d.items()}
        if a.op == "eq":
            if pol:
                yield d, False
                yield neg, False
            else:
                yield d, None
        elif a.op == "lt":
            yield (d, True) if pol else (neg, False)
        else:
            yield (d, False) if pol else (neg, True)

    def dim(self, t):
        if t not in self.sh.dims:
            self.sh.dims[t] = self.sh.dimval(t)
        return self.sh.dims[t]

    # -------------------------------------------------- linear forms
    def split(self, t):
        """(monomials without sizes, (kS, kP, c))"""
        n, k = {}, [F(0), F(0), F(0)]
        for m, c in (to_poly(t) if isinstance(t, Term) else t).items():
            c = F(c)
            if m == ():
                k[2] += c
            elif m == (S_,):
                k[0] += c
            elif m == (P_,):
                k[1] += c
            else:
                n[m] = n.get(m, F(0)) + c
        return {m: c for m, c in n.items() if c}, tuple(k)

    def isint(self, n):
        return all(c.denominator == 1 and len(m) >= 1 and all(self.int_atom(a) for a in m) for m, c in n.items())

    def int_atom(self, a):
        a = plain(a)
        if a.op in ("elem",):
            return a.args[0].op == "range"
        if a.op in ("len", "floordiv", "dim", "count"):
            return True
        if a.op == "call":
            return a.args[0] in ARG + CASTS + FLOOR + CEIL + ROUND
        if a.op == "meth":
            return a.args[1] in ("argmax", "argmin") or a.args[1] == "astype" and "int" in show(mk("tuple", tuple(a.args[2])))
        if a.op == "item":
            return self.int_atom(a.args[0])
        if a.op in ("min", "max"):
            return all(self.isint(self.split(self.dim(x))[0]) and self.split(self.dim(x))[1][2].denominator == 1 for x in self.operands(a))
        if a.op == "phi":
            ie = self.induct(a)
            return ie is not None and self.isint(self.split(ie[0])[0]) and all(F(d).denominator == 1 for d in ie[1])
        return a in self.pre

    @staticmethod
    def operands(a):
        return list(a.args[0]) if isinstance(a.args[0], tuple) else list(a.args)

    def of(self, t):
        """(lower bounds, upper bounds)"""
        t = self.dim(plain(t)) if isinstance(t, Term) else t
        if t in self.memo:
            return self.memo[t]
        if self.depth > 12:
            return [], []
        self.depth += 1
        try:
            r = self._of(t)
        finally:
            self.depth -= 1
        self.memo[t] = r
        return r

    def _of(self, t):
        n, k = self.split(t)
        return self.shift(self.linear(n), k)

    @staticmethod
    def shift(b, k):
        return [plus(x, k + (False,)) for x in b[0]], [plus(x, k + (False,)) for x in b[1]]

    def linear(self, n):
        zero = (F(0), F(0), F(0), False)
        if not n:
            return [zero], [zero]
        key = tuple(sorted(((m, c) for m, c in n.items()), key=lambda x: str(x)))
        if ("lin", key) in self.memo:
            return self.memo["lin", key]
        self.memo["lin", key] = ([], [])
        lo, hi = [zero], [zero]
        for m, c in n.items():
            al, ah = self.atom(m[0]) if len(m) == 1 else ([], [])
            if len(n) > 1 and len(m) == 1:
                al, ah = self.linear({m: F(1)})
            if c < 0:
                al, ah = ah, al
            lo = prune([plus(x, scale(y, c)) for x in lo for y in al], True) if lo and al else []
            hi = prune([plus(x, scale(y, c)) for x in hi for y in ah], False) if hi and ah else []
        # a loop variable and the ends of its range may cancel
        if len(n) > 1:
            for m, c in n.items():
                e = plain(m[0])
                if len(m) == 1 and e.op == "elem" and e.args[0].op == "range":
                    x, y, s = (plain(z) for z in e.args[0].args)
                    if is_const(s) and isinstance(s.args[0], int):
                        ends = (x, add(y, const(-1))) if s.args[0] > 0 else (add(y, const(1)), x)
                        for end, low in zip(ends, (c > 0, c <= 0)):
                            d = {q: v for q, v in n.items() if q != m}
                            for q, v in to_poly(self.dim(end)).items():
                                d[q] = d.get(q, F(0)) + c * v
                            rn, rk = self.split({q: v for q, v in d.items() if v})
                            if len(rn) < len(n):
                                b = self.shift(self.linear(rn), rk)
                                if low:
                                    lo = prune(lo + b[0], True)
                                else:
                                    hi = prune(hi + b[1], False)
        # the comparisons made on the way here
        first = sorted(n, key=str)[0]
        whole = self.isint(n)
        for d, strict in self.cmp:
            dn, dk = self.split(d)
            if set(dn) != set(n):
                continue
            f = dn[first] / n[first]
            if any(dn[m] != f * n[m] for m in n):
                continue
            # f * N + dk (>|>=) 0
            b = tuple(-x / f for x in dk) + (strict,)
            if whole:
                b = self.tight(b, f > 0)
            (lo if f > 0 else hi).append(b)
        if whole:
            lo, hi = [self.tight(b, True) for b in lo], [self.tight(b, False) for b in hi]
            for _ in range(3):
                for d in self.neq:
                    dn, dk = self.split(d)
                    if set(dn) == set(n) and all(dn[m] * n[first] == dn[first] * n[m] for m in n):
                        v = tuple(-x * n[first] / dn[first] for x in dk)
                        lo = [plus(b, (F(0), F(0), F(1), False)) if b[:3] == v else b for b in lo]
                        hi = [plus(b, (F(0), F(0), F(-1), False)) if b[:3] == v else b for b in hi]
        r = (prune(lo, True) if lo else [], prune(hi, False) if hi else [])
        self.memo["lin", key] = r
        return r

    @staticmethod
    def tight(b, low):
        """bound of an integer"""
        if b[0].denominator != 1 or b[1].denominator != 1:
            return b
        c = b[2]
        if low:
            c = F(math.floor(c) + 1) if b[3] else F(math.ceil(c))
        else:
            c = F(math.ceil(c) - 1) if b[3] else F(math.floor(c))
        return (b[0], b[1], c, False)

    # -------------------------------------------------- atoms
    def atom(self, a):
        a = plain(a)
        if a in self.pre:
            return self.pre[a]
        if a.op == "elem" and a.args[0].op == "range":
            x, y, s = (plain(z) for z in a.args[0].args)
            if not (is_const(s) and isinstance(s.args[0], int)):
                return [], []
            xl, xh = self.of(x)
            yl, yh = self.of(y)
            if s.args[0] > 0:
                return xl, [plus(b, (F(0), F(0), F(-1), False)) for b in yh]
            return [plus(b, (F(0), F(0), F(1), False)) for b in yl], xh
        if a.op == "item":
            b = plain(a.args[0])
            if b.op in ("call", "meth") and self.arg_axis(b) is not None:
                return self.atom(b)
            return [], []
        d = self.arg_axis(a)
        if d is not None:
            n = self.length(d)
            if n is None:
                return [(F(0), F(0), F(0), False)], []
            return [(F(0), F(0), F(0), False)], [plus(b, (F(0), F(0), F(-1), False)) for b in self.of(n)[1]]
        if a.op == "len":
            return [(F(0), F(0), F(0), False)], []
        if a.op == "floordiv":
            x, y = a.args[:2]
            if is_const(y) and isinstance(y.args[0], int) and y.args[0] > 0:
                lo, hi = self.of(x)
                c = F(1, y.args[0])
                return [plus(scale(b, c), (F(0), F(0), c - 1, False)) for b in lo], [scale(b, c) for b in hi]
            return [], []
        if a.op == "mod":
            lo, hi = self.of(a.args[1])
            if any(le_all((F(0), F(0), F(1)), b[:3]) for b in lo):
                return [(F(0), F(0), F(0), False)], [b[:3] + (True,) for b in hi]
            return [], []
        if a.op in ("min", "max"):
            return self.minmax(a.op, self.operands(a))
        if a.op == "abs":
            lo, hi = self.of(a.args[0])
            return [(F(0), F(0), F(0), False)] + [b for b in lo], []
        if a.op == "call":
            n, xs = a.args[0], list(a.args[1]) + [v for _, v in a.args[2]]
            if n in ("min", "max", "numpy.minimum", "numpy.maximum", "numpy.fmin", "numpy.fmax"):
                return self.minmax("max" if "max" in n else "min", xs)
            if n == "numpy.clip" and len(xs) >= 3:
                kw = dict(a.args[2])
                pos = list(a.args[1])
                for nm, v in zip(("a", "a_min", "a_max"), pos):
                    kw.setdefault(nm, v)
                x, l, u = kw.get("a"), kw.get("a_min"), kw.get("a_max")
                b = self.of(x)
                if l is not None and plain(l) is not NONE:
                    b = self.combine("max", [b, self.of(l)])
                if u is not None and plain(u) is not NONE:
                    b = self.combine("min", [b, self.of(u)])
                return b
            if xs and n in ROUND + CASTS + FLOOR + CEIL:
                return self.whole("round" if n in ROUND else "trunc" if n in CASTS else "floor" if n in FLOOR else "ceil", xs[0])
        if a.op == "meth" and a.args[1] in ("astype", "item", "copy"):
            if a.args[1] == "astype" and "int" in show(mk("tuple", tuple(a.args[2]))):
                return self.whole("trunc", a.args[0])
            return self.of(a.args[0])
        if a.op == "meth" and a.args[1] == "round":
            return self.whole("round", a.args[0])
        if a.op == "phi":
            ie = self.induct(a)
            if ie is not None:
                lo, hi = self.of(ie[0])
                return (lo if all(d >= 0 for d in ie[1]) else []), (hi if all(d <= 0 for d in ie[1]) else [])
        return [], []

    def induct(self, a):
        """(initial value, steps) of a variable a loop changes by constants"""
        for e, bp in self.loops:
            if a in (e.inits or {}):
                steps = []
                for q in e.paths:
                    v = q.ends.get(a, a)
                    d = to_poly(sub(v, a))
                    if any(m != () for m in d):
                        return None
                    steps.append(d.get((), 0))
                return e.inits[a], steps
        return None

    def minmax(self, op, xs):
        if len(xs) == 1 and plain(xs[0]).op in ("listv", "tuple"):
            return [], []
        return self.combine(op, [self.of(x) for x in xs])

    @staticmethod
    def combine(op, bs):
        los, his = [b[0] for b in bs], [b[1] for b in bs]
        if op == "max":
            return prune([x for l in los for x in l], True) if any(los) else [], Bounds.worst(his, False)
        return Bounds.worst(los, True), prune([x for h in his for x in h], False) if any(his) else []

    @staticmethod
    def worst(sets, low):
        """bounds implied by every set"""
        if any(not s for s in sets):
            return []
        out = []
        for s in sets:
            for x in s:
                if all(any(le_all(x[:3], y[:3]) if low else le_all(y[:3], x[:3]) for y in t) for t in sets):
                    out.append(x[:3] + (False,))
        return prune(out, low) if out else []

    def whole(self, how, x):
        lo, hi = self.of(x)
        h = F(1, 2)
        L, H = [], []
        for b in lo:
            if b[0].denominator != 1 or b[1].denominator != 1:
                b = b[:3] + (False,)
            c = b[2]
            if how == "round":
                c = F(math.ceil(c - h))
            elif how == "ceil":
                c = F(math.floor(c) + 1) if b[3] else F(math.ceil(c))
            elif how == "floor" or how == "trunc":
                neg = not le_all((F(0), F(0), F(0)), b[:3])
                c = F(math.ceil(c)) if how == "trunc" and neg else F(math.floor(c))
            L.append((b[0], b[1], c, False))
        for b in hi:
            c = b[2]
            if how == "round":
                c = F(math.floor(c + h))
            elif how == "ceil":
                c = F(math.ceil(c))
            else:
                pos = le_all((F(0), F(0), F(1)), b[:3])
                if how == "trunc" and not pos:
                    c = F(math.ceil(c))
                else:
                    c = F(math.ceil(c) - 1) if b[3] else F(math.floor(c))
            H.append((b[0], b[1], c, False))
        return L, H

    def arg_axis(self, a):
        """dimension an argmax result indexes, if a is one"""
        if a.op == "call" and a.args[0] in ARG:
            kw = dict(a.args[2])
            pos = list(a.args[1])
            x = kw.get("a", pos[0] if pos else None)
            axis = kw.get("axis", pos[1] if len(pos) > 1 else NONE)
        elif a.op == "meth" and a.args[1] in ("argmax", "argmin"):
            x = a.args[0]
            kw = dict(a.args[3])
            axis = kw.get("axis", a.args[2][0] if a.args[2] else NONE)
        else:
            return None
        s = self.sh.of(plain(x)) if x is not None else None
        if s is None:
            return None
        axis = plain(axis)
        if axis is NONE:
            return s[0] if len(s) == 1 else None
        if is_const(axis) and isinstance(axis.args[0], int) and -len(s) <= axis.args[0] < len(s):
            return s[axis.args[0]]
        return None

    def length(self, d):
        """term for the length along a dimension"""
        if d is None:
            return None
        d = plain(d)
        if d.op in ("rev", "gather"):
            return self.length(d.args[0])
        if d.op == "sl":
            a, b, c = d.args[1].args
            n = self.length(d.args[0])
            if n is None or c is not NONE and c is not const(1):
                return None
            lo = const(0) if a is NONE else self.norm(a, n)
            hi = n if b is NONE else self.norm(b, n)
            if lo is None or hi is None:
                return None
            # a slice that reaches beyond the end is cut there
            if not any(le_all(x[:3], y[:3]) for x in self.of(hi)[1] for y in self.of(n)[0]):
                hi = mk("min", (hi, n))
            return sub(hi, lo)
        return d

    @staticmethod
    def norm(x, n):
        x = plain(x)
        if is_const(x):
            if not isinstance(x.args[0], int):
                return None
            return add(n, x) if x.args[0] < 0 else x
        return x

    # -------------------------------------------------- verdicts
    def at_least(self, t, c):
        return any(le_all((F(0), F(0), F(c)), b[:3]) for b in self.of(t)[0])

    def at_most(self, t, u):
        return any(b[0] >= 0 and le_all((F(0), F(0), F(0)), b[:3]) for b in self.of(sub(u, t))[0]) or \
            any(le_all(x[:3], y[:3]) for x in self.of(t)[1] for y in self.of(u)[0])

    def index(self, x, d):
        n = self.length(d)
        if n is None:
            return SKIP, ""
        sample = contains(n, lambda y: y is S_)
        if x.op == "slice":
            a, b, c = (plain(y) for y in x.args)
            if c is not NONE and c is not const(1) or not sample:
                return SKIP, ""
            out = []
            for y, edge in ((a, "start"), (b, "end")):
                if y is NONE:
                    continue
                if is_const(y):
                    v = isinstance(y.args[0], int) and self.at_most(const(abs(y.args[0])), n)
                    out.append((v, "%s %s lies outside short waveforms" % (edge, show(y))))
                    continue
                out.append((self.verdict(self.at_least(y, 0), y), "the window's %s %s can be negative" % (edge, show(y)[:100])))
                out.append((self.verdict(self.at_most(y, n), y), "the window's %s %s can lie beyond the last sample" % (edge, show(y)[:100])))
            if a is not NONE and b is not NONE and not (is_const(a) and is_const(b)):
                out.append((self.verdict(self.at_most(a, b), sub(b, a)), "the window %s to %s can be empty or reversed" % (show(a)[:60], show(b)[:60])))
            return self.worst_of(out)
        if is_const(x):
            if not isinstance(x.args[0], int) or isinstance(x.args[0], bool) or not sample:
                return SKIP, ""
            i = x.args[0]
            ok = self.at_most(const(i + 1 if i >= 0 else -i), n)
            return (True if ok else False), "index %d lies outside short waveforms" % i
        s = self.sh.of(x)
        if s is None and not self.intlike(x):
            return SKIP, ""
        if s not in ((), None) and not self.arg_axis_any(x):
            return SKIP, ""
        lo, hi = self.at_least(x, 0), self.at_most(add(x, const(1)), n)
        return self.worst_of([(self.verdict(lo, x), "index %s can be negative" % show(x)[:120]),
                              (self.verdict(hi, x), "index %s can lie beyond the end" % show(x)[:120])])

    def position(self, x):
        """is this the position of an extremum along the samples"""
        x = plain(x)
        while x.op == "item":
            x = plain(x.args[0])
        d = self.arg_axis(x)
        return d is not None and plain(d) is S_

    def arg_axis_any(self, x):
        return any(y.op in ("call", "meth") and self.arg_axis(y) is not None for y in subterms(x))

    def intlike(self, x):
        n, k = self.split(self.dim(x))
        return bool(n) and k[2].denominator == 1 and self.isint(n)

    @staticmethod
    def worst_of(out):
        for want in (False, None):
            for v, why in out:
                if v is want or (want is False and v is False):
                    return v, why
        return (True, "") if out else (SKIP, "")

    def verdict(self, proved, t):
        if proved:
            return True
        n, _ = self.split(self.dim(t))
        for m in n:
            for a in m:
                if not self.known(a):
                    return None
        # a comparison about part of this index that the bounds cannot use
        for d, _ in self.cmp:
            dn, _k = self.split(d)
            if set(dn) & set(n) and not all(m in n for m in dn):
                return None
            if set(dn) & set(n) and len(dn) > 1 and len(dn) < len(n):
                return None
        return False

    def known(self, a, depth=0):
        """is every operation of this value one the bounds understand (values of samples and parameters are free)"""
        a = plain(a)
        if depth > 14:
            return False
        if is_const(a) or a in (S_, P_):
            return True
        if a.op == "elem":
            return a.args[0].op == "range" and all(self.known(x, depth + 1) for x in a.args[0].args)
        if a.op == "poly":
            return all(self.known(x, depth + 1) for m, _ in a.args[0] for x in m)
        if a.op in ("inv", "floordiv", "mod", "abs"):
            return all(self.known(x, depth + 1) for x in a.args if isinstance(x, Term))
        if a.op in ("min", "max"):
            return all(self.known(x, depth + 1) for x in self.operands(a))
        if self.arg_axis(a) is not None:
            return self.length(self.arg_axis(a)) is not None
        if a.op == "call":
            return a.args[0] in ROUND + CASTS + FLOOR + CEIL + ("min", "max", "numpy.clip", "numpy.minimum", "numpy.maximum", "numpy.mean") and \
                (a.args[0] == "numpy.mean" or all(self.known(x, depth + 1) for x in list(a.args[1]) + [v for _, v in a.args[2]]))
        if a.op == "meth":
            return a.args[1] in ("astype", "item", "round") and self.known(a.args[0], depth + 1)
        if a.op == "item":
            s = self.sh.of(a)
            return s == () and (self.arg_axis(plain(a.args[0])) is not None or self.data(a.args[0]))
        if a.op == "param":
            return True
        if a.op == "phi":
            ie = self.induct(a)
            return ie is not None and self.known(self.dim(ie[0]), depth + 1)
        return False

    def data(self, t):
        """samples of an event or entries of an argument"""
        t = plain(t)
        while t.op in ("item", "slice") or t.op == "meth" and t.args[1] == "copy" or t.op == "call" and t.args[0] in ("numpy.copy", "numpy.array", "numpy.asarray"):
            t = plain(t.args[0] if t.op != "call" else (list(t.args[1]) + [v for _, v in t.args[2]])[0])
        return t.op == "param"

    def nonzero(self, t):
        t = self.dim(plain(t))
        if is_const(t):
            return bool(t.args[0])
        d = to_poly(t)
        neg = {m: -c for m, c in d.items()}
        if set(d) == {()}:
            return d[()] != 0
        lo, hi = self.of(t)
        if any(le_all((F(0), F(0), F(0)), b[:3]) and (b[3] or not le_all(b[:3], (F(0), F(0), F(0)))) and (b[3] or le_all((F(0), F(0), F(1, 10**6)), b[:3])) for b in lo):
            return True
        if any(le_all(b[:3], (F(0), F(0), F(0))) and (b[3] or le_all(b[:3], (F(0), F(0), F(-1, 10**6)))) for b in hi):
            return True
        for a, pol in self.conds:
            if a.op == "eq" and not pol:
                e = to_poly(sub(self.dim(a.args[1]), self.dim(a.args[0])))
                if self.prop(e, d):
                    return True
        for i, (x, s) in enumerate(self.cmp):
            if s and (self.prop(x, d)):
                return True
            for y, r in self.cmp[i + 1:]:
                if (s or r):
                    z = {m: F(x.get(m, 0)) + F(y.get(m, 0)) for m in set(x) | set(y)}
                    z = {m: c for m, c in z.items() if c}
                    if z and self.prop(z, d):
                        return True
        if any(a.op == "truth" and pol and self.dim(a.args[0]) is t for a, pol in self.conds):
            return True
        n, _ = self.split(t)
        if all(self.known(a) for m in n for a in m):
            return False
        return None

    @staticmethod
    def prop(x, d):
        if set(x) != set(d):
            return False
        k = next(iter(d))
        f = F(x[k]) / F(d[k])
        return all(F(x[m]) == f * F(d[m]) for m in d)
