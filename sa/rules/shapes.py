"""Symbolic shape inference.  A shape is a tuple of dimension terms, () for a scalar, None if not known.
A dimension also carries order: reversed, gathered, strided or tiled variants of P are other dimensions."""
import ast
from .util import *
from ..terms import to_poly

P_, S_ = mk("dim", "P"), mk("dim", "S")
ELEMENTWISE = {"numpy." + x for x in (
    "abs", "exp", "log", "log10", "sqrt", "square", "sign", "floor", "ceil", "rint", "round", "around", "isnan",
    "isfinite", "isinf", "nan_to_num", "negative", "copy", "asarray", "ascontiguousarray", "asanyarray", "zeros_like",
    "ones_like", "empty_like", "full_like", "cumsum", "gradient", "clip", "fabs", "invert", "logical_not", "array",
    "asfortranarray", "cumprod", "float64", "float32", "int64", "int32", "sin", "cos", "tan")} | {"sqrt", "abs", "int", "float", "bool"}
BROADCAST = {"numpy." + x for x in (
    "maximum", "minimum", "fmax", "fmin", "hypot", "arctan2", "logical_and", "logical_or", "where", "add", "subtract",
    "multiply", "divide", "power", "logical_xor", "copysign", "float_power")} | {"max", "min"}
REDUCE = {"numpy." + x for x in (
    "mean", "sum", "std", "var", "max", "min", "argmax", "argmin", "any", "all", "median", "prod", "nanmean", "nansum",
    "nanmax", "nanmin", "nanstd", "average", "ptp", "count_nonzero", "nanmedian", "percentile", "quantile", "trapz",
    "nanargmax", "nanargmin")}
SAMESHAPE_EXT = {"scipy.ndimage.correlate1d", "scipy.ndimage.convolve1d", "scipy.ndimage.gaussian_filter1d",
                 "scipy.ndimage.uniform_filter1d", "scipy.ndimage.maximum_filter1d", "scipy.ndimage.minimum_filter1d",
                 "scipy.ndimage.gaussian_filter", "scipy.ndimage.shift", "scipy.signal.detrend",
                 "ctapipe.image.extractor.neighbor_average_waveform"}
GUFUNC_EXT = {"ctapipe.image.extractor.sum_samples_around_peak": ("(s),(),(),()->()", 4),
              "ctapipe.image.extractor.extract_around_peak": ("(s),(),(),()->(),()", 4),
              "ctapipe.image.extractor.extract_pulse_time_around_peak": ("(s),(),(),()->()", 4)}
EXTRACTORS = {"LocalPeakWindowSum", "NeighborPeakWindowSum", "GlobalPeakWindowSum", "SlidingWindowMaxSum"}


BOOLEAN = {"numpy." + x for x in ("isnan", "isfinite", "isinf", "logical_and", "logical_or", "logical_not", "logical_xor", "isclose", "signbit", "in1d", "isin")}
SELECT = {"numpy.flatnonzero", "numpy.argwhere", "numpy.unique", "numpy.extract", "numpy.compress", "numpy.trim_zeros"}


def is_mask(t):
    t = plain(t)
    return t.op in ("lt", "le", "eq", "invert", "not", "truth") or t.op in ("bitor", "bitand", "and", "or") and all(is_mask(x) for x in t.args if isinstance(x, Term)) \
        or t.op == "call" and t.args[0] in BOOLEAN


class Mismatch(Exception):
    pass


def fmt(s):
    if s is None:
        return "?"
    return "(" + ", ".join("?" if d is None else d.args[0] if d.op == "dim" else show(d) for d in s) + ")"


class Shapes:
    def __init__(self, prog, env):
        self.p, self.env, self.memo = prog, dict(env), {}
        self.notes = []

    # ---------------------------------------------------------------- dims
    def dimval(self, t):
        """the dimension meant by an integer term"""
        t = rewrite(plain(t), self._dimrw)
        return t

    def _dimrw(self, x):
        if x.op == "item" and x.args[0].op == "attr" and x.args[0].args[1] == "shape" and is_const(x.args[1]):
            s = self.of(x.args[0].args[0])
            i = x.args[1].args[0]
            if s is not None and isinstance(i, int) and -len(s) <= i < len(s) and s[i] is not None:
                return s[i]
        if x.op == "len":
            s = self.of(x.args[0])
            if s and s[0] is not None:
                return s[0]
        if x.op == "attr" and x.args[1] == "size":
            s = self.of(x.args[0])
            if s is not None and all(d is not None for d in s):
                r = const(1)
                for d in s:
                    r = mul(r, d)
                return r
        if x in self.env and isinstance(self.env[x], Term):
            return self.env[x]
        return None

    @staticmethod
    def norm(d):
        """k * (P // k) counts as P: the number of pixels is a multiple of the superpixel size"""
        if d is None:
            return None
        for m, c in to_poly(d).items():
            if len(to_poly(d)) == 1 and len(m) == 1 and m[0].op == "floordiv" and c == c.__class__(int(c)) \
                    and is_const(m[0].args[1]) and m[0].args[1].args[0] == int(c):
                return m[0].args[0]
        return d

    def merge_dim(self, a, b, what):
        if a is None:
            return b
        if b is None:
            return a
        if a is b:
            return a
        if a is const(1):
            return b
        if b is const(1):
            return a
        if self._known(a) and self._known(b):
            raise Mismatch("%s: %s against %s" % (what, fmt((a,)), fmt((b,))))
        return None

    @staticmethod
    def _known(d):
        if d.op == "sl":
            a, b, c = d.args[1].args
            return Shapes._known(d.args[0]) and (is_const(a) and a is not NONE and a is not const(0)
                                                 or b is NONE and contains(a, lambda x: x.op == "call") or is_const(b) and b is not NONE)
        return all(x.op in ("dim", "const", "poly", "floordiv", "sl", "rev", "strided", "tiled", "inv", "slice", "gather")
                   for x in subterms(d) if x.op != "slice") and not contains(d, lambda x: x.op in ("call", "param", "meth"))

    def broadcast(self, shapes, what):
        if any(s is None for s in shapes):
            return None
        n = max([len(s) for s in shapes] or [0])
        out = []
        for i in range(1, n + 1):
            d = const(1)
            unknown = False
            for s in shapes:
                if i <= len(s):
                    if s[-i] is None:
                        unknown = True
                    d = self.merge_dim(d, s[-i], what)
            if unknown and d is const(1):
                d = None
            out.append(d)
        return tuple(reversed(out))

    # ---------------------------------------------------------------- terms
    def of(self, t):
        if t in self.memo:
            return self.memo[t]
        self.memo[t] = None
        r = self._of(t)
        self.memo[t] = r
        return r

    def _of(self, t):
        if t in self.env and isinstance(self.env[t], tuple):
            return self.env[t]
        op = t.op
        if op == "const":
            return ()
        if op in ("newarr", "mutated", "filled"):
            return self.of(t.args[0])
        if op == "poly":
            ss = []
            for m, _ in t.args[0]:
                for a in m:
                    ss.append(self.of(a.args[0] if a.op == "inv" else a))
            return self.broadcast(ss, "arithmetic")
        if op in ("inv", "not", "truth", "invert"):
            return self.of(t.args[0])
        if op in ("lt", "le", "eq", "bitor", "bitand", "floordiv", "mod", "pow", "and", "or", "mul"):
            return self.broadcast([self.of(a) for a in t.args if isinstance(a, Term)], "operation")
        if op == "kwget":
            return ()
        if op == "len":
            return ()
        if op == "ite":
            s = [self.of(x) for x in t.args[1:] if isinstance(x, Term)]
            return s[0] if s and all(x == s[0] for x in s) else None
        if op == "attr":
            b, n = t.args
            if n == "size" or n == "ndim":
                return ()
            if n == "T":
                s = self.of(b)
                return None if s is None else tuple(reversed(s))
            if n in ("real", "imag", "values"):
                return self.of(b)
            return None
        if op == "item":
            return self._item(t.args[0], t.args[1])
        if op == "elem":
            s = self.of(t.args[0])
            if t.args[0].op == "range":
                return ()
            return None if s is None or not s else s[1:]
        if op == "comp" or op == "listv":
            return self._list(t)
        if op == "tuple":
            return self._list(mk("listv", tuple(("item", x) for x in t.args[0])))
        if op == "meth":
            return self._meth(*t.args)
        if op == "call":
            return self._call(*t.args)
        if op == "callv":
            return self._callv(*t.args)
        if op == "fold" or op == "sumcomp":
            return None
        return None

    def _list(self, t):
        if t.op == "listv":
            inner = [self.of(x[1]) for x in t.args[0] if x[0] == "item"]
            if len(inner) != len(t.args[0]):
                return None
            if inner and all(i is not None for i in inner) and all(i == inner[0] for i in inner):
                return (const(len(inner)),) + inner[0]
            return (const(len(inner)), None) if False else None
        # a comprehension without filter over the rows of an array
        it, depth, alts = t.args[0], t.args[1], t.args[2]
        if it.op == "enumerate":
            it = it.args[0]
        if any(len([x for x in its if x[0] == "item"]) != 1 or len(its) != 1 for _, its in alts):
            return None
        if len(alts) == 1 and alts[0][0] != ((),) and alts[0][0] != ():
            return None
        if it.op == "range":
            a = it.args
            d = self.dimval(a[1]) if a[0] is const(0) and a[2] is const(1) else None
        else:
            s = self.of(it)
            d = s[0] if s else None
        return (d, None) if d is not None else None

    def _item(self, b, i):
        if b.op == "kwget" or b.op == "param" and b not in self.env:
            return ()
        if b.op == "rest":
            return ()
        if b.op == "attr" and b.args[1] == "shape":
            return ()
        if b.op == "callv" and is_const(i):
            r = self._callv(*b.args, sel=i.args[0])
            if r is not None:
                return r
        c = plain(b)
        if c.op == "call" and c.args[0] in ("numpy.where", "numpy.nonzero") and is_const(i) and len(c.args[1]) + len(c.args[2]) == 1:
            return (mk("count", NONE, c),)
        s = self.of(b)
        idx = list(i.args[0]) if i.op == "tuple" else [i]
        if s is None:
            return None
        if len(s) == 0 and b.op not in ("call", "meth", "newarr", "poly"):
            return ()
        out, k = [], 0
        n_eat = sum(1 for x in idx if not (x is NONE) and cval(x, 0) is not Ellipsis)
        fancy, fpos = [], None
        for x in idx:
            if x is NONE:
                out.append(const(1))
                continue
            if cval(x, 0) is Ellipsis:
                m = len(s) - n_eat
                out.extend(s[k:k + m])
                k += m
                continue
            if k >= len(s):
                return None
            d = s[k]
            k += 1
            if x.op == "slice":
                out.append(self._slice(d, x))
                continue
            if is_const(x):
                continue
            xs = self.of(x)
            if xs is None:
                return None
            if is_mask(x):
                if len(xs) > 1 and len(idx) == 1 and len(xs) <= len(s):
                    return (mk("count", d, plain(x)),) + tuple(s[len(xs):])
                if len(xs) != 1:
                    return None
                out.append(mk("count", d, plain(x)))
                continue
            if xs == ():
                continue
            if fpos is None:
                fpos = len(out)
            fancy.append((d, x, xs))
        out.extend(s[k:])
        if fancy:
            shp = self.broadcast([xs for _, _, xs in fancy], "index arrays")
            if shp is None:
                return None
            d0, x0, _ = fancy[0]
            r = plain(x0)
            ident = r.op == "call" and r.args[0] == "numpy.arange" and len(r.args[1]) == 2 and r.args[1][0] is const(0) \
                and self.dimval(r.args[1][1]) is d0
            if len(shp) == 1 and not ident:
                if len(fancy) == 1 and d0 is not P_:
                    pass
                else:
                    shp = (mk("gather", shp[0] if shp[0] is not None else NONE, r),)
            out[fpos:fpos] = list(shp)
        return tuple(out)

    def _slice(self, d, x):
        a, b, c = x.args
        if d is None:
            return None
        if c is NONE or c is const(1):
            if (a is NONE or a is const(0)) and b is NONE:
                return d
            if b is not NONE and (a is NONE or a is const(0)) and self.dimval(b) is d:
                return d
            return mk("sl", d, x)
        if is_const(c) and c.args[0] == -1 and a is NONE and b is NONE:
            return mk("rev", d)
        return mk("sl", d, x)

    def reduce(self, s, axis, keep=False):
        if s is None:
            return None
        if axis is None or axis is NONE:
            return () if not keep else tuple(const(1) for _ in s)
        ax = axis.args[0] if axis.op == "tuple" else (axis,)
        if not all(is_const(a) and isinstance(a.args[0], int) for a in ax):
            return None
        n = len(s)
        nums = {a.args[0] % n if -n <= a.args[0] < n else n for a in ax} if n else {0}
        if n in nums or n == 0:
            raise Mismatch("axis %s of an array of shape %s" % (show(axis), fmt(s)))
        return tuple(const(1) if i in nums else d for i, d in enumerate(s) if keep or i not in nums)

    def _call(self, n, a, k):
        kd = dict(k)
        src = kd.get("a", kd.get("object", kd.get("y", a[0] if a else None)))
        if n in ELEMENTWISE:
            return self.of(src) if src is not None else None
        if n in REDUCE:
            s = self.of(src) if src is not None else None
            if n == "numpy.trapz" and "axis" not in kd:
                kd["axis"] = const(-1)
            ax = kd.get("axis", a[1] if len(a) > 1 and n not in ("numpy.percentile", "numpy.quantile") else None)
            if "weights" in kd and s is not None and kd["weights"] is not NONE:
                w = self.of(kd["weights"])
            return self.reduce(s, ax, kd.get("keepdims") is TRUE)
        if n in SELECT:
            s = self.of(src if src is not None else kd.get("ar", kd.get("arr", kd.get("filt")))) if n != "numpy.extract" else ()
            x = next((v for v in list(a) + list(kd.values()) if isinstance(v, Term)), NONE)
            c = mk("count", NONE, mk("call", n, (plain(x),), ()))
            return (c,) if n != "numpy.argwhere" else None if s is None else (c, const(len(s)))
        if n in BROADCAST:
            xs = list(a) + [v for q, v in k if q in ("condition", "x", "y", "x1", "x2")]
            if n == "numpy.where" and len(xs) < 3:
                return None
            return self.broadcast([self.of(x) for x in xs], n)
        if n in ("numpy.zeros", "numpy.ones", "numpy.empty", "numpy.full"):
            sh = kd.get("shape", a[0] if a else None)
            if sh is None:
                return None
            if sh.op == "tuple":
                return tuple(self.dimval(x) for x in sh.args[0])
            if sh.op == "attr" and sh.args[1] == "shape":
                return self.of(sh.args[0])
            return (self.dimval(sh),)
        if n == "numpy.arange" and len(a) == 2 and a[0] is const(0):
            return (self.dimval(a[1]),)
        if n == "numpy.linspace" and "num" in kd:
            return (self.dimval(kd["num"]),)
        if n == "numpy.reshape":
            return self._reshape(self.of(src), kd.get("newshape"), kd.get("order"))
        if n == "numpy.ravel" or n == "numpy.flatten":
            return self._flat(self.of(src), cval(kd.get("order", const("C"))))
        if n == "numpy.broadcast_to":
            s, sh = self.of(kd.get("array", a[0] if a else NONE)), kd.get("shape")
            if s is None or sh is None:
                return None
            dims = self._dims(sh)
            return None if dims is None else self.broadcast([s, dims], n)
        if n in ("numpy.concatenate", "numpy.hstack", "numpy.stack", "numpy.vstack", "numpy.column_stack"):
            seq = kd.get("arrays", kd.get("tup", kd.get("seq", a[0] if a else None)))
            if seq is None or seq.op not in ("listv", "tuple"):
                return None
            parts = [x[1] if isinstance(x, tuple) else x for x in seq.args[0]]
            if seq.op == "listv" and any(x[0] != "item" for x in seq.args[0]):
                return None
            ss = [self.of(x) for x in parts]
            if not ss or any(s is None or len(s) != 1 or s[0] is None for s in ss) or any(s != ss[0] for s in ss):
                return None
            m = const(len(ss))
            ax = cval(kd.get("axis", const(0)))
            if n == "numpy.stack" or n == "numpy.vstack" or n == "numpy.column_stack":
                if n == "numpy.column_stack" or n == "numpy.stack" and ax in (1, -1):
                    return (ss[0][0], m)
                return (m, ss[0][0])
            return ss[0] if len(ss) == 1 else (mk("tiled", mul(ss[0][0], m)),)
        if n == "numpy.squeeze":
            s = self.of(src)
            if s is None or any(d is None for d in s):
                return None
            return tuple(d for d in s if d is not const(1))
        if n == "numpy.repeat":
            s = self.of(src)
            r = kd.get("repeats")
            if s is None or r is None or not is_const(r):
                return None
            if "axis" in kd:
                ax = kd["axis"]
                if not is_const(ax) or not -len(s) <= ax.args[0] < len(s):
                    return None
                i = ax.args[0] % len(s)
            elif len(s) == 1:
                i = 0
            else:
                return None
            d = s[i]
            if d is None:
                return None
            if d.op == "strided":
                d = mk("tiled", d)
            else:
                d = self.norm(mul(d, r))
            return s[:i] + (d,) + s[i + 1:]
        if n == "numpy.tile":
            s = self.of(kd.get("A", a[0] if a else None))
            r = kd.get("reps")
            if s is None or len(s) != 1 or r is None or not is_const(r) or s[0] is None:
                return None
            if s[0].op == "strided" and s[0].args[1] is r:
                return (s[0].args[0],)
            return (mk("tiled", mul(s[0], r)),)
        if n == "numpy.transpose":
            s = self.of(src)
            return None if s is None or "axes" in kd else tuple(reversed(s))
        if n == "numpy.swapaxes":
            s = self.of(src)
            return tuple(reversed(s)) if s is not None and len(s) == 2 else None
        if n == "numpy.expand_dims":
            s = self.of(src)
            ax = kd.get("axis")
            if s is None or ax is None or not is_const(ax):
                return None
            i = ax.args[0] % (len(s) + 1)
            return s[:i] + (const(1),) + s[i:]
        if n in ("numpy.sort", "numpy.argsort"):
            s = self.of(src)
            if s is None:
                return None
            ax = kd.get("axis", const(-1))
            if len(s) == 1:
                return (mk("gather", s[0], const(n)),)
            return s if is_const(ax) and ax.args[0] in (-1, len(s) - 1) else None
        if n in ("numpy.flip", "numpy.flipud", "numpy.fliplr", "numpy.roll"):
            s = self.of(src)
            if s is None:
                return None
            ax = 0 if n == "numpy.flipud" else 1 if n == "numpy.fliplr" else cval(kd.get("axis", a[1 if n == "numpy.flip" else 2]
                                                                        if len(a) > (1 if n == "numpy.flip" else 2) else NONE))
            if isinstance(ax, int) and s and -len(s) <= ax < len(s):
                ax %= len(s)
                return s[:ax] + (mk("rev", s[ax]),) + s[ax + 1:]
            return (mk("rev", s[0]),) if len(s) == 1 else None
        if n == "numpy.diff":
            return None
        if n == "numpy.take":
            return None
        if n in SAMESHAPE_EXT:
            s = self.of(a[0] if a else kd.get("input"))
            return s
        if n in GUFUNC_EXT:
            sig, m = GUFUNC_EXT[n]
            return self.gufunc(sig, list(a), n)
        fn = self.p.funcs.get(n)
        if fn is not None:
            for d in fn.node.decorator_list:
                if isinstance(d, ast.Call):
                    for x in list(d.args) + [q.value for q in d.keywords]:
                        if isinstance(x, ast.Constant) and isinstance(x.value, str) and "->" in x.value:
                            ins = [kd.get(q.arg) for q in fn.node.args.args]
                            return self.gufunc(x.value, ins, n)
                    if fn.deco("vectorize"):
                        return self.broadcast([self.of(v) for v in kd.values()], n)
        if n == "range" or n.endswith("numpy.trapz"):
            return ()
        return None

    def gufunc(self, sig, args, name):
        ins, outs = sig.replace(" ", "").split("->")
        cores = [c.strip("(") for c in ins.rstrip(")").split("),")]
        cores = [tuple(x for x in c.split(",") if x) for c in cores]
        out = [tuple(x for x in c.strip("(").split(",") if x) for c in outs.rstrip(")").split("),")]
        core, lead = {}, []
        for c, a in zip(cores, args):
            s = self.of(a) if a is not None else None
            if s is None:
                return None
            if len(s) < len(c):
                raise Mismatch("%s needs %d dimensions, got %s" % (name, len(c), fmt(s)))
            for nm, d in zip(c, s[len(s) - len(c):]):
                core[nm] = self.merge_dim(core.get(nm), d, name)
            lead.append(s[:len(s) - len(c)])
        l = self.broadcast(lead, "arguments of " + name.split(".")[-1])
        if l is None or len(out) != 1:
            return None
        return l + tuple(core.get(x) for x in out[0])

    def _callv(self, f, a, k, sel=None):
        ff = plain(f)
        if ff.op == "call" and ff.args[0].split(".")[-1] in EXTRACTORS:
            s = self.of(a[0]) if a else None
            if s is not None and len(s) >= 1 and sel in (0, 1):
                return s[:-1]
            return None
        if ff.op == "ext":
            return self._call(ff.args[0], a, k)
        if ff.op == "call" and ff.args[0].startswith("scipy.interpolate.") and len(a) == 1:
            return self.of(a[0])
        return None

    def _dims(self, sh):
        if sh.op == "tuple":
            return tuple(self.dimval(x) for x in sh.args[0])
        if sh.op == "attr" and sh.args[1] == "shape":
            return self.of(sh.args[0])
        return (self.dimval(sh),)

    def _flat(self, s, order="C"):
        """a flattened array: blocks of k values stay in pixel order only if the block index runs slowest"""
        if s is None or len(s) == 1:
            return s
        if any(d is None for d in s) or order not in ("C", "F"):
            return None
        s = tuple(d for d in s if d is not const(1)) or (const(1),)
        if order == "F":
            s = tuple(reversed(s))
        while len(s) > 1:
            a, b = s[0], s[1]
            if b.op == "strided" and b.args[1] is a:
                d = b.args[0]
            elif is_const(b):
                d = self.norm(mul(a, b))
            elif is_const(a):
                d = mk("tiled", mul(a, b))
            else:
                return None
            s = (d,) + s[2:]
        return s

    def _meth(self, b, n, a, k):
        if n in ("astype", "round", "copy", "conj", "clip", "view", "fillna"):
            return self.of(b)
        if n in ("item",):
            return ()
        if n in ("tolist",):
            return self.of(b)
        return None

    def _reshape(self, s, ns, order=None):
        if s is None or ns is None or order is not None:
            return None
        dims = list(ns.args[0]) if ns.op == "tuple" else [ns]
        dims = [self.dimval(d) for d in dims]
        if any(d is None for d in s):
            return None
        total = const(1)
        for d in s:
            total = mul(total, d)
        if len(dims) == 1 and len(s) > 1:
            r = self._flat(s)
            if cval(dims[0]) == -1 or r is None:
                return r
            return r if r[0] is dims[0] or r[0].op == "tiled" else None
        if len(dims) == 1 and cval(dims[0]) == -1:
            return s
        # match each old dimension with one or two new ones
        out, j = [], 0
        minus = [i for i, d in enumerate(dims) if cval(d) == -1]
        for i, d in enumerate(s):
            if j >= len(dims):
                return None
            e = dims[j]
            if e is d:
                out.append(d)
                j += 1
                continue
            if cval(e) == -1 and len(dims) - j == len(s) - i:
                out.append(d)
                j += 1
                continue
            if j + 1 >= len(dims):
                return None
            f = dims[j + 1]
            if is_const(f) and f.args[0] != -1:
                if cval(e) == -1 or e is mk("floordiv", d, f) or e is div(d, f) or (e.op == "call" and e.args[0] == "int"):
                    out += [mk("floordiv", d, f), f]
                    j += 2
                    continue
            if is_const(e) and e.args[0] != -1:
                if cval(f) == -1 or f is mk("floordiv", d, e):
                    out += [e, mk("strided", d, e)]
                    j += 2
                    continue
            return None
        return tuple(out) if j == len(dims) else None
