"""May-share-memory roots of a term, and the places where a path writes array storage."""
import ast
from .util import *

VIEW_ATTRS = {"T", "flat", "real", "imag", "base", "data", "values", "A", "mT", "array", "loc", "iloc", "at", "iat", "index"}
VIEW_METHS = {"reshape", "view", "ravel", "transpose", "squeeze", "swapaxes", "to_numpy", "__array__", "newbyteorder",
              "diagonal", "asanyarray", "getfield", "__getitem__", "set_index_view"}
VIEW_NP = {"numpy." + x for x in (
    "asarray", "asanyarray", "ravel", "reshape", "squeeze", "transpose", "swapaxes", "atleast_1d", "atleast_2d",
    "atleast_3d", "broadcast_to", "expand_dims", "moveaxis", "rollaxis", "flip", "fliplr", "flipud", "rot90",
    "diagonal", "split", "array_split", "ascontiguousarray", "asfortranarray", "require", "real", "imag",
    "lib.stride_tricks.as_strided", "lib.stride_tricks.sliding_window_view", "nditer", "matrix_transpose")}
JOIN = {"phi", "last", "loopval"}
UN_OUT = {"numpy." + x for x in (
    "abs", "absolute", "negative", "exp", "log", "log10", "sqrt", "square", "sign", "floor", "ceil", "trunc", "rint",
    "invert", "logical_not", "isnan", "isfinite", "sin", "cos", "tan", "fabs", "reciprocal", "positive", "cbrt",
    "exp2", "expm1", "log2", "log1p", "conj", "degrees", "radians", "deg2rad", "rad2deg")}
BIN_OUT = {"numpy." + x for x in (
    "add", "subtract", "multiply", "divide", "true_divide", "power", "mod", "remainder", "floor_divide", "maximum",
    "minimum", "fmax", "fmin", "hypot", "arctan2", "logaddexp", "greater", "less", "equal", "logical_xor", "dot",
    "float_power", "fmod", "copysign", "matmul", "bitwise_and", "bitwise_or", "bitwise_xor", "heaviside")}
OUTKW = {"out", "output"}
DUNDER = {"__setitem__", "__delitem__"} | {"__i%s__" % x for x in ("add", "sub", "mul", "truediv", "floordiv", "mod", "pow", "and", "or", "xor", "lshift", "rshift", "matmul")}
# external functions that write one of their arguments: (kind, name) -> positions
EXT_OUT = {("meth", "ApplyEvent"): (2,), ("meth", "readinto"): (0,)}


def is_view_index(i):
    if i.op == "slice":
        return True
    if i.op == "const":
        return True
    if i.op == "tuple":
        parts = i.args[0]
        if not all(is_view_index(p) or p.op in ("poly", "elem") for p in parts):
            return False
        return any(p.op == "slice" or p is NONE or cval(p, 0) is Ellipsis for p in parts)
    return i.op in ("elem", "poly", "ellipsis")


def _terms(a):
    if isinstance(a, Term):
        yield a
    elif isinstance(a, tuple):
        for x in a:
            for y in _terms(x):
                yield y


def roots(t, deep=False):
    """leaf terms whose storage t may share; deep: anything reachable counts as the root's"""
    out = set()
    todo = [t]
    seen = set()
    while todo:
        x = todo.pop()
        if not isinstance(x, Term) or x in seen:
            continue
        seen.add(x)
        op = x.op
        if op == "param":
            out.add(x)
        elif op in ("obj", "ref"):
            out.add(x)
        elif op in ("mutated", "filled"):
            todo.append(x.args[0])
        elif op == "newarr":
            continue
        elif op == "attr":
            if x.args[1] in VIEW_ATTRS or deep:
                todo.append(x.args[0])
            if x.args[1] not in VIEW_ATTRS:
                out.add(x)
        elif op == "item":
            if deep or is_view_index(x.args[1]):
                todo.append(x.args[0])
        elif op == "elem":
            todo.append(x.args[0])
        elif op in ("enumerate", "items", "values", "zip"):
            todo.extend(_terms(x.args))
        elif op in JOIN:
            todo.extend(_terms(x.args))
        elif op == "ite":
            todo.extend(_terms(x.args[1:]))
        elif op == "kwget":
            out.add(x)
            todo.extend(_terms(x.args[2:]))
        elif op == "call":
            n, a, k = x.args
            if n in VIEW_NP:
                kd = dict(k)
                src = kd.get("a", kd.get("object", a[0] if a else None))
                if kd.get("dtype") is None and src is not None:
                    todo.append(src)
                if n in ("numpy.atleast_1d", "numpy.atleast_2d", "numpy.atleast_3d"):
                    todo.extend(a)
            elif n == "numpy.array" and dict(k).get("copy") not in (None, TRUE):
                todo.extend(a[:1] or [dict(k).get("object")])
        elif op == "meth":
            b, n, a, k = x.args
            if n in VIEW_METHS or n == "astype" and dict(k).get("copy") not in (None, TRUE) \
                    or n == "copy" and dict(k).get("deep") == FALSE:
                todo.append(b)
            elif deep and n in ("get", "setdefault", "pop"):
                todo.append(b)
    return out


def out_params(prog, fn):
    """names of the output parameters of a (gu)vectorised kernel"""
    for d in fn.node.decorator_list:
        if isinstance(d, ast.Call):
            for a in list(d.args) + [k.value for k in d.keywords]:
                if isinstance(a, ast.Constant) and isinstance(a.value, str) and "->" in a.value:
                    n_in = a.value.split("->")[0].count("(")
                    return [x.arg for x in fn.node.args.args[n_in:]]
    return []


class Writes:
    """summaries of the kernels that stay calls, and the write sites of a path"""
    def __init__(self, ctx):
        self.ctx = ctx
        self.memo = {}

    def kernel(self, qual):
        fn = self.ctx.P.funcs.get(qual)
        if fn is None:
            return ()
        if qual not in self.memo:
            self.memo[qual] = ()
            names = set()
            try:
                for p in self.ctx.run(fn, self.ctx.interp()):
                    for e, t, how in self.of(p.events):
                        names |= {r.args[0] for r in roots(t) if r.op == "param"}
            except Limit:
                pass
            self.memo[qual] = tuple(sorted(names))
        return self.memo[qual]

    def of(self, events):
        """(event, written value, how)"""
        for e, _ in flat_events(events):
            k = e.kind
            if e.own and k in ("inplace", "setitem", "mut"):
                yield e, e.raw, "change of a new container"
            elif k == "inplace":
                yield e, e.base, "in-place %s" % (e.extra or "operation")
            elif k == "setitem":
                yield e, e.base, "element assignment"
            elif k == "mut":
                yield e, e.base, str(e.name)
            elif k == "setattr" and e.name in ("shape", "dtype", "strides", "flat", "real", "imag", "data"):
                yield e, e.base, "assignment of ." + e.name
            elif k in ("call", "meth"):
                kw = dict(e.kwargs)
                for n in kw:
                    if (n in OUTKW or n.startswith("overwrite_") and kw[n] == TRUE) and isinstance(kw[n], Term):
                        tgt = kw[n] if n in OUTKW else (e.args[0] if e.args else kw.get("a", kw.get("x")))
                        if isinstance(tgt, Term):
                            yield e, tgt, "%s= of %s" % (n, e.name)
                nm = str(e.name)
                if k == "meth" and nm in DUNDER and isinstance(e.base, Term):
                    yield e, e.base, nm
                if k == "call":
                    if nm.startswith("operator.") and "__%s__" % nm[9:].strip("_") in DUNDER and e.args:
                        yield e, e.args[0], nm
                    if nm in UN_OUT and len(e.args) >= 2:
                        yield e, e.args[1], "output argument of " + nm
                    elif nm in BIN_OUT and len(e.args) >= 3:
                        yield e, e.args[2], "output argument of " + nm
                    elif nm.startswith("numpy.") and nm.endswith(".at") and e.args:
                        yield e, e.args[0], nm
                    elif nm == "numpy.nan_to_num" and kw.get("copy") == FALSE:
                        yield e, e.args[0] if e.args else kw.get("x"), nm
                    elif nm.startswith("numpy.random.shuffle") and e.args:
                        yield e, e.args[0], nm
                    elif nm in self.ctx.P.funcs:
                        for a in self.kernel(nm):
                            if a in kw:
                                yield e, kw[a], "argument %s written by %s" % (a, nm)
                pos = EXT_OUT.get((k, nm.split(".")[-1]))
                if pos:
                    for i in pos:
                        if i < len(e.args):
                            yield e, e.args[i], "output argument of " + nm

    def hits(self, path_or_events, protected, deep=False):
        ev = path_or_events.events if hasattr(path_or_events, "events") else path_or_events
        for e, t, how in self.of(ev):
            if isinstance(t, Term):
                r = roots(t, deep) & protected
                if r:
                    yield e, r, how
