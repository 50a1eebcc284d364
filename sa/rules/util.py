"""Shared helpers of the rules."""
from ..terms import *
from ..interp import flat_events, Interp, Path, BodyPath, Event, Limit
from ..loader import Func, Class, AnchorError, walk_own
from .. import terms as T

IO = "CHECLabPy.core.io."
# functions whose mutual difference is known (a different member is a different value)
DISTINCT = {"numpy." + x for x in (
    "mean", "median", "sum", "max", "min", "argmax", "argmin", "std", "var", "prod", "nanmean", "nansum",
    "where", "nonzero", "flatnonzero", "isin", "unique", "any", "all", "zeros", "ones", "arange", "repeat", "tile",
    "reshape", "ravel", "searchsorted", "histogram", "linspace", "logical_or", "logical_and",
    "zeros_like", "ones_like", "full", "clip", "cumsum", "sign")} | {"sqrt", "abs", "len", "int", "float", "range",
                                                                     "min", "max", "sum", "bool", "sorted"}
UNKNOWN_OPS = {"phi", "last", "loopobj", "fold", "unknown", "anyexc", "loopval", "opaque"}
STRUCT = {"const", "poly", "inv", "item", "slice", "tuple", "listv", "dictv", "setv", "lt", "le", "eq", "is", "in",
          "not", "and", "or", "truth", "elem", "range", "len", "newarr", "param", "comp", "dcomp", "sumcomp",
          "floordiv", "mod", "pow", "fstr", "ext", "enumerate", "items", "values", "zip", "ite", "bitor", "bitand",
          "invert", "sqrt", "neg", "kwget", "rest", "acc", "obj", "class", "func", "filled", "mul", "div0"}


def plain(t):
    """drop allocation identities and recorded mutations"""
    def f(x):
        if x.op == "newarr":
            return plain(x.args[0])
        if x.op == "mutated":
            return plain(x.args[0])
        return None
    return rewrite(t, f) if isinstance(t, Term) else t


def vocab(t):
    out = set()
    for x in subterms(t):
        if x.op in ("call",):
            out.add(("call", x.args[0]))
        elif x.op == "meth":
            out.add(("meth", x.args[1]))
        elif x.op == "attr":
            out.add(("attr", x.args[1]))
        elif x.op == "param":
            out.add(("param", x.args[0]))
        elif x.op in STRUCT:
            pass
        else:
            out.add(("op", x.op))
    return out


def known_vocab(t, specs, extra=()):
    v = vocab(t)
    ok = set(extra)
    for s in specs:
        ok |= vocab(s)
    for w in v - ok:
        if w[0] == "call" and w[1] in DISTINCT:
            continue
        return False
    return True


def match(t, specs, extra=()):
    """True: equals a specification; False: a different, fully understood value; None: not understood"""
    t = plain(t)
    specs = [plain(s) for s in specs]
    if any(t is s for s in specs):
        return True
    return False if known_vocab(t, specs, extra) else None


def value_of(ctx, cls, name, I=None):
    """the value of an attribute-like member (property) of a symbolic instance, if it is the same on all paths"""
    d, f = cls.lookup(name)
    if isinstance(f, Func):
        ps = [p for p in ctx.run(f, I, cls=cls) if p.kind == "return"]
        vals = {plain(p.value) for p in ps}
        if len(vals) == 1:
            return vals.pop()
        return None
    return mk("attr", param("self"), name)


def events_of(p, *kinds):
    for e, loops in flat_events(p.events):
        if e.kind in kinds:
            yield e, loops


def returns(paths):
    return [p for p in paths if p.kind == "return"]


def raises(paths):
    return [p for p in paths if p.kind == "raise"]


def exc_type(p):
    v = p.value
    if isinstance(v, Term):
        if v.op == "call":
            return v.args[0].split(".")[-1]
        if v.op == "ext":
            return v.args[0].split(".")[-1]
        if v.op == "obj":
            return v.args[0].split(".")[-1]
    return None


def conds_str(conds):
    return " and ".join(("" if p else "not ") + "(" + show(a) + ")" for a, p in conds) or "always"


def attr(base, name):
    return mk("attr", base, name)


SELF = param("self")


def call(name, *pos, **kw):
    return mk("call", name, tuple(pos), tuple(sorted(kw.items())))


def expand_gets(t):
    """'d.get(k, default)' used as a condition becomes the two cases 'k in d' and 'k not in d'"""
    def lits(a, pol):
        x = a.args[0] if a.op == "truth" else a
        if x.op == "not":
            return lits(x.args[0], not pol)
        if x.op == "kwget":
            d, k, dflt = x.args
        elif x.op == "meth" and x.args[1] == "get" and 1 <= len(x.args[2]) <= 2 and not x.args[3]:
            d, k = x.args[0], x.args[2][0]
            dflt = x.args[2][1] if len(x.args[2]) > 1 else NONE
        else:
            if is_const(x) and a.op == "truth":
                return [()] if bool(x.args[0]) == pol else []
            return [((expand_gets(a), pol),)]
        isin = mk("in", k, d)
        out = [((isin, True),) + c for c in lits(mk("truth", item(d, k)), pol)]
        out += [((isin, False),) + c for c in lits(mk("truth", dflt), pol)]
        return out

    def cubes(cs):
        res = []
        for cube in cs or ((),):
            acc = [()]
            for a, pol in cube:
                nxt = []
                for c in acc:
                    for l in lits(a, pol):
                        m = dict(c)
                        if all(m.get(x, y) == y for x, y in l):
                            m.update(l)
                            nxt.append(tuple(sorted(m.items(), key=lambda z: z[0].n)))
                acc = nxt
            res += acc
        return Interp.minimise(res)

    def f(x):
        if x.op == "meth" and x.args[1] == "get" and 1 <= len(x.args[2]) <= 2 and not x.args[3]:
            return mk("kwget", expand_gets(x.args[0]), expand_gets(x.args[2][0]),
                      expand_gets(x.args[2][1]) if len(x.args[2]) > 1 else NONE)
        if x.op in ("comp", "dcomp"):
            return mk(x.op, expand_gets(x.args[0]), x.args[1], tuple((cubes(cs), v) for cs, v in x.args[2]))
        return None
    return rewrite(t, f)
