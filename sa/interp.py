"""Trace-partitioned abstract interpreter over the Herbrand domain.

No code of the analysed package is executed and no solver is used: a function body is
abstracted into a finite set of paths (branch partitions), each with conditions, ordered
effects and a result term.  Loops are abstracted by one generic iteration whose carried
values are widened to `phi`, then folded back (accumulators, comprehensions).
"""
import ast
import builtins as _b
from .terms import *
from . import terms as TT
from .loader import Func, Class, Module, Program

MAXPATHS = 160
MAXDEPTH = 14

MUTATORS = {"append", "add", "update", "extend", "pop", "clear", "remove", "insert", "sort", "fill",
            "discard", "setdefault", "reverse", "popitem", "appendleft", "popleft", "put", "resize",
            "partition", "itemset", "setflags", "setfield", "byteswap"}

# methods of arrays (and array-likes) that equal a numpy function on the receiver
NPMETH = {"mean", "sum", "std", "var", "max", "min", "argmax", "argmin", "any", "all", "repeat", "reshape",
          "ravel", "cumsum", "transpose", "clip", "prod", "round", "squeeze", "take", "nonzero", "dot",
          "swapaxes", "argsort", "flatten", "searchsorted", "cumprod", "diagonal", "trace", "ptp"}
NPALIAS = {"amax": "max", "amin": "min", "average": "average", "product": "prod", "absolute": "abs",
           "fabs": "abs", "true_divide": "divide", "round_": "round", "alltrue": "all", "sometrue": "any"}
NPSIG = {
    "mean": ["a", "axis", "dtype", "out", "keepdims"], "sum": ["a", "axis", "dtype", "out", "keepdims"],
    "std": ["a", "axis", "dtype", "out", "ddof", "keepdims"], "var": ["a", "axis", "dtype", "out", "ddof", "keepdims"],
    "max": ["a", "axis", "out", "keepdims"], "min": ["a", "axis", "out", "keepdims"],
    "argmax": ["a", "axis", "out"], "argmin": ["a", "axis", "out"], "any": ["a", "axis", "out", "keepdims"],
    "all": ["a", "axis", "out", "keepdims"], "repeat": ["a", "repeats", "axis"], "cumsum": ["a", "axis", "dtype", "out"],
    "nansum": ["a", "axis", "dtype", "out", "keepdims"], "nanmean": ["a", "axis", "dtype", "out", "keepdims"],
    "median": ["a", "axis", "out"], "average": ["a", "axis", "weights"],
    "reshape": ["a", "newshape", "order"], "ravel": ["a", "order"], "clip": ["a", "a_min", "a_max", "out"],
    "zeros": ["shape", "dtype"], "ones": ["shape", "dtype"], "empty": ["shape", "dtype"],
    "full": ["shape", "fill_value", "dtype"], "zeros_like": ["a", "dtype"], "ones_like": ["a", "dtype"],
    "empty_like": ["a", "dtype"], "full_like": ["a", "fill_value", "dtype"], "copy": ["a"], "array": ["object", "dtype"],
    "asarray": ["a", "dtype"], "linspace": ["start", "stop", "num"], "where": ["condition", "x", "y"],
    "histogram": ["a", "bins", "range"], "trapz": ["y", "x"], "isin": ["element", "test_elements"],
    "broadcast_to": ["array", "shape", "subok"], "column_stack": ["tup"],
    "roll": ["a", "shift", "axis"], "squeeze": ["a", "axis"], "expand_dims": ["a", "axis"], "take": ["a", "indices", "axis"],
    "concatenate": ["arrays", "axis"], "stack": ["arrays", "axis"], "hstack": ["tup"], "vstack": ["tup"],
    "prod": ["a", "axis"], "transpose": ["a", "axes"], "sort": ["a", "axis"], "argsort": ["a", "axis"],
    "logical_or": ["x1", "x2", "out"], "logical_and": ["x1", "x2", "out"], "logical_not": ["x", "out"],
    "dot": ["a", "b", "out"], "tile": ["A", "reps"], "round": ["a", "decimals"], "around": ["a", "decimals"],
    "nonzero": ["a"], "flatnonzero": ["a"], "argwhere": ["a"], "unique": ["ar"], "digitize": ["x", "bins"],
    "bincount": ["x", "weights", "minlength"], "swapaxes": ["a", "axis1", "axis2"], "diff": ["a", "n", "axis"],
}
NPBIN = {"add": ast.Add, "subtract": ast.Sub, "multiply": ast.Mult, "divide": ast.Div, "true_divide": ast.Div,
         "power": ast.Pow, "mod": ast.Mod, "remainder": ast.Mod, "floor_divide": ast.FloorDiv}
NPCMP = {"less": "<", "less_equal": "<=", "greater": ">", "greater_equal": ">=", "equal": "==", "not_equal": "!="}
DERIVED = {"poly", "inv", "mul", "pow", "lt", "le", "eq", "call"}
FRESH = {"mean", "sum", "max", "min", "argmax", "argmin", "median", "std", "var", "where", "flip", "repeat", "tile", "abs",
         "sqrt", "exp", "log", "sign", "clip", "cumsum", "dot", "matmul", "concatenate", "stack", "hstack", "vstack", "pad",
         "interp", "arange", "linspace", "sort", "argsort", "isnan", "isfinite", "logical_and", "logical_or", "logical_not",
         "nanmean", "nansum", "nanmax", "nanmin", "divide", "multiply", "subtract", "add", "power", "column_stack"}
ALLOC = {"zeros", "ones", "empty", "full", "zeros_like", "ones_like", "empty_like", "full_like", "copy", "array", "roll"}
IGNORED = {"print", "builtins.print"}
SUBMOD = {"scipy.ndimage.filters.": "scipy.ndimage.", "numpy.core.fromnumeric.": "numpy.",
          "pandas.core.frame.": "pandas."}


class HObj:
    __slots__ = ("kind", "segs", "cls", "attrs", "sym", "tag", "default")

    def __init__(self, kind, segs=(), cls=None, attrs=None, sym=None, tag=None, default=None):
        self.kind, self.segs, self.cls, self.attrs, self.sym, self.tag, self.default = \
            kind, segs, cls, attrs, sym, tag, default

    def copy(self):
        return HObj(self.kind, self.segs, self.cls, dict(self.attrs) if self.attrs is not None else None,
                    self.sym, self.tag, self.default)


class Event:
    __slots__ = ("kind", "name", "base", "args", "kwargs", "value", "fn", "node", "paths", "nconds", "extra", "raw", "tag", "inits", "own")

    def __init__(self, kind, name=None, base=None, args=(), kwargs=(), value=None, fn=None, node=None,
                 paths=None, nconds=0, extra=None, inits=None):
        self.kind, self.name, self.base, self.args, self.kwargs, self.value = kind, name, base, args, kwargs, value
        self.fn, self.node, self.paths, self.nconds, self.extra = fn, node, paths, nconds, extra
        self.raw, self.tag, self.inits, self.own = base, None, inits, False

    @property
    def loc(self):
        if self.fn is None:
            return "?"
        return self.fn.loc(self.node)

    @property
    def where(self):
        return self.fn.qual if self.fn is not None else "?"

    def kw(self, name, default=None):
        for k, v in self.kwargs:
            if k == name:
                return v
        return default

    def __repr__(self):
        s = self.kind
        if self.base is not None:
            s += " " + show(self.base)
        if self.name is not None:
            s += " ." + str(self.name)
        if self.args or self.kwargs:
            s += "(" + ", ".join([show(a) for a in self.args] + ["%s=%s" % (k, show(v)) for k, v in self.kwargs]) + ")"
        if self.value is not None:
            s += " = " + show(self.value)
        if self.paths is not None:
            s += " " + repr(self.paths)
        return s


class BodyPath:
    """one abstract iteration of a loop"""
    def __init__(self, conds, events, exit, value=None, ends=None):
        self.conds, self.events, self.exit, self.value = conds, events, exit, value
        self.ends = ends or {}  # loop-carried variable at the start of the iteration -> its value at the end

    def __repr__(self):
        return "{%s | %s | %s}" % (", ".join(("" if p else "not ") + show(a) for a, p in self.conds), self.exit,
                                   "; ".join(map(repr, self.events)))


class State:
    def __init__(self):
        self.frames = []
        self.heap = {}
        self.mem = {}
        self.muts = {}
        self.stores = {}
        self.facts = {}
        self.bounds = {}
        self.conds = []
        self.events = []
        self.globals = {}
        self.notes = []

    def copy(self):
        s = State()
        s.frames = [dict(f) for f in self.frames]
        s.heap = dict(self.heap)
        s.mem = dict(self.mem)
        s.muts = dict(self.muts)
        s.stores = dict(self.stores)
        s.facts = dict(self.facts)
        s.bounds = dict(self.bounds)
        s.conds = list(self.conds)
        s.events = list(self.events)
        s.globals = dict(self.globals)
        s.notes = list(self.notes)
        return s


class Outcome:
    __slots__ = ("kind", "st", "val", "node", "fn")

    def __init__(self, kind, st, val=None, node=None, fn=None):
        self.kind, self.st, self.val, self.node, self.fn = kind, st, val, node, fn


class Path:
    """an abstract path of an entry function, with everything frozen"""
    def __init__(self, interp, o):
        st = o.st
        self.kind = o.kind
        self.st = st
        self.interp = interp
        self.value = interp.freeze(st, o.val) if isinstance(o.val, Term) else o.val
        self.raw = o.val
        self.conds = st.conds
        self.events = st.events
        self.notes = st.notes
        self.node, self.fn = o.node, o.fn

    @property
    def exc(self):
        return self.value

    def cond_str(self):
        return " and ".join(("" if p else "not ") + "(" + show(a) + ")" for a, p in self.conds) or "always"

    def attr(self, base, name):
        """value of an attribute at the end of the path (frozen) or None if not written"""
        if base.op == "ref":
            h = self.st.heap[base]
            if h.attrs is not None and name in h.attrs:
                return self.interp.freeze(self.st, h.attrs[name])
            return None
        v = self.st.mem.get((base, "attr", name))
        return self.interp.freeze(self.st, v) if v is not None else None

    def __repr__(self):
        return "<%s %s if %s>" % (self.kind, show(self.value) if isinstance(self.value, Term) else self.value,
                                  self.cond_str())


def flat_events(events, loops=()):
    """every event including those inside loops: (event, loop events enclosing, path chain)"""
    for e in events:
        yield e, loops
        if e.kind == "loop" and e.paths:
            for p in e.paths:
                yield from flat_events(p.events, loops + ((e, p),))


MAYBE_NONE = {"getattr", "next", "yaml.safe_load", "yaml.load", "yaml.full_load", "json.load", "json.loads", "pickle.load", "pickle.loads",
              "re.match", "re.search", "re.fullmatch", "os.getenv", "os.environ.get", "shutil.which", "inspect.getdoc",
              "inspect.getmodule", "importlib.util.find_spec", "min", "max", "functools.reduce"}


class Limit(Exception):
    pass


class Interp:
    def __init__(self, prog, opaque=(), maxpaths=MAXPATHS, no_inline=None):
        self.p = prog
        self.opaque = set(opaque)
        self.no_inline = no_inline
        self.maxpaths = maxpaths
        self.counter = 0
        self._exc = []
        self.closures = {}
        self.depth = 0
        self._item_stores = {}
        self.callstack = []
        self.inlined = set()
        self.dynamic_cache = {}
        self.loops = []
        self.unset = set()
        self.trace = False
        self.truncated = False
        self.steps = 0
        self.maxsteps = 400000

    # ------------------------------------------------------------ basics
    def fresh(self):
        self.counter += 1
        return self.counter

    def alloc(self, st, h):
        r = mk("ref", self.fresh())
        st.heap[r] = h
        return r

    def new_list(self, st, items=(), tag=None):
        return self.alloc(st, HObj("list", tuple(("item", i) for i in items), tag=tag))

    def new_dict(self, st, segs=()):
        return self.alloc(st, HObj("dict", tuple(segs)))

    def sym_obj(self, st, cls, name="self"):
        return self.alloc(st, HObj("obj", cls=cls, attrs={}, sym=name))

    def hobj(self, st, v):
        return st.heap.get(v) if isinstance(v, Term) and v.op == "ref" else None

    def freeze(self, st, v, seen=()):
        if not isinstance(v, Term):
            return v
        if v.op == "ref":
            h = st.heap.get(v)
            if h is None or v in seen:
                return v
            seen = seen + (v,)
            if h.kind == "obj":
                if h.sym:
                    return param(h.sym)
                return mk("obj", h.cls.qual if h.cls else "?", v.args[0])
            if h.kind in ("list", "set"):
                segs = tuple((s[0], self.freeze(st, s[1], seen)) for s in h.segs)
                flat = []
                for s in segs:
                    if s[0] == "splice" and s[1].op == "listv":
                        flat.extend(s[1].args[0])
                    elif s[0] == "splice" and s[1].op == "tuple":
                        flat.extend(("item", x) for x in s[1].args[0])
                    else:
                        flat.append(s)
                segs = tuple(flat)
                if h.kind == "set":
                    return mk("setv", segs)
                if len(segs) == 1 and segs[0][0] == "splice":
                    return segs[0][1]
                return mk("listv", segs)
            segs = []
            for s in h.segs:
                if s[0] == "kv":
                    segs.append(("kv", self.freeze(st, s[1], seen), self.freeze(st, s[2], seen)))
                else:
                    t = self.freeze(st, s[1], seen)
                    if t.op == "dictv":
                        segs.extend(t.args[0])
                    else:
                        segs.append(("merge", t))
            if len(segs) == 1 and segs[0][0] == "merge":
                return segs[0][1]
            return mk("dictv", tuple(segs))
        if v.op == "tuple":
            items = tuple(self.freeze(st, x, seen) for x in v.args[0])
            return v if all(a is b for a, b in zip(items, v.args[0])) else mk("tuple", items)
        if st.muts and v in st.muts:
            b = mk("filled", v, st.stores[v]) if v.op == "newarr" and v in st.stores else v
            return mk("mutated", b, st.muts[v])
        if v.op == "newarr" and v in st.stores:
            return mk("filled", v, st.stores[v])
        if v.op in ("slice",):
            return mk("slice", *[self.freeze(st, x, seen) for x in v.args])
        return v

    def fz(self, st, vs):
        return tuple(self.freeze(st, v) for v in vs)

    def event(self, st, kind, name=None, base=None, args=(), kwargs=(), value=None, node=None, extra=None):
        fn = self.callstack[-1] if self.callstack else None
        e = Event(kind, name, self.freeze(st, base) if base is not None else None, self.fz(st, args),
                  tuple((k, self.freeze(st, v)) for k, v in kwargs), self.freeze(st, value) if value is not None else None,
                  fn, node, nconds=len(st.conds), extra=extra)
        if base is not None:
            e.raw = base
            h = self.hobj(st, base)
            if h is not None:
                e.tag = h.tag
                e.own = h.kind in ("list", "dict", "set")
        if self.trace and kind in ("getitem", "setitem", "div") and extra is None:
            e.extra = tuple(st.conds)
        st.events.append(e)
        return e

    def note(self, st, text, node=None):
        fn = self.callstack[-1] if self.callstack else None
        st.notes.append("%s: %s" % (fn.loc(node) if fn else "?", text))

    # ------------------------------------------------------------ facts
    @staticmethod
    def _lin(a, b):
        """b - a as (L, c, sign): sign*(L) + c with normalised L; None if not numeric"""
        d = to_poly(sub(b, a))
        c = d.pop((), 0)
        if not d:
            return None, c, 1
        lead = min(d, key=lambda m: tuple(x.n for x in m))
        k = d[lead]
        L = from_poly({m: x / k for m, x in d.items()})
        return L, c, k

    def decide(self, st, atom):
        if is_const(atom):
            return bool(atom.args[0])
        if atom.op == "not":
            r = self.decide(st, atom.args[0])
            return None if r is None else not r
        if atom in st.facts:
            return st.facts[atom]
        if atom.op == "truth":
            x = atom.args[0]
            if x.op in ("tuple", "listv", "dictv", "setv") and x.args[0]:
                if any(s[0] in ("item", "kv") for s in x.args[0]) if x.op != "tuple" else True:
                    return True
            if x.op in ("tuple", "listv", "dictv", "setv") and not x.args[0]:
                return False
            if x.op == "mutated" and any(o[0] in ("append", "add") for o in x.args[1]):
                return True
            if x.op in ("func", "bound", "class", "obj", "module", "ext", "closure"):
                return True
            n = st.facts.get(mk("is", x, NONE))
            if n is True:
                return False
        if atom.op == "is" and atom.args[1] == NONE:
            x = atom.args[0]
            if x.op in ("newarr", "func", "class", "obj", "module", "ext", "listv", "dictv", "setv", "comp",
                        "tuple", "poly", "fstr", "closure", "ref", "mutated", "sumcomp", "bound", "range"):
                return False
            if st.facts.get(mk("truth", x)) is True:
                return False
            if x.op == "call" and x.args[0] not in MAYBE_NONE and not x.args[0].startswith("CHECLabPy"):
                return False
        if atom.op in ("lt", "le", "eq"):
            a, b = atom.args
            if atom.op == "eq" and not (self._numlike(a) and self._numlike(b)):
                return None
            L, c, k = self._lin(a, b)          # b - a = k*L + c
            if L is None:
                return {"lt": c > 0, "le": c >= 0, "eq": c == 0}[atom.op]
            bd = st.bounds.get(L)
            if bd:
                lo, ls, hi, hs = bd
                # range of k*L + c
                if k > 0:
                    l, l_s, h, h_s = (k * lo + c if lo is not None else None), ls, (k * hi + c if hi is not None else None), hs
                else:
                    l, l_s, h, h_s = (k * hi + c if hi is not None else None), hs, (k * lo + c if lo is not None else None), ls
                if atom.op == "lt":
                    if l is not None and (l > 0 or (l == 0 and l_s)):
                        return True
                    if h is not None and h <= 0:
                        return False
                elif atom.op == "le":
                    if l is not None and l >= 0:
                        return True
                    if h is not None and (h < 0 or (h == 0 and h_s)):
                        return False
                else:
                    if l is not None and (l > 0 or (l == 0 and l_s)):
                        return False
                    if h is not None and (h < 0 or (h == 0 and h_s)):
                        return False
                    if l is not None and h is not None and l == h == 0:
                        return True
        return None

    @staticmethod
    def _numlike(t):
        return not (is_const(t) and not is_num(t)) and t.op not in ("fstr", "tuple")

    def assume(self, st, atom, pol, record=True):
        """add a fact; False if it contradicts what is known"""
        if atom.op == "not":
            return self.assume(st, atom.args[0], not pol, record)
        if atom.op == "and" and pol:
            return all(self.assume(st, a, True, record) for a in atom.args[0])
        if atom.op == "or" and not pol:
            return all(self.assume(st, a, False, record) for a in atom.args[0])
        d = self.decide(st, atom)
        if d is not None:
            return d == pol
        st.facts[atom] = pol
        if record:
            st.conds.append((atom, pol))
        if atom.op in ("lt", "le", "eq") and (atom.op != "eq" or pol):
            a, b = atom.args
            if atom.op == "eq" and not (self._numlike(a) and self._numlike(b)):
                return True
            L, c, k = self._lin(a, b)
            if L is not None:
                # constraint on v = k*L + c
                if atom.op == "eq":
                    cons = [(">=", False), ("<=", False)]
                elif atom.op == "lt":
                    cons = [(">=", True)] if pol else [("<=", False)]
                else:
                    cons = [(">=", False)] if pol else [("<=", True)]
                lo, ls, hi, hs = st.bounds.get(L, (None, False, None, False))
                for op, strict in cons:
                    x = -c / k
                    low = (op == ">=") == (k > 0)
                    if low:
                        if lo is None or x > lo or (x == lo and strict):
                            lo, ls = x, strict
                    else:
                        if hi is None or x < hi or (x == hi and strict):
                            hi, hs = x, strict
                st.bounds[L] = (lo, ls, hi, hs)
                if lo is not None and hi is not None and (lo > hi or (lo == hi and (ls or hs))):
                    return False
        return True

    def fork(self, st, atom):
        """-> [(state, bool)]"""
        if atom.op == "not":
            return [(s, not b) for s, b in self.fork(st, atom.args[0])]
        if atom.op == "and":
            out, cur = [], [st]
            for a in atom.args[0]:
                nxt = []
                for s in cur:
                    for s2, b in self.fork(s, a):
                        (nxt if b else out).append(s2 if b else (s2, False))
                cur = nxt
            return out + [(s, True) for s in cur]
        if atom.op == "or":
            out, cur = [], [st]
            for a in atom.args[0]:
                nxt = []
                for s in cur:
                    for s2, b in self.fork(s, a):
                        if b:
                            out.append((s2, True))
                        else:
                            nxt.append(s2)
                cur = nxt
            return out + [(s, False) for s in cur]
        d = self.decide(st, atom)
        if d is not None:
            return [(st, d)]
        out = []
        s2 = st.copy()
        if self.assume(st, atom, True):
            out.append((st, True))
        if self.assume(s2, atom, False):
            out.append((s2, False))
        return out

    def truth_atom(self, st, v):
        """Term used as a condition"""
        if not isinstance(v, Term):
            return FALSE
        h = self.hobj(st, v)
        if h is not None:
            if h.kind == "obj":
                d, m = h.cls.lookup("__bool__") if h.cls else (None, None)
                d2, m2 = h.cls.lookup("__len__") if h.cls else (None, None)
                if m is None and m2 is None and not h.sym:
                    return TRUE
                return mk("truth", self.freeze(st, v))
            if any(s[0] in ("item", "kv") for s in h.segs):
                return TRUE
            if not h.segs:
                return FALSE
            return mk("truth", self.freeze(st, v))
        if is_const(v):
            return TRUE if v.args[0] else FALSE
        if v.op in ("lt", "le", "eq", "is", "in", "not", "and", "or", "truth", "isinstance", "cmp"):
            return v
        if v.op == "len":
            return mk("truth", v.args[0])
        if v.op == "call" and v.args[0] == "bool" and v.args[1]:
            return self.truth_atom(st, v.args[1][0])
        return mk("truth", self.freeze(st, v))

    # ------------------------------------------------------------ conditions
    def cond(self, node, st):
        if isinstance(node, ast.BoolOp):
            isand = isinstance(node.op, ast.And)
            out, cur = [], [st]
            for v in node.values:
                nxt = []
                for s in cur:
                    for s2, b in self.cond(v, s):
                        if b == isand:
                            nxt.append(s2)
                        else:
                            out.append((s2, b))
                cur = nxt
            return out + [(s, isand) for s in cur]
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            return [(s, not b) for s, b in self.cond(node.operand, st)]
        out = []
        for s, v in self.ev(node, st):
            out.extend(self.fork(s, self.truth_atom(s, v)))
        return out

    # ------------------------------------------------------------ expressions
    def ev_list(self, nodes, st):
        res = [(st, [])]
        for n in nodes:
            nxt = []
            for s, vs in res:
                for s2, v in self.ev(n, s):
                    nxt.append((s2, vs + [v]))
            res = nxt
        return res

    def ev(self, node, st):
        self.steps += 1
        if self.steps > self.maxsteps:
            raise Limit("analysis budget exceeded")
        m = getattr(self, "ev_" + type(node).__name__, None)
        if m is None:
            self.note(st, "expression %s not modelled" % type(node).__name__, node)
            return [(st, mk("unknown", self.fresh()))]
        r = m(node, st)
        if len(r) > self.maxpaths:
            self.note(r[0][0], "path limit", node)
            r = r[:self.maxpaths]
        return r

    def ev_Constant(self, node, st):
        return [(st, const(node.value))]

    def ev_Name(self, node, st):
        return [(st, self.load_name(st, node.id, node))]

    def load_name(self, st, name, node=None):
        f = st.frames[-1]
        if name in f:
            v = f[name]
            if v in self.unset and isinstance(v, Term) and not self.later_round(st, v.args[0]):
                self.note(st, "undefined name %s" % name, node)
            return v
        c = f.get("__closure__")
        while c is not None:
            if name in c:
                return c[name]
            c = c.get("__closure__")
        return self.load_global(st, f["__module__"], name, node)

    @staticmethod
    def later_round(st, lid):
        """may the conditions of this path only hold after the first round of the loop"""
        for a, _ in st.conds:
            for x in subterms(a):
                if x.op == "phi" or x.op == "count" or x.op == "elem" and x.args[0].op == "range":
                    return True
        return False

    def load_global(self, st, module, name, node=None):
        key = (module.name, name)
        if key in st.globals:
            return st.globals[key]
        b = module.env.get(name)
        if b is None:
            if hasattr(_b, name) and name not in ("__name__", "__file__"):
                return mk("builtin", name)
            sub = module.name + "." + name
            if sub in self.p.modules:
                return mk("module", sub)
            if name == "__name__":
                return const(module.name)
            if name == "__file__":
                return const(module.path)
            self.note(st, "undefined name %s" % name, node)
            return mk("undefined", name)
        return self.binding(st, b, key)

    def binding(self, st, b, key):
        if isinstance(b, Func):
            return mk("func", b.qual)
        if isinstance(b, Class):
            return mk("class", b.qual)
        if b[0] == "import":
            return self.resolved(st, self.p.resolve(b[1]), b[1])
        if b[0] == "expr":
            return self.resolved(st, ("expr", self.p.modules[key[0]], b[1]), ".".join(key))
        return mk("unknown", self.fresh())

    def resolved(self, st, r, dotted):
        if isinstance(r, Func):
            return mk("func", r.qual)
        if isinstance(r, Class):
            return mk("class", r.qual)
        if isinstance(r, Module):
            return mk("module", r.name)
        if isinstance(r, tuple) and r[0] == "ext":
            return ext(r[1])
        if isinstance(r, tuple) and r[0] == "classattr":
            return self.class_attr(st, r[1], r[2])
        if isinstance(r, tuple) and r[0] == "expr":
            _, m, node = r
            name = dotted
            key = (m.name, "expr", id(node))
            if key in st.globals:
                return st.globals[key]
            st.frames.append({"__module__": m})
            st.globals[key] = mk("unknown", "cyclic global " + name)
            n0 = len(st.events)
            try:
                res = self.ev(node, st)
            finally:
                pass
            s, v = res[0]
            if s is not st:
                v = mk("global", name)
                st.frames.pop() if len(st.frames) > 1 else None
                st.globals[key] = v
                return v
            st.frames.pop()
            del st.events[n0:]
            h = self.hobj(st, v)
            if h is not None and h.tag is None:
                h = h.copy()
                h.tag = "global:" + name
                st.heap[v] = h
            st.globals[key] = v
            return v
        return mk("missing", dotted)

    def ev_NamedExpr(self, node, st):
        out = []
        for s, v in self.ev(node.value, st):
            s.frames[-1][node.target.id] = v
            out.append((s, v))
        return out

    def ev_Tuple(self, node, st):
        out = []
        for s, vs in self.ev_list([e.value if isinstance(e, ast.Starred) else e for e in node.elts], st):
            if any(isinstance(e, ast.Starred) for e in node.elts):
                segs = []
                for e, v in zip(node.elts, vs):
                    if isinstance(e, ast.Starred):
                        segs.extend(self.iter_segs(s, v))
                    else:
                        segs.append(("item", v))
                if all(x[0] == "item" for x in segs):
                    out.append((s, mk("tuple", tuple(x[1] for x in segs))))
                else:
                    out.append((s, self.alloc(s, HObj("list", tuple(segs), tag="tuple"))))
            else:
                out.append((s, mk("tuple", tuple(vs))))
        return out

    def ev_List(self, node, st):
        out = []
        for s, v in self.ev_Tuple(node, st):
            if v.op == "tuple":
                v = self.new_list(s, v.args[0])
            out.append((s, v))
        return out

    def ev_Set(self, node, st):
        out = []
        for s, vs in self.ev_list(node.elts, st):
            out.append((s, self.alloc(s, HObj("set", tuple(("item", v) for v in vs)))))
        return out

    def iter_segs(self, st, v):
        h = self.hobj(st, v)
        if h is not None and h.kind == "set":
            # the members of a set come once each and in no particular order
            return [("splice", mk("call", "set", (s[1],), ())) if s[0] == "splice" and isinstance(s[1], Term) and s[1].op in (
                "param", "attr", "item", "elem") else s for s in h.segs]
        if h is not None and h.kind == "list":
            return list(h.segs)
        if isinstance(v, Term) and v.op == "tuple":
            return [("item", x) for x in v.args[0]]
        if isinstance(v, Term) and v.op == "listv":
            return list(v.args[0])
        if h is not None and h.kind == "dict" and all(s[0] == "kv" for s in h.segs):
            return [("item", s[1]) for s in h.segs]
        if is_const(v) and isinstance(v.args[0], str) and len(v.args[0]) <= 24:
            return [("item", const(c)) for c in v.args[0]]
        return [("splice", self.iter_norm(st, v))]

    def ev_Dict(self, node, st):
        nodes = []
        for k, v in zip(node.keys, node.values):
            if k is not None:
                nodes.append(k)
            nodes.append(v)
        out = []
        for s, vs in self.ev_list(nodes, st):
            r = self.new_dict(s)
            i = 0
            for k in node.keys:
                if k is None:
                    self.dict_merge(s, r, vs[i])
                    i += 1
                else:
                    self.dict_set(s, r, vs[i], vs[i + 1])
                    i += 2
            out.append((s, r))
        return out

    def dict_set(self, st, r, k, v):
        h = st.heap[r].copy()
        k = self.freeze(st, k)
        segs = list(h.segs)
        if is_const(k):
            for i in range(len(segs) - 1, -1, -1):
                sg = segs[i]
                if sg[0] == "kv" and sg[1] == k:
                    segs[i] = ("kv", k, v)
                    h.segs = tuple(segs)
                    st.heap[r] = h
                    return
                if sg[0] != "kv" or not is_const(sg[1]):
                    break
        else:
            if segs and segs[-1][0] == "kv" and segs[-1][1] == k:
                segs.pop()
        segs.append(("kv", k, v))
        h.segs = tuple(segs)
        st.heap[r] = h

    def dict_merge(self, st, r, v):
        h2 = self.hobj(st, v)
        if h2 is not None and h2.kind == "dict":
            for sg in h2.segs:
                if sg[0] == "kv":
                    self.dict_set(st, r, sg[1], sg[2])
                else:
                    h = st.heap[r].copy()
                    h.segs = h.segs + (sg,)
                    st.heap[r] = h
            return
        t = self.freeze(st, v)
        if t.op == "dictv":
            for sg in t.args[0]:
                if sg[0] == "kv":
                    self.dict_set(st, r, sg[1], sg[2])
                else:
                    h = st.heap[r].copy()
                    h.segs = h.segs + (sg,)
                    st.heap[r] = h
            return
        if t == NONE:
            return
        h = st.heap[r].copy()
        h.segs = h.segs + (("merge", t),)
        st.heap[r] = h

    def dict_get(self, st, r, k, default=None):
        """value term or None if it cannot be resolved"""
        h = st.heap[r]
        k = self.freeze(st, k)
        for i in range(len(h.segs) - 1, -1, -1):
            sg = h.segs[i]
            if sg[0] == "kv":
                if sg[1] == k:
                    return sg[2]
                if is_const(k) and is_const(sg[1]):
                    continue
            return None
        return default

    def ev_JoinedStr(self, node, st):
        res = [(st, [])]
        for v in node.values:
            nxt = []
            for s, parts in res:
                if isinstance(v, ast.Constant):
                    nxt.append((s, parts + [v.value]))
                else:
                    spec = ""
                    dyn = []
                    if v.format_spec is not None:
                        for q in v.format_spec.values:
                            if isinstance(q, ast.Constant):
                                spec += q.value
                            else:
                                spec += "{}"
                                dyn.append(q.value)
                    conv = chr(v.conversion) if v.conversion != -1 else ""
                    for s2, x in self.ev(v.value, s):
                        for s3, dv in self.ev_list(dyn, s2):
                            sp = spec
                            for d in dv:
                                d = self.freeze(s3, d)
                                sp = sp.replace("{}", str(d.args[0]) if is_const(d) else "<%s>" % show(d), 1)
                            nxt.append((s3, parts + [(self.freeze(s3, x), conv, sp)]))
            res = nxt
        return [(s, fstr(parts)) for s, parts in res]

    def ev_UnaryOp(self, node, st):
        out = []
        for s, v in self.ev(node.operand, st):
            if isinstance(node.op, ast.Not):
                a = self.truth_atom(s, v)
                d = self.decide(s, a)
                out.append((s, const(not d) if d is not None else (a.args[0] if a.op == "not" else mk("not", a))))
            elif isinstance(node.op, ast.USub):
                out.append((s, neg(self.freeze(s, v))))
            elif isinstance(node.op, ast.UAdd):
                out.append((s, v))
            else:
                f = self.freeze(s, v)
                out.append((s, f.args[0] if f.op == "invert" else mk("invert", f)))
        return out

    def ev_BinOp(self, node, st):
        out = []
        for s, (a, b) in self.ev_list([node.left, node.right], st):
            out.append((s, self.binop(s, node.op, a, b, node)))
        return out

    def binop(self, st, op, a, b, node=None):
        ha, hb = self.hobj(st, a), self.hobj(st, b)
        if isinstance(op, ast.Add) and ((ha and ha.kind == "list") or (hb and hb.kind == "list")):
            return self.alloc(st, HObj("list", tuple(self.iter_segs(st, a) + self.iter_segs(st, b))))
        if ha is not None and ha.kind == "obj" and ha.cls is not None:
            mname = {"Add": "__add__", "Sub": "__sub__", "Mult": "__mul__", "Div": "__truediv__"}.get(type(op).__name__)
            if mname and ha.cls.lookup(mname)[1] is not None:
                self.note(st, "operator method", node)
        a, b = self.freeze(st, a), self.freeze(st, b)
        if isinstance(op, ast.Add):
            if a.op == "tuple" and b.op == "tuple":
                return mk("tuple", a.args[0] + b.args[0])
            sa = a.op == "fstr" or (is_const(a) and isinstance(a.args[0], str))
            sb = b.op == "fstr" or (is_const(b) and isinstance(b.args[0], str))
            if sa or sb:
                return fstr([(a, "", ""), (b, "", "")])
            return add(a, b)
        if isinstance(op, ast.Sub):
            return sub(a, b)
        if isinstance(op, ast.Mult):
            for x, y in ((a, b), (b, a)):
                if x.op == "listv" or (is_const(x) and isinstance(x.args[0], str)):
                    return mk("seqrepeat", x, y)
            return mul(a, b)
        if isinstance(op, ast.Div):
            if self.trace:
                self.event(st, "div", base=a, args=(b,), node=node)
            return div(a, b)
        if isinstance(op, ast.FloorDiv):
            return floordiv(a, b)
        if isinstance(op, ast.Mod):
            if (is_const(a) and isinstance(a.args[0], str)):
                args = list(b.args[0]) if b.op == "tuple" else [b]
                parts = percent_parts(a.args[0], args)
                if parts is not None:
                    return fstr(parts)
            return mod(a, b)
        if isinstance(op, ast.Pow):
            return power(a, b)
        name = type(op).__name__
        if name in ("BitOr", "BitAnd", "BitXor"):
            if name == "BitOr" and (a.op == "dictv" or b.op == "dictv"):
                r = self.new_dict(st)
                self.dict_merge(st, r, a)
                self.dict_merge(st, r, b)
                return r
            return mk(name.lower(), *sorted([a, b]))
        return mk(name.lower(), a, b)

    CMP = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!=",
           ast.Is: "is", ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in"}

    def ev_Compare(self, node, st):
        out = []
        for s, vs in self.ev_list([node.left] + node.comparators, st):
            atoms = []
            for op, a, b in zip(node.ops, vs, vs[1:]):
                atoms.append(self.compare(s, self.CMP[type(op)], a, b))
            if len(atoms) == 1:
                out.append((s, atoms[0]))
            else:
                out.append((s, mk("and", tuple(atoms))))
        return out

    def compare(self, s, op, a, b):
        if op in ("is", "is not") and isinstance(a, Term) and isinstance(b, Term):
            if a.op == "ref" and b.op == "ref" and a != b:
                return const(op == "is not")
            for x, y in ((a, b), (b, a)):
                if x.op == "ref" and y == NONE:
                    h = self.hobj(s, x)
                    return const(op == "is not")
        if op in ("in", "not in"):
            h = self.hobj(s, b)
            k = self.freeze(s, a)
            if h is not None and h.kind == "dict":
                if any(sg[0] == "kv" and sg[1] == k for sg in h.segs):
                    return const(op == "in")
                if is_const(k) and all(sg[0] == "kv" and is_const(sg[1]) for sg in h.segs):
                    return const(op != "in")
            elif h is not None and h.kind in ("list", "set"):
                if any(sg[0] == "item" and sg[1] == k for sg in h.segs):
                    return const(op == "in")
                if is_const(k) and all(sg[0] == "item" and is_const(sg[1]) for sg in h.segs):
                    return const(op != "in")
            elif isinstance(b, Term) and b.op == "tuple":
                if k in b.args[0]:
                    return const(op == "in")
                if is_const(k) and all(is_const(x) for x in b.args[0]):
                    return const(op != "in")
        t, pol = cmp_atom(op, self.freeze(s, a), self.freeze(s, b))
        if not pol:
            return t.args[0] if t.op == "not" else (const(not t.args[0]) if is_const(t) else mk("not", t))
        return t

    def ev_BoolOp(self, node, st):
        isand = isinstance(node.op, ast.And)
        out, cur = [], [st]
        for i, vn in enumerate(node.values):
            nxt = []
            last = i == len(node.values) - 1
            for s in cur:
                for s2, v in self.ev(vn, s):
                    if last:
                        out.append((s2, v))
                        continue
                    for s3, b in self.fork(s2, self.truth_atom(s2, v)):
                        if b == isand:
                            nxt.append(s3)
                        else:
                            out.append((s3, v))
            cur = nxt
        return out

    def ev_IfExp(self, node, st):
        out = []
        for s, b in self.cond(node.test, st):
            out.extend(self.ev(node.body if b else node.orelse, s))
        return out

    def ev_Lambda(self, node, st):
        i = self.fresh()
        fr = st.frames[-1]
        fn = Func((self.callstack[-1].qual if self.callstack else "?") + ".<lambda>", fr["__module__"], node,
                  outer=self.callstack[-1] if self.callstack else None)
        self.closures[i] = (fn, dict(fr))
        return [(st, mk("closure", i))]

    def ev_Starred(self, node, st):
        return [(s, mk("star", self.freeze(s, v))) for s, v in self.ev(node.value, st)]

    def ev_Attribute(self, node, st):
        out = []
        for s, v in self.ev(node.value, st):
            out.extend(self.getattr(s, v, node.attr, node))
        return out

    def ev_Slice(self, node, st):
        nodes = [n if n is not None else ast.Constant(None) for n in (node.lower, node.upper, node.step)]
        out = []
        for s, (a, b, c) in self.ev_list(nodes, st):
            a, b, c = self.fz(s, (a, b, c))
            if a == const(0):
                a = NONE
            if c == const(1):
                c = NONE
            out.append((s, mk("slice", a, b, c)))
        return out

    def ev_Subscript(self, node, st):
        out = []
        for s, (v, i) in self.ev_list([node.value, node.slice], st):
            out.extend(self.getitem(s, v, i, node))
        return out

    def getitem(self, st, v, i, node=None):
        h = self.hobj(st, v)
        i = self.freeze(st, i)
        if h is not None and h.kind == "obj" and h.cls is not None:
            d, m = h.cls.lookup("__getitem__")
            if isinstance(m, Func):
                return self.call(st, mk("bound", v, m.qual), [("v", i)], [], node)
        if h is not None and h.kind == "dict":
            r = self.dict_get(st, v, i)
            if r is not None:
                return [(st, r)]
            if h.default is not None and all(s[0] == "kv" for s in h.segs) and is_const(i) \
                    and all(is_const(s[1]) for s in h.segs):
                res = []
                for s2, nv in self.call(st, h.default, [], [], node):
                    self.dict_set(s2, v, i, nv)
                    res.append((s2, nv))
                return res
        if h is not None and h.kind == "list" and is_const(i) and isinstance(i.args[0], int):
            k = i.args[0]
            if -len(h.segs) <= k < len(h.segs):
                part = h.segs[:k + 1] if k >= 0 else h.segs[k:]
                if all(s[0] == "item" for s in part):
                    return [(st, h.segs[k][1])]
        if isinstance(v, Term) and v.op == "tuple" and is_const(i) and isinstance(i.args[0], int) \
                and -len(v.args[0]) <= i.args[0] < len(v.args[0]):
            return [(st, v.args[0][i.args[0]])]
        base = v if h is not None and h.kind != "obj" else self.identity(st, v)
        key = (base, "item", i)
        if key in st.mem:
            return [(st, st.mem[key])]
        if base.op == "newarr" and base in st.muts:
            last = st.muts[base][-1]
            if last[0] == "__setitem__" and last[1][0] == i:
                return [(st, last[1][1])]
        elif base.op == "newarr" and base in st.stores:
            last = st.stores[base][-1]
            if last[0] == "at" and last[1] == i:
                return [(st, last[2])]
        base = self.freeze(st, base)
        self.event(st, "getitem", base=base, args=(i,), node=node)
        return [(st, item(base, i))]

    def identity(self, st, v):
        """the term under which the location of an opaque value is known"""
        if v.op == "ref":
            h = st.heap.get(v)
            if h is not None and h.kind == "obj" and h.sym:
                return param(h.sym)
        return v

    # comprehensions --------------------------------------------------------
    def ev_ListComp(self, node, st):
        return self.comp(node, st, "list")

    def ev_GeneratorExp(self, node, st):
        return self.comp(node, st, "list")

    def ev_SetComp(self, node, st):
        return self.comp(node, st, "set")

    def ev_DictComp(self, node, st):
        return self.comp(node, st, "dict")

    def comp(self, node, st, kind):
        r = self.alloc(st, HObj(kind))
        names = set()
        for g in node.generators:
            for n in ast.walk(g.target):
                if isinstance(n, ast.Name):
                    names.add(n.id)
        fr = st.frames[-1]
        saved = {n: fr[n] for n in names if n in fr}

        def inner(gi, s):
            """execute generators from gi on; returns list of outcomes"""
            if gi == len(node.generators):
                outs = []
                if kind == "dict":
                    for s2, (k, v) in self.ev_list([node.key, node.value], s):
                        self.dict_set(s2, r, k, v)
                        outs.append(Outcome("fall", s2))
                else:
                    for s2, v in self.ev(node.elt, s):
                        h = s2.heap[r].copy()
                        h.segs = h.segs + (("item", v),)
                        s2.heap[r] = h
                        outs.append(Outcome("fall", s2))
                return outs
            g = node.generators[gi]

            def body(s2):
                outs, cur = [], [s2]
                for c in g.ifs:
                    nxt = []
                    for x in cur:
                        for x2, b in self.cond(c, x):
                            if b:
                                nxt.append(x2)
                            else:
                                outs.append(Outcome("continue", x2))
                    cur = nxt
                for x in cur:
                    outs.extend(inner(gi + 1, x))
                return outs
            outs = []
            for s2, it in self.ev(g.iter, s):
                outs.extend(self.loop(s2, it, g.target, body, set(names), node))
            return outs
        res = []
        for o in inner(0, st):
            if o.kind in ("fall", "continue"):
                f = o.st.frames[-1]
                for n in names:
                    f.pop(n, None)
                f.update(saved)
                res.append((o.st, r))
            else:
                self._exc[-1].append(o) if self._exc else None
        return res

    def ev_Await(self, node, st):
        return self.ev(node.value, st)

    def ev_Yield(self, node, st):
        out = []
        for s, v in (self.ev(node.value, st) if node.value else [(st, NONE)]):
            self.event(s, "yield", value=v, node=node)
            y = s.frames[-1].get("__yields__")
            if y is not None:
                h = s.heap[y].copy()
                h.segs = h.segs + (("item", v),)
                s.heap[y] = h
            out.append((s, mk("sent", self.fresh())))
        return out

    def ev_YieldFrom(self, node, st):
        out = []
        for s, v in self.ev(node.value, st):
            self.event(s, "yieldfrom", value=v, node=node)
            y = s.frames[-1].get("__yields__")
            if y is not None:
                h = s.heap[y].copy()
                h.segs = h.segs + tuple(self.iter_segs(s, v))
                s.heap[y] = h
            out.append((s, NONE))
        return out

    # ------------------------------------------------------------ attributes
    def descriptor(self, m):
        """is the member function turned into a read-only computed attribute?"""
        if not isinstance(m, Func):
            return False
        for d in m.decorators:
            if d in ("property", "builtins.property", "functools.cached_property", "abc.abstractproperty"):
                return True
            r = self.p.resolve(d) if d.startswith("CHECLabPy") else None
            if isinstance(r, Class) and r.lookup("__get__")[1] is not None:
                return True
        return False

    def dynamic_names(self, cls):
        """class attributes that a repo metaclass computes"""
        if cls in self.dynamic_cache:
            return self.dynamic_cache[cls]
        names = set()
        for c in cls.mro:
            if isinstance(c, Class) and isinstance(c.metaclass, Class):
                for m in c.metaclass.members.values():
                    if isinstance(m, Func):
                        for n in ast.walk(m.node):
                            if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) \
                                    and isinstance(n.slice, ast.Constant):
                                names.add(n.slice.value)
                            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                                names.add(n.attr)
                            if isinstance(n, ast.Call) and getattr(n.func, "id", "") == "setattr" and \
                                    len(n.args) == 3 and isinstance(n.args[1], ast.Constant):
                                names.add(n.args[1].value)
                            if isinstance(n, ast.Dict):
                                for k in n.keys:
                                    if isinstance(k, ast.Constant) and isinstance(k.value, str):
                                        names.add(k.value)
                            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "update":
                                names.update(k.arg for k in n.keywords if k.arg)
                            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "dict":
                                names.update(k.arg for k in n.keywords if k.arg)
        self.dynamic_cache[cls] = names
        return names

    def class_attr(self, st, cls, name):
        if name in self.dynamic_names(cls):
            return mk("attr", mk("class", cls.qual), name)
        d, m = cls.lookup(name)
        if d is None:
            return mk("attr", mk("class", cls.qual), name)
        if isinstance(m, Func):
            return mk("func", m.qual)
        if isinstance(m, Class):
            return mk("class", m.qual)
        if isinstance(m, tuple):
            return self.resolved(st, self.p.resolve(m[1]), m[1])
        if any(isinstance(b, str) and b.split(".")[-1] in ("IntEnum", "Enum", "IntFlag") for b in d.mro):
            if isinstance(m, ast.Constant):
                return const(m.value)
        key = ("cattr", d.qual, name)
        if key in st.globals:
            return st.globals[key]
        n0 = len(st.events)
        depth = len(st.frames)
        st.frames.append({"__module__": d.module, "__closure__": None, "__classenv__": d})
        fr = st.frames[-1]
        for k in d.order:
            mm = d.members[k]
            if k != name and isinstance(mm, ast.Constant):
                fr[k] = const(mm.value)
        res = self.ev(m, st)
        if not res:
            st.frames[depth:] = []
            del st.events[n0:]
            return mk("attr", mk("class", d.qual), name)
        s, v = res[0]
        st.frames[depth:] = []
        del st.events[n0:]
        if s is not st:
            v = mk("attr", mk("class", d.qual), name)
        h = self.hobj(st, v)
        if h is not None and h.tag is None:
            h = h.copy()
            h.tag = "class:%s.%s" % (d.qual, name)
            st.heap[v] = h
        st.globals[key] = v
        return v

    def getattr(self, st, v, name, node=None):
        op = v.op
        if op == "module":
            r = self.p.resolve(v.args[0] + "." + name)
            if r is None:
                if name in ("__path__", "__name__", "__file__", "__doc__"):
                    return [(st, mk("attr", v, name))]
                self.note(st, "module %s has no %s" % (v.args[0], name), node)
                return [(st, mk("missing", v.args[0] + "." + name))]
            m = self.p.modules[v.args[0]]
            if (m.name, name) in st.globals:
                return [(st, st.globals[(m.name, name)])]
            return [(st, self.resolved(st, r, v.args[0] + "." + name))]
        if op == "ext":
            d = v.args[0] + "." + name
            for a, b in SUBMOD.items():
                if d.startswith(a):
                    d = b + d[len(a):]
            return [(st, ext(d))]
        if op == "class":
            cls = self.p.classes[v.args[0]]
            if name == "__name__":
                return [(st, const(cls.name))]
            if (v, "attr", name) in st.mem:
                return [(st, st.mem[(v, "attr", name)])]
            d, m = cls.lookup(name)
            if isinstance(m, Func):
                if m.deco("classmethod"):
                    return [(st, mk("bound", v, m.qual))]
                return [(st, mk("func", m.qual))]
            return [(st, self.class_attr(st, cls, name))]
        if op == "super":
            cls, selfv, after = self.p.classes[v.args[0]], v.args[1], self.p.classes[v.args[2]]
            d, m = cls.lookup(name, after)
            if isinstance(m, Func):
                if self.descriptor(m):
                    return self.call_func(st, m, [("v", selfv)], [], node)
                if m.deco("staticmethod"):
                    return [(st, mk("func", m.qual))]
                return [(st, mk("bound", selfv, m.qual))]
            if m is not None and not isinstance(m, tuple):
                return [(st, self.class_attr(st, d, name))]
            return [(st, mk("boundext", selfv, "super." + name))]
        h = self.hobj(st, v)
        if h is not None and h.kind == "obj" and h.cls is not None:
            cls = h.cls
            if name == "__class__":
                return [(st, mk("class", cls.qual))]
            if name == "__dict__":
                return [(st, mk("attr", self.identity(st, v), name))]
            d, m = cls.lookup(name)
            if m is not None and self.descriptor(m):
                if m.deco("abstractmethod") and len([x for x in cls.mro if isinstance(x, Class)]) >= 1 \
                        and self._trivial(m):
                    return [(st, h.attrs.get(name) or mk("attr", self.identity(st, v), name))]
                if any(q in self.opaque for q in (m.qual,)):
                    return [(st, mk("attr", self.identity(st, v), name))]
                return self.call_func(st, m, [("v", v)], [], node)
            if name in h.attrs:
                return [(st, h.attrs[name])]
            if isinstance(m, Func):
                if m.deco("staticmethod"):
                    return [(st, mk("func", m.qual))]
                if m.deco("classmethod"):
                    return [(st, mk("bound", mk("class", cls.qual), m.qual))]
                return [(st, mk("bound", v, m.qual))]
            if isinstance(m, Class):
                return [(st, mk("class", m.qual))]
            if m is not None:
                if h.sym and name not in self.dynamic_names(cls) and not self._class_only(cls, name):
                    return [(st, mk("attr", param(h.sym), name))]
                return [(st, self.class_attr(st, cls, name))]
            if name in self.dynamic_names(cls):
                return [(st, self.class_attr(st, cls, name))]
            if not h.sym and not cls.external_bases():
                self.note(st, "attribute %s of %s read before assignment" % (name, cls.name), node)
            return [(st, mk("attr", self.identity(st, v), name))]
        if h is not None:
            return [(st, mk("boundext", v, name))]
        if (v, "attr", name) in st.mem:
            return [(st, st.mem[(v, "attr", name)])]
        if op == "attr" and v.args[1] == "__class__" and name == "__name__":
            return [(st, mk("attr", v, name))]
        if op == "closure" and name in ("__name__", "__qualname__", "__doc__"):
            return [(st, const(self.closures[v.args[0]][0].name))]
        if op == "func" and name in ("__name__",):
            return [(st, const(v.args[0].rsplit(".", 1)[-1]))]
        e = self.event(st, "getattr", name=name, base=v, node=node)
        if name == "T":
            return [(st, mk("call", "numpy.transpose", (self.freeze(st, v),), ()))]
        return [(st, mk("attr", self.freeze(st, v), name))]

    def _class_only(self, cls, name):
        """the class attribute is never shadowed by an instance assignment in the hierarchy"""
        for c in cls.mro:
            if isinstance(c, Class):
                for m in c.members.values():
                    if isinstance(m, Func) and m.node.args.args:
                        sn = m.node.args.args[0].arg
                        for n in ast.walk(m.node):
                            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and n.attr == name \
                                    and isinstance(n.value, ast.Name) and n.value.id == sn:
                                return False
        return True

    @staticmethod
    def _trivial(m):
        body = [s for s in m.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
        return all(isinstance(s, (ast.Pass, ast.Raise)) for s in body)

    def setattr(self, st, v, name, val, node=None, aug=False):
        h = self.hobj(st, v)
        self.event(st, "setattr", name=name, base=v, value=val, node=node, extra="aug" if aug else None)
        if h is not None and h.kind == "obj":
            d, m = h.cls.lookup(name + ".setter") if h.cls else (None, None)
            if isinstance(m, Func):
                return [s for s, _ in self.call_func(st, m, [("v", v), ("v", val)], [], node)]
            h = h.copy()
            h.attrs[name] = val
            st.heap[v] = h
            return [st]
        st.mem[(v, "attr", name)] = val
        return [st]

    def setitem(self, st, v, i, val, node=None, aug=False):
        h = self.hobj(st, v)
        i = self.freeze(st, i)
        self.event(st, "setitem", base=v, args=(i,), value=val, node=node, extra="aug" if aug else None)
        if h is not None and h.kind == "obj" and h.cls is not None:
            d, m = h.cls.lookup("__setitem__")
            if isinstance(m, Func):
                return [s for s, _ in self.call_func(st, m, [("v", v), ("v", i), ("v", val)], [], node)]
        if h is not None and h.kind == "dict":
            self.dict_set(st, v, i, val)
            return [st]
        if h is not None and h.kind == "list":
            h = h.copy()
            if is_const(i) and isinstance(i.args[0], int) and -len(h.segs) <= i.args[0] < len(h.segs) \
                    and all(s[0] == "item" for s in h.segs):
                segs = list(h.segs)
                segs[i.args[0]] = ("item", val)
                h.segs = tuple(segs)
            else:
                h.segs = (("splice", mk("setitem", self.freeze(st, v), i, self.freeze(st, val))),)
            st.heap[v] = h
            return [st]
        base = self.identity(st, v)
        if base.op == "newarr":
            val = self.freeze(st, val)
            if base in st.muts:
                st.muts[base] += (("__setitem__", (i, val)),)
            else:
                st.stores[base] = st.stores.get(base, ()) + (("at", i, val),)
            return [st]
        for k in [k for k in st.mem if k[0] == base and k[1] == "item" and k[2] != i
                  and not (is_const(k[2]) and is_const(i))]:
            del st.mem[k]
        st.mem[(base, "item", i)] = val
        return [st]

    # ============================================================ calls
    def ev_Call(self, node, st):
        # receiver / callee
        out = []
        fnode = node.func
        if isinstance(fnode, ast.Name) and fnode.id == "super":
            heads = [(st, mk("builtin", "super"))]
        elif isinstance(fnode, ast.Attribute):
            heads = []
            for s, v in self.ev(fnode.value, st):
                heads.extend(self.method_head(s, v, fnode.attr, fnode))
        else:
            heads = self.ev(fnode, st)
        for s, f in heads:
            nodes = [a.value if isinstance(a, ast.Starred) else a for a in node.args] + [k.value for k in node.keywords]
            for s2, vs in self.ev_list(nodes, s):
                pos = [("*" if isinstance(a, ast.Starred) else "v", v) for a, v in zip(node.args, vs)]
                kw = [(k.arg if k.arg is not None else "**", v) for k, v in zip(node.keywords, vs[len(node.args):])]
                out.extend(self.call(s2, f, pos, kw, node))
        return out

    def method_head(self, st, v, name, node):
        """callee for v.name(...): a method call on an opaque value stays a (receiver, name) pair"""
        h = self.hobj(st, v)
        if h is not None or v.op in ("module", "ext", "class", "super") or (v, "attr", name) in st.mem:
            return self.getattr(st, v, name, node)
        return [(st, mk("attr", v, name))]

    def expand_pos(self, st, pos):
        """-> (values, opaque rest term or None)"""
        vals, rest = [], None
        for k, v in pos:
            if k == "v":
                if rest is not None:
                    rest = mk("append", rest, self.freeze(st, v))
                else:
                    vals.append(v)
                continue
            for sg in self.iter_segs(st, v):
                if sg[0] == "item" and rest is None:
                    vals.append(sg[1])
                elif rest is None:
                    rest = self.freeze(st, sg[1])
                else:
                    rest = mk("append", rest, self.freeze(st, sg[1]))
        return vals, rest

    def expand_kw(self, st, kw):
        """-> (ordered dict name->value, [opaque merge terms])"""
        d, merges = {}, []
        for k, v in kw:
            if k != "**":
                d[k] = v
                continue
            h = self.hobj(st, v)
            segs = h.segs if h is not None and h.kind == "dict" else None
            if segs is None:
                t = self.freeze(st, v)
                segs = t.args[0] if t.op == "dictv" else (("merge", t),)
            for sg in segs:
                if sg[0] == "kv" and is_const(sg[1]):
                    d[sg[1].args[0]] = sg[2]
                elif sg[0] == "kv":
                    merges.append(mk("dictv", (("kv", sg[1], self.freeze(st, sg[2])),)))
                else:
                    # a later merge may override earlier explicit entries
                    t = self.freeze(st, sg[1])
                    for n in list(d):
                        d[n] = mk("kwget", t, const(n), self.freeze(st, d[n]))
                    merges.append(t)
        return d, merges

    def call(self, st, f, pos, kw, node=None):
        op = f.op
        if op == "func":
            return self.call_func(st, self.p.funcs[f.args[0]], pos, kw, node)
        if op == "bound":
            return self.call_func(st, self.p.funcs[f.args[1]], [("v", f.args[0])] + list(pos), kw, node)
        if op == "closure":
            fn, env = self.closures[f.args[0]]
            return self.call_func(st, fn, pos, kw, node, env=env)
        if op == "partial":
            pp = [("v", x) for x in f.args[1]]
            pk = [(k, v) for k, v in f.args[2] if k not in dict(kw)]
            return self.call(st, f.args[0], pp + list(pos), pk + list(kw), node)
        if op == "class":
            return self.instantiate(st, self.p.classes[f.args[0]], pos, kw, node)
        if op == "builtin":
            return self.call_builtin(st, f.args[0], pos, kw, node)
        if op == "ext":
            return self.call_ext(st, f.args[0], pos, kw, node)
        if op == "boundext":
            return self.call_heap(st, f.args[0], f.args[1], pos, kw, node)
        if op == "attr":
            return self.call_meth(st, f.args[0], f.args[1], pos, kw, node)
        h = self.hobj(st, f)
        if h is not None and h.kind == "obj" and h.cls is not None:
            d, m = h.cls.lookup("__call__")
            if isinstance(m, Func):
                return self.call_func(st, m, [("v", f)] + list(pos), kw, node)
        a, k = self.flat_args(st, pos, kw)
        ff = self.freeze(st, f)
        t = mk("callv", ff, a, k)
        self.event(st, "callv", base=ff, args=a, kwargs=k, value=t, node=node)
        return [(st, t)]

    def flat_args(self, st, pos, kw):
        vals, rest = self.expand_pos(st, pos)
        a = list(self.fz(st, vals))
        if rest is not None:
            a.append(mk("star", rest))
        d, merges = self.expand_kw(st, kw)
        k = [(n, self.freeze(st, v)) for n, v in d.items()]
        k.sort(key=lambda x: x[0])
        k += [("**", m) for m in merges]
        return tuple(a), tuple(k)

    # ------------------------------------------------------------ user functions
    def bind(self, st, fn, pos, kw, node):
        """parameter name -> value"""
        a = fn.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        vals, rest = self.expand_pos(st, pos)
        d, merges = self.expand_kw(st, kw)
        out = {}
        bad = None
        for i, n in enumerate(names):
            if i < len(vals):
                out[n] = vals[i]
                if n in d:
                    bad = "multiple values for argument %s" % n
            elif rest is not None and n not in d:
                out[n] = item(rest, const(i - len(vals)))
        if a.vararg:
            extra = vals[len(names):]
            if rest is not None:
                out[a.vararg.arg] = rest if not extra else \
                    self.alloc(st, HObj("list", tuple(("item", x) for x in extra) + (("splice", rest),), tag="tuple"))
            else:
                out[a.vararg.arg] = mk("tuple", tuple(extra))
        elif len(vals) > len(names):
            bad = "too many positional arguments"
        kwonly = [x.arg for x in a.kwonlyargs]
        for n in names[len(a.posonlyargs):] + kwonly:
            if n in d and n not in out:
                out[n] = d.pop(n)
        defaults = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        for x, dn in zip(a.kwonlyargs, a.kw_defaults):
            if dn is not None:
                defaults[x.arg] = dn
        for n in names + kwonly:
            if n in out:
                continue
            dv = self.default_value(st, fn, n, defaults[n]) if n in defaults else None
            if merges:
                v = dv if dv is not None else mk("required", const(n))
                for m in merges:
                    v = mk("kwget", m, const(n), self.freeze(st, v))
                out[n] = v
            elif dv is not None:
                out[n] = dv
            else:
                bad = "missing argument %s" % n
                out[n] = mk("missingarg", const(n))
        if a.kwarg:
            if merges and not d and len(merges) == 1:
                t = merges[0]
                taken = tuple(sorted(names + kwonly))
                out[a.kwarg.arg] = mk("rest", t, taken) if [n for n in taken if n not in ("self", "cls")] else t
            else:
                segs = [("kv", const(n), v) for n, v in d.items()]
                taken = tuple(sorted(names + kwonly))
                segs = [("merge", mk("rest", m, taken)) for m in merges] + segs
                out[a.kwarg.arg] = self.new_dict(st, segs)
        else:
            if d:
                bad = "unexpected keyword %s" % ", ".join(map(str, d))
        if bad:
            self.note(st, "call of %s: %s" % (fn.qual, bad), node)
        return out

    def default_value(self, st, fn, name, dn):
        if isinstance(dn, ast.Constant):
            return const(dn.value)
        key = ("default", fn.qual, name)
        if key in st.globals:
            return st.globals[key]
        st.frames.append({"__module__": fn.module, "__closure__": None})
        n0 = len(st.events)
        v = self.ev(dn, st)[0][1]
        st.frames.pop()
        del st.events[n0:]
        h = self.hobj(st, v)
        if h is not None:
            h = h.copy()
            h.tag = "default:%s(%s)" % (fn.qual, name)
            st.heap[v] = h
        st.globals[key] = v
        return v

    def is_opaque(self, fn):
        if fn.qual in self.opaque:
            return True
        if self.no_inline is not None and self.no_inline(fn):
            return True
        if fn.deco("guvectorize", "vectorize"):
            return True
        if sum(1 for f in self.callstack if f is fn) >= 2:
            return True
        return len(self.callstack) >= MAXDEPTH

    def call_func(self, st, fn, pos, kw, node=None, env=None):
        args = self.bind(st, fn, pos, kw, node)
        if self.is_opaque(fn):
            a = fn.node.args
            k = []
            for x in a.posonlyargs + a.args + a.kwonlyargs:
                k.append((x.arg, self.freeze(st, args[x.arg])))
            if a.vararg and args[a.vararg.arg] != mk("tuple", ()):
                k.append(("*" + a.vararg.arg, self.freeze(st, args[a.vararg.arg])))
            if a.kwarg and self.freeze(st, args[a.kwarg.arg]) != mk("dictv", ()):
                k.append(("**" + a.kwarg.arg, self.freeze(st, args[a.kwarg.arg])))
            t = mk("call", fn.qual, (), tuple(k))
            self.event(st, "call", name=fn.qual, kwargs=tuple(k), value=t, node=node)
            return [(st, t)]
        e = self.event(st, "fn", name=fn.qual, kwargs=tuple((k, v) for k, v in args.items()), node=node)
        outs = self.run_func(st, fn, args, env)
        res = []
        for o in outs:
            if o.kind == "raise":
                if self._exc:
                    self._exc[-1].append(o)
                continue
            s = o.st
            self.event(s, "fnret", name=fn.qual, value=o.val, node=node)
            res.append((s, o.val))
        return self.merge_pairs(res)

    def run_func(self, st, fn, args, env=None):
        """inline; returns return/raise outcomes with the frame popped"""
        self.inlined.add(fn.qual)
        fr = dict(args)
        fr["__module__"] = fn.module
        fr["__closure__"] = env
        fr["__fn__"] = fn
        fr["__fid__"] = self.fresh()
        y = None
        st.frames.append(fr)
        if isinstance(fn.node, ast.Lambda):
            self.callstack.append(fn)
            self._exc.append([])
            res = self.ev(fn.node.body, st)
            exc = self._exc.pop()
            self.callstack.pop()
            outs = [Outcome("return", s, v, fn.node, fn) for s, v in res] + exc
        else:
            if fn.is_generator:
                y = self.new_list(st)
                fr["__yields__"] = y
            self.callstack.append(fn)
            outs = self.block(fn.node.body, st)
            self.callstack.pop()
        final = []
        for o in outs:
            if o.kind == "fall":
                o = Outcome("return", o.st, NONE, fn.node, fn)
            if o.kind == "return" and y is not None:
                o = Outcome("return", o.st, y, o.node, o.fn)
            depth = len(st.frames)
            o.st.frames.pop()
            final.append(o)
        if len(final) > self.maxpaths:
            self.truncated = True
            final = final[:self.maxpaths]
        return final

    def instantiate(self, st, cls, pos, kw, node):
        enum = any(isinstance(b, str) and b.split(".")[-1] in ("Enum", "IntEnum", "IntFlag") for b in cls.mro)
        if enum or ("class:" + cls.qual) in self.opaque or cls.qual in self.opaque:
            a, k = self.flat_args(st, pos, kw)
            t = mk("call", cls.qual, a, k)
            self.event(st, "new", name=cls.qual, args=a, kwargs=k, value=t, node=node)
            return [(st, t)]
        d, new = cls.lookup("__new__")
        if isinstance(new, Func):
            res = self.call_func(st, new, [("v", mk("class", cls.qual))] + list(pos), kw, node)
            out = []
            for s, v in res:
                h = self.hobj(s, v)
                if h is not None and h.kind == "obj" and h.cls is not None and cls in h.cls.mro:
                    out.extend(self.init(s, v, h.cls, pos, kw, node))
                else:
                    a, k = self.flat_args(s, pos, kw)
                    self.event(s, "new", name=cls.qual, args=a, kwargs=k, value=v, node=node)
                    out.append((s, v))
            return out
        r = self.alloc(st, HObj("obj", cls=cls, attrs={}))
        a, k = self.flat_args(st, pos, kw)
        self.event(st, "new", name=cls.qual, args=a, kwargs=k, value=r, node=node)
        return self.init(st, r, cls, pos, kw, node)

    def init(self, st, r, cls, pos, kw, node):
        d, m = cls.lookup("__init__")
        if isinstance(m, Func):
            return [(s, r) for s, _ in self.call_func(st, m, [("v", r)] + list(pos), kw, node)]
        return [(st, r)]

    # ------------------------------------------------------------ merging
    def same_effects(self, a, b):
        if len(a.events) != len(b.events) or len(a.frames) != len(b.frames):
            return False
        if any(x is not y for x, y in zip(a.events, b.events)):
            return False
        for f, g in zip(a.frames, b.frames):
            if f.keys() != g.keys() or any(f[k] is not g[k] for k in f):
                return False
        if a.mem != b.mem or a.muts != b.muts or a.stores != b.stores:
            return False
        for k in a.heap.keys() & b.heap.keys():
            x, y = a.heap[k], b.heap[k]
            if x is not y and (x.segs != y.segs or x.attrs != y.attrs):
                return False
        for k in a.heap.keys() ^ b.heap.keys():
            return False
        return True

    def merge_two(self, a, b):
        """a absorbs b (same effects): keep only common knowledge"""
        n = 0
        while n < len(a.conds) and n < len(b.conds) and a.conds[n] == b.conds[n]:
            n += 1
        # (C and x), (C and not x)  ->  C ; otherwise keep the common prefix
        a.conds = a.conds[:n]
        a.facts = {k: v for k, v in a.facts.items() if b.facts.get(k) == v}
        a.bounds = {k: v for k, v in a.bounds.items() if b.bounds.get(k) == v}
        a.notes = a.notes + [x for x in b.notes if x not in a.notes]

    def complementary(self, a, b):
        n = 0
        while n < len(a.conds) and n < len(b.conds) and a.conds[n] == b.conds[n]:
            n += 1
        ra, rb = a.conds[n:], b.conds[n:]
        return len(ra) == 1 and len(rb) == 1 and ra[0][0] is rb[0][0] and ra[0][1] != rb[0][1]

    def merge_pairs(self, res):
        if len(res) < 2:
            return res
        changed = True
        while changed:
            changed = False
            for i in range(len(res)):
                for j in range(i + 1, len(res)):
                    a, b = res[i], res[j]
                    if a[1] is b[1] and self.complementary(a[0], b[0]) and self.same_effects(a[0], b[0]):
                        self.merge_two(a[0], b[0])
                        res = res[:j] + res[j + 1:]
                        changed = True
                        break
                if changed:
                    break
        return res

    def merge_outs(self, outs):
        if len(outs) < 2:
            return outs
        changed = True
        while changed:
            changed = False
            for i in range(len(outs)):
                for j in range(i + 1, len(outs)):
                    a, b = outs[i], outs[j]
                    if a.kind == b.kind and a.val is b.val and a.node is b.node and self.complementary(a.st, b.st) \
                            and self.same_effects(a.st, b.st):
                        self.merge_two(a.st, b.st)
                        outs = outs[:j] + outs[j + 1:]
                        changed = True
                        break
                if changed:
                    break
        return outs

    # ------------------------------------------------------------ builtins
    def opaque_call(self, st, name, pos, kw, node):
        a, k = self.flat_args(st, pos, kw)
        t = mk("call", name, a, k)
        if name not in IGNORED:
            self.event(st, "call", name=name, args=a, kwargs=k, value=t, node=node)
        return [(st, t)]

    def map_loop(self, st, it, fnode_call, node, cond_only=False):
        """list built by calling fnode_call(state, element) -> [(state, value)] for each element"""
        r = self.alloc(st, HObj("list"))
        tgt = "__el%d" % self.fresh()

        def body(s):
            outs = []
            el = s.frames[-1][tgt]
            for s2, v in fnode_call(s, el):
                if cond_only:
                    for s3, b in self.fork(s2, self.truth_atom(s2, v)):
                        if b:
                            h = s3.heap[r].copy()
                            h.segs = h.segs + (("item", el),)
                            s3.heap[r] = h
                        outs.append(Outcome("fall", s3))
                    continue
                h = s2.heap[r].copy()
                h.segs = h.segs + (("item", v),)
                s2.heap[r] = h
                outs.append(Outcome("fall", s2))
            return outs
        res = []
        for o in self.loop(st, it, ast.Name(tgt, ast.Store()), body, {tgt}, node):
            if o.kind == "fall":
                o.st.frames[-1].pop(tgt, None)
                res.append((o.st, r))
            elif self._exc:
                self._exc[-1].append(o)
        return res

    def call_builtin(self, st, name, pos, kw, node):
        vals, rest = self.expand_pos(st, pos)
        if rest is not None and name not in ("print",):
            return self.opaque_call(st, name, pos, kw, node)
        n = len(vals)
        kwd = dict(kw)
        fz = lambda i: self.freeze(st, vals[i])
        if name == "print":
            return [(st, NONE)]
        if name == "len" and n == 1:
            h = self.hobj(st, vals[0])
            if h is not None and h.kind == "obj" and h.cls is not None:
                d, m = h.cls.lookup("__len__")
                if isinstance(m, Func):
                    return self.call_func(st, m, [("v", vals[0])], [], node)
            if h is not None and h.kind == "list":
                t = const(0)
                for sg in h.segs:
                    t = add(t, const(1) if sg[0] == "item" else length(self.freeze(st, sg[1])))
                return [(st, t)]
            return [(st, length(fz(0)))]
        if name == "range" and 1 <= n <= 3:
            a = [fz(i) for i in range(n)]
            if all(is_num(x) for x in a):
                seq = range(*[int(x.args[0]) for x in a])
                if len(seq) <= 16:
                    return [(st, self.new_list(st, [const(i) for i in seq], tag="tuple"))]
            return [(st, rng(*a))]
        if name == "enumerate" and n >= 1:
            start = vals[1] if n > 1 else kwd.get("start", const(0))
            segs = self.iter_segs(st, vals[0])
            if all(s[0] == "item" for s in segs):
                return [(st, self.new_list(st, [tup(add(self.freeze(st, start), const(i)), s[1])
                                                for i, s in enumerate(segs)], tag="tuple"))]
            return [(st, mk("enumerate", self.iter_norm(st, vals[0]), self.freeze(st, start)))]
        if name == "zip" and n >= 1:
            segs = [self.iter_segs(st, v) for v in vals]
            if any(all(s[0] == "item" for s in sg) and sg for sg in segs):
                m = min(len(sg) for sg in segs if all(s[0] == "item" for s in sg))
                rows = []
                for i in range(m):
                    row = []
                    for v, sg in zip(vals, segs):
                        if all(s[0] == "item" for s in sg):
                            row.append(sg[i][1])
                        else:
                            row.append(item(self.freeze(st, v), const(i)))
                    rows.append(tup(*row))
                return [(st, self.new_list(st, rows, tag="tuple"))]
            if any(not sg for sg in segs):
                return [(st, mk("tuple", ()))]
            return [(st, mk("zip", tuple(self.iter_norm(st, v) for v in vals)))]
        if name in ("list", "tuple", "set", "frozenset"):
            kind = "set" if name in ("set", "frozenset") else "list"
            if n == 0:
                if name == "tuple":
                    return [(st, mk("tuple", ()))]
                return [(st, self.alloc(st, HObj(kind)))]
            if isinstance(vals[0], Term) and vals[0].op == "meth":
                self.event(st, "consume", name, vals[0], node=node)
            segs = tuple(self.iter_segs(st, vals[0]))
            if name == "tuple" and all(s[0] == "item" for s in segs):
                return [(st, mk("tuple", tuple(s[1] for s in segs)))]
            if kind == "set":
                uniq = []
                for s in segs:
                    if s not in uniq:
                        uniq.append(s)
                segs = tuple(uniq)
            return [(st, self.alloc(st, HObj(kind, segs, tag="tuple" if name == "tuple" else None)))]
        if name == "dict":
            r = self.new_dict(st)
            if n == 1:
                h = self.hobj(st, vals[0])
                if h is not None and h.kind == "list":
                    for sg in h.segs:
                        if sg[0] == "item" and sg[1].op == "tuple" and len(sg[1].args[0]) == 2:
                            self.dict_set(st, r, *sg[1].args[0])
                        else:
                            self.dict_merge(st, r, mk("pairs", self.freeze(st, sg[1])))
                else:
                    t = self.freeze(st, vals[0])
                    if t.op in ("zip", "comp"):
                        t = mk("pairs", t)
                        self.dict_merge(st, r, t)
                    else:
                        self.dict_merge(st, r, vals[0])
            for k, v in kw:
                if k == "**":
                    self.dict_merge(st, r, v)
                else:
                    self.dict_set(st, r, const(k), v)
            return [(st, r)]
        if name in ("map", "filter") and n == 2:
            f = vals[0]
            if name == "map":
                return self.map_loop(st, vals[1], lambda s, e: self.call(s, f, [("v", e)], [], node), node)
            if f == NONE:
                return self.map_loop(st, vals[1], lambda s, e: [(s, e)], node, True)
            return self.map_loop(st, vals[1], lambda s, e: self.call(s, f, [("v", e)], [], node), node, True)
        if name == "isinstance" and n == 2:
            return [(st, self.isinst(st, vals[0], vals[1]))]
        if name == "issubclass" and n == 2 and vals[0].op == "class" and vals[1].op == "class":
            return [(st, const(self.p.classes[vals[1].args[0]] in self.p.classes[vals[0].args[0]].mro))]
        if name == "hasattr" and n == 2 and is_const(vals[1]):
            h = self.hobj(st, vals[0])
            nm = vals[1].args[0]
            if h is not None and h.kind == "obj":
                if nm in h.attrs or (h.cls and h.cls.lookup(nm)[1] is not None):
                    return [(st, TRUE)]
                if not h.sym and not h.cls.external_bases():
                    return [(st, FALSE)]
            return [(st, mk("call", "hasattr", (fz(0), vals[1]), ()))]
        if name == "getattr" and n >= 2:
            if is_const(vals[1]) and isinstance(vals[1].args[0], str):
                if n == 2:
                    return self.getattr(st, vals[0], vals[1].args[0], node)
                h = self.hobj(st, vals[0])
                nm = vals[1].args[0]
                if h is not None and h.kind == "obj" and (nm in h.attrs or (
                        h.cls and (h.cls.lookup(nm)[1] is not None or nm in self.dynamic_names(h.cls)))):
                    return self.getattr(st, vals[0], nm, node)
                if (vals[0], "attr", nm) in st.mem:
                    return [(st, st.mem[(vals[0], "attr", nm)])]
            a, k = self.flat_args(st, pos, kw)
            t = mk("call", "getattr", a, k)
            self.event(st, "getattr", name=a[1], base=vals[0], value=t, node=node)
            return [(st, t)]
        if name == "setattr" and n == 3:
            if is_const(vals[1]):
                return [(s, NONE) for s in self.setattr(st, vals[0], vals[1].args[0], vals[2], node)]
            self.event(st, "setattr", name=fz(1), base=vals[0], value=vals[2], node=node)
            st.mem[(self.identity(st, vals[0]), "attr", fz(1))] = vals[2]
            return [(st, NONE)]
        if name == "super":
            fn = self.callstack[-1] if self.callstack else None
            fr = st.frames[-1]
            cur = None
            f = fn
            while f is not None and f.cls is None:
                f = f.outer
            if n >= 1 and vals[0].op == "class":
                cur = self.p.classes[vals[0].args[0]]
            elif f is not None:
                cur = f.cls
            selfv = None
            if n >= 2:
                selfv = vals[1]
            elif f is not None and f.node.args.args:
                selfv = fr.get(f.node.args.args[0].arg)
            if cur is None or selfv is None:
                return [(st, mk("unknown", self.fresh()))]
            h = self.hobj(st, selfv)
            inst = h.cls if h is not None and h.cls is not None else \
                (self.p.classes[selfv.args[0]] if selfv.op == "class" else cur)
            if cur not in inst.mro:
                inst = cur
            return [(st, mk("super", inst.qual, selfv, cur.qual))]
        if name == "type" and n == 1:
            h = self.hobj(st, vals[0])
            if h is not None and h.kind == "obj" and h.cls is not None:
                return [(st, mk("class", h.cls.qual))]
            return [(st, mk("attr", fz(0), "__class__"))]
        if name in ("int", "float", "str", "bool", "abs", "round") and n == 1 and not kw:
            v = fz(0)
            if name == "str":
                if is_const(v) and isinstance(v.args[0], str):
                    return [(st, v)]
                return [(st, fstr([(v, "", "")]))]
            if is_const(v):
                try:
                    return [(st, const({"int": int, "float": float, "bool": bool, "abs": abs, "round": round}[name](v.args[0])))]
                except Exception:
                    pass
            if name == "bool":
                return [(st, self.truth_atom(st, vals[0]))]
            if name == "float":
                t = mk("call", "float", (v,), ())
                return [(st, v if v.op in ("len",) else t)]
            if name == "int" and (v.op == "len" or (v.op == "call" and v.args[0] == "int")):
                return [(st, v)]
            t = mk("call", name, (v,), ())
            return [(st, t)]
        if name == "iter" and n == 1:
            return [(st, vals[0])]
        if name == "next" and n >= 1:
            segs = self.iter_segs(st, vals[0])
            if segs and segs[0][0] == "item":
                return [(st, segs[0][1])]
            t = mk("call", "next", tuple(self.fz(st, vals)), ())
            self.event(st, "call", name="next", args=self.fz(st, vals), value=t, node=node)
            return [(st, t)]
        if name == "divmod" and n == 2 and not kw and rest is None:
            return [(st, mk("tuple", (floordiv(fz(0), fz(1)), mod(fz(0), fz(1)))))]
        if name in ("exit", "quit"):
            self.raise_now(st, mk("call", "SystemExit", tuple(self.fz(st, vals)), ()), node)
            return []
        if name == "callable" and n == 1 and vals[0].op in ("func", "closure", "bound", "class"):
            return [(st, TRUE)]
        if name in ("min", "max") and n >= 2 and not kw:
            a = [fz(i) for i in range(n)]
            if all(is_num(x) for x in a):
                return [(st, const((min if name == "min" else max)(x.args[0] for x in a)))]
            return [(st, mk("call", name, tuple(sorted(a)), ()))]
        if name in ("classmethod", "staticmethod", "property"):
            return [(st, vals[0] if vals else NONE)]
        if name == "any" or name == "all" or name == "sum" or name == "sorted":
            a, k = self.flat_args(st, pos, kw)
            t = mk("call", name, a, k)
            self.event(st, "call", name=name, args=a, kwargs=k, value=t, node=node)
            return [(st, t)]
        return self.opaque_call(st, name, pos, kw, node)

    def raise_now(self, st, exc, node):
        fn = self.callstack[-1] if self.callstack else None
        self.event(st, "raise", value=exc, node=node)
        if self._exc:
            self._exc[-1].append(Outcome("raise", st, exc, node, fn))

    def type_names(self, st, v):
        h = self.hobj(st, v)
        if v.op == "tuple":
            return sum((self.type_names(st, x) for x in v.args[0]), [])
        if h is not None and h.kind == "list":
            return sum((self.type_names(st, s[1]) for s in h.segs), [])
        if v.op in ("class", "builtin", "ext"):
            return [v.args[0]]
        return [show(self.freeze(st, v))]

    def isinst(self, st, v, t):
        names = self.type_names(st, t)
        h = self.hobj(st, v)
        if h is not None and h.kind == "obj" and h.cls is not None:
            for n in names:
                if n in self.p.classes and self.p.classes[n] in h.cls.mro:
                    return TRUE
                if n in h.cls.mro:
                    return TRUE
            if not h.sym and not h.cls.external_bases():
                return FALSE
        kind = None
        if h is not None and h.kind in ("list", "set", "dict"):
            kind = "tuple" if h.tag == "tuple" else h.kind
        elif v.op == "tuple":
            kind = "tuple"
        elif is_const(v):
            kind = type(v.args[0]).__name__
        elif v.op == "fstr":
            kind = "str"
        if kind is not None and all(n in ("list", "tuple", "dict", "set", "str", "int", "float", "bool", "bytes") for n in names):
            return const(kind in names or (kind == "bool" and "int" in names))
        return mk("isinstance", self.freeze(st, v), tuple(sorted(names)))

    # ------------------------------------------------------------ external functions
    def np_args(self, st, fname, pos, kw):
        """keyword form of a numpy call or None"""
        sig = NPSIG.get(fname)
        if sig is None:
            return None
        vals, rest = self.expand_pos(st, pos)
        d, merges = self.expand_kw(st, kw)
        if rest is not None or merges or len(vals) > len(sig):
            return None
        out = dict(zip(sig, vals))
        out.update(d)
        return {k: self.freeze(st, v) for k, v in out.items()}

    def call_ext(self, st, name, pos, kw, node):
        last = name.rsplit(".", 1)[-1]
        vals, rest = self.expand_pos(st, pos)
        if name in ("tqdm.tqdm", "tqdm.auto.tqdm", "tqdm.trange", "tqdm.auto.trange", "tqdm", "trange"):
            if last == "trange":
                return self.call_builtin(st, "range", pos, [], node)
            if vals:
                return [(st, vals[0])]
            it = dict(kw).get("iterable")
            if it is not None:
                return [(st, it)]
        if name == "numba.prange":
            return self.call_builtin(st, "range", pos, kw, node)
        if name in ("collections.OrderedDict", "collections.UserDict"):
            return self.call_builtin(st, "dict", pos, kw, node)
        if name in ("numba.typed.Dict.empty", "numba.typed.Dict", "numba.typed.typeddict.Dict.empty"):
            return [(st, self.new_dict(st))]
        if name in ("numba.typed.List", "numba.typed.List.empty_list"):
            return self.call_builtin(st, "list", pos if name.endswith("List") else [], [], node)
        if name == "collections.defaultdict":
            r = self.alloc(st, HObj("dict", default=vals[0] if vals else None))
            return [(st, r)]
        if name in ("collections.deque",) and not vals and not kw:
            return [(st, self.new_list(st))]
        if name == "functools.partial" and vals:
            return [(st, mk("partial", vals[0], tuple(vals[1:]), tuple(kw)))]
        if name in ("sys.exit", "os._exit"):
            self.raise_now(st, mk("call", "SystemExit", tuple(self.fz(st, vals)), ()), node)
            return []
        if name in ("copy.copy", "copy.deepcopy") and len(vals) == 1:
            h = self.hobj(st, vals[0])
            if h is not None and h.kind in ("dict", "list", "set") and (last == "copy" or not any(
                    isinstance(x, Term) and x.op == "ref" for s in h.segs for x in s[1:])):
                h = h.copy()
                h.tag = None
                return [(st, self.alloc(st, h))]
            t = mk("newarr", mk("call", name, tuple(self.fz(st, vals)), ()), self.fresh())
            self.event(st, "call", name=name, args=self.fz(st, vals), value=t, node=node)
            return [(st, t)]
        if name in ("math.sqrt", "numpy.sqrt") and len(vals) == 1 and not kw:
            t = mk("call", "sqrt", (self.freeze(st, vals[0]),), ())
            self.event(st, "call", name=name, args=t.args[1], value=t, node=node)
            return [(st, t)]
        if name.startswith("numpy."):
            return self.call_numpy(st, name, pos, kw, vals, rest, node)
        if name in ("itertools.chain",) and vals:
            segs = sum((self.iter_segs(st, v) for v in vals), [])
            return [(st, self.alloc(st, HObj("list", tuple(segs))))]
        if name == "warnings.warn" or name.startswith("logging."):
            return [(st, NONE)]
        return self.opaque_call(st, name, pos, kw, node)

    def call_numpy(self, st, name, pos, kw, vals, rest, node):
        fname = name[len("numpy."):]
        fname = NPALIAS.get(fname, fname)
        d = dict(kw)
        if rest is None and "**" not in d:
            if fname in NPBIN and len(vals) == 2 and not d:
                return [(st, self.binop(st, NPBIN[fname](), vals[0], vals[1], node))]
            if fname in NPBIN and (len(vals) == 3 or "out" in d) and len(vals) >= 2:
                v = self.freeze(st, self.binop(st, NPBIN[fname](), vals[0], vals[1], node))
                return self.np_out(st, fname, vals[2] if len(vals) == 3 else d["out"], v, node)
            if fname in NPCMP and len(vals) == 2 and not d:
                return [(st, self.compare(st, NPCMP[fname], vals[0], vals[1]))]
            if fname in ("logical_or", "logical_and", "bitwise_or", "bitwise_and") and len(vals) >= 2:
                v = mk("bitor" if fname.endswith("_or") else "bitand", *sorted(self.fz(st, vals[:2])))
                out = vals[2] if len(vals) == 3 else d.get("out")
                self.event(st, "call", name="numpy." + fname, args=self.fz(st, vals[:2]), value=v, node=node)
                if out is not None and out != NONE:
                    return self.np_out(st, fname, out, v, node)
                return [(st, v)]
            if fname in ("logical_not", "invert", "bitwise_not") and len(vals) == 1 and not d:
                f = self.freeze(st, vals[0])
                return [(st, f.args[0] if f.op == "invert" else mk("invert", f))]
            if fname == "negative" and len(vals) == 1 and not d:
                return [(st, neg(self.freeze(st, vals[0])))]
            if fname == "square" and len(vals) == 1 and not d:
                return [(st, power(self.freeze(st, vals[0]), const(2)))]
            if fname == "abs" and len(vals) == 1 and not d:
                return [(st, mk("call", "abs", (self.freeze(st, vals[0]),), ()))]
            if fname in ("copyto", "put", "place", "putmask", "fill_diagonal") and len(vals) >= 2:
                self.event(st, "mut", name="numpy." + fname, base=vals[0], args=vals[1:], node=node)
                st.muts[vals[0]] = st.muts.get(vals[0], ()) + (("numpy." + fname, self.fz(st, vals[1:])),)
                return [(st, NONE)]
            if fname == "arange" and not d and 1 <= len(vals) <= 3:
                a = self.fz(st, vals)
                t = mk("call", "numpy.arange", a if len(a) > 1 else (const(0),) + a, ())
                self.event(st, "call", name="numpy.arange", args=t.args[1], value=t, node=node)
                return [(st, t)]
            if fname in ("random.shuffle",) and vals:
                self.event(st, "mut", name=name, base=vals[0], node=node)
                return [(st, NONE)]
        k = self.np_args(st, fname, pos, kw)
        if k is None:
            if rest is None and "out" in d and d["out"] != NONE:
                a, kk = self.flat_args(st, pos, [(x, y) for x, y in kw if x != "out"])
                return self.np_out(st, fname, d["out"], mk("call", "numpy." + fname, a, kk), node)
            # positional out of an unknown ufunc is reported to the alias rule through the event
            return self.opaque_call(st, "numpy." + fname, pos, kw, node)
        out = k.pop("out", None)
        for n, dv in (("axis", NONE), ("dtype", NONE), ("keepdims", FALSE), ("order", const("C")), ("ddof", const(0))):
            if k.get(n) == dv and not (fname in ("sort", "argsort", "concatenate", "stack") and n == "axis"):
                k.pop(n)
        if fname in ("array", "asarray"):
            # np.array of an array-like literal is kept as the list term
            pass
        kk = tuple(sorted(k.items()))
        t = mk("call", "numpy." + fname, (), kk)
        e = self.event(st, "call", name="numpy." + fname, kwargs=kk, value=t, node=node)
        if out is not None and out != NONE:
            ov = vals[NPSIG[fname].index("out")] if len(vals) > NPSIG[fname].index("out") else d.get("out")
            return self.np_out(st, fname, ov, t, node)
        if fname in ALLOC:
            t = mk("newarr", t, self.fresh())
        return [(st, t)]

    def np_out(self, st, fname, out, value, node):
        self.event(st, "mut", name="out=", base=out, args=(value,), node=node, extra=fname)
        b = self.identity(st, out)
        if b.op == "newarr" and b not in st.muts:
            st.stores[b] = st.stores.get(b, ()) + (("at", mk("slice", NONE, NONE, NONE), value),)
        elif b.op != "ref":
            st.muts[b] = st.muts.get(b, ()) + (("out=", (value,)),)
        return [(st, out)]

    # ------------------------------------------------------------ methods of opaque values
    def call_meth(self, st, base, name, pos, kw, node):
        fb = self.freeze(st, base)
        vals, rest = self.expand_pos(st, pos)
        d = dict(kw)
        if is_const(fb) and isinstance(fb.args[0], str) or fb.op == "fstr":
            if name == "format" and is_const(fb) and rest is None and "**" not in d:
                parts = fmt_parts(fb.args[0], self.fz(st, vals), {k: self.freeze(st, v) for k, v in kw})
                if parts is not None:
                    return [(st, fstr(parts))]
            if is_const(fb) and name in ("lower", "upper", "strip", "split", "replace", "startswith", "endswith", "join",
                                         "title", "capitalize", "lstrip", "rstrip") \
                    and rest is None and not kw and all(is_const(v) for v in vals):
                try:
                    r = getattr(fb.args[0], name)(*[v.args[0] for v in vals])
                    if isinstance(r, list):
                        return [(st, self.new_list(st, [const(x) for x in r]))]
                    return [(st, const(r))]
                except Exception:
                    pass
        if name == "zfill" and fb.op == "fstr" and rest is None and not kw and len(vals) == 1 and is_const(vals[0]) \
                and isinstance(vals[0].args[0], int) and len(fb.args[0]) == 1 and not fb.args[0][0][1] and not fb.args[0][0][2]:
            return [(st, fstr([(fb.args[0][0][0], "", "0%d" % vals[0].args[0])]))]
        if name == "update" and rest is None and not vals and kw and not any(k.startswith("*") for k, v in kw):
            # d.update(a=x) stores entries
            for k, v in kw:
                self.setitem(st, base, const(k), v, node)
            return [(st, NONE)]
        if name == "update" and rest is None and len(vals) == 1 and not kw:
            hd = self.hobj(st, vals[0])
            if hd is not None and hd.kind == "dict" and hd.segs and all(s[0] == "kv" and is_const(s[1]) and isinstance(s[1].args[0], str) for s in hd.segs):
                for s in hd.segs:
                    self.setitem(st, base, s[1], s[2], node)
                return [(st, NONE)]
        if name in ("keys", "__iter__") and not vals and not kw:
            return [(st, fb)] if name == "__iter__" else [(st, mk("meth", fb, "keys", (), ()))]
        if name in ("items", "iteritems") and not vals and not kw:
            return [(st, mk("items", fb))]
        if name == "values" and not vals and not kw:
            return [(st, mk("values", fb))]
        if name == "get" and 1 <= len(vals) <= 2 and is_const(vals[0]) and rest is None and not kw:
            t = mk("kwget", fb, vals[0], self.freeze(st, vals[1]) if len(vals) == 2 else NONE)
            self.event(st, "getitem", base=fb, args=(vals[0],), value=t, node=node, extra="get")
            return [(st, t)]
        if name == "copy" and not vals and not kw:
            t = mk("newarr", mk("call", "numpy.copy", (), (("a", fb),)), self.fresh())
            self.event(st, "meth", name="copy", base=fb, value=t, node=node)
            return [(st, t)]
        if name in NPMETH and fb.op not in ("module", "class") and rest is None and "**" not in d \
                and not ("inplace" in d):
            sig = NPSIG.get(name)
            if sig is None or len(vals) + 1 <= len(sig) or name in ("reshape", "transpose"):
                if name in ("reshape", "transpose") and len(vals) > 1:
                    vals = [mk("tuple", tuple(vals))]
                res = self.call_numpy(st, "numpy." + name, [("v", base)] + [("v", v) for v in vals], kw,
                                      [base] + list(vals), None, node)
                return res
        a, k = self.flat_args(st, pos, kw)
        mutates = name in MUTATORS or k_get(k, "inplace") == TRUE
        if mutates:
            if name in ("update", "sort", "pop", "add", "append", "put", "insert", "remove", "fill", "extend", "clear",
                        "setdefault", "reverse", "popitem", "discard", "resize", "partition", "itemset", "appendleft",
                        "popleft") or k_get(k, "inplace") == TRUE:
                self.event(st, "mut", name=name, base=base, args=a, kwargs=k, node=node)
                b = self.identity(st, base)
                old = st.muts.get(b, ())
                t = mk("meth", fb, name, a, k)
                st.muts[b] = old + ((name, a) + ((k,) if k else ()),)
                if name in ("pop", "popitem", "setdefault", "popleft"):
                    return [(st, t)]
                if name in ("append", "add", "extend", "update", "insert", "sort", "clear", "remove", "discard", "reverse",
                            "fill"):
                    return [(st, NONE)] if name not in ("append", "add") or not self._maybe_store(base) else [(st, t)]
                return [(st, t)]
        t = mk("meth", fb, name, a, k)
        self.event(st, "meth", name=name, base=fb, args=a, kwargs=k, value=t, node=node)
        if name in ("error", "exit") and fb.op == "call" and fb.args[0].endswith("ArgumentParser"):
            self.raise_now(st, mk("call", "SystemExit", a, ()), node)
            return []
        return [(st, t)]

    @staticmethod
    def _maybe_store(base):
        return base.op in ("call", "meth", "attr", "param")

    # ------------------------------------------------------------ methods of heap containers
    def call_heap(self, st, v, name, pos, kw, node):
        h = self.hobj(st, v)
        vals, rest = self.expand_pos(st, pos)
        d = dict(kw)
        if name.startswith("super."):
            a, k = self.flat_args(st, pos, kw)
            t = mk("meth", self.freeze(st, v), name, a, k)
            self.event(st, "meth", name=name, base=v, args=a, kwargs=k, value=t, node=node)
            return [(st, t)]
        if h is None:
            return self.call_meth(st, v, name, pos, kw, node)
        if name in MUTATORS:
            self.event(st, "mut", name=name, base=v, args=self.fz(st, vals),
                       kwargs=tuple((k, self.freeze(st, x)) for k, x in kw), node=node, extra=h.tag)

        def setsegs(segs):
            h2 = h.copy()
            h2.segs = tuple(segs)
            st.heap[v] = h2
        if h.kind in ("list", "set"):
            if name in ("append", "add") and len(vals) == 1:
                if h.kind == "set" and ("item", vals[0]) in h.segs:
                    return [(st, NONE)]
                setsegs(h.segs + (("item", vals[0]),))
                return [(st, NONE)]
            if name in ("extend", "update") and len(vals) == 1:
                setsegs(h.segs + tuple(self.iter_segs(st, vals[0])))
                return [(st, NONE)]
            if name == "insert" and len(vals) == 2 and vals[0] == const(0):
                setsegs((("item", vals[1]),) + h.segs)
                return [(st, NONE)]
            if name == "clear":
                setsegs(())
                return [(st, NONE)]
            if name == "copy":
                h2 = h.copy()
                h2.tag = None
                return [(st, self.alloc(st, h2))]
            if name == "pop" and h.kind == "list":
                if not vals and h.segs and h.segs[-1][0] == "item":
                    setsegs(h.segs[:-1])
                    return [(st, h.segs[-1][1])]
                if vals and vals[0] == const(0) and h.segs and h.segs[0][0] == "item":
                    setsegs(h.segs[1:])
                    return [(st, h.segs[0][1])]
            if name in ("remove", "discard") and vals and ("item", vals[0]) in h.segs and \
                    all(s[0] == "item" and is_const(s[1]) for s in h.segs):
                segs = list(h.segs)
                segs.remove(("item", vals[0]))
                setsegs(segs)
                return [(st, NONE)]
            t = mk("meth", self.freeze(st, v), name, *self.flat_args(st, pos, kw))
            if name in MUTATORS:
                setsegs((("splice", mk("after", t)),))
                return [(st, t if name == "pop" else NONE)]
            return [(st, t)]
        if h.kind == "dict":
            if name == "get" and 1 <= len(vals) <= 2:
                default = vals[1] if len(vals) == 2 else NONE
                k = self.freeze(st, vals[0])
                if all(s[0] == "kv" and is_const(s[1]) for s in h.segs) and is_const(k):
                    r = self.dict_get(st, v, k, default)
                    return [(st, r)]
                r = self.dict_get(st, v, k)
                if r is not None:
                    return [(st, r)]
                t = mk("kwget", self.freeze(st, v), k, self.freeze(st, default))
                self.event(st, "getitem", base=v, args=(k,), value=t, node=node, extra="get")
                return [(st, t)]
            if name == "update":
                for x in vals:
                    hx = self.hobj(st, x)
                    if hx is not None and hx.kind == "list":
                        self.dict_merge(st, v, mk("pairs", self.freeze(st, x)))
                    else:
                        self.dict_merge(st, v, x)
                for k, x in kw:
                    if k == "**":
                        self.dict_merge(st, v, x)
                    else:
                        self.dict_set(st, v, const(k), x)
                return [(st, NONE)]
            if name == "copy":
                h2 = h.copy()
                h2.tag = None
                return [(st, self.alloc(st, h2))]
            if name == "clear":
                setsegs(())
                return [(st, NONE)]
            if name == "setdefault" and vals:
                r = self.dict_get(st, v, vals[0])
                if r is not None:
                    return [(st, r)]
                x = vals[1] if len(vals) > 1 else NONE
                if all(s[0] == "kv" and is_const(s[1]) for s in h.segs) and is_const(vals[0]):
                    self.dict_set(st, v, vals[0], x)
                    return [(st, x)]
                if is_const(vals[0]):
                    t = mk("kwget", self.freeze(st, v), vals[0], self.freeze(st, x))
                    self.dict_set(st, v, vals[0], t)
                    return [(st, t)]
            if name == "pop" and vals:
                k = self.freeze(st, vals[0])
                r = self.dict_get(st, v, k)
                known = all(s[0] == "kv" and is_const(s[1]) for s in h.segs) and is_const(k)
                if r is not None and known:
                    setsegs([s for s in h.segs if s[1] != k])
                    return [(st, r)]
                if known:
                    if len(vals) == 2:
                        return [(st, vals[1])]
                    self.raise_now(st, mk("call", "KeyError", (k,), ()), node)
                    return []
                t = mk("kwget", self.freeze(st, v), k, self.freeze(st, vals[1]) if len(vals) > 1 else mk("required", k))
                setsegs((("merge", mk("without", self.freeze(st, v), k)),))
                return [(st, t)]
            if name in ("items", "keys", "values"):
                segs = []
                for s in h.segs:
                    if s[0] == "kv":
                        segs.append(("item", {"items": tup(s[1], s[2]), "keys": s[1], "values": s[2]}[name]))
                    else:
                        t = self.freeze(st, s[1])
                        segs.append(("splice", {"items": mk("items", t), "keys": t, "values": mk("values", t)}[name]))
                return [(st, self.alloc(st, HObj("list", tuple(segs), tag="tuple")))]
            t = mk("meth", self.freeze(st, v), name, *self.flat_args(st, pos, kw))
            if name in MUTATORS:
                setsegs((("merge", mk("after", t)),))
            return [(st, t)]
        # object: unresolved attribute called
        return self.call_meth(st, v, name, pos, kw, node)

    # ============================================================ loops
    def iter_norm(self, st, v):
        t = self.freeze(st, v) if isinstance(v, Term) else v
        while True:
            if t.op == "meth" and t.args[1] == "keys":
                t = t.args[0]
            elif t.op == "call" and t.args[0] in ("list", "tuple", "iter") and len(t.args[1]) == 1:
                t = t.args[1][0]
            else:
                return t

    def iter_elem(self, st, it):
        """(base iterable, element term, filter conditions)"""
        if it.op == "items":
            e = self.el(it.args[0])
            return it.args[0], tup(e, item(it.args[0], e)), ()
        if it.op == "values":
            return it.args[0], item(it.args[0], self.el(it.args[0])), ()
        if it.op == "range" and it.args[0] == const(0) and it.args[2] == const(1) and it.args[1].op == "len":
            b = it.args[1].args[0]
            return b, elem(it, self.loops.count(b)), ()
        if it.op == "enumerate":
            b, v, c = self.iter_elem(st, it.args[0])
            if not c:
                n = length(b)
                idx = elem(rng(n), self.loops.count(b))
                if b.op == "range" and b.args[2] == const(1):
                    idx = sub(self.el(b), b.args[0])
            else:
                idx = mk("count", b, self.loops.count(b))
            return b, tup(add(idx, it.args[1]), v), c
        if it.op == "zip":
            parts = [self.iter_elem(st, x) for x in it.args[0]]
            if not any(c for _, _, c in parts):
                bases = []
                for b, _, _ in parts:
                    if b not in bases:
                        bases.append(b)
                base = bases[0] if len(bases) == 1 else mk("zip", tuple(bases))
                return base, tup(*[v for _, v, _ in parts]), ()
        if it.op == "comp" and len(it.args[2]) == 1:
            (cubes, added), = it.args[2]
            if len(cubes) == 1 and len(added) == 1 and added[0][0] == "item":
                b, d0 = it.args[0], it.args[1]
                d1 = self.loops.count(b)
                v, c = added[0][1], cubes[0]
                if d1 != d0:
                    m = {elem(b, d0): elem(b, d1)}
                    if b.op != "range":
                        m[elem(rng(length(b)), d0)] = elem(rng(length(b)), d1)
                    v = subst(v, m)
                    c = tuple((subst(a, m), p) for a, p in c)
                return b, v, c
        return it, self.el(it), ()

    def el(self, base):
        return elem(base, self.loops.count(base))

    def loop(self, st, itv, target, body, names, node):
        h = self.hobj(st, itv)
        if h is not None and h.kind == "obj" and h.cls is not None:
            d, m = h.cls.lookup("__iter__")
            if isinstance(m, Func):
                outs = []
                for s, v in self.call_func(st, m, [("v", itv)], [], node):
                    outs.extend(self.loop(s, v, target, body, names, node))
                return outs
        segs = self.iter_segs(st, itv)
        if len(segs) > 24:
            segs = [("splice", self.iter_norm(st, itv))]
        outs, cur = [], [st]
        for sg in segs:
            nxt = []
            for s in cur:
                if sg[0] == "item":
                    res = []
                    for s2 in self.assign(target, sg[1], s, node):
                        res.extend(body(s2))
                else:
                    res = self.abstract_loop(s, self.iter_norm(s, sg[1]), target, body, names, node)
                for o in res:
                    if o.kind in ("fall", "continue"):
                        nxt.append(o.st)
                    elif o.kind == "break":
                        outs.append(Outcome("fall", o.st, "broke"))
                    else:
                        outs.append(o)
            if len(nxt) > self.maxpaths:
                self.truncated = True
                nxt = nxt[:self.maxpaths]
            cur = nxt
        return outs + [Outcome("fall", s) for s in cur]

    class Changes:
        def __init__(self):
            self.local, self.heap, self.attrs, self.mem, self.muts, self.stores, self.globs = (set() for _ in range(7))

        def size(self):
            return sum(map(len, (self.local, self.heap, self.attrs, self.mem, self.muts, self.stores, self.globs)))

    def havoc(self, s, ch, lid):
        for fi, n in ch.local:
            v = mk("phi", lid, n)
            if n not in s.frames[fi]:
                self.unset.add(v)
            s.frames[fi][n] = v
        for r in ch.heap:
            if r not in s.heap:
                continue
            h = s.heap[r].copy()
            if h.kind in ("list", "set"):
                h.segs = (("splice", mk("phi", lid, r)),)
            elif h.kind == "dict":
                h.segs = (("merge", mk("phi", lid, r)),)
            s.heap[r] = h
        for r, a in ch.attrs:
            if r in s.heap:
                h = s.heap[r].copy()
                h.attrs[a] = mk("phi", lid, r, a)
                s.heap[r] = h
        for k in ch.mem:
            s.mem[k] = mk("phi", lid, k)
        for k in ch.muts:
            s.muts[k] = (("phi", lid),)
        for k in ch.stores:
            s.stores[k] = (("phi", lid),)
        for k in ch.globs:
            s.globals[k] = mk("phi", lid, k)

    def diff(self, s0, outs, ch):
        n0 = ch.size()
        for o in outs:
            s = o.st
            for fi in range(min(len(s0.frames), len(s.frames))):
                f0, f1 = s0.frames[fi], s.frames[fi]
                for n, v in f1.items():
                    if f0.get(n) is not v and not n.startswith("__"):
                        ch.local.add((fi, n))
            for r, h in s.heap.items():
                h0 = s0.heap.get(r)
                if h0 is None or h0 is h:
                    continue
                if h.kind == "obj":
                    for a, v in h.attrs.items():
                        if h0.attrs.get(a) is not v:
                            ch.attrs.add((r, a))
                elif h.segs != h0.segs:
                    ch.heap.add(r)
            for k, v in s.mem.items():
                if s0.mem.get(k) is not v:
                    ch.mem.add(k)
            for k, v in s.muts.items():
                if s0.muts.get(k) != v:
                    ch.muts.add(k)
            for k, v in s.stores.items():
                if k in self._prestores(s0) and s0.stores.get(k) != v:
                    ch.stores.add(k)
            for k, v in s.globals.items():
                if k in s0.globals and s0.globals[k] is not v:
                    ch.globs.add(k)
        return ch.size() > n0

    @staticmethod
    def _prestores(s0):
        class All:
            def __contains__(self, k):
                return True
        return All()

    def abstract_loop(self, st, it, target, body, names, node, whilecond=None):
        lid = self.fresh()
        if whilecond is None:
            base, val, conds = self.iter_elem(st, it)
        else:
            base, val, conds = mk("while", lid), None, ()
        depth = self.loops.count(base)
        ch = self.Changes()
        born0 = self.counter
        for attempt in range(4):
            s0 = st.copy()
            self.havoc(s0, ch, lid)
            s = s0.copy()
            nc, ne, nn = len(s.conds), len(s.events), len(s.notes)
            self.loops.append(base)
            self._exc.append([])
            ok = True
            for a, p in conds:
                ok = self.assume(s, a, p) and ok
            if val is not None and val.op == "elem" and val.args[0].op == "range" and val.args[0].args[2] == const(1):
                self.assume(s, mk("le", val.args[0].args[0], val), True, record=False)
                self.assume(s, mk("lt", val, val.args[0].args[1]), True, record=False)
            outs = []
            starts = self.assign(target, val, s, node) if target is not None else [s]
            for s2 in starts:
                outs.extend(body(s2))
            outs += self._exc.pop()
            self.loops.pop()
            tn = names or set()
            if not self.diff(s0, outs, ch):
                break
        normal = [o for o in outs if o.kind in ("fall", "continue")]
        paths = []
        for o in outs:
            v = self.freeze(o.st, o.val) if isinstance(o.val, Term) else None
            ends = {mk("phi", lid, n): self.freeze(o.st, o.st.frames[fi][n]) for fi, n in ch.local
                    if fi < len(o.st.frames) and isinstance(o.st.frames[fi].get(n), Term)}
            ends.update({mk("phi", lid, r): self.freeze(o.st, r) for r in ch.heap if r in o.st.heap})
            bp = BodyPath(o.st.conds[nc:], o.st.events[ne:], o.kind, v, ends)
            paths.append(bp)
        fn = self.callstack[-1] if self.callstack else None

        inits = {mk("phi", lid, n): self.freeze(st, st.frames[fi][n]) for fi, n in ch.local if n in st.frames[fi]
                 and isinstance(st.frames[fi][n], Term)}
        inits.update({mk("phi", lid, r): self.freeze(st, r) for r in ch.heap if r in st.heap})
        inits.update({mk("phi", lid, r, a): self.freeze(st, st.heap[r].attrs[a]) for r, a in ch.attrs if r in st.heap and a in st.heap[r].attrs
                      and isinstance(st.heap[r].attrs[a], Term)})

        def levent(extra=None):
            return Event("loop", base=base, value=val, fn=fn, node=node, paths=paths, nconds=len(st.conds), extra=extra, inits=inits)
        res = []
        # --- after exhaustion
        if whilecond is None:
            e = st.copy()
            e.events = st.events + [levent()]
            for o in normal:
                e.notes += [x for x in o.st.notes[nn:] if x not in e.notes]
            # heap objects and facts created inside stay reachable
            for o in normal:
                for r, h in o.st.heap.items():
                    if r not in e.heap:
                        e.heap[r] = h
                for k, v in o.st.globals.items():
                    e.globals.setdefault(k, v)
            P = [(tuple(o.st.conds[nc:]), o.st) for o in normal]
            if normal:
                self.fold(st, e, ch, lid, base, depth, P, set(tn))
            res.append(Outcome("fall", e))
        for o, bp in zip(outs, paths):
            if o.kind in ("fall", "continue"):
                continue
            o.st.events = st.events + [levent(bp)]
            k = o.kind
            if whilecond is not None and k == "exit":
                k = "fall"
            res.append(Outcome(k, o.st, o.val, o.node, o.fn))
        return res

    # --- folding ---------------------------------------------------
    @staticmethod
    def minimise(cubes):
        cubes = {frozenset(c) for c in cubes}
        if len(cubes) > 48:
            return tuple(sorted(tuple(sorted(c, key=lambda x: (x[0].n, x[1]))) for c in cubes))
        changed = True
        while changed:
            changed = False
            lst = list(cubes)
            for i in range(len(lst)):
                for j in range(len(lst)):
                    if i == j:
                        continue
                    a, b = lst[i], lst[j]
                    if a < b or (a == b and i < j):
                        cubes.discard(b)
                        changed = True
                        break
                    d = a ^ b
                    if len(a) == len(b) and len(d) == 2:
                        (x, p), (y, q) = d
                        if x is y and p != q:
                            cubes.discard(a)
                            cubes.discard(b)
                            cubes.add(a & b)
                            changed = True
                            break
                    # a = C u {x}, b >= C u {not x}  ->  b - {not x}
                    if len(a - b) == 1:
                        (x, p), = a - b
                        if (x, not p) in b:
                            cubes.discard(b)
                            cubes.add(b - {(x, not p)})
                            changed = True
                            break
                if changed:
                    break
        return tuple(sorted((tuple(sorted(c, key=lambda x: (x[0].n, x[1]))) for c in cubes),
                            key=lambda c: tuple((a.n, p) for a, p in c)))

    def alts(self, pairs, drop=None):
        groups = {}
        for c, v in pairs:
            if drop is not None and v == drop:
                continue
            groups.setdefault(v, []).append(c)
        return tuple((self.minimise(cs), v) for v, cs in groups.items())

    @staticmethod
    def has_phi(t, lid):
        return any(isinstance(x, Term) and x.op == "phi" and x.args[0] == lid for x in subterms(t))

    def fold_value(self, phi, pairs, init, lid, base, depth):
        """pairs: [(conds, frozen value)]"""
        if all(v is phi for _, v in pairs):
            return init
        incs = [(c, sub(v, phi)) for c, v in pairs]
        if init is not None and not any(self.has_phi(d, lid) for _, d in incs) \
                and not (is_const(init) and not is_num(init)):
            al = self.alts(incs, const(0))
            if len(al) == 1 and al[0][0] == ((),) and is_num(al[0][1]):
                return add(init, mul(al[0][1], length(base)))
            return add(init, mk("sumcomp", base, depth, al))
        al = self.alts(pairs, None)
        if not any(self.has_phi(v, lid) for _, v in pairs):
            return mk("last", base, depth, al, init if init is not None else mk("undef"))
        acc = mk("acc", depth)
        mp, memo = {phi: acc}, {}
        al2 = tuple((tuple(tuple((subst(a, mp, memo), pol) for a, pol in c) for c in cs), subst(v, mp, memo)) for cs, v in al)
        return mk("fold", base, depth, al2, init if init is not None else mk("undef"))

    def fold(self, st, e, ch, lid, base, depth, P, names):
        for fi, n in ch.local:
            if n in names and fi == len(st.frames) - 1 and n not in st.frames[fi]:
                # loop variable: last element
                vals = [(c, self.freeze(s, s.frames[fi].get(n, mk("undef")))) for c, s in P if fi < len(s.frames)]
                e.frames[fi][n] = mk("last", base, depth, self.alts(vals), mk("undef"))
                continue
            phi = mk("phi", lid, n)
            init = st.frames[fi].get(n)
            raw = [s.frames[fi].get(n, phi) for c, s in P if fi < len(s.frames)]
            if raw and all(r is raw[0] for r in raw) and (raw[0].op == "ref" and raw[0] in st.heap or
                                                         raw[0].op in ("func", "class", "module", "ext")):
                e.frames[fi][n] = raw[0]
                continue
            pairs = [(c, self.freeze(s, s.frames[fi].get(n, phi))) for c, s in P if fi < len(s.frames)]
            fi_init = self.freeze(st, init) if init is not None else None
            e.frames[fi][n] = self.fold_value(phi, pairs, fi_init, lid, base, depth)
        for r in ch.heap:
            h = e.heap[r].copy()
            phi = mk("phi", lid, r)
            tag = "merge" if h.kind == "dict" else "splice"
            pairs, ok = [], True
            for c, s in P:
                segs = s.heap[r].segs
                if not segs or segs[0] != (tag, phi):
                    ok = False
                    break
                added = tuple((g[0],) + tuple(self.freeze(s, x) for x in g[1:]) for g in segs[1:])
                pairs.append((c, added))
            if not ok:
                h.segs = ((tag, mk("loopobj", lid, r)),)
                e.heap[r] = h
                continue
            al = self.alts(pairs, ())
            if al:
                if tag == "splice":
                    if al == ((((),), (("item", elem(base, depth)),)),):
                        t = base
                    else:
                        t = mk("comp", base, depth, al)
                    h.segs = st.heap[r].segs + (("splice", t),)
                else:
                    h.segs = st.heap[r].segs + (("merge", mk("dcomp", base, depth, al)),)
            e.heap[r] = h
        for r, a in ch.attrs:
            if r not in e.heap:
                continue
            phi = mk("phi", lid, r, a)
            h = e.heap[r].copy()
            init = st.heap[r].attrs.get(a) if r in st.heap else None
            if init is None and h.sym:
                init = mk("attr", param(h.sym), a)
            raw = [s.heap[r].attrs.get(a, phi) for c, s in P]
            if all(x is raw[0] for x in raw) and raw[0] is not phi and raw[0].op == "ref" and raw[0] in st.heap:
                h.attrs[a] = raw[0]
            else:
                pairs = [(c, self.freeze(s, s.heap[r].attrs.get(a, phi))) for c, s in P]
                h.attrs[a] = self.fold_value(phi, pairs, self.freeze(st, init) if init is not None else None,
                                             lid, base, depth)
            e.heap[r] = h
        for k in ch.mem:
            phi = mk("phi", lid, k)
            init = st.mem.get(k)
            if init is None:
                init = mk("attr", k[0], k[2]) if k[1] == "attr" else item(k[0], k[2]) if isinstance(k[2], Term) else None
            pairs = [(c, self.freeze(s, s.mem.get(k, phi))) for c, s in P]
            e.mem[k] = self.fold_value(phi, pairs, self.freeze(st, init) if init is not None else None, lid, base, depth)
        for field, chs in (("muts", ch.muts), ("stores", ch.stores)):
            for k in chs:
                pairs = []
                for c, s in P:
                    ops = getattr(s, field).get(k, ())
                    if ops and ops[0] == ("phi", lid):
                        ops = ops[1:]
                    pairs.append((c, ops))
                al = self.alts(pairs, ())
                old = getattr(st, field).get(k, ())
                if al:
                    getattr(e, field)[k] = old + (("loop", base, depth, al),)
        for k in ch.globs:
            e.globals[k] = mk("phi", lid, k)

    # ============================================================ statements
    def block(self, stmts, st):
        outs, cur = [], [st]
        for s in stmts:
            nxt = []
            for c in cur:
                for o in self.stmt(s, c):
                    (nxt if o.kind == "fall" else outs).append(o)
            nxt = self.merge_outs(nxt)
            if len(nxt) + len(outs) > self.maxpaths:
                self.truncated = True
                nxt = nxt[:self.maxpaths]
                outs = outs[:self.maxpaths]
            cur = [o.st for o in nxt]
            if not cur:
                break
        return outs + [Outcome("fall", c) for c in cur]

    def stmt(self, s, st):
        m = getattr(self, "st_" + type(s).__name__, None)
        self._exc.append([])
        try:
            if m is None:
                self.note(st, "statement %s not modelled" % type(s).__name__, s)
                outs = [Outcome("fall", st)]
            else:
                outs = m(s, st)
        finally:
            exc = self._exc.pop()
        return outs + exc

    def fall(self, states):
        return [Outcome("fall", s) for s in states]

    def st_Pass(self, s, st):
        return [Outcome("fall", st)]

    def st_Expr(self, s, st):
        if isinstance(s.value, ast.Constant):
            return [Outcome("fall", st)]
        return self.fall([x for x, _ in self.ev(s.value, st)])

    def st_Global(self, s, st):
        fr = st.frames[-1]
        g = set(fr.get("__globals__", ())) | set(s.names)
        fr["__globals__"] = tuple(sorted(g))
        return [Outcome("fall", st)]

    def st_Nonlocal(self, s, st):
        self.note(st, "nonlocal", s)
        return [Outcome("fall", st)]

    def st_Import(self, s, st):
        fr = st.frames[-1]
        for n, d in self.p.import_binding(fr["__module__"], s):
            if n == "*":
                continue
            r = self.p.resolve(d)
            fr[n] = self.resolved(st, r, d) if r is not None else mk("missing", d)
            self.event(st, "import", name=d, node=s)
        return [Outcome("fall", st)]

    st_ImportFrom = st_Import

    def st_FunctionDef(self, s, st):
        fr = st.frames[-1]
        i = self.fresh()
        outer = self.callstack[-1] if self.callstack else None
        fn = Func((outer.qual if outer else "?") + "." + s.name, fr["__module__"], s, outer=outer)
        fn.decorators = [self.p.dotted(fn.module, d) for d in s.decorator_list]
        env = fr            # by reference: later rebindings in this state are seen
        self.closures[i] = (fn, env)
        fr[s.name] = mk("closure", i)
        return [Outcome("fall", st)]

    def st_ClassDef(self, s, st):
        st.frames[-1][s.name] = mk("unknown", "local class " + s.name)
        return [Outcome("fall", st)]

    def st_Assign(self, s, st):
        outs = []
        for x, v in self.ev(s.value, st):
            cur = [x]
            for t in s.targets:
                cur = [z for y in cur for z in self.assign(t, v, y, s)]
            outs.extend(self.fall(cur))
        return outs

    def st_AnnAssign(self, s, st):
        if s.value is None:
            return [Outcome("fall", st)]
        outs = []
        for x, v in self.ev(s.value, st):
            outs.extend(self.fall(self.assign(s.target, v, x, s)))
        return outs

    def item_stores(self):
        """names of the current function whose elements are assigned"""
        fn = self.callstack[-1] if self.callstack else None
        if fn is None:
            return ()
        r = self._item_stores.get(fn)
        if r is None:
            r = set()
            for n in ast.walk(fn.node):
                ts = n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, ast.AugAssign) else []
                r |= {x.value.id for x in ts if isinstance(x, ast.Subscript) and isinstance(x.value, ast.Name)}
            self._item_stores[fn] = r
        return r

    def own_array(self, v):
        """a computed array that will be written to gets an identity, as an allocated one"""
        if v.op == "call" and not (v.args[0].startswith("numpy.") and v.args[0][6:] in FRESH):
            return v
        if v.op == "poly" and all(not m for m, _ in v.args[0]):
            return v
        return mk("newarr", v, self.fresh())

    def assign(self, t, v, st, node):
        """-> states"""
        if isinstance(t, ast.Name):
            fr = st.frames[-1]
            if t.id in fr.get("__globals__", ()):
                m = fr["__module__"]
                self.event(st, "setglobal", name=m.name + "." + t.id, value=v, node=node)
                st.globals[(m.name, t.id)] = v
            else:
                if v.op in DERIVED and t.id in self.item_stores():
                    v = self.own_array(v)
                fr[t.id] = v
            return [st]
        if isinstance(t, (ast.Tuple, ast.List)):
            segs = self.iter_segs(st, v)
            n = len(t.elts)
            cur = [st]
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            allitems = all(x[0] == "item" for x in segs)
            if star:
                i = star[0]
                if allitems and len(segs) >= n - 1:
                    tail = n - 1 - i
                    vals = [x[1] for x in segs]
                    mid = self.new_list(st, vals[i:len(vals) - tail])
                    vals = vals[:i] + [mid] + (vals[len(vals) - tail:] if tail else [])
                else:
                    f = self.freeze(st, v)
                    vals = [item(f, const(j)) for j in range(i)] + \
                           [item(f, mk("slice", const(i) if i else NONE, const(i + 1 - n) if i + 1 < n else NONE, NONE))] + \
                           [item(f, const(j - n)) for j in range(i + 1, n)]
                elts = [e.value if isinstance(e, ast.Starred) else e for e in t.elts]
            else:
                elts = t.elts
                if allitems and len(segs) == n:
                    vals = [x[1] for x in segs]
                else:
                    if allitems:
                        self.note(st, "unpacking %d values into %d names" % (len(segs), n), node)
                    f = self.freeze(st, v)
                    vals = [item(f, const(j)) for j in range(n)]
            for e, x in zip(elts, vals):
                cur = [z for y in cur for z in self.assign(e, x, y, node)]
            return cur
        if isinstance(t, ast.Starred):
            return self.assign(t.value, v, st, node)
        if isinstance(t, ast.Attribute):
            out = []
            for s, b in self.ev(t.value, st):
                out.extend(self.setattr(s, b, t.attr, v, node))
            return out
        if isinstance(t, ast.Subscript):
            out = []
            for s, (b, i) in self.ev_list([t.value, t.slice], st):
                out.extend(self.setitem(s, b, i, v, node))
            return out
        self.note(st, "assignment target %s" % type(t).__name__, node)
        return [st]

    def st_AugAssign(self, s, st):
        outs = []
        t = s.target
        if isinstance(t, ast.Name):
            for x, v in self.ev(s.value, st):
                old = self.load_name(x, t.id, t)
                h = self.hobj(x, old)
                if h is not None and h.kind in ("list",) and isinstance(s.op, ast.Add):
                    self.event(x, "mut", name="extend", base=old, args=(v,), node=s, extra=h.tag)
                    h2 = h.copy()
                    h2.segs = h.segs + tuple(self.iter_segs(x, v))
                    x.heap[old] = h2
                    outs.append(Outcome("fall", x))
                    continue
                new = self.binop(x, s.op, old, v, s)
                self.event(x, "inplace", name=t.id, base=old, args=(v,), value=new, node=s, extra=type(s.op).__name__)
                outs.extend(self.fall(self.assign(t, new, x, s)))
            return outs
        if isinstance(t, ast.Attribute):
            for x, b in self.ev(t.value, st):
                for x2, old in self.getattr(x, b, t.attr, t):
                    for x3, v in self.ev(s.value, x2):
                        h = self.hobj(x3, old)
                        if h is not None and h.kind == "list" and isinstance(s.op, ast.Add):
                            self.event(x3, "mut", name="extend", base=old, args=(v,), node=s, extra=h.tag)
                            h2 = h.copy()
                            h2.segs = h.segs + tuple(self.iter_segs(x3, v))
                            x3.heap[old] = h2
                            outs.append(Outcome("fall", x3))
                            continue
                        new = self.binop(x3, s.op, old, v, s)
                        self.event(x3, "inplace", name=t.attr, base=old, args=(v,), value=new, node=s,
                                   extra=type(s.op).__name__)
                        outs.extend(self.fall(self.setattr(x3, b, t.attr, new, s, aug=True)))
            return outs
        if isinstance(t, ast.Subscript):
            for x, (b, i) in self.ev_list([t.value, t.slice], st):
                for x2, old in self.getitem(x, b, i, t):
                    for x3, v in self.ev(s.value, x2):
                        h = self.hobj(x3, old)
                        if h is not None and h.kind == "list" and isinstance(s.op, ast.Add):
                            h2 = h.copy()
                            h2.segs = h.segs + tuple(self.iter_segs(x3, v))
                            x3.heap[old] = h2
                            outs.append(Outcome("fall", x3))
                            continue
                        new = self.binop(x3, s.op, old, v, s)
                        outs.extend(self.fall(self.setitem(x3, b, i, new, s, aug=True)))
            return outs
        return [Outcome("fall", st)]

    def st_Delete(self, s, st):
        cur = [st]
        for t in s.targets:
            nxt = []
            for c in cur:
                if isinstance(t, ast.Name):
                    c.frames[-1].pop(t.id, None)
                    nxt.append(c)
                elif isinstance(t, ast.Subscript):
                    for x, (b, i) in self.ev_list([t.value, t.slice], c):
                        self.event(x, "mut", name="del", base=b, args=(i,), node=s)
                        h = self.hobj(x, b)
                        i = self.freeze(x, i)
                        if h is not None and h.kind == "dict":
                            h2 = h.copy()
                            if all(g[0] == "kv" and is_const(g[1]) for g in h.segs) and is_const(i):
                                h2.segs = tuple(g for g in h.segs if g[1] != i)
                            else:
                                h2.segs = (("merge", mk("without", self.freeze(x, b), i)),)
                            x.heap[b] = h2
                        elif h is None:
                            x.muts[b] = x.muts.get(b, ()) + (("del", (i,)),)
                        nxt.append(x)
                elif isinstance(t, ast.Attribute):
                    for x, b in self.ev(t.value, c):
                        self.event(x, "delattr", name=t.attr, base=b, node=s)
                        h = self.hobj(x, b)
                        if h is not None and h.kind == "obj" and t.attr in h.attrs:
                            h2 = h.copy()
                            del h2.attrs[t.attr]
                            x.heap[b] = h2
                        nxt.append(x)
                else:
                    nxt.append(c)
            cur = nxt
        return self.fall(cur)

    def st_Return(self, s, st):
        fn = self.callstack[-1] if self.callstack else None
        if s.value is None:
            return [Outcome("return", st, NONE, s, fn)]
        return [Outcome("return", x, v, s, fn) for x, v in self.ev(s.value, st)]

    def st_Break(self, s, st):
        return [Outcome("break", st)]

    def st_Continue(self, s, st):
        return [Outcome("continue", st)]

    def st_Raise(self, s, st):
        fn = self.callstack[-1] if self.callstack else None
        if s.exc is None:
            v = st.frames[-1].get("__exc__", mk("anyexc", 0))
            self.event(st, "raise", value=v, node=s)
            return [Outcome("raise", st, v, s, fn)]
        outs = []
        for x, v in self.ev(s.exc, st):
            if v.op == "builtin":
                v = mk("call", v.args[0], (), ())
            elif v.op == "ext":
                v = mk("call", v.args[0], (), ())
            elif v.op == "class":
                for x2, v2 in self.call(x, v, [], [], s):
                    self.event(x2, "raise", value=v2, node=s)
                    outs.append(Outcome("raise", x2, v2, s, fn))
                continue
            self.event(x, "raise", value=v, node=s)
            outs.append(Outcome("raise", x, v, s, fn))
        return outs

    def st_Assert(self, s, st):
        outs = []
        fn = self.callstack[-1] if self.callstack else None
        for x, b in self.cond(s.test, st):
            if b:
                outs.append(Outcome("fall", x))
            else:
                v = mk("call", "AssertionError", (), ())
                self.event(x, "raise", value=v, node=s)
                outs.append(Outcome("raise", x, v, s, fn))
        return outs

    def st_If(self, s, st):
        outs = []
        for x, b in self.cond(s.test, st):
            outs.extend(self.block(s.body if b else s.orelse, x))
        return self.merge_outs(outs)

    def st_For(self, s, st):
        names = {n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)}
        outs = []
        for x, it in self.ev(s.iter, st):
            for o in self.loop(x, it, s.target, lambda c: self.block(s.body, c), names, s):
                if o.kind == "fall" and s.orelse and o.val != "broke":
                    outs.extend(self.block(s.orelse, o.st))
                elif o.kind == "fall":
                    outs.append(Outcome("fall", o.st))
                else:
                    outs.append(o)
        return outs

    def st_While(self, s, st):
        r = self._induction(s)
        if r is not None:
            var, bound, body, incl = r
            init = st.frames[-1].get(var)
            if init is not None:
                outs = []
                for x, bv in self.ev(bound, st):
                    hi = self.freeze(x, bv)
                    if incl:
                        hi = add(hi, const(1))
                    it = rng(self.freeze(x, init), hi)
                    for o in self.loop(x, it, ast.Name(var, ast.Store()), lambda c: self.block(body, c), {var}, s):
                        if o.kind == "fall":
                            if o.val != "broke":
                                o.st.frames[-1][var] = hi if init == const(0) else mk("call", "max", tuple(sorted([hi, self.freeze(x, init)])), ())
                            outs.append(Outcome("fall", o.st))
                        else:
                            outs.append(o)
                return outs

        def body(c):
            outs = []
            for x, b in self.cond(s.test, c):
                if b:
                    outs.extend(self.block(s.body, x))
                else:
                    outs.append(Outcome("exit", x))
            return outs
        outs = []
        for o in self.abstract_loop(st, mk("while", 0), None, body, set(), s, whilecond=s.test):
            if o.kind == "break":
                outs.append(Outcome("fall", o.st))
            elif o.kind == "fall" and s.orelse:
                outs.extend(self.block(s.orelse, o.st))
            else:
                outs.append(o)
        return outs

    @staticmethod
    def _induction(s):
        """while i < n: ...; i += 1   ->  (i, n, body without the increment, inclusive)"""
        t = s.test
        if s.orelse or not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.left, ast.Name)
                            and isinstance(t.ops[0], (ast.Lt, ast.LtE))):
            return None
        i = t.left.id
        inc = s.body[-1] if s.body else None
        if not (isinstance(inc, ast.AugAssign) and isinstance(inc.op, ast.Add) and isinstance(inc.target, ast.Name)
                and inc.target.id == i and isinstance(inc.value, ast.Constant) and inc.value.value == 1):
            return None
        rest = s.body[:-1]
        bound_names = {n.id for n in ast.walk(t.comparators[0]) if isinstance(n, ast.Name)}
        for b in rest:
            for n in ast.walk(b):
                if isinstance(n, (ast.Continue,)):
                    return None
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and (n.id == i or n.id in bound_names):
                    return None
        if any(isinstance(n, ast.Call) and not (isinstance(n.func, ast.Name) and n.func.id == "len")
               for n in ast.walk(t.comparators[0])):
            return None
        return i, t.comparators[0], rest, isinstance(t.ops[0], ast.LtE)

    RISKY = (ast.Call, ast.Subscript, ast.Import, ast.ImportFrom, ast.Attribute, ast.BinOp)

    def st_Try(self, s, st):
        outs, cur, raised = [], [st], []
        for b in s.body:
            nxt = []
            for c in cur:
                if s.handlers and any(isinstance(n, self.RISKY) for n in ast.walk(b)):
                    r = c.copy()
                    r.conds.append((mk("raised", const(self._desc(b))), True))
                    raised.append(Outcome("raise", r, mk("anyexc", getattr(b, "lineno", 0)), b,
                                          self.callstack[-1] if self.callstack else None))
                for o in self.stmt(b, c):
                    if o.kind == "fall":
                        nxt.append(o.st)
                    elif o.kind == "raise":
                        raised.append(o)
                    else:
                        outs.append(o)
            cur = nxt
        for c in cur:
            if s.orelse:
                outs.extend(self.block(s.orelse, c))
            else:
                outs.append(Outcome("fall", c))
        depth = len(st.frames)
        for o in raised:
            o.st.frames = o.st.frames[:depth]
            handled = False
            for h in s.handlers:
                names = self._handler_names(h, o.st)
                m = self._matches(o.val, names, o.st)
                if m is False:
                    continue
                x = o.st.copy() if m is None else o.st
                if h.name:
                    x.frames[-1][h.name] = o.val
                x.frames[-1]["__exc__"] = o.val
                e = self.event(x, "handler", name=",".join(names) if names else "*", value=o.val, node=h)
                for o2 in self.block(h.body, x):
                    o2.st.frames[-1].pop("__exc__", None) if o2.st.frames else None
                    outs.append(o2)
                if m is True:
                    handled = True
                    break
            if not handled and o.val.op != "anyexc":
                outs.append(o)
        if s.finalbody:
            res = []
            for o in outs:
                for f in self.block(s.finalbody, o.st):
                    if f.kind == "fall":
                        res.append(Outcome(o.kind, f.st, o.val, o.node, o.fn))
                    else:
                        res.append(f)
            outs = res
        return outs

    st_TryStar = st_Try

    @staticmethod
    def _desc(node):
        try:
            return ast.unparse(node).split("\n")[0][:80]
        except Exception:
            return "?"

    def _handler_names(self, h, st):
        if h.type is None:
            return None
        elts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        m = st.frames[-1]["__module__"]
        return [self.p.dotted(m, e) for e in elts]

    def exc_name(self, st, v):
        h = self.hobj(st, v)
        if h is not None and h.cls is not None:
            return h.cls.qual
        if v.op in ("call", "obj"):
            return v.args[0]
        return None

    def _matches(self, v, names, st):
        """True / False / None (unknown)"""
        if names is None or any(n in ("Exception", "BaseException") for n in names):
            return True
        if v.op == "anyexc":
            return None
        en = self.exc_name(st, v)
        if en is None:
            return None
        for n in names:
            if n == en:
                return True
            a, b = getattr(_b, en, None), getattr(_b, n, None)
            if isinstance(a, type) and isinstance(b, type):
                if issubclass(a, b):
                    return True
                continue
            if en in self.p.classes:
                for q in self.p.classes[en].mro:
                    qn = q.qual if isinstance(q, Class) else q
                    if qn == n:
                        return True
                    qa = getattr(_b, qn, None) if isinstance(q, str) else None
                    if isinstance(qa, type) and isinstance(b, type) and issubclass(qa, b):
                        return True
        return False

    def st_With(self, s, st):
        return self._with(list(s.items), s, st)

    def _with(self, items, s, st):
        if not items:
            return self.block(s.body, st)
        it, outs = items[0], []
        for x, v in self.ev(it.context_expr, st):
            h = self.hobj(x, v)
            entered = []
            exitm = None
            if h is not None and h.kind == "obj" and h.cls is not None:
                d, m = h.cls.lookup("__enter__")
                d2, exitm = h.cls.lookup("__exit__")
                self.event(x, "enter", base=v, node=s)
                if isinstance(m, Func):
                    entered = self.call_func(x, m, [("v", v)], [], s)
                else:
                    entered = [(x, v)]
            else:
                self.event(x, "enter", base=v, node=s)
                entered = [(x, v)]
            for x2, y in entered:
                starts = [x2]
                if it.optional_vars is not None:
                    starts = self.assign(it.optional_vars, y, x2, s)
                for x3 in starts:
                    for o in self._with(items[1:], s, x3):
                        if o.kind == "raise":
                            o.st.frames = o.st.frames[:len(st.frames)]
                        self.event(o.st, "exit", base=v, node=s, extra=o.kind)
                        if isinstance(exitm, Func):
                            exc = [NONE] * 3 if o.kind != "raise" else [mk("exctype"), o.val, mk("exctb")]
                            for o3, rv in self.call_func(o.st, exitm, [("v", v)] + [("v", e) for e in exc], [], s):
                                outs.append(Outcome(o.kind, o3, o.val, o.node, o.fn))
                        else:
                            outs.append(o)
        return outs

    # ============================================================ entry points
    def initial(self):
        return State()

    def entry_args(self, st, fn, self_v=None, args=None):
        a = fn.node.args
        out = {}
        names = [x.arg for x in a.posonlyargs + a.args]
        for i, n in enumerate(names):
            if i == 0 and fn.cls is not None and not fn.deco("staticmethod") and self_v is not None:
                out[n] = self_v
            else:
                out[n] = param(n)
        for x in a.kwonlyargs:
            out[x.arg] = param(x.arg)
        if a.vararg:
            out[a.vararg.arg] = param(a.vararg.arg)
        if a.kwarg:
            out[a.kwarg.arg] = param(a.kwarg.arg)
        if args:
            out.update(args)
        return out

    def run(self, fn, cls=None, args=None, st=None, self_v=None, env=None, defaults=False):
        """abstract every path of fn entered with symbolic arguments; returns [Path]"""
        st = st.copy() if st is not None else State()
        if fn.cls is not None and self_v is None:
            c = cls or fn.cls
            if fn.deco("classmethod"):
                self_v = mk("class", c.qual)
            elif not fn.deco("staticmethod"):
                if fn.name == "__new__":
                    self_v = mk("class", c.qual)
                else:
                    self_v = self.sym_obj(st, c)
        a = self.entry_args(st, fn, self_v, args)
        if defaults:
            nodes = fn.node.args
            names = [x.arg for x in nodes.posonlyargs + nodes.args]
            for n, dn in zip(names[len(names) - len(nodes.defaults):], nodes.defaults):
                if not args or n not in args:
                    a[n] = self.default_value(st, fn, n, dn)
        outs = self.run_func(st, fn, a, env)
        return [Path(self, o) for o in outs]

    def build(self, cls, pos=(), kw=(), st=None):
        """states with a constructed instance: [(state, ref)] plus raising paths"""
        st = st.copy() if st is not None else State()
        st.frames.append({"__module__": cls.module, "__closure__": None, "__fid__": 0})
        self._exc.append([])
        res = self.call(st, mk("class", cls.qual), [("v", v) for v in pos], list(kw), None)
        self._exc.pop()
        for s, v in res:
            s.frames.pop()
        return res

    def method(self, st, obj, name, pos=(), kw=()):
        """paths of calling a method on an object of a given state"""
        st = st.copy()
        st.frames.append({"__module__": next(iter(self.p.modules.values())), "__closure__": None, "__fid__": 0})
        self._exc.append([])
        res = []
        for s, f in self.getattr(st, obj, name):
            for s2, v in self.call(s, f, [("v", x) for x in pos], list(kw), None):
                s2.frames.pop()
                res.append(Path(self, Outcome("return", s2, v)))
        for o in self._exc.pop():
            res.append(Path(self, o))
        return res


def k_get(k, name):
    for n, v in k:
        if n == name:
            return v
    return None
