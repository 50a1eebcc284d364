"""Amplitude matching.  One call of process() is interpreted from an arbitrary state whose DACs lie in [10, 255] (inductive
hypothesis); for every path through the per-superpixel loop an interval evaluation of the value left in the returned array
(refined by the path's own comparisons) must again lie in [10, 255], must be 255 where the mask is set, must be the old value
where the superpixel has finished, and the stage left must not be smaller than the stage found.  Attribute updates and the
returned shape are read off the same paths, the initial state off the constructor."""
from .util import *
from ..terms import elem, item

CLS = "CHECLabPy.calib.amplitude_matcher.AmplitudeMatcher"
LO, HI = 10, 255
INF = float("inf")
STATE = ("starting_dacs", "sp_mask", "global_stage", "stage", "current_dac", "previous_dac", "previous_distance", "iteration")
DACS = ("starting_dacs", "current_dac", "previous_dac")
FINISH = 3


def old(a):
    return param("old " + a)


SAFE = {old(a) for a in DACS} | {param("start")}
SAME = ("numpy.copy", "numpy.ravel", "numpy.reshape", "numpy.array", "numpy.asarray", "numpy.ascontiguousarray")


def run(ctx):
    P = ctx.P
    cls = P.cls(CLS)
    opaque = {q for q in P.classes if q != CLS}
    I = ctx.interp(opaque=opaque)
    built = I.build(cls, [param("cal"), param("aim"), param("start"), param("bad"), param("prof")], [])
    with ctx.section("initial"):
        initial(ctx, I, cls, built)
    with ctx.section("process"):
        process(ctx, I, cls, built)
    ctx.assumptions.append("the given starting DACs lie within 10..255 and are integers (no NaN), the camera has 512 superpixels")


def kwof(t, pos):
    kw = dict(t.args[2])
    for n, v in zip(pos, t.args[1]):
        kw.setdefault(n, v)
    return kw


# ------------------------------------------------------------------ intervals
def hull(a, b):
    return None if a is None or b is None else (min(a[0], b[0]), max(a[1], b[1]))


def meet(a, b):
    return (max(a[0], b[0]), min(a[1], b[1]))


def root(t):
    while True:
        t = plain(t)
        if t.op in ("filled", "mutated"):
            t = t.args[0]
        elif t.op == "call" and t.args[0] in SAME and kwof(t, ("a",)).get("a") is not None and t.args[0] not in ("numpy.copy", "numpy.array"):
            t = kwof(t, ("a",))["a"]
        elif t.op == "meth" and t.args[1] in ("ravel", "reshape", "flatten") and t.args[1] != "flatten":
            t = t.args[0]
        else:
            return t


def elems(t, written=()):
    """interval containing every element; arrays in `written` are the ones whose loops are checked separately"""
    t = plain(t)
    if t in SAFE:
        return (LO, HI)
    if t.op == "filled":
        r = root(t)
        if r in written:
            return (LO, HI)
        return None
    if t in written:
        return (LO, HI)
    if is_const(t) and is_num(t):
        return (t.args[0], t.args[0])
    if t.op == "call":
        n, kw = t.args[0], kwof(t, ("a",))
        if n in SAME:
            x = kw.get("a", kw.get("object"))
            return elems(x, written) if x is not None else None
        if n == "numpy.full":
            return elems(kw.get("fill_value", NONE), written)
        if n in ("numpy.zeros", "numpy.zeros_like"):
            return (0, 0)
        if n == "numpy.sign":
            return (-1, 1)
        if n == "numpy.clip":
            a = elems(kw.get("a", NONE), written) or (-INF, INF)
            lo = elems(kw.get("a_min", t.args[1][1] if len(t.args[1]) > 1 else NONE), written)
            hi = elems(kw.get("a_max", t.args[1][2] if len(t.args[1]) > 2 else NONE), written)
            if lo is None or hi is None:
                return None
            return (min(max(a[0], lo[0]), hi[1]), min(max(a[1], lo[1]), hi[1]))
        if n in ("numpy.minimum", "numpy.maximum", "min", "max"):
            k2 = kwof(t, ("x1", "x2"))
            xs = [elems(x, written) or (-INF, INF) for x in (list(t.args[1]) if n in ("min", "max") else [k2.get("x1", NONE), k2.get("x2", NONE)])]
            f = min if n.endswith("min") or n.endswith("minimum") else max
            return (f(x[0] for x in xs), f(x[1] for x in xs))
        if n == "numpy.where":
            k2 = kwof(t, ("condition", "x", "y"))
            return hull(elems(k2.get("x", NONE), written), elems(k2.get("y", NONE), written))
    if t.op == "meth" and t.args[1] in ("copy", "astype", "ravel", "reshape", "flatten"):
        return elems(t.args[0], written)
    if t.op in ("min", "max"):
        xs = [elems(x, written) or (-INF, INF) for x in (t.args[0] if isinstance(t.args[0], tuple) else t.args)]
        f = min if t.op == "min" else max
        return (f(x[0] for x in xs), f(x[1] for x in xs))
    if t.op == "item":
        return elems(t.args[0], written)
    if t.op == "phi" and isinstance(t.args[1], tuple) and t.args[1][1] == "item":
        return elems(t.args[1][0], written)
    if t.op == "poly":
        lo = hi = 0
        for mono, c in t.args[0]:
            a = (c, c)
            for x in mono:
                b = elems(x, written)
                if b is None:
                    b = (-INF, INF)
                ps = [u * v if u and v else 0 for u in a for v in b]
                a = (min(ps), max(ps))
            lo, hi = lo + a[0], hi + a[1]
        return (lo, hi)
    return None


def value(t, conds, written):
    """interval of a scalar under the path's comparisons"""
    t = plain(t)
    v = elems(t, written)
    v = (-INF, INF) if v is None else v
    for a, pol in conds:
        a = plain(a)
        if a.op not in ("lt", "le", "eq"):
            continue
        x, y = a.args[0], a.args[1]
        if y is t and is_const(x) and is_num(x):
            c = x.args[0]
            if a.op == "eq":
                v = meet(v, (c, c)) if pol else v
            else:                                    # c < t  /  c <= t
                v = meet(v, (c if a.op == "le" else c + 1, INF) if pol else (-INF, c if a.op == "lt" else c - 1))
        elif x is t and is_const(y) and is_num(y):
            c = y.args[0]
            if a.op == "eq":
                v = meet(v, (c, c)) if pol else v
            else:                                    # t < c  /  t <= c
                v = meet(v, (-INF, c - 1 if a.op == "lt" else c) if pol else (c if a.op == "lt" else c + 1, INF))
    return v


def understood(t):
    return not any(x.op in UNKNOWN_OPS for x in subterms(plain(t)))


# ------------------------------------------------------------------ one iteration
def process(ctx, I, cls, built):
    d, fn = cls.lookup("process")
    if not isinstance(fn, Func):
        raise AnchorError(CLS + ".process")
    st, r = built[0]
    st = st.copy()
    st.conds = []
    for a in STATE:
        if a not in st.heap[r].attrs:
            raise AnchorError("AmplitudeMatcher." + a)
        st.heap[r].attrs[a] = old(a)
    n = 0
    for p in I.method(st, r, "process", [param("path")]):
        ctx.count([p])
        if p.kind != "return":
            continue
        n += 1
        one(ctx, I, p, p.events[len(st.events):], r, fn)
    if not n:
        ctx.und("process", "no path of process() understood", fn.loc())


def one(ctx, I, p, events, r, fn):
    cs = p.cond_str()[:400]
    ret = plain(p.value)
    if ret.op != "tuple" or len(ret.args[0]) != 3:
        ctx.und("shape", "returns %s" % show(ret)[:200], fn.loc())
        return
    out = ret.args[0][0]
    shape(ctx, out, fn, cs)
    written = set()
    for e, loops in flat_events(events):
        if e.kind == "loop" and not loops:
            roots = {root(x.base) for bp in e.paths for x, _ in flat_events(bp.events) if x.kind in ("setitem", "inplace") and isinstance(x.base, Term)}
            for rt in roots:
                if rt is root(out) or rt is root(I.freeze(p.st, p.st.heap[r].attrs["current_dac"])):
                    base = elems(rt)
                    ctx.judge("kernel:start", True if base and base[0] >= LO and base[1] <= HI else None, "starts from the present DACs", "starts from %s" % show(rt)[:200], e.loc)
                    ctx.judge("finished:start", present(rt), "superpixels that are not changed keep the present DACs",
                              "superpixels that are not changed take %s" % show(rt)[:200], e.loc)
                    written.add(rt)
    for rt in written:
        for e, loops in flat_events(events):
            if e.kind == "loop" and not loops and any(x.kind in ("setitem", "inplace") and isinstance(x.base, Term) and root(x.base) is rt for bp in e.paths for x, _ in flat_events(bp.events)):
                full = plain(e.base)
                okb = full.op == "range" and full.args[0] is const(0) and full.args[2] is const(1) and "size" in show(full.args[1])[-8:]
                ctx.judge("kernel:all", True if okb else None, "every superpixel", "loop over %s" % show(full)[:200], e.loc)
                for bp in e.paths:
                    superpixel(ctx, e, bp, rt, written)
            elif e.kind in ("setitem", "inplace") and not loops and isinstance(e.base, Term) and root(e.base) is rt:
                v = elems(e.value, written) if isinstance(e.value, Term) else None
                ctx.judge("range:other", True if v and v[0] >= LO and v[1] <= HI else (False if v and understood(e.value) else None), "within range", "DACs set to %s" % show(e.value)[:200], e.loc)
    v = elems(out, written)
    ctx.judge("range:returned", True if v and v[0] >= LO and v[1] <= HI else (False if v else None), "within 10..255", "the returned DACs range over %s" % (v,), fn.loc(), cs)
    if not written and root(out) not in SAFE:
        ctx.und("kernel", "the loop over superpixels was not found", fn.loc())
    s = p.st
    for a in ("current_dac", "previous_dac"):
        t = I.freeze(s, s.heap[r].attrs[a])
        v = elems(t, written)
        ctx.judge("range:" + a, True if v and v[0] >= LO and v[1] <= HI else (False if v else None), "within 10..255", "%s ranges over %s afterwards" % (a, v), fn.loc(), cs)
    t = I.freeze(s, s.heap[r].attrs["current_dac"])
    ctx.judge("present", present(t, root(out)), "the returned DACs are the present ones for the next call", "the present DACs for the next call are %s" % show(t)[:200], fn.loc(), cs)
    t = plain(I.freeze(s, s.heap[r].attrs["sp_mask"]))
    ctx.judge("mask:kept", True if t is old("sp_mask") else None, "unchanged", "the mask becomes %s" % show(t)[:200], fn.loc())
    # stages
    g0, g1 = old("global_stage"), plain(I.freeze(s, s.heap[r].attrs["global_stage"]))
    vals = [g for g in range(4) if holds(p.conds, g0, g)]
    for g in vals:
        e = ev(g1, g0, g)
        ctx.judge("stage:global", None if e is None else g <= e <= FINISH, "the pass only advances", "the pass goes from %s to %s" % (g, e), fn.loc(), cs)
    for e, loops in flat_events(events):
        if not loops and (e.kind in ("setitem", "inplace") and isinstance(e.base, Term) and root(e.base) is old("stage") or e.kind == "setattr" and e.name == "stage"):
            back = [g for g in vals if ev(g1, g0, g) is None or ev(g1, g0, g) <= g]
            ctx.judge("stage:reset", not back, "stages are reset only when the pass advances", "stages are set without a new pass", e.loc, cs)


def holds(conds, t, v):
    """the path's conditions on t allow t = v"""
    for a, pol in conds:
        a = plain(a)
        if mentions(a, t):
            r = truth(a, t, v)
            if r is not None and r != pol:
                return False
    return True


def ev(x, t, v):
    x = plain(x)
    if x is t:
        return v
    if is_const(x) and is_num(x):
        return x.args[0]
    if x.op == "poly":
        tot = 0
        for mono, c in x.args[0]:
            for m in mono:
                y = ev(m, t, v)
                if y is None:
                    return None
                c = c * y
            tot += c
        return tot
    if x.op == "call" and x.args[0] in ("min", "max", "int") and x.args[1]:
        ys = [ev(y, t, v) for y in x.args[1]]
        return None if None in ys else {"min": min, "max": max, "int": lambda a: int(a[0])}[x.args[0]](ys)
    return None


def truth(a, t, v):
    if a.op in ("eq", "lt", "le"):
        x, y = ev(a.args[0], t, v), ev(a.args[1], t, v)
        if x is None or y is None:
            return None
        return {"eq": x == y, "lt": x < y, "le": x <= y}[a.op]
    if a.op == "truth":
        x = ev(a.args[0], t, v)
        return None if x is None else bool(x)
    if a.op == "in" and plain(a.args[1]).op in ("tuple", "listv"):
        xs = plain(a.args[1]).args[0]
        ys = [ev(s[1] if isinstance(s, tuple) else s, t, v) for s in xs]
        x = ev(a.args[0], t, v)
        return None if x is None or None in ys else x in ys
    return None


def superpixel(ctx, lp, bp, rt, written):
    """one superpixel, one path through the loop body"""
    cs = conds_str(bp.conds)[:600]
    if bp.exit not in ("fall", "continue"):
        ctx.judge("kernel:every", False if not bp.conds else None, "", "the loop over superpixels ends early", lp.loc, cs)
        return
    i = plain(lp.value)
    stores = [x for x, l in flat_events(bp.events) if x.kind in ("setitem", "inplace") and isinstance(x.base, Term) and root(x.base) is rt]
    sts = [x for x, l in flat_events(bp.events) if x.kind in ("setitem", "inplace") and isinstance(x.base, Term) and root(x.base) is old("stage")]
    if any(x.kind == "inplace" or plain(x.args[0]) is not i for x in stores + sts):
        ctx.und("kernel:index", "element stored is not the superpixel's own", lp.loc)
        return
    final = plain(stores[-1].value) if stores else None
    v = value(final, bp.conds, written) if final is not None else (LO, HI)
    loc = stores[-1].loc if stores else lp.loc
    if v[0] > v[1]:
        return                                               # the path cannot be taken
    tol = 1e-6
    inside = v[0] >= LO - tol and v[1] <= HI + tol
    ctx.judge("range:superpixel", True if inside else (False if understood(final) and all(abs(x) < INF for x in v) else None), "within 10..255",
              "the next DAC can be anything in %g..%g" % v, loc, cs)
    # stage found
    phis = {x for a, _ in bp.conds for x in subterms(plain(a)) if is_stage(x, i)}
    phis |= {x for s in sts for x in subterms(plain(s.value)) if is_stage(x, i)} if sts else set()
    if len(phis) > 1:
        ctx.und("stage", "several readings of the stage", lp.loc)
        return
    s0 = next(iter(phis)) if phis else None
    S = [s for s in range(FINISH + 1) if s0 is None or holds(bp.conds, s0, s)]
    if not S:
        return
    masked = {plain(a): pol for a, pol in bp.conds}.get(mk("truth", item(old("sp_mask"), i)))
    old_value = final is None or final.op == "item" and root(final.args[0]) is rt or final is item(rt, i)
    # finished superpixels keep their value
    if FINISH in S:
        ctx.judge("finished:kept", True if old_value or masked and v == (HI, HI) else (False if understood(final) else None), "keeps its value", "a finished superpixel is set to %s" % (show(final)[:200] if final is not None else "?"), loc, cs)
    # bad HV
    if masked is not False and any(s != FINISH for s in S):
        full = final is not None and v[0] >= HI - tol
        known = final is None or understood(final)
        if masked is None and final is not None and mentions(final, old("sp_mask")):
            known = False
        ctx.judge("badhv", True if full else (False if known else None), "set to 255", "a superpixel with bad HV is set to %s" % (show(final)[:200] if final is not None else "its old value"), loc, cs)
    # stage only advances
    for s in S:
        e = s
        if sts:
            e = ev(sts[-1].value, s0, s) if s0 is not None else ev(sts[-1].value, None, s)
        if e is None:
            ctx.und("stage:advance", "stage becomes %s" % show(sts[-1].value)[:200], sts[-1].loc)
        else:
            ctx.judge("stage:advance", s <= e <= FINISH, "only advances", "the stage goes from %s to %s" % (s, e), sts[-1].loc if sts else lp.loc, cs)


def is_stage(x, i):
    if x.op == "item" and root(x.args[0]) is old("stage"):
        return True
    return x.op == "phi" and isinstance(x.args[1], tuple) and x.args[1][1] == "item" and isinstance(x.args[1][0], Term) and root(x.args[1][0]) is old("stage")


def present(t, want=None):
    """is every element the present DAC value? None where not known"""
    t = root(t)
    if t is (want if want is not None else old("current_dac")):
        return True
    if t in SAFE or is_const(t) or t.op == "poly":
        return False
    if t.op == "call":
        kw = kwof(t, ("a",))
        if t.args[0] in ("numpy.copy", "numpy.array"):
            x = kw.get("a", kw.get("object"))
            return present(x, want) if x is not None else None
        if t.args[0] in ("numpy.full", "numpy.zeros", "numpy.ones", "numpy.zeros_like", "numpy.full_like"):
            return False
        if t.args[0] == "numpy.where":
            k2 = kwof(t, ("condition", "x", "y"))
            xs = [present(k2.get("x", NONE), want), present(k2.get("y", NONE), want)]
            return False if False in xs else None if None in xs else True
        if t.args[0] in ("numpy.minimum", "numpy.maximum", "numpy.clip"):
            return None
    if t.op == "meth" and t.args[1] in ("copy", "astype", "flatten"):
        return present(t.args[0], want)
    return None


def shape(ctx, out, fn, cs):
    t = plain(out)
    shp = None
    if t.op == "call" and t.args[0] == "numpy.reshape":
        shp = plain(kwof(t, ("a", "newshape")).get("newshape", NONE))
        if kwof(t, ("a",)).get("order") not in (None, const("C")):
            ctx.bad("shape:order", "superpixels are laid out in order %s" % show(kwof(t, ("a",))["order"]), fn.loc(), cs)
    ok = shp is not None and shp.op == "tuple" and tuple(x.args[0] if is_const(x) else None for x in shp.args[0]) in ((32, 16), (-1, 16), (32, -1))
    flat = t in SAFE or t.op == "filled" or t.op == "call" and t.args[0] in ("numpy.copy", "numpy.ravel", "numpy.transpose") or shp is not None and shp.op == "tuple" and all(is_const(x) for x in shp.args[0]) or t.op == "attr" and t.args[1] == "T"
    ctx.judge("shape", True if ok else (False if flat else None), "(32, 16)", "the returned DACs are %s" % (("of shape " + show(shp)) if shp is not None else "not reshaped"), fn.loc(), cs)


# ------------------------------------------------------------------ constructor
def initial(ctx, I, cls, built):
    d, fn = cls.lookup("__init__")
    for st, r in built:
        cs = conds_str(st.conds)
        at = {a: I.freeze(st, v) for a, v in st.heap[r].attrs.items()}
        for a in ("current_dac", "previous_dac"):
            v = elems(at[a])
            ctx.judge("initial:" + a, True if v and v[0] >= LO and v[1] <= HI else (False if v else None), "within 10..255", "%s starts as %s" % (a, show(at[a])[:200]), fn.loc(), cs)
        v = elems(at["stage"])
        ctx.judge("initial:stage", True if v == (0, 0) else (False if v else None), "starts at the first step", "stage starts as %s" % show(at["stage"])[:200], fn.loc(), cs)
        t = plain(at["sp_mask"])
        facts = {plain(a): pol for a, pol in st.conds}
        bad = param("bad")
        if facts.get(mk("is", bad, NONE)) is True:
            v = elems(t)
            ctx.judge("initial:mask", True if v == (0, 0) else (False if v else None), "nothing is masked", "the mask starts as %s" % show(t)[:200], fn.loc(), cs)
            continue
        x = t
        while x.op == "call" and x.args[0] in ("numpy.ravel", "numpy.copy", "numpy.asarray", "numpy.array"):
            x = plain(kwof(x, ("a",)).get("a", kwof(x, ("object",)).get("object", NONE)))
        if x is bad:
            ctx.ok("initial:mask", "the mask given", fn.loc())
        elif x.op == "call" and x.args[0] in ("numpy.all", "numpy.any", "numpy.max", "numpy.min"):
            kw = kwof(x, ("a", "axis"))
            y = plain(kw.get("a", NONE))
            shp = plain(kwof(y, ("a", "newshape")).get("newshape", NONE)) if y.op == "call" and y.args[0] == "numpy.reshape" else NONE
            ok = shp.op == "tuple" and len(shp.args[0]) == 2 and shp.args[0][1] is const(4) and kw.get("axis") in (const(1), const(-1)) and mentions(y, bad)
            ctx.judge("initial:mask", True if ok else (False if shp.op == "tuple" and understood(x) else None), "four consecutive pixels per superpixel", "the superpixel mask is %s" % show(x)[:200], fn.loc(), cs)
        elif not mentions(t, bad) and understood(t):
            ctx.bad("initial:mask", "the mask given is not used: %s" % show(t)[:200], fn.loc(), cs)
        else:
            ctx.und("initial:mask", "the mask is %s" % show(t)[:200], fn.loc())
