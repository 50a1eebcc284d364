"""Every parameter in its own place.  For each concrete fitter the declared names are read off the constructed parameter
list.  The spectra and likelihood functions are interpreted with symbolic illuminations; the model is the function that
first receives values looked up by name, and each of its arguments must be exactly parameter_values[lookup[i][own name]]
for the illumination i of the surrounding loop over all illuminations.  Keys used = names declared; every model argument is
used by the model.  Callers (curve and minimiser) must pass the fitter's own illuminations, grid, positions and the values
in table order, and each curve is scaled with its own histogram."""
import ast
from .util import *
from .c20 import FITTER, subclasses, with_frame
from ..terms import elem, rng, item, length

PV, LOOK, X, Y, N = param("values"), param("lookup"), param("x"), param("y"), param("n")
ROLES = {"n_illuminations": N, "data_x": X, "data_y": Y, "lookup": LOOK}


def values_form(t):
    """(index, key) of values[lookup[index][key]]"""
    t = plain(t)
    if t.op == "item" and t.args[0] is PV:
        k = t.args[1]
        if k.op == "item" and k.args[0].op == "item" and k.args[0].args[0] is LOOK:
            return k.args[0].args[1], k.args[1]
    return None


def run(ctx):
    P = ctx.P
    F = P.cls(FITTER)
    subs = [s for s in subclasses(P, F)]
    if not subs:
        raise AnchorError("no spectrum fitter")
    for s in sorted(subs, key=lambda c: c.qual):
        with ctx.section(s.name):
            fitter(ctx, s)
    with ctx.section("callers"):
        callers(ctx, F)
    for s in subs:
        for m in ("apply", "_minimize_function", "fit_result_curve"):
            d, _ = s.lookup(m)
            ctx.judge("inherited:%s.%s" % (s.name, m), True if d is F else None, "uses the analysed method", "%s overrides %s" % (s.name, m))


def declared(ctx, I, s):
    """names of the constructed parameters"""
    out = None
    for st, r in I.build(s, [N], []):
        c = st.heap[r].attrs.get("parameters")
        if c is None or c not in st.heap:
            ctx.und(s.name + ":declared", "no parameter collection")
            return None
        coll = st.heap[c]
        lst = coll.attrs.get("spectrum_parameter_list")
        h = I.hobj(st, lst) if lst is not None else None
        names = {}
        for q in (h.segs if h is not None else ()):
            o = st.heap.get(q[1]) if q[0] == "item" else None
            nm = o.attrs.get("name") if o is not None and hasattr(o, "attrs") else None
            if nm is None or not is_const(nm):
                ctx.und(s.name + ":declared", "parameter list %s" % show(I.freeze(st, lst))[:200])
                return None
            if nm.args[0] in names:
                ctx.bad(s.name + ":declared", "parameter %s is declared twice" % show(nm))
            names[nm.args[0]] = o.attrs.get("multi")
        n = coll.attrs.get("n_illuminations")
        ctx.judge(s.name + ":illuminations", True if n is N else (False if n is not None and is_const(n) else None), "the collection has the fitter's illuminations", "the collection is made for %s illuminations" % (show(n) if n is not None else "?"))
        out = names
    return out


def bound_args(fn):
    a = fn.node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    out = {}
    for n in names:
        if n not in ROLES:
            return None
        out[n] = ROLES[n]
    if a.vararg is None:
        return None
    out[a.vararg.arg] = PV
    return out


def fitter(ctx, s):
    P = ctx.P
    I = ctx.interp()
    names = declared(ctx, I, s)
    if not names:
        ctx.und(s.name + ":declared", "no names")
        return
    for m in ("_get_spectra", "_get_likelihood"):
        d, fn = s.lookup(m)
        if not isinstance(fn, Func):
            raise AnchorError("%s.%s" % (s.name, m))
        args = by_position(fn)
        if args is None:
            ctx.und("%s:%s" % (s.name, m), "signature", fn.loc())
            continue
        first = I.run(fn, args=dict(args))
        ctx.count(first)
        models = {}
        for p in first:
            for e, fnn in outer_models(p.events):
                models.setdefault(e.name, fnn or e)
        if not models:
            ctx.und("%s:%s:model" % (s.name, m), "no function receives the values by name", fn.loc())
            continue
        J = ctx.interp(opaque=set(models))
        key = "%s:%s" % (s.name, m)
        for p in returns(J.run(fn, args=dict(args))):
            ctx.count([p])
            one(ctx, key, p, P, set(models), names, fn, m)


def by_position(fn):
    """the documented argument order of the two methods"""
    a = fn.node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    order = {3: [N, X, LOOK], 4: [N, X, Y, LOOK]}.get(len(names))
    if order is None or a.vararg is None:
        return None
    out = dict(zip(names, order))
    out[a.vararg.arg] = PV
    return out


def outer_models(events, depth=0):
    """outermost calls receiving values by name"""
    skip = None
    for e, loops in flat_events(events):
        if e.kind == "fnret" and skip == e.name:
            skip = None
        if e.kind != "fn" or skip:
            continue
        if any(isinstance(v, Term) and values_form(v) for _, v in e.kwargs or ()):
            skip = e.name
            yield e, None


def one(ctx, key, p, P, models, names, fn, m):
    v = plain(p.value)
    calls = [x for x in subterms(v) if x.op == "call" and x.args[0] in models]
    extra = [e for e, _ in flat_events(p.events) if e.kind == "call" and e.name in models]
    if not calls:
        ctx.judge(key, False if is_const(v) else None, "", "the result does not come from the model: %s" % show(v)[:300], fn.loc(), p.cond_str())
        return
    it = rng(const(0), N)
    i = elem(it)
    used = set()
    for c in set(calls):
        f = P.funcs[c.args[0]]
        kw = dict(c.args[2])
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        kw.update(zip(pos, c.args[1]))
        loc = next((e.loc for e in extra if e.value is c or plain(e.value) is c), fn.loc())
        for n in pos:
            w = kw.get(n)
            if w is None:
                if n in names:
                    ctx.bad("%s:%s" % (key, n), "the model does not receive %s" % n, loc)
                continue
            vf = values_form(w)
            if vf is None:
                if w is X:
                    continue
                if n in names:
                    own = not any(x.op in UNKNOWN_OPS for x in subterms(w))
                    ctx.judge("%s:%s" % (key, n), False if own and (is_const(w) or mentions(w, PV) and not mentions(w, LOOK)) else None, "", "the model's %s receives %s" % (n, show(w)), loc)
                else:
                    ctx.und("%s:%s" % (key, n), "the model's %s receives %s" % (n, show(w)), loc)
                continue
            idx, k = vf
            if not is_const(k):
                ctx.und("%s:%s" % (key, n), "the model's %s receives %s" % (n, show(w)), loc)
                continue
            used.add(k.args[0])
            ctx.judge("%s:%s" % (key, n), k.args[0] == n, "value of the parameter of the same name", "the model's %s receives the value of parameter %s" % (n, show(k)), loc)
            ctx.judge("%s:illumination" % key, True if idx is i else (None if any(x.op in UNKNOWN_OPS or x.op == "phi" for x in subterms(idx)) else False), "the values of its own illumination",
                      "%s of illumination %s is used" % (n, show(idx)), loc)
            if not reads(f, n):
                ctx.bad("%s:%s:used" % (key, n), "the model does not use its argument %s" % n, f.loc())
    missing, unknown = set(names) - used, used - set(names)
    ctx.judge(key + ":names", False if unknown or missing else True, "declared parameters = consumed parameters (%d)" % len(names),
              "declared but not consumed: %s; consumed but not declared: %s" % (sorted(missing), sorted(unknown)), fn.loc())
    # one result per illumination
    if m == "_get_spectra":
        ok = v.op == "comp" and v.args[0] is it and len(v.args[2]) == 1 and v.args[2][0][0] in (((),), ()) and len(v.args[2][0][1]) == 1
        full = False if v.op == "comp" and v.args[0].op == "range" and v.args[0] is not it or v.op == "listv" and len(v.args[0]) < 2 and not any(s[0] == "splice" for s in v.args[0]) else None
        ctx.judge(key + ":all", True if ok else full, "one spectrum per illumination, in order", "the spectra are %s" % show(v)[:300], fn.loc())
        if ok:
            body = v.args[2][0][1][0]
            ctx.judge(key + ":own", True if body[0] == "item" and body[1] in calls else None, "each entry is the model's spectrum", "the entry is %s" % show(body[1])[:200], fn.loc())
    else:
        sums = [x for x in subterms(v) if x.op == "sumcomp" and any(y in calls for y in subterms(x))]
        ok = len(sums) == 1 and sums[0].args[0] is it
        bad = bool(sums) and sums[0].args[0].op == "range" and sums[0].args[0] is not it or v.op == "last" or not sums and not any(x.op in UNKNOWN_OPS for x in subterms(v))
        ctx.judge(key + ":all", True if ok else (False if bad else None), "every illumination enters the sum", "the likelihood is %s" % show(v)[:300], fn.loc())
        ys = [x for x in subterms(v) if x.op == "item" and x.args[0] is Y]
        wrong = [x for x in ys if x.args[1] is not i]
        ctx.judge(key + ":histogram", True if ys and not wrong else (False if wrong and not any(y.op in UNKNOWN_OPS or y.op == "phi" for x in wrong for y in subterms(x.args[1])) else None),
                  "compared with its own histogram", "the spectrum of an illumination is compared with %s" % ([show(x) for x in wrong] or "no histogram"), fn.loc())
        if ok:
            for cs, segs in sums[0].args[2]:
                body = segs if isinstance(segs, Term) else None
                for t in ([body] if body is not None else [s[-1] for s in segs if isinstance(s, tuple)]):
                    both = any(x in calls for x in subterms(t)) and any(x in ys for x in subterms(t))
                    ctx.judge(key + ":compare", True if both else None, "spectrum and histogram enter together", "a term of the sum is %s" % show(t)[:200], fn.loc())


def reads(f, n):
    return any(isinstance(x, ast.Name) and x.id == n and isinstance(x.ctx, ast.Load) for x in ast.walk(f.node))


def callers(ctx, F):
    I = ctx.interp()
    SN = attr(SELF, "n_illuminations")
    COL = attr(SELF, "parameters")
    HX, HY, HYT, FV = attr(SELF, "charge_hist_x"), attr(SELF, "charge_hist_y"), attr(SELF, "charge_hist_y_typed"), attr(SELF, "fit_result_values")
    look = [attr(COL, "lookup_typed"), attr(COL, "lookup")]
    d, mf = F.lookup("_minimize_function")
    d, cf = F.lookup("fit_result_curve")
    if not isinstance(mf, Func) or not isinstance(cf, Func):
        raise AnchorError("SpectrumFitter methods")
    # what apply hands to the minimiser as its function
    va = mf.node.args.vararg
    seen = 0
    for p in ctx.run(mf, cls=F, args={va.arg: PV} if va else {}):
        for e, _ in flat_events(p.events):
            if e.kind != "fn" or not e.name.endswith("._get_likelihood"):
                continue
            seen += 1
            kw = [v for _, v in e.kwargs]
            check_args(ctx, "fit", e, [("illuminations", [SN, length(HYT), length(HY)]), ("grid", [HX]), ("histograms", [HYT, HY]), ("positions", look), ("values", [PV])])
    if not seen:
        ctx.und("fit:call", "the likelihood is not called directly", mf.loc())
    seen = 0
    for p in returns(ctx.run(cf, cls=F)):
        grid = None
        for e, _ in flat_events(p.events):
            if e.kind != "fn" or not e.name.endswith("._get_spectra"):
                continue
            seen += 1
            vals = [mk("values", FV)]
            got = plain(e.kwargs[-1][1])
            alt = None
            if got.op == "comp" and plain(got.args[0]) is attr(COL, "parameter_names") and len(got.args[2]) == 1:
                b = got.args[2][0][1]
                if len(b) == 1 and b[0][0] == "item" and plain(b[0][1]) is item(FV, elem(got.args[0])):
                    alt = got
            grid = plain(e.kwargs[1][1])
            check_args(ctx, "curve", e, [("illuminations", [SN, length(HY)]), ("grid", None), ("positions", look), ("values", vals + ([alt] if alt is not None else []))])
        v = p.value
        if isinstance(v, Term) and v.op == "tuple" and len(v.args[0]) == 2 and grid is not None:
            gx = plain(v.args[0][0])
            ctx.judge("curve:grid", True if gx is grid else (False if known_grid(gx) and known_grid(grid) else None), "the curve is given on the grid it was evaluated on", "evaluated at %s, returned with %s" % (show(grid)[:150], show(gx)[:150]), cf.loc())
    if not seen:
        ctx.und("curve:call", "the spectra are not computed directly", cf.loc())
    scaling(ctx, F, cf, SN, HX, HY)


def known_grid(t):
    return not any(x.op in UNKNOWN_OPS for x in subterms(t))


def check_args(ctx, key, e, want):
    got = [(k, plain(v)) for k, v in e.kwargs]
    if len(got) != len(want):
        ctx.und(key + ":call", "called with %d arguments" % len(got), e.loc)
        return
    for (k, v), (what, specs) in zip(got, want):
        if specs is None:
            continue
        if any(v is x for x in specs):
            ctx.ok("%s:%s" % (key, what), "the fitter's own " + what, e.loc)
        elif own_attr(v) or v.op == "values" and own_attr(v.args[0]):
            ctx.bad("%s:%s" % (key, what), "%s are %s" % (what, show(v)), e.loc)
        else:
            ctx.judge("%s:%s" % (key, what), match(v, specs, {("call", "sorted"), ("call", "reversed"), ("op", "after"), ("meth", "keys"), ("op", "keys")}), "", "%s are %s" % (what, show(v)[:300]), e.loc)


def own_attr(t):
    """another stored attribute of the fitter or its collection, initialised in the analysed classes"""
    return t.op == "attr" and t.args[0] in (SELF, attr(SELF, "parameters")) and t.args[1] in OTHERS


OTHERS = ("charge_hist_x", "charge_hist_y", "charge_hist_y_typed", "charge_hist_edges", "fit_result_values", "fit_result_errors",
          "n_bins", "range", "minuit_kwargs", "parameter_names", "spectrum_parameter_list")


def scaling(ctx, F, cf, SN, HX, HY):
    """each curve is scaled to its own histogram"""
    n = 0
    for p in returns(ctx.run(cf, cls=F)):
        for e, loops in flat_events(p.events):
            if e.kind not in ("setitem", "mut", "inplace") or not loops or not isinstance(e.value if e.kind != "mut" else (e.args or [None])[0], Term):
                continue
            val = plain(e.value if e.kind != "mut" else e.args[0])
            hs = [x for x in subterms(val) if x.op == "item" and plain(x.args[0]) is HY]
            if not hs:
                continue
            n += 1
            i = plain(e.args[0]) if e.kind == "setitem" else elem(plain(loops[-1][0].base))
            wrong = [h for h in hs if plain(h.args[1]) is not i]
            ctx.judge("curve:scale", True if not wrong else (False if all(is_const(h.args[1]) or h.args[1].op in ("elem", "poly") for h in wrong) else None), "scaled to its own histogram",
                      "the curve of illumination %s is scaled to %s" % (show(i), [show(h) for h in wrong]), e.loc)
            lp = loops[-1][0]
            full = plain(lp.base) is rng(const(0), SN)
            ctx.judge("curve:scale-all", True if full else (False if plain(lp.base).op == "range" else None), "every curve is scaled", "curves are scaled in a loop over %s" % show(lp.base), lp.loc)
    if not n:
        ctx.und("curve:scale", "no scaling to the histograms recognised", cf.loc())
