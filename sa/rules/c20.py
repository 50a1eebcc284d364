"""Changed fit parameters reach the next fit.  A fitter with a symbolic parameter list is constructed and fitted once; every
stored value derived from starting values, limits, fixed flags (or the previous result) is then replaced by an opaque "old"
symbol.  Each public method that writes such a setting is interpreted on that state, followed by a fit: on every path with
writes the minimiser must be created in that fit, from tables equal to the specification of C19, with no old symbol among
its arguments, and the loop that read the settings into the tables must come after the last write."""
from .util import *
from .refs import reference
from .c19 import SPEC, COLL, canon
from ..terms import elem
from ..interp import Limit

FITTER = "CHECLabPy.core.spectrum_fitter.SpectrumFitter"
PARAM = "CHECLabPy.core.spectrum_fitter.SpectrumParameter"
SETTINGS = ("initial", "limits", "fixed")
L, N = param("L"), param("n")


def subclasses(P, base):
    return [c for c in P.classes.values() if base in c.mro and c is not base]


def uses_settings(t):
    return any(x.op == "attr" and x.args[1] in SETTINGS + ("multi",) for x in subterms(t))


def old(t):
    return [x for x in subterms(t) if x.op == "param" and isinstance(x.args[0], str) and x.args[0].startswith("old ")]


def havoc(I, st, refs, keep=()):
    """replace everything stored that depends on the settings"""
    st = st.copy()
    for r in refs:
        for a, v in list(st.heap[r].attrs.items()):
            if a in keep or v in refs:
                continue
            t = I.freeze(st, v)
            if isinstance(t, Term) and (uses_settings(t) or a in ("_lookup_typed", "lookup", "parameter_names")):
                st.heap[r].attrs[a] = param("old " + a)
    return st


def fitters(ctx, I, cls):
    """(state, fitter ref, collection ref) of a fitter with the symbolic parameter list"""
    P = ctx.P
    out = []
    for st, c in I.build(P.cls(COLL), [L, N], []):
        for st2, f in I.build(cls, [N], [], st):
            if f not in st2.heap:
                continue
            st2.heap[f].attrs["parameters"] = c
            out.append((st2, f, c))
    if not out:
        raise AnchorError(cls.qual)
    return out


def minuit_calls(events):
    return [e for e, loops in flat_events(events) if e.kind == "call" and e.name == "iminuit.Minuit"]


def run(ctx):
    P = ctx.P
    F, C = P.cls(FITTER), P.cls(COLL)
    ref = reference(ctx, SPEC, C.lookup("__init__")[1])
    I = ctx.interp()
    want = {k: ref[k] for k in ("names", "kwargs")}
    with ctx.section("first-fit"):
        for st, f, c in fitters(ctx, I, F):
            for q in fits(ctx, I, st, f):
                check_fit(ctx, I, "first-fit", q, len(st.events), f, want, None)
    with ctx.section("routes"):
        routes(ctx, I, F, C, want)
    with ctx.section("update-values"):
        update_values(ctx, I, C)
    with ctx.section("adopt-values"):
        adopt_values(ctx, I, F)
    with ctx.section("elsewhere"):
        elsewhere(ctx, F, C)
    for s in subclasses(P, F):
        for m in ("apply", "load_config", "update_initial", "_minimize_function"):
            d, _ = s.lookup(m)
            ctx.judge("inherited:%s.%s" % (s.name, m), True if d is F else None, "uses the analysed method", "%s overrides %s" % (s.name, m), s.loc() if hasattr(s, "loc") else None)


def fits(ctx, I, st, f):
    out = I.method(st, f, "apply", [param("A")])
    ctx.count(out)
    return [p for p in out if p.kind == "return"]


def check_fit(ctx, I, key, q, k0, f, want, reads):
    """the minimiser is created in this fit from the current tables"""
    ev = q.events[k0:]
    calls = minuit_calls(ev)
    where = calls[0].loc if calls else None
    res = q.st.heap[f].attrs.get("fit_result_values")
    res = I.freeze(q.st, res) if res is not None else None
    if len(calls) != 1:
        stale = bool(res is not None and isinstance(res, Term) and old(res))
        ctx.judge(key + ":minimiser", False if stale else None, "", "the fit uses a minimiser made before (%d created)" % len(calls), where, q.cond_str())
        return
    e = calls[0]
    kw = dict(e.kwargs)
    terms = [t for t in list(e.args) + list(kw.values()) if isinstance(t, Term)]
    want = {k: reference_in(I, want[k], q.st) for k in ("names", "kwargs")}
    allowed = {x.args[0] for t in want.values() for x in old(t)}
    o = sorted({x.args[0][4:] for t in terms for x in old(I.freeze(q.st, t)) if x.args[0] not in allowed})
    ctx.judge(key + ":fresh", not o, "no value from before the change", "the fit is started from %s as it was before the change" % ", ".join(o), e.loc, q.cond_str())
    if o:
        return
    star = kw.get("**")
    explicit = {k for k in kw if k not in ("**", "forced_parameters", "print_level", "pedantic", "throw_nan", "errordef", "grad", "name", "fcn", "use_array_call")}
    if star is None or explicit:
        ctx.und(key + ":tables", "settings are passed as %s" % sorted(kw), e.loc)
    else:
        ctx.judge(key + ":tables", match(canon(I.freeze(q.st, star)), [want["kwargs"]], {("op", "after"), ("op", "mutated")}), "starting values, limits and fixed flags of every parameter", "settings are %s" % show(star)[:600], e.loc, q.cond_str())
    fp = kw.get("forced_parameters", kw.get("name"))
    if fp is None:
        ctx.bad(key + ":names", "the minimiser is not given the parameter names", e.loc)
    else:
        ctx.judge(key + ":names", match(canon(I.freeze(q.st, fp)), [want["names"]], {("call", "sorted"), ("call", "reversed"), ("call", "set")}), "the names in table order", "names are %s" % show(fp)[:600], e.loc, q.cond_str())
    if isinstance(res, Term):
        ctx.judge(key + ":result", True if mentions(res, e.value) else (False if old(res) or is_const(res) else None), "the result is that of this fit", "the stored result is %s" % show(res)[:200], e.loc)


def reference_in(I, fn, st):
    """the specification evaluated over the settings as they are in a state"""
    ps = returns(I.run(fn, args=dict(L=L, n=N), st=st))
    if len(ps) != 1:
        raise Limit("specification paths")
    return canon(I.freeze(ps[0].st, ps[0].value))


def writes_in(e):
    """(setting, base, value, event, chain) written inside an event"""
    for x, loops in flat_events([e]):
        if x.kind == "setattr" and x.name in SETTINGS:
            yield x, loops


def reads_in(e, a):
    for x, loops in flat_events([e]):
        if x.kind == "getattr" and x.name == a:
            yield x


def routes(ctx, I, F, C, want):
    found = 0
    for cls in (F, C):
        for m in sorted({k for c in cls.mro for k in c.members} if hasattr(cls, "members") else set(members(cls))):
            d, fn = cls.lookup(m)
            if not isinstance(fn, Func) or m.startswith("_") or "property" in fn.decorators or m in ("apply",):
                continue
            if any(x in ("staticmethod", "classmethod") for x in fn.decorators):
                continue
            names = [a.arg for a in fn.node.args.args[1:]]
            nd = len(fn.node.args.defaults)
            for st, f, c in fitters(ctx, I, F):
                base = fits(ctx, I, st, f)[:1] or [None]
                if base[0] is None:
                    ctx.und("routes", "no fit path")
                    return
                st1 = havoc(I, base[0].st, (f, c), keep=("spectrum_parameter_list",))
                for p in I.method(st1, f if cls is F else c, m, [param("arg " + a) for a in names]):
                    ctx.count([p])
                    if p.kind != "return":
                        continue
                    k0 = len(st1.events)
                    top = p.events[k0:]
                    feas = [(i, x) for i, e in enumerate(top) for x, loops in writes_in(e) if all(consistent(p, bp) for _, bp in loops)]
                    if not feas:
                        continue
                    found += 1
                    key = "route:%s.%s" % (cls.name, m)
                    murky = any(x.op in UNKNOWN_OPS or x.op == "phi" for a, _ in p.conds for x in subterms(plain(a)))
                    for q in fits(ctx, I, p.st, f):
                        if murky and any(old(t) for e in minuit_calls(q.events[k0:]) for t in list(e.args) + [v for _, v in e.kwargs] if isinstance(t, Term)):
                            ctx.und(key + ":fresh", "refreshed under %s" % p.cond_str()[:200])
                            continue
                        check_fit(ctx, I, key, q, k0 + len(top), f, want, None)
                        order_of(ctx, key, q.events[k0:], q)
                        if m == "update":
                            typed_fresh(ctx, I, key, q, c)
    ctx.judge("routes", True if found else None, "%d paths that change settings" % found, "no method changes a setting")


def members(cls):
    out = set()
    for c in cls.mro:
        for attr_ in ("methods", "env", "body", "attrs"):
            v = getattr(c, attr_, None)
            if isinstance(v, dict):
                out |= set(v)
    return out


def consistent(p, bp):
    c = {plain(a): pol for a, pol in p.conds}
    return all(c.get(plain(a), pol) == pol for a, pol in bp.conds)


def order_of(ctx, key, events, q):
    """the tables read the settings after the last write"""
    call_at = [i for i, e in enumerate(events) if any(x is y for x in minuit_calls([e]) for y in minuit_calls(events))]
    end = call_at[0] if call_at else len(events)
    for a in SETTINGS:
        w = [i for i, e in enumerate(events[:end]) if any(x.name == a and isinstance(x.base, Term) and plain(x.base) is not elem(L) and not adopted(x) and all(consistent(q, bp) for _, bp in loops) for x, loops in writes_in(e))]
        if not w:
            continue
        r = [i for i, e in enumerate(events[:end]) if any(True for _ in reads_in(e, a))]
        ev = events[w[-1]]
        ctx.judge("%s:%s" % (key, a), True if any(i > w[-1] for i in r) else False, "read into the tables after the last change", "%s is changed after the tables were prepared" % a, ev.loc, q.cond_str())


def adopted(x):
    """writes back what is there already"""
    return isinstance(x.value, Term) and mentions(x.value, elem(L))


def typed_fresh(ctx, I, key, q, c):
    for s, v in I.getattr(with_frame(ctx, q.st), c, "lookup_typed"):
        t = I.freeze(s, v)
        o = old(t) if isinstance(t, Term) else []
        ctx.judge(key + ":positions", not o, "positions are prepared anew", "the compiled lookup still holds the positions from before the change")


def with_frame(ctx, st):
    st = st.copy()
    st.frames.append({"__module__": next(iter(ctx.P.modules.values())), "__closure__": None, "__fid__": 0})
    return st


def update_values(ctx, I, C):
    """updating the collection takes every setting of the parameter of the same name"""
    M = param("M")
    _, fn = C.lookup("update")
    em = elem(M)
    for st, c in I.build(C, [L, N], []):
        for p in I.method(st, c, "update", [M]):
            if p.kind != "return":
                continue
            ev = p.events[len(st.events):]
            seen = {}
            for x, loops in flat_events(ev):
                if x.kind != "setattr" or x.name not in SETTINGS + ("multi",) or not loops or not isinstance(x.value, Term):
                    continue
                v = plain(x.value)
                b = plain(x.base) if isinstance(x.base, Term) else None
                good = v is attr(em, x.name) and b is not None and b is not em and mentions(b, attr(em, "name"))
                ctx.judge("update:" + x.name, True if good else (None if any(y.op in UNKNOWN_OPS for y in subterms(v)) or b is None or not mentions(v, em) and not is_const(v) else False),
                          "taken from the parameter of the same name", "%s of %s is set to %s" % (x.name, show(b) if b is not None else "?", show(v)), x.loc)
                lp, bp = loops[-1]
                seen.setdefault(x.name, []).append((lp, bp, bool(bp.conds)))
            for a in SETTINGS + ("multi",):
                if a not in seen:
                    ctx.judge("update:" + a, False if set(seen) else None, "", "updating the collection does not take over %s" % a, fn.loc())
                    continue
                lp = seen[a][0][0]
                ids = {id(bp) for _, bp, _ in seen[a]}
                for bp in lp.paths:
                    if id(bp) not in ids and bp.exit in ("fall", "continue"):
                        ctx.judge("update:" + a, None if any(y.op in UNKNOWN_OPS for cc, _ in bp.conds for y in subterms(plain(cc))) or unchanged(bp, a) else False, "", "%s is not taken over when %s" % (a, conds_str(bp.conds)), lp.loc)


def unchanged(bp, a):
    """skipped because equal already"""
    return any(len({x.args[0] for x in subterms(plain(c)) if x.op == "attr" and x.args[1] == a}) > 1 or any(
        x.op == "call" and x.args[0] in ("getattr", "vars") for x in subterms(plain(c))) for c, _ in bp.conds)


def mentions_attr(t, a):
    return any(x.op == "attr" and x.args[1] == a for x in subterms(t))


ADOPT = '''
def value(param, values, illumination):
    if param.multi:
        return values[f"{param.name}{illumination}"]
    return values[param.name]
'''


def adopt_values(ctx, I, F):
    """the previous result of the same parameter becomes its starting value"""
    _, fn = F.lookup("update_initial")
    names = [a.arg for a in fn.node.args.args[1:]]
    ill = param("i")
    fv = param("values")
    ref = reference(ctx, ADOPT, fn)["value"]
    e = elem(L)
    spec = {}
    for p in returns(I.run(ref, args=dict(param=e, values=fv, illumination=ill))):
        for c, pol in p.conds:
            spec[pol] = plain(p.value)
            atom = plain(c)
    n = 0
    for st, f, c in fitters(ctx, I, F):
        st = st.copy()
        st.heap[f].attrs["fit_result_values"] = fv
        for p in I.method(st, f, "update_initial", [ill] if names else []):
            if p.kind != "return":
                continue
            hit = False
            for x, loops in flat_events(p.events[len(st.events):]):
                if x.kind == "setattr" and x.name == "initial" and loops and plain(x.base) is e:
                    v = plain(x.value)
                    if v is attr(e, "initial"):
                        continue
                    hit = True
                    n += 1
                    pol = {plain(a): b for _, bp in loops for a, b in bp.conds}.get(atom)
                    ok = v is spec.get(pol) if pol is not None else None
                    ctx.judge("adopt:value", True if ok else (match(v, [spec[pol]], {("op", "len")}) if pol is not None else None), "result of the same parameter", "starting value of a parameter is set to %s when %s" % (show(v), conds_str(loops[-1][1].conds)), x.loc)
            ctx.judge("adopt:all", True if hit else None, "", "no starting value is adopted when %s" % p.cond_str(), fn.loc())


def elsewhere(ctx, F, C):
    """no other function of the package writes a setting"""
    import ast
    P = ctx.P
    ok = {F.qual, C.qual, P.cls(PARAM).qual}
    n = 0
    for fn in P.funcs.values():
        owner = fn.qual.rsplit(".", 1)[0]
        for node in ast.walk(fn.node):
            if isinstance(node, ast.Attribute) and isinstance(node.ctx, ast.Store) and node.attr in SETTINGS:
                n += 1
                base = owner.split(".<locals>")[0]
                if not any(base.startswith(o) for o in ok):
                    ctx.und("elsewhere:" + fn.qual, "%s writes .%s" % (fn.qual, node.attr), "%s:%d" % (fn.module.path, node.lineno))
    ctx.ok("elsewhere", "%d writes of settings, all in the analysed classes" % n)
