"""Spectrum models.  The building blocks (binomial coefficient, Poisson and normal distribution, logarithm of the Poisson
distribution) and every peak a model adds are brought to a normal form of coefficients, bases and exponents and compared with
the documented formula: peak k lies at eped + k*spe, has width sqrt(k*spe_sigma^2 + eped_sigma^2) and the weight of its
formula, from the pedestal (k = 0) up to at least 99, and the sum may only be left early on a path that has found the weight
both negligible and smaller than one seen before.  The likelihood is the normal form of the documented one."""
from fractions import Fraction as F

from .util import *
from .expform import Form, add_, mul_, num, base, bases, thaw, freeze, text, const_of, exp_, log_, lgamma_, pow_, Deep, gamma_recurrence
from .c20 import FITTER, subclasses
from . import c22
from ..terms import elem, rng

PDF = "CHECLabPy.stats.pdf."
EPS = 1e-3
FIRST = 99
DONE = 100


def p_(n):
    return base(("p", n))


def poisson(k, mu):
    return exp_(add_(add_(mul_(k, log_(mu)), mu, -1), lgamma_(add_(k, num(1))), -1))


def binom(n, k):
    one = num(1)
    return exp_(add_(add_(lgamma_(add_(n, one)), lgamma_(add_(k, one)), -1), lgamma_(add_(add_(n, k, -1), one)), -1))


PI = base(("pi",))


def normal(x, m, s):
    u = mul_(add_(x, m, -1), pow_(s, num(-1)))
    top = exp_(mul_(num(F(-1, 2)), mul_(u, u)))
    return mul_(mul_(top, pow_(mul_(num(2), PI), num(F(-1, 2)))), pow_(s, num(-1)))


def run(ctx):
    P = ctx.P
    I = ctx.interp()
    k, n, mu, x, m, s = (p_(a) for a in ("k", "n", "mu", "x", "mean", "std_deviation"))
    inline = {}
    for f in P.funcs.values():
        if f.qual.startswith(PDF) and f.cls is None:
            ps = ctx.count(I.run(f, args={a: param(a) for a in names_of(f)}))
            if len(ps) == 1 and ps[0].kind == "return":
                inline[f.qual] = (names_of(f), ps[0].value, None)
    with ctx.section("blocks"):
        block(ctx, inline, "binom", ("n", "k"), binom(n, k), "the binomial coefficient")
        block(ctx, inline, "poisson", ("k", "mu"), poisson(k, mu), "the Poisson probability")
        block(ctx, inline, "normal_pdf", ("x", "mean", "std_deviation"), normal(x, m, s), "the normal density")
    with ctx.section("xlogy"):
        xlogy(ctx, I)
    with ctx.section("poisson_logpmf"):
        logpmf(ctx, I, inline)
    models = {k: v for k, v in inline.items() if k != PDF + "xlogy"}
    for c in sorted(subclasses(P, P.cls(FITTER)), key=lambda c: c.qual):
        with ctx.section(c.name):
            fitter(ctx, c, models)


def names_of(f):
    a = f.node.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]


# ------------------------------------------------------------------ comparing forms
ATOMS = ("pi", "e", "n", "p", "log", "lgamma", "s")


def same(a, b):
    """True / False (only operations that the normal form understands) / None"""
    d = add_(a, b, -1)
    if not d:
        return True
    for x in bases(d):
        if x[0] in ATOMS or x[0] == "pi":
            continue
        if x[0] == "t" and x[1].op in ("param",):
            continue
        return None
    # equal by the recurrence of the gamma function, which does not hold at its poles
    if not add_(gamma_recurrence(a), gamma_recurrence(b), -1):
        return None
    return False


def block(ctx, inline, name, args, want, what):
    q = PDF + name
    if q not in ctx.P.funcs:
        return
    f = ctx.P.funcs[q]
    if q not in inline:
        ctx.und("block:" + name, "more than one path", f.loc())
        return
    names = inline[q][0]
    if len(names) != len(args):
        ctx.und("block:" + name, "signature", f.loc())
        return
    got = Form(ctx.P, {k: v for k, v in inline.items() if k != q}, {param(a): p_(b) for a, b in zip(names, args)}).of(inline[q][1])
    ctx.judge("block:" + name, same(got, want), what, "this is %s, which is not %s %s" % (text(got), what, text(want)), f.loc())


def xlogy(ctx, I):
    q = PDF + "xlogy"
    if q not in ctx.P.funcs:
        return
    f = ctx.P.funcs[q]
    a = names_of(f)
    if len(a) != 2:
        return ctx.und("block:xlogy", "signature", f.loc())
    X, Y = param(a[0]), param(a[1])
    fm = Form(ctx.P, {}, {X: p_("x"), Y: p_("y")})
    full = mul_(p_("x"), log_(p_("y")))
    for p in ctx.count(I.run(f, args={a[0]: X, a[1]: Y})):
        if p.kind != "return":
            ctx.und("block:xlogy", p.kind, f.loc(), p.cond_str())
            continue
        v = fm.of(p.value)
        zero = any(c.op == "eq" and pol and {plain(c.args[0]), plain(c.args[1])} == {X, const(0)} or c.op == "truth" and not pol and plain(c.args[0]) is X for c, pol in p.conds)
        if zero and not v:
            ctx.ok("block:xlogy", "x*log(y) with 0*log(y) = 0", f.loc())
            continue
        r = same(v, full)
        if r is True and zero and not any("isnan" in show(c) for c, _ in p.conds):
            # log(0) would make this undefined
            ctx.bad("block:xlogy", "0*log(y) is not made zero", f.loc(), p.cond_str())
        elif r is True and not any(plain(c.args[0]) is X or X in [plain(z) for z in c.args] for c, _ in p.conds if c.op in ("eq", "truth")):
            ctx.bad("block:xlogy", "0*log(y) is not made zero", f.loc(), p.cond_str())
        else:
            ctx.judge("block:xlogy", r, "x*log(y) with 0*log(y) = 0", "for %s this is %s" % (p.cond_str(), text(v)), f.loc(), p.cond_str())


def logpmf(ctx, I, inline):
    q = PDF + "poisson_logpmf"
    if q not in ctx.P.funcs:
        return
    f = ctx.P.funcs[q]
    if q not in inline or len(inline[q][0]) != 2:
        return ctx.und("block:poisson_logpmf", "signature or paths", f.loc())
    a = inline[q][0]
    fm = Form(ctx.P, {}, {param(a[0]): p_("k"), param(a[1]): p_("mu")})
    got = fm.of(inline[q][1])
    calls = [b for b in bases(got) if b[0] == "call"]
    want = add_({}, add_(lgamma_(add_(p_("k"), num(1))), p_("mu")), -1)
    if len(calls) == 1 and calls[0][1].endswith("xlogy") and len(calls[0][2]) == 2:
        pos = [v for _, v in calls[0][2]]
        nm = dict(calls[0][2])
        g = ctx.P.funcs.get(calls[0][1])
        if g is not None:
            order = names_of(g)
            pos = [nm[n] for n in order] if set(nm) == set(order) else pos
        rest = add_(got, base(calls[0]), -1)
        ok = pos == [freeze(p_("k")), freeze(p_("mu"))]
        r = same(rest, want)
        ctx.judge("block:poisson_logpmf", r if ok or r is not True else False, "k*log(mu) - mu - log(k!)", "this is %s" % text(got), f.loc())
    elif not calls:
        full = add_(want, mul_(p_("k"), log_(p_("mu"))))
        r = same(got, full)
        ctx.judge("block:poisson_logpmf", False if r is True else r, "", "this is %s, undefined without counts and expectation" % text(got) if r is True else "this is %s" % text(got), f.loc())
    else:
        ctx.und("block:poisson_logpmf", text(got), f.loc())


# ------------------------------------------------------------------ the models
def fitter(ctx, c, inline):
    I = ctx.interp()
    names = c22.declared(ctx, I, c)
    if not names:
        return ctx.und(c.name + ":declared", "no names")
    key = c.name
    d, fn = c.lookup("_get_spectra")
    args = c22.by_position(fn)
    if args is None:
        return ctx.und(key, "signature", fn.loc())
    models = {}
    for p in ctx.count(I.run(fn, args=dict(args))):
        for e, _ in c22.outer_models(p.events):
            models[e.name] = dict(e.kwargs)
    if len(models) != 1:
        return ctx.und(key + ":model", "%d functions receive the values by name" % len(models), fn.loc())
    (q, kw), = models.items()
    f = ctx.P.funcs[q]
    ren, given = {}, {}
    for a in names_of(f):
        w = kw.get(a)
        vf = c22.values_form(w) if w is not None else None
        given[a] = param(a)
        if w is c22.X:
            ren[param(a)] = p_("x")
        elif vf is not None and is_const(vf[1]):
            ren[param(a)] = p_(vf[1].args[0])
        else:
            return ctx.und(key + ":model", "argument %s" % a, f.loc())
    have = {x for x in names if x in ("eped", "eped_sigma", "spe", "spe_sigma", "lambda_")}
    if len(have) != 5:
        return ctx.und(key + ":model", "parameters %s" % sorted(names), f.loc())
    form = Form(ctx.P, inline, ren)
    found = returns(ctx.run(f, I, args=given))
    if found and not any(e.kind == "loop" for p in found for e in p.events) and not any(contains(p.value, lambda y: y.op in ("sumcomp", "fold", "comp")) for p in found):
        n = max(len(form.of(p.value)) for p in found)
        ctx.judge(key + ":range", False if n < DONE else None, "", "the model is a sum of %d peaks" % n, f.loc())
        found = []
    for p in found:
        with ctx.section("%s:%s" % (key, p.cond_str()[:40])):
            spectrum(ctx, key, f, p, form, "opct" in names)
    likelihood(ctx, key, c, {q})


def spectrum(ctx, key, f, p, form, crosstalk):
    loops = [e for e in p.events if e.kind == "loop"]
    v = plain(p.value)
    # the sum over the peaks: from the loop, or from a summing expression
    cand = []
    for e in loops:
        for a, init in (e.inits or {}).items():
            if a.op != "phi":
                continue
            parts = []
            for bp in e.paths:
                end = (bp.ends or {}).get(a, a)
                if end is not a:
                    parts.append((bp, sub(end, a)))
            if parts and any(mentions_x(form, d) for _, d in parts) and not any(contains(d, lambda y: y is a) for _, d in parts):
                cand.append((e, a, init, parts))
    if len(cand) != 1:
        return ctx.und(key + ":sum", "%d candidate sums over peaks" % len(cand), f.loc())
    e, acc, init, parts = cand[0]
    it = e.base if isinstance(e.base, Term) else None
    loc = e.loc if getattr(e, "loc", None) else f.loc()
    if it is None or it.op != "range" or not all(is_const(x) for x in it.args):
        return ctx.und(key + ":sum", "peaks from %s" % show(it)[:100] if it is not None else "a while loop", loc)
    a, b, s = (x.args[0] for x in it.args)
    kk = e.value
    if kk is None or plain(kk).op != "elem":
        kk = elem(it, 0)
    K = p_("k")
    form.names[plain(kk)] = K
    # the value returned is the sum
    if v is not acc:
        rest = sub(v, init)
        tops = [m for m, _ in rest.args[0]] if rest.op == "poly" else [(rest,)]
        one = len(tops) == 1 and len(tops[0]) == 1 and tops[0][0].op == "sumcomp" and plain(tops[0][0]).args[0] is it
        if not one:
            return ctx.und(key + ":sum", "the result is %s" % show(v)[:200], f.loc())
    want_k = lambda k: peak(k, crosstalk)
    zero = mul_(poisson0(), normal(p_("x"), p_("eped"), p_("eped_sigma")))
    got0 = form.of(init)
    first = a
    if first == 1:
        ctx.judge(key + ":pedestal", same(got0, zero), "the pedestal peak is peak 0 of the formula", "the pedestal peak is %s, not %s" % (text(got0), text(zero)), f.loc())
    elif first == 0 and not crosstalk:
        ctx.judge(key + ":pedestal", same(got0, {}), "the pedestal is the first peak of the sum", "%s is added to all peaks" % text(got0), f.loc())
    else:
        ctx.judge(key + ":pedestal", False if first > 1 or s != 1 else None, "", "the peaks of the sum are range(%s, %s, %s)" % (a, b, s), loc)
    ctx.judge(key + ":range", True if s == 1 and b >= DONE else False, "every peak up to at least %d" % FIRST, "the peaks of the sum are range(%s, %s, %s)" % (a, b, s), loc)
    weights = []
    for bp, d in parts:
        g = form.of(d)
        w, r, why = split(ctx, key, g, form, crosstalk, K, bp)
        if w is not None:
            weights.append(w)
        ctx.judge(key + ":peak", r, "weight, place and width of each peak follow the formula", why, loc, conds_text(bp))
    # paths without a contribution
    withsum = {id(bp) for bp, _ in parts}
    for bp in e.paths:
        if bp.exit == "break" or bp.exit in ("return",):
            cut(ctx, key, e, bp, form, weights, id(bp) in withsum, loc)
        elif id(bp) not in withsum:
            ok = any(small(form, c, pol, weights) for c, pol in bp.conds)
            ctx.judge(key + ":skip", True if ok else judge_unknown(bp, form), "only negligible peaks are skipped", "a peak is skipped when %s" % conds_text(bp), loc, conds_text(bp))
        elif bp.exit not in ("fall", "continue"):
            ctx.und(key + ":cut", bp.exit, loc)
    # paths that add a peak must not depend on the place x
    n = sum(1 for bp in e.paths if bp.exit == "break")
    if not n:
        ctx.ok(key + ":cut", "no peak is left out", loc)


def conds_text(bp):
    return " and ".join(("" if pol else "not ") + show(c)[:80] for c, pol in bp.conds)[:300]


def mentions_x(form, d):
    xs = [t for t, v in form.names.items() if v == p_("x")]
    return any(contains(d, lambda y: y is x) for x in xs)


def poisson0():
    return exp_(mul_(num(-1), p_("lambda_")))


def width(k):
    return pow_(add_(mul_(k, mul_(p_("spe_sigma"), p_("spe_sigma"))), mul_(p_("eped_sigma"), p_("eped_sigma"))), num(F(1, 2)))


def peak(k, crosstalk):
    return normal(p_("x"), add_(p_("eped"), mul_(k, p_("spe"))), width(k))


def split(ctx, key, g, form, crosstalk, K, bp):
    """(weight, verdict, why) of one peak"""
    shape = peak(K, crosstalk)
    inv = pow_(shape, num(-1))
    w = mul_(g, inv)
    if not crosstalk:
        ref = poisson(K, p_("lambda_"))
        r = same(w, ref)
        if r is not True:
            return None, r, "peak k is %s, not %s" % (text(g, 300), text(mul_(ref, shape), 300))
        return w, True, ""
    phis = [b for b in bases(w) if b[0] == "t" and b[1].op == "phi"]
    if len(phis) == 1 and w == base(phis[0]):
        r, why = inner_loop(ctx, phis[0][1], form, K, bp)
        return w if r else None, r, why
    sums = [b for b in bases(w) if b[0] == "t" and b[1].op == "sumcomp"]
    if len(sums) != 1 or w != base(sums[0]):
        known = len(sums) == 1 and all(b[0] in ATOMS or b in sums or b[0] == "pi" for b in bases(w))
        return None, False if known else None, "peak k is %s, not weight * %s" % (text(g, 300), text(shape, 300))
    sc = sums[0][1]
    r, why = inner(ctx, sc, form, K)
    return w, r, why


def inner(ctx, sc, form, K):
    return inner_cases(ctx, plain(sc.args[0]), sc.args[1], list(cases(sc)), form, K)


def inner_loop(ctx, v, form, K, bp):
    """a sum over initial cells that ends early"""
    loops = [e for e, _ in flat_events(bp.events) if e.kind == "loop" and v in (e.inits or {})]
    if len(loops) != 1 or plain(loops[0].inits[v]) is not const(0) or not isinstance(loops[0].base, Term):
        return None, "the weight is %s" % show(v)
    e = loops[0]
    found, stops = [], []
    for q in e.paths:
        end = (q.ends or {}).get(v, v)
        add = const(0) if end is v else sub(end, v)
        if contains(add, lambda y: y is v):
            return None, "the weight is %s" % show(v)
        if q.exit == "break":
            stops.append(q)
        elif q.exit not in ("fall", "continue"):
            return None, "the weight is %s" % show(v)
        found.append((list(q.conds), add))
    depth = e.value.args[1] if e.value is not None and e.value.op == "elem" else 0
    r, why = inner_cases(ctx, plain(e.base), depth, found, form, K)
    if r is not True:
        return r, why
    pj = poisson(p_("j"), p_("lambda_"))
    for q in stops:
        alone = all(small(form, c, pol, [pj]) for c, pol in q.conds)
        return (False if alone else None), "the sum over initial cells ends when %s, even if later ones are more likely" % conds_text(q)
    return True, ""


def inner_cases(ctx, it, depth, found, form, K):
    if it.op != "range":
        return None, "the weight is a sum over %s" % show(it)[:80]
    lo, hi, st = (form.of(x) for x in it.args)
    ends = (const_of(lo), const_of(add_(hi, K, -1)), const_of(st))
    if None in ends:
        return None, "the weight is a sum over %s" % show(it)[:80]
    if ends != (1, 1, 1):
        return False, "the weight of k cells is a sum over %s, not over 1 to k initial cells" % show(it)[:80]
    J = p_("j")
    form.names[elem(it, depth)] = J
    lam, o = p_("lambda_"), p_("opct")
    pj = poisson(J, lam)
    one = num(1)
    want = mul_(mul_(mul_(pj, pow_(add_(one, o, -1), J)), pow_(o, add_(K, J, -1))), binom(add_(K, one, -1), add_(J, one, -1)))
    form.memo.clear()
    for conds, val in found:
        got = form.of(val)
        if not got:
            if not any(small(form, c, pol, [pj, want]) for c, pol in conds):
                return None, "terms are left out when %s" % [show(c)[:60] for c, _ in conds]
            continue
        r = same(got, want)
        if r is not True:
            return r, "the probability of k cells from j initial ones is %s, not %s" % (text(got, 260), text(want, 260))
        for c, pol in conds:
            if small(form, c, not pol, [pj, want]):
                continue
            if c.op in ("lt", "le") and all(known_form(form.of(x)) for x in c.args[:2]):
                return False, "terms are left out unless %s%s" % ("" if pol else "not ", show(c)[:120])
            return None, "terms are left out unless %s" % show(c)[:120]
    return True, ""


def known_form(d):
    return all(b[0] in ATOMS for b in bases(d))


def cases(sc):
    for cs in sc.args[2]:
        conds, val = cs[0], cs[1]
        cl = list(conds)
        # conditions may be nested one level
        if cl and isinstance(cl[0], tuple) and cl[0] and isinstance(cl[0][0], tuple):
            alts = cl
        else:
            alts = [cl]
        for alt in alts:
            yield [x for x in alt if isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], Term)], val


def small(form, c, pol, forms):
    """does this condition say that one of the forms is at most EPS"""
    if c.op not in ("lt", "le"):
        return False
    a, b = (form.of(x) for x in c.args[:2])
    if not pol:
        a, b = b, a
    e = const_of(b)
    return e is not None and 0 < e <= EPS and any(a == f for f in forms)


def positive(form, d):
    """is a form positive for positive parameters"""
    return bool(d) and all(c > 0 for c in d.values()) and all(b[0] in ("e", "n", "p", "pi") or b[0] == "lgamma" for m in d for b, _ in m)


def cut(ctx, key, e, bp, form, weights, adds, loc):
    """the sum may stop here only after its largest weight"""
    if not weights:
        return ctx.und(key + ":cut", "weights not understood", loc)
    negl = any(small(form, c, pol, weights) for c, pol in bp.conds)
    falling = None
    for c, pol in bp.conds:
        if c.op not in ("lt", "le"):
            continue
        a, b = (plain(x) for x in c.args[:2])
        strict = c.op == "lt"
        if not pol:
            a, b, strict = b, a, not strict
        # a < b  (or <=)
        if any(form.of(a) == w for w in weights) and b.op == "phi" and b in (e.inits or {}):
            r = earlier(e, b, form, weights)
            if r and (strict or any(positive(form, w) for w in weights)):
                falling = True
            elif r and falling is None:
                falling = False
    why = "the sum over the peaks stops when %s" % conds_text(bp)
    if negl and falling:
        return ctx.ok(key + ":cut", "the sum stops only behind its largest weight, at negligible weights", loc)
    if negl and falling is False:
        return ctx.bad(key + ":cut", why + ": a first weight of zero counts as behind the largest one", loc, conds_text(bp))
    odd = [c for c, pol in bp.conds if not understood(e, c, form, weights)]
    ctx.judge(key + ":cut", None if odd else False, "", why + (": not negligible" if not negl else ": before the largest weight"), loc, conds_text(bp))


def understood(e, c, form, weights):
    """comparison of a weight with a number or with an earlier weight"""
    if c.op not in ("lt", "le"):
        return False
    for x in c.args[:2]:
        x = plain(x)
        if is_const(x) or any(form.of(x) == w for w in weights) or x.op == "phi" and recorded(e, x, form, weights):
            continue
        return known_form(form.of(x))
    return True


def recorded(e, v, form, weights):
    """is v a number or a known formula from an earlier peak"""
    if v not in (e.inits or {}) or not is_const(plain(e.inits[v])):
        return False
    ends = [plain((bp.ends or {}).get(v, v)) for bp in e.paths]
    return earlier(e, v, form, weights) or all(x is v or any(form.of(x) == w for w in weights) or known_form(form.of(x)) for x in ends)


def judge_unknown(bp, form):
    return False if all(c.op in ("lt", "le") and all(known_form(form.of(x)) for x in c.args[:2]) for c, _ in bp.conds) else None


def earlier(e, v, form, weights):
    """is v the largest (or the previous) weight so far, starting at zero or below"""
    i = plain(e.inits[v])
    if not (is_const(i) and isinstance(i.args[0], (int, float)) and i.args[0] <= 0 or form.of(i) == poisson0()):
        return False
    for bp in e.paths:
        end = (bp.ends or {}).get(v, v)
        end = plain(end)
        if end is v:
            continue
        if any(form.of(end) == w for w in weights):
            continue
        if end.op == "max" or end.op == "call" and end.args[0] in ("max", "numpy.maximum"):
            xs = end.args[1] if end.op == "call" else (end.args[0] if isinstance(end.args[0], tuple) else end.args)
            if all(plain(x) is v or any(form.of(x) == w for w in weights) for x in xs):
                continue
        return False
    return True


# ------------------------------------------------------------------ likelihood
def likelihood(ctx, key, c, models):
    P = ctx.P
    d, fn = c.lookup("_get_likelihood")
    args = c22.by_position(fn)
    if args is None:
        return ctx.und(key + ":likelihood", "signature", fn.loc())
    J = ctx.interp(opaque=models)
    it = rng(const(0), c22.N)
    for p in returns(ctx.run(fn, J, args=dict(args))):
        v = plain(p.value)
        scale = F(1)
        if v.op == "poly" and len(v.args[0]) == 1 and len(v.args[0][0][0]) == 1:
            scale, v = F(v.args[0][0][1]), plain(v.args[0][0][0][0])
        if v.op != "sumcomp" or plain(v.args[0]) is not it:
            ctx.und(key + ":likelihood", show(v)[:200], fn.loc())
            continue
        i = elem(it, v.args[1])
        form = Form(P, {}, {c22.X: p_("x"), item_of(c22.Y, i): p_("y")})
        for conds, val in cases(v):
            if conds:
                ctx.und(key + ":likelihood", "an illumination enters only if %s" % show(conds[0][0])[:100], fn.loc())
                continue
            r, why = term(form, val, scale, models)
            ctx.judge(key + ":likelihood", r, "-2 log of the Poisson probability of each bin, with the model scaled to the area of the data", why, fn.loc())


def item_of(t, i):
    from ..terms import item
    return item(t, i)


def term(form, val, scale, models):
    g = form.of(val)
    if len(g) != 1:
        return None, "each illumination adds %s" % text(g)
    (m, c), = g.items()
    c *= scale
    if len(m) != 1:
        return None, "each illumination adds %s" % text(g)
    (b, x), = m
    if const_of(thaw(x)) != 1 or b[0] != "call" or b[1] not in ("numpy.nansum",) or len(b[2]) != 1:
        return None, "each illumination adds %s" % text(g)
    h = thaw(b[2][0][1])
    if len(h) != 1:
        return None, "each illumination adds %s" % text(g)
    (m, d), = h.items()
    c *= d
    if len(m) != 1:
        return None, "each illumination adds %s" % text(g)
    (b, x), = m
    if const_of(thaw(x)) != 1 or b[0] != "call" or not b[1].endswith("poisson_logpmf") or len(b[2]) != 2:
        return None, "each illumination adds %s" % text(g)
    if c != -2:
        return False, "the factor of the log probability is %s, not -2" % c
    kw = dict(b[2])
    f = form.P.funcs.get(b[1])
    if f is not None and set(kw) == set(names_of(f)):
        kd, mu = (thaw(kw[n]) for n in names_of(f))
    else:
        kd, mu = (thaw(v) for _, v in b[2])
    Y = p_("y")
    if kd != Y:
        if mu == Y and any(x[0] == "call" and x[1] in models for x in bases(kd)):
            return False, "counts and expectation are exchanged"
        return (False if not any(x[0] not in ATOMS for x in bases(kd)) else None), "the counts are %s" % text(kd)
    mod = [x for x in bases(mu) if x[0] == "call" and x[1] in models]
    if len(mod) != 1:
        return None, "the expectation is %s" % text(mu)
    M = base(mod[0])
    tr = [x for x in bases(mu) if x[0] == "call" and x[1] not in models]
    want = None
    for n in ("numpy.trapz", "numpy.trapezoid", "scipy.integrate.trapezoid"):
        area = lambda y: base(("call", n, (("x", freeze(p_("x"))), ("y", freeze(y)))))
        w = mul_(mul_(M, area(Y)), pow_(area(M), num(-1)))
        if w == mu:
            return True, ""
        want = want or w
    ok = all(x[1] in ("numpy.trapz", "numpy.sum", "numpy.max", "numpy.nansum", "numpy.mean") for x in tr) and \
        all(x[0] in ATOMS + ("call",) for x in bases(mu) - {y for y in bases(M)})
    return (False if ok else None), "the expectation is %s, not the model scaled to the area of the data" % text(mu, 300)
