"""Lockstep of the fit-parameter tables.  The constructed collection's name list and minimiser arguments are compared, as
comprehension normal forms, with the specification (one entry per shared parameter, one per illumination for the others, in
list order).  Position lookup: per loop iteration the value written for (illumination, parameter) must be the index at which
that parameter's name is appended in the same iteration; the position counter and the length of the name list start equal
and advance by the same polynomial amount on every path (counted from the loop's start/end states), and shared parameters
are written for every illumination."""
from .util import *
from .refs import reference
from ..terms import add, sub, length, rng, elem

COLL = "CHECLabPy.core.spectrum_fitter.SpectrumParameterCollection"
SPEC = '''
def names(L, n):
    out = []
    for p in L:
        if p.multi:
            for i in range(n):
                out.append(p.name + str(i))
        else:
            out.append(p.name)
    return out

def kwargs(L, n):
    out = {}
    for p in L:
        if p.multi:
            for i in range(n):
                name = p.name + str(i)
                out[name] = p.initial
                out["limit_" + name] = p.limits
                out["fix_" + name] = p.fixed
        else:
            out[p.name] = p.initial
            out["limit_" + p.name] = p.limits
            out["fix_" + p.name] = p.fixed
    return out

def lookup(n):
    return [dict() for _ in range(n)]

def typed(lookup, n):
    out = []
    for i in range(n):
        d = {}
        for k, v in lookup[i].items():
            d[k] = v
        out.append(d)
    return out
'''


def canon(t):
    """order of dictionary entries within one alternative does not matter (distinct keys)"""
    def f(x):
        if x.op == "dcomp":
            return mk("dcomp", canon(x.args[0]), x.args[1], tuple(sorted(((tuple(cs), order(segs)) for cs, segs in x.args[2]), key=repr)))
        if x.op == "dictv":
            return mk("dictv", order(x.args[0]))
        return None
    return rewrite(plain(t), f)


def order(segs):
    segs = tuple((s[0],) + tuple(canon(x) for x in s[1:]) for s in segs)
    keys = [s[1] for s in segs if s[0] == "kv"]
    if len(keys) == len(segs) and len(set(keys)) == len(keys):
        return tuple(sorted(segs, key=lambda s: show(s[1])))
    return segs


def run(ctx):
    P = ctx.P
    cls = P.cls(COLL)
    ref = reference(ctx, SPEC, cls.lookup("__init__")[1])
    L, n = param("L"), param("n")
    I = ctx.interp()
    objs = I.build(cls, [L, n], [])
    if not objs:
        raise AnchorError(COLL + "(list, n_illuminations)")
    where = cls.lookup("__init__")[1].loc()
    want = {}
    for k, args in (("names", dict(L=L, n=n)), ("kwargs", dict(L=L, n=n)), ("lookup", dict(n=n))):
        want[k] = canon(returns(I.run(ref[k], args=args))[0].value)
    for st, r in objs:
        vals = {a: canon(I.freeze(st, v)) for a, v in st.heap[r].attrs.items()}
        for a, k, what in (("parameter_names", "names", "one name per shared parameter and one per illumination for the others, in order"),
                           ("minuit_kwargs", "kwargs", "starting value, limits and fixed flag of every name come from its parameter")):
            if a not in vals:
                ctx.judge("%s" % a, None, "", "no attribute %s" % a, where)
                continue
            ctx.judge(a, match(vals[a], [want[k]], {("op", "after"), ("meth", "sort"), ("meth", "reverse"), ("call", "sorted"), ("call", "reversed"), ("call", "set")}), what, "is %s" % show(vals[a])[:700], where)
        lk = vals.get("lookup")
        if lk is None:
            ctx.und("lookup", "no attribute lookup", where)
            continue
        if lk.op == "seqrepeat":
            ctx.bad("lookup", "the illuminations share one dictionary of positions", where)
    with ctx.section("positions"):
        positions(ctx, cls, want["lookup"])
    with ctx.section("typed"):
        typed(ctx, cls, ref)
    ctx.assumptions.append("parameter names of one list are distinct and do not end in digits such that shared and per-illumination names coincide")


def positions(ctx, cls, fresh):
    """lockstep of names and positions"""
    L, n = param("L"), param("n")
    d, init = cls.lookup("__init__")
    names = [a.arg for a in init.node.args.args[1:]]
    wrote = 0
    for p in returns(ctx.run(init, cls=cls, args=dict(zip(names, [L, n])))):
        lists = {}
        scope(p.events, [], lists)
        # name list: the list that the attribute is
        parents = {}
        writes = []
        collect(p.events, (), writes, parents)
        for e, chain in writes:
            wrote += 1
            one(ctx, e, chain, L, n)
        shared = [e for e, c in writes if c]
        del shared
        coverage(ctx, writes, L, n, init)
    if not wrote:
        ctx.und("positions:write", "no position is written in the parameter loop", init.loc())


def scope(events, chain, out):
    return out


def collect(events, chain, writes, parents):
    for e in events:
        if e.kind == "loop":
            for bp in e.paths:
                collect(bp.events, chain + ((e, bp),), writes, parents)
        elif e.kind == "setitem" and chain and isinstance(e.base, Term) and isinstance(e.value, Term) and e.args:
            b = plain(e.base)
            if positional(e) and (b.op != "dictv" or chain[-1][0].value is not None and b is plain(chain[-1][0].value)):
                writes.append((e, chain))


def positional(e):
    """an entry whose key is the name of the loop's parameter and whose value is a position"""
    k, v = plain(e.args[0]), plain(e.value)
    if not (k.op == "attr" and k.args[1] == "name" and k.args[0].op in ("elem", "each")):
        return False
    return v.op in ("poly", "const", "len", "phi", "elem") and not (v.op == "const" and not isinstance(v.args[0], int))


def lists_in(bp):
    """name lists extended by a path: {phi: (items, other segments)}"""
    out = {}
    for ph, end in bp.ends.items():
        if end.op == "listv" and end.args[0] and end.args[0][0] == ("splice", ph):
            out[ph] = list(end.args[0][1:])
    return out


def grown(segs):
    t = const(0)
    for s in segs:
        t = add(t, const(1) if s[0] == "item" else length(s[1]))
    return t


def one(ctx, e, chain, L, n):
    k, v = plain(e.args[0]), plain(e.value)
    p = k.args[0]
    if p.args[0] is not L:
        ctx.und("positions:parameter", "written for %s" % show(k), e.loc)
        return
    # illumination index: the base is lookup[idx]
    b = plain(e.base)
    idx = illum(e, chain)
    if idx is None:
        ctx.und("positions:illumination", "written to %s" % show(b)[:100], e.loc)
        return
    # counter: phi (local variable) or length of the list
    v = rewrite(v, lambda x: lenform(x))
    phis = {x for x in subterms(v) if x.op == "phi"}
    if len(phis) != 1:
        known = not phis and not any(x.op in UNKNOWN_OPS for x in subterms(v)) and (v.op != "elem" or v.args[0] is rng(const(0), length(L)))
        # a constant or per-illumination position: shared by several parameters
        ctx.judge("positions:value", False if known and not mentions(v, p) else None, "", "position of %s is %s" % (show(k), show(v)), e.loc)
        return
    ph = phis.pop()
    counter = mk("len", ph) if any(x.op == "len" and x.args[0] is ph for x in subterms(v)) else ph
    d = sub(v, counter)
    at = [i for i, (lp, bp) in enumerate(chain) if lp_owns(lp, ph)]
    if not at or not (is_const(d) or all(x.op in ("poly", "const", "elem", "range", "param") for x in subterms(d))):
        ctx.judge("positions:value", None, "", "position of %s is %s" % (show(k), show(v)), e.loc)
        return
    i = at[-1]
    lp, bp = chain[i]
    ls = lists_in(bp)
    if len(ls) != 1:
        ctx.und("positions:names", "%d lists are extended in the iteration" % len(ls), lp.loc)
        return
    lph, segs = ls.popitem()
    # lockstep on every path of this loop and its parents
    for j in range(i, -1, -1):
        lp2, _ = chain[j]
        ctr = counter_at(counter, chain, i, j, lp2)
        nph = lph if j == i else parent_phi(lph, chain, i, j)
        if ctr is None or nph is None:
            ctx.und("positions:lockstep", "the counter or the list is not carried by the loop over %s" % show(lp2.base), lp2.loc)
            return
        for bp2 in lp2.paths:
            if bp2.exit not in ("fall", "continue"):
                continue
            ends = lists_in(bp2)
            nend = grown(ends.get(nph, []))
            if ctr.op == "len":
                cend = nend
            else:
                cend = sub(rewrite(bp2.ends.get(ctr, ctr), lambda x: lenform(x)), ctr)
            ok = cend is nend
            ctx.judge("positions:lockstep", True if ok else (False if not has_unknown(cend) and not has_unknown(nend) else None),
                      "positions advance with the names", "%s names are added while the position advances by %s when %s" % (show(nend), show(cend), conds_str(bp2.conds)), lp2.loc)
        # start
        if j == 0:
            n0 = lp2.inits.get(nph)
            c0 = lp2.inits.get(ctr) if ctr.op != "len" else None
            if ctr.op != "len":
                z = sub(c0, length(n0)) if c0 is not None and n0 is not None and n0.op == "listv" else None
                ctx.judge("positions:start", True if z is const(0) else (False if z is not None and is_const(z) else None), "positions start with the names",
                          "positions start at %s with %s names" % (show(c0) if c0 is not None else "?", show(n0) if n0 is not None else "?"), lp2.loc)
        else:
            up = chain[j - 1]
            n0, c0 = lp2.inits.get(nph), lp2.inits.get(ctr) if ctr.op != "len" else None
            if ctr.op != "len":
                uc, un = counter_at(counter, chain, i, j - 1, up[0]), parent_phi(lph, chain, i, j - 1)
                if uc is None or un is None or n0 is None or c0 is None:
                    ctx.und("positions:start", "start of the inner loop", lp2.loc)
                    continue
                grown0 = const(0) if n0 is un else grown(list(n0.args[0][1:])) if n0.op == "listv" and n0.args[0] and n0.args[0][0] == ("splice", un) else None
                z = sub(sub(c0, uc), grown0) if grown0 is not None else None
                ctx.judge("positions:start", True if z is const(0) else (False if z is not None and is_const(z) else None), "positions start with the names",
                          "the inner loop starts at position %s with names %s" % (show(c0), show(n0)[:80]), lp2.loc)
    # index of this parameter's name among the names added in the iteration
    pos = None
    off = const(0)
    for s in segs:
        if s[0] == "item":
            nm = plain(s[1])
            if nm is k or named(nm, k, idx):
                pos = off
                break
            off = add(off, const(1))
        else:
            c = s[1]
            if c.op == "comp" and len(c.args[2]) == 1 and len(c.args[2][0][1]) == 1 and c.args[2][0][0] in (((),), ()) and c.args[0].op == "range":
                j = elem(c.args[0])
                if j is idx and named(plain(c.args[2][0][1][0][1]), k, j):
                    pos = add(off, j)
                    break
            off = add(off, length(c))
    if pos is None:
        ctx.judge("positions:name", False if segs and all(s[0] == "item" and mentions(s[1], p) for s in segs) else None, "",
                  "the position of %s for illumination %s is given to the names %s" % (show(k), show(idx), [show(s[1])[:60] for s in segs]), e.loc)
        return
    ctx.judge("positions:value", True if pos is d else (None if has_unknown(pos) or has_unknown(d) else False), "the position is that of the name", "%s is written at position +%s, its name is at +%s" % (show(k), show(d), show(pos)), e.loc)


def has_unknown(t):
    return any(x.op in UNKNOWN_OPS for x in subterms(t))


def named(nm, k, idx):
    """f'{name}{i}'"""
    return nm.op == "fstr" and nm is fstr_of(k, idx)


def fstr_of(k, idx):
    from ..terms import fstr
    return fstr([(k, None, ""), (idx, None, "")])


def lenform(x):
    if x.op == "len" and x.args[0].op == "listv" and x.args[0].args[0] and x.args[0].args[0][0][0] == "splice" and x.args[0].args[0][0][1].op == "phi":
        segs = x.args[0].args[0]
        return add(mk("len", segs[0][1]), grown(segs[1:]))
    return None


def lp_owns(lp, ph):
    return any(ph in bp.ends for bp in lp.paths) or ph in lp.inits


def parent_phi(ph, chain, i, j):
    """the same variable at loop j (outside loop i)"""
    for lv in range(i, j, -1):
        init = chain[lv][0].inits.get(ph)
        if init is None:
            return None
        if init.op == "phi":
            ph = init
        elif init.op == "listv" and init.args[0] and init.args[0][0][0] == "splice":
            ph = init.args[0][0][1]
        else:
            qs = {x for x in subterms(init) if x.op == "phi"}
            if len(qs) != 1:
                return None
            ph = qs.pop()
    return ph


def counter_at(counter, chain, i, j, lp):
    base = counter.args[0] if counter.op == "len" else counter
    ph = base if i == j else parent_phi(base, chain, i, j)
    if ph is None:
        return None
    return mk("len", ph) if counter.op == "len" else ph


def illum(e, chain):
    """index of the per-illumination dictionary written to"""
    for x in (e.raw, e.base):
        if isinstance(x, Term) and plain(x).op == "item":
            return plain(x).args[1]
    lp, bp = chain[-1]
    if lp.value is not None and plain(e.base) is plain(lp.value) and plain(lp.base).op == "range":
        return elem(plain(lp.base))
    # the getitem just before the write
    i = [k for k, x in enumerate(bp.events) if x is e]
    for x in reversed(bp.events[:i[0]] if i else []):
        if x.kind == "getitem" and x.args:
            b = plain(x.base)
            if b.op in ("comp", "attr", "phi", "mutated") or b.op == "listv":
                return plain(x.args[0])
    it = plain(lp.base)
    if it.op == "comp" and len(it.args[2]) == 1 and it.args[0].op == "range" and it.args[0].args[0] is const(0):
        return elem(it.args[0])
    return None


def coverage(ctx, writes, L, n, init):
    """every illumination sees every parameter"""
    full = elem(rng(const(0), n))
    paths = {}
    for e, chain in writes:
        idx = illum(e, chain)
        top = chain[0]
        paths.setdefault(id(top[1]), (top, []))[1].append((e, chain, idx))
    done = set()
    for e, chain in writes:
        top = chain[0][0]
        if id(top) in done:
            continue
        done.add(id(top))
        for bp in top.paths:
            if bp.exit not in ("fall", "continue"):
                continue
            here = paths.get(id(bp), (None, []))[1]
            idxs = [i for _, _, i in here]
            ok = any(i is not None and i.op == "elem" and i.args[0] is rng(const(0), n) for i in idxs)
            consts = [i for i in idxs if i is not None and (is_const(i) or i.op == "elem" and i.args[0].op == "range" and not has_unknown(i))]
            ctx.judge("positions:every-illumination", True if ok else (False if not idxs or len(consts) == len(idxs) else None),
                      "written for every illumination", "when %s a parameter's position is written for illuminations %s only" % (conds_str(bp.conds), [show(i) for i in idxs if i is not None]), top.loc)


def typed(ctx, cls, ref):
    """the compiled lookup has the same keys and positions"""
    d, f = cls.lookup("lookup_typed")
    if not isinstance(f, Func):
        raise AnchorError(COLL + ".lookup_typed")
    LK, N = attr(SELF, "lookup"), attr(SELF, "n_illuminations")
    found = False
    for p in returns(ctx.run(f, cls=cls)):
        for e, loops in flat_events(p.events):
            if e.kind != "setitem" or not loops:
                continue
            found = True
            k, v = plain(e.args[0]), plain(e.value)
            its = [plain(l.base) for l, _ in loops]
            src = [x for t in (k, v) for x in subterms(t) if x.op == "item" and x.args[0] is LK]
            i = elem(rng(const(0), N))
            row = mk("item", LK, i)
            ev = [plain(l.value) for l, _ in loops]
            good = len(loops) == 2 and its[0] is rng(const(0), N) and any(mentions(t, row) for t in its[1:]) and any(same_entry(k, v, row))
            ctx.judge("typed:entries", True if good else match(mk("tuple", (k, v)), [mk("tuple", (mk("item", row, i), row))], {("op", "elem")}), "same key and position", "typed[%s] = %s over %s" % (show(k), show(v), [show(t) for t in its]), e.loc)
    if not found:
        ctx.und("typed:entries", "no copying loop found", f.loc())


def same_entry(k, v, row):
    """(key, value) of one entry of row.items()"""
    it = mk("items", row)
    e = elem(it)
    yield k is mk("item", e, const(0)) and v is mk("item", e, const(1))
    yield k is elem(row) and v is mk("item", row, elem(row))
    yield k is elem(row) and v is mk("item", row, k)
