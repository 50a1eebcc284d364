"""Baseline ring buffer: the constructed buffer, its write per processed event, the mean taken from it and the counter are
extracted as terms and events; the layout (which axis is event, pixel, sample) is read off the allocation and the write
index, the averaging axes, the broadcast and the modular position must agree with it.  Users of the subtractor must call it
exactly once per event, with that event, on one subtractor made before the loop for the same source, and take the recorded
baseline after the call."""
import ast
from .util import *
from ..terms import add, sub, mod, rng, elem, length
from . import dl1

BS = "CHECLabPy.utils.waveform.BaselineSubtractor"
FULL = None


def full():
    return mk("slice", NONE, NONE, NONE)


def index_parts(k, n):
    """components of an index padded to n axes"""
    k = plain(k)
    parts = list(k.args[0]) if k.op == "tuple" else [k]
    return parts + [full()] * (n - len(parts)) if len(parts) <= n else None


def is_mean(t):
    return t.op == "call" and t.args[0] in ("numpy.mean", "numpy.nanmean")


def run(ctx):
    P = ctx.P
    cls = P.cls(BS)
    lay = None
    with ctx.section("layout"):
        lay = layout(ctx, cls)
    with ctx.section("subtract"):
        subtract(ctx, cls, lay)
    with ctx.section("extractor"):
        extractor(ctx)
    users(ctx, cls)


def layout(ctx, cls):
    """attributes of a constructed subtractor: {buffer, axes, counter...}"""
    src, N, S = param("source"), param("N"), param("S")
    I = ctx.interp()
    d, init = cls.lookup("__init__")
    if not isinstance(init, Func):
        raise AnchorError(BS + ".__init__")
    objs = I.build(cls, [src, N, S], [])
    if not objs:
        raise AnchorError(BS + "(source, n_base, n_base_samples)")
    out = []
    npix = attr(src, "n_pixels")
    for st, ref in objs:
        for e, _ in flat_events(st.events):
            b = plain(e.base) if isinstance(e.base, Term) else None
            if e.kind == "setattr" and b is not None and b.op == "class" and isinstance(e.value, Term) and any(
                    x.op == "call" and x.args[0] in ("numpy.zeros", "numpy.empty", "numpy.ones", "numpy.full") for x in subterms(plain(e.value))):
                ctx.bad("layout:own", "the buffer is kept in %s.%s, which every subtractor shares" % (show(b), e.name), e.loc)
    for st, ref in objs:
        h = st.heap[ref].attrs
        vals = {n: plain(I.freeze(st, v)) for n, v in h.items()}
        bufs = {}
        for n, v in vals.items():
            alloc = base = v
            while alloc.op == "filled":
                alloc = alloc.args[0]
            if alloc.op == "call" and alloc.args[0] in ("numpy.zeros", "numpy.empty", "numpy.ones", "numpy.full"):
                kw = dict(alloc.args[2])
                shp = kw.get("shape", alloc.args[1][0] if alloc.args[1] else None)
                if shp is not None and shp.op == "tuple" and len(shp.args[0]) == 3:
                    bufs[n] = (alloc, base, shp.args[0], kw)
        if len(bufs) != 1:
            ctx.und("layout", "ring buffer not identified among %s" % sorted(vals), init.loc())
            return None
        n, (alloc, base, shp, kw) = bufs.popitem()
        axes = {}
        for i, x in enumerate(shp):
            for role, t in (("event", N), ("pixel", npix), ("sample", S)):
                if x is t:
                    axes[role] = i
        if len(axes) != 3:
            ctx.judge("layout:shape", match(mk("tuple", shp), [mk("tuple", (N, npix, S))]), "", "the buffer has shape %s, not (events, pixels, samples)" % show(mk("tuple", shp)), init.loc())
            return None
        ctx.ok("layout:shape", "one place per event, pixel and sample", init.loc())
        dt = kw.get("dtype")
        okd = dt is None or show(dt) in ("float", "numpy.float64", "'float'", "'float64'", "'f8'", "numpy.double", "numpy.float32", "'float32'", "'f4'", "numpy.longdouble")
        ctx.judge("layout:dtype", okd if okd or dt.op not in ("const", "ext") else False, "floating point samples", "samples are stored as %s" % show(dt) if dt is not None else "", init.loc())
        ctx.judge("layout:zero", True if alloc.args[0] == "numpy.zeros" or alloc.args[0] == "numpy.full" and kw.get("fill_value", alloc.args[1][1] if len(alloc.args[1]) > 1 else NONE) in (const(0), const(0.0)) else False,
                  "absent events count as zero", "unwritten places are not zero: %s" % alloc.args[0], init.loc())
        lay = dict(buffer=n, axes=axes, vals=vals, N=N, S=S, npix=npix)
        out.append(lay)
        prefill(ctx, cls, init, lay, base)
    return out[0] if len({(x["buffer"], tuple(sorted(x["axes"].items()))) for x in out}) == 1 else None


def prefill(ctx, cls, init, lay, base):
    """the first N events of the source go to their own places"""
    src, N, S = param("source"), lay["N"], lay["S"]
    ax = lay["axes"]
    I = ctx.interp()
    names = [a.arg for a in init.node.args.args[1:]]
    paths = [p for p in ctx.run(init, I, cls=cls, args=dict(zip(names, [src, N, S]))) if p.kind == "return"]
    for p in paths:
        writes = [(e, loops) for e, loops in flat_events(p.events) if e.kind == "setitem" and is_buffer(e, lay)]
        loops_seen = {id(l[-1][0]): l[-1][0] for e, l in writes if l}
        if not writes:
            ctx.judge("prefill:write", False if not any(x.op in UNKNOWN_OPS for x in subterms(base)) and base.op != "filled" else None, "", "the first events of the source are not put into the buffer", init.loc())
            continue
        per_path = {}
        for e, loops in writes:
            if not loops:
                ctx.und("prefill:write", "written outside a loop over the source", e.loc)
                continue
            lp, bp = loops[-1]
            it = plain(lp.base)
            over = it
            if over.op == "item":
                sl = over.args[1]
                ctx.judge("prefill:source", match(sl, [mk("slice", NONE, N, NONE), mk("slice", const(0), N, NONE)]), "the first N events", "iterates over %s" % show(it), e.loc)
                over = over.args[0]
            ctx.judge("prefill:source", match(over, [src]), "over the events of the source", "iterates over %s" % show(it), e.loc)
            each = plain(lp.value)
            parts = index_parts(e.args[0], 3)
            iev = attr(each, "iev")
            key = parts[ax["event"]] if parts else None
            if key is None:
                ctx.und("prefill:place", "index %s" % show(e.args[0]), e.loc)
                continue
            ordinal = key.op == "each" and key.args[0] == rng(const(0), length(it)) or key.op == "elem" and key.args[0] == rng(const(0), length(it))
            if ordinal:
                each = elem(it)
            ctx.judge("prefill:place", True if key is iev or ordinal else match(key, [iev], {("attr", "iev")}), "an event goes to the place of its own number", "event goes to place %s" % show(key), e.loc)
            ctx.judge("prefill:samples", match(plain(e.value), values(each, S, ax), {("op", "each")}), "the first samples of every pixel", "stores %s" % show(e.value), e.loc)
            # guard: exactly the events with number < N
            guard = mk("lt", key, N)
            want = {(plain(mk("le", N, key)), False), (plain(guard), True)}
            conds = {(plain(a), pol) for a, pol in bp.conds}
            extra = {c for c in conds - want if not (is_const(c[0]))}
            sliced = it.op == "item"
            ctx.judge("prefill:guard", True if not extra and (conds & want or sliced) else (None if any(x.op in UNKNOWN_OPS for c, _ in extra for x in subterms(c)) else False),
                      "for every event numbered below N", "an event of the first N is stored only when %s" % conds_str(bp.conds) if extra else "no guard: events beyond N are stored too", e.loc)
            per_path.setdefault(id(bp), []).append(e)
        for lid, lp in loops_seen.items():
            for bp in lp.paths:
                if bp.exit == "break":
                    key = None
                    for a, pol in bp.conds:
                        a = plain(a)
                        if mentions(a, plain(lp.value)):
                            key = a
                    beyond = [x for x, pol in bp.conds if plain(x).op == "le" and pol and plain(x).args[0] is N or plain(x).op == "lt" and not pol and plain(x).args[1] is N]
                    ctx.judge("prefill:stop", True if beyond else (False if key is not None and not any(x.op in UNKNOWN_OPS for x in subterms(key)) else None),
                              "stops at event N", "stops reading when %s" % conds_str(bp.conds), lp.loc)


def is_buffer(e, lay):
    b = e.base
    if not isinstance(b, Term):
        return False
    b = plain(b)
    while b.op == "filled":
        b = b.args[0]
    return b.op == "call" and b.args[0] in ("numpy.zeros", "numpy.full", "numpy.empty") or b is attr(SELF, lay["buffer"]) or \
        b.op == "phi" and lay["buffer"] in b.args


def values(w, S, ax):
    """the first S samples of every pixel, oriented as the buffer"""
    part = [mk("item", w, mk("tuple", (full(), mk("slice", a, S, NONE)))) for a in (NONE, const(0))]
    part += [mk("item", w, mk("tuple", (mk("ellipsis"), mk("slice", a, S, NONE)))) for a in (NONE,)]
    if ax["pixel"] < ax["sample"]:
        return part
    return [mk("attr", x, "T") for x in part] + [call("numpy.transpose", a=x) for x in part]


def subtract(ctx, cls, lay):
    d, f = cls.lookup("subtract")
    if not isinstance(f, Func):
        raise AnchorError(BS + ".subtract")
    if lay is None:
        ctx.und("subtract", "layout of the buffer not known", f.loc())
        return
    ax = lay["axes"]
    W = param(f.node.args.args[1].arg)
    buf = attr(SELF, lay["buffer"])
    Ns = [attr(SELF, n) for n, v in lay["vals"].items() if v is lay["N"]]
    Ss = [attr(SELF, n) for n, v in lay["vals"].items() if v is lay["S"]]
    shape = attr(buf, "shape")
    Ns += [mk("item", shape, const(ax["event"]))] + ([call("len", buf)] if ax["event"] == 0 else [])
    Ss += [mk("item", shape, const(ax["sample"]))]
    if ax["sample"] == 2:
        Ss += [mk("item", shape, const(-1))]
    axes = {tuple(sorted((ax["event"], ax["sample"])))}
    paths = returns(ctx.run(f, cls=cls))
    if not paths:
        ctx.und("subtract", "no returning path", f.loc())
    for p in paths:
        evs = [(i, e, loops) for i, (e, loops) in enumerate(flat_events(p.events))]
        v = plain(p.value)
        means = [x for x in subterms(v) if is_mean(x)]
        stored = [plain(e.value) for _, e, _ in evs if e.kind == "setattr" and e.name == "baseline"]
        if not means:
            ctx.judge("subtract:result", match(v, [], {("attr", a) for a in lay["vals"]} | {("param", W.args[0]), ("param", "self")}), "", "returns %s" % show(v)[:300], f.loc(), p.cond_str())
            continue
        m = means[0]
        kw = dict(m.args[2])
        src = kw.get("a", m.args[1][0] if m.args[1] else None)
        a = kw.get("axis", NONE)
        got = tuple(sorted(x.args[0] % 3 for x in a.args[0])) if a.op == "tuple" and all(is_const(x) for x in a.args[0]) else \
            (a.args[0],) if is_const(a) and isinstance(a.args[0], int) else None
        good = src is buf and got in axes
        if src is not None and is_mean(src) and got is not None and len(got) == 1:
            # mean over one axis, then over another
            kw2 = dict(src.args[2])
            a2 = kw2.get("axis", NONE)
            if kw2.get("a") is buf and is_const(a2) and isinstance(a2.args[0], int) and set(kw2) == {"a", "axis"} and a.op == "const":
                first = a2.args[0] % 3
                second = [x for x in range(3) if x != first][a.args[0] % 2]
                got = tuple(sorted((first, second)))
                good = got in axes
        extra = {k for k in kw if k not in ("a", "axis", "dtype")}
        ctx.judge("subtract:mean", True if good and not extra and m.args[0] == "numpy.mean" else (False if known_vocab(m, [buf], {("call", m.args[0])} | {("attr", n) for n in lay["vals"]}) else None),
                  "mean over the events and samples of each pixel", "the baseline is %s" % show(m), f.loc(), p.cond_str())
        spec = [sub(W, mk("item", m, mk("tuple", (full(), NONE)))), sub(W, mk("item", m, mk("tuple", (full(), NONE)))), sub(W, call("numpy.expand_dims", a=m, axis=const(1))),
                sub(W, mk("meth", m, "reshape", (const(-1), const(1)), ())), sub(W, call("numpy.reshape", a=m, newshape=mk("tuple", (const(-1), const(1)))))]
        ctx.judge("subtract:result", match(v, spec, {("call", "numpy.resize"), ("attr", "shape")}), "the event minus its own pixel's baseline for every sample", "returns %s" % show(v)[:300], f.loc(), p.cond_str())
        ctx.judge("subtract:recorded", True if stored and stored[-1] is m else (False if not stored or known_vocab(stored[-1], [m]) else None),
                  "the baseline used is the recorded one", "recorded baseline is %s" % (show(stored[-1])[:200] if stored else "not updated"), f.loc(), p.cond_str())
        # writes: exactly one, before the mean
        w = [(i, e, loops) for i, e, loops in evs if e.kind in ("setitem", "inplace", "mut") and isinstance(e.base, Term) and plain(e.base) is buf]
        rebound = [e for _, e, _ in evs if e.kind == "setattr" and e.name == lay["buffer"]]
        if rebound or any(e.kind != "setitem" for _, e, _ in w):
            ctx.und("subtract:write", "the buffer is rebound or changed otherwise", f.loc())
            continue
        if len(w) != 1 or w[0][2]:
            bad = not w and not any(x.op in UNKNOWN_OPS for c, _ in p.conds for x in subterms(c)) or len(w) > 1 and not any(l for _, _, l in w)
            ctx.judge("subtract:write", False if bad else None, "", "an event is entered %d times" % len(w), f.loc(), p.cond_str())
            continue
        i, e, _ = w[0]
        im = [j for j, x, _ in evs if x.kind in ("call", "meth") and isinstance(x.value, Term) and plain(x.value) is m]
        ctx.judge("subtract:current", True if im and im[-1] > i else (False if im else None), "the event is entered before the mean is taken", "the mean is taken before the event is entered", e.loc, p.cond_str())
        if im and im[-1] > i and any(j > i for j in im) and im[0] < i and v is not None:
            pass
        parts = index_parts(e.args[0], 3)
        if parts is None:
            ctx.und("subtract:place", "index %s" % show(e.args[0]), e.loc)
            continue
        key = parts[ax["event"]]
        rest = [x for j, x in enumerate(parts) if j != ax["event"]]
        ctx.judge("subtract:whole", True if all(x is full() for x in rest) else (False if all(x.op in ("slice", "const") for x in rest) else None),
                  "every pixel and sample of the place is replaced", "only %s is replaced" % show(e.args[0]), e.loc)
        vals = [x for S in Ss for x in values(W, S, ax)]
        ctx.judge("subtract:samples", match(plain(e.value), vals, {("attr", n) for n in lay["vals"]}), "the first samples of every pixel of the event", "stores %s" % show(e.value), e.loc)
        counter(ctx, lay, p, evs, key, Ns, e, W)
        for _, x, _ in evs:
            if x.kind in ("setitem", "inplace") and isinstance(x.base, Term) and plain(x.base) is W:
                ctx.bad("subtract:input", "the event passed in is changed", x.loc, p.cond_str())


def counter(ctx, lay, p, evs, key, Ns, e, W):
    """place = (start + number of events already processed) mod N"""
    names = {("attr", n) for n in lay["vals"]} | {("param", "self"), ("param", W.args[0]), ("attr", "iev"), ("op", "mod")}
    wrapped = False
    arg = key
    if key.op == "mod" and key.args[1] in Ns:
        arg = key.args[0]
    elif key.op == "mod":
        ctx.judge("subtract:place", match(key, [], names), "", "place is %s; N is not the modulus" % show(key), e.loc)
        return
    else:
        wrapped = True
    cs = [n for n in lay["vals"] if mentions(arg, attr(SELF, n)) and attr(SELF, n) not in Ns]
    if len(cs) != 1:
        ctx.judge("subtract:place", match(key, [], names), "", "place is %s" % show(key), e.loc)
        return
    c = attr(SELF, cs[0])
    d = sub(arg, c)
    if not is_const(d):
        ctx.judge("subtract:place", match(arg, [c], names), "", "place is %s" % show(key), e.loc)
        return
    sets = [plain(x.value) for _, x, _ in evs if x.kind == "setattr" and x.name == cs[0]]
    if not sets:
        ctx.bad("subtract:advance", "the position does not advance", e.loc, p.cond_str())
        return
    nxt = sets[-1]
    step = add(c, const(1))
    okn = nxt is step and not wrapped or any(nxt is mod(step, n) for n in Ns) and is_const(d)
    v = True if okn else match(nxt, [step], names)
    if v is False and wrapped and nxt.op not in ("mod", "poly", "const", "attr"):
        v = None
    ctx.judge("subtract:advance", v, "the position advances by one per event", "the position becomes %s" % show(nxt), e.loc, p.cond_str())
    init = lay["vals"][cs[0]]
    tot = add(init, d)
    ctx.judge("subtract:start", True if tot is const(0) else (False if is_const(tot) else match(tot, [const(0)], {("param", "N")})),
              "the first processed event takes the place of the file's first event", "the first processed event takes place %s" % show(tot), e.loc)


# ------------------------------------------------------------------ users
def extractor(ctx):
    P = ctx.P
    ex = P.cls(dl1.EX + "DL1Extractor")
    d, f = ex.lookup("__call__")
    if not isinstance(f, Func):
        raise AnchorError("DL1Extractor.__call__")
    W = param(f.node.args.args[1].arg)
    for p in returns(ctx.run(f, ctx.interp(opaque={BS}), cls=ex)):
        evs = [e for e, _ in flat_events(p.events)]
        subs = [i for i, e in enumerate(evs) if e.kind == "meth" and e.name == "subtract"]
        if len(subs) != 1:
            ctx.judge("extractor:once", False if len(subs) > 1 or not any(x.op in UNKNOWN_OPS for x in subterms(plain(p.value))) else None, "", "the baseline is subtracted %d times per event" % len(subs), f.loc(), p.cond_str())
            continue
        e = evs[subs[0]]
        ctx.ok("extractor:once", "one subtraction per event", e.loc)
        for x in evs:
            if x.kind == "meth" and isinstance(x.base, Term) and plain(x.base) is plain(e.base) and x.name != "subtract":
                m = P.cls(BS).lookup(x.name)[1]
                writes = isinstance(m, Func) and any(y.kind == "setitem" and isinstance(y.base, Term) and plain(y.base).op == "attr" for q in ctx.run(m, cls=P.cls(BS)) for y, _ in flat_events(q.events))
                if writes:
                    ctx.bad("extractor:once", "the event is entered again by %s()" % x.name, x.loc, p.cond_str())
        a = plain(e.args[0])
        good = a is W or any(x is W for x in subterms(a)) and (a.op == "callv" or a.op == "meth" and a.args[0] is SELF and "calib" in a.args[1])
        ctx.judge("extractor:event", True if good else (False if known_vocab(a, [W, attr(W, "x")], {("attr", "time_calibrator")}) else None), "of this event", "subtracts the baseline from %s" % show(a), e.loc, p.cond_str())
        proc = [x for x in evs if x.kind == "meth" and x.name == "process"]
        for x in proc:
            arg = plain(x.args[0]) if x.args else None
            ctx.judge("extractor:reduced", True if arg is plain(e.value) else (False if arg is W or arg is a else None), "the subtracted event is reduced", "reduces %s" % show(arg), x.loc, p.cond_str())
        g = [i for i, x in enumerate(evs) if x.kind == "getattr" and x.name == "baseline" and plain(x.base) is plain(e.base)]
        stored = [x for x in subterms(plain(p.value)) if x is attr(plain(e.base), "baseline")]
        if stored:
            ctx.judge("extractor:baseline", all(i > subs[0] for i in g), "the recorded baseline is the one subtracted", "the baseline is read before the event is entered", e.loc, p.cond_str())
    I = ctx.interp(opaque={BS, dl1.CHAIN})
    for st, ref in I.build(ex, [param("reader"), param("config_path")], []):
        vals = {n: plain(I.freeze(st, v)) for n, v in st.heap[ref].attrs.items()}
        bs = [v for v in vals.values() if v.op == "call" and v.args[0] == BS or v.op == "obj" and BS in map(str, v.args)]
        for v in bs:
            a = v.args[1] if len(v.args) > 1 else ()
            s = a[0] if a else dict(v.args[2]).get("source") if len(v.args) > 2 else None
            if s is not None:
                ctx.judge("extractor:source", match(s, [param("reader")]), "baseline of the file being reduced", "baseline of %s" % show(s))


def users(ctx, cls):
    P = ctx.P
    seen = 0
    for q, f in sorted(P.funcs.items()):
        if f.cls is cls or q.startswith(dl1.EX):
            continue
        if not any(isinstance(n, ast.Name) and n.id == cls.name or isinstance(n, ast.Attribute) and n.attr == cls.name for n in ast.walk(f.node)):
            continue
        seen += 1
        with ctx.section("user:" + f.node.name):
            for p in returns(ctx.run(f, ctx.interp(opaque={BS}))):
                made = [(e, l) for e, l in flat_events(p.events) if e.kind in ("new", "call") and e.name == BS]
                for e, l in made:
                    ctx.judge("user:%s:made" % f.node.name, not l, "made once, before the loop", "a new subtractor is made per iteration", e.loc)
                for lp, l in events_of(p, "loop"):
                    for bp in lp.paths:
                        subs = [e for e, _ in flat_events(bp.events) if e.kind == "meth" and e.name == "subtract" and isinstance(e.base, Term) and
                                plain(e.base) in [plain(m.value) for m, _ in made]]
                        if not subs and not any(e.kind == "meth" and e.name == "subtract" for b2 in lp.paths for e, _ in flat_events(b2.events)):
                            continue
                        ctx.judge("user:%s:once" % f.node.name, True if len(subs) == 1 else (None if bp.exit in ("break", "return", "raise") and not subs else False),
                                  "entered once per event", "an event is entered %d times when %s" % (len(subs), conds_str(bp.conds)), lp.loc)
                        for e in subs:
                            ctx.judge("user:%s:event" % f.node.name, match(plain(e.args[0]), [plain(lp.value)], {("op", "each")}), "the event of the iteration", "subtracts from %s" % show(e.args[0]), e.loc)
                            src = [m.args[0] if m.args else dict(m.kwargs).get("source") for m, _ in made if plain(m.value) is plain(e.base)]
                            it = plain(lp.base)
                            for s in src:
                                if s is not None:
                                    ctx.judge("user:%s:source" % f.node.name, True if plain(s) is it or it.op == "item" and it.args[0] is plain(s) else match(plain(s), [it]),
                                              "made for the source looped over", "made for %s, looping over %s" % (show(s), show(it)), e.loc)
    ctx.assumptions.append("sources iterate over their events in order, numbering them from 0")
