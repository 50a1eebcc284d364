"""Each pixel's fit is its own.  (1) Reset: a fitter is fitted once, everything that fit stored is replaced by opaque old
symbols, and a second fit is interpreted: nothing it stores or hands to the minimiser may mention an old symbol, the
histograms are those of its own charges per illumination, and the parameter tables are untouched.  (2) Storing: for an
arbitrary pixel the column of that pixel is fitted before any result is read, and each of the three stored rows is complete,
copied and keyed with that pixel when it is stored; every pixel is visited, in sequence or by a map that waits.  (3) The
three written tables are the stored rows indexed and sorted by the pixel column."""
from .util import *
from .c19 import COLL
from .c20 import FITTER, SETTINGS, L, N, fitters, fits, old, minuit_calls
from ..terms import elem, rng, item, length

SCRIPT = "CHECLabPy.scripts.extract_spe"
APPLIER = SCRIPT + ".PixelFitApplier"
A = param("A")


def run(ctx):
    P = ctx.P
    F = P.cls(FITTER)
    with ctx.section("fit"):
        fit(ctx, F)
    with ctx.section("latest"):
        latest(ctx, F)
    with ctx.section("rows"):
        rows(ctx, P.cls(APPLIER))
    with ctx.section("visit"):
        visit(ctx, P.cls(APPLIER))
    with ctx.section("tables"):
        tables(ctx)
    ctx.assumptions.append("values put into a multiprocessing.Manager().dict() are copied when they are stored; map() of a process pool returns after all items are done")


def fit(ctx, F):
    I = ctx.interp()
    _, fn = F.lookup("apply")
    n = 0
    for st, f, c in fitters(ctx, I, F):
        before = {a: I.freeze(st, v) for a, v in st.heap[f].attrs.items()}
        coll = {a: I.freeze(st, v) for a, v in st.heap[c].attrs.items()}
        for p in fits(ctx, I, st, f)[:1]:
            s1 = p.st.copy()
            written = [a for a, v in s1.heap[f].attrs.items() if a != "parameters" and (a not in before or I.freeze(s1, v) is not before[a])]
            for a in written:
                s1.heap[f].attrs[a] = param("old " + a)
            s1.heap[f].attrs["n_bins"] = param("bins")
            s1.heap[f].attrs["range"] = param("range")
            ctx.judge("fit:writes", True if written else None, "%d stored results" % len(written), "the fit stores nothing", fn.loc())
            for q in [x for x in I.method(s1, f, "apply", [A]) if x.kind == "return"]:
                ctx.count([q])
                n += 1
                ev = q.events[len(s1.events):]
                for a, v in sorted(q.st.heap[f].attrs.items()):
                    if a in ("parameters",):
                        continue
                    t = I.freeze(q.st, v)
                    o = [x.args[0][4:] for x in stale(t)] if isinstance(t, Term) else []
                    ctx.judge("fit:reset:" + a, not o, "of this fit only", "after a second fit %s still holds %s of the fit before" % (a, ", ".join(sorted(set(o)))), fn.loc(), q.cond_str())
                for e in minuit_calls(ev):
                    o = {x.args[0][4:] for t in list(e.args) + [v for _, v in e.kwargs] if isinstance(t, Term) for x in stale(I.freeze(q.st, t))}
                    ctx.judge("fit:start", not o, "started from the settings only", "the fit starts from %s of the fit before" % ", ".join(sorted(o)), e.loc, q.cond_str())
                for a, v in q.st.heap[c].attrs.items():
                    if a.startswith("_"):
                        continue
                    ctx.judge("fit:settings:" + a, I.freeze(q.st, v) is coll.get(a), "the parameter tables are unchanged by a fit", "a fit changes %s of the parameters" % a, fn.loc(), q.cond_str())
                for a in ("n_bins", "range"):
                    ctx.judge("fit:settings:" + a, I.freeze(q.st, q.st.heap[f].attrs[a]) is param({"n_bins": "bins", "range": "range"}[a]), "unchanged by a fit", "a fit changes " + a, fn.loc(), q.cond_str())
                for e, loops in flat_events(ev):
                    if e.kind == "setattr" and e.name in SETTINGS + ("multi",):
                        ctx.bad("fit:settings", "a fit changes .%s of a parameter" % e.name, e.loc, q.cond_str())
                    if e.kind == "setglobal":
                        ctx.und("fit:global", "a fit writes global %s" % e.name, e.loc)
                ms = minuit_calls(ev)
                if ms:
                    runs = [e for e, _ in flat_events(ev) if e.kind == "meth" and e.name == "migrad" and isinstance(e.base, Term) and any(plain(e.base) is plain(m.value) for m in ms)]
                    ctx.judge("fit:minimised", True if runs else (False if not any(e.kind == "meth" and mentions(plain(e.base), plain(ms[0].value)) and e.name != "hesse" for e, _ in flat_events(ev) if isinstance(e.base, Term)) else None),
                              "the minimiser is run", "the minimiser is not run", ms[0].loc)
                histograms(ctx, I, q, f, fn, ev)
    if not n:
        ctx.und("fit", "no second fit path", fn.loc())


def stale(t):
    """old symbols in a term, except as the value left by a loop over the (at least one) illuminations or events that never
    runs"""
    out, todo, seen = [], [t], set()
    while todo:
        x = todo.pop()
        if not isinstance(x, Term):
            if isinstance(x, (tuple, list)):
                todo.extend(x)
            continue
        if x in seen:
            continue
        seen.add(x)
        if x.op == "param" and isinstance(x.args[0], str) and x.args[0].startswith("old "):
            out.append(x)
        if x.op == "last" and (plain(x.args[0]) is rng(const(0), N) or mentions(x.args[0], A)) and len(x.args[2]) == 1 and tuple(x.args[2][0][0]) in ((), ((),)):
            todo.extend(x.args[:3])
            continue
        todo.extend(x.args)
    return out


def histograms(ctx, I, q, f, fn, ev):
    """histogram i is that of charges i"""
    it = rng(const(0), N)
    charges = mk("tuple", (A,))
    for e, loops in flat_events(ev):
        if e.kind != "call" or e.name != "numpy.histogram":
            continue
        kw = dict(e.kwargs)
        a = plain(kw.get("a")) if kw.get("a") is not None else None
        for k, want in (("bins", param("bins")), ("range", param("range"))):
            v = kw.get(k)
            ctx.judge("fit:histogram:" + k, True if v is want else (False if v is None or is_const(v) else None), "the fitter's own", "histogram made with %s=%s" % (k, show(v) if v is not None else "default"), e.loc)
        if loops:
            it2 = plain(loops[-1][0].base)
            i = elem(it)
            own = a is not None and (a is item(charges, i) or it2.op == "tuple" and a is elem(it2))
            fixed = a is A or a is not None and not any(x.op == "elem" for x in subterms(a)) and mentions(a, A) and not any(x.op in UNKNOWN_OPS for x in subterms(a))
            ctx.judge("fit:histogram:charges", True if own else (False if fixed else None), "of the illumination's charges", "histogram of %s" % (show(a) if a is not None else "?"), e.loc)
    for name in ("charge_hist_y", "charge_hist_y_typed"):
        v = q.st.heap[f].attrs.get(name)
        if v is None:
            continue
        t = plain(I.freeze(q.st, v))
        if t.op == "comp" and len(t.args[2]) == 1:
            b = t.args[2][0][1]
            h = [x for x in subterms(b[0][1]) if x.op == "call" and x.args[0] == "numpy.histogram"] if len(b) == 1 and b[0][0] == "item" else []
            full = t.args[0] is it or t.args[0] is charges or t.args[0].op == "zip"
            counts = len(b) == 1 and b[0][0] == "item" and h and not any(x.op == "item" and x.args[0] is h[0] and x.args[1] is const(1) for x in subterms(b[0][1]))
            ctx.judge("fit:stored:" + name, True if full and counts else (False if t.args[0].op == "range" and not full or h and not counts or len(b) > 1 else None), "one histogram per illumination",
                      "%s is %s" % (name, show(t)[:300]), fn.loc())
        else:
            ctx.und("fit:stored:" + name, "%s is %s" % (name, show(t)[:200]), fn.loc())


def latest(ctx, F):
    """the published histogram is the one of the last fit, in the documented order"""
    d, fn = F.lookup("charge_histogram")
    if not isinstance(fn, Func):
        raise AnchorError("charge_histogram")
    want = mk("tuple", tuple(attr(SELF, a) for a in ("charge_hist_x", "charge_hist_y", "charge_hist_edges")))
    for p in returns(ctx.run(fn, cls=F)):
        v = plain(p.value)
        known = v.op == "tuple" and all(x.op == "attr" and x.args[0] is SELF for x in v.args[0])
        ctx.judge("latest", True if v is want else (False if known else None), "centres, contents, edges", "charge_histogram is %s" % show(v), fn.loc())


ROW = {"charge_hist_x": ("charge_histogram", 0), "charge_hist_y": ("charge_histogram", 1), "charge_hist_edges": ("charge_histogram", 2),
       "fit_x": ("fit_result_curve", 0), "fit_y": ("fit_result_curve", 1)}
FT = param("fitter")
TABLES = {"pixel_values": "fit_result_values", "pixel_errors": "fit_result_errors", "pixel_arrays": None}


def applier(ctx, I, cls):
    for st, r in I.build(cls, [FT], []):
        yield st, r


def marked(ctx, I, cls):
    """the three result tables as distinguishable symbols"""
    for st, r in applier(ctx, I, cls):
        st = st.copy()
        shared = {}
        for t in TABLES:
            v = st.heap[r].attrs.get(t)
            if v is None:
                raise AnchorError("%s.%s" % (APPLIER, t))
            fz = I.freeze(st, v)
            managed = any(x.op == "call" and x.args[0].startswith("multiprocessing.") for x in subterms(fz))
            private = v in st.heap or fz.op in ("dictv", "listv")
            ctx.judge("shared:" + t, True if managed else (False if private else None), "shared between the workers", "%s is a private dictionary: results of worker processes are lost" % t)
            st.heap[r].attrs[t] = param("table " + t)
        yield st, r


def rows(ctx, cls):
    I = ctx.interp()
    pix = None
    for st, r in marked(ctx, I, cls):
        distinct(ctx, st)
        for m, args in (("process", [param("C")]),):
            for p in I.method(st, r, m, args):
                ctx.count([p])
                if p.kind != "return":
                    ctx.judge("rows:path", None, "", "%s may raise" % m, None, p.cond_str())
                    continue
                ev = p.events[len(st.events):]
                loops = [e for e, ls in flat_events(ev) if e.kind == "loop" and not ls and any(x.kind == "meth" and x.name == "apply" for x, _ in flat_events([e]))]
                if len(loops) != 1:
                    ctx.judge("rows:loop", None, "", "%d loops fit pixels" % len(loops))
                    continue
                lp = loops[0]
                base = plain(lp.base)
                ch = mk("tuple", (param("C"),))
                full = base is rng(const(0), item(attr(param("C"), "shape"), const(1)))
                ctx.judge("rows:every-pixel", True if full else (False if base.op == "range" and not any(x.op in UNKNOWN_OPS for x in subterms(base)) else None), "every pixel is fitted", "pixels are fitted in a loop over %s" % show(base), lp.loc)
                pix = plain(lp.value)
                for bp in lp.paths:
                    row(ctx, bp, pix, ch, lp)


def distinct(ctx, st):
    """each table is its own shared dictionary"""
    made = [e for e, _ in flat_events(st.events) if e.kind == "meth" and e.name == "dict"]
    sets = [e for e, _ in flat_events(st.events) if e.kind == "setattr" and e.name in TABLES]
    if made:
        ctx.judge("shared:distinct", len(made) >= len({e.name for e in sets}), "three dictionaries", "%d tables share %d dictionaries" % (len(sets), len(made)), sets[0].loc if sets else None)


def row(ctx, bp, pix, ch, lp):
    ev = list(flat_events(bp.events))
    at = [i for i, (e, _) in enumerate(ev) if e.kind == "meth" and e.name == "apply" and plain(e.base) is FT]
    if bp.exit not in ("fall", "continue"):
        known = not any(x.op in UNKNOWN_OPS for a, _ in bp.conds for x in subterms(plain(a)))
        ctx.judge("rows:ends", False if known and not at else None, "", "the remaining pixels are not fitted", lp.loc, conds_str(bp.conds))
        return
    if len(at) != 1:
        ctx.judge("rows:apply", False if not at and not any(x.op in UNKNOWN_OPS for a, _ in bp.conds for x in subterms(plain(a))) else None, "", "%d fits for one pixel when %s" % (len(at), conds_str(bp.conds)), lp.loc)
        return
    e = ev[at[0]][0]
    # charges: column of the pixel, per illumination
    it = rng(const(0), attr(FT, "n_illuminations"))
    i = elem(it)
    arg = plain(e.args[0]) if len(e.args) == 1 else None
    inner = arg.args[0] if arg is not None and arg.op == "star" else None
    ok = None
    if inner is not None and inner.op == "comp" and len(inner.args[2]) == 1 and len(inner.args[2][0][1]) == 1:
        got = plain(inner.args[2][0][1][0][1])
        cols = [x for x in subterms(got) if x.op == "item" and x.args[1].op == "tuple" and len(x.args[1].args[0]) == 2]
        src = (item(ch, i), elem(ch)) if True else None
        full = inner.args[0] is it or inner.args[0] is ch
        col = next((x for x in cols), None)
        if col is not None and got is col:
            whole, k = col.args[1].args[0]
            sl = whole.op == "slice" and all(a is NONE for a in whole.args)
            ok = full and sl and k is pix and col.args[0] in src
            if not ok and not any(x.op in UNKNOWN_OPS for x in subterms(got)):
                ok = False
            elif not ok:
                ok = None
        elif got.op == "item" and got.args[0] in src and got.args[1] is pix:
            ok = False
    ctx.judge("rows:charges", ok, "all events of that pixel, per illumination", "pixel %s is fitted with %s" % (show(pix), show(arg)[:300] if arg is not None else "?"), e.loc)
    # rows
    for t, src in TABLES.items():
        st = [(k, x) for k, (x, _) in enumerate(ev) if x.kind == "setitem" and isinstance(x.base, Term) and plain(x.base) is param("table " + t)]
        if not st:
            other = [x for x, _ in ev if x.kind in ("mut", "meth") and isinstance(x.base, Term) and mentions(x.base, param("table " + t))]
            ctx.judge("rows:%s" % t, None if other else (False if not bp.conds else None), "", "nothing is stored in %s for a pixel" % t, lp.loc, conds_str(bp.conds))
            continue
        k, x = st[-1]
        key = plain(x.args[0])
        ctx.judge("rows:%s:key" % t, True if key is pix else (None if any(y.op in UNKNOWN_OPS for y in subterms(key)) else False), "stored under its pixel", "stored under %s" % show(key), x.loc)
        v = plain(x.value)
        if v.op == "attr" and v.args[0] is FT:
            ctx.bad("rows:%s:pixel" % t, "the stored row has no pixel entry when it is stored", x.loc)
            continue
        if v.op != "dictv":
            ctx.und("rows:%s" % t, "stores %s" % show(v)[:200], x.loc)
            continue
        kv = {s[1].args[0]: plain(s[2]) for s in v.args[0] if s[0] == "kv" and is_const(s[1])}
        merged = [plain(s[1]) for s in v.args[0] if s[0] == "merge"]
        if "pixel" not in kv:
            late = [y for y, _ in ev[k + 1:] if y.kind == "setitem" and y.args and plain(y.args[0]) is const("pixel")]
            ctx.judge("rows:%s:pixel" % t, False if late or not merged or all(m.op == "attr" for m in merged) else None, "", "the stored row has no pixel entry when it is stored", x.loc)
        else:
            pv = kv["pixel"]
            ctx.judge("rows:%s:pixel" % t, True if pv is pix else (None if any(y.op in UNKNOWN_OPS for y in subterms(pv)) else False), "carries its pixel", "the row's pixel is %s" % show(pv), x.loc)
        if src is not None:
            own = attr(FT, src)
            good = merged == [own] or not merged and False
            others = [m for m in merged if m.op == "attr" and m.args[0] is FT and m is not own]
            ctx.judge("rows:%s:content" % t, True if good else (False if others else None), "the fit's own " + src, "the row holds %s" % show(v)[:200], x.loc)
            fresh(ctx, t, ev, at[0], src, k)
        else:
            for name, (a, n) in ROW.items():
                want = item(attr(FT, a), const(n))
                got = kv.get(name)
                known = got is None and not merged or got is not None and got.op == "item" and got.args[0].op == "attr" and got.args[0].args[0] is FT or got is not None and got.op == "attr" and got.args[0] is FT and got.args[1] != name
                same = got is not None and (got is want or got.op == "attr" and got.args[0] is FT and got.args[1] == name)
                ctx.judge("rows:arrays:" + name, True if same else (False if known else None), "the fit's own", "%s is %s" % (name, show(got) if got is not None else "missing"), x.loc)
            for a in ("charge_histogram", "fit_result_curve"):
                fresh(ctx, t, ev, at[0], a, k)


def fresh(ctx, t, ev, applied, a, stored):
    reads = [k for k, (x, _) in enumerate(ev) if x.kind == "getattr" and x.name == a and isinstance(x.base, Term) and plain(x.base) is FT and k < stored]
    ctx.judge("rows:%s:after:%s" % (t, a), True if reads and reads[-1] > applied else (False if reads else None), "read after the fit", "%s is read before the pixel is fitted" % a, ev[reads[-1]][0].loc if reads else None)


WAITS = ("map", "starmap")
LAZY = ("imap", "imap_unordered", "map_async", "starmap_async", "apply_async", "submit")


def visit(ctx, cls):
    """parallel workers: every pixel, finished before returning"""
    I = ctx.interp()
    d, fn = cls.lookup("multiprocess")
    if not isinstance(fn, Func):
        raise AnchorError(APPLIER + ".multiprocess")
    for st, r in marked(ctx, I, cls):
        for p in I.method(st, r, "multiprocess", [param("processes"), param("C")]):
            ctx.count([p])
            if p.kind != "return":
                continue
            ev = list(flat_events(p.events[len(st.events):]))
            maps = [(k, e) for k, (e, _) in enumerate(ev) if e.kind == "meth" and e.name in WAITS + LAZY]
            if len(maps) != 1:
                ctx.und("visit:map", "%d maps over the pixels" % len(maps), fn.loc())
                continue
            k, e = maps[0]
            full = rng(const(0), item(attr(param("C"), "shape"), const(1)))
            its = [plain(a) for a in e.args[1:]] + [plain(v) for n, v in e.kwargs if n == "iterable"]
            got = its[0] if its else None
            ctx.judge("visit:every-pixel", True if got is full else (False if got is not None and got.op == "range" and not any(x.op in UNKNOWN_OPS for x in subterms(got)) else None), "every pixel is fitted", "workers fit %s" % (show(got) if got is not None else "?"), e.loc)
            work = plain(e.args[0]) if e.args else None
            ctx.judge("visit:worker", True if work is not None and work.op in ("bound", "closure", "call", "lambda", "func") else None, "pixel by pixel", "the worker is %s" % (show(work) if work is not None else "?"), e.loc)
            if e.name in LAZY:
                used = [x for x, _ in ev[k + 1:] if isinstance(x.base, Term) and mentions(x.base, e.value) or x.kind in ("call", "mut") and any(isinstance(a, Term) and mentions(a, e.value) for a in list(x.args or ()) + [v for _, v in x.kwargs or ()])]
                ctx.judge("visit:finished", True if used else False, "waits for the results", "%s does not wait: the pool is closed before every pixel is fitted" % e.name, e.loc)
            sets = [j for j, (x, _) in enumerate(ev) if x.kind == "setattr" and x.name == "charges"]
            pools = [j for j, (x, _) in enumerate(ev) if x.kind in ("call", "meth") and x.name.split(".")[-1] in ("Pool", "ProcessPoolExecutor")]
            if sets:
                ctx.judge("visit:charges", True if sets[-1] < k else False, "the workers see the charges", "the charges are set after the workers start", ev[sets[-1]][0].loc)


def tables(ctx):
    """the written tables are the rows indexed and sorted by pixel"""
    P = ctx.P
    fn = P.funcs.get(SCRIPT + ".main")
    if fn is None:
        raise AnchorError(SCRIPT + ".main")
    opaque = {q for q in P.classes if not q.startswith("CHECLabPy.scripts")} | {APPLIER}
    I = ctx.interp(opaque=opaque)
    seen = 0
    for p in I.run(fn):
        if p.kind != "return":
            continue
        ctx.count([p])
        ev = list(flat_events(p.events))
        done = [k for k, (e, _) in enumerate(ev) if e.kind == "meth" and e.name in ("process", "multiprocess")]
        for k, (e, _) in enumerate(ev):
            if e.kind == "meth" and e.name == "write" and isinstance(e.base, Term) and "HDF5Writer" in show(e.base)[:200]:
                seen += 1
                kw = {n: plain(v) for n, v in e.kwargs}
                for name in ("values", "errors", "arrays"):
                    if name not in kw:
                        ctx.judge("tables:" + name, None if "**" in kw else False, "", "no table %s is written" % name, e.loc, p.cond_str())
                        continue
                    table(ctx, name, kw[name], e, p)
                if done:
                    ctx.judge("tables:after", done[-1] < k, "written after the fits", "written before the pixels are fitted", e.loc)
                    ap = ev[done[-1]][0]
                    charges(ctx, ap, ev)
    if not seen:
        ctx.und("tables", "no write of the tables found", fn.loc())


def chain(t):
    """[(method, args, kwargs)] applied to the innermost call"""
    out = []
    while t.op == "meth":
        out.append((t.args[1], t.args[2], dict(t.args[3])))
        t = plain(t.args[0])
    return t, out[::-1]


def table(ctx, name, t, e, p):
    base, ops = chain(t)
    key = "tables:" + name
    if base.op != "call" or base.args[0] not in ("pandas.DataFrame", "pandas.DataFrame.from_records"):
        ctx.und(key, "the table is %s" % show(t)[:200], e.loc)
        return
    data = base.args[1][0] if base.args[1] else dict(base.args[2]).get("data")
    data = plain(data) if data is not None else None
    src = sorted({x.args[1] for x in subterms(data) if x.op == "attr" and x.args[1] in TABLES}) if data is not None else []
    want = {"values": "pixel_values", "errors": "pixel_errors", "arrays": "pixel_arrays"}[name]
    ctx.judge(key + ":source", True if src == [want] else (False if src else None), "the stored rows", "table %s is made of %s" % (name, src), e.loc, p.cond_str())
    names = [o[0] for o in ops]
    def first(o):
        return o[1][0] if o[1] else o[2].get("keys", o[2].get("by"))
    idx = [i for i, o in enumerate(ops) if o[0] == "set_index" and first(o) is const("pixel")]
    ctx.judge(key + ":index", True if idx else (False if all(n in ("sort_index", "sort_values", "set_index", "copy", "reset_index") for n in names) else None), "indexed by pixel", "the table is not indexed by its pixel column (%s)" % names, e.loc, p.cond_str())
    presorted = any(x.op == "call" and x.args[0] == "sorted" for x in subterms(data)) if data is not None else False
    by_range = data is not None and data.op == "comp" and data.args[0].op == "range"
    srt = [i for i, o in enumerate(ops) if o[0] == "sort_index" and idx and i > idx[0] and not (o[2].get("ascending") is const(False)) or o[0] == "sort_values" and first(o) is const("pixel") and not (o[2].get("ascending") is const(False))]
    reset = [i for i, n in enumerate(names) if n == "reset_index"]
    ok = bool(srt) or presorted or by_range
    known = all(n in ("sort_index", "sort_values", "set_index", "copy", "reset_index") for n in names) and data is not None and data.op == "values"
    ctx.judge(key + ":order", True if ok else (False if known else None), "in pixel order", "rows are in the order in which the pixels were finished (%s)" % names, e.loc, p.cond_str())


def charges(ctx, ap, ev):
    """the charges passed are (events, pixels) of each file"""
    arg = next((plain(a) for a in ap.args if isinstance(a, Term) and plain(a).op == "star"), None)
    c = arg.args[0] if arg is not None else None
    if c is None or c.op != "comp" or len(c.args[2]) != 1 or len(c.args[2][0][1]) != 1:
        ctx.und("tables:charges", "charges are %s" % (show(arg)[:200] if arg is not None else "?"), ap.loc)
        return
    t = plain(c.args[2][0][1][0][1])
    if t.op != "call" or t.args[0] != "numpy.reshape":
        ctx.und("tables:charges", "charges are %s" % show(t)[:200], ap.loc)
        return
    kw = dict(t.args[2])
    shp = plain(kw["newshape"]) if "newshape" in kw else None
    col = [x for x in subterms(kw.get("a", t)) if x.op == "meth" and x.args[1] == "select_column"]
    if shp is None or shp.op != "tuple" or len(shp.args[0]) != 2 or len(set(col)) != 1:
        ctx.und("tables:charges", "charges are %s" % show(t)[:200], ap.loc)
        return
    rd = col[0].args[0]
    a, b = shp.args[0]
    good = (a is attr(rd, "n_events") or a is const(-1)) and b is attr(rd, "n_pixels") or a is attr(rd, "n_events") and b is const(-1)
    order = [v for k, v in kw.items() if k == "order"]
    swap = a is attr(rd, "n_pixels") or b is attr(rd, "n_events")
    ctx.judge("tables:charges", True if good and not order else (False if swap else None), "rows are events and columns pixels", "charges are reshaped to %s" % show(shp)[:200], ap.loc)
