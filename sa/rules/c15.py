"""DL1 event access: every read of the event table made by the event accessors is resolved to
its normalised start/stop row terms, which must be i*P and (i+1)*P for an event index i that
is a generic index of range(n_events) (plain iteration), or a position at which the event
lookup equals (is contained in) the requested number(s).  The lookup itself must be the
first 'iev' entry of every block of P rows."""
import ast
from .util import *


def mentions_self(e):
    """an event that may set an attribute of the reader without this rule seeing it"""
    return any(isinstance(x, Term) and plain(x) is SELF for x in list(e.args or ()))


def lookup_ok(t, NE, NP):
    """verdict on the event lookup term"""
    t = plain(t)
    col = None
    for x in subterms(t):
        if x.op == "meth" and x.args[1] == "select_column":
            col = x
    if col is None:
        return None
    args = list(col.args[2]) + [v for k, v in col.args[3]]
    if const("iev") not in args or const("data") not in args:
        return False
    vals = attr(col, "values")
    shaped = [call("numpy.reshape", a=vals, newshape=s)
              for s in (tup(NE, NP), tup(const(-1), NP), tup(NE, const(-1)))]
    full = mk("slice", NONE, NONE, NONE)
    specs = [item(s, tup(full, const(0))) for s in shaped]
    specs += [item(vals, mk("slice", a, NONE, NP)) for a in (NONE, const(0))]
    specs += [item(call("numpy.transpose", a=s), const(0)) for s in shaped]
    if t in specs:
        return True
    reorder = [x for x in subterms(t) if x.op == "call" and x.args[0] in REORDER or x.op == "meth" and x.args[1] in (
        "unique", "drop_duplicates", "sort_values", "sort")]
    return False if reorder else match(t, specs)


REORDER = {"numpy.sort", "numpy.unique", "numpy.flip", "numpy.roll", "numpy.argsort", "numpy.flipud", "sorted", "set", "reversed"}


def run(ctx):
    P = ctx.P
    cls = P.cls(IO + "DL1Reader")
    NP, NE = value_of(ctx, cls, "n_pixels"), value_of(ctx, cls, "n_events")
    # ---- the event lookup
    looks = set()
    with ctx.section("lookup"):
        d, f = cls.lookup("event_lookup")
        if f is None:
            ctx.und("lookup", "no event_lookup property")
        else:
            for p in ctx.run(f, cls=cls):
                for e, _ in flat_events(p.events):
                    b = plain(e.base) if isinstance(e.base, Term) else None
                    if e.kind == "setglobal" or e.kind == "setattr" and b is not None and b.op == "class":
                        if e.value is not NONE and mentions(plain(e.value), SELF):
                            ctx.bad("lookup:own", "the lookup of one file is kept in %s, which every reader shares" % (
                                e.name if b is None else show(b) + "." + e.name), e.loc, p.cond_str()[:200])
            for p in returns(ctx.run(f, cls=cls)):
                v = plain(p.value)
                looks.add(v)
                if v is NONE and not any(e.kind == "setattr" and e.value is not NONE for e, _ in flat_events(p.events)):
                    ctx.bad("lookup:built", "the lookup is never built when %s" % p.cond_str()[:200], f.loc())
                if v.op == "attr" and v.args[0] is SELF:
                    # cached value: on a path where it is known to be unset it must have been stored
                    unset = [a for a, pol in p.conds if pol and plain(a).op == "is" and NONE in plain(a).args and v in [plain(x) for x in plain(a).args]] + \
                        [a for a, pol in p.conds if not pol and plain(a) in (v, mk("truth", v), mk("call", "hasattr", (SELF, const(v.args[1])), ()))]
                    if unset and not any(e.kind == "call" for e, _ in flat_events(p.events) if mentions_self(e)):
                        ctx.bad("lookup:built", "the lookup is never built when %s" % p.cond_str()[:200], f.loc())
                    continue
                ctx.judge("lookup:first-row-of-block", lookup_ok(v, NE, NP),
                          "lookup = %s" % show(v)[:300], "event lookup is not the event number of each block of "
                          "n_pixels rows: %s" % show(v)[:400], f.loc(), p.cond_str())
            # stores into the cache
            stored = False
            cached = {v.args[1] for v in looks if v.op == "attr" and v.args[0] is SELF}
            for name in sorted({n for c in cls.mro if isinstance(c, Class) for n in c.members}):
                dd, m = cls.lookup(name)
                if not isinstance(m, Func):
                    continue
                if not any(isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and n.attr in cached | {"_event_lookup"}
                           or isinstance(n, ast.Name) and n.id in ("setattr", "vars") or isinstance(n, ast.Attribute) and n.attr == "__dict__"
                           for n in walk_own(m.node)):
                    continue
                for p in ctx.run(m, cls=cls):
                    for e, _ in events_of(p, "setattr"):
                        stored = stored or e.value is not NONE and (e.name in cached or not isinstance(e.name, str))
                        if e.name in cached | {"_event_lookup"} and e.value is not NONE:
                            ctx.judge("lookup:cache", lookup_ok(e.value, NE, NP),
                                      "cached lookup = %s" % show(plain(e.value))[:200],
                                      "cached event lookup is %s" % show(plain(e.value))[:300], e.loc)

            if cached and not stored and looks and all(v.op == "attr" and v.args[0] is SELF for v in looks):
                ctx.judge("lookup:built", None if any(isinstance(n, ast.Name) and n.id in ("setattr", "vars") or isinstance(n, ast.Attribute) and n.attr == "__dict__"
                                                      for c in cls.mro if isinstance(c, Class) for n in ast.walk(c.node)) else False, "",
                          "the lookup is kept in %s, which nothing fills" % sorted(cached), f.loc())

    def is_look(t):
        t = plain(t)
        return t in looks or t == attr(SELF, "_event_lookup") or t == attr(SELF, "event_lookup") \
            or lookup_ok(t, NE, NP) is True

    def event_index(i, p, loops, kind, arg):
        """verdict: is i the index of a requested event"""
        i = plain(i)
        if kind == "all":
            if i.op == "elem":
                if i.args[0] == rng(NE):
                    return True
                if i.args[0].op == "range":
                    return False
            return False if i.op in ("const", "poly") else None
        conds = list(p.conds)
        for l, bp in loops:
            conds += list(bp.conds)
        mlook = [c for c, pol in conds if any(is_look(x) for x in subterms(plain(c))
                                              if x.op in ("item", "attr", "elem")) or
                 (c.op in ("in", "eq") and any(x.op == "elem" and is_look(x.args[0]) for x in subterms(plain(c))))]

        def position(x, depth=0):
            """is x 'first position where'/generic position where lookup <rel> arg"""
            for c in subterms(x):
                if c.op == "eq" and kind == "one":
                    a, b = c.args
                    if (is_look(a) and b is arg) or (is_look(b) and a is arg):
                        return c
                if c.op == "call" and c.args[0] in ("numpy.isin", "numpy.in1d") and kind == "list":
                    kw = dict(c.args[2])
                    if is_look(kw.get("element", NONE)) and plain(kw.get("test_elements", NONE)) is arg \
                            and len(kw) == 2:
                        return c
            return None
        c = position(i)
        z = const(0)
        if c is not None:
            wh = [item(call("numpy.where", condition=c), z), item(call("numpy.nonzero", a=c), z),
                  call("numpy.flatnonzero", a=c), item(mk("meth", c, "nonzero", (), ()), z)]
            if kind == "one":
                specs = [item(w, z) for w in wh]
                if i in specs:
                    return True
                if i == call("numpy.argmax", a=c):
                    return None if mlook else False
                return match(i, specs)
            specs = [elem(w) for w in wh]
            if i in specs:
                return True
            return match(i, specs)
        # loops over the lookup with a test
        if kind == "list":
            for cc, pol in conds:
                cc = plain(cc)
                if cc.op == "in" and pol and cc.args[1] is arg:
                    x = cc.args[0]
                    if x.op == "elem" and is_look(x.args[0]) and i.op == "elem":
                        return True
                    if x.op == "item" and is_look(x.args[0]) and x.args[1] is i:
                        return True
        if kind == "one":
            for cc, pol in conds:
                cc = plain(cc)
                if cc.op == "eq" and pol and arg in cc.args:
                    return None
        # positions selected by another relation than equality
        for x in subterms(i):
            if x.op in ("lt", "le") and kind == "one" and any(is_look(y) for y in x.args) and arg in x.args:
                return False
            if x.op == "not" and x.args[0].op == "eq" and any(is_look(y) for y in x.args[0].args):
                return False
            if x.op == "call" and x.args[0] == "numpy.searchsorted":
                return False
            if x.op == "call" and x.args[0] in ("numpy.isin", "numpy.in1d") and kind == "list":
                kw = dict(x.args[2])
                if is_look(kw.get("test_elements", NONE)) and plain(kw.get("element", NONE)) is arg and i.op == "elem":
                    return False        # positions in the list that was asked for, not in the file
        if mlook:
            return None
        if i.op in ("const", "poly") or i is arg or i.op == "param":
            return False if known_vocab(i, [], vocab_self(looks)) else None
        if i.op == "call" and i.args[0] in ("numpy.searchsorted", "int"):
            return False
        if i.op == "elem" and i.args[0] in (arg, rng(NE)):
            return False
        return None

    def vocab_self(looks):
        out = {("param", "self"), ("param", "iev"), ("param", "index"), ("param", "event_list")}
        for l in looks:
            out |= vocab(l)
        return out | vocab(NE) | vocab(NP)

    def reads(p):
        for e, loops in events_of(p, "meth"):
            if e.name in ("select", "read_where") and not (e.base is not None and e.base.op == "param"):
                kw = dict(e.kwargs)
                key = kw.get("key", e.args[0] if e.args else None)
                if key is not None and key != const("data"):
                    continue
                yield e, loops, kw

    def check(name, kind, argname=None):
        with ctx.section("%s" % name):
            d, f = cls.lookup(name)
            if f is None:
                raise AnchorError("DL1Reader.%s not found" % name)
            paths = ctx.run(f, cls=cls)
            n = 0
            arg = param(argname) if argname in [a.arg for a in f.node.args.args] else \
                (param(f.node.args.args[1].arg) if len(f.node.args.args) > 1 else None)
            for p in returns(paths):
                got = 0
                for e, loops, kw in reads(p):
                    start, stop = kw.get("start"), kw.get("stop")
                    if start is None and stop is None:
                        if "where" in kw or len(e.args) > 1:
                            ctx.und(name + ":rows", "read by condition: %s" % e, e.loc)
                        else:
                            ctx.bad(name + ":rows", "event read without row limits: %s" % e, e.loc)
                        got += 1
                        continue
                    if start is None or stop is None:
                        ctx.bad(name + ":rows", "event read with one row limit only: %s" % e, e.loc)
                        got += 1
                        continue
                    start, stop = plain(start), plain(stop)
                    got += 1
                    n += 1
                    diff = sub(stop, start)
                    ctx.judge(name + ":length", match(diff, [NP], vocab(start)),
                              "stop - start = n_pixels", "event spans %s rows instead of n_pixels: start=%s stop=%s"
                              % (show(diff), show(start), show(stop)), e.loc, p.cond_str())
                    i = div(start, NP)
                    if kind == "index":
                        ctx.judge(name + ":start", match(i, [arg]), "start = index * n_pixels",
                                  "event index %s starts at row %s" % (show(arg), show(start)), e.loc)
                    else:
                        ctx.judge(name + ":start", event_index(i, p, loops, kind, arg),
                                  "start = i * n_pixels with i = %s" % show(i)[:200],
                                  "first row %s is not n_pixels times the position of the requested event"
                                  % show(start)[:400], e.loc, p.cond_str()[:500])
                if kind in ("one", "index") and got == 0 and is_const(plain(p.value)):
                    ctx.bad(name + ":absent", "returns %s instead of the rows of an event, or an error, when %s" % (show(p.value), p.cond_str()[:200]), f.loc())
                elif kind in ("one", "index") and got != 1:
                    ctx.judge(name + ":reads", None if got == 0 else False, "one read",
                              "%d reads of the event table on one path" % got, f.loc())
                if kind in ("all", "list"):
                    ys = [(e, l) for e, l in events_of(p, "yield")]
                    if not ys and not any(e.kind == "yieldfrom" for e, _ in flat_events(p.events)) and not is_generator_value(p):
                        ctx.bad(name + ":yields", "no event is handed out when %s" % p.cond_str()[:200], f.loc())
                    for e, l in ys:
                        ok = e.value is not None and plain(e.value).op == "meth" and plain(e.value).args[1] == "select"
                        ctx.judge(name + ":yields", True if ok else None, "yields the rows read",
                                  "yields %s" % show(e.value)[:200] if e.value is not None else "yields nothing", e.loc)
                    for e, loops in flat_events(p.events):
                        if e.kind == "loop":
                            for bp in e.paths or ():
                                if bp.exit in ("break", "return"):
                                    ctx.bad(name + ":complete", "iteration stops early when %s" % conds_str(bp.conds), e.loc)
                                elif kind == "all" and any(x.kind == "yield" for q in e.paths for x in q.events) \
                                        and not any(x.kind == "yield" for x in bp.events):
                                    ctx.bad(name + ":complete", "an event is left out when %s" % conds_str(bp.conds), e.loc)
            if kind == "one":
                for p in raises(paths):
                    t = exc_type(p)
                    caught = any("raised" in show(c) for c, _ in p.conds)
                    if caught or t not in ("KeyError",):
                        ctx.judge(name + ":absent", True if t == "IndexError" else (False if t else None),
                                  "an event number that is not stored raises IndexError",
                                  "raises %s" % t, f.loc(p.node) if p.node is not None else f.loc(), p.cond_str())
            if n == 0:
                ctx.und(name + ":reads", "no read of the event table resolved", f.loc())

    check("select_event_index", "index", "index")
    check("iterate_over_events", "all")
    check("__getitem__", "one", "iev")
    check("iterate_over_selected_events", "list", "event_list")
    # rows are read one at a time, in order, from the same table
    with ctx.section("iterate_over_rows"):
        d, f = cls.lookup("iterate_over_rows")
        if f is not None:
            for p in returns(ctx.run(f, cls=cls)):
                outer = [e for e in p.events if e.kind in ("yield", "yieldfrom")] + [e for lp in p.events if lp.kind == "loop"
                        for bp in lp.paths for e, _ in flat_events(bp.events) if e.kind in ("yield", "yieldfrom")]
                if not outer and not is_generator_value(p):
                    ctx.bad("rows:yields", "no row is handed out when %s" % p.cond_str()[:200], f.loc())
                for e, loops in events_of(p, "meth"):
                    if e.name == "select":
                        kw = dict(e.kwargs)
                        cs = kw.get("chunksize")
                        if cs is None:
                            ctx.und("rows", "rows read by %s" % e, e.loc)
                        else:
                            ctx.judge("rows:single", match(cs, [const(1)]), "one row at a time",
                                      "rows are read in blocks of %s" % show(cs), e.loc)
                        lim = [k for k in ("start", "stop", "where") if k in kw and kw[k] is not NONE]
                        ctx.judge("rows:all", False if lim else True, "no row limit", "rows limited by %s" % lim, e.loc)

    with ctx.section("writer:columns"):
        queryable(ctx)
    with ctx.section("writer:order"):
        stored_order(ctx)


def queryable(ctx):
    """the columns events are looked up by can be queried: they are stored as data columns of the appended table"""
    from . import hdf5
    w = ctx.P.cls("CHECLabPy.scripts.extract_dl1.DL1Writer")
    S = hdf5.store_attr(ctx, w)
    d, f = w.lookup("finish")
    if S is None or not isinstance(f, Func):
        ctx.und("writer:columns", "the store of the writer was not found")
        return
    for p in returns(ctx.run(f, cls=w)):
        for q in [p] + [b for e, _ in flat_events(p.events) if e.kind == "loop" for b in e.paths]:
            for e, name, k, data, kw in hdf5.flushes(q.events, attr(SELF, S)):
                if name != "append" or not any(x.op == "call" and x.args[0] == "pandas.concat" or x.op == "item" for x in subterms(data)):
                    continue
                dc = kw.get("data_columns", NONE)
                if any(x.startswith("**") for x in kw):
                    ctx.und("writer:columns", "unknown arguments", e.loc)
                    continue
                names = items(dc)
                ok = dc is const(True) or names is not None and const("iev") in names
                ctx.judge("writer:columns", True if ok else (False if is_const(dc) or names is not None else None), "iev can be looked up in the stored table",
                          "the table is stored with data_columns=%s, so its column iev cannot be looked up" % show(dc), e.loc)


def stored_order(ctx):
    """the rows of one event are kept together, in pixel order, when blocks of rows are handed to the file"""
    w = ctx.P.cls("CHECLabPy.scripts.extract_dl1.DL1Writer")
    d, f = w.lookup("_prepare_before_append")
    if not isinstance(f, Func):
        raise AnchorError("DL1Writer._prepare_before_append")
    for p in returns(ctx.run(f, cls=w)):
        for e, _ in events_of(p, "meth"):
            if e.name not in ("sort_values", "sort_index"):
                continue
            if not any(x is e.value for x in subterms(plain(p.value))) and dict(e.kwargs).get("inplace") is not const(True):
                continue
            kw = dict(e.kwargs)
            by = plain(kw.get("by", e.args[0] if e.args else NONE))
            names = items(by)
            keys = [by.args[0]] if is_const(by) else [x.args[0] for x in names] if names is not None and all(is_const(x) for x in names) else None
            if e.name == "sort_index":
                continue
            if keys is None:
                ctx.und("writer:order", "rows sorted by %s" % show(by)[:200], e.loc)
                continue
            stable = plain(kw.get("kind", NONE)) in (const("stable"), const("mergesort"))
            asc = plain(kw.get("ascending", const(True)))
            ok = keys[:2] == ["iev", "pixel"] or keys == ["iev"] and stable
            up = asc is const(True) or items(asc) is not None and all(x is const(True) for x in items(asc))
            ctx.judge("writer:order", ok and (up or (None if not is_const(asc) and items(asc) is None else False)),
                      "rows are stored by event, then pixel", "rows are stored in the order of %s%s, not by event and pixel" % (
                          keys, "" if up else " (ascending=%s)" % show(asc)), e.loc, p.cond_str()[:200])


def is_generator_value(p):
    return isinstance(p.value, Term) and plain(p.value) is not NONE


def items(t):
    """the elements of a literal sequence"""
    if t.op == "tuple":
        return list(t.args[0])
    if t.op == "listv" and all(x[0] == "item" for x in t.args[0]):
        return [x[1] for x in t.args[0]]
    return None
