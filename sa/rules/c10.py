"""Indexing: every path of the integer branch of WaveformReader.__getitem__ that reads an event
must carry branch facts that imply 0 <= position < n_events (difference-bound reasoning on the
path's own comparisons), with position = i, or i + n_events exactly when i < 0; every IndexError
must carry facts implying that i is outside [-n_events, n_events).  Slices, lists and iteration
must map each index of slice.indices(n_events) / of the list / of range(n_events), unfiltered and
in order, to the single-index result.  Readers' n_events must be the file's, or the maximum on
exactly the paths where that is requested and smaller."""
from .util import *


def is_int_path(p):
    for c, pol in p.conds:
        if c.op == "call" and c.args[0] == "isinstance":
            pass
    return None


def kind_of(p, arg):
    """which isinstance branch a path is on"""
    for c, pol in p.conds:
        if pol and c.op == "isinstance" and c.args[0] is arg:
            names = [x.split(".")[-1] for x in c.args[1]] if isinstance(c.args[1], tuple) else []
            if names:
                return names
    return []


def comparisons_only(p, arg, N):
    """the facts of the path about arg are comparisons over {arg, N, constants} only"""
    for c, pol in p.conds:
        if not mentions(c, arg):
            continue
        if c.op == "isinstance":
            continue
        if c.op in ("lt", "le", "eq"):
            for x in subterms(c):
                if x.op not in ("lt", "le", "eq", "poly", "const") and x is not arg and x is not N \
                        and not (x is SELF):
                    return False
            continue
        return False
    return True


def run(ctx):
    P = ctx.P
    base = P.cls(IO + "WaveformReader")
    readers = [c for c in P.subclasses(base)]
    N = attr(SELF, "n_events")
    d, f = base.lookup("__getitem__")
    if f is None:
        raise AnchorError("WaveformReader.__getitem__")
    targets = [("WaveformReader", base)] + [(c.name, c) for c in readers
                                            if c.lookup("__getitem__")[1] is not f]
    for cname, cls in targets:
        d, g = cls.lookup("__getitem__")
        arg = param(g.node.args.args[1].arg)
        ge = cls.lookup("_get_event")[1]
        opaque = {g.qual} | ({ge.qual} if isinstance(ge, Func) else set())
        for c in base.mro + list(readers):
            if isinstance(c, Class) and isinstance(c.members.get("n_events"), Func):
                opaque.add(c.members["n_events"].qual)
        with ctx.section(cname + ".__getitem__"):
            I = ctx.interp(opaque=opaque)
            paths = ctx.run(g, I, cls=cls)
            nok = 0

            def norm(t):
                t = plain(t)
                return rewrite(t, lambda x: N if x.op == "call" and x.args[0].endswith(".n_events") else None)

            for p in paths:
                kinds = kind_of(p, arg)
                anyint = "int" in kinds or any(k in ("integer", "Integral") for k in kinds)
                where = g.loc(p.node) if p.node is not None and p.fn is None else g.loc()
                if p.kind == "raise":
                    t = exc_type(p)
                    if t in ("IndexError", "KeyError", "ValueError") and (anyint or not kinds):
                        if not anyint:
                            continue
                        out = I.decide(p.st, mk("lt", arg, neg(N))) is True or \
                            I.decide(p.st, mk("le", N, arg)) is True
                        if t != "IndexError":
                            ctx.bad(cname + ":out-of-range", "an index out of range raises %s" % t, where, p.cond_str())
                        elif out:
                            ctx.ok(cname + ":out-of-range", "IndexError only outside [-N, N): %s" % p.cond_str(), where)
                        else:
                            ctx.judge(cname + ":out-of-range", False if comparisons_only(p, arg, N) else None,
                                      "", "IndexError for an index that may be valid, when %s" % p.cond_str(), where)
                    continue
                if anyint:
                    reads = [e for e, _ in flat_events(p.events) if e.kind in ("call", "meth")
                             and str(e.name).split(".")[-1] == "_get_event"]
                    if not reads and not mentions(plain(p.value), arg) and plain(p.value).op in ("attr", "const", "item") and not any(
                            c.op == "eq" and mentions(c, arg) for c, pol in p.conds):
                        ctx.bad(cname + ":int-read", "returns %s whatever the index" % show(p.value)[:200], where, p.cond_str())
                        continue
                    if len(reads) != 1:
                        ctx.judge(cname + ":int-read", None if not reads else False, "one event read",
                                  "%d events read for one index" % len(reads), where, p.cond_str())
                        continue
                    e = reads[0]
                    pos = [v for k, v in e.kwargs if k != "self"] + [a for a in e.args if a is not SELF]
                    if len(pos) != 1:
                        ctx.und(cname + ":int-read", "event read as %s" % e, e.loc)
                        continue
                    i = norm(pos[0])
                    if norm(p.value) is not norm(e.value):
                        ctx.judge(cname + ":int-value", match(norm(p.value), [norm(e.value)]), "returns the event",
                                  "returns %s" % show(p.value)[:200], where)
                    negp = I.decide(p.st, mk("lt", arg, const(0)))
                    spec = add(arg, N) if negp is True else arg
                    if negp is None and i not in (arg,):
                        # modulo etc.
                        ctx.judge(cname + ":position", match(i, [arg]) if comparisons_only(p, arg, N) else None,
                                  "", "index i reads position %s when %s" % (show(i), p.cond_str()), e.loc)
                    else:
                        ctx.judge(cname + ":position", match(i, [spec]), "i -> %s when %s" % (show(i), p.cond_str()),
                                  "index i reads position %s instead of %s when %s" % (show(i), show(spec), p.cond_str()),
                                  e.loc)
                    if i in (arg, add(arg, N)):
                        lo = I.decide(p.st, mk("le", const(0), i))
                        hi = I.decide(p.st, mk("lt", i, N))
                        for nm, v, txt in (("low", lo, "0 <= position"), ("high", hi, "position < n_events")):
                            if v is True:
                                ctx.ok(cname + ":bound-" + nm, "%s implied by %s" % (txt, p.cond_str()), where)
                            else:
                                ctx.judge(cname + ":bound-" + nm, False if comparisons_only(p, arg, N) else None, "",
                                          "%s is not ensured when %s" % (txt, p.cond_str()), where)
                        nok += 1
                elif "slice" in kinds or "list" in kinds:
                    it = None
                    k = "slice" if "slice" in kinds else "list"
                    v = norm(p.value)
                    comp = next((x for x in subterms(v) if x.op == "comp"), None)
                    for e, loops in flat_events(p.events):
                        if e.kind == "handler" and loops:
                            ctx.bad(cname + ":" + k + "-all", "an index whose event cannot be read is left out (%s)" % (e.name or "any error"), e.loc)
                    if comp is None:
                        ctx.und(cname + ":" + k, "result is %s" % show(v)[:200], where)
                        continue
                    it = comp.args[0]
                    if k == "slice":
                        ind = mk("meth", arg, "indices", (N,), ())
                        specs = [mk("range", mk("star", ind)), rng(item(ind, const(0)), item(ind, const(1)), item(ind, const(2)))]
                        specs += [call("range", mk("star", ind)), call("list", mk("range", mk("star", ind))),
                                  item(rng(N), arg)]
                        ok = any(show(it) == show(norm(s)) for s in specs)
                        ctx.judge(cname + ":slice-range", True if ok else match(it, [norm(s) for s in specs]),
                                  "indices from slice.indices(n_events)", "slice covers %s" % show(it)[:200], where)
                    else:
                        ctx.judge(cname + ":list-range", match(it, [arg], {("call", x) for x in ("dict.fromkeys", "set", "numpy.unique", "sorted", "reversed", "list", "frozenset")} | {
                                ("meth", "fromkeys"), ("op", "set"), ("op", "sorted"), ("op", "ext"), ("op", "builtin")}), "indices of the list in order",
                                  "list access covers %s" % show(it)[:200], where)
                    alts = comp.args[2]
                    el = elem(it, comp.args[1])
                    good = len(alts) == 1
                    if good:
                        its = alts[0][1]
                        t = its[0][1] if len(its) == 1 else None
                        good = t is not None and any(
                            x.op == "call" and x.args[0].endswith("__getitem__") and el in [v for _, v in x.args[2]] + list(x.args[1])
                            or x.op == "item" and x.args[0] is SELF and x.args[1] is el for x in subterms(t))
                        filt = alts[0][0] != ((),)
                        raw = t is not None and t.op in ("call", "meth") and str(t.args[0] if t.op == "call" else t.args[1]).split(".")[-1] == "_get_event"
                        if k == "list" and raw and not filt and t is not None and el in [v for _, v in (t.args[2] if t.op == "call" else ())] + list(t.args[1] if t.op == "call" else t.args[2]):
                            ctx.bad(cname + ":list-item", "the indices of a list are neither checked nor counted from the end: %s" % show(t)[:200], where)
                    else:
                        filt = True
                    if filt and len(alts) == 1:
                        ctx.bad(cname + ":" + k + "-all", "indices are filtered: %s" % show(comp)[:300], where)
                    else:
                        ctx.judge(cname + ":" + k + "-item", True if good else None, "each index gives the single-index result",
                                  "element is %s" % show(comp)[:300], where)
            if nok == 0:
                ctx.und(cname + ":int", "no integer path resolved", g.loc())
    # ---- plain iteration, in the base and every override
    for c in [base] + readers:
        it = c.members.get("__iter__")
        if not isinstance(it, Func):
            continue
        with ctx.section(c.name + ".__iter__"):
            ge = c.lookup("_get_event")[1]
            opaque = {ge.qual} if isinstance(ge, Func) else set()
            for n in ("_build_waveform",):
                m = c.lookup(n)[1]
                if isinstance(m, Func):
                    opaque.add(m.qual)
            I = ctx.interp(opaque=opaque)
            for p in returns(ctx.run(it, I, cls=c)):
                ys = [(e, l) for e, l in flat_events(p.events) if e.kind in ("yield", "yieldfrom")]
                if not ys:
                    ctx.und(c.name + ":iter", "no yield on a path: %s" % p.cond_str(), it.loc())
                for e, loops in ys:
                    if len(loops) != 1:
                        ctx.und(c.name + ":iter", "yield in %d loops" % len(loops), e.loc)
                        continue
                    l, bp = loops[0]
                    src = plain(l.base)
                    if src.op == "range" or any(x.op == "range" for x in subterms(src)):
                        ctx.judge(c.name + ":iter-range", match(src, [rng(N)]), "iterates range(n_events)",
                                  "iterates %s" % show(src), l.loc)
                        el = elem(src)
                    else:
                        sk = attr(SELF, "seeker")
                        ctx.judge(c.name + ":iter-range", match(src, [sk]) if src.op != "item" else False,
                                  "iterates the event source", "iterates %s" % show(src), l.loc)
                        el = elem(src)
                    ctx.judge(c.name + ":iter-item", True if mentions(plain(e.value), el) else (
                        False if known_vocab(plain(e.value), [], {("param", "self")} | vocab(src) | {("call", q) for q in opaque}) else None),
                        "yields the event of the index", "yields %s" % show(e.value)[:200], e.loc)
                    for q in l.paths:
                        if q.exit in ("break", "return") or not any(x.kind == "yield" for x in q.events):
                            ctx.bad(c.name + ":iter-all", "an event is left out when %s" % conds_str(q.conds), l.loc)
    # ---- the length is the number of events
    for c in [base] + readers:
        ln = c.members.get("__len__")
        if isinstance(ln, Func):
            with ctx.section(c.name + ".__len__"):
                opq = {x.members["n_events"].qual for x in [base] + readers if isinstance(x.members.get("n_events"), Func)}
                for p in returns(ctx.run(ln, ctx.interp(opaque=opq), cls=c)):
                    v = rewrite(plain(p.value), lambda x: N if x.op == "call" and x.args[0].endswith(".n_events") else None)
                    ctx.judge(c.name + ".__len__", match(v, [N], {("attr", "max_events"), ("attr", "n_events"), ("attr", "_n_events")}), "the number of events",
                              "the length is %s" % show(v)[:200], ln.loc(), p.cond_str())
    # ---- the number of events
    for c in readers:
        ne = c.members.get("n_events")
        if not isinstance(ne, Func):
            continue
        with ctx.section(c.name + ".n_events"):
            I = ctx.interp()
            mx = param("max_events")
            init = c.lookup("__init__")[1]
            for st, ref in I.build(c, [param("path"), mx]):
                for p in returns(ctx.count(I.run(ne, cls=c, st=st, self_v=ref))):
                    v = plain(p.value)
                    fN = None
                    for e, _ in flat_events(p.events):
                        if e.kind == "getattr" and e.name == "fNEvents":
                            fN = attr(e.base, "fNEvents")
                    if fN is None:
                        ln = v.args[0] if v.op == "len" else None
                        src = [e for e, _ in flat_events(p.events) if e.kind == "call" and str(e.name).endswith("EventSource")]
                        if ln is not None and src:
                            got = any(k == "max_events" and x is mx for k, x in src[0].kwargs)
                            inside = any(x.op == "call" and x.args[0].endswith("EventSource") for x in subterms(ln))
                            ctx.judge(c.name + ":n_events", (got and inside) or False if inside else None,
                                      "length of the event source opened with max_events",
                                      "the event source is not limited to max_events", src[0].loc)
                        else:
                            ctx.und(c.name + ":n_events", "n_events is %s" % show(v)[:200], ne.loc())
                        continue
                    fN = plain(fN)
                    less = I.decide(p.st, mk("lt", mx, fN))
                    req = p.st.facts.get(mk("truth", mx))
                    none = p.st.facts.get(mk("is", mx, NONE))
                    le = I.decide(p.st, mk("le", mx, fN))
                    if v is mx:
                        ctx.judge(c.name + ":n_events", True if (less or le) else False, "the maximum where it is smaller",
                                  "n_events is the requested maximum although it may exceed the file's number, when %s"
                                  % p.cond_str()[-300:], init.loc())
                    elif v is fN:
                        lim = req is False or none is True or less is False or le is False
                        ctx.judge(c.name + ":n_events", True if lim else False, "the file's number otherwise",
                                  "n_events ignores a smaller requested maximum when %s" % p.cond_str()[-300:], init.loc())
                    elif v.op == "call" and v.args[0] in ("min", "numpy.minimum"):
                        xs = set(v.args[1])
                        ctx.judge(c.name + ":n_events", True if xs == {mx, fN} else (
                            False if known_vocab(v, [mx, fN]) else None), "min(max_events, file's number)",
                            "n_events is %s" % show(v)[:200], init.loc())
                    else:
                        ctx.judge(c.name + ":n_events", match(v, [mx, fN]), "", "n_events is %s" % show(v)[:200], init.loc())
