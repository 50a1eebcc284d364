"""State that the event phase of a reducer (preparation, columns, post-processing) writes -
instance attributes, elements of arrays or dictionaries held by them, class or module variables -
is replaced by an unknown left-over value before the event; no column's value on any path may
depend on such a left-over unless it was completely overwritten first.  Cached functions whose
value depends on the event and random number generators are left-over state too."""
from .util import *
from .alias import Writes, roots
from ..terms import elem
from . import reducers as R
from .reducers import fresh

WF = param("waveforms")


def stale(x):
    return param("left-over of ." + x)


def overwritten(m, events):
    """the left-over array is completely overwritten on the path"""
    for e, _ in flat_events(events):
        if e.kind == "setitem" and e.base is m and e.args:
            i = e.args[0]
            if i.op == "slice" and all(a is NONE for a in i.args):
                return True
            if is_const(i) and cval(i) is Ellipsis:
                return True
        if e.kind == "mut" and e.base is m and e.name in ("out=", "numpy.copyto", "fill", "clear"):
            return True
    return False


EMPTY = ("numpy.empty", "numpy.empty_like", "numpy.ndarray")


def uninitialised(v, events):
    """arrays in the value whose memory is only partly written: [what]"""
    out = []
    new = {x for x in subterms(v) if x.op == "newarr" and x.args[0].op == "call" and x.args[0].args[0] in EMPTY}
    for a in new:
        writes = loops = 0
        for e, inner in flat_events(events):
            if e.kind in ("setitem", "mut", "inplace", "call", "callv", "meth") and (e.base is a or e.raw is a or a in e.args or any(x is a for _, x in e.kwargs)):
                writes += 1
            if e.kind != "loop":
                continue
            ends = [bp for bp in e.paths if bp.exit in ("fall", "continue")]
            wrote = [any(w.kind == "setitem" and (w.base is a or w.raw is a) and w.args and mentions(w.args[0], elem(e.base, 0)) for w in bp.events) for bp in ends]
            if any(wrote) and not all(wrote) and not inner and not any(w.kind == "setitem" and (w.base is a or w.raw is a) for w, i2 in flat_events(events) if not i2):
                bp = ends[wrote.index(False)]
                out.append("elements of %s are not written when %s" % (show(a.args[0])[:60], " and ".join(("" if pol else "not ") + show(c)[-80:] for c, pol in bp.conds)[:200]))
        if not writes:
            out.append("%s is never written" % show(a.args[0])[:80])
    return out


def held(h, base):
    return [a for a, v in h.attrs.items() if isinstance(v, Term) and v is base and v.op in ("ref", "newarr")]


def run(ctx):
    P = ctx.P
    W = Writes(ctx)
    ctx.assumptions = ["external integrator objects (ctapipe) keep no state between events"]
    base, classes = R.classes(ctx)
    if len(classes) < 5:
        raise AnchorError("reducer classes")
    for c in classes:
        with ctx.section(c.name):
            I = ctx.interp()
            built = R.build(ctx, c, I)
            written, glob = {}, {}
            first = []

            def scan(events, ref, h, what):
                for e, _ in flat_events(events):
                    if e.kind == "setattr" and e.raw is ref:
                        written.setdefault(e.name, e.loc)
                    elif e.kind == "setattr" and isinstance(e.base, Term) and e.base.op == "class":
                        glob.setdefault(e.name, e)
                    elif e.kind == "setglobal":
                        glob.setdefault(str(e.name), e)
                for e, t, how in W.of(events):
                    if not isinstance(t, Term):
                        continue
                    for b in {t, e.raw} | roots(t, deep=True):
                        for a in held(h, b):
                            written.setdefault(a, e.loc)
                    for x in subterms(t):
                        if x.op in ("global", "classattr"):
                            glob.setdefault(str(x.args[-1]), e)

            runs = []
            for n, f, p, ref in R.phases(ctx, c, I, WF):
                runs.append((n, p, ref))
            for n, p, r2 in runs:
                scan(p.events, r2, p.st.heap[r2], n)
            # module-level or class-level objects written through an attribute
            for n, p, ref in runs:
                for e, _ in flat_events(p.events):
                    if e.kind not in ("mut", "setitem", "inplace"):
                        continue
                    if e.tag and str(e.tag).startswith(("default:", "global:", "class:")):
                        glob.setdefault(str(e.tag), e)
                    for k, v in p.st.globals.items():
                        if v is e.raw and isinstance(v, Term) and v.op == "newarr":
                            glob.setdefault(str(k[1]) if isinstance(k[1], str) else "array", e)
            # ---- second round: everything written starts as an unknown left-over
            marked = []
            for st, ref in built:
                s = fresh(st)
                h = s.heap[ref].copy()
                h.attrs = dict(h.attrs)
                for a in written:
                    h.attrs[a] = stale(a)
                s.heap[ref] = h
                marked.append((s, ref))
            marks = {stale(a): a for a in written}
            cols = R.all_columns(ctx, c)
            prep = c.lookup("_prepare")[1]
            nval = {}
            taken = {}
            for s, ref in marked:
                for p in ctx.count(I.run(prep, cls=c, st=fresh(s), self_v=ref, args={R.arg1(prep): WF})):
                    if p.kind != "return":
                        continue
                    for n, f in cols.items():
                        for q in ctx.count(I.run(f, cls=c, st=fresh(p.st), self_v=ref)):
                            key = "%s.%s" % (c.name, n)
                            nval[key] = nval.get(key, 0) + 1
                            if q.kind != "return":
                                v = None
                            else:
                                v = I.freeze(q.st, q.value)
                            evs = list(p.events) + list(q.events)
                            for m, a in marks.items():
                                if v is not None and mentions(v, m):
                                    if overwritten(m, evs):
                                        continue
                                    ctx.bad(key, "the value depends on .%s left over from an earlier event: %s" % (a, show(v)[:200]),
                                            f.loc(), q.cond_str())
                                elif any(mentions(x, m) for x, _ in q.conds) and not overwritten(m, evs):
                                    rest = frozenset((x, pol) for x, pol in q.conds if not any(mentions(x, z) for z in marks))
                                    taken.setdefault((key, a), []).append((rest, plain(v) if v is not None else None, f))
                            for what in uninitialised(v, evs) if v is not None else ():
                                ctx.bad(key, "the value is left-over memory: " + what, f.loc(), q.cond_str()[:200])
                            if v is not None and contains(v, lambda x: x.op == "call" and x.args[0].startswith(
                                    ("numpy.random.", "random.", "time."))):
                                ctx.bad(key, "the value depends on a generator: %s" % show(v)[:200], f.loc())
                            for e, _ in flat_events(evs):
                                if e.kind == "fnret" and e.name in P.funcs and P.funcs[e.name].deco(
                                        "lru_cache", "cache", "cached_property"):
                                    fv = I.freeze(q.st, e.value) if isinstance(e.value, Term) else None
                                    if fv is not None and mentions(fv, WF):
                                        ctx.bad(key, "%s is cached although it depends on the event" % e.name,
                                                P.funcs[e.name].loc())
            for (key, a), rows in taken.items():
                values = {}
                for rest, v, f in rows:
                    values.setdefault(rest, set()).add(v)
                differ = [vs for vs in values.values() if len(vs) > 1]
                if differ:
                    known = all(v is None or not any(x.op in UNKNOWN_OPS for x in subterms(v)) for vs in differ for v in vs)
                    ctx.judge(key + ":path", False if known else None, "", "the value depends, through a condition, on .%s left over from an earlier event" % a, f.loc())
                elif any(len(vs) == 1 for vs in values.values()) and len(values) > 1:
                    ctx.und(key + ":path", "the path depends on .%s of an earlier event" % a, f.loc())
            for key, n in nval.items():
                ctx.ok(key, "the value depends on the event and the construction arguments only (%d paths)" % n)
            if not nval:
                ctx.und(c.name, "no column analysed")
            # ---- class and module variables
            names = set()
            for k in c.mro:
                if isinstance(k, Class):
                    for m in k.members.values():
                        if isinstance(m, Func):
                            names |= {getattr(x, "id", None) or getattr(x, "attr", None) for x in walk_own(m.node)
                                      if type(x).__name__ in ("Name", "Attribute") and type(x.ctx).__name__ == "Load"}
            for g, e in glob.items():
                short = g.split(".")[-1].split(":")[-1].split("(")[-1].rstrip(")")
                ctx.judge("%s:shared:%s" % (c.name, short), False if short in names else True,
                          "written only", "event processing writes the shared variable %s that it also reads" % g, e.loc)
            if not glob:
                ctx.ok(c.name + ":shared", "the event phase writes no class, module or default-argument state")
    protocol(ctx, base)
    ch = P.cls("CHECLabPy.core.chain.WaveformReducerChain")
    with ctx.section("chain"):
        f = ch.lookup("process")[1]
        ps = returns(ctx.run(f, cls=ch))
        w = {e.name for p in ps for e, _ in flat_events(p.events) if e.kind == "setattr" and plain(e.base) is SELF}
        for p in ps:
            dep = [a for a in w if mentions(plain(p.value), attr(SELF, a))]
            ctx.judge("WaveformReducerChain.process", not dep, "the chain keeps no state between events",
                      "the chain's result depends on .%s of an earlier event" % ",".join(dep), f.loc())


def protocol(ctx, base):
    """every event is prepared, whatever was processed before, and the result holds nothing kept from before"""
    for c in [base] + list(ctx.P.subclasses(base)):
        f = c.members.get("process")
        if not isinstance(f, Func):
            continue
        with ctx.section(c.name + ".process"):
            wf = param(R.arg1(f))
            prep = {"%s._prepare" % k.qual for k in [base] + list(ctx.P.subclasses(base))}
            I = ctx.interp()
            ps = [p for p in ctx.run(f, I, cls=c) if p.kind == "return" and not (p.value is not None and plain(p.value).op == "dictv" and not plain(p.value).args[0])]
            done = []
            written = set()
            for p in ps:
                n = False
                for e, _ in flat_events(p.events):
                    if e.kind in ("fn", "call", "meth") and str(e.name).split(".")[-1] == "_prepare" and wf in [v for _, v in e.kwargs] + list(e.args):
                        n = True
                    if e.kind == "setattr" and isinstance(e.base, Term) and plain(e.base) is SELF:
                        written.add(e.name)
                    if e.kind in ("mut", "setitem", "inplace"):
                        for r in roots(e.base if isinstance(e.base, Term) else NONE, True):
                            if r.op == "attr" and plain(r.args[0]) is SELF:
                                written.add(r.args[1])
                done.append(n)
            if any(done) and not all(done):
                p = ps[done.index(False)]
                ctx.bad(c.name + ".process:prepared", "an event is not prepared when %s" % p.cond_str()[:200], f.loc())
            else:
                ctx.judge(c.name + ".process:prepared", True if all(done) and done else None, "every event is prepared", "no preparation found", f.loc())
            for p in ps:
                v = p.value
                keep = sorted(a for a in written if v is not None and contains(v, lambda x: x is attr(SELF, a) or x.op == "call" and x.args[0] == "getattr" and len(x.args[1]) > 1 and x.args[1][0] is SELF and x.args[1][1] is const(a)))
                ctx.judge(c.name + ".process:result", not keep, "the result is made from this event only", "the result holds what .%s kept from earlier events: %s" % (", .".join(keep), show(v)[:200]), f.loc(), p.cond_str()[:200])
