"""Enabled columns only: the selection of active columns, the per-event dictionary and the chain are compared, as
normal forms over all paths, with their specification; the chain may construct a reducer only under the fact that the
same settings give it at least one active column, and constructs it from those same settings; every reducer built from
settings (all constructor paths, inherited and own) must hold exactly the selection its settings define; no preparation,
post-processing or column of a reducer evaluates another column."""
from .util import *
from ..terms import length
from .refs import reference, same
from . import reducers as R

SPEC = '''
class A:
    @classmethod
    def get_active_columns(cls, _disable_by_default=False, **kwargs):
        default = not _disable_by_default
        return [c for c in cls.columns if kwargs.get(c, default)]

    def _get_dict(self):
        return {c: getattr(self, c) for c in self.active_columns}

    def chain_process(self, waveforms):
        return {k: v for f in self.chain for k, v in f(waveforms).items()}

    def chain_process2(self, waveforms):
        out = {}
        for f in self.chain:
            out.update(f(waveforms))
        return out
'''


def nothing(c, pol):
    """the condition says that there is no active column"""
    act = attr(SELF, "active_columns")
    if c.op == "truth":
        return not pol and plain(c.args[0]) in (act, length(act))
    if c.op == "eq":
        return pol and set(c.args[:2]) == {length(act), const(0)}
    if c.op in ("lt", "le"):
        n = (c.args[0], c.args[1])
        return (c.op == "lt" and n == (const(0), length(act)) and not pol) or (c.op == "lt" and n == (length(act), const(1)) and pol) or (c.op == "le" and n == (length(act), const(0)) and pol) \
            or (c.op == "le" and n == (const(1), length(act)) and not pol)
    return False


def run(ctx):
    P = ctx.P
    base, cls = R.classes(ctx)
    spec = reference(ctx, SPEC)["A"].members
    chain = P.cls("CHECLabPy.core.chain.WaveformReducerChain")
    # ---- selection
    own = {}
    for c in [base] + cls:
        for n in ("get_active_columns", "process", "_get_dict"):
            if isinstance(c.members.get(n), Func):
                own.setdefault(n, []).append((c, c.members[n]))
    if "get_active_columns" not in own or "process" not in own:
        raise AnchorError("WaveformReducer.get_active_columns/process")
    selection(ctx, spec, base, cls)
    with ctx.section("columns"):
        metaclass(ctx, base)
    # ---- the dictionary of one event, evaluated after preparation and from this event
    want = I_value(ctx, spec["_get_dict"], base)
    for c, f in own["process"]:
        with ctx.section(c.name + ".process"):
            wf = param(f.node.args.args[1].arg)
            I = ctx.interp()
            for p in returns(ctx.run(f, I, cls=c)):
                if plain(p.value).op == "dictv" and not plain(p.value).args[0] and any(nothing(x, pol) for x, pol in p.conds):
                    ctx.ok(c.name + ".process:value", "nothing is computed when no column is active", f.loc())
                    continue
                ctx.judge(c.name + ".process:value", match(p.value, [want], EX), "returns one entry per active column",
                          "returns %s" % show(plain(p.value))[:400], f.loc(), p.cond_str())
                order = []
                for e, loops in flat_events(p.events):
                    if e.kind in ("fn", "call", "meth") and (e.name or "").split(".")[-1] == "_prepare":
                        order.append("prepare")
                        vals = [v for k, v in e.kwargs] + list(e.args)
                        ctx.judge(c.name + ".process:event", True if wf in vals else False, "prepares the event given",
                                  "prepares %s instead of the event" % [show(v) for v in vals if v is not SELF], e.loc)
                    if e.kind == "getattr" and isinstance(e.name, Term) and e.name.op == "elem":
                        order.append("columns")
                ctx.judge(c.name + ".process:order", True if order and order[0] == "prepare" and "columns" in order and
                          order.count("prepare") == 1 else (None if "prepare" not in order else False),
                          "columns are evaluated after preparing", "order is %s" % order, f.loc(), p.cond_str())
    for c, f in own.get("_get_dict", []):
        with ctx.section(c.name + "._get_dict"):
            for p in returns(ctx.run(f, cls=c)):
                ctx.judge(c.name + "._get_dict", match(p.value, [want], EX), "one entry per active column",
                          "is %s" % show(plain(p.value))[:400], f.loc(), p.cond_str())
    # ---- the column descriptor evaluates its own function on the instance
    with ctx.section("column"):
        col = P.cls(R.RED + "column")
        d, f = col.lookup("__get__")
        if f is None:
            raise AnchorError("column.__get__")
        a = [param(x.arg) for x in f.node.args.args]
        n = 0
        for p in returns(ctx.run(f, cls=col)):
            if any(pol and c == mk("is", a[1], NONE) for c, pol in p.conds):
                continue
            n += 1
            v = plain(p.value)
            ok = v.op == "callv" and v.args[0] == attr(SELF, "func") and tuple(v.args[1]) == (a[1],) and not v.args[2] or \
                v.op == "meth" and v.args[:2] == (SELF, "func") and tuple(v.args[2]) == (a[1],) and not v.args[3]
            ctx.judge("column.__get__", True if ok else (False if v.op in ("const", "param", "attr") else None),
                      "a column is its function of the instance", "is %s" % show(v)[:200], f.loc(), p.cond_str())
    # ---- reducers hold the selection of their own settings
    for c in cls:
        if not (R.columns(ctx, c) or any(R.columns(ctx, k) for k in c.mro if isinstance(k, Class))):
            pass
        with ctx.section(c.name + ".active_columns"):
            I = ctx.interp()
            ga = c.lookup("get_active_columns")[1]
            for disable in (param("_disable_by_default"),):
                kw = [(n, param(n)) for n in R.kwnames(c)] + [("_disable_by_default", disable), ("**", R.KW)]
                res = I.build(c, [param("n_pixels"), param("n_samples")], kw)
                for st, ref in res:
                    h = st.heap.get(ref)
                    v = unrest(I.freeze(st, h.attrs["active_columns"])) if h is not None and "active_columns" in h.attrs else None
                    if v is None:
                        ctx.bad(c.name + ".active_columns", "a constructed %s has no selection of columns" % c.name, c.module.rel)
                        continue
                    cols = mk("attr", mk("class", c.qual), "columns") if False else None
                    refv = set()
                    for q in I.run(spec["get_active_columns"], cls=c, args={"kwargs": R.KW, "_disable_by_default": disable}):
                        refv.add(plain(q.value))
                    ctx.judge(c.name + ".active_columns",
                              match(expand_gets(v), [expand_gets(x) for x in refv]), "selection follows the settings given",
                              "selection is %s instead of %s" % (show(v)[:300], show(list(refv)[0])[:300]), c.module.rel)
    # ---- nothing evaluates a column that was not asked for
    names = {}
    for c in cls:
        for n in R.columns(ctx, c):
            names.setdefault(n, c)
    for c in cls:
        with ctx.section(c.name + ":evaluates"):
            I = ctx.interp()
            for name, fn, p, ref in R.phases(ctx, c, I):
                if name == "_post":          # diagnostics after the values were taken
                    continue
                used = set()
                mine = {n for k in c.mro if isinstance(k, Class) for n in R.columns(ctx, k)}
                for e, _ in flat_events(p.events):
                    if e.kind == "fn" and e.name:
                        o = P.funcs.get(e.name)
                        if o is not None and o.cls is not None and o.name in mine and o.name in R.columns(ctx, o.cls) and o is not fn:
                            used.add(o.name)
                    if e.kind == "getattr" and isinstance(e.name, Term) and plain(e.name).op == "elem" and e.raw is ref:
                        used.add(show(e.name))
                ctx.judge("%s.%s:evaluates" % (c.name, name), False if used else True, "evaluates no other column",
                          "evaluates the column(s) %s whether or not they are enabled" % sorted(used), fn.loc(), p.cond_str()[:300])
    # ---- the chain
    with ctx.section("chain"):
        built = chain_of(ctx, chain)
        if built is None:
            ctx.und("chain", "the list of processing steps was not found")
        for where, v, I in built or ():
            check_chain(ctx, where, v, base)
    with ctx.section("chain.process"):
        d, f = chain.lookup("process")
        if f is None:
            raise AnchorError("WaveformReducerChain.process")
        I = ctx.interp()
        refs = [plain(q.value) for n in ("chain_process", "chain_process2") for q in I.run(spec[n], cls=chain)]
        wfn = f.node.args.args[1].arg
        for p in returns(ctx.run(f, I, cls=chain)):
            v = rewrite(plain(p.value), lambda x: param("waveforms") if x is param(wfn) else None)
            ctx.judge("chain.process", match(v, refs), "all entries of all steps", "is %s" % show(v)[:400], f.loc(), p.cond_str())


EX = {("attr", "columns"), ("attr", "active_columns")}


def metaclass(ctx, base):
    """every column a class defines, and that no parent defines, is registered in its columns"""
    d, _ = base.lookup("columns")
    meta = None
    for k in base.node.keywords:
        if k.arg == "metaclass":
            q = ctx.P.dotted(base.module, k.value)
            meta = ctx.P.classes.get(q)
    if meta is None:
        ctx.und("columns", "no metaclass", base.module.rel)
        return
    d, f = meta.lookup("__new__")
    if not isinstance(f, Func):
        ctx.und("columns", "metaclass has no __new__", base.module.rel)
        return
    names = [a.arg for a in f.node.args.args]
    bases, dct = param(names[2]), param(names[3])
    for p in returns(ctx.run(f, cls=meta)):
        sets = [e for e, _ in events_of(p, "setitem") if e.args and plain(e.args[0]) is const("columns")]
        if not sets:
            ctx.und("columns", "columns of a class not found", f.loc())
            continue
        v = plain(sets[-1].value)
        if v.op != "comp" or v.args[0] not in (mk("items", dct), dct):
            ctx.und("columns", "columns are %s" % show(v)[:200], f.loc())
            continue
        it, depth, alts = v.args[:3]
        e = elem(it, depth)
        key, mem = (item(e, const(0)), item(e, const(1))) if it.op == "items" else (e, item(dct, e))
        n = 0
        for cubes, items in alts:
            if items != (("item", key),):
                ctx.judge("columns:name", None, "", "registers %s" % (items,), f.loc())
                continue
            for cube in cubes:
                n += 1
                own = [(a, pol) for a, pol in cube if not mentions(a, bases)]
                cls_fact = [pol for a, pol in own if a.op == "isinstance" and a.args[0] is mem]
                rest = [(a, pol) for a, pol in own if not (a.op == "isinstance" and a.args[0] is mem)]
                ctx.judge("columns:kind", True if cls_fact == [True] else False, "only columns are registered",
                          "a member is registered when %s" % conds_str(own), f.loc())
                ctx.judge("columns:all", True if not rest else (None if all(UNKNOWN_OPS & {y.op for y in subterms(a)}
                                                                            for a, _ in rest) else False),
                          "no column of a class is left out", "a column is only registered when %s" % conds_str(rest), f.loc())
        if not n:
            ctx.und("columns", "no registration found", f.loc())
    # no path leaves the loop over the members early
    for p in ctx.run(f, cls=meta):
        for e, loops in flat_events(p.events):
            if e.kind == "loop" and not loops and plain(e.base) in (mk("items", dct), dct):
                for bp in e.paths:
                    if bp.exit == "break":
                        ctx.bad("columns:all", "the remaining members are not looked at when %s" % conds_str(bp.conds)[:300], e.loc)


def unrest(t):
    """settings passed on without the names a constructor has taken are looked up in the same settings"""
    def f(x):
        if x.op == "rest":
            return unrest(x.args[0])
        if x.op == "kwget" and x.args[1] == const("_disable_by_default"):
            return unrest(x.args[2])         # never part of the settings handed on by name
        return None
    return rewrite(plain(t), f)


def value_cls(I, c):
    return mk("class", c.qual)


def I_value(ctx, fn, cls):
    I = ctx.interp()
    return plain(I.run(fn, cls=cls)[0].value)


def chain_of(ctx, chain):
    """the values stored as self.chain by the constructor"""
    I = ctx.interp(opaque={"CHECLabPy.core.child_subclasses"})
    d, f = chain.lookup("__init__")
    if f is None:
        return None
    out = []
    for p in returns(ctx.run(f, I, cls=chain)):
        vs = [e.value for e, _ in events_of(p, "setattr") if e.name == "chain"]
        if not vs:
            return None
        out.append((f.loc(), plain(vs[-1]), I))
    return out


def selection(ctx, spec, base, cls, pre=""):
    """which columns of a class are active, for given settings"""
    for c in [base] + cls:
        f = c.members.get("get_active_columns")
        if not isinstance(f, Func):
            continue
        with ctx.section(pre + c.name + ".get_active_columns"):
            I = ctx.interp()
            ps = returns(ctx.run(f, I, cls=c))
            for p in ps:
                if not any(mentions(t, R.KW) for t in [plain(p.value)] + [plain(a) for a, _ in p.conds]):
                    ctx.judge(pre + c.name + ".get_active_columns:settings", False if not is_empty(p.value) else None, "",
                              "the selection is %s whatever the settings are" % show(p.value)[:200], f.loc(), p.cond_str())
            same(ctx, pre + c.name + ".get_active_columns", I, ps, I.run(spec["get_active_columns"], cls=c),
                 project=lambda p: expand_gets(plain(p.value)), what="selection of active columns", where=f.loc(),
                 extra={("attr", "active_columns")})


def is_empty(t):
    t = plain(t)
    return t.op in ("listv", "setv") and not t.args[0] or t.op == "tuple" and not t.args[0]


def check_chain(ctx, where, v, base):
    subs = [s for s in subterms(v) if s.op == "call" and s.args[0].endswith("child_subclasses")]
    parts = []
    if v.op == "comp":
        parts = [v]
    elif v.op == "listv":
        parts = [x[1] for x in v.args[0] if x[0] == "splice"]
        if len(parts) != len(v.args[0]):
            ctx.bad("chain:list", "steps that are no reducer's: %s" % show(v)[:300], where)
            return
    if len(parts) != 1 or parts[0].op != "comp":
        ctx.judge("chain:list", None, "steps of the reducers", "steps are %s" % show(v)[:400], where)
        return
    it, depth, alts = parts[0].args[:3]
    e = elem(it)
    ok_it = it.op == "call" and it.args[0].endswith("child_subclasses") and \
        mk("class", base.qual) in [v for k, v in it.args[2]] + list(it.args[1])
    ctx.judge("chain:classes", True if ok_it else (False if it.op in ("item", "listv", "meth") else None),
              "every reducer class is considered", "iterates over %s" % show(it)[:300], where)
    for conds, items in alts:
        for cube in conds or ((),):
            lits = [(plain(a), pol) for a, pol in cube]
            sel = None
            other = []
            for a, pol in lits:
                x = a
                if x.op == "truth":
                    x = x.args[0]
                if x.op in ("lt", "le", "eq"):
                    g = [y for y in subterms(x) if y.op == "meth" and y.args[1] == "get_active_columns"]
                    if g:
                        ctx.bad("chain:selection", "reducers are selected by %s%s" % ("" if pol else "not ", show(a)[:300]), where)
                        sel = g[0]
                        continue
                if x.op == "meth" and x.args[1] == "get_active_columns" and x.args[0] is e:
                    if not pol:
                        ctx.bad("chain:selection", "reducers without active columns are selected", where)
                    sel = x
                else:
                    other.append((a, pol))
            if other:
                ctx.judge("chain:selection", None if any(UNKNOWN_OPS & {y.op for y in subterms(a)} for a, _ in other) else False,
                          "", "further condition on the reducers: %s" % conds_str(other)[:300], where)
            for it2 in items:
                t = it2[1]
                c = t.args[0] if t.op == "attr" and t.args[1] == "process" else None
                if c is None or c.op != "callv" or c.args[0] is not e:
                    ctx.judge("chain:step", None if t.op not in ("const", "attr") else False, "step is the process method",
                              "step is %s" % show(t)[:300], where)
                    continue
                ctx.judge("chain:selection", True if sel is not None else False,
                          "only reducers with an active column are built",
                          "a reducer is built without asking for its active columns", where)
                ctx.judge("chain:step", tuple(c.args[1][:2]) == (param("n_pixels"), param("n_samples")) or
                          (None if len(c.args[1]) != 2 else False), "built for the given pixels and samples",
                          "built with %s" % [show(x) for x in c.args[1]], where)
                if sel is not None:
                    same_kw = tuple(sel.args[2]) == tuple(c.args[2]) and tuple(sel.args[3]) == tuple(c.args[2]) if len(sel.args) > 4 \
                        else tuple(sel.args[3]) == tuple(c.args[2])
                    ctx.judge("chain:same-settings", True if same_kw else False, "selected and built with the same settings",
                              "selected with (%s) but built with (%s)" % (
                                  ", ".join("%s=%s" % (k, show(x)) for k, x in sel.args[3]),
                                  ", ".join("%s=%s" % (k, show(x)) for k, x in c.args[2])), where)
                    d = dict(sel.args[3]).get("_disable_by_default")
                    ctx.judge("chain:default-off", True if d is TRUE else (False if d is None or d is FALSE else None),
                              "columns that are not named are off", "columns that are not named are on", where)
