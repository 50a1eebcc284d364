"""(1) For every ordered pair of columns of a reducer, the value of the second after the first was
evaluated (and after the event's preparation) is the same term as without it, and the first's own
value is not written by the second; a write to storage that exists before the column runs is a
violation if another column's value shares it.  (2) No column's value depends on the switch of
another column, and no column name is read as a numerical setting (settings: keyword arguments and
keys read from the configuration by any reducer, plus the built-in settings table)."""
from .util import *
from .alias import Writes, roots
from . import reducers as R
from .reducers import fresh, KW
from .shapes import Shapes
from .c07 import env

WF = param("waveforms")


def unid(t):
    """drop allocation identities only"""
    return rewrite(t, lambda x: mk("newarr", x.args[0], 0) if x.op == "newarr" else None) if isinstance(t, Term) else t


def bases(t):
    """everything a written target is a view of, down to the owning value"""
    out, todo = set(), [t]
    from .alias import is_view_index, VIEW_ATTRS, VIEW_METHS, VIEW_NP
    while todo:
        x = todo.pop()
        if x in out or not isinstance(x, Term):
            continue
        out.add(x)
        if x.op in ("mutated", "filled", "elem") or x.op == "item" and is_view_index(x.args[1]) \
                or x.op == "attr" and x.args[1] in VIEW_ATTRS or x.op == "meth" and x.args[1] in VIEW_METHS:
            todo.append(x.args[0])
        elif x.op == "call" and x.args[0] in VIEW_NP:
            kd = dict(x.args[2])
            s = kd.get("a", kd.get("object", x.args[1][0] if x.args[1] else None))
            if s is not None:
                todo.append(s)
    return out


def settings_read(t):
    """constant keys read from the configuration in a term: {(key)}"""
    out = set()
    for x in subterms(t):
        if x.op == "kwget" and is_const(x.args[1]) and mentions(x.args[0], KW):
            out.add(x.args[1].args[0])
        elif x.op == "item" and is_const(x.args[1]) and x.args[0].op in ("rest", "param", "kwargs") and mentions(x.args[0], KW):
            out.add(x.args[1].args[0])
        elif x.op == "in" and is_const(x.args[0]) and mentions(x.args[1], KW):
            out.add(x.args[0].args[0])
    return {k for k in out if isinstance(k, str)}


def run(ctx):
    P = ctx.P
    W = Writes(ctx)
    base, classes = R.classes(ctx)
    if len(classes) < 5:
        raise AnchorError("reducer classes")
    every = {n for c in classes for n in R.all_columns(ctx, c)}
    for c in classes:
        with ctx.section(c.name):
            cols = R.all_columns(ctx, c)
            I = ctx.interp()
            for p, ref in R.prepared(ctx, c, I, WF):
                if p.kind != "return":
                    continue
                alone = {}
                for n, f in cols.items():
                    alone[n] = [q for q in ctx.count(I.run(f, cls=c, st=fresh(p.st), self_v=ref)) if q.kind == "return"]
                values = {n: {unid(I.freeze(q.st, q.value)) for q in qs} for n, qs in alone.items()}
                raw = {n: [q.value for q in qs] for n, qs in alone.items()}
                h = p.st.heap[ref]
                held = {v for v in h.attrs.values() if isinstance(v, Term)}
                for n, f in cols.items():
                    key = "%s.%s:effect" % (c.name, n)
                    pure = True
                    for q in alone[n]:
                        st0 = h.attrs
                        changed = any(e.kind == "setattr" and e.raw is ref for e, _ in flat_events(q.events))
                        touched = []
                        for e, t, how in W.of(q.events):
                            b = bases(t) | ({e.raw} if isinstance(e.raw, Term) else set())
                            hit = {x for x in b if x in held or x.op == "newarr" and any(x in bases(v) for v in held)}
                            if hit:
                                if e.kind == "inplace":
                                    sh = Shapes(P, env())
                                    try:
                                        if sh.of(t) in ((), None):
                                            continue
                                    except Exception:             # noqa: BLE001
                                        continue
                                touched.append((e, hit, how))
                        if not changed and not touched:
                            continue
                        pure = False
                        for e, hit, how in touched:
                            for m in cols:
                                if m == n:
                                    continue
                                if any(isinstance(v, Term) and (bases(v) & hit or any(mentions(v, x) for x in hit)) for v in raw[m]):
                                    ctx.bad(key, "%s of %s changes what column %s returns" % (
                                        how, show(sorted(hit)[0])[:80], m), e.loc, q.cond_str())
                        if changed or touched:
                            for m, g in cols.items():
                                if m == n:
                                    continue
                                for r in ctx.count(I.run(g, cls=c, st=fresh(q.st), self_v=ref)):
                                    if r.kind != "return":
                                        ctx.und(key, "%s raises after %s" % (m, n), g.loc())
                                        continue
                                    v = unid(I.freeze(r.st, r.value))
                                    if v not in values[m]:
                                        ctx.bad(key, "after %s was evaluated %s returns %s instead of %s" % (
                                            n, m, show(v)[:150], " or ".join(show(x)[:150] for x in values[m])), g.loc(), r.cond_str())
                    ctx.ok(key, "evaluating the column has no effect on the others" if not pure else
                           "the column writes only its own storage", f.loc())
                # ---- switches
                for n, f in cols.items():
                    key = "%s.%s:switches" % (c.name, n)
                    for q in alone[n]:
                        v = I.freeze(q.st, q.value)
                        used = settings_read(v) & every
                        for k in used:
                            ctx.bad(key, "the on/off switch %s is used as a value: %s" % (k, show(v)[:200]), f.loc(), q.cond_str())
                    sw = {}
                    for q in alone[n]:
                        for a, pol in list(q.conds):
                            for x in subterms(a):
                                if is_const(x) and isinstance(x.args[0], str) and x.args[0] in every and x.args[0] != n:
                                    sw.setdefault((x.args[0], a), {}).setdefault(pol, set()).add(unid(I.freeze(q.st, q.value)))
                    ctx.ok(key, "no switch of another column is used", f.loc())
            # ---- switches that select values across preparation paths
            byatom = {}
            nonevals = {}
            for name, f, q, ref in R.phases(ctx, c, I, WF):
                if name.startswith("_") or q.kind != "return":
                    continue
                v = unid(I.freeze(q.st, q.value))
                for a, pol in q.conds:
                    for x in subterms(a):
                        if is_const(x) and isinstance(x.args[0], str) and x.args[0] in every and x.args[0] != name:
                            byatom.setdefault((name, x.args[0], a), {}).setdefault(pol, set()).add(v)
            for (name, k, a), d in byatom.items():
                if d.get(True, set()) != d.get(False, set()):
                    ctx.bad("%s.%s:switches" % (c.name, name), "the value differs with the switch of column %s: %s" % (
                        k, show(a)[:150]), cols[name].loc())
            # ---- construction
            names = set(R.kwnames(c)) & every
            for k in names:
                ctx.bad(c.name + ":settings", "the column name %s is a keyword argument of the constructor" % k,
                        c.lookup("__init__")[1].loc())
            for st, ref in R.build(ctx, c, I):
                for a, v in st.heap[ref].attrs.items():
                    if a in ("active_columns", "kwargs"):
                        continue
                    used = settings_read(I.freeze(st, v)) & every
                    if used:
                        ctx.bad(c.name + ":settings", "the on/off switch %s is read as the setting .%s" % (",".join(sorted(used)), a),
                                c.lookup("__init__")[1].loc())
            ctx.ok(c.name + ":settings", "no setting has the name of a column")
    # ---- built-in tables
    ch = P.cls("CHECLabPy.core.chain.WaveformReducerChain")
    with ctx.section("tables"):
        import ast
        d, m = ch.lookup("default_config")
        keys = set()
        if isinstance(m, ast.Call):
            keys = {k.arg for k in m.keywords}
        elif isinstance(m, ast.Dict):
            keys = {k.value for k in m.keys if isinstance(k, ast.Constant)}
        ctx.judge("default_config", not (keys & every), "the built-in settings name no column",
                  "the built-in settings contain the column %s" % sorted(keys & every))
