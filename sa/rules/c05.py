"""Column lists: the names of the @column members of all reducer classes (syntax trees, every module of the reducer
package) are pairwise distinct unless a class redefines its parent's, the registration code refuses a second definition
of a name on every path, the default table's keys are existing names with plain on/off values, and on every path of the
template generator each column of each reducer class is written exactly once as 'name: activation', the activation being
the default table's value, else off.  Docstrings, which the template carries as comments, must stay comments."""
import ast
from .util import *
from . import reducers as R


def run(ctx):
    P = ctx.P
    base, cls = R.classes(ctx)
    chain = P.cls("CHECLabPy.core.chain.WaveformReducerChain")
    # ---- unique names
    owners = {}
    n = 0
    for c in cls:
        seen = set()
        for s in c.node.body:
            if isinstance(s, ast.FunctionDef) and any((P.dotted(c.module, d.func if isinstance(d, ast.Call) else d) or "")
                                                      .split(".")[-1] == "column" for d in s.decorator_list):
                n += 1
                if s.name in seen:
                    ctx.bad("unique:%s" % s.name, "%s defines column %s twice" % (c.name, s.name), "%s:%s" % (c.module.rel, s.lineno))
                seen.add(s.name)
                for o, on in owners.get(s.name, []):
                    ctx.bad("unique:%s" % s.name, "column %s is defined by %s and by %s" % (s.name, o.name, c.name),
                            "%s:%s" % (c.module.rel, s.lineno))
                owners.setdefault(s.name, []).append((c, s))
                ctx.ok("unique:%s" % s.name, "defined by %s" % c.name, "%s:%s" % (c.module.rel, s.lineno))
    # ---- a second definition is refused
    with ctx.section("registration"):
        col = P.cls(R.RED + "column")
        d, f = col.lookup("__init__")
        fa = param(f.node.args.args[1].arg)
        nm, qn = attr(fa, "__name__"), attr(fa, "__qualname__")
        paths = ctx.run(f, cls=col)
        stored = refused = 0
        for p in paths:
            facts = [(plain(a), pol) for a, pol in p.conds]
            inreg = [pol for a, pol in facts if a.op == "in" and a.args[0] is nm]
            eq = [(a, pol) for a, pol in facts if a.op == "eq" and mentions(a, fa) and "__qualname__" in show(a)]
            w = [e for e, _ in flat_events(p.events) if e.kind == "setitem" and e.args and plain(e.args[0]) is nm]
            if p.kind == "return":
                if not w:
                    ctx.judge("registration:registers", None if not any(
                        e.kind in ("setitem", "mut") for e, _ in flat_events(p.events)) and inreg == [] else False,
                              "every column is registered", "a column is not registered when %s" % p.cond_str(), f.loc())
                    continue
                stored += 1
                exact = [pol for a, pol in eq if all(x.op == "attr" and x.args[1] == "__qualname__" for x in a.args[:2])]
                parts = [a for a, pol in eq if not all(x.op == "attr" and x.args[1] == "__qualname__" for x in a.args[:2])]
                if inreg == [False] or True in exact:
                    ctx.ok("registration:registers", "registered when new or redefined in place", f.loc())
                else:
                    part = parts and all(known_vocab(a, [], {("meth", "split"), ("meth", "rsplit"), ("attr", "__qualname__"), ("attr", "__name__"), ("attr", "__module__"),
                                                             ("attr", "registry")} | vocab(fa) | vocab(SELF)) for a in parts)
                    ctx.judge("registration:refuses", False if not inreg or inreg == [True] and (not eq or part) else None, "",
                              "a second column of the same name is accepted when %s" % p.cond_str(), f.loc())
            else:
                refused += 1
                if any(not pol for a, pol in eq):
                    ctx.ok("registration:refuses", "a second definition raises", f.loc())
                elif eq:
                    ctx.bad("registration:refuses", "raises for the same definition", f.loc(), p.cond_str())
        if not stored:
            ctx.und("registration", "no path registers a column")
    # ---- default table
    names = set(owners)
    with ctx.section("defaults"):
        I = ctx.interp()
        f = chain.lookup("__init__")[1]
        table = table_of(I, chain)
        if table is None:
            ctx.und("defaults", "default table is not a literal")
        else:
            for k, v in table.items():
                ctx.judge("defaults:%s" % k, k in names, "is a column", "the default table names %s, which is no column" % k,
                          chain.module.rel)
                ctx.judge("defaults:%s" % k, v in (True, False), "on or off", "default of %s is %r" % (k, v), chain.module.rel)
            dups = duplicate_keys(chain)
            for k in dups:
                ctx.bad("defaults:%s" % k, "the default table names %s twice" % k, chain.module.rel)
    # ---- template
    with ctx.section("template"):
        f = P.fn("CHECLabPy.scripts.generate_dl1_config.main")
        I = ctx.interp(opaque={"CHECLabPy.core.child_subclasses"})
        for p in returns(ctx.run(f, I)):
            template(ctx, p, f, base, table)
    # ---- docstrings stay comments
    with ctx.section("docs"):
        for nme, defs in owners.items():
            for c, s in defs:
                doc = ast.get_docstring(s, clean=False)
                if doc is None:
                    continue
                ok = doc.startswith("\n") and doc.rstrip(" ").endswith("\n")
                ctx.judge("docs:%s" % nme, True if ok or not doc.strip() or not DOCFORM.get("f") else False,
                          "its documentation stays a comment in the template",
                          "the one-line documentation of %s is written next to the value of the column" % nme,
                          "%s:%s" % (c.module.rel, s.lineno))


DOCFORM = {}


def table_of(I, chain):
    from ..interp import State
    d, m = chain.lookup("default_columns")
    if m is None or isinstance(m, (Func, Class, tuple)):
        return None
    st = State()
    st.frames.append({"__module__": d.module, "__closure__": None})
    v = plain(I.freeze(st, I.class_attr(st, chain, "default_columns")))
    if v.op != "dictv":
        return None
    out = {}
    for s in v.args[0]:
        if s[0] != "kv" or not is_const(s[1]) or not is_const(s[2]):
            return None
        out[s[1].args[0]] = s[2].args[0]
    return out


def duplicate_keys(chain):
    d, m = chain.lookup("default_columns")
    seen, dup = set(), []
    ks = []
    if isinstance(m, ast.Dict):
        ks = [k.value for k in m.keys if isinstance(k, ast.Constant)]
    elif isinstance(m, ast.Call):
        ks = [k.arg for k in m.keywords]
    for k in ks:
        if k in seen:
            dup.append(k)
        seen.add(k)
    return dup


def texts(e):
    for a in e.args:
        if a.op == "listv":
            for s in a.args[0]:
                yield s[1]
        else:
            yield a


def template(ctx, p, f, base, table):
    where = f.loc()
    nloops = 0
    cond = p.cond_str()[:200]
    for e, loops in flat_events(p.events):
        if e.kind != "loop":
            continue
        b = plain(e.base) if e.base is not None else None
        if b is None or b.op != "attr" or b.args[1] != "columns":
            continue
        # the enclosing loop runs over every reducer class
        cl = b.args[0]
        ok = cl.op == "elem" and cl.args[0].op == "call" and cl.args[0].args[0].endswith("child_subclasses") and \
            mk("class", base.qual) in list(cl.args[0].args[1]) + [v for k, v in cl.args[0].args[2]]
        nloops += 1
        ctx.judge("template:classes", True if ok else None, "columns of every reducer class", "columns of %s" % show(cl)[:200], e.loc)
        for l, bp in loops:
            if bp.exit in ("break", "return"):
                ctx.bad("template:complete", "stops after some classes when %s" % conds_str(bp.conds)[:300], l.loc)
        col = elem(e.base)
        for bp in e.paths:
            n = 0
            if bp.exit in ("break", "return"):
                ctx.bad("template:complete", "stops after some columns when %s" % conds_str(bp.conds)[:300], e.loc)
            for w, _ in flat_events(bp.events):
                if w.kind != "meth" or w.name not in ("write", "writelines") and not (w.name == "append"):
                    continue
                for t in texts(w):
                    t = plain(t)
                    if mentions(t, col) and "__doc__" in show(t) and t.op != "fstr":
                        d = show(t)
                        if ".strip()[:-1:]" in d:
                            DOCFORM["f"] = True
                    if t.op != "fstr":
                        continue
                    parts = list(t.args[0])
                    if not parts or not isinstance(parts[0], tuple) or plain(parts[0][0]) is not plain(col):
                        continue
                    n += 1
                    if len(parts) == 4 and parts[1] == ": " and isinstance(parts[2], tuple) and parts[3] == "\n":
                        v = plain(parts[2][0])
                        ctx.judge("template:value", value_ok(v, col, table), "activation = default table, else off",
                                  "activation written is %s" % show(v)[-300:], w.loc)
                    else:
                        ctx.judge("template:format", None, "", "line is %s" % show(t)[:300], w.loc)
            ctx.judge("template:once", True if n == 1 else (False if n > 1 or bp.conds and n == 0 and bp.exit != "raise" or
                                                           n == 0 and has_writes(e) is False else None),
                      "each column is written once", "a column is written %d times when %s" % (n, conds_str(bp.conds)[-200:]), e.loc,
                      cond)
        for bp in e.paths:
            if not bp.conds:
                continue
    # a loop path over classes that skips the columns
    for e, loops in flat_events(p.events):
        if e.kind == "loop" and any(x.kind == "loop" and x.base is not None and plain(x.base).op == "attr" and
                                    plain(x.base).args[1] == "columns" for bp in e.paths for x in bp.events):
            for bp in e.paths:
                if bp.exit == "raise":
                    continue
                k = sum(1 for x in bp.events if x.kind == "loop" and plain(x.base).op == "attr" and plain(x.base).args[1] == "columns")
                ctx.judge("template:all-classes", True if k == 1 else False, "every class is written once",
                          "the columns of a class are written %d times when %s" % (k, conds_str(bp.conds)[-300:]), e.loc, cond)
    if not nloops:
        ctx.und("template", "no loop over the columns of the classes found", where)


def has_writes(e):
    return any(w.kind == "meth" and w.name in ("write", "writelines") for bp in e.paths for w, _ in flat_events(bp.events))


def value_ok(v, col, table):
    """the value written for a column is default_columns.get(column, False)"""
    if v.op in ("truth", "not"):
        v = v.args[0] if v.op == "truth" else v
    if v.op == "call" and v.args[0] in ("bool", "str") and v.args[1]:
        v = v.args[1][0]
    if v.op in ("kwget", "meth"):
        if v.op == "kwget":
            tab, k, dflt = v.args[0], v.args[1], v.args[2]
        elif v.args[1] == "get" and v.args[2]:
            tab, k = v.args[0], v.args[2][0]
            dflt = v.args[2][1] if len(v.args[2]) > 1 else NONE
        else:
            return None
        if plain(k) is not plain(col):
            return False
        if tab.op == "dictv":
            got = {s[1].args[0]: s[2].args[0] for s in tab.args[0] if s[0] == "kv" and is_const(s[1]) and is_const(s[2])}
            if table is not None and got != table:
                return False
        elif not (tab.op == "attr" and tab.args[1] == "default_columns"):
            return None
        return True if dflt is FALSE else (False if is_const(dflt) else None)
    if v.op == "const":
        return False
    return None
