"""Configuration round trip.  The document written by saving is obtained as a table key -> setting (value numbers of the
fitter's and its parameters' attributes).  Every assignment to a setting made by loading is reduced to "entry KEY of the
document, else the present value"; for every saved key the assignment of the same setting must read the same key, on every
path on which the document may hold it, with the present value as default; loading must not discard a key before reading
it, must leave everything unchanged for an empty document, and saving must write to no attribute of the fitter."""
from .util import *
from .c19 import canon
from .c20 import FITTER, SETTINGS, L, fitters, consistent
from ..terms import elem

B, R, PATH = param("n_bins now"), param("range now"), param("path")
E = elem(L)
SAFE = ("yaml.safe_dump",)
LOADERS = ("yaml.safe_load",)
CONTENT = object()


def prepared(ctx, I, F):
    for st, f, c in fitters(ctx, I, F):
        st = st.copy()
        st.heap[f].attrs["n_bins"] = B
        st.heap[f].attrs["range"] = R
        yield st, f, c


def setting_of(t):
    """(setting, per parameter) of a value of the saved document"""
    t = plain(t)
    if t is B:
        return "n_bins", False
    if t is R:
        return "range", False
    return None


def saved(ctx, I, F):
    """{key: setting} from save_config"""
    d, fn = F.lookup("save_config")
    if not isinstance(fn, Func):
        raise AnchorError(FITTER + ".save_config")
    table = None
    for st, f, c in prepared(ctx, I, F):
        for p in I.method(st, f, "save_config", [PATH]):
            ctx.count([p])
            if p.kind != "return":
                continue
            ev = p.events[len(st.events):]
            dumps = [e for e, _ in flat_events(ev) if e.kind in ("call", "meth") and e.name.split(".")[-1] in ("safe_dump", "dump", "dumps")]
            if len(dumps) != 1:
                ctx.und("save:document", "%d documents are written" % len(dumps), fn.loc())
                continue
            e = dumps[0]
            kw = dict(e.kwargs)
            dumper = kw.get("Dumper")
            if e.name not in SAFE and not (e.name == "yaml.dump" and dumper is not None and "SafeDumper" in show(dumper)):
                ctx.und("save:format", "written by %s" % e.name, e.loc)
            data = e.args[0] if e.args else kw.get("data")
            opened = [x for x in (list(e.args[1:]) + [kw[k] for k in ("stream",) if k in kw])]
            ctx.judge("save:path", True if opened and mentions(plain(opened[0]), PATH) else None, "to the requested path", "written to %s" % [show(x) for x in opened], e.loc)
            for x in opened:
                for o in subterms(plain(x)):
                    if o.op == "call" and o.args[0] == "open":
                        mode = o.args[1][1] if len(o.args[1]) > 1 else dict(o.args[2]).get("mode")
                        if mode is not None and is_const(mode):
                            ctx.judge("save:mode", mode.args[0] in ("w", "wt", "w+", "x"), "replaces the file", "the file is opened with mode %s" % show(mode), e.loc)
            doc = canon(I.freeze(p.st, data))
            if doc.op != "dictv" or any(s[0] != "kv" or not is_const(s[1]) for s in doc.args[0]):
                ctx.und("save:document", "document is %s" % show(doc)[:200], e.loc)
                continue
            t = {}
            for _, k, v in doc.args[0]:
                v = plain(v)
                s = setting_of(v)
                if s:
                    t[k.args[0]] = s
                elif v.op == "dcomp" and v.args[0] is L and len(v.args[2]) == 1 and v.args[2][0][0] in (((),), ()) and len(v.args[2][0][1]) == 1 and v.args[2][0][1][0][0] == "kv":
                    _, kk, vv = v.args[2][0][1][0]
                    ctx.judge("save:%s:name" % k.args[0], match(kk, [attr(E, "name")]), "one entry per parameter under its name", "entries are stored under %s" % show(kk), e.loc)
                    vv = plain(vv)
                    if vv.op == "attr" and vv.args[0] is E:
                        t[k.args[0]] = (vv.args[1], True)
                    else:
                        loses = lossy(vv)
                        ctx.judge("save:" + k.args[0], False if loses else None, "", "saves %s" % show(vv), e.loc)
                elif v.op == "dcomp" and v.args[0] is L and known_of_settings(v):
                    ctx.judge("save:" + k.args[0], False, "", "saved only for some parameters: %s" % show(v)[:300], e.loc)
                else:
                    loses = lossy(v) and not (B in subterms(v) and all(x.args[0] == "int" for x in subterms(v) if x.op == "call"))
                    ctx.judge("save:" + k.args[0], False if loses and (mentions(v, B) or mentions(v, R) or mentions(v, L)) else None, "", "saves %s" % show(v)[:200], e.loc)
            for s in [("n_bins", False), ("range", False)] + [(a, True) for a in SETTINGS]:
                n = [k for k, v in t.items() if v == s]
                ctx.judge("save:has:" + s[0], True if len(n) == 1 else (False if not n and len(t) == len(doc.args[0]) else None), "written once", "written under %s" % n, e.loc)
            if table is None:
                table = t
            # nothing in the fitter changes
            for x, loops in flat_events(ev):
                if x.kind in ("setattr", "delattr"):
                    b = plain(x.base) if isinstance(x.base, Term) else None
                    if b is not None and (b is E or mentions(b, E) or b.op in ("obj", "ref")):
                        ctx.bad("save:unchanged", "saving sets %s of %s" % (x.name, show(b)[:80]), x.loc, p.cond_str())
                if x.kind == "mut" and isinstance(x.base, Term) and (plain(x.base) in (L, R) or plain(x.base).op == "attr" and plain(x.base).args[0] is E):
                    ctx.bad("save:unchanged", "saving changes %s (%s)" % (show(x.base)[:80], x.name), x.loc, p.cond_str())
            for a in ("n_bins", "range"):
                now = plain(I.freeze(p.st, p.st.heap[f].attrs[a]))
                ctx.judge("save:unchanged", now is {"n_bins": B, "range": R}[a], "settings are as before", "%s is %s after saving" % (a, show(now)), fn.loc(), p.cond_str())
    return table


LOSSY = {"int", "round", "str", "sorted", "set", "abs", "min", "max", "repr"} | {"numpy." + x for x in (
    "round", "around", "floor", "ceil", "sort", "unique", "clip", "abs", "float32", "float16", "int64", "int32", "trunc", "rint")}


def lossy(t):
    """different values of the setting are written the same"""
    return any(x.op == "call" and x.args[0] in LOSSY or x.op in ("sorted", "floordiv", "setv", "abs") for x in subterms(t))


def known_of_settings(v):
    return not any(x.op in UNKNOWN_OPS for x in subterms(v))


def document(t):
    """the loaded document itself"""
    return t.op == "call" and t.args[0] in LOADERS + ("yaml.load",)


def entry(t):
    """([keys], default or None) when t is an entry of the document"""
    t = plain(t)
    if document(t):
        return [], None
    if t.op == "meth" and t.args[1] in ("pop", "get") and t.args[2]:
        up = entry(t.args[0])
        if up is None:
            return None
        default = t.args[2][1] if len(t.args[2]) > 1 else (NONE if t.args[1] == "get" else None)
        return up[0] + [plain(t.args[2][0])], default
    if t.op == "item":
        up = entry(t.args[0])
        return None if up is None else (up[0] + [plain(t.args[1])], None)
    return None


def present(t, name):
    """the value the setting has already"""
    t = plain(t)
    if t is {"n_bins": B, "range": R}.get(name):
        return True
    if t is attr(E, name):
        return True
    return t.op == "phi" and t.args[-1] is not None and isinstance(t.args[-1], tuple) and t.args[-1] == (E, "attr", name)


def tells(conds, keys):
    """does the condition decide that the document holds the first key?"""
    for a, pol in conds:
        a = plain(a)
        if a.op == "in" and plain(a.args[0]) is keys[0] and entry(a.args[1]) == ([], None):
            return pol
        if a.op in ("truth", "is"):
            x = entry(a.args[0])
            if x is not None and len(x[0]) == 1 and x[0][0] is keys[0]:
                if a.op == "truth" and pol:
                    return True
                if a.op == "is" and a.args[1] is NONE:
                    return not pol
                if a.op == "truth":
                    return False
    return None


def run(ctx):
    P = ctx.P
    F = P.cls(FITTER)
    I = ctx.interp()
    with ctx.section("save"):
        table = saved(ctx, I, F)
        if table:
            with ctx.section("load"):
                load(ctx, I, F, table)
    from .c20 import subclasses
    for s in subclasses(P, F):
        for m in ("save_config", "load_config"):
            d, _ = s.lookup(m)
            ctx.judge("inherited:%s.%s" % (s.name, m), True if d is F else None, "uses the analysed method", "%s overrides %s" % (s.name, m))
    ctx.assumptions.append("a nested section of the document, where present, is a mapping; yaml.safe_dump/safe_load round-trips numbers, booleans and sequences")


def load(ctx, I, F, table):
    d, fn = F.lookup("load_config")
    empties = 0
    for st, f, c in prepared(ctx, I, F):
        ps = I.method(st, f, "load_config", [PATH])
        ctx.count(ps)
        for p in ps:
            ev = p.events[len(st.events):]
            empty = any(plain(a).op == "is" and document(plain(a).args[0]) and pol or plain(a).op == "truth" and document(plain(a).args[0]) and not pol for a, pol in p.conds)
            changed = [(x, loops) for x, loops in flat_events(ev) if x.kind == "setattr" and (x.name in SETTINGS and loops or x.name in ("n_bins", "range"))]
            if empty:
                empties += 1
                ctx.judge("load:empty", p.kind == "return", "an empty file is accepted", "loading an empty file fails", fn.loc(), p.cond_str())
                for x, _ in changed:
                    if not isinstance(x.value, Term) or not present(I.freeze(p.st, x.value), x.name):
                        e = entry(I.freeze(p.st, x.value)) if isinstance(x.value, Term) else None
                        ctx.judge("load:empty", None if e else False, "", "an empty file changes %s" % x.name, x.loc)
                continue
            if p.kind != "return":
                ctx.judge("load:raise", None, "", "loading may raise", fn.loc(), p.cond_str())
                continue
            opens = [x for x, _ in flat_events(ev) if x.kind == "call" and x.name == "open"]
            for o in opens:
                ctx.judge("load:path", True if o.args and plain(o.args[0]) is PATH else None, "from the requested path", "opens %s" % [show(a) for a in o.args], o.loc)
            discarded(ctx, p, table)
            for key, (name, per) in sorted(table.items()):
                if per:
                    per_parameter(ctx, I, p, ev, key, name, fn)
                else:
                    v = plain(I.freeze(p.st, p.st.heap[f].attrs[name]))
                    where = next((x.loc for x, _ in changed if x.name == name), fn.loc())
                    one(ctx, "load:" + key, [const(key)], name, v, p.conds, where, p.cond_str())
    if not empties:
        # the document may be None; every use of it is an error unless guarded
        reads = [e for st, f, c in prepared(ctx, I, F) for p in I.method(st, f, "load_config", [PATH]) for e, _ in flat_events(p.events)
                 if e.kind in ("mut", "getitem", "meth") and isinstance(e.base, Term) and document(plain(e.base))]
        ctx.judge("load:empty", False if reads else None, "", "the document of an empty file (None) is read like a table", reads[0].loc if reads else fn.loc())


def one(ctx, key, keys, name, v, conds, where, path):
    e = entry(v)
    has = tells(conds, keys)
    if e is not None:
        same = e[0] == keys
        if not same:
            ctx.judge(key, False if all(is_const(k) or k is attr(E, "name") for k in e[0]) else None, "", "%s is restored from entry %s, it is saved under %s" % (name, [show(k) for k in e[0]], [show(k) for k in keys]), where, path)
            return
        if e[1] is None:
            sure = has if len(keys) == 1 else None
            if len(keys) == 2:
                sure = any(plain(a).op == "in" and plain(a.args[0]) is keys[1] and pol for a, pol in conds)
            ctx.judge(key, True if sure else False, "restored", "%s is read without a default: a file that lacks it cannot be loaded" % name, where, path)
        else:
            ctx.judge(key, True if present(e[1], name) else (False if not any(x.op in UNKNOWN_OPS for x in subterms(e[1])) and not any(x.op == "phi" for x in subterms(e[1])) else None),
                      "restored; the present value where absent", "%s becomes %s when the file lacks it" % (name, show(e[1])), where, path)
        return
    if present(v, name):
        murky = has is None and any(x.op in UNKNOWN_OPS or x.op == "phi" for a, _ in conds for x in subterms(plain(a)))
        absent = has is False or absent_inner(conds, keys)
        ctx.judge(key, True if absent else (None if murky or decided_otherwise(conds, keys) else False), "kept where absent", "%s is not restored although the file may hold it" % name, where, path)
        return
    known = not any(x.op in UNKNOWN_OPS or x.op in ("phi", "ref") for x in subterms(v))
    ctx.judge(key, False if known and is_const(v) else None, "", "%s becomes %s" % (name, show(v)[:300]), where, path)


def absent_inner(conds, keys):
    return len(keys) == 2 and any(plain(a).op == "in" and plain(plain(a).args[0]) is keys[1] and not pol for a, pol in conds)


def plain_test(a):
    """a test for an entry's presence, or one that does not look at the document"""
    a = plain(a)
    if a.op == "in" and entry(a.args[1]) is not None or a.op == "is" and a.args[1] is NONE:
        return True
    return not any(document(x) for x in subterms(a)) and not any(x.op in UNKNOWN_OPS or x.op == "phi" and not (x.args[-1] and x.args[-1][0] is E) for x in subterms(a))


def decided_otherwise(conds, keys):
    """some other test of the entry that we do not understand"""
    if tells(conds, keys) is None:
        return any(any(x is keys[0] for x in subterms(plain(a))) for a, _ in conds)
    return any(not plain_test(a) and any(x is keys[0] for x in subterms(plain(a))) for a, _ in conds if not section_truth(a, keys))


def section_truth(a, keys):
    a = plain(a)
    e = entry(a.args[0]) if a.op == "truth" else None
    return e is not None and len(e[0]) == 1


def per_parameter(ctx, I, p, ev, key, name, fn):
    keys = [const(key), attr(E, "name")]
    loops = [e for e, ls in flat_events(ev) if e.kind == "loop" and not ls and writes(e, name)]
    if len(loops) != 1:
        ctx.judge("load:" + key, None if loops or any(e.kind == "setattr" and e.name == name for e, _ in flat_events(ev)) else decided(p, keys), "", "%d loops restore %s" % (len(loops), name), fn.loc(), p.cond_str())
        return
    lp = loops[0]
    if plain(lp.base) is not L:
        ctx.und("load:" + key, "restored in a loop over %s" % show(lp.base)[:100], lp.loc)
        return
    for bp in lp.paths:
        if not consistent(p, bp):
            continue
        w = [e for e, ls in flat_events(bp.events) if e.kind == "setattr" and e.name == name and isinstance(e.base, Term) and plain(e.base) is E]
        conds = list(bp.conds) + list(p.conds)
        if bp.exit not in ("fall", "continue"):
            ctx.judge("load:" + key, False if all(plain_test(a) for a, _ in bp.conds) else None, "", "the parameters after the first are not restored: the loop ends early", lp.loc, conds_str(bp.conds))
            continue
        if not w:
            one(ctx, "load:" + key, keys, name, attr(E, name), conds, lp.loc, conds_str(bp.conds))
            continue
        one(ctx, "load:" + key, keys, name, plain(I.freeze(p.st, w[-1].value)), conds, w[-1].loc, conds_str(bp.conds))


def decided(p, keys):
    return True if tells(p.conds, keys) is False else (False if tells(p.conds, keys) else None)


def writes(lp, name):
    return any(e.kind == "setattr" and e.name == name and isinstance(e.base, Term) and plain(e.base) is E for e, _ in flat_events([lp]))


def discarded(ctx, p, table):
    """entries removed from the document before they are read"""
    for e, loops in flat_events(p.events):
        if e.kind not in ("getitem", "mut", "meth", "delitem"):
            continue
        b = e.base
        if not isinstance(b, Term) or b.op != "mutated" or entry(plain(b)) is None:
            continue
        k = None
        if e.kind == "getitem" or e.kind == "mut" and e.name == "pop" or e.kind == "meth" and e.name == "get":
            k = plain(e.args[0]) if e.args else None
        if k is None or not is_const(k) or k.args[0] not in table or entry(plain(b))[0]:
            continue
        for op in b.args[1]:
            if op[0] in ("pop", "del", "delitem") and op[1] and plain(op[1][0]) is k:
                ctx.bad("load:discarded", "entry %s is removed before it is read" % show(k), e.loc, p.cond_str())
            if op[0] in ("clear", "popitem"):
                ctx.bad("load:discarded", "the document is emptied before entry %s is read" % show(k), e.loc, p.cond_str())
