"""Readers: the mode of every HDFStore a reader class opens, an effect analysis of every public reader method (nothing may
be written through the store), and for every whole-table load on every path of every public reader method the branch
facts must imply 'recorded size <= 8e9 or force' (ordering domain over the path's comparisons).  Lookups of unknown names
must end in KeyError, the listing made at opening must survive tables without (complete) metadata and keep every table
and dictionary attribute, and chunked iteration must hand every chunk through with a positive chunk size."""
from .util import *
from .hdf5 import *

LIMIT = const(8000000000)
WRITES = {"append", "append_to_multiple", "put", "remove", "create_table_index", "__setitem__", "__delitem__"}
RESTRICT = {"where", "start", "stop", "columns", "iterator", "chunksize"}
MON = IO + "dl1_reader.DeprecatedMonitorReader"


def run(ctx):
    P = ctx.P
    base, wr = P.cls(READER), P.cls(WRITER)
    fams = [c for c in [base] + list(P.subclasses(base)) if wr not in c.mro]
    for cls in fams:
        with ctx.section("%s.__init__" % cls.name):
            opening(ctx, cls)
        with ctx.section("%s.__exit__" % cls.name):
            closing(ctx, cls)
        with ctx.section("%s:listing" % cls.name):
            if cls is base or cls.lookup("__init__")[0] is cls:
                listing(ctx, cls)
    sn = store_attr(ctx, base)
    if sn is None:
        raise AnchorError("the store of %s" % base.qual)
    S = attr(SELF, sn)
    classes = [(c, S) for c in fams]
    if MON in P.classes:
        classes.append((P.classes[MON], attr(SELF, "store")))
    for cls, s in classes:
        for name, f in sorted(public(cls).items()):
            with ctx.section("%s.%s" % (cls.name, name)):
                member(ctx, cls, name, f, s)
    lookups(ctx, base, S)
    for cls in fams:
        with ctx.section("%s.iterate_over_chunks" % cls.name):
            chunks(ctx, cls, S, cls is base)


def public(cls):
    out = {}
    for c in reversed(cls.mro):
        if not hasattr(c, "members"):
            continue
        for n, f in c.members.items():
            if isinstance(f, Func) and (not n.startswith("_") or n in ("__getitem__", "__enter__", "__exit__")):
                out[n] = f
    return out


def opening(ctx, cls):
    key = "%s.__init__" % cls.name
    f, ps = stores(ctx, cls)
    any_ = False
    for p, found in ps:
        for n, v in found.items():
            any_ = True
            m = mode_of(v)
            ctx.judge(key + ":mode", True if m is const("r") else (False if is_const(m) else None), "opened read-only",
                      "the store is opened with mode %s" % show(m), f.loc(), conds_str(p.conds))
    if not any_:
        ctx.und(key + ":mode", "no HDFStore found", f.loc())


def closing(ctx, cls):
    key = "%s.__exit__" % cls.name
    sn = store_attr(ctx, cls)
    S = attr(SELF, sn)
    d, f = cls.lookup("__exit__")
    if not isinstance(f, Func):
        ctx.bad(key, "the reader has no context exit")
        return
    for p in ctx.run(f, cls=cls):
        closed = any(e.kind in ("meth", "mut") and e.name == "close" and unphi(e.base) is S and not loops for e, loops in flat_events(p.events))
        opaque = any(e.kind in ("callv",) for e, _ in flat_events(p.events))
        ctx.judge(key, True if closed else (None if opaque else False), "closes the file", "the file is not closed", f.loc(), p.cond_str())
        if p.kind == "return" and isinstance(p.value, Term) and p.value not in (NONE, const(False)):
            ctx.judge(key + ":errors", False if is_const(p.value) and p.value.args[0] else None, "", "errors of the block are swallowed", f.loc())
        else:
            ctx.ok(key + ":errors", "errors of the block are passed on", f.loc())


def nbytes_terms(p):
    out = set()
    for a, pol in p.conds:
        for x in subterms(unphi(a)):
            if x.op == "item" and x.args[1] is const("n_bytes"):
                out.add(x)
    return out


def loads(e, S):
    """the table key of a whole-table load"""
    b = unphi(e.base) if isinstance(e.base, Term) else None
    if e.kind == "getitem" and b is S and e.args:
        return unphi(e.args[0])
    if e.kind in ("meth", "mut") and b is S and e.name in ("get", "select"):
        kw = dict(e.kwargs)
        k = e.args[0] if e.args else kw.pop("key", None)
        if k is None:
            return None
        if e.name == "select" and (len(e.args) > 1 or any(x in RESTRICT or x.startswith("**") for x in kw)):
            return None
        return unphi(k)
    if e.kind == "call" and e.name in ("pandas.read_hdf",) and not any(x in RESTRICT for x in dict(e.kwargs)):
        kw = dict(e.kwargs)
        return unphi(e.args[1]) if len(e.args) > 1 else unphi(kw.get("key", NONE))
    return None


def member(ctx, cls, name, f, S):
    key = "%s.%s" % (cls.name, name)
    I = ctx.interp()
    ps = ctx.run(f, I, cls=cls)
    for p in ps:
        loaded = False
        for e, loops in flat_events(p.events):
            if not isinstance(e.base, Term):
                b = None
            else:
                b = unphi(e.base)
            # effects on the file
            on = b is S
            deep = b is not None and mentions(b, S) and any(x.op == "meth" and x.args[1] in ("get_storer", "get_node") for x in subterms(b)) \
                and b.op in ("attr", "meth", "item") and not any(x.op == "meth" and x.args[1] not in ("get_storer", "get_node") for x in subterms(b))
            if on and e.kind in ("meth", "mut") and e.name in WRITES or (on or deep) and e.kind in ("setitem", "setattr", "delitem", "delattr", "inplace") \
                    or deep and e.kind in ("meth", "mut") and e.name in WRITES:
                ctx.bad(key + ":effects", "writes to the file (%s %s)" % (e.kind, e.name or ""), e.loc, p.cond_str())
            k = loads(e, S)
            if k is None or k is const("mapping"):
                continue
            loaded = True
            conds = list(p.conds) + [c for _, bp in loops for c in bp.conds]
            guard(ctx, key, I, p, k, conds, e)
        if p.kind == "raise" and exc_type(p) == "MemoryError":
            ctx.judge(key + ":early", not loaded, "refused before anything is read", "the table is read before it is refused", f.loc(), p.cond_str())
            for a, pol in p.conds:
                if pol and any(x.op == "param" and x.args[0] == "force" for x in subterms(a)):
                    ctx.judge(key + ":forced", False if a is mk("truth", param("force")) else None, "", "a forced load is refused", f.loc(), p.cond_str())
    ctx.ok(key + ":effects", "does not write to the file", f.loc())


def guard(ctx, key, I, p, k, conds, e):
    forced = [pol for a, pol in conds if any(x.op == "param" and x.args[0] == "force" for x in subterms(a))]
    if any(forced):
        ctx.ok(key + ":size", "loaded because it is forced", e.loc)
        return
    ns = nbytes_terms(p)
    right = [n for n in ns if mentions(n, k) or any(x is const("monitor_metadata") for x in subterms(n))]
    if any(I.decide(p.st, mk("lt", LIMIT, n)) is False for n in right):
        ctx.ok(key + ":size", "loaded when at most 8 GB", e.loc)
        return
    if right:
        und = [a for a, pol in p.conds if any(mentions(a, n) for n in right) and a.op not in ("lt", "le", "eq", "truth")]
        ctx.judge(key + ":size", None if und else False, "", "%s is loaded when %s, which does not imply a recorded size of at most 8 GB" % (
            show(k), "; ".join(conds_str([c])[:120] for c in conds if any(mentions(c[0], n) for n in right))), e.loc, p.cond_str())
        return
    if ns:
        ctx.bad(key + ":size", "%s is loaded after looking at the size of another table" % show(k), e.loc, p.cond_str())
        return
    calls = [x for x, _ in flat_events(p.events) if x.kind == "callv" or x.kind == "meth" and plain(x.base) is SELF]
    ctx.judge(key + ":size", None if calls else False, "", "%s is loaded without looking at its recorded size" % show(k), e.loc, p.cond_str())


def defaults(f):
    """{argument: default expression node}"""
    a = f.node.args
    pos = a.posonlyargs + a.args
    out = dict(zip([x.arg for x in pos[len(pos) - len(a.defaults):]], a.defaults))
    out.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
    return out


def lookups(ctx, cls, S):
    P = ctx.P
    for c in [cls] + list(P.subclasses(cls)):
        for n, f in public(c).items():
            if "force" in [a.arg for a in f.node.args.args + f.node.args.kwonlyargs]:
                d = defaults(f).get("force")
                v = getattr(d, "value", 0) if d is not None else 0
                ctx.judge("%s.%s:default" % (c.name, n), True if v is False else (None if v == 0 and v is not False else False),
                          "not forced unless asked for", "force is %r unless given" % (v,), f.loc())
    for n in ("read", "get_metadata", "get_mapping"):
        d, f = cls.lookup(n)
        if not isinstance(f, Func):
            raise AnchorError("%s.%s" % (cls.qual, n))
        key = "%s.%s" % (cls.name, n)
        with ctx.section(key + ":unknown"):
            ps = ctx.run(f, cls=cls)
            for p in ps:
                if p.kind == "raise":
                    t = exc_type(p)
                    allowed = ("KeyError", "MemoryError") if n == "read" else ("KeyError",)
                    ctx.judge(key + ":unknown", True if t in allowed else (None if t is None else False), "raises KeyError", "raises %s" % t, f.loc(), p.cond_str())
            if n == "read":
                k = param("key")
                for p in returns(ps):
                    v = plain(p.value)
                    ctx.judge(key + ":value", match(v, [item(S, k), mk("meth", S, "get", (k,), ()), mk("meth", S, "select", (k,), ())], {("meth", "get"), ("meth", "select")}),
                              "the table of that name", "returns %s" % show(v)[:200], f.loc(), p.cond_str())
                unknown(ctx, key, ps, f)
            if n == "get_mapping":
                for p in returns(ps):
                    v = plain(p.value)
                    ctx.judge(key + ":value", match(v, [item(S, const("mapping"))]), "the stored mapping", "returns %s" % show(v)[:200], f.loc(), p.cond_str())
                    md = [plain(e.value) for e, _ in flat_events(p.events) if e.kind == "setattr" and e.name == "metadata"]
                    spec = attr(attr(mk("meth", S, "get_storer", (const("mapping"),), ()), "attrs"), "metadata")
                    ctx.judge(key + ":metadata", match(md[-1], [spec]) if md else False, "with its metadata", "metadata is %s" % (show(md[-1])[:200] if md else "not attached"),
                              f.loc(), p.cond_str())
            if n == "get_metadata":
                K, N = param("key"), param("name")
                at = attr(mk("meth", S, "get_storer", (K,), ()), "attrs")
                for p in returns(ps):
                    v = plain(p.value)
                    specs = [mk("getattr", at, N), item(at, N), call("getattr", at, N)]
                    shape = [x for x in subterms(v) if x.op in ("getattr", "item")]
                    ok = show(v) == "getattr(%s, %s)" % (show(at), show(N)) or any(v is s for s in specs)
                    ctx.judge(key + ":value", True if ok else (False if known_vocab(v, [at], {("op", "getattr"), ("call", "getattr"), ("param", "name")}) else None),
                              "the attribute of that name of that table", "returns %s" % show(v)[:200], f.loc(), p.cond_str())
                    inn = [a for a, pol in p.conds if pol and a.op == "in" and plain(a.args[0]) is N and mentions(plain(a.args[1]), K)]
                    handler = any(e.kind == "handler" for e, _ in flat_events(p.events)) or f_has_try(f)
                    other = [a for a, pol in p.conds if mentions(a, N) and a not in inn]
                    if not inn and any(a.op == "in" and pol and plain(a.args[0]) is N and plain(a.args[1]).op in ("item", "kwget") and is_const(plain(a.args[1]).args[1]) for a, pol in p.conds):
                        ctx.bad(key + ":unknown", "the name is looked for among the names of another table", f.loc(), p.cond_str())
                    ctx.judge(key + ":unknown", True if inn else (None if handler or other else False), "an unknown name raises KeyError",
                              "an unknown name is not reported as KeyError", f.loc(), p.cond_str())


def f_has_try(f):
    import ast
    return any(isinstance(x, ast.Try) for x in ast.walk(f.node))


def unknown(ctx, key, ps, f):
    """a path of read() for names that are not tables of the file"""
    for p in returns(ps):
        pos = [a for a, pol in p.conds if a.op == "in" and plain(a.args[0]) is param("key")]
        neg = [a for a, pol in p.conds if a.op == "in" and not pol and plain(a.args[0]) is param("key") and "dataframe_keys" in show(a)]
        if neg:
            ctx.bad(key + ":unknown", "a table that is not listed is read", f.loc(), p.cond_str())


def is_zero(a, pol):
    """the condition says that the recorded size is zero"""
    if not any(x is const("n_bytes") for x in subterms(a)):
        return False
    if a.op == "truth":
        return not pol
    if a.op == "eq":
        return pol and const(0) in a.args
    if a.op == "lt" and a.args[0] is const(0) or a.op == "le" and a.args[0] is const(1):
        return not pol
    return a.op == "le" and pol and a.args[1] is const(0) or a.op not in ("lt", "le", "in")


def covers(name, exc):
    names = set((name or "").replace(" ", "").split(","))
    if not names or names & {"", "Exception", "BaseException"}:
        return True
    sup = {"KeyError": {"KeyError", "LookupError"}, "AttributeError": {"AttributeError"}}
    return bool(names & sup[exc])


def listing(ctx, cls):
    """what the constructor records about the tables of the file"""
    key = "%s:listing" % cls.name
    sn = store_attr(ctx, cls)
    d, f = cls.lookup("__init__")
    ps = ctx.run(f, cls=cls)
    for p in returns(ps):
        found = False
        S = [plain(e.value) for e, _ in events_of(p, "setattr") if plain(e.base) is SELF and e.name == sn]
        Ss = set(S) | {attr(SELF, sn)}
        for e in p.events:
            if e.kind == "loop" and e.base is not None and strip(unphi(e.base)) in Ss:
                found = True
                one_listing(ctx, key, e, Ss)
        if not found:
            ctx.und(key, "no loop over the tables of the store", f.loc())


def strip(t):
    while t.op == "meth" and t.args[1] in ("keys", "__iter__", "items") or t.op == "call" and t.args[0] in ("list", "sorted", "tuple", "iter"):
        t = t.args[0] if t.op == "meth" else t.args[1][0]
    return t


def one_listing(ctx, key, loop, Ss):
    def understood(a):
        return not any(x.op in UNKNOWN_OPS and x.op != "anyexc" for x in subterms(plain(a)))
    size_read = handled_attr = handled_key = False
    for b in loop.paths:
        evs = [e for e in b.events if e.kind != "loop"]
        for e in evs:
            if e.kind == "handler":
                handled_attr |= covers(e.name, "AttributeError")
                handled_key |= covers(e.name, "KeyError")
    attrs_guarded = False
    for b in loop.paths:
        cs = conds_str(b.conds)
        ismap = any(pol and (a.op == "eq" and const("mapping") in a.args or a.op == "in" and {
            y.args[0] for y in subterms(plain(a.args[1])) if is_const(y)} == {"mapping"}) for a, pol in b.conds)
        zero = any(is_zero(a, pol) for a, pol in b.conds)
        hand = any(e.kind == "handler" for e in b.events)
        direct = [e for e in b.events if e.kind == "getattr" and e.name == "metadata" and not softened(e)]
        sized = [e for e in b.events if e.kind == "getitem" and e.args and plain(e.args[0]) is const("n_bytes") and e.extra != "get"]
        has = any((a.op in ("hasattr", "in", "isinstance") or "hasattr" in show(a)) and any(
            x is const("metadata") or x is const("n_bytes") or x.op == "attr" and x.args[1] == "metadata" for x in subterms(a)) for a, pol in b.conds)
        if direct:
            ctx.judge(key + ":metadata", True if handled_attr else (None if has else False), "a table without 'metadata' can be listed",
                      "a table without an attribute 'metadata' makes the file unreadable", direct[0].loc)
        if sized:
            ctx.judge(key + ":n_bytes", True if handled_key else (None if has else False), "a table without a recorded size can be listed",
                      "metadata without 'n_bytes' makes the file unreadable", sized[0].loc)
        if b.exit in ("break", "return"):
            ctx.bad(key + ":all", "the listing stops at some table", loop.loc, cs)
        if b.exit == "raise":
            ctx.judge(key + ":all", None, "", "raises for some table", loop.loc)
            continue
        added = any(e.kind == "mut" and e.name in ("append", "add") for e in b.events if e.kind != "loop")
        inner = [e for e in b.events if e.kind == "loop"]
        if ismap:
            continue
        if not added and not zero and not hand:
            ctx.judge(key + ":tables", False if all(understood(a) for a, _ in b.conds) else None, "", "a table is left out of the list when %s" % cs[:200], loop.loc)
        else:
            ctx.ok(key + ":tables", "tables with rows are listed", loop.loc)
        attrs = [i for i in inner if i.base is not None and any(x.op == "attr" and x.args[1] == "attrs" for x in subterms(unphi(i.base)))]
        if not attrs:
            comps = any(e.kind == "setitem" and any(x.op == "comp" for x in subterms(plain(e.value))) for e in b.events if isinstance(e.value, Term))
            ctx.judge(key + ":names", None if comps or inner else False, "", "the metadata names of a table are not listed when %s" % cs[:200], loop.loc)
            continue
        for i in attrs:
            names(ctx, key, i)


def names(ctx, key, loop):
    x = unphi(loop.value) if isinstance(loop.value, Term) else None
    for b in loop.paths:
        cs = conds_str(b.conds)
        if b.exit in ("break", "return"):
            ctx.bad(key + ":names", "the listing of names stops at some attribute", loop.loc, cs)
            continue
        add = [e for e in b.events if e.kind == "mut" and e.name in ("append", "add") and e.args and unphi(e.args[0]) is x]
        if add:
            ctx.ok(key + ":names", "names of metadata dictionaries are listed", loop.loc)
            continue
        over = [e for e in b.events if e.kind == "setitem" and isinstance(e.value, Term) and plain(e.value).op == "listv"]
        if over:
            ctx.judge(key + ":names", None if len(plain(over[0].value).args[0]) > 1 else False, "", "only the last name is kept", over[0].loc)
            continue
        private = any(pol and a.op in ("truth",) and "startswith" in show(a) and "'_'" in show(a) for a, pol in b.conds) or \
            any(pol and a.op == "eq" and const("_") in a.args for a, pol in b.conds)
        info = any(pol and (a.op == "eq" and const("info") in a.args or a.op == "in" and a.args[1] is not x and {
            y.args[0] for y in subterms(plain(a.args[1])) if is_const(y)} == {"info"}) for a, pol in b.conds)
        notdict = any(not pol and a.op == "isinstance" for a, pol in b.conds) or any("isinstance" in show(a) and not pol for a, pol in b.conds)
        if private or info or notdict:
            continue
        und = any(t.op in UNKNOWN_OPS for a, _ in b.conds for t in subterms(plain(a)))
        ctx.judge(key + ":names", None if und else False, "", "a metadata dictionary is not listed when %s" % cs[:300], loop.loc)


def chunks(ctx, cls, S, base):
    d, f = cls.lookup("iterate_over_chunks")
    if not isinstance(f, Func):
        raise AnchorError("%s.iterate_over_chunks" % cls.qual)
    if d is not cls and not base:
        return
    key = "%s.iterate_over_chunks" % cls.name
    c = param("chunksize")
    I = ctx.interp()
    for p in ctx.run(f, I, cls=cls):
        if p.kind == "raise":
            ctx.judge(key + ":raises", True if exc_type(p) == "KeyError" else None, "", "raises %s" % exc_type(p), f.loc())
            continue
        ys = [(e, loops) for e, loops in flat_events(p.events) if e.kind in ("yield", "yieldfrom")]
        src = None
        for e, loops in ys:
            v = unphi(e.value)
            if e.kind == "yieldfrom":
                src = v
                ctx.judge(key + ":every", not loops, "every chunk", "", e.loc)
                continue
            if len(loops) != 1:
                ctx.und(key + ":every", "yields %s" % show(v)[:150], e.loc)
                continue
            L, body = loops[0]
            src = unphi(L.base)
            ctx.judge(key + ":every", True if v is elem(src) or v is unphi(L.value) else (False if mentions(v, unphi(L.value)) else None),
                      "every chunk as read", "yields %s" % show(v)[:150], e.loc)
            for b in L.paths:
                if b.exit in ("break", "return"):
                    ctx.bad(key + ":every", "stops when %s" % conds_str(b.conds)[:150], L.loc)
                elif not any(x.kind in ("yield", "yieldfrom") for x in b.events):
                    ctx.bad(key + ":every", "a chunk is not yielded when %s" % conds_str(b.conds)[:150], L.loc)
        if src is None:
            ctx.judge(key + ":every", None if any(e.kind == "callv" for e, _ in flat_events(p.events)) else False, "", "no chunk is yielded", f.loc(), p.cond_str())
            continue
        if src.op != "meth" or src.args[1] != "select" or src.args[0] is not S:
            ctx.und(key + ":size", "iterates over %s" % show(src)[:200], f.loc())
            continue
        kw = dict(src.args[3])
        k = src.args[2][0] if src.args[2] else kw.get("key")
        want = param("key") if base else const("data")
        ctx.judge(key + ":table", match(k, [want, param("key")] if base else [want]) if k is not None else None, "of that table", "of table %s" % show(k), f.loc())
        ctx.judge(key + ":kwargs", True if any(x.startswith("**") for x in kw) else False, "with the caller's selection", "the caller's arguments are not forwarded", f.loc())
        v = kw.get("chunksize")
        if v is None:
            ctx.judge(key + ":size", False, "", "the table is not read in chunks", f.loc(), p.cond_str())
            continue
        if v.op == "kwget":
            v = v.args[2]
        given = [pol for a, pol in p.conds if mentions(a, c)]
        ctx.judge(key + ":size", positive(I, v, c, k, S, p), "a positive number of rows", "the chunk size is %s when %s" % (show(v)[:200], p.cond_str()[:150]), f.loc(), p.cond_str())


def positive(I, v, c, k, S, p):
    """True when the value passed on is positive for tables with rows; pandas makes it an integer"""
    guarded = False
    while v.op == "call" and v.args[0] in ("int", "round", "max", "numpy.ceil", "math.ceil", "numpy.floor", "math.floor", "float"):
        if v.args[0] == "max":
            rest = [x for x in v.args[1] if not (is_const(x) and x.args[0] >= 1)]
            if len(rest) < len(v.args[1]):
                return True
            return None
        v = v.args[1][0] if v.args[1] else dict(v.args[2]).get("x", dict(v.args[2]).get("a", NONE))
    if v is c or strip_int(v) is c:
        t = [pol for a, pol in p.conds if a is mk("truth", c)]
        if t and all(t):
            return True
        if I.decide(p.st, mk("lt", const(0), c)) is True:
            return True
        if not t and any(mentions(a, c) and a.op not in ("is", "eq") for a, _ in p.conds):
            return None
        return False
    n = attr(mk("meth", S, "get_storer", (k,), ()), "nrows")
    b = item(attr(attr(mk("meth", S, "get_storer", (k,), ()), "attrs"), "metadata"), const("n_bytes"))
    ratio = mk_ratio(v, n, b)
    if ratio is not None:
        return 0 < ratio <= 8e9
    return False if known_vocab(v, [n, b]) else None


def strip_int(v):
    return v.args[1][0] if v.op == "call" and v.args[0] == "int" and v.args[1] else v


def mk_ratio(v, n, b):
    """K when v is K*n/b"""
    q = div(v, n)
    q = mul(q, b)
    q = unphi(q)
    return q.args[0] if is_const(q) and not isinstance(q.args[0], bool) and isinstance(q.args[0], (int, float)) or is_const(q) else None


def softened(e):
    """getattr(x, name, default)"""
    return isinstance(e.value, Term) and e.value.op == "call" and e.value.args[0] == "getattr" and len(e.value.args[1]) > 2
