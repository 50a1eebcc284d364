"""DL1 extraction: every path through the loop over the reader's events must either establish the skip condition, store
nothing and count one skipped event, or establish its negation, append the pixels of that event exactly once (from one
call of the extractor) and count one processed event, and continue with the next event; the recorded counts and times
must equal, as loop summaries, the number of skipping and storing iterations and the times of the first and last stored
event; the skip condition is stale-or-missing; a file may only be created under the branch fact that its normalised path
differs from the input's; the program may only reach its loop over several inputs under the fact that no explicit output
path is given, and gives every file its own reader and extractor."""
from .util import *
from .refs import reference, same
from . import dl1

SPEC = '''
def skips(wf):
    if wf.stale:
        return True
    if wf.missing_packets:
        return True
    return False

def counts(events, skip):
    n = 0
    s = 0
    first = None
    last = None
    for w in events:
        if skip(w):
            s += 1
            continue
        last = w.t_cpu
        if first is None:
            first = w.t_cpu
        n += 1
    return n, s, first, last
'''
GOT = '''
def skips(cls, wf):
    if cls.skip_event(wf):
        return True
    return False
'''
NORM = ("os.path.realpath", "os.path.abspath",  # only the first resolves links
        "os.path.normpath", "pathlib.Path", "os.path.expanduser", "str", "os.fspath")


def run(ctx):
    P = ctx.P
    ref = reference(ctx, SPEC)
    ex = P.cls(dl1.EX + "DL1Extractor")
    # ---- which events are skipped
    with ctx.section("skip"):
        d, f = ex.lookup("skip_event")
        if not isinstance(f, Func):
            raise AnchorError("DL1Extractor.skip_event")
        I = ctx.interp()
        got = I.run(reference(ctx, GOT)["skips"], args={"cls": mk("class", ex.qual), "wf": param("wf")})
        want = I.run(ref["skips"], args={"wf": param("wf")})
        same(ctx, "skip:condition", I, got, want, what="an event is skipped when it is stale or incomplete", where=f.loc())
    # ---- the loop
    w, f, I, paths = dl1.writer(ctx)
    names = [a.arg for a in f.node.args.args]
    reader, extr = param("reader"), param("dl1_extractor")
    if "reader" not in names or "dl1_extractor" not in names:
        raise AnchorError("write_dl1_file(reader, dl1_extractor)")
    rpath = attr(reader, "path")
    n_ret = 0
    with ctx.section("state"):
        defaults_kept(ctx, f, paths)
    with ctx.section("rows"):
        rows_kept(ctx, w)
    for p in paths:
        where = f.loc()
        creates = [e for e, _ in flat_events(p.events) if e.kind in ("call", "new") and (
            (e.name or "").endswith(".__init__") or (e.name or "") == w.qual)]
        # -- output path
        with ctx.section("path"):
            for e in creates:
                out = plain(dict(e.kwargs).get("path", e.args[0] if e.args else NONE))
                v = distinct(p, out, rpath)
                ctx.judge("path:not-input", v, "created under a path that differs from the input's",
                          "%s is created without ensuring that it is not the input file, when %s" % (show(out)[:200], p.cond_str()[:400]),
                          e.loc)
        if p.kind != "return":
            continue
        n_ret += 1
        with ctx.section("loop"):
            loop(ctx, p, I, f, reader, extr, ref)
    if not n_ret:
        ctx.und("loop", "no complete path")
    with ctx.section("main"):
        main_program(ctx)


def norm(t):
    """(normalised?, the path)"""
    n = False
    while True:
        if t.op == "call" and t.args[0] in NORM:
            n = n or t.args[0] in NORM[:1]
            a = list(t.args[1]) + [v for k, v in t.args[2]]
            if len(a) != 1:
                return n, t
            t = a[0]
        elif t.op == "meth" and t.args[1] in ("resolve", "absolute", "expanduser", "as_posix"):
            n = n or t.args[1] == "resolve"
            t = t.args[0]
        else:
            return n, t


def distinct(p, out, rpath):
    weak = False
    for a, pol in p.conds:
        a = plain(a)
        if a.op == "eq":
            sides = [norm(x) for x in a.args]
            if {s[1] for s in sides} == {out, rpath}:
                if not pol and all(s[0] for s in sides):
                    return True
                weak = True
        elif a.op in ("call", "truth"):
            x = a.args[0] if a.op == "truth" else a
            if x.op == "call" and x.args[0].endswith("samefile"):
                vals = {norm(v)[1] for v in list(x.args[1]) + [v for k, v in x.args[2]]}
                if vals == {out, rpath} and not pol:
                    return True
                weak = weak or vals == {out, rpath}
            elif x.op == "meth" and x.args[1] == "samefile" and not pol and {norm(x.args[0])[1], norm(x.args[2][0])[1]} == {out, rpath}:
                return True
    if weak:
        return False
    # facts that relate both but are not understood
    for a, pol in p.conds:
        if mentions(a, rpath) and a.op not in ("truth",) and (mentions(a, out) or any(mentions(a, x) for x in subterms(out) if x.op in ("meth", "call"))):
            return None
    return False


def loop(ctx, p, I, f, reader, extr, ref):
    where = f.loc()
    loops = [(e, l) for e, l in flat_events(p.events) if e.kind == "loop" and not l and any(
        x.kind in ("call", "meth") and str(x.name).split(".")[-1] in ("append", "write") and "hdf5" in str(x.name)
        for bp in e.paths for x, _ in flat_events(bp.events))]
    if len(loops) != 1:
        ctx.und("loop", "%d loops that store events" % len(loops), where)
        return
    L = loops[0][0]
    it = plain(L.base)
    if it.op == "enumerate":
        it = it.args[0]
    ctx.judge("loop:events", True if it is reader else (False if it.op in ("item", "meth", "comp", "range") and mentions(it, reader) and
                                                       it.op != "meth" else None),
              "over all events of the reader", "over %s" % show(it)[:200], L.loc)
    ev = elem(it)
    skip = mk("meth", extr, "skip_event", (ev,), ())
    skipping, storing = [], []
    for bp in L.paths:
        conds = [(plain(a), pol) for a, pol in bp.conds]
        fact = None
        for a, pol in conds:
            if a.op == "truth" and a.args[0] is skip or a is skip:
                fact = pol
        other = [(a, pol) for a, pol in conds if not mentions(a, skip)]
        apps, calls = [], []
        for e, l in flat_events(bp.events):
            n = str(e.name).split(".")[-1]
            if e.kind in ("call", "meth") and n in ("append", "write") and "hdf5" in str(e.name):
                d = dict(e.kwargs)
                if plain(d.get("key", const("data"))) is const("data"):
                    apps.append((e, l))
            if e.kind == "callv" and plain(e.base if e.base is not None else e.value.args[0]) is extr or \
                    e.kind == "meth" and plain(e.base) is extr and n == "__call__":
                calls.append((e, l))
        cs = conds_str(bp.conds)[:400]
        if bp.exit == "raise":
            continue
        if bp.exit not in ("fall", "continue"):
            ctx.bad("loop:all", "the remaining events are not read when %s (%s)" % (cs, bp.exit), L.loc)
            continue
        hand = [e for e, _ in flat_events(bp.events) if e.kind == "handler"]
        in_loop = [1 for e, l in apps if l]
        if fact is True:
            skipping.append(bp)
            ctx.judge("loop:skip", not apps, "a skipped event is not stored", "a skipped event is stored when %s" % cs, L.loc)
            ctx.judge("loop:skip-extract", not calls, "a skipped event is not extracted",
                      "the extractor (and its running baseline) sees an event that is skipped, when %s" % cs, L.loc)
        elif fact is False:
            storing.append(bp)
            if hand and len(apps) == 0:
                ctx.bad("loop:store", "an event whose processing fails is dropped without a trace when %s" % cs, L.loc)
                continue
            ctx.judge("loop:store", None if in_loop else len(apps) == 1, "stored exactly once",
                      "the pixels of an event are stored %d times when %s" % (len(apps), cs), L.loc)
            ctx.judge("loop:extract", None if any(l for _, l in calls) else len(calls) == 1, "extracted exactly once",
                      "the extractor is called %d times for one event when %s" % (len(calls), cs), L.loc)
            for e, _ in apps:
                df = plain(dict(e.kwargs).get("df", e.args[0] if e.args else NONE))
                cvs = [x for x in subterms(df) if x.op == "callv" and x.args[0] is extr]
                ok = any(tuple(x.args[1]) == (ev,) for x in cvs)
                direct = df.op == "call" and df.args[0].endswith("DataFrame") and any(
                    x in cvs for x in list(df.args[1]) + [v for k, v in df.args[2]]) and len(df.args[1]) + len(df.args[2]) == 1
                ctx.judge("loop:content", True if ok and direct else (False if any(
                    x.op == "meth" and x.args[1] in ("dropna", "drop_duplicates", "head", "tail", "sample", "query", "drop", "truncate",
                                                    "nlargest", "nsmallest") or x.op == "item" and x.args[0].op == "attr" and x.args[0].args[1] in ("iloc", "loc") and
                    x.args[1].op == "slice" and any(a is not NONE for a in x.args[1].args) for x in subterms(df)) or not ok and not any(
                    UNKNOWN_OPS & {y.op for y in subterms(df)} for _ in (1,)) else None), "the extracted event is stored as it is",
                    "stores %s" % show(df)[:300], e.loc)
        else:
            if bp.exit == "continue" or not apps:
                ctx.judge("loop:other", None if any(mentions(a, ev) and "skip" in show(a) for a, _ in conds) else False,
                          "", "an event is neither stored nor skipped for being stale or incomplete when %s" % cs, L.loc)
            else:
                ctx.judge("loop:unchecked", False if not any("stale" in show(a) or "missing" in show(a) for a, _ in conds) else None,
                          "", "an event is stored without the skip test when %s" % cs, L.loc)
    if not storing:
        ctx.und("loop", "no storing path", L.loc)
        return
    # ---- recorded counts and times
    J = I
    wants = [plain(x.value) for x in J.run(ref["counts"], args={"events": it, "skip": param("skipfn")})]
    want = rewrite(wants[0], lambda x: mk("meth", extr, "skip_event", tuple(x.args[1]), ()) if x.op == "callv" and x.args[0] is param("skipfn") else None)
    n, s, first, last = want.args[0]
    meta = {}
    for e, l in flat_events(p.events):
        if e.kind == "setitem" and not l and e.args and is_const(e.args[0]):
            meta.setdefault(plain(e.base), {})[e.args[0].args[0]] = plain(e.value)
    n_tab = 0
    for key, name, ents, merged, e in dl1.tables(p):
        if name is not const("metadata") or key is not const("data"):
            continue
        n_tab += 1
        d = {}
        for m in merged:
            d.update(meta.get(m, {}))
        d.update(ents)
        for k, spec, txt in (("n_events", n, "number of stored events"), ("n_skipped", s, "number of skipped events"),
                             ("start_time", first, "time of the first stored event"), ("end_time", last, "time of the last stored event")):
            if k in ("start_time", "end_time") and k in d and any(x.op == "phi" for x in subterms(plain(d[k]))):
                late = counted(plain(d[k]), L, storing, skipping)
                ctx.judge("meta:" + k, False if late else None, "", "%s is only taken when %s" % (k, late), e.loc)
                continue
            if k not in d:
                ctx.judge("meta:" + k, None if len(merged) > 1 else False, "", "%s is not recorded" % k, e.loc)
                continue
            v = plain(d[k])
            extra = {("op", "sumcomp"), ("op", "fold"), ("op", "last"), ("param", "reader"), ("attr", "n_events"), ("attr", "t_tack"), ("attr", "stale"), ("attr", "missing_packets"),
                     ("op", "undef")}
            ctx.judge("meta:" + k, True if v is spec else (False if known_vocab(v, [spec], extra) else None),
                      "the " + txt, "%s is recorded as %s" % (k, show(v)[:300]), e.loc, p.cond_str()[:200])
    if not n_tab:
        ctx.und("meta", "run metadata not found", where)


def counted(v, L, storing, skipping):
    """a time that is only taken once some number (> 0) of events has already been stored"""
    for c in subterms(v):
        if c.op not in ("eq", "lt", "le"):
            continue
        ph = [x for x in c.args if x.op == "phi"]
        k = [x for x in c.args if is_const(x) and isinstance(x.args[0], int)]
        if len(ph) != 1 or len(k) != 1 or (L.inits or {}).get(ph[0]) is not const(0):
            continue
        if not all((bp.ends or {}).get(ph[0], ph[0]) is add(ph[0], const(1)) for bp in storing) or \
                not all((bp.ends or {}).get(ph[0], ph[0]) is ph[0] for bp in skipping):
            continue
        # never true for the first stored event
        n = k[0].args[0]
        first = {"eq": n == 0, "lt": (0 < n) if c.args[0] is ph[0] else n < 0, "le": (0 <= n) if c.args[0] is ph[0] else n <= 0}[c.op]
        if not first and used(v, c, True) and not used(v, c, False):
            return show(c)
    return None


def used(v, c, pol):
    """some alternative of a summary takes a value under this fact"""
    for x in subterms(v):
        if x.op != "fold":
            continue
        for cubes, val in x.args[2]:
            if val.op != "acc" and any(((c, pol) in tuple(cube)) if pol else ((c, True) not in tuple(cube)) for cube in cubes):
                return True
    return False


def defaults_kept(ctx, f, paths):
    """nothing is carried from one file to the next through a default argument"""
    import ast
    a = f.node.args
    pos = a.posonlyargs + a.args
    mutable = {x.arg for x, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + list(zip(a.kwonlyargs, a.kw_defaults))
               if isinstance(d, (ast.List, ast.Dict, ast.Set)) or isinstance(d, ast.Call) and getattr(d.func, "id", "") in ("list", "dict", "set", "defaultdict")}
    bad = 0
    for p in paths:
        for e, _ in flat_events(p.events):
            if e.kind in ("setitem", "inplace", "mut", "delitem") or e.kind == "meth" and e.name in ("append", "update", "extend", "add", "setdefault", "clear"):
                b = e.base
                if isinstance(b, Term) and plain(b).op == "param" and plain(b).args[0] in mutable:
                    bad += 1
                    ctx.bad("state", "%s is kept in a default argument, so a second file starts from what the first one left" % show(b), e.loc)
    if not bad:
        ctx.ok("state", "no default argument is modified (%d mutable defaults)" % len(mutable), f.loc())


DROP = {"dropna", "drop_duplicates", "head", "tail", "sample", "query", "nlargest", "nsmallest", "truncate", "take", "first", "last"}
KEEP = {"sort_values", "sort_index", "reset_index", "astype", "copy", "assign", "rename", "infer_objects", "convert_dtypes", "set_index", "reindex", "apply",
        "fillna", "round"}


def rows_kept(ctx, w):
    """the conversion applied before blocks are stored keeps every row"""
    d, f = w.lookup("_prepare_before_append")
    if not isinstance(f, Func):
        raise AnchorError("_prepare_before_append")
    D = param([x.arg for x in f.node.args.args if x.arg not in ("self", "cls")][0])
    for p in returns(ctx.run(f, cls=w)):
        t, ok, why = plain(p.value), True, ""
        while t is not D:
            if t.op == "meth" and t.args[1] in KEEP:
                t = t.args[0]
            elif t.op == "meth" and t.args[1] in DROP or t.op == "meth" and t.args[1] == "drop" and dict(t.args[3]).get("columns") is None:
                ok, why = False, "rows are removed by %s" % show(mk("meth", mk("ext", "rows"), *t.args[1:]))[:200]
                break
            elif t.op == "item" and t.args[0] is not D and t.args[0].op == "attr" and t.args[0].args[1] in ("iloc", "loc"):
                k = t.args[1]
                full = k.op == "slice" and all(x is NONE for x in k.args)
                ok, why = True if full else (False if k.op in ("slice", "lt", "le", "eq", "not") else None), "only rows %s are stored" % show(k)[:200]
                if not full:
                    break
                t = t.args[0].args[0]
            elif t.op == "item":
                k = t.args[1]
                ok, why = False if k.op in ("lt", "le", "eq", "not", "slice", "inv", "and", "or") or k.op == "meth" and k.args[1] in (
                    "notna", "notnull", "isin", "between", "duplicated") or k.op == "call" and k.args[0] in ("numpy.isfinite", "numpy.logical_not") else None, \
                    "only rows with %s are stored" % show(k)[:200]
                break
            else:
                ok, why = None, "stores %s" % show(t)[:200]
                break
        for e, _ in events_of(p, "meth"):
            if e.name in ("dropna", "drop_duplicates", "drop", "query", "truncate") and dict(e.kwargs).get("inplace") is const(True) and dict(e.kwargs).get("columns") is None:
                ok, why = False, "rows are removed by %s" % e.name
        ctx.judge("rows:kept", ok, "every row is stored", why, f.loc(), p.cond_str()[:200])


def main_program(ctx):
    P = ctx.P
    f = P.fn(dl1.EX + "main")
    wr = P.cls(dl1.EX + "DL1Writer").lookup("write_dl1_file")[1]
    fp = P.cls(IO + "WaveformReader").lookup("from_path")[1]
    I = ctx.interp(opaque={dl1.CHAIN, dl1.EX + "DL1Extractor", wr.qual, fp.qual})
    for p in returns(ctx.run(f, I)):
        for e, loops in flat_events(p.events):
            if not (e.kind == "call" and e.name == wr.qual):
                continue
            d = dict(e.kwargs)
            out = plain(d.get("output_path", NONE))
            rd, exr = plain(d.get("reader", NONE)), plain(d.get("dl1_extractor", NONE))
            if not loops:
                continue
            it = plain(loops[-1].base) if hasattr(loops[-1], "base") else None
            inputs = [x for x in subterms(rd) if x.op == "elem"]
            src = inputs[0].args[0] if inputs else None
            if src is None:
                ctx.und("main:reader", "reader of a file is %s" % show(rd)[:200], e.loc)
                continue
            # own reader, own extractor
            ctx.judge("main:extractor", True if mentions(exr, rd) else (False if exr.op in ("obj", "call") and not mentions(exr, rd) else None),
                      "every file has its own extractor", "the extractor is %s" % show(exr)[:200], e.loc)
            if out is NONE or any(x.op == "elem" and x.args[0] is src for x in subterms(out)):
                ctx.ok("main:one-output", "the output path belongs to the input", e.loc)
                continue
            nsrc = length(src)
            facts = {plain(a): pol for a, pol in p.conds}
            few = I.decide(p.st, mk("lt", const(1), nsrc)) is False or I.decide(p.st, mk("le", nsrc, const(1))) is True
            none = facts.get(mk("truth", out)) is False or facts.get(mk("is", out, NONE)) is True
            known = known_vocab(out, [src], {("attr", "output_path")})
            for e2, l2 in flat_events(p.events):
                if e2.kind == "setattr" and l2 and e2.name == "output_path" and any(x.op == "elem" and x.args[0] is src for x in subterms(plain(e2.value))):
                    none = few = False
                    known = True
            ctx.judge("main:one-output", True if few or none else (False if known else None),
                      "one explicit output path is only used for one input",
                      "one output path is used for several inputs when %s" % conds_str([(a, b) for a, b in p.conds])[-300:], e.loc)
