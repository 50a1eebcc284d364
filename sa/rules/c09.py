"""Event information: the waveform constructor must store each argument in the attribute of the same name and the array
hook must copy every one of these attributes from the array the new one is derived from (value-flow over all paths); the
readers' fields must be the corresponding fields of one and the same raw event; the time stamp must be seconds*1e9 plus
nanoseconds; the DL1 row dictionary must take each entry from the waveforms it is called with; the columns must be stored
in integers wide enough; the calibrator must mark its own result, never its input."""
import ast
import re
from .util import *
from . import dl1

WF = IO + "waveform.Waveform"
# position of each field in the tuple the TARGET library fills (target_io WaveformArrayReader)
TIO_POS = dict(first_cell_id=0, stale=1, missing_packets=2, t_tack=3)
WIDTH = dict(iev=32, first_cell_id=16, t_tack=64, mc_true=32, pixel=16)
HOOKS = ("__array_wrap__", "__array_ufunc__", "__array_function__", "__getitem__", "__reduce__", "__copy__",
         "__deepcopy__", "copy", "view", "astype", "__array__", "__getattribute__", "__getattr__", "__setattr__")


def sets(p, base=None):
    """last value of every attribute set on the path (on `base` if given)"""
    out = {}
    for e, loops in events_of(p, "setattr"):
        b = plain(e.base)
        if base is None or b is base:
            out[e.name] = (plain(e.value), e, loops)
    return out


def built_by(p):
    """{object: {attribute: value}} for waveforms under construction: attributes set on an array view"""
    out = {}
    for e, loops in events_of(p, "setattr"):
        b = plain(e.base)
        if b.op == "meth" and b.args[1] == "view":
            out.setdefault(b, {})[e.name] = plain(e.value)
    return out


def constructor(ctx, W):
    d, f = W.lookup("__new__")
    if not isinstance(f, Func):
        raise AnchorError("Waveform.__new__")
    names = [a.arg for a in f.node.args.args][2:] + [a.arg for a in f.node.args.kwonlyargs]
    fields = None
    for p in returns(ctx.run(f, cls=W)):
        v = plain(p.value)
        got = built_by(p).get(v)
        if got is None:
            ctx.und("new", "the constructor returns %s" % show(v)[:200], f.loc())
            continue
        fields = set(got) if fields is None else fields & set(got)
        arr = [x for x in subterms(v) if x is param(f.node.args.args[1].arg)]
        ctx.judge("new:samples", True if arr else None, "the samples are the given ones", "samples are %s" % show(v)[:200], f.loc())
        for a in names:
            t = [n for n in got if n == a or n == "_" + a]
            if not t:
                ctx.bad("new:%s" % a, "the constructor does not store %s" % a, f.loc(), p.cond_str())
                continue
            for n in t:
                ctx.judge("new:%s" % a, match(got[n], [param(a)], {("param", x) for x in names}), "stored under its own name",
                          "%s holds %s" % (n, show(got[n])[:200]), f.loc(), p.cond_str())
    return fields or set(), names


def hook(ctx, W, fields):
    d, f = W.lookup("__array_finalize__")
    if not isinstance(f, Func):
        ctx.bad("hook", "derived arrays do not receive the event information (%s has no __array_finalize__)" % W.name, W.loc())
        return
    src = param(f.node.args.args[1].arg)
    for p in returns(ctx.run(f, cls=W)):
        known = True
        skip = False
        for a, pol in p.conds:
            if a is mk("is", src, NONE) or a is mk("is", NONE, src):
                skip |= pol
            elif a.op == "isinstance" and a.args[0] is src:
                skip |= not pol
            elif not (a.op == "call" and a.args[0] in ("isinstance", "hasattr")):
                known = known and known_vocab(a, [src, SELF], {("attr", n) for n in fields | {"shape", "ndim", "size", "dtype", "base"}})
            else:
                skip |= not pol
        if skip:
            continue
        got = sets(p, SELF)
        whole = [e for e, _ in flat_events(p.events) if e.kind in ("meth", "mut") and "__dict__" in show(plain(e.base))
                 and e.name == "update"] if hasattr(p, "events") else []
        for n in sorted(fields):
            if n not in got:
                if whole or any(e.kind == "call" and e.name == "setattr" for e, _ in flat_events(p.events)) or any(
                        e.kind == "setattr" and not isinstance(e.name, str) for e, _ in flat_events(p.events)):
                    ctx.und("hook:%s" % n, "copied in a way that is not understood", f.loc())
                else:
                    ctx.judge("hook:%s" % n, False if known else None, "", "derived arrays do not receive %s when %s" % (n, p.cond_str()),
                              f.loc(), p.cond_str())
                continue
            v, e, _ = got[n]
            ok = v is attr(src, n) or (v.op == "call" and v.args[0] == "getattr" and v.args[1][:2] == (src, const(n)))
            if not ok and v.op == "call" and v.args[0] == "getattr" and len(v.args[1]) >= 2 and v.args[1][0] is src and is_const(v.args[1][1]) \
                    and v.args[1][1].args[0] == n.lstrip("_"):
                ok = None
            if ok is False and not known_vocab(v, [src, SELF], {("call", "getattr")} | {("attr", x) for x in fields}):
                ok = None
            ctx.judge("hook:%s" % n, ok, "copied from the source array", "%s of a derived array is %s" % (n, show(v)[:200]), f.loc(),
                      p.cond_str())


def timestamp(ctx, c, fields):
    d, f = c.lookup("t_cpu")
    if not isinstance(f, Func):
        raise AnchorError("%s.t_cpu" % c.qual)
    C = [n for n in fields if "t_cpu" in n]
    if len(C) != 1:
        ctx.und("t_cpu:%s" % c.name, "no single time container among %s" % sorted(fields))
        return None
    C = attr(SELF, C[0])
    form = None
    for p in returns(ctx.run(f, cls=c)):
        v = plain(p.value)
        if v is C:
            form = "whole"
            ctx.ok("t_cpu:%s" % c.name, "the stored time stamp", f.loc())
            continue
        form = "pair"
        s, ns = item(C, const(0)), item(C, const(1))
        x = None
        if v.op == "call" and v.args[0].split(".")[-1] in ("to_datetime", "Timestamp"):
            d_ = dict(v.args[2])
            u = d_.get("unit", const("ns"))
            x = v.args[1][0] if v.args[1] else d_.get("arg", d_.get("ts_input"))
        if x is None or u is not const("ns"):
            ctx.judge("t_cpu:%s" % c.name, False if x is not None and is_const(u) else None, "", "time stamp is %s" % show(v)[:300], f.loc())
            continue

        def strip(t):
            def g(y):
                if y.op == "call" and y.args[0] in ("numpy.int64", "int", "numpy.uint64") and len(y.args[1]) == 1:
                    return strip(y.args[1][0])
                return None
            return rewrite(t, g)
        want = add(mul(const(1000000000), s), ns)
        # a double does not hold nanoseconds since the epoch: the parts are converted before they are added
        rough = any(isinstance(n, ast.Constant) and isinstance(n.value, float) or isinstance(n, ast.BinOp) and isinstance(n.op, ast.Div) for n in ast.walk(f.node))
        mixed = [y for y in subterms(x) if y.op == "call" and y.args[0] in ("numpy.int64", "int", "numpy.uint64", "round") and mentions(y, s) and mentions(y, ns)] or \
            not any(y.op == "call" and y.args[0] in ("numpy.int64", "int", "numpy.uint64") and mentions(y, s) for y in subterms(x))
        ctx.judge("t_cpu:%s:exact" % c.name, not (rough and mixed), "the seconds are converted to an integer before the nanoseconds are added",
                  "the nanoseconds are added in floating point: %s" % show(x)[:200], f.loc())
        ctx.judge("t_cpu:%s" % c.name, match(strip(x), [want]), "seconds times 1e9 plus nanoseconds", "time stamp is %s" % show(x)[:300],
                  f.loc())
    return form


def tio(ctx, c, fields):
    d, f = c.lookup("_get_event")
    if not isinstance(f, Func):
        raise AnchorError("%s._get_event" % c.qual)
    iev = param(f.node.args.args[1].arg)
    binds = set()
    for p in returns(ctx.run(f, cls=c)):
        v = plain(p.value)
        got = built_by(p).get(v)
        key = "%s" % c.name
        if got is None:
            ctx.und(key, "the event is %s" % show(v)[:200], f.loc())
            continue
        raw = None
        for n, x in got.items():
            for y in subterms(x):
                if y.op == "item" and is_const(y.args[1]) and y.args[0].op == "meth":
                    raw = y.args[0]
        if raw is None:
            ctx.und(key, "no tuple of event fields", f.loc())
            continue
        binds.add((raw.args[0], raw.args[1]))
        ok = raw.args[2] and raw.args[2][0] is iev
        ctx.judge(key + ":event", True if ok else (False if raw.args[2] and known_vocab(raw.args[2][0], [iev, SELF]) else None),
                  "the library is asked for the requested event", "asks for event %s" % (show(raw.args[2][0]) if raw.args[2] else "?"), f.loc())
        given = [x for x in subterms(v) if len(raw.args[2]) > 1 and x is raw.args[2][1]]
        if len(raw.args[2]) > 1:
            arr = raw.args[2][1]
            shared = arr.op in ("attr", "item", "getattr") and mentions(arr, SELF) or arr.op == "const"
            copied = any(x.op == "call" and x.args[0] in ("numpy.copy", "numpy.array") and mentions(x, arr) for x in subterms(v))
            ctx.judge(key + ":own-samples", False if shared and not copied else True, "every event has its own samples",
                      "the samples of all events are kept in one array, %s" % show(arr)[:200], f.loc(), p.cond_str())
        ctx.judge(key + ":samples", True if given else None, "the filled array is the event's", "samples are %s" % show(v)[:200], f.loc())
        spec = {n: item(raw, const(i)) for n, i in TIO_POS.items()}
        spec["iev"] = iev
        spec["is_r1"] = attr(SELF, "is_r1")
        for n in fields:
            if "t_cpu" in n:
                spec[n] = tup(item(raw, const(4)), item(raw, const(5)))
        for n, s in spec.items():
            if n not in got:
                ctx.bad("%s:%s" % (key, n), "not filled", f.loc())
                continue
            specs = [s]
            if n in ("stale", "missing_packets"):
                specs.append(call("bool", s))
            if n in ("first_cell_id", "t_tack"):
                specs.append(call("int", s))
            ctx.judge("%s:%s" % (key, n), match(got[n], specs, vocab(raw) | vocab(SELF) | {("attr", "is_r1"), ("attr", "max_events"), ("attr", "run_id"), ("attr", "_n_events")}),
                      "the raw event's field", "is %s" % show(got[n])[:300], f.loc(), p.cond_str())
    # which library call fills it
    d, g = c.lookup("__init__")
    for p in returns(ctx.run(g, cls=c)):
        got = sets(p)
        for b, m in binds:
            if b is not SELF or m not in got:
                ctx.und("%s:library" % c.name, "event getter %s is not bound by the constructor" % m, g.loc())
                continue
            v = got[m][0]
            r = got["is_r1"][0] if "is_r1" in got else None
            if r is None or v.op != "attr":
                ctx.und("%s:library" % c.name, "getter %s" % show(v)[:200], g.loc())
                continue
            pol = [q for a, q in p.conds if a is r or (a.op == "truth" and a.args[0] is r)]
            fld = r.op == "attr" and r.args[1] == "fR1" and r.args[0] is v.args[0]
            ctx.judge("%s:is_r1" % c.name, True if fld else (False if r.op in ("const", "attr") else None), "the file's flag",
                      "is_r1 is %s" % show(r)[:200], g.loc())
            names = {True: "GetR1Event", False: "GetR0Event"}
            if not pol:
                ctx.judge("%s:library" % c.name, None, "", "getter does not depend on the calibration flag", g.loc())
                continue
            ctx.judge("%s:library" % c.name, v.args[1] == names[pol[-1]], "R1 events are read as R1, R0 as R0",
                      "%s events are read with %s" % ("R1" if pol[-1] else "R0", v.args[1]), g.loc(), p.cond_str())


def event_of(t, iev):
    """roots 'the requested event' in a term: seeker items"""
    return {x for x in subterms(t) if x.op == "item" and (x.args[1] is iev)} | {x for x in subterms(t) if x.op == "elem"}


def simtel(ctx, c, fields):
    d, f = c.lookup("_get_event")
    d2, g = c.lookup("__iter__")
    for fn in (f, g):
        if not isinstance(fn, Func):
            raise AnchorError("%s._get_event" % c.qual)
        iev = param(fn.node.args.args[1].arg) if len(fn.node.args.args) > 1 else None
        key = "%s.%s" % (c.name, fn.name)
        n = 0
        for p in ctx.run(fn, cls=c):
            if p.kind == "raise":
                continue
            for q in [p] + [b for e in p.events if e.kind == "loop" for b in e.paths]:
                if q is p and fn is g and any(e.kind == "loop" for e in p.events):
                    continue
                n += one_simtel(ctx, q, key, fn, iev, fields)
        if not n:
            ctx.und(key, "no event is built", fn.loc())


def one_simtel(ctx, p, key, fn, iev, fields):
    objs = built_by(p)
    if len(objs) != 1:
        return 0
    (v, got), = objs.items()
    evs = set()
    for t in [v] + [x for n, x in got.items()]:
        evs |= event_of(t, iev)
    if len(evs) != 1:
        ctx.und(key, "%d raw events are used" % len(evs), fn.loc())
        return 1
    E = evs.pop()
    mine = lambda t: E in subterms(t)                                    # noqa: E731
    tel = attr(SELF, "tel")
    order = attr(SELF, "pixel_order")

    def telfield(a, b):
        return item(attr(item(attr(attr(E, a), "tel"), tel), b), order)
    spec = dict(iev=attr(E, "count"), mc_true=telfield("mc", "photo_electron_image"), is_r1=const(True))
    extra = {("attr", x) for x in ("event_id", "waveform", "r0", "r1", "mc", "tel", "pixel_order", "photo_electron_image", "count", "dl0",
                                   "_iev", "_t_cpu", "mcheader", "run_id", "obs_id", "pointing", "seeker")}
    for n, s in spec.items():
        ctx.judge("%s:%s" % (key, n), match(got[n], [s], extra) if n in got else False, "the raw event's field",
                  "is %s" % show(got.get(n, NONE))[:300], fn.loc(), conds_str(p.conds))
    sm = telfield("r1", "waveform")
    ctx.judge("%s:samples" % key, True if sm in subterms(v) else (False if known_vocab(v, [sm], extra | {("call", "numpy.asarray"), ("meth", "view"), ("op", "ext")})
                                                                 else None), "the event's R1 samples in pixel order",
              "samples are %s" % show(v)[:300], fn.loc())
    tc = [n for n in got if "t_cpu" in n]
    for n in tc:
        ok = mine(got[n]) and any(x.op == "attr" and x.args[1] == "gps_time" for x in subterms(got[n]))
        ctx.judge("%s:t_cpu" % key, True if ok else (False if not mine(got[n]) else None), "the event's trigger time",
                  "time is %s" % show(got[n])[:200], fn.loc())
    # the tables written next to the event describe the same event
    own = sets(p, SELF)
    for tab in ("mc", "pointing"):
        if tab not in own:
            ctx.und("%s:%s" % (key, tab), "table not filled while the event is built", fn.loc())
            continue
        ents = dl1.dict_entries(own[tab][0])
        if ents is None:
            ctx.und("%s:%s" % (key, tab), "table is %s" % show(own[tab][0])[:200], fn.loc())
            continue
        for k, x, cs in ents:
            kn = k.args[0] if is_const(k) else None
            if kn == "iev":
                ok = x is got.get("iev")
            elif kn == "t_cpu":
                ok = tc and x is got.get(tc[0])
            else:
                names = [y.args[1] for y in subterms(x) if y.op == "attr"]
                ok = mine(x) and (kn in names or (None if mine(x) and kn not in names and not is_const(x) else False))
                if ok is None:
                    other = [y for k2, y, _ in ents if k2 is not k and is_const(k2) and k2.args[0] in names]
                    ok = False if other else None
            ctx.judge("%s:%s[%s]" % (key, tab, kn), ok, "belongs to the event", "is %s" % show(x)[:200], fn.loc())
    return 1


def rows(ctx, fields):
    ex, objs = dl1.extractors(ctx)
    d, f = ex.lookup("__call__")
    if not isinstance(f, Func):
        raise AnchorError("DL1Extractor.__call__")
    I = ctx.interp(opaque={dl1.CHAIN + ".process"})
    W = param(f.node.args.args[1].arg)
    for p in returns(ctx.run(f, I, cls=ex)):
        v = plain(p.value)
        ents = {k.args[0]: x for k, x, c in dl1.dict_entries(v) or () if is_const(k)} if v.op == "dictv" and all(
            s[0] == "kv" or s[0] == "merge" for s in v.args[0]) else None
        if v.op != "dictv":
            ctx.und("rows", "the row is %s" % show(v)[:200], f.loc())
            continue
        ents, merged = {}, []
        for s in v.args[0]:
            if s[0] == "kv" and is_const(s[1]):
                ents[s[1].args[0]] = s[2]
            else:
                merged.append(s[1])
        absent = any(pol and a.op == "is" and set(a.args) == {attr(W, "mc_true"), NONE} for a, pol in p.conds)
        for n in ("iev", "t_cpu", "t_tack", "first_cell_id", "mc_true"):
            if n == "mc_true" and absent:
                continue
            x = ents.get(n)
            if x is None:
                ctx.judge("rows:%s" % n, None if not all(m.op == "meth" and m.args[1] == "process" for m in merged) else False, "",
                          "the row does not record %s" % n, f.loc(), p.cond_str())
                continue
            ok = match(x, [attr(W, n)], {("attr", a) for a in fields} | {("attr", "reader"), ("attr", "t_cpu"), ("meth", "time_calibrator")})
            if ok is None and any(y.op == "callv" or y.op == "meth" and y.args[1] == "time_calibrator" for y in subterms(x)):
                ok = False
            ctx.judge("rows:%s" % n, ok, "the waveforms' own", "%s of the row is %s" % (n, show(x)[:300]), f.loc(), p.cond_str())
        x = ents.get("pixel")
        ok = None
        if x is not None and x.op == "attr" and x.args[0] is SELF:
            R = [h.get(x.args[1]) for h in objs]
            n = attr(param("reader"), "n_pixels")
            specs = [call("numpy.arange", const(0), n), rng(n), call("list", rng(n)), call("numpy.array", rng(n))]
            ok = True
            for r in R:
                m = match(r, specs, {("attr", "n_modules"), ("attr", "n_samples")}) if r is not None else None
                ok = m if m is not True and ok is not False else ok
        ctx.judge("rows:pixel", ok, "pixel k is row k", "pixel of the row is %s" % (show(x)[:200] if x is not None else "missing"), f.loc())


def dtypes(ctx):
    w = ctx.P.cls(dl1.EX + "DL1Writer")
    d, f = w.lookup("_prepare_before_append")
    if not isinstance(f, Func):
        raise AnchorError("DL1Writer._prepare_before_append")
    n = 0
    for p in returns(ctx.run(f, cls=w)):
        for e, loops in events_of(p, "setitem"):
            k = e.args[0] if e.args else None
            if k is None or not is_const(k) or k.args[0] not in WIDTH:
                continue
            v = plain(e.value)
            col = k.args[0]
            casts = []

            def strip(x):
                if x.op == "meth" and x.args[1] == "astype":
                    casts.append(x.args[2][0] if x.args[2] else dict(x.args[3]).get("dtype", NONE))
                    return rewrite(x.args[0], strip)
                return None
            src = rewrite(v, strip)
            D = param(f.node.args.args[-1].arg)
            ok = True if src.op == "item" and src.args[1] is k else match(src, [item(D, k)])
            if ok is not True or not casts:
                ctx.judge("stored:%s" % col, None if not casts and ok is True else ok, "", "column %s is filled with %s" % (col, show(v)[:200]), e.loc)
                continue
            n += 1
            for t in casts:
                m = re.search(r"(u?)int(\d+)", show(t))
                if not m:
                    ctx.judge("stored:%s" % col, False if re.search(r"float(16|32)|bool", show(t)) else None, "", "stored as %s" % show(t), e.loc)
                    continue
                bits = int(m.group(2)) - (0 if m.group(1) else 1)
                need = WIDTH[col] if m.group(1) else WIDTH[col] - 1
                ctx.judge("stored:%s" % col, bits >= need, "stored in %d bits" % bits, "%s does not fit every value" % show(t), e.loc)
    if not n:
        ctx.und("stored", "no column conversion found", f.loc())


def calibrator(ctx):
    c = ctx.P.cls("CHECLabPy.calib.waveform.WaveformCalibrator")
    d, f = c.lookup("__call__")
    W = param(f.node.args.args[1].arg)
    for p in returns(ctx.run(f, cls=c)):
        v = plain(p.value)
        s = {}
        for e, _ in events_of(p, "setattr"):
            b = plain(e.base)
            if b is W:
                ctx.bad("calibrator:input", "relabels the waveforms it was given (%s)" % e.name, e.loc)
            s[(b, e.name)] = plain(e.value)
        x = s.get((v, "is_r1"))
        ctx.judge("calibrator:is_r1", x is const(True) if x is not None and is_const(x) else (None if x is not None else False),
                  "the calibrated copy is marked R1", "the result is marked %s" % (show(x) if x is not None else "as its input"), f.loc())
        derived = v.op == "meth" and v.args[1] in ("astype", "copy") and v.args[0] is W
        plainarr = v.op == "call" and v.args[0].startswith("numpy.") and v.args[0].split(".")[-1] in ("array", "zeros", "empty", "asarray")
        sub = dict(v.args[3]).get("subok", const(True)) if derived else const(True)
        ctx.judge("calibrator:derived", (sub is const(True)) if derived else (False if plainarr else None), "derived from its input, so it carries its event",
                  "the result is %s, which does not carry the event information" % show(v)[:200], f.loc())


def run(ctx):
    P = ctx.P
    W = P.cls(WF)
    base = P.cls(IO + "WaveformReader")
    with ctx.section("new"):
        fields, names = constructor(ctx, W)
    subs = [W] + list(P.subclasses(W))
    for c in subs:
        with ctx.section("hook:%s" % c.name):
            if c is W or "__array_finalize__" in c.members:
                hook(ctx, c, fields)
            if c is not W and "__new__" in c.members:
                ctx.und("new:%s" % c.name, "another constructor")
            for h in HOOKS:
                if h in c.members:
                    ctx.und("hook:%s.%s" % (c.name, h), "array protocol method overridden")
        with ctx.section("t_cpu:%s" % c.name):
            timestamp(ctx, c, fields)
    n = 0
    for c in P.subclasses(base):
        if c.module.name.startswith("_"):
            continue
        if c.name == "TIOReader" or any(getattr(b, "name", "") == "TIOReader" for b in c.mro[1:]):
            n += 1
            with ctx.section(c.name):
                tio(ctx, c, fields)
        elif c.name == "SimtelReader":
            n += 1
            with ctx.section(c.name):
                simtel(ctx, c, fields)
    if n < 2:
        raise AnchorError("TIOReader and SimtelReader")
    with ctx.section("rows"):
        rows(ctx, fields)
    with ctx.section("stored"):
        dtypes(ctx)
    with ctx.section("calibrator"):
        calibrator(ctx)
    ctx.assumptions.append("the TARGET library's event tuple is (first cell, stale, missing, TACK, CPU seconds, CPU nanoseconds); "
                           "numpy calls __array_finalize__ for every view, slice, copy and arithmetic result of a subclass")
