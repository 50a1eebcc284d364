"""What the DL1 extraction stores of an event: the row dictionary of the extractor and the tables of the writer are resolved
to normalised terms over the event, the reader and the pipeline objects made by the constructor, and compared with the
composition chain(baseline-subtract(time-calibrate(event))) for real data and chain(baseline-subtract(event)) for simulations;
column conversions before storing keep each column under its own name in a type that holds its range."""
from .util import *
from . import dl1

SUB = "CHECLabPy.utils.waveform.BaselineSubtractor"
TC = "CHECLabPy.calib.time_calibrator.TimeCalibrator"
EVENT = ("iev", "t_cpu", "t_tack", "first_cell_id")
WIDTH = {"iev": 32, "t_tack": 64, "first_cell_id": 16, "pixel": 16, "mc_true": 16}
TABLES = ("config", "sn", "sipm_temp", "primary_temp", "dac", "hvon")


def run(ctx):
    P = ctx.P
    with ctx.section("event"):
        event(ctx, P)
    with ctx.section("stored"):
        stored(ctx)
    with ctx.section("types"):
        types(ctx, P)


def simulated(p, reader):
    """is the path one of simulated (True) or real (False) data; None: not distinguished"""
    for a, pol in p.conds:
        a = plain(a)
        x = a.args[0] if a.op == "truth" else a
        if x is attr(reader, "is_mc"):
            return pol
        if x.op == "eq" and attr(reader, "is_mc") in x.args:
            o = [y for y in x.args if y is not attr(reader, "is_mc")]
            if len(o) == 1 and is_const(o[0]):
                return pol == bool(o[0].args[0])
    return None


def made(x, quals):
    """a term that is an object of one of the classes, made by its constructor"""
    return x.op in ("call", "new") and x.args[0] in quals


def event(ctx, P):
    ex = P.cls(dl1.EX + "DL1Extractor")
    d, f = ex.lookup("__call__")
    if not isinstance(f, Func):
        raise AnchorError("DL1Extractor.__call__")
    sub_cls, tc_cls = P.cls(SUB), P.cls(TC)
    subs = {SUB} | {c.qual for c in P.subclasses(sub_cls)}
    tcs = {TC} | {c.qual for c in P.subclasses(tc_cls)}
    I = ctx.interp(opaque={dl1.CHAIN} | subs | tcs)
    reader, W = param("reader"), param("W")
    npix = attr(reader, "n_pixels")
    where = f.loc()
    n = 0
    for st, ref in I.build(ex, [reader, param("config_path")], []):
        chain_settings(ctx, I, st, ref, reader, ex)
        for p in I.method(st, ref, "__call__", [W]):
            if any(pol and plain(a).op == "is" and NONE in plain(a).args and any(made(x, subs | tcs | {dl1.CHAIN}) for x in plain(a).args) for a, pol in p.conds):
                continue
            if p.kind != "return":
                ctx.und("event", "an event is refused when %s" % p.cond_str()[:200], where)
                continue
            n += 1
            v = plain(p.value)
            if v.op != "dictv":
                ctx.und("event", "the rows are %s" % show(v)[:200], where)
                continue
            ev = p.events[len(st.events):]
            rows, merged = {}, []
            for s in v.args[0]:
                if s[0] == "kv" and is_const(s[1]):
                    rows[s[1].args[0]] = plain(s[2])
                else:
                    merged.append(plain(s[-1]) if s[0] != "kv" else None)
            out = [m for m in merged if m is not None and m.op == "meth" and m.args[1] == "process" and made(m.args[0], {dl1.CHAIN})]
            strange = [m for m in merged if m not in out]
            c = p.cond_str()[:300]
            allowed = {("attr", a) for a in EVENT + ("mc_true", "n_samples", "n_pixels", "t_tack")}
            for k in EVENT:
                if k not in rows:
                    ctx.judge("event:" + k, None if strange else False, "", "the rows have no %s" % k, where, c)
                else:
                    ctx.judge("event:" + k, match(rows[k], [attr(W, k)], allowed | {("param", "W"), ("param", "reader")}), "the event's own %s" % k,
                              "%s is %s" % (k, show(rows[k])[:200]), where, c)
            if "pixel" not in rows:
                ctx.judge("event:pixel", None if strange else False, "", "the rows have no pixel", where, c)
            else:
                spec = [call("numpy.arange", const(0), npix), call("range", const(0), npix), rng(const(0), npix)]
                x = rows["pixel"]
                good = x in [plain(s) for s in spec] or show(x) in ("numpy.arange(0, reader.n_pixels)", "numpy.arange(reader.n_pixels)", "numpy.arange(stop=reader.n_pixels)")
                ctx.judge("event:pixel", True if good else match(x, spec, {("call", "numpy.arange")} | allowed), "the pixel number of each row", "pixel is %s" % show(x)[:200], where, c)
            # the truth is stored where there is one
            none = [pol for a, pol in p.conds if plain(a).op == "is" and NONE in plain(a).args and attr(W, "mc_true") in [plain(y) for y in plain(a).args]]
            if "mc_true" in rows:
                ctx.judge("event:mc_true", match(rows["mc_true"], [attr(W, "mc_true")], allowed) if not any(none) else False, "the true charge of the event",
                          "mc_true is %s" % show(rows["mc_true"])[:200], where, c)
            elif not strange:
                ctx.judge("event:mc_true", True if any(none) else (False if none or not any(mentions(plain(a), attr(W, "mc_true")) for a, _ in p.conds) else None),
                          "no true charge to store", "the true charge of an event that has one is not stored when %s" % c, where, c)
            # the pipeline
            if not out:
                ctx.judge("event:reduced", None if strange else False, "", "the reduced columns are not stored", where, c)
                continue
            x = plain(out[-1].args[2][0]) if out[-1].args[2] else NONE
            mc = simulated(p, reader)
            pipeline(ctx, p, ev, x, W, mc, subs, tcs, where, c)
            if "baseline_subtracted" in rows:
                b = rows["baseline_subtracted"]
                isb = b.op == "attr" and b.args[1] == "baseline" and made(b.args[0], subs)
                ctx.judge("event:baseline", True if isb else (False if b.op in ("attr", "const") else None), "the baseline that was subtracted",
                          "baseline_subtracted is %s" % show(b)[:200], where, c)
                if isb:
                    order(ctx, ev, where, c)
            # later entries override the reduced columns of the same name only for names of the event itself
            cols = set(rows) - set(EVENT) - {"pixel", "mc_true", "baseline_subtracted"}
            for k in sorted(cols):
                ctx.note("event:extra", k) if hasattr(ctx, "note") else None
    if not n:
        ctx.und("event", "no path of the extractor returns", where)


def order(ctx, ev, where, c):
    """the baseline is read after the event was entered"""
    idx = [(i, e) for i, (e, _) in enumerate(flat_events(ev))]
    subt = [i for i, e in idx if e.kind == "meth" and e.name == "subtract"]
    read = [i for i, e in idx if e.kind == "getattr" and e.name == "baseline"]
    if subt and read:
        ctx.judge("event:baseline-order", min(read) > min(subt) or max(read) > max(subt) and len(read) > 1, "read after this event's subtraction",
                  "the baseline stored is that of the event before", where, c)


def pipeline(ctx, p, ev, x, W, mc, subs, tcs, where, c):
    key = "event:pipeline"
    new = [e for e, _ in flat_events(ev) if e.kind in ("call", "new") and (e.name in subs or e.name == dl1.CHAIN)]
    for e in new:
        ctx.bad(key + ":state", "%s is made anew for every event" % e.name.rsplit(".", 1)[-1], e.loc, c)
    known = {("param", "W"), ("meth", "subtract"), ("meth", "copy"), ("op", "callv"), ("call", "numpy.copy"), ("call", "numpy.array")} | {("call", q) for q in subs | tcs}

    def stage(t, objs, name):
        """the argument of the stage, if t is its result"""
        if name is not None and t.op == "meth" and t.args[1] in name and made(t.args[0], objs) and len(t.args[2]) == 1 and not t.args[3]:
            return plain(t.args[2][0])
        if t.op == "callv" and made(plain(t.args[0]), objs):
            a = list(t.args[1]) + [v for _, v in (t.args[2] if len(t.args) > 2 else ())]
            return plain(a[0]) if len(a) == 1 else None
        return None
    y = stage(x, subs, ("subtract",))
    if y is None:
        swapped = stage(x, tcs, ("apply_t_cor", "__call__")) is not None
        ctx.judge(key + ":baseline", False if x is W or swapped or known_vocab(x, [W], known) else None, "", "the chain is given %s: the baseline is not subtracted last" % show(x)[:200], where, c)
        return
    ctx.ok(key + ":baseline", "the chain reduces the baseline-subtracted event", where)
    z = stage(y, tcs, ("apply_t_cor", "__call__"))
    src = y if z is None else z
    if src is not W:
        ctx.judge(key + ":source", False if known_vocab(src, [W], known) and src.op not in ("call", "meth", "callv") else None, "", "the event reduced is %s" % show(src)[:200], where, c)
        return
    if mc is None:
        ctx.judge(key + ":calibrated", False if z is not None or not any(mentions(plain(a), param("reader")) for a, _ in p.conds) else None, "",
                  "%s whether simulated or not" % ("time-calibrated" if z is not None else "not time-calibrated"), where, c)
    elif mc:
        ctx.judge(key + ":calibrated", z is None, "simulated events are not time-calibrated", "simulated events are shifted by the camera's time corrections", where, c)
    else:
        ctx.judge(key + ":calibrated", z is not None, "real events are time-calibrated before the subtraction", "real events are not time-calibrated", where, c)


def chain_settings(ctx, I, st, ref, reader, ex):
    vals = [plain(I.freeze(st, v)) for v in st.heap[ref].attrs.values()]
    where = ex.lookup("__init__")[1].loc()
    done = False
    for v in vals:
        if not made(v, {dl1.CHAIN}):
            continue
        done = True
        kw = dict(v.args[2]) if len(v.args) > 2 else {}
        for n, x in zip(("n_pixels", "n_samples", "config_path"), v.args[1]):
            kw.setdefault(n, x)
        for n in ("n_pixels", "n_samples", "mapping", "reference_pulse_path"):
            if n not in kw:
                ctx.judge("chain:" + n, None if any(k.startswith("**") for k in kw) else False, "", "the reducers are not given the reader's %s" % n, where)
                continue
            ctx.judge("chain:" + n, match(kw[n], [attr(reader, n)], {("attr", a) for a in ("n_pixels", "n_samples", "mapping", "reference_pulse_path", "path", "n_modules")}),
                      "the reader's own %s" % n, "%s is %s" % (n, show(kw[n])[:200]), where)
        c = kw.get("config_path", NONE)
        ctx.judge("chain:config", match(c, [param("config_path")], {("param", "config_path")}) if not any(k.startswith("**") for k in kw) or "config_path" in kw else None,
                  "the configuration file asked for", "the configuration file is %s" % show(plain(c))[:200], where)
    if not done:
        ctx.und("chain", "no reducer chain among the attributes of the extractor", where)


def stored(ctx):
    w, f, I, paths = dl1.writer(ctx)
    reader, extr = param("reader"), param("dl1_extractor")
    for p in returns(paths):
        mc = simulated(p, reader)
        tabs = dl1.tables(p)
        found = {(k.args[0] if is_const(k) else None, n.args[0] if is_const(n) else None): (ents, merged, e) for k, n, ents, merged, e in tabs}
        if any(None in k for k in found):
            ctx.und("stored:tables", "tables named by %s" % [k for k in found if None in k], f.loc())
            continue
        for n in TABLES:
            got = found.get(("data", n))
            if got is None:
                ctx.judge("stored:" + n, False if tabs else None, "", "the table %s is not stored when %s" % (n, p.cond_str()[:200]), f.loc())
                continue
            ents, merged, e = got
            ok = any(unphi_(m) is attr(extr, n) for m in merged)
            ctx.judge("stored:" + n, True if ok else (False if all(known_vocab(unphi_(m), [attr(extr, n)], {("attr", a) for a in TABLES + ("metadata",)}) for m in merged) and not ents else None),
                      "the extractor's table", "stores %s" % [show(m)[:80] for m in merged], e.loc, p.cond_str()[:200])
        got = found.get(("mc", "mcheader"))
        if mc:
            ctx.judge("stored:mcheader", False if got is None or not got[1] and not got[0] else (True if any(unphi_(m) is attr(reader, "mcheader") for m in got[1]) else None),
                      "the simulation header is stored", "the simulation header is not stored", f.loc(), p.cond_str()[:200])
        elif mc is False and got is not None:
            ctx.bad("stored:mcheader", "a simulation header is stored for real data", got[2].loc, p.cond_str()[:200])
        maps = [e for e, _ in flat_events(p.events) if e.kind == "call" and (e.name or "").endswith(".add_mapping")]
        ctx.judge("stored:mapping", (match(dict(maps[-1].kwargs).get("mapping", NONE), [attr(reader, "mapping")], {("attr", "mapping")}) if maps else False),
                  "the camera mapping of the reader", "the mapping stored is %s" % [show(dict(e.kwargs).get("mapping", NONE))[:80] for e in maps], f.loc(), p.cond_str()[:200])
        # one row of each simulation table per stored event
        for lp in p.events:
            if lp.kind != "loop":
                continue
            for b in lp.paths:
                app = [dict(e.kwargs) for e, l in flat_events(b.events) if e.kind == "call" and (e.name or "").endswith(".append") and "df" in dict(e.kwargs)]
                if not app:
                    continue
                keys = [plain(k.get("key", const("data"))) for k in app]
                bmc = simulated(b, reader)
                if bmc is None:
                    bmc = mc
                if mc is not None and bmc is not mc:
                    continue
                for t in ("mc", "pointing"):
                    mine = [k for k, n in zip(app, keys) if n is const(t)]
                    if bmc:
                        spec = attr(reader, t)
                        ctx.judge("stored:" + t, False if len(mine) != 1 and all(is_const(k) for k in keys) else (True if len(mine) == 1 and mentions(plain(mine[0]["df"]), spec)
                                  else (False if mine and known_vocab(plain(mine[0]["df"]), [spec], {("attr", x) for x in ("mc", "pointing", "mcheader")}
                                        | {("call", "pandas.DataFrame"), ("op", "listv")}) else None)),
                                  "one row per stored event", "%d rows of %s per stored event when %s" % (len(mine), t, conds_str(b.conds)[:200]), lp.loc, conds_str(b.conds)[:200])
                    elif bmc is False and mine:
                        ctx.bad("stored:" + t, "simulation table %s filled for real data" % t, lp.loc, conds_str(b.conds)[:200])


def unphi_(t):
    from .hdf5 import unphi
    t = unphi(t)
    while t.op == "rest":
        t = unphi(t.args[0])
    return t


def types(ctx, P):
    w = P.cls(dl1.EX + "DL1Writer")
    d, f = w.lookup("_prepare_before_append")
    if not isinstance(f, Func):
        return
    seen = set()
    for p in returns(ctx.run(f, cls=w)):
        for e, _ in flat_events(p.events):
            if e.kind != "setitem" or not e.args or not is_const(plain(e.args[0])):
                continue
            k, v = plain(e.args[0]).args[0], plain(e.value)
            if v.op != "meth" or v.args[1] != "astype" or not (v.args[2] or v.args[3]):
                continue
            src = v.args[0]
            t = v.args[2][0] if v.args[2] else dict(v.args[3]).get("dtype", NONE)
            col = src.args[1].args[0] if src.op == "item" and is_const(src.args[1]) else src.args[1] if src.op == "attr" and src.args[1] in WIDTH else None
            if (k, col, show(t)) in seen:
                continue
            seen.add((k, col, show(t)))
            if col is not None:
                ctx.judge("types:%s:column" % k, col == k, "each column is converted into itself", "column %s is overwritten with %s" % (k, col), e.loc)
            import re
            m = re.search(r"(u?int|float)(\d+)|\b([ui])([1248])\b", show(t))
            if m and k in WIDTH:
                bits = int(m.group(2)) if m.group(2) else 8 * int(m.group(4))
                signed = (m.group(1) or m.group(3)) in ("int", "i")
                ctx.judge("types:%s:range" % k, bits >= WIDTH[k] + (1 if signed and WIDTH[k] == 16 else 0) and m.group(1) != "float", "a type that holds every value", "%s is stored as %s" % (k, show(t)), e.loc)
            else:
                ctx.ok("types:%s" % k, "stored as %s" % show(t), e.loc)
    if not seen:
        ctx.ok("types", "columns keep the type they have", f.loc())
