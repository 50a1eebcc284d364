"""Module and superpixel queries: on every path of every get_* query of the raw-file and the DL1 reader that returns a
value, the branch facts must imply tm < n_modules (and sp < n_superpixels_per_module) at the lookup, every IndexError
path must be outside that range (difference-bound reasoning), nothing may be looked up before it, and the value must be
the hardware library's query of the same name for the same arguments, or, for DL1 files, the entry of the metadata table
that the extraction fills from the query of the same name, under the same key format.  The extraction must fill each
table for every module and superpixel."""
from .util import *
from . import dl1

QUERIES = dict(get_sn="GetSN", get_sipm_temp="GetSiPMTemp", get_primary_temp="GetPrimaryTemp",
               get_sp_dac="GetSPDAC", get_sp_hvon="GetSPHVON")


def stored(ctx):
    """query -> (metadata name, key format) as written by the extraction"""
    ex, objs = dl1.extractors(ctx)
    w, f, I, ps = dl1.writer(ctx)
    out = {}
    R = param("reader")
    NM, NS = attr(R, "n_modules"), attr(R, "n_superpixels_per_module")
    for p in returns(ps):
        for key, name, ents, merged, e in dl1.tables(p):
            if key is not const("data") or len(merged) != 1 or ents:
                continue
            m = merged[0]
            if m.op != "attr" or not is_const(name):
                continue
            for h in objs:
                if m.args[1] not in h:
                    continue
                es = dl1.dict_entries(h[m.args[1]])
                for k, v, conds in es or ():
                    if v.op == "meth" and v.args[0] is R and v.args[1] in QUERIES:
                        a = v.args[2]
                        ok = len(a) == (2 if "sp_" in v.args[1] else 1) and not v.args[3]
                        specs = [elem(rng(NM)), elem(rng(NS))]
                        full = all(x is s or x is elem(s.args[0], 1) for x, s in zip(a, specs)) and \
                            not any(c not in ((), ((),)) for c in conds)
                        q = v.args[1]
                        ctx.judge("stored:%s" % q, True if ok and full else (False if known_vocab(v, [NM, NS], {("meth", q), ("param", "reader")})
                                                                           else None), "stored for every module%s" % (
                            " and superpixel" if "sp_" in q else ""), "stored as %s when %s" % (show(v), conds), ex.module.rel)
                        fmt = subst(k, {a[0]: param("tm")})
                        if len(a) > 1:
                            fmt = subst(fmt, {a[1]: param("sp")})
                        out.setdefault(q, set()).add((name.args[0], fmt))
    return out


def bound(I, p, x, n):
    return I.decide(p.st, mk("lt", x, n))


def linear(p, xs, ns):
    """the facts about the arguments are comparisons over arguments, sizes and constants only"""
    for c, pol in p.conds:
        if not any(mentions(c, x) for x in xs):
            continue
        if c.op not in ("lt", "le", "eq"):
            return False
        for y in subterms(c):
            if y.op not in ("lt", "le", "eq", "poly", "const") and y not in xs and y not in ns and y is not SELF:
                if not any(mentions(n, y) for n in ns):
                    return False
    return True


def run(ctx):
    P = ctx.P
    base = P.cls(IO + "WaveformReader")
    tio = P.cls(IO + "tio.TIOReader") if (IO + "tio.TIOReader") in P.classes else P.cls(IO + "TIOReader")
    dlr = P.cls(IO + "dl1_reader.DL1Reader")
    with ctx.section("stored"):
        tab = stored(ctx)
        for q in QUERIES:
            if not tab.get(q):
                ctx.und("stored:%s" % q, "the table filled by %s was not found" % q)
            elif len(tab[q]) > 1:
                ctx.bad("stored:%s" % q, "the tables of %s are stored under several names or formats: %s" % (q, sorted(map(str, tab[q]))[:2]),
                        dlr.module.rel)
    gm = dlr.lookup("get_metadata")[1]
    targets = [(c, "tio") for c in P.subclasses(base) if tio in c.mro] + [(dlr, "dl1")]
    targets += [(c, "dl1") for c in P.subclasses(dlr)]
    done = set()
    with ctx.section("sizes"):
        sizes(ctx, tio, dlr, gm)
    for c, kind in targets:
        for q, lib in QUERIES.items():
            d, f = c.lookup(q)
            if not isinstance(f, Func):
                raise AnchorError("%s.%s" % (c.qual, q))
            if f.qual in done and not any(n in c.members for n in ("n_modules", "n_superpixels_per_module", "get_metadata")):
                continue
            done.add(f.qual)
            with ctx.section("%s.%s" % (c.name, q)):
                query(ctx, c, kind, q, lib, f, gm, tab)


SIZES = dict(n_modules="fNModules", n_superpixels_per_module="fNSuperpixelsPerModule")


def sizes(ctx, tio, dlr, gm):
    """the camera size the queries are compared with is the file's"""
    d, f = tio.lookup("__init__")
    for p in returns(ctx.run(f, cls=tio)):
        last = {}
        for e, _ in events_of(p, "setattr"):
            if e.name in SIZES or e.name == "_reader":
                last[e.name] = plain(e.value)
        r = last.get("_reader")
        for n, lib in SIZES.items():
            v = last.get(n)
            if v is None or r is None:
                ctx.und("sizes:TIOReader.%s" % n, "not assigned by the constructor", f.loc())
                continue
            spec = [attr(r, lib)]
            ctx.judge("sizes:TIOReader.%s" % n, match(v, spec, {("attr", x) for x in SIZES.values()} | {("attr", "fNPixels")}),
                      "the file's", "is %s" % show(v)[:200], f.loc())
    for n in SIZES:
        d, m = dlr.lookup(n)
        if not isinstance(m, Func):
            ctx.und("sizes:DL1Reader.%s" % n, "not a property")
            continue
        I = ctx.interp(opaque={gm.qual})
        for p in returns(ctx.run(m, I, cls=dlr)):
            v = plain(p.value)
            ok = v.op == "item" and v.args[1] is const(n) and v.args[0].op == "call" and v.args[0].args[0].endswith("get_metadata") \
                and dict(v.args[0].args[2]).get("name", const("metadata")) is const("metadata")
            ctx.judge("sizes:DL1Reader.%s" % n, True if ok else (False if v.op in ("item", "const") else None), "the stored one",
                      "is %s" % show(v)[:200], m.loc())


def query(ctx, c, kind, q, lib, f, gm, tab):
    key = "%s.%s" % (c.name, q)
    I = ctx.interp(opaque={gm.qual} if isinstance(gm, Func) else set())
    NM = value_of(ctx, c, "n_modules", I)
    NS = value_of(ctx, c, "n_superpixels_per_module", I)
    if NM is None or NS is None:
        ctx.und(key, "number of modules not known")
        return
    names = [a.arg for a in f.node.args.args][1:]
    tm = param(names[0])
    sp = param(names[1]) if len(names) > 1 else None
    rename = {param("tm"): tm}
    if sp is not None:
        rename[param("sp")] = sp
    want = [(tm, NM, "tm", "n_modules")] + ([(sp, NS, "sp", "n_superpixels_per_module")] if sp is not None else [])
    xs = [w[0] for w in want]
    ns = [w[1] for w in want]
    for p in ctx.run(f, I, cls=c):
        where = f.loc()
        lin = linear(p, xs, ns)
        if p.kind == "raise":
            t = exc_type(p)
            out = any(I.decide(p.st, mk("le", n, x)) is True or I.decide(p.st, mk("lt", x, const(0))) is True for x, n, _, _ in want)
            if t == "KeyError" and not out:
                continue
            if out and t != "IndexError":
                ctx.bad(key + ":error", "a slot that does not exist raises %s" % t, where, p.cond_str())
            else:
                ctx.judge(key + ":error", True if out else (False if lin else None), "IndexError only outside the range",
                          "raises %s for a slot that may exist, when %s" % (t, p.cond_str()), where)
            for e, _ in flat_events(p.events):
                n = str(e.name).split(".")[-1]
                look = e.kind in ("meth", "call", "callv") and (n in QUERIES.values() or
                                                                 n == "get_metadata" and dict(e.kwargs).get("name", const("metadata"))
                                                                 is not const("metadata"))
                if look:
                    ctx.bad(key + ":before", "looks up %s before rejecting the slot" % n, e.loc, p.cond_str())
            continue
        for x, n, a, b in want:
            v = bound(I, p, x, n)
            ctx.judge("%s:%s" % (key, a), True if v is True else (False if lin else None), "%s < %s on every path to the lookup" % (a, b),
                      "%s < %s is not ensured at the lookup when %s" % (a, b, p.cond_str()), where)
        v = plain(p.value)
        args = tuple(w[0] for w in want)
        if v.op in ("attr", "const", "item") and not any(mentions(v, x) for x in args[:1]) and not any(c.op == "eq" and mentions(c, tm) for c, pol in p.conds) \
                and not any(c.op in ("truth", "in") and mentions(c, tm) for c, pol in p.conds):
            ctx.bad(key + ":value", "returns %s for every slot" % show(v)[:200], where, p.cond_str())
            continue
        if kind == "tio":
            spec = [mk("meth", attr(SELF, "_reader"), lib, args, ())]
            others = {("meth", l) for l in QUERIES.values()} | vocab(NM) | vocab(NS)
            ctx.judge(key + ":value", match(v, spec, others), "asks the file for the same slot", "returns %s" % show(v)[:300], where)
            continue
        if v.op != "item":
            ctx.judge(key + ":value", False if v.op == "const" else None, "", "returns %s" % show(v)[:300], where)
            continue
        src, k = v.args
        nm = None
        if src.op == "call" and src.args[0].endswith("get_metadata"):
            d = dict(src.args[2])
            nm = d.get("name", const("metadata"))
            kk = d.get("key", const("data"))
            if kk is not const("data"):
                ctx.bad(key + ":value", "looks up the table of %s" % show(kk), where)
        if nm is None or not tab.get(q):
            ctx.und(key + ":value", "returns %s" % show(v)[:300], where)
            continue
        good = {(n, subst(fm, rename)) for n, fm in tab[q]}
        ok = is_const(nm) and (nm.args[0], k) in good
        ctx.judge(key + ":value", True if ok else (False if is_const(nm) and known_vocab(k, [], {("param", t.args[0]) for t in args})
                                                   else None),
                  "the entry stored for this slot", "looks up %s[%s] but %s is stored as %s" % (
                      show(nm), show(k), q, ", ".join("%s[%s]" % (n, show(fm)) for n, fm in good)), where, p.cond_str())
