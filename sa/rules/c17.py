"""Producer/consumer agreement: the names stored by each writer (metadata tables and entries of DL1 and SPE files, the
attributes attached to a camera mapping, the columns of derived mappings, the header of packaged calibration tables) are
computed from the writing code (dictionary construction in the term domain) or the packaged file; every constant or
formatted name looked up by a reader, plot or analysis path must be among them, under the same table and key format."""
import os
from .util import *
from . import dl1

OP_IO = {IO + "hdf5_reader.HDF5Reader", IO + "dl1_reader.DL1Reader", IO + "hdf5_writer.HDF5Writer"}
DL1R = IO + "dl1_reader.DL1Reader"
MAPM = "CHECLabPy.utils.mapping."
SPE = "CHECLabPy.scripts.extract_spe."
# columns of the table target_calib.Mapping.as_dataframe() (hardware library, not installed): those documented by the package
TC_COLUMNS = {"pixel", "slot", "asic", "channel", "superpixel", "row", "col", "xpix", "ypix", "tm", "tmpix"}
DATAFRAME_READS = {"values", "max", "min", "mean"}


def run(ctx):
    with ctx.section("dl1"):
        run_dl1(ctx)
    with ctx.section("spe"):
        run_spe(ctx)
    keys = None
    with ctx.section("mapping:producer"):
        keys = mapping_keys(ctx)
    with ctx.section("mapping"):
        if keys is not None:
            mapping_consumers(ctx, keys)
    with ctx.section("mapping:derived"):
        derived(ctx)
    with ctx.section("tables"):
        tables(ctx)


# ------------------------------------------------------------------ DL1
def finish_entries(ctx):
    """entries the file writer itself adds to each metadata table of 'data' when it is closed"""
    out = {}
    w = ctx.P.cls(IO + "hdf5_writer.HDF5Writer")
    d, f = w.lookup("finish")
    d, am = w.lookup("add_metadata")
    if not isinstance(f, Func) or not isinstance(am, Func):
        return out
    first = True
    for p in returns(ctx.run(f, ctx.interp(opaque={am.qual}), cls=w)):
        here = {}
        for e, _ in flat_events(p.events):
            if e.kind in ("call", "meth") and (e.name or "").split(".")[-1] == "add_metadata":
                kw = dict(e.kwargs)
                name = dl1.layered(kw.get("name", const("metadata")))
                if is_const(name):
                    ks = {k for k in kw if not k.startswith("**") and k not in ("self", "key", "name")}
                    for k in kw:
                        if k.startswith("**"):
                            es = dl1.dict_entries(plain(kw[k]))
                            ks |= {x.args[0] for x, _, _ in es or () if is_const(x)}
                    here.setdefault(name.args[0], set()).update(ks)
        for n in here:
            out[n] = here[n] if first else out.get(n, set()) & here[n]
        first = False
    return out


# ------------------------------------------------------------------ DL1
def stored_dl1(ctx):
    """metadata name -> [(constant names, format terms, complete?)] of table 'data'"""
    ex, objs = dl1.extractors(ctx)
    w, f, I, ps = dl1.writer(ctx)
    R = param("reader")
    out, tabs = {}, set()
    # the extractor's metadata property
    dd, mf = ex.lookup("metadata")
    props = []
    if isinstance(mf, Func):
        for p in returns(ctx.run(mf, cls=ex)):
            props.append(plain(p.value))
    own = finish_entries(ctx)
    for p in returns(ps):
        evs = [e for e, _ in flat_events(p.events)]
        at = {id(e): i for i, e in enumerate(evs)}
        for key, name, ents, merged, e in dl1.tables(p):
            if not is_const(name) or not is_const(key):
                continue
            tabs.add(key.args[0])
            if key is not const("data"):
                continue
            names, fmts, open_ = set(ents) | own.get(name.args[0], set()), [], False
            for m in merged:
                # entries assigned to the merged dictionary before it is stored
                names |= {plain(x.args[0]).args[0] for x in evs if x.kind == "setitem" and isinstance(x.base, Term) and plain(x.base) is m
                          and x.args and is_const(plain(x.args[0])) and at[id(x)] < at.get(id(e), len(evs))}
                vals = []
                if m.op == "attr":
                    vals = [h[m.args[1]] for h in objs if m.args[1] in h]
                    if not vals and m.args[1] == "metadata":
                        vals = props
                elif m.op in ("dictv", "dcomp"):
                    vals = [m]
                if not vals:
                    open_ = True
                for v in vals:
                    es = dl1.dict_entries(v)
                    if es is None:
                        open_ = True
                        continue
                    for k, x, conds in es:
                        if is_const(k):
                            names.add(k.args[0])
                        else:
                            fmts.append((k, x))
            out.setdefault(name.args[0], []).append((names, fmts, open_, e))
    return out


def run_dl1(ctx):
    P = ctx.P
    stored = stored_dl1(ctx)
    if not stored:
        ctx.und("dl1:stored", "no stored metadata tables understood")
        return
    cls = P.cls(DL1R)
    gm = cls.lookup("get_metadata")[1]
    if not isinstance(gm, Func):
        raise AnchorError("DL1Reader.get_metadata")
    for c in cls.mro:
        if not isinstance(c, Class):
            continue
        for n, f in c.members.items():
            if not isinstance(f, Func) or cls.lookup(n)[1] is not f or n.startswith("_") or f is gm:
                continue
            with ctx.section("dl1:%s" % n):
                for p in ctx.run(f, ctx.interp(opaque={gm.qual}), cls=cls):
                    use_dl1(ctx, "dl1:%s" % n, p, gm, stored, f)


def metadata_ref(t, gm):
    """(table, name) of a call to get_metadata"""
    t = plain(t)
    if t.op == "call" and t.args[0] == gm.qual or t.op == "meth" and t.args[1] == "get_metadata":
        a, kw = (t.args[1], dict(t.args[2])) if t.op == "call" else (t.args[2], dict(t.args[3]))
        a = list(a)
        if t.op == "call" and a and a[0] is SELF:
            a = a[1:]
        key = a[0] if a else kw.get("key", const("data"))
        name = a[1] if len(a) > 1 else kw.get("name", const("metadata"))
        return key, name
    return None


def use_dl1(ctx, key, p, gm, stored, f):
    seen = set()
    for e, loops in flat_events(p.events):
        if e.kind in ("call", "meth") and isinstance(e.value, Term):
            r = metadata_ref(e.value, gm)
            if r and is_const(r[0]) and is_const(r[1]) and r[0] is const("data"):
                ctx.judge(key + ":name", True if r[1].args[0] in stored else False, "metadata %s is stored" % show(r[1]),
                          "no metadata named %s is stored by the extraction (%s are)" % (show(r[1]), sorted(stored)), e.loc)
        if e.kind == "getitem" and isinstance(e.base, Term) and e.args:
            r = metadata_ref(e.base, gm)
            if not r or not is_const(r[0]) or not is_const(r[1]) or r[0] is not const("data") or r[1].args[0] not in stored:
                continue
            k = plain(e.args[0])
            for names, fmts, open_, ev in stored[r[1].args[0]]:
                if is_const(k):
                    ctx.judge(key + ":entry", True if k.args[0] in names else (None if open_ or fmts else False), "%s is stored in %s" % (show(k), show(r[1])),
                              "%s is not an entry of the stored metadata %s" % (show(k), show(r[1])), e.loc, p.cond_str())
                elif k.op == "fstr" or fmts:
                    pars = [param(a.arg) for a in f.node.args.posonlyargs + f.node.args.args if a.arg != "self"]
                    mine = shape(k, pars)
                    same = [x for x, v in fmts if shape(x, value_args(v)) == mine or not value_args(v) and shape(x) == shape(k)]
                    ctx.judge(key + ":format", True if same else (None if open_ or k.op != "fstr" or any(x.op != "fstr" for x, v in fmts) else False),
                              "the key format is the stored one", "looks up %s, stored as %s" % (show(k), [show(x)[:60] for x, v in fmts]), e.loc)


def value_args(v):
    """arguments of the reader call whose result is stored"""
    v = plain(v)
    return list(v.args[2]) if v.op == "meth" else []


def shape(t, args=()):
    """a formatted string with its fields abstracted to the position of the argument (or the order of first use)"""
    if t.op != "fstr":
        return t
    order = {plain(a): i for i, a in enumerate(args)}
    out = []
    for part in t.args[0]:
        if isinstance(part, Term):
            out.append(("t", order.setdefault(part, len(order))))
        elif isinstance(part, tuple):
            out.append(tuple(("t", order.setdefault(x, len(order))) if isinstance(x, Term) and not is_const(x) else (x.args[0] if isinstance(x, Term) else x)
                             for x in part))
        else:
            out.append(part)
    return tuple(out)


# ------------------------------------------------------------------ SPE
def run_spe(ctx):
    P = ctx.P
    f = P.funcs.get(SPE + "main")
    if f is None:
        raise AnchorError(SPE + "main")
    pfa = SPE + "PixelFitApplier"
    opq = set(OP_IO) | {pfa} if pfa in P.classes else set(OP_IO)
    tabs, meta, cols = {}, {}, {}
    found = False
    for p in returns(ctx.run(f, ctx.interp(opaque=opq))):
        for e, loops in flat_events(p.events):
            if e.kind == "meth" and e.name == "write" and is_writer(e.base):
                found = True
                for k, v in e.kwargs:
                    tabs.setdefault(k, set()).add(plain(v))
            if e.kind == "meth" and e.name == "append" and is_writer(e.base) and len(e.args) > 1 and is_const(plain(e.args[1])):
                found = True
                tabs.setdefault(plain(e.args[1]).args[0], set()).add(plain(e.args[0]))
            if e.kind == "meth" and e.name == "add_metadata" and is_writer(e.base):
                d = dict(e.kwargs)
                key, name = plain(d.pop("key", const("data"))), plain(d.pop("name", const("metadata")))
                if is_const(key) and is_const(name):
                    ent = meta.setdefault((key.args[0], name.args[0]), [set(), False])
                    for k in d:
                        if k.startswith("**"):
                            es = dl1.dict_entries(plain(d[k]))
                            if es is None or not all(is_const(x) for x, _, _ in es):
                                ent[1] = True
                            else:
                                ent[0] |= {x.args[0] for x, _, _ in es}
                        else:
                            ent[0].add(k)
            if e.kind == "meth" and e.name == "add_mapping" and is_writer(e.base):
                cols["mapping"] = True
    if not found:
        ctx.und("spe:writer", "the stored tables were not found")
        return
    columns = {}
    if pfa in P.classes:
        columns = applier_columns(ctx, P.classes[pfa])
    g = P.funcs.get("CHECLabPy.scripts.plot_spe.main")
    if g is None:
        raise AnchorError("plot_spe.main")
    opq = set(OP_IO) | {c.qual for c in P.classes.values() if c.module.name.startswith("CHECLabPy.plotting") and c.name != "SpectrumFitPlotter"}
    opq |= {c.qual for c in P.classes.values() if c.module.name == "CHECLabPy.scripts.plot_spe"}
    for p in ctx.run(g, ctx.interp(opaque=opq)):
        for e, loops in flat_events(p.events):
            if e.kind == "meth" and e.name in ("read", "select", "select_column", "iterate_over_chunks") and is_reader(e.base) and e.args and is_const(plain(e.args[0])):
                k = plain(e.args[0]).args[0]
                ctx.judge("spe:table:%s" % k, k in tabs, "stored by extract_spe", "extract_spe stores no table %r (%s)" % (k, sorted(tabs)), e.loc)
            if e.kind == "meth" and e.name == "get_mapping" and is_reader(e.base):
                ctx.judge("spe:mapping", "mapping" in cols, "stored by extract_spe", "extract_spe stores no mapping", e.loc)
            if e.kind == "meth" and e.name == "get_metadata" and is_reader(e.base):
                key, name = metadata_ref(e.value, Gm())
                if is_const(key) and is_const(name):
                    ctx.judge("spe:metadata", (key.args[0], name.args[0]) in meta, "stored by extract_spe", "extract_spe stores no metadata (%s, %s)" % (show(key), show(name)), e.loc)
            if e.kind == "getitem" and isinstance(e.base, Term) and e.args and is_const(plain(e.args[0])):
                k = plain(e.args[0]).args[0]
                b = plain(e.base)
                if b.op == "meth" and b.args[1] == "get_metadata" and is_reader(b.args[0]):
                    key, name = metadata_ref(b, Gm())
                    ent = meta.get((key.args[0], name.args[0])) if is_const(key) and is_const(name) else None
                    if ent is not None:
                        ctx.judge("spe:entry:%s" % k, True if k in ent[0] or k == "n_bytes" else (None if ent[1] else False), "stored by extract_spe",
                                  "extract_spe stores no metadata entry %r (%s)" % (k, sorted(ent[0])), e.loc)
                    continue
                t = table_of(b)
                if t is not None and isinstance(k, str):
                    names = set()
                    known = t in tabs
                    for v in tabs.get(t, ()):
                        a = [x.args[1] for x in subterms(v) if x.op == "attr" and x.args[1] in columns]
                        if not a or columns[a[0]] is None:
                            known = False
                        else:
                            names |= columns[a[0]]
                    ctx.judge("spe:column:%s:%s" % (t, k), True if k in names else (False if known else None), "stored by extract_spe",
                              "extract_spe stores no column %r in table %r (%s)" % (k, t, sorted(names)), e.loc)


class Gm:
    qual = ""


def is_writer(t):
    return isinstance(t, Term) and plain(t).op == "call" and str(plain(t).args[0]).endswith("HDF5Writer")


def is_reader(t):
    return isinstance(t, Term) and plain(t).op == "call" and str(plain(t).args[0]).endswith("Reader")


def table_of(t):
    """the table a data frame (row) was read from"""
    while True:
        if t.op == "meth" and t.args[1] == "read" and is_reader(t.args[0]) and t.args[2] and is_const(t.args[2][0]):
            return t.args[2][0].args[0]
        if t.op == "item" or t.op == "attr" and t.args[1] in ("loc", "iloc"):
            if t.op == "item" and not (t.args[0].op == "attr" and t.args[0].args[1] in ("loc", "iloc")):
                return None
            t = t.args[0]
        else:
            return None


def applier_columns(ctx, cls):
    """attribute -> names of the per-pixel records (None when open)"""
    out = {}
    for n, f in cls.members.items():
        if not isinstance(f, Func) or n in ("__init__", "multiprocess", "process"):
            continue
        for p in returns(ctx.run(f, cls=cls)):
            for e, loops in flat_events(p.events):
                if e.kind == "setitem" and plain(e.base).op == "attr" and plain(e.base).args[0] is SELF and isinstance(e.value, Term):
                    es = dl1.dict_entries(plain(e.value))
                    a = plain(e.base).args[1]
                    if es is None or not all(is_const(k) for k, _, _ in es):
                        out[a] = None
                    elif out.get(a, ()) is not None:
                        out[a] = out.get(a, set()) | {k.args[0] for k, _, _ in es}
    return out


# ------------------------------------------------------------------ camera mapping
def mapping_keys(ctx):
    P = ctx.P
    f = P.funcs.get(MAPM + "get_clp_mapping_from_tc_mapping")
    if f is None:
        raise AnchorError(MAPM + "get_clp_mapping_from_tc_mapping")
    keys = None
    for p in returns(ctx.run(f)):
        v = [plain(e.value) for e, _ in events_of(p, "setattr") if e.name == "metadata"]
        es = dl1.dict_entries(v[-1]) if v else None
        if not v:
            ctx.bad("mapping:producer", "no metadata is attached to the mapping", f.loc())
            return None
        if es is None or not all(is_const(k) for k, _, _ in es):
            ctx.und("mapping:producer", "metadata is %s" % show(v[-1])[:200], f.loc())
            return None
        k = {x.args[0] for x, _, _ in es}
        late = {plain(e.args[0]).args[0] for e, _ in events_of(p, "setitem") if e.args and is_const(plain(e.args[0]))}
        k |= late
        keys = k if keys is None else keys & k
        T = param("tc_mapping")
        for x, val, _ in es:
            pairs = dict(n_rows="GetNRows", n_columns="GetNColumns", size="GetSize", n_pixels="GetNPixels", n_modules="GetNModules",
                         n_superpixels="GetNSuperPixels", n_tmpix="GetNTMPix", cfgfile="GetCfgPath", is_single_module="IsSingleModule")
            n = x.args[0]
            if n in pairs:
                spec = mk("meth", T, pairs[n], (), ())
                ctx.judge("mapping:value:%s" % n, match(plain(val), [spec], {("meth", m) for m in pairs.values()}), "from %s" % pairs[n], "is %s" % show(val)[:100], f.loc())
            elif str(n).startswith("fOTUp"):
                ctx.judge("mapping:value:%s" % n, match(plain(val), [attr(T, n)], {("attr", str(m.args[0])) for m, _, _ in es}), "from the same attribute",
                          "is %s" % show(val)[:100], f.loc())
    return keys


def mapping_like(t):
    """the term denotes a camera mapping data frame"""
    t = plain(t)
    if t.op == "param":
        return "mapping" in t.args[0]
    if t.op == "attr":
        return "mapping" in t.args[1]
    if t.op == "call":
        return str(t.args[0]).startswith(MAPM) and "mapping" in t.args[0].split(".")[-1]
    return False


def origin(t):
    """the mapping whose metadata this is"""
    t = plain(t)
    while t.op == "filled" or t.op == "call" and t.args[0] in ("numpy.copy", "dict", "copy.copy", "copy.deepcopy"):
        t = t.args[0] if t.op == "filled" else (t.args[1][0] if t.args[1] else dict(t.args[2]).get("a", NONE))
    if t.op == "attr" and t.args[1] == "metadata" and mapping_like(t.args[0]):
        return t.args[0]
    return None


def mentions_mapping(f):
    import ast
    return any(isinstance(n, ast.Attribute) and n.attr == "metadata" or isinstance(n, ast.Name) and "mapping" in n.id or
               isinstance(n, ast.Attribute) and "mapping" in n.attr for n in ast.walk(f.node))


PLOT_COLS = {}


def mapping_consumers(ctx, keys):
    P = ctx.P
    opq = {MAPM + n for n in ("get_clp_mapping_from_tc_mapping", "get_clp_mapping_from_version", "get_superpixel_mapping", "get_tm_mapping")}
    PLOT_COLS.clear()
    for q, f in sorted(P.funcs.items()):
        if q in (MAPM + "get_clp_mapping_from_tc_mapping",) or f.module.name.startswith(IO + "dl1_reader") or f.module.name.startswith(IO + "hdf5"):
            continue
        if f.cls is not None and f.cls.members.get(f.node.name) is not f or not mentions_mapping(f):
            continue
        name = q[len("CHECLabPy."):]
        if f.module.name.startswith("CHECLabPy.scripts"):
            continue
        with ctx.section("mapping:%s" % name):
            I = ctx.interp(opaque=opq - {q})
            for p in ctx.run(f, I, cls=f.cls) if f.cls is not None else ctx.run(f, I):
                for e, loops in flat_events(p.events):
                    if e.kind != "getitem" or not isinstance(e.base, Term) or not e.args:
                        continue
                    if origin(e.base) is not None:
                        k = plain(e.args[0])
                        if is_const(k):
                            ctx.judge("mapping:%s:%s" % (name, k.args[0]), k.args[0] in keys, "an attribute of every mapping",
                                      "the mapping has no attribute %s" % show(k), e.loc, p.cond_str())
                        continue
                    b = frame(plain(e.base))
                    if b is not None and mapping_like(b):
                        for c in consts(plain(e.args[0])):
                            ctx.judge("mapping:%s:column:%s" % (name, c), True if c in TC_COLUMNS else False, "a column of every mapping",
                                      "the mapping has no column %r" % c, e.loc)
                            if f.module.name.startswith("CHECLabPy.plotting"):
                                PLOT_COLS.setdefault(c, e.loc)


def consts(k):
    if is_const(k) and isinstance(k.args[0], str):
        return [k.args[0]]
    if k.op == "listv":
        out = []
        for x in k.args[0]:
            if x[0] == "item" and is_const(x[1]) and isinstance(x[1].args[0], str):
                out.append(x[1].args[0])
        return out
    if k.op == "tuple" and len(k.args[0]) == 2:
        return consts(k.args[0][1])
    return []


def frame(t):
    """the data frame behind a row selection"""
    while True:
        if t.op == "attr" and t.args[1] in ("loc", "iloc"):
            t = t.args[0]
        elif t.op == "item" and t.args[0].op == "attr" and t.args[0].args[1] in ("loc", "iloc"):
            t = t.args[0].args[0]
        else:
            return t


def derived(ctx):
    P = ctx.P
    for n in ("get_superpixel_mapping", "get_tm_mapping"):
        f = P.funcs.get(MAPM + n)
        if f is None:
            raise AnchorError(MAPM + n)
        for p in returns(ctx.run(f)):
            cols = df_columns(plain(p.value))
            if cols is None:
                ctx.und("mapping:derived:%s" % n, "columns of %s" % show(plain(p.value))[:200], f.loc())
                continue
            for c in sorted(PLOT_COLS):
                if c in ("pixel", "superpixel", "asic", "tm"):
                    continue
                ctx.judge("mapping:derived:%s:%s" % (n, c), c in cols, "kept in the derived mapping", "column %r used by the plots is missing from the derived mapping" % c, f.loc())


def df_columns(t):
    """columns of mapping[...].groupby(k).agg({...}).reset_index()"""
    if t.op == "meth" and t.args[1] == "reset_index":
        kw = dict(t.args[3])
        b = t.args[0]
        if kw.get("drop", const(False)) is const(True):
            key = set()
        else:
            g = [x for x in subterms(b) if x.op == "meth" and x.args[1] == "groupby" and x.args[2]]
            key = set(consts(g[0].args[2][0])) if g else set()
        base = df_columns(b)
        return None if base is None else base | key
    if t.op == "meth" and t.args[1] in ("agg", "aggregate") and t.args[2]:
        es = dl1.dict_entries(plain(t.args[2][0]))
        if es is None or not all(is_const(k) for k, _, _ in es):
            return None
        return {k.args[0] for k, _, _ in es}
    return None


# ------------------------------------------------------------------ packaged tables
def header(path, sep):
    with open(path, encoding="utf-8") as fh:
        return [c.strip() for c in fh.readline().rstrip("\n").split(sep)]


def frame_columns(t):
    """column names of a table built from a dictionary, None where they are not known"""
    t = plain(t) if isinstance(t, Term) else t
    if not isinstance(t, Term):
        return None
    if t.op == "call" and t.args[0] in ("pandas.DataFrame", "pandas.DataFrame.from_dict") and t.args[1]:
        es = dl1.dict_entries(plain(t.args[1][0]))
        if es and all(is_const(k) for k, _, _ in es):
            return {k.args[0] for k, _, _ in es}
        return None
    if t.op == "meth":
        base, name, args, kwargs = t.args[:4]
        have = frame_columns(base)
        if have is None:
            return None
        if name == "assign" and not args:
            return have | {k for k, _ in kwargs}
        if name in ("copy", "sort_values", "astype", "fillna", "sort_index"):
            return have
        if name == "drop":
            return None
    return None


def tables(ctx):
    P = ctx.P
    data = os.path.join(P.root, "CHECLabPy", "calib", "data")
    mod = "CHECLabPy.calib."
    written = {}
    for q, c in sorted(P.classes.items()):
        if not q.startswith(mod):
            continue
        for n, f in c.members.items():
            if not isinstance(f, Func):
                continue
            with ctx.section("tables:%s.%s" % (c.name, n)):
                for p in ctx.run(f, cls=c):
                    late, saved = set(), []
                    for e, loops in flat_events(p.events):
                        if e.kind == "setitem" and e.args and is_const(plain(e.args[0])) and frame_columns(e.base) is not None:
                            late.add(plain(e.args[0]).args[0])
                        elif e.kind == "meth" and e.name == "insert" and len(e.args) > 1 and is_const(plain(e.args[1])) and frame_columns(e.base) is not None:
                            late.add(plain(e.args[1]).args[0])
                        elif e.kind in ("setitem", "callv") or e.kind == "meth" and e.name in ("update", "pop", "drop", "rename"):
                            late.add(None)
                        elif e.kind == "meth" and e.name in ("to_csv", "to_string", "to_html"):
                            saved.append(frame_columns(e.base))
                    if not saved:
                        continue
                    have = None if None in saved else set().union(*saved) | late
                    if c.qual in written and (have is None or written[c.qual] is None):
                        written[c.qual] = None
                    else:
                        written[c.qual] = have if c.qual not in written else written[c.qual] & have
    for q, c in sorted(P.classes.items()):
        if not q.startswith(mod):
            continue
        try:
            built = ctx.interp()
            d, init = c.lookup("__init__")
        except Exception:
            continue
        if not isinstance(init, Func):
            continue
        with ctx.section("tables:%s" % c.name):
            for p in ctx.run(init, cls=c):
                for e, loops in flat_events(p.events):
                    if e.kind != "getitem" or not isinstance(e.base, Term) or not e.args or not is_const(plain(e.args[0])):
                        continue
                    b = plain(e.base)
                    if b.op != "call" or b.args[0] not in ("pandas.read_csv", "pandas.read_table"):
                        continue
                    k = plain(e.args[0]).args[0]
                    for hd, where in headers(b, data, c):
                        ctx.judge("tables:%s:%s" % (c.name, k), k in hd, "a column of %s" % where, "%s has no column %r (%s)" % (where, k, hd), e.loc)
                    if c.qual in written:
                        ctx.judge("tables:%s:saved:%s" % (c.name, k), (True if k in (written[c.qual] or ()) else None if written[c.qual] is None or None in written[c.qual] else False), "a column of the saved table", "the saved table has no column %r" % k, e.loc)
    # columns looked up by keyword names (data sheet conversion)
    q = mod + "sipm_data_sheet.SiPMDataSheetConverter"
    if q in P.classes:
        c = P.classes[q]
        with ctx.section("tables:data_sheet"):
            hd = header(os.path.join(data, "sipm_data_sheet.csv"), ",")
            d, f = c.lookup("__call__")
            kw = [a.arg for a in f.node.args.kwonlyargs + f.node.args.args if a.arg != "self"]
            for k in kw:
                ctx.judge("tables:data_sheet:%s" % k, k in hd, "a column of the data sheet", "the data sheet has no column %r" % k, f.loc())


def headers(b, data, c):
    """headers of the packaged files a table is read from"""
    args, kw = b.args[1], dict(b.args[2])
    sep = kw.get("sep", kw.get("delimiter", args[1] if len(args) > 1 else (const(",") if b.args[0].endswith("csv") else const("\t"))))
    if not is_const(sep):
        return
    src = args[0] if args else kw.get("filepath_or_buffer", NONE)
    names = [x.args[0] for x in subterms(src) if is_const(x) and isinstance(x.args[0], str)]
    for n in names:
        if not n or n.startswith("/"):
            continue
        p = os.path.join(data, n.rstrip("*"))
        if os.path.isfile(p):
            yield header(p, sep.args[0]), n
        elif "*" in n and os.path.isdir(os.path.join(data, os.path.dirname(n))):
            dd = os.path.join(data, os.path.dirname(n))
            for x in sorted(os.listdir(dd)):
                if os.path.isfile(os.path.join(dd, x)) and not x.startswith((".", "__")):
                    yield header(os.path.join(dd, x), sep.args[0]), x
    if not any(os.path.exists(os.path.join(data, n.split("*")[0])) for n in names if n) and c.name == "IlluminationProfile":
        dd = os.path.join(data, "illumination_profile")
        for x in sorted(os.listdir(dd)) if os.path.isdir(dd) else ():
            if x.endswith(".dat"):
                yield header(os.path.join(dd, x), sep.args[0]), x
