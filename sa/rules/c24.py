"""Pixel masks.  The terms of the three categories are normalised to unions (sets of atoms, an atom being the category held
before or a column of the file read) after interpreting a load with and without merging from an arbitrary earlier state; the
saved frame, the file chosen by default and the combined mask are compared in the same normal form."""
from .util import *
from .refs import reference
from ..terms import item

CLS = "CHECLabPy.calib.pixel_masks.PixelMasks"
CATS = ("dead", "low", "bad_hv")
REF = '''
import re
def key(text):
    return [int(c) if c.isdigit() else c for c in re.split(r'(\\d+)', text)]
'''
FLAT = ("numpy.asarray", "numpy.array", "numpy.ascontiguousarray", "numpy.copy", "copy.copy", "copy.deepcopy")
KNOWN_CALLS = {"pandas.read_csv", "numpy.reshape", "numpy.any", "numpy.all", "numpy.repeat", "numpy.tile", "numpy.logical_and", "numpy.logical_xor", "numpy.logical_or", "numpy.zeros", "numpy.ones",
               "numpy.max", "numpy.min", "numpy.amax", "numpy.amin", "numpy.zeros_like", "numpy.ones_like", "numpy.logical_and.reduce", "numpy.logical_xor.reduce", "numpy.logical_or.reduce", "numpy.logical_not"} | set(FLAT)
KNOWN_OPS = {"call", "item", "attr", "param", "const", "tuple", "listv", "bitor", "bitand", "bitxor", "invert", "not", "slice", "neg", "list", "phi0"}
N_PIX, N_SP = 2048, 512


def run(ctx):
    P = ctx.P
    cls = P.cls(CLS)
    with ctx.section("load"):
        load(ctx, cls)
    with ctx.section("save"):
        save(ctx, cls)
    with ctx.section("all"):
        combined(ctx, cls)


def old(a):
    return param("old " + a)


def strip(t):
    """peel conversions that keep the boolean content"""
    t = plain(t)
    while True:
        if t.op == "attr" and t.args[1] in ("values", "array"):
            t = plain(t.args[0])
        elif t.op == "meth" and t.args[1] in ("to_numpy", "copy"):
            t = plain(t.args[0])
        elif t.op == "meth" and t.args[1] == "astype" and len(t.args[2]) == 1 and show(t.args[2][0]) in ("bool", "numpy.bool_", "'bool'", "builtin(bool)", "<class 'bool'>"):
            t = plain(t.args[0])
        elif t.op == "call" and t.args[0] in FLAT:
            kw = dict(t.args[2])
            x = t.args[1][0] if t.args[1] else kw.get("a", kw.get("object", kw.get("x")))
            if x is None:
                return t
            t = plain(x)
        else:
            return t


def kwof(t, pos):
    kw = dict(t.args[2])
    for n, v in zip(pos, t.args[1]):
        kw.setdefault(n, v)
    return kw


def seq(t):
    t = plain(t)
    if t.op in ("tuple",):
        return list(t.args[0])
    if t.op == "listv" and all(s[0] == "item" for s in t.args[0]):
        return [s[1] for s in t.args[0]]
    return None


def stride(t):
    """(array, offset) of array[offset::4]"""
    t = strip(t)
    if t.op == "item" and plain(t.args[1]).op == "slice":
        a, b, c = plain(t.args[1]).args
        if c is const(N_PIX // N_SP) and b is NONE and (a is NONE or is_const(a) and is_num(a)):
            return t.args[0], 0 if a is NONE else a.args[0]
    return None


def union(t):
    """set of atoms whose elementwise or is t"""
    u = union0(t)
    parts = {}
    for a in u:
        s = stride(a) if isinstance(a, Term) else None
        if s is not None:
            parts.setdefault(s[0], {})[s[1]] = a
    for b, d in parts.items():
        if set(d) == set(range(N_PIX // N_SP)):
            u = u - set(d.values()) | frozenset(("persuperpixel", x) for x in union(b))
    return u


def union0(t):
    t = strip(t)
    if t.op in ("bitor", "or"):
        out = frozenset()
        for a in (t.args[0] if len(t.args) == 1 and isinstance(t.args[0], tuple) else t.args):
            if isinstance(a, Term):
                out |= union(a)
            else:
                for b in a:
                    out |= union(b)
        return out
    if t.op == "call":
        n = t.args[0]
        if n in ("numpy.logical_or", "numpy.bitwise_or", "numpy.maximum", "numpy.fmax"):
            kw = kwof(t, ("x1", "x2"))
            if set(kw) == {"x1", "x2"}:
                return union(kw["x1"]) | union(kw["x2"])
        if n in ("numpy.logical_or.reduce", "numpy.bitwise_or.reduce", "numpy.maximum.reduce", "numpy.any", "numpy.max", "numpy.amax", "numpy.sum"):
            kw = kwof(t, ("a", "axis"))
            xs = seq(kw.get("a", kw.get("array", NONE)))
            ax = kw.get("axis")
            if xs is not None and (ax is const(0) or ax is None and n.endswith(".reduce")):
                out = frozenset()
                for x in xs:
                    out |= union(x)
                return out
        if n == "numpy.where":
            kw = kwof(t, ("condition", "x", "y"))
            if kw.get("x") is const(True) and "y" in kw:
                return union(kw["condition"]) | union(kw["y"])
        if n == "numpy.repeat":
            kw = kwof(t, ("a", "repeats"))
            if "a" in kw and kw.get("repeats") is const(N_PIX // N_SP) and set(kw) <= {"a", "repeats", "axis"}:
                return frozenset(("perpixel", a) for a in union(kw["a"]))
        if n in ("numpy.any", "numpy.max", "numpy.amax", "numpy.logical_or.reduce"):
            kw = kwof(t, ("a", "axis"))
            x = strip(kw.get("a", kw.get("array", NONE)))
            ax = kw.get("axis")
            if x.op == "call" and x.args[0] == "numpy.reshape" and ax in (const(1), const(-1)):
                k2 = kwof(x, ("a", "newshape"))
                shp = seq(k2.get("newshape", NONE))
                if shp is not None and len(shp) == 2 and shp[1] is const(N_PIX // N_SP) and shp[0] in (const(N_SP), const(-1)) and "order" not in k2:
                    return frozenset(("persuperpixel", a) for a in union(k2["a"]))
    return frozenset([t])


def fname(f, name):
    return frozenset([item(f, const(name))])


def known(t):
    for x in subterms(plain(t)):
        if x.op == "call" and x.args[0] not in KNOWN_CALLS:
            return False
        if x.op == "meth" and x.args[1] not in ("any", "all", "reshape", "astype", "copy", "to_numpy"):
            return False
        if x.op not in KNOWN_OPS and x.op != "meth":
            return False
    return True


def unwrap(atoms):
    out = []
    for a in atoms:
        while isinstance(a, tuple):
            a = a[1]
        out.append(a)
    return out


def text(u):
    def one(a):
        return "%s(%s)" % (a[0], one(a[1])) if isinstance(a, tuple) else show(a)[:150]
    return " | ".join(sorted(one(a) for a in u))


def verdict(got, want):
    if got == want:
        return True
    return False if all(known(x) for x in unwrap(got)) else None


def loader(cls):
    for n in ("_load_file", "load_file", "load"):
        try:
            d, f = cls.lookup(n)
        except Exception:
            continue
        if isinstance(f, Func):
            return n, f
    for n, f in cls.members.items():
        if isinstance(f, Func) and any(a.arg == "merge" for a in f.node.args.args + f.node.args.kwonlyargs):
            return n, f
    raise AnchorError("no method of PixelMasks loads a file with merge")


def load(ctx, cls):
    I = ctx.interp()
    name, fn = loader(cls)
    n = 0
    seps = set()
    built = I.build(cls, [param("path")], [])
    for st, r in built:
        check(ctx, "construct", I, st, r, st.conds, {c: None for c in CATS}, fn, False, param("path"))
    st, r = built[0]
    st = st.copy()
    for a in CATS:
        if a not in st.heap[r].attrs:
            raise AnchorError("PixelMasks.%s" % a)
        st.heap[r].attrs[a] = old(a)
    st.conds = []
    names = [a.arg for a in fn.node.args.args]
    for given in (True, False):
        for merge in (True, False):
            v = {"path": param("path2") if given else NONE, "merge": const(merge)}
            if not set(v) <= set(names):
                ctx.und("load:signature", "%s(%s)" % (name, ", ".join(names)), fn.loc())
                continue
            s0 = st.copy()
            for p in I.method(s0, r, name, [v[a] for a in names[1:] if a in v]):
                ctx.count([p])
                if p.kind != "return":
                    continue
                n += 1
                check(ctx, "merge" if merge else "replace", I, p.st, r, p.conds, {c: old(c) for c in CATS}, fn, merge, v["path"] if given else None)
    if not n:
        ctx.und("load", "no path of %s understood" % name, fn.loc())


def chosen(ctx, conds, path, given):
    """the file read: the one given, otherwise the last in natural order"""
    facts = {plain(a): v for a, v in conds}
    if path.op == "param":
        return True
    pats = [x for x in subterms(path) if x.op == "call" and x.args[0] in ("glob.glob", "glob.iglob", "os.listdir")]
    if not pats:
        return None
    if given is not None and facts.get(mk("is", given, NONE)) is not True and facts.get(mk("truth", given)) is not False:
        return False
    key, rev, last = None, False, None
    t = path
    if t.op == "item" and t.args[1] in (const(-1), const(0)):
        last = t.args[1] is const(-1)
        t = t.args[0]
        if t.op == "mutated":
            sorts = [o for o in t.args[1] if o[0] == "sort"]
            if not sorts or any(o[0] != "sort" for o in t.args[1]):
                return None
            kw = dict(sorts[-1][2])
        elif t.op == "call" and t.args[0] == "sorted":
            kw = dict(t.args[2])
        elif t in pats:
            return False
        else:
            return None
        key = kw.get("key")
        rev = kw.get("reverse")
        if rev not in (None, const(False), const(True)):
            return None
        if last == (rev is const(True)):
            return False
    elif t.op == "call" and t.args[0] in ("max", "min"):
        key = dict(t.args[2]).get("key")
        if t.args[0] == "min":
            return False
    else:
        return None
    if key is None or key is NONE:
        return False
    return natural(ctx, key)


def natural(ctx, key):
    I = ctx.interp()
    k = plain(key)
    q = k.args[0] if k.op in ("func", "call", "global", "name", "closure") and k.args and isinstance(k.args[0], str) else show(k)
    f = ctx.P.funcs.get(q)
    if f is None:
        return False if q in ("os.path.getmtime", "os.path.getctime", "len") else None
    a = f.node.args.args[0].arg
    ref = reference(ctx, REF, f)["key"]
    got = [p.value for p in returns(I.run(f, args={a: param("text")}))]
    want = [p.value for p in returns(I.run(ref, args={"text": param("text")}))]
    if len(got) == 1 and len(want) == 1 and plain(got[0]) is plain(want[0]):
        return True
    if len(got) == 1 and (plain(got[0]).op == "param" or not any(x.op == "call" and x.args[0] == "int" for x in subterms(plain(got[0]))) and not any(x.op in UNKNOWN_OPS for x in subterms(plain(got[0])))):
        return False
    return None


BADREAD = ("nrows", "skiprows", "skipfooter", "chunksize")


def check(ctx, what, I, st, r, conds, before, fn, merge, given):
    cs = conds_str(conds)
    files, raws = set(), {}
    for c in CATS:
        raw = I.freeze(st, st.heap[r].attrs[c])
        got = union(raw)
        for x in subterms(raw):
            if x.op == "call" and x.args[0].startswith("pandas.read_"):
                raws[plain(x)] = x
        reads = {x for a in unwrap(got) for x in subterms(a) if x.op == "call" and x.args[0].startswith("pandas.read_")}
        files |= reads
        if len(reads) > 1:
            ctx.und("%s:%s" % (what, c), "%d files read" % len(reads), fn.loc())
            continue
        if not reads:
            ctx.judge("%s:%s" % (what, c), False if all(known(x) for x in unwrap(got)) and not any(mentions(a, old(k)) for a, _ in conds for k in CATS) else None, "",
                      "%s does not depend on the file: it is %s" % (c, text(got)), fn.loc(), cs)
            continue
        f = next(iter(reads))
        new = frozenset([item(f, const(c))])
        if c == "bad_hv":
            new = frozenset(("persuperpixel", a) for a in new)
        want = new | (frozenset([before[c]]) if merge else frozenset())
        v = verdict(got, want)
        if v is False and any(mentions(plain(a), f) or any(mentions(plain(a), old(k)) for k in CATS) for a, _ in conds):
            v = None
        ctx.judge("%s:%s" % (what, c), v, "%s the file's %s" % ("adds" if merge else "takes", c), "%s becomes %s" % (c, text(got)), fn.loc(), cs)
    if len(files) == 1:
        f = next(iter(files))
        kw = kwof(raws.get(f, f), ("filepath_or_buffer",))
        path = kw.get("filepath_or_buffer")
        v = chosen(ctx, conds, path, given) if path is not None else None
        ctx.judge("%s:file" % what, v, "the file given, or the latest", "the masks are read from %s" % (show(path)[:300] if path is not None else "?"), fn.loc(), cs)
        for b in BADREAD:
            if b in kw and kw[b] is not NONE and kw[b] is not const(0):
                ctx.bad("%s:rows" % what, "only part of the file is read (%s=%s)" % (b, show(kw[b])), fn.loc())
        ctx.reads = getattr(ctx, "reads", set()) | {f}
    elif len(files) > 1:
        ctx.und("%s:file" % what, "%d files are read" % len(files), fn.loc())


def save(ctx, cls):
    I = ctx.interp()
    built = I.build(cls, [param("path")], [])
    st, r = built[0]
    st = st.copy()
    st.conds = []
    for a in CATS:
        st.heap[r].attrs[a] = old(a)
    d, fn = cls.lookup("commit")
    if not isinstance(fn, Func):
        raise AnchorError("PixelMasks.commit")
    n = 0
    for p in I.method(st, r, "commit", []):
        ctx.count([p])
        if p.kind != "return":
            continue
        ev = [e for e, _ in flat_events(p.events[len(st.events):])]
        out = [e for e in ev if e.kind == "meth" and e.name == "to_csv"]
        if not out:
            ctx.und("save:file", "no table is written when %s" % p.cond_str(), fn.loc())
            continue
        n += 1
        e = out[-1]
        kw = {k: plain(v) for k, v in e.kwargs}
        path = plain(e.args[0]) if e.args else kw.get("path_or_buf")
        frame(ctx, e, p, ev[:ev.index(e)])
        if kw.get("mode") is const("a"):
            ctx.bad("save:mode", "the masks are appended to the file", e.loc)
        if kw.get("header") is const(False):
            ctx.bad("save:header", "the columns are not named", e.loc)
        if "columns" in kw:
            cols = seq(kw["columns"])
            miss = [c for c in CATS if const(c) not in cols] if cols is not None else None
            ctx.judge("save:columns", True if miss == [] else (False if miss else None), "all categories", "%s not written" % miss, e.loc)
        for f in sorted(getattr(ctx, "reads", ()), key=show):
            rk = dict(f.args[2])
            rs = rk.get("sep", rk.get("delimiter", const(",")))
            ws = kw.get("sep", const(","))
            sp = is_const(rs) and is_const(ws)
            good = sp and (rs is ws or rs.args[0] == r"\s+" and str(ws.args[0]).isspace() or rk.get("delim_whitespace") is const(True) and str(ws.args[0]).isspace())
            ctx.judge("save:separator", True if good else (False if sp else None), "read as it is written", "written with separator %s and read with %s" % (show(ws), show(rs)), e.loc)
        where(ctx, path, e)
        for x in ev:
            if x.kind == "setattr" and x.name in CATS:
                ctx.bad("save:unchanged", "saving changes %s" % x.name, x.loc)
    if not n:
        ctx.und("save", "no path writes a file", fn.loc())


def frame(ctx, e, p, earlier):
    t = plain(e.base)
    if t.op != "call" or t.args[0] not in ("pandas.DataFrame", "pandas.DataFrame.from_dict"):
        ctx.und("save:frame", "the table is %s" % show(t)[:200], e.loc)
        return
    kw = kwof(t, ("data",))
    data = plain(kw.get("data", NONE))
    if data.op != "dictv" or any(s[0] != "kv" or not is_const(s[1]) for s in data.args[0]):
        ctx.und("save:frame", "the table is made of %s" % show(data)[:200], e.loc)
        return
    kv = {s[1].args[0]: s[2] for s in data.args[0]}
    for x in earlier:
        if x.kind in ("setitem", "mut", "inplace") and isinstance(x.base, Term) and plain(x.base) is t:
            k = plain(x.args[0]) if x.args else NONE
            if x.kind == "setitem" and is_const(k):
                kv[k.args[0]] = x.value
            else:
                ctx.und("save:frame", "the table is changed by %s" % x, x.loc)
                return
    for c in CATS:
        if c not in kv:
            ctx.bad("save:" + c, "%s is not written" % c, e.loc, p.cond_str())
            continue
        got = union(kv[c])
        want = frozenset([("perpixel", old(c)) if c == "bad_hv" else old(c)])
        ctx.judge("save:" + c, verdict(got, want), "written for every pixel", "%s is written as %s" % (c, text(got)), e.loc, p.cond_str())


def where(ctx, path, e):
    """committed files are found again: in the folder that is searched, under a name that sorts by time"""
    globs = {x for f in getattr(ctx, "reads", ()) for x in subterms(f) if x.op == "call" and x.args[0] == "glob.glob"}
    if path is None or len(globs) != 1:
        ctx.und("save:folder", "path %s" % (show(path)[:200] if path is not None else "?"), e.loc)
        return
    pat = plain(next(iter(globs)).args[1][0]) if next(iter(globs)).args[1] else NONE
    fmts = [x for x in subterms(path) if x.op == "meth" and x.args[1] == "strftime" and len(x.args[2]) == 1 and is_const(x.args[2][0])]
    if len(fmts) == 1:
        import re
        f = fmts[0].args[2][0].args[0]
        codes = re.findall(r"%(.)", f)
        order = "YymdHMSf"
        rank = {"Y": 0, "y": 0, "m": 1, "d": 2, "H": 3, "M": 4, "S": 5, "f": 6}
        if all(c in rank for c in codes):
            rs = [rank[c] for c in codes]
            ctx.judge("save:name", rs == sorted(rs) and rs[:5] == list(range(min(5, len(rs)))) and len(rs) >= 3, "names sort by time", "names like %s do not sort by time" % f, e.loc)
        elif "j" in codes or "b" in codes or "I" in codes or "B" in codes or "p" in codes:
            ctx.bad("save:name", "names like %s do not sort by time" % f, e.loc)
        else:
            ctx.und("save:name", "format %s" % f, e.loc)
    else:
        ctx.und("save:name", "path %s" % show(path)[:200], e.loc)
    g = strings(pat)
    w = strings(path)
    if not g or not w:
        ctx.und("save:folder", "path %s" % show(path)[:200], e.loc)
        return
    import fnmatch
    ctx.judge("save:folder", g[0] == w[0] and fnmatch.fnmatch(w[1], g[1]), "saved where the latest file is looked for", "saved as %s but looked for in %s" % (w[1], g[1]), e.loc)


def strings(t):
    """(root term, pattern) of a path, unknown parts shown as a letter"""
    parts = []
    def flat(x):
        x = plain(x)
        if x.op == "call" and x.args[0] in ("os.path.join", "posixpath.join"):
            for i, a in enumerate(x.args[1]):
                if i:
                    parts.append("/")
                flat(a)
        elif is_const(x):
            parts.append(str(x.args[0]))
        elif x.op == "fstr":
            for a in x.args[0]:
                if isinstance(a, str):
                    parts.append(a)
                else:
                    flat(a[0])
        else:
            parts.append(x)
    flat(t)
    if not parts or not isinstance(parts[0], Term):
        return None
    return parts[0], "".join(x if isinstance(x, str) else "X" for x in parts[1:])


def combined(ctx, cls):
    d, fn = cls.lookup("all_mask")
    if not isinstance(fn, Func):
        raise AnchorError("PixelMasks.all_mask")
    want = frozenset([attr(SELF, "dead"), attr(SELF, "low"), ("perpixel", attr(SELF, "bad_hv"))])
    for p in returns(ctx.run(fn, cls=cls)):
        got = union(p.value)
        ctx.judge("all", verdict(got, want), "dead | low | bad_hv", "the combined mask is %s" % text(got), fn.loc(), p.cond_str())
