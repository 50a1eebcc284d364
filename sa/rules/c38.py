"""Accessors of a file reader: each public accessor is compared, path by path, with the term of a small specification run
through the same abstract interpreter: the table, the column, the name and every restriction the caller gives reach the
store unchanged and the result comes back as it is; columns come back one per request in order; a name is only refused
under the branch fact that it is absent; the listing of names is the one made from the file when it was opened; the
property of a name reads the entry of that name."""
import ast
import re
from .util import *
from .hdf5 import *
from .refs import reference, same
from . import dl1

BASE = '''
def select(self, key, **kwargs):
    return self.STORE.select(key, **kwargs)

def select_column(self, key, column, **kwargs):
    return self.STORE.select_column(key, column, **kwargs)

def select_columns(self, key, columns, **kwargs):
    return [self.STORE.select_column(key, c, **kwargs) for c in columns]

def get_n_rows(self, key):
    return self.STORE.get_storer(key).nrows

def get_n_bytes(self, key):
    return self.get_metadata(key, 'metadata')["n_bytes"]

def get_column_names(self, key):
    return self.STORE.get_storer(key).attrs.non_index_axes[0][1]
'''
DL1 = '''
def select(self, **kwargs):
    return self.STORE.select('data', **kwargs)

def select_column(self, column, **kwargs):
    return self.STORE.select_column('data', column, **kwargs)

def select_columns(self, columns, **kwargs):
    return [self.STORE.select_column('data', c, **kwargs) for c in columns]

def columns(self):
    return self.STORE.get_storer('data').attrs.non_index_axes[0][1]

def n_rows(self):
    return self.STORE.get_storer('data').nrows

def n_bytes(self):
    return self.get_metadata('data', 'metadata')['n_bytes']

def metadata(self):
    return self.get_metadata('data', 'metadata')

def mapping(self):
    return self.STORE['mapping']

def config(self):
    return self.get_metadata('data', 'config')
'''
ENTRIES = ("is_mc", "n_events", "n_modules", "n_pixels", "n_superpixels_per_module", "n_samples", "camera_version", "version")
MODULE = (("get_sn", "sn", 1), ("get_sipm_temp", "sipm_temp", 1), ("get_primary_temp", "primary_temp", 1),
          ("get_sp_dac", "dac", 2), ("get_sp_hvon", "hvon", 2))


def run(ctx):
    P = ctx.P
    base, dl = P.cls(READER), P.cls(IO + "dl1_reader.DL1Reader")
    sn = store_attr(ctx, base)
    if sn is None:
        raise AnchorError("the store of %s" % base.qual)
    S = attr(SELF, sn)
    for cls, src in ((base, BASE), (dl, DL1)):
        ref = reference(ctx, src.replace("STORE", sn))
        for name, r in sorted(ref.items()):
            with ctx.section("%s.%s" % (cls.name, name)):
                accessor(ctx, cls, name, r, S)
    with ctx.section("listing"):
        other_listing(ctx, base)
    for cls in [base] + [c for c in P.subclasses(base) if c.lookup("get_metadata")[0] is not base or c.lookup("read")[0] is not base]:
        for name in ("read", "get_metadata", "get_mapping"):
            with ctx.section("%s.%s" % (cls.name, name)):
                refused(ctx, cls, name, S)
    with ctx.section("metadata:default"):
        d, f = base.lookup("get_metadata")
        ds = dict(zip([a.arg for a in f.node.args.args][::-1], f.node.args.defaults[::-1]))
        for a, want in (("key", "data"), ("name", "metadata")):
            v = ds.get(a)
            ctx.judge("metadata:default-%s" % a, v.value == want if isinstance(v, ast.Constant) else None, "%s unless given" % want,
                      "%s is %r unless given" % (a, getattr(v, "value", None)), f.loc())
    with ctx.section("DL1Reader.entries"):
        entries(ctx, dl)
    with ctx.section("DL1Reader.load_entire_table"):
        d, f = dl.lookup("load_entire_table")
        rd = dl.lookup("read")[1]
        for p in returns(ctx.run(f, ctx.interp(opaque={rd.qual}), cls=dl)):
            v = plain(p.value)
            ctx.judge("DL1Reader.load_entire_table", reads(v, rd, {"key": const("data"), "force": param("force")}),
                      "the whole event table, forced as asked", "returns %s" % show(v)[:200], f.loc())
    with ctx.section("context"):
        for cls in [base] + list(P.subclasses(base)):
            d, f = cls.lookup("__enter__")
            for p in returns(ctx.run(f, cls=cls)) if isinstance(f, Func) else ():
                ctx.judge("%s.__enter__" % cls.name, True if plain(p.value) is SELF else (False if is_const(plain(p.value)) else None),
                          "the reader itself", "returns %s" % show(plain(p.value)), f.loc())


def reads(v, rd, want):
    if not (v.op == "call" and v.args[0] == rd.qual or v.op == "meth" and v.args[1] == "read"):
        return None if v.op not in ("const", "item") else False
    got = {}
    if v.op == "call":
        got = dict(v.args[2])
        for n, x in zip([a.arg for a in rd.node.args.args], v.args[1]):
            got[n] = x
    else:
        got = dict(v.args[3])
        for n, x in zip([a.arg for a in rd.node.args.args][1:], v.args[2]):
            got[n] = x
    for k, w in want.items():
        x = got.get(k)
        if x is None:
            return False
        if x is not w:
            return False if is_const(x) or known_vocab(x, [w]) else None
    return True


def bare(x):
    while x.op == "rest":
        x = x.args[0]
    return x


def value(p):
    if p.kind == "raise":
        return ("raise", exc_type(p))
    v = unphi(p.value) if isinstance(p.value, Term) else p.value
    if isinstance(v, Term):
        # what is left of the caller's restrictions once the named arguments are taken out; one form for get_metadata
        v = rewrite(v, lambda x: bare(x) if x.op == "rest" else (
            mk("meth", dict(x.args[2])["self"], "get_metadata", (dict(x.args[2])["key"], dict(x.args[2])["name"]), ())
            if x.op == "call" and str(x.args[0]).endswith(".get_metadata") and {"self", "key", "name"} <= set(dict(x.args[2])) else None))
    # one column of a list may be handed out as the series or as its array
    if isinstance(v, Term) and v.op == "comp":
        v = rewrite(v, lambda x: x.args[0] if x.op == "attr" and x.args[1] == "values" and x.args[0].op == "meth" else
                    (x.args[0] if x.op == "meth" and x.args[1] == "to_numpy" else None))
    return ("return", v)


def accessor(ctx, cls, name, r, S):
    d, f = cls.lookup(name)
    if not isinstance(f, Func):
        raise AnchorError("%s.%s" % (cls.qual, name))
    key = "%s.%s" % (cls.name, name)
    gm = cls.lookup("get_metadata")[1]
    opq = {gm.qual} if isinstance(gm, Func) else set()
    ren = {a.arg: param(b.arg) for a, b in zip(f.node.args.args[1:], r.node.args.args[1:])}
    I = ctx.interp(opaque=opq)
    got = ctx.run(f, I, cls=cls, args=ren)
    ref = ctx.interp(opaque=opq).run(r, cls=cls)
    for p in got:
        if p.kind == "return" and isinstance(p.value, Term) and plain(p.value) is NONE:
            ctx.bad(key, "gives nothing back when %s" % p.cond_str()[:200], f.loc())
    if name == "select_columns":
        # taken out of one selection of the same columns, one per request
        for p in [p for p in got if p.kind == "return"]:
            v = plain(p.value)
            if v.op == "comp" and v.args[0] is param(r.node.args.args[-1].arg) and any(x.op == "meth" and x.args[1] == "select" for x in subterms(v)):
                ctx.und(key, "taken from one selection: %s" % show(v)[:200], f.loc())
                got = [q for q in got if q is not p]
    same(ctx, key, I, [p for p in got if p.kind == "return"], ref, value, "hands over what was asked for", f.loc(),
         {("call", "set"), ("call", "numpy.unique"), ("call", "sorted"), ("call", "reversed"), ("meth", "select"), ("meth", "select_column"), ("meth", "get_storer"), ("attr", "nrows"), ("attr", "ncols"), ("attr", "shape"), ("op", "comp"),
          ("attr", "start"), ("attr", "stop"), ("attr", "columns"), ("call", "list"), ("op", "item")})
    for p in got:
        if p.kind == "raise" and exc_type(p) != "KeyError":   # refusals by name: refused()
            ctx.und(key + ":raises", "refused when %s" % p.cond_str()[:200], f.loc())


def refused(ctx, cls, name, S):
    """a name is refused only where it is known to be absent (or, reading a whole table, where it is too large)"""
    d, f = cls.lookup(name)
    if not isinstance(f, Func):
        raise AnchorError("%s.%s" % (cls.qual, name))
    key = "%s.%s:refused" % (cls.name, name)
    asked = {"read": [param("key")], "get_metadata": [param("key"), param("name")], "get_mapping": [const("mapping"), const("/mapping")]}[name]
    n = 0
    opq = {m.qual for m in (cls.lookup(x)[1] for x in ("get_n_bytes", "get_metadata") if name == "read") if isinstance(m, Func)}
    for p in ctx.run(f, ctx.interp(opaque=opq), cls=cls):
        if p.kind != "raise":
            for a, pol in p.conds:
                a = plain(a)
                if a.op == "in" and not pol and any(unphi(a.args[0]) is k for k in asked) and not any(e.kind == "handler" for e, _ in flat_events(p.events)):
                    ctx.judge(key, False if listing(a.args[1], S) else None, "", "what is absent is read (%s)" % show(a)[:200], f.loc(), p.cond_str()[:300])
            continue
        if exc_type(p) == "MemoryError" and name == "read":
            forced = [pol for a, pol in p.conds if plain(a) in (mk("truth", param("force")), param("force"))]
            sized = [(plain(a), pol) for a, pol in p.conds if plain(a).op in ("lt", "le")]
            large = any((is_num(a.args[0]) and pol) or (is_num(a.args[1]) and not pol) for a, pol in sized)
            small = any((is_num(a.args[0]) and not pol) or (is_num(a.args[1]) and pol) for a, pol in sized)
            ctx.judge(key + ":size", True if large and not any(forced) else (False if any(forced) or small and not large or not p.conds else None),
                      "refused for its size only when it is too large and not forced", "refused for its size when %s" % p.cond_str()[:300], f.loc())
            continue
        if exc_type(p) != "KeyError":
            continue
        n += 1
        absent = present = other = False
        for a, pol in p.conds:
            a = unphi(a)
            x = a.args[0] if a.op == "truth" else a
            if x.op == "in" and any(x.args[0] is k for k in asked):
                absent = absent or not pol
                present = present or pol
            elif x.op == "call" and x.args[0] == "hasattr" and not pol:
                absent = True
            elif x.op == "is" and pol and NONE in x.args:
                absent = True
            else:
                other = other or "raised" in show(x)
        ctx.judge(key, True if absent else (None if other or not present and any(e.kind == "handler" for e, _ in flat_events(p.events)) else False if present or not p.conds else None),
                  "only what is absent is refused", "refused although it is there, when %s" % p.cond_str()[:300], f.loc(), p.cond_str()[:300])
    if not n:
        ctx.ok(key, "nothing is refused by name", f.loc())


def tested(ctx, cls, name):
    """attributes of the reader the method tests its key in"""
    f = cls.lookup(name)[1]
    out, used = set(), set()
    for p in ctx.run(f, cls=cls):
        for a, _ in p.conds:
            a = unphi(a)
            x = a.args[0] if a.op == "truth" else a
            if x.op != "in":
                continue
            if x.args[0] is param("key") and x.args[1].op == "attr" and x.args[1].args[0] is SELF:
                out.add(x.args[1].args[1])
            if x.args[1].op == "item" and x.args[1].args[1] is param("key") and x.args[1].args[0].op == "attr" and x.args[1].args[0].args[0] is SELF:
                used.add(x.args[1].args[0].args[1])
    return out, used


def other_listing(ctx, cls):
    """names of metadata are looked for in the listing of metadata: the listing of the tables that hold rows is a smaller one"""
    rows, _ = tested(ctx, cls, "read")
    mine, used = tested(ctx, cls, "get_metadata")
    if len(rows) == 1 and used and not (used & rows):
        ctx.judge("get_metadata:listing", not (mine & rows), "looked for where metadata is listed",
                  "metadata is refused unless %s, which lists the tables with rows only, holds its name" % sorted(mine & rows), cls.lookup("get_metadata")[1].loc())


def listing(t, S):
    t = unphi(t)
    return mentions(t, S) or t.op == "attr" and t.args[0] is SELF or t.op == "item" and listing(t.args[0], S) or t.op == "keys" and listing(t.args[0], S)


def entries(ctx, dl):
    gm = dl.lookup("get_metadata")[1]

    def of(v):
        """(table, name, entry) a term reads"""
        v = plain(v)
        if v.op != "item":
            return None
        b = v.args[0]
        if b.op == "call" and b.args[0] == gm.qual or b.op == "meth" and b.args[1] == "get_metadata":
            names = [a.arg for a in gm.node.args.args]
            if b.op == "call":
                kw = dict(b.args[2])
                pos = list(b.args[1])
            else:
                kw = dict(b.args[3])
                pos = [b.args[0]] + list(b.args[2])
            for n, x in zip(names, pos):
                kw[n] = x
            return kw.get("key", const("data")), kw.get("name", const("metadata")), v.args[1]
        return None
    I = ctx.interp(opaque={gm.qual})
    for n in ENTRIES:
        d, f = dl.lookup(n)
        if not isinstance(f, Func):
            ctx.und("DL1Reader.%s" % n, "no property of that name")
            continue
        for p in returns(ctx.run(f, I, cls=dl)):
            r = of(p.value)
            v = plain(p.value)
            if n == "version" and is_const(v) and any(e.kind == "handler" or "raised" in str(e.kind) for e, _ in flat_events(p.events)):
                ctx.ok("DL1Reader.version:old", "files without a version get the first one", f.loc())
                continue
            if r is None:
                ctx.judge("DL1Reader.%s" % n, False if is_const(v) else None, "", "is %s" % show(v)[:200], f.loc(), p.cond_str()[:200])
                continue
            ok = r == (const("data"), const("metadata"), const(n))
            ctx.judge("DL1Reader.%s" % n, ok if all(is_const(x) for x in r) else None, "reads the entry of its name", "reads entry %s of %s/%s" % (
                show(r[2]), show(r[0]), show(r[1])), f.loc(), p.cond_str()[:200])
    for n, tab, k in MODULE:
        d, f = dl.lookup(n)
        if not isinstance(f, Func):
            ctx.und("DL1Reader.%s" % n, "no method of that name")
            continue
        for p in returns(ctx.run(f, I, cls=dl)):
            r = of(p.value)
            v = plain(p.value)
            if r is None:
                ctx.judge("DL1Reader.%s" % n, False if is_const(v) else None, "", "is %s" % show(v)[:200], f.loc(), p.cond_str()[:200])
                continue
            ok = r[0] is const("data") and r[1] is const(tab)
            ctx.judge("DL1Reader.%s" % n, ok if is_const(r[0]) and is_const(r[1]) else None, "reads table %s" % tab, "reads table %s of %s" % (show(r[1]), show(r[0])), f.loc())
            args = [param(a.arg) for a in f.node.args.args[1:1 + k]]
            text = show(r[2])
            pos = [[m.start() for m in re.finditer(r"\{%s[:!}]" % re.escape(show(a)), text)] for a in args]
            good = all(len(x) == 1 for x in pos) and [x[0] for x in pos] == sorted(x[0] for x in pos)
            ctx.judge("DL1Reader.%s:arguments" % n, True if good else (False if r[2].op in ("fstr", "const") and not any(x.op in ("poly", "call", "meth") for x in subterms(r[2])) else None), "of the module and superpixel asked for",
                      "reads %s" % show(r[2])[:200], f.loc())

