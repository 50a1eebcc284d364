"""Layering of settings: on every constructor path of the chain the recorded configuration must be, as a normal form of
dictionary layers, [built-in settings, file content, arguments] when a file was read and [built-in settings, built-in
column defaults, arguments] when none was; the settings every reducer is selected with and built from must be those of
the recorded configuration on the same path; no path writes to a dictionary owned by the class.  The DL1 extraction must
record the chain's configuration."""
from .util import *
from .refs import reference
from . import reducers as R

SPEC = '''
import yaml
class A:
    def with_file(self, loaded, **kwargs):
        return {**self.default_config, **loaded, **kwargs}

    def without_file(self, **kwargs):
        return {**self.default_config, **self.default_columns, **kwargs}
'''
LOADED = param("loaded")


def canon(t):
    """dictionary layers: runs of single entries sorted by key, later entry of a key wins, empty layers dropped"""
    t = plain(t)
    if t.op != "dictv":
        return (("merge", t),)
    out, run_ = [], {}

    def flush():
        for k in sorted(run_, key=show):
            out.append(("kv", k, run_[k]))
        run_.clear()
    for s in t.args[0]:
        if s[0] == "kv":
            run_[s[1]] = plain(s[2])
        elif s[0] == "merge":
            sub = canon(s[1]) if s[1].op == "dictv" else (("merge", plain(s[1])),)
            for q in sub:
                if q[0] == "kv":
                    run_[q[1]] = q[2]
                else:
                    flush()
                    out.append(q)
        else:
            flush()
            out.append(s)
    flush()
    return tuple(out)


def overridden(segs):
    """entries put in after the arguments without asking whether the argument is there"""
    seen = False
    for s in segs:
        if s[0] == "merge" and s[1] is param("kwargs"):
            seen = True
        elif seen and s[0] == "merge" and s[1].op == "dcomp":
            for cubes, _ in s[1].args[2]:
                for cube in cubes or ((),):
                    if not any(a.op in ("in", "is") for a, pol in cube):
                        return True
        elif seen and s[0] == "merge" and not any(x.op in UNKNOWN_OPS for x in subterms(s[1])) and mentions(s[1], LOADED):
            return True
    return False


def layers(segs):
    return [show(x[1])[:60] if x[0] == "merge" else "%s=..." % show(x[1]) for x in segs][:12]


def is_load(x):
    return x.op in ("call", "meth") and (x.args[0] if x.op == "call" else "").startswith(("yaml.", "json.")) or \
        x.op == "ext" and False


def run(ctx):
    P = ctx.P
    cls = P.cls("CHECLabPy.core.chain.WaveformReducerChain")
    base = P.cls(R.RED + "WaveformReducer")
    spec = reference(ctx, SPEC)["A"].members
    d, f = cls.lookup("__init__")
    if f is None:
        raise AnchorError("WaveformReducerChain.__init__")
    I = ctx.interp(opaque={"CHECLabPy.core.child_subclasses"})
    want_file = canon(I.run(spec["with_file"], cls=cls)[0].value)
    want_none = canon(I.run(spec["without_file"], cls=cls)[0].value)
    names = {a.arg for a in f.node.args.args + f.node.args.kwonlyargs}
    cp = param("config_path")
    if "config_path" not in names:
        raise AnchorError("WaveformReducerChain(config_path)")
    paths = ctx.run(f, I, cls=cls)
    for p in returns(paths):
        with ctx.section("config"):
            stores = [e for e, _ in events_of(p, "setattr") if e.name == "config"]
            if not stores:
                ctx.bad("config:recorded", "no configuration is recorded", f.loc(), p.cond_str())
                continue
            raw = plain(stores[-1].value)
            loads = {x for x in subterms(raw) if is_load(x)}
            loads |= {x for e, _ in flat_events(p.events) if isinstance(e.value, Term) for x in [plain(e.value)] if is_load(x)}
            rw = lambda t: rewrite(plain(t), lambda x: LOADED if x in loads else None)
            got = canon(rw(raw))
            reads_file = bool(loads)
            facts = {plain(a): pol for a, pol in p.conds}
            has = facts.get(mk("truth", cp))
            if has is None and mk("is", cp, NONE) in facts:
                has = not facts[mk("is", cp, NONE)]
            if reads_file and has is False or not reads_file and has is True:
                # an empty file counts as one that names nothing
                empty = any("yaml" in show(a) for a in facts)
                ctx.judge("config:file", None if empty else False, "", "the file is %s although %s" % (
                    "read" if reads_file else "not read", p.cond_str()), f.loc())
                continue
            want = want_file if reads_file else want_none
            kind = "file" if reads_file else "defaults"
            ok = got == want
            empty = any(facts.get(mk("is", x, NONE)) or facts.get(mk("truth", x)) is False for x in loads)
            if reads_file and empty and not ok:
                ok = got == type(want)(s for s in want if s[1] is not LOADED)
            known = True
            if not ok:
                voc = {("param", "loaded"), ("param", "kwargs")}
                for s in got:
                    for x in s[1:]:
                        known = known and known_vocab(x, [], voc) and not any(y.op in UNKNOWN_OPS for y in subterms(x))
                    known = known and s[0] in ("kv", "merge")
                if overridden(got):
                    known = True
            ctx.judge("config:" + kind, True if ok else (False if known else None),
                      "layers %s" % layers(got), "layers are %s instead of %s" % (layers(got), layers(want)), f.loc(), p.cond_str())
        with ctx.section("used"):
            # the settings given to the reducers are the recorded ones
            n = 0
            cfg = canon(raw)
            seen = set()
            for e, _ in flat_events(p.events):
                if e.kind == "setattr" and e.name == "chain":
                    for x in subterms(plain(e.value)):
                        if x.op == "callv" and len(x.args[1]) == 2 and x.args[0].op == "elem":
                            seen.add((tuple(x.args[2]), e.loc, "built"))
                        if x.op == "meth" and x.args[1] == "get_active_columns":
                            seen.add((tuple(x.args[3]), e.loc, "selected"))
            for kw, loc, what in sorted(seen, key=str):
                n += 1
                u = used(kw)
                c2 = strip(cfg)
                v = u == c2
                if not v and any(s[0] not in ("kv", "merge") for s in u + c2):
                    v = None
                ctx.judge("used:%s" % what, v, "reducers are %s with the recorded configuration" % what,
                          "reducers are %s with %s but %s is recorded" % (what, layers(u), layers(c2)), loc, p.cond_str())
            if not n:
                ctx.und("used", "settings of the reducers not found", f.loc())
        with ctx.section("defaults"):
            for e, _ in flat_events(p.events):
                if e.kind in ("mut", "setitem", "inplace", "delattr") and str(e.tag or "").startswith("class:"):
                    ctx.bad("defaults:unchanged", "building a chain changes %s (%s)" % (e.tag[6:], e), e.loc, p.cond_str())
                if e.kind == "setattr" and e.name in ("default_columns", "default_config"):
                    ctx.bad("defaults:unchanged", "building a chain replaces %s" % e.name, e.loc)
            ctx.ok("defaults:unchanged", "no write to a class dictionary", f.loc())
    # ---- the settings decide which columns are active and which reducers are built
    from . import c03
    b, cs = R.classes(ctx)
    c03.selection(ctx, reference(ctx, c03.SPEC)["A"].members, b, cs, "choice:")
    with ctx.section("chain"):
        for where, v, J in c03.chain_of(ctx, cls) or ():
            c03.check_chain(ctx, where, v, base)
    # ---- what the DL1 file records
    with ctx.section("recorded"):
        ex = P.cls("CHECLabPy.scripts.extract_dl1.DL1Extractor")
        I = ctx.interp(opaque={cls.qual})
        for st, ref in I.build(ex, [param("reader"), cp], []):
            h = st.heap.get(ref)
            v = plain(I.freeze(st, h.attrs["config"])) if "config" in h.attrs else None
            if v is None:
                ctx.und("recorded", "DL1Extractor has no config attribute", ex.module.rel)
                continue
            srcs = [x for x in subterms(v) if x.op == "attr" and x.args[1] == "config"]
            ok = any(x.args[0].op in ("call", "obj") or "chain" in show(x.args[0]).lower() for x in srcs)
            ctx.judge("recorded:dl1", True if ok else (None if any(x.op in UNKNOWN_OPS for x in subterms(v)) else False),
                      "the DL1 file records the chain's configuration", "the recorded configuration is %s" % show(v)[:300], ex.module.rel)
            ch = [e for e in st.events if e.kind in ("call", "new") and (e.name or "").endswith("WaveformReducerChain")]
            for e in ch:
                kw = dict(e.kwargs)
                for n, x in zip(("n_pixels", "n_samples", "config_path"), e.args):
                    kw.setdefault(n, x)
                if "config_path" not in kw and any(k.startswith("**") for k in kw):
                    ctx.und("recorded:config_path", "the chain is built from %s" % sorted(kw), e.loc)
                    continue
                ctx.judge("recorded:config_path", True if kw.get("config_path") is cp else (False if kw.get("config_path") is None
                          or is_const(kw["config_path"]) else None), "the chosen file configures the chain",
                          "the chain is built with config_path=%s" % show(kw.get("config_path", NONE)), e.loc)


TAKEN = ("n_pixels", "n_samples", "_disable_by_default", "config_path")


def used(kw):
    """dictionary layers of a call's keyword arguments"""
    out, run_ = [], {}
    merges = []
    for k, v in kw:
        if isinstance(k, str) and k.startswith("**"):
            merges.append(unrest(v))
        elif k not in TAKEN:
            run_[const(k)] = v
    # explicit entries are expressed as 'argument, else default': kwget(merge, name, value)
    ent = {}
    for k, v in run_.items():
        v = plain(v)
        while v.op == "kwget" and unrest(v.args[0]) in merges and v.args[1] is k:
            v = v.args[2]
        ent[k] = v
    for k in sorted(ent, key=show):
        out.append(("kv", k, ent[k]))
    for m in merges:
        for s in canon(m):
            if s[0] != "kv" or s[1].args[0] not in TAKEN:
                out.append(s)
    return tuple(out)


def unrest(t):
    return rewrite(plain(t), lambda x: unrest(x.args[0]) if x.op == "rest" else None)


def strip(segs):
    return tuple(s for s in segs if not (s[0] == "kv" and is_const(s[1]) and s[1].args[0] in TAKEN))
