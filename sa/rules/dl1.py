"""The DL1 extraction: extractor attributes and the paths of the writing loop."""
from .util import *

EX = "CHECLabPy.scripts.extract_dl1."
CHAIN = "CHECLabPy.core.chain.WaveformReducerChain"


def extractors(ctx):
    """[{attribute: value}] of a constructed extractor, one per constructor path"""
    ex = ctx.P.cls(EX + "DL1Extractor")
    I = ctx.interp(opaque={CHAIN})
    out = []
    for st, ref in I.build(ex, [param("reader"), param("config_path")], []):
        h = st.heap.get(ref)
        out.append({n: plain(I.freeze(st, v)) for n, v in h.attrs.items()})
    if not out:
        raise AnchorError("DL1Extractor(reader, config_path)")
    return ex, out


def writer(ctx):
    """class, function, interpreter and paths of the writing loop, with the HDF5 writer's own methods as primitives"""
    w = ctx.P.cls(EX + "DL1Writer")
    d, f = w.lookup("write_dl1_file")
    if not isinstance(f, Func):
        raise AnchorError("DL1Writer.write_dl1_file")
    opq = {CHAIN}
    for c in w.mro:
        if isinstance(c, Class):
            for n, m in c.members.items():
                if isinstance(m, Func) and (n in ("append", "write", "add_metadata", "add_mapping", "finish", "__init__",
                                                  "__exit__", "_append_to_store", "_save_metadata")):
                    opq.add(m.qual)
    I = ctx.interp(opaque=opq)
    return w, f, I, ctx.run(f, I, cls=w)


def layered(v):
    """the value an argument has when the merged dictionary does not name it"""
    v = plain(v)
    while v.op == "kwget":
        v = v.args[2]
    return v


def tables(p):
    """[(key, name, entries, event)] of the metadata tables stored on a path; entries: constant names -> value, and the
    dictionaries merged"""
    out = []
    for e, loops in flat_events(p.events):
        if e.kind == "call" and (e.name or "").endswith(".add_metadata"):
            d = dict(e.kwargs)
            key, name = layered(d.get("key", const("data"))), layered(d.get("name", const("metadata")))
            ents, merged = {}, []
            for k, v in e.kwargs:
                if k.startswith("**"):
                    v = plain(v)
                    while v.op == "rest":
                        v = v.args[0]
                    if v.op == "dictv":
                        for s in v.args[0]:
                            if s[0] == "kv" and is_const(s[1]):
                                ents[s[1].args[0]] = s[2]
                            else:
                                merged.append(plain(s[1]))
                    else:
                        merged.append(v)
                elif k not in ("self", "key", "name"):
                    ents[k] = v
            out.append((key, name, ents, merged, e))
    return out


def dict_entries(v):
    """key term -> value term of a dictionary built by loops (nested); None when not understood"""
    v = plain(v)
    if v.op == "dictv":
        out = []
        for s in v.args[0]:
            if s[0] == "kv":
                out.append((s[1], s[2], ()))
            else:
                sub = dict_entries(s[1])
                if sub is None:
                    return None
                out += sub
        return out
    if v.op == "dcomp":
        out = []
        for conds, segs in v.args[2]:
            for s in segs:
                if s[0] == "kv":
                    out.append((s[1], s[2], tuple(conds)))
                else:
                    sub = dict_entries(s[1])
                    if sub is None:
                        return None
                    out += [(k, x, tuple(conds) + c) for k, x, c in sub]
        return out
    return None
