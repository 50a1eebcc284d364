"""Symbolic shape inference over the value term of every column on every path: with waveforms of
shape (P, S), P pixels and S samples unrelated symbols, the result must be (P,) with the pixel
axis in its original order (not reversed, gathered, strided or tiled), or a single value; an
operation that combines a pixel axis with a sample axis or a fixed length is a violation."""
from .util import *
from . import reducers as R
from .shapes import Shapes, Mismatch, P_, S_, fmt

WF = param("waveforms")


def env():
    return {WF: (P_, S_), param("n_pixels"): P_, param("n_samples"): S_}


def depends(d):
    """a selection, ordering or part of the samples: never the pixels in order for every event"""
    if d.op == "count":
        return mentions(d.args[1], WF)
    if d.op == "gather":
        r = d.args[1]
        return r.op == "call" and r.args[0] in ("numpy.argsort", "numpy.argpartition", "numpy.lexsort") and mentions(r, WF)
    if d.op == "sl":
        return d.args[0] is S_ or d.args[0].op in ("count", "gather") and depends(d.args[0])
    return False


def run(ctx):
    ctx.assumptions = ["the number of pixels is a multiple of the 4 pixels of a superpixel",
                       "settings given by keyword are single numbers",
                       "ctapipe integrators return one value per pixel"]
    base, classes = R.classes(ctx)
    if len(classes) < 5:
        raise AnchorError("reducer classes")
    for c in classes:
        with ctx.section(c.name):
            I = ctx.interp()
            n = 0
            for name, f, p, ref in R.phases(ctx, c, I, WF):
                if name.startswith("_") or p.kind != "return":
                    continue
                n += 1
                key = "%s.%s" % (c.name, name)
                v = I.freeze(p.st, p.value)
                sh = Shapes(ctx.P, env())
                try:
                    s = sh.of(v)
                except Mismatch as e:
                    ctx.bad(key, "shapes depend on pixels and samples being related: %s in %s" % (e, show(v)[:200]),
                            f.loc(), p.cond_str())
                    continue
                if v is not NONE and (s == () or s == (P_,)):
                    ctx.ok(key, "one value per " + ("pixel, in order" if s else "event"), f.loc())
                elif v is NONE:
                    ctx.bad(key, "no value is returned", f.loc(), p.cond_str())
                elif plain(v).op in ("dictv", "dcomp", "setv"):
                    ctx.bad(key, "the result is not an array or a number: %s" % show(v)[:200], f.loc(), p.cond_str())
                elif s is not None and len(s) > 1 and all(d is not None for d in s):
                    ctx.bad(key, "the result has %d dimensions: %s" % (len(s), fmt(s)[:200]), f.loc(), p.cond_str())
                elif s is not None and len(s) == 1 and s[0] is not None and depends(s[0]):
                    ctx.bad(key, "the number or order of the values depends on the waveforms: %s" % fmt(s)[:200], f.loc(), p.cond_str())
                elif s is None or any(d is None or not sh._known(d) for d in s):
                    ctx.und(key, "shape not known: %s of %s" % (fmt(s), show(v)[:200]), f.loc())
                else:
                    ctx.bad(key, "the result has shape %s instead of (P,) or a single value: %s" % (fmt(s), show(v)[:200]),
                            f.loc(), p.cond_str())
            if not n and R.all_columns(ctx, c):
                ctx.und(c.name, "no column path")
