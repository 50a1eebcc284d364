"""No path of the chain, of any reducer (preparation, every column, post-processing), of the time
calibrator, the baseline subtractor, the shifting helpers or the DL1 extractor contains a write
(element or in-place assignment, mutating method, out= or output argument, numba kernel argument)
whose target may share memory with the waveform array that was passed in; views, slices and
attributes holding them are followed."""
from .util import *
from .alias import Writes, roots
from . import reducers as R
from .reducers import fresh

WF = param("waveforms")
WF2 = param("waveforms of the next event")


def check(ctx, W, key, paths, protected, what):
    n = 0
    for p in paths:
        n += 1
        for e, r, how in W.hits(p, protected):
            ctx.bad(key, "%s: %s writes the array passed in as %s" % (what, how, ", ".join(show(x) for x in r)),
                    e.loc, p.cond_str() if hasattr(p, "cond_str") else None)
    if n:
        ctx.ok(key, "%s: no write reaches the input on %d paths" % (what, n))
    else:
        ctx.und(key, "no path analysed")


def run(ctx):
    P = ctx.P
    W = Writes(ctx)
    ctx.assumptions = ["external library functions write only their documented output arguments",
                       "ctapipe integrators do not modify the waveforms they are given"]
    base, classes = R.classes(ctx)
    if len(classes) < 5:
        raise AnchorError("reducer classes")
    for c in [base] + classes:
        with ctx.section(c.name):
            I = ctx.interp()
            seen = {}
            after = []
            for n, f, p, ref in R.phases(ctx, c, I, WF):
                seen.setdefault(n, []).append(p)
                if p.kind == "return":
                    after.append((p.st, ref))
            for n, ps in seen.items():
                check(ctx, W, "%s.%s" % (c.name, n), ps, {WF}, "%s.%s" % (c.name, n))
            # a reference kept until the next event
            kept = []
            for st, ref in after:
                h = st.heap.get(ref)
                if h is not None and any(WF in roots(v) for v in h.attrs.values() if isinstance(v, Term)):
                    kept.append((fresh(st), ref))
            if kept:
                ps = [p for p, _ in R.prepared(ctx, c, I, WF2, built=kept[:8])]
                check(ctx, W, c.name + ":next-event", ps, {WF, WF2}, c.name + " at the next event")
    # ---- chain
    ch = P.cls("CHECLabPy.core.chain.WaveformReducerChain")
    with ctx.section("chain"):
        f = ch.lookup("process")[1]
        check(ctx, W, "WaveformReducerChain.process", ctx.run(f, cls=ch), {param(R.arg1(f))}, "chain.process")
    # ---- processing steps with a waveform argument
    for q, m in (("CHECLabPy.calib.time_calibrator.TimeCalibrator", "__call__"),
                 ("CHECLabPy.calib.waveform.WaveformCalibrator", "__call__"),
                 ("CHECLabPy.utils.waveform.BaselineSubtractor", "subtract"),
                 ("CHECLabPy.utils.waveform.BaselineSubtractor", "update_baseline")):
        with ctx.section(q.split(".")[-1] + "." + m):
            cls = P.cls(q)
            f = cls.lookup(m)[1]
            if f is None:
                if m == "update_baseline":
                    continue
                raise AnchorError(q + "." + m)
            w = param(R.arg1(f))
            ps = []
            I = ctx.interp()
            for st, ref in I.build(cls, [param("arg%d" % i) for i in range(len(
                    cls.lookup("__init__")[1].node.args.args) - 1)]):
                for p in ctx.count(I.run(f, cls=cls, st=fresh(st), self_v=ref)):
                    ps.append(p)
                    if p.kind == "return":
                        ps.extend(ctx.count(I.run(f, cls=cls, st=fresh(p.st), self_v=ref,
                                                  args={R.arg1(f): WF2})))
            check(ctx, W, "%s.%s" % (cls.name, m), ps, {w, WF2}, "%s.%s" % (cls.name, m))
    for n in ("shift_array", "shift_waveform", "get_average_wf", "get_average_wf_per_pixel"):
        with ctx.section(n):
            f = P.fn("CHECLabPy.utils.waveform." + n)
            a0 = f.node.args.args[0].arg
            check(ctx, W, n, ctx.run(f), {param(a0)}, n)
    # ---- the whole event processing of the DL1 extraction
    with ctx.section("DL1Extractor"):
        cls = P.cls("CHECLabPy.scripts.extract_dl1.DL1Extractor")
        f = cls.lookup("__call__")[1]
        w = param(R.arg1(f))
        I = ctx.interp(opaque={ch.qual})
        ps = []
        for st, ref in I.build(cls, [param("reader"), param("config_path")]):
            ps += ctx.count(I.run(f, cls=cls, st=fresh(st), self_v=ref))
        check(ctx, W, "DL1Extractor.__call__", ps, {w}, "DL1Extractor")
        sk = cls.lookup("skip_event")[1]
        if isinstance(sk, Func):
            a = [x.arg for x in sk.node.args.args if x.arg != "self"]
            check(ctx, W, "DL1Extractor.skip_event", ctx.run(sk, cls=cls), {param(a[0])}, "skip_event")
