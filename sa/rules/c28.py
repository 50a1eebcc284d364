"""Saving a figure.  For every plotting class the events of save() are checked as a protocol on every path: completed, folder
there, written to the path given, that same figure closed, in this order.  Figure ownership: on every path of every method of
a plotting class each figure the path creates must be closed, handed to self.fig (whose earlier figure must be closed) or
returned."""
from .util import *

BASE = "CHECLabPy.plotting.setup.Plotter"
OPEN = ("matplotlib.pyplot.figure", "matplotlib.pyplot.subplots", "matplotlib.figure.Figure", "matplotlib.pyplot.subplot_mosaic")
CLOSE = "matplotlib.pyplot.close"
STR = ("str", "os.fspath", "pathlib.Path", "os.path.expanduser", "os.path.abspath", "os.path.normpath", "os.path.realpath")


def run(ctx):
    P = ctx.P
    b = P.cls(BASE)
    for c in [b] + sorted(P.subclasses(b), key=lambda x: x.qual):
        with ctx.section(c.name + ":save"):
            save(ctx, c)
        for name in sorted({n for k in c.mro for n in getattr(k, "members", {})}):
            try:
                d, f = c.lookup(name)
            except Exception:
                continue
            if not isinstance(f, Func) or d is not c and name != "__init__":
                continue
            with ctx.section("%s:%s" % (c.name, name)):
                owned(ctx, c, name, f)


def same_path(t, out):
    t = plain(t)
    while t.op == "call" and t.args[0] in STR and len(t.args[1]) == 1:
        t = plain(t.args[1][0])
    return t is out


def understood(t):
    return not any(x.op in UNKNOWN_OPS for x in subterms(t))


def folder(t, out):
    """is t the folder of out?"""
    t = plain(t)
    while t.op == "call" and t.args[0] in STR and len(t.args[1]) == 1:
        t = plain(t.args[1][0])
    if t.op == "call" and t.args[0] == "os.path.dirname" and len(t.args[1]) == 1:
        return same_path(t.args[1][0], out)
    if t.op == "attr" and t.args[1] == "parent":
        return same_path(t.args[0], out)
    if t.op == "item" and plain(t.args[0]).op == "call" and plain(t.args[0]).args[0] == "os.path.split":
        return t.args[1] is const(0) and same_path(plain(t.args[0]).args[1][0], out)
    return False


def save(ctx, c):
    d, fn = c.lookup("save")
    d2, fin = c.lookup("finish")
    if not isinstance(fn, Func) or not isinstance(fin, Func):
        raise AnchorError(c.qual + ".save/finish")
    out = param(fn.node.args.args[1].arg)
    opaque = {fin.qual}
    try:
        opaque.add(c.lookup("crop")[1].qual)
    except Exception:
        pass
    n = 0
    for p in ctx.run(fn, ctx.interp(opaque=opaque), cls=c):
        if p.kind != "return":
            continue
        n += 1
        cs = p.cond_str()[:300]
        ev = [(e, l) for e, l in flat_events(p.events)]
        at = {k: [] for k in ("finish", "dir", "write", "close", "fig")}
        there = False
        unknown = []
        for i, (e, loops) in enumerate(ev):
            if e.kind in ("call", "callv") and str(e.name) == fin.qual:
                at["finish"].append(i)
            elif e.kind == "call" and e.name in ("os.makedirs", "os.mkdir", "pathlib.Path.mkdir") or e.kind == "meth" and e.name == "mkdir":
                at["dir"].append(i)
            elif e.kind == "meth" and e.name in ("savefig", "print_figure") or e.kind == "call" and e.name == "matplotlib.pyplot.savefig":
                at["write"].append(i)
            elif e.kind == "call" and e.name == CLOSE:
                at["close"].append(i)
            elif e.kind == "setattr" and e.name == "fig" and plain(e.base) is SELF:
                at["fig"].append(i)
        key = c.name + ":save"
        if not at["write"]:
            ctx.judge(key + ":written", False, "", "nothing is written on this path", fn.loc(), cs)
            continue
        ctx.judge(key + ":written", True, "written on every path", "", fn.loc())
        w = at["write"][0]
        e = ev[w][0]
        kw = dict(e.kwargs)
        target = e.args[0] if e.args else kw.get("fname", kw.get("filename"))
        ctx.judge(key + ":path", True if target is not None and same_path(target, out) else (False if target is None or understood(target) else None), "to the path given", "written to %s" % (show(target)[:150] if target is not None else "?"), e.loc, cs)
        fig = plain(e.base) if e.kind == "meth" else None
        if e.kind == "meth" and e.name == "print_figure" and fig.op == "attr" and fig.args[1] == "canvas":
            fig = plain(fig.args[0])
        if fig is None:
            ctx.bad(key + ":figure", "writes the current figure, which need not be the one of this plot", e.loc, cs)
            continue
        ctx.judge(key + ":figure", True if fig is attr(SELF, "fig") else None, "the figure of the plot", "writes %s" % show(fig)[:150], e.loc, cs)
        ctx.judge(key + ":completed", bool(at["finish"]) and at["finish"][0] < w, "completed before", "the figure is written %s" % ("before it is completed" if at["finish"] else "without completing it"), e.loc, cs)
        # folder
        facts = [(plain(a), pol) for a, pol in p.conds]
        exists = empty = False
        for a, pol in facts:
            x = plain(a.args[0]) if a.op == "truth" else None
            if x is not None and x.op == "call" and x.args[0] in ("os.path.exists", "os.path.isdir") and pol and folder(x.args[1][0], out):
                exists = True
            if x is not None and x.op == "meth" and x.args[1] in ("exists", "is_dir") and pol and folder(x.args[0], out):
                exists = True
            if x is not None and not pol and folder(x, out):
                empty = True
            if a.op == "eq" and pol and const("") in a.args and any(folder(y, out) for y in a.args):
                empty = True
        made = None
        for i in at["dir"]:
            m = ev[i][0]
            k2 = dict(m.kwargs)
            f = m.base if m.kind == "meth" else (m.args[0] if m.args else k2.get("name"))
            if f is None or not folder(f, out):
                if i < w and (f is None or not understood(f)):
                    unknown.append(m)
                continue
            if i < w:
                made = m
                deep = m.name == "os.makedirs" or k2.get("parents") is const(True)
                again = k2.get("exist_ok") is const(True)
                absent = any(pol is False and x.op == "truth" and plain(x.args[0]).op in ("call", "meth") and "exist" in str(plain(x.args[0]).args[:2]) for x, pol in facts)
                ctx.judge(key + ":folder:nested", deep, "with its parents", "folders above it are not created", m.loc, cs)
                ctx.judge(key + ":folder:again", True if again or absent else False, "also if it exists", "fails if the folder exists", m.loc, cs)
        ctx.judge(key + ":folder", True if made or exists or empty else (None if unknown else False), "is there before", "the folder need not exist when the figure is written", e.loc, cs)
        # closing
        closes = [ev[i][0] for i in at["close"] if i > w]
        before = [ev[i][0] for i in at["close"] if i < w]
        okc = any(x.args and plain(x.args[0]) is fig or x.args and x.args[0] is const("all") for x in closes)
        other = [x for x in closes if not x.args]
        ctx.judge(key + ":closed", True if okc else (False if all(not x.args or understood(x.args[0]) for x in closes) else None), "that figure is closed", "the figure written is not closed afterwards%s" % (
            " (closes %s)" % ", ".join(show(x.args[0])[:60] if x.args else "the current figure" for x in closes) if closes else ""), fn.loc(), cs)
        ctx.judge(key + ":open", not before, "still open when written", "a figure is closed before it is written", e.loc, cs)
        late = [i for i in at["fig"]]
        if late:
            ctx.und(key + ":replaced", "self.fig is replaced while saving", ev[late[0]][0].loc)
    if not n:
        ctx.und(c.name + ":save", "no path understood", fn.loc())


def feasible(p):
    """axes and figures are true values"""
    for a, pol in p.conds:
        a = plain(a)
        x = None
        if a.op == "truth" and pol is False:
            x = plain(a.args[0])
        elif a.op in ("is", "eq") and pol is True and NONE in a.args:
            x = plain(a.args[0] if a.args[1] is NONE else a.args[1])
        if x is not None:
            if x.op in ("meth", "call") and str(x.args[1] if x.op == "meth" else x.args[0]).split(".")[-1] in ("add_subplot", "subplot2grid", "subplot", "add_axes", "axes", "gca", "figure", "twinx", "twiny", "inset_axes"):
                return False
    return True


def owned(ctx, c, name, f):
    try:
        paths = ctx.run(f, ctx.interp(), cls=c)
    except Limit:
        ctx.und("%s.%s:figures" % (c.name, name), "too many paths", f.loc())
        return
    for p in paths:
        if p.kind != "return" or not feasible(p):
            continue
        cs = p.cond_str()[:300]
        live = []                        # (figure term, event)
        fig = attr(SELF, "fig") if name != "__init__" else None
        mine = fig
        problem = None
        others = {}                      # plots made by this path: object -> its figure
        for e, loops in flat_events(p.events):
            if e.kind == "call" and e.name in OPEN:
                v = plain(e.value)
                if loops:
                    problem = (e, "creates a figure in a loop")
                live.append((v, e))
            elif e.kind == "call" and e.name == CLOSE:
                t = plain(e.args[0]) if e.args else None
                if t is const("all"):
                    live = []
                    fig = None
                elif t is None:
                    live = live[:-1]
                else:
                    for i, (v, x) in enumerate(live):
                        if v is t or t.op == "item" and t.args[0] is v or t.op == "attr" and t.args[1] == "figure" and mentions(t, v):
                            del live[i]
                            break
                    if t is fig:
                        fig = None
            elif e.kind == "setattr" and e.name == "fig" and plain(e.base) is SELF:
                new = plain(e.value)
                if new is not mine and mine is not None and fig is mine and name != "__init__":
                    ctx.bad("%s.%s:replaced" % (c.name, name), "the figure of the plot is replaced without being closed", e.loc, cs)
                mine = fig = new
            elif e.kind == "setattr" and e.name == "fig" and isinstance(e.base, Term):
                others[plain(e.base)] = plain(e.value)
        kept = mine
        ret = plain(p.value) if p.value is not None else NONE
        left = []
        for v, e in live:
            if kept is not None and (kept is v or kept.op == "item" and kept.args[0] is v):
                kept = None                     # one figure is the plot's own
                continue
            if v in subterms(ret):
                continue
            if any(f is v and (o is ret or o in subterms(ret)) for o, f in others.items()):
                continue                        # the figure of the plot that is returned
            left.append(e)
        for e in left:
            ctx.bad("%s.%s:figures" % (c.name, name), "a figure created here stays open when the plot is saved", e.loc, cs)
        if problem and not left:
            ctx.und("%s.%s:figures" % (c.name, name), problem[1], problem[0].loc)
        elif not left:
            ctx.ok("%s.%s:figures" % (c.name, name), "no figure left over", f.loc())
