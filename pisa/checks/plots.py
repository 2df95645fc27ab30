"""Plots of an image and of its PSF (P29, P30, P31)."""

from .common import *  # noqa
from .. import ext, small
from .stamps import guarded

FILE = "properimage/plot.py"


def panel(*k):
    return sym("panel", *(k + ("num",)))


def is_panel(t):
    return t.op == "sym" and t.args[0] == "panel"


def grid_of(r, c):
    """What a figure returns for r by c panels."""
    g = [[panel("own", i, j) for j in range(c)] for i in range(r)]
    if r == 1 and c == 1:
        return g[0][0]
    if r == 1:
        return mk("list", *g[0])
    if c == 1:
        return mk("list", *[x[0] for x in g])
    return mk("list", *[mk("list", *x) for x in g])


class Stage(object):
    """One image with n PSF components, and its plots."""

    def __init__(self, chk, n, fields=True):
        self.chk, self.n = chk, n
        self.asked, self.grids, self.domain = [], [], 0
        fs = [sym("field", k) for k in range(n)] if fields else [tm.NONE]
        self.fs, self.ps = fs, [sym("psf", k) for k in range(n)]

        def gvp(I, args, kw, node):
            d = dict(zip(("inf_loss", "shape"),
                         [I.term(a) for a in args[1:]]))
            d.update({k: I.term(v) for k, v in kw.items()})
            self.asked.append(d)
            return VTuple([I.lst([I.new(x) if x is not tm.NONE else x
                                  for x in self.fs]),
                           I.lst([I.new(x) for x in self.ps])])

        def domain(I, args, kw, node):
            self.domain += 1
            return VTuple([I.new(sym("rows")), I.new(sym("cols"))])

        def subplots(I, args, kw, node, t=None):
            d = dict(zip(("nrows", "ncols"), [I.term(a) for a in args]))
            d.update({k: I.term(v) for k, v in kw.items()})
            r, c = d.get("nrows", tm.ONE), d.get("ncols", tm.ONE)
            sq = d.get("squeeze", tm.TRUE)
            if r.op != "num" or c.op != "num":
                return NotImplemented
            r, c = int(r.args[0]), int(c.args[0])
            self.grids.append((r, c))
            if r < 1 or c < 1:
                I.raise_(None, node, "ValueError")
            if sq is tm.FALSE:
                g = mk("list", *[mk("list", *[panel("own", i, j) for j in
                                              range(c)]) for i in range(r)])
            else:
                g = grid_of(r, c)
            return g if g.op == "sym" else I.new(g)

        def plt_subplots(I, name, args, kw, node):
            g = subplots(I, args, kw, node)
            return g if g is NotImplemented else VTuple(
                [I.new(sym("figure")), g])
        self.s = chk.session({
            "SingleImage.get_variable_psf": gvp,
            "SingleImage.get_afield_domain": domain,
            "SingleImage.data": lambda I, *a: I.new(sym("pixels")),
            "method:call.subplots": subplots,
            "method:sym.subplots": subplots,
            "ext:matplotlib.pyplot.subplots": plt_subplots})
        self.I = self.s.I
        img = image(self.I, "im", "SingleImage")
        self.plot = run(self.I, self.s.cls("Plot"), [img]).value

    def do(self, name, args=(), kw=None):
        I = self.I
        n = len(I.events)
        self.out = None
        col = []
        I.collectors.append(col)
        from ..interp import Ctx, Dead
        mod = next(iter(I.mods.values()))
        I.st.envs.setdefault(("driver",), {})
        I.ctxs.append(Ctx(None, ("driver",), mod, "<driver>"))
        wrong = None
        try:
            f = I.getattr(self.plot, name, None) if name else self.plot
            self.out = I.call(f, list(args), dict(kw or {}), None)
        except Dead:
            wrong = sorted({str(x[1]) for x in col})
        finally:
            I.ctxs.pop()
            I.collectors.pop()
        self.unclear = [x for x in col] if wrong is None else []
        self.events = I.events[n:]
        self.chk.done(self.s)
        self.chk.count("plots")
        return wrong

    def drawn(self, what):
        """[(panel term, positional terms, keyword terms)] in order."""
        I, out = self.I, []
        for e in self.events:
            if e.kind == "call" and e.name == "." + what:
                ts = [I.term(a) for a in e.args]
                out.append((ts[0], ts[1:], {k: I.term(v) for k, v in
                                            e.kw.items()}))
        return out


def numbers(thorough):
    return list(range(2, 14)) + [16, 20, 25] + (
        list(range(14, 61)) + [72, 97] if thorough else [])


def exists(op, t):
    if op == "isnone" and t.op == "sym" and t.args[0] in (
            "panel", "field", "psf", "given"):
        return False


def check_panels(chk):
    """Every component on its own panel (P30)."""
    small.ON = True
    tm.FACT_HOOK.append(exists)
    try:
        for meth in ("autopsf", "autopsf_coef"):
            for n in [1] * (meth == "autopsf") + numbers(chk.thorough):
                own_panels(chk, meth, n)
            for n in (1, 2, 3, 6):
                if n > 1 or meth == "autopsf":
                    given_panels(chk, meth, n)
        nothing(chk)
    finally:
        tm.FACT_HOOK.remove(exists)
        small.ON = False


def wanted(st, meth, k):
    if meth == "autopsf":
        return st.ps[k]
    return None


def own_panels(chk, meth, n):
    st = Stage(chk, n)
    wrong = st.do(meth)
    w = "%s (Plot.%s)" % (FILE, meth)
    key = "%s|%d components" % (meth, n)
    if wrong:
        chk.require(False, "own panels", w, "%d components: raises %s, "
                    "panels %s" % (n, wrong, st.grids), "own panels|" + key)
        return
    compare(chk, st, meth, n, w, key, None)


def is_comp(st, meth, t, k):
    """t shows component k."""
    if meth == "autopsf":
        return t is st.ps[k]
    return t.op == "apply" and t.args[0] is st.fs[k] and t.args[1:] == (
        sym("rows"), sym("cols"))


def compare(chk, st, meth, n, w, key, given):
    im = st.drawn("imshow")
    panels = [p for p, _, _ in im]
    clear = all(is_panel(p) for p in panels)
    if not clear or len(im) != n and st.I.notes:
        chk.require(None, "panels", w, "%s: %s" % (key, [
            tm.show(p)[:60] for p in panels[:3]]), "panels|" + key)
        return
    chk.require(len(im) == n and len(set(panels)) == n, "panels", w,
                "%s: %d drawn on %d panels" % (
                    key, len(im), len(set(panels))), "panels|" + key)
    if given is not None:
        chk.require(panels == given[:n], "given panels", w,
                    "%s: drawn on %s" % (key, [tm.show(p)
                                               for p in panels]),
                    "given panels|" + key)
    bad = [k for k, (p, a, kw) in enumerate(im[:n])
           if not a and "X" not in kw or not is_comp(
               st, meth, (a or [kw.get("X")])[0], k)]
    sure = all(shown(a, kw).op in ("sym", "apply") for _, a, kw in im)
    chk.require(True if not bad else False if sure else None, "components",
                w, "%s: panel %s shows %s" % (key, bad, [
                    tm.show(shown(im[k][1], im[k][2]))[:80]
                    for k in bad[:3]]), "components|" + key)


def shown(a, kw):
    return a[0] if a else kw.get("X", tm.NONE)


def given_panels(chk, meth, n):
    w = "%s (Plot.%s)" % (FILE, meth)
    for m in (n - 1, n, n + 2):
        axs = [panel("given", k) for k in range(m)]
        forms = [("list", mk("list", *axs))] if m else [("list", mk("list"))]
        if m > 2 and m % 2 == 0:
            forms.append(("grid", mk("list", mk("list", *axs[:m // 2]),
                                     mk("list", *axs[m // 2:]))))
        if m == 1:
            forms.append(("one", axs[0]))
        for form, t in forms:
            st = Stage(chk, n)
            v = t if t.op == "sym" else st.I.new(t) if form == "grid" else \
                st.I.lst(list(axs))
            wrong = st.do(meth, [], {"axs": v})
            key = "%s|%d components on %d (%s)" % (meth, n, m, form)
            if m < n:
                chk.require(wrong == ["ValueError"], "too few panels", w,
                            "%s: %s" % (key, wrong or "no error"),
                            "too few panels|" + key)
                chk.require(not st.drawn("imshow"), "too few panels", w,
                            "%s: drawn all the same" % key,
                            "nothing drawn|" + key)
                continue
            if wrong:
                chk.require(False, "given panels", w, "%s: raises %s" % (
                    key, wrong), "given panels|" + key)
                continue
            chk.require(not st.grids, "given panels", w, "%s: other panels "
                        "are made" % key, "other panels|" + key)
            compare(chk, st, meth, n, w, key, axs)


def nothing(chk):
    w = "%s (Plot.autopsf_coef)" % FILE
    for axs in (False, True):
        st = Stage(chk, 1, fields=False)
        wrong = st.do("autopsf_coef", [], {"axs": st.I.lst([
            panel("given", 0)])} if axs else {})
        chk.require(wrong == ["NoDataToPlot"], "nothing to plot", w,
                    "a PSF that does not vary: %s" % (wrong or "no error"),
                    "nothing to plot|%s" % axs)


# ------------------------------------------------------------------ dispatch

METHODS = ("imshow", "autopsf", "autopsf_coef")
OTHERS = ("si", "DEFAULT_PLOT", "_imshow", "__call__", "__init__",
          "__class__", "__repr__", "nothing_of_the_kind", "Imshow",
          "plot_S", "")


def check_dispatch(chk):
    """Which plot a name stands for (P29)."""
    w = "%s (Plot.__call__)" % FILE
    for name in METHODS + (None, "default") + OTHERS:
        if name == "":
            continue
        calls = []

        def meth(m):
            def cut(I, args, kw, node):
                calls.append((m, len(args) - 1, {k: I.term(v) for k, v in
                                                 kw.items()}))
                return I.new(sym("drawing", m))
            return cut
        st = Stage(chk, 2)
        for m in METHODS:
            st.I.cuts["Plot." + m] = meth(m)
        opts = {"alpha": sym("alpha"), "other": sym("other")}
        a = [] if name == "default" else [
            tm.NONE if name is None else const(name)]
        wrong = st.do(None, a, dict(opts))
        key = str(name)
        if name in OTHERS:
            chk.require(wrong == ["ValueError"] and not calls,
                        "unknown plot", w, "%r: %s" % (
                            name, wrong or "no error"),
                        "unknown plot|" + key)
            continue
        want = name if name in METHODS else "imshow"
        if wrong or len(calls) != 1:
            chk.require(False, "plot by name", w, "%r: %s, draws %s" % (
                name, wrong, [c[0] for c in calls]), "plot by name|" + key)
            continue
        m, n, kw = calls[0]
        chk.require(m == want and n == 0, "plot by name", w,
                    "%r draws %s" % (name, m), "plot by name|" + key)
        chk.require(kw == opts, "options handed on", w, "%r: %s" % (
            name, sorted(kw)), "options handed on|" + key)
        t = st.I.term(st.out) if st.out is not None else tm.NONE
        chk.require(t is sym("drawing", m), "result handed back", w,
                    "%r: returns %s" % (name, tm.show(t)[:100]),
                    "result handed back|" + key)


# ------------------------------------------------------------------- options

def content(st, ref):
    c = st.I.cell(ref)
    return {k.args[0] if k.op == "const" else k: st.I.term(v)
            for k, v in c.items.items()}


def check_options(chk):
    """Options reach the drawing and stay as they are (P31)."""
    small.ON = True
    tm.FACT_HOOK.append(exists)
    try:
        for meth in ("autopsf", "autopsf_coef"):
            for n in (2, 3):
                for given in ("none", "some", "all"):
                    for iso in (False, True):
                        if meth == "autopsf" or not iso:
                            options(chk, meth, n, given, iso)
        picture(chk)
    finally:
        tm.FACT_HOOK.remove(exists)
        small.ON = False


def sub(kw, want):
    """want is part of kw: True, False or None."""
    for k, v in want.items():
        if k not in kw:
            return False
        if kw[k] is not v:
            return False if kw[k].op in ("sym", "const", "num", "add",
                                         "mul") else None
    return True


def options(chk, meth, n, given, iso):
    w = "%s (Plot.%s)" % (FILE, meth)
    key = "%s|%d|%s|%s" % (meth, n, given, iso)
    st = Stage(chk, n)
    I = st.I
    draw, bar, line = {}, {}, {}
    if given != "none":
        draw = {"cmap": sym("given", "cmap"), "vmin": sym("given", "low")}
        bar = {"label": sym("given", "label")}
        line = {"levels": sym("given", "levels")}
    if given == "all":
        draw.update(interpolation=sym("given", "inter"),
                    vmax=sym("given", "high"), origin=sym("given", "org"))
        bar.update(shrink=sym("given", "shrink"),
                   aspect=sym("given", "aspect"))
        line.update(colors=sym("given", "colors"), alpha=sym("given", "al"))
    kw = dict(draw)
    kw["inf_loss"] = sym("given", "loss", "num")
    kw["shape"] = sym("given", "shape")
    refs = {}
    if given != "none":
        refs["cmap_kw"] = (I.alloc(Dct_(bar)), bar)
        if meth == "autopsf":
            refs["iso_kw"] = (I.alloc(Dct_(line)), line)
    for k, (r, _) in refs.items():
        kw[k] = r
    if meth == "autopsf":
        kw["iso"] = const(iso)
    wrong = st.do(meth, [], kw)
    if wrong:
        chk.require(False, "options", w, "%s: raises %s" % (key, wrong),
                    "options|" + key)
        return
    for a in st.asked:
        chk.require(a.get("inf_loss") is kw["inf_loss"] and
                    a.get("shape") is kw["shape"], "PSF asked for", w,
                    "%s: PSF for %s" % (key, {k: tm.show(v) for k, v in
                                              a.items()}),
                    "PSF asked for|" + key)
    for k, (r, d) in refs.items():
        chk.require(content(st, r) == d, "options unchanged", w,
                    "%s: %s is now %s" % (key, k, {
                        x: tm.show(v)[:30] for x, v in
                        content(st, r).items()}),
                    "options unchanged|%s|%s" % (key, k))
    im = st.drawn("imshow")
    for k, (p, a, kws) in enumerate(im):
        chk.require(sub(kws, draw), "options of the picture", w,
                    "%s: drawn with %s" % (key, {
                        x: tm.show(v)[:40] for x, v in kws.items()}),
                    "options of the picture|%s|%d" % (key, k))
        if len(im) == n:
            mine = (st.ps if meth == "autopsf" else st.fs)
            for o, v in sorted(kws.items()):
                other = [i for i in range(n) if i != k and tm.contains(
                    v, lambda z, i=i: z is mine[i])]
                own = tm.contains(v, lambda z: z is mine[k])
                chk.require(own or not other, "options of the picture", w,
                            "%s: %s of panel %d is taken from component %s"
                            % (key, o, k, other),
                            "own limits|%s|%d|%s" % (key, k, o))
    cb = st.drawn("colorbar")
    for k, (f, a, kws) in enumerate(cb):
        chk.require(sub(kws, bar), "options of the bar", w,
                    "%s: bar with %s" % (key, {
                        x: tm.show(v)[:40] for x, v in kws.items()}),
                    "options of the bar|%s|%d" % (key, k))
        ax = kws.get("ax", a[2] if len(a) > 2 else None)
        m = a[0] if a else kws.get("mappable", tm.NONE)
        own = m.op == "call" and m.args[0] == ".imshow" and m.args[1] or None
        chk.require(True if ax is not None and ax is own else
                    False if ax is not None and own is not None and
                    is_panel(own) and (is_panel(ax) or several(ax))
                    else None,
                    "bar beside its picture", w, "%s: bar %d" % (key, k),
                    "bar beside its picture|%s|%d" % (key, k))
    for k, (p, a, kws) in enumerate(st.drawn("set_title")):
        if k >= len(im) or not a:
            break
        drawn = [i for i, q in enumerate(im) if q[0] is p]
        ss = {x for x in tm.subterms(a[0]) if x in st.ps or x in st.fs}
        own = {(st.ps if meth == "autopsf" else st.fs)[i] for i in drawn if
               i < n}
        chk.require(True if ss <= own else False, "title", w,
                    "%s: title of panel %s tells of %s" % (
                        key, drawn, [tm.show(x) for x in ss]),
                    "title|%s|%d" % (key, k))
    if meth == "autopsf":
        contours(chk, st, n, iso, line, im, w, key)


def several(t):
    """More than one panel."""
    return t.op in ("list", "tuple", "array", "ravel") and len(
        {x for x in tm.subterms(t) if is_panel(x)}) > 1


def Dct_(items):
    from ..values import Dct
    return Dct({const(k): v for k, v in items.items()})


def contours(chk, st, n, iso, line, im, w, key):
    cs = st.drawn("contour") + st.drawn("contourf")
    chk.require(len(cs) == (n if iso else 0), "contours", w,
                "%s: %d contour plots" % (key, len(cs)),
                "contours|" + key)
    for k, (p, a, kws) in enumerate(cs[:n]):
        chk.require(sub(kws, line), "options of the contours", w,
                    "%s: contours with %s" % (key, {
                        x: tm.show(v)[:40] for x, v in kws.items()}),
                    "options of the contours|%s|%d" % (key, k))
        z = a[2] if len(a) > 2 else a[0] if len(a) == 1 else kws.get("Z")
        mine = [q for q in im if q[0] is p]
        if z is None or len(mine) != 1:
            chk.require(None if z is None else False, "contours", w,
                        "%s: contours on %s" % (key, tm.show(p)),
                        "contours on|%s|%d" % (key, k))
            continue
        s = shown(mine[0][1], mine[0][2])
        chk.require(True if z is s else False if z.op == "sym" else None,
                    "contours", w, "%s: contours of %s over %s" % (
                        key, tm.show(z)[:60], tm.show(s)[:60]),
                    "contours of|%s|%d" % (key, k))
        if len(a) == 3 and s.op == "sym":
            def axis(i):
                d = ext.item_term(ext.shape(s), const(i))
                return mk("arange", tm.ZERO, d)
            xs, ys = axis(1), axis(0)
            q = {x: s for x in st.ps}       # all of one shape
            x, y = [tm.subst(v, q) for v in a[:2]]
            if x in (xs, ys) and y in (xs, ys):
                chk.require(x is xs and y is ys, "contours", w,
                            "%s: coordinates %s, %s" % (
                                key, tm.show(a[0]), tm.show(a[1])),
                            "contour coordinates|%s|%d" % (key, k))


def picture(chk):
    w = "%s (Plot.imshow)" % FILE
    for own in (False, True):
        for given in (False, True):
            st = Stage(chk, 2)
            kw = {"cmap": sym("given", "cmap")}
            if given:
                kw["origin"] = sym("given", "origin")
            ax = panel("given", 0)
            wrong = st.do("imshow", [], dict(kw, **(
                {} if own else {"ax": ax})))
            key = "imshow|%s|%s" % (own, given)
            im = st.drawn("imshow")
            if wrong or len(im) != 1:
                chk.require(False if wrong or not st.I.notes else None,
                            "picture", w, "%s: %s, %d drawn" % (
                                key, wrong, len(im)), "picture|" + key)
                continue
            p, a, kws = im[0]
            d = shown(a, kws)
            chk.require(True if d is sym("pixels") else
                        None if d.op != "call" and foreign(d) else False,
                        "picture", w, "%s: shows %s" % (
                            key, tm.show(d)[:100]), "picture|" + key)
            chk.require(sub(kws, kw), "options of the picture", w,
                        "%s: drawn with %s" % (key, {
                            x: tm.show(v)[:40] for x, v in kws.items()}),
                        "options of the picture|" + key)
            if not given:
                chk.require(sub(kws, {"origin": const("lower")}),
                            "options of the picture", w,
                            "%s: origin %s" % (key, tm.show(kws.get(
                                "origin", tm.NONE))), "origin|" + key)
            t = st.I.term(st.out)
            chk.require(True if t is p else None if t.op not in (
                "const", "sym") else False, "axes handed back", w,
                "%s: returns %s" % (key, tm.show(t)[:60]),
                "axes handed back|" + key)
            if not own:
                chk.require(True if p is ax else False if p.op == "call"
                            else None, "given axes", w,
                            "%s: drawn on %s" % (key, tm.show(p)[:60]),
                            "given axes|" + key)


# -------------------------------------------------------------- quick looks

def check_looks(chk):
    w = FILE
    S, path = sym("array"), sym("given", "path")
    tm.FACT_HOOK.append(exists)
    try:
        for fn in ("plot_S", "plot_R"):
            for saved in (False, True):
                for book in (False, True):
                    for masked in (False, True):
                        look(chk, fn, S, path, saved, book, masked)
    finally:
        tm.FACT_HOOK.remove(exists)


def look(chk, fn, S, path, saved, book, masked):
    s = chk.session({})
    I = s.I
    f = s.function("plot", fn)
    w = where(f)
    a = tm.ma(sym("values"), sym("flags")) if masked else S
    I.kinds[S] = {"ndarray"}
    v = I.wrapsym(S) if a is S else I.new(a)
    kw = {"nbook": const(book)}
    if saved:
        kw["path"] = path
    facts = looks(a, masked)
    tm.FACT_HOOK.append(facts)
    try:
        o = run(I, f, [v], kw)
    finally:
        tm.FACT_HOOK.remove(facts)
    chk.done(s)
    chk.count("quick looks")
    key = "%s|%s|%s|%s" % (fn, saved, book, masked)
    if o.dead:
        chk.require(False, "quick look", w, "%s: raises %s" % (key, sorted(
            {str(r[1]) for r in o.raised})), "quick look|" + key)
        return
    ev = {}
    for e in o.events:
        if e.kind == "call":
            ev.setdefault(e.name.rpartition(".")[2], []).append(e)
    im = ev.get("imshow", [])
    chk.require(len(im) == 1, "quick look", w, "%s: %d drawn" % (
        key, len(im)), "quick look|" + key)
    if len(im) == 1:
        ts = [I.term(x) for x in im[0].args if x is not None]
        d = next((t for t in ts if not t.op == "call" or "axes" not in
                  t.args[0] and "gca" not in t.args[0]), tm.NONE)
        src = {x for x in tm.subterms(d) if x.op == "sym"}
        own = {S, sym("values"), sym("flags")}
        chk.require(bool(src & own) and src <= own, "quick look", w,
                    "%s: shows %s" % (key, tm.show(d)[:100]),
                    "shown|" + key)
        if fn == "plot_S":
            plain = ext.filled(a, tm.NONE) if masked else a
            chk.require(True if d is plain else None if foreign(d)
                        else False, "quick look", w, "%s: shows %s" % (
                            key, tm.show(d)[:100]), "plain|" + key)
    files = [[I.term(x) for x in e.args] for e in ev.get("savefig", [])]
    chk.require(files == ([[path]] if saved else []), "saved", w,
                "%s: saved to %s" % (key, files), "saved|" + key)
    chk.require(bool(ev.get("show")) == (not saved), "shown or saved", w,
                "%s: shown %d times" % (key, len(ev.get("show", []))),
                "shown or saved|" + key)
    chk.require(bool(ev.get("close")) == (not book), "closed", w,
                "%s: closed %d times" % (key, len(ev.get("close", []))),
                "closed|" + key)


def looks(a, masked):
    def h(op, t):
        if op == "isnone" and t.op == "sym" and t.args[0] in (
                "array", "values"):
            return False
        if op == "iscomplex":
            return False
        return None
    return h
