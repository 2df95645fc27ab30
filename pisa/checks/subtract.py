"""Image subtraction: formulas, fit, mask, alignment, input handling."""

import itertools

from .common import *  # noqa
from .. import ext
from ..values import Dead, Fn, Bound, Partial

ALIGNED = ((True, True, False), (True, False, True), (False, False, False))
COMBOS = list(itertools.product((True, False), repeat=4))


def is_callable(I, v):
    v = I.resolve(v)
    return isinstance(v, (Fn, Bound, Partial))


class Fit(object):
    """One call of a scipy.optimize routine."""

    def __init__(self, name, fn, x0, args, kw, node):
        self.name, self.fn, self.x0 = name, fn, x0
        self.args, self.kw, self.node = args, kw, node
        self.cost = None
        self.n = None


def fit_value(i):
    return sym("fit", i, "num")


def trial_value(i):
    return sym("trial", i, "num")


def optimiser_cut(fits, success):
    def cut(I, name, args, kw, node):
        if not args and "fun" in kw:
            kw = dict(kw)
            args = [kw.pop("fun")]
        if not args or not is_callable(I, args[0]):
            return NotImplemented
        f = args[0]
        x0 = args[1] if len(args) > 1 else kw.get("x0")
        if name.endswith("minimize_scalar"):
            x0 = None
        n = 0
        if x0 is not None:
            t = I.term(x0)
            t0 = t
            if t.op in ("list", "tuple"):
                n = len(t.args)
        rec = Fit(name, f, None if x0 is None else t, args, kw, node)
        rec.n = n
        fits.append(rec)
        # the objective, over a trial vector
        saved = I.st
        I.st = saved.copy()
        I.quiet += 1
        try:
            if n:
                v = I.new(mk("list", *[trial_value(i) for i in range(n)]))
            else:
                v = trial_value(0)
            try:
                rec.cost = I.term(I.call(f, [v], {}, node))
            except Dead:
                rec.cost = None
        finally:
            I.quiet -= 1
            I.st = saved
        sol = sym("sol", len(fits))
        I.attrs[(sol, "success")] = const(success)
        I.attrs[(sol, "x")] = (
            mk("list", *[fit_value(i) for i in range(n)]) if n
            else fit_value(0))
        return I.new(sol)
    return cut


def transparency_cut(I, args, kw, node):
    imgs = I.iterate(args[0])
    if imgs is None:
        return I.unk("transparency of unknown list")
    I.event("call", "transparency", imgs, kw, node=node)
    return VTuple([I.lst([mk("sym", "zps", name_of_img(I, x, node), "zp")
                          for x in imgs]), sym("meanmags")])


def need_image(I, x, node):
    """An image object, or the error plain pixels would give."""
    x = I.resolve(x)
    if not isinstance(x, Ref) or not isinstance(I.cell(x), Inst):
        I.raise_(None, node, "AttributeError")
    return I.cell(x)


def name_of_img(I, x, node=None):
    s = need_image(I, x, node).sym
    return s.args[0] if s is not None and s.op == "sym" else str(s)


def varpsf_cut(fitted):
    def cut(I, args, kw, node):
        r = args[0]
        need_image(I, r, node)
        l = (I.term(args[1]) if len(args) > 1
             else I.term(kw.get("inf_loss", tm.NONE)))
        I.event("call", "get_variable_psf", args, kw, node=node)
        nm = I.cell(r).sym
        if fitted:
            return I.lst([
                I.lst([tm.NONE]),
                I.lst([cell_of(I, mk("psf", nm, const("render"))),
                       cell_of(I, mk("psf", nm, const("model")))])])
        return I.lst([I.lst([mk("psfcoef", nm, const(0))]),
                      I.lst([cell_of(I, mk("psf", nm, l))])])
    return cut


def background_cuts(cuts):
    """The fitted sky of an image, and the pixels with it taken off."""
    def sky(I, r, n):
        return cell_of(I, of(I, r, "bkglevel"))

    def less_sky(I, r, n):
        return cell_of(I, tm.ma(tm.sub(of(I, r, "data"), of(
            I, r, "bkglevel")), of(I, r, "mask")))
    cuts["SingleImage.background"] = sky
    cuts["SingleImage.bkg_sub_img"] = less_sky
    return cuts


def sub_cuts(fitted, fits, success):
    cuts = background_cuts(base_cuts())
    cuts["properimage.utils.transparency"] = transparency_cut
    cuts["SingleImage.get_variable_psf"] = varpsf_cut(fitted)
    cuts["SingleImageGaussPSF.get_variable_psf"] = varpsf_cut(fitted)
    cuts["ext:scipy.optimize.*"] = optimiser_cut(fits, success)
    return cuts


# ------------------------------------------------------------------- roles

def psf_owner(x):
    """Image whose PSF x is, when x is exactly that PSF."""
    if x.op == "psf":
        if x.args[1] is const("model") or x.args[1] is const("render"):
            return None
        if x.args[1] is not LOSS:
            return None
        return x.args[0].args[0]
    if x.op == "call" and x.args[0] == ".render" and len(x.args) == 3:
        m, canvas = x.args[1], x.args[2]
        while m.op == "with":
            m = m.args[0]
        if m.op == "psf" and m.args[1] is const("model") and \
                canvas.op == "zeros":
            return m.args[0].args[0]
    return None


def shape_of(t):
    return t.op == "shape" and t.args[0].op == "sym"


def eps_like(t):
    return (t.op == "attr" and t.args[1] == "eps") or (
        t.op == "num" and 0 < abs(t.args[0]) < 1e-10)


def zero_guard(c, f):
    return c.op == "eq" and (
        c.args[0] in (f, tm.real(f), tm.abs_(f)) or
        (len(c.args) > 1 and c.args[1] in (f, tm.real(f), tm.abs_(f))))


def sign_guard(c, f):
    """The values replaced are those on one side of zero."""
    c = c.args[0] if c.op == "not" else c
    return c.op in ("lt", "le", "lt2", "le2") and tm.contains(
        c, lambda z: z is f) and all(
        z.op == "num" or z in (f, tm.real(f)) or z.op in (
            "real", "add", "mul") or tm.contains(f, lambda w: w is z)
        for z in tm.subterms(c) if z is not c)


def roles(t):
    """Rewrite library terms of t to the quantities they stand for."""
    def f(x):
        if x.op == "setitem" and len(x.args) == 3:
            if eps_like(x.args[2]) and zero_guard(x.args[1], x.args[0]):
                return x.args[0]
            if eps_like(x.args[2]) and zero_guard(tm.lnot(x.args[1]),
                                                  x.args[0]):
                return mk("clamped", x.args[0])
            if eps_like(x.args[2]) and sign_guard(x.args[1], x.args[0]):
                return mk("clamped", x.args[0])
        if x.op == "ite" and eps_like(x.args[1]) and \
                zero_guard(x.args[0], x.args[2]):
            return x.args[2]
        if x.op == "ite" and eps_like(x.args[2]) and \
                zero_guard(tm.lnot(x.args[0]), x.args[1]):
            return x.args[1]
        if x.op == "fft2":
            o = psf_owner(x.args[0])
            full = x.args[0].op == "call"
            if o and (shape_of(x.args[1]) or (full and x.args[1]
                                              is tm.NONE)):
                return mk("P", o, x.args[2])
            a = x.args[0]
            if a.op == "sym" and a.args[-1] == "interped" and (
                    x.args[1] is tm.NONE or shape_of(x.args[1])):
                return mk("F", a.args[0], x.args[2])
        if x.op == "com":
            o = psf_owner(x.args[0])
            if o:
                return sym("com", o, int(x.args[1].args[0]), "num")
        if x.op == "ite" and x.args[2] is tm.FALSE and \
                x.args[1].op in BOOL and x.args[0].op in BOOL:
            return tm.land(x.args[0], x.args[1])
        if x.op == "ite" and x.args[1] is tm.TRUE and \
                x.args[2].op in BOOL and x.args[0].op in BOOL:
            return tm.lor(x.args[0], x.args[2])
        if x.op == "call" and x.args[0] == ".back" and len(x.args) == 2 \
                and x.args[1].op == "call" and \
                x.args[1].args[0] == "sep.Background" and \
                len(x.args[1].args) == 2:
            a = x.args[1].args[1]
            if a.op == "sym" and a.args[-1] == "interped":
                return mk("back", a.args[0])
        if x.op == "shape" and shape_of(x):
            return mk("shape", sym("frame"))
        if x.op == "item" and x.args[0].op == "sym" and \
                x.args[0].args[-1] == "num" and \
                x.args[1] is tm.ZERO:
            return x.args[0]
        return None
    return tm.rewrite(t, f)


BOOL = ("eq", "lt", "le", "and", "not", "eq2", "lt2", "le2")

VOC = ("P", "F", "setitem", "back", "psf", "clamped", "bkglevel")


def P(o):
    return mk("P", o, const("ortho"))


def F(o):
    return mk("F", o, const("ortho"))


def com(o, i):
    return sym("com", o, i, "num")


def centred(o):
    return tm.phase(tm.neg(com(o, 0)), tm.neg(com(o, 1)))


def var2(o):
    return tm.pow_(sym(o, "var"), const(2))


def sq(x):
    return tm.mul(x, tm.conj(x))


def ift(x, norm="ortho"):
    return ext.linop("ifft2", x, tm.NONE, const(norm))


def fft(x, norm="ortho"):
    return ext.linop("fft2", x, tm.NONE, const(norm))


class Spec(object):
    """The definition of the decorrelated difference at given flux scale."""

    def __init__(self, b, dx, dy):
        self.b, self.dx, self.dy = b, dx, dy
        self.n = tm.mul(P("ref"), F("new"), centred("ref"))
        self.r = tm.mul(P("new"), F("ref"), centred("new"))
        self.norm = tm.add(
            tm.mul(var2("new"), sq(P("ref"))),
            tm.mul(var2("ref"), sq(P("new")), tm.pow_(b, const(2))))
        self.noise = tm.sqrt(tm.add(
            tm.mul(var2("ref"), tm.pow_(b, const(2))), var2("new")))
        self.num = tm.sub(self.n, tm.mul(b, self.r, tm.phase(dx, dy)))
        self.dhat = tm.div(self.num, tm.sqrt(self.norm))

    def D(self):
        return ift(self.dhat)

    def dzp(self):
        return tm.div(self.b, self.noise)

    def phat(self):
        return tm.div(tm.mul(P("ref"), P("new"), self.b),
                      tm.mul(tm.sqrt(self.norm), self.dzp()))

    def Pimg(self):
        return tm.real(ift(self.phat()))


class Run(object):
    pass


LOSS = sym("asked", "inf_loss")


def subtract_run(chk, fitted, beta, shift, iterative, success=True,
                 extra=None, align=False):
    fits, built = [], []
    r = Run()
    cuts = sub_cuts(fitted, fits, success)
    if align:
        cuts["ext:astroalign.register"] = register_cut([])
        cuts["=SingleImage.__init__"] = building_cut(built, ["new"])
    s = chk.session(cuts).cold()
    I = s.I
    f = s.function("operations", "subtract")
    cl = "SingleImageGaussPSF" if fitted else "SingleImage"
    a, b = image(I, "ref", cl), image(I, "raw" if align else "new", cl)
    kw = {"beta": const(beta), "shift": const(shift),
          "iterative": const(iterative), "fitted_psf": const(fitted),
          "inf_loss": LOSS, "align": const(align)}
    kw.update(extra or {})
    o = run(I, f, [a, b], kw)
    chk.done(s)
    r.s, r.I, r.o, r.fits, r.f = s, I, o, fits, f
    r.label = "fitted_psf=%s beta=%s shift=%s iterative=%s fit %s%s" % (
        fitted, beta, shift, iterative, "succeeds" if success else "fails",
        " align=True" if align else "")
    r.opts = (fitted, beta, shift, iterative, success)
    r.out = None
    if not o.dead:
        vals = I.iterate(o.value)
        if vals is not None and len(vals) == 4:
            r.out = [roles(I.term(v)) for v in vals]
    return r


def settle_position(t, pim):
    """The two estimates of where P has its centre, by name."""
    peak = tm.cmp_("eq", mk("max", pim), pim)

    def f(x):
        if x.op == "com" and x.args[0] is pim:
            return sym("pos", int(x.args[1].args[0]), "num")
        if x.op == "item" and x.args[1].op == "num":
            i, y = x.args[1], x.args[0]
            if y.op == "item" and i is tm.ZERO and y.args[1].op == "num" \
                    and y.args[0].op == "call" and y.args[0].args[0] in (
                        "numpy.where", "numpy.nonzero") and \
                    y.args[0].args[1] is peak:
                return sym("peak", int(y.args[1].args[0]), "num")
            if y.op == "call" and y.args[0] == "numpy.unravel_index" and \
                    tm.contains(y, lambda z: z.op == "argmax"
                                and z.args[0] is pim):
                return sym("peak", int(i.args[0]), "num")
        return None
    return tm.rewrite(t, f)


def one_position(t):
    """Either estimate will do, the same one for both axes."""
    n = {x.args[0] for x in tm.subterms(t) if x.op == "sym"
         and x.args[0] in ("pos", "peak")}
    if n == {"peak"}:
        return tm.subst(t, {sym("peak", i, "num"): sym("pos", i, "num")
                            for i in (0, 1)})
    return t


def expected(opts):
    """Flux scale and shift the options call for: [(b, dx, dy), ...].

    One entry per order the fitted parameters may be packed in.
    """
    fitted, beta, shift, iterative, success = opts
    ratio = tm.div(sym("zps", "new", "zp"), sym("zps", "ref", "zp"))
    z = tm.ZERO
    if not (beta or shift) or not success:
        return [(ratio, z, z)]
    if beta and not shift:
        return [(fit_value(0), z, z)]
    if shift and not beta:
        return [(ratio, fit_value(a), fit_value(b))
                for a, b in itertools.permutations(range(2))]
    return [tuple(fit_value(i) for i in p)
            for p in itertools.permutations(range(3))]


def all_runs(chk):
    for c in COMBOS:
        for su in (True, False):
            if not (c[1] or c[2]) and not su:
                continue
            yield subtract_run(chk, *c, success=su)
    for c in COMBOS:
        if chk.thorough or c[1:] in ALIGNED:
            yield subtract_run(chk, *c, align=True)


def pick_params(r):
    """The packing of the fit vector that r's difference image uses."""
    cand = expected(r.opts)
    for p in cand:
        if agrees(r.out[0], Spec(*p).D()):
            return p
    return None


def agrees(got, want):
    c = Check("", "quick")
    return equal_cases(c, got, want, "x", "x", VOC) is True


def guard(chk, r, rule):
    if r.o.dead:
        lost = sorted({e.name for e in r.I.events if e.kind == "unbound"})
        kinds = {x[1] for x in r.o.raised}
        always = kinds & {"UnboundLocalError", "NameError"}
        chk.require(False if lost and always else None, rule, r.label,
                    "no result: %s is used before it is given a value"
                    % ", ".join(lost) if lost else "no result to analyse")
        return False
    if r.out is None:
        chk.require(None, rule, r.label, "no result to analyse")
        return False
    return True


def check_difference(chk):
    for r in all_runs(chk):
        if not guard(chk, r, "difference formula"):
            continue
        cand = expected(r.opts)
        p = pick_params(r) or cand[0]
        equal_cases(chk, r.out[0], Spec(*p).D(), "difference formula",
                    r.label, VOC)
        if r.opts[0]:
            drawn_centred(chk, r)


def drawn_centred(chk, r):
    """A PSF model is drawn in the middle of the frame."""
    for e in r.I.events:
        if e.kind != "call" or not e.name.endswith(".render"):
            continue
        m, last = e.args[0], {}
        while m.op == "with":
            last.setdefault(m.args[1], m.args[2])
            m = m.args[0]
        for name, axis in (("x_mean", 1), ("y_mean", 0)):
            if name not in last:
                if m.op == "psf" and not reached(r.I, m, name):
                    chk.require(False, "PSF model is drawn in the middle of "
                                "the frame", "%s, %s of %s" % (
                                    r.label, name, tm.show(m)),
                                "its centre stays where the fit put it")
                continue
            v = last[name]
            while v.op == "with" and v.args[1] == "value":
                v = v.args[2]
            dims = {z: int(z.args[1].args[0]) for z in tm.subterms(v)
                    if z.op == "item" and shape_of(z.args[0])
                    and z.args[1].op == "num"}
            ok = None
            if set(dims.values()) == {axis} or not dims:
                w = tm.subst(v, {z: const(100) for z in dims})
                if w.op == "num":
                    ok = 48 <= w.args[0] <= 52
            elif not foreign(v):
                ok = False
            chk.require(ok, "PSF model is drawn in the middle of the frame",
                        "%s, %s of %s" % (r.label, name, tm.show(m)),
                        tm.show(v))


def reached(I, m, name):
    """Whether the parameter of a model is touched in some other way."""
    return any(
        (e.kind == "setattr" and e.name in ("<dynamic>", "parameters"))
        or any(x.op == "attr" and x.args[1] in (name, "parameters")
               for y in e.args for x in tm.subterms(y))
        for e in I.events)


def scorr_spec(s, pim):
    zp = sym("zps", "new", "zp")
    pos = tm.phase(sym("pos", 0, "num"), sym("pos", 1, "num"))
    s_hat = tm.mul(pos, s.dzp(), s.dhat, tm.conj(s.phat()))
    k_r = ift(tm.mul(zp, s.b, tm.conj(P("ref")), sq(P("new")),
                     tm.pow_(s.norm, const(-1))))
    k_n = ift(tm.mul(zp, tm.conj(P("new")), sq(P("ref")),
                     tm.pow_(s.norm, const(-1))))
    v = [ift(tm.mul(fft(tm.add(filled0(o), tm.ONE)),
                    ext.linop("fft2", tm.pow_(k, const(2)), mk(
                        "shape", sym("frame")), tm.NONE)))
         for o, k in (("new", k_n), ("ref", k_r))]
    return tm.real(tm.div(ift(s_hat), tm.sqrt(tm.add(*v))))


def filled0(o):
    return ext.filled(tm.ma(sym(o, "data"), sym(o, "mask")), tm.ZERO)


def check_products(chk):
    for r in all_runs(chk):
        if not guard(chk, r, "PSF of the difference"):
            continue
        p = pick_params(r) or expected(r.opts)[0]
        s = Spec(*p)
        equal_cases(chk, r.out[1], s.Pimg(), "PSF of the difference",
                    r.label, VOC)
        got = settle_position(r.out[2], r.out[1])
        equal_cases(chk, got, scorr_spec(s, r.out[1]),
                    "detection significance", r.label, VOC,
                    view=one_position)


# ---------------------------------------------------- P03 flux scale, shift

def fit_matters(r):
    return bool(r.fits)


def check_scale(chk):
    for r in all_runs(chk):
        if not guard(chk, r, "flux scale and shift"):
            continue
        fitted, beta, shift, iterative, success = r.opts
        # D and P must use exactly one of the admitted parameter choices
        cand = expected(r.opts)
        p = pick_params(r)
        got = r.out[0]
        if p is None:
            bad = wrong_params(r)
            chk.require(
                False if bad else None, "flux scale and shift", r.label,
                "the difference %s; the options call for (scale, shift) %s"
                % (bad or "does not follow its formula",
                   [tuple(tm.show(x) for x in q) for q in cand]))
        else:
            chk.require(True, "flux scale and shift", r.label)
            # the detection products use the same flux scale
            s = Spec(*p)
            chk.require(
                True if agrees(r.out[1], s.Pimg()) else None,
                "same scale in the PSF product", r.label)
        if beta or shift:
            chk.require(bool(r.fits) or None, "a fit is made", r.label)
        for rec in r.fits:
            check_bounds(chk, r, rec, p)


def wrong_params(r):
    """How D's scale and shift depart from what the options call for."""
    got = r.out[0]
    used = {x for x in tm.subterms(got)
            if x.op == "sym" and x.args[0] == "fit"}
    want = {x for q in expected(r.opts) for y in q for x in tm.subterms(y)
            if x.op == "sym" and x.args[0] == "fit"}
    if used != want:
        return "depends on the fit through %s" % sorted(
            tm.show(x) for x in used)
    n, d = sym("zps", "new", "zp"), sym("zps", "ref", "zp")
    fits = sorted(want, key=lambda x: x.args[1])
    scales = [tm.div(n, d), tm.div(d, n), tm.ONE, n, d, tm.mul(n, d)] + fits
    shifts = [tm.ZERO] + fits + [tm.neg(x) for x in fits]
    for b in scales:
        for x in shifts:
            for y in shifts:
                if agrees(got, Spec(b, x, y).D()):
                    return "uses scale %s and shift (%s, %s)" % (
                        tm.show(b), tm.show(x), tm.show(y))
    return None


def I_none(I, v):
    return I.term(v) is tm.NONE


def check_bounds(chk, r, rec, p):
    """Bounds of each fitted parameter, by the role it has in D."""
    fitted, beta, shift, iterative, success = r.opts
    if not success or p is None:
        return
    b = rec.kw.get("bounds")
    pos = {"least_squares": 3, "minimize_scalar": 2, "curve_fit": 5,
           "minimize": 6}.get(rec.name.split(".")[-1])
    if b is None and pos is not None and len(rec.args) > pos:
        b = rec.args[pos]
    if b is None or I_none(r.I, b):
        return chk.require(False if pos is not None else None, "fit bounds",
                           r.label, "no bounds given to %s" % rec.name)
    t = r.I.term(b)
    if t.op not in ("list", "tuple") or len(t.args) != 2:
        return chk.require(None, "fit bounds", r.label, tm.show(t))
    lo, hi = t.args
    for role, q in zip(("scale", "shift", "shift"), p):
        if q.op != "sym" or q.args[0] != "fit":
            continue
        i = q.args[1]
        a = lo if lo.op == "num" else ext.item_term(lo, const(i))
        c = hi if hi.op == "num" else ext.item_term(hi, const(i))
        if a.op != "num" or c.op != "num":
            chk.require(None, "fit bounds", r.label, tm.show(t))
            continue
        a, c = a.args[0], c.args[0]
        ok = (0 < a <= 1 <= c) if role == "scale" else (a <= 0 <= c)
        chk.require(ok, "fit bounds admit the nominal %s" % role, r.label,
                    "parameter %d (%s) is bounded by %s..%s" % (i, role, a,
                                                                c))
    if rec.x0 is not None and rec.n:
        nominal = expected((fitted, beta, shift, iterative, False))[0]
        for role, q, want in zip(("scale", "row shift", "column shift"), p,
                                 nominal):
            if q.op == "sym" and q.args[0] == "fit":
                g = ext.item_term(rec.x0, const(q.args[1]))
                equal(chk, roles(g), want, "fit starts at the nominal %s"
                      % role, r.label, VOC)
    elif rec.x0 is not None:
        nominal = expected((fitted, beta, shift, iterative, False))[0]
        equal(chk, roles(rec.x0), nominal[0],
              "fit starts at the nominal scale", r.label, VOC)


# ----------------------------------------------------------- P04 objective

def strip_roll(t):
    def f(x):
        if x.op == "roll" and tm.contains(
                x.args[1], lambda z: z.op == "sym" and z.args[0] == "trial"):
            if all(z.op in ("tuple", "list", "round", "int", "num", "sym")
                   for z in tm.subterms(x.args[1])):
                return x.args[0]
        return None
    return tm.rewrite(t, f)


def match_objective(t):
    """(pixel values, mask, region of values, region of mask) of a cost
    c * sum(ma(|values[region]| * c', mask[region])), or a reason."""
    while True:
        if t.op == "mul":
            pix = [b for b, e in zip(t.args[1::2], t.args[2::2])
                   if b.op == "sum" and e == 1]
            if cancels(t) and any(b.op in ("sum", "mean") for b in
                                  t.args[1::2]):
                return None, CANCELS
            if len(pix) != 1 or t.args[0] <= 0:
                return None, "not a sum over pixels"
            rest = [b for b in t.args[1::2] if b is not pix[0]]
            if any(depends_on_trial(b) for b in rest):
                return None, "the sum is weighted by the trial parameters"
            t = pix[0]
            continue
        break
    if t.op in ("abs", "pow") and t.args[0].op in ("sum", "mean", "mul") \
            and cancels(t.args[0]):
        return None, CANCELS
    if t.op not in ("sum", "mean"):
        return None, "not a sum over pixels"
    if len(t.args) > 1 and any(a is not tm.NONE for a in t.args[1:]):
        return None, "a partial sum"
    x = t.args[0]
    m = tm.FALSE
    if x.op == "ma":
        x, m = x.args
    val = None
    if x.op == "mul":
        for b, e in zip(x.args[1::2], x.args[2::2]):
            if b.op == "abs" and e == 1 and not shape_based(b):
                if val is not None:
                    return None, "two pixel factors"
                val = b.args[0]
            elif not shape_based(b):
                return None, "weighted by %s" % tm.show(b)
        if x.args[0] <= 0:
            return None, "negative cost"
    elif x.op == "abs":
        val = x.args[0]
    if val is None:
        return None, CANCELS if cancels(x) else "no absolute value"
    rv = rm = None
    if val.op == "item":
        val, rv = val.args
    if m.op == "item":
        m, rm = m.args
    return (val, m, rv, rm), None


CANCELS = "residuals of opposite sign cancel out"


def cancels(t):
    """Nothing in t takes the magnitude of the residuals summed."""
    if foreign(t, VOC):
        return False
    for x in tm.subterms(t):
        if x.op == "abs" and not shape_based(x):
            return False
        if x.op == "pow" and not shape_based(x) and tm.contains(
                x.args[0], lambda z: z.op in ("real", "ma")):
            return False
        if x.op == "mul" and any(
                b.op == "real" and e != 1 for b, e in
                zip(x.args[1::2], x.args[2::2])):
            return False
        if x.op in ("ite", "max", "maxof"):
            return False
    return True


def shape_based(b):
    if b.op == "num":
        return True
    if b.op == "abs":
        return shape_based(b.args[0])
    if b.op == "item":
        return b.args[0].op == "shape" or shape_based(b.args[0])
    return b.op in ("shape", "size")


def depends_on_trial(t):
    if shape_based(t):
        return False
    return tm.contains(t, lambda z: z.op == "sym" and z.args[0] == "trial")


def check_objective(chk):
    for r in all_runs(chk):
        if not r.opts[4] or not (r.opts[1] or r.opts[2]):
            continue
        if not guard(chk, r, "fit objective"):
            continue
        if not r.fits:
            chk.require(None, "fit objective", r.label,
                        "no call of scipy.optimize")
            continue
        for rec in r.fits:
            objective(chk, r, rec)


def objective(chk, r, rec):
    if rec.cost is None:
        return chk.require(None, "fit objective", r.label, "dead objective")
    cost = roles(rec.cost)
    m, why = match_objective(cost)
    if m is None:
        return chk.require(False if why is CANCELS else None,
                           "fit objective", r.label,
                           why + ": " + tm.show(cost))
    val, mask, rv, rm = m
    chk.require(rv is rm or (None if rv is None or rm is None else False),
                "objective: pixels and mask share their region", r.label,
                "values over %s, mask over %s" % (rv, rm))
    want_mask = tm.m_or(sym("ref", "mask"), sym("new", "mask"))
    equal(chk, mask, want_mask,
          "objective ignores the bad pixels of both images", r.label)
    p = pick_params(r)
    if p is None:
        return chk.require(None, "fit objective", r.label,
                           "the difference does not follow its formula")
    trial = [tm.subst(q, {fit_value(i): trial_value(i) for i in range(3)})
             for q in p]
    s = Spec(*trial)
    back = tm.div(tm.sub(mk("back", "new"), mk("back", "ref")), s.noise)
    want = tm.sub(tm.real(s.D()), back)
    got = strip_roll(val)
    if got is not want and tm.neg(got) is want:
        got = want
    equal(chk, got, want,
          "objective is the returned difference at the trial values",
          r.label, VOC)


# ---------------------------------------------------------------- P05 mask

def check_mask(chk):
    want = tm.m_or(sym("ref", "mask"), sym("new", "mask"))
    for r in all_runs(chk):
        if not guard(chk, r, "mask of the difference"):
            continue
        equal(chk, marked(r.out[3]), want,
              "mask of the difference is the union", r.label,
              ("shrink", "xor", "inpixels"))


def marked(t):
    """Flags set one by one are a union; flags by measured values."""
    def f(x):
        if x.op == "setitem" and x.args[2] is tm.TRUE and \
                x.args[0].op in ("mor", "sym", "setitem") and \
                x.args[1].op not in ("num", "tuple", "slice"):
            return tm.m_or(x.args[0], x.args[1])
        if x.op in ("not", "isnan", "isfinite", "lt", "le", "eq") and \
                tm.contains(x, lambda z: z.op == "ifft2"):
            return mk("inpixels", x.op)
        return None
    return tm.rewrite(t, f)


# ----------------------------------------------------- P06 alignment (part)

class Built(object):
    """A constructor call on images that are not symbolic inputs."""


def building_cut(built, names):
    """Stands for the base constructor: records what it is given."""
    def cut(I, args, kw, node):
        ref = args[0]
        cls = I.cell(ref).cls
        b = Built()
        b.cls, b.args, b.kw, b.node = cls, args[1:], dict(kw), node
        init = None
        for k in cls.mro():
            init = k.members.get("__init__") or init
        params = [p.arg for p in init.node.args.args][1:]
        b.by = dict(zip(params, b.args))
        b.by.update(kw)
        b.terms = {k: I.term(v) for k, v in b.by.items()}
        b.name = names[len(built)] if len(built) < len(names) else \
            "built%d" % len(built)
        built.append(b)
        b.pc = I.st.pc
        b.ref = ref
        I.event("build", cls.name, b.args, kw, node=node)
        I.st.heap[ref.loc] = Inst(cls, dict(I.cell(ref).fields), sym(b.name))
        return tm.NONE
    return cut


class Registration(object):
    pass


def register_cut(regs):
    def cut(I, name, args, kw, node):
        g = Registration()
        d = ext.nargs(I, args, kw, ["source", "target"])
        g.source, g.target = d.get("source"), d.get("target")
        pm = kw.get("propagate_mask", args[8] if len(args) > 8 else tm.FALSE)
        g.propagate = tm.truth(I.term(pm))
        g.node = node
        n = len(regs)
        g.pixels, g.footprint = sym("reg", n, "pixels"), sym(
            "reg", n, "badpixels" if g.propagate else "footprint")
        regs.append(g)
        return VTuple([cell_of(I, g.pixels), cell_of(I, g.footprint)])
    return cut


def strip_window(t, *shapes):
    """x[:h, :w] -> x, for a window of the whole of the target frame."""
    def f(x):
        if x.op == "item" and x.args[1].op == "tuple" and \
                x.args[0].op == "sym" and x.args[0].args[0] == "reg":
            ok = True
            for i, s in enumerate(x.args[1].args):
                ok = ok and s.op == "slice" and s.args[0] in (
                    tm.NONE, tm.ZERO) and s.args[2] is tm.NONE and (
                    s.args[1] is tm.NONE or s.args[1] in [
                        ext.item_term(h, const(i)) for h in shapes])
            if ok and len(x.args[1].args) <= 2:
                return x.args[0]
        if x.op == "copy":
            return x.args[0]
        return None
    return tm.rewrite(t, f)


def plain_default(b, key, allowed):
    t = b.terms.get(key)
    return t is None or t in allowed


NO_CROP = mk("tuple", mk("tuple", tm.ZERO, tm.ZERO),
             mk("tuple", tm.ZERO, tm.ZERO))


def registered_image(chk, label, b, g, source, target, frame, rule):
    """Obligations on the image built from one registration."""
    chk.require(g.source is source or tm.mdata(g.source) is tm.mdata(source),
                rule + ": the right image is registered", label,
                "source is %s" % tm.show(g.source))
    chk.require(tm.mdata(g.target) is tm.mdata(target),
                rule + ": it is registered onto the reference", label,
                "target is %s" % tm.show(g.target))
    img = strip_window(b.terms.get("img", tm.NONE), *frame)
    equal(chk, tm.mdata(img), g.pixels,
          rule + ": the resampled pixels are used", label)
    mask = strip_window(b.terms.get("mask", tm.NONE), *frame)
    if mask is tm.NONE and img.op == "ma":
        mask = img.args[1]
    if mask is tm.NONE:
        st = False
    else:
        parts = mask.args if mask.op == "mor" else (mask,)
        st = g.footprint in parts
        if not st and foreign(mask):
            st = None
        if st and not g.propagate:
            st = False
    chk.require(st, rule + ": bad pixels and the uncovered part are flagged",
                label, "mask of the aligned image: %s; registration %s the "
                "mask of the image" % (
                    tm.show(mask), "carries" if g.propagate else "drops"))
    chk.require(
        plain_default(b, "crop", (NO_CROP, tm.NONE)) and
        plain_default(b, "borders", (tm.FALSE,)) and
        plain_default(b, "gain", (tm.NONE, tm.ONE)),
        rule + ": the aligned frame is not trimmed or rescaled again", label,
        "built with %s" % {k: tm.show(v) for k, v in b.terms.items()})


def align_run(chk, fitted, s_kw=None):
    fits, built, regs = [], [], []
    cuts = sub_cuts(fitted, fits, True)
    cuts["ext:astroalign.register"] = register_cut(regs)
    cuts["=SingleImage.__init__"] = building_cut(built, ["new"])
    s = chk.session(cuts).cold()
    I = s.I
    f = s.function("operations", "subtract")
    cl = "SingleImageGaussPSF" if fitted else "SingleImage"
    a, b = image(I, "ref", cl), image(I, "raw", cl)
    kw = {"align": tm.TRUE, "beta": tm.FALSE, "shift": tm.FALSE,
          "fitted_psf": const(fitted), "inf_loss": LOSS}
    kw.update(s_kw or {})
    o = run(I, f, [a, b], kw)
    chk.done(s)
    o.I, o.built, o.regs, o.fn = I, built, regs, f
    o.out = None
    if not o.dead:
        vals = I.iterate(o.value)
        if vals is not None and len(vals) == 4:
            o.out = [roles(I.term(v)) for v in vals]
    return o


def check_align_subtract(chk):
    rule = "aligned subtraction"
    for fitted in (True, False):
        label = "subtract(align=True, fitted_psf=%s)" % fitted
        o = align_run(chk, fitted)
        if o.out is None:
            chk.require(None, rule, label, "no result")
            continue
        if len(o.regs) != 1 or len(o.built) != 1:
            chk.require(False if not o.regs else None, rule, label,
                        "%d registrations, %d images built" % (
                            len(o.regs), len(o.built)))
            continue
        g, b = o.regs[0], o.built[0]
        ref = tm.ma(sym("ref", "data"), sym("ref", "mask"))
        raw = tm.ma(sym("raw", "data"), sym("raw", "mask"))
        frame = [ext.shape(sym("ref", "data"))]
        registered_image(chk, label, b, g, raw, ref, frame, rule)
        equal(chk, o.out[3], tm.m_or(sym("ref", "mask"), sym("new", "mask")),
              rule + ": the result flags the aligned mask", label,
              ("shrink",))
        used = [x for x in tm.subterms(o.out[0])
                if x.op in ("P", "F") and x.args[0] == "raw"
                or x.op == "sym" and x.args[0] == "raw"]
        chk.require(not used, rule + ": only the aligned image is used",
                    label, "the result depends on %s" % used[:3])
        originals_untouched(chk, o, label, rule, {"raw"})


def originals_untouched(chk, o, label, rule, names):
    """Nothing of the named symbolic images is written."""
    bad = []
    for n, f, t in changed_cells(o, names):
        bad.append("%s of %s becomes %s" % (f, n, tm.show(t, limit=60)))
    chk.require(not bad, rule + ": the images passed in keep their pixels",
                label, "; ".join(bad))


def changed_cells(o, names):
    """Measured arrays of the inputs whose cell holds another value."""
    for c in list(o.state.heap.values()):
        if not isinstance(c, Inst) or c.sym is None or c.sym.op != "sym" \
                or c.sym.args[0] not in names:
            continue
        n = c.sym.args[0]
        first = {sym(n, "interped"), sym(n, "sources"),
                 tm.ma(sym(n, "data"), sym(n, "mask"))}
        for k, v in c.fields.items():
            if not k.startswith("\xa7") or not isinstance(v, Ref):
                continue
            x = o.state.heap.get(v.loc)
            if isinstance(x, Arr) and x.term not in first:
                yield n, "an array", x.term


# ------------------------------------------------- P07 sizes, kinds of input

def known_shapes(mism):
    """Decide comparisons between the two frames' sizes."""
    def h(I, c):
        if c.op not in ("eq", "eq2"):
            return None
        xs = c.args
        if c.op == "eq" and len(xs) == 1 and xs[0].op == "add":
            xs = xs[0].args
        syms = {x.args[0] for y in xs for x in tm.subterms(y)
                if x.op == "sym" and x.args[-1] == "data"}
        if syms != {"ref", "new"}:
            return None
        if not all(z.op in ("shape", "item", "num", "sym", "add", "mul",
                            "const") for y in xs for z in tm.subterms(y)):
            return None
        dims = {int(z.args[1].args[0]) for y in xs for z in tm.subterms(y)
                if z.op == "item" and z.args[0].op == "shape"
                and z.args[1].op == "num"}
        items = {z for y in xs for z in tm.subterms(y) if z.op == "item"
                 and z.args[0].op == "shape"}
        if len(items) == 2 and len(dims) == 2 and not any(
                z.op in ("tuple", "mul") and len(z.args) > 3
                for y in xs for z in tm.subterms(y)) and \
                not any(y.op == "tuple" for y in xs):
            return False        # a row count and a column count
        if not dims:
            dims = {0, 1}
        return not (dims & mism)
    return h


def spurious(o, cond_ok):
    """Why a run that should succeed may raise: [(kind, reason, known)]."""
    out = []
    for st, kind, exc, node in o.raised:
        if kind == "*":
            continue
        cs = [(roles(c), p) for c, p in st.pc]
        if any(cond_ok(c, p) for c, p in cs):
            continue
        bad = [b for c, p in cs for b in foreign(c, VOC + ("com",))]
        out.append((kind, "; ".join("%s is %s" % (tm.show(c, limit=60), p)
                                    for c, p in cs) or "always", not bad))
    return out


def off_stamp(c, p):
    """The centre of a PSF lies outside its stamp: it has no centre."""
    if not p:
        return False
    atoms = [z for z in tm.subterms(c) if z.op in (
        "lt", "le", "lt2", "le2", "eq", "eq2", "isnan", "isfinite")]

    def centre(z):
        ws = {w for w in tm.subterms(z) if w.op == "sym"}
        return ws and all(w.args[0] == "com" for w in ws) and len(
            {w.args[1] for w in ws}) == 1 and (len(ws) == 1 or any(
                w.op in ("minof", "maxof") for w in tm.subterms(z)))
    return bool(atoms) and all(
        z.op in ("lt", "le", "isnan") and centre(z) for z in atoms)


def compares(c):
    """A condition on the sizes of both frames."""
    return {x.args[0] for z in tm.subterms(c) if z.op in ("shape", "len")
            for x in tm.subterms(z) if x.op == "sym"
            and x.args[-1] == "data"} >= {"ref", "new"}


def check_inputs(chk):
    rule = "frames of different size are rejected"
    for fitted in (True, False):
        for mism in ({0}, {1}, {0, 1}):
            label = "subtract(fitted_psf=%s), frames differ along %s" % (
                fitted, sorted(mism))
            s = chk.session(sub_cuts(fitted, [], True),
                            {"known": known_shapes(mism)}).cold()
            I = s.I
            f = s.function("operations", "subtract")
            cl = "SingleImageGaussPSF" if fitted else "SingleImage"
            a, b = image(I, "ref", cl), image(I, "new", cl)
            o = run(I, f, [a, b], {"beta": tm.FALSE, "shift": tm.FALSE,
                                   "fitted_psf": const(fitted)})
            chk.done(s)
            kinds = {x[1] for x in o.raised if x[1] != "*"}
            ok = o.dead and "ValueError" in kinds
            if not ok and not o.dead and any(
                    k == "ValueError" and any(compares(c) for c, _ in st.pc)
                    for st, k, _, _ in o.raised):
                ok = None       # a comparison of sizes that is not read
            chk.require(ok, rule, label,
                        "a result is returned" if not o.dead
                        else "raises %s" % sorted(kinds))
    rule = "frames of the same size are accepted"
    for fitted, beta, shift in itertools.product((True, False), repeat=3):
        label = "subtract(fitted_psf=%s, beta=%s, shift=%s)" % (
            fitted, beta, shift)
        s = chk.session(sub_cuts(fitted, [], True),
                        {"known": known_shapes(set())}).cold()
        cl = "SingleImageGaussPSF" if fitted else "SingleImage"
        o = run(s.I, s.function("operations", "subtract"),
                [image(s.I, "ref", cl), image(s.I, "new", cl)],
                {"beta": const(beta), "shift": const(shift),
                 "inf_loss": LOSS, "fitted_psf": const(fitted)})
        chk.done(s)
        why = spurious(o, off_stamp)
        chk.require(True if not why else False if any(w[2] for w in why)
                    else None, rule, label, "; ".join(
                        "%s when %s" % w[:2] for w in why))
    rule = "inputs that are not images yet"
    for fitted in (True, False):
        for kinds in ({"ndarray"}, {"str"}, {"MaskedArray"}):
            wrapped_inputs(chk, fitted, kinds, rule)
    wrapped_inputs(chk, True, "SingleImage", rule)


def wrapped_inputs(chk, fitted, kinds, rule):
    fits, built = [], []
    cuts = sub_cuts(fitted, fits, True)
    build = building_cut(built, ["ref", "new"])

    def no_images(I, args, kw, node):
        v = args[1] if len(args) > 1 else kw.get("img")
        if v is not None and isinstance(I.resolve(v), Ref) and isinstance(
                I.cell(I.resolve(v)), Inst):
            I.raise_(None, node, "AttributeError")
        return build(I, args, kw, node)
    cuts["=SingleImage.__init__"] = no_images
    s = chk.session(cuts).cold()
    I = s.I
    f = s.function("operations", "subtract")
    if isinstance(kinds, str):
        given = [image(I, n, kinds) for n in ("pixref", "pixnew")]
        p, q = [tm.ma(sym(n, "data"), sym(n, "mask"))
                for n in ("pixref", "pixnew")]
        kinds = {kinds + " objects"}
    else:
        p, q = sym("pixref"), sym("pixnew")
        I.kinds[p] = I.kinds[q] = set(kinds)
        given = [I.wrapsym(p), I.wrapsym(q)]
    o = run(I, f, given,
            {"beta": tm.FALSE, "shift": tm.FALSE, "smooth_psf": tm.TRUE,
             "fitted_psf": const(fitted), "inf_loss": LOSS})
    chk.done(s)
    label = "subtract(fitted_psf=%s) given %s" % (fitted, sorted(kinds)[0])
    if o.dead:
        chk.require(False, rule, label, "always raises %s" % sorted(
            {x[1] for x in o.raised}))
        return
    want = "SingleImageGaussPSF" if fitted else "SingleImage"
    ok = len(built) >= 2
    src = []
    for b in built:
        t = b.terms.get("img", tm.NONE)
        src.append(t)
        chk.require(b.cls.name == want, rule + ": class by the PSF option",
                    label, "built %s" % b.cls.name)
        chk.require(b.terms.get("smooth_psf") is tm.TRUE,
                    rule + ": smooth_psf is passed on", label,
                    "built with %s" % sorted(b.terms))
    used = {x for t in src for x in tm.subterms(t) if x in (p, q)}
    chk.require(ok and used == {p, q}, rule + ": both are taken in", label,
                "built from %s" % src)
    equal(chk, roles(I.term(I.iterate(o.value)[0])),
          Spec(tm.div(sym("zps", "new", "zp"), sym("zps", "ref", "zp")),
               tm.ZERO, tm.ZERO).D(), rule + ": ordinary result", label, VOC)
