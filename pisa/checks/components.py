"""Per-image products: matched-filter component, PSF power, local PSF."""

from fractions import Fraction

from .common import *  # noqa
from .. import ext, small

GRID_CALLS = ("apply", "call scipy.ndimage.convolve/2",
              "call astropy.convolution.convolve_fft/2", "grid", "maxof",
              "minof")


def psf(i):
    return sym("psf", i)


def field(i):
    return sym("af", i)


def comp_cuts(k):
    """k = 0: one constant PSF; k > 0: k basis elements with coefficients."""
    cuts = base_cuts()

    def basis(I):
        return I.lst([cell_of(I, psf(i)) for i in range(max(k, 1))])

    def fields(I):
        if not k:
            return I.lst([tm.NONE])
        return I.lst([cell_of(I, field(i)) for i in range(k)])

    def vp(I, args, kw, node):
        return I.lst([fields(I), basis(I)])
    cuts["SingleImage.get_variable_psf"] = vp
    cuts["SingleImage.kl_basis"] = lambda I, r, n: basis(I)
    cuts["SingleImage.kl_afields"] = lambda I, r, n: fields(I)
    cuts["SingleImage.stamp_shape"] = lambda I, r, n: VTuple(
        [of(I, r, "stamp", 0, "num"), of(I, r, "stamp", 1, "num")])
    return cuts


def tidy(t):
    """Noise level by role."""
    def f(x):
        if x.op == "attr" and x.args[1] == "globalrms":
            s = {y.args[0] for y in tm.subterms(x) if y.op == "sym"}
            if s == {"im"}:
                return sym("im", "var")
        return None
    return tm.rewrite(t, f)


def frame(i):
    return ext.item_term(ext.shape(sym("im", "data")), const(i))


def coords():
    b = (tm.ZERO, frame(0), tm.ZERO, frame(1))
    return ext.grid(0, *b), ext.grid(1, *b)


def coef(i, g=None):
    return mk("apply", field(i), *(g or coords()))


def norm_image(k):
    if not k:
        return mk("call", "astropy.convolution.convolve_fft",
                  mk("ones", ext.shape(sym("im", "data"))), psf(0))
    return tm.add(*[mk("call", "scipy.ndimage.convolve", coef(i), psf(i))
                    for i in range(k)])


def fpsf(i):
    return ext.linop("fft2", psf(i), ext.shape(sym("im", "data")),
                     const("ortho"))


def spec_shat(k):
    move = tm.phase(mk("com", psf(0), tm.ZERO), mk("com", psf(0), tm.ONE))
    img = sym("im", "interped")
    if not k:
        body = tm.mul(ext.linop("fft2", img, tm.NONE, const("ortho")),
                      tm.conj(fpsf(0)))
    else:
        body = tm.add(*[tm.mul(
            ext.linop("fft2", tm.div(tm.mul(img, coef(i)), norm_image(k)),
                      tm.NONE, const("ortho")), tm.conj(fpsf(i)))
            for i in range(k)])
    w = tm.mul(sym("im", "zp"), tm.pow_(sym("im", "var"), const(-2)))
    return tm.mul(w, body, move)


def spec_power(k):
    return tm.add(*[tm.mul(fpsf(i), tm.conj(fpsf(i)))
                    for i in range(max(k, 1))])


def fields_exist(I, c):
    """A coefficient field that the cut supplies is not None."""
    if c.op == "is":
        for a, b in (c.args, c.args[::-1]):
            if a is tm.NONE and b.op == "sym" and b.args[0] in ("af", "psf"):
                return False
    return None


def one(chk, k, what, args=None):
    s = chk.session(comp_cuts(k), {"known": fields_exist}).cold("SingleImage")
    I = s.I
    r = image(I, "im")

    def go():
        v = I.getattr(r, what, None)
        if args is not None:
            v = I.call(v, args, {}, None)
        return v
    try:
        t = tidy(I.term(go()))
    except Dead:
        t = None
    chk.done(s)
    return t, "%s, %s" % (what, "one constant PSF" if not k else
                          "%d PSF components" % k)


def check_components(chk):
    for k in (0, 1, 2, 3) if chk.thorough else (0, 2, 3):
        t, label = one(chk, k, "s_hat_comp")
        compare(chk, t, spec_shat(k), "matched-filter component", label)
        t, label = one(chk, k, "s_component")
        want = tm.real(ext.linop("ifft2", spec_shat(k), tm.NONE,
                                 const("ortho")))
        compare(chk, t, want, "filtered image", label)
        t, label = one(chk, k, "psf_hat_sqnorm", [])
        compare(chk, t, spec_power(k), "PSF power", label)
        t, label = one(chk, k, "p_sqnorm", [])
        half = tm.phase(*[tm.div(sym("im", "stamp", i, "num"), const(2))
                          for i in (0, 1)])
        want = ext.linop("ifft2", tm.mul(half, spec_power(k)), tm.NONE,
                         const("ortho"))
        compare(chk, t, want, "PSF autocorrelation", label)
        t, label = one(chk, k, "normal_image")
        compare(chk, t, norm_image(k), "PSF normalisation image", label)


def compare(chk, got, want, rule, label):
    if got is None:
        return chk.require(None, rule, label, "no result")
    return equal(chk, got, want, rule, label, GRID_CALLS)


# ------------------------------------------------------------ PSF at a point

FRAME = (9, 14)
STAMPS = [(3, 3), (5, 5), (3, 5), (4, 4), (4, 6), (1, 1)]
PLACES = [(4, 6), (3, 10), (0, 0), (8, 13), (0, 13), (8, 0), (1, 7), (7, 7),
          (4, 0), (4, 13), (Fraction(17, 4), Fraction(23, 4)),
          (Fraction(15, 4), Fraction(25, 4)), (Fraction(1, 4), 12)]


def local_cuts(k, stamp):
    """An image of FRAME pixels with k PSF components of one stamp size."""
    cuts = comp_cuts(k)

    def stored(name, i, n, m):
        return small.undense([[sym(name, i, a, b, "num") for b in range(m)]
                              for a in range(n)])

    def basis(I):
        return I.lst([I.new(stored("psf", i, *stamp))
                      for i in range(max(k, 1))])

    def fields(I):
        if not k:
            return I.lst([tm.NONE])
        return I.lst([cell_of(I, field(i)) for i in range(k)])
    cuts["SingleImage.get_variable_psf"] = lambda I, a, kw, n: I.lst(
        [fields(I), basis(I)])
    cuts["SingleImage.kl_basis"] = lambda I, r, n: basis(I)
    cuts["SingleImage.kl_afields"] = lambda I, r, n: fields(I)
    cuts["SingleImage.stamp_shape"] = lambda I, r, n: VTuple(
        [const(x) for x in stamp])
    cuts["SingleImage.normal_image"] = lambda I, r, n: I.new(
        stored("nimg", 0, *FRAME))
    cuts["SingleImage.data"] = lambda I, r, n: I.new(
        tm.ma(stored("px", 0, *FRAME), tm.FALSE))
    return cuts


def local_psf(k, stamp, at):
    """The PSF at a position, pixel by pixel."""
    mid = [round(x) for x in at]
    n, m = stamp
    out = []
    for a in range(n):
        row = []
        for b in range(m):
            i = min(max(mid[0] + a - (n - 1) // 2, 0), FRAME[0] - 1)
            j = min(max(mid[1] + b - (m - 1) // 2, 0), FRAME[1] - 1)
            row.append(tm.add(*[tm.div(tm.mul(
                sym("psf", c, a, b, "num"),
                mk("apply", field(c), const(i), const(j))),
                sym("nimg", 0, i, j, "num")) for c in range(k)]))
        out.append(row)
    return out


def check_local_psf(chk):
    for k in (0, 2, 3):
        t, label = one(chk, k, "normal_image")
        compare(chk, t, norm_image(k), "PSF normalisation image", label)
    small.ON = True
    try:
        for k in (0, 2, 3):
            for stamp in STAMPS if k else STAMPS[:3]:
                for at in PLACES:
                    local(chk, k, stamp, at)
    finally:
        small.ON = False


def local(chk, k, stamp, at):
    rule = "PSF at a position"
    s = chk.session(local_cuts(k, stamp), {
        "known": fields_exist}).cold("SingleImage")
    I = s.I
    r = image(I, "im")
    label = "%s, %d x %d stamps, position (%s, %s)" % (
        "one constant PSF" if not k else "%d PSF components" % k,
        *(stamp + at))
    try:
        o = run(I, I.getattr(r, "get_psf_xy", None),
                [const(x) for x in at])
        fail = "raises %s" % sorted(str(x[1]) for x in o.raised) \
            if o.dead else None
        t = None if o.dead else I.term(o.value)
    except small.Bad as e:
        fail = "raises %s" % e
    chk.done(s)
    chk.count("positions")
    if fail:
        chk.require(False, rule, label, fail)
        return
    try:
        d = small.dense(t)
    except small.Bad as e:
        chk.require(False, rule, label, "raises %s" % e)
        return
    if not isinstance(d, list) or small.shape(d) != stamp:
        bad = foreign(t, GRID_CALLS)
        chk.require(False if isinstance(d, list) and not bad else None,
                    rule, label, "found %s" % tm.show(t)[:600])
        return
    want = [[sym("psf", 0, a, b, "num") for b in range(stamp[1])]
            for a in range(stamp[0])]
    if k:
        want = local_psf(k, stamp, at)
    got, want = small.flat(d), small.flat(want)
    if not k and got == want:
        chk.require(True, rule, label)
        return
    # unit sum: got / sum(got), whatever common factor got has
    total = tm.add(*want)
    ok = True
    for g, w in zip(got, want):
        x = tm.div(w, total)
        if g is not x and tm.sub(tm.mul(g, total), w) is not tm.ZERO:
            ok = None if foreign(g, GRID_CALLS) else False
            break
    chk.require(ok, rule, label, "" if ok else "found %s\n    expected %s"
                % (tm.show(g)[:900], tm.show(x)[:900]))
