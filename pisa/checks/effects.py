"""What is handed over stays as it was (P19)."""

from .common import *  # noqa
from .. import small, model
from ..values import Inst, Arr, Lst, Dct
from . import subtract, coadd, frame, tools, simulate, catalog, plots


class Audit(Check):
    """Runs the analyses of another check and looks at their effects."""

    class Enough(Exception):
        """What a kind of audit needs has been run."""

    def __init__(self, chk, rule):
        Check.__init__(self, chk.pid, chk.tier, chk.repo)
        self.outer, self.rule = chk, rule
        self.n = 0

    def done(self, s):
        self.n += 1
        self.outer.done(s)
        audit(self.outer, s, self.rule, self.n)


def pictures(I):
    """{cell: label} of the pixels and flags of the images given."""
    out = {}
    for loc, (v, how, before) in list(vars(I).get("given", {}).items()):
        if before is not None or I.st is None or loc not in I.st.heap:
            continue
        for k, f in I.cell(v).fields.items():
            if k.startswith("\xa7"):
                f = I.resolve(f)
                if isinstance(f, Ref) and isinstance(I.cell(f), Arr):
                    out[f.loc] = how
    return out


def audit(chk, s, rule, n):
    I = s.I
    given = vars(I).get("given", {})
    for loc, (v, how, before) in given.items():
        c = I.st.heap.get(loc) if I.st is not None else None
        if before is None:
            continue
        w = I.written(loc)
        now = I.term(v) if c is not None else before
        chk.require(not w and now is before, rule, w[0] if w else rule,
                    "%s (run %s) is changed: %s" % (
                        how, n, tm.show(now)[:200]),
                    "%s|%s" % (rule, w))
    for loc, how in pictures(I).items():
        w = I.written(loc)
        chk.require(not w, rule, w[0] if w else rule,
                    "the pixels of %s (run %s) are changed" % (how, n),
                    "%s|pixels|%s" % (rule, w))
    for e in I.events:
        if e.kind == "setgiven":
            r = I.resolve(e.vals[0])
            if isinstance(r, Ref) and r.loc in given:
                chk.require(e.name not in ("data", "mask", "interped"),
                            rule, e.where(), "%s of an image given is "
                            "replaced" % e.name, "%s|%s|%s" % (
                                rule, e.name, e.where()))


def analyses(chk, kind, rule=None):
    """Run the analyses of other checks under an auditor."""
    for name, fs in (
            ("subtraction", (subtract.check_difference,
                             subtract.check_align_subtract,
                             subtract.check_inputs)),
            ("coaddition", (coadd.check_formula, coadd.check_align,
                            coadd.check_mask)),
            ("zero points", (catalog.check_zeropoints,)),
            ("building an image", (frame.check_pixels, frame.check_flags,
                                   frame.check_use)),
            ("tools", (tools.check_store, tools.check_peaks,
                       plots.check_looks)),
            ("simulation", (simulate.check_image,))):
        for f in fs:
            a = kind(chk, rule or name)
            a.group = name
            try:
                f(a)
            except a.Enough:
                pass


def check_inputs(chk):
    check_helpers(chk)
    check_lists(chk)
    analyses(chk, Audit)


# ----------------------------------------------- lists and arrays to helpers

def call(chk, rule, mod, name, make, kw=None, cuts=None):
    """Audit one call; make(I) gives its arguments."""
    s = chk.session(dict(model.base_cuts(), **(cuts or {})), {}).cold()
    f = s.function(mod, name)
    I = s.I
    args = make(I)
    k = {a: (v(I) if callable(v) else v if isinstance(v, (T, Ref, VTuple))
             else const(v)) for a, v in (kw or {}).items()}
    run(I, f, [a if isinstance(a, (T, Ref, VTuple)) else const(a)
               for a in args], k)
    chk.done(s)
    audit(chk, s, rule, "%s" % name)


def arr(name):
    return lambda I: I.new(sym(name))


def check_helpers(chk):
    def no_psf(I, args, kw, node):
        return I.new(sym("psf"))

    def no_image(I, args, kw, node):
        return I.new(sym("frame"))

    def no_points(I, args, kw, node):
        return I.new(sym("points"))

    def lst(*xs):
        return lambda I: I.lst([x(I) if callable(x) else const(x)
                                for x in xs])
    A, B = arr("first"), arr("second")
    for pdf in ("poisson", "gaussian"):
        call(chk, "simulation", "simtools", "image",
             lambda I: [A(I), sym("n"), sym("t"), sym("w"), sym("sn")],
             {"bkg_pdf": pdf, "seed": sym("seed")},
             {"properimage.simtools.Psf": no_psf})
    call(chk, "simulation", "simtools", "sim_varpsf", lambda I: [7],
         {"thetas": lst(45, 0, 150, 105), "N": 64, "seed": sym("seed")},
         {"properimage.simtools.image": no_image,
          "properimage.simtools.delta_point": no_points})
    call(chk, "simulation", "simtools", "convol_gal_psf_fft",
         lambda I: [A(I), B(I)])
    pts = lst(lst(2, 3), lst(1, 4), lst(0, 1))
    call(chk, "simulation", "simtools", "delta_point", lambda I: [5],
         {"center": tm.FALSE, "xy": pts, "weights": lst(3, 1, 2)})
    call(chk, "simulation", "simtools", "delta_point", lambda I: [5],
         {"center": tm.FALSE, "xy": pts,
          "weights": lambda I: I.new(mk("list", const(3), const(1),
                                        const(2)))})
    call(chk, "storing", "simtools", "store_fits",
         lambda I: [A(I), sym("time"), sym("exposure"), 1, sym("zero")])
    call(chk, "tools", "utils", "chunk_it", lambda I: [
        lst(3, 1, 2, 5, 4)(I), 2])
    call(chk, "tools", "utils", "crossmatch", lambda I: [A(I), B(I)])
    call(chk, "tools", "utils", "fit_gaussian2d", lambda I: [A(I)])


def check_lists(chk):
    """Coadding plain arrays, and a list of them."""
    for k, n, how in ((2, 1, "all"), (3, 2, "all"), (2, 1, "some"),
                      (3, 2, "some")):
        built = []
        cuts = coadd.coadd_cuts()
        cuts["ext:astroalign.register"] = subtract.register_cut([])
        cuts["=SingleImage.__init__"] = subtract.building_cut(
            built, ["im%d" % i for i in range(k)])
        for align in (tm.FALSE, tm.TRUE):
            s = chk.session(dict(cuts), None).cold()
            I = s.I
            f = s.function("operations", "coadd")
            for i in range(k):
                I.kinds[sym("array%d" % i)] = {"ndarray"}
            xs = [I.new(sym("array%d" % i)) if how == "all" or i % 2 else
                  image(I, "im%d" % i) for i in range(k)]
            run(I, f, [I.lst(xs)], {"align": align, "n_procs": const(n)})
            chk.done(s)
            audit(chk, s, "coaddition", "%d %s" % (k, how))
