"""Simulated images (P28)."""

from fractions import Fraction

from .common import *  # noqa
from .. import ext, small

MOD = "simtools"


class Small(object):
    def __enter__(self):
        small.ON = True

    def __exit__(self, *a):
        small.ON = False


def pdf_cut(I, name, args, kw, node):
    """Normal density, element by element."""
    names = ("x", "loc", "scale")
    d = dict(zip(names, [I.term(a) for a in args]))
    d.update({k: I.term(v) for k, v in kw.items()})
    if set(d) - set(names) or "x" not in d:
        return NotImplemented
    I.event("call", name, args, kw, node=node)
    return I.new(mk("pdf", d["x"], d.get("loc", tm.ZERO),
                    d.get("scale", tm.ONE)))


def rotate_cut(log):
    def cut(I, name, args, kw, node):
        names = ("input", "angle", "axes", "reshape", "output", "order")
        d = dict(zip(names, [I.term(a) for a in args]))
        d.update({k: I.term(v) for k, v in kw.items()})
        I.event("call", name, args, kw, node=node)
        x = small.dense(d["input"])
        if not isinstance(x, list):
            return NotImplemented
        n, m = small.shape(x)
        if d.get("reshape") is not tm.FALSE:
            n, m = n + 2, m + 2
        log.append((d, x))
        return I.new(mk("list", *[mk("list", *[
            sym("turned", i, j, "num") for j in range(m)])
            for i in range(n)]))
    return cut


def cuts(log):
    c = {"ext:scipy.stats.norm.pdf": pdf_cut,
         "ext:scipy.stats.distributions.norm.pdf": pdf_cut}
    r = rotate_cut(log)
    for m in ("scipy.ndimage.", "scipy.ndimage.interpolation."):
        c["ext:" + m + "rotate"] = r
    return c


def call(chk, name, args, kw=None, extra=None):
    log = []
    s = chk.session(dict(cuts(log), **(extra or {})), {})
    f = s.function(MOD, name)
    I = s.I
    o = run(I, f, [a if isinstance(a, (T, Ref, VTuple)) else const(a)
                   for a in args],
            {k: v if isinstance(v, (T, Ref, VTuple)) else const(v)
             for k, v in (kw or {}).items()})
    chk.done(s)
    chk.count("calls")
    o.I, o.log, o.where = I, log, where(f)
    return o


def matrix(chk, o, rule, key):
    """The array returned, as nested lists (obligation filed if not)."""
    if o.dead:
        chk.require(False, rule, o.where, "%s: raises %s" % (
            key, sorted({str(r[1]) for r in o.raised})), rule + "|" + key)
        return None
    t = o.I.term(o.value)
    d = small.dense(t)
    if not isinstance(d, list) or len(small.shape(d)) != 2:
        chk.require(None, rule, o.where, "%s: %s" % (
            key, tm.show(t)[:300]), rule + "|" + key)
        return None
    return d


# operators of the element expressions these checks understand
KNOWN = {"pdf", "apply", "abs"}


def same(chk, o, rule, key, got, want, scale=None):
    """got equals want element by element (times scale)."""
    rule_key = rule + "|" + key
    if small.shape(got) != small.shape(want):
        chk.require(False, rule, o.where, "%s: %s pixels, expected %s" % (
            key, small.shape(got), small.shape(want)), rule_key)
        return
    ok, why = True, ""
    for i, (r, q) in enumerate(zip(got, want)):
        for j, (g, w) in enumerate(zip(r, q)):
            if scale is not None:
                w = tm.div(w, scale)
            if g is w:
                continue
            gv, wv = tm.approx(g), tm.approx(w)
            if gv is None or wv is None:
                if tm.sub(g, w) is tm.ZERO:
                    continue
                unsure = foreign(g, KNOWN)
            elif abs(gv - wv) < 1e-9:
                continue
            else:
                unsure = False
            why = "%s: pixel (%d, %d) is %s, expected %s" % (
                key, i, j, tm.show(g)[:200], tm.show(w)[:200])
            if not unsure:
                chk.require(False, rule, o.where, why, rule_key)
                return
            ok = None
    chk.require(ok, rule, o.where, why, rule_key)


def total(d):
    return tm.add(*[e for r in d for e in r])


# ------------------------------------------------------------- Gaussians

WIDTHS = [(3, "1.2", None), (6, "1.2", "0.7"), (7, "0.9", "2.1"),
          (7, "2", 0), (6, "4", "9"), (9, "1.1", "0.6"), (10, "6", "5"),
          ("7.5", "1.5", None), ("8.5", "1.7", "1.1")]


def num(x):
    return mk("num", Fraction(x)) if isinstance(x, str) else const(x)


def gaussian(n, fx, fy):
    """Expected element (i, j) of a Gaussian of that size, unnormalised."""
    mu = mk("num", Fraction(n - 1, 2))
    sx, sy = [tm.div(num(f), num("2.335")) for f in (fx, fy)]
    return [[tm.mul(mk("pdf", const(i), mu, sx), mk("pdf", const(j), mu, sy))
             for j in range(n)] for i in range(n)]


def tails(got, want, n, f, reach):
    """want with the far tails left out wherever got leaves them out."""
    mu = Fraction(n - 1, 2)
    far = reach * Fraction(f) / Fraction("2.335")
    out = []
    for i, r in enumerate(want):
        out.append([])
        for j, w in enumerate(r):
            away = max(abs(i - mu), abs(j - mu)) > far
            g = got[i][j] if i < len(got) and j < len(got[i]) else None
            out[-1].append(tm.ZERO if away and g is tm.ZERO else w)
    return out


def check_psf(chk):
    for n, fx, fy in WIDTHS:
        kw = {} if fy is None else {"Y_FWHM": num(fy)}
        key = "%s pixels, widths %s and %s" % (n, fx, fy)
        o = call(chk, "Psf", [num(n), num(fx)], kw)
        m = matrix(chk, o, "Gaussian", key)
        if m is None:
            continue
        k = int(Fraction(n))
        y = fx if fy in (None, 0) else fy
        w = tails(m, gaussian(k, fx, y), k,
                  max(Fraction(fx), Fraction(y)), 4)
        same(chk, o, "Gaussian", key, m, w, total(w))
    for th in (30, 135, -20):
        key = "turned by %s" % th
        o = call(chk, "Psf", [7, num("1.5"), num("0.8")],
                 {"theta": const(th)})
        m = matrix(chk, o, "turned Gaussian", key)
        if m is None:
            continue
        if len(o.log) != 1:
            chk.require(None if o.I.notes else False, "turned Gaussian",
                        o.where, "%s: turned %d times" % (key, len(o.log)),
                        "turned Gaussian|" + key)
            continue
        d, x = o.log[0]
        w = tails(x, gaussian(7, "1.5", "0.8"), 7, Fraction("1.5"), 4)
        t = total(x)
        same(chk, o, "before turning", key,
             [[tm.div(e, t) for e in r] for r in x], w, total(w))
        chk.require(d.get("angle") is const(th), "angle", o.where,
                    "%s: turned by %s" % (key, tm.show(d.get(
                        "angle", tm.NONE))), "angle|" + key)
        turned = [[sym("turned", i, j, "num") for j in range(len(m[0]))]
                  for i in range(len(m))]
        if small.shape(m) not in ((7, 7), (9, 9)):
            chk.require(False, "turned Gaussian", o.where, "%s: cut" % key,
                        "turned Gaussian|" + key)
            continue
        same(chk, o, "turned Gaussian", key, m, turned, total(turned))


def check_round(chk):
    for n, f in ((5, "1.2"), (6, "1.2"), (7, "4"), (8, "0.8"), (3, "9")):
        key = "%s pixels, width %s" % (n, f)
        o = call(chk, "astropy_Psf", [num(n), num(f)])
        m = matrix(chk, o, "round Gaussian", key)
        if m is None:
            continue
        w = tails(m, gaussian(n, f, f), n, Fraction(f), 5)
        same(chk, o, "round Gaussian", key, m, w, total(w))


# ------------------------------------------------------- Airy, Sersic, delta

def radius(n, i, j):
    mu = Fraction(n - 1, 2)
    return tm.pow_(mk("num", (i - mu) ** 2 + (j - mu) ** 2),
                   mk("num", Fraction(1, 2)))


def check_airy(chk):
    for n, wd in ((4, "1.3"), (5, "1.3"), (5, "0.4"), (6, "3")):
        key = "%d pixels, width %s" % (n, wd)
        w = num(wd)
        o = call(chk, "airy_patron", [n, w])
        m = matrix(chk, o, "Airy disc", key)
        if m is None:
            continue
        want = []
        for i in range(n):
            want.append([])
            for j in range(n):
                r = tm.div(radius(n, i, j), w)
                want[-1].append(tm.ONE if r is tm.ZERO else tm.pow_(
                    tm.div(tm.mul(const(2), mk(
                        "call", "scipy.special.j1", r)), r), const(2)))
        same(chk, o, "Airy disc", key, m, want)


def check_sersic(chk):
    for size, n in ((4, "4"), (5, "1"), (7, "2.5"), (8, "0.5")):
        key = "%d pixels, index %s" % (size, n)
        n = num(n)
        o = call(chk, "gal_sersic", [size, n])
        m = matrix(chk, o, "galaxy", key)
        if m is None:
            continue
        re = mk("num", Fraction(size - 1, 6))
        b = tm.sub(tm.mul(num("1.999"), n), num("0.327"))
        inv = tm.div(tm.ONE, n)
        want = []
        for i in range(size):
            want.append([])
            for j in range(size):
                r = radius(size, i, j)
                a = tm.approx(tm.sub(tm.mul(const(4), re), r))
                want[-1].append(
                    tm.ZERO if a is not None and a < -1e-9 else
                    tm.div(level(r, re, b, inv),
                           level(tm.ZERO, re, b, inv)))
        same(chk, o, "galaxy", key, m, want)
    # brightness at one radius, relative to the centre
    for re, ie, n, r in (("2", "3", "4", "5"), ("5", "0.1", "1", "0"),
                         ("1.5", "10", "0.7", "1.1")):
        re, ie, n, r = [num(x) for x in (re, ie, n, r)]
        o = call(chk, "perfilsersic", [re, ie, n, r])
        if o.dead:
            chk.require(False, "profile", o.where, "raises", "profile")
            continue
        b = tm.sub(tm.mul(num("1.999"), n), num("0.327"))
        inv = tm.div(tm.ONE, n)
        got = o.I.term(o.value)
        want = tm.div(level(r, re, b, inv), level(tm.ZERO, re, b, inv))
        g, w = tm.approx(got), tm.approx(want)
        chk.require(None if g is None or w is None else
                    abs(g - w) < 1e-9 * (1 + abs(w)), "profile", o.where,
                    tm.show(got)[:400], "profile")


def level(r, re, b, inv):
    e = tm.mul(tm.neg(b), tm.sub(tm.pow_(tm.div(r, re), inv), tm.ONE))
    return mk("call", "numpy.exp", e)


POINTS = [(1, 3), (4, 0), (2, 2), (0, 4)]


def check_points(chk):
    for n in (4, 5, 6):
        o = call(chk, "delta_point", [n])
        m = matrix(chk, o, "central point", str(n))
        if m is not None:
            w = small.fill((n, n), tm.ZERO)
            w[n // 2][n // 2] = tm.ONE
            same(chk, o, "central point", str(n), m, w)
    xy = mk("list", *[mk("tuple", const(i), const(j)) for i, j in POINTS])
    xs = mk("list", *[const(i) for i, _ in POINTS])
    ys = mk("list", *[const(j) for _, j in POINTS])
    fl = [sym("flux", k, "num") for k in range(len(POINTS))]
    for name in ("list", "rows of an array"):
        for weighted in (False, True):
            key = "%s|%s" % (name, weighted)
            t = xy if name == "list" else mk("transpose", mk("list", xs, ys))
            kw = {"center": tm.FALSE, "xy": t}
            if weighted:
                kw["weights"] = mk("list", *fl)
            o = call(chk, "delta_point", [5], kw)
            m = matrix(chk, o, "points", key)
            if m is None:
                continue
            w = small.fill((5, 5), tm.ZERO)
            for k, (i, j) in enumerate(POINTS):
                w[i][j] = fl[k] if weighted else tm.ONE
            same(chk, o, "points", key, m, w)


# ------------------------------------------------------------ noisy images

def check_image(chk):
    mf, n, x, y, th, sn, te = [sym(a) for a in (
        "field", "size", "widthx", "widthy", "turn", "ratio", "exposure")]
    seed, bias = sym("seed"), sym("bias")
    psf = sym("psf")
    for pdf in ("poisson", "gaussian", "other", None):
        for seeded in (True, False):
            image_case(chk, pdf, seeded, locals())


def image_case(chk, pdf, seeded, v):
    calls = []

    def psf_cut(I, args, kw, node):
        calls.append(([I.term(a) for a in args],
                      {k: I.term(w) for k, w in kw.items()}))
        return I.new(v["psf"])

    key = "%s|%s" % (pdf, "seed" if seeded else "no seed")
    kw = {"Y_FWHM": v["y"], "theta": v["th"]}
    if seeded:
        kw["seed"] = v["seed"]
        kw["bias"] = v["bias"]
    if pdf is not None:
        kw["bkg_pdf"] = const(pdf)
    tm.FACT_HOOK.append(seed_given)
    try:
        o = call(chk, "image", [v["mf"], v["n"], v["te"], v["x"], v["sn"]],
                 kw, {"properimage.simtools.Psf": psf_cut})
    finally:
        tm.FACT_HOOK.remove(seed_given)
    if pdf == "other":
        chk.require(o.dead and {str(r[1]) for r in o.raised} ==
                    {"ValueError"}, "unknown noise", o.where,
                    "%s: %s" % (key, sorted({str(r[1]) for r in o.raised})),
                    "unknown noise|" + key)
        return
    if o.dead:
        chk.require(False, "image", o.where, "%s: raises %s" % (
            key, sorted({str(r[1]) for r in o.raised})), "image|" + key)
        return
    t = o.I.term(o.value)
    if len(calls) != 1:
        chk.require(None, "seeing", o.where, "%s: %d PSFs" % (
            key, len(calls)), "seeing|" + key)
        return
    a, k = calls[0]
    d = dict(zip(("N", "X_FWHM", "Y_FWHM", "theta"), a), **k)
    w = [d.get("X_FWHM"), d.get("Y_FWHM"), d.get("theta")]
    sure = all(x is None or x.op in ("sym", "num") for x in w)
    chk.require(True if w == [v["x"], v["y"], v["th"]] else
                False if sure else None, "seeing", o.where,
                "%s: PSF of %s" % (key, {q: tm.show(w)[:80] for q, w in
                                         d.items()}), "seeing|" + key)
    sharp = [x for x in tm.subterms(t) if x.op == "call" and
             x.args[0].endswith("fftconvolve")]
    if len(set(sharp)) != 1:
        chk.require(None, "image", o.where, "%s: %s" % (
            key, tm.show(t)[:300]), "image|" + key)
        return
    sharp = sharp[0]
    pos, kws = small.kws(sharp)
    kws = dict(zip(("in1", "in2", "mode"), pos), **kws)
    chk.require(kws.get("in1") is v["mf"] and kws.get("in2") is v["psf"]
                and kws.get("mode") is const("same"), "seeing", o.where,
                "%s: %s" % (key, tm.show(sharp)[:200]), "blurred|" + key)
    level = tm.div(mk("max", sharp), v["sn"])
    bias = v["bias"] if seeded else const(100)
    noise = tm.sub(t, tm.add(sharp, bias))
    while noise.op == "astype":
        noise = noise.args[0]
    size = mk("tuple", v["n"], v["n"])
    if noise.op != "call":
        chk.require(None if foreign(noise, ("call", "kw", opname(sharp)))
                    else False, "noise", o.where, "%s: %s" % (
                        key, tm.show(noise)[:300]), "noise|" + key)
        return
    pos, kws = small.kws(noise)
    fn = noise.args[0].rpartition(".")[2]
    gen, pos = pos[0], pos[1:]
    names = {"poisson": ("lam", "size"),
             "normal": ("loc", "scale", "size")}.get(fn)
    if names is None:
        chk.require(None, "noise", o.where, "%s: %s" % (
            key, tm.show(noise)[:200]), "noise|" + key)
        return
    kws = dict(zip(names, pos), **kws)
    want = {"lam": level, "size": size} if pdf in ("poisson", None) else {
        "loc": tm.ZERO, "scale": level, "size": size}
    chk.require(kws == want and fn == (
        "normal" if pdf == "gaussian" else "poisson"), "noise", o.where,
        "%s: %s" % (key, tm.show(noise)[:300]), "noise|" + key)
    if seeded:
        ok = gen.op == "call" and gen.args[0].endswith("default_rng") and \
            v["seed"] in tm.subterms(gen)
        chk.require(ok, "seed", o.where, "%s: drawn from %s" % (
            key, tm.show(gen)[:100]), "seed|" + key)


def check_reach(chk):
    """The PSF is drawn on an array that holds it."""
    for x, y in ((2, 6), (6, 2), (3, 0), (3, 3)):
        sizes = []

        def psf_cut(I, args, kw, node):
            sizes.append(I.term(kw.get("N", args[0] if args else tm.NONE)))
            return I.new(sym("psf"))
        o = call(chk, "image", [sym("field"), sym("size"), sym("exposure"),
                                const(x), sym("ratio")],
                 {"Y_FWHM": const(y)},
                 {"properimage.simtools.Psf": psf_cut})
        key = "widths %d and %d" % (x, y)
        n = sizes[0] if len(sizes) == 1 else tm.NONE
        chk.require(None if n.op != "num" else n.args[0] >= 3 * max(x, y),
                    "seeing", o.where, "%s: PSF on %s pixels" % (
                        key, tm.show(n)[:80]), "array|" + key)


def seed_given(op, d):
    if op == "isnone" and d.op == "sym" and d.args[0] in ("seed",):
        return False


def check_simulated(chk):
    with Small():
        check_psf(chk)
        check_round(chk)
        check_airy(chk)
        check_sersic(chk)
        check_points(chk)
    check_image(chk)
    check_reach(chk)
