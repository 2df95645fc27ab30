"""PSF measurement: Karhunen-Loeve components, their coefficient fields,
the number of components kept, and the coherence of cached products."""

import ast
from fractions import Fraction

from .common import *  # noqa
from .. import ext, arrays

VALS = sym("eigval")


def store_fields(I):
    """Instance attributes that hold the stamp store."""
    out = set()
    for m in I.mods.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call):
                f = n.value.func
                nm = f.attr if isinstance(f, ast.Attribute) else getattr(
                    f, "id", "")
                if nm == "NumPyDB":
                    out |= {t.attr for t in n.targets
                            if isinstance(t, ast.Attribute)}
    return out


def kl_cuts(I_fields, vals, smooth=False, many=False):
    """n = len(vals) stars; eigen decomposition with spectrum `vals`."""
    n = len(vals)
    cuts = base_cuts()
    V = sym("eigvec", n)
    arrays.KNOWN_SHAPE[V] = (n, n)
    pos = sym("stampspos", n)
    arrays.KNOWN_SHAPE[pos] = (n, 2)

    def eigh(I, name, args, kw, node):
        I.event("call", "eigh", args, kw, node=node)
        return VTuple([I.new(mk("list", *[const(v) for v in vals])),
                       I.new(V)])
    cuts["ext:numpy.linalg.eigh"] = eigh
    cuts["ext:scipy.linalg.eigh"] = eigh
    cuts["SingleImage.n_sources"] = lambda I, r, nd: const(n)

    def positions(I, r, nd):
        for f in I_fields:
            I.set_field(r, f, I.new(sym("stampdb")))
        return I.new(pos)
    cuts["SingleImage.stamps_pos"] = positions
    cuts["SingleImage.stamp_shape"] = lambda I, r, nd: VTuple(
        [of(I, r, "stamp", 0, "num"), of(I, r, "stamp", 1, "num")])
    return cuts


def scaled(n):
    """Compare the number of stars as if it were above every large limit."""
    def f(a, b):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, T) and isinstance(y, T) and x is const(n) and \
                    y.op == "num" and 50 <= y.args[0] <= 1000:
                small_ = const(n // 2)
                return (a, small_) if y is b else (small_, b)
        return a, b
    return f


def kept(chk, name, f):
    """A fact read once per run from the source."""
    memo = chk.__dict__.setdefault("memo", {})
    if name not in memo:
        memo[name] = f(chk.session({}))
    return memo[name]


def kl_session(chk, vals, inf_loss, smooth=False, many=False,
               cls="SingleImage", uncut=()):
    fields = kept(chk, "store_fields", lambda s: store_fields(s.I))
    cuts = kl_cuts(fields, vals, smooth, many)
    for k in uncut:
        cuts.pop(k, None)
    config = {"known": fitted}
    if many:
        config["scale"] = scaled(len(vals))
    s = chk.session(cuts, config).cold(cls)
    I = s.I
    r = image(I, "im", cls)
    for f in fields:
        I.set_field(r, f, I.new(sym("stampdb")))
    sm = kept(chk, "smooth_field", smooth_field)
    if sm:
        I.set_field(r, sm, const(smooth))
    if inf_loss is not None:
        I.setattr(r, "inf_loss", const(inf_loss), None)
    return s, I, r


def fitted(I, c):
    """The result of a fit is a model, not None."""
    if c.op == "is":
        for a, b in (c.args, c.args[::-1]):
            if a is tm.NONE and b.op == "apply":
                return False
    return None


def smooth_field(s):
    """Attribute in which the constructor keeps its smooth_psf argument."""
    return stored_args(s, "SingleImage").get("smooth_psf")


def stored_args(s, cls):
    c = s.cls(cls)
    f = c.find("__init__")
    out = {}
    if f is None:
        return out
    node = getattr(f, "node", None)
    for n in ast.walk(node):
        if isinstance(n, ast.Assign) and isinstance(n.value, ast.Name):
            for t in n.targets:
                if isinstance(t, ast.Attribute):
                    out.setdefault(n.value.id, t.attr)
    return out


# ----------------------------------------------------------------- P22

SPECTRA = [
    ((1, 2, 3, 4), "0.25"), ((1, 2, 3, 4), "0.05"), ((1, 2, 3, 94), "0.2"),
    ((1, 1, 4, 4), "0.4"), ((-1, -2, 3, 94), "0.05"),
    ((1, 1, 2, 4), "0.25"), ((1, 1, 2, 4), "0.125"),
]
MORE_SPECTRA = [
    ((1, 2, 3, 4), "0.65"), ((1, 2, 3, 4), "0.31"), ((2, 3, 5), "0.21"),
    ((2, 3, 5), "0.19"), ((1, 1, 1, 1, 6), "0.35"), ((-8, 1, 2, 9), "0.5"),
    ((1, 2, 3, 4), "1.5"),
]


def stamp(j):
    """The stored stamp j: first thing the store returns for index j."""
    return mk("item", mk("call", ".load", sym("stampdb"), const(j)),
              const(0))


def weight(n, j, c):
    return mk("item", sym("eigvec", n), mk("tuple", const(j), const(c)))


def projection(n, c):
    return tm.add(*[tm.mul(weight(n, j, c), stamp(j)) for j in range(n)])


def needed(vals, loss):
    tot = sum(abs(Fraction(v)) for v in vals)
    left, k = Fraction(1), 0
    for v in reversed(vals):
        k += 1
        left -= abs(Fraction(v)) / tot
        if left <= loss:
            break
    return k


def parts(t):
    if t is not None and t.op in ("list", "tuple", "array"):
        if t.op == "array":
            return parts(t.args[0])
        if not any(a.op == "splice" for a in t.args):
            return list(t.args)
    return None


def weights_in(t):
    return {x for x in tm.subterms(t) if x.op == "item"
            and x.args[0].op == "sym" and x.args[0].args[0] == "eigvec"}


KL_CALLS = ("call .load/2", "apply",
            "call astropy.modeling.fitting.LinearLSQFitter/0",
            "call astropy.modeling.models.Polynomial2D/1", "kw", "ravel")


def check_kl(chk):
    cases = [(v, l, sm, many) for v, l in SPECTRA
             + (MORE_SPECTRA if chk.thorough else [])
             for sm in (False, True) for many in (False, True)]
    for vals, l, sm, many in cases:
        s, I, r = kl_session(chk, vals, l and Fraction(l), sm, many)
        label = "spectrum %s, loss %s%s%s" % (
            vals, l, ", smoothed" if sm else "",
            ", without stamp matrix" if many else "")
        try:
            v = I.call(I.getattr(r, "get_variable_psf", None), [], {}, None)
            pair = I.iterate(v)
            fields, basis = [parts(I.term(x)) for x in pair]
        except (Dead, TypeError, ValueError):
            fields = basis = None
        chk.done(s)
        if fields is None and unset(I):
            no_result(chk, I, "number of PSF components", label, "")
            continue
        one_kl(chk, vals, Fraction(l), sm, many, fields, basis, label)
        eig = [e for e in I.events if e.kind == "call" and e.name == "eigh"]
        (products if many else covariance)(chk, I, eig, len(vals), label)


def one_kl(chk, vals, loss, sm, many, fields, basis, label):
    n = len(vals)
    rule = "number of PSF components"
    if fields is None or basis is None:
        chk.require(None, rule, label, "no list of components")
        return
    k = needed(vals, loss)
    chk.require(len(basis) == k, rule, label,
                "%d components, %d expected" % (len(basis), k))
    chk.require(len(fields) == len(basis),
                "one coefficient field per component", label,
                "%d fields, %d components" % (len(fields), len(basis)))
    if len(basis) == 1:
        chk.require(fields[0] is tm.NONE,
                    "a single component has no coefficient", label,
                    tm.show(fields[0]))
    for i, b in enumerate(basis):
        c = n - 1 - i
        w = "%s, component %d" % (label, i)
        p = projection(n, c)
        rule = "component is the projection on its eigenvector"
        if not sm and not many:
            want = p
            if len(basis) == 1:
                want = tm.div(p, ext.linop("sum", p))
            equal(chk, b, want, rule, w, KL_CALLS)
        else:
            ws = weights_in(b)
            used = {x.args[1].args[-1] for x in ws
                    if x.args[1].op == "tuple"}
            ok = None
            if used == {const(c)} and tm.contains(
                    b, lambda z: contains_sum(z, p)):
                ok = True
            elif used and const(c) not in used and all(
                    u.op == "num" for u in used):
                ok = False
            elif len(used) > 1 and all(u.op == "num" for u in used):
                ok = False
            elif used and combination(b):
                ok = False
            chk.require(ok, rule, w, tm.show(b))
            if sm or many or len(basis) == 1:
                unit(chk, b, w)
    for i, f in enumerate(fields):
        if f is tm.NONE:
            continue
        w = "%s, coefficient %d" % (label, i)
        want = mk("item", sym("eigvec", n), mk(
            "tuple", ext.full_slice(), const(n - 1 - i)))
        fit_terms(chk, f, want, n, w)


def contains_sum(z, p):
    """z is p, up to a common factor."""
    if z is p:
        return True
    if p.op == "add" and z.op == "add":
        left = [x for x in z.args if pixels(x)]
        return len(left) >= len(p.args) and not pixels(
            tm.div(tm.add(*left), p))
    return False


ARITH = ("mul", "add", "num", "sum", "min", "max", "abs", "sym", "const",
         "kw", "tuple", "call", "item", "shape", "pow", "mean", "size", "len")


def combination(b):
    """b is written out in arithmetic on the stamps."""
    return all(x.op in ARITH for x in tm.subterms(b)) and all(
        x.startswith("call skimage.filters.gaussian")
        for x in foreign(b, KL_CALLS))


def pixels(x):
    """x varies over the pixels of a stamp."""
    if x.op in ("sum", "min", "max", "shape", "size", "len", "mean"):
        return False
    if x.op == "item" and x.args[0].op == "call":
        return True
    return any(pixels(a) for a in x.args if isinstance(a, tm.T))


def unit(chk, b, w):
    """b has unit sum by construction: b = x / sum(x)."""
    rule = "component has unit sum"
    total_ = ext.linop("sum", b)
    if total_ is tm.ONE:
        chk.require(True, rule, w)
        return
    for x in tm.subterms(b):
        if x.op in ("sum", "add"):
            core = tm.mul(b, x)
            if ext.linop("sum", core) is x:
                chk.require(True, rule, w)
                return
    if b.op == "call" and b.args[0] == "skimage.filters.gaussian":
        # smoothing loses light over the edges
        chk.require(False, rule, w, tm.show(b))
        return
    # no division by any total at all
    if not any(y.op == "sum" for y in tm.subterms(b)):
        chk.require(False if not foreign(b, KL_CALLS) else None, rule, w,
                    tm.show(b))
        return
    # divided by a total, but not last
    last = b.op == "mul" and not any(
        y.op in ("sum", "add") and e < 0 and not pixels(y)
        for y, e in zip(b.args[1::2], b.args[2::2]))
    chk.require(False if (b.op == "add" or last) and combination(b)
                else None, rule, w, tm.show(b))


def fit_terms(chk, f, want, n, w):
    rule = "coefficient is fitted to the weights of its component"
    zs = {x for x in tm.subterms(f) if x.op == "item"
          and x.args[0] is sym("eigvec", n)}
    if f.op != "apply" or len(f.args) < 5:
        chk.require(None, rule, w, tm.show(f))
        return
    kw = {a.args[0]: a.args[1] for a in f.args[1:] if a.op == "kw"}
    pos = [a for a in f.args[2:] if a.op != "kw"]
    got = pos[:3] + [kw[k] for k in ("x", "y", "z")[len(pos):] if k in kw]
    if len(got) < 3:
        chk.require(None, rule, w, tm.show(f))
        return
    x, y, z = got[:3]
    P = sym("stampspos", n)
    col = lambda i: mk("item", P, mk("tuple", ext.full_slice(), const(i)))
    ok = z is want
    if not ok and (len(zs) != 1 or foreign(z)):
        ok = None
    chk.require(ok, rule, w, "fitted values: " + tm.show(z))
    rule = "coefficient is fitted at the star positions (row, column)"
    ok = x is col(0) and y is col(1)
    if not ok and (foreign(x) or foreign(y)):
        ok = None
    chk.require(ok, rule, w, "%s ; %s" % (tm.show(x), tm.show(y)))


def products(chk, I, eig, n, label):
    """The part of the matrix that is read holds products of stamp pairs."""
    rule = "eigenvectors are those of the covariance of the stamps"
    if not eig:
        chk.require(None, rule, label, "no eigen decomposition seen")
        return
    t = I.term(eig[0].args[0])
    kw = {k: I.term(v) for k, v in eig[0].kw.items()}
    if "lower" in kw:
        low = kw["lower"] is not tm.FALSE
    else:
        low = kw.get("UPLO", const("L")) is const("L")
    if t.op == "call" and t.args[0] == "numpy.cov":
        return covariance(chk, I, eig, n, label)
    ok, why = True, ""
    for i in range(n):
        for j in range(i + 1):
            p = (i, j) if low else (j, i)
            v = entry(t, p)
            if v is None:
                ok, why = None, "entry %s of %s" % (p, tm.show(t)[:300])
                break
            used = {k for k in range(n) if tm.contains(
                v, lambda z, k=k: z is stamp(k))}
            if used != {i, j}:
                ok, why = False, "entry %s is %s" % (p, tm.show(v)[:300])
                break
        if ok is not True:
            break
    chk.require(ok, rule, label, why)


def entry(t, p):
    """Entry p of a matrix filled item by item, or None."""
    want = mk("tuple", const(p[0]), const(p[1]))
    while t.op == "setitem":
        i = t.args[1]
        if i is want:
            return t.args[2]
        if i.op != "tuple" or len(i.args) != 2 or any(
                a.op != "num" for a in i.args):
            return None
        t = t.args[0]
    return tm.ZERO if t.op in ("zeros", "empty") else None


def covariance(chk, I, eig, n, label):
    rule = "eigenvectors are those of the covariance of the stamps"
    if not eig:
        chk.require(None, rule, label, "no eigen decomposition seen")
        return
    t = I.term(eig[0].args[0])
    if t.op == "call" and t.args[0] == "numpy.cov":
        m = t.args[1]
        kw = {a.args[0]: a.args[1] for a in t.args[2:] if a.op == "kw"}
        pos = [a for a in t.args[2:] if a.op != "kw"]
        rowvar = kw.pop("rowvar", pos[1] if len(pos) > 1 else tm.TRUE)
        flat = lambda j: mk("ravel", stamp(j))
        ok = None
        if not kw and len(pos) <= 2 and rowvar in (tm.TRUE, tm.FALSE,
                                                   tm.ONE, tm.ZERO):
            d = arrays.dims(m)
            if d and len(d) == 2:
                ax = 1 if rowvar in (tm.FALSE, tm.ZERO) else 0
                if d[ax] == n:
                    vs = []
                    for j in range(n):
                        c = [ext.full_slice(), ext.full_slice()]
                        c[ax] = const(j)
                        vs.append(ext.item_term(m, mk("tuple", *c)))
                    ok = set(vs) == {flat(j) for j in range(n)}
                    ok = ok and vs == [flat(j) for j in range(n)]
                    if not ok and any(foreign(x, KL_CALLS) for x in vs):
                        ok = None
                elif d[1 - ax] == n:
                    ok = False
        chk.require(ok, rule, label, tm.show(t))
        return
    chk.require(None, rule, label, tm.show(t))


# ------------------------------------------------------- Gaussian PSF (P22)

GAUSS = "astropy.modeling.models.Gaussian2D"


def kwargs_of(t, names=()):
    pos = [a for a in t.args[1:] if a.op != "kw"]
    d = dict(zip(names, pos))
    d.update({a.args[0]: a.args[1] for a in t.args[1:] if a.op == "kw"})
    return d


def check_gauss(chk):
    for n in (2, 3) if chk.thorough else (2,):
        s, I, r = kl_session(chk, tuple(range(1, n + 1)), None,
                             cls="SingleImageGaussPSF")
        label = "Gaussian PSF, %d stars" % n
        try:
            v = I.call(I.getattr(r, "get_variable_psf", None), [], {}, None)
            pair = I.iterate(v)
            fields, basis = [parts(I.term(x)) for x in pair]
        except (Dead, TypeError, ValueError):
            fields = basis = None
        chk.done(s)
        rule = "Gaussian PSF is constant over the image"
        if fields is None or not basis:
            no_result(chk, I, rule, label, "no PSF found")
            continue
        chk.require(fields == [tm.NONE], rule, label,
                    str([tm.show(f) for f in fields]))
        gs = list({x for b in basis for x in tm.subterms(b)
                   if x.op == "call" and x.args[0] == GAUSS
                   and not inside_fit(basis, x)})
        if len(gs) != 1:
            chk.require(None, "Gaussian PSF model", label,
                        "%d models" % len(gs))
            continue
        g = gs[0]
        rule = "first PSF component is the rendered model"
        full = g
        for x in {x for b in basis for x in tm.subterms(b)
                  if x.op == "with"}:
            y = x
            while y.op == "with":
                y = y.args[0]
            if y is g and tm.contains(x, lambda z, f=full: z is f):
                full = x
        want = mk("call", ".render", full)
        chk.require(True if basis[0] is want else
                    False if basis[0] is full else None,
                    rule, label, tm.show(basis[0])[:300])
        gauss_model(chk, full, n, label)


def inside_fit(basis, g):
    """Models used as a starting point of a fit."""
    return any(g in tm.subterms(x) for b in basis for x in tm.subterms(b)
               if x.op == "apply")


NAMED = ("amplitude", "x_mean", "y_mean", "x_stddev", "y_stddev", "theta")


def gauss_model(chk, g, n, label):
    late = {}
    while g.op == "with":
        late.setdefault(g.args[1], g.args[2])
        g = g.args[0]
    k = kwargs_of(g, ("amplitude", "x_mean", "y_mean", "x_stddev",
                      "y_stddev", "theta"))
    k.update(late)
    for m in ("x_mean", "y_mean"):
        v = k.get(m, tm.ZERO)
        chk.require(v is tm.ZERO if v.op == "num" else None,
                    "Gaussian PSF is centred", label + ", " + m, tm.show(v))
    sx, sy = k.get("x_stddev"), k.get("y_stddev")
    if sx is None or sy is None or "amplitude" not in k:
        chk.require(None if set(k) - set(NAMED) else False,
                    "Gaussian PSF has unit volume", label, tm.show(g))
        return
    if "theta" not in k:
        chk.require(None if set(k) - set(NAMED) else False,
                    "each Gaussian parameter pools its own fitted values",
                    label + ", theta", "left at its default")
    vol = tm.mul(k["amplitude"], const(2), ext.const_term("numpy.pi"),
                 tm.abs_(sx), tm.abs_(sy))
    rule = "Gaussian PSF has unit volume"
    if vol is tm.ONE:
        chk.require(True, rule, label)
    else:
        used = {x for x in tm.subterms(k["amplitude"])
                if x.op == "call" and x.args[0].endswith(
                    "sigma_clipped_stats")}
        others = {x for y in (sx, sy) for x in tm.subterms(y)
                  if x.op == "call" and x.args[0].endswith(
                      "sigma_clipped_stats")}
        plain = all(x.op in PURE or x.op in ("call", "attr", "apply", "kw",
                                             "ext")
                    for x in tm.subterms(k["amplitude"]))
        ok = None
        if plain and not any(x.op == "call" and x not in used | others
                             for x in top_calls(k["amplitude"])):
            ok = False
        chk.require(ok, rule, label, tm.show(k["amplitude"])[:600])
    for m in ("x_stddev", "y_stddev", "theta"):
        if m in k:
            pooled(chk, k[m], m, n, label)


def top_calls(t):
    """Outermost library calls in t."""
    out, stack = set(), [t]
    while stack:
        x = stack.pop()
        if x.op in ("call", "apply"):
            out.add(x)
            continue
        stack += [a for a in x.args if isinstance(a, T)]
    return out


def pooled(chk, t, name, n, label):
    """t pools one fitted parameter over all the stars."""
    w = "%s, %s" % (label, name)
    rule = "each Gaussian parameter pools its own fitted values"
    got = {}
    for x in tm.subterms(t):
        if x.op == "attr" and x.args[1] in (
                "x_stddev", "y_stddev", "theta", "amplitude", "x_mean",
                "y_mean"):
            got.setdefault(x.args[1], []).append(x)
    if not got:
        fitted_ = tm.contains(t, lambda z: z.op in ("apply", "unk", "lv"))
        chk.require(None if fitted_ else False, rule, w,
                    tm.show(t)[:600])
        return
    chk.require(set(got) == {name}, rule, w, "pools %s" % sorted(got))
    fits = {}
    for xs in got.values():
        for x in xs:
            for y in tm.subterms(x):
                if y.op == "apply":
                    pos = [a for a in y.args[2:] if a.op != "kw"]
                    if len(pos) >= 3:
                        fits[pos[2]] = pos
    rule = "the Gaussian is fitted to every star"
    want = {stamp(j) for j in range(n)}
    ok = set(fits) == want
    if not ok and not fits:
        ok = None
    chk.require(ok, rule, w, "fits to %s" % [tm.show(f)[:80] for f in fits])
    rule = "Gaussian fit has x along columns and y along rows"
    for f, pos in fits.items():
        ax = []
        for q in pos[:2]:
            gr = {y.args[0] for y in tm.subterms(q) if y.op == "grid"}
            ax.append(gr.pop() if len(gr) == 1 else None)
        chk.require(ax == [1, 0] if None not in ax else None, rule,
                    "%s, %s" % (w, tm.show(f)[:60]),
                    "axes %s" % ax)


def check_expansion(chk):
    check_kl(chk)
    check_gauss(chk)
