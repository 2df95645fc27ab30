"""Image coaddition: formula, partition over workers, mask, alignment."""

import itertools

from .common import *  # noqa
from .. import ext
from ..values import Dead
from .subtract import (building_cut, register_cut, registered_image,
                       transparency_cut, name_of_img, ift, background_cuts, marked,
                       originals_untouched)

SIZES = (1, 2, 3, 4, 5)


def il_of(I, ref):
    return I.term(I.getattr(ref, "inf_loss", None))


def arg_il(I, args, kw, i=1):
    v = args[i] if len(args) > i else kw.get("inf_loss")
    return None if v is None else I.term(v)


def with_il(I, args, kw, node):
    il = arg_il(I, args, kw)
    if il is not None and il is not tm.NONE:
        I.setattr(args[0], "inf_loss", il, node)
    I.event("call", "setup", [args[0]], kw, node=node)


def shat_cut(I, ref, node):
    zp = I.term(I.getattr(ref, "zp", node))
    return cell_of(I, mk("shat", I.cell(ref).sym, zp, il_of(I, ref)))


def psfsq_cut(I, args, kw, node):
    return cell_of(I, mk("psfsq", I.cell(args[0]).sym, il_of(I, args[0])))


def setup_cut(I, args, kw, node):
    with_il(I, args, kw, node)
    return tm.NONE


def varpsf(I, args, kw, node):
    with_il(I, args, kw, node)
    nm = I.cell(args[0]).sym
    return I.lst([I.lst([tm.NONE]), I.lst([cell_of(I, mk(
        "psf", nm, il_of(I, args[0])))])])


def loss_get(I, r, n):
    v = I.cell(r).fields.get("loss set")
    return I.resolve(v) if v is not None else of(I, r, "inf_loss")


def loss_set(I, r, v, n):
    I.set_field(r, "loss set", v)


def coadd_cuts():
    cuts = background_cuts(base_cuts())
    cuts["SingleImage.inf_loss"] = loss_get
    cuts["SingleImage.inf_loss="] = loss_set
    cuts["properimage.utils.transparency"] = transparency_cut
    cuts["SingleImage.s_hat_comp"] = shat_cut
    cuts["SingleImage.psf_hat_sqnorm"] = psfsq_cut
    cuts["SingleImage._setup_kl_a_fields"] = setup_cut
    cuts["SingleImage._setup_kl_basis"] = setup_cut
    cuts["SingleImage.get_variable_psf"] = varpsf

    def stamp(I, r, n):
        s = of(I, r, "stamp", "num")
        return VTuple([s, s])
    cuts["SingleImage.stamp_shape"] = stamp

    def upd(I, args, kw, node):
        I.event("call", "update_sources", args, kw, node=node)
        return tm.NONE
    cuts["SingleImage.update_sources"] = upd
    return cuts


def _real_shat(t):
    if t.op == "psfsq":
        return None
    return None


IL = sym("loss", "inf_loss")


def coadd_run(chk, k, n_procs, align=False, kinds=None, config=None):
    cuts = coadd_cuts()
    regs, built = [], []
    cuts["ext:astroalign.register"] = register_cut(regs)
    cuts["=SingleImage.__init__"] = building_cut(
        built, ["al%d" % i for i in range(1, k)])
    made = allocations(cuts)
    s = chk.session(cuts, config).cold()
    I = s.I
    f = s.function("operations", "coadd")
    imgs = [image(I, "im%d" % i) for i in range(k)]
    lst = I.lst(list(imgs))
    o = run(I, f, [lst], {"align": const(align), "inf_loss": IL,
                          "n_procs": const(n_procs)})
    chk.done(s)
    o.I, o.s, o.imgs, o.lst, o.fn = I, s, imgs, lst, f
    o.regs, o.built, o.made = regs, built, made
    o.label = "coadd(%d images, n_procs=%d%s)" % (
        k, n_procs, ", align" if align else "")
    o.out = None
    if not o.dead:
        v = I.iterate(o.value)
        if v is not None and len(v) == 3:
            o.out = [unify(I.term(x)) for x in v]
    return o


def allocations(cuts):
    """Record the shapes of the arrays a run makes from scratch."""
    made = []

    def cut(I, name, args, kw, node):
        v = args[0] if args else kw.get("shape")
        if v is not None:
            made.append((unify(I.term(v)), node))
        return NotImplemented
    for n in ("zeros", "empty", "ones", "full"):
        cuts["ext:" + ext.CANON.get("numpy." + n, "numpy." + n)] = cut
    return made


def check_given(chk):
    """Pixels in the list are taken in as images, each in its place."""
    rule = "coadd takes inputs that are not images yet"
    for kind in ("ndarray", "str", "MaskedArray"):
        for raw in ((0,), (1,), (2,), (0, 2), (0, 1, 2)):
            given_run(chk, kind, raw, rule)


def given_run(chk, kind, raw, rule):
    cuts = coadd_cuts()
    built = []
    cuts["=SingleImage.__init__"] = building_cut(
        built, ["new%d" % i for i in range(len(raw) + 3)])
    s = chk.session(cuts).cold()
    I = s.I
    f = s.function("operations", "coadd")
    given, px = [], []
    for i in range(3):
        if i not in raw:
            given.append(image(I, "im%d" % i))
            continue
        p = sym("pix%d" % i)
        I.kinds[p] = {kind}
        px.append(p)
        given.append(I.wrapsym(p))
    o = run(I, f, [I.lst(given)], {"align": tm.FALSE, "inf_loss": IL,
                                   "n_procs": const(1)})
    chk.done(s)
    o.label = "coadd(3 inputs, %s at %s)" % (kind, list(raw))
    if o.dead:
        kinds = sorted({x[1] for x in o.raised})
        return chk.require(False, rule, o.label, "always raises %s" % kinds)
    for b in built:
        chk.require("SingleImage" in [k.name for k in b.cls.mro()], rule,
                    o.label, "builds %s" % b.cls.name)
    src = [b.terms.get("img", tm.NONE) for b in built]
    chk.require(True if sorted(map(str, src)) == sorted(map(str, px)) else
                None if any(foreign(t) for t in src) else False, rule,
                o.label, "images are built from %s" % [
                    tm.show(t) for t in src])
    if sorted(map(str, src)) != sorted(map(str, px)):
        return
    by = {p: b.name for p, b in zip(src, built)}
    names = [by[sym("pix%d" % i)] if i in raw else "im%d" % i
             for i in range(3)]
    v = I.iterate(o.value)
    if v is None or len(v) != 3:
        return chk.require(None, rule, o.label, "no three results")
    R, _, M = [unify(I.term(x)) for x in v]
    S, Q, want = spec(names)
    equal_cases(chk, R, ext.linop("ifft2", tm.div(S, tm.sqrt(Q)), tm.NONE,
                                  tm.NONE),
                rule + ": ordinary result", o.label, VOC)
    equal(chk, marked(M), want, rule + ": ordinary mask", o.label,
          ("shrink", "frame"))


def check_frames(chk, o, rule):
    """Sums over images are kept in arrays of the frame's own shape."""
    want = mk("tuple", mk("frame", 0), mk("frame", 1))
    def axis(x):
        if x.op == "item" and x.args[1].op == "num" and (
                x.args[0].op == "tuple" or x.args[0].op == "shape"):
            i = x.args[1]
            return mk("frame", int(i.args[0]) % 2)
        if x.op in ("minof", "maxof") and len(set(x.args)) == 1:
            return x.args[0]
        return None
    for t, node in o.made:
        t = tm.rewrite(t, axis)
        if t.op not in ("tuple", "list") or len(t.args) != 2:
            continue
        if not all(a.op == "frame" for a in t.args):
            continue
        chk.require(mk("tuple", *t.args) is want, rule, o.label,
                    "line %d: array of shape %s for a frame of shape %s" % (
                        getattr(node, "lineno", 0), tm.show(t),
                        tm.show(want)))


def unify(t):
    """Frame sizes are one symbol; library forms of the products."""
    def f(x):
        if x.op in ("min", "minof") and tm.contains(
                x, lambda z: z.op == "shape"):
            d = {int(z.args[1].args[0]) for z in tm.subterms(x)
                 if z.op == "item" and z.args[0].op == "shape"
                 and z.args[1].op == "num"}
            if len(d) == 1:
                return mk("frame", d.pop())
        if x.op == "shape" and x.args[0].op == "sym":
            return mk("tuple", mk("frame", 0), mk("frame", 1))
        return None
    return tm.rewrite(t, f)


VOC = ("shat", "psfsq", "frame", "maxof", "max")


def spec(names, zps=None):
    """(S sum, P sum, mask) over the given images."""
    S, Q, M = tm.ZERO, tm.ZERO, tm.FALSE
    for n in names:
        zp = sym("zps", n, "zp")
        S = tm.add(S, mk("shat", sym(n), zp, IL))
        Q = tm.add(Q, tm.mul(
            tm.pow_(tm.div(zp, sym(n, "var")), const(2)),
            mk("psfsq", sym(n), IL)))
        M = tm.m_or(M, sym(n, "mask"))
    return S, Q, M


def stamp_max(names):
    ts = [sym(n, "stamp", "num") for n in names]
    return ext.minmax("max", ts) if len(ts) > 1 else ts[0]


def unsplit(t):
    """Real part plus i times imaginary part is the whole."""
    return t


def check_formula(chk):
    sizes = SIZES if chk.thorough else (1, 2, 3)
    for k in sizes:
        for n in (1, 2, 3):
            formula(chk, coadd_run(chk, k, n), ["im%d" % i
                                                for i in range(k)])
    for k, n in ALIGNED:
        o = coadd_run(chk, k, n, align=True)
        if len(o.built) == k - 1:
            formula(chk, o, aligned_names(k))


ALIGNED = ((2, 1), (3, 1), (3, 2), (4, 3))


def aligned_names(k):
    return ["im0"] + ["al%d" % i for i in range(1, k)]


def formula(chk, o, names):
    if o.out is None:
        raised = sorted({x[1] for x in o.raised})
        return chk.require(False if o.dead else None, "coadd formula",
                           o.label, "no result; raises %s" % raised)
    check_frames(chk, o, "sums over the images have the frame's shape")
    S, Q, M = spec(names)
    R = ext.linop("ifft2", tm.div(S, tm.sqrt(Q)), tm.NONE, tm.NONE)
    equal_cases(chk, settle(o.out[0]), R, "coadded image is the weighted "
                "matched-filter sum over the root of the PSF power",
                o.label, VOC)
    psf = settle(o.out[1])
    check_psf(chk, o, psf, Q, names)


def settle(t):
    return t


def check_psf(chk, o, psf, Q, names):
    """P = X / sum(X) with X the inverse transform of the root power,
    moved by one shift."""
    rule = "coadd PSF is the root of the PSF power"
    rule2 = "coadd PSF has unit sum"
    sums = [x for x in tm.subterms(psf) if x.op == "sum"]
    # P is X * sum(X)^-1
    fac, rest = None, tm.ONE
    if psf.op == "mul":
        rest = mk("num", psf.args[0])
        for b, e in zip(psf.args[1::2], psf.args[2::2]):
            if b.op == "sum" and e == -1 and fac is None:
                fac = b.args[0]
            else:
                rest = tm.mul(rest, tm.pow_(b, mk("num", e)))
    if fac is None:
        bad = foreign(psf, VOC)
        chk.require(None if bad else False, rule2, o.label,
                    "not divided by its sum: %s" % tm.show(psf))
        rest = psf
    else:
        equal(chk, rest, fac, rule2, o.label, VOC)
    # the shape of the PSF
    s = [x for x in tm.subterms(rest) if x.op == "phase"]
    m = {p: tm.ONE for p in s}
    base = tm.subst(rest, m)
    shape = ext.linop("ifft2", tm.sqrt(Q), tm.NONE, tm.NONE)
    equal(chk, unscaled(base), unscaled(shape), rule, o.label, VOC)
    want = stamp_max(names)
    for p in s:
        for i, a in enumerate(p.args[:2]):
            equal(chk, a, want, "coadd PSF is moved by the largest stamp",
                  o.label, VOC)


def unscaled(t):
    """Without its scalar factors, which the normalising sum cancels."""
    if t.op != "mul":
        return t
    out = tm.ONE
    for b, e in zip(t.args[1::2], t.args[2::2]):
        if not ext.is_scalar(b):
            out = tm.mul(out, tm.pow_(b, mk("num", e)))
    return out


def check_workers(chk):
    """The outcome does not depend on the number of workers."""
    for k in SIZES:
        ref = coadd_run(chk, k, 1)
        if ref.out is None:
            chk.require(None, "one worker", ref.label, "no result")
            continue
        for n in range(2, k + 3):
            o = coadd_run(chk, k, n)
            if o.out is None:
                chk.require(False if o.dead else None, "any worker count",
                            o.label, "raises %s" % sorted(
                                {x[1] for x in o.raised}))
                continue
            for what, a, b in zip(("image", "PSF", "mask"), o.out, ref.out):
                equal_cases(chk, a, b, "same %s for every worker count"
                            % what, o.label, VOC + ("shrink",))
    check_chunks(chk)


def chunks(chk, k, n, kind):
    s = chk.session({})
    f = s.function("utils", "chunk_it")
    I = s.I
    if kind == "images":
        xs = [image(I, "im%d" % i) for i in range(k)]
    else:
        xs = [const((7 * i) % 5) for i in range(k)]
    o = run(I, f, [I.lst(xs), const(n)])
    chk.done(s)
    o.I = I
    if o.dead:
        return False, o
    cs = I.iterate(o.value)
    if cs is None:
        return None, o
    out = []
    for c in cs:
        items = I.iterate(c)
        if items is None:
            return None, o
        out.append(items)
    return (xs, out), o


def check_chunks(chk):
    top = 13 if chk.thorough else 8
    for k in range(1, top):
        for n in range(1, top):
            for kind in ("images", "numbers"):
                one_chunking(chk, k, n, kind)


def one_chunking(chk, k, n, kind):
    r, o = chunks(chk, k, n, kind)
    label = "chunk_it(%d %s, %d)" % (k, kind, n)
    rule = "every item is in exactly one chunk"
    if r is None or r is False:
        chk.require(None if r is None else False, rule, label,
                    "cannot follow the loop" if r is None else
                    "raises %s" % sorted({x[1] for x in o.raised}))
        return
    xs, out = r
    left = list(xs)
    extra = []
    for c in out:
        for x in c:
            if x in left:
                left.remove(x)
            else:
                extra.append(x)
    bad = [x for x in extra if not known_item(o.I, x)]
    chk.require(None if bad else not left and not extra, rule, label,
                "left out: %d items; repeated: %d" % (len(left), len(extra)))


def known_item(I, x):
    return isinstance(x, Ref) or isinstance(x, T) and tm.is_const(x)


def check_mask(chk):
    runs = [(k, n, False) for k in SIZES for n in (1, 2, 3)]
    for k, n, al in runs + [(k, n, True) for k, n in ALIGNED]:
        o = coadd_run(chk, k, n, align=al)
        if al and len(o.built) != k - 1:
            continue
        if o.out is None:
            chk.require(False if o.dead else None, "coadd mask", o.label,
                        "no result")
            continue
        check_frames(chk, o, "flags are gathered in the frame's shape")
        M = spec(aligned_names(k) if al else
                 ["im%d" % i for i in range(k)])[2]
        equal(chk, marked(o.out[2]), M,
              "mask of the coadd is the union over all images", o.label,
              ("shrink", "frame", "xor", "inpixels"))


def check_align(chk):
    rule = "aligned coadd"
    for k, n in ALIGNED:
        o = coadd_run(chk, k, n, align=True)
        label = o.label
        if o.out is None:
            chk.require(False if o.dead else None, rule, label, "no result")
            continue
        if len(o.regs) != k - 1 or len(o.built) != k - 1:
            chk.require(False if len(o.regs) < k - 1 else None, rule, label,
                        "%d registrations, %d images built" % (
                            len(o.regs), len(o.built)))
            continue
        ref = tm.ma(sym("im0", "data"), sym("im0", "mask"))
        frame = [ext.shape(sym("im0", "data"))]
        for i in range(1, k):
            src = tm.ma(sym("im%d" % i, "data"), sym("im%d" % i, "mask"))
            registered_image(chk, label, o.built[i - 1], o.regs[i - 1], src,
                             ref, frame, rule)
        formula(chk, o, ["im0"] + ["al%d" % i for i in range(1, k)])
        M = spec(["im0"] + ["al%d" % i for i in range(1, k)])[2]
        equal(chk, o.out[2], M, rule + ": the result flags the aligned masks",
              label, ("shrink", "frame"))
        originals_untouched(chk, o, label, rule,
                            {"im%d" % i for i in range(k)})
        caller_list(chk, o, label)


def caller_list(chk, o, label):
    items = o.I.iterate(o.lst)
    same_items = items is not None and len(items) == len(o.imgs) and all(
        a == b for a, b in zip(items, o.imgs))
    chk.require(same_items, "the list passed in keeps its images", label)
