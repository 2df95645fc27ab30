"""Coherence of the cached products of an image (P14)."""

from fractions import Fraction

from .common import *  # noqa
from . import kl

PRODUCTS = [("kl_basis", None), ("kl_afields", None),
            ("get_variable_psf", ()), ("normal_image", None),
            ("s_hat_comp", None), ("s_component", None),
            ("psf_hat_sqnorm", ()), ("p_sqnorm", ()),
            ("get_psf_xy", (sym("x", "num"), sym("y", "num")))]

SPECTRUM = (1, 2, 3, 94)
LOSSES = [(Fraction("0.2"), Fraction("0.02")),
          (Fraction("0.02"), Fraction("0.2")),
          (Fraction("0.02"), Fraction("0.04"))]
ZPS = [(Fraction(1), Fraction(3)), (Fraction(3), Fraction(1)),
       (Fraction(3), Fraction(5))]


def attr_op(name, v):
    return ("set", name, v)


def steps():
    """(label, first settings, change, settings of the fresh image)."""
    for a, b in ZPS:
        yield ("zero point %s -> %s" % (a, b),
               [("set", "zp", a)], [("set", "zp", b)], [("set", "zp", b)])
    for a, b in LOSSES:
        yield ("loss %s -> %s by attribute" % (fl(a), fl(b)),
               [("set", "inf_loss", a)], [("set", "inf_loss", b)],
               [("set", "inf_loss", b)])
        yield ("loss %s -> %s by argument" % (fl(a), fl(b)),
               [("set", "inf_loss", a)], [("loss", b)],
               [("set", "inf_loss", b)])
    a, b = LOSSES[0]
    yield ("loss default -> %s -> default" % fl(b),
           [], [("set", "inf_loss", b), ("read",),
                ("set", "inf_loss", Fraction("0.2"))],
           [("set", "inf_loss", Fraction("0.2"))])
    yield ("zero point and loss together",
           [("set", "zp", Fraction(3)), ("set", "inf_loss", a)],
           [("set", "inf_loss", b), ("set", "zp", Fraction(5))],
           [("set", "inf_loss", b), ("set", "zp", Fraction(5))])


def fl(x):
    return str(float(x))


class History(object):
    """A sequence of reads and changes on one image."""

    def __init__(self, chk, cls):
        self.s, self.I, self.r = kl.kl_session(
            chk, SPECTRUM, Fraction("0.2"), cls=cls,
            uncut=("SingleImage.zp", "SingleImage.zp="))
        self.I.setattr(self.r, "zp", tm.ONE, None)
        self.I.quiet += 1
        self.cls = cls

    def read(self, product):
        name, args = product
        v = self.I.getattr(self.r, name, None)
        if args is not None:
            v = self.I.call(v, list(args), {}, None)
        return self.I.term(v)

    def do(self, ops, product=None):
        for o in ops:
            if o[0] == "set":
                self.I.setattr(self.r, o[1], const(o[2]), None)
            elif o[0] == "loss":
                f = self.I.getattr(self.r, "get_variable_psf", None)
                self.I.call(f, [], {"inf_loss": const(o[1])}, None)
            elif o[0] == "read":
                self.read(product)


def check_cache(chk):
    cls = "SingleImage"
    fresh = {}
    rule = "a product read again reflects the current settings"
    for label, first, change, settings in steps():
        for x in PRODUCTS:
            k = (tuple(settings), x)
            if k not in fresh:
                fresh[k] = attempt(chk, cls, [(settings, None)], x)
            warm = [x] if not chk.thorough else PRODUCTS
            for y in warm + ["all"]:
                ys = PRODUCTS if y == "all" else [y]
                got = attempt(chk, cls, [(first, ys), (change, None)], x)
                where_ = "%s, %s, after reading %s" % (
                    x[0], label, "every product" if y == "all" else y[0])
                want = fresh[k]
                if want is None:
                    chk.require(None, rule, where_, "no value")
                elif got is None:
                    chk.require(False, rule, where_,
                                "raises, unlike on a fresh image")
                elif got is want:
                    chk.require(True, rule, where_)
                else:
                    vague = any(z.op in ("unk", "lv")
                                for t in (got, want)
                                for z in tm.subterms(t))
                    chk.require(
                        None if vague else False, rule, where_,
                        "differs from the value on a fresh image: %s"
                        % (first_diff(got, want),))


def attempt(chk, cls, plan, product):
    h = History(chk, cls)
    try:
        for ops, ys in plan:
            h.do(ops, product)
            for y in ys or ():
                h.read(y)
        t = h.read(product)
    except Dead:
        t = None
    chk.done(h.s)
    return t
