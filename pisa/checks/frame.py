"""What an image object is made from (P15-P18).

The constructor is analysed over frames whose pixels are abstract values:
each pixel is a symbol that stands for every value of one class (usable,
below the floor, saturated, not a number, blank), so one frame covers every
image with that layout of classes.
"""

import contextlib
import signal

from .common import *  # noqa
from .. import ext, small

SECONDS = 40            # of processor time for one frame
PASSES = 12             # of healing, until the last hole is filled

GAIN = sym("px", "gain", 0, 0, "num")
FLOOR, FULL = -50, 65000


def px(kind, i, j):
    """Value of pixel (i, j) in electrons (gain applied)."""
    if kind == "zero":
        return tm.ZERO
    return sym("px", kind, i, j, "num")


def facts(op, d):
    """What is known of 0 op d, for d made of one pixel."""
    if op == "isnone":
        return False if d.op == "sym" and d.args[0] == "px" else None
    syms = [x for x in tm.subterms(d) if x.op == "sym"
            and x.args[0] == "px" and x.args[1] != "gain"]
    if op in ("isfinite", "isnan") and not syms and all(
            x.args[0] in ("px", "bkg", "healed") for x in tm.subterms(d)
            if x.op == "sym") and not foreign(d):
        return op == "isfinite"
    if len(syms) != 1:
        return None
    s = syms[0]
    kind = s.args[1]
    if op in ("isfinite", "isnan"):
        if small.dense(d) is not None:
            return None
        if kind == "nan":
            return op == "isnan"
        if kind in ("inf", "ninf"):
            return False
        return op == "isfinite"
    if kind == "nan":
        return False
    k, c = tm.subst(d, {s: tm.ZERO}), None
    if k.op != "num":
        return None
    c = tm.sub(d, k)
    g = tm.div(c, s)
    if g.op != "num":
        # a factor of the (positive) gain does not change the sign
        if k is not tm.ZERO:
            return None
        g = sign_of_gain(g)
        if g is None:
            return None
    k, g = k.args[0], g.args[0]
    # range of the pixel: lo, hi and whether the ends belong to it
    lo, lo_in, hi, hi_in = {
        "ok": (FLOOR, True, FULL, True), "low": (None, False, FLOOR, False),
        "high": (FULL, False, None, False),
        "justlow": (2 * FLOOR, False, FLOOR, False),
        "justhigh": (FULL, False, 2 * FULL, False),
        "inf": (10 ** 30, True, None, False),
        "ninf": (None, False, -10 ** 30, True)}[kind]
    if kind == "ok" and k == 0 and op == "eq":
        return False                  # usable pixels are not blank
    if g < 0:
        lo, lo_in, hi, hi_in = hi, hi_in, lo, lo_in
    a = None if lo is None else k + g * lo      # smallest value of d
    b = None if hi is None else k + g * hi
    if op == "lt":
        if a is not None and (a > 0 or a == 0 and not lo_in):
            return True
        if b is not None and b <= 0:
            return False
    if op == "le":
        if a is not None and a >= 0:
            return True
        if b is not None and (b < 0 or b == 0 and not hi_in):
            return False
    if op == "eq":
        if a is not None and (a > 0 or a == 0 and not lo_in) or \
                b is not None and (b < 0 or b == 0 and not hi_in):
            return False
    return None


def sign_of_gain(g):
    if g.op == "mul" and all(b is GAIN for b in g.args[1::2]):
        return mk("num", g.args[0])
    if g is GAIN:
        return tm.ONE
    return None


class Slow(Exception):
    pass


@contextlib.contextmanager
def limit(seconds):
    """Give up on an analysis that takes too much processor time."""
    def late(*a):
        raise Slow("analysis took over %d s" % seconds)
    old = signal.signal(signal.SIGVTALRM, late)
    signal.setitimer(signal.ITIMER_VIRTUAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, old)


class Facts(object):
    def __enter__(self):
        tm.FACT_HOOK.append(facts)
        small.ON = True

    def __exit__(self, *a):
        tm.FACT_HOOK.remove(facts)
        small.ON = False


# --------------------------------------------------------------- frames

def frame(n, m, spots=()):
    """Classes of the pixels of an n x m frame; spots: {(i, j): class}."""
    f = [["ok"] * m for _ in range(n)]
    for (i, j), k in dict(spots).items():
        f[i][j] = k
    return f


def padded(f, top, bottom, left, right):
    """f surrounded by blank rows and columns."""
    m = left + len(f[0]) + right
    return ([["zero"] * m for _ in range(top)]
            + [["zero"] * left + list(r) + ["zero"] * right for r in f]
            + [["zero"] * m for _ in range(bottom)])


def pixels(f, gain=True):
    """(raw pixel rows, pixel rows with the gain applied)."""
    v = [[px(k, i, j) for j, k in enumerate(r)] for i, r in enumerate(f)]
    if not gain:
        return v, v
    raw = [[tm.div(e, GAIN if gain is True else gain) for e in r]
           for r in v]
    return raw, v


def grid(rows):
    return mk("list", *[mk("list", *r) for r in rows])


def build(chk, f, source, mask=None, header=None, extra=None, scaled=True,
          **kw):
    """Analyse the constructor on one frame."""
    s = chk.session(make_cuts(), {})
    I = s.I
    o = Frame()
    o.session, o.I = s, I
    raw, o.values = pixels(f, scaled)
    t = grid(raw)
    I.kinds[t] = {"ndarray"}
    hdr = {}
    for k, v in (header or {}).items():
        hdr[const(k)] = v
    args = {}
    o.files = {}
    head = I.alloc(Dct(hdr))
    if source == "ndarray":
        args["img"] = I.new(t)
    elif source == "masked":
        args["img"] = I.new(tm.ma(t, grid(extra)))
    elif source in ("hdu", "hdulist", "path"):
        prim = sym("hdu", 0)
        I.kinds[prim] = {"fits.PrimaryHDU"}
        I.vattrs[prim, "data"] = I.new(t)
        I.vattrs[prim, "header"] = head
        I.vattrs[prim, "is_image"] = tm.TRUE
        hs = [prim]
        if extra is not None:
            e = sym("hdu", 1)
            I.kinds[e] = {"fits.ImageHDU"}
            x = grid(extra)
            I.kinds[x] = {"ndarray"}
            I.vattrs[e, "data"] = I.new(x)
            I.vattrs[e, "header"] = I.alloc(Dct({}))
            hs.append(e)
        lst = mk("list", *hs)
        I.kinds[lst] = {"fits.HDUList"}
        if source == "hdu":
            args["img"] = prim
        elif source == "hdulist":
            args["img"] = I.new(lst)
        else:
            p = const("frame.fits")
            args["img"] = p
            o.files[p] = (I.new(t), head, I.new(lst))
    if mask is not None:
        mt = grid(mask[1])
        I.kinds[mt] = {"ndarray"}
        if mask[0] == "path":
            p = const("mask.fits")
            args["mask"] = p
            o.files[p] = (I.new(mt), None, None)
        else:
            args["mask"] = I.new(mt)
    I.fits_files = o.files
    args.update({k: I.wrapsym(v) if isinstance(v, T) else v
                 for k, v in kw.items()})
    c = s.cls("SingleImage")
    o.out = run(I, c, [], args)
    o.where = "properimage/single_image.py (SingleImage)"
    o.raised = {r[1] for r in o.out.raised}
    o.events = o.out.events
    if not o.out.dead:
        o.ref = I.resolve(o.out.value)
        o.field = lambda n: I.getattr(o.ref, n, None)
    chk.done(s)
    return o


class Frame(object):
    pass


def make_cuts():
    def fits(which):
        def cut(I, name, args, kw, node):
            p = I.term(args[0]) if args else None
            I.event("call", name, args, kw, node=node)
            f = I.fits_files.get(p)
            if f is None and p is not None and p.op == "const" and \
                    isinstance(p.args[0], str):
                I.raise_(None, node, "FileNotFoundError")
            if f is None or f[which] is None:
                return NotImplemented
            return f[which]
        return cut

    def background(I, name, args, kw, node):
        I.event("call", "sep.Background", args, kw, node=node)
        d = small.dense(tm.mdata(I.term(args[0]))) if args else None
        if not isinstance(d, list):
            return NotImplemented
        n, m = small.shape(d)
        return I.new(grid([[sym("bkg", i, j, "num") for j in range(m)]
                           for i in range(n)]))

    def back(I, args, kw, node, t):
        return I.new(t)

    cuts = {"ext:sep.Background": background, "method:list.back": back}
    for i, n in enumerate(("getdata", "getheader", "open")):
        cuts["ext:astropy.io.fits." + n] = fits(i)
        cuts["ext:astropy.io.fits.convenience." + n] = fits(i)
    return cuts


def grids_of(o):
    """Final pixel values and mask as nested lists (or None)."""
    d = o.I.term(o.field("data"))
    v = small.dense(tm.mdata(d))
    m = small.dense(o.I.term(o.field("mask")))
    return v, m


# ------------------------------------------------------------ scenarios

BAD = {"low", "high", "nan", "inf", "ninf", "justlow", "justhigh"}
F, Tr = tm.FALSE, tm.TRUE


class Scen(object):
    """One way of making an image, with what must come out of it."""

    def __init__(self, name, f, source="ndarray", borders=False, crop=None,
                 mask=None, extra=None, header=None, flags=None,
                 refused=False, scaled=True, **kw):
        self.scaled = scaled
        self.name, self.f, self.source = name, f, source
        self.borders, self.crop, self.mask = borders, crop, mask
        self.extra, self.header, self.kw = extra, header, kw
        self.flags, self.refused = flags, refused
        rows = range(len(f))
        cols = range(len(f[0]))
        if borders:
            r = [i for i in rows if any(k != "zero" for k in f[i])]
            c = [j for j in cols if any(f[i][j] != "zero" for i in rows)]
            rows = range(r[0], r[-1] + 1)
            cols = range(c[0], c[-1] + 1)
        if crop is not None:
            (a, b), (c, d) = crop
            rows = rows[a:len(rows) - b]
            cols = cols[c:len(cols) - d]
        self.rows, self.cols = rows, cols

    def bad(self, i, j):
        return self.f[i][j] in BAD or bool(
            self.flags and self.flags[i][j])

    def run(self, chk):
        kw = dict(self.kw)
        if self.borders:
            kw["borders"] = Tr
        if self.crop is not None:
            kw["crop"] = VTuple([VTuple([const(x) for x in p])
                                 for p in self.crop])
        hdr = {"GAIN": GAIN} if self.header is None else self.header
        return build(chk, self.f, self.source, self.mask, hdr, self.extra,
                     self.scaled, **kw)


def bools(n, m, spots):
    return [[Tr if (i, j) in spots else F for j in range(m)]
            for i in range(n)]


def nums(flags, off, on):
    return [[const(on) if x else const(off) for x in r] for r in flags]


def marks(n, m, spots):
    return [[(i, j) in spots for j in range(m)] for i in range(n)]


def cut_grid(g, rows, cols):
    return [[g[i][j] for j in cols] for i in rows]


SPOTS = {(1, 2), (3, 5), (4, 5), (4, 6), (5, 0)}


def scenarios():
    S = []
    n, m = 6, 17        # wide: some pixels are far from every bad one
    clean = frame(n, m)
    dirty = frame(n, m, {(1, 1): "nan", (3, 6): "low", (5, 2): "high",
                         (2, 7): "inf", (0, 5): "ninf"})
    fl = marks(n, m, SPOTS)
    g0 = {"gain": GAIN}
    two = const(2)
    edge = frame(n, m, {(1, 1): "justlow", (4, 3): "justhigh"})
    for src in ("ndarray", "path"):
        for kw in ({"gain": two, "header": {}}, {"header": {"GAIN": two}}):
            if src == "path" or "gain" in kw:
                S.append(Scen("%s, just beyond the limits, gain 2 %s" % (
                    src, "given" if "gain" in kw else "of the header"),
                    edge, src, scaled=two, **kw))
    H0, H1 = {"GAIN": GAIN}, {"GAIN": GAIN, "EXTEND": Tr}
    H2 = {"GAIN": GAIN, "EXTEND": F}
    S.append(Scen("array, one side flagged", frame(19, 10), mask=(
        "array", bools(19, 10, [(i, 0) for i in range(19)])),
        flags=marks(19, 10, [(i, 0) for i in range(19)]), **g0))
    S.append(Scen("array, one side saturated", frame(19, 10, {
        (i, 0): "high" for i in range(19)}), **g0))
    for f, fn in ((clean, "clean"), (dirty, "bad pixels")):
        for src in ("ndarray", "hdu", "hdulist", "path"):
            kw = g0 if src == "ndarray" else {}
            S.append(Scen("%s, %s" % (src, fn), f, src, **kw))
        S.append(Scen("masked array, %s" % fn, f, "masked",
                      extra=bools(n, m, SPOTS), flags=fl, **g0))
        S.append(Scen("masked array without flags, %s" % fn, f, "masked",
                      extra=bools(n, m, ()), **g0))
        for src in ("hdulist", "path"):
            S.append(Scen("%s, EXTEND but no extension, %s" % (src, fn), f,
                          src, header=H1))
            S.append(Scen("%s, EXTEND false, %s" % (src, fn), f, src,
                          header=H2))
            # flag images: usually blank, so large values flag
            S.append(Scen("%s, flag extension, %s" % (src, fn), f, src,
                          header=H1, extra=nums(fl, 0, 16), flags=fl))
            S.append(Scen("%s, weight extension, %s" % (src, fn), f, src,
                          header=H1, extra=nums(fl, 100, 16), flags=fl))
            S.append(Scen("%s, flag extension, threshold 1, %s" % (src, fn),
                          f, src, header=H1, extra=nums(fl, 0, 1), flags=fl,
                          maskthresh=const(1)))
            S.append(Scen("%s, extension below threshold, %s" % (src, fn),
                          f, src, header=H1, extra=nums(fl, 0, 15)))
            S.append(Scen("%s, extension not guessed, %s" % (src, fn), f,
                          src, header=H1, extra=nums(fl, 0, 16),
                          guessmask=F))
        for src in ("ndarray", "hdu", "hdulist", "path"):
            kw = g0 if src == "ndarray" else {}
            S.append(Scen("%s, array mask, %s" % (src, fn), f, src,
                          mask=("array", bools(n, m, SPOTS)), flags=fl,
                          **kw))
        S.append(Scen("array, integer mask, %s" % fn, f,
                      mask=("array", nums(fl, 0, 1)), flags=fl, **g0))
        S.append(Scen("array, empty array mask, %s" % fn, f,
                      mask=("array", bools(n, m, ())), **g0))
        for src in ("ndarray", "path"):
            kw = g0 if src == "ndarray" else {}
            S.append(Scen("%s, flag file, %s" % (src, fn), f, src,
                          mask=("path", nums(fl, 0, 16)), flags=fl, **kw))
            S.append(Scen("%s, weight file, %s" % (src, fn), f, src,
                          mask=("path", nums(fl, 100, 16)), flags=fl, **kw))
            S.append(Scen("%s, weight file, threshold 40, %s" % (src, fn),
                          f, src, mask=("path", nums(fl, 41, 40)), flags=fl,
                          maskthresh=const(40), **kw))
            S.append(Scen("%s, weight file, threshold 0, %s" % (src, fn),
                          f, src, mask=("path", nums(fl, 10, 0)), flags=fl,
                          maskthresh=tm.ZERO, **kw))
        S.append(Scen("array, no guess, %s" % fn, f, guessmask=F, **g0))
    return S


def gain_scenarios():
    """Given gain first, then the header's, then one."""
    S = []
    f = frame(6, 7, {(2, 3): "nan"})
    for src in ("ndarray", "masked", "hdu", "hdulist", "path"):
        x = {"extra": bools(6, 7, ())} if src == "masked" else {}
        S.append(Scen("%s, gain given" % src, f, src, gain=GAIN, header={},
                      **x))
        S.append(Scen("%s, no gain" % src, f, src, header={}, scaled=False,
                      **x))
        if src not in ("ndarray", "masked"):
            S.append(Scen("%s, gain given and in the header" % src, f, src,
                          gain=GAIN, header={"GAIN": const(3)}, **x))
            S.append(Scen("%s, gain of the header" % src, f, src, **x))
            S.append(Scen("%s, gain of the header, array mask" % src, f,
                          src, mask=("array", bools(6, 7, {(1, 1)})),
                          flags=marks(6, 7, {(1, 1)}), **x))
    return S


def window_scenarios():
    S = []
    g0 = {"gain": GAIN}
    H1 = {"GAIN": GAIN, "EXTEND": Tr}
    core = frame(7, 8, {(2, 3): "nan", (5, 1): "zero"})
    pads = [(2, 1, 1, 3), (0, 2, 0, 0), (1, 0, 0, 2), (0, 0, 3, 1),
            (0, 0, 0, 0)]
    crops = [((1, 2), (0, 1)), ((0, 1), (2, 0)), ((2, 0), (0, 0)),
             ((0, 0), (0, 3))]
    for p in pads:
        S.append(("blank frame %s" % (p,), padded(core, *p), True, None))
        for c in crops[:2]:
            S.append(("blank frame %s, crop %s" % (p, c),
                      padded(core, *p), True, c))
    for c in crops:
        S.append(("crop %s" % (c,), core, False, c))
    S.append(("blank frame kept", padded(core, 1, 2, 2, 1), False, None))
    S.append(("blank frame kept, cropped", padded(core, 1, 2, 2, 1), False,
              crops[0]))
    out = []
    for name, f, b, c in S:
        n, m = len(f), len(f[0])
        sp = {(1, 1), (n - 3, m - 2), (n - 1, 0), (2, m - 1)}
        fl = marks(n, m, sp)
        kw = dict(borders=b, crop=c)
        out.append(Scen("array, " + name, f, **kw, **g0))
        out.append(Scen("array, flag array, " + name, f, flags=fl,
                        mask=("array", bools(n, m, sp)), **kw, **g0))
        x = Scen("", f, **kw)
        if (len(x.rows), len(x.cols)) != (n, m):
            out.append(Scen("array, flag array of the kept pixels, " + name,
                            f, flags=fl, mask=("array", cut_grid(
                                bools(n, m, sp), x.rows, x.cols)),
                            **kw, **g0))
        out.append(Scen("array, flag file, " + name, f, flags=fl,
                        mask=("path", nums(fl, 0, 16)), **kw, **g0))
        out.append(Scen("masked array, " + name, f, "masked",
                        extra=bools(n, m, sp), flags=fl, **kw, **g0))
        for src in ("hdulist", "path"):
            out.append(Scen("%s, flag extension, %s" % (src, name), f, src,
                            header=H1, extra=nums(fl, 0, 16), flags=fl,
                            **kw))
        out.append(Scen("primary HDU, " + name, f, "hdu", **kw))
        for k, (p, q) in enumerate(((n - 1, m), (n, m - 2))):
            if (p, q) == (len(x.rows), len(x.cols)):
                continue
            out.append(Scen("array, %dx%d flag array, %s" % (p, q, name),
                            f, mask=("array", bools(p, q, ())),
                            refused=True, **kw, **g0))
            out.append(Scen("path, %dx%d flag extension, %s"
                            % (p, q, name), f, "path", header=H1,
                            extra=nums(marks(p, q, ()), 0, 16),
                            refused=True, **kw))
    return out


REACH = 7


def far(sc, bad, i, j):
    return all(max(abs(i - a), abs(j - b)) > REACH for a, b in bad)


def same_pixels(chk, sc, o, v, m):
    """Usable pixels are the source's pixels times the gain."""
    key = "pixels|" + sc.name
    n, k = len(sc.rows), len(sc.cols)
    if v is None or m is None:
        return chk.require(None, "pixels", o.where, sc.name, key)
    if small.shape(v) != (n, k):
        return chk.require(False, "pixels", o.where, "%s: %s pixels kept, "
                           "expected %s" % (sc.name, small.shape(v),
                                            (n, k)), key)
    worst, why = True, ""
    for a, i in enumerate(sc.rows):
        for b, j in enumerate(sc.cols):
            if sc.bad(i, j) or m[a][b] is Tr:
                continue
            want = o.values[i][j]
            if v[a][b] is want:
                continue
            loose = foreign(v[a][b])
            why = "%s: pixel (%d, %d) is %s, expected %s" % (
                sc.name, a, b, tm.show(v[a][b])[:300], tm.show(want))
            worst = None if loose else False
            break
        if worst is not True:
            break
    return chk.require(worst, "pixels", o.where, why, key)


def flagged(chk, sc, o, m):
    """Every bad pixel is flagged; nothing far from one is."""
    key = "flags|" + sc.name
    n, k = len(sc.rows), len(sc.cols)
    if m is None or any(e not in (Tr, F, tm.ONE, tm.ZERO)
                        for e in small.flat(m)):
        return chk.require(None, "flags", o.where, "%s: %s" % (
            sc.name, m and [tm.show(e)[:100] for e in [
                e for e in small.flat(m) if e not in (
                    Tr, F, tm.ONE, tm.ZERO)][:2]]), key)
    if small.shape(m) != (n, k):
        return chk.require(False, "flags", o.where, "%s: mask of %s pixels "
                           "on an image of %s" % (
                               sc.name, small.shape(m), (n, k)), key)
    bad = [(a, b) for a, i in enumerate(sc.rows)
           for b, j in enumerate(sc.cols) if sc.bad(i, j)]
    miss = [p for p in bad if m[p[0]][p[1]] not in (Tr, tm.ONE)]
    extra = [(a, b) for a in range(n) for b in range(k)
             if m[a][b] in (Tr, tm.ONE) and far(sc, bad, a, b)]
    why = ""
    if miss:
        why = "%s: bad pixels %s not flagged" % (sc.name, miss[:4])
    elif extra:
        why = "%s: good pixels %s flagged" % (sc.name, extra[:4])
    return chk.require(not why, "flags", o.where, why, key)


def outcome(chk, sc, rule):
    """Run one scenario; None unless an image comes out as it should."""
    key = "%s|%s" % (rule, sc.name)
    try:
        if chk.counts.get("frames too slow", 0) > 2:
            raise Slow("earlier frames took too long")
        with limit(SECONDS):
            o = sc.run(chk)
    except (small.Bad, Slow) as e:
        if isinstance(e, Slow):
            chk.count("frames too slow")
        chk.require(None, rule, "constructor", "%s: %s" % (sc.name, e), key)
        return None
    chk.count("frames")
    if sc.refused:
        ok = o.out.dead and "ValueError" in o.raised
        chk.require(ok, rule, o.where, "%s: a mask of another size is "
                    "accepted" % sc.name if not o.out.dead else
                    "%s: raises %s" % (sc.name, sorted(map(str, o.raised))),
                    key)
        return None
    if o.out.dead:
        chk.require(False, rule, o.where, "%s: raises %s" % (
            sc.name, sorted(map(str, o.raised))), key)
        return None
    return o


def check_pixels(chk):
    with Facts():
        for sc in gain_scenarios() + scenarios():
            o = outcome(chk, sc, "pixels")
            if o is not None:
                same_pixels(chk, sc, o, *grids_of(o))


def check_flags(chk):
    with Facts():
        for sc in scenarios():
            o = outcome(chk, sc, "flags")
            if o is not None:
                flagged(chk, sc, o, grids_of(o)[1])


def check_window(chk):
    with Facts():
        for sc in window_scenarios():
            o = outcome(chk, sc, "window")
            if o is None:
                continue
            v, m = grids_of(o)
            same_pixels(chk, sc, o, v, m)
            flagged(chk, sc, o, m)


# --------------------------------------------------- where flags are heeded

def use_cuts(I, log, cosmic):
    """Stand-ins for cosmic-ray detection and interpolation."""
    def rays(I, name, args, kw, node):
        I.event("call", name, args, kw, node=node)
        return VTuple([I.new(cosmic), I.unk("cleaned image")])

    last = []

    def heal(I, name, args, kw, node):
        I.event("call", name, args, kw, node=node)
        t = I.term(args[0])
        d = small.dense(t)
        log.append(d)
        if not isinstance(d, list):
            return NotImplemented
        holes = [(i, j) for i, r in enumerate(d) for j, e in enumerate(r)
                 if e is tm.NAN]
        # one hole takes many passes, as one inside a wide gap does
        if len(log) == 1:
            last[:] = holes[-1:]
        keep = last if len(log) < PASSES else []
        return I.new(grid([[sym("healed", i, j, "num") if e is tm.NAN and (
            i, j) not in keep else e for j, e in enumerate(r)]
            for i, r in enumerate(d)]))

    for n in ("astroscrappy.detect_cosmics",
              "astroscrappy.astroscrappy.detect_cosmics"):
        I.cuts["ext:" + n] = rays
    for n in ("astropy.convolution.interpolate_replace_nans",
              "astropy.convolution.convolve.interpolate_replace_nans"):
        I.cuts["ext:" + n] = heal


def masked_arg(I, e, name, pos):
    v = e.kw.get(name)
    if v is None and pos is not None and pos < len(e.args):
        v = e.args[pos]
    if v is None or v is tm.NONE:
        return None
    d = small.dense(v)
    return d if isinstance(d, list) else v


def flags_passed(chk, o, e, what, v, m, mask, key):
    """A library call on pixels is told of every flagged one."""
    w = e.where()
    flagged = [[x in (Tr, tm.ONE) for x in r] for r in m]
    if mask is None:
        ok = not any(map(any, flagged))
        return chk.require(ok, what, w, "%s: flagged pixels used: no mask "
                           "is passed" % o.name, key)
    if not isinstance(mask, list) or any(
            x not in (Tr, F, tm.ONE, tm.ZERO) for x in small.flat(mask)):
        return chk.require(None, what, w, "%s: mask %s" % (
            o.name, str(mask)[:300]), key)
    if small.shape(mask) != small.shape(m):
        return chk.require(False, what, w, o.name + ": mask of another "
                           "size", key)
    miss = [(i, j) for i, r in enumerate(flagged) for j, x in enumerate(r)
            if x and mask[i][j] not in (Tr, tm.ONE)]
    more = [(i, j) for i, r in enumerate(flagged) for j, x in enumerate(r)
            if not x and mask[i][j] not in (F, tm.ZERO)]
    return chk.require(not miss and not more, what, w,
                       "%s: flagged pixels used %s; good pixels left out %s"
                       % (o.name, miss[:3], more[:3]), key)


def check_use(chk):
    """Flagged pixels reach no measurement."""
    with Facts():
        for sc in use_scenarios():
            o = outcome(chk, sc, "use")
            if o is None:
                continue
            o.name = sc.name
            use_of(chk, sc, o)


def use_scenarios():
    n, m = 9, 8
    clean = frame(n, m)
    dirty = frame(n, m, {(1, 1): "nan", (3, 6): "low", (6, 2): "high",
                         (8, 7): "inf"})
    fl = marks(n, m, SPOTS)
    g0 = {"gain": GAIN}
    return [
        Scen("clean frame", clean, **g0),
        Scen("bad pixels", dirty, **g0),
        Scen("bad pixels, array mask", dirty, flags=fl,
             mask=("array", bools(n, m, SPOTS)), **g0),
        Scen("array mask", clean, flags=fl,
             mask=("array", bools(n, m, SPOTS)), **g0),
        Scen("bad pixels, threshold given", dirty, maskthresh=const(3),
             **g0),
        Scen("file, flag extension", dirty, "path",
             header={"GAIN": GAIN, "EXTEND": Tr}, extra=nums(fl, 0, 16),
             flags=fl),
        Scen("flag file", clean, flags=fl, mask=("path", nums(fl, 0, 16)),
             **g0),
    ]


def use_of(chk, sc, o):
    I = o.I
    v, m = grids_of(o)
    if v is None or m is None or any(
            x not in (Tr, F, tm.ONE, tm.ZERO) for x in small.flat(m)):
        chk.require(None, "use", o.where, "%s: pixels" % sc.name,
                    "use|" + sc.name)
        return
    n = k = 0
    for e in o.events:
        if e.kind != "call":
            continue
        if e.name == "sep.Background":
            n += 1
            flags_passed(chk, o, e, "background", v, m, masked_arg(
                I, e, "mask", 1), "background|%s|%d" % (sc.name, n))
            d = small.dense(tm.mdata(e.args[0]))
            bad = [(i, j) for i, r in enumerate(m) for j, x in enumerate(r)
                   if x in (F, tm.ZERO) and d[i][j] is not v[i][j]]
            chk.require(not bad, "background pixels", e.where(),
                        "%s: pixels %s are not the image's" % (
                            sc.name, bad[:3]),
                        "background pixels|%s|%d" % (sc.name, n))
        elif e.name in ("sep.extract",):
            k += 1
            flags_passed(chk, o, e, "detection", v, m, masked_arg(
                I, e, "mask", None), "detection|%s|%d" % (sc.name, k))
            sky_removed(chk, o, e.args[0], "detection pixels", e.where(),
                        v, m, "detection pixels|%s|%d" % (sc.name, k), True)
    chk.require(n > 0, "background", o.where, "%s: no background estimated"
                % sc.name, "background|" + sc.name)
    chk.require(k > 0 or None, "detection", o.where, "no detection",
                "detection|" + sc.name)
    chk.count("estimates", n + k)
    # the interpolated image
    for cn, spots in (("no cosmic ray", set()),
                      ("cosmic rays", {(0, 6), (5, 3)})):
        healed(chk, sc, o, v, m, spots, cn)


def sky_removed(chk, o, t, rule, where, v, m, key, free):
    """t is the image minus the background at every unflagged pixel."""
    d = small.dense(tm.mdata(t))
    if not isinstance(d, list) or small.shape(d) != small.shape(v):
        return chk.require(None, rule, where, o.name + ": " +
                           tm.show(t)[:200], key)
    for i, r in enumerate(v):
        for j, x in enumerate(r):
            if m[i][j] in (Tr, tm.ONE):
                continue
            want = tm.sub(x, sym("bkg", i, j, "num"))
            if d[i][j] is not want:
                return chk.require(
                    None if foreign(d[i][j]) else False, rule, where,
                    "%s: pixel %s is %s" % (o.name, (i, j),
                                            tm.show(d[i][j])[:200]), key)
    return chk.require(True, rule, where, "", key)


def healed(chk, sc, o, v, m, spots, cn):
    I = o.I
    n, k = small.shape(v)
    log = []
    use_cuts(I, log, grid(bools(n, k, spots)))
    saved = I.st
    I.st = I.st.copy()
    mark = len(I.events)
    r = run(I, Ext("getattr"), [o.ref, const("interped")])
    key = "%s|%s, %s" % ("interpolated", sc.name, cn)
    w = o.where
    if r.dead:
        chk.require(False, "interpolated", w, "%s: raises" % sc.name, key)
        I.st = saved
        return
    t = I.term(r.value)
    d = small.dense(t)
    m2 = small.dense(I.term(o.field("mask")))
    I.st = saved
    chk.require(None if m2 is None else m2 == m, "flags kept", w,
                "%s, %s: interpolating changes the image's mask" % (
                    sc.name, cn), "flags kept|%s, %s" % (sc.name, cn))
    holes = {(i, j) for i, row in enumerate(m) for j, x in enumerate(row)
             if x in (Tr, tm.ONE)} | spots
    if holes and (not log or not isinstance(log[0], list)):
        chk.require(None, "interpolated", w, "%s, %s: input %s" % (
            sc.name, cn, tm.show(t)[:300]), key)
        return
    if not isinstance(d, list) or small.shape(d) != (n, k):
        chk.require(None, "interpolated", w, "%s, %s: %s" % (
            sc.name, cn, tm.show(t)[:300]), key)
        return
    for i in range(n):
        for j in range(k):
            x = d[i][j]
            if (i, j) in holes:
                if x is sym("healed", i, j, "num"):
                    continue
                why = "flagged pixel %s is %s" % ((i, j), tm.show(x)[:200])
            else:
                if x is tm.sub(v[i][j], sym("bkg", i, j, "num")):
                    continue
                why = "good pixel %s is %s" % ((i, j), tm.show(x)[:200])
            chk.require(None if foreign(x) else False, "interpolated", w,
                        "%s, %s: %s" % (sc.name, cn, why), key)
            return
    for x in log:
        if not isinstance(x, list):
            continue
        seen = [(i, j) for i, j in holes if x[i][j] is not tm.NAN and
                x[i][j] is not sym("healed", i, j, "num")]
        if seen:
            chk.require(None if any(foreign(x[i][j]) for i, j in seen)
                        else False, "interpolated", w,
                        "%s, %s: flagged pixels %s used to fill others"
                        % (sc.name, cn, sorted(seen)[:3]), key)
            return
    chk.require(True, "interpolated", w, "", key)
    chk.count("interpolations")
