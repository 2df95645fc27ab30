"""Storing images, picking detections, deprecated names (P25, P26, P32)."""

from fractions import Fraction

from .common import *  # noqa
from .. import arrays, ext, small


# ------------------------------------------------------------------- P25

PRIMARY = ("astropy.io.fits.PrimaryHDU", "astropy.io.fits.hdu.PrimaryHDU")
IMAGE = ("astropy.io.fits.ImageHDU", "astropy.io.fits.hdu.ImageHDU")
LISTS = ("astropy.io.fits.HDUList", "astropy.io.fits.hdu.HDUList")
INTS = ("int64", "int", "int32", "uint8", "int16", "uint16", "int8")


def unwith(t):
    """t without attributes stored on it, and those attributes."""
    d = {}
    while t.op == "with":
        d[t.args[1]] = t.args[2]
        t = t.args[0]
    return t, d


def hdu_of(t):
    """(class, payload, stored attributes) of a header-data unit."""
    t, d = unwith(t)
    if t.op != "call":
        return None
    pos, kw = small.kws(t)
    pay = pos[0] if pos else kw.get("data")
    for kind, names in (("primary", PRIMARY), ("image", IMAGE)):
        if t.args[0] in names:
            return kind, pay, d, kw
    return None


def units(t):
    """HDUs of a stored image, first to last, or None."""
    b, _ = unwith(t)
    if b.op == "call" and b.args[0] in LISTS:
        pos, kw = small.kws(b)
        x = pos[0] if pos else kw.get("hdus")
        if x is None or x.op not in ("list", "tuple"):
            return None
        us = [hdu_of(a) for a in x.args]
    else:
        us = [hdu_of(t)]
    return None if None in us else us


def plain(t, kinds):
    while t is not None:
        if t.op == "astype" and str(t.args[1].args[0]) in kinds:
            t = t.args[0]
        elif t.op == "ite" and t.args[1] is tm.ONE and \
                t.args[2] is tm.ZERO:
            t = t.args[0]
        elif t.op in ("copy", "asarray", "array") or (
                t.op == "call" and t.args[0] in (
                    "numpy.ascontiguousarray", "numpy.array",
                    "numpy.asarray") and len(t.args) == 2):
            t = t.args[0] if t.op != "call" else t.args[1]
        elif t.op in ("add", "mul") and "float32" in kinds:
            # a conversion of the pixels distributes over them
            u = tm.rewrite(t, lambda x: x.args[0] if x.op == "astype" and
                           str(x.args[1].args[0]) in kinds else None)
            if u is t:
                return t
            t = u
        else:
            return t
    return t


def check_store(chk):
    tm.FACT_HOOK.append(complex_facts)
    try:
        for masked in ("no", "mask", "unset mask"):
            for cplx in (False, True):
                for dest in ("path", "none", "default"):
                    for dt in (("complex128", "complex64") if cplx else
                               ("float64", "float32", "int16")):
                        store_case(chk, masked, cplx, dest, dt)
    finally:
        tm.FACT_HOOK.remove(complex_facts)


def of_type(name):
    """Conditions on the type of the pixels when it is `name`."""
    kind, size = name[0], int(name.lstrip("complexfloatint")) // 8
    up = {"c": ("complexfloating", "inexact"), "f": ("floating", "inexact"),
          "i": ("integer", "signedinteger")}[kind] + (
        "number", "generic")

    def is_type(t):
        return t.op == "attr" and t.args[1] == "dtype" or t.op == "dtype"

    def same(o):
        if o.op == "attr" or o.op not in ("ext", "const", "call"):
            return None
        if o.op == "call" and o.args[0] == "numpy.dtype":
            o = o.args[1]
        n = str(o.args[0]).rpartition(".")[2].lstrip("<>=")
        return n in (name, "%s%d" % (kind, size)) or n == {
            "complex128": "complex", "float64": "float", "int64": "int"
        }.get(name)

    def value(t):
        if t.op == "attr" and t.args[1] in ("kind", "itemsize", "name",
                                            "char") and is_type(t.args[0]):
            return {"kind": const(kind), "itemsize": const(size),
                    "name": const(name)}.get(t.args[1])
        return t if t.op in ("const", "num") else None

    def known(I, c):
        if c.op == "not":
            v = known(I, c.args[0])
            return None if v is None else not v
        if c.op in ("and", "or"):
            vs = [known(I, a) for a in c.args]
            if (c.op == "or") in vs:
                return c.op == "or"
            return None if None in vs else c.op == "and"
        if c.op == "eq" and c.args[0].op == "add":
            a = [t for t in tm.subterms(c.args[0]) if is_type(t)]
            o = [t for t in tm.subterms(c.args[0]) if t.op in (
                "ext", "call") and not is_type(t) and not any(
                    tm.contains(y, lambda z: z is t) for y in a)]
            return same(o[0]) if len(a) == len(o) == 1 else None
        if c.op in ("eq2", "eq", "is") and len(c.args) == 2:
            a, b = c.args
            if is_type(b):
                a, b = b, a
            if is_type(a):
                return same(b)
            x, y = value(a), value(b)
            return None if x is None or y is None else x is y
        if c.op == "in" and len(c.args) == 2 and c.args[1].op == "const":
            x = value(c.args[0])
            return None if x is None else str(x.args[0]) in str(
                c.args[1].args[0])
        if c.op == "call" and c.args[0] == "numpy.issubdtype" and \
                is_type(c.args[1]):
            n = str(c.args[2].args[0]).rpartition(".")[2]
            return n in up or same(c.args[2])
        return None
    return known


def complex_facts(op, t):
    if op == "iscomplex":
        return any(x is tm.I for x in tm.subterms(t))


def full_mask(I, name, args, kw, node):
    """The mask as an image, also where none was set."""
    m = tm.mmask(I.term(args[0]))
    if m is tm.FALSE:
        m = mk("call", "numpy.zeros_like", tm.mdata(I.term(args[0])))
    return I.new(m)


FULL = {"ext:numpy.ma.getmaskarray": full_mask,
        "ext:numpy.ma.core.getmaskarray": full_mask,
        "ext:ma.getmaskarray": full_mask}


def store_case(chk, masked, cplx, dest, dt):
    s = chk.session(dict(FULL), {"known": of_type(dt)})
    I = s.I
    f = s.function("utils", "store_img")
    w = where(f)
    re, im = sym("pixels", "re"), sym("pixels", "im")
    v = tm.add(re, tm.mul(tm.I, im)) if cplx else re
    t = v
    m = sym("flags")
    for x in (re, im):
        I.kinds[x] = {"ndarray"}
    if masked != "no":
        t = tm.ma(v, m if masked == "mask" else tm.FALSE)
    else:
        I.kinds[t] = {"ndarray"}
    path = const("out.fits")
    kw = {} if dest == "default" else {
        "path": path if dest == "path" else tm.NONE}
    tag = "%s|%s|%s" % (masked, dt, dest)
    img = I.new(t)
    o = run(I, f, [img], kw)
    chk.done(s)
    chk.count("cases")
    if o.dead:
        chk.require(False, "stored", w, "%s: raises %s" % (
            tag, sorted({str(r[1]) for r in o.raised})), "stored|" + tag)
        return
    writes = [e for e in o.events if e.kind == "call" and (
        e.name.endswith("writeto") or e.name in ("open", "numpy.save"))]
    if dest == "path":
        if len(writes) != 1:
            chk.require(False, "stored", w, "%s: %d files written" % (
                tag, len(writes)), "stored|" + tag)
            return
        e = writes[0]
        obj = I.term(e.args[0])
        to = e.args[1] if len(e.args) > 1 else e.kw.get(
            "fileobj", e.kw.get("name"))
        ok = e.name == ".writeto" and not e.pc
        chk.require(None if not ok else to is path, "destination", w,
                    "%s: written to %s" % (tag, to and tm.show(to)[:200]),
                    "destination|" + tag)
        chk.require(e.kw.get("overwrite") is tm.TRUE or (
            len(e.args) > 3 and e.args[3] is tm.TRUE), "replaces", w,
            "%s: an existing file is not replaced" % tag, "replaces|" + tag)
    else:
        chk.require(not writes, "destination", w, "%s: a file is written"
                    % tag, "destination|" + tag)
        obj = I.term(o.value)
    us = units(obj)
    if us is None:
        chk.require(None, "stored", w, "%s: %s" % (tag, tm.show(obj)[:300]),
                    "stored|" + tag)
        return
    kinds = ["primary"] if masked == "no" else ["primary", "image"]
    if [u[0] for u in us] != kinds:
        chk.require(False, "stored", w, "%s: units %s, expected %s" % (
            tag, [u[0] for u in us], kinds), "stored|" + tag)
        return
    for e in o.events:
        if e.kind == "call" and e.name == ".scale" and e.args:
            h = hdu_of(I.term(e.args[0]))
            to = e.kw.get("type", e.args[1] if len(e.args) > 1 else None)
            to = tm.NONE if to is None else I.term(to)
            if h is not None and h[0] == "primary" and to is not tm.NONE:
                n = str(to.args[0]).rpartition(".")[2]
                chk.require(False if "int" in n or n == "float16" else True
                            if n in ("float32", "float64") else None,
                            "stored pixels", w, "%s: pixels scaled to %s" % (
                                tag, n), "scaled|" + tag)
    pix = plain(us[0][1], ("float32", "float64"))
    equal(chk, pix, re, "stored pixels", w + " " + tag,
          key="stored pixels|" + tag)
    if masked == "no":
        return
    flags = plain(us[1][1], INTS)
    if masked == "mask":
        equal(chk, flags, m, "stored flags", w + " " + tag,
              key="stored flags|" + tag)
    else:
        ok = ext.strip_shape(flags).op in ("zeros",) or flags.op in (
            "zeros",) or is_blank(flags)
        chk.require(True if ok else False if flags in (
            tm.FALSE, tm.ZERO) else None, "stored flags", w,
            "%s: %s is no image" % (tag, tm.show(flags)[:200]),
            "stored flags|" + tag)
    hdr = us[1][2].get("header")
    chk.require(hdr is not None and any(
        x.op == "setitem" and x.args[1] is const("IMG_TYPE")
        and x.args[2] is const("BAD_PIXEL_MASK") or x.op == "dict" and
        const("BAD_PIXEL_MASK") in x.args
        for x in tm.subterms(hdr)) or any(
            const("BAD_PIXEL_MASK") in tm.subterms(k)
            for k in us[1][3].values()) or (None if any(
                x.op == "const" and "BAD_PIXEL" in str(x.args[0])
                for e in o.events for y in list(e.args) + list(
                    e.kw.values()) for x in tm.subterms(y)) else False),
        "flags labelled", w, "%s: the extension does not say it is a bad "
        "pixel mask" % tag, "flags labelled|" + tag)


def is_blank(t):
    return t.op == "call" and t.args[0] in (
        "numpy.zeros_like", "numpy.zeros") or t.op == "full" and \
        t.args[1] in (tm.FALSE, tm.ZERO)


# ------------------------------------------------------------------- P26

MEAN, MED, STD = Fraction(30), Fraction(31), Fraction(3, 2)


def signal(z):
    return const(level(z))


def level(z):
    return MEAN + STD * z


EPS = Fraction(1, 10 ** 12)


def peak_cuts(log):
    def stats(I, name, args, kw, node):
        I.event("call", name, args, kw, node=node)
        log.append(("stats", args[0]))
        return VTuple([const(MEAN), const(MED), const(STD)])

    def label(I, name, args, kw, node):
        d = small.dense(tm.mdata(I.term(args[0])))
        I.event("call", name, args, kw, node=node)
        st = kw.get("structure", args[1] if len(args) > 1 else None)
        corners = connected(None if st is None else I.term(st))
        if not isinstance(d, list) or len(args) > 2 or corners is None or \
                set(kw) - {"output", "structure"} or any(
                    tm.truth(x) is None for x in small.flat(d)):
            return NotImplemented
        lab, k = components(d, corners)
        return VTuple([I.new(mk("list", *[mk("list", *map(const, r))
                                          for r in lab])), const(k)])

    def groups(I, name, args, kw, node):
        """Value and place of the pixels of every label asked for."""
        ts = [I.term(a) for a in args]
        d = dict(zip(("input", "labels", "index"), ts))
        d.update({k: I.term(v) for k, v in kw.items()})
        I.event("call", name, args, kw, node=node)
        v, lab = small.dense(tm.mdata(d["input"])), small.dense(
            d.get("labels", tm.NONE))
        ix = d.get("index", tm.NONE)
        one = ix.op == "num"
        ix = [ix] if one else small.dense(ix)
        if not all(isinstance(x, list) for x in (v, lab, ix)):
            return None, one
        out = []
        for n in ix:
            px = [(number(v[i][j]), i, j) for i, r in enumerate(lab)
                  for j, e in enumerate(r) if e is n]
            if not px or any(x[0] is None for x in px):
                return None, one
            out.append(px)
        return out, one

    def place(f):
        def cut(I, name, args, kw, node):
            gs, one = groups(I, name, args, kw, node)
            ps = gs and [f(px) for px in gs]
            if gs is None or None in ps:
                return NotImplemented
            ps = [mk("tuple", const(i), const(j)) for i, j in ps]
            return I.new(ps[0] if one else mk("list", *ps))
        return cut

    def centre(px):
        # centroids as computed: rounding puts them a hair off
        s = sum(v for v, _, _ in px)
        return s and (sum(v * i for v, i, _ in px) / s - EPS,
                      sum(v * j for v, _, j in px) / s - EPS) or None

    def extreme(pick):
        return lambda px: next((i, j) for v, i, j in px if v == pick(
            x[0] for x in px))
    com = place(centre)

    cuts = {"ext:astropy.stats.sigma_clipped_stats": stats,
            "ext:astropy.stats.sigma_clipping.sigma_clipped_stats": stats}
    for m in ("scipy.ndimage.", "scipy.ndimage.measurements."):
        cuts["ext:" + m + "label"] = label
        cuts["ext:" + m + "center_of_mass"] = com
        cuts["ext:" + m + "maximum_position"] = place(extreme(max))
        cuts["ext:" + m + "minimum_position"] = place(extreme(min))
    cuts["ext:center_of_mass"] = com
    return cuts


def number(t):
    if t in (tm.TRUE, tm.FALSE):
        return Fraction(t is tm.TRUE)
    return t.args[0] if t.op == "num" else None


def connected(t):
    """Whether pixels touching at a corner belong together."""
    if t is None or t is tm.NONE:
        return False
    if t.op == "call" and t.args[0].endswith("generate_binary_structure"):
        return {1: False, 2: True}.get(arrays.intval(t.args[-1]))
    d = small.dense(t)
    if isinstance(d, list) and small.shape(d) == (3, 3):
        v = [tm.truth(x) for x in small.flat(d)]
        return {(True,) * 9: True, (False, True) * 4 + (False,): None,
                (False, True, False, True, True, True, False, True, False):
                False}.get(tuple(v))
    return None


def components(d, corners=False):
    n, m = small.shape(d)
    lab = [[0] * m for _ in range(n)]
    near = [(1, 0), (-1, 0), (0, 1), (0, -1)] + [
        (1, 1), (1, -1), (-1, 1), (-1, -1)] * corners
    k = 0
    for i in range(n):
        for j in range(m):
            if tm.truth(d[i][j]) and not lab[i][j]:
                k += 1
                todo = [(i, j)]
                while todo:
                    a, b = todo.pop()
                    if 0 <= a < n and 0 <= b < m and not lab[a][b] and \
                            tm.truth(d[a][b]):
                        lab[a][b] = k
                        todo += [(a + p, b + q) for p, q in near]
    return lab, k


# (rows x columns, {pixel: significance}, threshold or None, masked pixels)
SKIES = [
    ("nothing above", (6, 9), {(1, 2): 4, (4, 7): 3}, 5, ()),
    ("one pixel", (6, 9), {(1, 7): 30}, 5, ()),
    ("one pixel below the diagonal", (9, 6), {(7, 1): 30}, 5, ()),
    ("three pixels", (7, 9), {(0, 0): 12, (3, 8): 9, (6, 4): 40}, 5, ()),
    ("negative dip", (7, 9), {(2, 5): -30, (5, 1): 20}, 5, ()),
    ("row of three", (7, 9), {(2, 3): 8, (2, 4): 11, (2, 5): 7}, 5, ()),
    ("column of three", (9, 7), {(3, 2): 8, (4, 2): 11, (5, 2): 7}, 5, ()),
    ("two rows apart", (7, 9), {(1, 1): 8, (1, 2): 9, (5, 6): 7, (5, 7): 10},
     5, ()),
    ("around the usual threshold", (7, 9),
     {(1, 7): Fraction(12, 5), (5, 2): Fraction(13, 5)}, None, ()),
    ("threshold as given", (7, 9), {(1, 7): 3, (5, 2): 9}, 8, ()),
    ("flagged peaks", (7, 9), {(1, 7): 30, (5, 2): 9, (3, 3): 12}, 5,
     {(1, 7), (3, 3)}),
    ("exactly at the threshold", (7, 9), {(1, 7): 5, (5, 2): 6}, 5, ()),
    ("exactly at the usual threshold", (7, 9),
     {(1, 7): Fraction(5, 2), (5, 2): 6}, None, ()),
    ("corners touch", (7, 9), {(2, 3): 40, (3, 4): 20, (4, 5): 60}, 5, ()),
    ("uneven row", (7, 9), {(2, 3): 80, (2, 4): 7, (2, 5): 7, (2, 6): 9}, 5,
     ()),
    ("uneven block", (9, 7), {(3, 2): 90, (4, 2): 6, (5, 2): 8, (3, 3): 7,
                              (4, 3): 9, (5, 3): 11}, 5, ()),
    ("block with flagged pixel", (9, 7),
     {(3, 2): 90, (4, 2): 6, (5, 2): 8, (3, 3): 70, (4, 3): 9, (5, 3): 11},
     5, {(3, 3)}),
    ("everything lower than the sky", (5, 6), {(2, 2): -4}, -3, ()),
]


def check_peaks(chk):
    small.ON = True
    try:
        for sky in SKIES:
            peak_case(chk, *sky)
    finally:
        small.ON = False


def peak_case(chk, name, size, spots, thr, flags):
    log = []
    s = chk.session(peak_cuts(log), {})
    I = s.I
    f = s.function("utils", "find_S_local_maxima")
    w = where(f)
    n, m = size
    z = [[spots.get((i, j), 0) for j in range(m)] for i in range(n)]
    t = mk("list", *[mk("list", *[signal(e) for e in r]) for r in z])
    if flags:
        t = tm.ma(t, mk("list", *[mk("list", *[
            const((i, j) in flags) for j in range(m)]) for i in range(n)]))
    else:
        I.kinds[t] = {"ndarray"}
    kw = {} if thr is None else {"threshold": const(thr)}
    key = "detections|" + name
    o = run(I, f, [I.new(t)], kw)
    chk.done(s)
    chk.count("skies")
    if o.dead:
        chk.require(False, "detections", w, "%s: raises %s" % (
            name, sorted({str(r[1]) for r in o.raised})), key)
        return
    items = I.iterate(I.resolve(o.value))
    rows = None
    if items is not None:
        rows = []
        for x in items:
            r = I.iterate(I.resolve(x))
            rows.append([I.term(y) for y in r] if r is not None else None)
    if rows is None or any(r is None for r in rows):
        chk.require(None, "detections", w, "%s: %s" % (
            name, tm.show(I.term(o.value))[:300]), key)
        return
    lim = Fraction(5, 2) if thr is None else thr
    up = [[const(z[i][j] > lim and (i, j) not in flags) for j in range(m)]
          for i in range(n)]
    lab, k = components(up)
    blobs = [[(i, j) for i in range(n) for j in range(m)
              if lab[i][j] == b + 1] for b in range(k)]
    got = []
    for r in rows:
        if len(r) != 3 or r[0].op != "num" or r[1].op != "num":
            chk.require(None if any(foreign(x) for x in r) else False,
                        "detections", w, "%s: entry %s" % (
                            name, [tm.show(x)[:100] for x in r]), key)
            return
        if r[2].op == "ma" and r[2].args[1] is tm.FALSE:
            r[2] = r[2].args[0]
        got.append(r)
    why, dk = "", False
    for b in blobs:
        ws = [level(z[i][j]) for i, j in b]
        at = [sum(v * p[k] for v, p in zip(ws, b)) / sum(ws) for k in (1, 0)]
        ok = [r for r in got if all(abs(x.args[0] - c) < 1e-6
                                    for x, c in zip(r, at))]
        if len(ok) != 1:
            why = "%s: group of pixels (column, row) %s appears %d times " \
                "in %s" % (name, [(j, i) for i, j in b], len(ok),
                           [tuple(float(x.args[0]) for x in r[:2])
                            for r in got])
            break
        sig = ok[0][2]
        if not any(sig is const(z[i][j]) for i, j in b):
            why = "%s: significance of %s is %s" % (
                name, [(j, i) for i, j in b], tm.show(sig)[:200])
            dk = bool(foreign(sig))
            break
    if not why and len(got) != len(blobs):
        why = "%s: %d detections, expected %d" % (name, len(got),
                                                  len(blobs))
    chk.require(None if dk else not why, "detections", w, why, key)


# ------------------------------------------------------------------- P32

ALIASES = [("operations", "diff", "operations", "subtract"),
           ("operations", "stack_R", "operations", "coadd")]


def check_aliases(chk):
    for mod, old, mod2, new in ALIASES:
        for n, kwn in ((2, ()), (3, ("align", "beta")), (1, ("n_procs",)),
                       (0, ("ref", "new", "smooth_psf"))):
            alias_case(chk, mod, old, mod2, new, n, kwn)


def alias_case(chk, mod, old, mod2, new, n, kwn):
    log = []
    res = sym("result")

    def cut(I, args, kw, node):
        log.append((list(args), dict(kw), I.st.pc))
        return I.new(res)

    s = chk.session({"properimage.%s.%s" % (mod2, new): cut}, {})
    I = s.I
    f = s.function(mod, old)
    s.function(mod2, new)
    w = where(f)
    a = [sym("arg", i) for i in range(n)]
    k = {x: sym("option", x) for x in kwn}
    o = run(I, f, [I.wrapsym(x) for x in a],
            {x: I.wrapsym(v) for x, v in k.items()})
    chk.done(s)
    chk.count("calls")
    key = "%s|%d|%s" % (old, n, ",".join(kwn))
    if len(log) != 1:
        chk.require(False, "forwards", w, "%s calls %s %d times" % (
            old, new, len(log)), "forwards|" + key)
        return
    ga = [I.term(x) for x in log[0][0]]
    gk = {x: I.term(v) for x, v in log[0][1].items()}
    ok = ga == a and gk == k and not log[0][2]
    chk.require(None if any(map(foreign, ga)) or any(
        map(foreign, gk.values())) else ok, "forwards", w,
        "%s(%s, %s) becomes %s(%s, %s)" % (
            old, n, sorted(k), new, [tm.show(x)[:60] for x in ga],
            {x: tm.show(v)[:60] for x, v in gk.items()}),
        "forwards|" + key)
    chk.require(not o.dead and I.term(o.value) is res, "result", w,
                "%s does not return what %s returns" % (old, new),
                "result|" + key)
    ws = [e for e in o.events if e.kind == "call" and
          e.name == "warnings.warn"]
    good = [e for e in ws if not e.pc and any(
        x.op == "ext" and x.args[0].endswith("DeprecationWarning")
        for x in list(e.args) + list(e.kw.values())
        if isinstance(x, T))]
    chk.require(bool(good), "warns", w, "%s does not warn that it is "
                "deprecated" % old, "warns|" + key)
