"""Source matching and relative zero points (P12, P13)."""

from fractions import Fraction

from .common import *  # noqa
from .. import ext, small


def kdtree_cuts(cuts):
    """Nearest neighbours of known positions (scipy's documented query)."""
    def build(I, name, args, kw, node):
        d = small.dense(I.term(args[0]))
        t = mk("kdtree", I.term(args[0]))
        I.event("call", name, args, kw, t, node)
        return I.new(t) if d is not None else NotImplemented

    def query(I, args, kw, node, tree):
        names = ("x", "k", "eps", "p", "distance_upper_bound", "workers")
        d = dict(zip(names, args))
        d.update(kw)
        pts = small.dense(tree.args[0])
        qs = small.dense(I.term(d["x"]))
        if qs is None or I.term(d.get("k", tm.ONE)) is not tm.ONE:
            return NotImplemented
        lim = I.term(d.get("distance_upper_bound", tm.INF))
        if lim.op != "num" and lim is not tm.INF:
            return NotImplemented
        if any(not isinstance(e, list) or any(x.op != "num" for x in e)
               for e in pts + qs):
            return NotImplemented
        eps, metric = (I.term(d.get(k, v)) for k, v in (
            ("eps", tm.ZERO), ("p", const(2))))
        if eps.op != "num" or metric not in (tm.ONE, const(2), tm.INF):
            return NotImplemented
        dist, ind = [], []
        for q in qs:
            best, near = None, []
            for j, p in enumerate(pts):
                ds = [abs(a.args[0] - b.args[0]) for a, b in zip(q, p)]
                r2 = (sum(e * e for e in ds) if metric is const(2) else
                      (sum(ds) if metric is tm.ONE else max(ds)) ** 2)
                if lim is not tm.INF and r2 >= lim.args[0] ** 2:
                    continue
                near.append((r2, j))
                if best is None or r2 < best[0]:
                    best = (r2, j)
            if best is not None and eps is not tm.ZERO:
                # any point not much farther than the nearest may come
                best = max(x for x in near if x[0] <= best[0] * (
                    1 + eps.args[0]) ** 2)
            dist.append(tm.INF if best is None else const(root(best[0])))
            ind.append(const(len(pts) if best is None else best[1]))
        return VTuple([I.new(mk("list", *dist)), I.new(mk("list", *ind))])
    for n in ("cKDTree", "KDTree"):
        cuts["ext:scipy.spatial." + n] = build
        cuts["ext:scipy.spatial.ckdtree." + n] = build
    cuts["method:kdtree.query"] = query
    return cuts


def root(r2):
    """A rational with the order of the square root."""
    from math import isqrt
    n = 10 ** 9
    return Fraction(isqrt(int(r2 * n * n)), n)


def table(I, name, rows, more=()):
    """Catalogue with known positions and symbolic fluxes."""
    names = ("x", "y", "flux")
    cols = [[const(Fraction(r[0])) for r in rows],
            [const(Fraction(r[1])) for r in rows],
            [sym(name, "flux", i, "num") for i in range(len(rows))]]
    for n, vals in more:
        names += (n,)
        cols.append([const(v) for v in vals])
    return I.new(small.Tab(names, cols).term())


# ------------------------------------------------------------------- P12

class Solve(object):
    pass


def solver_cut(log, nsol):
    def cut(I, name, args, kw, node):
        I.event("call", name, args, kw, node=node)
        r = Solve()
        ts = [I.term(a) for a in args] + [I.term(v) for v in kw.values()]
        r.H, r.m = (small.dense(t) for t in ts[:2])
        log.append(r)
        n = len(r.H[0]) if isinstance(r.H, list) and r.H and isinstance(
            r.H[0], list) else None
        if n is None:
            return NotImplemented
        r.sol = [sym("sol", len(log), i, "num") for i in range(n)]
        return VTuple([I.new(mk("list", *r.sol))] + [
            I.unk("solver output") for _ in range(nsol - 1)])
    return cut


def zp_session(chk, log):
    cuts = kdtree_cuts({})
    for n in ("lsqr", "lsmr"):
        cuts["ext:scipy.sparse.linalg." + n] = solver_cut(log, 10)
    for n in ("numpy.linalg.lstsq", "scipy.linalg.lstsq"):
        cuts["ext:" + n] = solver_cut(log, 4)
    return chk.session(cuts).cold()


# positions (row, column) of the stars, per image; far apart unless noted
A, B, C, D, E_ = (10, 20), (40, 12), (70, 55), (25, 80), (90, 90)


def near(p, d, e):
    return (p[0] + Fraction(d), p[1] + Fraction(e))


LAYOUTS = [
    ("same stars, same order", [[A, B, C], [A, B, C]]),
    ("shuffled order", [[A, B, C], [C, A, B], [B, C, A]]),
    ("first star of the reference only", [[A, B, C], [D, A, E_]]),
    ("last star missing", [[A, B, C], [C, B, A], [B, A]]),
    ("extra stars", [[B, C], [A, E_, C, D, B]]),
    ("small offsets", [[A, B, C], [near(C, ".5", "-.3"), near(A, "-.4", 0),
                                   near(B, 0, ".6")]]),
    ("different star missing in each image",
     [[A, B, C, D], [D, B, A], [C, D, A]]),
    ("no common star", [[A, B], [C, D]]),
    ("no star common to all", [[A, B], [A, D], [B, E_]]),
    ("exchanged coordinates do not match",
     [[A, B, C], [A[::-1], B[::-1], C]]),
    ("blended neighbour",
     [[A, near(A, "1.2", 0), B], [near(A, ".1", 0), B]]),
    ("two candidates for one star",
     [[A, B], [near(A, ".8", 0), near(A, ".1", ".1"), B]]),
    ("one common star", [[A, B], [D, A]]),
    ("single image", [[A, B]]),
    ("just inside the radius", [[A, B], [near(A, "1.9", 0), near(B, 0, 1)]]),
    ("just outside the radius", [[A, B], [near(A, "2.1", 0),
                                          near(B, 0, 1)]]),
    ("outside the radius along both axes",
     [[A, B, C], [near(A, "1.5", "1.5"), near(B, 1, 1), C]]),
    ("chain of neighbours",
     [[A, B], [near(A, "1.5", 0), B], [near(A, ".2", 0), B]]),
]
LAYOUTS += [(n + ", the other way round", [y[0]] + [x[::-1] for x in y[1:]])
            for n, y in LAYOUTS if len(y) > 1 and n != "shuffled order"]
LAYOUTS += [("blended neighbour listed last",
             [[B, near(A, "1.2", 0), A], [near(A, ".1", 0), B]])]
RADIUS = 2


def nearest(p, qs):
    best = None
    for j, q in enumerate(qs):
        r = sum((Fraction(a) - Fraction(b)) ** 2 for a, b in zip(p, q))
        if r < RADIUS ** 2 and (best is None or r < best[0]):
            best = (r, j)
    return None if best is None else best[1]


def common(layout):
    """Rows of the mutual nearest neighbours present in every image."""
    out = []
    for i, p in enumerate(layout[0]):
        rows = [i]
        for other in layout[1:]:
            j = nearest(p, other)
            if j is None or nearest(other[j], layout[0]) != i:
                break
            rows.append(j)
        else:
            out.append(tuple(rows))
    return out


STALE = [("fresh catalogues", None),
         ("catalogues already matched once", "stale"),
         ("run twice", "twice")]


def check_zeropoints(chk):
    small.ON = True
    try:
        for name, layout in LAYOUTS:
            for how, stale in STALE:
                zero_points(chk, name, layout, how, stale, False)
            if len(layout) > 1:
                zero_points(chk, name, layout, "separate master", None, True)
    finally:
        small.ON = False


def zero_points(chk, name, layout, how, stale, master):
    label = "%s, %s" % (name, how)
    log = []
    s = zp_session(chk, log)
    I = s.I
    imgs = []
    for j, rows in enumerate(layout):
        r = image(I, "im%d" % j)
        more = []
        if stale == "stale":
            n = len(rows)
            more = [("sourceid", [(i * 2 + j) % n for i in range(n)]),
                    ("detected", [False] * n)]
        t = table(I, "im%d" % j, rows, more)
        I.call(I.getattr(r, "update_sources", None), [t], {}, None)
        imgs.append(r)
    f = s.function("utils", "transparency")
    if stale == "twice":
        o = run(I, f, [I.lst(imgs)])
        if o.dead:
            chk.require(None, "zero points", label, "no result")
            return
        del log[:]
    if master:
        o = run(I, f, [I.lst(imgs[1:]), imgs[0]])
    else:
        o = run(I, f, [I.lst(imgs)])
    chk.done(s)
    verdict(chk, I, o, log, layout, label)


def verdict(chk, I, o, log, layout, label):
    p = len(layout)
    want = common(layout)
    rule = "zero points"
    if o.dead:
        bad = [e for e in I.events if e.kind == "raise"]
        chk.require(False if bad else None, rule, label,
                    "raises %s" % (bad[-1].name if bad else ""))
        return
    out = I.iterate(o.value)
    zps = small.dense(I.term(out[0])) if out and len(out) == 2 else None
    rule = "zero point of every image"
    if not isinstance(zps, list):
        chk.require(None, rule, label, "found " + tm.show(
            I.term(o.value))[:300])
        return
    if not chk.require(len(zps) == p, rule, label, "%d zero points for %d "
                       "images" % (len(zps), p)):
        return
    if not want:
        chk.require(all(z is tm.ONE for z in zps) and not log or None
                    if log else all(z is tm.ONE for z in zps),
                    "no common star leaves the zero points alone", label,
                    "found %s" % [tm.show(z) for z in zps])
        return
    rule = "one system is solved"
    if not chk.require(len(log) == 1 or (None if log else False), rule,
                       label, "%d systems solved" % len(log)):
        return
    r = log[0]
    cols = system(chk, r, layout, want, label)
    if cols is None:
        return
    zc, sc = cols
    rule = "zero point is the flux ratio to the first image"
    base = r.sol[zc[0]]
    for j in range(p):
        e = tm.mul(const(Fraction(-2, 5)), tm.sub(r.sol[zc[j]], base))
        spec = tm.pow_(const(10), e) if e is not tm.ZERO else tm.ONE
        same_ = zps[j] is spec
        ok = True if same_ else None if foreign(
            zps[j], ("log10",)) else False
        chk.require(ok, rule, "%s, image %d" % (label, j),
                    "found %s, expected %s" % (tm.show(zps[j]),
                                               tm.show(spec)))
    mags = small.dense(I.term(out[1]))
    ok = None
    if isinstance(mags, list):
        ok = sorted(map(tm.show, mags)) == sorted(
            tm.show(r.sol[c]) for c in sc.values())
    chk.require(ok, "one mean magnitude per common star", label,
                "found %s" % tm.show(I.term(out[1]))[:300])


def system(chk, r, layout, want, label):
    """Each equation: magnitude = zero point of its image + its star."""
    rule = "equations of the common stars"
    p = len(layout)
    if not isinstance(r.m, list) or not isinstance(r.H, list):
        chk.require(None, rule, label, "system not followed")
        return None
    if len(r.m) != len(r.H):
        chk.require(False, rule, label, "%d magnitudes in %d equations" % (
            len(r.m), len(r.H)))
        return None
    zc, sc, seen, offs = {}, {}, [], set()
    star = {(j, rows[j]): k for k, rows in enumerate(want)
            for j in range(p)}
    for h, v in zip(r.H, r.m):
        ls = [x for x in tm.subterms(v) if x.op == "log10"]
        fs = [x for x in tm.subterms(v) if x.op == "sym"
              and len(x.args) > 2 and x.args[1] == "flux"]
        if len(ls) != 1 or len(fs) != 1 or ls[0].args[0] is not fs[0]:
            bad = foreign(v, ("log10",))
            chk.require(None if bad else False, rule, label,
                        "magnitude %s" % tm.show(v))
            return None
        off = tm.add(v, tm.mul(const(Fraction(5, 2)), ls[0]))
        if off.op != "num":
            chk.require(False, rule, label, "magnitude %s" % tm.show(v))
            return None
        offs.add(off)
        key = (int(fs[0].args[0][2:]), fs[0].args[2])
        if key not in star:
            chk.require(False, "only stars matched in every image count",
                        label, "star %d of image %d is used" % key[::-1])
            return None
        seen.append(key)
        if any(x.op != "num" for x in h):
            chk.require(None, rule, label, "coefficients not followed")
            return None
        on = [i for i, x in enumerate(h) if x is not tm.ZERO]
        if len(on) != 2 or any(h[i] is not tm.ONE for i in on):
            chk.require(False, rule, label, "equation %s" % [
                tm.show(x) for x in h])
            return None
        zc.setdefault(key[0], []).append(set(on))
        sc.setdefault(star[key], []).append(set(on))
    chk.require(True, "only stars matched in every image count", label)
    chk.require(len(offs) == 1, rule, label, "magnitudes have different "
                "offsets")
    chk.require(sorted(seen) == sorted(star),
                "every star matched in every image counts once", label,
                "uses %s, expected %s" % (sorted(seen), sorted(star)))
    zc = pick(zc, sc)
    sc = {k: next(iter(set.intersection(*v) - set(zc.values())), None)
          for k, v in sc.items()} if zc else None
    ok = zc is not None and None not in sc.values() and len(set(
        sc.values())) == len(sc)
    chk.require(ok, rule, label, "equations do not share one zero point per "
                "image and one magnitude per star")
    return (zc, sc) if ok else None


def pick(zc, sc):
    """Zero-point column of each image: in all its equations, no other."""
    out = {}
    for j, rows in zc.items():
        both = set.intersection(*rows)
        for k, other in zc.items():
            if k != j:
                both = both - set.union(*other)
        if not both:
            return None
        if len(both) > 1:
            # one common star: its column is shared by all images
            both = both - set.union(*[set.intersection(*v)
                                      for v in sc.values()])
        if len(both) != 1:
            both = {min(both)} if both else None
        if not both:
            return None
        out[j] = both.pop()
    return out if len(set(out.values())) == len(out) else None


# ------------------------------------------------------------------- P13

MATCHING = {"only stars matched in every image count",
            "every star matched in every image counts once",
            "no common star leaves the zero points alone"}

POINTS = [
    ("fractions of a pixel", [("0.9", "0.9"), ("2.6", "0.4")],
     [("0.1", "0.1"), ("1.2", "1.2"), ("2.1", "0.9"), ("2.7", "1.4")], None),
    ("off the axes", [(0, 0), (10, 10)], [(3, 3), (5, 0), (13, 6), (10, 15)],
     None),
    ("close seconds", [(0, 0), (10, 10)], [(1, 0), ("1.1", 0), (11, 10),
                                          ("11.2", 10)], 3),
    ("nothing within the limit", [A, B], [near(A, 1, 0)], Fraction(1, 2)),
    ("plane", [A, B, C], [C, near(A, 1, 0), E_], None),
    ("plane, limited radius", [A, B, C], [C, near(A, 3, 0), E_], 2),
    ("more references", [A, B], [D, C, B, E_, A], None),
    ("more queries", [A, B, C, D, E_], [B, A], 5),
    ("three coordinates", [(1, 2, 3), (4, 5, 6)], [(4, 5, 7), (1, 2, 2)],
     None),
    ("three coordinates, limited radius", [(1, 2, 3), (4, 5, 6)],
     [(4, 5, 7), (1, 2, 9)], 2),
]


def array_of(I, rows):
    return I.new(mk("list", *[mk("list", *[const(Fraction(x)) for x in r])
                              for r in rows]))


def check_matching(chk):
    small.ON = True
    try:
        crossmatch(chk)
        sub = Check(chk.pid, chk.tier, chk.repo)
        for name, layout in LAYOUTS:
            zero_points(sub, name, layout, "fresh catalogues", None, False)
        chk.runs += sub.runs
        chk.functions |= sub.functions
        chk.notes += sub.notes
        done = set()
        for o in sub.obls:
            if o["rule"] in MATCHING:
                done.add(o["where"].split(", fresh")[0])
                chk.obls.append(o)
        for name, layout in LAYOUTS:
            if name not in done:
                chk.require(None, "only stars matched in every image count",
                            name, "the matching was not followed")
        matching(chk)
    finally:
        small.ON = False


def crossmatch(chk):
    rule = "nearest point of the other set"
    for name, xs, ys, lim in POINTS:
        s = chk.session(kdtree_cuts({}))
        I = s.I
        f = s.function("utils", "crossmatch")
        kw = {} if lim is None else {"max_distance": const(lim)}
        o = run(I, f, [array_of(I, xs), array_of(I, ys)], kw)
        chk.done(s)
        v = None if o.dead else I.iterate(o.value)
        if v is None or len(v) != 2:
            chk.require(None, rule, name, "no distances and indices")
            continue
        d, i = [small.dense(I.term(x)) for x in v]
        want = [closest(x, ys, lim) for x in xs]
        wd = [tm.INF if w is None else const(root(w[0])) for w in want]
        wi = [const(len(ys) if w is None else w[1]) for w in want]
        if not isinstance(d, list) or not isinstance(i, list):
            chk.require(None, rule, name, "not followed")
            continue
        chk.require(i == wi, rule, name, "indices %s, expected %s" % (
            [tm.show(x) for x in i], [tm.show(x) for x in wi]))
        chk.require(d == wd, "distance to the nearest point", name,
                    "found %s, expected %s" % (
                        [tm.show(x) for x in d], [tm.show(x) for x in wd]))
    rule = "sets of points of different dimension are rejected"
    for xs, ys in (([A, B], [(1, 2, 3)]), ([(1, 2, 3)], [A])):
        s = chk.session(kdtree_cuts({}))
        I = s.I
        o = run(I, s.function("utils", "crossmatch"),
                [array_of(I, xs), array_of(I, ys)])
        chk.done(s)
        names = [e.name for e in I.events if e.kind == "raise"]
        chk.require(True if o.dead and names == ["ValueError"] else False,
                    rule, "%d and %d coordinates" % (len(xs[0]), len(ys[0])),
                    "raises %s" % names if o.dead else "accepted")


def closest(p, qs, lim):
    best = None
    for j, q in enumerate(qs):
        r = sum((Fraction(a) - Fraction(b)) ** 2 for a, b in zip(p, q))
        if lim is not None and r >= Fraction(lim) ** 2:
            continue
        if best is None or r < best[0]:
            best = (r, j)
    return best


def matching(chk):
    """Identifiers given to the sources of a second catalogue."""
    rule = "identifier of the matched source, negative when there is none"
    for name, layout in LAYOUTS:
        for other in layout[1:]:
            s = chk.session(kdtree_cuts({}))
            I = s.I
            try:
                f = s.function("utils", "_matching")
            except Missing:
                return
            ids = [7 * i for i in range(len(layout[0]))]
            m = table(I, "a", layout[0], [("sid", ids)])
            c = table(I, "b", other)
            o = run(I, f, [m, c], {"masteridskey": const("sid"),
                                   "radius": const(RADIUS),
                                   "masked": tm.TRUE})
            chk.done(s)
            v = None if o.dead else I.iterate(o.value)
            got = mask = None
            if v is not None and len(v) == 2:
                got, mask = [small.dense(I.term(x)) for x in v]
            if not isinstance(got, list) or any(
                    isinstance(g, list) or g.op != "num" for g in got):
                chk.require(None, rule, name, "not followed")
                continue
            bad = []
            for j, g in enumerate(got):
                i = nearest(other[j], layout[0])
                if i is not None and nearest(layout[0][i], other) != j:
                    i = None
                if g.args[0] != ids[i] if i is not None else \
                        g.args[0] >= 0:
                    bad.append(j)
            chk.require(len(got) == len(other) and not bad, rule,
                        name, "found %s" % [tm.show(g) for g in got])
            if not bad and isinstance(mask, list):
                chk.require(
                    [m is tm.TRUE for m in mask] == [
                        g.args[0] >= 0 for g in got],
                    "mask of the matched sources", name,
                    "found %s for %s" % ([tm.show(m) for m in mask],
                                         [tm.show(g) for g in got]))
