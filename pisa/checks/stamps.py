"""Which stars get a stamp, and the books kept about it (P21)."""

from .common import *  # noqa
from .kl import kept, stored_args
from .. import arrays, ext, small

COLS = ("x", "y", "npix", "flux", "flag", "label")
SHAPE = (5, 7)


def value(col, k):
    return sym("row", col, k, "num")


def catalogue(n):
    return mk("tab", ",".join(COLS), *[mk("list", *[
        value(c, k) for k in range(n)]) for c in COLS])


def rows_in(t):
    return {x.args[2] for x in tm.subterms(t) if x.op == "sym" and
            x.args[0] == "row"}


class Oracle(object):
    """Decides each condition that depends on the pixels of a star."""

    def __init__(self, answers):
        self.answers = answers          # row -> function(index, condition)
        self.seen = {}
        self.asked = {}

    def __call__(self, I, c):
        return self.truth(c)

    def truth(self, c):
        v = tm.truth(c)
        if v is not None:
            return v
        if c.op == "not":
            v = self.truth(c.args[0])
            return None if v is None else not v
        if c.op in ("and", "or"):
            vs = [self.truth(a) for a in c.args]
            stop = c.op == "or"
            if stop in vs:
                return stop
            return None if None in vs else not stop
        if c.op == "ite":
            v = self.truth(c.args[0])
            return None if v is None else self.truth(c.args[1 if v else 2])
        if c in self.seen:
            return self.seen[c]
        n = tm.lnot(c)
        if n in self.seen:
            return not self.seen[n]
        ks = rows_in(c)
        if len(ks) != 1:
            return None
        k = next(iter(ks))
        log = self.asked.setdefault(k, [])
        v = self.answers(k)(len(log), c)
        if v is None:
            return None
        log.append((c, v))
        self.seen[c] = v
        return v


def undefined(c):
    """Condition "the stamp holds undefined pixels"."""
    return c.op == "any" and any(x.op in ("isnan",) for x in
                                 tm.subterms(c.args[0]))


PIECE = ("array_large", "shape", "position", "mode", "fill_value",
         "return_position")


def cutout(I, name, args, kw, node):
    """Part of an image around a position."""
    d = dict(zip(PIECE, [I.term(a) for a in args]))
    d.update({k: I.term(v) for k, v in kw.items()})
    I.event("call", "extract_array", args, kw, node=node)
    s = d.get("shape")
    if set(d) - set(PIECE) or s is None or "position" not in d or \
            s.op not in ("tuple", "list") or len(s.args) != 2 or any(
                x.op != "num" for x in s.args):
        return NotImplemented
    t = mk("call", "cutout", d["array_large"], s, d["position"],
           d.get("mode", const("partial")), d.get("fill_value", tm.NAN))
    arrays.KNOWN_SHAPE[t] = tuple(int(x.args[0]) for x in s.args)
    return I.new(t)


def stamp_cuts():
    def maxima(I, args, kw, node):
        return I.new(mk("call", "maxima", *[I.term(a) for a in args]))
    cuts = base_cuts()
    cuts.pop("SingleImage.best_sources")
    cuts["ext:astropy.nddata.utils.extract_array"] = cutout
    cuts["ext:astropy.nddata.extract_array"] = cutout
    def pad(I, name, args, kw, node):
        ts = [I.term(a) for a in args[1:2]] + [I.term(v) for k, v in
                                               kw.items()
                                               if k == "pad_width"]
        if any(x.op == "num" and x.args[0] < 0 for t in ts
               for x in tm.subterms(t)):
            I.raise_(None, node, "ValueError")
        return NotImplemented
    cuts["ext:numpy.pad"] = pad
    cuts["properimage.utils.find_S_local_maxima"] = maxima
    cuts["SingleImage.interped"] = lambda I, r, nd: I.new(sym("interped"))
    return cuts


FINE, UNDEFINED, ASIDE, SPREAD, BRIGHT, SEVERAL, FAR, NEAR = range(8)
NAMES = ["fine", "undefined pixels", "peak aside", "scattered",
         "one bright pixel", "several peaks", "peak found aside",
         "peak found near the centre"]
KEPT = {FINE, NEAR}


def kind_of(c):
    """What a condition on a star's stamp asks, or None."""
    ops = {opname(x) for x in tm.subterms(c)}
    names = {x.args[0] for x in tm.subterms(c) if x.op == "sym"}
    if "isnan" in ops or "isfinite" in ops:
        return UNDEFINED
    if {"call numpy.hstack/1", "call numpy.concatenate/1"} & ops:
        return "margin"
    if "peak" in names:
        return FAR
    if c.op in ("any", "all"):
        return BRIGHT
    if "std" in ops or "var" in ops:
        return SPREAD
    if "eq" in ops and "max" in ops or any(o.startswith((
            "argmax", "call numpy.unravel_index")) for o in ops):
        return ASIDE
    if {"max", "maxof"} & ops:
        return BRIGHT
    return None


def holds_undefined(c):
    """Truth of a test for undefined pixels where there are some."""
    fin = any(x.op == "isfinite" for x in tm.subterms(c))
    if c.op == "all":
        # all(isfinite) fails, all(isnan) is not known
        return False if fin else None
    if c.op == "any":
        inner = c.args[0]
        if inner.op == "not":
            return fin or None
        return None if fin else True
    if c.op in ("isnan", "isfinite"):
        return not fin
    return None


def answers(types, unknown):
    def of_row(k):
        kind = types[k]

        def answer(i, c):
            what = kind_of(c)
            if what is None:
                unknown.add(k)
                return False
            if what == "margin":
                return i % 3 != 2
            if what == UNDEFINED:
                v = holds_undefined(c)
                if v is None:
                    unknown.add(k)
                    return False
                return v if kind == UNDEFINED else not v
            if c.op == "all" or c.op == "not":
                return what != kind       # all pixels low enough
            return what == kind
        return answer
    return of_row


def scenarios(thorough):
    f, u = FINE, UNDEFINED
    yield "three stars", [f] * 3
    yield "undefined stamps among few stars", [u, f, f, u, f, f, f, u]
    yield "only one usable", [u, f, u]
    yield "fifteen left", [f] * 5 + [u] + [f] * 9 + [u, f, u]
    yield "fourteen left", [u, f, u, u] + [f] * 13 + [u]
    yield "twenty odd-looking stars", [
        ASIDE, SPREAD, BRIGHT, SEVERAL, FAR, NEAR, u, f] + [f] * 12
    yield "twenty-one stars", [f] * 8 + [ASIDE] + [f] * 7 + [SPREAD] + \
        [f] * 3 + [u]
    yield "many stars", [f, BRIGHT, f, u, NEAR, FAR, ASIDE, f, SEVERAL,
                         SPREAD] + [f] * 13 + [NEAR]
    yield "many odd-looking stars", [BRIGHT, f, u, NEAR, FAR, ASIDE, f,
                                     SEVERAL, SPREAD] * 3
    for k in (ASIDE, SPREAD, BRIGHT, SEVERAL, FAR):
        yield "%s at first" % NAMES[k], [k, f, f, k] + [f] * 17 + [k]
    if thorough:
        for k in range(8):
            yield "twenty-two, every other %s" % NAMES[k], [f, k] * 11
        yield "no star is usable", [u] * 4
        for n in (15, 16, 19, 20, 21, 30):
            yield "%d stars" % n, ([f, f, u, f] * 8)[:n]


def check_stamps(chk):
    small.ON = True
    try:
        for name, types in scenarios(chk.thorough):
            for shape in ((5, 7), (9, 5)) if chk.thorough else ((5, 7),):
                for picky in (False, True):
                    stamp_case(chk, name, types, shape, picky)
    finally:
        small.ON = False


def stamp_case(chk, name, types, shape, picky):
    n = len(types)
    name += ", strict pick" if picky else ""
    unknown = set()
    orc = Oracle(answers(types, unknown))
    cuts = stamp_cuts()

    def maxima(I, args, kw, node):
        ks = rows_in(I.term(args[0]))
        if len(ks) != 1:
            return NotImplemented
        k = next(iter(ks))
        m = {SEVERAL: 2, FAR: 1, NEAR: 1}.get(types[k], 0)
        return I.lst([VTuple([sym("peak", "row", k, j, w, "num")
                              for w in range(3)]) for j in range(m)])
    cuts["properimage.utils.find_S_local_maxima"] = maxima
    s = chk.session(cuts, {"known": orc}).cold("SingleImage")
    I = s.I
    r = image(I, "im", "SingleImage")
    f = kept(chk, "picky_field", lambda q: stored_args(
        q, "SingleImage").get("strict_star_pick"))
    if f is None:
        raise Missing("strict_star_pick")
    I.set_field(r, f, const(picky))
    w = "properimage/single_image.py (SingleImage.stamps_pos)"
    cat = catalogue(n)
    chk.count("scenarios")
    chk.count("stars", n)
    got, before = {}, len(I.events)

    def go(I_):
        I.setattr(r, "stamp_shape", VTuple([const(x) for x in shape]), None)
        I.call(I.getattr(r, "update_sources", None), [I.new(cat)], {}, None)
        for k in ("stamps_pos", "n_sources", "stamp_shape", "best_sources"):
            got[k] = I.term(I.getattr(r, k, None))
    o = guarded(I, go)
    chk.done(s)
    key = lambda rule: "%s|%s|%s" % (rule, name, shape)
    if o is not None:
        chk.require(None if "undecided" in o else False, "books", w,
                    "%s: %s" % (name, o), key("books"))
        return
    pos = small.dense(got["stamps_pos"])
    dumps = [e for e in I.events[before:] if e.kind == "call" and
             e.name == ".dump"]
    if not isinstance(pos, list) or any(e.pc for e in dumps):
        chk.require(None, "books", w, "%s: %s" % (name, tm.show(
            got["stamps_pos"])[:300]), key("books"))
        return
    place = {(value("y", k), value("x", k)): k for k in range(n)}
    flip = {(b, a): k for (a, b), k in place.items()}
    ks, bad = [], ""
    for p in pos:
        p = tuple(p) if isinstance(p, list) else (p,)
        if p in place:
            ks.append(place[p])
        else:
            bad = bad or "%s: entry %s%s" % (
                name, [tm.show(x)[:60] for x in p],
                " has row and column exchanged" if p in flip else "")
    chk.require(not bad, "positions", w, bad, key("positions"))
    if bad:
        return
    # who is kept
    strict = picky and n > 20
    if strict:
        centred(chk, orc, name, w, key)
    for k, t in enumerate(types):
        keep = t in KEPT if strict else t != UNDEFINED
        if (k in ks) == keep:
            continue
        asked = {kind_of(c) for c, v in orc.asked.get(k, [])}
        sure = k not in unknown or t in asked and keep is False
        chk.require(False if sure else None, "kept stars", w,
                    "%s: star %d (%s) %s" % (
                        name, k, NAMES[t], "is kept" if not keep else
                        "is left out"), key("kept stars"))
        break
    else:
        chk.require(ks == sorted(set(ks)), "kept stars", w,
                    "%s: order of the stars %s" % (name, ks),
                    key("kept stars"))
    chk.require(got["n_sources"] is const(len(ks)), "number", w,
                "%s: %d positions, number of stars %s" % (
                    name, len(ks), tm.show(got["n_sources"])[:100]),
                key("number"))
    # the store
    if not dumps:
        chk.require(None, "stamps", w, "%s: nothing is stored" % name,
                    key("stamps"))
    else:
        books(chk, I, name, dumps, ks, got, w, key)
    # the catalogue
    tab = small.dense(got["best_sources"])
    if not isinstance(tab, small.Tab):
        chk.require(None, "catalogue", w, "%s: %s" % (name, tm.show(
            got["best_sources"])[:200]), key("catalogue"))
        return
    left = [x.args[2] for x in tab.col("label")]
    want = ks if len(ks) >= 15 else list(range(n))
    chk.require(left == want, "catalogue", w,
                "%s: %d of %d stars kept; the catalogue lists %s" % (
                    name, len(ks), n, left), key("catalogue"))


STAMP_CALLS = ("call cutout/5", "median", "call numpy.percentile/2",
               "call numpy.where/1", "attr", "mean", "std", "kw",
               "call numpy.nanmedian/1", "var", "percentile")


def number(t, env):
    """Value of a term once the place of the peak is known."""
    if t in env:
        return env[t]
    if t.op == "num":
        return float(t.args[0])
    if t.op in ("list", "tuple", "array"):
        if t.op == "array":
            return number(t.args[0], env)
        return [number(a, env) for a in t.args]
    if t.op == "shape":
        return [float(x) for x in arrays.dims(t.args[0])]
    if t.op == "sum" and len(t.args) == 1:
        return sum(number(t.args[0], env))
    if t.op == "not":
        return not number(t.args[0], env)
    if t.op == "asarray" or t.op == "astype":
        return number(t.args[0], env)
    pairs = {"add": lambda a, b: a + b, "mul": lambda a, b: a * b}

    def each(f, a, b):
        if isinstance(a, list) or isinstance(b, list):
            a = a if isinstance(a, list) else [a] * len(b)
            b = b if isinstance(b, list) else [b] * len(a)
            return [each(f, x, y) for x, y in zip(a, b)]
        return f(a, b)
    if t.op == "add":
        out = 0.0
        for a in t.args:
            out = each(pairs["add"], out, number(a, env))
        return out
    if t.op == "mul":
        out = float(t.args[0])
        for b, e in zip(t.args[1::2], t.args[2::2]):
            v = each(lambda x, y: x ** y, number(b, env), float(e))
            out = each(pairs["mul"], out, v)
        return out
    if t.op == "pow":
        return each(lambda x, y: x ** y, number(t.args[0], env),
                    number(t.args[1], env) if isinstance(t.args[1], T)
                    else float(t.args[1]))
    if t.op == "abs":
        return each(lambda x, y: abs(x), number(t.args[0], env), 0)
    if t.op in ("lt", "le") and len(t.args) == 1:
        v = number(t.args[0], env)      # 0 < v or 0 <= v
        return 0 < v if t.op == "lt" else 0 <= v
    if t.op in ("maxof",):
        return max(number(a, env) for a in t.args)
    raise ValueError(t.op)


def centred(chk, orc, name, w, key):
    """A peak in the middle is kept, one at a border is not."""
    for k, log in sorted(orc.asked.items()):
        for c, v in log:
            what = kind_of(c)
            if what not in (ASIDE, FAR):
                continue
            size = [arrays.dims(x) for x in tm.subterms(c)
                    if x.op == "call" and x.args[0] == "cutout"]
            if what == FAR:
                at = [sym("peak", "row", k, 0, i, "num") for i in (1, 0)]
                size = size or [(11, 13)]
            else:
                at = [None, None]
                for x in tm.subterms(c):
                    if x.op == "item" and x.args[1] is tm.ZERO and \
                            x.args[0].op == "item" and x.args[0].args[1] \
                            in (tm.ZERO, tm.ONE) and opname(
                                x.args[0].args[0]) == "call numpy.where/1":
                        at[0 if x.args[0].args[1] is tm.ZERO else 1] = x
                if None in at:
                    continue
            n, m = max(size)
            for (i, j), off in (
                    ((n // 2, m // 2), False), ((0, m // 2), True),
                    ((n - 1, m // 2), True), ((n // 2, 0), True),
                    ((n // 2, m - 1), True), ((0, m - 1), True),
                    ((n - 1, 0), True), ((1, 1), True)):
                try:
                    got = number(c, {at[0]: float(i), at[1]: float(j)})
                except (ValueError, TypeError):
                    continue
                chk.require(bool(got) == off, "peak in the middle", w,
                            "%s: a peak at (%d, %d) of %d x %d pixels is "
                            "%s" % (name, i, j, n, m, "accepted" if off
                                    else "rejected"),
                            key("middle|%d|%d|%d|%d" % (k, what, i, j)))
            if what == FAR:
                return


def guarded(I, go):
    """Run go; what went wrong, or None."""
    col = []
    I.collectors.append(col)
    from ..interp import Ctx, Dead
    mod = next(iter(I.mods.values()))
    I.st.envs.setdefault(("driver",), {})
    I.ctxs.append(Ctx(None, ("driver",), mod, "<driver>"))
    try:
        go(I)
    except Dead:
        return "raises %s" % sorted({str(x[1]) for x in col})
    finally:
        I.ctxs.pop()
        I.collectors.pop()
    return None


def books(chk, I, name, dumps, ks, got, w, key):
    keys = [I.term(e.args[2]) if len(e.args) > 2 else e.kw.get(
        "dbid", e.kw.get("identifier")) for e in dumps]
    chk.require(None if any(x is None for x in keys) else keys == [
        const(i) for i in range(len(ks))], "stamp numbers", w,
        "%s: stored under %s, %d positions" % (
            name, [x and tm.show(x)[:30] for x in keys], len(ks)),
        key("stamp numbers"))
    size = got["stamp_shape"]
    size = tuple(x.args[0] if x.op == "num" else None for x in size.args) \
        if size.op in ("tuple", "list") else None
    why = ""
    ok = True
    for e, k in zip(dumps, ks):
        d = I.term(e.args[1])
        if rows_in(d) != {k}:
            why = "%s: stamp of star %d comes from %s" % (
                name, k, sorted(rows_in(d)))
            ok = False
            break
        for c in tm.subterms(d):
            if c.op == "call" and c.args[0] == "cutout":
                img, _, p, mode, fill = c.args[1:]
                if p.op not in ("tuple", "list") or p.args != (
                        value("y", k), value("x", k)):
                    ok, why = False, "%s: stamp of star %d cut at %s" % (
                        name, k, tm.show(p)[:100])
                elif img is not sym("interped"):
                    ok, why = False, "%s: stamp of star %d cut from %s" % (
                        name, k, tm.show(img)[:100])
                elif mode is not const("partial"):
                    ok, why = False, "%s: mode %s" % (name, tm.show(mode))
        if not ok:
            break
        n = ext.linop("sum", d)
        if n is not tm.ONE:
            ok = None if foreign(n, STAMP_CALLS) else False
            why = "%s: sum of stamp %d: %s" % (
                name, k, tm.show(n)[:300])
            break
        dim = arrays.dims(d)
        if dim and None not in dim and size != tuple(dim):
            ok, why = False, "%s: stamps of %s pixels, recorded size %s" % (
                name, dim, size)
            break
    chk.require(ok, "stamps", w, why, key("stamps"))
