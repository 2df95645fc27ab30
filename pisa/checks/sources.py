"""Which detections make the source catalogue (P20)."""

from fractions import Fraction

from .common import *  # noqa
from .. import ext, small
from .stamps import guarded

COLS = ("x", "y", "npix", "flux", "flag", "label")
WHERE = "properimage/single_image.py (SingleImage.best_sources)"


def table(rows, base=0):
    """Detections; rows: (npix, flux, flag); the label tells them apart."""
    cols = {"x": [sym("det", "x", base + k, "num") for k in
                  range(len(rows))],
            "y": [sym("det", "y", base + k, "num") for k in
                  range(len(rows))],
            "npix": [const(r[0]) for r in rows],
            "flux": [const(r[1]) for r in rows],
            "flag": [const(r[2]) for r in rows],
            "label": [const(base + k) for k in range(len(rows))]}
    return mk("tab", ",".join(COLS), *[mk("list", *cols[c]) for c in COLS])


def quantile(v, q):
    v = sorted(v)
    p = Fraction(q, 100) * (len(v) - 1)
    i = int(p)
    return v[i] if i + 1 == len(v) else v[i] + (p - i) * (v[i + 1] - v[i])


def expected(rows):
    """Positions of the detections that make the catalogue."""
    s = [Fraction(r[0]) for r in rows]
    f = [Fraction(r[1]) for r in rows]
    a, b = quantile(s, 20), quantile(s, 80)
    c, d = quantile(f, 15), quantile(f, 85)
    out = [k for k, r in enumerate(rows) if a <= s[k] <= b
           and c <= f[k] <= d and r[2] == 0]
    return out if len(out) >= 5 else list(range(len(rows)))


def spread(n, flags=(), step=7):
    """n detections of all different sizes and fluxes, out of order."""
    return [(10 + (k * step) % n, 100 + 3 * ((k * 5 + 2) % n),
             1 if k in flags else 0) for k in range(n)]


def fields(thorough):
    yield "twelve", spread(12, step=5)
    yield "twenty-one", spread(21, step=8)
    yield "a hundred and one", spread(101, {20, 40}, step=37)
    yield "flagged ones", spread(23, {1, 2, 5, 7, 11})
    yield "other flags", [(r[0], r[1], (0, 2, 4, 0)[k % 4])
                          for k, r in enumerate(spread(27))]
    yield "few good ones", spread(9, {1, 3})
    yield "all alike", [(20, 500, 0)] * 8
    yield "all flagged", [(20 + k, 500 - k, 3) for k in range(11)]
    yield "exactly five good", [(20, 500, 1)] * 6 + [(20, 500, 0)] * 5
    yield "only four good", [(20, 500, 1)] * 6 + [(20, 500, 0)] * 4
    yield "ties at the limits", [(10 + k // 4, 100 + k // 3, 0)
                                 for k in range(24)]
    yield "two", [(10, 100, 0), (12, 130, 0)]
    if thorough:
        for n in (3, 5, 6, 13, 19, 37, 41, 52):
            for flags in ((), {0, 3}, set(range(0, n, 3))):
                yield "%d with flags %s" % (n, sorted(flags)), spread(
                    n, flags, step=11)


class Detector(object):
    """Stands for the detection library: one answer for each call."""

    def __init__(self, answers):
        self.answers, self.calls = list(answers), []

    def cut(self):
        def f(I, name, args, kw, node):
            names = ("data", "thresh", "err", "var", "gain", "mask")
            d = dict(zip(names, [I.term(a) for a in args]))
            d.update({k: I.term(v) for k, v in kw.items()})
            I.event("call", "sep.extract", args, kw, node=node)
            i = len(self.calls)
            self.calls.append(d)
            a = self.answers[i] if i < len(self.answers) else "fails"
            if a == "fails":
                I.raise_(None, node, "Exception")
            return I.new(table(*a))
        return f


def built(s, least, **kw):
    p = sym("pixels")
    s.I.kinds[p] = {"ndarray"}
    return s.I.call(s.cls("SingleImage"), [s.I.wrapsym(p)],
                    dict(kw, min_sources=const(least)), None)


def detect(chk, answers, least=20, config=None):
    det = Detector(answers)
    cuts = {}
    cuts["ext:sep.extract"] = det.cut()
    s = chk.session(cuts, config or {})
    I, out = s.I, {}

    def go(I_):
        r = out["ref"] = built(s, least)
        out["t"] = I.term(I.getattr(r, "best_sources", None))
        out["again"] = I.term(I.getattr(r, "best_sources", None))
    out["wrong"] = guarded(I, go)
    out["I"], out["det"] = I, det
    chk.done(s)
    chk.count("fields")
    return out


def labels(t):
    tab = small.dense(t)
    if not isinstance(tab, small.Tab):
        return None
    ls = tab.col("label")
    return [int(x.args[0]) for x in ls] if all(
        x.op == "num" for x in ls) else None


def check_sources(chk):
    small.ON = True
    try:
        for name, rows in fields(chk.thorough):
            selection(chk, name, rows)
        fallback(chk)
        none_or_one(chk)
        too_many(chk)
        renewed(chk)
    finally:
        small.ON = False


def listed(chk, name, o, want, rule):
    key = "%s|%s" % (rule, name)
    if o["wrong"]:
        chk.require(False, rule, WHERE, "%s: %s" % (name, o["wrong"]), key)
        return
    ls = labels(o["t"])
    chk.require(None if ls is None else ls == want, rule, WHERE,
                "%s: catalogue %s, expected %s" % (
                    name, tm.show(o["t"])[:300] if ls is None else ls,
                    want), key)
    chk.require(o["again"] is o["t"], "read again", WHERE,
                "%s: the catalogue changes when read again" % name,
                "read again|" + rule + name)


def selection(chk, name, rows):
    o = detect(chk, [(rows,)], least=0)
    listed(chk, name, o, expected(rows), "selection")


def ratio(a, b):
    if a is None or b is None:
        return None
    q = tm.div(a, b)
    if q.op == "mul" and all(e != 0 for e in q.args[2::2]):
        return Fraction(-1)         # lower for some noise, higher for other
    return q.args[0] if q.op == "num" else None


def fallback(chk):
    first = [(20, 500, 0)] * 7
    lo = [(20, 500, 0)] * 9
    for least in (7, 8, 30):
        for other in (lo, [(20, 500, 0)] * 6, [], first):
            name = "%d at first, %d then, at least %d" % (
                len(first), len(other), least)
            o = detect(chk, [(first,), (other, 100)], least=least)
            want = list(range(7))
            if least > 7 and len(other) >= 7:
                want = [100 + k for k in range(len(other))]
                if len(other) == 7 and labels(o.get("t") or tm.NONE) == \
                        list(range(7)):
                    want = list(range(7))      # equally many: either
            listed(chk, name, o, want, "too few detections")
            n = len(o["det"].calls)
            chk.require(n == (1 if least <= 7 else 2), "tried again",
                        WHERE, "%s: %d detections run" % (name, n),
                        "tried again|" + name)
            if n == 2:
                q = ratio(o["det"].calls[1].get("thresh"),
                          o["det"].calls[0].get("thresh"))
                chk.require(None if q is None else 0 < q < 1,
                            "lower threshold", WHERE,
                            "%s: threshold changes by %s" % (name, q),
                            "lower threshold|" + name)
    # the detection itself fails
    o = detect(chk, ["fails", (first,)], least=5)
    listed(chk, "first detection fails", o, list(range(7)), "failure")
    if len(o["det"].calls) == 2:
        q = ratio(o["det"].calls[1].get("thresh"),
                  o["det"].calls[0].get("thresh"))
        chk.require(None if q is None else q > 1, "higher threshold", WHERE,
                    "threshold changes by %s" % q, "higher threshold")
    o = detect(chk, ["fails", "fails"], least=5)
    chk.require(bool(o["wrong"]), "failure", WHERE, "a detection that fails "
                "at every threshold goes unnoticed", "failure|always")
    o = detect(chk, [(first,), "fails", (lo, 100)], least=8)
    listed(chk, "lower threshold fails once", o,
           [100 + k for k in range(9)], "failure")
    for k, d in enumerate(detect(chk, ["fails", (first,), (lo, 100)],
                                 least=8)["det"].calls):
        chk.require("mask" in d and "thresh" in d, "flags handed over",
                    WHERE, "detection %d: %s" % (k, sorted(d)),
                    "flags handed over|%d" % k)


def none_or_one(chk):
    one = [(20, 500, 0)]
    for name, ans, least in (
            ("no detection", [([],), ([],)], 20),
            ("one detection", [(one,), ([],)], 20),
            ("one with the lower threshold", [([],), (one,)], 20),
            ("none and none asked", [([],)], 0),
            ("one and one asked", [(one,)], 1)):
        o = detect(chk, ans, least=least)
        ok = o["wrong"] == "raises ['ValueError']" or o["wrong"] and \
            o["wrong"].startswith("raises") and "ValueError" in \
            o["wrong"] and all(x.strip(" '") in ("ValueError", "Exception")
                               for x in o["wrong"][8:-1].split(","))
        chk.require(bool(ok), "too few sources", WHERE, "%s: %s" % (
            name, o["wrong"] or "no error"), "too few sources|" + name)


def too_many(chk):
    small.LIMIT, old = 40000, small.LIMIT
    try:
        for m, gone in ((1800, ()), (1801, ()), (1806, (0, 3, 7, 1805))):
            rows = [(20, 500, 1 if k in gone else 0) for k in range(m)]
            o = detect(chk, [(rows,)], least=0)
            n = m - len(gone)
            good = [k for k in range(m) if k not in gone]
            name = "%d good ones of %d sources" % (n, m)
            if o["wrong"]:
                chk.require(False, "upper limit", WHERE, "%s: %s" % (
                    name, o["wrong"]), "upper limit|" + name)
                continue
            ls = labels(o["t"])
            if n == 1800:
                chk.require(None if ls is None else ls == list(range(n)),
                            "upper limit", WHERE, "%s: %s listed" % (
                                name, ls and len(ls)), "upper limit|" + name)
                continue
            if ls is not None:
                chk.require(len(ls) == 1800 and len(set(ls)) == 1800
                            and set(ls) <= set(good), "upper limit", WHERE, "%s: %d listed" % (
                                name, len(ls)), "upper limit|" + name)
                continue
            t = o["t"]
            d = {}
            if t.op == "item" and labels(t.args[0]) not in (None, good):
                chk.require(False, "upper limit", WHERE, "%s: picked among "
                            "others too" % name, "upper limit|" + name)
                continue
            if t.op == "item" and labels(t.args[0]) == good and \
                    t.args[1].op == "call" and \
                    t.args[1].args[0].endswith("choice"):
                pos, kw = small.kws(t.args[1])
                d = dict(zip(("rng", "a", "size", "replace"), pos), **kw)
            ok = d.get("a") in (const(n), mk("arange", const(n))) and \
                d.get("size") is const(1800) and \
                d.get("replace") is tm.FALSE
            chk.require(ok if d else None, "upper limit", WHERE,
                        "%s: picked by %s" % (name, tm.show(
                            t.args[1] if d else t)[:300]),
                        "upper limit|" + name)
    finally:
        small.LIMIT = old


def renewed(chk):
    """Asked to look again, or handed a catalogue."""
    a, b = [(20, 500, 0)] * 6, [(20, 500, 0)] * 8
    for given, first in ((False, True), (True, True), (False, False),
                         (True, False)):
        det = Detector([(a,), (b, 50)] if first else [(b, 50)])
        cuts = {}
        cuts["ext:sep.extract"] = det.cut()
        cuts["SingleImage.stamps_pos"] = lambda I, r, nd: I.new(sym("pos"))
        cuts["SingleImage.n_sources"] = lambda I, r, nd: I.new(sym("n"))
        s = chk.session(cuts, {})
        I, out = s.I, {}

        def go(I_):
            r = built(s, 0, **({} if first else {
                "stamp_shape": VTuple([const(11), const(11)])}))
            if first:
                out["before"] = I.term(I.getattr(r, "best_sources", None))
            I.call(I.getattr(r, "update_sources", None),
                   [I.new(table(b, 50))] if given else [], {}, None)
            out["after"] = I.term(I.getattr(r, "best_sources", None))
        wrong = guarded(I, go)
        chk.done(s)
        name = "given" if given else "detected again"
        if not first:
            name += " (not detected before)"
        if wrong:
            chk.require(False, "renewed", WHERE, "%s: %s" % (name, wrong),
                        "renewed|" + name)
            continue
        ls = labels(out["after"])
        chk.require(None if ls is None else ls == [50 + k for k in
                                                   range(8)],
                    "renewed", WHERE, "%s: catalogue %s" % (name, ls),
                    "renewed|" + name)
