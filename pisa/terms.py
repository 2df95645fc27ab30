"""Hash-consed terms in an algebraic normal form (the value-number domain).

Every abstract value of the analysis is (or can be turned into) a term.  The
smart constructors below keep terms normalised, so that two program fragments
computing the same expression by different routes get the very same object:

* sums and products are kept as canonical polynomials with rational exponents
  (division and square roots are powers), conjugation, real parts and
  multiplication by fourier phases are pushed to the leaves;
* masked arrays are explicit (data, mask) pairs and masks are canonical
  unions;
* `ite` is the gate of gated SSA form (a join of two branches).
"""

from fractions import Fraction
import math
import re
import sys

sys.setrecursionlimit(20000)


class T(object):
    """A hash-consed term."""

    __slots__ = ("op", "args", "id", "_memo")
    table = {}

    def __repr__(self):
        return show(self)


def mk(op, *args):
    """Make a raw term (no normalisation)."""
    if op == "mul":
        args = tuple(Fraction(a) if type(a) is int else a for a in args)
    key = (op,) + tuple(
        (a.id if isinstance(a, T) else ("c", type(a).__name__, a))
        for a in args
    )
    t = T.table.get(key)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        t.id = len(T.table) + 1
        t._memo = {}
        T.table[key] = t
    return t


# ---------------------------------------------------------------- constants

def const(v):
    if isinstance(v, bool) or v is None or isinstance(v, (str, bytes)):
        return mk("const", v)
    if isinstance(v, int):
        return mk("num", Fraction(v))
    if isinstance(v, float):
        if v != v or v in (float("inf"), float("-inf")):
            return mk("const", repr(v))
        return mk("num", Fraction(repr(v)))
    if isinstance(v, Fraction):
        return mk("num", v)
    if v is Ellipsis:
        return mk("const", "...")
    if isinstance(v, complex):
        return add(const(v.real), mul(I, const(v.imag)))
    raise TypeError(v)


def sym(name, *more):
    return mk("sym", name, *more)


TRUE = mk("const", True)
FALSE = mk("const", False)
NONE = mk("const", None)
ZERO = mk("num", Fraction(0))
ONE = mk("num", Fraction(1))
NEG1 = mk("num", Fraction(-1))
HALF = Fraction(1, 2)
I = mk("imagunit")
NAN = mk("const", "nan")
INF = mk("const", "inf")


def is_const(t):
    return isinstance(t, T) and t.op in ("const", "num")


def is_num(t):
    return isinstance(t, T) and t.op == "num"


def pyval(t):
    """Python value of a constant term (ints come back as ints)."""
    if t.op == "num":
        v = t.args[0]
        return int(v) if v.denominator == 1 else float(v)
    if t is NAN:
        return float("nan")
    if t is INF:
        return float("inf")
    return t.args[0]


def truth(t):
    """True / False / None (unknown) for a condition term."""
    if t is TRUE:
        return True
    if t in (FALSE, NONE):
        return False
    if t.op == "num":
        return t.args[0] != 0
    if t.op == "const":
        return bool(t.args[0])
    if t.op in ("tuple", "list"):
        return len(t.args) > 0
    return None


def fact(t):
    """truth, but a spelled-out array of flags is not one truth value."""
    if t.op in ("tuple", "list") and any(
            a is TRUE or a is FALSE or a.op in ("list", "tuple")
            for a in t.args):
        return None
    return truth(t)


# ------------------------------------------------------------- polynomials
#
# poly term:  mk("poly", (mono, coef), ...)  stored as op "add" with children
# "mono" terms.  A monomial is mk("mul", coefnum, base1, exp1, base2, exp2...).

def _split(t):
    """term -> {monomial key: Fraction}; key = sorted tuple of (base, exp)."""
    if t.op == "num":
        return {(): t.args[0]} if t.args[0] != 0 else {}
    if t.op == "add":
        out = {}
        for m in t.args:
            out.update(_split(m))
        return out
    if t.op == "mul":
        c = t.args[0]
        key = tuple(zip(t.args[1::2], t.args[2::2]))
        return {key: c}
    return {((t, Fraction(1)),): Fraction(1)}


def _mono(key, c):
    if c == 0:
        return ZERO
    if not key:
        return mk("num", c)
    if c == 1 and len(key) == 1 and key[0][1] == 1:
        return key[0][0]
    flat = []
    for b, e in key:
        flat += [b, e]
    return mk("mul", c, *flat)


def _join(d):
    d = {k: c for k, c in d.items() if c != 0}
    # complex recombination: real(X)*m + I*imag(X)*m -> X*m
    if len(d) > 1:
        d = _recombine(d)
        d = _square_recombine(d)
        d = _cancel(d)
    # zeros arrays are neutral as soon as something else is there
    if len(d) > 1:
        nz = {k: c for k, c in d.items()
              if not any(b.op == "zeros" for b, e in k)}
        if nz:
            d = nz
    if not d:
        return ZERO
    if len(d) == 1:
        (k, c), = d.items()
        return _mono(k, c)
    monos = sorted((_mono(k, c) for k, c in d.items()), key=lambda t: t.id)
    return mk("add", *monos)


def _recombine(d):
    changed = True
    while changed:
        changed = False
        for k, c in list(d.items()):
            im = [b for b, e in k if b.op == "imag" and e == 1]
            if not im or (I, Fraction(1)) not in k:
                continue
            for b in im:
                rest = [(x, e) for x, e in k if x is not b and x is not I]
                want = tuple(sorted(
                    rest + [(mk("real", b.args[0]), Fraction(1))],
                    key=lambda p: p[0].id))
                if d.get(want) == c:
                    del d[k], d[want]
                    x = mul(b.args[0], _mono(tuple(rest), c))
                    for kk, cc in _split(x).items():
                        d[kk] = d.get(kk, 0) + cc
                    d = {kk: cc for kk, cc in d.items() if cc != 0}
                    changed = True
                    break
            if changed:
                break
    return d


def _cancel(d):
    """x m / (x + y) + y m / (x + y) -> m."""
    bases = {}
    for k in d:
        for b, e in k:
            if b.op == "add" and e <= -1:
                bases.setdefault(b, []).append(k)
    for b, ks in sorted(bases.items(), key=lambda p: p[0].id):
        n = len(b.args)
        if len(ks) < n or n > 24 or len(ks) > 96:
            continue
        nb = _split(b)
        k0 = next(iter(nb))
        inv0 = {x: -e for x, e in k0}
        if any(x.op == "add" for x in inv0):
            continue
        pool = {k: d[k] for k in ks}
        for k in ks:
            if k not in pool:
                continue
            # candidate quotient m (still divided by b)
            q = dict(k)
            for x, e in inv0.items():
                q[x] = q.get(x, 0) + e
            q = tuple(sorted(((x, e) for x, e in q.items() if e != 0),
                             key=lambda p: p[0].id))
            c = pool[k] / nb[k0]
            full = {}
            for kb, cb in nb.items():
                m = dict(q)
                for x, e in kb:
                    m[x] = m.get(x, 0) + e
                m = tuple(sorted(((x, e) for x, e in m.items() if e != 0),
                                 key=lambda p: p[0].id))
                full[m] = cb * c
            if all(pool.get(m) == v for m, v in full.items()):
                d = dict(d)
                for m in full:
                    del d[m], pool[m]
                rest = dict(q)
                rest[b] = rest[b] + 1
                if rest[b] == 0:
                    del rest[b]
                m = tuple(sorted(rest.items(), key=lambda p: p[0].id))
                d[m] = d.get(m, 0) + c
                return _cancel({k_: v for k_, v in d.items() if v != 0})
    return d


def _square_recombine(d):
    """real(x)^2 m + imag(x)^2 m -> x conj(x) m."""
    for k, c in list(d.items()):
        if k not in d:
            continue
        for b, e in k:
            if b.op == "imag" and e == 2:
                rest = [(x, ee) for x, ee in k if x is not b]
                want = tuple(sorted(
                    rest + [(mk("real", b.args[0]), Fraction(2))],
                    key=lambda p: p[0].id))
                if d.get(want) == c:
                    d = dict(d)
                    del d[k], d[want]
                    x = mul(b.args[0], conj(b.args[0]),
                            _mono(tuple(rest), c))
                    for kk, cc in _split(x).items():
                        d[kk] = d.get(kk, 0) + cc
                    return _square_recombine(d)
    return d


def add(*ts):
    ms = [t for t in ts if t.op == "ma"]
    if ms:
        return ma(add(*[mdata(t) for t in ts]), m_or(*[mmask(t) for t in ts]))
    d = {}
    for t in ts:
        for k, c in _split(t).items():
            d[k] = d.get(k, 0) + c
    return _join(d)


def neg(t):
    return mul(NEG1, t)


def sub(a, b):
    return add(a, neg(b))


LIMIT = 3000


def mul(*ts):
    if any(t.op == "ma" for t in ts):
        return ma(mul(*[mdata(t) for t in ts]), m_or(*[mmask(t) for t in ts]))
    acc = {(): Fraction(1)}
    for t in ts:
        if t.op == "zeros":
            return t
        d = _split(t)
        if len(acc) * len(d) > LIMIT:
            a, b = _join(acc), t
            return mk("bigmul", *sorted((a, b), key=lambda x: x.id))
        out = {}
        extra = []
        for k1, c1 in acc.items():
            for k2, c2 in d.items():
                k, c, more = _mulkey(k1, k2)
                if more is not None:
                    extra.append((more, c * c1 * c2))
                else:
                    out[k] = out.get(k, 0) + c * c1 * c2
        for t2, c in extra:
            for k, cc in _split(t2).items():
                out[k] = out.get(k, 0) + c * cc
        acc = out
    return _join(acc)


def _mulkey(k1, k2):
    """Multiply two monomial keys; returns key, coef, term-or-None."""
    d = {}
    for b, e in k1:
        d[b] = d.get(b, 0) + e
    for b, e in k2:
        d[b] = d.get(b, 0) + e
    coef = Fraction(1)
    ph = [(b, e) for b, e in d.items() if b.op == "phase"]
    if len(ph) > 1 or (ph and ph[0][1] != 1):
        tot = None
        for b, e in ph:
            del d[b]
            s = tuple(mul(x, mk("num", Fraction(e))) for x in b.args)
            tot = s if tot is None else tuple(
                add(x, y) for x, y in zip(tot, s))
        p = phase(*tot)
        if p is not ONE:
            d[p] = d.get(p, 0) + 1
    if I in d:
        e = d.pop(I)
        if e.denominator == 1:
            n = int(e) % 4
            if n in (1, 3):
                d[I] = Fraction(1)
            if n in (2, 3):
                coef = -coef
        else:
            d[I] = e
    special = None
    for b in list(d):
        e = d[b]
        if e == 0:
            del d[b]
        elif b.op == "abs" and e.denominator == 1 and abs(e) >= 2:
            # |x|^2 = x conj(x)
            n = int(e)
            half, odd = divmod(abs(n), 2)
            s = 1 if n > 0 else -1
            del d[b]
            if odd:
                d[b] = Fraction(s)
            x = b.args[0]
            special = mul(special or ONE, pow_(mul(x, conj(x)),
                                               mk("num", Fraction(s * half))))
        elif b.op == "add" and e.denominator == 1 and e >= 1:
            del d[b]
            special = mul(special or ONE, _ipow(b, int(e)))
        elif b.op == "num" and e.denominator == 1:
            del d[b]
            coef *= b.args[0] ** int(e)
        elif b.op in ("fft2", "ifft2") and False:
            pass
    key = tuple(sorted(d.items(), key=lambda p: p[0].id))
    if special is not None:
        return None, coef, mul(special, _mono(key, Fraction(1)))
    return key, coef, None


def _ipow(t, n):
    out = ONE
    for _ in range(n):
        out = mul(out, t)
    return out


def pow_(a, b):
    """a ** b"""
    if a.op == "ma":
        return ma(pow_(mdata(a), b), mmask(a))
    if b.op == "num":
        e = b.args[0]
        if e == 0:
            return ONE
        if e == 1:
            return a
        if a.op == "num":
            v = a.args[0]
            if e.denominator == 1 and abs(e) < 64 and (v != 0 or e > 0):
                return mk("num", v ** int(e))
            if v > 0:
                # exact roots only
                n = _iroot(v.numerator, e.denominator)
                d = _iroot(v.denominator, e.denominator)
                if n is not None and d is not None:
                    return mk("num", Fraction(n, d) ** e.numerator)
            if v == 0:
                return mk("const", "0/0") if e < 0 else ZERO
            return _mono(((a, e),), Fraction(1))
        if a.op == "add":
            if e.denominator == 1 and 0 < e <= 6:
                return _ipow(a, int(e))
            return _powsum(a, e)
        if a.op == "mul":
            c = a.args[0]
            out = pow_(mk("num", c), b) if c != 1 else ONE
            for base, ex in zip(a.args[1::2], a.args[2::2]):
                out = mul(out, _atompow(base, ex * e))
            return out
        return _atompow(a, e)
    return mk("pow", a, b)


def _atompow(base, e):
    if e == 0:
        return ONE
    if base.op == "add":
        if e.denominator == 1 and e > 0:
            return _ipow(base, int(e))
        return _powsum(base, e)
    k, c, more = _mulkey(((base, e),), ())
    if more is not None:
        return more
    return _mono(k, c)


def _powsum(a, e):
    """Power of a sum with a negative or fractional exponent.

    Pull out the numeric content, and for integer exponents the monomial
    content too, so that equal sums meet in one base.
    """
    d = _split(a)
    out = ONE
    keys = list(d)
    lead = min(keys, key=lambda k: [(b.id, x) for b, x in k])
    c = d[lead]
    if e.denominator != 1:
        c = abs(c)
    if c != 1:
        d = {k: v / c for k, v in d.items()}
        out = pow_(mk("num", c), mk("num", e))
    if e.denominator == 1:
        common = None
        for k in d:
            kk = dict(k)
            if common is None:
                common = kk
            else:
                common = {b: min(x, kk[b]) for b, x in common.items()
                          if b in kk}
        common = {b: x for b, x in (common or {}).items() if x != 0}
        if common:
            inv = {b: -x for b, x in common.items()}
            inv = tuple(sorted(inv.items(), key=lambda p: p[0].id))
            rest = mul(_join(d), _mono(inv, Fraction(1)))
            com = tuple(sorted(((b, x * e) for b, x in common.items()),
                               key=lambda p: p[0].id))
            out = mul(out, _mono(com, Fraction(1)))
            if rest.op != "add":
                return mul(out, pow_(rest, mk("num", e)))
            return mul(out, mk("mul", Fraction(1), rest, e))
    base = _join(d)
    if base.op != "add":
        return mul(out, pow_(base, mk("num", e)))
    p = mk("mul", Fraction(1), base, e)
    return p if out is ONE else mul(out, p)


def _iroot(n, k):
    if k == 1:
        return n
    r = round(n ** (1.0 / k))
    for x in (r - 1, r, r + 1):
        if x >= 0 and x ** k == n:
            return x
    return None


def div(a, b):
    return mul(a, pow_(b, NEG1))


def sqrt(a):
    return pow_(a, mk("num", HALF))


# ----------------------------------------------------------- complex things

FACT_HOOK = []     # (op, term) -> bool|None: is 0 op term known?
SCALAR_HOOK = []   # callables term -> bool|None  (is it a scalar?)
REAL_HOOK = []     # callables term -> bool|None  (is it real valued?)

REAL_OPS = {
    "real", "imag", "abs", "len", "num", "zeros", "ones", "mmask", "lt",
    "le", "eq", "ne", "not", "and", "or", "mor", "isnan", "isfinite",
    "com", "round", "int", "bv", "argmax", "np_sum_real", "center_of_mass",
    "mgrid", "grid", "size", "shape", "ndim", "invert", "any", "all", "floor", "ceil",
    "numpy.arange", "numpy.linspace", "arctan", "bool", "float",
}


def memo(name):
    def deco(f):
        def g(t):
            m = t._memo.get(name)
            if m is None:
                m = f(t)
                t._memo[name] = m
            return m
        return g
    return deco


@memo("isreal")
def is_real(t):
    for h in REAL_HOOK:
        r = h(t)
        if r is not None:
            return r
    if t.op in REAL_OPS:
        return True
    if t is I or t.op == "phase":
        return False
    if t.op == "const":
        return True
    if t.op == "add":
        return all(is_real(a) for a in t.args)
    if t.op == "mul":
        # pair x with conj(x)
        d = dict(zip(t.args[1::2], t.args[2::2]))
        for b, e in d.items():
            if is_real(b):
                continue
            if d.get(conj(b)) == e:
                continue
            return False
        return True
    if t.op in ("item", "elem", "setitem", "reshape", "roll", "transpose",
                "astype", "mean", "sum", "max", "min", "median", "copy"):
        a = [x for x in t.args if isinstance(x, T)]
        if t.op == "setitem":
            return is_real(a[0]) and is_real(a[2])
        return is_real(a[0])
    if t.op == "ite":
        return is_real(t.args[1]) and is_real(t.args[2])
    if t.op == "lv":
        return t.args[2] in ("s", "r")
    if t.op == "sumover":
        return is_real(t.args[2])
    return False


@memo("conj")
def conj(t):
    if is_real(t):
        return t
    if t is I:
        return neg(I)
    if t.op == "ma":
        return ma(conj(mdata(t)), mmask(t))
    if t.op == "conj":
        return t.args[0]
    if t.op == "phase":
        return phase(*[neg(x) for x in t.args])
    if t.op == "add":
        return add(*[conj(x) for x in t.args])
    if t.op == "mul":
        out = mk("num", t.args[0])
        for b, e in zip(t.args[1::2], t.args[2::2]):
            out = mul(out, pow_(conj(b), mk("num", e)))
        return out
    if t.op == "ite":
        return ite(t.args[0], conj(t.args[1]), conj(t.args[2]))
    if t.op in ("sumover",):
        return mk(t.op, t.args[0], t.args[1], conj(t.args[2]))
    return mk("conj", t)


def _linear(t, f):
    """Distribute a real-linear unary operator f over sums and real factors."""
    if t.op == "add":
        return add(*[f(x) for x in t.args])
    return None


@memo("real")
def real(t):
    if is_real(t):
        return t
    if t.op == "ma":
        return ma(real(mdata(t)), mmask(t))
    if t is I:
        return ZERO
    r = _linear(t, real)
    if r is not None:
        return r
    if t.op == "mul":
        reals, cplx = _split_real(t)
        if cplx.op == "mul" and I in cplx.args[1::2]:
            return mul(reals, neg(imag(_drop_i(cplx))))
        if reals is not ONE:
            return mul(reals, real(cplx))
    if t.op == "conj":
        return real(t.args[0])
    if t.op == "ite":
        return ite(t.args[0], real(t.args[1]), real(t.args[2]))
    return mk("real", t)


@memo("imag")
def imag(t):
    if is_real(t):
        return ZERO
    if t.op == "ma":
        return ma(imag(mdata(t)), mmask(t))
    if t is I:
        return ONE
    r = _linear(t, imag)
    if r is not None:
        return r
    if t.op == "mul":
        reals, cplx = _split_real(t)
        if cplx.op == "mul" and I in cplx.args[1::2]:
            return mul(reals, real(_drop_i(cplx)))
        if reals is not ONE:
            return mul(reals, imag(cplx))
    if t.op == "conj":
        return neg(imag(t.args[0]))
    if t.op == "ite":
        return ite(t.args[0], imag(t.args[1]), imag(t.args[2]))
    return mk("imag", t)


def _drop_i(t):
    out = mk("num", t.args[0])
    for b, e in zip(t.args[1::2], t.args[2::2]):
        if b is not I:
            out = mul(out, _atompow(b, e))
    return out


def _split_real(t):
    d = list(zip(t.args[1::2], t.args[2::2]))
    dd = dict(d)
    reals = mk("num", t.args[0])
    cplx = ONE
    done = set()
    for b, e in d:
        if b in done:
            continue
        cb = conj(b)
        if is_real(b):
            reals = mul(reals, _atompow(b, e))
        elif cb is not b and dd.get(cb) == e:
            done.add(cb)
            reals = mul(reals, _atompow(b, e), _atompow(cb, e))
        else:
            cplx = mul(cplx, _atompow(b, e))
    return reals, cplx


def abs_(t):
    if t.op == "ma":
        return ma(abs_(mdata(t)), mmask(t))
    if t.op == "num":
        return mk("num", abs(t.args[0]))
    if t.op == "mul":
        out = mk("num", abs(t.args[0]))
        for b, e in zip(t.args[1::2], t.args[2::2]):
            out = mul(out, pow_(abs_(b), mk("num", e)))
        return out
    if t.op in ("abs", "len"):
        return t
    if t.op == "conj":
        return abs_(t.args[0])
    if t.op == "phase":
        return ONE
    if t.op == "add":
        # |x| = |-x|
        m = neg(t)
        return mk("abs", t if t.id < m.id else m)
    return mk("abs", t)


def phase(*s):
    if all(x is ZERO for x in s):
        return ONE
    return mk("phase", *s)


# ------------------------------------------------------------ masked arrays

def ma(data, mask):
    return mk("ma", data, mask)


MASKED_HOOK = []   # term -> bool: is this symbol a masked array


@memo("ismasked")
def is_masked(t):
    if t.op == "ma":
        return True
    if t.op == "ite":
        return is_masked(t.args[1]) and is_masked(t.args[2])
    return any(h(t) for h in MASKED_HOOK)


def mdata(t):
    if t.op == "ma":
        return t.args[0]
    if t.op == "ite" and is_masked(t):
        return ite(t.args[0], mdata(t.args[1]), mdata(t.args[2]))
    if is_masked(t):
        return mk("mdata", t)
    return t


def mmask(t):
    if t.op == "ma":
        return t.args[1]
    if t.op == "ite" and is_masked(t):
        return ite(t.args[0], mmask(t.args[1]), mmask(t.args[2]))
    if is_masked(t):
        return mk("mmask", t)
    return FALSE


def m_or(*ts):
    """Canonical union of masks."""
    out = set()

    def rec(t):
        if t.op == "mor":
            for a in t.args:
                rec(a)
        elif t is FALSE or t is ZERO or t is NONE or t.op == "zeros":
            return
        else:
            out.add(t)

    for t in ts:
        rec(t)
    if TRUE in out:
        return TRUE
    for x in out:
        if lnot(x) in out:
            return TRUE
    if not out:
        for t in ts:
            if t.op == "zeros":
                return t
        return FALSE
    if len(out) == 1:
        return out.pop()
    return mk("mor", *sorted(out, key=lambda t: t.id))


def m_and(*ts):
    return lnot(m_or(*[lnot(t) for t in ts]))


# ----------------------------------------------------------------- booleans

@memo("lnot")
def lnot(t):
    v = fact(t)
    if v is not None and t.op != "zeros":
        return FALSE if v else TRUE
    if t.op == "not":
        return t.args[0]
    if t.op == "zeros":
        return TRUE
    if t.op == "lt":
        # order atoms: not (a < b)  ==  b <= a (NaN aside, kept explicit)
        return mk("not", t)
    return mk("not", t)


def land(*ts):
    out = []
    for t in ts:
        v = fact(t)
        if v is True:
            continue
        if v is False:
            return FALSE
        if t.op == "and":
            for x in t.args:
                if x not in out:
                    out.append(x)
        elif t not in out:
            out.append(t)
    for x in out:
        if lnot(x) in out:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk("and", *sorted(out, key=lambda t: t.id))


def lor(*ts):
    return lnot(land(*[lnot(t) for t in ts]))


def cmp_(op, a, b):
    """op in lt, le, gt, ge, eq, ne, is, isnot, in, notin"""
    if op == "gt":
        return cmp_("lt", b, a)
    if op == "ge":
        return cmp_("le", b, a)
    if op == "ne":
        return lnot(cmp_("eq", a, b))
    if op == "isnot":
        return lnot(cmp_("is", a, b))
    if op == "notin":
        return lnot(cmp_("in", a, b))
    if a.op == "ma" or b.op == "ma":
        return ma(cmp_(op, mdata(a), mdata(b)), m_or(mmask(a), mmask(b)))
    if is_const(a) and is_const(b):
        x, y = pyval(a), pyval(b)
        if INF in (a, b) and op in ("lt", "le") and (
                a.op == "num" or b.op == "num" or a is b):
            x, y = [float("inf") if z is INF else w
                    for z, w in ((a, x), (b, y))]
        try:
            if op == "lt":
                return const(bool(x < y))
            if op == "le":
                return const(bool(x <= y))
            if op in ("eq", "is"):
                return const(bool(x == y and (
                    op == "eq" or (x is None) == (y is None))))
            if op == "in" and isinstance(y, str):
                return const(x in y)
        except TypeError:
            pass
    if op in ("eq", "is") and a is b:
        return TRUE
    if op == "is" and NONE in (a, b):
        o = b if a is NONE else a
        if o.op in NOT_NONE or any(h("isnone", o) is False
                                   for h in FACT_HOOK):
            return FALSE
    if op in ("lt", "le", "eq") and a.op != "const" and b.op != "const":
        # move everything numeric to one side: a < b  <=>  0 < b - a
        if a.op not in ("tuple", "list", "str") and b.op not in (
                "tuple", "list", "str"):
            d = sub(b, a)
            if is_num(d):
                v = d.args[0]
                return const({"lt": v > 0, "le": v >= 0, "eq": v == 0}[op])
            v = approx(d)
            if v is not None and abs(v) > 1e-9:
                return const({"lt": v > 0, "le": v > 0, "eq": False}[op])
            return _cmpnorm(op, d)
    if op == "eq":
        if a.op == "tuple" and b.op == "tuple":
            if len(a.args) != len(b.args):
                return FALSE
            return land(*[cmp_("eq", x, y) for x, y in zip(a.args, b.args)])
        if a.id > b.id:
            a, b = b, a
        return mk("eq2", a, b)
    if op in ("lt", "le"):
        return mk(op + "2", a, b)
    if op == "is":
        if a.id > b.id:
            a, b = b, a
    if op == "in" and b.op in ("tuple", "list"):
        if all(is_const(x) for x in b.args) and is_const(a):
            return const(a in b.args)
    return mk(op, a, b)


NOT_NONE = {"num", "tuple", "list", "dict", "zeros", "ones", "add", "mul",
            "ma", "shape", "len", "lam", "str", "fft2", "ifft2", "inst",
            "call", "mgrid", "sumover", "tab", "rec", "array", "arange"}


def approx(t):
    """Value of an expression of known numbers, or None."""
    if t.op == "num":
        return float(t.args[0])
    if "approx" in t._memo:
        return t._memo["approx"]
    try:
        v = _approx(t)
    except (OverflowError, ValueError, ZeroDivisionError):
        v = None
    if isinstance(v, complex) or v != v:
        v = None
    t._memo["approx"] = v
    return v


def _j(n, x):
    """Bessel function of integer order (trapezoid rule, periodic)."""
    m = 64 + 4 * int(abs(x))
    return sum(math.cos(n * k * math.pi / m - x * math.sin(k * math.pi / m))
               * (0.5 if k in (0, m) else 1) for k in range(m + 1)) / m


def _normal(x, m, s):
    return math.exp(-((x - m) / s) ** 2 / 2) / (s * math.sqrt(2 * math.pi))


def _same_names(*mods):
    return {"%s.%s" % (m, f): f for m in mods for f in (
        "exp", "log", "sin", "cos", "tan", "sqrt", "hypot", "atan2", "fabs",
        "log10", "log2", "expm1", "log1p", "sinh", "cosh", "tanh", "gamma",
        "radians", "degrees", "erf")}


NUMERIC = {k: getattr(math, f) for k, f in
           _same_names("numpy", "math", "scipy.special").items()}
NUMERIC.update({
    "numpy.arctan2": math.atan2, "numpy.arctan": math.atan,
    "numpy.square": lambda x: x * x, "numpy.absolute": abs,
    "numpy.power": lambda x, y: x ** y, "numpy.exp2": lambda x: 2 ** x,
    "scipy.special.j1": lambda x: _j(1, x),
    "scipy.special.j0": lambda x: _j(0, x),
    "scipy.special.jv": lambda n, x: _j(n, x),
    "scipy.special.jn": lambda n, x: _j(n, x)})


def _model(t, vs):
    """Value of an astropy Gaussian at known coordinates."""
    if t.op != "call":
        return None
    name = t.args[0].rpartition(".")[2]
    names = {"Gaussian2D": ("amplitude", "x_mean", "y_mean", "x_stddev",
                            "y_stddev"),
             "Gaussian1D": ("amplitude", "mean", "stddev")}.get(name)
    if names is None:
        return None
    pos = [a for a in t.args[1:] if a.op != "kw"]
    kw = dict(zip(names, pos))
    kw.update({a.args[0]: a.args[1] for a in t.args[1:] if a.op == "kw"})
    if kw.pop("theta", ZERO) not in (ZERO, NONE):
        return None
    if set(kw) - set(names) or len(pos) > len(names):
        return None
    d = {n: 0. if "mean" in n else 1. for n in names}
    for k, v in kw.items():
        d[k] = approx(v)
        if d[k] is None:
            return None
    n = len(names) // 2
    q = [(d[names[1 + i]], d[names[1 + n + i]]) for i in range(n)]
    if len(vs) != len(q):
        return None
    return d["amplitude"] * math.exp(-sum(
        ((x - m) / s) ** 2 for x, (m, s) in zip(vs, q)) / 2)


def _approx(t):
    if t.op not in ("add", "mul", "pow", "abs", "call", "pdf", "apply"):
        return None
    if t.op == "call" and (t.args[0] not in NUMERIC and not
                           re.match(r"scipy\.special\.\w+\.j[1nv0]$",
                                    t.args[0])):
        return None
    vs = []
    for a in t.args[1:] if t.op in ("call", "mul", "apply") else t.args:
        if isinstance(a, T):
            a = approx(a)
            if a is None:
                return None
        vs.append(float(a))
    if t.op == "add":
        return sum(vs)
    if t.op == "mul":
        v = float(t.args[0])
        for b, e in zip(vs[::2], vs[1::2]):
            v *= b ** e
        return v
    if t.op == "pow":
        return vs[0] ** vs[1]
    if t.op == "abs":
        return abs(vs[0])
    if t.op == "pdf":
        return _normal(*vs)
    if t.op == "apply":
        return _model(t.args[0], vs)
    f = NUMERIC.get(t.args[0]) or NUMERIC[
        "scipy.special." + t.args[0].rpartition(".")[2]]
    try:
        return f(*vs)
    except TypeError:
        return None


def _cmpnorm(op, d):
    """0 op d, with d scaled to a canonical positive multiple."""
    for h in FACT_HOOK:
        v = h(op, d)
        if v is not None:
            return const(v)
    ks = _split(d)
    lead = min((k for k in ks), key=lambda k: [(b.id, x) for b, x in k])
    c = abs(ks[lead])
    if c != 1:
        d = mul(d, mk("num", 1 / c))
    if op == "eq":
        m = neg(d)
        if m.id < d.id:
            d = m
    return mk(op, d)


def ite(c, a, b):
    v = truth(c)
    if v is True:
        return a
    if v is False:
        return b
    if a is b:
        return a
    if c.op == "not":
        return ite(c.args[0], b, a)
    a = assume(a, c, True)
    b = assume(b, c, False)
    if a is b:
        return a
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return lnot(c)
    if a.op == "ma" and b.op == "ma":
        return ma(ite(c, a.args[0], b.args[0]), ite(c, a.args[1], b.args[1]))
    if a.op == "tuple" and b.op == "tuple" and len(a.args) == len(b.args):
        return mk("tuple", *[ite(c, x, y) for x, y in zip(a.args, b.args)])
    return mk("ite", c, a, b)


def assume(t, c, val):
    """Simplify the top-level gates of t knowing that c is val."""
    if t.op == "ite":
        if t.args[0] is c:
            return assume(t.args[1] if val else t.args[2], c, val)
        a, b = assume(t.args[1], c, val), assume(t.args[2], c, val)
        if a is not t.args[1] or b is not t.args[2]:
            return ite(t.args[0], a, b)
    elif t is c:
        return const(val) if t.op != "ite" else t
    return t


# ------------------------------------------------------------ generic tools

def rebuild(t, args):
    """Rebuild t with new children through the smart constructors."""
    op = t.op
    f = CONSTRUCTORS.get(op)
    if f is not None:
        return f(*args)
    if op == "mul":
        out = mk("num", args[0])
        for b, e in zip(args[1::2], args[2::2]):
            out = mul(out, pow_(b, mk("num", e)))
        return out
    return mk(op, *args)


def _un_cmp(op):
    def f(d):
        if is_num(d):
            v = d.args[0]
            return const({"lt": v > 0, "le": v >= 0, "eq": v == 0}[op])
        return _cmpnorm(op, d)
    return f


CONSTRUCTORS = {
    "add": add, "ite": ite, "conj": conj, "real": real, "imag": imag,
    "abs": abs_, "phase": phase, "ma": ma, "mdata": mdata, "mmask": mmask,
    "mor": m_or, "not": lnot, "and": land, "lt": _un_cmp("lt"),
    "le": _un_cmp("le"), "eq": _un_cmp("eq"), "pow": pow_,
    "eq2": lambda a, b: cmp_("eq", a, b),
    "lt2": lambda a, b: cmp_("lt", a, b),
    "le2": lambda a, b: cmp_("le", a, b),
    "is": lambda a, b: cmp_("is", a, b),
    "in": lambda a, b: cmp_("in", a, b),
    "bigmul": mul,
}


def rewrite(t, f, cache=None):
    """Bottom-up rewriting: f(term) -> term or None (keep)."""
    if cache is None:
        cache = {}
    r = cache.get(t)
    if r is not None:
        return r
    pre = f(t, True) if getattr(f, "pre", False) else None
    if pre is not None:
        cache[t] = pre
        return pre
    args = tuple(
        rewrite(a, f, cache) if isinstance(a, T) else a for a in t.args)
    n = t
    if any(x is not y for x, y in zip(args, t.args)):
        n = rebuild(t, args)
    m = f(n, False) if getattr(f, "pre", False) else f(n)
    if m is not None:
        n = m
    cache[t] = n
    return n


def subst(t, mapping):
    """Simultaneous substitution of subterms (top-down)."""
    if not mapping:
        return t

    def f(x, pre):
        if pre:
            return mapping.get(x)
        return None
    f.pre = True
    return rewrite(t, f)


def subterms(t, seen=None):
    """All distinct subterms."""
    if seen is None:
        seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        stack.extend(a for a in x.args if isinstance(a, T))
    return seen


def contains(t, pred):
    return any(pred(x) for x in subterms(t))


def leaves(t):
    return {x for x in subterms(t)
            if x.op in ("sym", "unk") and True}


PREC = {"add": 1, "mul": 2}


def show(t, depth=0, limit=14):
    return _show(t, depth, limit, {})


def _show(t, depth, limit, memo):
    if not isinstance(t, T):
        return str(t)
    if depth > limit:
        return "…"
    if (t, depth) not in memo:
        x = _show_one(t, lambda x: _show(x, depth + 1, limit, memo))
        memo[t, depth] = x if len(x) < LONG else x[:LONG] + "…"
    return memo[t, depth]


LONG = 20000


def _show_one(t, s):
    o = t.op
    if o == "num":
        v = t.args[0]
        return str(v) if v.denominator < 100 else "%.6g" % float(v)
    if o == "const":
        return repr(t.args[0])
    if o in ("sym",):
        return ".".join(str(a) for a in t.args)
    if o == "imagunit":
        return "1j"
    if o == "add":
        return "(" + " + ".join(s(a) for a in t.args) + ")"
    if o == "mul":
        parts = [] if t.args[0] == 1 else [str(t.args[0])]
        for b, e in zip(t.args[1::2], t.args[2::2]):
            parts.append(s(b) if e == 1 else "%s^%s" % (s(b), e))
        return "*".join(parts)
    if o == "attr":
        return "%s.%s" % (s(t.args[0]), t.args[1])
    if o == "item":
        return "%s[%s]" % (s(t.args[0]), s(t.args[1]))
    if o == "call":
        return "%s(%s)" % (t.args[0], ", ".join(s(a) for a in t.args[1:]))
    if o == "kw":
        return "%s=%s" % (t.args[0], s(t.args[1]))
    return "%s(%s)" % (o, ", ".join(s(a) for a in t.args))
