"""Small arrays whose extent is fixed by the analysed configuration.

`elements` looks through element-wise expressions over a concrete list;
`dims`/`view` normalise basic indexing of matrices of known extent, so that
rows, columns, blocks, transposes and products of them meet in one form.
"""

from . import small
from . import terms as tm
from .terms import T, mk, const

KNOWN_SHAPE = {}          # term -> tuple of int / None (unknown extent)

ELEMENTWISE = {"add", "mul", "abs", "pow", "lt", "le", "eq", "eq2", "lt2",
               "le2", "not", "and", "mor", "real", "conj", "log10"}


class NotVec(Exception):
    pass


def elements(t):
    """Elements of a one-dimensional array term, or None."""
    if small.ON:
        d = small.dense(t)
        if isinstance(d, small.Tab):
            return [d.row(i) for i in range(d.n)]
        if isinstance(d, list):
            return [small.undense(x) for x in d]
    try:
        return _vec(t, {})
    except NotVec:
        return None


def _vec(t, memo):
    if t in memo:
        return memo[t]
    r = None
    if t.op in ("list", "tuple"):
        if any(a.op == "splice" for a in t.args):
            raise NotVec
        r = list(t.args)
    elif t.op == "array":
        r = _vec(t.args[0], memo)
        if r and any(x.op in ("list", "tuple") for x in r):
            raise NotVec
    elif t.op in ("astype", "ravel", "copy"):
        r = _vec(t.args[0], memo)
    elif t.op == "flip":
        r = _vec(t.args[0], memo)
        r = r and r[::-1]
    elif t.op in ELEMENTWISE:
        vs = [(_vec(a, memo) if isinstance(a, T) else None) for a in t.args]
        ls = {len(v) for v in vs if v is not None}
        if len(ls) > 1:
            raise NotVec
        if ls:
            from . import ext
            for a, v in zip(t.args, vs):
                if v is None and isinstance(a, T) and not (
                        ext.is_scalar(a) or a.op in ("num", "const")):
                    raise NotVec
            r = [tm.rebuild(t, tuple(a if v is None else v[i]
                                     for a, v in zip(t.args, vs)))
                 for i in range(ls.pop())]
    memo[t] = r
    return r


def as_num(t):
    if t is tm.TRUE:
        return tm.ONE
    if t is tm.FALSE:
        return tm.ZERO
    return t


def total(ts):
    """Sum of elements, booleans counting as 0 and 1."""
    out = []
    for t in ts:
        t = as_num(t)
        if t.op in ("lt", "le", "eq", "eq2", "lt2", "le2", "not", "and",
                    "mor"):
            t = tm.ite(t, tm.ONE, tm.ZERO)
        out.append(t)
    return tm.add(*out) if out else tm.ZERO


# ------------------------------------------------------------------ extents

def intval(t):
    if t.op == "num" and t.args[0].denominator == 1:
        return int(t.args[0])
    return None


def dims(t):
    """Extents of an array term (None for an unknown one), or None."""
    if "dims" in t._memo and t not in KNOWN_SHAPE:
        d, n = t._memo["dims"]
        if n == len(KNOWN_SHAPE):
            return d
    d = _dims(t)
    t._memo["dims"] = (d, len(KNOWN_SHAPE))
    return d


def _dims(t):
    if t in KNOWN_SHAPE:
        return KNOWN_SHAPE[t]
    if small.ON:
        d = small.dense(t)
        if isinstance(d, small.Tab):
            return (d.n,)
        if d is not None:
            return small.shape(d)
    if t.op == "transpose":
        d = dims(t.args[0])
        return d and d[::-1]
    if t.op in ("flip", "fliplr", "copy", "astype", "abs", "real", "conj",
                "setitem", "array"):
        return dims(t.args[0])
    if t.op == "ravel":
        return (None,)
    if t.op == "list" and t.args:
        ds = [dims(a) for a in t.args]
        if all(ds) and all(d == ds[0] for d in ds):
            return (len(ds),) + ds[0]
        return None
    if t.op in ("zeros", "ones"):
        s = t.args[0]
        if s.op in ("tuple", "list"):
            return tuple(intval(a) for a in s.args)
        return None
    if t.op == "matmul":
        a, b = dims(t.args[0]), dims(t.args[1])
        if a and b and len(a) == 2:
            return (a[0],) + b[1:] if len(b) in (1, 2) else None
        return None
    if t.op == "item":
        d = dims(t.args[0])
        if d is None:
            return None
        c = comps(d, t.args[1])
        if c is None:
            return None
        return tuple(len(x) if isinstance(x, range) else None
                     for x in c if not isinstance(x, int))
    if t.op in ("add", "mul"):
        from . import ext
        ds = {dims(a) for a in t.args if isinstance(a, T)
              and not ext.is_scalar(a) and a.op != "const"}
        return ds.pop() if len(ds) == 1 else None
    return None


FULL = "full"


def comps(d, idx):
    """Index per axis: int, range, or FULL for an axis of unknown extent."""
    parts = list(idx.args) if idx.op == "tuple" else [idx]
    if len(parts) > len(d):
        return None
    out = []
    for n, p in zip(d, parts + [None] * (len(d) - len(parts))):
        if p is None or p.op == "slice" and all(
                a is tm.NONE for a in p.args):
            out.append(range(n) if n is not None else FULL)
            continue
        if n is None:
            return None
        if p.op == "num":
            i = intval(p)
            if i is None or not -n <= i < n:
                return None
            out.append(i % n)
        elif p.op == "slice":
            v = [None if a is tm.NONE else intval(a) for a in p.args]
            if any(x is None and a is not tm.NONE
                   for x, a in zip(v, p.args)):
                return None
            out.append(range(n)[slice(*v)])
        else:
            return None
    return out


def compose(outer, c):
    """Components of X[outer][c] as components of X."""
    out, k = [], 0
    for o in outer:
        if isinstance(o, int):
            out.append(o)
            continue
        x = c[k]
        k += 1
        if o is FULL:
            out.append(x)
        elif isinstance(x, int):
            out.append(o[x])
        else:
            out.append(o[x.start:x.stop:x.step] if x.step > 0 else
                       [o[i] for i in x])
            if not isinstance(out[-1], range):
                out[-1] = _as_range(out[-1])
                if out[-1] is None:
                    return None
    return out


def _as_range(xs):
    if not xs:
        return range(0)
    if len(xs) == 1:
        return range(xs[0], xs[0] + 1)
    st = xs[1] - xs[0]
    r = range(xs[0], xs[-1] + (1 if st > 0 else -1), st)
    return r if list(r) == xs else None


def whole(c, d):
    return all(x is FULL or isinstance(x, range) and x == range(n)
               for x, n in zip(c, d))


def view(base, c):
    """base indexed by components c, normalised; None when not possible."""
    d = dims(base)
    if d is None:
        return None
    if whole(c, d):
        return base
    if base.op == "transpose" and len(c) == 2:
        if not any(isinstance(x, int) for x in c):
            v = view(base.args[0], c[::-1])
            return None if v is None else mk("transpose", v)
        return view(base.args[0], c[::-1])
    if base.op in ("array", "copy") and base.args[0].op == "list" or \
            base.op == "list":
        es = base.args if base.op == "list" else base.args[0].args
        if isinstance(c[0], int):
            return view(es[c[0]], c[1:])
        xs = [view(es[i], c[1:]) for i in c[0]]
        if any(x is None for x in xs):
            return None
        return mk("array", mk("list", *xs))
    if base.op == "flip" and d[0] is not None:
        r = range(d[0])[::-1]
        c = compose([r] + [range(n) if n is not None else FULL
                           for n in d[1:]], c)
        return None if c is None else view(base.args[0], c)
    if base.op == "item":
        dd = dims(base.args[0])
        o = comps(dd, base.args[1]) if dd else None
        c = compose(o, c) if o else None
        return None if c is None else view(base.args[0], c)
    if base.op == "matmul":
        a, b = base.args
        da, db = dims(a), dims(b)
        if len(db) == 2:
            va = view(a, [c[0], range(da[1]) if da[1] is not None else FULL])
            vb = view(b, [range(db[0]) if db[0] is not None else FULL, c[1]])
            if va is not None and vb is not None:
                return matmul(va, vb)
    if base.op in ("add", "mul"):
        out = []
        for a in base.args:
            if isinstance(a, T) and dims(a) == d:
                a = view(a, c)
                if a is None:
                    return None
            out.append(a)
        return tm.rebuild(base, tuple(out))
    if base.op == "setitem":
        b, i, v = base.args
        e = comps(d, i)
        if e is not None:
            if e == list(c):
                return v
            if any(isinstance(x, int) and isinstance(y, int) and x != y
                   for x, y in zip(e, c)):
                return view(b, c)
        return None
    idx = []
    for x, n in zip(c, d):
        if isinstance(x, int):
            idx.append(const(x))
        elif x is FULL or x == range(n):
            idx.append(mk("slice", tm.NONE, tm.NONE, tm.NONE))
        else:
            idx.append(mk("slice", const(x.start),
                          tm.NONE if x.stop < 0 else const(x.stop),
                          tm.NONE if x.step == 1 else const(x.step)))
    return mk("item", base, mk("tuple", *idx) if len(idx) > 1 else idx[0])


def index(base, idx):
    """Normal form of base[idx] for a matrix of known extent, or None."""
    d = dims(base)
    if d is None:
        return None
    c = comps(d, idx)
    if c is None:
        return None
    return view(base, c)


def matmul(a, b):
    da, db = dims(a), dims(b)
    n = None
    if da and db and len(da) == 2 and len(db) == 1:
        n = da[1] if da[1] is not None else db[0]
        if n is not None and n <= 64 and da[1] == db[0]:
            ts = []
            for j in range(n):
                m = view(a, [range(da[0]) if da[0] is not None else FULL,
                             j])
                s = view(b, [j])
                if m is None or s is None:
                    return mk("matmul", a, b)
                ts.append(tm.mul(s, m))
            return tm.add(*ts)
    if da and db and len(da) == 1 and len(db) == 2:
        return matmul(transpose(b), a)
    return mk("matmul", a, b)


def transpose(t):
    if t.op == "ma":
        return tm.ma(transpose(t.args[0]), transpose(t.args[1])
                     if t.args[1].op not in ("const", "num") else t.args[1])
    if t.op == "transpose":
        return t.args[0]
    d = dims(t)
    if d is not None and len(d) == 1:
        return t
    return mk("transpose", t)


def reshape(t, s):
    """Undo a flattening, through linear combinations of flat arrays."""
    if t.op == "ravel":
        return t.args[0]
    if t.op == "add":
        out = [_unravel(a) for a in t.args]
        if all(x is not None for x in out):
            return tm.add(*out)
    if t.op == "mul":
        x = _unravel(t)
        if x is not None:
            return x
    return mk("reshape", t, s)


def _unravel(t):
    if t.op == "ravel":
        return t.args[0]
    if t.op == "mul":
        out, n = mk("num", t.args[0]), 0
        for b, e in zip(t.args[1::2], t.args[2::2]):
            if b.op == "ravel" and e == 1:
                n += 1
                b = b.args[0]
            elif not scalar_entry(b):
                return None
            out = tm.mul(out, tm.pow_(b, mk("num", e)))
        return out if n == 1 else None
    return None


def scalar_entry(t):
    from . import ext
    if ext.is_scalar(t):
        return True
    return dims(t) == ()
