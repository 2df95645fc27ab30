"""Arrays and tables of a few known elements, followed element by element.

Switched on (`ON = True`) by checks whose configurations fix the number of
rows: `dense` gives the elements of an array term as nested lists of terms,
or the columns of a table (structured array) term.
"""

from . import terms as tm
from .terms import T, mk, const

ON = False
LIMIT = 4096


class Tab(object):
    def __init__(self, names, cols):
        self.names, self.cols = names, cols

    @property
    def n(self):
        return len(self.cols[0]) if self.cols else 0

    def col(self, name):
        if name not in self.names:
            raise Bad("ValueError")
        return self.cols[self.names.index(name)]

    def row(self, i):
        return mk("rec", ",".join(self.names), *[c[i] for c in self.cols])

    def take(self, idx):
        return Tab(self.names, [[c[i] for i in idx] for c in self.cols])

    def put(self, name, vals):
        cols = list(self.cols)
        cols[self.names.index(name)] = list(vals)
        return Tab(self.names, cols)

    def add(self, name, vals):
        return Tab(self.names + (name,), self.cols + [list(vals)])

    def term(self):
        return mk("tab", ",".join(self.names),
                  *[mk("list", *c) for c in self.cols])


class Reject(Exception):
    """Not an array of known elements."""


class Bad(Exception):
    """The operation itself fails (name of the exception raised)."""


def table(t):
    return Tab(tuple(t.args[0].split(",")) if t.args[0] else (),
               [list(c.args) for c in t.args[1:]])


def undense(x):
    if isinstance(x, Tab):
        return x.term()
    if isinstance(x, list):
        return mk("list", *[undense(y) for y in x])
    return x


def dense(t):
    """Nested lists of element terms, a Tab, or None."""
    if "dense" in t._memo:
        return t._memo["dense"]
    try:
        r = _dense(t)
    except (Reject, IndexError, KeyError, ValueError, AttributeError):
        r = None
    t._memo["dense"] = r
    return r


def need(t):
    r = dense(t)
    if r is None:
        raise Reject
    return r


def shape(x):
    out = []
    while isinstance(x, list):
        out.append(len(x))
        if not x:
            break
        x = x[0]
    return tuple(out)


def rect(x):
    """Reject ragged nesting."""
    if isinstance(x, list) and x:
        s = {shape(y) for y in x}
        if len(s) > 1:
            raise Reject
        for y in x:
            rect(y)
    return x


def fill(s, v):
    if not s:
        return v
    return [fill(s[1:], v) for _ in range(s[0])]


def intval(t):
    if t.op == "num" and t.args[0].denominator == 1:
        return int(t.args[0])
    raise Reject


def shape_arg(t):
    if t.op in ("tuple", "list"):
        s = tuple(intval(a) for a in t.args)
    else:
        s = (intval(t),)
    n = 1
    for x in s:
        n *= x
    if n > LIMIT:
        raise Reject
    return s


def whole(e):
    """Element converted to an integer: its fraction is dropped."""
    if e.op == "const":
        return num01(e)
    if e.op == "num":
        return const(int(e.args[0])) if tm.is_const(e) else e
    if e.op == "sym" and e.args[0] == "px":
        return mk("int", e)
    if e.op == "mul" and any(b.op == "sym" and b.args[0] == "px"
                             for b in e.args[1::2]):
        return mk("int", e)
    return e


def leaf(t):
    """Scalar term that is an element, not an array."""
    if t.op in ("num", "const", "rec", "imagunit"):
        return True
    if t.op in ("list", "tuple", "tab", "array"):
        return False
    r = t._memo.get("leaf")
    if r is None:
        r = t._memo["leaf"] = _leaf(t)
    return r


EWISE = {"numpy.exp", "numpy.log", "numpy.sin", "numpy.cos", "numpy.hypot",
         "scipy.special.j1", "numpy.arctan2", "numpy.deg2rad",
         "numpy.radians", "math.exp", "math.log"}


def ewise(t):
    return t.op == "call" and t.args[0] in EWISE and not any(
        a.op == "kw" for a in t.args[1:])


def _leaf(t):
    from . import ext
    if ewise(t):
        return all(leaf(a) for a in t.args[1:])
    if t.op in ("num", "const", "rec", "imagunit") or ext.is_scalar(t):
        return True
    if t.op in MAPPED:
        return all(leaf(a) for a in t.args if isinstance(a, T))
    if t.op == "apply" and abstract(t):
        return all(leaf(a) for a in t.args[1:])
    return t.op == "apply"


def abstract(t):
    """Value of a coefficient field, taken element by element."""
    return t.args[0].op == "sym" and t.args[0].args[0] == "af"


BOOLOPS = {"lt", "le", "eq", "eq2", "lt2", "le2", "not", "and", "mor"}
MAPPED = {"add", "mul", "pow", "abs", "real", "conj", "log10", "ite",
          "isnan", "isfinite", "round", "floor", "ceil", "int",
          "mod", "firstof", "pdf"} | BOOLOPS


def _dense(t):
    op = t.op
    if op == "tab":
        return table(t)
    if op in ("list", "tuple"):
        out = []
        for a in t.args:
            if a.op == "splice":
                raise Reject
            d = dense(a) if a.op not in ("num", "const", "rec") else None
            if isinstance(d, Tab):
                raise Reject
            out.append(a if d is None else d)
        kinds = {isinstance(x, list) for x in out}
        if len(kinds) > 1:
            raise Reject
        return rect(out)
    if op in ("array", "copy", "mdata", "asarray"):
        return need(t.args[0])
    if op == "astype":
        x = need(t.args[0])
        if isinstance(x, Tab):
            raise Reject
        d = t.args[1]
        d = d.args[0] if isinstance(d, T) and d.args else d
        if "int" in str(d):
            return deep(whole, x)
        return x
    if op == "ravel":
        return [t.args[0]] if leaf(t.args[0]) else \
            flat(need(t.args[0]))
    if op == "grid":
        b = [intval(a) for a in t.args[1:]]
        ns = [range(*b[i:i + 2]) for i in range(0, len(b), 2)]

        def rec(d, v=None):
            if d == len(ns):
                return const(v)
            return [rec(d + 1, i if d == t.args[0] else v) for i in ns[d]]
        return rec(0)
    if op == "reshape":
        return reshaped(flat(arr(t.args[0])), t.args[1])
    if op == "flip":
        return arr(t.args[0])[::-1]
    if op == "transpose":
        return trans(arr(t.args[0]))
    if op in ("zeros", "empty", "ones"):
        return fill(shape_arg(t.args[0]),
                    tm.ONE if op == "ones" else tm.ZERO)
    if op == "full":
        return fill(shape_arg(t.args[0]), t.args[1])
    if op in ("arange", "range"):
        r = range(*[intval(a) for a in t.args if isinstance(a, T)])
        if len(r) > LIMIT:
            raise Reject
        return [const(i) for i in r]
    if op == "setitem":
        return assign(need(t.args[0]), t.args[1], t.args[2])
    if op == "item":
        r = take(need(t.args[0]), t.args[1])
        if isinstance(r, T):
            raise Reject
        return r
    if op == "call":
        return mapped(t) if ewise(t) else call(t)
    if op == "filled":
        d, m, v = t.args
        if m is tm.FALSE:
            return need(d)
        return mapped(mk("ite", m, v, d))
    if op in MAPPED or op == "apply" and abstract(t):
        return mapped(t)
    if op in ("maxof", "minof") and len(t.args) > 1:
        f = max if op == "maxof" else min
        return mapped_with(t, lambda vs: mk("num", f(
            v.args[0] for v in vs)) if all(
                v.op == "num" for v in vs) else None)
    raise Reject


def mapped_with(t, f):
    """mapped(t) with the elements worked out by f."""
    def leaf_of(e):
        if e.op == t.op:
            v = f(e.args)
            return e if v is None else v
        return e
    return deep(leaf_of, mapped(t))


def arr(t):
    r = need(t)
    if isinstance(r, Tab):
        raise Reject
    return r


def num01(e):
    return tm.ONE if e is tm.TRUE else tm.ZERO if e is tm.FALSE else e


def deep(f, x):
    if isinstance(x, list):
        return [deep(f, y) for y in x]
    return f(x)


def flat(x):
    if isinstance(x, Tab):
        raise Reject
    out = []
    for y in x:
        out.extend(flat(y) if isinstance(y, list) else [y])
    return out


def reshaped(x, s):
    s = [int(a.args[0]) for a in (
        s.args if s.op in ("tuple", "list") else [s])]
    n = 1
    for k in s:
        n *= k if k >= 0 else 1
    if s.count(-1) == 1 and n and len(x) % n == 0:
        s[s.index(-1)] = len(x) // n
    elif -1 in s or n != len(x):
        raise Reject
    for k in reversed(s[1:]):
        x = [x[i:i + k] for i in range(0, len(x), k)]
    return x


def trans(x):
    s = shape(x)
    if len(s) == 1:
        return x
    if len(s) != 2:
        raise Reject
    return [list(r) for r in zip(*x)] if s[0] else x


def mapped(t):
    """Element-wise operator with broadcasting."""
    vs = [dense(a) if isinstance(a, T) and not leaf(a) else None
          for a in t.args]
    if any(isinstance(v, Tab) for v in vs):
        raise Reject
    ls = [v for v in vs if v is not None]
    if not ls:
        raise Reject
    for a, v in zip(t.args, vs):
        if v is None and isinstance(a, T) and not leaf(a) and not (
                t.op == "apply" and a is t.args[0]):
            raise Reject
    s = max((shape(v) for v in ls), key=len)
    s = tuple(max(dim(shape(v), len(s), k) for v in ls)
              for k in range(len(s)))
    if any(0 in shape(v) for v in ls):
        return fill(tuple(0 if any(
            dim(shape(v), len(s), k) == 0 for v in ls) else n
            for k, n in enumerate(s)), tm.ZERO)
    for v in ls:
        if any(dim(shape(v), len(s), k) not in (1, s[k])
               for k in range(len(s))):
            if t.op in ("add", "mul", "pow"):
                raise Bad("ValueError")
            raise Reject

    def rec(vals, k):
        if k == len(s):
            return tm.rebuild(t, tuple(vals))
        out = []
        for i in range(s[k]):
            nxt = []
            for v, a in zip(vals, t.args):
                if isinstance(v, list) and len(shape(v)) == len(s) - k:
                    nxt.append(v[i if len(v) > 1 or s[k] == 1 else 0])
                else:
                    nxt.append(v)
            out.append(rec(nxt, k + 1))
        return out
    return rec([a if v is None else v for a, v in zip(t.args, vs)], 0)


def dim(s, n, k):
    k -= n - len(s)
    return 1 if k < 0 else s[k]


def isbool(x):
    return all(e in (tm.TRUE, tm.FALSE) for e in flat(x)) and x != []


def positions(n, p):
    """Selected positions along one axis: int or list of int."""
    if p.op == "slice":
        v = [None if a is tm.NONE else intval(a) for a in p.args]
        return list(range(n))[slice(*v)]
    d = dense(p) if p.op not in ("num", "const") else None
    if d is not None:
        if isinstance(d, Tab) or len(shape(d)) != 1:
            raise Reject
        if d == []:
            return []
        if isbool(d):
            if len(d) != n:
                raise Bad("IndexError")
            return [i for i, e in enumerate(d) if e is tm.TRUE]
        if any(e.op in BOOLOPS for e in d):
            raise Reject
        out = [intval(e) for e in d]
        if any(not -n <= i < n for i in out):
            raise Bad("IndexError")
        return [i % n for i in out]
    if p in (tm.TRUE, tm.FALSE, tm.NONE):
        raise Reject
    i = intval(p)
    if not -n <= i < n:
        raise Bad("IndexError")
    return i % n


def take(x, idx):
    if isinstance(x, Tab):
        if idx.op == "const" and isinstance(idx.args[0], str):
            if idx.args[0] not in x.names:
                raise Bad("ValueError")
            return x.col(idx.args[0])
        d = dense(idx) if idx.op == "list" else None
        if d and all(e.op == "const" and isinstance(e.args[0], str)
                     for e in d):
            ns = tuple(e.args[0] for e in d)
            if not set(ns) <= set(x.names):
                raise Bad("KeyError")
            return Tab(ns, [x.col(k) for k in ns])
        p = positions(x.n, idx)
        return x.row(p) if isinstance(p, int) else x.take(p)
    parts = list(idx.args) if idx.op == "tuple" else [idx]
    parts = expand(parts, len(shape(x)))
    fancy = [p for p in parts if p.op not in ("num", "slice")]
    if len(parts) == 1 and fancy:
        d = dense(parts[0])
        if isinstance(d, list) and len(shape(d)) == 2 and isbool(d):
            return [e for r, m in zip(x, d) for e, b in zip(r, m)
                    if b is tm.TRUE]
    if len(fancy) > 1:
        return picked(x, parts)

    def rec(y, ps):
        if not ps:
            return y
        p = positions(len(y), ps[0])
        if isinstance(p, int):
            return rec(y[p], ps[1:])
        return [rec(y[i], ps[1:]) for i in p]
    return rec(x, parts)


def picked(x, parts):
    """Elements at the positions given by several index arrays."""
    ds = [[p] if p.op == "num" else dense(p) for p in parts]
    if len(parts) != len(shape(x)) or any(
            not isinstance(d, list) or isbool(d) for d in ds):
        raise Reject
    dims = shape(x)
    n = max(len(shape(d)) for d in ds)
    s = tuple(max(dim(shape(d), n, k) for d in ds) for k in range(n))
    if any(dim(shape(d), n, k) not in (1, s[k]) for d in ds
           for k in range(n)):
        raise Bad("IndexError")

    def at(d, pos):
        m = len(shape(d))
        for k, i in enumerate(pos[n - m:]):
            d = d[i if len(d) > 1 else 0]
        return intval(d)

    def rec(k, pos):
        if k == n:
            y = x
            for d, size in zip(ds, dims):
                i = at(d, pos)
                if not -size <= i < size:
                    raise Bad("IndexError")
                y = y[i]
            return y
        return [rec(k + 1, pos + (i,)) for i in range(s[k])]
    return rec(0, ())


def expand(parts, n):
    full = mk("slice", tm.NONE, tm.NONE, tm.NONE)
    if any(p is tm.NONE for p in parts):
        raise Reject
    dots = [i for i, p in enumerate(parts) if p.op == "const"
            and p.args[0] in ("...", Ellipsis)]
    if dots:
        i = dots[0]
        parts = parts[:i] + [full] * (n - len(parts) + 1) + parts[i + 1:]
    if len(parts) > n:
        raise Bad("IndexError")
    return parts


def assign(x, idx, val):
    if isinstance(x, Tab):
        if idx.op == "const" and isinstance(idx.args[0], str):
            if idx.args[0] not in x.names:
                raise Bad("ValueError")
            d = dense(val) if not leaf(val) else None
            if d is None:
                if not leaf(val):
                    raise Reject
                d = [val] * x.n
            if len(shape(d)) != 1 or len(d) not in (1, x.n):
                raise Bad("ValueError")
            return x.put(idx.args[0], d if len(d) == x.n else d * x.n)
        if val.op == "rec":
            p = positions(x.n, idx)
            if not isinstance(p, int):
                raise Reject
            return Tab(x.names, [c[:p] + [v] + c[p + 1:]
                                 for c, v in zip(x.cols, val.args[1:])])
        raise Reject
    parts = list(idx.args) if idx.op == "tuple" else [idx]
    parts = expand(parts, len(shape(x)))
    if len([p for p in parts if p.op not in ("num", "slice")]) > 1:
        raise Reject
    d = dense(val) if not leaf(val) else None
    if d is None and not leaf(val):
        raise Reject
    if isinstance(d, Tab):
        raise Reject
    if d is None:
        d = val

    def rec(y, ps, v):
        if not isinstance(y, list):
            if isinstance(v, list):
                if len(flat(v)) != 1:
                    raise Bad("ValueError")
                return flat(v)[0]
            return v
        if not ps:
            if not isinstance(v, list):
                return fill(shape(y), v)
            if len(shape(v)) < len(shape(y)) or len(v) == 1 != len(y):
                w = v[0] if len(shape(v)) == len(shape(y)) else v
                return [rec(z, [], w) for z in y]
            if len(v) != len(y):
                raise Bad("ValueError")
            return [rec(z, [], w) for z, w in zip(y, v)]
        p = positions(len(y), ps[0])
        out = list(y)
        if isinstance(p, int):
            out[p] = rec(y[p], ps[1:], v)
            return out
        rest = sum(1 for q in ps[1:] if q.op != "num") + (
            len(shape(y)) - len(ps))
        if isinstance(v, list) and len(shape(v)) > rest:
            if len(v) == 1:
                v = v * len(p)
            if len(v) != len(p):
                raise Bad("ValueError")
            for i, w in zip(p, v):
                out[i] = rec(y[i], ps[1:], w)
        else:
            for i in p:
                out[i] = rec(y[i], ps[1:], v)
        return out
    return rec(x, parts, d)


# ------------------------------------------------------------ library calls

def kws(t):
    pos = [a for a in t.args[1:] if a.op != "kw"]
    kw = {a.args[0]: a.args[1] for a in t.args[1:] if a.op == "kw"}
    return pos, kw


def block(rows):
    """Matrix of matrices; a missing (None) block is zero."""
    hs = [next((len(b) for b in r if b is not None), None) for r in rows]
    ws = [next((len(r[j][0]) for r in rows if r[j] is not None), None)
          for j in range(len(rows[0]))]
    if None in hs or None in ws:
        raise Reject
    out = []
    for r, h in zip(rows, hs):
        for i in range(h):
            line = []
            for b, w in zip(r, ws):
                line += b[i] if b is not None else [tm.ZERO] * w
            out.append(line)
    return rect(out)


def call(t):
    name = t.args[0]
    a, kw = kws(t)
    last = name.rpartition(".")[2]
    if name == "numpy.repeat":
        n = a[1] if len(a) > 1 else kw.get("repeats")
        if "axis" in kw or len(a) > 2:
            raise Reject
        x = [a[0]] if leaf(a[0]) else flat(need(a[0]))
        return [e for e in x for _ in range(intval(n))]
    if name == "numpy.tile":
        x = [a[0]] if leaf(a[0]) else arr(a[0])
        if len(shape(x)) != 1:
            raise Reject
        return x * intval(a[1])
    if last in ("identity", "eye") and name.startswith(
            ("numpy.", "scipy.sparse")):
        n = intval(a[0])
        if len(a) > 1 and intval(a[1]) != n:
            raise Reject
        if set(kw) - {"dtype", "format"}:
            raise Reject
        return [[const(int(i == j)) for j in range(n)] for i in range(n)]
    if name.startswith("scipy.sparse") and last in (
            "csc_matrix", "csr_matrix", "coo_matrix", "csc_array",
            "csr_array", "coo_array", "lil_matrix"):
        if a and a[0].op == "tuple" and len(a[0].args) == 2 and \
                a[0].args[1].op == "tuple":
            v, (i, j) = arr(a[0].args[0]), a[0].args[1].args
            s = a[1] if len(a) > 1 else kw["shape"]
            m = fill(shape_arg(s), tm.ZERO)
            for e, p, q in zip(v, arr(i), arr(j)):
                p, q = intval(p), intval(q)
                m[p][q] = tm.add(m[p][q], e)
            return m
        return arr(a[0])
    if last in ("bmat", "block_array", "block"):
        g = a[0]
        if g.op != "list":
            raise Reject
        rows = [[None if b is tm.NONE else arr(b) for b in r.args]
                for r in g.args]
        return block(rows)
    if last in ("hstack", "vstack", "concatenate") and a:
        if a[0].op not in ("list", "tuple"):
            raise Reject
        xs = [need(x) for x in a[0].args]
        if any(isinstance(x, Tab) for x in xs):
            if last == "vstack" or len({x.names for x in xs}) > 1:
                raise Reject
            return Tab(xs[0].names, [sum((x.cols[k] for x in xs), [])
                                     for k in range(len(xs[0].names))])
        ax = kw.get("axis", a[1] if len(a) > 1 else None)
        ax = 0 if ax is None else intval(ax)
        n = {len(shape(x)) for x in xs}
        if last == "vstack" and n == {1}:
            return rect(xs)
        if last == "hstack" and n == {2}:
            ax = 1
        if ax == 0:
            return rect([r for x in xs for r in x])
        if ax in (1, -1) and n == {2}:
            return rect([sum(rs, []) for rs in zip(*xs)])
        raise Reject
    if name in ("numpy.outer", "numpy.multiply.outer", "numpy.add.outer"):
        x, y = flat(arr(a[0])), flat(arr(a[1]))
        f = tm.add if "add" in name else tm.mul
        return [[f(p, q) for q in y] for p in x]
    if last in ("column_stack", "stack"):
        xs = [arr(x) for x in a[0].args]
        if {len(shape(x)) for x in xs} != {1}:
            raise Reject
        ax = kw.get("axis", a[1] if len(a) > 1 else tm.ZERO)
        if last == "column_stack" or intval(ax) in (1, -1):
            return trans(rect(xs))
        return rect(xs)
    if name == "numpy.append" and len(a) == 2:
        return flat(arr(a[0])) + ([a[1]] if leaf(a[1]) else
                                  flat(arr(a[1])))
    if name == "numpy.delete":
        x = need(a[0])
        ix = a[1] if len(a) > 1 else kw["obj"]
        ax = a[2] if len(a) > 2 else kw.get("axis", tm.NONE)
        n = x.n if isinstance(x, Tab) else len(x)
        if ax not in (tm.ZERO, tm.NONE) or not isinstance(x, Tab) and len(
                shape(x)) > 1 and ax is tm.NONE:
            raise Reject
        d = dense(ix) if not leaf(ix) else [ix]
        if d is None and ix.op == "slice":
            d = [const(i) for i in positions(n, ix)]
        if d and isbool(d):
            d = [const(i) for i, e in enumerate(d) if e is tm.TRUE]
        gone = {intval(e) for e in d}
        if any(not -n <= i < n for i in gone):
            raise Bad("IndexError")
        left = [i for i in range(n) if i not in gone and i - n not in gone]
        return x.take(left) if isinstance(x, Tab) else [x[i] for i in left]
    if name in ("numpy.isin", "numpy.in1d"):
        x, y = arr(a[0]), flat(arr(a[1]))
        if any(e.op != "num" for e in flat(x) + y):
            raise Reject
        inv = kw.get("invert") is tm.TRUE
        return deep(lambda e: const((e in y) != inv), x)
    if name in ("numpy.argsort", ".argsort"):
        x = arr(a[0])
        return [const(i) for i in order(x)]
    if name == "numpy.sort" or name == "sorted":
        x = need(a[0])
        if isinstance(x, Tab):
            o = kw.get("order")
            if o is None:
                raise Reject
            return x.take(order(x.col(strval(o))))
        return [x[i] for i in order(x)]
    if name in ("numpy.unique",) and not kw and len(a) == 1:
        x = flat(arr(a[0]))
        out = []
        for i in order(x):
            if not out or out[-1] is not x[i]:
                out.append(x[i])
        return out
    if name in ("numpy.empty_like", "numpy.zeros_like"):
        return fill(shape(arr(a[0])), tm.ZERO)
    if name == "numpy.full_like":
        return fill(shape(arr(a[0])), a[1] if len(a) > 1
                    else kw["fill_value"])
    if name in ("numpy.atleast_1d", "numpy.squeeze",
                "numpy.ascontiguousarray"):
        return need(a[0])
    if name in ("numpy.where", "numpy.nonzero", "numpy.flatnonzero",
                "flatnonzero") and len(a) == 1:
        x = arr(a[0])
        if len(shape(x)) != 1:
            raise Reject
        x = [num01(e) for e in x]
        if any(e.op != "num" for e in x):
            raise Reject
        ix = [const(i) for i, e in enumerate(x) if e is not tm.ZERO]
        return ix if "flat" in name else [ix]
    if name in ("scipy.ndimage.convolve", "scipy.ndimage.correlate") and \
            len(a) == 2:
        return stencil(last, a, kw)
    if name == "numpy.setdiff1d":
        x, y = flat(arr(a[0])), flat(arr(a[1]))
        if any(e.op != "num" for e in x + y):
            raise Reject
        x = [e for e in x if e not in y]
        return [x[i] for i in order(x)]
    if last == "append_fields":
        b, names, data = fields_args(a, kw)
        for n, v in zip(names, data):
            b = append_field(b, n, v)
        return b
    raise Reject


def strval(t):
    if t.op == "const" and isinstance(t.args[0], str):
        return t.args[0]
    raise Reject


def order(x):
    if any(not isinstance(e, T) or e.op != "num" for e in x):
        raise Reject
    return sorted(range(len(x)), key=lambda i: x[i].args[0])


def fields_args(a, kw):
    d = dict(zip(("base", "names", "data"), a))
    d.update({k: v for k, v in kw.items() if k in d or k in (
        "base", "names", "data")})
    b = need(d["base"])
    if not isinstance(b, Tab):
        raise Reject
    n = d["names"]
    if n.op == "const":
        return b, [strval(n)], [d["data"]]
    return b, [strval(x) for x in n.args], list(d["data"].args)


def append_field(b, name, v):
    if name in b.names:
        raise Bad("ValueError")
    x = [v] * b.n if leaf(v) else arr(v)
    if len(shape(x)) != 1:
        raise Reject
    if len(x) < b.n:
        x = x + [const(-1)] * (b.n - len(x))
    return b.add(name, x[:b.n])


def reduce(op, t, rest):
    """Reduction of a known array, or None."""
    try:
        x = arr(t)
        ax = None
        for r in rest:
            if r.op == "kw" and r.args[0] == "axis":
                ax = intval(r.args[1])
            elif r.op == "num" and ax is None:
                ax = intval(r)
            else:
                return None
        n = len(shape(x))
        if ax is None:
            return fold(op, flat(x))
        if ax < 0:
            ax += n
        if n == 1 and ax == 0:
            return fold(op, x)
        if n != 2 or ax not in (0, 1) or not x or not x[0]:
            return None
        y = [fold(op, list(r)) for r in (x if ax == 1 else zip(*x))]
        return None if None in y else mk("list", *y)
    except Reject:
        return None


def fold(op, es):
    from . import arrays
    if op == "any":
        return tm.lor(*[truthy(e) for e in es])
    if op == "all":
        return tm.land(*[truthy(e) for e in es])
    if op == "sum":
        return arrays.total(es)
    if not es:
        raise Reject
    es = [num01(e) for e in es]
    if any(e.op != "num" for e in es):
        raise Reject
    v = sorted(e.args[0] for e in es)
    if op == "median":
        k = len(v) // 2
        return mk("num", v[k] if len(v) % 2 else (v[k - 1] + v[k]) / 2)
    return mk("num", v[0] if op == "min" else v[-1])


def truthy(e):
    if e.op in BOOLOPS or e in (tm.TRUE, tm.FALSE):
        return e
    return tm.lnot(tm.cmp_("eq", e, tm.ZERO))


def stencil(name, a, kw):
    """scipy.ndimage filters with a known kernel on a known grid."""
    x = [[num01(e) for e in r] for r in arr(a[0])]
    k = [[num01(e) for e in r] for r in arr(a[1])]
    if set(kw) - {"mode", "cval", "output"}:
        raise Reject
    mode = strval(kw["mode"]) if "mode" in kw else "reflect"
    cval = kw.get("cval", tm.ZERO)
    if any(e.op != "num" for r in k for e in r):
        raise Reject
    if name == "convolve":
        k = [r[::-1] for r in k[::-1]]
    n, m = shape(x)
    p, q = shape(k)
    if not p % 2 or not q % 2:
        raise Reject
    out = []
    for i in range(n):
        row = []
        for j in range(m):
            ts = []
            for di in range(p):
                for dj in range(q):
                    u = outside(i + di - p // 2, n, mode)
                    v = outside(j + dj - q // 2, m, mode)
                    e = cval if u is None or v is None else x[u][v]
                    ts.append(tm.mul(k[di][dj], e))
            row.append(tm.add(*ts))
        out.append(row)
    return out


def outside(i, n, mode):
    if 0 <= i < n:
        return i
    if mode in ("reflect", "grid-mirror"):
        i %= 2 * n
        return i if i < n else 2 * n - 1 - i
    if mode in ("wrap", "grid-wrap"):
        return i % n
    if mode == "nearest":
        return 0 if i < 0 else n - 1
    if mode == "mirror" and n > 1:
        i %= 2 * n - 2
        return i if i < n else 2 * n - 2 - i
    if mode in ("constant", "grid-constant"):
        return None
    raise Reject
