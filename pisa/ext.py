"""Meaning of the library operations the analysis understands.

Everything not listed here stays an opaque term `call(name, args...)`.
"""

import builtins

from . import terms as tm
from .terms import T, mk, const, sym
from . import arrays, small
from .values import *  # noqa

BUILTINS = {
    "len", "range", "enumerate", "zip", "map", "filter", "sum", "min", "max",
    "abs", "round", "int", "float", "bool", "str", "list", "tuple", "dict",
    "set", "frozenset", "sorted", "reversed", "any", "all", "isinstance",
    "hasattr", "getattr", "setattr", "delattr", "callable", "type", "id",
    "print", "repr", "slice", "iter", "next", "object", "pow", "divmod",
    "vars", "complex", "bytes", "open", "issubclass", "format", "property",
    "staticmethod", "classmethod", "super", "hash", "ord", "chr", "input",
    "exec", "eval", "globals", "locals", "__import__", "NotImplemented",
    "Ellipsis", "Exception", "BaseException", "ValueError", "TypeError",
    "KeyError", "IndexError", "AttributeError", "RuntimeError", "OSError",
    "IOError", "FileNotFoundError", "NotImplementedError", "ImportError",
    "ModuleNotFoundError", "StopIteration", "ZeroDivisionError",
    "ArithmeticError", "AssertionError", "NameError", "UnboundLocalError",
    "LookupError", "PermissionError", "FileExistsError", "MemoryError",
    "Warning", "DeprecationWarning", "UserWarning", "FutureWarning",
    "RuntimeWarning", "PendingDeprecationWarning", "KeyboardInterrupt",
    "SystemExit", "GeneratorExit", "OverflowError", "UnicodeError",
    "FloatingPointError", "bytearray", "memoryview", "ascii", "bin", "hex",
    "oct", "dir", "help", "True", "False", "None", "__file__",
}

# dotted name -> canonical operation
CANON = {
    "numpy.fft.fft2": "fft2", "numpy.fft.fftn": "fft2",
    "numpy.fft.ifft2": "ifft2", "numpy.fft.ifftn": "ifft2",
    "pyfftw.interfaces.numpy_fft.fft2": "fft2",
    "pyfftw.interfaces.numpy_fft.fftn": "fft2",
    "pyfftw.interfaces.numpy_fft.ifft2": "ifft2",
    "pyfftw.interfaces.numpy_fft.ifftn": "ifft2",
    "scipy.fft.fft2": "fft2", "scipy.fft.fftn": "fft2",
    "scipy.fft.ifft2": "ifft2", "scipy.fft.ifftn": "ifft2",
    "scipy.fftpack.fft2": "fft2", "scipy.fftpack.ifft2": "ifft2",
    "scipy.ndimage.fourier_shift": "fourier_shift",
    "scipy.ndimage.fourier.fourier_shift": "fourier_shift",
    "scipy.ndimage.center_of_mass": "center_of_mass",
    "scipy.ndimage.measurements.center_of_mass": "center_of_mass",
    "numpy.add": "+", "numpy.subtract": "-", "numpy.multiply": "*",
    "numpy.divide": "/", "numpy.true_divide": "/", "numpy.power": "**",
    "numpy.float_power": "**", "numpy.matmul": "matmul",
    "numpy.dot": "matmul", "numpy.ma.add": "+", "numpy.ma.subtract": "-",
    "numpy.ma.multiply": "*", "numpy.ma.divide": "/",
    "operator.add": "+", "operator.sub": "-", "operator.mul": "*",
    "operator.truediv": "/",
    "numpy.negative": "neg", "operator.neg": "neg",
    "numpy.square": "square", "numpy.sqrt": "sqrt", "math.sqrt": "sqrt",
    "numpy.abs": "abs", "numpy.absolute": "abs", "abs": "abs",
    "numpy.fabs": "abs", "numpy.ma.abs": "abs",
    "numpy.conj": "conj", "numpy.conjugate": "conj", "numpy.real": "real",
    "numpy.imag": "imag", "numpy.reciprocal": "recip",
    "numpy.logical_or": "or", "numpy.bitwise_or": "or",
    "numpy.ma.mask_or": "mask_or", "numpy.ma.logical_or": "or",
    "operator.or_": "or",
    "numpy.logical_and": "and", "numpy.bitwise_and": "and",
    "operator.and_": "and",
    "numpy.logical_not": "invert", "numpy.invert": "invert",
    "numpy.bitwise_not": "invert", "operator.invert": "invert",
    "numpy.greater": "gt", "numpy.greater_equal": "ge", "numpy.less": "lt",
    "numpy.less_equal": "le", "numpy.equal": "eq", "numpy.not_equal": "ne",
    "numpy.isnan": "isnan", "numpy.isfinite": "isfinite", "math.isnan":
    "isnan", "numpy.isinf": "isinf",
    "numpy.any": "any", "numpy.all": "all", "numpy.sum": "sum",
    "numpy.mean": "mean", "numpy.average": "mean", "numpy.max": "max",
    "numpy.amax": "max", "numpy.min": "min", "numpy.amin": "min",
    "numpy.median": "median", "numpy.std": "std", "numpy.argmax": "argmax", "numpy.argmin": "argmin",
    "numpy.prod": "prod", "numpy.ma.sum": "sum",
    "numpy.zeros": "zeros", "numpy.zeros_like": "zeros_like",
    "numpy.ones": "ones", "numpy.ones_like": "ones_like",
    "numpy.empty": "empty", "numpy.empty_like": "empty_like",
    "numpy.full": "full", "numpy.full_like": "full_like",
    "numpy.asarray": "asarray", "numpy.array": "array",
    "numpy.asanyarray": "asanyarray", "numpy.ascontiguousarray": "asarray",
    "numpy.copy": "copy", "numpy.atleast_1d": "asarray",
    "numpy.ma.asarray": "ma.asarray", "numpy.ma.asanyarray": "ma.asarray",
    "numpy.ma.MaskedArray": "ma.array", "numpy.ma.masked_array": "ma.array",
    "numpy.ma.array": "ma.array", "numpy.ma.core.MaskedArray": "ma.array",
    "numpy.ma.masked_invalid": "ma.masked_invalid",
    "numpy.ma.fix_invalid": "ma.masked_invalid",
    "numpy.ma.masked_less": "ma.masked_less",
    "numpy.ma.masked_less_equal": "ma.masked_less_equal",
    "numpy.ma.masked_greater": "ma.masked_greater",
    "numpy.ma.masked_greater_equal": "ma.masked_greater_equal",
    "numpy.ma.masked_where": "ma.masked_where",
    "numpy.ma.masked_outside": "ma.masked_outside",
    "numpy.ma.getmask": "ma.getmask",
    "numpy.ma.getmaskarray": "ma.getmaskarray",
    "numpy.ma.getdata": "ma.getdata", "numpy.ma.filled": "ma.filled",
    "numpy.ma.make_mask": "bool", "numpy.ma.nomask": "nomask",
    "numpy.nan_to_num": "nan_to_num",
    "numpy.flip": "flip", "numpy.flipud": "flip0", "numpy.roll": "roll",
    "numpy.transpose": "transpose", "numpy.reshape": "reshape",
    "numpy.ravel": "ravel", "numpy.size": "size", "numpy.shape": "shape",
    "numpy.ndim": "ndim", "numpy.round": "round", "numpy.rint": "round",
    "numpy.around": "round", "math.floor": "floor", "numpy.floor": "floor",
    "math.ceil": "ceil", "numpy.ceil": "ceil",
    "numpy.float64": "float", "numpy.float32": "float32",
    "numpy.int64": "int", "numpy.int32": "int", "numpy.bool_": "bool",
    "numpy.flatnonzero": "flatnonzero",
    "math.log10": "numpy.log10", "math.exp": "numpy.exp",
    "os.path.join": "pathjoin", "pathlib.PurePath": "path",
    "pathlib.Path": "path", "os.fspath": "path", "os.fsdecode": "path",
    "functools.reduce": "reduce", "functools.partial": "partial",
    "copy.copy": "copy", "copy.deepcopy": "copy",
    "itertools.chain": "chain", "itertools.product": "product",
    "itertools.chain.from_iterable": "chain1", "math.prod": "prod",
    "numpy.iscomplexobj": "iscomplexobj", "math.fsum": "sum",
    "operator.attrgetter": "attrgetter", "operator.itemgetter": "itemgetter",
    "numpy.vdot": "vdot", "numpy.hypot": "hypot", "math.hypot": "hypot",
    "numpy.take": "take", "numpy.maximum": "numpy.maximum",
    "numpy.add.reduce": "sum", "numpy.logical_or.reduce": "orreduce",
    "numpy.ma.logical_or.reduce": "orreduce",
    "numpy.lib.recfunctions.append_fields":
        "numpy.lib.recfunctions.append_fields",
}

DTYPES = {"float", "int", "bool", "complex", "str"}

SCALAR_OPS = {"num", "len", "com", "size", "ndim", "bv", "int", "float"}


def is_scalar(t):
    r = t._memo.get("scalar")
    if r is None:
        r = _is_scalar(t)
        t._memo["scalar"] = r
    return r


def _is_scalar(t):
    for h in tm.SCALAR_HOOK:
        r = h(t)
        if r is not None:
            return r
    if t.op == "lv":
        return t.args[2] == "s"
    if t.op == "sumover":
        return is_scalar(t.args[2])
    if t.op in SCALAR_OPS or t is tm.I or t is tm.NAN or t is tm.INF:
        return True
    if t.op == "add":
        return all(is_scalar(a) for a in t.args)
    if t.op == "mul":
        return all(is_scalar(b) for b in t.args[1::2])
    if t.op in ("pow", "real", "imag", "conj", "abs", "round", "floor",
                "ceil"):
        return all(is_scalar(a) for a in t.args if isinstance(a, T))
    if t.op in ("sum", "mean", "max", "min", "median", "std") \
            and len(t.args) == 1:
        return True
    if t.op == "item":
        b, i = t.args
        if b.op in ("shape", "center_of_mass"):
            return True
        if b.op == "attr" and b.args[1] in ("shape", "stamp_shape"):
            return True
        if arrays.dims(t) == ():
            return True
    if t.op == "attr" and t.args[1] in SCALAR_ATTRS:
        return True
    if t.op == "ite":
        return is_scalar(t.args[1]) and is_scalar(t.args[2])
    return False


SCALAR_ATTRS = {"globalrms", "globalback", "size", "ndim"}
PLAIN_ATTRS = SCALAR_ATTRS | {"shape", "dtype", "success", "cost",
                              "is_image", "__name__", "__class__"}


# ----------------------------------------------------------------- strings

def strish(t):
    if t.op == "const":
        return isinstance(t.args[0], str)
    return t.op in ("str", "strcat", "pathjoin") or (
        t.op == "call" and t.args[0] in (
            "tempfile.mkdtemp", "os.path.dirname", "os.path.basename",
            "os.getcwd"))


def to_str(t, node=None):
    if t.op == "const" and isinstance(t.args[0], str):
        return t
    if t.op == "num" and (node is None or (
            node.format_spec is None and node.conversion == -1)):
        v = t.args[0]
        if v.denominator == 1:
            return const(str(int(v)))
    if t.op in ("str", "strcat", "pathjoin"):
        return t
    if strish(t):
        return t
    return mk("str", t)


def strcat(parts):
    out = []
    for p in parts:
        sub = list(p.args) if p.op == "strcat" else [p]
        for q in sub:
            if (out and q.op == "const" and out[-1].op == "const"):
                out[-1] = const(out[-1].args[0] + q.args[0])
            elif q.op == "const" and q.args[0] == "":
                continue
            else:
                out.append(q)
    if not out:
        return const("")
    if len(out) == 1:
        return out[0]
    return mk("strcat", *out)


def pathjoin(*ts):
    out = []
    for t in ts:
        if t.op == "path":
            t = t.args[0]
        out += list(t.args) if t.op == "pathjoin" else [t]
    if len(out) == 1:
        return out[0]
    return mk("pathjoin", *out)


# ------------------------------------------------------------------ binops

def binop(I, op, a, b):
    ta = tb = None
    # sequences
    if op == "Add":
        sa, sb = _seq(I, a), _seq(I, b)
        if sa is not None and sb is not None and type(sa) is type(sb):
            r = list(sa[0]) + list(sb[0])
            return VTuple(r) if sa[1] == "t" else I.lst(r)
    if op == "Mult":
        sa = _seq(I, a)
        tb = I.term(b) if not _seq(I, b) else None
        if sa is not None and tb is not None and tb.op == "num" \
                and tb.args[0].denominator == 1:
            r = list(sa[0]) * int(tb.args[0])
            return VTuple(r) if sa[1] == "t" else I.lst(r)
    ta, tb = I.term(a), I.term(b)
    if op == "BitOr" and (ta.op == "dict" or tb.op == "dict"):
        return I.new(mk("dictmerge", ta, tb))
    r = binop_term(op, ta, tb)
    return I.new(r)


def _seq(I, v):
    v = I.resolve(v)
    if isinstance(v, VTuple):
        return (v.items, "t")
    if isinstance(v, Ref) and isinstance(I.cell(v), Lst):
        return (I.cell(v).items, "l")
    return None


def binop_term(op, a, b):
    if op == "Add":
        if strish(a) or strish(b):
            return strcat([to_str(a), to_str(b)])
        return tm.add(a, b)
    if op == "Sub":
        return tm.sub(a, b)
    if op == "Mult":
        return tm.mul(a, b)
    if op == "Div":
        if strish(a) or strish(b) or a.op in ("path", "pathjoin"):
            return pathjoin(a, b)
        return tm.div(a, b)
    if op == "Pow":
        return tm.pow_(a, b)
    if op in ("FloorDiv", "Mod"):
        if tm.is_num(a) and tm.is_num(b) and b.args[0] != 0:
            x, y = a.args[0], b.args[0]
            return mk("num", type(x)(x // y) if op == "FloorDiv"
                      else x % y)
        if op == "Mod" and strish(a):
            return mk("strformat", a, b)
        return mk(op, a, b)
    if op in ("BitOr", "BitAnd"):
        if small.ON and "list" in (a.op, b.op):
            # spelled-out arrays: a list is not a truth value here
            try:
                return small.undense(small.mapped(mk(
                    "mor" if op == "BitOr" else "and", a, b)))
            except small.Reject:
                return mk(op, a, b)
        return m_or_arr(a, b) if op == "BitOr" else tm.m_and(a, b)
    if op == "MatMult":
        return arrays.matmul(a, b)
    if op == "BitXor":
        return mk("xor", *sorted((a, b), key=lambda t: t.id))
    return mk(op, a, b)


def m_or_arr(a, b):
    if tm.is_masked(a) or tm.is_masked(b):
        return tm.ma(tm.m_or(tm.mdata(a), tm.mdata(b)),
                     tm.m_or(tm.mmask(a), tm.mmask(b)))
    return tm.m_or(unshrink(a), unshrink(b))


def unshrink(t):
    return t.args[0] if t.op == "shrink" else t


def neg(t):
    return tm.neg(t)


def invert(t):
    if t.op == "num":
        return mk("num", -t.args[0] - 1)
    return tm.lnot(unshrink(t))


CMP = {"Lt": "lt", "LtE": "le", "Gt": "gt", "GtE": "ge", "Eq": "eq",
       "NotEq": "ne", "Is": "is", "IsNot": "isnot", "In": "in",
       "NotIn": "notin"}


def compare(I, op, a, b):
    if op in ("Is", "IsNot"):
        a, b = I.resolve(a), I.resolve(b)
        r = _is(I, a, b)
        if r is not None:
            return const(r) if op == "Is" else const(not r)
    if op in ("In", "NotIn"):
        r = _contains(I, I.resolve(b), a)
        if r is not None:
            return r if op == "In" else tm.lnot(r)
    if op in ("Eq", "NotEq"):
        a, b = I.resolve(a), I.resolve(b)
        sa, sb = _seq(I, a), _seq(I, b)
        if sa is not None and sb is not None:
            if any(isinstance(x, Seg) for x in list(sa[0]) + list(sb[0])):
                pass
            elif len(sa[0]) != len(sb[0]) or sa[1] != sb[1]:
                return const(op == "NotEq")
            else:
                r = tm.land(*[tm.cmp_("eq", I.term(x), I.term(y))
                              for x, y in zip(sa[0], sb[0])])
                return r if op == "Eq" else tm.lnot(r)
        # a full mask has a shape, never ()
        for x, y in ((a, b), (b, a)):
            if isinstance(y, VTuple) and not y.items:
                t = I.term(x)
                if t.op in ("shape",) and full_shape(t.args[0]):
                    return const(op == "NotEq")
    return tm.cmp_(CMP[op], I.term(a), I.term(b))


FULL_OPS = {"isfinite", "isnan", "zeros", "ones", "lt", "le", "gt",
            "mdata", "lt2", "le2"}


def full_shape(t):
    """Does the term surely denote an array with dimensions (not nomask)?"""
    if t.op == "mor":
        return any(full_shape(a) for a in t.args)
    if t.op == "not":
        return full_shape(t.args[0])
    if t.op == "ite":
        return full_shape(t.args[1]) and full_shape(t.args[2])
    return t.op in FULL_OPS


def _is(I, a, b):
    if isinstance(a, Choice) or isinstance(b, Choice):
        return None
    none_a, none_b = a is tm.NONE, b is tm.NONE
    struct = (VTuple, Fn, Cls, Mod, Bound, Ext, Partial, ExtMeth, InstDict)
    if none_a or none_b:
        o = b if none_a else a
        if o is tm.NONE:
            return True
        if isinstance(o, struct):
            return False
        if isinstance(o, Ref):
            c = I.cell(o)
            if isinstance(c, (Lst, Dct, Inst)):
                return False
            if c.term.op in tm.NOT_NONE:
                return False
        return None
    if isinstance(a, (Cls, Ext)) and isinstance(b, (Cls, Ext)):
        return a == b
    if isinstance(a, Ref) and isinstance(b, Ref):
        if a.loc == b.loc:
            return True
        if isinstance(I.cell(a), Inst) and isinstance(I.cell(b), Inst):
            return False
    return None


def _contains(I, coll, x):
    if isinstance(coll, InstDict):
        t = I.term(x)
        if t.op == "const":
            c = I.cell(coll.ref)
            if t.args[0] in c.fields:
                return I._present(c.fields[t.args[0]])
            if c.sym is None:
                return tm.FALSE
        return None
    if isinstance(coll, Ref) and isinstance(I.cell(coll), Dct):
        c = I.cell(coll)
        t = I.term(x)
        if t in c.items:
            return I._present(c.items[t])
        if c.base is None and tm.is_const(t) and all(
                tm.is_const(k) for k in c.items):
            return tm.FALSE
        return None
    s = _seq(I, coll)
    if s is not None and not any(isinstance(v, Seg) for v in s[0]):
        if all(isinstance(v, (T, Cls, Ext)) for v in s[0]):
            t = I.term(x)
            return tm.lor(*[tm.cmp_("eq", t, I.term(v)) for v in s[0]])
    if small.ON and s is None and isinstance(coll, (Ref, View)):
        es = arrays.elements(I.term(coll))
        if es is not None:
            t = I.term(x)
            return tm.lor(*[tm.cmp_("eq", t, e) for e in es])
    return None


# ------------------------------------------------------- attributes, items

VIEW_COPY_ATTRS = {"real", "imag", "T", "data", "mask", "flat"}


def attr_term(I, base, name):
    """Term of base.name for an external object."""
    if I.attrs:
        r = I.attrs.get((base, name))
        if r is not None:
            return r
    if base.op == "with":
        if base.args[1] == name:
            return base.args[2]
        return attr_term(I, base.args[0], name)
    if base.op == "ite" and (base.args[1].op in ("with", "ma")
                             or base.args[2].op in ("with", "ma")):
        return tm.ite(base.args[0], attr_term(I, base.args[1], name),
                      attr_term(I, base.args[2], name))
    if name == "real":
        return tm.real(base)
    if name == "imag":
        return tm.imag(base)
    if name == "shape":
        return shape(base)
    if name == "size":
        d = small.dense(strip_shape(base)) if small.ON else None
        if isinstance(d, list):
            return const(len(small.flat(d)))
        return mk("size", strip_shape(base))
    if name == "T":
        return transpose(base)
    if name == "data" and tm.is_masked(base):
        return tm.mdata(base)
    if name == "mask" and tm.is_masked(base):
        return tm.mmask(base)
    if name == "__class__":
        return mk("typeof", base)
    if base.op == "typeof" and name == "__name__":
        k = I.kinds.get(base.args[0])
        if k:
            return const(sorted(k, key=len)[0].split(".")[-1]
                         if len(k) == 1 else next(iter(k)).split(".")[-1])
        return mk("typename", base.args[0])
    return mk("attr", base, name)


def transpose(t):
    return arrays.transpose(t)


SHAPE_KEEP = {"conj", "real", "imag", "abs", "astype", "ma", "mdata",
              "mmask", "copy", "setitem", "isnan", "isfinite", "not",
              "fft2s", "with", "phase", "asarray", "filled", "masked"}


def strip_shape(t):
    while True:
        if t.op in ("conj", "real", "imag", "abs", "astype", "mdata",
                    "mmask", "copy", "isnan", "isfinite", "not", "setitem",
                    "ma", "filled", "shrink"):
            t = t.args[0]
            continue
        if t.op == "mor":
            f = [a for a in t.args if full_shape(a)]
            if f:
                t = f[0]
                continue
        if t.op in ("lt", "le", "eq"):
            t = t.args[0]
            continue
        if t.op in ("lt2", "le2", "eq2"):
            t = t.args[0] if not tm.is_const(t.args[0]) else t.args[1]
            continue
        if t.op in ("add",):
            n = [a for a in t.args if not is_scalar(a)]
            if n and any(x is not t for x in n):
                t = n[0]
                continue
        if t.op == "mul":
            n = [b for b in t.args[1::2]
                 if not is_scalar(b) and b.op != "phase"]
            if n:
                t = n[0]
                continue
        return t


def shape(t):
    b = strip_shape(t)
    if b.op in ("zeros", "ones"):
        s = b.args[0]
        return s
    if b.op in ("fft2", "ifft2"):
        if len(b.args) > 1 and b.args[1] is not tm.NONE:
            return b.args[1]
        return shape(b.args[0])
    if b.op == "tuple":
        return mk("tuple", const(len(b.args)))
    if b.op == "ite":
        x, y = shape(b.args[1]), shape(b.args[2])
        return tm.ite(b.args[0], x, y)
    if small.ON:
        d = small.dense(b)
        if isinstance(d, list):
            return mk("tuple", *[const(n) for n in small.shape(d)])
        if b in (tm.TRUE, tm.FALSE):
            return mk("tuple")
    return mk("shape", b)


def with_attr(I, old, name, val):
    if old.op == "ite" and tm.is_masked(old):
        return tm.ite(old.args[0], with_attr(I, old.args[1], name, val),
                      with_attr(I, old.args[2], name, val))
    if name == "real":
        return tm.add(val, tm.mul(tm.I, tm.imag(old)))
    if name == "imag":
        return tm.add(tm.real(old), tm.mul(tm.I, val))
    if name == "mask" and tm.is_masked(old):
        return tm.ma(tm.mdata(old), as_mask(val))
    if name == "data" and tm.is_masked(old):
        return tm.ma(val, tm.mmask(old))
    if old.op == "with":
        if old.args[1] == name:
            return with_attr(I, old.args[0], name, val)
        if old.args[1] > name:
            return mk("with", with_attr(I, old.args[0], name, val),
                      old.args[1], old.args[2])
    return mk("with", old, name, val)


def as_mask(v):
    v = unshrink(v)
    if v.op == "astype" and v.args[1] in (const("bool"),
                                          mk("ext", "bool")):
        v = v.args[0]
    if v.op == "zeros":
        return v
    return v


FULL_SLICE = None


def full_slice():
    return mk("slice", tm.NONE, tm.NONE, tm.NONE)


def grid(axis, *ext_):
    """Coordinate along one axis of a regular pixel grid."""
    return mk("grid", axis, *ext_)


def grids(bounds):
    flat = [b for p in bounds for b in p]
    return mk("tuple", *[grid(i, *flat) for i in range(len(bounds))])


def item_term(base, idx):
    if base.op == "ext" and base.args[0] == "numpy.mgrid" and \
            idx.op == "tuple" and all(
                a.op == "slice" and a.args[2] is tm.NONE
                for a in idx.args):
        return grids([(tm.ZERO if a.args[0] is tm.NONE else a.args[0],
                       a.args[1]) for a in idx.args])
    if base.op in ("tuple", "list") and idx.op == "num" \
            and idx.args[0].denominator == 1 \
            and not any(a.op == "splice" for a in base.args):
        i = int(idx.args[0])
        if -len(base.args) <= i < len(base.args):
            return base.args[i]
    if base.op == "ite":
        x = item_term(base.args[1], idx)
        y = item_term(base.args[2], idx)
        return tm.ite(base.args[0], x, y)
    if base.op == "listmap" and base.args[3] is tm.TRUE and \
            idx.op == "num" and idx.args[0] >= 0 and \
            idx.args[0].denominator == 1:
        return tm.subst(base.args[2], {mk("bv", base.args[0]): idx})
    if base.op == "ma":
        return tm.ma(item_term(base.args[0], idx),
                     tm.FALSE if base.args[1] is tm.FALSE
                     else item_term(base.args[1], idx))
    if base.op == "with" and idx.op == "const":
        return item_term(base.args[0], idx)
    if base.op == "setitem":
        b, i, v = base.args
        if i is idx:
            return v
        if _distinct(i, idx):
            return item_term(b, idx)
    if base.op == "dict" and not (base.args and base.args[0].op ==
                                  "splice"):
        for k, v in zip(base.args[::2], base.args[1::2]):
            if k is idx:
                return v
    if idx.op == "slice" and all(a is tm.NONE for a in idx.args):
        return base
    if (idx.op == "slice" and idx.args[0] is tm.NONE
            and idx.args[1] is tm.NONE and idx.args[2] is tm.NEG1):
        return flip0(base)
    if base.op == "unpack" and idx.op == "num":
        return mk("item", base, idx)
    if base.op == "flip" and idx.op == "num" \
            and idx.args[0].denominator == 1:
        return item_term(base.args[0], mk("num", -idx.args[0] - 1))
    if small.ON:
        if base.op == "rec" and idx.op == "const" and \
                idx.args[0] in base.args[0].split(","):
            return base.args[1 + base.args[0].split(",").index(
                idx.args[0])]
        d = small.dense(base)
        if d is not None:
            try:
                return small.undense(small.take(d, idx))
            except small.Reject:
                pass
    r = arrays.index(base, idx)
    if r is not None:
        return r
    if base.op == "shape" and idx.op == "num":
        d = arrays.dims(base.args[0])
        i = arrays.intval(idx)
        if d and i is not None and -len(d) <= i < len(d) \
                and d[i] is not None:
            return const(d[i])
    if idx.op in ("num", "slice") and (
            base.op in VECTORS or small.ON):
        es = arrays.elements(base)
        i = arrays.comps((len(es),), idx) if es is not None else None
        if i is not None:
            if isinstance(i[0], int):
                return es[i[0]]
            return mk("list", *[es[j] for j in i[0]])
    if base.op == "center_of_mass" and idx.op == "num":
        return mk("com", base.args[0], idx)
    return mk("item", base, idx)


VECTORS = arrays.ELEMENTWISE | {"list", "array", "flip", "astype"}


def flip0(t):
    if t.op == "flip":
        return t.args[0]
    return mk("flip", t)


def _distinct(i, j):
    if i.op in ("num", "const") and j.op in ("num", "const"):
        if i.op == "num" and j.op == "num":
            return (i.args[0] >= 0) == (j.args[0] >= 0) and i is not j
        return i.op == "const" and j.op == "const" and i is not j
    if i.op == "tuple" and j.op == "tuple" and len(i.args) == len(j.args):
        return any(_distinct(a, b) for a, b in zip(i.args, j.args))
    if i.op in ("num",) and j.op == "tuple" or (
            j.op == "num" and i.op == "tuple"):
        return False
    if (i.op == "const" and isinstance(i.args[0], str)) != (
            j.op == "const" and isinstance(j.args[0], str)):
        return False
    return False


def setitem_term(old, idx, val):
    if idx.op == "slice" and all(a is tm.NONE for a in idx.args):
        # whole contents; keep masks out of it
        return val
    if idx.op == "const" and idx.args[0] == "...":
        return val
    if small.ON:
        if old.op == "rec" and idx.op == "const":
            ns = old.args[0].split(",")
            if idx.args[0] not in ns:
                raise small.Bad("ValueError")
            i = ns.index(idx.args[0]) + 1
            return mk("rec", *(old.args[:i] + (val,) + old.args[i + 1:]))
        d = small.dense(old)
        if d is not None:
            try:
                return small.undense(small.assign(d, idx, val))
            except small.Reject:
                pass
    if old.op == "setitem" and old.args[1] is idx:
        old = old.args[0]
    if old.op == "ma" and idx.op != "const":
        return tm.ma(mk("setitem", old.args[0], idx, val), old.args[1])
    return mk("setitem", old, idx, val)


def basic_index(t):
    if t.op in ("slice", "num", "bv"):
        return True
    if t.op == "const":
        return isinstance(t.args[0], str) or t is tm.NONE
    if t.op == "tuple":
        return all(basic_index(a) and not (
            a.op == "const" and isinstance(a.args[0], str))
            for a in t.args)
    return is_scalar(t)


def getattr(I, v, name, node):  # noqa: A001
    if isinstance(v, T):
        if strish(v):
            return ExtMeth(v, name)
        if (v, name) in I.vattrs:
            return I.vattrs[v, name]
        t = attr_term(I, v, name)
        return t
    base = I.term(v)
    if (base, name) in I.vattrs:
        return I.vattrs[base, name]
    t = attr_term(I, base, name)
    if name in PLAIN_ATTRS:
        if t.op == "tuple":
            return VTuple(t.args)
        return t
    if base.op == "with" and t is not None:
        # an attribute stored on an external object earlier
        pass
    if isinstance(v, (Ref, View)):
        return View(v, "attr", name)
    return I.new(t)


def getitem(I, v, idx, node):
    it = I.term(idx)
    base = I.term(v)
    if isinstance(v, T) and strish(v):
        return mk("item", v, it)
    try:
        t = item_term(base, it)
    except small.Bad as e:
        I.raise_(None, node, str(e))
    if not (small.ON and small.dense(base) is not None):
        I.risk(t, node)
    if isinstance(v, (Ref, View)):
        if t.op in ("const", "num") or I.scalar(t) or t.op == "tuple":
            return I.new(t)
        if basic_index(it):
            return View(v, "item", it)
        return I.new(t)
    if isinstance(t, T) and t.op == "tuple":
        return VTuple(t.args)
    return I.new(t) if not isinstance(v, T) else t


def unpack_term(I, t, i, n):
    if t.op in ("tuple", "list"):
        return item_term(t, const(i))
    if t.op == "ite":
        return tm.ite(t.args[0], unpack_term(I, t.args[1], i, n),
                      unpack_term(I, t.args[2], i, n))
    if t.op == "center_of_mass":
        return mk("com", t.args[0], const(i))
    return item_term(t, const(i))


def const_term(name):
    c = CANON.get(name, name)
    if name in ("numpy.nan", "math.nan", "numpy.NaN", "numpy.NAN"):
        return tm.NAN
    if name in ("numpy.inf", "math.inf", "numpy.Inf"):
        return tm.INF
    if name in ("numpy.ma.nomask",):
        return tm.FALSE
    if name == "numpy.newaxis":
        return tm.NONE
    if name in ("None", "True", "False"):
        return const({"None": None, "True": True, "False": False}[name])
    return mk("ext", c)


# ---------------------------------------------------------------- iterate

def iterate(I, v):
    t = I.term(v) if not isinstance(v, T) else v
    if t.op in ("tuple", "list") and not any(
            a.op == "splice" for a in t.args):
        return [I.new(a) for a in t.args]
    if t.op == "range":
        lo, hi, st = t.args
        if lo.op == hi.op == st.op == "num":
            r = range(int(lo.args[0]), int(hi.args[0]), int(st.args[0]))
            if len(r) <= 64:
                return [const(i) for i in r]
    if t.op == "const" and isinstance(t.args[0], str):
        return [const(c) for c in t.args[0]]
    if t.op in VECTORS or small.ON:
        es = arrays.elements(t)
        if es is not None:
            return [I.new(a) for a in es]
    if small.ON and t.op in ("ravel", "flip", "transpose", "copy"):
        x = small.dense(t)
        if isinstance(x, list):
            return [I.new(small.undense(a)) for a in x]
    if t.op == "shape" and len(t.args) == 1 and t.args[0].op == "sym" and \
            t.args[0].args[-1] in ("data", "mask"):
        return [I.new(item_term(t, const(i))) for i in range(2)]
    if t.op == "call" and t.args[0] in ("numpy.where", "numpy.nonzero") and \
            len(t.args) == 2 and tm.contains(t, lambda z: z.op == "ifft2"):
        return [I.new(item_term(t, const(i))) for i in range(2)]
    d = arrays.dims(t)
    if d and d[0] is not None and d[0] <= 64:
        return [I.new(item_term(t, const(i))) for i in range(d[0])]
    return None


def len_(I, v):
    v = I.resolve(v)
    if isinstance(v, Choice):
        return tm.ite(v.cond, len_(I, v.a), len_(I, v.b))
    s = _seq(I, v)
    if s is not None:
        n = sum(1 for x in s[0] if not isinstance(x, Seg))
        segs = [mk("len", x.term) if x.term.op != "ite" else
                _len_term(x.term) for x in s[0] if isinstance(x, Seg)]
        return tm.add(const(n), *segs) if segs else const(n)
    if isinstance(v, Ref) and isinstance(I.cell(v), Dct):
        c = I.cell(v)
        if c.base is None:
            return const(len(c.items))
    t = I.term(v)
    if small.ON and t.op in ("sym", "num") and is_scalar(t):
        I.raise_(None, None, "TypeError")
    return _len_term(t)


def _len_term(t):
    if t.op in VECTORS or small.ON:
        es = arrays.elements(t)
        if es is not None:
            return const(len(es))
    d = arrays.dims(t)
    if d and d[0] is not None:
        return const(d[0])
    if t.op == "const" and isinstance(t.args[0], str):
        return const(len(t.args[0]))
    if t.op in ("tuple", "list") and not any(
            a.op == "splice" for a in t.args):
        return const(len(t.args))
    if t.op == "ite":
        return tm.ite(t.args[0], _len_term(t.args[1]), _len_term(t.args[2]))
    if t.op == "listmap" and t.args[3] is tm.TRUE:
        return t.args[1]
    if t.op == "range":
        if t.args[0] is tm.ZERO and t.args[2] is tm.ONE:
            return t.args[1]
    if t.op in ("flip", "enumerate"):
        return _len_term(t.args[0])
    if t.op == "setitem" and t.args[1].op == "const":
        return _len_term(t.args[0])
    if t.op == "zeros" or t.op == "ones":
        s = t.args[0]
        if s.op == "tuple":
            return s.args[0]
        if is_scalar(s):
            return s
    return mk("len", t)


# ------------------------------------------------------------------- calls

def decorator(I, name, v):
    c = CANON.get(name, name)
    if name in ("functools.lru_cache", "functools.cache"):
        return Partial(Ext(name), [v], {}, "decorated")
    if name == "functools.cached_property":
        return CachedProp(v)
    if name in ("contextlib.contextmanager",):
        return Partial(Ext(name), [v], {}, "decorated")
    return None


def kwget(I, kw, name, default=None):
    v = kw.get(name)
    return v if v is not None else default


LINEAR = {"fft2", "ifft2", "roll", "sum", "mean"}


def linop(op, x, *rest):
    """A linear library operation: distribute over sums, pull scalars."""
    if x.op == "ma" and op == "sum":
        return mk(op, x, *rest)
    if x.op == "add":
        arrs = [a for a in x.args if not is_scalar(a)]
        if op == "sum" and arrs and len(arrs) < len(x.args):
            n = mk("size", strip_shape(arrs[0])) if not rest else mk(
                "size", strip_shape(arrs[0]), *rest)
            return tm.add(*[tm.mul(a, n) if is_scalar(a) else
                            linop(op, a, *rest) for a in x.args])
        return tm.add(*[linop(op, a, *rest) for a in x.args])
    if x.op == "mul":
        sc = mk("num", x.args[0])
        keep = tm.ONE
        for b, e in zip(x.args[1::2], x.args[2::2]):
            f = tm.pow_(b, mk("num", e))
            if is_scalar(b):
                sc = tm.mul(sc, f)
            else:
                keep = tm.mul(keep, f)
        if sc is not tm.ONE and keep is not tm.ONE:
            if keep.op in ("add", "mul"):
                return tm.mul(sc, mk(op, keep, *rest))
            return tm.mul(sc, linop(op, keep, *rest))
        if sc is not tm.ONE and op in ("fft2", "ifft2", "roll"):
            return tm.mul(sc, mk(op, tm.ONE, *rest))
    if x.op == "zeros":
        return x if op != "sum" else tm.ZERO
    return mk(op, x, *rest)


tm.CONSTRUCTORS["fft2"] = lambda x, *r: linop("fft2", x, *r)
tm.CONSTRUCTORS["ifft2"] = lambda x, *r: linop("ifft2", x, *r)
tm.CONSTRUCTORS["roll"] = lambda x, *r: linop("roll", x, *r)
tm.CONSTRUCTORS["sum"] = lambda x, *r: linop("sum", x, *r)
tm.CONSTRUCTORS["item"] = item_term
tm.CONSTRUCTORS["shape"] = shape
tm.CONSTRUCTORS["len"] = _len_term
tm.CONSTRUCTORS["flip"] = flip0
tm.CONSTRUCTORS["transpose"] = transpose
tm.CONSTRUCTORS["strcat"] = lambda *a: strcat(list(a))


def call(I, name, args, kw, node):
    c = CANON.get(name, name)
    cut = I.cuts.get("ext:" + c) or I.cuts.get(
        "ext:" + name.rpartition(".")[0] + ".*")
    if cut is not None:
        r = cut(I, c, args, kw, node)
        if r is not NotImplemented:
            return r
    f = HANDLERS.get(c)
    if f is not None:
        try:
            r = f(I, args, kw, node)
        except FOLDING as e:
            # the summary of that function does not cover these arguments
            I.note("%s: %s: %s" % (c, type(e).__name__, e), node)
            r = NotImplemented
        if r is not NotImplemented:
            out = kw.get("out")
            if out is not None and out is not tm.NONE:
                I.mutate(out, I.term(r), node, "out=")
                return out
            sharing(I, c, r, args, kw)
            return r
    r = opaque(I, c, args, kw, node)
    sharing(I, c, r, args, kw)
    return r


# Calls whose result may be a view of their first argument.
VIEWS = {"asarray", "asanyarray", "ma.asarray", "ravel", "numpy.reshape", "numpy.squeeze",
         "numpy.transpose", "numpy.broadcast_to", "flip", "numpy.swapaxes",
         "numpy.moveaxis", "numpy.rollaxis", "numpy.expand_dims",
         "numpy.atleast_2d", "ma.getdata", "ma.getmask", "ma.getmaskarray",
         "numpy.require", "numpy.asfarray", "real", "imag",
         "numpy.atleast_3d", "numpy.fliplr", "numpy.flipud", "numpy.rot90"}
# Calls that copy, or not, as their argument says.
COPIES = {"array": True, "ma.array": False, "nan_to_num": True,
          "ma.masked_where": True, "ma.masked_invalid": True,
          "ma.masked_less": True, "ma.masked_greater": True}
# Calls that write to an argument.
WRITERS = {"numpy.copyto": 0, "numpy.putmask": 0, "numpy.place": 0,
           "numpy.put": 0, "numpy.fill_diagonal": 0,
           "numpy.random.shuffle": 0, "numpy.add.at": 0, "random.shuffle": 0}


def sharing(I, c, r, args, kw):
    if c in WRITERS and args:
        I.wrote(args[WRITERS[c]])
    base = args[c == "ma.masked_where"] if len(args) > (
        c == "ma.masked_where") else next(
        (kw[k] for k in ("a", "data", "x", "arr", "object") if k in kw),
        None)
    if base is None or not isinstance(r, Value):
        return
    if c in COPIES:
        copy = kw.get("copy")
        copy = COPIES[c] if copy is None else tm.truth(I.term(copy)) is True
        if copy:
            return
        if c != "array" and c != "ma.array":
            I.wrote(base)
        m = kw.get("mask", args[1] if c == "ma.array" and len(args) > 1
                   else None)
        if m is not None and I.term(m).op not in ("const", "nomask"):
            I.share(r, m, "mask", "data")
            I.share(r, base, "data", "data")
        else:
            I.share(r, base, "data" if m is not None else "all")
    elif c in ("ma.getmask", "ma.getmaskarray"):
        I.share(r, base, "data", "mask")
    elif c == "ma.getdata":
        I.share(r, base, "data", "data")
    elif c in VIEWS:
        I.share(r, base)


FOLDING = (KeyError, IndexError, ValueError, TypeError, AttributeError,
           ArithmeticError)


def opaque(I, name, args, kw, node, obj=None):
    """An uninterpreted library call: a term and an event."""
    targs = [I.term(a) for a in args]
    tkw = {k: I.term(v) for k, v in kw.items() if k != "out"}
    t = mk("call", name, *(targs + [mk("kw", k, v)
                                    for k, v in sorted(tkw.items())]))
    d = None
    if small.ON:
        try:
            d = small.dense(t)
        except small.Bad as e:
            I.event("call", name, args, kw, t, node)
            I.raise_(None, node, str(e))
        if d is not None:
            t = small.undense(d)
    if d is None and name not in EXC_NAMES:
        I.risk(t, node)
    if name in FRESH:
        I.nfresh = vars(I).get("nfresh", 0) + 1
        t = mk("call", name, *(targs + [mk("fresh", I.nfresh)]))
    I.event("call", name, args, kw, t, node)
    out = kw.get("out")
    if out is not None and out is not tm.NONE:
        I.mutate(out, t, node, "out=")
        return out
    return I.new(t)


EXC_NAMES = {n for n, c in vars(builtins).items()
             if isinstance(c, type) and issubclass(c, BaseException)}
FRESH = {"tempfile.mkdtemp", "tempfile.mktemp", "tempfile.mkstemp",
         "uuid.uuid1", "uuid.uuid4", "secrets.token_hex", "os.urandom",
         "time.time", "time.perf_counter", "time.monotonic",
         "time.process_time", "time.time_ns", "datetime.datetime.now"}


def call_value(I, f, args, kw, node):
    """Calling an external object (for instance a fitted model)."""
    t = I.term(f)
    if t.op == "ext":
        return call(I, t.args[0], args, kw, node)
    if t.op == "partial" and t.args[0] == "delayed":
        pass
    targs = [I.term(a) for a in args]
    tkw = [mk("kw", k, I.term(v)) for k, v in sorted(kw.items())]
    if t.op == "attr":
        return method(I, I.wrapsym(t.args[0]), t.args[1], args, kw, node)
    if t.op == "ite":
        r = mk("apply", t, *(targs + tkw))
    else:
        r = mk("apply", t, *(targs + tkw))
    I.risk(r, node)
    if t.op == "call" and t.args[0] == "joblib.Parallel":
        return parallel(I, t, args, kw, node)
    I.event("call", "<value>", [f] + list(args), kw, r, node)
    return I.new(r)


def parallel(I, t, args, kw, node):
    """joblib.Parallel(...)(tasks): run every task, results in order."""
    items = I.iterate(args[0])
    I.event("call", "parallel", args, kw, t, node)
    if items is None:
        v = args[0]
        return I.new(mk("parmap", I.term(v)))
    out = []
    for x in items:
        x = I.resolve(x)
        if isinstance(x, Partial) and x.tag == "task":
            out.append(task(I, x, node))
        else:
            out.append(I.unk("task"))
    return I.lst(out)


def task(I, x, node):
    """One worker's share, with what it found and what it left behind."""
    before, nw, ne = I.st.copy(), len(I.writes), len(I.events)
    r = I.call(x.fn, x.args, x.kw, node)
    vars(I).setdefault("tasks", []).append(
        (x, before, I.st.copy(), I.writes[nw:], I.events[ne:]))
    return r


# ------------------------------------------------------------- the handlers

HANDLERS = {}


def H(*names):
    def deco(f):
        for n in names:
            HANDLERS[n] = f
        return f
    return deco


def nargs(I, args, kw, names):
    """Positional or keyword terms of a call, by name."""
    d = dict(zip(names, args))
    for k, v in kw.items():
        d[k] = v
    return {k: I.term(v) for k, v in d.items()}


def bin2(op):
    def f(I, args, kw, node):
        if len(args) < 2:
            return NotImplemented
        t = binop_term(op, I.term(args[0]), I.term(args[1]))
        out = kw.get("out")
        if len(args) > 2:
            I.mutate(args[2], t, node, "out=")
            return args[2]
        if out is not None and out is not tm.NONE:
            return t
        return I.new(t)
    return f


for _n, _o in (("+", "Add"), ("-", "Sub"), ("*", "Mult"), ("/", "Div"),
               ("**", "Pow"), ("or", "BitOr"), ("and", "BitAnd"),
               ("matmul", "MatMult")):
    HANDLERS[_n] = bin2(_o)


def cmp2(op):
    def f(I, args, kw, node):
        return I.new(tm.cmp_(op, I.term(args[0]), I.term(args[1])))
    return f


for _n in ("gt", "ge", "lt", "le", "eq", "ne"):
    HANDLERS[_n] = cmp2(_n)


def un(f):
    def g(I, args, kw, node):
        if not args:
            return NotImplemented
        t = f(I.term(args[0]))
        return t if kw.get("out") is not None else I.new(t)
    return g


HANDLERS.update({
    "neg": un(tm.neg), "square": un(lambda t: tm.pow_(t, const(2))),
    "sqrt": un(tm.sqrt), "abs": un(tm.abs_), "conj": un(tm.conj),
    "real": un(tm.real), "imag": un(tm.imag), "invert": un(invert),
    "recip": un(lambda t: tm.pow_(t, tm.NEG1)),
    "transpose": un(transpose), "flip0": un(flip0),
    "isnan": un(lambda t: isnan(t)), "isfinite": un(lambda t: isfinite(t)),
    "ma.getmask": un(tm.mmask), "ma.getmaskarray": un(tm.mmask),
    "ma.getdata": un(tm.mdata),
    "numpy.log10": un(lambda t: mk("log10", t)),
})


def isnan(t):
    if tm.is_masked(t):
        return tm.ma(isnan(tm.mdata(t)), tm.mmask(t))
    if t.op == "num" or t in (tm.INF, tm.NAN):
        return const(t is tm.NAN)
    for h in tm.FACT_HOOK:
        v = h("isnan", t)
        if v is not None:
            return const(v)
    return mk("isnan", t)


def isfinite(t):
    if tm.is_masked(t):
        return tm.ma(isfinite(tm.mdata(t)), tm.mmask(t))
    if t.op == "num" or t in (tm.INF, tm.NAN):
        return const(t.op == "num")
    for h in tm.FACT_HOOK:
        v = h("isfinite", t)
        if v is not None:
            return const(v)
    return mk("isfinite", t)


tm.CONSTRUCTORS["isnan"] = isnan
tm.CONSTRUCTORS["isfinite"] = isfinite


@H("hypot")
def _hypot(I, args, kw, node):
    a, b = I.term(args[0]), I.term(args[1])
    two = const(2)
    return I.new(tm.sqrt(tm.add(tm.pow_(a, two), tm.pow_(b, two))))


@H("mask_or")
def _mask_or(I, args, kw, node):
    d = nargs(I, args, kw, ["m1", "m2", "copy", "shrink"])
    ms = []
    for m in (d["m1"], d["m2"]):
        m = unshrink(m)
        # make_mask fills masked entries with True
        ms += [tm.mdata(m), tm.mmask(m)] if m.op == "ma" else [m]
    t = tm.m_or(*ms)
    if tm.truth(d.get("shrink", tm.TRUE)) is not False:
        t = mk("shrink", t)
    return I.new(t)


@H("orreduce")
def _orreduce(I, args, kw, node):
    items = I.iterate(args[0])
    if items is None:
        return NotImplemented
    return I.new(tm.m_or(*[unshrink(I.term(x)) for x in items]))


@H("fft2", )
def _fft2(I, args, kw, node):
    return _fft(I, "fft2", args, kw, node)


@H("ifft2")
def _ifft2(I, args, kw, node):
    return _fft(I, "ifft2", args, kw, node)


def _fft(I, op, args, kw, node):
    d = nargs(I, args, kw, ["a", "s", "axes", "norm"])
    x = d.get("a", d.get("x"))
    if x is None:
        return NotImplemented
    x = tm.mdata(x)
    s = d.get("s", tm.NONE)
    if s is not tm.NONE and shape(x) is s:
        s = tm.NONE
    t = linop(op, x, s, d.get("norm", tm.NONE))
    return I.new(t)


@H("fourier_shift")
def _fshift(I, args, kw, node):
    d = nargs(I, args, kw, ["input", "shift", "n", "axis", "output"])
    s = d["shift"]
    if s.op in ("tuple", "list") and len(s.args) == 2:
        p = tm.phase(*s.args)
    else:
        p = tm.phase(item_term(s, const(0)), item_term(s, const(1)))
    t = tm.mul(d["input"], p)
    if "output" in kw:
        I.mutate(kw["output"], t, node, "output=")
        return kw["output"]
    return I.new(t)


@H("center_of_mass")
def _com(I, args, kw, node):
    d = nargs(I, args, kw, ["input", "labels", "index"])
    if len(d) > 1:
        return NotImplemented
    return VTuple([mk("com", d["input"], const(i)) for i in range(2)])


@H("zeros", "empty", "ones")
def _zeros(I, args, kw, node):
    return NotImplemented


def settled(t):
    """The known elements of t, in small mode."""
    d = small.dense(t) if small.ON else None
    return t if d is None else small.undense(d)


def filler(op):
    def f(I, args, kw, node):
        d = nargs(I, args, kw, ["shape", "dtype"])
        s = d["shape"]
        if s.op == "list":
            s = mk("tuple", *s.args)
        return I.new(settled(mk(op, s)))
    return f


HANDLERS["zeros"] = filler("zeros")
HANDLERS["ones"] = filler("ones")
HANDLERS["empty"] = filler("empty")


def filler_like(op):
    def f(I, args, kw, node):
        t = I.term(args[0])
        d = small.dense(t) if small.ON else None
        if isinstance(d, list):
            return I.new(small.undense(small.fill(
                small.shape(d), tm.ONE if op == "ones" else tm.ZERO)))
        return I.new(mk(op, shape(t)))
    return f


HANDLERS["zeros_like"] = filler_like("zeros")
HANDLERS["ones_like"] = filler_like("ones")
HANDLERS["empty_like"] = filler_like("empty")


@H("full")
def _full(I, args, kw, node):
    d = nargs(I, args, kw, ["shape", "fill_value", "dtype"])
    v = d.get("fill_value")
    if v in (tm.ZERO, tm.FALSE):
        return I.new(settled(mk("zeros", d["shape"])))
    if v is tm.ONE:
        return I.new(settled(mk("ones", d["shape"])))
    return I.new(settled(mk("full", d["shape"], v)))


@H("asarray")
def _asarray(I, args, kw, node):
    """A plain array: flags are left behind."""
    v = I.resolve(args[0])
    if isinstance(v, (Ref, View)) and not _seq(I, v) and \
            tm.is_masked(I.term(v)):
        args = [I.getattr(v, "data", node)] + list(args[1:])
    return _asanyarray(I, args, kw, node)


@H("asanyarray")
def _asanyarray(I, args, kw, node):
    v = I.resolve(args[0])
    if "dtype" in kw or len(args) > 1:
        dt = dtype(I, kw.get("dtype", args[1] if len(args) > 1 else None))
        return I.new(astype(I.term(v), dt))
    if isinstance(v, (Ref, View)) and not _seq(I, v):
        return v
    return I.new(mk("array", I.term(v))) if _seq(I, v) else v


@H("array")
def _array(I, args, kw, node):
    v = I.resolve(args[0])
    t = I.term(v)
    if tm.is_masked(t) and tm.truth(I.term(kw.get(
            "subok", tm.FALSE))) is False:
        t = tm.mdata(t)
    if "dtype" in kw or len(args) > 1:
        t = astype(t, dtype(I, kw.get("dtype",
                                      args[1] if len(args) > 1 else None)))
    if _seq(I, v):
        return I.new(mk("array", t))
    return I.new(t)


@H("copy")
def _copy(I, args, kw, node):
    return shallow_copy(I, args[0])


def shallow_copy(I, v):
    v = I.resolve(v)
    if isinstance(v, Ref):
        return I.alloc(I.cell(v))
    if isinstance(v, Choice):
        return I.lift(v, lambda x: shallow_copy(I, x))
    return I.new(I.term(v))


def dtype(I, v):
    if v is None:
        return tm.NONE
    t = I.term(v)
    if t.op == "ext":
        n = t.args[0].split(".")[-1]
        return const(DT.get(n, n))
    if t.op == "const" and isinstance(t.args[0], str):
        n = t.args[0]
        if n.lstrip("<>=|")[:1] in ("i", "u") and n[-1:].isdigit() and \
                not n.startswith(("int", "uint")):
            n = "uint" if "u" in n else "int64"
        return const(DT.get(n, n))
    return t


DT = {"<f4": "float32", "f4": "float32", "=f4": "float32",
      "single": "float32", "float32": "float32", "float": "float64",
      "float64": "float64", "double": "float64", "<f8": "float64",
      "f8": "float64", "int": "int64", "int64": "int64", "bool_": "bool",
      "bool": "bool", "complex128": "complex128", "complex":
      "complex128", ">f4": "float32be"}


def astype(t, d):
    if t.op == "ma":
        return tm.ma(astype(t.args[0], d), t.args[1])
    if tm.is_masked(t):
        return tm.ma(astype(tm.mdata(t), d), tm.mmask(t))
    if t.op == "ite":
        return tm.ite(t.args[0], astype(t.args[1], d), astype(t.args[2], d))
    if t.op == "zeros":
        return t
    if t.op in ("mor", "isnan", "isfinite", "lt", "le", "eq", "mmask",
                "not") and d is const("bool"):
        return t
    if t.op == "astype" and t.args[1] is d:
        return t
    if d.op == "const" and d.args[0] in ("complex128",):
        return t
    return mk("astype", t, d)


tm.CONSTRUCTORS["astype"] = astype


@H("ma.asarray")
def _maasarray(I, args, kw, node):
    t = I.term(args[0])
    if tm.is_masked(t):
        return args[0]
    return I.new(tm.ma(t, tm.FALSE))


@H("ma.array")
def _maarray(I, args, kw, node):
    d = nargs(I, args, kw, ["data", "mask"])
    t = d["data"]
    m = d.get("mask")
    if m is None or m is tm.NONE:
        mm = tm.mmask(t)
    else:
        mm = as_mask(m)
        if tm.is_masked(t) and tm.truth(d.get("keep_mask", tm.TRUE)) \
                is not False:
            mm = tm.m_or(tm.mmask(t), mm)
    return I.new(tm.ma(tm.mdata(t), mm))


@H("ma.masked_invalid")
def _minv(I, args, kw, node):
    t = I.term(args[0])
    d = tm.mdata(t)
    return I.new(tm.ma(d, tm.m_or(tm.mmask(t),
                                  tm.lnot(isfinite(d)))))


def mcmp(op):
    def f(I, args, kw, node):
        t, v = I.term(args[0]), I.term(args[1])
        d = tm.mdata(t)
        return I.new(tm.ma(d, tm.m_or(tm.mmask(t), tm.cmp_(op, d, v))))
    return f


HANDLERS["ma.masked_less"] = mcmp("lt")
HANDLERS["ma.masked_less_equal"] = mcmp("le")
HANDLERS["ma.masked_greater"] = mcmp("gt")
HANDLERS["ma.masked_greater_equal"] = mcmp("ge")


@H("ma.masked_where")
def _mwhere(I, args, kw, node):
    c, t = I.term(args[0]), I.term(args[1])
    return I.new(tm.ma(tm.mdata(t), tm.m_or(
        tm.mmask(t), tm.mdata(c), tm.mmask(c))))


@H("ma.masked_outside")
def _moutside(I, args, kw, node):
    t, a, b = [I.term(x) for x in args[:3]]
    d = tm.mdata(t)
    return I.new(tm.ma(d, tm.m_or(tm.mmask(t), tm.cmp_("lt", d, a),
                                  tm.cmp_("gt", d, b))))


def filled(t, v):
    if t.op == "ite" and tm.is_masked(t):
        return tm.ite(t.args[0], filled(t.args[1], v), filled(t.args[2], v))
    return mk("filled", tm.mdata(t), tm.mmask(t), v)


tm.CONSTRUCTORS["filled"] = lambda d, m, v: mk("filled", d, m, v)


@H("ma.filled")
def _filled(I, args, kw, node):
    d = nargs(I, args, kw, ["a", "fill_value"])
    return I.new(filled(d["a"], d.get("fill_value", tm.NONE)))


def red(op):
    def f(I, args, kw, node):
        if op in ("any", "all", "sum") and args and not kw:
            t = I.term(args[0])
            if t.op == "listmap" and t.args[3] is tm.TRUE:
                from . import loops
                if op == "sum":
                    return I.new(loops.sumover(*t.args[:3]))
                if op == "any":
                    return I.new(loops.anyover(*t.args[:3]))
        v = I.resolve(args[0]) if args else None
        items = I.iterate(v) if v is not None else None
        rest = [I.term(a) for a in args[1:]] + [
            mk("kw", k, I.term(x)) for k, x in sorted(kw.items())
            if not (k == "axis" and I.term(x) is tm.NONE)]
        if op in ("any", "all") and items is not None and not rest and \
                not any(isinstance(small.dense(I.term(x)), list)
                        for x in items[:1]):
            cs = [I.cond(x) for x in items]
            return tm.lor(*cs) if op == "any" else tm.land(*cs)
        t = I.term(args[0]) if args else I.term(kw.get("a"))
        if not rest and (t.op in VECTORS or small.ON):
            es = arrays.elements(t)
            if small.ON and isinstance(small.dense(t), list):
                es = small.flat(small.dense(t))
            if es is not None:
                if op == "sum":
                    return I.new(arrays.total(es))
                if op == "mean" and es:
                    return I.new(tm.div(arrays.total(es), const(len(es))))
                if op == "any":
                    return tm.lor(*es)
                if op == "all":
                    return tm.land(*es)
                if op in ("argmax", "argmin"):
                    ns = [arrays.as_num(x) for x in es]
                    if ns and all(x.op == "num" for x in ns):
                        vs = [x.args[0] for x in ns]
                        m = (max if op == "argmax" else min)(vs)
                        return const(vs.index(m))
        if small.ON and op in ("any", "all", "sum", "max", "min",
                               "median") and not tm.is_masked(t):
            r = small.reduce(op, t, rest)
            if r is not None:
                return I.new(r)
        if op in ("max", "min") and items is not None:
            ts = [I.term(x) for x in items]
            if not rest and all(is_scalar(x) for x in ts) or \
                    t.op in ("list", "tuple"):
                return I.new(minmax(op, ts))
        if op in ("any", "all"):
            return I.new(mk(op, unshrink(t), *rest))
        if op in ("sum", "mean"):
            return I.new(linop(op, t, *rest))
        return I.new(mk(op, t, *rest))
    return f


def minmax(op, ts):
    ts = sorted(set(ts), key=lambda t: t.id)
    if len(ts) == 1:
        return ts[0]
    if all(t.op == "num" for t in ts):
        vs = [t.args[0] for t in ts]
        return mk("num", max(vs) if op == "max" else min(vs))
    return mk(op + "of", *ts)


for _n in ("any", "all", "mean", "max", "min", "median", "std", "argmax",
           "argmin", "prod"):
    HANDLERS[_n] = red(_n)


@H("numpy.cumsum")
def _cumsum(I, args, kw, node):
    es = arrays.elements(I.term(args[0])) if len(args) == 1 and not kw \
        else None
    if es is None:
        return NotImplemented
    return I.new(mk("list", *[arrays.total(es[:i + 1])
                              for i in range(len(es))]))


@H("numpy.count_nonzero")
def _countnz(I, args, kw, node):
    es = arrays.elements(I.term(args[0])) if len(args) == 1 and not kw \
        else None
    if es is None or not all(x.op in ("num", "const") for x in es):
        return NotImplemented
    return const(sum(1 for x in es if x not in (tm.ZERO, tm.FALSE)))


@H("numpy.flatnonzero")
def _flatnz(I, args, kw, node):
    es = arrays.elements(I.term(args[0])) if len(args) == 1 and not kw \
        else None
    if es is None or not all(x.op in ("num", "const") for x in es):
        return NotImplemented
    return I.new(mk("list", *[const(i) for i, x in enumerate(es)
                              if x not in (tm.ZERO, tm.FALSE)]))


@H("numpy.searchsorted")
def _searchsorted(I, args, kw, node):
    d = nargs(I, args, kw, ["a", "v", "side"])
    es = arrays.elements(d["a"])
    v = d["v"]
    if es is None or v.op != "num" or not all(x.op == "num" for x in es):
        return NotImplemented
    import bisect
    xs = [x.args[0] for x in es]
    f = (bisect.bisect_right if d.get("side") is const("right")
         else bisect.bisect_left)
    return const(f(xs, v.args[0]))


@H("sum")
def _sum(I, args, kw, node):
    v = I.resolve(args[0]) if args else None
    items = I.iterate(v) if v is not None else None
    if items is not None and ("axis" in kw or not isinstance(v, Ref)
                              or _seq(I, v)):
        ts = [I.term(x) for x in items]
        if len(args) > 1 and "axis" not in kw:
            ts.append(I.term(args[1]))
        if "start" in kw:
            ts.append(I.term(kw["start"]))
        if "axis" not in kw:
            while ts and all(t.op in ("tuple", "list") for t in ts):
                ts = [a for t in ts for a in t.args]
        if all(not strish(t) for t in ts):
            if small.ON:
                return I.new(arrays.total(ts))
            return I.new(tm.add(*map(arrays.as_num, ts)) if ts else tm.ZERO)
    return red("sum")(I, args, kw, node)


def indices_any(I, args, kw, node):
    d = [I.term(x) for x in I.iterate(args[0]) or ()]
    if not d:
        t = I.term(args[0])
        if t.op != "shape":
            return NotImplemented
        d = [item_term(t, const(0)), item_term(t, const(1))]
    if kw or len(args) > 1:
        return NotImplemented
    return I.new(grids([(tm.ZERO, n) for n in d]))


def meshgrid_any(I, args, kw, node):
    ts = [I.term(a) for a in args]
    ij = kw.get("indexing")
    if set(kw) - {"indexing"} or len(ts) != 2 or not all(
            t.op == "arange" and len(t.args) == 2 for t in ts):
        return NotImplemented
    a, b = [tuple(t.args) for t in ts]
    if ij is None or I.term(ij) is const("xy"):
        return I.new(mk("tuple", grid(1, *(b + a)), grid(0, *(b + a))))
    return I.new(grids([a, b]))


@H("numpy.clip")
def _clip(I, args, kw, node):
    ts = [I.term(a) for a in args]
    lo = ts[1] if len(ts) > 1 else I.term(kw.get("a_min", kw.get(
        "min", tm.NONE)))
    hi = ts[2] if len(ts) > 2 else I.term(kw.get("a_max", kw.get(
        "max", tm.NONE)))
    if set(kw) - {"a_min", "a_max", "min", "max"}:
        return NotImplemented
    t = ts[0]
    if lo is not tm.NONE:
        t = minmax("max", [t, lo])
    if hi is not tm.NONE:
        t = minmax("min", [t, hi])
    return I.new(t)


# Settings of the whole process: setter -> (setting, getter).
PROCESS = {
    "sep.set_extract_pixstack": ("sep pixel stack",
                                 "sep.get_extract_pixstack"),
    "sep.set_sub_object_limit": ("sep object limit",
                                 "sep.get_sub_object_limit"),
    "os.chdir": ("working directory", "os.getcwd"),
    "sys.setrecursionlimit": ("recursion limit", "sys.getrecursionlimit"),
    "scipy.fft.set_workers": ("fft workers", "scipy.fft.get_workers"),
    "numpy.seterr": ("numpy error handling", "numpy.geterr"),
    "warnings.showwarning": ("shown warnings", None),
}


def initial(k):
    return sym("process", k)


def process_cell():
    return Dct({const(k): initial(k) for k, _ in PROCESS.values()})


def _setting(k):
    def f(I, args, kw, node):
        if vars(I).get("process") is None:
            return NotImplemented
        vs = list(args) + list(kw.values())
        c = I.cell(I.process)
        d = dict(c.items)
        old = d[const(k)]
        if k.startswith("numpy"):
            ts = [I.term(v) for v in vs]
            back = any(initial(k) in set(tm.subterms(t)) for t in ts)
            d[const(k)] = initial(k) if back else mk("set", k, *ts)
            I.st.heap[I.process.loc] = Dct(d, c.base)
            return old
        d[const(k)] = vs[0] if vs else tm.NONE
        I.st.heap[I.process.loc] = Dct(d, c.base)
        return NotImplemented
    return f


def _getting(k):
    def f(I, args, kw, node):
        if vars(I).get("process") is None:
            return NotImplemented
        return I.cell(I.process).items[const(k)]
    return f


for _s, (_k, _g) in PROCESS.items():
    HANDLERS[_s] = _setting(_k)
    if _g:
        HANDLERS[_g] = _getting(_k)


@H("functools.wraps")
def _wraps(I, args, kw, node):
    if not args:
        return NotImplemented
    return Partial(Ext("functools.wraps"), [I.resolve(args[0])], {}, "wraps")


@H("numpy.where")
def _where3(I, args, kw, node):
    """numpy.where(c, a, b): b with the elements c picks replaced by a."""
    if len(args) != 3 or kw:
        return NotImplemented
    c, a, b = [I.term(x) for x in args]
    if any(t.op == "ma" for t in (c, a, b)):
        return NotImplemented
    if small.ON:
        try:
            return I.new(small.undense(small.mapped(mk("ite", c, a, b))))
        except small.Reject:
            return NotImplemented
    if fixed_value(a) and not fixed_value(b):
        return I.new(setitem_term(b, c, a))
    if fixed_value(b) and not fixed_value(a):
        return I.new(setitem_term(a, tm.lnot(c), b))
    return NotImplemented


def fixed_value(t):
    return t.op == "num" or (t.op == "attr" and t.args[1] in (
        "eps", "nan", "inf", "tiny")) or t.op == "const"


@H("numpy.maximum")
def _npmax(I, args, kw, node):
    return I.new(minmax("max", [I.term(a) for a in args[:2]]))


@H("numpy.minimum")
def _npmin(I, args, kw, node):
    return I.new(minmax("min", [I.term(a) for a in args[:2]]))


def builtin_minmax(op):
    def f(I, args, kw, node):
        if len(args) > 1 and "key" not in kw:
            return I.new(minmax(op, [I.term(a) for a in args]))
        if "key" in kw:
            return NotImplemented
        items = I.iterate(args[0]) if len(args) == 1 else None
        if items is not None and not set(kw) - {"default"}:
            if items:
                return I.new(minmax(op, [I.term(a) for a in items]))
            if "default" in kw:
                return kw["default"]
            I.raise_(None, node, "ValueError")
        return red(op)(I, args, kw, node)
    return f


HANDLERS["pymax"] = builtin_minmax("max")
HANDLERS["pymin"] = builtin_minmax("min")
CANON["max"], CANON["min"] = "pymax", "pymin"


def coords(ts, sparse):
    """Coordinate arrays of the product of known 1-D arrays."""
    from . import small
    xs = [small.dense(t) for t in ts]
    if not small.ON or not xs or any(
            not isinstance(x, list) or len(small.shape(x)) != 1
            for x in xs):
        return None
    out = []
    for k, x in enumerate(xs):
        def rec(d, v=None):
            if d == len(xs):
                return v
            n = [None] if sparse and d != k else range(len(xs[d]))
            return [rec(d + 1, x[i] if d == k else v) for i in n]
        out.append(small.undense(rec(0)))
    return out


@H("numpy.percentile")
def _percentile(I, args, kw, node, top=100):
    from . import small
    if not small.ON:
        return NotImplemented
    d = dict(zip(("a", "q"), [I.term(a) for a in args[:2]]))
    d.update({k: I.term(v) for k, v in kw.items()})
    if len(args) > 2 or set(d) != {"a", "q"}:
        return NotImplemented
    v = small.dense(d["a"])
    if not isinstance(v, list):
        return NotImplemented
    v = small.flat(v)
    q = small.dense(d["q"]) if d["q"].op != "num" else [d["q"]]
    if not v or not isinstance(q, list) or any(
            x.op != "num" for x in v + small.flat(q)):
        return NotImplemented
    v = sorted(x.args[0] for x in v)
    out = []
    for x in q:
        p = x.args[0] / top * (len(v) - 1)
        if not 0 <= p <= len(v) - 1:
            I.raise_(None, node, "ValueError")
        i = int(p)
        out.append(const(v[i] if i + 1 == len(v) else
                         v[i] + (p - i) * (v[i + 1] - v[i])))
    return out[0] if d["q"].op == "num" else I.new(mk("list", *out))


@H("numpy.quantile")
def _quantile(I, args, kw, node):
    return _percentile(I, args, kw, node, 1)


@H("numpy.ix_")
def _ix(I, args, kw, node):
    g = coords([I.term(a) for a in args], True)
    return NotImplemented if g is None else VTuple([I.new(t) for t in g])


@H("numpy.meshgrid")
def _meshgrid(I, args, kw, node):
    ix = I.term(kw.pop("indexing", const("xy")))
    sp = truth(I.term(kw.pop("sparse", tm.FALSE)))
    if kw or sp is None or ix not in (const("xy"), const("ij")):
        return NotImplemented
    ts = [I.term(a) for a in args]
    sw = ix is const("xy") and len(ts) > 1
    if sw:
        ts[:2] = ts[1::-1]
    g = coords(ts, sp)
    if g is None:
        return meshgrid_any(I, args, {"indexing": I.new(ix)}, node) \
            if sp is False else NotImplemented
    if sw:
        g[:2] = g[1::-1]
    return I.lst([I.new(t) for t in g])


@H("numpy.indices")
def _indices(I, args, kw, node):
    s = I.iterate(I.resolve(args[0])) if args else None
    if s is None or kw:
        return indices_any(I, args, kw, node) if args else NotImplemented
    g = coords([mk("range", I.term(x)) for x in s], False)
    return indices_any(I, args, kw, node) if g is None else \
        I.new(mk("list", *g))


@H("numpy.broadcast_arrays")
def _broadcast_arrays(I, args, kw, node):
    from . import small
    ts = [I.term(a) for a in args]
    if not small.ON or kw or not ts:
        return NotImplemented
    out = []
    for t in ts:
        # t, spread over all of them
        x = t
        for u in ts:
            x = mk("firstof", x, u) if u is not t else x
        x = small.dense(x)
        if x is None:
            return NotImplemented
        out.append(I.new(small.undense(x)))
    return I.lst(out)


tm.CONSTRUCTORS["firstof"] = lambda a, b: a


@H("size")
def _size(I, args, kw, node):
    t = I.term(args[0])
    if small.ON:
        if small.leaf(t):
            return tm.ONE
        d = small.dense(t)
        if isinstance(d, list):
            return const(len(small.flat(d)))
    return mk("size", strip_shape(t))


@H("ravel")
def _ravel(I, args, kw, node):
    o = kw.get("order", args[1] if len(args) > 1 else None)
    o = const("C") if o is None else I.term(o)
    if set(kw) - {"order"} or len(args) > 2 or o not in (
            const("C"), const("F")):
        return NotImplemented
    t = I.term(args[0])
    return I.new(mk("ravel", t if o is const("C") else arrays.transpose(t)))


@H("shape")
def _shape(I, args, kw, node):
    return I.new(shape(I.term(args[0])))


@H("roll")
def _roll(I, args, kw, node):
    d = nargs(I, args, kw, ["a", "shift", "axis"])
    rest = [d["shift"]] + ([d["axis"]] if "axis" in d else [])
    return I.new(linop("roll", d["a"], *rest))


@H("flip")
def _flip(I, args, kw, node):
    d = nargs(I, args, kw, ["m", "axis"])
    if d.get("axis") is tm.ZERO:
        return I.new(flip0(d["m"]))
    m, ax = d["m"], d.get("axis")
    n = arrays.dims(m)
    es = arrays.elements(m)
    if ax is None and (es is not None or n and len(n) == 1):
        return I.new(flip0(m))
    rev = mk("slice", tm.NONE, tm.NONE, tm.NEG1)
    if n and len(n) == 2 and (ax is None or ax is tm.ONE):
        full = full_slice() if ax is tm.ONE else rev
        return I.new(item_term(m, mk("tuple", full, rev)))
    return NotImplemented


@H("numpy.fliplr")
def _fliplr(I, args, kw, node):
    m = I.term(args[0])
    return I.new(item_term(m, mk("tuple", full_slice(), mk(
        "slice", tm.NONE, tm.NONE, tm.NEG1))))


@H("round", "floor", "ceil")
def _round(I, args, kw, node):
    return NotImplemented


def rnd(op):
    def f(I, args, kw, node):
        t = I.term(args[0])
        if t.op == "num" and len(args) == 1:
            import math
            v = t.args[0]
            return const({"round": round, "floor": math.floor,
                          "ceil": math.ceil}[op](v))
        v = tm.approx(t) if len(args) == 1 else None
        if v is not None and abs(v - round(v)) > 1e-9 and abs(
                v - int(v) - .5) > 1e-9:
            import math
            return const({"round": round, "floor": math.floor,
                          "ceil": math.ceil}[op](v))
        return I.new(mk(op, *[I.term(a) for a in args]))
    return f


for _n in ("round", "floor", "ceil"):
    HANDLERS[_n] = rnd(_n)


@H("int")
def _int(I, args, kw, node):
    if not args:
        return const(0)
    t = I.term(args[0])
    if t.op == "num":
        return const(int(t.args[0]))
    v = tm.approx(t)
    if v is not None and abs(v - round(v)) > 1e-9:
        return const(int(v))
    if t.op in ("len", "int", "round", "floor", "ceil", "size"):
        return t
    return mk("int", t)


@H("float")
def _float(I, args, kw, node):
    t = I.term(args[0]) if args else const(0)
    if t.op == "const" and isinstance(t.args[0], str):
        if t.args[0].lower() in ("inf", "nan"):
            return tm.INF if t.args[0].lower() == "inf" else tm.NAN
    return t if isinstance(t, T) and t.op != "const" else mk("float", t)


@H("float32")
def _float32(I, args, kw, node):
    return I.new(astype(I.term(args[0]), const("float32")))


@H("bool")
def _bool(I, args, kw, node):
    return I.cond(args[0]) if args else tm.FALSE


@H("complex")
def _complex(I, args, kw, node):
    return I.new(tm.add(I.term(args[0]), tm.mul(tm.I, I.term(args[1])))
                 if len(args) > 1 else I.term(args[0]))


@H("str", "format")
def _str(I, args, kw, node):
    return to_str(I.term(args[0])) if args else const("")


@H("repr")
def _repr(I, args, kw, node):
    return mk("repr", I.term(args[0]))


@H("path")
def _path(I, args, kw, node):
    return pathjoin(*[I.term(a) for a in args])


@H("pathjoin")
def _pathjoin(I, args, kw, node):
    return pathjoin(*[I.term(a) for a in args])


@H("len")
def _len(I, args, kw, node):
    return len_(I, args[0])


@H("range")
def _range(I, args, kw, node):
    ts = [I.term(a) for a in args]
    if len(ts) == 1:
        ts = [tm.ZERO, ts[0], tm.ONE]
    elif len(ts) == 2:
        ts = ts + [tm.ONE]
    return mk("range", *ts)


@H("numpy.arange")
def _arange(I, args, kw, node):
    if kw or len(args) > 2:
        return NotImplemented
    ts = [I.term(a) for a in args]
    if len(ts) == 1:
        ts = [tm.ZERO] + ts
    return I.new(mk("arange", *ts))


@H("enumerate")
def _enum(I, args, kw, node):
    items = I.iterate(args[0])
    start = I.term(kw.get("start", args[1] if len(args) > 1 else tm.ZERO))
    if items is not None:
        return I.lst([VTuple([tm.add(start, const(i)), x])
                      for i, x in enumerate(items)])
    return mk("enumerate", I.term(args[0]), start)


@H("zip")
def _zip(I, args, kw, node):
    its = [I.iterate(a) for a in args]
    if all(x is not None for x in its):
        return I.lst([VTuple(x) for x in zip(*its)])
    known = [x for x in its if x is not None]
    return mk("zip", *[I.term(a) for a in args])


@H("reversed")
def _reversed(I, args, kw, node):
    items = I.iterate(args[0])
    if items is not None:
        return I.lst(items[::-1])
    return I.new(flip0(I.term(args[0])))


@H("list", "tuple")
def _list(I, args, kw, node):
    return NotImplemented


def mklist(kind):
    def f(I, args, kw, node):
        if not args:
            return I.lst([]) if kind == "list" else VTuple([])
        v = I.resolve(args[0])
        if isinstance(v, Choice):
            return I.lift(v, lambda x: f(I, [x], kw, node))
        s = _seq(I, v)
        items = s[0] if s is not None else I.iterate(v)
        if items is None:
            items = [Seg(I.term(v))]
        return I.lst(items) if kind == "list" else VTuple(items)
    return f


HANDLERS["list"] = mklist("list")
HANDLERS["tuple"] = mklist("tuple")


@H("dict")
def _dict(I, args, kw, node):
    d, base = {}, kw.get("**")
    if base is not None:
        base = I.term(base)
    if args:
        v = I.resolve(args[0])
        if isinstance(v, Choice):
            return I.lift(v, lambda x: _dict(I, [x], kw, node))
        if isinstance(v, Ref) and isinstance(I.cell(v), Dct):
            d.update(I.cell(v).items)
            base = I.cell(v).base
        else:
            items = I.iterate(v)
            if items is not None:
                for x in items:
                    k, val = (x.items if isinstance(x, VTuple)
                              else (mk("unk", "k"), mk("unk", "v")))
                    d[I.term(k)] = val
            else:
                base = I.term(v)
    for k, v in kw.items():
        if k != "**":
            d[const(k)] = v
    return I.alloc(Dct(d, base))


@H("set", "frozenset")
def _set(I, args, kw, node):
    if not args:
        return I.lst([])
    items = I.iterate(args[0])
    if items is not None and all(isinstance(x, T) for x in items):
        return I.lst(list(dict.fromkeys(items)))
    return I.new(mk("set", I.term(args[0])))


class NoOrder(Exception):
    """The language defines no order on these values: TypeError."""


class Unordered(Exception):
    """The order of these values is not known here."""


class _Keyed(object):
    def __init__(self, I, v):
        self.I, self.v = I, v

    def __lt__(self, o):
        return order_of(self.I, self.v, o.v) < 0


def order_of(I, a, b):
    """-1, 0, 1 as a < b, a == b, a > b in the language."""
    if same(a, b) and not isinstance(a, Choice):
        return 0
    ca = I.cell(a) if isinstance(a, Ref) else None
    cb = I.cell(b) if isinstance(b, Ref) else None
    if isinstance(ca, Lst) and isinstance(cb, Lst):
        xs, ys = ca.items, cb.items
        if any(isinstance(z, Seg) for z in xs + ys):
            raise Unordered()
    elif isinstance(a, VTuple) and isinstance(b, VTuple):
        xs, ys = a.items, b.items
    elif isinstance(ca, Inst) and isinstance(cb, Inst):
        for c in (ca, cb):
            if any(c.cls.find(n) is not None for n in (
                    "__lt__", "__gt__", "__eq__")) or set(
                    c.cls.ext_bases()) - {"object", "builtins.object"}:
                raise Unordered()
        raise NoOrder()
    elif isinstance(a, T) and isinstance(b, T) and tm.is_const(a) and \
            tm.is_const(b):
        x, y = tm.pyval(a), tm.pyval(b)
        try:
            return -1 if x < y else 0 if x == y else 1
        except TypeError:
            raise NoOrder()
    else:
        raise Unordered()
    for x, y in zip(xs, ys):
        c = order_of(I, x, y)
        if c:
            return c
    return (len(xs) > len(ys)) - (len(xs) < len(ys))


def sort_values(I, items, rev):
    return [k.v for k in sorted([_Keyed(I, x) for x in items], reverse=rev)]


@H("sorted")
def _sorted(I, args, kw, node):
    items = I.iterate(args[0])
    rev = tm.truth(I.term(kw.get("reverse", tm.FALSE)))
    if items is not None and not kw.get("key"):
        if all(isinstance(x, T) and tm.is_const(x) for x in items):
            try:
                return I.lst(sorted(items, key=tm.pyval, reverse=bool(rev)))
            except TypeError:
                pass
    if items is not None and not kw.get("key") and rev is not None:
        try:
            return I.lst(sort_values(I, items, bool(rev)))
        except NoOrder:
            I.raise_(None, node, "TypeError")
        except Unordered:
            pass
    t = mk("sorted", I.term(args[0]), *[mk("kw", k, I.term(v))
                                        for k, v in sorted(kw.items())])
    I.risk(t, node)
    if items is not None:
        I.event("call", "sorted", args, kw, t, node)
    return I.new(t)


@H("map")
def _map(I, args, kw, node):
    its = [I.iterate(a) for a in args[1:]]
    if all(x is not None for x in its):
        return I.lst([I.call(args[0], list(x), {}, node)
                      for x in zip(*its)])
    from . import loops
    return loops.symbolic_map(I, args[0], args[1:], node)


@H("filter")
def _filter(I, args, kw, node):
    items = I.iterate(args[1])
    if items is None:
        return NotImplemented
    out = []
    for x in items:
        c = I.known(I.cond(I.call(args[0], [x], {}, node)
                           if args[0] is not tm.NONE else x))
        if c is None:
            return NotImplemented
        if c:
            out.append(x)
    return I.lst(out)


@H("reduce")
def _reduce(I, args, kw, node):
    items = I.iterate(args[1])
    if items is None:
        return NotImplemented
    if len(args) > 2:
        items = [args[2]] + items
    if not items:
        return NotImplemented
    acc = items[0]
    for x in items[1:]:
        acc = I.call(args[0], [acc, x], {}, node)
    return acc


@H("partial")
def _partial(I, args, kw, node):
    return Partial(args[0], args[1:], kw)


@H("joblib.delayed")
def _delayed(I, args, kw, node):
    return Partial(Ext("pisa.task"), [args[0]], {})


@H("pisa.task")
def _task(I, args, kw, node):
    return Partial(args[0], args[1:], kw, "task")


@H("chain")
def _chain(I, args, kw, node):
    its = [I.iterate(a) for a in args]
    if all(x is not None for x in its):
        return I.lst([y for x in its for y in x])
    return NotImplemented


@H("chain1")
def _chain1(I, args, kw, node):
    its = I.iterate(args[0])
    if its is None:
        return NotImplemented
    return _chain(I, its, kw, node)


@H("attrgetter")
def _attrgetter(I, args, kw, node):
    n = I.term(args[0])
    if n.op == "const" and "." not in n.args[0]:
        return Partial(Ext("pisa.getattr"), [n], {})
    return NotImplemented


@H("pisa.getattr")
def _pgetattr(I, args, kw, node):
    return I.getattr(args[1], args[0].args[0], node)


@H("itemgetter")
def _itemgetter(I, args, kw, node):
    return Partial(Ext("pisa.getitem"), [args[0]], {})


@H("pisa.getitem")
def _pgetitem(I, args, kw, node):
    return I.getitem(args[1], args[0], node)


@H("isinstance")
def _isinstance(I, args, kw, node):
    return isinstance_cond(I, args[0], args[1])


def type_names(I, v):
    v = I.resolve(v)
    if isinstance(v, VTuple):
        return [x for y in v.items for x in type_names(I, y)]
    if isinstance(v, Ext):
        return [CANON_TYPES.get(v.name, v.name)]
    if isinstance(v, Cls):
        return [v]
    return [I.term(v)]


CANON_TYPES = {
    "astropy.io.fits.HDUList": "fits.HDUList",
    "astropy.io.fits.PrimaryHDU": "fits.PrimaryHDU",
    "numpy.ma.MaskedArray": "MaskedArray",
    "numpy.ma.core.MaskedArray": "MaskedArray",
    "numpy.ma.masked_array": "MaskedArray",
    "numpy.ma.core.masked_array": "MaskedArray",
    "numpy.ndarray": "ndarray",
}

SUBTYPES = {"MaskedArray": {"ndarray", "object"},
            "bool": {"int", "object"}}


def isinstance_cond(I, v, cls):
    v = I.resolve(v)
    if isinstance(v, Choice):
        return tm.ite(v.cond, isinstance_cond(I, v.a, cls),
                      isinstance_cond(I, v.b, cls))
    names = type_names(I, cls)
    if isinstance(v, Ref) and isinstance(I.cell(v), Inst):
        mro = I.cell(v).cls.mro()
        ext = set(I.cell(v).cls.ext_bases()) | {"object"}
        for n in names:
            if n in mro or n in ext:
                return tm.TRUE
        if I.cell(v).sym is not None and (
                I.config.get("open_classes")):
            return mk("isinstance", I.term(v), mk("types", *sorted(
                str(getattr_name(n)) for n in names)))
        return tm.FALSE
    kind = None
    if isinstance(v, VTuple):
        kind = {"tuple"}
    elif isinstance(v, Ref) and isinstance(I.cell(v), Lst):
        kind = {"list"}
    elif isinstance(v, Ref) and isinstance(I.cell(v), Dct):
        kind = {"dict"}
    t = I.term(v)
    if t.op == "const":
        x = t.args[0]
        kind = {type(x).__name__ if x is not None else "NoneType"}
        if kind == {"bool"}:
            kind = {"bool", "int"}
    elif t.op == "num":
        kind = {"int"} if t.args[0].denominator == 1 else {"float"}
        if kind == {"int"}:
            kind = None if {"float", "int"} & set(
                n for n in names if isinstance(n, str)) else kind
    elif t in I.kinds:
        kind = set(I.kinds[t])
    elif strish(t) or t.op in ("str",):
        kind = {"str"}
    elif tm.is_masked(t):
        kind = {"MaskedArray"}
    if kind is not None:
        full = set(kind)
        for k in kind:
            full |= SUBTYPES.get(k, set())
        full.add("object")
        for n in names:
            if n in full:
                return tm.TRUE
        return tm.FALSE
    return mk("isinstance", t, mk("types", *sorted(
        str(getattr_name(n)) for n in names)))


def getattr_name(n):
    return n.name if isinstance(n, Cls) else n


@H("hasattr")
def _hasattr(I, args, kw, node):
    n = I.term(args[1])
    if n.op == "const":
        return I.hasattr(args[0], n.args[0])
    return mk("hasattr", I.term(args[0]), n)


@H("getattr")
def _getattr(I, args, kw, node):
    n = I.term(args[1])
    if n.op == "const":
        if len(args) > 2:
            v = I.resolve(args[0])
            p = I.hasattr(v, n.args[0])
            return I.branch(p, lambda: I.getattr(v, n.args[0], node),
                            lambda: args[2])
        return I.getattr(args[0], n.args[0], node)
    I.event("call", "getattr", args, kw, None, node)
    return I.new(mk("dynattr", I.term(args[0]), n))


@H("setattr")
def _setattr(I, args, kw, node):
    n = I.term(args[1])
    if n.op == "const":
        I.setattr(args[0], n.args[0], args[2], node)
    else:
        I.event("setattr", "<dynamic>", args, kw, None, node)
    return tm.NONE


@H("delattr")
def _delattr(I, args, kw, node):
    n = I.term(args[1])
    if n.op == "const":
        I.delattr(args[0], n.args[0], node)
    return tm.NONE


@H("callable")
def _callable(I, args, kw, node):
    v = I.resolve(args[0])
    if isinstance(v, (Fn, Bound, Cls, Ext, Partial, ExtMeth)):
        return tm.TRUE
    if isinstance(v, Ref) and isinstance(I.cell(v), Inst):
        return const(I.cell(v).cls.find("__call__") is not None)
    if isinstance(v, Ref) and isinstance(I.cell(v), (Lst, Dct)) or \
            isinstance(v, VTuple) or I.term(v).op in ("const", "num"):
        return tm.FALSE
    return mk("callable", I.term(v))


@H("type")
def _type(I, args, kw, node):
    c = I.inst_cls(args[0])
    if c is not None and len(args) == 1:
        return c
    return mk("typeof", I.term(args[0]))


@H("id")
def _id(I, args, kw, node):
    return mk("id", I.term(args[0]))


@H("vars")
def _vars(I, args, kw, node):
    if args and I.inst_cls(args[0]) is not None:
        return InstDict(I.resolve(args[0]))
    return NotImplemented


@H("slice")
def _slice(I, args, kw, node):
    ts = [I.term(a) for a in args]
    if len(ts) == 1:
        ts = [tm.NONE, ts[0], tm.NONE]
    while len(ts) < 3:
        ts.append(tm.NONE)
    return mk("slice", *ts)


@H("iter")
def _iter(I, args, kw, node):
    return args[0]


@H("pow")
def _pow(I, args, kw, node):
    return I.new(tm.pow_(I.term(args[0]), I.term(args[1])))


@H("divmod")
def _divmod(I, args, kw, node):
    a, b = I.term(args[0]), I.term(args[1])
    return VTuple([binop_term("FloorDiv", a, b), binop_term("Mod", a, b)])


@H("iscomplexobj")
def _iscx(I, args, kw, node):
    t = I.term(args[0])
    for h in tm.FACT_HOOK:
        r = h("iscomplex", t)
        if r is not None:
            return const(r)
    return mk("iscomplexobj", t)


def stacked(how):
    """Rows (or columns) put together from one-dimensional arrays."""
    def f(I, args, kw, node):
        if small.ON or len(args) != 1 or set(kw) - {"axis"}:
            return NotImplemented
        xs = I.iterate(I.resolve(args[0]))
        if not xs:
            return NotImplemented
        ts = [I.term(x) for x in xs]
        if any(len(arrays.dims(t) or ()) != 1 for t in ts):
            return NotImplemented
        t = mk("array", mk("list", *ts))
        ax = I.term(kw["axis"]) if "axis" in kw else tm.ZERO
        if how == "column_stack" or how == "stack" and ax in (
                tm.ONE, tm.NEG1):
            return I.new(arrays.transpose(t))
        return I.new(t) if ax is tm.ZERO else NotImplemented
    return f


for _n in ("column_stack", "stack", "vstack", "row_stack"):
    H("numpy." + _n)(stacked(_n))


# ----------------------------------------------------------------- methods

INPLACE_METHODS = {"sort", "fill", "put", "resize", "partition", "itemset",
                   "setflags", "byteswap"}

# methods equivalent to a canonical function of the object
METHOD_FN = {
    "conj": "conj", "conjugate": "conj", "sum": "sum", "mean": "mean",
    "max": "max", "min": "min", "any": "any", "all": "all", "std": "std",
    "argmax": "argmax", "prod": "prod", "argmin": "argmin",
    "cumsum": "numpy.cumsum", "dot": "matmul",
}


# Methods whose result may be a view of the object.
VIEW_METHODS = {"ravel", "reshape", "transpose", "squeeze", "swapaxes",
                "view", "diagonal"}


def method(I, obj, name, args, kw, node):
    r = method_(I, obj, name, args, kw, node)
    if name in VIEW_METHODS or name == "astype" and "copy" in kw and tm.truth(
            I.term(kw["copy"])) is not True:
        if isinstance(r, Value):
            I.share(r, obj)
    elif name in ("subfrom", "shuffle") and args:
        I.wrote(args[0])
    elif name in INPLACE_METHODS and isinstance(I.resolve(obj),
                                                (Ref, View)):
        I.wrote(obj)
    return r


def method_(I, obj, name, args, kw, node):
    obj = I.resolve(obj)
    if isinstance(obj, Choice):
        return I.lift(obj, lambda o: method(I, o, name, args, kw, node))
    if isinstance(obj, InstDict):
        return instdict(I, obj, name, args, kw, node)
    if isinstance(obj, Ref):
        c = I.cell(obj)
        if isinstance(c, Lst):
            r = list_method(I, obj, c, name, args, kw, node)
            if r is not NotImplemented:
                return r
        elif isinstance(c, Dct):
            r = dict_method(I, obj, c, name, args, kw, node)
            if r is not NotImplemented:
                return r
    t = I.term(obj)
    cut = I.cuts.get("method:%s.%s" % (t.op, name))
    if cut is not None:
        r = cut(I, args, kw, node, t)
        if r is not NotImplemented:
            return r
    if strish(t):
        r = str_method(I, t, name, args, kw, node)
        if r is not NotImplemented:
            return r
    if t.op == "ext":
        # attribute of a library object kept as a term
        return call(I, t.args[0] + "." + name, args, kw, node)
    if small.ON:
        r = small_method(I, obj, t, name, args, kw, node)
        if r is not NotImplemented:
            return r
    if name in METHOD_FN:
        f = HANDLERS[METHOD_FN[name]]
        r = f(I, [obj] + list(args), kw, node)
        if r is not NotImplemented:
            return r
    if name == "astype":
        d = dtype(I, args[0] if args else kw.get("dtype"))
        return I.new(astype(t, d))
    if name == "copy":
        if isinstance(obj, Ref):
            return I.alloc(I.cell(obj))
        return I.new(t) if not is_scalar(t) else t
    if name == "filled":
        v = I.term(args[0]) if args else I.term(
            kw.get("fill_value", tm.NONE))
        return I.new(filled(t, v))
    if name in ("flatten", "ravel"):
        return _ravel(I, [I.new(t)] + list(args), kw, node)
    if name == "transpose" and not args:
        return I.new(transpose(t))
    if name == "reshape":
        a = args[0] if len(args) == 1 else VTuple(args)
        return I.new(arrays.reshape(t, I.term(a)))
    if name in ("soften_mask", "harden_mask", "unshare_mask"):
        I.event("call", "." + name, [obj] + list(args), kw, t, node)
        return obj
    if name == "get" and args and t.op != "call":
        k = I.term(args[0])
        dflt = I.term(args[1]) if len(args) > 1 else tm.NONE
        return I.new(mk("get", t, k, dflt))
    if name == "keys" and not args:
        return I.new(mk("keys", t))
    if name == "tolist":
        return I.new(t)
    if name == "item" and not args:
        return t
    targs = [I.term(a) for a in args]
    tkw = [mk("kw", k, I.term(v)) for k, v in sorted(kw.items())
           if k != "out"]
    r = mk("call", "." + name, t, *(targs + tkw))
    I.risk(r, node)
    I.event("call", "." + name, [obj] + list(args), kw, r, node)
    if name in INPLACE_METHODS:
        I.mutate(obj, r, node, "." + name)
        return tm.NONE
    if "out" in kw and kw["out"] is not tm.NONE:
        I.mutate(kw["out"], r, node, "out=")
        return kw["out"]
    if name in ("item",) or name.startswith("is"):
        return r
    return I.new(r)


def instdict(I, d, name, args, kw, node):
    k = I.term(args[0]) if args else None
    if name == "pop" and k is not None and k.op == "const":
        p = I.hasattr_field(d.ref, k.args[0])
        v = None
        c = I.cell(d.ref)
        cur = c.fields.get(k.args[0])
        if p is not tm.FALSE:
            f = dict(c.fields)
            f[k.args[0]] = ABSENT
            I.st.heap[d.ref.loc] = Inst(c.cls, f, c.sym)
            I.event("delfield", k.args[0], [d.ref], node=node,
                    extra=c.cls.name)
        elif len(args) < 2:
            I.raise_(None, node, "KeyError")
        return cur if cur not in (None, ABSENT) else (
            args[1] if len(args) > 1 else tm.NONE)
    if name == "get" and k is not None and k.op == "const":
        return _getattr(I, [d.ref, k, args[1] if len(args) > 1
                            else tm.NONE], {}, node)
    if name == "clear":
        c = I.cell(d.ref)
        I.st.heap[d.ref.loc] = Inst(c.cls, {}, c.sym)
        return tm.NONE
    if name == "update":
        for kk, v in kw.items():
            I.set_field(d.ref, kk, v)
        return tm.NONE
    if name in ("keys", "values", "items") or name == "copy":
        c = I.cell(d.ref)
        ks = [x for x in c.fields if c.fields[x] is not ABSENT]
        if name == "values":
            return I.lst([c.fields[x] for x in ks])
        if name == "items":
            return I.lst([VTuple([const(x), c.fields[x]]) for x in ks])
        return I.lst([const(x) for x in ks])
    return I.unk("__dict__." + name)


def small_method(I, obj, t, name, args, kw, node):
    d = small.dense(t)
    if d is None:
        return NotImplemented
    if name == "sort":
        o = I.term(kw["order"]) if "order" in kw else tm.NONE
        if args or set(kw) - {"order", "kind"}:
            return NotImplemented
        try:
            if isinstance(d, small.Tab):
                d = d.take(small.order(d.col(small.strval(o))))
            else:
                d = [d[i] for i in small.order(d)]
        except small.Reject:
            return NotImplemented
        except small.Bad as e:
            I.raise_(None, node, str(e))
        I.mutate(obj, small.undense(d), node, "sort")
        return tm.NONE
    if name == "argsort":
        try:
            return I.new(mk("list", *[const(i) for i in small.order(d)]))
        except small.Reject:
            return NotImplemented
    if name in ("toarray", "todense", "tocsc", "tocsr"):
        return I.new(t)
    if name == "tolist" and not isinstance(d, small.Tab):
        return I.lst([I.new(small.undense(x)) for x in d])
    return NotImplemented


def list_method(I, ref, c, name, args, kw, node):
    xs = list(c.items)
    concrete = not any(isinstance(x, Seg) for x in xs)
    if name == "append":
        I.event("inplace", "append", [ref, args[0]], node=node)
        I.st.heap[ref.loc] = Lst(xs + [args[0]])
        return tm.NONE
    if name == "extend":
        I.list_extend(ref, args[0], node)
        return tm.NONE
    if name == "insert":
        i = I.term(args[0])
        I.event("inplace", "insert", [ref, args[1]], node=node)
        if i is tm.ZERO:
            I.st.heap[ref.loc] = Lst([args[1]] + xs)
            return tm.NONE
        if i.op == "num" and concrete:
            xs.insert(int(i.args[0]), args[1])
            I.st.heap[ref.loc] = Lst(xs)
            return tm.NONE
    if name == "reverse":
        I.event("inplace", "reverse", [ref], node=node)
        if concrete:
            I.st.heap[ref.loc] = Lst(xs[::-1])
        else:
            I.st.heap[ref.loc] = Lst([Seg(flip0(I.term(ref)))])
        return tm.NONE
    if name == "pop" and concrete and xs:
        i = int(I.term(args[0]).args[0]) if args and I.term(
            args[0]).op == "num" else -1
        I.event("inplace", "pop", [ref], node=node)
        v = xs.pop(i)
        I.st.heap[ref.loc] = Lst(xs)
        return v
    if name == "clear":
        I.st.heap[ref.loc] = Lst([])
        return tm.NONE
    if name == "copy":
        return I.lst(xs)
    if name in ("add",):
        I.st.heap[ref.loc] = Lst(xs + [args[0]])
        return tm.NONE
    if name in ("sort", "remove"):
        I.event("inplace", name, [ref] + list(args), kw, node=node)
        I.st.heap[ref.loc] = Lst([Seg(mk("list" + name, I.term(ref)))])
        return tm.NONE
    return NotImplemented


def dict_method(I, ref, c, name, args, kw, node):
    k = I.term(args[0]) if args else None
    if name == "setdefault":
        v = args[1] if len(args) > 1 else tm.NONE
        if k in c.items and not I.has_absent(c.items[k]):
            return c.items[k]
        I.event("inplace", "setdefault", [ref] + list(args), node=node)
        d = dict(c.items)
        if c.base is not None:
            v = I.new(mk("get", c.base, k, I.term(v)))
        d[k] = v
        I.st.heap[ref.loc] = Dct(d, c.base)
        return v
    if name == "get":
        dflt = args[1] if len(args) > 1 else tm.NONE
        if k in c.items:
            x = c.items[k]
            if not I.has_absent(x):
                return x
            return NotImplemented
        if c.base is None and tm.is_const(k) and all(
                tm.is_const(x) for x in c.items):
            return dflt
        return I.new(mk("get", I.term(ref), k, I.term(dflt)))
    if name == "update":
        I.event("inplace", "update", [ref] + list(args), node=node)
        d = dict(c.items)
        base = c.base
        if args:
            v = I.resolve(args[0])
            if isinstance(v, Ref) and isinstance(I.cell(v), Dct):
                o = I.cell(v)
                if o.base is not None:
                    base = mk("dictmerge", I.term(ref), o.base)
                    d = {}
                d.update(o.items)
            else:
                base = mk("dictmerge", I.term(ref), I.term(v))
                d = {}
        for kk, v in kw.items():
            d[const(kk)] = v
        I.st.heap[ref.loc] = Dct(d, base)
        return tm.NONE
    if name == "pop":
        I.event("inplace", "pop", [ref] + list(args), node=node)
        if k in c.items:
            d = dict(c.items)
            v = d.pop(k)
            I.st.heap[ref.loc] = Dct(d, c.base)
            return v
        if c.base is None and len(args) > 1:
            return args[1]
        return NotImplemented
    if name == "copy":
        return I.alloc(Dct(c.items, c.base))
    if c.base is None:
        if name == "keys":
            return I.lst(list(c.items))
        if name == "values":
            return I.lst(list(c.items.values()))
        if name == "items":
            return I.lst([VTuple([a, b]) for a, b in c.items.items()])
    return NotImplemented


def str_method(I, t, name, args, kw, node):
    ts = [I.term(a) for a in args]
    if t.op == "const" and all(x.op == "const" for x in ts) and not kw:
        try:
            r = vars(str)[name](t.args[0], *[x.args[0] for x in ts])
            if isinstance(r, (str, bool, int)):
                return const(r)
        except Exception:
            return NotImplemented
    if name == "join" and len(args) == 1:
        items = I.iterate(args[0])
        if items is not None:
            parts = []
            for i, x in enumerate(items):
                if i:
                    parts.append(t)
                parts.append(to_str(I.term(x)))
            return strcat(parts)
    if name == "format":
        return mk("strformat", t, *(ts + [
            mk("kw", k, I.term(v)) for k, v in sorted(kw.items())]))
    return mk("call", "." + name, t, *ts)


class CachedProp(Prop):
    pass
