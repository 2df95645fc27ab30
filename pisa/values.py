"""Abstract values, heap cells and program states of the analyser."""

from . import terms as tm


class Dead(Exception):
    """The current abstract path ends here (raise, return of no value...)."""


class Value(object):
    __slots__ = ()


class VTuple(Value):
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = tuple(items)

    def __repr__(self):
        return "VTuple%r" % (self.items,)


class Ref(Value):
    __slots__ = ("loc",)

    def __init__(self, loc):
        self.loc = loc

    def __eq__(self, o):
        return isinstance(o, Ref) and o.loc == self.loc

    def __hash__(self):
        return hash(("ref", self.loc))

    def __repr__(self):
        return "Ref(%s)" % self.loc


class View(Value):
    """A view (attribute or item) of a mutable array."""

    __slots__ = ("base", "kind", "key")

    def __init__(self, base, kind, key):
        self.base, self.kind, self.key = base, kind, key

    def __eq__(self, o):
        return (isinstance(o, View) and o.base == self.base
                and o.kind == self.kind and o.key == self.key)

    def __hash__(self):
        return hash(("view", self.base, self.kind, self.key))


class Choice(Value):
    __slots__ = ("cond", "a", "b")

    def __init__(self, cond, a, b):
        self.cond, self.a, self.b = cond, a, b

    def __eq__(self, o):
        return (isinstance(o, Choice) and o.cond is self.cond
                and same(o.a, self.a) and same(o.b, self.b))

    def __hash__(self):
        return hash(("choice", self.cond))


class Fn(Value):
    __slots__ = ("node", "chain", "mod", "cls", "name", "defaults",
                 "kwdefaults")

    def __init__(self, node, chain, mod, cls, name, defaults, kwdefaults):
        self.node, self.chain, self.mod = node, chain, mod
        self.cls, self.name = cls, name
        self.defaults, self.kwdefaults = defaults, kwdefaults

    def __repr__(self):
        return "Fn(%s)" % self.name

    @property
    def qual(self):
        return (self.cls.name + "." if self.cls else "") + self.name


class Bound(Value):
    __slots__ = ("self_", "fn")

    def __init__(self, self_, fn):
        self.self_, self.fn = self_, fn

    def __eq__(self, o):
        return (isinstance(o, Bound) and self.fn is o.fn
                and same(self.self_, o.self_))

    def __hash__(self):
        return hash(("bound", self.fn))


class Partial(Value):
    __slots__ = ("fn", "args", "kw", "tag")

    def __init__(self, fn, args, kw, tag="partial"):
        self.fn, self.args, self.kw, self.tag = fn, args, kw, tag


class Cls(Value):
    def __init__(self, name, mod, bases, node):
        self.name, self.mod, self.bases, self.node = name, mod, bases, node
        self.members = {}
        self.attrs_fields = None

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, Cls):
                for c in b.mro():
                    if c not in out:
                        out.append(c)
        return out

    def find(self, name, after=None):
        m = self.mro()
        if after is not None:
            m = m[m.index(after) + 1:] if after in m else m
        for c in m:
            if name in c.members:
                return c.members[name]
        return None

    def ext_bases(self):
        out = []
        for c in self.mro():
            for b in c.bases:
                if isinstance(b, Ext):
                    out.append(b.name)
        return out

    def __repr__(self):
        return "Cls(%s)" % self.name


class Prop(object):
    def __init__(self, fget=None, fset=None, fdel=None):
        self.fget, self.fset, self.fdel = fget, fset, fdel


class Static(object):
    def __init__(self, fn, kind):
        self.fn, self.kind = fn, kind


class Mod(Value):
    def __init__(self, name, path):
        self.name, self.path = name, path
        self.fid = ("mod", name)

    def __repr__(self):
        return "Mod(%s)" % self.name


class Ext(Value):
    """Something of an external library, by canonical dotted name."""

    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, Ext) and o.name == self.name

    def __hash__(self):
        return hash(("ext", self.name))

    def __repr__(self):
        return "Ext(%s)" % self.name


class ExtMeth(Value):
    """Method of an external object: obj.name"""

    __slots__ = ("obj", "name")

    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class Super(Value):
    __slots__ = ("self_", "cls")

    def __init__(self, self_, cls):
        self.self_, self.cls = self_, cls


class InstDict(Value):
    __slots__ = ("ref",)

    def __init__(self, ref):
        self.ref = ref


class Seg(Value):
    """A spliced symbolic sequence inside a list."""

    __slots__ = ("term",)

    def __init__(self, term):
        self.term = term

    def __eq__(self, o):
        return isinstance(o, Seg) and o.term is self.term

    def __hash__(self):
        return hash(("seg", self.term))


class _Absent(Value):
    __slots__ = ()

    def __repr__(self):
        return "ABSENT"


ABSENT = _Absent()


def same(a, b):
    if a is b:
        return True
    if isinstance(a, tm.T) or isinstance(b, tm.T):
        return a is b
    if isinstance(a, VTuple) and isinstance(b, VTuple):
        return len(a.items) == len(b.items) and all(
            same(x, y) for x, y in zip(a.items, b.items))
    if isinstance(a, Fn) and isinstance(b, Fn):
        return a.node is b.node and a.chain == b.chain
    if isinstance(a, Partial) and isinstance(b, Partial):
        return (same(a.fn, b.fn) and len(a.args) == len(b.args)
                and all(same(x, y) for x, y in zip(a.args, b.args))
                and a.kw.keys() == b.kw.keys()
                and all(same(a.kw[k], b.kw[k]) for k in a.kw))
    if isinstance(a, ExtMeth) and isinstance(b, ExtMeth):
        return a.name == b.name and same(a.obj, b.obj)
    if isinstance(a, Prop) or isinstance(b, Prop):
        return False
    try:
        return a == b
    except Exception:
        return False


# ------------------------------------------------------------------- cells

class Arr(object):
    """External mutable object known by its current term."""

    __slots__ = ("term",)

    def __init__(self, term):
        self.term = term


class Lst(object):
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = tuple(items)


class Dct(object):
    __slots__ = ("items", "base")

    def __init__(self, items, base=None):
        self.items = dict(items)
        self.base = base


class Inst(object):
    __slots__ = ("cls", "fields", "sym")

    def __init__(self, cls, fields, sym=None):
        self.cls, self.fields, self.sym = cls, fields, sym


def cell_same(a, b):
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, Arr):
        return a.term is b.term
    if isinstance(a, Lst):
        return len(a.items) == len(b.items) and all(
            same(x, y) for x, y in zip(a.items, b.items))
    if isinstance(a, Dct):
        return (a.base is b.base and a.items.keys() == b.items.keys()
                and all(same(v, b.items[k]) for k, v in a.items.items()))
    if isinstance(a, Inst):
        return (a.cls is b.cls and a.fields.keys() == b.fields.keys()
                and all(same(v, b.fields[k]) for k, v in a.fields.items()))
    return False


class State(object):
    __slots__ = ("envs", "heap", "pc")

    def __init__(self, envs=None, heap=None, pc=()):
        self.envs = envs or {}
        self.heap = heap or {}
        self.pc = pc

    def copy(self):
        return State({k: dict(v) for k, v in self.envs.items()},
                     dict(self.heap), self.pc)


class Event(object):
    __slots__ = ("kind", "name", "args", "kw", "res", "pc", "node", "fn",
                 "mod", "loops", "vals", "kwvals", "idx", "lam", "extra",
                 "stack")

    def __repr__(self):
        return "<%s %s %s @%s>" % (self.kind, self.name, self.args,
                                   self.where())

    @property
    def line(self):
        return getattr(self.node, "lineno", 0)

    def where(self):
        return "%s:%s (%s)" % (self.mod, self.line, self.fn)
