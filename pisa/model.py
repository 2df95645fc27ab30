"""Abstract inputs (images, catalogues) and analysis sessions."""

from . import terms as tm
from .terms import T, mk, const, sym
from .values import *  # noqa
from .interp import Interp

SCALAR_FIELDS = {"var", "zp", "inf_loss", "beta0", "num"}


def _scalar_hook(t):
    if t.op == "sym" and len(t.args) > 1 and t.args[-1] in SCALAR_FIELDS:
        return True
    return None


def _real_hook(t):
    if t.op == "sym":
        return True
    if t.op == "call" and t.args[0] in (
            ".render", ".back", "numpy.mgrid"):
        return True
    if t.op == "attr" and t.args[1] in ("x", "x_mean", "eps", "globalrms"):
        return True
    return None


tm.SCALAR_HOOK.append(_scalar_hook)
tm.REAL_HOOK.append(_real_hook)


def field_cut(make):
    """A cut for a property: value made once per instance, then shared."""
    key = "§" + str(id(make))

    def cut(I, ref, node):
        c = I.cell(ref)
        v = c.fields.get(key)
        if v is None:
            v = make(I, ref)
            I.set_field(ref, key, v)
        return v
    cut.key = key
    return cut


def name_of(I, ref):
    """Symbol arguments naming an instance."""
    return I.cell(ref).sym


def of(I, ref, *more):
    s = I.cell(ref).sym
    if s.op == "sym":
        return mk("sym", *(s.args + more))
    return mk("of", s, *more)


def image(I, name, cls="SingleImage"):
    c = next(v for k, v in I.classes.items() if k[1] == cls)
    return I.alloc(Inst(c, {}, sym(name)))


def cell_of(I, term):
    return I.alloc(Arr(term))


def base_cuts():
    """The measured quantities of an image, taken as given."""
    def arr(name):
        return field_cut(lambda I, r: cell_of(I, of(I, r, name)))

    def data(I, r):
        return cell_of(I, tm.ma(of(I, r, "data"), of(I, r, "mask")))
    d = field_cut(data)
    var = lambda I, r, n: of(I, r, "var")

    def zp_get(I, r, n):
        c = I.cell(r)
        return I.resolve(c.fields.get("zp", of(I, r, "zp")))

    def zp_set(I, r, v, n):
        I.event("setzp", "zp", [r, v], node=n)
        I.set_field(r, "zp", v)
    return {
        "SingleImage.data": d,
        "SingleImage.var": var,
        "SingleImage.zp": zp_get,
        "SingleImage.zp=": zp_set,
        "SingleImage.interped": arr("interped"),
        "SingleImage.best_sources": arr("sources"),
    }


COLD = {}


class Session(object):

    def __init__(self, repo="/repo", cuts=None, config=None):
        self.I = Interp(repo, cuts, config)
        self.I.process = self.I.alloc(self.I.ext.process_cell())
        self.I.load("properimage")

    def cold(self, *clsnames):
        """Symbolic images hold just what their constructor stores."""
        key = (self.I.repo, clsnames)
        names = COLD.get(key)
        if names is not None:
            self.I.config["cold"] = names
            return self
        names = set()
        for n in clsnames or ("SingleImage", "SingleImageGaussPSF"):
            J = Interp(self.I.repo, {}, {})
            J.load("properimage")
            p = sym("pixels")
            J.kinds[p] = {"ndarray"}
            c = next((v for k, v in J.classes.items() if k[1] == n), None)
            if c is None:
                raise Missing("class %s" % n)
            o = run(J, c, [J.wrapsym(p)])
            if not o.dead:
                names |= {k for k in J.cell(o.value).fields
                          if not k.startswith("\xa7")}
        COLD[key] = names
        self.I.config["cold"] = names
        return self

    def module(self, name):
        m = self.I.load("properimage." + name)
        if m is None:
            raise Missing("module properimage.%s" % name)
        return m

    def function(self, mod, name):
        m = self.module(mod)
        v = self.I.st.envs[m.fid].get(name)
        if v is None:
            raise Missing("%s.%s" % (mod, name))
        return self.I.resolve(v)

    def cls(self, name):
        for k, v in self.I.classes.items():
            if k[1] == name:
                return v
        raise Missing("class %s" % name)


class Missing(Exception):
    """A public anchor of the property is gone."""


class Outcome(object):
    pass


def reach(I, vs):
    """[(cell, label)] reachable from values."""
    out, todo, seen = [], [(v, "argument %d" % i) for i, v in
                           enumerate(vs)], set()
    while todo:
        v, how = todo.pop()
        v = I.resolve(v) if v is not None else v
        if isinstance(v, VTuple):
            todo += [(x, how) for x in v.items]
        elif isinstance(v, Choice):
            todo += [(v.a, how), (v.b, how)]
        elif isinstance(v, View):
            todo.append((v.base, how))
        elif isinstance(v, T):
            todo += [(x, "%s.%s" % (how, k[1])) for k, x in
                     I.vattrs.items() if k[0] is v]
            if v.op in ("list", "tuple"):
                todo += [(x, how) for x in v.args]
        elif isinstance(v, Ref) and v.loc not in seen and \
                I.st is not None and v.loc in I.st.heap:
            seen.add(v.loc)
            c = I.cell(v)
            out.append((v, how))
            if isinstance(c, Inst):
                # an image's own caches are its own; pixels and flags
                # are looked at where they are kept
                todo += [(x, "%s.%s" % (how, k)) for k, x in
                         c.fields.items() if k.startswith("\xa7")]
            elif isinstance(c, Lst):
                todo += [(x, how) for x in c.items if not
                         isinstance(x, Seg)]
            elif isinstance(c, Dct):
                todo += [(x, "%s[%s]" % (how, tm.show(k))) for k, x in
                         c.items.items()]
            elif isinstance(c, Arr) and c.term.op == "list":
                todo += [(x, how) for x in c.term.args]
    return out


def hand_over(I, vs):
    """Remember what was given to the code analysed."""
    given = vars(I).setdefault("given", {})
    for v, how in reach(I, vs):
        c = I.cell(v)
        if v.loc not in given:
            given[v.loc] = (v, how, None if isinstance(c, Inst) else
                            I.term(v))


def run(I, f, args=(), kw=None, node=None):
    """Call f in a fresh frame; collect value, raised outcomes, events."""
    o = Outcome()
    n = len(I.events)
    hand_over(I, list(args) + list((kw or {}).values()))
    col = []
    I.collectors.append(col)
    from .interp import Ctx
    mod = next(iter(I.mods.values()))
    ctx = Ctx(None, ("driver",), mod, "<driver>")
    I.st.envs.setdefault(("driver",), {})
    I.ctxs.append(ctx)
    try:
        try:
            o.value = I.call(f, list(args), dict(kw or {}), node)
            o.dead = False
        except Dead:
            o.value, o.dead = None, True
    finally:
        I.ctxs.pop()
        I.collectors.pop()
    o.raised = col
    o.events = I.events[n:]
    o.state = I.st
    vars(I).setdefault("outcomes", []).append(o)
    return o
