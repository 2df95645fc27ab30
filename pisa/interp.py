"""Interprocedural value-numbering dataflow over Python syntax trees.

The interpreter walks the AST in control-flow order with an abstract state
(environments, heap of cells, list of branch decisions).  Branches with an
unknown condition are both followed and *joined* into gated (ite) values;
loops over unknown collections are summarised, not iterated.  Calls of
functions of the analysed package are inlined; calls of libraries are opaque
terms, except for the ones given meaning in `ext.py`.
"""

import ast
import os

from . import small
from . import terms as tm
from .terms import T, mk, const, sym
from .values import *  # noqa

UNROLL = 64
DEPTH = 60


class Unsupported(Exception):
    pass


class Ctx(object):
    """Dynamic context of one function activation."""

    def __init__(self, fn, fid, mod, qual):
        self.fn, self.fid, self.mod, self.qual = fn, fid, mod, qual
        self.returns = []
        self.loops = []      # stack of (break sink, continue sink)
        self.yields = None
        self.cls = fn.cls if fn is not None else None


class _Top(object):
    path = name = "(analysis)"


TOP = Ctx(None, None, _Top, "(analysis)")


class Interp(object):

    PKG = "properimage"

    def __init__(self, repo="/repo", cuts=None, config=None):
        self.repo = repo
        self.cuts = cuts or {}
        self.config = config or {}
        self.st = State()
        self.mods = {}
        self.classes = {}
        self.events = []
        self.shares, self.writes = {}, []
        self.notes = []          # unsupported constructs met
        self.ctxs = []
        self.collectors = []
        self.nloc = 0
        self.nfid = 0
        self.looplevel = 0
        self.inlam = 0
        self.functions_seen = set()
        self.attrs = {}          # (term, attribute) -> term
        self.vattrs = {}         # (term, attribute) -> value
        self.kinds = {}          # symbol term -> set of class names
        self.quiet = 0
        from . import ext
        self.ext = ext

    # ------------------------------------------------------------ modules

    def load(self, name):
        """Load module `properimage.x` (or the package) by dotted name."""
        if name in self.mods:
            return self.mods[name]
        rel = name.split(".")
        path = os.path.join(self.repo, *rel) + ".py"
        if not os.path.exists(path):
            path = os.path.join(self.repo, *(rel + ["__init__.py"]))
        if not os.path.exists(path):
            return None
        m = Mod(name, os.path.relpath(path, self.repo))
        self.mods[name] = m
        with open(path, encoding="utf-8") as f:
            src = f.read()
        tree = ast.parse(src, path)
        m.tree = tree
        m.src = src
        self.st.envs[m.fid] = {"__name__": const(name)}
        ctx = Ctx(None, m.fid, m, "<module>")
        self.ctxs.append(ctx)
        self.collectors.append([])
        saved_pc = self.st.pc
        self.exec_block(tree.body)
        if self.st is None:
            raise Unsupported("module %s does not finish" % name)
        self.st.pc = saved_pc
        self.collectors.pop()
        self.ctxs.pop()
        return m

    def modattr(self, m, name):
        env = self.st.envs[m.fid]
        if name in env:
            return env[name]
        sub = self.load(m.name + "." + name)
        if sub is not None:
            return sub
        raise Unsupported("no attribute %s in %s" % (name, m.name))

    # ------------------------------------------------------------- helpers

    @property
    def ctx(self):
        return self.ctxs[-1] if self.ctxs else TOP

    def alloc(self, cell):
        self.nloc += 1
        r = Ref(self.nloc)
        self.st.heap[self.nloc] = cell
        return r

    def new(self, term):
        """Wrap the result of an external operation."""
        if not isinstance(term, T):
            return term
        if term.op == "tuple":
            return VTuple([self.new(x) for x in term.args])
        if term.op in ("const", "num", "str", "strcat", "pathjoin",
                       "not", "and", "is", "in",
                       "len", "bv", "shape", "size", "ndim", "slice",
                       "com", "int", "float", "bool") or self.scalar(term):
            return term
        return self.alloc(Arr(term))

    def lst(self, items):
        return self.alloc(Lst(items))

    def scalar(self, t):
        return self.ext.is_scalar(t)

    def cell(self, ref):
        return self.st.heap[ref.loc]

    def note(self, what, node=None):
        self.notes.append("%s:%s %s" % (
            self.ctx.mod.path if self.ctxs else "?",
            getattr(node, "lineno", "?"), what))

    def unk(self, why, *parts):
        return mk("unk", why, *[self.term(p) for p in parts])

    def event(self, kind, name, vals=(), kw=None, res=None, node=None,
              extra=None):
        if self.quiet:
            return None
        e = Event()
        e.kind, e.name = kind, name
        e.vals, e.kwvals = list(vals), dict(kw or {})
        e.args = [self.term(v) for v in vals]
        e.kw = {k: self.term(v) for k, v in (kw or {}).items()}
        e.res = res
        e.pc = tuple(self.st.pc)
        e.node = node
        e.fn = self.ctx.qual
        e.mod = self.ctx.mod.path
        e.loops = self.looplevel
        e.lam = self.inlam
        e.extra = extra
        e.idx = len(self.events)
        e.stack = [(c.qual, c.mod.path) for c in self.ctxs]
        self.events.append(e)
        return e

    # -------------------------------------------------------------- terms

    def term(self, v):
        if isinstance(v, T):
            return v
        if isinstance(v, VTuple):
            return self._seqterm("tuple", v.items)
        if isinstance(v, Ref):
            c = self.cell(v)
            if isinstance(c, Arr):
                return c.term
            if isinstance(c, Lst):
                if len(c.items) == 1 and isinstance(c.items[0], Seg):
                    return c.items[0].term
                return self._seqterm("list", c.items)
            if isinstance(c, Dct):
                parts = []
                for k, x in c.items.items():
                    parts += [k, self.term(x)]
                if c.base is not None:
                    return mk("dict", mk("splice", c.base), *parts)
                return mk("dict", *parts)
            if isinstance(c, Inst):
                if c.sym is not None:
                    return c.sym
                return mk("inst", c.cls.name, v.loc)
        if isinstance(v, View):
            return self.view_term(self.term(v.base), v.kind, v.key)
        if isinstance(v, Choice):
            return tm.ite(v.cond, self.term(v.a), self.term(v.b))
        if isinstance(v, Fn):
            return self.lam_term(v)
        if isinstance(v, Bound):
            return mk("bound", self.term(v.self_), v.fn.name)
        if isinstance(v, Cls):
            return mk("cls", v.name)
        if isinstance(v, Ext):
            return self.ext.const_term(v.name)
        if isinstance(v, Mod):
            return mk("ext", v.name)
        if isinstance(v, Partial):
            return mk("partial", v.tag, self.term(v.fn),
                      *([self.term(a) for a in v.args]
                        + [mk("kw", k, self.term(x))
                           for k, x in sorted(v.kw.items())]))
        if isinstance(v, ExtMeth):
            return mk("attr", self.term(v.obj), v.name)
        if isinstance(v, Seg):
            return mk("splice", v.term)
        if v is ABSENT:
            return mk("absent")
        if isinstance(v, (Super, InstDict)):
            return mk("unk", type(v).__name__)
        raise TypeError(repr(v))

    def _seqterm(self, op, items):
        return mk(op, *[self.term(x) for x in items])

    def view_term(self, base, kind, key):
        if kind == "attr":
            return self.ext.attr_term(self, base, key)
        return self.ext.item_term(base, key)

    def lam_term(self, fn):
        """Canonical term of a function value: its body over bound names."""
        key = ("lam", id(fn.node))
        if key in self._busy or len(self.ctxs) > DEPTH:
            return mk("lamrec", fn.name)
        self._busy.add(key)
        saved = self.st
        self.st = saved.copy()
        self.inlam += 1
        try:
            a = fn.node.args
            names = [x.arg for x in a.posonlyargs + a.args]
            lv = self.inlam
            args = [mk("sym", "arg%d_%d" % (lv, i))
                    for i in range(len(names) - len(fn.defaults))]
            self.collectors.append([])
            try:
                r = self.call_fn(fn, [self.wrapsym(x) for x in args], {},
                                 fn.node)
                body = self.term(r)
            except Dead:
                body = mk("bottom")
            finally:
                self.collectors.pop()
            return mk("lam", lv, len(args), body)
        finally:
            self.inlam -= 1
            self.st = saved
            self._busy.discard(key)

    _busy = set()

    def wrapsym(self, t):
        return self.alloc(Arr(t))

    # ------------------------------------------------------------- states

    def join_values(self, c, a, b, sa, sb, out):
        """Value of the joined state `out` for a under c and b otherwise."""
        if same(a, b):
            return a
        if isinstance(a, T) and isinstance(b, T):
            return tm.ite(c, a, b)
        if (isinstance(a, VTuple) and isinstance(b, VTuple)
                and len(a.items) == len(b.items)):
            return VTuple([self.join_values(c, x, y, sa, sb, out)
                           for x, y in zip(a.items, b.items)])
        if isinstance(a, Ext) and isinstance(b, Ext):
            x = self.ext.CANON.get(a.name)
            if x is not None and x == self.ext.CANON.get(b.name):
                return a
        return Choice(c, a, b)

    def join(self, c, sa, sb, prefix):
        """Join two states: sa holds when c, sb when not c."""
        if sa is None:
            return sb
        if sb is None:
            return sa
        out = State({}, {}, prefix)
        for fid in list(sa.envs) + [f for f in sb.envs if f not in sa.envs]:
            ea, eb = sa.envs.get(fid), sb.envs.get(fid)
            if ea is None or eb is None:
                out.envs[fid] = dict(ea or eb)
                continue
            e = {}
            for k in list(ea) + [k for k in eb if k not in ea]:
                va, vb = ea.get(k, ABSENT), eb.get(k, ABSENT)
                e[k] = self.join_values(c, va, vb, sa, sb, out)
            out.envs[fid] = e
        for loc in set(sa.heap) | set(sb.heap):
            ca, cb = sa.heap.get(loc), sb.heap.get(loc)
            if ca is None or cb is None:
                out.heap[loc] = ca or cb
            elif cell_same(ca, cb):
                out.heap[loc] = ca
            else:
                out.heap[loc] = self.join_cells(c, ca, cb, sa, sb, out)
        return out

    def _term_in(self, st, v):
        saved, self.st = self.st, st
        try:
            return self.term(v)
        finally:
            self.st = saved

    def unwritten(self, s, k, va, vb, sa, sb):
        """Field k of symbolic instance s only read, on the one side."""
        if k.startswith("\xa7"):
            return True
        v, st = (vb, sb) if va is ABSENT else (va, sa)
        if isinstance(v, Ref):
            cell = st.heap.get(v.loc)
            return isinstance(cell, Arr) and cell.term is mk("attr", s, k)
        return False

    def join_cells(self, c, a, b, sa, sb, out):
        if isinstance(a, Arr) and isinstance(b, Arr):
            return Arr(tm.ite(c, a.term, b.term))
        if isinstance(a, Inst) and isinstance(b, Inst) and a.cls is b.cls:
            f = {}
            for k in list(a.fields) + [k for k in b.fields
                                       if k not in a.fields]:
                va, vb = a.fields.get(k, ABSENT), b.fields.get(k, ABSENT)
                if a.sym is not None and (va is ABSENT) != (vb is ABSENT) \
                        and self.unwritten(a.sym, k, va, vb, sa, sb):
                    f[k] = va if vb is ABSENT else vb
                    continue
                f[k] = self.join_values(c, va, vb, sa, sb, out)
            return Inst(a.cls, f, a.sym)
        if isinstance(a, Lst) and isinstance(b, Lst):
            if len(a.items) == len(b.items):
                return Lst([self.join_values(c, x, y, sa, sb, out)
                            for x, y in zip(a.items, b.items)])
            # common prefix, then a conditional tail
            n = 0
            while (n < min(len(a.items), len(b.items))
                   and same(a.items[n], b.items[n])):
                n += 1
            ta = mk("list", *[self._term_in(sa, x) for x in a.items[n:]])
            tb = mk("list", *[self._term_in(sb, x) for x in b.items[n:]])
            return Lst(list(a.items[:n]) + [Seg(mk("ite", c, ta, tb))])
        if isinstance(a, Dct) and isinstance(b, Dct) and a.base is b.base:
            d = {}
            for k in list(a.items) + [k for k in b.items if k not in a.items]:
                d[k] = self.join_values(c, a.items.get(k, ABSENT),
                                        b.items.get(k, ABSENT), sa, sb, out)
            return Dct(d, a.base)
        return Arr(mk("ite", c, mk("cell", repr(type(a))),
                      mk("cell", repr(type(b)))))

    def merge(self, outs):
        """Join outcomes [(state, value)] of one decision tree."""
        outs = [o for o in outs if o[0] is not None]
        if not outs:
            return None, None
        return self._merge(outs, 0)

    def _merge(self, outs, d):
        while len(outs) > 1:
            heads = [o[0].pc[d] if len(o[0].pc) > d else None for o in outs]
            if None in heads:
                # shorter decision list: keep the first such outcome and
                # gate by the others' decisions conjunctively
                i = heads.index(None)
                others = outs[:i] + outs[i + 1:]
                sb, vb = self._merge(others, d)
                sa, va = outs[i]
                c = tm.lnot(tm.land(*[x if p else tm.lnot(x)
                                      for x, p in others[0][0].pc[d:]]))
                st = self.join(c, sa, sb, sa.pc[:d])
                return st, self.join_values(c, va, vb, sa, sb, st)
            if all(h == heads[0] for h in heads):
                d += 1
                continue
            c = heads[0][0]
            ta = [o for o, h in zip(outs, heads) if h == (c, True)]
            fa = [o for o, h in zip(outs, heads) if h == (c, False)]
            rest = [o for o, h in zip(outs, heads) if h[0] is not c]
            if rest:
                # different decision: fold the remainder in afterwards
                sa, va = self._merge(ta + fa, d)
                sb, vb = self._merge(rest, d)
                cc = tm.land(*[x if p else tm.lnot(x)
                               for x, p in rest[0][0].pc[d:]])
                st = self.join(tm.lnot(cc), sa, sb, sa.pc[:d])
                return st, self.join_values(tm.lnot(cc), va, vb, sa, sb, st)
            if not ta or not fa:
                d += 1
                continue
            sa, va = self._merge(ta, d + 1)
            sb, vb = self._merge(fa, d + 1)
            st = self.join(c, sa, sb, sa.pc[:d])
            return st, self.join_values(c, va, vb, sa, sb, st)
        return outs[0]

    def known(self, c):
        """Truth of condition c, by itself or by the decisions taken."""
        v = tm.truth(c)
        if v is not None:
            return v
        for x, p in self.st.pc:
            if x is c:
                return p
            if c.op == "not" and x is c.args[0]:
                return not p
            if x.op == "not" and x.args[0] is c:
                return not p
            if p and x.op == "and":
                if c in x.args:
                    return True
                if tm.lnot(c) in x.args:
                    return False
            if not p and x.op == "not" and x.args[0].op == "and":
                if c in x.args[0].args:
                    return True
        if c.op == "and":
            vs = [self.known(a) for a in c.args]
            if all(v is True for v in vs):
                return True
            if any(v is False for v in vs):
                return False
        if c.op == "not":
            v = self.known(c.args[0])
            return None if v is None else not v
        h = self.config.get("known")
        if h is not None:
            return h(self, c)
        return None

    def branch(self, c, f, g):
        """Run f under c and g under not c, join; returns joined value."""
        v = self.known(c)
        if v is True:
            return f()
        if v is False:
            return g()
        pre = self.st.pc
        s0 = self.st
        outs = []
        for pol, h in ((True, f), (False, g)):
            self.st = s0.copy()
            self.st.pc = pre + ((c, pol),)
            try:
                r = h()
                outs.append((self.st, r))
            except Dead:
                outs.append(None)
        a, b = outs
        if a is None and b is None:
            raise Dead()
        if a is None or b is None:
            self.st, r = a or b
            return r
        self.st, r = self._merge([a, b], 0)
        self.st.pc = pre if self.st.pc[:len(pre)] == pre else self.st.pc
        return r

    def lift(self, v, f):
        """Apply f to a value, following both sides of a Choice."""
        if isinstance(v, Choice):
            return self.branch(v.cond, lambda: self.lift(v.a, f),
                               lambda: self.lift(v.b, f))
        return f(v)

    def resolve(self, v):
        """Drop sides of a Choice excluded by the decisions taken."""
        while isinstance(v, Choice):
            k = self.known(v.cond)
            if k is True:
                v = v.a
            elif k is False:
                v = v.b
            else:
                return v
        return v

    # --------------------------------------------------------- statements

    def exec_block(self, stmts):
        for s in stmts:
            if self.st is None:
                return
            try:
                self.exec_stmt(s)
            except Dead:
                self.st = None

    def exec_stmt(self, s):
        m = getattr(self, "x_" + type(s).__name__, None)
        if m is None:
            self.note("statement %s" % type(s).__name__, s)
            return
        return m(s)

    def x_Pass(self, s):
        pass

    def x_Global(self, s):
        for n in s.names:
            self.ctx.__dict__.setdefault("globals_", set()).add(n)

    def x_Nonlocal(self, s):
        for n in s.names:
            self.ctx.__dict__.setdefault("nonlocals_", set()).add(n)

    def x_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value)

    def x_Import(self, s):
        for a in s.names:
            top = a.name.split(".")[0]
            if top == self.PKG:
                v = self.load(a.name if a.asname else top)
            else:
                self.import_risk(a.name, s)
                v = Ext(a.name if a.asname else top)
            self.setname(a.asname or top, v, s)

    def import_risk(self, name, node):
        if len(self.collectors) > 1 and self.collectors[-1] is not None \
                and isinstance(self.collectors[-1], TryCollector):
            self.risk(mk("import", name), node)

    def x_ImportFrom(self, s):
        base = s.module or ""
        if s.level:
            pkg = self.ctx.mod.name.split(".")
            if not self.ctx.mod.path.endswith("__init__.py"):
                pkg = pkg[:-1]
            pkg = pkg[:len(pkg) - (s.level - 1)]
            base = ".".join(pkg + ([s.module] if s.module else []))
        inner = base.split(".")[0] == self.PKG
        for a in s.names:
            if inner:
                m = self.load(base)
                if m is None:
                    raise Unsupported("module %s" % base)
                if a.name == "*":
                    for k, v in list(self.st.envs[m.fid].items()):
                        if not k.startswith("_"):
                            self.setname(k, v, s)
                    continue
                v = self.modattr(m, a.name)
            else:
                self.import_risk(base + "." + a.name, s)
                v = Ext(base + "." + a.name)
            self.setname(a.asname or a.name, v, s)

    def x_FunctionDef(self, s):
        v = self.mkfn(s)
        for d in reversed(s.decorator_list):
            v = self.decorate(d, v, s)
        self.setname(s.name, v, s)

    x_AsyncFunctionDef = x_FunctionDef

    def mkfn(self, s, name=None):
        a = s.args
        defaults = [self.ev(d) for d in a.defaults]
        kwd = {p.arg: self.ev(d)
               for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        chain = tuple(self.chain())
        cls = getattr(self.ctx, "defcls", None)
        return Fn(s, chain, self.ctx.mod, cls,
                  name or getattr(s, "name", "<lambda>"), defaults, kwd)

    def chain(self):
        """Visible environments, innermost first (class bodies skipped)."""
        c = self.ctx
        out = []
        if getattr(c, "defcls", None) is None:
            if c.fid not in out:
                out.append(c.fid)
        if c.fn is not None:
            out += [f for f in c.fn.chain if f not in out]
        if c.mod.fid not in out:
            out.append(c.mod.fid)
        return out

    def decorate(self, d, v, s):
        if isinstance(d, ast.Name) and d.id == "property":
            return Prop(v)
        if isinstance(d, ast.Name) and d.id in ("staticmethod",
                                                "classmethod"):
            return Static(v, d.id)
        if isinstance(d, ast.Attribute) and d.attr in (
                "setter", "getter", "deleter"):
            old = self.ev(d.value)
            if isinstance(old, Prop):
                p = Prop(old.fget, old.fset, old.fdel)
                setattr(p, {"setter": "fset", "getter": "fget",
                            "deleter": "fdel"}[d.attr], v)
                return p
        dv = self.ev(d)
        if isinstance(dv, Ext):
            r = self.ext.decorator(self, dv.name, v)
            if r is not None:
                return r
        if isinstance(dv, Partial) and dv.tag == "wraps":
            old = dv.args[0]
            if isinstance(v, Fn) and isinstance(old, Fn):
                return Fn(v.node, v.chain, v.mod, old.cls, old.name,
                          v.defaults, v.kwdefaults)
            return v
        if isinstance(dv, Ref) or isinstance(dv, Ext):
            return v if isinstance(v, (Prop, Static)) else Partial(
                dv, [v], {}, "decorated")
        return self.call(dv, [v], {}, d)

    def x_ClassDef(self, s):
        bases = [self.ev(b) for b in s.bases]
        c = Cls(s.name, self.ctx.mod, bases, s)
        outer = self.ctx
        self.nfid += 1
        fid = ("cls", self.nfid)
        self.st.envs[fid] = {}
        ctx = Ctx(None, fid, outer.mod, s.name)
        ctx.defcls = c
        ctx.outer_chain = self.chain()
        self.ctxs.append(ctx)
        try:
            fields = []
            for x in s.body:
                if isinstance(x, ast.AnnAssign) and isinstance(
                        x.target, ast.Name):
                    fields.append((x.target.id, x.value))
                    continue
                self.exec_stmt(x)
        finally:
            self.ctxs.pop()
        c.members = dict(self.st.envs.pop(fid))
        for d in s.decorator_list:
            f = d.func if isinstance(d, ast.Call) else d
            dv = self.ev(f)
            if isinstance(dv, Ext) and dv.name in (
                    "attrs.frozen", "attrs.define", "attr.s", "attr.frozen",
                    "attr.define", "attrs.mutable", "dataclasses.dataclass"):
                c.attrs_fields = fields
            else:
                self.note("class decorator", s)
        self.classes[(self.ctx.mod.name, s.name)] = c
        self.setname(s.name, c, s)

    def x_Return(self, s):
        v = self.ev(s.value) if s.value is not None else tm.NONE
        self.ctx.returns.append((self.st, v, s))
        raise Dead()

    def x_Raise(self, s):
        exc = None
        if s.exc is not None:
            v = self.ev(s.exc)
            if isinstance(v, (Ext, Cls)):
                v = self.call(v, [], {}, s)
            exc = v
        self.raise_(exc, s)

    def raise_(self, exc, node, name=None):
        if exc is not None and name is None:
            name = self.exc_name(exc)
        self.event("raise", name or "reraise", [exc] if isinstance(
            exc, (T, Ref, VTuple)) else [], node=node)
        if self.collectors:
            self.collectors[-1].append((self.st.copy(), name or "Exception",
                                        exc, node))
        raise Dead()

    def exc_name(self, v):
        if isinstance(v, Ref):
            c = self.cell(v)
            if isinstance(c, Inst):
                return c.cls.name
        t = self.term(v)
        if t.op == "call":
            return t.args[0].split(".")[-1]
        if t.op == "excsym":
            return t.args[0]
        return "Exception"

    def x_Assert(self, s):
        c = self.cond(self.ev(s.test))
        v = self.known(c)
        if v is False:
            self.raise_(mk("call", "AssertionError"), s)
        if v is None:
            st = self.st.copy()
            st.pc = st.pc + ((c, False),)
            if self.collectors:
                self.collectors[-1].append((st, "AssertionError", None, s))
            self.st.pc = self.st.pc + ((c, True),)

    def x_Assign(self, s):
        v = self.ev(s.value)
        for t in s.targets:
            self.assign(t, v, s)

    def x_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value), s)

    def x_AugAssign(self, s):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.ev(t)
        elif isinstance(t, ast.Attribute):
            base = self.ev(t.value)
            cur = self.getattr(base, self.mangle(t.attr), t)
        else:
            base = self.ev(t.value)
            idx = self.ev_index(t.slice)
            cur = self.getitem(base, idx, t)
        rhs = self.ev(s.value)
        cur = self.resolve(cur)
        # in-place update of a mutable object
        if self.is_mutable(cur):
            if self.is_list(cur):
                self.list_extend(cur, rhs, s)
                return
            nt = self.ext.binop(self, type(s.op).__name__, cur, rhs)
            nt = self.term(nt)
            self.mutate(cur, nt, s, "inplace " + type(s.op).__name__)
            if isinstance(t, ast.Name):
                return
            if isinstance(cur, View):
                return
            # obj.attr += v  also re-binds the attribute
            new = cur
        else:
            new = self.binop(type(s.op).__name__, cur, rhs, s)
        if isinstance(t, ast.Name):
            self.setname(t.id, new, s)
        elif isinstance(t, ast.Attribute):
            self.setattr(base, self.mangle(t.attr), new, s)
        else:
            self.setitem(base, idx, new, s)

    def is_mutable(self, v):
        if isinstance(v, Ref):
            c = self.cell(v)
            if isinstance(c, Arr):
                return not self.scalar(c.term)
            return isinstance(c, Lst)
        if isinstance(v, View):
            return not self.scalar(self.term(v))
        return False

    def is_list(self, v):
        return isinstance(v, Ref) and isinstance(self.cell(v), Lst)

    def x_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.st.envs[self.ctx.fid].pop(t.id, None)
            elif isinstance(t, ast.Attribute):
                self.delattr(self.ev(t.value), self.mangle(t.attr), t)
            else:
                base = self.ev(t.value)
                idx = self.ev_index(t.slice)
                self.event("delitem", "del", [base, idx], node=s)
                if isinstance(base, InstDict):
                    k = self.term(idx)
                    if k.op == "const":
                        self.delattr(base.ref, k.args[0], s)

    def x_If(self, s):
        c = self.cond(self.ev(s.test))
        v = self.known(c)
        if v is True:
            return self.exec_block(s.body)
        if v is False:
            return self.exec_block(s.orelse)
        pre = self.st.pc
        s0 = self.st
        self.st = s0.copy()
        self.st.pc = pre + ((c, True),)
        self.narrow(s.test, True)
        self.exec_block(s.body)
        sa = self.st
        self.st = s0.copy()
        self.st.pc = pre + ((c, False),)
        self.narrow(s.test, False)
        self.exec_block(s.orelse)
        sb = self.st
        if sa is None or sb is None:
            self.st = sa or sb
            return
        self.st, _ = self._merge([(sa, tm.NONE), (sb, tm.NONE)], 0)
        self.st.pc = pre

    def narrow(self, test, pol):
        pass

    def x_While(self, s):
        for _ in range(UNROLL):
            c = self.cond(self.ev(s.test))
            v = self.known(c)
            if v is False:
                self.exec_block(s.orelse)
                return
            if v is None:
                return self.symbolic_loop(s, None, None, c)
            brk, cont = [], []
            self.ctx.loops.append((brk, cont))
            self.exec_block(s.body)
            self.ctx.loops.pop()
            if brk:
                if self.st is None and not cont:
                    self.st, _ = self.merge([(b, None) for b in brk])
                    return
                return self.symbolic_loop(s, None, None, c)
            outs = [(x, None) for x in cont]
            if self.st is not None:
                outs.append((self.st, None))
            self.st, _ = self.merge(outs)
            if self.st is None:
                return
        self.note("while unrolling limit", s)

    def x_For(self, s):
        it = self.ev(s.iter)
        items = self.iterate(it)
        if items is not None and len(items) <= UNROLL:
            return self.unroll(s, items)
        self.symbolic_loop(s, s.target, it, None)

    x_AsyncFor = x_For

    def unroll(self, s, items):
        brks = []
        for x in items:
            brk, cont = [], []
            self.ctx.loops.append((brk, cont))
            self.assign(s.target, x, s)
            self.exec_block(s.body)
            self.ctx.loops.pop()
            brks += brk
            outs = [(y, None) for y in cont]
            if self.st is not None:
                outs.append((self.st, None))
            self.st, _ = self.merge(outs)
            if self.st is None:
                break
        if self.st is not None and s.orelse:
            self.exec_block(s.orelse)
        if brks:
            outs = [(b, None) for b in brks]
            if self.st is not None:
                outs.append((self.st, None))
            self.st, _ = self.merge(outs)

    def x_Break(self, s):
        self.ctx.loops[-1][0].append(self.st)
        raise Dead()

    def x_Continue(self, s):
        self.ctx.loops[-1][1].append(self.st)
        raise Dead()

    def x_With(self, s):
        exits = []
        for w in s.items:
            v = self.ev(w.context_expr)
            r = v
            cls = self.inst_cls(v)
            if cls is not None and cls.find("__enter__") is not None:
                r = self.call(self.getattr(v, "__enter__", w), [], {}, w)
                exits.append(v)
            else:
                self.event("with", "enter", [v], node=s)
            if w.optional_vars is not None:
                self.assign(w.optional_vars, r, s)
        self.exec_block(s.body)
        if self.st is None:
            return
        for v in reversed(exits):
            self.call(self.getattr(v, "__exit__", s),
                      [tm.NONE, tm.NONE, tm.NONE], {}, s)

    x_AsyncWith = x_With

    def x_Try(self, s):
        col = TryCollector(self, s)
        depth = len(self.ctxs)
        self.collectors.append(col)
        saved_loops = list(self.ctx.loops)
        outer = self.collectors[-2] if len(self.collectors) > 1 else None
        n_out = len(outer) if outer is not None else 0
        n_ret = len(self.ctx.returns)
        hnames = {id(h): self.handler_names(h) for h in s.handlers}
        self.exec_block(s.body)
        self.collectors.pop()
        del self.ctxs[depth:]
        self.ctx.loops[:] = saved_loops
        normal = self.st
        outs = []
        if normal is not None and s.orelse:
            self.exec_block(s.orelse)
            normal = self.st
        if normal is not None:
            outs.append((normal, None))
        pend = list(col)
        for h in s.handlers:
            names = hnames[id(h)]
            mine, keep = [], []
            for o in pend:
                if o[1] == "*":
                    # an unknown failure may be of any of the types
                    mine.append((o, True))
                elif self.exc_matches(o, names):
                    mine.append((o, False))
                else:
                    keep.append(o)
            pend = keep + [o for o, imp in mine if imp and h is not
                           s.handlers[-1]]
            if not mine:
                continue
            entry = []
            n_h = len(s.handlers)
            for o, imp in mine:
                st = o[0].copy()
                if imp and n_h > 1:
                    i_h = s.handlers.index(h)
                    for k in range(i_h):
                        st.pc = st.pc + ((mk("failsas", o[2], ",".join(
                            hnames[id(s.handlers[k])])), False),)
                    if i_h < n_h - 1:
                        st.pc = st.pc + ((mk("failsas", o[2],
                                             ",".join(names)), True),)
                entry.append((st, o[2] if o[2] is not None else tm.NONE))
            for st0, exc in self.group(entry):
                self.st = st0
                if h.name:
                    self.setname(h.name, exc if not isinstance(exc, T) or
                                 exc.op != "risk" else
                                 mk("excsym", names[0] if names
                                    else "Exception"), h)
                self.ctx.__dict__.setdefault("handling", []).append(
                    (exc, names))
                self.exec_block(h.body)
                self.ctx.handling.pop()
                if self.st is not None:
                    outs.append((self.st, None))
        if outer is not None:
            for o in pend:
                if o[1] != "*":
                    outer.append(o)
                elif isinstance(outer, TryCollector) and not outer.seen \
                        and not s.handlers:
                    outer.seen = True
                    tag = mk("fails", o[2], outer.types)
                    st = o[0].copy()
                    st.pc = st.pc[:-1] + ((tag, True),)
                    outer.append((st, "*", o[2], o[3]))
        self.st, _ = self.merge(outs)
        if s.finalbody:
            self.finish(s, outer, n_out, n_ret, pend)

    def finish(self, s, outer, n_out, n_ret, pend):
        """Run a finally body on every way out."""
        here, ran = self.st, False
        rets = self.ctx.returns
        left = rets[n_ret:]
        del rets[n_ret:]
        for st, v, node in left:
            self.st = st.copy()
            ran = True
            self.exec_block(s.finalbody)
            if self.st is not None:
                rets.append((self.st, v, node))
        if outer is not None:
            out = outer[n_out:]
            del outer[n_out:]
            for st, kind, exc, node in out:
                self.st = st.copy()
                ran = True
                self.exec_block(s.finalbody)
                if self.st is not None:
                    outer.append((self.st, kind, exc, node))
        self.st = here
        if here is not None:
            self.exec_block(s.finalbody)
        elif not ran and pend:
            self.st = pend[-1][0].copy()
            self.exec_block(s.finalbody)
            self.st = None

    def group(self, entry):
        return entry

    def handler_names(self, h):
        if h.type is None:
            return ["BaseException"]
        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        out = []
        for t in ts:
            v = self.ev(t)
            out.append(v.name.split(".")[-1] if isinstance(v, (Ext, Cls))
                       else "?")
        return out

    EXC_TREE = {
        "IndexError": ["LookupError"], "KeyError": ["LookupError"],
        "FileNotFoundError": ["OSError", "IOError"],
        "IOError": ["OSError"], "OSError": ["IOError"],
        "LinAlgError": ["ValueError"], "UnboundLocalError": ["NameError"],
        "ZeroDivisionError": ["ArithmeticError"],
        "ImportError": [], "ModuleNotFoundError": ["ImportError"],
    }

    def exc_matches(self, o, names):
        n = o[1]
        mro = {n}
        if isinstance(o[2], Ref) and isinstance(
                o[0].heap.get(o[2].loc), Inst):
            c = o[0].heap[o[2].loc].cls
            mro |= {x.name for x in c.mro()}
            mro |= {b.split(".")[-1] for b in c.ext_bases()}
        for x in list(mro):
            mro |= set(self.EXC_TREE.get(x, []))
        mro |= {"Exception", "BaseException"}
        return bool(mro & set(names))

    def risk(self, callterm, node):
        """An external call that may raise, inside a try body."""
        for col in reversed(self.collectors[-1:]):
            if isinstance(col, TryCollector) and not col.seen:
                col.seen = True
                tag = mk("fails", mk("risk", callterm), col.types)
                st = self.st.copy()
                st.pc = st.pc + ((tag, True),)
                col.append((st, "*", mk("risk", callterm), node))
                self.st.pc = self.st.pc + ((tag, False),)

    # --------------------------------------------------------- assignment

    def setname(self, name, v, node):
        c = self.ctx
        if name in c.__dict__.get("globals_", ()):
            self.st.envs[c.mod.fid][name] = v
            self.event("globalwrite", name, [v] if isinstance(v, T) else [],
                       node=node)
            return
        if name in c.__dict__.get("nonlocals_", ()):
            for fid in c.fn.chain:
                if name in self.st.envs.get(fid, {}):
                    self.st.envs[fid][name] = v
                    return
        self.st.envs[c.fid][name] = v

    def lookup(self, name, node=None):
        c = self.ctx
        chain = [c.fid]
        if c.fn is not None:
            chain += list(c.fn.chain)
        else:
            chain += getattr(c, "outer_chain", [])
        if c.mod.fid not in chain:
            chain.append(c.mod.fid)
        for i, fid in enumerate(chain):
            e = self.st.envs.get(fid)
            if e is not None and name in e:
                v = e[name]
                if fid == c.fid or True:
                    r = self.resolve(v) if isinstance(v, Choice) else v
                    if isinstance(r, Choice) and self.has_absent(r):
                        return self.lookup_partial(name, r, node)
                    if r is ABSENT:
                        self.event("unbound", name, [], node=node)
                        self.raise_(None, node, "UnboundLocalError")
                    return r
        if name in self.ext.BUILTINS:
            return Ext(name)
        self.event("unbound", name, [], node=node)
        self.raise_(None, node, "NameError")

    def has_absent(self, v):
        if isinstance(v, Choice):
            return self.has_absent(v.a) or self.has_absent(v.b)
        return v is ABSENT

    def lookup_partial(self, name, v, node):
        def f(x):
            if x is ABSENT:
                self.event("unbound", name, [], node=node)
                self.raise_(None, node, "UnboundLocalError")
            return x
        return self.lift(v, f)

    def assign(self, t, v, node):
        if isinstance(t, ast.Name):
            self.setname(t.id, v, node)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value), self.mangle(t.attr), v, node)
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value)
            self.setitem(base, self.ev_index(t.slice), v, node)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts)
                    if isinstance(e, ast.Starred)]
            v = self.resolve(v)
            items = self.iterate(v)
            if isinstance(v, Choice):
                items = None
            n = len(t.elts)
            if star:
                i = star[0]
                after = n - i - 1
                if items is not None:
                    parts = items[:i] + [self.lst(
                        items[i:len(items) - after])] + items[
                            len(items) - after:]
                    for e, x in zip(t.elts, parts):
                        e = e.value if isinstance(e, ast.Starred) else e
                        self.assign(e, x, node)
                    return
            if items is not None and len(items) == n and not star:
                for e, x in zip(t.elts, items):
                    self.assign(e, x, node)
                return
            if items is not None and not star:
                self.note("unpack of %d into %d" % (len(items), n), node)
            tt = self.term(v)
            for i, e in enumerate(t.elts):
                if isinstance(e, ast.Starred):
                    self.assign(e.value, self.new(mk("unk", "star")), node)
                else:
                    self.assign(e, self.new(self.ext.unpack_term(
                        self, tt, i, n)), node)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, node)
        else:
            self.note("target", node)

    def mangle(self, name):
        if name.startswith("__") and not name.endswith("__"):
            cls = None
            for c in reversed(self.ctxs):
                cls = getattr(c, "defcls", None) or c.cls
                break
            if cls is None:
                # closures inside methods
                for c in reversed(self.ctxs):
                    if c.cls is not None:
                        cls = c.cls
                        break
            if cls is not None:
                return "_" + cls.name.lstrip("_") + name
        return name

    # ------------------------------------------------- attributes & items

    def inst_cls(self, v):
        v = self.resolve(v)
        if isinstance(v, Ref):
            c = self.cell(v)
            if isinstance(c, Inst):
                return c.cls
        return None

    def getattr(self, v, name, node, default=None):
        v = self.resolve(v)
        if isinstance(v, Choice):
            return self.lift(v, lambda x: self.getattr(x, name, node,
                                                       default))
        if v is ABSENT:
            self.raise_(None, node, "AttributeError")
        if isinstance(v, Ref):
            c = self.cell(v)
            if isinstance(c, Inst):
                return self.inst_getattr(v, c, name, node, default)
            if isinstance(c, (Lst, Dct)):
                return ExtMeth(v, name)
            return self.ext.getattr(self, v, name, node)
        if isinstance(v, InstDict):
            return ExtMeth(v, name)
        if isinstance(v, Mod):
            return self.modattr(v, name)
        if isinstance(v, Ext):
            return Ext(v.name + "." + name)
        if isinstance(v, Cls):
            if name == "__name__":
                return const(v.name)
            m = v.find(name)
            if m is None:
                self.note("class attr %s.%s" % (v.name, name), node)
                return self.unk("clsattr " + name)
            if isinstance(m, Static):
                return m.fn if m.kind == "staticmethod" else Bound(v, m.fn)
            return m
        if isinstance(v, Super):
            for c in [v.cls]:
                start = self.inst_cls(v.self_)
                m = (start or c).find(name, after=c)
                if m is None:
                    return Partial(Ext("object." + name), [], {})
                if isinstance(m, Prop):
                    return self.call(m.fget, [v.self_], {}, node)
                if isinstance(m, Fn):
                    return Bound(v.self_, m)
                return m
        if isinstance(v, (Fn, Partial, Bound)):
            if name == "__name__" and isinstance(v, Fn):
                return const(v.name)
            return mk("attr", mk("fn", getattr(v, "name", "?")), name)
        return self.ext.getattr(self, v, name, node)

    def inst_getattr(self, ref, c, name, node, default=None):
        key = (c.cls.name, name)
        cut = self.cut_for(c.cls, name)
        m = c.cls.find(name)
        if cut is not None and not isinstance(m, Fn):
            return cut(self, ref, node)
        if name == "__class__":
            return c.cls
        if name == "__dict__":
            return InstDict(ref)
        if isinstance(m, Prop):
            if m.fget is None:
                return self.unk("property without getter")
            return self.call(m.fget, [ref], {}, node)
        if name in c.fields:
            f = self.resolve(c.fields[name])
            if isinstance(f, Choice) and self.has_absent(f):
                def g(x):
                    if x is ABSENT:
                        return self.missing(ref, c, name, node, default)
                    return x
                return self.lift(f, g)
            if f is not ABSENT:
                return f
        if m is not None:
            if isinstance(m, Fn):
                return Bound(ref, m)
            if isinstance(m, Static):
                return m.fn if m.kind == "staticmethod" else Bound(
                    c.cls, m.fn)
            return m
        return self.missing(ref, c, name, node, default)

    def missing(self, ref, c, name, node, default):
        if self.open_sym(c, name):
            r = self.alloc(Arr(mk("attr", c.sym, name)))
            self.set_field(ref, name, r)
            return r
        if default is not None:
            return default
        g = c.cls.find("__getattr__")
        if isinstance(g, Fn):
            return self.call(g, [ref, const(name)], {}, node)
        self.event("attrerror", name, [], node=node, extra=c.cls.name)
        self.raise_(None, node, "AttributeError")

    def open_sym(self, c, name):
        """May a symbolic instance hold a field nobody wrote so far?"""
        if c.sym is None or self.config.get("closed_syms"):
            return False
        cold = self.config.get("cold")
        return cold is None or name in cold

    def cut_for(self, cls, name):
        for k in cls.mro():
            f = self.cuts.get(k.name + "." + name)
            if f is not None:
                return f
        return None

    def set_field(self, ref, name, v):
        c = self.cell(ref)
        f = dict(c.fields)
        f[name] = v
        self.st.heap[ref.loc] = Inst(c.cls, f, c.sym)

    def hasattr(self, v, name):
        v = self.resolve(v)
        if isinstance(v, Choice):
            return tm.ite(v.cond, self.hasattr(v.a, name),
                          self.hasattr(v.b, name))
        if isinstance(v, Ref):
            c = self.cell(v)
            if isinstance(c, Inst):
                if c.cls.find(name) is not None:
                    return tm.TRUE
                if name in c.fields:
                    return self._present(c.fields[name])
                if self.open_sym(c, name):
                    if self.config.get("cold"):
                        return tm.TRUE
                    return mk("hasattr", c.sym, name)
                if c.cls.ext_bases() and c.cls.ext_bases() != ["object"]:
                    return mk("hasattr", mk("inst", c.cls.name), name)
                return tm.FALSE
        return mk("hasattr", self.term(v), name)

    def hasattr_field(self, ref, name):
        """hasattr that looks at the instance only."""
        c = self.cell(ref)
        if name in c.fields:
            return self._present(c.fields[name])
        if self.open_sym(c, name):
            return tm.TRUE if self.config.get("cold") else mk(
                "hasattr", c.sym, name)
        return tm.FALSE

    def _present(self, v):
        if v is ABSENT:
            return tm.FALSE
        if isinstance(v, Choice):
            return tm.ite(v.cond, self._present(v.a), self._present(v.b))
        return tm.TRUE

    def setattr(self, v, name, val, node):
        v = self.resolve(v)
        if isinstance(v, Choice):
            self.lift(v, lambda x: self.setattr(x, name, val, node)
                      or tm.NONE)
            return
        if isinstance(v, Ref) and isinstance(self.cell(v), Inst):
            c = self.cell(v)
            m = c.cls.find(name)
            cut = self.cut_for(c.cls, name + "=")
            if cut is not None:
                cut(self, v, val, node)
                return
            if isinstance(m, Prop):
                if m.fset is None:
                    self.raise_(None, node, "AttributeError")
                cut = self.cut_for(c.cls, name)
                if cut is not None:
                    # a quantity taken as given is replaced
                    self.event("setgiven", name, [v, val], node=node)
                    self.set_field(v, getattr(cut, "key", name), val)
                    return
                self.call(m.fset, [v, val], {}, node)
                return
            self.event("setfield", name, [v, val], node=node,
                       extra=c.cls.name)
            self.set_field(v, name, val)
            return
        if isinstance(v, (Ref, View)):
            self.event("setattr", name, [v, val], node=node)
            old = self.term(v)
            self.store(v, self.ext.with_attr(self, old, name,
                                             self.term(val)),
                       name if name in ("mask", "data") else "all")
            return
        self.event("setattr", name, [v, val], node=node)

    def delattr(self, v, name, node):
        v = self.resolve(v)
        if isinstance(v, Choice):
            self.lift(v, lambda x: self.delattr(x, name, node) or tm.NONE)
            return
        if isinstance(v, Ref) and isinstance(self.cell(v), Inst):
            c = self.cell(v)
            p = self.hasattr(v, name)

            def doit():
                cc = self.cell(v)
                f = dict(cc.fields)
                f[name] = ABSENT
                self.st.heap[v.loc] = Inst(cc.cls, f, cc.sym)
                self.event("delfield", name, [v], node=node,
                           extra=cc.cls.name)
                return tm.NONE

            def fail():
                self.event("attrerror", name, [], node=node,
                           extra=c.cls.name)
                self.raise_(None, node, "AttributeError")
            if c.sym is not None and name not in c.fields:
                doit()
            else:
                self.branch(p, doit, fail)

    def getitem(self, v, idx, node):
        v = self.resolve(v)
        if isinstance(v, Choice):
            return self.lift(v, lambda x: self.getitem(x, idx, node))
        if isinstance(v, InstDict):
            k = self.term(idx)
            if k.op == "const":
                return self.getattr(v.ref, k.args[0], node)
        seq = None
        if isinstance(v, VTuple):
            seq = v.items
        elif isinstance(v, Ref) and isinstance(self.cell(v), Lst):
            seq = self.cell(v).items
        if seq is not None:
            it = self.term(idx)
            concrete = not any(isinstance(x, Seg) for x in seq)
            if it.op == "num" and it.args[0].denominator == 1:
                i = int(it.args[0])
                if concrete:
                    if -len(seq) <= i < len(seq):
                        return seq[i]
                    self.raise_(None, node, "IndexError")
                if i >= 0 and not any(isinstance(x, Seg)
                                      for x in seq[:i + 1]) and i < len(seq):
                    return seq[i]
                if i < 0 and -i <= len(seq) and not any(
                        isinstance(x, Seg) for x in seq[i:]):
                    return seq[i]
            if it.op == "slice" and concrete and all(
                    a.op in ("num", "const") for a in it.args):
                s = slice(*[None if a is tm.NONE else int(a.args[0])
                            for a in it.args])
                r = list(seq)[s]
                return VTuple(r) if isinstance(v, VTuple) else self.lst(r)
            r = self.ext.item_term(self.term(v), it)
            # an unknown element of a concrete list of equal things
            return self.new(r)
        if isinstance(v, Ref) and isinstance(self.cell(v), Dct):
            c = self.cell(v)
            k = self.term(idx)
            if k in c.items:
                x = self.resolve(c.items[k])
                if not (isinstance(x, Choice) and self.has_absent(x)):
                    return x
            if c.base is None and all(tm.is_const(x) for x in c.items) \
                    and tm.is_const(k):
                self.risk(mk("item", self.term(v), k), node)
                self.raise_(None, node, "KeyError")
            t = self.ext.item_term(self.term(v), k)
            self.risk(t, node)
            return self.new(t)
        return self.ext.getitem(self, v, idx, node)

    def setitem(self, v, idx, val, node):
        v = self.resolve(v)
        if isinstance(v, Choice):
            self.lift(v, lambda x: self.setitem(x, idx, val, node)
                      or tm.NONE)
            return
        it = self.term(idx)
        if isinstance(v, InstDict):
            if it.op == "const":
                self.set_field(v.ref, it.args[0], val)
            return
        if isinstance(v, Ref):
            c = self.cell(v)
            self.event("setitem", "setitem", [v, idx, val], node=node)
            if isinstance(c, Lst):
                if it.op == "num" and not any(isinstance(x, Seg)
                                              for x in c.items):
                    xs = list(c.items)
                    i = int(it.args[0])
                    if -len(xs) <= i < len(xs):
                        xs[i] = val
                        self.st.heap[v.loc] = Lst(xs)
                        return
                self.st.heap[v.loc] = Lst([Seg(mk(
                    "setitem", self.term(v), it, self.term(val)))])
                return
            if isinstance(c, Dct):
                d = dict(c.items)
                d[it] = val
                self.st.heap[v.loc] = Dct(d, c.base)
                return
        elif isinstance(v, View):
            self.event("setitem", "setitem", [v, idx, val], node=node)
        else:
            self.event("setitem", "setitem", [v, idx, val], node=node)
            return
        old = self.term(v)
        try:
            self.store(v, self.ext.setitem_term(old, it, self.term(val)))
        except small.Bad as e:
            self.raise_(None, node, str(e))

    def store(self, v, term, part="all"):
        """Overwrite the contents of a mutable object."""
        v = self.resolve(v)
        if isinstance(v, Choice):
            old_a, old_b = self.term(v.a), self.term(v.b)
            self.store(v.a, tm.ite(v.cond, tm.assume(term, v.cond, True),
                                   old_a))
            self.store(v.b, tm.ite(v.cond, old_b,
                                   tm.assume(term, v.cond, False)))
            return
        if isinstance(v, Ref):
            c = self.cell(v)
            self.wrote(v, part)
            if isinstance(c, Arr):
                self.st.heap[v.loc] = Arr(term)
            elif isinstance(c, Lst):
                self.st.heap[v.loc] = Lst([Seg(term)])
            return
        if isinstance(v, View):
            base = self.term(v.base)
            if v.kind == "attr":
                nb = self.ext.with_attr(self, base, v.key, term)
            else:
                nb = self.ext.setitem_term(base, v.key, term)
            self.store(v.base, nb, v.key if v.key in ("mask", "data")
                       and v.kind == "attr" else part)

    # What may share its memory with what, and what was written to.  The
    # pixels and the flags of a masked array are parts of their own.

    def parts(self, v, part="all"):
        """{(cell, part)} behind a value."""
        v = self.resolve(v)
        if isinstance(v, Choice):
            return self.parts(v.a, part) | self.parts(v.b, part)
        if isinstance(v, View):
            if v.kind == "attr" and v.key in ("mask", "_mask", "data",
                                              "_data"):
                part = v.key.lstrip("_")
            return self.parts(v.base, part)
        if not isinstance(v, Ref):
            return set()
        return {(v.loc, p) for p in (("data", "mask") if part == "all"
                                     else (part,))}

    def share(self, v, base, mine="all", its="all"):
        """(That part of) v may be a view of (that part of) base."""
        for x, p in self.parts(v, mine):
            for y, q in self.parts(base, its):
                if (p == q or mine != "all") and x != y:
                    self.shares.setdefault((x, p), set()).add((y, q))

    def wrote(self, v, part="all"):
        where = self.ctxs[-1].qual if self.ctxs else "?"
        for x in self.parts(v, part):
            self.writes.append((x, where))

    def written(self, loc):
        """Where the contents of that cell may be written to."""
        out = []
        for x, w in self.writes:
            seen, todo = {x}, [x]
            while todo:
                for y in self.shares.get(todo.pop(), ()):
                    if y not in seen:
                        seen.add(y)
                        todo.append(y)
            if w not in out and any(y[0] == loc for y in seen):
                out.append(w)
        return out

    def mutate(self, v, term, node, how):
        """In-place change of an array: event + store."""
        self.event("inplace", how, [v, term], node=node)
        self.store(v, term)

    def list_extend(self, ref, rhs, node):
        items = self.iterate(rhs)
        self.event("inplace", "extend", [ref, rhs], node=node)
        c = self.cell(ref)
        if items is None:
            items = [Seg(self.term(rhs))]
        self.st.heap[ref.loc] = Lst(list(c.items) + list(items))

    # --------------------------------------------------------- iteration

    def iterate(self, v):
        """Concrete elements of a collection value, or None."""
        v = self.resolve(v)
        if isinstance(v, VTuple):
            seq = v.items
        elif isinstance(v, Ref) and isinstance(self.cell(v), Lst):
            seq = self.cell(v).items
        elif isinstance(v, Ref) and isinstance(self.cell(v), Dct):
            c = self.cell(v)
            if c.base is not None:
                return None
            return list(c.items)
        elif isinstance(v, Choice):
            a, b = self.iterate(v.a), self.iterate(v.b)
            if a is not None and b is not None and len(a) == len(b):
                return [x if same(x, y) else Choice(v.cond, x, y)
                        for x, y in zip(a, b)]
            return None
        else:
            return self.ext.iterate(self, v)
        if any(isinstance(x, Seg) for x in seq):
            return None
        return list(seq)

    # loop summaries are in loops.py
    def symbolic_loop(self, s, target, it, cond):
        from . import loops
        return loops.summarise(self, s, target, it, cond)

    # ------------------------------------------------------- expressions

    def cond(self, v):
        v = self.resolve(v)
        if isinstance(v, Choice):
            return tm.ite(v.cond, self.cond(v.a), self.cond(v.b))
        if isinstance(v, VTuple):
            return const(len(v.items) > 0)
        if isinstance(v, Ref):
            c = self.cell(v)
            if isinstance(c, Lst):
                if any(not isinstance(x, Seg) for x in c.items):
                    return tm.TRUE
                if not c.items:
                    return tm.FALSE
                return tm.lnot(tm.cmp_("eq", self.ext.len_(self, v),
                                       tm.ZERO))
            if isinstance(c, Dct):
                if c.items:
                    return tm.TRUE
                if c.base is None:
                    return tm.FALSE
                return mk("bool", c.base)
            if isinstance(c, Inst):
                return tm.TRUE
        if isinstance(v, (Fn, Bound, Cls, Mod, Ext, Partial, ExtMeth)):
            return tm.TRUE
        t = self.term(v)
        if t.op == "len":
            return tm.lnot(tm.cmp_("eq", t, tm.ZERO))
        return t

    def ev(self, n):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            self.note("expression %s" % type(n).__name__, n)
            return self.unk(type(n).__name__)
        return m(n)

    def e_Constant(self, n):
        try:
            return const(n.value)
        except TypeError:
            return self.unk("constant")

    def e_Name(self, n):
        return self.lookup(n.id, n)

    def e_Tuple(self, n):
        return VTuple(self.ev_args(n.elts))

    def e_List(self, n):
        return self.lst(self.ev_args(n.elts))

    def e_Set(self, n):
        return self.lst(self.ev_args(n.elts))

    def ev_args(self, elts):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                v = self.ev(e.value)
                items = self.iterate(v)
                if items is None:
                    if isinstance(v, VTuple) or (
                            isinstance(v, Ref)
                            and isinstance(self.cell(v), Lst)):
                        out.extend(v.items if isinstance(v, VTuple)
                                   else self.cell(v).items)
                    else:
                        out.append(Seg(self.term(v)))
                else:
                    out.extend(items)
            else:
                out.append(self.ev(e))
        return out

    def e_Dict(self, n):
        d, base = {}, None
        for k, v in zip(n.keys, n.values):
            if k is None:
                x = self.resolve(self.ev(v))
                if isinstance(x, Ref) and isinstance(self.cell(x), Dct):
                    c = self.cell(x)
                    if c.base is not None:
                        if base is None and not d:
                            base = c.base
                        else:
                            base = mk("dictmerge", *(
                                ([base] if base is not None else [])
                                + [p for kk, vv in d.items()
                                   for p in (kk, self.term(vv))]
                                + [c.base]))
                            d = {}
                    d.update(c.items)
                else:
                    t = self.term(x)
                    if base is None and not d:
                        base = t
                    else:
                        base = mk("dictmerge", *(
                            ([base] if base is not None else [])
                            + [p for kk, vv in d.items()
                               for p in (kk, self.term(vv))] + [t]))
                        d = {}
            else:
                d[self.term(self.ev(k))] = self.ev(v)
        return self.alloc(Dct(d, base))

    def e_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                x = self.ev(v.value)
                parts.append(self.ext.to_str(self.term(x), v))
        return self.ext.strcat(parts)

    def e_FormattedValue(self, n):
        return self.ev(n.value)

    def e_Attribute(self, n):
        base = self.ev(n.value)
        return self.getattr(base, self.mangle(n.attr), n)

    def e_Subscript(self, n):
        base = self.ev(n.value)
        return self.getitem(base, self.ev_index(n.slice), n)

    def ev_index(self, n):
        return self.ev(n)

    def e_Slice(self, n):
        return mk("slice", *[self.term(self.ev(x)) if x is not None
                             else tm.NONE
                             for x in (n.lower, n.upper, n.step)])

    def e_Index(self, n):
        return self.ev(n.value)

    def e_UnaryOp(self, n):
        v = self.ev(n.operand)
        o = type(n.op).__name__
        if o == "Not":
            return tm.lnot(self.cond(v))
        t = self.term(v)
        if o == "USub":
            return self.new(self.ext.neg(t))
        if o == "Invert":
            return self.new(self.ext.invert(t))
        return v

    def e_BinOp(self, n):
        a = self.ev(n.left)
        b = self.ev(n.right)
        return self.binop(type(n.op).__name__, a, b, n)

    def binop(self, op, a, b, node):
        a, b = self.resolve(a), self.resolve(b)
        if isinstance(a, Choice) and not isinstance(self.plain(a), T):
            pass
        return self.ext.binop(self, op, a, b)

    def plain(self, v):
        return self.term(v)

    def e_BoolOp(self, n):
        return self._boolop(isinstance(n.op, ast.And), n.values)

    def _boolop(self, is_and, values):
        v = self.ev(values[0])
        if len(values) == 1:
            return v
        c = self.cond(v)
        rest = lambda: self._boolop(is_and, values[1:])
        k = self.known(c)
        if k is not None:
            return rest() if k == is_and else v
        if is_and:
            r = self.branch(c, rest, lambda: v)
        else:
            r = self.branch(c, lambda: v, rest)
        # use as a condition: keep canonical and/or when both are booleans
        if isinstance(r, T) and r.op == "ite" and r.args[0] is c:
            x, y = r.args[1], r.args[2]
            if is_and and y is c:
                return tm.land(c, x) if self.boolish(x) else r
            if not is_and and x is c:
                return tm.lor(c, y) if self.boolish(y) else r
        if isinstance(r, T) and r.op == "ite" and c.op == "not" \
                and r.args[0] is c.args[0]:
            x, y = r.args[2], r.args[1]
            if is_and and y is c or y in (tm.FALSE,):
                return tm.land(c, x) if self.boolish(x) else r
            if not is_and and x is c or x in (tm.TRUE,):
                return tm.lor(c, y) if self.boolish(y) else r
        if isinstance(r, T) and r.op == "ite":
            if is_and and r.args[0] is c and r.args[2] is tm.FALSE:
                return tm.land(c, r.args[1])
            if not is_and and r.args[0] is c and r.args[1] is tm.TRUE:
                return tm.lor(c, r.args[2])
        return r

    def boolish(self, t):
        return t.op in ("not", "and", "lt", "le", "eq", "eq2", "is", "in",
                        "lt2", "le2", "hasattr", "isinstance", "any", "all",
                        "const", "fails", "bool", "callable", "ite")

    def e_Compare(self, n):
        left = self.ev(n.left)
        out = []
        for op, r in zip(n.ops, n.comparators):
            right = self.ev(r)
            if "scale" in self.config:
                left, right = self.config["scale"](left, right)
            out.append(self.ext.compare(self, type(op).__name__, left,
                                        right))
            left = right
        if len(out) == 1:
            return self.new(out[0])
        return tm.land(*out)

    def e_IfExp(self, n):
        c = self.cond(self.ev(n.test))
        return self.branch(c, lambda: self.ev(n.body),
                           lambda: self.ev(n.orelse))

    def e_NamedExpr(self, n):
        v = self.ev(n.value)
        self.assign(n.target, v, n)
        return v

    def e_Starred(self, n):
        return Seg(self.term(self.ev(n.value)))

    def e_Lambda(self, n):
        return self.mkfn(n, "<lambda>")

    def e_Await(self, n):
        return self.ev(n.value)

    def e_Yield(self, n):
        v = self.ev(n.value) if n.value is not None else tm.NONE
        y = self.ctx.yields
        if y is not None:
            c = self.cell(y)
            self.st.heap[y.loc] = Lst(list(c.items) + [v])
        return tm.NONE

    def e_YieldFrom(self, n):
        v = self.ev(n.value)
        self.list_extend(self.ctx.yields, v, n)
        return tm.NONE

    def e_ListComp(self, n):
        from . import loops
        return loops.comprehension(self, n, "list")

    e_GeneratorExp = e_ListComp
    e_SetComp = e_ListComp

    def e_DictComp(self, n):
        from . import loops
        return loops.comprehension(self, n, "dict")

    # -------------------------------------------------------------- calls

    def is_logging(self, n):
        f = n.func
        if isinstance(f, ast.Attribute) and f.attr in (
                "debug", "info", "warning", "error", "critical",
                "exception", "log") and isinstance(f.value, ast.Name):
            try:
                v = self.lookup(f.value.id, f)
            except Dead:
                return False
            if isinstance(v, Ext) and v.name == "logging":
                return True
            t = self.term(v) if isinstance(v, (Ref, T)) else None
            return t is not None and t.op == "call" and t.args[
                0].startswith("logging.")
        return isinstance(f, ast.Name) and f.id == "print"

    def e_Call(self, n):
        if self.is_logging(n):
            return tm.NONE
        if isinstance(n.func, ast.Name) and n.func.id == "super":
            if not n.args:
                return self.super_of(None, n)
            return self.super_of([self.ev(a) for a in n.args], n)
        f = self.ev(n.func)
        args = self.ev_args(n.args)
        kw = {}
        for k in n.keywords:
            v = self.ev(k.value)
            if k.arg is not None:
                kw[k.arg] = v
                continue
            v = self.resolve(v)
            if isinstance(v, Choice):
                v = self._dict_choice(v)
            if isinstance(v, Ref) and isinstance(self.cell(v), Dct):
                c = self.cell(v)
                for kk, vv in c.items.items():
                    if kk.op == "const":
                        kw[kk.args[0]] = vv
                if c.base is not None:
                    kw["**"] = c.base
            else:
                kw["**"] = self.term(v)
        return self.call(f, args, kw, n)

    def _dict_choice(self, v):
        """Merge a Choice of dicts with the same keys."""
        a, b = self.resolve(v.a), self.resolve(v.b)
        if isinstance(a, Choice):
            a = self._dict_choice(a)
        if isinstance(b, Choice):
            b = self._dict_choice(b)
        if (isinstance(a, Ref) and isinstance(b, Ref)
                and isinstance(self.cell(a), Dct)
                and isinstance(self.cell(b), Dct)):
            ca, cb = self.cell(a), self.cell(b)
            if ca.items.keys() == cb.items.keys() and ca.base is cb.base:
                return self.alloc(Dct(
                    {k: x if same(x, cb.items[k]) else
                     Choice(v.cond, x, cb.items[k])
                     for k, x in ca.items.items()}, ca.base))
        return v

    def super_of(self, args, n):
        if args:
            return Super(args[1], args[0])
        for c in reversed(self.ctxs):
            if c.cls is not None and c.fn is not None:
                first = (c.fn.node.args.posonlyargs + c.fn.node.args.args)
                return Super(self.st.envs[c.fid][first[0].arg], c.cls)
        raise Unsupported("super")

    def call(self, f, args, kw, node):
        f = self.resolve(f)
        if isinstance(f, Choice):
            return self.lift(f, lambda x: self.call(x, args, kw, node))
        if isinstance(f, Fn):
            return self.call_fn(f, args, kw, node)
        if isinstance(f, Bound):
            return self.call_fn(f.fn, [f.self_] + list(args), kw, node)
        if isinstance(f, Cls):
            return self.instantiate(f, args, kw, node)
        if isinstance(f, Partial):
            if f.tag == "decorated":
                # unknown decorator: the decorated function is still called
                self.note("unknown decorator %r" % (f.fn,), node)
                return self.call(f.args[0], args, kw, node)
            k = dict(f.kw)
            k.update(kw)
            return self.call(f.fn, list(f.args) + list(args), k, node)
        if isinstance(f, Static):
            return self.call(f.fn, args, kw, node)
        if isinstance(f, Ext):
            return self.ext.call(self, f.name, args, kw, node)
        if isinstance(f, ExtMeth):
            return self.ext.method(self, f.obj, f.name, args, kw, node)
        if isinstance(f, (View,)):
            if f.kind == "attr":
                return self.ext.method(self, f.base, f.key, args, kw, node)
        cls = self.inst_cls(f)
        if cls is not None:
            m = cls.find("__call__")
            if isinstance(m, Fn):
                return self.call_fn(m, [f] + list(args), kw, node)
        return self.ext.call_value(self, f, args, kw, node)

    def instantiate(self, cls, args, kw, node):
        cut = self.cuts.get("new:" + cls.name)
        if cut is not None:
            return cut(self, cls, args, kw, node)
        r = self.alloc(Inst(cls, {}))
        init = cls.find("__init__")
        self.event("new", cls.name, [a for a in args
                                     if not isinstance(a, Seg)],
                   {k: v for k, v in kw.items()}, node=node, extra=r)
        if isinstance(init, Fn):
            self.call_fn(init, [r] + list(args), kw, node)
        elif any(c.attrs_fields is not None for c in cls.mro()):
            fields = [f for c in reversed(cls.mro())
                      for f in (c.attrs_fields or [])]
            names = [n for n, _ in fields]
            for n, v in list(zip(names, args)) + list(kw.items()):
                self.set_field(r, n, v)
        else:
            if args:
                self.set_field(r, "args", VTuple(args))
        return r

    def call_fn(self, fn, args, kw, node):
        qual = (fn.mod.name + "." if fn.cls is None else "") + fn.qual
        cut = self.cuts.get(qual) or self.cuts.get("=" + qual)
        if cut is None and fn.cls is not None and args:
            k = self.inst_cls(args[0]) if not isinstance(args[0], Seg) \
                else None
            if k is not None:
                cut = self.cut_for(k, fn.name)
                if cut is not None and isinstance(k.find(fn.name), Prop):
                    cut = None
        if cut is not None:
            return cut(self, args, kw, node)
        if len(self.ctxs) > DEPTH or sum(
                1 for c in self.ctxs if c.fn is fn) > 3:
            self.note("recursion %s" % qual, node)
            return self.unk("recursion")
        self.functions_seen.add((fn.mod.path, fn.qual))
        self.nfid += 1
        fid = ("fn", self.nfid)
        env = {}
        self.bind(fn, args, kw, env, node)
        self.st.envs[fid] = env
        ctx = Ctx(fn, fid, fn.mod, fn.qual)
        if isinstance(fn.node, ast.Lambda):
            self.ctxs.append(ctx)
            try:
                return self.ev(fn.node.body)
            finally:
                self.ctxs.pop()
        depth = len(self.ctxs)
        self.ctxs.append(ctx)
        gen = is_generator(fn.node)
        if gen:
            ctx.yields = self.lst([])
        pre = self.st.pc
        try:
            self.exec_block(fn.node.body)
        finally:
            del self.ctxs[depth:]
        outs = []
        for st, v, s in ctx.returns:
            outs.append((st, v))
        if self.st is not None:
            outs.append((self.st, tm.NONE))
        if not outs:
            self.st = State()
            raise Dead()
        self.st, r = self.merge(outs)
        if not has_nested(fn.node):
            self.st.envs.pop(fid, None)
        if gen:
            return ctx.yields
        return r

    def bind(self, fn, args, kw, env, node):
        a = fn.node.args
        params = [p.arg for p in a.posonlyargs + a.args]
        args = list(args)
        kw = dict(kw)
        star = kw.pop("**", None)
        seg = any(isinstance(x, Seg) for x in args)
        if seg and len([x for x in args if not isinstance(x, Seg)]) == 0 \
                and a.vararg and not params:
            env[a.vararg.arg] = VTuple(args)
            args = []
        for i, p in enumerate(params):
            if i < len(args):
                if isinstance(args[i], Seg):
                    env[p] = self.new(mk("item", args[i].term,
                                         const(0)))
                else:
                    env[p] = args[i]
            elif p in kw:
                env[p] = kw.pop(p)
            else:
                j = i - (len(params) - len(fn.defaults))
                if j >= 0:
                    env[p] = fn.defaults[j]
                else:
                    if star is not None:
                        env[p] = self.new(mk("item", star, const(p)))
                    else:
                        self.event("badcall", fn.qual, [], node=node,
                                   extra="missing argument " + p)
                        self.raise_(None, node, "TypeError")
        if a.vararg and a.vararg.arg not in env:
            env[a.vararg.arg] = VTuple(args[len(params):])
        elif len(args) > len(params) and not a.vararg:
            self.event("badcall", fn.qual, [], node=node,
                       extra="too many arguments")
            self.raise_(None, node, "TypeError")
        for p in a.kwonlyargs:
            if p.arg in kw:
                env[p.arg] = kw.pop(p.arg)
            elif p.arg in fn.kwdefaults:
                env[p.arg] = fn.kwdefaults[p.arg]
            else:
                self.event("badcall", fn.qual, [], node=node,
                           extra="missing argument " + p.arg)
                self.raise_(None, node, "TypeError")
        if a.kwarg:
            env[a.kwarg.arg] = self.alloc(Dct(
                {const(k): v for k, v in kw.items()}, star))
        elif kw:
            self.event("badcall", fn.qual, [], node=node,
                       extra="unexpected argument %s" % sorted(kw))
            self.raise_(None, node, "TypeError")


class TryCollector(list):
    """Exceptional outcomes of the body of one try statement."""

    def __init__(self, interp, node):
        list.__init__(self)
        self.seen = False
        self.node = node
        names = []
        for h in node.handlers:
            names += interp.handler_names(h)
        self.types = ",".join(sorted(set(names)))


def is_generator(node):
    stack = list(node.body) if isinstance(node.body, list) else [node.body]
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))
    return False


_NESTED = {}


def has_nested(node):
    r = _NESTED.get(node)
    if r is None:
        r = any(isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef))
                for x in ast.walk(node) if x is not node)
        _NESTED[node] = r
    return r
