"""Summaries of loops and comprehensions over unknown collections.

A loop body is interpreted once over a generic iteration (index `bv`), with
everything it changes replaced by loop-carried symbols `lv`; the resulting
recurrences are then closed by shape: sums, mask unions, list appends,
element-wise stores, affine counters, last values.  What has no closed shape
stays an opaque fold.  Nothing is iterated.
"""

import ast

from . import terms as tm
from .terms import T, mk, const
from .values import *  # noqa


# ------------------------------------------------------ closed summary terms

def has_bv(t, level):
    b = mk("bv", level)
    return tm.contains(t, lambda x: x is b)


def sumover(level, n, body):
    if n is tm.ZERO or body is tm.ZERO:
        return tm.ZERO
    if body.op == "add":
        return tm.add(*[sumover(level, n, a) for a in body.args])
    if not has_bv(body, level):
        return tm.mul(n, body)
    if body.op == "mul":
        out, keep = mk("num", body.args[0]), tm.ONE
        for b, e in zip(body.args[1::2], body.args[2::2]):
            f = tm.pow_(b, mk("num", e))
            if has_bv(f, level):
                keep = tm.mul(keep, f)
            else:
                out = tm.mul(out, f)
        if out is not tm.ONE:
            if keep.op == "mul":
                return tm.mul(out, mk("sumover", level, n, keep))
            return tm.mul(out, sumover(level, n, keep))
    return mk("sumover", level, n, body)


def anyover(level, n, body):
    if not has_bv(body, level):
        return body
    if body.op == "mor":
        return tm.m_or(*[anyover(level, n, a) for a in body.args])
    return mk("anyover", level, n, body)


tm.CONSTRUCTORS["sumover"] = sumover
tm.CONSTRUCTORS["anyover"] = anyover


# ------------------------------------------------------------------ elements

def count(I, t):
    """Number of iterations over the iterable term t."""
    if t.op == "zip":
        ns = [count(I, a) for a in t.args]
        fixed = [n for n in ns if n.op == "num"]
        ns = list(dict.fromkeys(ns))
        return I.ext.minmax("min", ns)
    if t.op == "enumerate":
        return count(I, t.args[0])
    if t.op == "range":
        lo, hi, st = t.args
        if st is tm.ONE:
            return tm.sub(hi, lo)
        return mk("rangelen", lo, hi, st)
    if t.op == "arange":
        return tm.sub(t.args[1], t.args[0])
    if t.op in ("listmap", "flip", "sorted", "ravel"):
        pass
    return I.ext._len_term(t)


def element(I, t, bv):
    """Value of the bv-th element of the iterable term t."""
    if t.op == "zip":
        return VTuple([element(I, a, bv) for a in t.args])
    if t.op == "enumerate":
        return VTuple([tm.add(t.args[1], bv), element(I, t.args[0], bv)])
    if t.op == "range":
        return tm.add(t.args[0], tm.mul(bv, t.args[2]))
    if t.op == "arange":
        return tm.add(t.args[0], bv)
    if t.op == "listmap" and t.args[3] is tm.TRUE:
        return I.new(tm.subst(t.args[2], {mk("bv", t.args[0]): bv}))
    return wrap_elem(I, t, I.ext.item_term(t, bv))


def wrap_elem(I, coll, t):
    cls = I.config.get("elem_class", {}).get(coll)
    if cls is not None:
        c = next(v for k, v in I.classes.items() if k[1] == cls)
        return I.alloc(Inst(c, {}, t))
    return I.new(t)


# ------------------------------------------------------------------ summary

def lv_for(level, key, init):
    flag = ""
    if isinstance(init, T):
        from . import ext
        if ext.is_scalar(init):
            flag = "s"
        elif tm.is_real(init):
            flag = "r"
    name = "%s" % (key,)
    return mk("lv", level, name, flag)


def _key_of(I, k):
    """Readable and stable name of a changed slot."""
    if k[0] == "env":
        return k[2]
    if k[0] == "field":
        return "." + k[2]
    return "heap%d" % k[1]


def diff(a, b, base_locs, base_fids):
    out = []
    for fid in base_fids:
        ea, eb = a.envs.get(fid, {}), b.envs.get(fid, {})
        for n in eb:
            if n not in ea or not same(ea[n], eb[n]):
                out.append(("env", fid, n))
        for n in ea:
            if n not in eb:
                out.append(("env", fid, n))
    for loc in base_locs:
        ca, cb = a.heap.get(loc), b.heap.get(loc)
        if cb is None or cell_same(ca, cb):
            continue
        if isinstance(ca, Inst) and isinstance(cb, Inst):
            for f in cb.fields:
                if f not in ca.fields or not same(ca.fields[f],
                                                  cb.fields[f]):
                    out.append(("field", loc, f))
        else:
            out.append(("cell", loc, None))
    return out


class Pass(object):
    pass


def run_body(I, pre, changed, level, s, target, itv, quiet):
    """One generic iteration; returns its outcome."""
    p = Pass()
    st = pre.copy()
    st.pc = pre.pc
    I.st = st
    bv = mk("bv", level)
    p.lvs = {}
    p.inits = {}
    for k in changed:
        init = slot_value(I, pre, k)
        it = init_term(I, pre, init)
        lv = lv_for(level, _key_of(I, k), it)
        p.lvs[k] = lv
        p.inits[k] = (init, it)
        set_lv(I, k, init, lv)
    entry = I.st.copy()
    p.entry = entry
    brk, cont = [], []
    I.ctx.loops.append((brk, cont))
    nret = len(I.ctx.returns)
    ncol = [len(c) for c in I.collectors]
    nev = len(I.events)
    if quiet:
        I.quiet += 1
    I.looplevel += 1
    depth = len(I.ctxs)
    try:
        try:
            if target is not None:
                I.assign(target, element(I, itv, bv), s)
            else:
                c = I.cond(I.ev(s.test))
                p.cond = c
                if I.known(c) is None:
                    I.st.pc = I.st.pc + ((c, True),)
            p.start = I.st.copy() if I.st is not None else None
            I.exec_block(s.body)
        except Dead:
            I.st = None
    finally:
        I.looplevel -= 1
        del I.ctxs[depth:]
        I.ctx.loops.pop()
        if quiet:
            I.quiet -= 1
    p.brk = brk
    p.returns = I.ctx.returns[nret:]
    del I.ctx.returns[nret:]
    p.raised = []
    for c, n in zip(I.collectors, ncol):
        p.raised.append(c[n:])
        del c[n:]
    p.events = I.events[nev:]
    outs = [(x, None) for x in cont]
    if I.st is not None:
        outs.append((I.st, None))
    p.normal_pcs = [o[0].pc for o in outs]
    I.st, _ = I.merge(outs)
    p.end = I.st
    return p


def slot_value(I, st, k):
    if k[0] == "env":
        return st.envs.get(k[1], {}).get(k[2], ABSENT)
    c = st.heap.get(k[1])
    if k[0] == "field":
        return c.fields.get(k[2], ABSENT)
    return c


def init_term(I, st, v):
    saved, I.st = I.st, st
    try:
        if isinstance(v, (Arr,)):
            return v.term
        if isinstance(v, (Lst, Dct)):
            r = Ref(-1)
            st.heap[-1] = v
            try:
                return I.term(r)
            finally:
                del st.heap[-1]
        if v is ABSENT:
            return mk("absent")
        if isinstance(v, Inst):
            return mk("inst", v.cls.name)
        try:
            return I.term(v)
        except TypeError:
            return mk("unk", "init")
    finally:
        I.st = saved


def set_lv(I, k, init, lv):
    if k[0] == "cell":
        if isinstance(init, Lst):
            I.st.heap[k[1]] = Lst([Seg(lv)])
        elif isinstance(init, Dct):
            I.st.heap[k[1]] = Dct({}, lv)
        else:
            I.st.heap[k[1]] = Arr(lv)
        return
    if init is ABSENT:
        v = ABSENT
    elif isinstance(init, VTuple):
        v = VTuple([I.new(mk("item", lv, const(i)))
                    for i in range(len(init.items))])
    elif isinstance(init, T):
        v = lv
    elif isinstance(init, Ref) and isinstance(
            I.st.heap.get(init.loc), Lst):
        v = I.lst([Seg(lv)])
    elif isinstance(init, Ref) and isinstance(
            I.st.heap.get(init.loc), Inst):
        c = I.st.heap[init.loc]
        v = I.alloc(Inst(c.cls, {}, lv))
    else:
        v = I.alloc(Arr(lv))
    if k[0] == "env":
        I.st.envs[k[1]][k[2]] = v
    else:
        c = I.st.heap[k[1]]
        f = dict(c.fields)
        f[k[2]] = v
        I.st.heap[k[1]] = Inst(c.cls, f, c.sym)


def strip_item(t, lv):
    return t


def summarise(I, s, target, it, cond):
    level = I.looplevel + 1
    itv = None
    if target is not None:
        itv = I.term(it)
        n = count(I, itv)
    else:
        n = None
    pre = I.st
    base_locs = list(pre.heap)
    base_fids = list(pre.envs)
    changed = []
    for _ in range(6):
        st0 = pre.copy()
        p = run_body(I, st0, changed, level, s, target, itv, True)
        ends = [e for e in [p.end] + p.brk if e is not None]
        new = []
        for e in ends:
            for k in diff(p.entry, e, base_locs, base_fids):
                if k not in changed and k not in new:
                    new.append(k)
        if not new:
            break
        changed += new
    else:
        I.note("loop did not stabilise", s)
    tnames = set()
    if target is not None:
        tnames = {x.id for x in ast.walk(target) if isinstance(x, ast.Name)}
    st0 = pre.copy()
    nev = len(I.events)
    p = run_body(I, st0, changed, level, s, target, itv, False)
    if n is None:
        n = mk("whilecount", level, p.cond)
    # leave through returns and exceptions of the body
    npc = len(pre.pc)
    exits = []
    for lst in p.raised:
        pass
    for c, lst in zip(I.collectors, p.raised):
        c.extend(lst)
    for st, v, node in p.returns:
        cc = tm.land(*[x if q else tm.lnot(x) for x, q in st.pc[npc:]])
        cc = mk("exists", level, n, cc)
        st.pc = pre.pc + ((cc, True),)
        exits.append(cc)
        I.ctx.returns.append((st, v, node))
    if p.end is None and not p.brk:
        I.st = pre.copy()
        if exits:
            I.st.pc = pre.pc + tuple((c, False) for c in exits)
        if s.orelse:
            I.exec_block(s.orelse)
        return
    end = p.end if p.end is not None else p.brk[0]
    # recurrences
    rec = {}
    I.st = end
    for k in changed:
        rec[k] = init_term(I, end, slot_value(I, end, k))
    lvs = p.lvs
    lvset = set(lvs.values())
    sub = {}
    simple = not p.brk
    # affine counters
    bv = mk("bv", level)
    if simple:
        for k in changed:
            lv, f, init = lvs[k], rec[k], p.inits[k][1]
            if init.op == "absent":
                continue
            g = tm.sub(f, lv) if k[0] == "env" else None
            if g is not None and not tm.contains(
                    g, lambda x: x in lvset or x is bv) and \
                    I.ext.is_scalar(init):
                sub[lv] = tm.add(init, tm.mul(bv, g))
    if sub:
        for k in changed:
            rec[k] = tm.subst(rec[k], sub)
        for e in I.events[nev:]:
            e.args = [tm.subst(a, sub) for a in e.args]
            e.kw = {kk: tm.subst(a, sub) for kk, a in e.kw.items()}
            if isinstance(e.res, T):
                e.res = tm.subst(e.res, sub)
            e.pc = tuple((tm.subst(c, sub), q) for c, q in e.pc)
    post = pre.copy()
    # heap cells made by the last iteration stay reachable
    for loc, c in end.heap.items():
        if loc not in post.heap:
            post.heap[loc] = c
    for fid, e in end.envs.items():
        if fid not in post.envs:
            post.envs[fid] = e
    post.pc = pre.pc + tuple((c, False) for c in exits)
    I.st = post
    info = (level, n, lvs, lvset, sub)
    for k in changed:
        close(I, k, p, rec[k], info, end, s, target is None)
    if target is None and not p.brk:
        # the test fails on the way out
        outc = I.cond(I.ev(s.test))
        if I.known(outc) is None:
            I.st.pc = I.st.pc + ((outc, False),)
    if s.orelse:
        I.exec_block(s.orelse)


def close(I, k, p, f, info, end, s, is_while):
    """Value of slot k after the loop."""
    level, n, lvs, lvset, sub = info
    lv = lvs[k]
    init, it = p.inits[k]
    others = lambda t: tm.contains(t, lambda x: x in lvset)
    endv = slot_value(I, end, k)
    r = None
    if not p.brk and not is_while:
        if lv in sub:
            g = tm.subst(sub[lv], {mk("bv", level): n})
            r = g
        elif it.op == "absent":
            if not others(f):
                r = mk("lastof", level, n, f)
        elif isinstance(endv, Lst) or (
                isinstance(endv, Ref) and isinstance(
                    end.heap.get(endv.loc), Lst)
                and k[0] != "cell" and False):
            xs = list(endv.items)
            if xs and isinstance(xs[0], Seg) and xs[0].term is lv:
                segs = []
                saved, I.st = I.st, end
                tail = [I.term(x) if not isinstance(x, Seg) else x.term
                        for x in xs[1:]]
                kinds = [isinstance(x, Seg) for x in xs[1:]]
                I.st = saved
                tail = [tm.subst(t, sub) for t in tail]
                if not any(others(t) for t in tail):
                    if len(tail) == 1 and not kinds[0]:
                        segs = [Seg(mk("listmap", level, n, tail[0],
                                       tm.TRUE))]
                    elif len(tail) == 1 and tail[0].op == "ite":
                        c, a, b = tail[0].args
                        if a.op == "list" and b.op == "list" and len(
                                a.args) + len(b.args) == 1:
                            body = (a.args or b.args)[0]
                            segs = [Seg(mk("listmap", level, n, body,
                                           c if a.args else tm.lnot(c)))]
                    if not segs:
                        segs = [Seg(mk("flatmap", level, n,
                                       mk("list", *tail)))]
                    items = list(init.items) if isinstance(init, Lst) \
                        else []
                    I.st.heap[k[1]] = Lst(items + segs)
                    return
        if r is None and f is lv:
            r = it
        if r is None and it.op != "absent":
            r = closed(level, n, lv, it, f, others)
    if r is None:
        op = "whileout" if is_while else ("breakfold" if p.brk else "fold")
        extra = []
        if is_while:
            extra = [tm.subst(p.cond, sub)]
        if p.brk:
            npc = len(p.entry.pc)
            extra.append(tm.lor(*[tm.land(
                *[x if q else tm.lnot(x) for x, q in b.pc[npc:]])
                for b in p.brk]))
        r = mk(op, level, n, lv, it, f, *extra)
    put(I, k, init, endv, r)


def closed(level, n, lv, it, f, others):
    """Solve x' = f(x) for the usual shapes."""
    if not others(f):
        return mk("lastof", level, n, f, it)
    if f.op == "add" or (f.op == "mul" and lv in f.args[1::2]):
        g = tm.sub(f, lv)
        if not others(g):
            return tm.add(it, sumover(level, n, g))
    if f.op == "mor" and lv in f.args:
        g = tm.m_or(*[a for a in f.args if a is not lv])
        if not others(g):
            return tm.m_or(it, anyover(level, n, g))
    if f.op == "ite" and lv in f.args[1:]:
        c = f.args[0]
        other = f.args[2] if f.args[1] is lv else f.args[1]
        if f.args[1] is lv:
            c = tm.lnot(c)
        if not others(c):
            if other.op == "setitem" and other.args[0] is lv \
                    and not others(other.args[1]) \
                    and not others(other.args[2]):
                return mk("scatter", level, n, it, other.args[1],
                          other.args[2], c)
            g = tm.sub(other, lv)
            if not others(g):
                return tm.add(it, sumover(level, n, tm.ite(c, g, tm.ZERO)))
    if f.op == "setitem":
        # a chain of stores over the carried array
        chain = []
        t = f
        while t.op == "setitem":
            chain.append((t.args[1], t.args[2]))
            t = t.args[0]
        if t is lv and not any(others(a) or others(b) for a, b in chain):
            r = it
            for i, v in reversed(chain):
                r = mk("scatter", level, n, r, i, v, tm.TRUE)
            return r
    # nested gates around stores:  ite(c, ite(d, set, lv), lv)
    g = gate_store(f, lv, others)
    if g is not None:
        c, i, v = g
        return mk("scatter", level, n, it, i, v, c)
    return None


def gate_store(f, lv, others):
    if f.op == "setitem" and f.args[0] is lv:
        if others(f.args[1]) or others(f.args[2]):
            return None
        return (tm.TRUE, f.args[1], f.args[2])
    if f.op == "ite" and not others(f.args[0]):
        if f.args[2] is lv:
            g = gate_store(f.args[1], lv, others)
            return None if g is None else (
                tm.land(f.args[0], g[0]), g[1], g[2])
        if f.args[1] is lv:
            g = gate_store(f.args[2], lv, others)
            return None if g is None else (
                tm.land(tm.lnot(f.args[0]), g[0]), g[1], g[2])
    return None


def put(I, k, init, endv, r):
    if k[0] == "cell":
        if isinstance(init, Lst):
            I.st.heap[k[1]] = Lst([Seg(r)])
        elif isinstance(init, Dct):
            I.st.heap[k[1]] = Dct({}, r)
        elif isinstance(init, Inst):
            pass
        else:
            I.st.heap[k[1]] = Arr(r)
        return
    if isinstance(endv, Ref) and isinstance(init, Ref) and isinstance(
            I.st.heap.get(init.loc), Lst):
        v = I.lst([Seg(r)])
    elif isinstance(endv, Ref) and isinstance(
            I.st.heap.get(endv.loc), Inst):
        v = I.alloc(Inst(I.st.heap[endv.loc].cls, {}, r))
    elif isinstance(endv, VTuple):
        v = VTuple([I.new(I.ext.item_term(r, const(i)))
                    for i in range(len(endv.items))])
    elif isinstance(endv, (Fn, Bound, Cls, Ext, Mod, Partial)):
        v = endv
    else:
        v = I.new(r)
    if k[0] == "env":
        I.st.envs[k[1]][k[2]] = v
    else:
        c = I.st.heap[k[1]]
        fl = dict(c.fields)
        fl[k[2]] = v
        I.st.heap[k[1]] = Inst(c.cls, fl, c.sym)


# ------------------------------------------------------------ comprehensions

def comprehension(I, n, kind):
    names = set()
    for g in n.generators:
        names |= {x.id for x in ast.walk(g.target)
                  if isinstance(x, ast.Name)}
    env = I.st.envs[I.ctx.fid]
    saved = {x: env[x] for x in names if x in env}
    out = []
    pairs = []

    def rec(i):
        """Items produced by generators i.. (a list of values / Segs)."""
        if i == len(n.generators):
            if kind == "dict":
                return [VTuple([I.ev(n.key), I.ev(n.value)])]
            return [I.ev(n.elt)]
        g = n.generators[i]
        itv = I.ev(g.iter)
        items = I.iterate(itv)
        if items is not None and len(items) <= 64:
            res = []
            for x in items:
                I.assign(g.target, x, n)
                res += filt(g.ifs, lambda: rec(i + 1))
            return res
        level = I.looplevel + 1
        it = I.term(itv)
        cnt = count(I, it)
        I.looplevel += 1
        pre = I.st.pc
        try:
            I.assign(g.target, element(I, it, mk("bv", level)), n)
            c = tm.TRUE
            for t in g.ifs:
                c = tm.land(c, I.cond(I.ev(t)))
            if c is not tm.TRUE and I.known(c) is None:
                I.st.pc = I.st.pc + ((c, True),)
            inner = rec(i + 1)
        finally:
            I.looplevel -= 1
        I.st.pc = pre
        if len(inner) == 1 and not isinstance(inner[0], Seg):
            return [Seg(mk("listmap", level, cnt, I.term(inner[0]), c))]
        body = mk("list", *[I.term(x) if not isinstance(x, Seg) else
                            mk("splice", x.term) for x in inner])
        return [Seg(mk("flatmap", level, cnt, body, c))]

    def filt(ifs, f):
        if not ifs:
            return f()
        c = I.cond(I.ev(ifs[0]))
        k = I.known(c)
        if k is True:
            return filt(ifs[1:], f)
        if k is False:
            return []
        pre = I.st.pc
        I.st.pc = pre + ((c, True),)
        r = filt(ifs[1:], f)
        I.st.pc = pre
        t = mk("list", *[I.term(x) for x in r])
        return [Seg(tm.ite(c, t, mk("list")))]

    res = rec(0)
    env = I.st.envs[I.ctx.fid]
    for x in names:
        env.pop(x, None)
    env.update(saved)
    if kind == "dict":
        if any(isinstance(x, Seg) for x in res):
            return I.new(mk("dictmap", *[x.term if isinstance(x, Seg) else
                                         I.term(x) for x in res]))
        return I.alloc(Dct({I.term(x.items[0]): x.items[1] for x in res}))
    return I.lst(res)


def symbolic_map(I, f, iters, node):
    level = I.looplevel + 1
    its = [I.term(a) for a in iters]
    it = mk("zip", *its) if len(its) > 1 else its[0]
    n = count(I, it)
    I.looplevel += 1
    pre = I.st.pc
    try:
        x = element(I, it, mk("bv", level))
        r = I.call(f, list(x.items) if len(its) > 1 else [x], {}, node)
        t = I.term(r)
    finally:
        I.looplevel -= 1
    I.st.pc = pre
    return I.lst([Seg(mk("listmap", level, n, t, tm.TRUE))])
