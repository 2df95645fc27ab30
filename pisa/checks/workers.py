"""What the workers of a coaddition write is their own (P33)."""

from .common import *  # noqa
from ..values import (Inst, Arr, Lst, Dct, Ref, VTuple, View, Choice, Fn,
                      Bound, Partial, Cls, Mod, cell_same, same)
from . import coadd, components

RULE = "a worker writes only to its own images and arrays"


def reachable(heap, envs, v, own=False):
    """Cells that can be reached from a value."""
    seen, todo = set(), [v]
    done = set()
    while todo:
        x = todo.pop()
        if isinstance(x, Ref):
            if x.loc in seen or x.loc not in heap:
                continue
            seen.add(x.loc)
            c = heap[x.loc]
            if isinstance(c, Lst):
                todo += list(c.items)
            elif isinstance(c, (Dct,)):
                todo += list(c.items.values())
            elif isinstance(c, Inst):
                todo += list(c.fields.values())
        elif isinstance(x, VTuple):
            todo += list(x.items)
        elif isinstance(x, View):
            todo.append(x.base)
        elif isinstance(x, Choice):
            todo += [x.a, x.b]
        elif isinstance(x, Bound):
            todo.append(x.self_)
        elif isinstance(x, Partial):
            todo += list(x.args) + list(x.kw.values())
        elif isinstance(x, (list, tuple)):
            todo += list(x)
        elif isinstance(x, dict):
            todo += list(x.values())
        done.add(id(x))
    return seen


def slots(a, b):
    """Items of a list or dictionary set to something else, or None."""
    if isinstance(a, Lst) and isinstance(b, Lst) and len(a.items) == len(
            b.items):
        return {i for i, (x, y) in enumerate(zip(a.items, b.items))
                if not same(x, y)}
    if isinstance(a, Dct) and isinstance(b, Dct) and a.base is b.base:
        ks = set(a.items) | set(b.items)
        return {k for k in ks if k not in a.items or k not in b.items
                or not same(a.items[k], b.items[k])}
    return None


def spread(I, writes):
    """Cells the contents of which those writes may reach."""
    out = {}
    for x, w in writes:
        seen, todo = {x}, [x]
        while todo:
            for y in I.shares.get(todo.pop(), ()):
                if y not in seen:
                    seen.add(y)
                    todo.append(y)
        for y in seen:
            out.setdefault(y[0], w)
    return out


def locked(I, events):
    return any(e.kind == "with" or (e.kind == "call" and "ock" in e.name)
               for e in events)


def changes(I, task):
    """{cell: where} existing before a task that it writes to."""
    x, before, after, writes, events = task
    out = {}
    for loc, c in before.heap.items():
        d = after.heap.get(loc)
        if d is not None and not cell_same(c, d):
            out[loc] = "contents"
    for loc, w in spread(I, writes).items():
        if loc in before.heap:
            out.setdefault(loc, w)
    return out


def name_cell(heap, loc):
    c = heap[loc]
    if isinstance(c, Inst):
        return "image %s" % (tm.show(c.sym) if c.sym is not None
                             else c.cls.name)
    if isinstance(c, Arr):
        return "array %s" % tm.show(c.term)[:80]
    return "list" if isinstance(c, Lst) else "dictionary"


def check_run(chk, I, label, n):
    tasks = vars(I).get("tasks", [])
    if not tasks:
        return chk.require(None if n > 1 else True, RULE, label,
                           "no parallel tasks seen")
    args = []
    for t in tasks:
        x = t[0]
        args.append(reachable(t[1].heap, t[1].envs,
                              list(x.args) + list(x.kw.values())))
    touched = {}
    for i, t in enumerate(tasks):
        x, before, after, writes, events = t
        lock = locked(I, events)
        bad = []
        for loc, w in changes(I, t).items():
            mine = loc in args[i]
            others = any(loc in a for j, a in enumerate(args) if j != i)
            if mine and not others:
                continue
            sl = slots(before.heap[loc], after.heap[loc])
            if sl:
                if not touched.get(loc, set()) & sl:
                    touched.setdefault(loc, set()).update(sl)
                    continue
            bad.append("%s, %s (%s)" % (
                name_cell(before.heap, loc), w,
                "also given to another worker" if mine else
                "not its own"))
        for e in events:
            if e.kind == "globalwrite":
                bad.append("module variable %s" % e.name)
            elif e.kind == "setattr" and e.vals and isinstance(
                    e.vals[0], (Cls, Mod)):
                bad.append("attribute %s of a class or module" % e.name)
        for fid, env in before.envs.items():
            new = after.envs.get(fid)
            if new is None or isinstance(fid, tuple):
                continue        # gone, or a module (see globalwrite)
            ks = [k for k in env if k in new and not same(env[k], new[k])]
            if ks:
                bad.append("variable %s of the caller" % ks[0])
        chk.require(True if not bad else None if lock else False, RULE,
                    "%s, worker %d" % (label, i), "; ".join(bad[:3]))


def run_coadd(chk, k, n, deep):
    """deep: the products of an image are computed, not taken as given."""
    cuts = coadd.coadd_cuts()
    label = "coadd(%d images, n_procs=%d)%s" % (
        k, n, "" if deep is None else ", products of %s" % (
            "%d components" % deep if deep else "one constant PSF"))
    if deep is not None:
        inner = components.comp_cuts(deep)
        for c in ("SingleImage.s_hat_comp", "SingleImage.psf_hat_sqnorm",
                  "SingleImage.get_variable_psf",
                  "SingleImage._setup_kl_basis"):
            cuts.pop(c, None)
        for c in ("SingleImage.get_variable_psf", "SingleImage.kl_basis",
                  "SingleImage.kl_afields"):
            cuts[c] = inner[c]
    s = chk.session(cuts, {"known": components.fields_exist}).cold()
    I = s.I
    f = s.function("operations", "coadd")
    imgs = [image(I, "im%d" % i) for i in range(k)]
    o = run(I, f, [I.lst(list(imgs))], {
        "align": tm.FALSE, "n_procs": const(n)})
    chk.done(s)
    if o.dead:
        return chk.require(None, RULE, label, "no result")
    check_run(chk, I, label, n)


def check_workers(chk):
    for k, n in ((2, 2), (3, 2), (4, 2), (4, 3)) + (
            ((5, 2), (5, 4), (6, 3)) if chk.thorough else ()):
        run_coadd(chk, k, n, None)
    for k, n, c in ((2, 2, 0), (3, 2, 2)) + (
            ((4, 2, 3), (4, 3, 0)) if chk.thorough else ()):
        run_coadd(chk, k, n, c)
