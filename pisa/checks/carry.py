"""Nothing is carried over from one call to the next (P34)."""

import ast

from .common import *  # noqa
from ..values import (Inst, Arr, Lst, Dct, Ref, Fn, Cls, Mod, Prop, Static,
                      Partial, Ext, cell_same, same)
from .. import ext
from . import (effects, sources, stamps, kl, components, cache, plots,
               simulate, tools, catalog, frame, files, workers)

KEPT = "what the process holds is left as it was"
SETTING = "settings of the process are left as they were"
UNSEEN = "code no run reaches"

# Setters nothing gives the old value back for.
SETTERS = {
    "warnings.filterwarnings", "warnings.simplefilter",
    "warnings.resetwarnings", "logging.basicConfig", "logging.disable",
    "logging.captureWarnings", "logging.setLoggerClass",
    "matplotlib.rc", "matplotlib.pyplot.rc", "matplotlib.rcdefaults",
    "matplotlib.pyplot.rcdefaults", "matplotlib.use", "matplotlib.style.use",
    "matplotlib.pyplot.style.use", "matplotlib.pyplot.switch_backend",
    "matplotlib.pyplot.ion", "matplotlib.pyplot.ioff",
    "matplotlib.pyplot.set_cmap", "matplotlib.pyplot.xkcd",
    "numpy.random.seed", "numpy.random.set_state", "random.seed",
    "random.setstate", "numpy.set_printoptions", "numpy.seterrcall",
    "numpy.setbufsize", "os.putenv", "os.unsetenv", "os.umask",
    "os.nice", "locale.setlocale", "gc.disable", "gc.enable", "gc.freeze",
    "signal.signal", "sys.settrace", "sys.setprofile",
    "socket.setdefaulttimeout", "time.tzset", "threading.stack_size",
    "decimal.setcontext", "faulthandler.enable", "atexit.register",
    "pyfftw.interfaces.cache.enable", "pyfftw.interfaces.cache.disable",
    "pyfftw.interfaces.cache.set_keepalive_time", "pyfftw.forget_wisdom",
    "pyfftw.import_wisdom", "scipy.fft.set_global_backend",
    "scipy.fft.register_backend", "scipy.special.seterr",
    "joblib.parallel.register_parallel_backend",
}
UPDATES = {"update", "setdefault", "pop", "clear", "append", "extend",
           "insert", "remove", "popitem", "add", "discard", "setLevel",
           "addHandler", "removeHandler", "addFilter", "reset"}
WITHIN = {"catch_warnings", "rc_context", "printoptions", "context",
          "errstate", "parallel_backend", "parallel_config"}
# What of a library is an object of its own and no state of the process.
FRESH = {"matplotlib.pyplot.gca", "matplotlib.pyplot.gcf"}


def setter(name):
    c = ext.CANON.get(name, name)
    return next((n for n in (name, c) if n in SETTERS), None)


def places(I):
    """{cell: label} and {(owner, name): value} held by the package."""
    cells, slots = {}, {}
    todo, seen = [], set()
    for m in I.mods.values():
        for k, v in I.st.envs.get(m.fid, {}).items():
            slots[m.fid, k] = v
            todo.append((v, "%s.%s" % (m.name.split(".")[-1], k)))
    while todo:
        v, how = todo.pop()
        if id(v) in seen:
            continue
        seen.add(id(v))
        if isinstance(v, Fn):
            for d in list(v.defaults) + list(v.kwdefaults.values()):
                todo.append((d, "default of %s" % v.qual))
            for fid in v.chain:
                if isinstance(fid, tuple) and fid[0] == "fn":
                    for k, x in I.st.envs.get(fid, {}).items():
                        todo.append((x, "%s of %s" % (k, v.qual)))
        elif isinstance(v, Prop):
            todo += [(x, how) for x in (v.fget, v.fset, v.fdel)
                     if x is not None]
        elif isinstance(v, Static):
            todo.append((v.fn, how))
        elif isinstance(v, Partial):
            todo += [(x, how) for x in list(v.args) + list(v.kw.values())]
        elif isinstance(v, Cls):
            for k, x in v.members.items():
                slots[v.name, k] = x
                todo.append((x, "%s.%s" % (v.name, k)))
        elif isinstance(v, VTuple):
            todo += [(x, how) for x in v.items]
        elif isinstance(v, Ref) and v.loc in I.st.heap:
            if v.loc in cells:
                continue
            cells[v.loc] = how
            c = I.st.heap[v.loc]
            if isinstance(c, Lst):
                todo += [(x, how) for x in c.items]
            elif isinstance(c, Dct):
                todo += [(x, how) for x in c.items.values()]
            elif isinstance(c, Inst):
                todo += [(x, how) for x in c.fields.values()]
    return cells, slots


# Runs of one kind in a row that reach no further function.
LIMITS = {files.check_files: 3, components.check_components: 60,
          simulate.check_simulated: 6}


class Settled(effects.Audit):
    """Looks at what is left once the runs of a session are over."""

    LIMIT, grown, known = 16, 0, 0

    def session(self, cuts=None, config=None):
        if self.n - self.grown >= self.LIMIT and not self.outer.thorough:
            raise self.Enough       # the last ones reached nothing new
        s = effects.Audit.session(self, cuts, config)
        for m in modules(self.repo):
            s.I.load(m)
        cells, slots = places(s.I)
        s.before = (cells, slots, {k: s.I.st.heap[k] for k in cells})
        return s

    def done(self, s):
        self.n += 1
        self.outer.done(s)
        if len(self.outer.functions) > self.known:
            self.known, self.grown = len(self.outer.functions), self.n
        look(self.outer, s, "%s run %d" % (self.group, self.n))


def modules(repo):
    import os
    top = os.path.join(repo, "properimage")
    return ["properimage"] + sorted(
        "properimage." + f[:-3] for f in os.listdir(top)
        if f.endswith(".py") and not f.startswith("_"))


def scoped(e, repo, memo={}):
    """The setting is undone at the end of a with block around it."""
    import os
    p = os.path.join(repo, e.mod) if not os.path.isabs(e.mod) else e.mod
    if p not in memo:
        try:
            memo[p] = ast.parse(open(p, encoding="utf8").read())
        except (OSError, SyntaxError):
            memo[p] = ast.Module([], [])
    for w in ast.walk(memo[p]):
        if isinstance(w, ast.With) and w.lineno <= e.line <= w.end_lineno:
            for i in w.items:
                f = i.context_expr
                f = f.func if isinstance(f, ast.Call) else f
                if getattr(f, "attr", getattr(f, "id", "")) in WITHIN:
                    return True
    return False


def outside(v):
    """An object of the package or of a library that outlives the call."""
    if isinstance(v, Mod):
        return "module %s" % v.name
    if isinstance(v, Cls):
        return "class %s" % v.name
    if isinstance(v, Ext):
        return v.name
    if isinstance(v, Fn):
        return "function %s" % v.qual
    if isinstance(v, T) and v.op in ("class", "type"):
        return "a class"
    return None


def logger_(t):
    return isinstance(t, T) and t.op == "call" and str(t.args[0]).endswith(
        ("logging.getLogger", ".getLogger"))


def trace(chk, I):
    """[(where, what)] of the writes that outlive a call."""
    out = []
    for e in I.events:
        if e.fn == "<driver>" or not e.stack and not e.fn:
            continue
        if e.fn in (None, "<module>"):
            continue
        if e.kind == "globalwrite":
            out.append((e.where(), "module variable %s is set" % e.name))
        elif e.kind in ("setattr", "setitem", "delitem") and e.vals:
            w = outside(e.vals[0])
            if w is not None and not scoped(e, chk.repo):
                out.append((e.where(), "%s of %s is set" % (
                    e.name if e.kind == "setattr" else "an entry", w)))
            elif e.kind == "setattr" and logger_(e.args[0] if e.args
                                                 else None):
                out.append((e.where(), "a logger is changed"))
        elif e.kind == "call":
            n = setter(e.name)
            if n is not None and not scoped(e, chk.repo):
                out.append((e.where(), "%s is called" % n))
            elif e.name.startswith(".") and e.name[1:] in UPDATES and \
                    e.args and logger_(e.args[0]):
                out.append((e.where(), "a logger is changed (%s)" % e.name))
            else:
                base, _, last = e.name.rpartition(".")
                if last in UPDATES and base.rpartition(".")[2] in (
                        "rcParams", "environ", "path", "modules", "conf",
                        "config", "rcParamsDefault") and not scoped(
                            e, chk.repo):
                    out.append((e.where(), "%s is called" % e.name))
    return out


def look(chk, s, label):
    I = s.I
    before = getattr(s, "before", None)
    if before is None:
        return
    cells, slots, heap = before
    bad = {}
    for w, what in trace(chk, I):
        bad.setdefault((what, w), KEPT)
    outs = vars(I).get("outcomes", [])
    states = [(o.state, None) for o in outs if o.state is not None] + [
        (x[0], x) for o in outs for x in o.raised] + [
        (st, None) for st in (I.st,) if st is not None]
    for st, exc in states:
        how = "" if exc is None else " when %s is raised at line %s" % (
            exc[1], getattr(exc[3], "lineno", "?"))
        for loc, name in cells.items():
            c = st.heap.get(loc)
            if c is not None and not cell_same(heap[loc], c):
                bad.setdefault(("%s is changed" % name, ""), KEPT)
        pr = st.heap.get(I.process.loc)
        for k, v in (pr.items.items() if pr is not None else ()):
            k = k.args[0]
            if not (isinstance(v, T) and v is ext.initial(k)):
                bad.setdefault(("%s is left at %s%s" % (
                    k, tm.show(v)[:80] if isinstance(v, T) else v, how),
                    ""), SETTING)
    for loc, name in cells.items():
        w = I.written(loc)
        if w:
            bad.setdefault(("the contents of %s are written to" % name,
                            w[0]), KEPT)
    for (owner, k), v in slots.items():
        if isinstance(owner, tuple):
            now = I.st.envs.get(owner, {}).get(k) if I.st else v
            if now is not None and not same(now, v):
                bad.setdefault(("module variable %s is set" % k, ""), KEPT)
    for (what, w), rule in bad.items():
        chk.require(False, rule, w or what, "%s (%s)" % (what, label),
                    "%s|%s" % (what.split(" when ")[0], w))
    if not bad:
        chk.require(True, KEPT, label)
        chk.require(True, SETTING, label)


def suspicious(fn):
    """Constructs of a function that write outside it, by their syntax."""
    out = []
    for n in ast.walk(fn):
        if isinstance(n, ast.Global):
            out.append("global %s" % ", ".join(n.names))
        elif isinstance(n, ast.Call):
            f, names = n.func, []
            while isinstance(f, ast.Attribute):
                names.append(f.attr)
                f = f.value
            if isinstance(f, ast.Name) and names:
                d = ".".join([f.id] + names[::-1])
                last = names[0]
                if any(x.endswith("." + d) or x == d or
                       x.split(".")[-1] == last and last.startswith("set_")
                       for x in SETTERS) or last in (
                           "set_extract_pixstack", "set_sub_object_limit",
                           "seterr", "chdir", "setrecursionlimit"):
                    out.append(d)
    return out


def check_unseen(chk):
    import os
    for m in modules(chk.repo):
        rel = m.replace(".", "/") + ".py"
        p = os.path.join(chk.repo, rel)
        if not os.path.exists(p):
            continue
        tree = ast.parse(open(p, encoding="utf8").read())
        for c in [tree] + [x for x in tree.body
                           if isinstance(x, ast.ClassDef)]:
            for f in c.body:
                if not isinstance(f, ast.FunctionDef):
                    continue
                q = (c.name + "." if c is not tree else "") + f.name
                if any(path.endswith(rel) and name == q
                       for path, name in chk.functions):
                    continue
                w = suspicious(f)
                chk.require(None if w else True, UNSEEN, "%s (%s)" % (
                    rel, q), ", ".join(w))


def check_carry(chk):
    for name, fs in (
            ("sources", (sources.check_sources,)),
            ("stamps", (stamps.check_stamps,)),
            ("expansion", (kl.check_expansion,)),
            ("products", (components.check_components,
                          components.check_local_psf)),
            ("settings", (cache.check_cache,)),
            ("catalogues", (catalog.check_matching,)),
            ("plots", (plots.check_panels, plots.check_options)),
            ("frames", (frame.check_window,)),
            ("stamp files", (files.check_files,)),
            ("drawing", (plots.check_dispatch, tools.check_aliases)),
            ("simulations", (simulate.check_simulated,))):
        for f in fs:
            a = Settled(chk, name)
            a.group = name
            a.LIMIT = LIMITS.get(f, a.LIMIT)
            try:
                f(a)
            except a.Enough:
                pass
    effects.analyses(chk, Settled)
    check_unseen(chk)
