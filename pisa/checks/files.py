"""Files: whose they are, and when they go (P24)."""

from .common import *  # noqa
from .. import model
from ..interp import Dead
from ..values import Inst, Fn, Bound, Lst
from . import frame, stamps, effects

WHERE = "properimage/single_image.py (SingleImage)"
MAKERS = {"tempfile.mkdtemp", "tempfile.mkstemp", "tempfile.mktemp",
          "uuid.uuid4", "uuid.uuid1",
          "secrets.token_hex", "os.urandom"}


def pieces(t):
    """A path as strings and terms, in order."""
    if t.op == "pathjoin":
        out = []
        for i, a in enumerate(t.args):
            out += (["/"] if i else []) + pieces(a)
    elif t.op == "strcat":
        out = [p for a in t.args for p in pieces(a)]
    elif t.op in ("str", "path") and len(t.args) == 1:
        out = pieces(t.args[0])
    elif t.op == "const" and isinstance(t.args[0], str):
        out = [t.args[0]]
    else:
        out = [t]
    r = []
    for p in out:
        if r and isinstance(p, str) and isinstance(r[-1], str):
            r[-1] += p
        else:
            r.append(p)
    return [p for p in r if p != ""]


def spelled(ps):
    return "".join(p if isinstance(p, str) else "{%s}" % tm.show(p)[:60]
                   for p in ps)


def with_suffix(ps, suffix):
    """What pathlib makes of it: the last dot of the name and all after go."""
    for k in range(len(ps) - 1, -1, -1):
        if not isinstance(ps[k], str):
            continue
        name = ps[k].rpartition("/")[2]
        if "." in name:
            keep = ps[k][:len(ps[k]) - len(name) + name.rindex(".")]
            ps = ps[:k] + ([keep] if keep else [])
            break
        if "/" in ps[k]:
            break
    return join(ps + [suffix])


def join(ps):
    r = []
    for p in ps:
        if r and isinstance(p, str) and isinstance(r[-1], str):
            r[-1] += p
        else:
            r.append(p)
    return tuple(r)


class Disk(object):
    """The files of a run."""

    def __init__(self):
        self.files = []          # paths that are there
        self.made = []           # every path ever made
        self.stores = []         # (base path, mode)
        self.removed = []        # (path, was there)
        self.finalizers = []
        self.unknown = []        # calls not followed
        self.base = 0

    def make(self, p):
        p = tuple(p)
        if p not in self.files:
            self.files.append(p)
        self.made.append(p)

    def cuts(self):
        def gone(I, p, node, missing_ok):
            if I.quiet:
                return tm.NONE
            p = tuple(pieces(p))
            there = p in self.files
            self.removed.append((p, there))
            if len(I.st.pc) > self.base:
                self.unknown.append("conditional removal")
                I.risk(mk("call", "os.remove", const(len(self.removed))),
                       node)
            elif there:
                self.files.remove(p)
            elif not missing_ok:
                I.raise_(None, node, "FileNotFoundError")
            return tm.NONE

        def remove(I, name, args, kw, node):
            return gone(I, I.term(args[0] if args else kw["path"]), node,
                        False)

        def unlink(I, args, kw, node, t):
            m = args[0] if args else kw.get("missing_ok", tm.FALSE)
            return gone(I, t, node, tm.truth(I.term(m)) is True)

        def exists(I, name, args, kw, node):
            return const(tuple(pieces(I.term(args[0]))) in self.files)

        def is_there(I, args, kw, node, t):
            return const(tuple(pieces(t)) in self.files)

        def suffixed(I, args, kw, node, t):
            s = I.term(args[0])
            if s.op != "const":
                return NotImplemented
            ps = with_suffix(pieces(t), s.args[0])
            return mk("path", mk("strcat", *[
                const(p) if isinstance(p, str) else p for p in ps]))

        def store(I, name, args, kw, node):
            if I.quiet:
                return NotImplemented
            d = dict(zip(("database_name", "mode"), args), **kw)
            base = pieces(I.term(d["database_name"]))
            mode = I.term(d.get("mode", const("store")))
            self.stores.append((tuple(base), mode))
            if mode is const("store"):
                self.make(with_suffix(base, ".dat"))
                self.make(with_suffix(base, ".map"))
            return NotImplemented

        def finalize(I, name, args, kw, node):
            if I.quiet:
                return NotImplemented
            self.finalizers.append((args, kw))
            return Partial(args[1], list(args[2:]), dict(kw))

        def other(I, name, args, kw, node):
            if not I.quiet:
                self.unknown.append(name)
            return NotImplemented
        c = {"ext:os.remove": remove, "ext:os.unlink": remove,
             "ext:os.path.exists": exists, "ext:os.path.isfile": exists,
             "ext:os.path.lexists": exists,
             "ext:tinynpydb.NumPyDB": store,
             "ext:weakref.finalize": finalize}
        for n in ("shutil.rmtree", "shutil.move", "os.rename", "os.replace",
                  "os.removedirs", "os.rmdir", "atexit.register",
                  "weakref.ref", "weakref.WeakKeyDictionary", "glob.glob",
                  "tempfile.TemporaryDirectory",
                  "tempfile.NamedTemporaryFile", "contextlib.ExitStack"):
            c["ext:" + n] = other
        for op in ("pathjoin", "path", "strcat", "str", "call"):
            c["method:%s.unlink" % op] = unlink
            c["method:%s.with_suffix" % op] = suffixed
            for n in ("exists", "is_file"):
                c["method:%s.%s" % (op, n)] = is_there
        return c


def session(chk, disk):
    cuts = frame.make_cuts()
    for k in ("best_sources", "interped"):
        cuts["SingleImage." + k] = model.field_cut(
            lambda I, r, k=k: model.cell_of(I, sym(k)))
    for n in ("nddata.utils", "nddata"):
        cuts["ext:astropy.%s.extract_array" % n] = stamps.cutout
    cuts.update(disk.cuts())
    return chk.session(cuts, {})


def built(chk, disk, I, s, cls, given):
    """An image made of what is given."""
    o = model.run(I, s.cls(cls), [given])
    if o.dead:
        return None
    return I.resolve(o.value)


def keep_alive(I, v, im, seen=None):
    """How a value holds on to the image, or None."""
    seen = set() if seen is None else seen
    v = I.resolve(v) if v is not None else None
    if v is None or id(v) in seen:
        return None
    seen.add(id(v))
    if isinstance(v, Ref):
        if v.loc == im.loc:
            return "the image itself"
        c = I.cell(v)
        if isinstance(c, Inst):
            vs = list(c.fields.values())
        elif isinstance(c, Lst):
            vs = list(c.items)
        else:
            vs = []
        for x in vs:
            h = keep_alive(I, x, im, seen) if isinstance(x, (
                Ref, Bound, Fn, VTuple)) else None
            if h:
                return "an object holding " + h
    if isinstance(v, VTuple):
        for x in v.items:
            h = keep_alive(I, x, im, seen)
            if h:
                return h
    if isinstance(v, Bound):
        if keep_alive(I, v.self_, im, seen):
            return "a method of " + (keep_alive(I, v.self_, im) or "it")
    if isinstance(v, Fn):
        import ast
        names = {n.id for n in ast.walk(v.node)
                 if isinstance(n, ast.Name)}
        for fid in v.chain or ():
            env = I.st.envs.get(fid, {})
            for n in names & set(env):
                x = I.resolve(env[n]) if env[n] is not None else None
                if isinstance(x, Ref) and x.loc == im.loc:
                    return "the image through %s" % n
    return None


def check_files(chk):
    for cls in ("SingleImage", "SingleImageGaussPSF"):
        for given in ("array", "path"):
            own_files(chk, cls, given)
        for how in ("plain", "failed"):
            leaving(chk, cls, how)
        dropping(chk, cls)
    others(chk)


def given_of(I, s, kind, disk):
    p = sym("pixels")
    I.kinds[p] = {"ndarray"}
    I.fits_files = {}
    if kind == "array":
        return I.new(p)
    f = const("frame.fits")
    head = I.alloc(model.Dct({}))
    prim = sym("hdu", 0)
    I.vattrs[prim, "data"] = I.new(p)
    I.vattrs[prim, "header"] = head
    I.vattrs[prim, "is_image"] = tm.TRUE
    I.kinds[prim] = {"fits.PrimaryHDU"}
    I.fits_files[f] = (I.new(p), head, I.new(mk("list", prim)))
    return f


def stamps_of(I, im):
    """Have the image cut its stamps."""
    def go(I_):
        I.getattr(im, "stamps_pos", None)
    return stamps.guarded(I, go)


def own_files(chk, cls, kind):
    d = Disk()
    s = session(chk, d)
    I = s.I
    g = given_of(I, s, kind, d)
    made, ims = [], []
    for k in range(2):
        im = built(chk, d, I, s, cls, g)
        if im is None:
            chk.require(None, "own files", WHERE, "not built")
            return
        ims.append(im)
    for im in ims:
        n = len(d.made)
        stamps_of(I, im)
        made.append(d.made[n:])
    chk.done(s)
    key = "|%s|%s" % (cls, kind)
    name = "%s of %s" % (cls, kind)
    if not made[0] or not made[1]:
        chk.require(None, "own files", WHERE, name + ": no files seen",
                    "own files" + key)
        return
    both = set(made[0]) & set(made[1])
    chk.require(not both, "own files", WHERE, "%s: two images store their "
                "stamps in %s" % (name, [spelled(p) for p in both][:1]),
                "own files" + key)
    for p in made[0] + made[1]:
        fresh = [x for q in p if not isinstance(q, str)
                 for x in tm.subterms(q) if opname(x).split(" ")[-1].split(
                     "/")[0] in MAKERS or x.op == "call" and
                 x.args[0] in MAKERS]
        src = [x for q in p if not isinstance(q, str)
               for x in tm.subterms(q) if x is sym("pixels")]
        ok = bool(fresh) and not isinstance(p[0], str)
        sure = isinstance(p[0], str) or bool(src) or not any(
            x.op == "call" for q in p if not isinstance(q, str)
            for x in tm.subterms(q))
        chk.require(True if ok else False if sure else None, "own folder",
                    WHERE, "%s: stamps go to %s" % (name, spelled(p)),
                    "own folder" + key)
    # between computing stamps again and again
    n = len(d.made)
    I.event("mark", "again")
    chk.count("images", 2)


def leaving(chk, cls, how):
    """The end of a with block."""
    rule = "end of the block"
    d = Disk()
    s = session(chk, d)
    I = s.I
    im = built(chk, d, I, s, cls, given_of(I, s, "array", d))
    other = built(chk, d, I, s, cls, given_of(I, s, "array", d))
    key = "|%s|%s" % (cls, how)
    if im is None or other is None:
        chk.require(None, rule, WHERE, "not built")
        return
    out = {}

    def enter(I_):
        out["as"] = I.resolve(I.call(I.getattr(im, "__enter__", None), [],
                                     {}, None))
    w = stamps.guarded(I, enter)
    chk.require(w is None and isinstance(out.get("as"), Ref) and
                out["as"].loc == im.loc, rule, WHERE,
                "%s: the block is given another object (%s)" % (cls, w),
                "enter" + key)
    stamps_of(I, other)
    kept_ = list(d.files)
    stamps_of(I, im)
    mine = [p for p in d.files if p not in kept_]
    if not mine:
        chk.require(None, rule, WHERE, "%s: no files seen" % cls, rule + key)
        return
    happened = [sym("failure", k) for k in ("type", "value", "traceback")]
    args = [tm.NONE] * 3 if how == "plain" else happened

    def hook(op, d):
        if op == "isnone" and d in happened:
            return False

    def known(I_, c):
        return True if c in happened else None
    I.config["known"] = known

    def leave(I_):
        d.base = len(I.st.pc)
        tm.FACT_HOOK.append(hook)
        try:
            out["v"] = I.call(I.getattr(im, "__exit__", None), args, {},
                              None)
        finally:
            tm.FACT_HOOK.remove(hook)
    w = stamps.guarded(I, leave)
    chk.done(s)
    chk.require(w is None, rule, WHERE, "%s: leaving %s" % (cls, w),
                "leave" + key)
    if w is not None:
        return
    v = out["v"]
    t = I.term(v) if v is not None else tm.NONE
    tr = tm.truth(t)
    ok = True
    if how == "failed" and t is not tm.NONE and tr is not False:
        ok = False if tr or any(tm.contains(t, lambda z, k=k: z is k)
                                for k in happened) else None
    chk.require(ok, rule, WHERE, "%s: an exception in the block is swallowed "
                "when %s" % (cls, tm.show(t)[:100]), "swallow" + key)
    left = [p for p in mine if p in d.files]
    st = True if not left else None if d.unknown else False
    chk.require(st, rule, WHERE, "%s: %s is left behind" % (
        cls, [spelled(p) for p in left][:1]), "left" + key)
    lost = [p for p in kept_ if p not in d.files]
    chk.require(not lost, rule, WHERE, "%s: %s of another image is removed"
                % (cls, [spelled(p) for p in lost][:1]), "lost" + key)
    w = stamps.guarded(I, leave)
    chk.require(w is None, rule, WHERE, "%s: leaving again %s" % (cls, w),
                "again" + key)


def dropping(chk, cls):
    """An image nobody uses any more."""
    rule = "dropped image"
    d = Disk()
    s = session(chk, d)
    I = s.I
    im = built(chk, d, I, s, cls, given_of(I, s, "array", d))
    if im is None:
        chk.require(None, rule, WHERE, "not built")
        return
    stamps_of(I, im)
    mine = list(d.files)
    chk.done(s)
    if not mine:
        chk.require(None, rule, WHERE, "%s: no files seen" % cls)
        return
    last, why = False, []
    c = I.cell(im).cls
    if any("__del__" in k.members for k in c.mro()):
        def go(I_):
            d.base = len(I.st.pc)
            I.call(I.getattr(im, "__del__", None), [], {}, None)
        w = stamps.guarded(I, go)
        last = True
        if w:
            why.append("__del__ " + w)
    for args, kw in d.finalizers:
        a0 = I.resolve(args[0]) if args else None
        if not isinstance(a0, Ref):
            continue
        if a0.loc != im.loc:
            continue
        how = None
        for x in list(args[1:]) + list(kw.values()):
            how = how or keep_alive(I, x, im)
        if how:
            why.append("the clean-up keeps the image alive: it holds " + how)
            continue

        def go(I_):
            d.base = len(I.st.pc)
            I.call(args[1], list(args[2:]), dict(kw), None)
        w = stamps.guarded(I, go)
        last = True
        if w:
            why.append("the clean-up " + w)
    left = [p for p in mine if p in d.files]
    st = True if not left else None if d.unknown else False
    chk.require(st, rule, WHERE, "%s: %s stays; %s" % (
        cls, [spelled(p) for p in left][:1], "; ".join(why) or (
            "cleaned up otherwise" if last else "nothing cleans up")),
        rule + "|" + cls)


# ------------------------------------------------- everything else: no files

TOUCH = {"os.remove", "os.unlink", "os.rename", "os.replace", "os.rmdir",
         "os.removedirs", "os.mkdir", "os.makedirs", "shutil.rmtree",
         "shutil.move", "shutil.copy", "os.truncate", "numpy.save",
         "numpy.savez", "numpy.savetxt", ".unlink", ".rmdir", ".mkdir",
         ".writeto", ".write_text", ".write_bytes", ".tofile", ".dump",
         ".savefig"}

WRITE = {".writeto", ".savefig", ".tofile", "numpy.save", "numpy.savez",
         "numpy.savetxt", ".write_text", ".write_bytes"}


class Quiet(effects.Audit):
    """Looks for files touched."""

    def done(self, s):
        self.n += 1
        self.outer.done(s)
        I = s.I
        hit = 0
        for e in I.events:
            if e.kind != "call" or e.name not in TOUCH:
                continue
            if e.name in (".dump", ".mkdir") or self.group == "tools":
                continue
            if e.name in WRITE:
                hit += 1
                self.outer.require(
                    False, self.rule, e.where(), "%s (run %d): writes a "
                    "file, %s%s" % (self.group, self.n, e.name, [
                        tm.show(a)[:60] for a in e.args[1:2]]),
                    "%s|%s|%s" % (self.rule, e.name, e.where()))
                continue
            p = pieces(e.args[0]) if e.args else []
            if p and not isinstance(p[0], str) and p[0].op == "sym" \
                    and str(p[0].args[0]).startswith("arg"):
                continue         # what a function given away would do
            hit += 1
            names = {".".join(str(a) for a in x.args[:1]) for q in p
                     if not isinstance(q, str) for x in tm.subterms(q)
                     if x.op == "sym"}
            given = names & {str(I.st.heap[loc].sym.args[0]) for loc in
                             vars(I).get("given", {}) if isinstance(
                                 I.st.heap.get(loc), Inst) and
                             I.st.heap[loc].sym is not None}
            own = names - given
            self.outer.require(
                False if given or p and isinstance(p[0], str) else
                True if own else None, self.rule, e.where(),
                "%s (run %d): %s of %s" % (self.rule, self.n, e.name,
                                           spelled(p)),
                "%s|%s|%s" % (self.rule, e.name, e.where()))
        if not hit:
            self.outer.require(True, self.rule, "run %d" % self.n)


def others(chk):
    effects.analyses(chk, Quiet, "files of the images")
