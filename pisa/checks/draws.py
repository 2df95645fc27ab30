"""Random draws and other things no argument decides (P27)."""

from .common import *  # noqa
from .. import small, model
from . import effects, sources, simulate

ST = "properimage/simtools.py"

# Makers of generators; everything else under these roots draws from, or
# sets, the state shared by the whole process.
MAKERS = {"numpy.random.default_rng", "numpy.random.Generator",
          "numpy.random.RandomState", "numpy.random.SeedSequence",
          "numpy.random.PCG64", "numpy.random.MT19937",
          "numpy.random.Philox", "numpy.random.SFC64", "random.Random",
          "numpy.random.BitGenerator"}
ENTROPY = {"random.SystemRandom", "secrets.", "os.urandom", "uuid.uuid1",
           "uuid.uuid4"}
CLOCK = {"time.time", "time.time_ns", "time.monotonic", "time.perf_counter",
         "time.perf_counter_ns", "time.process_time", "time.monotonic_ns",
         "datetime.datetime.now", "datetime.now", "datetime.datetime.utcnow",
         "os.getpid", "os.urandom", "uuid.uuid1", "uuid.uuid4", "id",
         "hash", "random.SystemRandom", "secrets.token_bytes",
         "secrets.randbits", "threading.get_ident"}
DRAWS = {"random", "standard_normal", "normal", "poisson", "integers",
         "uniform", "choice", "shuffle", "permutation", "exponential",
         "binomial", "gamma", "beta", "randint", "rand", "randn",
         "random_sample", "multivariate_normal", "sample", "choices",
         "gauss", "standard_exponential", "lognormal", "permuted",
         "randrange", "bytes", "standard_gamma", "standard_t"}


def shared(name):
    """Does that call use the generator of the whole process?"""
    n = name
    for root in ("numpy.random.mtrand.", "numpy.random.", "random."):
        if n.startswith(root):
            return n not in MAKERS and not n.endswith(".SystemRandom")
    return False


def maker(t):
    """The call that made a generator, or None."""
    seen = [x for x in tm.subterms(t) if x.op == "call" and
            x.args[0] in MAKERS]
    return seen[0] if seen else None


def seed_of(t):
    """The seed of a generator's maker (None: none)."""
    t = maker(t)
    pos, kw = small.kws(t)
    inner = maker(pos[0]) if pos and pos[0] is not t and \
        pos[0].op == "call" else None
    if inner is not None:
        return seed_of(pos[0])
    v = pos[0] if pos else kw.get("seed", kw.get("x"))
    return None if v is None or v is tm.NONE else v


def clocks(t):
    return sorted({opname(x) for x in tm.subterms(t)
                   if x.op == "call" and x.args[0] in CLOCK or
                   x.op in ("id", "hash")})


def drawn(I, events):
    """[(event, generator term)] of the draws."""
    return [(e, e.args[0]) for e in events if e.kind == "call" and
            e.name.startswith(".") and e.name[1:] in DRAWS and e.args and
            maker(e.args[0]) is not None]


class Sober(effects.Audit):
    """No shared generator, no clock, whatever is called."""

    def done(self, s):
        self.n += 1
        self.outer.done(s)
        look(self.outer, s.I, self.group, self.n,
             self.group != "simulation")


def look(chk, I, group, n, results):
    bad = 0
    for e in I.events:
        if e.kind == "call" and shared(e.name):
            bad += 1
            chk.require(False, "shared generator", e.where(), "%s (run %s): "
                        "%s" % (group, n, e.name),
                        "shared generator|%s|%s" % (e.name, e.where()))
    if results:
        for e, g in drawn(I, I.events):
            sd = seed_of(g)
            ok = sd is not None and not clocks(sd)
            bad += not ok
            if not ok:
                chk.require(False, "repeatable", e.where(), "%s (run %s): "
                            "%s from %s" % (group, n, e.name,
                                            tm.show(g)[:100]),
                            "repeatable|%s" % e.where())
    for o in vars(I).get("outcomes", []):
        if o.dead or not results:
            continue
        c = clocks(I.term(o.value)) if o.value is not None else []
        if c:
            bad += 1
            chk.require(False, "clock", "%s" % group, "%s (run %s): the "
                        "result depends on %s" % (group, n, c),
                        "clock|%s|%s" % (group, c))
    if not bad:
        chk.require(True, "repeatable", "%s run %s" % (group, n))


# -------------------------------------------------------------- simulations

def simulate_twice(chk, name, seed):
    """Two calls with the same arguments in one process."""
    def no_psf(I, args, kw, node):
        return I.new(sym("psf"))

    def points(I, args, kw, node):
        return I.new(mk("call", "points", *(
            [I.term(a) for a in args] + [I.term(kw[k]) for k in sorted(
                kw)])))
    cuts = {"properimage.simtools.Psf": no_psf,
            "properimage.simtools.delta_point": points}
    pdfs = ("gaussian", "poisson") if name == "image" else (None,)
    for pdf in pdfs:
        s = chk.session(cuts, {})
        I = s.I
        f = s.function("simtools", name)
        key = "%s|%s|%s" % (name, pdf, "none" if seed is None else
                            tm.show(seed))
        where = "%s (%s)" % (ST, name)
        if name == "image":
            args = [sym("field"), sym("size"), sym("exposure"),
                    sym("width"), sym("ratio")]
            kw = {"bkg_pdf": const(pdf)}
        else:
            args = [const(12)]
            kw = {"N": const(64)}
        if seed is not None:
            kw["seed"] = seed
        outs, logs, made = [], [], []
        tm.FACT_HOOK.append(simulate.seed_given)
        try:
            for k in range(2):
                n = len(I.events)
                o = run(I, f, list(args), dict(kw))
                outs.append(None if o.dead else I.term(o.value))
                logs.append(drawn(I, I.events[n:]))
                made.append([e.res for e in I.events[n:] if e.kind == "call"
                             and e.name in MAKERS])
        finally:
            tm.FACT_HOOK.remove(simulate.seed_given)
        chk.done(s)
        look(chk, I, "simulation", key, False)
        if None in outs or not logs[0]:
            chk.require(None, "seeded", where, "%s: no draws seen" % key,
                        "seeded|" + key)
            continue
        if seed is None:
            # without a seed no frame repeats the one before
            for e, g in logs[1]:
                sd = seed_of(g)
                again = maker(g) in made[1] and sd is not None and not \
                    clocks(sd)
                if again:
                    chk.require(False, "unseeded", e.where(), "%s: every "
                                "call draws the same from %s" % (
                                    key, tm.show(g)[:80]), "unseeded|" + key)
                    break
            else:
                chk.require(True, "unseeded", where)
            continue
        for k in range(2):
            for e, g in logs[k]:
                sd = seed_of(g)
                how = None
                if sd is None:
                    how = "draws from an unseeded generator"
                elif clocks(sd):
                    how = "seeded by %s" % clocks(sd)
                elif maker(g) not in made[k]:
                    how = "draws from a generator other calls use as well"
                elif seed.op == "sym" and seed not in set(tm.subterms(sd)):
                    how = "draws from a generator of another seed"
                if how:
                    chk.require(False, "seeded", e.where(), "%s (call %d): "
                                "%s %s: %s" % (key, k + 1, e.name, how,
                                               tm.show(g)[:80]),
                                "seeded|" + key)
                    break
            else:
                chk.require(True, "seeded", where)
        same = outs[0] is outs[1]
        chk.require(True if same else None, "seeded", where, "%s: %s / %s" % (
            key, tm.show(outs[0])[:150], tm.show(outs[1])[:150]),
            "same|" + key)


def check_draws(chk):
    for name in ("image", "sim_varpsf"):
        for seed in (sym("seed"), tm.ZERO, const(3), None):
            simulate_twice(chk, name, seed)
    a = Sober(chk, "sources")
    a.group = "source catalogue"
    sources.check_sources(a)
    effects.analyses(chk, Sober)
