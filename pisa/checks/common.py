"""Obligations, abstraction of terms to roles, and spec comparison."""

import itertools

from .. import terms as tm
from ..terms import T, mk, const, sym
from ..values import *  # noqa
from .. import model
from ..model import Session, Missing, image, cell_of, of, run, base_cuts

HOLD, VIOLATED, UNDECIDED = "hold", "violated", "undecided"


class Check(object):
    """Collects the obligations of one property on one run."""

    def __init__(self, pid, tier="quick", repo="/repo"):
        self.pid, self.tier, self.repo = pid, tier, repo
        self.obls = []
        self.functions = set()
        self.notes = []
        self.runs = 0
        self.counts = {}

    @property
    def thorough(self):
        return self.tier == "thorough"

    def session(self, cuts=None, config=None):
        s = Session(self.repo, cuts if cuts is not None else base_cuts(),
                    config)
        s.chk = self
        return s

    def done(self, s):
        """Account for what a session analysed."""
        self.runs += 1
        self.functions |= s.I.functions_seen
        for n in s.I.notes:
            if n not in self.notes:
                self.notes.append(n)

    def add(self, status, rule, where, detail="", key=None):
        self.obls.append({
            "status": status, "rule": rule, "where": where,
            "detail": detail[:3000], "key": key or "%s|%s" % (rule, where)})

    def require(self, ok, rule, where, detail="", key=None):
        """ok: True, False or None (not decidable)."""
        st = HOLD if ok is True else VIOLATED if ok is False else UNDECIDED
        self.add(st, rule, where, detail if ok is not True else "", key)
        return ok

    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n


# --------------------------------------------------------------- vocabulary

PURE = {"num", "const", "add", "mul", "sym", "fft2", "ifft2", "real", "imag",
        "conj", "phase", "com", "pos", "roll", "round", "int", "abs",
        "filled", "ma", "mor", "mmask", "mdata", "imagunit", "sum", "item",
        "slice", "tuple", "shape", "zeros", "ones", "not", "ite", "and",
        "eq", "lt", "le", "astype", "pow", "sumover", "anyover", "bv",
        "max", "min", "isnan", "isfinite", "list", "eq2", "lt2", "le2",
        "size", "of", "transpose", "floor", "ceil", "flip", "copy",
        "maxof", "minof", "grid"}


def foreign(t, extra=()):
    """Operators in t outside the interpreted vocabulary."""
    return sorted({opname(x) for x in tm.subterms(t)
                   if x.op not in PURE and opname(x) not in extra
                   and x.op not in extra})


def opname(x):
    """Library calls go by name and number of arguments."""
    return x.op if x.op != "call" else "call %s/%d" % (
        x.args[0], len(x.args) - 1)


def equal(chk, got, want, rule, where, extra=(), key=None):
    """Obligation: two terms have the same normal form.

    A difference is a violation only when both sides are built from
    operators whose meaning the normal form captures.
    """
    if got is want:
        return chk.require(True, rule, where, key=key)
    bad = foreign(got, extra)
    d = "found    %s\n    expected %s" % (tm.show(got), tm.show(want))
    if bad:
        return chk.require(None, rule, where,
                           "not interpreted: %s\n    %s" % (bad, d), key)
    return chk.require(False, rule, where, d, key)


def case_split(t, limit=64):
    """[(decisions, gate-free term)] for the gates inside t."""
    out = []

    def first_gate(x):
        stack, seen = [x], set()
        best = None
        while stack:
            y = stack.pop()
            if y in seen or not isinstance(y, T):
                continue
            seen.add(y)
            if y.op == "ite":
                if not any(z.op == "ite" for z in tm.subterms(y.args[0])
                           if z is not y.args[0] or z.op == "ite"):
                    return y.args[0]
                best = best or y.args[0]
            stack.extend(a for a in y.args if isinstance(a, T))
        if best is not None:
            return first_gate(best) or best
        return None

    def rec(x, dec):
        if len(out) > limit:
            return
        c = first_gate(x)
        if c is None:
            out.append((dec, x))
            return
        for pol in (True, False):
            rec(decide(x, c, pol), dec + ((c, pol),))
    rec(t, ())
    return out


def decide(t, c, pol):
    """t under the decision that condition c is pol."""
    m = {c: const(pol)}
    if c.op == "not":
        m[c.args[0]] = const(not pol)
    else:
        m[tm.lnot(c)] = const(not pol)
    if c.op == "and" and pol:
        for a in c.args:
            m[a] = tm.TRUE
    return tm.subst(t, m)


def zero_of(c):
    """Symbol that condition c says is zero, if it is of that form."""
    if c.op == "eq" and len(c.args) == 1 and c.args[0].op == "sym":
        return c.args[0]
    return None


def feasible(dec):
    pos = {c for c, p in dec if p}
    neg = {c for c, p in dec if not p}
    if pos & neg:
        return False
    for c in pos:
        if c.op == "and" and any(a in neg for a in c.args):
            return False
    for c in neg:
        if c.op == "and" and all(a in pos for a in c.args):
            return False
    return True


def equal_cases(chk, got, want, rule, where, extra=(), key=None, limit=64,
                view=None):
    """got and want agree on every path through the gates of got."""
    if got is want:
        return chk.require(True, rule, where, key=key)
    cases = case_split(got, limit)
    if len(cases) > limit:
        return chk.require(None, rule, where, "too many cases", key)
    worst = True
    for dec, g in cases:
        if not feasible(dec):
            continue
        w = want
        zero = {}
        for c, p in dec:
            w = decide(w, c, p)
            if p:
                for q in (c.args if c.op == "and" else (c,)):
                    z = zero_of(q)
                    if z is not None:
                        zero[z] = tm.ZERO
        if zero:
            g, w = tm.subst(g, zero), tm.subst(w, zero)
        if view is not None:
            g = view(g)
        if g is w:
            continue
        bad = foreign(g, extra)
        for c, p in dec:
            bad += foreign(c, extra)
        d = "on the path %s\n    found    %s\n    expected %s" % (
            [(tm.show(c)[:200], p) for c, p in dec], tm.show(g), tm.show(w))
        if not bad:
            return chk.require(False, rule, where, d, key)
        worst = None
        detail = "not interpreted: %s\n    %s" % (sorted(set(bad)), d)
    return chk.require(worst, rule, where,
                       detail if worst is None else "", key)


def merge_zero_gates(t):
    """ite(x == 0 and ..., A, B) -> B when A is B at x = 0."""
    def f(x):
        if x.op != "ite":
            return None
        c, a, b = x.args
        conj = c.args if c.op == "and" else (c,)
        m = {}
        for q in conj:
            if q.op == "eq" and q.args[0].op in ("sym", "com"):
                m[q.args[0]] = tm.ZERO
            else:
                return None
        if tm.subst(b, m) is a:
            return b
        return None
    return tm.rewrite(t, f)


def where(f):
    """file (function) of a function value; no line numbers in keys."""
    return "%s (%s)" % (f.mod.path, f.qual)


def first_diff(a, b, path=""):
    """Where two terms part, for messages."""
    if a is b:
        return None
    if isinstance(a, T) and isinstance(b, T) and a.op == b.op and \
            len(a.args) == len(b.args):
        for i, (x, y) in enumerate(zip(a.args, b.args)):
            if isinstance(x, T) and isinstance(y, T):
                d = first_diff(x, y, path + "/%s%d" % (a.op, i))
                if d:
                    return d
            elif x != y or type(x) is not type(y):
                return path + "/%s%d" % (a.op, i), repr(x), repr(y)
    return path, tm.show(a, limit=40), tm.show(b, limit=40)


def unset(I):
    """Name whose reading ended the run, when it never got a value."""
    ends = [e for e in I.events if e.kind in ("raise", "unbound")]
    if len(ends) > 1 and ends[-1].kind == "raise" and \
            ends[-1].name in ("UnboundLocalError", "NameError") and \
            ends[-2].kind == "unbound":
        return ends[-2].name
    return None


def no_result(chk, I, rule, label, detail):
    """An obligation on a run that ended without a value."""
    name = unset(I)
    chk.require(False if name else None, rule, label,
                "%s is read before it is given a value" % name if name
                else detail)
