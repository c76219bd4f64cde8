"""P13: threshold parameters switch exactly when their condition holds."""
from common import *

M = "pywr.parameters._thresholds"


def threshold(c, i): return pv(c, c.self, "_threshold", "_threshold_parameter", i)


def holds(c, x, t):
    """The predicate of the parameter between the watched value and the threshold."""
    p = c.old.get(c.self, "predicate")
    e = lambda n: c.enum("Predicates", n).t
    return z3.If(p == e("LT"), x < t, z3.If(p == e("GT"), x > t, z3.If(p == e("LE"), x <= t, z3.If(p == e("GE"), x >= t, x == t))))


def one(b): return z3.If(b, z3.IntVal(1), z3.IntVal(0))


def valid_predicate(c):
    p = c.old.get(c.self, "predicate")
    c.require(p >= 0, p <= 4)


def watched(cls, val, first=None, calendar=False):
    """index() of a concrete threshold parameter; first: the value at the first timestep (None: compare as usual)."""
    @contract("P13", f"{M}:{'AbstractThresholdParameter' if first is None else cls}.index", cls=f"{M}:{cls}", label=f"{cls}.index")
    def f(c):
        ts, si = c.ts(), c.si()
        i = c.gid(si)
        valid_predicate(c)
        c.require(c.old.dim(c.self, "_triggered") == c.ncomb)
        c.noself(f"{cls}.param", "AbstractThresholdParameter._threshold_parameter")
        trig = c.old.get(c.self, "_triggered", i)
        c.require(OR(trig == 0, trig == 1))
        x = val(c, ts, i)
        now = holds(c, x, threshold(c, i))
        rat = AND(c.old.get(c.self, "ratchet"), trig == 1)
        g = c.idx("other", c.ncomb)
        c.call(ts, si)
        want = one(OR(rat, now))
        t = c.old.get(ts, "index")
        if first is not None: want = z3.If(t == 0, first(c), want)
        c.ensure_ret("1 exactly when the condition holds (or was triggered before, if ratcheting)", want)
        new = one(OR(trig == 1, now))
        if first is not None: new = z3.If(t == 0, trig, new)
        c.ensure("remembers having been triggered", c.new.get(c.self, "_triggered", g) == z3.If(g == i, new, c.old.get(c.self, "_triggered", g)))
        c.frame([("AbstractThresholdParameter._triggered", c.self.t)])


def node(c, attr, a, i):
    o = c.old.obj(c.self, attr); c.require(o.t != NONE)
    return c.old.get(o, a, i)


def recorded(c, ts, i):
    r = c.known(c.old.obj(c.self, "recorder"), c.P.find_class("NumpyArrayNodeRecorder"))
    t = c.old.get(ts, "index")
    c.require(t <= c.old.dim(r, "_data", 0), c.old.dim(r, "_data", 1) == c.ncomb)
    return c.old.get(r, "_data", t - 1, i)


def par(c, i):
    p = c.old.obj(c.self, "param"); c.require(p.t != NONE)
    return values_of(c, p, i)


watched("StorageThresholdParameter", lambda c, ts, i: node(c, "storage", "_volume", i))
watched("NodeThresholdParameter", lambda c, ts, i: node(c, "node", "_prev_flow", i), first=lambda c: z3.IntVal(0))
watched("ParameterThresholdParameter", lambda c, ts, i: par(c, i))
watched("CurrentYearThresholdParameter", lambda c, ts, i: z3.ToReal(c.old.get(ts, "year")))
watched("RecorderThresholdParameter", recorded, first=lambda c: c.old.get(c.self, "initial_value"))


@contract("P13", f"{M}:AbstractThresholdParameter.value", cls=f"{M}:StorageThresholdParameter", label="AbstractThresholdParameter.value")
def thr_value(c):
    si = c.si()
    k = indices_of(c, c.self, c.gid(si))
    none = c.old.isnone(c.self, "values")
    c.require(k >= 0, OR(none, k < c.old.dim(c.self, "values")))
    c.call(c.ts(), si)
    c.ensure_ret("the entry of the index", ITE(none, NAN, c.old.get(c.self, "values", k)))
    c.frame([])


@contract("P13", f"{M}:AbstractThresholdParameter.reset", cls=f"{M}:StorageThresholdParameter", label="AbstractThresholdParameter.reset")
def thr_reset(c):
    c.require(c.old.dim(c.self, "_triggered") == c.ncomb)
    i = c.idx("i", c.ncomb)
    c.call()
    c.ensure("nothing triggered", c.new.get(c.self, "_triggered", i) == 0)


def multiple(cls, val):
    @contract("P13", f"{M}:{cls}.index")
    def f(c):
        si = c.si(); i = c.gid(si)
        x = val(c, i)
        n = c.old.dim(c.self, "thresholds")
        c.require(n >= 0)
        t = lambda k: values_of(c, c.old.obj(c.self, "thresholds", k), i)
        want = c.first(n, lambda k: x >= t(k))
        c.call(c.ts(), si)
        c.ensure_ret("the first threshold the value is at or above", want)
        c.frame([])


def mparam(c, i):
    p = c.known(c.old.obj(c.self, "parameter"), "Parameter", exact=False)
    return values_of(c, p, i)


def mnode(c, i):
    n = c.known(c.old.obj(c.self, "node"), c.P.find_class("AbstractNode"), exact=False)
    return c.old.get(n, "_prev_flow", i)


multiple("MultipleThresholdIndexParameter", mnode)
multiple("MultipleThresholdParameterIndexParameter", mparam)
