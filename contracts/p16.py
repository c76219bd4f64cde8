"""P16: a licence never permits more than remains of its allowance."""
from common import *

M = "pywr.parameters.licenses"


@contract("P16", f"{M}:TimestepLicense.value")
def timestep_licence(c):
    c.call(c.ts(), c.si())
    c.ensure_ret("the fixed amount", c.old.get(c.self, "_amount"))
    c.frame([])


def rem(c, i, v=None): return (v or c.old).get(c.self, "_remaining", i)


def shape(c): c.require(c.old.dim(c.self, "_remaining") == c.ncomb)


def node(c): return c.known(c.old.obj(c.self, "_node"), c.P.find_class("AbstractNode"), exact=False)


@contract("P16", f"{M}:StorageLicense.value")
def storage_value(c):
    si = c.si(); shape(c)
    c.call(c.ts(), si)
    c.ensure_ret("what remains", rem(c, c.gid(si)))
    c.frame([])


@contract("P16", f"{M}:StorageLicense.reset")
def storage_reset(c):
    shape(c); i = c.idx("i", c.ncomb)
    c.call()
    c.ensure("the full allowance", rem(c, i, c.new) == c.old.get(c.self, "_amount"))
    c.frame([("StorageLicense._remaining", c.self.t)])


def current(c):
    m = c.old.obj(c.self, "model")
    tp = c.old.obj(m, "timestepper")
    c.require(m.t != NONE, tp.t != NONE)
    return c.known(c.old.obj(tp, "_current"), "Timestep")


@contract("P16", f"{M}:StorageLicense.after")
def storage_after(c):
    shape(c); i = c.idx("i", c.ncomb)
    n, ts = node(c), current(c)
    left = rem(c, i) - c.old.get(n, "_flow", i) * c.old.get(ts, "days")
    c.call()
    c.ensure("what was taken is deducted, down to nothing", rem(c, i, c.new) == z3.If(left < 0, z3.RealVal(0), left))
    c.frame([("StorageLicense._remaining", c.self.t)])


def year_left(c, ts):
    """Days of the year from this one on (this one included)."""
    y, d = c.old.get(ts, "year"), c.old.get(ts, "dayofyear")
    n = z3.If(leap(y), z3.IntVal(366), z3.IntVal(365))
    c.require(d >= 1, d <= n, y >= 1)
    return n, n - d + 1


def spread(c, ts, i):
    n, left = year_left(c, ts)
    return rem(c, i) / z3.ToReal(left)


@contract("P16", f"{M}:AnnualLicense.value")
def annual_value(c):
    ts, si = c.ts(), c.si(); shape(c)
    want = spread(c, ts, c.gid(si))
    c.call(ts, si)
    c.ensure_ret("what remains, spread over the rest of the year", want)
    c.frame([])


@contract("P16", f"{M}:AnnualLicense.before")
def annual_before(c):
    shape(c); i = c.idx("i", c.ncomb)
    n, ts = node(c), current(c)
    y, d, amount = c.old.get(ts, "year"), c.old.get(ts, "dayofyear"), c.old.get(c.self, "_amount")
    c.require(d >= 1)
    new = OR(c.isnone_any(c.self, "_prev_year"), c.old.get(c.self, "_prev_year") != y)
    left = amount - z3.ToReal(d - 1) * c.old.get(n, "_prev_flow", i)
    c.call()
    c.ensure("renewed exactly when the year changes, less what the step across the year end took this year",
             rem(c, i, c.new) == z3.If(new, z3.If(left < 0, z3.RealVal(0), left), rem(c, i)))
    c.ensure("remembers the year", AND(c.new.get(c.self, "_prev_year") == y, NOT(c.isnone_any(c.self, "_prev_year", c.new))))
    c.frame([("StorageLicense._remaining", c.self.t), ("AnnualLicense._prev_year", c.self.t)])


def ratio(c, ts, i):
    n, left = year_left(c, ts)
    return (rem(c, i) / z3.ToReal(left)) / (c.old.get(c.self, "_amount") / z3.ToReal(n))


@contract("P16", f"{M}:AnnualExponentialLicense.value")
def exponential(c):
    ts, si = c.ts(), c.si(); shape(c)
    k = c.old.get(c.self, "_k")
    c.require(k != 0, c.old.get(c.self, "_amount") != 0)
    x = ratio(c, ts, c.gid(si))
    c.call(ts, si)
    c.ensure_ret("max_value * exp(-x / k)", c.old.get(c.self, "_max_value") * c.ex.lib.math1(c.st, "exp", -x / k))
    c.frame([])


@contract("P16", f"{M}:AnnualHyperbolaLicense.value")
def hyperbola(c):
    ts, si = c.ts(), c.si(); shape(c)
    c.require(c.old.get(c.self, "_amount") != 0)
    x = ratio(c, ts, c.gid(si))
    c.call(ts, si)
    c.ensure_ret("value / x", ITE(x == 0, INF, c.old.get(c.self, "_value") / x))
    c.frame([])
