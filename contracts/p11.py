"""P11: control curves select or interpolate by position of the storage between curves."""
from common import *

M = "pywr.parameters._control_curves"


def pc(c, attr, i):
    """The storage's proportion as control curves see it: clamped to [0, 1], full when unknown."""
    s = c.known(c.old.obj(c.self, attr), c.P.find_class("Storage", "pywr._core"), exact=False)
    x = c.old.get(s, "_current_pc", i)
    return z3.If(x == NAN, z3.RealVal(1), z3.If(x < 0, z3.RealVal(0), z3.If(x > 1, z3.RealVal(1), x)))


def curves(c, i, key="_control_curves"):
    n = c.old.dim(c.self, key)
    c.require(n >= 0)
    return n, lambda k: values_of(c, c.old.obj(c.self, key, k), i)


@contract("P11", f"{M}:ControlCurveParameter.value", label="ControlCurveParameter.value of values")
def cc_values(c):
    si = c.si(); i = c.gid(si)
    p = pc(c, "_storage_node", i)
    n, cc = curves(c, i)
    c.require(c.isnone_any(c.self, "parameters"), c.old.dim(c.self, "_values") == n + 1)
    j = c.first(n, lambda k: p >= cc(k))
    c.call(c.ts(), si)
    c.ensure_ret("the value of the first curve the storage is at or above", c.old.get(c.self, "_values", j))
    c.frame([])


@contract("P11", f"{M}:ControlCurveParameter.value", label="ControlCurveParameter.value of parameters")
def cc_params(c):
    si = c.si(); i = c.gid(si)
    p = pc(c, "_storage_node", i)
    n, cc = curves(c, i)
    c.require(NOT(c.isnone_any(c.self, "parameters")), c.old.dim(c.self, "parameters") == n + 1)
    j = c.first(n, lambda k: p >= cc(k))
    c.call(c.ts(), si)
    c.ensure_ret("the parameter of the first curve the storage is at or above", values_of(c, c.old.obj(c.self, "parameters", j), i))
    c.frame([])


@contract("P11", f"{M}:ControlCurveIndexParameter.index")
def cc_index(c):
    si = c.si(); i = c.gid(si)
    p = pc(c, "storage_node", i)
    n, cc = curves(c, i)
    j = c.first(n, lambda k: p >= cc(k))
    c.call(c.ts(), si)
    c.ensure_ret("the index of the first curve the storage is at or above", j)
    c.frame([])


def bounds(c, n, cc, j, top, bottom):
    hi = z3.If(j == 0, top, cc(j - 1))
    lo = z3.If(j == n, bottom, cc(j))
    return hi, lo


def interpolated(c, j, n, cc, p, val):
    hi, lo = bounds(c, n, cc, j, z3.RealVal(1), z3.RealVal(0))
    w = (p - lo) / (hi - lo)
    return z3.If(hi == lo, z3.If(j == n, val(n), val(j + 1)), val(j) * w + val(j + 1) * (1 - w))


@contract("P11", f"{M}:ControlCurveInterpolatedParameter.value", label="ControlCurveInterpolatedParameter.value of values")
def cci_values(c):
    si = c.si(); i = c.gid(si)
    p = pc(c, "_storage_node", i)
    n, cc = curves(c, i)
    c.require(c.isnone_any(c.self, "parameters"), c.old.dim(c.self, "_values") == n + 2)
    j = c.first(n, lambda k: p >= cc(k))
    c.call(c.ts(), si)
    c.ensure_ret("linear interpolation between the bounding curves", interpolated(c, j, n, cc, p, lambda k: c.old.get(c.self, "_values", k)))
    c.frame([])


@contract("P11", f"{M}:ControlCurveInterpolatedParameter.value", label="ControlCurveInterpolatedParameter.value of parameters")
def cci_params(c):
    si = c.si(); i = c.gid(si)
    p = pc(c, "_storage_node", i)
    n, cc = curves(c, i)
    c.require(NOT(c.isnone_any(c.self, "parameters")), c.old.dim(c.self, "parameters") == n + 2)
    j = c.first(n, lambda k: p >= cc(k))
    c.call(c.ts(), si)
    c.ensure_ret("linear interpolation between the bounding curves",
                 interpolated(c, j, n, cc, p, lambda k: values_of(c, c.old.obj(c.self, "parameters", k), i)))
    c.frame([])


def between(x, lo, hi, a, b):
    """Interpolation from a (at lo) to b (at hi), held beyond the ends."""
    return z3.If(x < lo, a, z3.If(x > hi, b, z3.If(hi == lo, a, a + (b - a) * ((x - lo) / (hi - lo)))))


@contract("P11", f"{M}:_interpolate")
def interp(c):
    x, lo, hi, a, b = (c.double(n) for n in ("x", "lo", "hi", "a", "b"))
    c.call(x, lo, hi, a, b)
    c.ensure_ret("linear interpolation, held beyond the ends", between(x.t, lo.t, hi.t, a.t, b.t))
    c.ensure("within the two values", AND(c.ex.num(c.ret) >= mn(a.t, b.t), c.ex.num(c.ret) <= mx(a.t, b.t)))


@contract("P11", f"{M}:ControlCurvePiecewiseInterpolatedParameter.value")
def ccp(c):
    si = c.si(); i = c.gid(si)
    p = pc(c, "_storage_node", i)
    n, cc = curves(c, i)
    c.require(c.old.dim(c.self, "_values", 0) == n + 1, c.old.dim(c.self, "_values", 1) == 2)
    j = c.first(n, lambda k: p >= cc(k))
    hi, lo = bounds(c, n, cc, j, c.old.get(c.self, "maximum"), c.old.get(c.self, "minimum"))
    v = lambda a: c.old.get(c.self, "_values", j, z3.IntVal(a))
    c.call(c.ts(), si)
    c.ensure_ret("interpolation between the pair of values of the band", between(p, lo, hi, v(1), v(0)))
    c.frame([])


@contract("P11", f"{M}:WeightedAverageProfileParameter.value")
def wap(c):
    ts, si = c.ts(), c.si()
    d = c.old.get(ts, "dayofyear_index")
    c.require(d >= 0, d < c.old.dim(c.self, "daily_values"))
    c.call(ts, si)
    c.ensure_ret("value of the day", c.old.get(c.self, "daily_values", d))
    c.frame([])
