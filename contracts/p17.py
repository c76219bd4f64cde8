"""P17: transforms evaluate their published formulae, and inverses invert."""
from common import *

G = z3.RealVal("9.81")
HP, HR = "pywr.parameters._hydropower", "pywr.recorders._hydropower"
AF, PO, PP, GW, PY = "pywr.parameters._activation_functions", "pywr.parameters._polynomial", "pywr.parameters._parameters", "pywr.parameters.groundwater", "pywr.parameters.parameters"
pos = lambda x: z3.If(x > 0, x, z3.RealVal(0))
NAMES = ("power", "water_elevation", "turbine_elevation", "efficiency", "flow_unit_conversion", "energy_unit_conversion", "density")


def hydro_args(c, first):
    return [c.double(n) for n in (first,) + NAMES[1:]]


@contract("P17", f"{HR}:hydropower_calculation")
def hydropower(c):
    q, we, te, eff, fc, ec, rho = hydro_args(c, "flow")
    c.call(q, we, te, eff, fc, ec, rho)
    c.ensure_ret("density * g * head * flow * efficiency in the units asked for", rho.t * (q.t * fc.t) * G * pos(we.t - te.t) * eff.t * ec.t)


@contract("P17", f"{HP}:inverse_hydropower_calculation")
def inverse(c):
    p, we, te, eff, fc, ec, rho = hydro_args(c, "power")
    head = pos(we.t - te.t)
    d = ec.t * rho.t * G * head * eff.t * fc.t
    c.call(p, we, te, eff, fc, ec, rho)
    q = c.ex.num(c.ret)
    c.ensure_ret("power over what a unit of flow produces, infinite without head", ITE(d == 0, INF, p.t / d))
    c.ensure("that flow produces the power (inverse of the recorder's equation)", z3.Implies(d != 0, rho.t * (q * fc.t) * G * head * eff.t * ec.t == p.t))


@contract("P17", f"{HP}:HydropowerTargetParameter.value")
def target(c):
    ts, si = c.ts(), c.si(); i = c.gid(si); v = c.old; s = c.self
    tgt, we, hi, lo = (v.obj(s, a) for a in ("_target", "_water_elevation_parameter", "_max_flow", "_min_flow"))
    c.require(tgt.t != NONE)
    power, te = values_of(c, tgt, i), v.get(s, "turbine_elevation")
    head = pos(z3.If(we.t != NONE, values_of(c, we, i) - te, te))
    d = v.get(s, "energy_unit_conversion") * v.get(s, "density") * G * head * v.get(s, "efficiency") * v.get(s, "flow_unit_conversion")
    q = ITE(d == 0, INF, power / d)
    q = z3.If(hi.t != NONE, mn(q, values_of(c, hi, i)), q)
    q = z3.If(lo.t != NONE, mx(q, values_of(c, lo, i)), q)
    low = head < v.get(s, "min_head")
    c.raises("AssertionError", AND(NOT(low), NOT(q >= 0)))
    c.call(ts, si)
    c.ensure_ret("the flow that produces the target within its limits, nothing below the minimum head", z3.If(low, z3.RealVal(0), q))
    c.frame([])


# ---- polynomials ---------------------------------------------------------------------------------------------------------
def power_of(c, x, k): return c.ex.lib.power(c.st, x, k)


def poly1(c, x, i):
    v, s = c.old, c.self
    n = v.dim(s, "coefficients")
    c.require(n >= 0)
    x = x * v.get(s, "scale") + v.get(s, "offset")
    return c.sum(n, lambda k: v.get(s, "coefficients", k) * power_of(c, x, k))


def poly_case(label, setup):
    @contract("P17", f"{PO}:Polynomial1DParameter.value", label=f"Polynomial1DParameter.value of {label}")
    def g(c):
        ts, si = c.ts(), c.si(); i = c.gid(si)
        x = setup(c, i, si)
        want = poly1(c, x, i)
        c.call(ts, si)
        c.ensure_ret("the polynomial of the scaled input", want)
        c.frame([])


def have(c, attr, yes):
    o = c.old.obj(c.self, attr)
    c.require(o.t != NONE if yes else o.t == NONE)
    return o


def of_parameter(c, i, si): return values_of(c, have(c, "_parameter", True), i)


def storage(c, prop):
    have(c, "_parameter", False)
    c.require(c.old.get(c.self, "use_proportional_volume") == z3.BoolVal(prop) if c.old.get(c.self, "use_proportional_volume").sort() == B else c.old.get(c.self, "use_proportional_volume") == (1 if prop else 0))
    return c.known(c.old.obj(c.self, "_storage_node"), c.P.find_class("Storage", "pywr._core"), exact=False)


def pcof(x): return z3.If(x == NAN, z3.RealVal(1), z3.If(x < 0, z3.RealVal(0), z3.If(x > 1, z3.RealVal(1), x)))
def of_volume(c, i, si): return c.old.get(storage(c, False), "_volume", i)
def of_pc(c, i, si): return pcof(c.old.get(storage(c, True), "_current_pc", i))


def of_node(c, i, si):
    have(c, "_parameter", False); have(c, "_storage_node", False)
    return c.old.get(have(c, "_other_node", True), "_flow", i)


for lab, f in (("a parameter", of_parameter), ("a volume", of_volume), ("a proportional volume", of_pc), ("a node's flow", of_node)): poly_case(lab, f)


def poly2(prop):
    @contract("P17", f"{PO}:Polynomial2DStorageParameter.value", label=f"Polynomial2DStorageParameter.value of the {'proportional ' if prop else ''}volume")
    def g(c):
        ts, si = c.ts(), c.si(); i = c.gid(si); v, s = c.old, c.self
        up = v.get(s, "use_proportional_volume")
        c.require(up == z3.BoolVal(prop) if up.sort() == B else up == (1 if prop else 0))
        st = c.known(v.obj(s, "_storage_node"), c.P.find_class("Storage", "pywr._core"), exact=False)
        x = pcof(v.get(st, "_current_pc", i)) if prop else v.get(st, "_volume", i)
        y = values_of(c, have(c, "_parameter", True), i)
        x = v.get(s, "storage_scale") * x + v.get(s, "storage_offset"); y = v.get(s, "parameter_scale") * y + v.get(s, "parameter_offset")
        n, m = v.dim(s, "coefficients", 0), v.dim(s, "coefficients", 1)
        c.require(n >= 0, m >= 0)
        step = lambda a: c.fold(n, a, lambda k, acc: c.fold(m, acc, lambda j, z: z + v.get(s, "coefficients", k, j) * power_of(c, x, k) * power_of(c, y, j)))
        want = step(z3.RealVal(0))
        c.call(ts, si)
        c.ensure_ret("the double sum of coefficient * volume^i * parameter^j", want)
        c.frame([])


poly2(False); poly2(True)


# ---- activation functions ----------------------------------------------------------------------------------------------------
def activation(cls, f):
    for meth in ("get_constant_value", "value"):
        @contract("P17", f"{AF}:{cls}.{meth}")
        def g(c, meth=meth):
            want = f(c, lambda a: c.old.get(c.self, a))
            c.call(*([c.ts(), c.si()] if meth == "value" else []))
            c.ensure_ret("published formula of the internal variable", want)
            c.frame([])


def rectifier(c, v):
    c.require(v("_upper_bounds") > 0)
    return z3.If(v("_value") > 0, v("min_output") + (v("max_output") - v("min_output")) * v("_value") / v("_upper_bounds"), z3.RealVal(0))


def logistic(c, v):
    e = c.ex.lib.math1(c.st, "exp", -v("growth_rate") * v("_value"))
    c.require(e > 0)
    return v("max_output") / (1 + e)


activation("BinaryStepParameter", lambda c, v: z3.If(v("_value") > 0, v("output"), z3.RealVal(0)))
activation("RectifierParameter", rectifier)
activation("LogisticParameter", logistic)


# ---- others --------------------------------------------------------------------------------------------------------------------
@contract("P17", f"{PP}:DiscountFactorParameter.value")
def discount(c):
    ts, si = c.ts(), c.si(); v = c.old
    p = c.pow(1 + v.get(c.self, "rate"), z3.ToReal(v.get(ts, "year") - v.get(c.self, "base_year")))
    c.require(p != 0)
    c.call(ts, si)
    c.ensure_ret("1 / (1 + rate)^(year - base year)", 1 / p)
    c.frame([])


@contract("P17", f"{PP}:PiecewiseIntegralParameter.value")
def integral(c):
    ts, si = c.ts(), c.si(); i = c.gid(si); v, s = c.old, c.self
    x = values_of(c, have(c, "parameter", True), i)
    n = v.dim(s, "x")
    c.require(n >= 0, v.dim(s, "y") == n)
    X, Y = (lambda k: v.get(s, "x", k)), (lambda k: v.get(s, "y", k))
    lo = lambda k: z3.If(k > 0, X(k - 1), z3.RealVal(0))
    width = lambda k: mn(x, X(k)) - lo(k)
    j = c.first(n, lambda k: width(k) < 0)
    want = c.sum(z3.If(j < n, j, n), lambda k: width(k) * Y(k))
    c.call(ts, si)
    c.ensure_ret("area under the steps up to the value", want)
    c.frame([])


@contract("P17", f"{GW}:KeatingStreamFlowParameter.value")
def keating(c):
    ts, si = c.ts(), c.si(); i = c.gid(si); v, s = c.old, c.self
    n = v.dim(s, "levels")
    c.require(n >= 0, v.dim(s, "transmissivity") == n)
    level = c.free("level")
    c.known(v.obj(c.known(v.obj(s, "storage_node"), c.P.find_class("Storage", "pywr._core"), exact=False), "_level_param"), "Parameter", exact=False)
    c.ex.side["methods"]["Parameter.value"] = lambda e, st, o, a, k: S(level, "double")
    T = lambda k: v.get(s, "transmissivity", k) * v.get(s, "coefficient")
    want = c.sum(n, lambda k: z3.If(level > v.get(s, "levels", k), 2 * T(k) * (level - v.get(s, "levels", k)), z3.RealVal(0)))
    c.call(ts, si)
    c.ensure_ret("sum over the stream levels below the water level of 2 T C (h - level)", want)
    c.frame([])


@contract("P17", f"{PY}:ScenarioWrapperParameter.value")
def wrapper(c):
    ts, si = c.ts(), c.si(); i = c.gid(si)
    m = member(c, si)
    n = c.old.dim(c.self, "parameters")
    c.require(m >= 0, m < n)
    want = values_of(c, c.old.obj(c.self, "parameters", m), i)
    c.call(ts, si)
    c.ensure_ret("value of the parameter of the scenario's member", want)
    c.frame([])


def interpolator(c):
    """The interpolation function itself is scipy's (assumed); integration is scipy's quad of it."""
    f = c.ex.lib.fn("interp1d", R, R)
    q = c.ex.lib.fn("quad", R, R, R)
    it = Fn("ext", name="interp1d")
    c.ex.side["attr"]["AbstractInterpolatedParameter.interp"] = lambda e, st, o: it
    c.ex.side["ext"]["interp1d"] = lambda e, st, a, k: S(f(real(e.num(a[0]))), "double")
    def quad(e, st, a, k):
        if a[0] is not it: raise Unsupported("quad of another function")
        return T([S(q(real(e.num(a[1])), real(e.num(a[2]))), "double"), S(c.free("quad_error"), "double")])
    c.ex.side["ext"]["scipy.integrate.quad"] = quad
    c.ex.assumed.add("scipy.interpolate.interp1d and scipy.integrate.quad: the interpolation and its integral (exercised by the driver)")
    return f, q


def interp(cls, setup):
    @contract("P17", f"{PY}:{cls}.value")
    def g(c):
        ts, si = c.ts(), c.si(); i = c.gid(si)
        f, _ = interpolator(c)
        x = setup(c, i)
        c.call(ts, si)
        c.ensure_ret("interpolated at the input of the scenario", f(x))
        c.frame([])


def node_of(cls, mod, attr):
    return lambda c, i: c.old.get(c.known(c.old.obj(c.self, "_node"), c.P.find_class(cls, mod), exact=False), attr, i)


interp("InterpolatedParameter", lambda c, i: values_of(c, have(c, "_parameter", True), i))
interp("InterpolatedVolumeParameter", node_of("Storage", "pywr._core", "_volume"))
interp("InterpolatedFlowParameter", node_of("AbstractNode", "pywr._core", "_prev_flow"))


@contract("P17", f"{PY}:InterpolatedQuadratureParameter.value")
def quadrature(c):
    ts, si = c.ts(), c.si(); i = c.gid(si)
    _, q = interpolator(c)
    lo = c.old.obj(c.self, "_lower_parameter")
    hi = values_of(c, have(c, "_upper_parameter", True), i)
    c.call(ts, si)
    c.ensure_ret("the integral from the lower value (0 without one) to the upper value", q(z3.If(lo.t == NONE, z3.RealVal(0), values_of(c, lo, i)), hi))
    c.frame([])
