"""P18: optimisation variables round-trip and stay inside their declared bounds."""
from common import *

PP, AF, CC = "pywr.parameters._parameters", "pywr.parameters._activation_functions", "pywr.parameters._control_curves"


def no_super(c):
    """The base constructor sets the name, model and comment only (its own attributes)."""
    c.ex.side["methods"]["Parameter.__init__!super"] = lambda e, st, o, a, k: NV
    c.ex.assumed.add("Parameter.__init__ sets only attributes of the base classes")


def vector(c, n, ty="double", name="variables"): return c.array(name, n, ty)


def roundtrip(mod, cls, size, value=None, kind="double"):
    """set then get gives the vector back; the value afterwards is the documented function of the vector."""
    @contract("P18", f"{mod}:{cls}.set_{kind}_variables")
    def g(c):
        n = size(c)
        x = vector(c, n, kind if kind == "double" else "int")
        n = n if isinstance(n, z3.ExprRef) else z3.IntVal(n)
        at = lambda k: c.old.rd(x, k if isinstance(k, z3.ExprRef) else z3.IntVal(k))
        ts, si = cal(c), c.si()
        pre = value(c, ts, si, at) if value is not None else None
        c.call(x)
        c.method(f"get_{kind}_variables")
        c.ensure_array("reading back", n, at)
        if pre is not None:
            c.method("value", ts, si)
            c.ensure("value implied by the vector", c.ex.num(c.ret) == pre)


one = lambda c: 1
V = lambda c, a: c.old.get(c.self, a)
roundtrip(PP, "ConstantParameter", one, lambda c, ts, si, x: V(c, "offset") + x(0) * V(c, "scale"))
roundtrip(PP, "OffsetParameter", one)
roundtrip(AF, "BinaryStepParameter", one, lambda c, ts, si, x: z3.If(x(0) > 0, V(c, "output"), z3.RealVal(0)))


def rect(c, ts, si, x):
    c.require(V(c, "_upper_bounds") > 0)
    return z3.If(x(0) > 0, V(c, "min_output") + (V(c, "max_output") - V(c, "min_output")) * x(0) / V(c, "_upper_bounds"), z3.RealVal(0))


def logi(c, ts, si, x):
    e = c.ex.lib.math1(c.st, "exp", -V(c, "growth_rate") * x(0))
    c.require(e > 0)
    return V(c, "max_output") / (1 + e)


roundtrip(AF, "RectifierParameter", one, rect)
roundtrip(AF, "LogisticParameter", one, logi)


def twelve(c):
    c.require(c.old.dim(c.self, "_values") == 12)
    return 12


def month(c, ts, si, x):
    c.require(c.isnone_any(c.self, "interp_day"))
    return x(c.old.get(ts, "month") - 1)


roundtrip(PP, "MonthlyProfileParameter", twelve, month)
roundtrip(PP, "RbfProfileParameter", lambda c: (c.require(c.old.dim(c.self, "_values") >= 3), c.old.dim(c.self, "_values"))[1])


def harmonics(c):
    n = c.old.dim(c.self, "_amplitudes")
    c.require(n >= 0, c.old.dim(c.self, "_phases") == n)
    return 1 + 2 * n


def harmonic(c, ts, si, x):
    n = c.old.dim(c.self, "_amplitudes")
    c.require(V(c, "_ts_index_cache") == -1)         # reset() since the last timestep
    doy = c.old.get(ts, "dayofyear") - 1
    pi = z3.Const("pi!", R)
    cos = lambda y: c.ex.lib.math1(c.st, "cos", y)
    return x(0) + c.sum(n, lambda k: x(1 + k) * cos(z3.ToReal(doy * (k + 1)) * pi * 2 / 365 + x(1 + n + k)))


roundtrip(PP, "AnnualHarmonicSeriesParameter", harmonics, harmonic)


def valid_indices(c):
    """variable_indices: positions of the values (any sequence of valid positions)."""
    n, m = c.old.dim(c.self, "_variable_indices"), c.old.dim(c.self, "_values")
    c.require(n >= 1, m >= 1, V(c, "double_size") == n)
    w = c.ex.lib.fn("variable_index", I, I)
    at = lambda k: z3.If(AND(w(k) >= 0, w(k) < m), w(k), z3.IntVal(0))
    j = c.L.placeholder("j", I)
    arr = c.L.lam([j], at(j))
    c.rule("ControlCurveParameter._variable_indices", lambda r: arr)
    return n, m, at


@contract("P18", f"{CC}:ControlCurveParameter.set_double_variables")
def control_curve_set(c):
    n, m, ix = valid_indices(c)
    x = vector(c, n); j = c.idx("j", m)
    at = lambda k: c.old.rd(x, k)
    want = c.fold(n, c.old.get(c.self, "_values", j), lambda k, a: z3.If(ix(k) == j, at(k), a))
    c.call(x)
    c.ensure("the values at the variable positions are those of the vector, the others are kept", c.new.get(c.self, "_values", j) == want)
    c.frame([("ControlCurveParameter._values", c.self.t)])


@contract("P18", f"{CC}:ControlCurveParameter.get_double_variables")
def control_curve_get(c):
    n, m, ix = valid_indices(c)
    c.call()
    c.ensure_array("the values at the variable positions", n, lambda k: c.old.get(c.self, "_values", ix(k)))
    c.frame([])


# ---- sizes and bounds ------------------------------------------------------------------------------------------------------
def bounded(mod, cls, args, getters=True):
    for which in ("lower", "upper"):
        @contract("P18", f"{mod}:{cls}.get_double_{which}_bounds")
        def g(c, which=which):
            n, f = args(c, which)
            c.call()
            c.ensure_array("bounds", n, f)
            c.frame([])


def stored(c, which):
    return c.old.dim(c.self, f"_{which}_bounds"), lambda k: V(c, f"_{which}_bounds") if False else c.old.get(c.self, f"_{which}_bounds", k)


def scalar(c, which):
    c.require(V(c, "double_size") == 1)
    return z3.IntVal(1), lambda k: V(c, f"_{which}_bounds")


for q in ("ConstantParameter", "OffsetParameter", "MonthlyProfileParameter", "RbfProfileParameter"): bounded(PP, q, stored)
for q in ("BinaryStepParameter", "RectifierParameter", "LogisticParameter"): bounded(AF, q, scalar)


def segments(c, which):
    n = c.old.dim(c.self, "_amplitudes")
    a, p = f"_amplitude_{which}_bounds", f"_phase_{which}_bounds"
    c.require(n >= 0, c.old.dim(c.self, a) == n, c.old.dim(c.self, p) == n)
    return 1 + 2 * n, lambda k: z3.If(k == 0, V(c, f"_mean_{which}_bounds"), z3.If(k <= n, c.old.get(c.self, a, k - 1), c.old.get(c.self, p, k - 1 - n)))


bounded(PP, "AnnualHarmonicSeriesParameter", segments)


# ---- construction: as many bounds as variables -----------------------------------------------------------------------------------
def built(mod, cls, args, size, check=None):
    @contract("P18", f"{mod}:{cls}.__init__")
    def g(c):
        no_super(c)
        m = c.new_obj("model", "Model")
        lo, hi = c.double("lo"), c.double("hi")
        n, a, kw = args(c)
        c.call(m, *a, lower_bounds=lo, upper_bounds=hi, **kw)
        v, s = c.new, c.self
        k = c.idx("k", n)
        c.ensure("number of variables", v.get(s, "double_size") == n)
        if size == "array":
            c.ensure("as many lower bounds", v.dim(s, "_lower_bounds") == n); c.ensure("as many upper bounds", v.dim(s, "_upper_bounds") == n)
            c.ensure("the bounds asked for", AND(v.get(s, "_lower_bounds", k) == lo.t, v.get(s, "_upper_bounds", k) == hi.t))
        else: c.ensure("the bounds asked for", AND(v.get(s, "_lower_bounds") == lo.t, v.get(s, "_upper_bounds") == hi.t))


built(PP, "ConstantParameter", lambda c: (z3.IntVal(1), [c.double("value")], {}), "array")
built(AF, "BinaryStepParameter", lambda c: (z3.IntVal(1), [], {"value": c.double("value")}), "scalar")
built(AF, "RectifierParameter", lambda c: (z3.IntVal(1), [], {"value": c.double("value")}), "scalar")
built(AF, "LogisticParameter", lambda c: (z3.IntVal(1), [], {"value": c.double("value")}), "scalar")
built(PP, "MonthlyProfileParameter", lambda c: (z3.IntVal(12), [vector(c, 12, name="profile")], {}), "array")


def no_family(c):
    """Parents and children are kept by Component (P08); they do not matter here."""
    c.ex.side["attr"]["Component.children"] = lambda e, st, o: FAMILY
    c.ex.side["attr"]["Component.parents"] = lambda e, st, o: FAMILY


FAMILY = Fn("family", name="family")


@contract("P18", f"{PP}:AnnualHarmonicSeriesParameter.__init__")
def harmonic_init(c):
    no_super(c)
    m = c.new_obj("model", "Model")
    n = c.idx("n", 1 << 30)
    a, p = vector(c, n, name="amplitudes"), vector(c, n, name="phases")
    b = {k: c.double(k) for k in ("mean_lower_bounds", "mean_upper_bounds", "amplitude_lower_bounds", "amplitude_upper_bounds", "phase_lower_bounds", "phase_upper_bounds")}
    mean = c.double("mean"); k = c.idx("k", n)
    c.call(m, mean, a, p, **b)
    v, s = c.new, c.self
    c.ensure("number of variables", v.get(s, "double_size") == 1 + 2 * n)
    for q in ("amplitude_lower_bounds", "amplitude_upper_bounds", "phase_lower_bounds", "phase_upper_bounds"):
        c.ensure(f"{q}", AND(v.dim(s, "_" + q) == n, v.get(s, "_" + q, k) == b[q].t))
    c.ensure("bounds of the mean", AND(v.get(s, "_mean_lower_bounds") == b["mean_lower_bounds"].t, v.get(s, "_mean_upper_bounds") == b["mean_upper_bounds"].t))
    c.ensure("the vector given", AND(v.get(s, "mean") == mean.t, v.dim(s, "_amplitudes") == n, v.dim(s, "_phases") == n, v.get(s, "_amplitudes", k) == c.old.rd(a, k), v.get(s, "_phases", k) == c.old.rd(p, k)))


@contract("P18", f"{PP}:RbfProfileParameter.set_integer_variables")
def rbf_set_int(c):
    n = c.idx("n", 400)
    c.require(n >= 2)
    x = vector(c, n, "int")
    at = lambda k: c.old.rd(x, k if isinstance(k, z3.ExprRef) else z3.IntVal(k))
    day = lambda k: z3.If(k == 0, z3.IntVal(1), at(k - 1))
    c.raises("ValueError", OR(c.any(n, lambda k: day(k + 1) - day(k) <= 0), c.any(n + 1, lambda k: OR(day(k) < 0, day(k) > 365))))
    c.call(x)
    c.method("get_integer_variables")
    c.ensure_array("reading back", n, at)
