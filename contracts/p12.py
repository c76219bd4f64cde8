"""P12: arithmetic parameters compute their documented function of the current inputs."""
from common import *

M = "pywr.parameters._parameters"


def own(c, i, v=None): return values_of(c, c.self, i, v or c.new)
def ownidx(c, i, v=None): return indices_of(c, c.self, i, v or c.new)
FRAME = lambda c: c.frame([("Parameter.__values", c.self.t)])


# ---- the value a parameter has is the one calculated for that scenario -------------------------------------------------
@contract("P12", f"{M}:Parameter.get_value")
def get_value(c):
    si = c.si()
    c.call(si)
    c.ensure_ret("value of the scenario", values_of(c, c.self, c.gid(si)))
    c.frame([])


@contract("P12", f"{M}:Parameter.get_all_values")
def get_all_values(c):
    c.call()
    c.ensure_array("values", c.ncomb, lambda i: values_of(c, c.self, i))
    c.frame([])


@contract("P12", f"{M}:IndexParameter.get_index")
def get_index(c):
    si = c.si()
    c.call(si)
    c.ensure_ret("index of the scenario", indices_of(c, c.self, c.gid(si)))
    c.frame([])


@contract("P12", f"{M}:IndexParameter.value")
def index_value(c):
    si = c.si()
    c.call(c.ts(), si)
    c.ensure_ret("index as a number", z3.ToReal(indices_of(c, c.self, c.gid(si))))
    c.frame([])


# ---- constants -----------------------------------------------------------------------------------------------------------
def constant(c): return c.old.get(c.self, "offset") + c.old.get(c.self, "_value") * c.old.get(c.self, "scale")


@contract("P12", f"{M}:ConstantParameter.get_constant_value")
def const_value(c):
    c.call()
    c.ensure_ret("offset plus scaled value", constant(c))
    c.frame([])


@contract("P12", f"{M}:ConstantParameter.value")
def const_value2(c):
    c.call(c.ts(), c.si())
    c.ensure_ret("offset plus scaled value", constant(c))
    c.frame([])


@contract("P12", f"{M}:ConstantParameter.calc_values")
def const_calc(c):
    i = c.idx("i", c.ncomb)
    c.call(c.ts())
    c.ensure("every scenario", own(c, i) == constant(c))
    FRAME(c)


# ---- functions of one or two parameters ------------------------------------------------------------------------------------
def unary(cls, f):
    @contract("P12", f"{M}:{cls}.calc_values")
    def g(c):
        p = c.old.obj(c.self, "parameter")
        c.require(p.t != NONE)
        i = c.idx("i", c.ncomb)
        x = values_of(c, p, i)
        want = f(c, x)
        c.call(c.ts())
        c.ensure("documented function", own(c, i) == want)
        FRAME(c)


th = lambda c: c.old.get(c.self, "threshold")
unary("NegativeParameter", lambda c, x: -x)
unary("MaxParameter", lambda c, x: mx(x, th(c)))
unary("NegativeMaxParameter", lambda c, x: mx(-x, th(c)))
unary("MinParameter", lambda c, x: mn(x, th(c)))
unary("NegativeMinParameter", lambda c, x: mn(-x, th(c)))
unary("OffsetParameter", lambda c, x: x + c.old.get(c.self, "offset"))


@contract("P12", f"{M}:DivisionParameter.calc_values")
def division(c):
    p, q = c.old.obj(c.self, "_numerator"), c.old.obj(c.self, "_denominator")
    c.require(p.t != NONE, q.t != NONE)
    i = c.idx("i", c.ncomb)
    a, b = values_of(c, p, i), values_of(c, q, i)
    zero = c.any(c.ncomb, lambda k: values_of(c, q, k) == 0)
    c.raises("ZeroDivisionError", zero)
    c.noself("DivisionParameter._numerator", "DivisionParameter._denominator")
    c.call(c.ts())
    c.ensure("quotient", own(c, i) == a / b)
    FRAME(c)


# ---- aggregates ------------------------------------------------------------------------------------------------------------
def agg(cls, name, spec, index=False):
    @contract("P12", f"{M}:{cls}.calc_values", label=f"{cls}.calc_values {name}")
    def g(c):
        c.noself(f"{cls}.parameters")
        n = c.old.dim(c.self, "parameters")
        c.require(n >= 1)
        c.setval(c.self, "_agg_func", c.enum("AggFuncs", name))
        m = lambda k: c.old.obj(c.self, "parameters", k)
        i = c.idx("i", c.ncomb)
        val = (lambda k: indices_of(c, m(k), i)) if index else (lambda k: values_of(c, m(k), i))
        want = spec(c, n, val)
        c.call(c.ts())
        if index:
            c.ensure("aggregate of the members' indices", ownidx(c, i) == want)
            c.ensure("value", own(c, i) == z3.ToReal(want))
            c.frame([("IndexParameter.__indices", c.self.t), ("Parameter.__values", c.self.t)])
        else:
            c.ensure("aggregate of the members' values", own(c, i) == want)
            FRAME(c)


def prod(c, n, f):
    one = z3.RealVal(1)
    if f(z3.IntVal(0)).sort() == I: one = z3.IntVal(1)
    return c.fold(n, one, lambda k, acc: acc * f(k))


def isum(c, n, f): return c.fold(n, z3.IntVal(0) if f(z3.IntVal(0)).sort() == I else z3.RealVal(0), lambda k, acc: acc + f(k))
def biggest(lo): return lambda c, n, f: c.fold(n, lo, lambda k, acc: z3.If(f(k) > acc, f(k), acc))
def smallest(hi): return lambda c, n, f: c.fold(n, hi, lambda k, acc: z3.If(f(k) < acc, f(k), acc))


agg("AggregatedParameter", "SUM", isum)
agg("AggregatedParameter", "PRODUCT", prod)
agg("AggregatedParameter", "MEAN", lambda c, n, f: isum(c, n, f) / z3.ToReal(n))
agg("AggregatedParameter", "MAX", biggest(-INF))
agg("AggregatedParameter", "MIN", smallest(INF))
agg("AggregatedParameter", "MEDIAN", lambda c, n, f: c.opq("median", n, f))
IMAX, IMIN = z3.IntVal(2**31 - 1), z3.IntVal(-2**31)
agg("AggregatedIndexParameter", "SUM", isum, True)
agg("AggregatedIndexParameter", "PRODUCT", prod, True)
agg("AggregatedIndexParameter", "MAX", biggest(IMIN), True)
agg("AggregatedIndexParameter", "MIN", smallest(IMAX), True)
agg("AggregatedIndexParameter", "ANY", lambda c, n, f: ITE(c.any(n, lambda k: f(k) != 0), z3.IntVal(1), z3.IntVal(0)), True)
agg("AggregatedIndexParameter", "ALL", lambda c, n, f: ITE(c.all(n, lambda k: f(k) != 0), z3.IntVal(1), z3.IntVal(0)), True)


# ---- selection by index ------------------------------------------------------------------------------------------------------
@contract("P12", f"{M}:IndexedArrayParameter.value")
def indexed(c):
    si = c.si()
    ip = c.old.obj(c.self, "index_parameter")
    c.require(ip.t != NONE)
    j = indices_of(c, ip, c.gid(si))
    n = c.old.dim(c.self, "params")
    c.require(j >= 0, j < n)
    c.call(c.ts(), si)
    c.ensure_ret("the entry the index selects", values_of(c, c.old.obj(c.self, "params", j), c.gid(si)))
    c.frame([])


# ---- the default calculation asks every scenario for its value ----------------------------------------------------------------
@contract("P12", f"{M}:Parameter.calc_values", cls=f"{M}:ConstantParameter", label="Parameter.calc_values (default)")
def default_calc(c):
    i = c.idx("i", c.ncomb)
    c.call(c.ts())
    c.ensure("value(timestep, scenario) of every scenario", own(c, i) == constant(c))
    FRAME(c)


@contract("P12", f"{M}:StorageParameter.value")
def storage_parameter(c):
    si = c.si(); i = c.gid(si)
    s = c.old.obj(c.self, "storage_node")
    c.require(s.t != NONE)
    prop = c.old.get(c.self, "use_proportional_volume")
    x = c.old.get(s, "_current_pc", i)
    c.call(c.ts(), si)
    c.ensure_ret("volume at the start of the step", ITE(prop, x, c.old.get(s, "_volume", i)))
    c.frame([])


@contract("P12", f"{M}:FlowParameter.calc_values")
def flow_parameter(c):
    i = c.idx("i", c.ncomb)
    c.require(c.old.dim(c.self, "__next_values") == c.ncomb)
    c.call(c.ts())
    c.ensure("flow stored at the end of the previous step", own(c, i) == c.old.get(c.self, "__next_values", i))
    FRAME(c)
