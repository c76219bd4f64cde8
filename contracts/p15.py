"""P15: array-backed parameters return the entry of this timestep and scenario."""
from common import *

M = "pywr.parameters._parameters"


def clamp(c, ts, n):
    k = c.old.get(ts, "index") + c.old.get(c.self, "timestep_offset")
    k = z3.If(k > 0, k, z3.IntVal(0))
    return z3.If(k < n - 1, k, n - 1)


def column(c, si, arr):
    """The column the member's data was loaded into."""
    s = member(c, si)
    none = c.old.isnone(c.self, "_scenario_ids")
    c.require(s >= 0, OR(none, s < c.old.dim(c.self, "_scenario_ids")))
    j = ITE(none, s, c.old.get(c.self, "_scenario_ids", s))
    return j


@contract("P15", f"{M}:DataFrameParameter.value", label="DataFrameParameter.value with a scenario")
def df_scen(c):
    ts, si = c.ts(), c.si()
    sc = c.old.val(c.self, "scenario")
    c.require(NOT(c.isnone_any(c.self, "scenario")))
    n = c.old.dim(c.self, "_values", 0)
    j = column(c, si, "_values")
    c.require(n >= 1, j >= 0, j < c.old.dim(c.self, "_values", 1))
    c.call(ts, si)
    c.ensure_ret("entry of the (clamped) timestep and the member", c.old.get(c.self, "_values", clamp(c, ts, n), j))
    c.frame([])


@contract("P15", f"{M}:DataFrameParameter.value", label="DataFrameParameter.value without a scenario")
def df_plain(c):
    ts, si = c.ts(), c.si()
    c.require(c.isnone_any(c.self, "scenario"))
    n = c.old.dim(c.self, "_values", 0)
    c.require(n >= 1, c.old.dim(c.self, "_values", 1) >= 1)
    c.call(ts, si)
    c.ensure_ret("entry of the (clamped) timestep", c.old.get(c.self, "_values", clamp(c, ts, n), z3.IntVal(0)))
    c.frame([])


def step(c, ts, attr):
    t = c.old.get(ts, "index")
    c.require(t < c.old.dim(c.self, attr))
    return t


@contract("P15", f"{M}:ArrayIndexedParameter.value")
def array_value(c):
    ts = c.ts()
    t = step(c, ts, "values")
    c.call(ts, c.si())
    c.ensure_ret("entry of the timestep", c.old.get(c.self, "values", t))
    c.frame([])


@contract("P15", f"{M}:ArrayIndexedParameter.calc_values")
def array_calc(c):
    ts = c.ts()
    t = step(c, ts, "values")
    i = c.idx("i", c.ncomb)
    c.call(ts)
    c.ensure("every scenario gets the entry of the timestep", values_of(c, c.self, i, c.new) == c.old.get(c.self, "values", t))
    c.frame([("Parameter.__values", c.self.t)])


@contract("P15", f"{M}:ArrayIndexedScenarioParameter.value")
def array_scen(c):
    ts, si = c.ts(), c.si()
    t = step(c, ts, "values")
    s = member(c, si)
    c.require(s >= 0, s < c.old.dim(c.self, "values", 1))
    c.call(ts, si)
    c.ensure_ret("entry of the timestep and the member", c.old.get(c.self, "values", t, s))
    c.frame([])


@contract("P15", f"{M}:ArrayIndexedScenarioMonthlyFactorsParameter.value")
def monthly_factors(c):
    ts, si = cal(c), c.si()
    t = step(c, ts, "_values")
    s = member(c, si)
    c.require(s >= 0, s < c.old.dim(c.self, "_factors", 0), c.old.dim(c.self, "_factors", 1) == 12)
    c.call(ts, si)
    c.ensure_ret("baseline entry times the member's factor of the month",
                 c.old.get(c.self, "_values", t) * c.old.get(c.self, "_factors", s, c.old.get(ts, "month") - 1))
    c.frame([])


def const_scen(cls, meth):
    @contract("P15", f"{M}:{cls}.{meth}")
    def f(c):
        si = c.si()
        s = member(c, si)
        c.require(s >= 0, s < c.old.dim(c.self, "_values"))
        c.call(c.ts(), si)
        c.ensure_ret("entry of the member", c.old.get(c.self, "_values", s))
        c.frame([])


const_scen("ConstantScenarioParameter", "value")
const_scen("ConstantScenarioIndexParameter", "index")


def tables(meth, kind):
    arr = "_values_" + kind
    for scen in (True, False):
        @contract("P15", f"{M}:TablesArrayParameter.{meth}", label=f"TablesArrayParameter.{meth} of {kind} data with{'' if scen else 'out'} a scenario")
        def f(c, scen=scen):
            ts, si = c.ts(), c.si()
            c.require(NOT(c.old.isnone(c.self, arr)), c.old.isnone(c.self, "_values_int" if kind == "dbl" else "_values_dbl"))
            n = c.old.dim(c.self, arr, 0)
            c.require(n >= 1)
            if scen: j = column(c, si, arr)
            else:
                c.require(c.old.get(c.self, "_scenario_index") == -1); j = z3.IntVal(0)
            c.require(j >= 0, j < c.old.dim(c.self, arr, 1))
            c.call(ts, si)
            x = c.old.get(c.self, arr, clamp(c, ts, n), j)
            if meth == "value" and kind == "int": x = z3.ToReal(x)
            c.ensure_ret("entry of the (clamped) timestep and the member", x)
            c.frame([])


tables("value", "dbl"); tables("index", "int"); tables("value", "int")
