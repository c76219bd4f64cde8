"""P10: profiles return the value stored for the calendar slot of the date."""
from common import *


def plain(cls, n, slot):
    @contract("P10", f"pywr.parameters._parameters:{cls}.value")
    def f(c):
        ts, si = cal(c), c.si()
        c.require(c.old.dim(c.self, "_values") >= n)
        c.call(ts, si)
        k = c.old.get(ts, slot)
        c.ensure_ret("value of the slot", c.old.get(c.self, "_values", k - 1 if slot == "month" else k))
        c.frame([])


plain("DailyProfileParameter", 366, "dayofyear_index")
plain("WeeklyProfileParameter", 52, "week_index")


def scen(cls, n, slot):
    @contract("P10", f"pywr.parameters._parameters:{cls}.value")
    def f(c):
        ts, si = cal(c), c.si()
        s = member(c, si)
        c.require(c.old.dim(c.self, "_values", 1) == n, s >= 0, s < c.old.dim(c.self, "_values", 0))
        c.call(ts, si)
        k = c.old.get(ts, slot)
        c.ensure_ret("value of the member's slot", c.old.get(c.self, "_values", s, k - 1 if slot == "month" else k))
        c.frame([])


scen("ScenarioMonthlyProfileParameter", 12, "month")
scen("ScenarioWeeklyProfileParameter", 52, "week_index")
scen("ScenarioDailyProfileParameter", 366, "dayofyear_index")


@contract("P10", "pywr.parameters._parameters:RbfProfileParameter.value")
def rbf(c):
    ts, si = cal(c), c.si()
    c.require(c.old.dim(c.self, "_interp_values") == 366)
    c.call(ts, si)
    c.ensure_ret("value of the day", c.old.get(c.self, "_interp_values", c.old.get(ts, "dayofyear_index")))
    c.frame([])


@contract("P10", "pywr.parameters._parameters:MonthlyProfileParameter.value")
def monthly(c):
    ts, si = cal(c), c.si()
    v = c.old
    c.require(v.dim(c.self, "_values") == 12, v.dim(c.self, "_interp_values") == 366)
    none = c.isnone_any(c.self, "interp_day")
    c.call(ts, si)
    c.ensure_ret("value of the month, or of the day when interpolated",
                 ITE(none, v.get(c.self, "_values", v.get(ts, "month") - 1), v.get(c.self, "_interp_values", v.get(ts, "dayofyear_index"))))
    c.frame([])


DAYS = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]


def interp(day):
    @contract("P10", "pywr.parameters._parameters:MonthlyProfileParameter._interpolate", label=f"MonthlyProfileParameter._interpolate from the {day} day")
    def f(c):
        c.require(c.old.dim(c.self, "_values") == 12)
        c.setval(c.self, "interp_day", c.ex.strval(day))
        c.call()
        v = lambda k: c.old.get(c.self, "_values", z3.IntVal(k % 12))
        # slot d is day-of-year d+1 up to 28 Feb, 28 Feb again for 29 Feb, day-of-year d afterwards
        start = 0
        for mth in range(12):
            for j in range(DAYS[mth]):
                doy = start + j + 1                     # 1-based in a common year
                slot = doy - 1 if doy <= 59 else doy
                if day == "first": w = z3.RealVal(j) / DAYS[mth]; a, b = v(mth), v(mth + 1)
                else: w = z3.RealVal(j + 1) / DAYS[mth]; a, b = v(mth - 1), v(mth)
                if j in (0, 1, DAYS[mth] // 2, DAYS[mth] - 1) or doy in (58, 59, 60):
                    c.ensure(f"slot {slot}", c.new.get(c.self, "_interp_values", z3.IntVal(slot)) == a + (b - a) * w)
                    if doy == 59: c.ensure("29 February", c.new.get(c.self, "_interp_values", z3.IntVal(59)) == a + (b - a) * w)
            start += DAYS[mth]


interp("first")
interp("last")


@contract("P10", "pywr.parameters._parameters:UniformDrawdownProfileParameter.value")
def drawdown(c):
    ts, si = cal(c), c.si()
    v = c.old
    r, d, y, res = v.get(c.self, "_reset_idoy"), v.get(ts, "dayofyear_index"), v.get(ts, "year"), v.get(c.self, "residual_days")
    c.require(r >= 0, r <= 365, y >= 4)
    wrapped = d < r
    # the year whose 29 February lies between the two reset dates
    yf = y - ITE(wrapped, z3.IntVal(1), z3.IntVal(0)) + ITE(r > 59, z3.IntVal(1), z3.IntVal(0))
    total = ITE(leap(yf), z3.RealVal(366), z3.RealVal(365))
    into = ITE(wrapped, d + 366 - r - ITE(AND(NOT(leap(y)), d > 59), z3.IntVal(1), z3.IntVal(0)), d - r)
    c.call(ts, si)
    c.ensure_ret("linear from one to the residual", 1 - (1 - z3.ToReal(res) / total) * z3.ToReal(into) / total)
    c.frame([])


@contract("P10", "pywr._core:is_leap_year")
def leapyear(c):
    y = c.int("y")
    c.require(y.t >= 1)
    c.call(y)
    c.ensure("proleptic Gregorian rule", c.ex.truth(c.ret) == leap(y.t))
