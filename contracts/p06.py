"""P06: the simulation calendar covers the period once and dates map to fixed slots.

Periods themselves (their dates, order and that they tile the run) are pandas' own: assumed, exercised by the driver."""
from common import *

M, TS = "pywr._core", "pywr.timestepper"
CUM = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334]


def cumulative(m, leapyear):
    """Days of the year before month m."""
    r = z3.IntVal(CUM[11]) + z3.If(leapyear, 1, 0)
    for k in range(10, -1, -1):
        r = z3.If(m == k + 1, z3.IntVal(CUM[k]) + (z3.If(leapyear, 1, 0) if k >= 2 else 0), r)
    return r


def length_of(m, leapyear):
    r = z3.IntVal(31)
    for k in (4, 6, 9, 11): r = z3.If(m == k, z3.IntVal(30), r)
    return z3.If(m == 2, z3.If(leapyear, z3.IntVal(29), z3.IntVal(28)), r)


@contract("P06", f"{M}:is_leap_year")
def leap_year(c):
    y = c.int("year"); c.require(y.t >= 1)
    c.call(y)
    c.ensure("the Gregorian rule", c.ex.truth(c.ret) == leap(y.t))


def period(c, y=None):
    y, m, d, ey = c.free("year", I), c.free("month", I), c.free("day", I), c.free("end_year", I)
    l = leap(y)
    c.require(y >= 1, m >= 1, m <= 12, d >= 1, d <= length_of(m, l), ey >= y)
    doy = cumulative(m, l) + d
    s = lambda t: S(t, "int")
    p = Fn("record", fields={"dayofyear": s(doy), "day": s(d), "month": s(m), "year": s(y), "end_time": Fn("record", fields={"year": s(ey)})})
    c.ex.side["setters"]["Timestep.period"] = lambda e, st, o, v: None
    c.ex.side["attr"]["Timestep.period"] = lambda e, st, o: p
    c.ex.assumed.add("pandas.Period gives the year, month, day and day of the year of its date")
    return p, y, m, d, ey, doy


@contract("P06", f"{M}:Timestep.__init__")
def timestep(c):
    p, y, m, d, ey, doy = period(c)
    i, days = c.int("index"), c.double("days")
    c.raises("ValueError", days.t <= 0)
    c.call(p, i, days)
    w, s = c.new, c.self
    slot = z3.If(OR(leap(y), doy <= 59), doy - 1, doy)
    c.ensure("index and length as given", AND(w.get(s, "index") == i.t, w.get(s, "days") == days.t))
    c.ensure("the date", AND(w.get(s, "year") == y, w.get(s, "month") == m, w.get(s, "day") == d, w.get(s, "dayofyear") == doy, w.get(s, "end_year") == ey))
    c.ensure("leap year", w.get(s, "is_leap_year") == leap(y))
    c.ensure("day slot", w.get(s, "dayofyear_index") == slot)
    c.ensure("the slot of a date is the same in every year, 29 February having its own", w.get(s, "dayofyear_index") == cumulative(m, TRUE) + d - 1)
    c.ensure("366 day slots", AND(w.get(s, "dayofyear_index") >= 0, w.get(s, "dayofyear_index") <= 365))
    c.ensure("week slot", w.get(s, "week_index") == z3.If(slot >= 364, z3.IntVal(51), slot / 7))
    c.ensure("52 week slots", AND(w.get(s, "week_index") >= 0, w.get(s, "week_index") <= 51))


# ---- a step across the end of a year ------------------------------------------------------------------------------------------
NS = z3.RealVal(86400000000000)


def spanning(c):
    y, ey = c.old.get(c.self, "year"), c.old.get(c.self, "end_year")
    a, b, t = c.free("start_ns"), c.free("end_ns"), c.ex.lib.fn("first_of_january", I, R)
    rec = lambda x: Fn("record", fields={"value": S(x, "double")})
    p = Fn("record", fields={"start_time": rec(a), "end_time": rec(b)})
    c.ex.side["attr"]["Timestep.period"] = lambda e, st, o: p
    got = []
    def stamp(e, st, args, kw):
        got.append(args)
        return rec(t(ey))
    c.ex.side["ext"]["pandas.Timestamp"] = c.ex.side["ext"]["pd.Timestamp"] = stamp
    days = c.old.get(c.self, "days")
    # the period runs from its start to its end, which is the last nanosecond of it
    c.require(days > 0, ey >= y, b - a == days * NS, OR(y == ey, AND(a <= t(ey), t(ey) <= b)))
    c.ex.assumed.add("pd.Timestamp('<year>-01-01') is the first of January of that year (the text is not modelled; covered by the driver)")
    return y, ey, a, b, t(ey), days


@contract("P06", f"{M}:Timestep.days_in_current_year")
def this_year(c):
    y, ey, a, b, t, days = spanning(c)
    c.call()
    c.ensure_ret("the days before the end of the year", z3.If(y == ey, days, (t - a) / NS))
    c.frame([])


@contract("P06", f"{M}:Timestep.days_in_next_year")
def next_year(c):
    y, ey, a, b, t, days = spanning(c)
    c.call()
    c.ensure_ret("the rest of the days", days - z3.If(y == ey, days, (t - a) / NS))
    c.frame([])


# ---- the sequence of steps -------------------------------------------------------------------------------------------------------
def stepper(c):
    """Timestep objects are made by their constructor with the period, index and length given (contract of Timestep.__init__)."""
    e = c.ex
    e.side["types"].update({"Timestepper._current": "Timestep", "Timestepper._next": "Timestep", "Timestepper._periods": "list[object]", "Timestepper._deltas": "double[1]",
                            "Timestepper._last_length": "int?", "Timestep.period": "object"})
    made = []
    def new(ex, st, a, kw):
        a = list(a) + [kw[k] for k in ("period", "index", "days")[len(a):]]
        o = c.free(f"made_{len(made)}", Ref); made.append((o, a))
        c.exact[f"made_{len(made) - 1}"] = (c.P.find_class("Timestep"), True)
        st.pc.append(o != NONE)
        for old in (c.old.obj(c.self, "_current").t, c.old.obj(c.self, "_next").t): st.pc.append(o != old)
        ex.setfield(st, "Timestep.index", o, integer(ex.num(a[1])), I)
        ex.setfield(st, "Timestep.days", o, real(ex.num(a[2])), R)
        if isinstance(a[0], O): ex.setfield(st, "Timestep.period", o, a[0].t, Ref)
        return O(o, c.P.find_class("Timestep"), True)
    e.side["new"]["Timestep"] = new
    n = c.old.dim(c.self, "_periods")
    c.require(n >= 1, c.old.dim(c.self, "_deltas") == n)
    return n


def period_at(c, k): return c.old.obj(c.self, "_periods", k).t


@contract("P06", f"{TS}:Timestepper.reset")
def reset(c):
    n = stepper(c)
    c.call()
    t = c.new.obj(c.self, "_next")
    c.ensure("no step yet", c.new.obj(c.self, "_current").t == NONE)
    c.ensure("the first step is next", AND(c.new.get(t, "index") == 0, c.new.obj(t, "period").t == period_at(c, z3.IntVal(0)), c.new.get(t, "days") == c.old.get(c.self, "_deltas", z3.IntVal(0))))


for which in ("next", "__next__"):
    @contract("P06", f"{TS}:Timestepper.{which}")
    def next_(c):
        n = stepper(c)
        t0 = c.old.obj(c.self, "_next")
        i = c.old.get(t0, "index")
        c.require(t0.t != NONE, i >= 0, i <= n)
        # the step after the last one, beyond the end
        moment = lambda q: O(c.free(q, Ref), None)
        length = Fn("record", fields={"total_seconds": Fn("handled", h=lambda *_: S(c.free("length_of_the_step_after_the_end"), "double"), obj=None)})
        beyond = Fn("record", fields={"end_time": moment("after_end"), "start_time": moment("after_start")})
        c.ex.side["objbin"][("+", None, None)] = lambda *a: beyond
        c.ex.side["objbin"][("-", None, None)] = lambda *a: length
        c.ex.side["attr"]["Timestepper.offset"] = lambda e, st, o: S(c.free("offset"), "double")
        c.raises("StopIteration", i >= n)
        c.call()
        w = c.new
        t, nx = w.obj(c.self, "_current"), w.obj(c.self, "_next")
        c.ensure("the step that was next is the current one", AND(t.t == t0.t, c.ret.t == t0.t))
        c.ensure("followed by the next index", w.get(nx, "index") == i + 1)
        c.ensure("which is the next period with its length",
                 OR(i + 1 >= n, AND(w.obj(nx, "period").t == period_at(c, i + 1), w.get(nx, "days") == c.old.get(c.self, "_deltas", i + 1))))
        c.ensure("the current step is left as it was", AND(w.get(t, "index") == i, w.get(t, "days") == c.old.get(t0, "days")))
