"""P04: virtual storages deplete with the weighted use of their nodes and reset when documented."""
from common import *
from p03 import initial, vol_spec

MEMBER_TYPES = [("AnnualVirtualStorage", k, t) for k, t in [("reset_day", "int"), ("reset_month", "int"), ("reset_to_initial_volume", "bool"), ("_last_reset_year", "int?")]] + \
    [("SeasonalVirtualStorage", "end_day", "int"), ("SeasonalVirtualStorage", "end_month", "int")] + \
    [("MonthlyVirtualStorage", k, t) for k, t in [("months", "int"), ("initial_months", "int"), ("reset_to_initial_volume", "bool"), ("_count", "int"), ("_last_month", "int?")]]


def types(c):
    for cl, k, t in MEMBER_TYPES: c.ex.side["types"][f"{cl}.{k}"] = t
    c.noself("VirtualStorage._nodes")


def use(c, i):
    """Factor-weighted flow of the storage's nodes in scenario i."""
    old = c.old
    n = old.dim(c.self, "_nodes")
    c.require(old.dim(c.self, "_factors") == n)
    return -c.fold(n, z3.RealVal(0), lambda k, acc: acc - old.get(c.self, "_factors", k) * old.get(old.obj(c.self, "_nodes", k), "_flow", i))


def limits(c, i):
    return pv(c, c.self, "_max_volume", "_max_volume_param", i), pv(c, c.self, "_min_volume", "_min_volume_param", i)


def after(c, cls):
    types(c)
    ts = c.ts(); i = c.idx("i", c.ncomb)
    old = c.old
    mxv, mnv = limits(c, i)
    act = old.get(c.self, "active")
    u = use(c, i)
    v0, p0, f0 = old.get(c.self, "_volume", i), old.get(c.self, "_current_pc", i), old.get(c.self, "_flow", i)
    v = vol_spec(c, c.self, ts, i, v0 - u * old.get(ts, "days"), mxv, mnv)
    c.call(ts)
    c.ensure("flow is minus the weighted use while active", c.new.get(c.self, "_flow", i) == ITE(act, -u, f0))
    c.ensure("volume loses the weighted use while active and is kept otherwise", c.new.get(c.self, "_volume", i) == ITE(act, v, v0))
    c.ensure("current_pc", c.new.get(c.self, "_current_pc", i) == ITE(act, ITE(mxv == 0, NAN, v / mxv), p0))
    s = c.self.t
    c.frame([("AbstractStorage._volume", s), ("AbstractStorage._current_pc", s), ("AbstractNode._prev_flow", s), ("AbstractNode._flow", s)])


@contract("P04", "pywr._core:VirtualStorage.after")
def vs_after(c): after(c, None)


@contract("P04", "pywr._core:VirtualStorage.after", cls="pywr.nodes:AnnualVirtualStorage", label="AnnualVirtualStorage.after")
def annual_after(c): after(c, "AnnualVirtualStorage")


@contract("P04", "pywr._core:VirtualStorage.after", cls="pywr.nodes:SeasonalVirtualStorage", label="SeasonalVirtualStorage.after")
def seasonal_after(c): after(c, "SeasonalVirtualStorage")


@contract("P04", "pywr._core:VirtualStorage.after", cls="pywr.nodes:MonthlyVirtualStorage", label="MonthlyVirtualStorage.after")
def monthly_after(c): after(c, "MonthlyVirtualStorage")


@contract("P04", "pywr._core:RollingVirtualStorage.after", cls="pywr.nodes:RollingVirtualStorage", label="RollingVirtualStorage.after")
def rolling_after(c):
    types(c)
    ts = c.ts(); i = c.idx("i", c.ncomb)
    old = c.old
    mxv, mnv = limits(c, i)
    u = use(c, i)
    n, p = old.get(c.self, "timesteps"), old.get(c.self, "_memory_pointer")
    c.require(old.get(c.self, "active"), n >= 2, p >= 0, p < n - 1, old.dim(c.self, "_memory", 0) == n - 1, old.dim(c.self, "_memory", 1) == c.ncomb)
    back = old.get(c.self, "_memory", p, i)
    days = old.get(ts, "days")
    v0 = old.get(c.self, "_volume", i) - u * days + back
    v0 = ITE(v0 > mnv, v0, mnv)
    v0 = ITE(v0 < mxv, v0, mxv)
    v = vol_spec(c, c.self, ts, i, v0, mxv, mnv)
    k = c.idx("row", n - 1)
    c.call(ts)
    c.ensure("flow", c.new.get(c.self, "_flow", i) == -u)
    c.ensure("volume: minus today's use, plus the oldest use remembered, within the limits", c.new.get(c.self, "_volume", i) == v)
    c.ensure("current_pc", c.new.get(c.self, "_current_pc", i) == ITE(mxv == 0, NAN, v / mxv))
    c.ensure("today's use replaces the oldest", c.new.get(c.self, "_memory", k, i) == ITE(k == p, u * days, old.get(c.self, "_memory", k, i)))
    c.ensure("the next oldest is next", c.new.get(c.self, "_memory_pointer") == ITE(p + 1 == n - 1, z3.IntVal(0), p + 1))


@contract("P04", "pywr._core:RollingVirtualStorage.reset", cls="pywr.nodes:RollingVirtualStorage", label="RollingVirtualStorage.reset")
def rolling_reset(c):
    types(c)
    i = c.idx("i", c.ncomb)
    vol, pc, bad = initial(c, c.self)
    c.raises("RuntimeError", bad)
    c.require(c.old.dim(c.self, "_memory", 1) == c.ncomb)
    k = c.idx("row", c.old.dim(c.self, "_memory", 0))
    u = c.old.get(c.self, "_initial_utilisation")
    c.call()
    c.ensure("volume", c.new.get(c.self, "_volume", i) == vol)
    c.ensure("flow", c.new.get(c.self, "_flow", i) == 0)
    c.ensure("active", c.new.get(c.self, "active"))
    c.ensure("memory holds the initial utilisation", c.new.get(c.self, "_memory", k, i) == u)
    c.ensure("pointer", c.new.get(c.self, "_memory_pointer") == 0)


@contract("P04", "pywr._core:VirtualStorage.reset")
def vs_reset(c):
    types(c)
    i = c.idx("i", c.ncomb)
    vol, pc, bad = initial(c, c.self)
    c.raises("RuntimeError", bad)
    c.call()
    c.ensure("volume", c.new.get(c.self, "_volume", i) == vol)
    c.ensure("current_pc", c.new.get(c.self, "_current_pc", i) == pc)
    c.ensure("flow", c.new.get(c.self, "_flow", i) == 0)
    c.ensure("active", c.new.get(c.self, "active"))


def date(c, ts): return c.old.get(ts, "month"), c.old.get(ts, "day")


def reset_year(c, ts):
    """Year of the latest reset date on or before the timestep."""
    m, d = date(c, ts)
    rm, rd = c.old.get(c.self, "reset_month"), c.old.get(c.self, "reset_day")
    y = c.old.get(ts, "year")
    return z3.If(OR(m > rm, AND(m == rm, d >= rd)), y, y - 1), AND(m == rm, d == rd)


def reset_volume(c, i, initial_volume, first):
    vol, pc, bad = initial(c, c.self)
    mxv, _ = limits(c, i)
    par = c.old.obj(c.self, "_max_volume_param").t != NONE
    use = OR(initial_volume, AND(first, par))
    return ITE(use, vol, mxv), ITE(use, pc, ITE(mxv == 0, NAN, 1)), AND(use, bad)


def calendar(cls):
    """One step of an annual or seasonal storage: what is remembered between steps is the year of the latest reset date reached."""
    @contract("P04", f"pywr.nodes:{cls}.before", label=f"{cls}.before")
    def before(c):
        types(c)
        ts = cal(c); i = c.idx("i", c.ncomb)
        c.require(c.old.get(ts, "day") >= 1, c.old.get(ts, "day") <= 31)
        first = c.old.get(ts, "index") == 0
        latest, onday = reset_year(c, ts)
        last = c.old.val(c.self, "_last_reset_year")
        lastnone = c.isnone_any(c.self, "_last_reset_year")
        lasty = last.v.t if isinstance(last, Opt) else last.t
        # invariant between steps: before the first step nothing is remembered, later the year of the previous step's latest reset date
        c.require(first == lastnone)
        due = ITE(first, onday, latest != lasty)
        vol, pc, bad = reset_volume(c, i, c.old.get(c.self, "reset_to_initial_volume"), first)
        v0, p0, a0 = c.old.get(c.self, "_volume", i), c.old.get(c.self, "_current_pc", i), c.old.get(c.self, "active")
        c.raises("RuntimeError", AND(due, bad))
        c.call(ts)
        c.ensure("volume is the documented one on a reset and kept otherwise", c.new.get(c.self, "_volume", i) == ITE(due, vol, v0))
        c.ensure("current_pc", c.new.get(c.self, "_current_pc", i) == ITE(due, pc, p0))
        now = c.new.val(c.self, "_last_reset_year")
        c.ensure("a reset date has been seen", NOT(c.isnone_any(c.self, "_last_reset_year", c.new)))
        c.ensure("remembers the year of the latest reset date", (now.v.t if isinstance(now, Opt) else now.t) == latest)
        if cls == "AnnualVirtualStorage":
            c.ensure("active", c.new.get(c.self, "active") == OR(due, a0))
        else:
            m, d = date(c, ts)
            rm, rd, em, ed = (c.old.get(c.self, a) for a in ("reset_month", "reset_day", "end_month", "end_day"))
            since = OR(m > rm, AND(m == rm, d >= rd)); over = OR(m > em, AND(m == em, d >= ed))
            within = ITE(OR(em < rm, AND(em == rm, ed <= rd)), OR(since, NOT(over)), AND(since, NOT(over)))
            c.ensure("active exactly from the reset date until the end date", c.new.get(c.self, "active") == within)

    @contract("P04", f"pywr.nodes:{cls}.reset" if cls == "AnnualVirtualStorage" else "pywr.nodes:AnnualVirtualStorage.reset", cls=f"pywr.nodes:{cls}", label=f"{cls}.reset")
    def reset(c):
        types(c)
        i = c.idx("i", c.ncomb)
        vol, pc, bad = initial(c, c.self)
        c.raises("RuntimeError", bad)
        c.call()
        c.ensure("volume", c.new.get(c.self, "_volume", i) == vol)
        c.ensure("active", c.new.get(c.self, "active"))
        c.ensure("nothing remembered", c.isnone_any(c.self, "_last_reset_year", c.new))


calendar("AnnualVirtualStorage")
calendar("SeasonalVirtualStorage")


@contract("P04", "pywr.nodes:MonthlyVirtualStorage.before", label="MonthlyVirtualStorage.before")
def monthly_before(c):
    types(c)
    ts = cal(c); i = c.idx("i", c.ncomb)
    first = c.old.get(ts, "index") == 0
    month = c.old.get(ts, "year") * 12 + c.old.get(ts, "month")
    last = c.old.val(c.self, "_last_month")
    lastm = last.v.t if isinstance(last, Opt) else last.t
    none = c.isnone_any(c.self, "_last_month")
    n, k = c.old.get(c.self, "months"), c.old.get(c.self, "_count")
    init = c.old.get(c.self, "initial_months")
    # invariant: months since the last reset (initial_months - 1 before the first step), the month of the previous step
    c.require(first == none, n >= 1, init >= 0, init <= n, OR(none, lastm <= month), ITE(none, k == init - 1, AND(k >= 0, k < n)))
    count = ITE(none, k + 1, k + month - lastm)
    due = count >= n
    vol, pc, bad = reset_volume(c, i, c.old.get(c.self, "reset_to_initial_volume"), first)
    v0, p0 = c.old.get(c.self, "_volume", i), c.old.get(c.self, "_current_pc", i)
    c.raises("RuntimeError", AND(due, bad))
    c.call(ts)
    c.ensure("volume is the documented one once the months have passed and kept otherwise", c.new.get(c.self, "_volume", i) == ITE(due, vol, v0))
    c.ensure("current_pc", c.new.get(c.self, "_current_pc", i) == ITE(due, pc, p0))
    now = c.new.val(c.self, "_last_month")
    c.ensure("remembers the month", (now.v.t if isinstance(now, Opt) else now.t) == month)
    k2 = c.new.get(c.self, "_count")
    c.ensure("months since the last reset", AND(k2 >= 0, k2 < n, ITE(due, k2 % n == count % n, k2 == count)))


@contract("P04", "pywr.nodes:MonthlyVirtualStorage.reset", label="MonthlyVirtualStorage.reset")
def monthly_reset(c):
    types(c)
    i = c.idx("i", c.ncomb)
    vol, pc, bad = initial(c, c.self)
    c.raises("RuntimeError", bad)
    c.call()
    c.ensure("volume", c.new.get(c.self, "_volume", i) == vol)
    c.ensure("count", c.new.get(c.self, "_count") == c.old.get(c.self, "initial_months") - 1)
    c.ensure("nothing remembered", c.isnone_any(c.self, "_last_month", c.new))


@contract("P04", "pywr._core:RollingVirtualStorage.setup", cls="pywr.nodes:RollingVirtualStorage", label="RollingVirtualStorage.setup")
def rolling_setup(c):
    types(c)
    m = c.known(c.old.obj(c.self, "_model"), "Model", exact=False)
    i = c.idx("i", c.ncomb)
    vol, pc, bad = initial(c, c.self)
    n = c.old.get(c.self, "timesteps")
    mxv = c.old.get(c.self, "_max_volume")
    par = c.old.obj(c.self, "_max_volume_param").t != NONE
    few = n < 2
    c.require(pc != NAN)
    c.raises("ValueError", OR(few, AND(NOT(few), NOT(bad), pc == 0, par)))
    c.raises("RuntimeError", AND(NOT(few), bad))
    c.call(m)
    u = ITE(pc == 0, mxv / (n - 1), (vol / pc - vol) / (n - 1))
    k = c.idx("row", n - 1)
    c.ensure("rows", AND(c.new.dim(c.self, "_memory", 0) == n - 1, c.new.dim(c.self, "_memory", 1) == c.ncomb))
    c.ensure("initial use is spread evenly over the rolling period", c.new.get(c.self, "_memory", k, i) == u)
    c.ensure("initial utilisation", c.new.get(c.self, "_initial_utilisation") == u)
    c.ensure("pointer", c.new.get(c.self, "_memory_pointer") == 0)
