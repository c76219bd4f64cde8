"""P10: profiles against the calendar."""
import calendar
from mlib import *
from pywr.parameters import *

DATES = pd.date_range("1999-12-15", "2005-01-20")
DAYS = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]


def slot(d):
    """Calendar slot 0..365 of a date: the position of its month and day in a leap year."""
    return pd.Timestamp(2000, d.month, d.day).dayofyear - 1


def week(d): return min(slot(d) // 7, 51)


class Flat:
    """A one-scenario index standing for combination g with the given member indices."""


def each(d, m, p, want, dates=None):
    """want(date, si) for every date and combination."""
    m.setup(); m.reset()
    dates = DATES[:: d.rng.randint(1, 3)] if dates is None else dates
    for i, dt in enumerate(dates):
        ts = mkts(dt, i)
        for si in m.scenarios.combinations:
            d.near("value", p.value(ts, si), want(dt, si), 1e-9, 1e-9) or d.cur[1].__setitem__("date", str(dt))


def simple(d):
    for k in range(d.n(6)):
        m = pmodel(); v = per(d, 366, -5, 5); p = DailyProfileParameter(m, v)
        d.case("DailyProfileParameter", seed=k); each(d, m, p, lambda dt, si: v[slot(dt)])
        m = pmodel(); n = d.rng.choice([52, 53]); w = per(d, n, -5, 5)
        if n == 52: p = WeeklyProfileParameter(m, w)
        else: p = WeeklyProfileParameter(m, w)
        d.case("WeeklyProfileParameter", n=n, seed=k); each(d, m, p, lambda dt, si: w[week(dt)])
        m = pmodel(); q = per(d, 12, -5, 5); p = MonthlyProfileParameter(m, q)
        d.case("MonthlyProfileParameter", seed=k); each(d, m, p, lambda dt, si: q[dt.month - 1])


def scenarios(d):
    for k in range(d.n(6)):
        shape = d.rng.choice([(2,), (3, 2), (2, 3), (2, 2, 2)]); which = d.rng.randrange(len(shape))
        for cls, n, f in ((ScenarioDailyProfileParameter, 366, slot), (ScenarioWeeklyProfileParameter, 52, week), (ScenarioMonthlyProfileParameter, 12, lambda dt: dt.month - 1)):
            m = pmodel(scen=shape)
            v = d.np.uniform(-5, 5, (shape[which], n)).round(3)
            p = cls(m, m.scenarios["s%d" % which], v)
            d.case(cls.__name__, shape=shape, which=which, seed=k)
            each(d, m, p, lambda dt, si: v[si.indices[which], f(dt)], DATES[::17])


def interpolated(d):
    for k in range(d.n(8)):
        q = per(d, 12, 0, 9); day = ("first", "last")[k % 2]
        m = pmodel(); p = MonthlyProfileParameter(m, q, interp_day=day)
        def want(dt, si):
            day_ = 28 if (dt.month, dt.day) == (2, 29) else dt.day
            mth = dt.month - 1
            if day == "first": a, b, w = q[mth], q[(mth + 1) % 12], (day_ - 1) / DAYS[mth]
            else: a, b, w = q[(mth - 1) % 12], q[mth], day_ / DAYS[mth]
            return a + (b - a) * w
        d.case("interpolated monthly", day=day, values=q); each(d, m, p, want)
        new = per(d, 12, 0, 9)
        p.set_double_variables(np.array(new)); q = new
        d.case("interpolated monthly after new values", day=day, values=q); each(d, m, p, want, DATES[:800:5])


def drawdown(d):
    """Linear from 1 at each reset to the residual at the next, by days elapsed.  Resets on or before 28 February, and those in common years, keep the
    calendar-slot convention the documentation's figures and the existing tests use (the slot of 29 February counts as a day when it lies between the resets)."""
    for k in range(d.n(14)):
        mo = d.rng.randint(1, 12); da = d.rng.randint(1, DAYS[mo - 1]); res = d.rng.choice([0, 0, 10, 30, 90])
        if k == 0: mo, da = 1, 1
        if k == 1: mo, da = 4, 1
        if k == 2: mo, da = 3, 1
        m = pmodel(); p = UniformDrawdownProfileParameter(m, reset_day=da, reset_month=mo, residual_days=res)
        d.case("UniformDrawdownProfileParameter", reset=(da, mo), residual=res)
        m.setup(); m.reset()
        prev = None
        for i, dt in enumerate(DATES):
            x = p.value(mkts(dt, i), m.scenarios.combinations[0])
            isreset = (dt.month, dt.day) == (mo, da)
            if isreset: d.near("one on the reset date", x, 1.0)
            last = pd.Timestamp(dt.year if (dt.month, dt.day) >= (mo, da) else dt.year - 1, mo, da)
            nxt = pd.Timestamp(last.year + 1, mo, da)
            total = (nxt - last).days
            into = (dt - last).days
            slope = (1 - res / total) / total
            # at most one slot away from the exact day count (29 February's slot)
            d.true("linear to the residual", abs(x - (1 - slope * into)) <= slope * 1.0001 + 2 * res / 365 ** 2 + 1e-9, (str(dt), x, 1 - slope * into))
            if mo > 2: d.near("linear to the residual, resets after February", x, 1 - slope * into, 1e-9, 1e-9) or d.cur[1].__setitem__("date", str(dt))
            if prev is not None and not isreset: d.true("never rises between resets", x <= prev + 1e-12, (str(dt), prev, x))
            prev = x


def rbf(d):
    for k in range(d.n(4)):
        days = [1] + sorted(d.rng.sample(range(20, 350), 5)); v = per(d, 6, 0, 9)
        m = pmodel(); p = RbfProfileParameter(m, days, v, min_value=0.5, max_value=8.0)
        d.case("RbfProfileParameter", days=days, values=v)
        m.setup(); m.reset()
        si = m.scenarios.combinations[0]
        vals = [p.value(mkts(dt, 0), si) for dt in pd.date_range("2001-01-01", "2001-12-31")]
        d.true("inside the limits", min(vals) >= 0.5 - 1e-12 and max(vals) <= 8 + 1e-12)
        for dd, x in zip(days, v): d.near("passes through the given points", vals[dd - 1], min(max(x, 0.5), 8.0), 1e-6, 1e-6)
        for y in (2000, 2004, 2003):
            for dt in pd.date_range(f"{y}-01-01", f"{y}-12-31")[::7]:
                doy = dt.replace(year=2001).dayofyear if (dt.month, dt.day) != (2, 29) else 59
                d.near("same date every year", p.value(mkts(dt, 0), si), vals[doy - 1])
        d.near("29 February as 28 February", p.value(mkts("2004-02-29", 0), si), vals[58])


def loaded(d):
    """Through a model document and a run, the recorded values are the slot's."""
    for k in range(d.n(3)):
        v = per(d, 366, 0, 5); w = per(d, 52, 0, 5); q = per(d, 12, 0, 5)
        data = {"metadata": {"minimum_version": "0.1"}, "timestepper": {"start": "2003-12-20", "end": "2005-01-10", "timestep": d.rng.choice([1, 3, 7])},
                "nodes": [{"name": "a", "type": "Input", "max_flow": "pd"}, {"name": "b", "type": "Output", "cost": -1, "max_flow": 100}], "edges": [["a", "b"]],
                "parameters": {"pd": {"type": "dailyprofile", "values": v}, "pw": {"type": "weeklyprofile", "values": w}, "pm": {"type": "monthlyprofile", "values": q}},
                "recorders": {"r": {"type": "numpyarraynode", "node": "a"}, "rw": {"type": "numpyarrayparameter", "parameter": "pw"}, "rm": {"type": "numpyarrayparameter", "parameter": "pm"}}}
        m = Model.load(data); d.case("loaded profiles", seed=k)
        m.run()
        dates = [ts.period.start_time if hasattr(ts, "period") else ts for ts in m.timestepper.datetime_index.to_timestamp()] if hasattr(m.timestepper.datetime_index, "to_timestamp") else list(m.timestepper.datetime_index)
        d.near("daily", np.array(m.recorders["r"].data)[:, 0], [v[slot(x)] for x in dates], 1e-6, 1e-6)
        d.near("weekly", np.array(m.recorders["rw"].data)[:, 0], [w[week(x)] for x in dates])
        d.near("monthly", np.array(m.recorders["rm"].data)[:, 0], [q[x.month - 1] for x in dates])


DRIVERS = [simple, scenarios, interpolated, drawdown, rbf, loaded]
