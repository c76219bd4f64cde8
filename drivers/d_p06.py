"""P06: the calendar of the model."""
from mlib import *
from pywr.timestepper import Timestepper
import datetime
CUM = [0, 31, 60, 91, 121, 152, 182, 213, 244, 274, 305, 335]


def slots(d):
    """Every date of leap and common years, the years of the century rule included."""
    years = [2015, 2016, 1900, 2000, 2100, 2024] if d.tier == "quick" else list(range(1896, 1906)) + list(range(1996, 2029)) + [2100, 2200]
    for y in years:
        leap = y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)
        for date in pd.date_range(f"{y}-01-01", f"{y}-12-31"):
            d.case("date", date=str(date)[:10])
            def go():
                ts = mkts(str(date)[:10], 3, 1.0)
                slot = CUM[date.month - 1] + date.day - 1
                d.eq("day slot", ts.dayofyear_index, slot); d.eq("week slot", ts.week_index, min(slot // 7, 51))
                d.eq("date", (ts.year, ts.month, ts.day, ts.dayofyear, bool(ts.is_leap_year), ts.index, ts.days), (y, date.month, date.day, date.dayofyear, leap, 3, 1.0))
                d.eq("datetime", ts.datetime, date)
            d.guard(go)
    for days in (0, -1, -0.5):
        d.case("no length", days=days); d.raises("refused", ValueError, lambda: mkts("2015-01-01", 0, days))


DELTAS = [1, 2, 3, 5, 7, 10, 30, 31, 90, "D", "7D", "M", "W", "W-MON", datetime.timedelta(days=1), datetime.timedelta(days=4), datetime.timedelta(days=7), datetime.timedelta(hours=36), datetime.timedelta(hours=12), "h", "6h", "Q", "Y"]


def walk(d):
    for q in range(d.n(250)):
        delta = d.rng.choice(DELTAS); start = pd.Timestamp(d.rng.choice(["2015-01-01", "2015-12-25", "2016-02-27", "1999-12-31", "2015-03-17", "2016-12-31", "2099-12-30"]))
        end = start + pd.Timedelta(days=d.rng.choice([0, 1, 6, 7, 8, 29, 31, 59, 365, 366, 400] if delta not in ("h", "6h", datetime.timedelta(hours=12)) else [0, 1, 3]))
        d.case("walk", start=str(start)[:10], end=str(end)[:10], delta=str(delta))
        def go():
            t = Timestepper(start, end, delta)
            for run in range(2):
                L = []
                for ts in t:
                    d.eq("current", t.current is ts, True); L.append(ts)
                    if len(L) > 3000: break
                d.eq("number", len(L), len(t)); d.eq("index", [x.index for x in L], list(range(len(L))))
                P = [x.period for x in L]
                d.true("starts with the start", P[0].start_time <= start <= P[0].end_time, str(P[0]))
                d.true("covers the end", P[-1].start_time <= end and end <= P[-1].end_time, str(P[-1]))
                for a, b in zip(L, L[1:]): d.true("no gap and no overlap", b.period.start_time - a.period.end_time == pd.Timedelta(1, "ns"), (str(a.period), str(b.period)))
                for x in L:
                    d.near("length", x.days, (x.period.end_time - x.period.start_time + pd.Timedelta(1, "ns")).total_seconds() / 86400, 1e-12, 1e-12)
                    if isinstance(delta, int) or isinstance(delta, datetime.timedelta): d.near("the step asked for", x.days, delta if isinstance(delta, int) else delta.total_seconds() / 86400, 1e-12, 1e-12)
                    d.near("days of the years", x.days_in_current_year() + x.days_in_next_year(), x.days, 1e-9, 1e-9)
                    if x.year != x.period.end_time.year:
                        d.near("days of this year", x.days_in_current_year(), (pd.Timestamp(f"{x.year + 1}-01-01") - x.period.start_time).total_seconds() / 86400, 1e-9, 1e-9)
                    else: d.near("all in this year", x.days_in_next_year(), 0, 0, 1e-9)
                d.eq("index of the results", list(t.datetime_index), P)
                if d.rng.random() < .5:      # start somewhere else
                    k = d.rng.randrange(len(L)); t.reset(start=P[k].start_time); d.eq("restarted", (next(t).index, t.current.period == P[k]), (k, True))
                    d.raises("out of range", ValueError, lambda: t.reset(start=P[-1].end_time + pd.Timedelta(days=400)))
                t.reset()
        d.guard(go)


def inmodel(d):
    """The steps of a run of a model."""
    for q in range(d.n(25)):
        delta = d.rng.choice([1, 3, 7, "M"]); start = pd.Timestamp(d.rng.choice(["2015-01-01", "2015-12-25", "2016-02-27"])); end = start + pd.Timedelta(days=d.rng.choice([0, 5, 40, 100]))
        d.case("run", start=str(start)[:10], end=str(end)[:10], delta=str(delta))
        def go():
            m = pmodel(start=str(start)[:10], end=str(end)[:10], step=delta); L = []; before = m.before
            def hook(): L.append((m.timestep.index, m.timestep.period)); before()
            m.before = hook
            for run in range(2):
                L.clear(); m.run(); d.eq("every step once", L, list(enumerate(pd.period_range(start, end, freq=f"{delta}D" if isinstance(delta, int) else delta))))
                L.clear(); k = d.rng.randint(1, len(m.timestepper)); m.reset()
                for _ in range(k): m.step()
                d.eq("some steps", [i for i, _ in L], list(range(k)))
            m.timestepper.end = end + pd.Timedelta(days=10); L.clear(); m.run()
            d.eq("after a change of the end", L, list(enumerate(pd.period_range(start, end + pd.Timedelta(days=10), freq=f"{delta}D" if isinstance(delta, int) else delta))))
        d.guard(go)


DRIVERS = [slots, walk, inmodel]
