"""P21: annual counts and totals."""
import calendar, datetime
from mlib import *
from pywr.recorders import *
from pywr.recorders import AnnualCountIndexThresholdRecorder, AnnualTotalFlowRecorder, AnnualCountIndexParameterRecorder, SeasonalFlowDurationCurveRecorder

AGG = {"sum": np.sum, "min": np.min, "max": np.max, "mean": np.mean}


def annual(d):
    for q in range(d.n(26)):
        scen = d.rng.choice(SCEN); n = ncomb(scen)
        step = d.rng.choice([1, 1, 7, 30, "M", "7D"])
        start = d.rng.choice(["2014-11-20", "2015-01-01", "2015-12-31", "2016-02-20", "2015-07-04", "2014-12-26"])
        years = d.rng.choice([0.2, 1.1, 1.5, 2.2])
        end = str(pd.Timestamp(start) + pd.Timedelta(days=int(365 * years)))[:10]
        m = model(start=start, end=end, step=step, scen=scen)
        d.case("annual", scen=scen, start=start, end=end, step=step, seed=q)
        def go():

            T = len(m.timestepper)
            c1 = Input(m, "c1", max_flow=Given(m, d.np.uniform(0, 9, (T, n)).round(2), name="f1"), cost=-1); o1 = Output(m, "o1")
            c2 = Input(m, "c2", max_flow=Given(m, d.np.uniform(0, 9, (T, n)).round(2), name="f2"), cost=-2); c1.connect(o1); c2.connect(o1)
            I = [GivenIndex(m, d.np.randint(0, 4, (T, n)) * (d.np.rand(T, n) < d.rng.choice([.1, .5, 1])), name=f"ix{k}") for k in range(d.rng.randint(1, 3))]
            th = d.rng.randint(0, 4)
            kw = {}
            if d.rng.random() < .5: kw["exclude_months"] = sorted(d.rng.sample(range(1, 13), d.rng.randint(0, 5)))
            lo, hi = (1, 1), (12, 31)
            if d.rng.random() < .5: lo = (d.rng.randint(1, 7), d.rng.randint(1, 28)); kw.update(include_from_month=lo[0], include_from_day=lo[1])
            elif d.rng.random() < .3: kw.update(include_from_month=6)
            if d.rng.random() < .5: hi = (d.rng.randint(7, 12), d.rng.randint(1, 28)); kw.update(include_to_month=hi[0], include_to_day=hi[1])
            agg, agg2 = d.rng.choice(list(AGG)), d.rng.choice(list(AGG))
            fac = d.rng.choice([None, [1.5, -.25]])
            nodes = [c1, c2]
            R = AnnualCountIndexThresholdRecorder(m, I, "counts", th, temporal_agg_func=agg, **kw)
            F = AnnualTotalFlowRecorder(m, "totals", nodes, factors=fac, temporal_agg_func=agg2)
            P = AnnualCountIndexParameterRecorder(m, I[0], max(th, 1), name="years")
            Y0, Y1 = int(start[:4]), int(end[:4])
            for run in range(2):
                cnt, tot, yr = np.zeros((Y1 - Y0 + 1, n)), np.zeros((Y1 - Y0 + 1, n)), [set() for _ in range(n)]
                m.setup() if run == 0 else m.reset()
                stop = T if run == 0 else d.rng.randint(1, T)
                for t in range(stop):
                    m.timestep = ts = next(m.timestepper); m.before(); m.solve(); m.after()
                    p = ts.period; y = p.year - Y0
                    date = (p.month, p.day)
                    hit = np.any([indices(x) >= th for x in I], axis=0)
                    if p.month not in kw.get("exclude_months", ()) and lo <= date <= hi: cnt[y] += hit
                    fl = sum(np.array(x.flow) * f for x, f in zip(nodes, fac or [1, 1]))
                    days = [p.start_time.normalize() + pd.Timedelta(days=k) for k in range(int(round(ts.days)))]
                    for k in days:
                        if k.year - Y0 < len(tot): tot[k.year - Y0] += fl
                    for s in np.where(indices(I[0]) >= max(th, 1))[0]: yr[s].add(p.year)
                m.finish()
                d.case("annual", scen=scen, start=start, end=end, step=step, seed=q, run=run, steps=stop, threshold=th, aggregation=(agg, agg2), factors=fac, **kw)
                d.near("counts by year", np.array(R.data), cnt, 0, 0); d.near("counts aggregated", np.array(R.values()), AGG[agg](cnt, axis=0))
                d.near("count frame", R.to_dataframe().values, cnt, 0, 0); d.eq("years of the frame", [int(str(x)[:4]) for x in R.to_dataframe().index], list(range(Y0, Y1 + 1)))
                d.near("totals by year", np.array(F.data), tot, 1e-9, 1e-7); d.near("totals aggregated", np.array(F.values()), AGG[agg2](tot, axis=0), 1e-9, 1e-7)
                d.near("total frame", F.to_dataframe().values, tot, 1e-9, 1e-7)
                d.near("number of years", np.array(P.values()), [len(s) for s in yr], 0, 0)
        d.guard(go)


def seasonal(d):
    for q in range(d.n(8)):
        scen = d.rng.choice(SCEN); n = ncomb(scen)
        start = d.rng.choice(["2014-11-20", "2015-01-01"]); step = d.rng.choice([1, 5, "M"])
        m = model(start=start, end="2016-01-20", step=step, scen=scen)
        d.case("seasonal flow duration", scen=scen, start=start, step=step, seed=q)
        def go():
            T = len(m.timestepper)
            c = Input(m, "c", max_flow=Given(m, d.np.uniform(0, 9, (T, n)).round(2), name="f"), cost=-1); o = Output(m, "o"); c.connect(o)
            months = d.rng.sample(range(1, 13), d.rng.randint(1, 6)); pc = [20., 50., 100., 0.]
            r = SeasonalFlowDurationCurveRecorder(m, o, pc, months=months, name="r")
            for run in range(2):
                H = []; mo = []
                m.setup() if run == 0 else m.reset()
                for t in range(T):
                    m.timestep = ts = next(m.timestepper); m.before(); m.solve(); m.after()
                    H.append(np.array(o.flow)); mo.append(ts.period.month)
                m.finish()
                sel = np.array([x in months for x in mo])
                d.near("percentiles of the season's flows", np.array(r.fdc), np.percentile(np.array(H)[sel], pc, axis=0))
        d.guard(go)


DRIVERS = [annual, seasonal]
