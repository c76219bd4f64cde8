"""P25: flow duration curves, deviations and calibration measures against their definitions."""
from mlib import *
from pywr.recorders import FlowDurationCurveRecorder, SeasonalFlowDurationCurveRecorder, FlowDurationCurveDeviationRecorder, load_recorder
from pywr.recorders.calibration import *
CAL = {RootMeanSquaredErrorNodeRecorder: lambda s, o: np.sqrt(np.mean([(a - b) ** 2 for a, b in zip(s, o)])),
       MeanAbsoluteErrorNodeRecorder: lambda s, o: np.mean([abs(a - b) for a, b in zip(s, o)]),
       MeanSquareErrorNodeRecorder: lambda s, o: np.mean([(a - b) ** 2 for a, b in zip(s, o)]),
       PercentBiasNodeRecorder: lambda s, o: 100 * (sum(o) - sum(s)) / sum(o),
       RMSEStandardDeviationRatioNodeRecorder: lambda s, o: np.sqrt(np.mean([(a - b) ** 2 for a, b in zip(s, o)])) / np.sqrt(np.mean([(b - np.mean(o)) ** 2 for b in o])),
       NashSutcliffeEfficiencyNodeRecorder: lambda s, o: 1 - sum((a - b) ** 2 for a, b in zip(s, o)) / sum((b - np.mean(o)) ** 2 for b in o)}


def net(d, T, scen, start="2015-01-01", step=1, zero=False):
    m = model(start, str((pd.Timestamp(start) + pd.Timedelta(days=(T - 1) * (step if isinstance(step, int) else 1))).date()), step, scen)
    n = ncomb(scen)
    flows = np.round(d.np.uniform(0, 9, (T, n)), 3)
    if zero: flows[d.np.uniform(size=flows.shape) < .3] = 0.0
    a, b = Input(m, "a", max_flow=Given(m, flows, name="g")), Output(m, "b", max_flow=100, cost=-1)
    a.connect(b)
    return m, b, flows, n


def rank(x, q):
    """The q-th percentile with linear interpolation between order statistics."""
    x = sorted(x); h = (len(x) - 1) * q / 100.0; i = int(np.floor(h))
    return x[i] + (h - i) * (x[min(i + 1, len(x) - 1)] - x[i])


def qs(d): return [d.rng.choice([0, 100, 50, 5, 95, 99.5, round(d.rng.uniform(0, 100), 2)]) for _ in range(d.rng.randint(1, 6))]


def worst(f, u, l):
    if u == 0 or l == 0: return np.nan
    return max(0.0, (f - u) / u if u is not None else 0.0, (l - f) / l if l is not None else 0.0)


def targets(d, k, n):
    n = d.rng.choice([1, n])
    t = np.round(d.np.uniform(.5, 8, (k, n)), 2)
    if d.rng.random() < .2: t[d.rng.randrange(k), d.rng.randrange(n)] = 0.0
    return t


def pick(t, j): return None if t is None else t[:, 0 if t.shape[1] == 1 else j]


def curves(d):
    for q in range(d.n(60)):
        scen = d.rng.choice([(), (2,), (3,), (2, 3)]); T = d.rng.choice([1, 2, 7, 40])
        start = d.rng.choice(["2015-01-20", "2016-02-20", "2015-12-15"])
        m, b, flows, n = net(d, T, scen, start); P = qs(d)
        if d.rng.random() < .3: P = np.sort(P)[::-1].tolist()
        func, npf = d.rng.choice([("mean", np.mean), ("max", np.max), ("min", np.min), ("sum", np.sum), ("median", np.median)])
        d.case("curve", scen=scen, steps=T, start=start, percentiles=P, func=func)
        r = FlowDurationCurveRecorder(m, b, P, temporal_agg_func=func, name="fdc")
        days = [pd.Timestamp(start) + pd.Timedelta(days=k) for k in range(T)]
        months = sorted(d.rng.sample(range(1, 13), d.rng.randint(0, 6)) + [d.rng.choice(days).month])
        se = SeasonalFlowDurationCurveRecorder(m, b, P, months, temporal_agg_func=func, name="season")
        kind = d.rng.choice(["both", "upper", "lower"])
        by = d.rng.choice([None] + list(range(len(scen))))
        size = n if by is None else scen[by]
        U, Lo = (targets(d, len(P), size) if kind != "lower" else None), (targets(d, len(P), size) if kind != "upper" else None)
        if by is not None:      # with a scenario the targets have one column per member
            U, Lo = [None if t is None else np.repeat(t, size, axis=1) if t.shape[1] == 1 and size > 1 else t for t in (U, Lo)]
        args = dict(upper_target_fdc=None if U is None else U.tolist(), lower_target_fdc=None if Lo is None else Lo.tolist())
        sc = None if by is None else m.scenarios.scenarios[by]
        def go():
            dv = [FlowDurationCurveDeviationRecorder(m, b, P, scenario=sc, temporal_agg_func=func, name="dev", **args)]
            doc = dict(type="FlowDurationCurveDeviation", name="loaded", node="b", percentiles=list(P), temporal_agg_func=func, **args)
            if sc is not None: doc["scenario"] = sc.name
            dv.append(load_recorder(m, doc))
            for run in range(2):
                m.run()
                want = np.array([[rank(flows[:, s], p) for s in range(n)] for p in P])
                d.near("fdc", r.fdc, want, 1e-9, 1e-9)
                d.near("values", np.asarray(r.values()), [npf(want[:, s]) for s in range(n)], 1e-9, 1e-9)
                keep = [k for k, x in enumerate(days) if x.month in months]
                d.near("seasonal fdc", se.fdc, [[rank(flows[keep, s], p) for s in range(n)] for p in P], 1e-9, 1e-9)
                d.near("index of the table", r.to_dataframe().index.values.astype(float), P, 1e-12)
                d.near("table", r.to_dataframe().values, want, 1e-9, 1e-9)
                for x in dv:
                    member = [c.indices[by] if by is not None else c.global_id for c in m.scenarios.combinations]
                    exp = np.array([[worst(want[k, s], *(None if t is None else pick(t, member[s])[k] for t in (U, Lo))) for s in range(n)] for k in range(len(P))])
                    d.near(f"deviations {x.name}", x.fdc_deviations, exp, 1e-6, 1e-8)
                    d.near("deviation table", x.to_dataframe().values, exp, 1e-6, 1e-8)
                    if not np.isnan(exp).any(): d.near("deviation values", np.asarray(x.values()), [npf(exp[:, s]) for s in range(n)], 1e-6, 1e-8)
        d.guard(go)


def refused(d):
    for n in (2, 3):
        for by in (False, True):
            for which in ("upper_target_fdc", "lower_target_fdc"):
                for cols in (1, n, n + 1, n - 1):
                    m, b, flows, _ = net(d, 3, (n,)); P = [10, 50]
                    d.case("targets of the wrong shape", n=n, by=by, which=which, cols=cols)
                    FlowDurationCurveDeviationRecorder(m, b, P, scenario=m.scenarios.scenarios[0] if by else None, **{which: np.ones((2, cols)).tolist()})
                    bad = cols not in (1, n)
                    if bad: d.raises("setup", ValueError, m.setup)
                    else: d.guard(m.run)
                d.case("targets of the wrong length", n=n, which=which)
                d.raises("length", ValueError, lambda: FlowDurationCurveDeviationRecorder(m, b, P, **{which: [1.0, 2.0, 3.0]}))
    m, b, flows, _ = net(d, 3, ())
    d.case("no targets")
    d.raises("none", ValueError, lambda: FlowDurationCurveDeviationRecorder(m, b, [10]))


def calibration(d):
    for q in range(d.n(40)):
        scen = d.rng.choice([(), (2,), (2, 2)]); T = d.rng.choice([2, 5, 30])
        m, b, flows, n = net(d, T, scen)
        kind = d.rng.choice(["one column", "columns", "series"])
        before, after = d.rng.randint(0, 3), d.rng.randint(0, 3)
        obs = np.round(d.np.uniform(.5, 9, (T + before + after, n if kind == "columns" else 1)), 2)
        ix = pd.date_range(pd.Timestamp("2015-01-01") - pd.Timedelta(days=before), periods=len(obs), freq="D")
        frame = pd.Series(obs[:, 0], index=ix) if kind == "series" else pd.DataFrame(obs, index=ix)
        d.case("calibration", scen=scen, steps=T, observed=kind, extra=(before, after))
        def go():
            R = {c: c(m, b, frame, name=c.__name__) for c in CAL}
            for run in range(2):
                m.run()
                for c, r in R.items():
                    o = obs[before:before + T]
                    want = [CAL[c](flows[:, s], o[:, s if o.shape[1] > 1 else 0]) for s in range(n)]
                    d.near(c.__name__, np.asarray(r.values()), want, 1e-7, 1e-9)
                    d.near("aggregated", r.aggregated_value(), np.mean(want), 1e-7, 1e-9)
        d.guard(go)


DRIVERS = [curves, refused, calibration]
