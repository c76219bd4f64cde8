"""P23: aggregation of recorder values, bounds, objectives and feasibility."""
from mlib import *
from pywr.recorders import Recorder, AggregatedRecorder, Aggregator, NumpyArrayParameterRecorder
from pywr.parameters import ConstantParameter
from scipy.stats import percentileofscore
NP = {"sum": np.sum, "min": np.min, "max": np.max, "mean": np.mean, "median": np.median, "product": np.prod, "count_nonzero": np.count_nonzero}


def funcs(d):
    q, s = d.rng.choice([0, 10, 50, 95, 100]), d.rng.choice([0.0, 1.0, 3.5])
    yield from ((k, k, f) for k, f in NP.items())
    yield "MAX", "MAX", np.max
    yield "percentile args", {"func": "percentile", "args": [q]}, lambda x: np.percentile(x, q)
    yield "percentile kwargs", {"func": "percentile", "kwargs": {"q": q}}, lambda x: np.percentile(x, q)
    yield "percentileofscore", {"func": "percentileofscore", "kwargs": {"score": s, "kind": "rank"}}, lambda x: percentileofscore(x, s, kind="rank")
    yield "dict", {"func": "sum"}, np.sum
    yield "user", lambda x, axis=None: np.ptp(x, axis=axis), np.ptp


def data(d, n, nan):
    x = d.np.choice([-3.0, -1.5, 0.0, 0.0, 1.0, 2.5, 3.5, 40.0], n)
    return np.where(d.np.uniform(size=n) < .4, np.nan, x) if nan else x


def same(d, what, got, want): d.near(what, got, want, 1e-12, 1e-12)


def agg(d):
    for q in range(d.n(60)):
        n, mm = d.rng.randint(1, 5), d.rng.randint(1, 4)
        for name, func, want in funcs(d):
            for skip in (False, True):
                # numpy does not say what a statistic of missing values is for every function: only compared when asked to ignore them
                x = data(d, n, skip); y = data(d, (n, mm), skip)
                clean = lambda v: want(v[~np.isnan(v)]) if skip and np.isnan(v).any() and not np.isnan(v).all() else np.nan if skip and np.isnan(v).all() else want(v)
                a = Aggregator(func)
                d.case("one dimension", func=name, skip=skip, x=list(x))
                d.guard(lambda: same(d, name, a.aggregate_1d(x, ignore_nan=skip), clean(x)))
                for axis in (0, 1):
                    d.case("two dimensions", func=name, skip=skip, axis=axis, y=y.tolist())
                    d.guard(lambda: same(d, name, np.asarray(a.aggregate_2d(y, axis=axis, ignore_nan=skip)), [clean(v) for v in (y.T if axis == 0 else y)]))


class Fixed(Recorder):
    def __init__(self, model, x, **kw):
        self.x = np.array(x, dtype=float); super().__init__(model, **kw)
    def values(self): return self.x


BOUNDS = [None, -1e9, -1.5, 0.0, 1.0, 2.5]


def judged(d):
    for q in range(d.n(150)):
        scen = d.rng.choice(SCEN); n = ncomb(scen); m = pmodel(scen=scen); R = []
        for k in range(d.rng.randint(1, 4)):
            lo, hi = d.rng.choice(BOUNDS), d.rng.choice(BOUNDS)
            if d.rng.random() < .3: hi = lo
            skip = d.rng.random() < .4; x = data(d, n, skip and n > 1); f = d.rng.choice(list(NP))
            if skip and np.isnan(x).all(): x[:] = 1.0
            ob = d.rng.choice([None, None, "max", "min", "maximise", "minimize"])
            d.case("bounds", x=list(x), f=f, lo=lo, hi=hi, skip=skip, obj=ob)
            kw = dict(agg_func=f, ignore_nan=skip, is_objective=ob, constraint_lower_bounds=lo, constraint_upper_bounds=hi, name=f"r{k}")
            if lo is not None and hi is not None and lo > hi:
                d.raises("bounds the wrong way round", ValueError, lambda: Fixed(pmodel(scen=scen), x, **kw))
                hi = kw["constraint_upper_bounds"] = None
            r = Fixed(m, x, **kw)
            def go():
                v = NP[f](x[~np.isnan(x)] if skip else x)
                same(d, "aggregated value", r.aggregated_value(), v)
                d.eq("bounds kept", (r.constraint_lower_bounds, r.constraint_upper_bounds), (lo, hi))
                kinds = (r.is_constraint, r.is_equality_constraint, r.is_double_bounded_constraint, r.is_lower_bounded_constraint, r.is_upper_bounded_constraint)
                l, h = lo is not None, hi is not None
                d.eq("kind", kinds, (l or h, l and h and lo == hi, l and h and lo != hi, l and not h, h and not l))
                d.eq("direction", r.is_objective, None if ob is None else "maximise" if ob.startswith("max") else "minimise")
                bad = l and v < lo or h and v > hi
                if l or h: d.eq("violated", r.is_constraint_violated(), bool(bad))
                else: d.raises("no bounds", ValueError, r.is_constraint_violated)
                R.append((r, ob is not None, l or h, bad))
            d.guard(go)
        own = {r.name for r, *_ in R}
        d.case("of the model", seed=q)
        def go():
            d.eq("objectives", {r.name for r in m.objectives if r.name in own}, {r.name for r, o, *_ in R if o})
            d.eq("constraints", {r.name for r in m.constraints if r.name in own}, {r.name for r, _, c, _ in R if c})
            d.eq("feasible", m.is_feasible(), not any(b for *_, b in R))
        d.guard(go)


def across(d):
    for q in range(d.n(60)):
        scen = d.rng.choice(SCEN); n = ncomb(scen); m = pmodel(scen=scen); m.setup()
        k = d.rng.randint(1, 4); X = data(d, (k, n), False)
        rs = [Fixed(m, X[j], name=f"r{j}") for j in range(k)]
        for f in list(NP) + ["user", None]:
            g = d.rng.choice(list(NP)); given = d.rng.random() < .5
            d.case("across recorders", f=f, x=X.tolist(), scenarios=g)
            def go():
                fn = (lambda x, axis: np.ptp(x, axis=axis)) if f == "user" else f
                kw = dict(recorder_agg_func=fn, agg_func=g) if given else dict(agg_func=fn)
                if f is None: kw = {}
                a = AggregatedRecorder(m, rs, name=f"a{f}{given}", **kw)
                want = [(np.ptp if f == "user" else NP[f or "mean"])(X[:, i]) for i in range(n)]
                same(d, f"values {f}", np.asarray(a.values()), want)
                if f is not None and f != "user": same(d, "aggregated", a.aggregated_value(), NP[g if given else f](np.array(want, dtype=float)))
            d.guard(go)
    # missing values over time
    for q in range(d.n(20)):
        scen = d.rng.choice(SCEN); n = ncomb(scen); T = 6
        m = pmodel(scen=scen, end="2015-01-06"); X = data(d, (T, n), True)
        p = Given(m, X, name="p"); f = d.rng.choice([k for k in NP])
        r = NumpyArrayParameterRecorder(m, p, temporal_agg_func=f, ignore_nan=True, name="r")
        d.case("missing values over time", x=X.tolist(), f=f)
        def go():
            m.run()
            same(d, "over time", np.asarray(r.values()), [NP[f](x[~np.isnan(x)]) if not np.isnan(x).all() else np.nan for x in X.T])
        d.guard(go)


def late(d):
    """Bounds and directions changed after the recorder is made."""
    for q in range(d.n(60)):
        m = pmodel(); x = float(d.rng.choice([-2, 0, 1, 2.5])); r = Fixed(m, [x], name="r"); lo = hi = None
        for _ in range(d.rng.randint(1, 6)):
            v = d.rng.choice(BOUNDS); low = d.rng.random() < .5
            d.case("changed bounds", x=x, lo=lo, hi=hi, low=low, v=v)
            wrong = v is not None and (low and hi is not None and v > hi or not low and lo is not None and v < lo)
            def put(): setattr(r, "constraint_lower_bounds" if low else "constraint_upper_bounds", v)
            if wrong: d.raises("crossing bounds", ValueError, put)
            else:
                d.guard(put)
                if low: lo = v
                else: hi = v
            if lo is not None or hi is not None:
                d.guard(lambda: d.eq("violated", r.is_constraint_violated(), lo is not None and x < lo or hi is not None and x > hi))
        for f in NP:
            d.case("changed function", f=f); r.agg_func = f
            d.guard(lambda: same(d, f, r.aggregated_value(), NP[f](np.array([x]))))
            d.eq("function", r.agg_func, f)


DRIVERS = [agg, judged, across, late]
