"""P18: optimisation variables."""
import math
from mlib import *
from pywr.parameters import *
from pywr.parameters._activation_functions import *
from pywr.parameters.control_curves import ControlCurveParameter

INF = float("inf")


def vec(d, n, lo=-5, hi=5): return [round(d.rng.uniform(lo, hi), 3) for _ in range(n)]


def inside(d, lo, hi):
    """A vector within the bounds: at one of them or in between."""
    out = []
    for a, b in zip(lo, hi):
        a, b = (a if math.isfinite(a) else -9.0), (b if math.isfinite(b) else 9.0)
        out.append(float(d.rng.choice([a, b, a + (b - a) * d.rng.random()])))
    return out


def make(d, kind, m, T, n):
    """(parameter, size, lower, upper, expected(x, t, date, scenario))"""
    lo, hi = -float(d.rng.randint(1, 4)), float(d.rng.randint(1, 6))
    doy365 = lambda dt: min(dt.dayofyear, 366)
    b = dict(lower_bounds=lo, upper_bounds=hi)
    per_slot = d.rng.random() < .5
    def slots(k):
        if not per_slot: return [lo] * k, [hi] * k, b
        l = [lo - i for i in range(k)]; u = [hi + i for i in range(k)]
        return l, u, dict(lower_bounds=l, upper_bounds=u)
    if kind == "constant":
        s, o = round(d.rng.uniform(.5, 3), 2), round(d.rng.uniform(-3, 3), 2)
        return ConstantParameter(m, 0.5, scale=s, offset=o, name="p", **b), 1, [lo], [hi], lambda x, t, dt, i: o + x[0] * s
    if kind == "offset":
        v = d.np.uniform(-5, 5, (T, n))
        return OffsetParameter(m, Given(m, v, name="a"), 0.1, name="p", **b), 1, [lo], [hi], lambda x, t, dt, i: v[t, i] + x[0]
    if kind == "binary":
        return BinaryStepParameter(m, 0.3, output=7.5, name="p", **b), 1, [lo], [hi], lambda x, t, dt, i: 7.5 if x[0] > 0 else 0.0
    if kind == "rectifier":
        a, c = 1.5, 4.25
        return RectifierParameter(m, 0.3, min_output=a, max_output=c, name="p", **b), 1, [lo], [hi], lambda x, t, dt, i: a + (c - a) * x[0] / hi if x[0] > 0 else 0.0
    if kind == "logistic":
        return LogisticParameter(m, 0.3, max_output=4.0, growth_rate=1.3, name="p", **b), 1, [lo], [hi], lambda x, t, dt, i: 4.0 / (1 + math.exp(-1.3 * x[0]))
    if kind == "monthly":
        l, u, kw = slots(12)
        return MonthlyProfileParameter(m, vec(d, 12), name="p", **kw), 12, l, u, lambda x, t, dt, i: x[dt.month - 1]
    if kind in ("monthly-first", "monthly-last"):
        l, u, kw = slots(12)
        first = kind.endswith("first")
        def ex(x, t, dt, i):
            start = [pd.Timestamp(2015, k, 1).dayofyear for k in range(1, 13)] + [366]
            k = dt.month - 1
            q = pd.Timestamp(2015, dt.month, min(dt.day, 28) if dt.month == 2 else dt.day).dayofyear
            a, c = (x[k], x[(k + 1) % 12]) if first else (x[(k - 1) % 12], x[k])
            pos = q - start[k] + (0 if first else 1)
            return a + (c - a) * pos / (start[k + 1] - start[k])
        return MonthlyProfileParameter(m, vec(d, 12), interp_day=kind[8:], name="p", **kw), 12, l, u, ex
    if kind == "harmonic":
        k = d.rng.randint(1, 3)
        B = dict(mean_lower_bounds=-1.0, mean_upper_bounds=4.0, amplitude_lower_bounds=0.5, amplitude_upper_bounds=2.0, phase_lower_bounds=0.1, phase_upper_bounds=3.0)
        def ex(x, t, dt, i): return x[0] + sum(x[1 + j] * math.cos((dt.dayofyear - 1) * (j + 1) * math.pi * 2 / 365 + x[1 + k + j]) for j in range(k))
        return AnnualHarmonicSeriesParameter(m, 1.0, [1.0] * k, [0.5] * k, name="p", **B), 1 + 2 * k, [-1.0] + [0.5] * k + [0.1] * k, [4.0] + [2.0] * k + [3.0] * k, ex
    if kind == "controlcurve":
        st = m.nodes["st"]; c = d.rng.randint(1, 3); cc = sorted([round(d.rng.uniform(0, 1), 2) for _ in range(c)], reverse=True)
        ix = d.rng.sample(range(c + 1), d.rng.randint(1, c + 1)); base = vec(d, c + 1)
        l, u, kw = slots(len(ix)); kw = dict(lower_bounds=l, upper_bounds=u)
        def ex(x, t, dt, i):
            v = list(base)
            for j, q in enumerate(ix): v[q] = x[j]
            pc = st.initial_volume / st.max_volume if t == 0 else st.volume[i] / st.max_volume
            return next((v[j] for j in range(c) if pc >= cc[j]), v[-1])
        return ControlCurveParameter(m, st, cc, values=list(base), variable_indices=ix, name="p", **kw), len(ix), l, u, ex
    k = d.rng.randint(3, 5)
    l, u, kw = slots(k)
    days = [1] + sorted(d.rng.sample(range(20, 366), k - 1))
    return RbfProfileParameter(m, days, vec(d, k), name="p", **kw), k, l, u, None


KINDS = ["constant", "offset", "binary", "rectifier", "logistic", "monthly", "monthly-first", "monthly-last", "harmonic", "controlcurve", "rbf"]


def doubles(d):
    for q in range(d.n(8) * len(KINDS)):
        kind = KINDS[q % len(KINDS)]
        scen = d.rng.choice(SCEN); n = ncomb(scen)
        start = d.rng.choice(["2015-01-29", "2016-02-27", "2015-12-29"]); T = 6
        m = pmodel(start=start, end=str(pd.Timestamp(start) + pd.Timedelta(days=T - 1))[:10], scen=scen)
        st = Storage(m, "st", max_volume=10.0, initial_volume=float(d.rng.randint(0, 10))); m.nodes["i!"].connect(st); st.connect(m.nodes["o!"])
        m.nodes["o!"].max_flow = 2.0; m.nodes["o!"].cost = d.rng.choice([-1.0, 1.0])
        d.case(f"{kind} variables", scen=scen, start=start, seed=q)
        def go():
            p, size, lo, hi, ex = make(d, kind, m, T, n)
            p.is_variable = True
            d.eq("double_size", p.double_size, size)
            d.eq("lower bounds", np.array(p.get_double_lower_bounds()), lo)
            d.eq("upper bounds", np.array(p.get_double_upper_bounds()), hi)
            d.eq("length of the vector", len(p.get_double_variables()), size)
            d.true("listed as a variable", [v.name for v in m.variables] == ["p"], [v.name for v in m.variables])
            dates = pd.date_range(start, periods=T)
            for run in range(3):
                x = inside(d, lo, hi) if run else vec(d, size, .1, 1)
                before = np.array(p.get_double_variables())
                p.set_double_variables(np.array(x))
                d.case(f"{kind} variables", scen=scen, start=start, seed=q, run=run, vector=x)
                d.eq("reading back", np.array(p.get_double_variables()), x)
                d.eq("bounds unchanged", [np.array(p.get_double_lower_bounds()).tolist(), np.array(p.get_double_upper_bounds()).tolist()], [lo, hi])
                if run == 0: m.setup()
                m.reset()
                d.eq("reading back after reset", np.array(p.get_double_variables()), x)
                for t in range(T):
                    m.timestep = next(m.timestepper); m.before()
                    if ex: d.near("value", values(p), [ex(x, t, dates[t], i) for i in range(n)])
                    elif t == 0:
                        r = RbfProfileParameter(m, p.days_of_year, x, name=f"r{run}"); r.setup(); r.reset()
                        d.near("value", values(p), [r.value(m.timestep, si) for si in m.scenarios.combinations])
                    m.solve(); m.after()
                d.eq("reading back after a run", np.array(p.get_double_variables()), x)
        d.guard(go)


def integers(d):
    """Days of the year of an RBF profile."""
    for q in range(d.n(60)):
        k = d.rng.randint(3, 6); form = d.rng.choice(["range", "bounds"])
        days = [1] + sorted(d.rng.sample(range(15, 366), k - 1))
        if d.rng.random() < .4: days[-1] = d.rng.randint(360, 365)
        if len(set(days)) < k or sorted(days) != days: continue
        gap = min(b - a for a, b in zip(days, days[1:]))
        m = pmodel(end="2015-01-03")
        if form == "range":
            r = max(0, min((gap - 1) // 2, d.rng.randint(1, 20)))
            if r == 0: continue
            kw = dict(variable_days_of_year_range=r); lo = [x - r for x in days[1:]]; hi = [min(x + r, 365) for x in days[1:]]
        else:
            w = (gap - 1) // 2
            lo = [max(2, x - d.rng.randint(0, w)) for x in days[1:]]; hi = [min(365, x + d.rng.randint(0, w)) for x in days[1:]]
            kw = dict(variable_days_lower_bounds=lo, variable_days_upper_bounds=hi)
        d.case(f"days of the year ({form})", days=days, **kw)
        def go():
            p = RbfProfileParameter(m, days, [float(i) for i in range(k)], name="p", **kw)
            d.eq("integer_size", p.integer_size, k - 1)
            d.eq("lower bounds", np.array(p.get_integer_lower_bounds()), lo); d.eq("upper bounds", np.array(p.get_integer_upper_bounds()), hi)
            d.eq("the days given", np.array(p.get_integer_variables()), days[1:])
            m.setup()
            for x in [lo, hi] + [[d.rng.randint(a, b) for a, b in zip(lo, hi)] for _ in range(3)]:
                d.case(f"days of the year ({form})", days=days, vector=x, **kw)
                p.set_integer_variables(np.array(x, dtype=np.int32))
                d.eq("reading back", np.array(p.get_integer_variables()), x)
                m.reset()
                m.timestep = next(m.timestepper); m.before()
                for i, dd in enumerate([1] + list(x)):
                    slot = dd - 1 if dd <= 59 else dd
                    v = p.value(mkts(pd.Timestamp(2015, 1, 1) + pd.Timedelta(days=dd - 1)), m.scenarios.combinations[0])
                    d.near("the profile passes through the points", v, float(i), 1e-6, 1e-6)
        d.guard(go)
    p = RbfProfileParameter(pmodel(end="2015-01-03"), [1, 100, 200], [1.0, 2.0, 3.0], name="p")
    d.case("days of the year refused")
    d.eq("no integer variables", p.integer_size, 0)
    for x in ([200, 100], [1, 100], [100, 100], [100, 366], [0, 100], [-3, 100]):
        d.case("days of the year refused", vector=x)
        d.raises("refused", ValueError, lambda: p.set_integer_variables(np.array(x, dtype=np.int32)))


def loading(d):
    docs = [("constant", {"type": "constant", "value": 3.0, "is_variable": True, "lower_bounds": 1.0, "upper_bounds": 9.0}, [3.0], [1.0], [9.0]),
            ("monthly", {"type": "monthlyprofile", "values": [float(i) for i in range(12)], "is_variable": True, "lower_bounds": 1.0, "upper_bounds": 9.0}, [float(i) for i in range(12)], [1.0] * 12, [9.0] * 12),
            ("harmonic", {"type": "annualharmonicseries", "mean": 0.5, "amplitudes": [0.25, 1.0], "phases": [0.1, 0.2], "is_variable": True, "mean_upper_bounds": 3.0, "amplitude_upper_bounds": 2.0}, [0.5, 0.25, 1.0, 0.1, 0.2], [0.0] * 5, [3.0, 2.0, 2.0, 2 * math.pi, 2 * math.pi]),
            ("binary", {"type": "binarystep", "value": 0.5, "is_variable": True}, [0.5], [-1.0], [1.0]),
            ("rectifier", {"type": "rectifier", "value": 0.5, "is_variable": True}, [0.5], [-1.0], [1.0]),
            ("logistic", {"type": "logistic", "value": 0.5, "is_variable": True, "growth_rate": 2.0}, [0.5], [-6.0], [6.0]),
            ("offset", {"type": "offset", "parameter": {"type": "constant", "value": 2.0}, "offset": 1.5, "is_variable": True, "upper_bounds": 4.0}, [1.5], [0.0], [4.0]),
            ("controlcurve", {"type": "controlcurve", "storage_node": "st", "control_curves": [0.5], "values": [1.0, 2.0], "variable_indices": [1], "lower_bounds": [0.5], "upper_bounds": [3.0], "is_variable": True}, [2.0], [0.5], [3.0])]
    for kind, doc, x, lo, hi in docs:
        d.case(f"loaded {kind}", document=doc)
        def go():
            m = pmodel(end="2015-01-03"); Storage(m, "st", max_volume=10, initial_volume=5)
            p = load_parameter(m, {**doc, "name": "p", "comment": "a comment"})
            d.true("is a variable", p.is_variable)
            d.eq("the vector given", np.array(p.get_double_variables()), x); d.eq("size", p.double_size, len(x))
            d.near("lower bounds", np.array(p.get_double_lower_bounds()), lo); d.near("upper bounds", np.array(p.get_double_upper_bounds()), hi)
            d.eq("comment", p.comment, "a comment")
        d.guard(go)


DRIVERS = [doubles, integers, loading]
