"""P16: licences, over several years, step lengths and scenarios."""
from mlib import *
from pywr.parameters import licenses as L
import calendar, math


def build(m, o, kind, how, amount, mx, k, val):
    if kind == "annual": return (load_parameter(m, {"type": "annuallicense", "node": "o", "amount": amount}) if how else L.AnnualLicense(m, o, amount))
    if kind == "exponential":
        return load_parameter(m, {"type": "annualexponentiallicense", "node": "o", "amount": amount, "max_value": mx, "k": k}) if how else L.AnnualExponentialLicense(m, o, amount, mx, k)
    return load_parameter(m, {"type": "annualhyperbolalicense", "node": "o", "amount": amount, "value": val}) if how else L.AnnualHyperbolaLicense(m, o, amount, val)


def annual(d):
    starts = ["2015-01-01", "2015-12-24", "2015-12-31", "2016-02-20", "2016-12-28", "2014-06-11"]
    for q in range(d.n(45)):
        scen = d.rng.choice(SCEN); n = ncomb(scen); step = d.rng.choice([1, 1, 5, 7, 30, 45]); T = d.rng.choice([15, 40])
        start = d.rng.choice(starts)
        m = model(start=start, end=str(pd.Timestamp(start) + pd.Timedelta(days=step * T - 1))[:10], step=step, scen=scen)
        kind = d.rng.choice(["annual", "annual", "exponential", "hyperbola"]); how = d.rng.random() < .4
        amount, mx, k, val = round(d.rng.uniform(5, 900), 1), round(d.rng.uniform(1, 9), 2), round(d.rng.uniform(.3, 3), 2), round(d.rng.uniform(.2, 5), 2)
        use = d.np.uniform(0, d.rng.choice([.5, 3, 30]), (T, n)).round(3)
        limit = d.rng.random() < .5
        d.case(kind + " licence", start=start, step=step, T=T, scen=scen, amount=amount, max_value=mx, k=k, value=val, limiting=limit, load=how, seed=q)
        def go():
            i, o = Input(m, "i"), Output(m, "o", cost=-10); i.connect(o)
            o.max_flow = Given(m, use)
            p = build(m, o, kind, how, amount, mx, k, val)
            if limit: i.max_flow = p
            m.setup(); m.reset()
            rem, year, prev = np.full(n, amount), None, np.zeros(n)
            for t in range(T):
                ts = m.timestep = next(m.timestepper); m.before()
                if ts.year != year:
                    rem = np.maximum(0, amount - (ts.dayofyear - 1) * prev); year = ts.year
                length = 366 if calendar.isleap(ts.year) else 365
                rate = rem / (length - ts.dayofyear + 1)
                x = rate / (amount / length)
                with np.errstate(all="ignore"):
                    want = rate if kind == "annual" else mx * np.exp(-x / k) if kind == "exponential" else np.where(x == 0, np.inf, val / np.where(x == 0, 1, x))
                d.near("permitted", values(p), want)
                m.solve(); f = np.array(o.flow)
                if limit: d.near("flow taken", f, np.minimum(use[t], want), atol=2e-6)
                m.after(); rem = np.maximum(0, rem - f * ts.days); prev = f
                d.near("remaining", p._remaining, rem, atol=1e-6)
        d.guard(go)


def rerun(d):
    for step in (1, 30):
        for start, end in (("2015-01-01", "2015-12-31"), ("2015-12-20", "2017-03-31"), ("2014-12-31", "2016-01-10")):
            d.case("annual licence again", start=start, end=end, step=step)
            def go():
                m = model(start=start, end=end, step=step)
                i, o = Input(m, "i"), Output(m, "o", max_flow=3, cost=-10); i.connect(o)
                i.max_flow = L.AnnualLicense(m, o, 200.0)
                r = NumpyArrayNodeRecorder(m, o); m.run(); a = np.array(r.data); m.run()
                d.near("same flows", np.array(r.data), a)
                years = pd.Series(a[:, 0] * step, index=m.timestepper.datetime_index.to_timestamp()).groupby(lambda x: x.year).sum()
                if step == 1: d.true("never more than the allowance in a year", bool((years <= 200 + 1e-3).all()), years.to_dict())
        d.guard(go)


def timestep(d):
    for q in range(d.n(6)):
        scen = d.rng.choice(SCEN); a = round(d.rng.uniform(0, 9), 2)
        cls = d.rng.choice(["TimestepLicense", "DailyLicense"])
        d.case(cls, amount=a, scen=scen)
        def go():
            m = model(scen=scen); i, o = Input(m, "i"), Output(m, "o", max_flow=7, cost=-10); i.connect(o)
            i.max_flow = p = getattr(L, cls)(m, o, a)
            m.setup(); m.reset()
            for t in range(4):
                m.step(); d.near("permitted", values(p), np.full(ncomb(scen), a)); d.near("taken", np.array(o.flow), np.full(ncomb(scen), min(7, a)), atol=1e-7)
        d.guard(go)


from pywr.recorders import NumpyArrayNodeRecorder
DRIVERS = [annual, rerun, timestep]
