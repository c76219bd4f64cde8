"""P04: virtual storages against an independent account of weighted use and calendar resets."""
from mlib import *
from pywr.nodes import RollingVirtualStorage, AnnualVirtualStorage, SeasonalVirtualStorage, MonthlyVirtualStorage, VirtualStorage
import datetime


def network(m, d, T, n, cap=12):
    dem = d.np.uniform(0, cap, (T, n)).round(2)
    a, b, o = Input(m, "a", max_flow=Given(m, d.np.uniform(2, cap, (T, n)).round(2)), cost=1), Input(m, "b", max_flow=Given(m, d.np.uniform(0, cap, (T, n)).round(2)), cost=5), Output(m, "o", max_flow=Given(m, dem), cost=-100)
    a.connect(o); b.connect(o)
    return a, b, o


def latest(day, month, dom):
    """Latest reset date (year only matters) on or before day."""
    return day.year if (day.month, day.day) >= (month, dom) else day.year - 1


def snap(v, mx, mn=0.0):
    if abs(v - mx) < 1e-6: v = mx
    if abs(v - mn) < 1e-6: v = mn
    return v


def one(d, k):
    T = d.rng.choice([12, 40, 70]); n_s = d.rng.choice(SCEN); n = ncomb(n_s)
    kind = d.rng.choice(["plain", "annual", "annual", "seasonal", "seasonal", "monthly", "rolling"])
    step = d.rng.choice([1, 1, 7, 5, 13, 31] if kind != "plain" else [1, 7]) if kind != "rolling" else d.rng.choice([1, 1, 3])
    start = pd.Timestamp(d.rng.choice(["2014-12-20", "2015-01-01", "2015-02-25", "2016-02-27", "2015-11-05", "2015-07-01", "2015-03-31"]))
    m = model(start=str(start)[:10], end=str(start + pd.Timedelta(days=step * T - 1))[:10], step=step, scen=n_s)
    a, b, o = network(m, d, T, n)
    fac = d.rng.choice([None, [1.0, 2.0], [0.5, 1.5], [1.0, 0.0]])
    var = d.rng.random() < .4
    mxv = d.np.uniform(60, 300, T).round(1) * step if var else np.full(T, round(d.rng.uniform(40, 300) * step, 1))
    if var: mxp = Given(m, mxv)
    pc0 = d.rng.choice([1.0, .5, .25]); v0 = round(pc0 * mxv[0], 3)
    kw = dict(max_volume=mxp if var else float(mxv[0]), initial_volume=v0, factors=fac)
    if var: kw["initial_volume_pc"] = pc0
    nodes = [a, b]
    toinit = d.rng.random() < .4
    md = d.rng.choice([(1, 1), (4, 1), (2, 29), (12, 31), (start.month, start.day), (7, 15), (3, 1)])
    ed = d.rng.choice([x for x in [(1, 1), (9, 30), (12, 31), (2, 28), (5, 5), (3, 31), (1, 10)] if x != md])
    months = d.rng.choice([1, 2, 3, 12]); im = d.rng.randint(0, months); win = d.rng.choice([2, 3, 5, 10])
    if kind == "plain": s = VirtualStorage(m, "v", nodes, **kw)
    elif kind == "annual": s = AnnualVirtualStorage(m, "v", nodes=nodes, reset_month=md[0], reset_day=md[1], reset_to_initial_volume=toinit, **kw)
    elif kind == "seasonal": s = SeasonalVirtualStorage(m, "v", nodes=nodes, reset_month=md[0], reset_day=md[1], end_month=ed[0], end_day=ed[1], reset_to_initial_volume=toinit, **kw)
    elif kind == "monthly": s = MonthlyVirtualStorage(m, "v", nodes=nodes, months=months, initial_months=im, reset_to_initial_volume=toinit, **kw)
    else:
        if step == 1 and d.rng.random() < .5: s = RollingVirtualStorage(m, "v", nodes, days=win, **kw)
        else: s = RollingVirtualStorage(m, "v", nodes, timesteps=win, **kw)
    d.case(kind, seed=k, start=str(start)[:10], step=step, scen=n_s, factors=fac, variable_max=var, max=mxv[0], initial=v0, to_initial=toinit, reset=md, end=ed, months=months, initial_months=im, window=win)
    f = fac or [1.0, 1.0]

    def go():
        m.setup()
        for run in range(2):
            m.reset()
            vol = np.full(n, v0); hist = []; seen = None; count = im; lastm = None
            for t in range(T):
                day = start + pd.Timedelta(days=t * step)
                m.step()
                ts = m.timestepper.current
                reset = False; active = True
                if kind in ("annual", "seasonal"):
                    y = latest(day, *md)
                    reset = (day.month, day.day) == md if t == 0 else y != seen
                    seen = y
                if kind == "seasonal":
                    p = (day.month, day.day)
                    active = (md <= p < ed) if md < ed else (p >= md or p < ed)
                if kind == "monthly":
                    mo = day.year * 12 + day.month
                    count = im if t == 0 else count + mo - lastm
                    lastm = mo
                    if count >= months: reset = True; count %= months
                if reset:
                    # the maximum volume known at the start of the step is that of the step before
                    vol = np.full(n, v0 if toinit or (t == 0 and var) else mxv[max(t - 1, 0)])
                use = (np.array(a.flow) * f[0] + np.array(b.flow) * f[1]) * step
                if active:
                    vol = vol - use
                    if kind == "rolling":
                        u0 = (mxv[0] * 0 + (v0 / pc0) - v0) / (win - 1)
                        back = hist[t - (win - 1)] if t >= win - 1 else np.full(n, u0)
                        vol = np.minimum(mxv[t], np.maximum(0, vol + back))
                    vol = np.array([snap(x, mxv[t]) for x in vol])
                    d.near(f"flow run {run} step {t}", s.flow, -use / step, 1e-9, 1e-8)
                hist.append(use)
                if kind in ("annual", "seasonal", "monthly", "plain"): d.eq(f"active run {run} step {t} {day.date()}", bool(s.active), active)
                d.near(f"volume run {run} step {t} {day.date()}", s.volume, vol, 1e-9, 1e-5)
                if active: d.near(f"proportion run {run} step {t}", s.current_pc, vol / mxv[t], 1e-7, 1e-7)
                vol = np.array(s.volume)
    d.guard(go)


def direct(d):
    """VirtualStorage.after called directly with chosen flows of the nodes."""
    for k in range(d.n(30)):
        scen = d.rng.choice(SCEN); n = ncomb(scen); step = d.rng.choice([1, 7])
        m = model(step=step, end="2015-03-30", scen=scen)
        N = d.rng.randint(1, 4)
        ins = [Input(m, f"i{j}", max_flow=1) for j in range(N)]; o = Output(m, "o")
        for i in ins: i.connect(o)
        f = [round(d.rng.uniform(-1, 3), 2) for _ in ins]
        kind = d.rng.choice([0, 1, 1]); w = d.rng.choice([2, 3, 4])
        s = VirtualStorage(m, "v", ins, factors=f, max_volume=100.0, initial_volume=60.0) if kind == 0 else RollingVirtualStorage(m, "v", ins, factors=f, max_volume=100.0, initial_volume=60.0, timesteps=w)
        d.case("after", seed=k, rolling=kind, factors=f, scen=scen, step=step, window=w)
        def go():
            m.setup(); m.reset()
            vol = np.full(n, 60.0); hist = []
            for t in range(8):
                ts = m.timestep = next(m.timestepper)
                m.before()
                fl = d.np.uniform(0, 2, (N, n))
                if d.rng.random() < .3: fl[:] = 0.0
                for j, i in enumerate(ins):
                    for c in range(n): i.commit(c, fl[j, c])
                s.active = active = kind == 1 or d.rng.random() < .7
                s.after(ts)
                use = sum(f[j] * fl[j] for j in range(N)) * step
                if active: vol = vol - use
                if kind == 1:
                    vol = np.clip(vol + (hist[t - (w - 1)] if t >= w - 1 else 40.0 / (w - 1)), 0, 100)
                hist.append(use)
                d.near(f"volume after step {t}", s.volume, vol, 1e-9, 2e-6)
                vol = np.array(s.volume)
        d.guard(go)


def factors(d):
    d.case("refused and defaulted arguments")
    m = model(); a = Input(m, "a", max_flow=3); o = Output(m, "o", cost=-1); a.connect(o)
    s = VirtualStorage(m, "v", [a], max_volume=10, initial_volume=10)
    d.near("default factors", s.factors, [1.0])
    m2 = model(); a = Input(m2, "a", max_flow=3); o = Output(m2, "o", cost=-1); a.connect(o)
    RollingVirtualStorage(m2, "v", [a], max_volume=10, initial_volume=10, timesteps=1)
    d.raises("a rolling period of one timestep", ValueError, m2.setup)


def several(d):
    for k in range(d.n(120)): one(d, k)


DRIVERS = [factors, direct, several]
