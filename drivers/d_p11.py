"""P11: control curves."""
from mlib import *
from pywr.parameters import *
from pywr.parameters.control_curves import *
import calendar

ONCURVE = [0.0, 0.1, 0.25, 0.3, 0.5, 0.75, 0.9, 1.0]


def store(m, d, T, n, name="r"):
    """A storage whose volume follows a random walk over round proportions (ties with curves are frequent)."""
    s = Storage(m, name, max_volume=d.rng.choice([100.0, 40.0]), initial_volume_pc=d.rng.choice(ONCURVE), initial_volume=0.0)
    i, o = Catchment(m, name + "_i", flow=Given(m, d.np.randint(0, 4, (T, n)) * s.max_volume / 20.0)), Output(m, name + "_o", max_flow=Given(m, d.np.randint(0, 4, (T, n)) * s.max_volume / 20.0), cost=-10)
    i.connect(s); s.connect(o); x = Output(m, name + "_x", cost=100); i.connect(x)
    return s


def curves(d, m, T, n, k, sort):
    """k curves, constant or varying; returns what to pass and an array [t][k][n] of their values."""
    if sort:
        v = np.sort(d.np.choice(ONCURVE, (T if d.rng.random() < .4 else 1, k, n if d.rng.random() < .5 else 1)), axis=1)[:, ::-1]
    else: v = d.np.choice(ONCURVE, (T, k, n))
    v = np.broadcast_to(v, (T, k, n)).copy()
    out = []
    for j in range(k):
        c = v[:, j, :]
        out.append(float(c[0, 0]) if (c == c[0, 0]).all() and d.rng.random() < .7 else Given(m, c))
    return out, v


def pos(p, cc):
    """The first curve the proportion is at or above, per scenario."""
    r = np.full(len(p), len(cc))
    for j in reversed(range(len(cc))): r = np.where(p >= cc[j], j, r)
    return r


def interp(x, lo, hi, a, b): return a if hi == lo else a + (b - a) * (x - lo) / (hi - lo)


def all_kinds(d):
    for q in range(d.n(80)):
        scen = d.rng.choice(SCEN); n = ncomb(scen); T = 8; k = d.rng.randint(1, 4); sort = d.rng.random() < .75
        m = model(start="2015-01-01", end="2015-01-08", scen=scen)
        s = store(m, d, T, n)
        ccs, v = curves(d, m, T, n, k, sort)
        v1, v2, v3 = d.np.uniform(-9, 9, k + 1).round(2), d.np.uniform(-9, 9, k + 2).round(2), d.np.uniform(-9, 9, (k + 1, 2)).round(2)
        p1, p2 = d.np.uniform(-9, 9, (T, k + 1, n)).round(2), d.np.uniform(-9, 9, (T, k + 2, n)).round(2)
        lo, hi = d.rng.choice([(0.0, 1.0), (0.05, 0.95)])
        d.case("control curves" if sort else "control curves (unsorted)", curves=v, scen=scen, values=v1, values2=v2, pairs=v3, seed=q)
        def go():
            P = [("ControlCurveParameter values", ControlCurveParameter(m, s, ccs, values=list(v1), name="a"), lambda t, j, p, c, g: v1[j]),
                 ("ControlCurveParameter default", ControlCurveParameter(m, s, ccs, name="b"), lambda t, j, p, c, g: float(j)),
                 ("ControlCurveParameter parameters", ControlCurveParameter(m, s, ccs, parameters=[Given(m, p1[:, j]) for j in range(k + 1)], name="c"), lambda t, j, p, c, g: p1[t, j, g])]
            ix = ControlCurveIndexParameter(m, s, ccs, name="d")
            def band(t, j, p, c, g, top=1.0, bot=0.0): return (c[j - 1, g] if j else top), (c[j, g] if j < k else bot)
            def lin(vals):
                def f(t, j, p, c, g):
                    h, l = band(t, j, p, c, g); w = vals(t, g)
                    if h == l: return w[j + 1] if j < k else w[k]
                    return interp(p, l, h, w[j + 1], w[j])
                return f
            def pw(t, j, p, c, g):
                h, l = band(t, j, p, c, g, hi, lo)
                if p < l: return v3[j, 1]
                if p > h: return v3[j, 0]
                return interp(p, l, h, v3[j, 1], v3[j, 0])
            P += [("ControlCurveInterpolatedParameter values", ControlCurveInterpolatedParameter(m, s, ccs, values=list(v2), name="e"), lin(lambda t, g: v2)),
                  ("ControlCurveInterpolatedParameter parameters", ControlCurveInterpolatedParameter(m, s, ccs, parameters=[Given(m, p2[:, j]) for j in range(k + 2)], name="f"), lin(lambda t, g: p2[t, :, g])),
                  ("ControlCurvePiecewiseInterpolatedParameter", ControlCurvePiecewiseInterpolatedParameter(m, s, ccs, v3.tolist(), minimum=lo, maximum=hi, name="g"), pw)]
            for run in range(2):
                for t, ts in steps(m, T):
                    p = np.array([s.get_current_pc(si) for si in m.scenarios.combinations]); vol = np.array(s.volume) / s.max_volume
                    d.near("proportion", p, np.clip(vol, 0, 1))
                    c = v[t]; j = pos(p, c)
                    d.eq("ControlCurveIndexParameter", indices(ix), j)
                    for nm, par, f in P:
                        if par is not P[1][1] and False: continue
                        want = np.array([f(t, j[g], p[g], c[:, g], g) if False else f(t, j[g], p[g], c, g) for g in range(n)])
                        if sort or not nm.startswith("ControlCurveI"): d.near(nm, values(par), want)
        d.guard(go)


def loaded(d):
    for q in range(d.n(10)):
        m = model(end="2015-01-04"); s = store(m, d, 4, 1)
        v = sorted([d.rng.choice(ONCURVE) for _ in range(2)], reverse=True)
        d.case("loaded control curves", curves=v, seed=q)
        def go():
            a = load_parameter(m, {"type": "controlcurve", "storage_node": "r", "control_curves": list(v), "values": [1.5, 2.5, 3.5]})
            b = load_parameter(m, {"type": "controlcurveindex", "storage_node": "r", "control_curves": list(v)})
            c = load_parameter(m, {"type": "controlcurveinterpolated", "storage_node": "r", "control_curve": v[0], "values": [1.5, 2.5, 3.5]})
            e = load_parameter(m, {"type": "controlcurve", "storage_node": "r", "control_curve": {"type": "monthlyprofile", "values": [v[0]] + [0.0] * 11}, "parameters": [4.5 if False else {"type": "constant", "value": 4.5}, {"type": "constant", "value": 6.5}]})
            for t, ts in steps(m, 4):
                p = min(max(s.volume[0] / s.max_volume, 0), 1)
                j = 0 if p >= v[0] else 1 if p >= v[1] else 2
                d.eq("value", values(a), [[1.5, 2.5, 3.5][j]]); d.eq("index", indices(b), [j])
                d.near("interpolated", values(c), [(interp(p, v[0], 1.0, 2.5, 1.5) if v[0] < 1 else 2.5) if p >= v[0] else interp(p, 0.0, v[0], 3.5, 2.5)])
                d.eq("parameter", values(e), [4.5 if p >= v[0] else 6.5])
        d.guard(go)


def weighted(d):
    """WeightedAverageProfileParameter: average of the daily profiles weighted by maximum volume."""
    for q in range(d.n(25)):
        k = d.rng.randint(1, 3); start = d.rng.choice(["2015-02-26", "2016-02-26", "2016-12-29"])
        m = model(start=start, end=str(pd.Timestamp(start) + pd.Timedelta(days=5))[:10])
        ss, ps, vols, prof = [], [], [], []
        for j in range(k):
            V = float(d.rng.randint(1, 9)); s = Storage(m, f"s{j}", max_volume=ConstantParameter(m, V) if d.rng.random() < .4 else V, initial_volume=1.0, initial_volume_pc=0.5)
            i, o = Input(m, f"i{j}"), Output(m, f"o{j}"); i.connect(s); s.connect(o)
            kind = d.rng.choice(["const", "daily", "monthly", "first", "last"])
            if kind == "const": x = round(d.rng.random(), 3); p = ConstantParameter(m, x); f = np.full(366, x)
            elif kind == "daily": f = d.np.uniform(0, 1, 366).round(3); p = DailyProfileParameter(m, f)
            else:
                mv = d.np.uniform(0, 1, 12).round(3)
                p = MonthlyProfileParameter(m, mv, interp_day=None if kind == "monthly" else kind)
                if kind == "monthly": f = np.concatenate([np.full(calendar.monthrange(2016, a + 1)[1], mv[a]) for a in range(12)])
                else:
                    x = np.cumsum([0] + [calendar.monthrange(2015, a + 1)[1] for a in range(12)])
                    y = np.append(mv, mv[0]) if kind == "first" else np.append(mv[-1], mv)
                    f = np.interp(np.arange(365) + (0 if kind == "first" else 1), x, y); f = np.insert(f, 59, f[58])
            ss.append(s); ps.append(p); vols.append(V); prof.append(f)
        d.case("WeightedAverageProfileParameter", start=start, volumes=vols, seed=q)
        def go():
            w = WeightedAverageProfileParameter(m, ss, ps)
            want = sum(v * f for v, f in zip(vols, prof)) / sum(vols)
            for t, ts in steps(m, 5):
                day = ts.dayofyear - 1 + (1 if not calendar.isleap(ts.year) and ts.dayofyear > 59 else 0)
                d.near("value", values(w), [want[day]])
            d.near("daily values", np.array(w.get_daily_values()), want)
        d.guard(go)


DRIVERS = [all_kinds, loaded, weighted]
