"""P12: arithmetic parameters."""
from mlib import *
from pywr.parameters import *


def given(d, m, T, n, lo=-9, hi=9):
    v = d.np.uniform(lo, hi, (T, n)).round(3); return Given(m, v), v


FUNCS = {"sum": lambda a: a.sum(0), "product": lambda a: a.prod(0), "mean": lambda a: a.mean(0), "min": lambda a: a.min(0), "max": lambda a: a.max(0),
         "median": lambda a: np.median(a, axis=0)}


def aggregates(d):
    T = 4
    for k in range(d.n(60)):
        scen = d.rng.choice(SCEN); n = ncomb(scen); nm = list(FUNCS)[k % 6]; cnt = d.rng.randint(1, 5)
        m = pmodel(scen=scen)
        gs = [given(d, m, T, n, *d.rng.choice([(-9, 9), (1, 5), (-5, -1)])) for _ in range(cnt)]
        how = d.rng.choice(["name", "load", "upper"])
        if how == "load":
            for i, g in enumerate(gs): g[0].name = f"g{i}"
            p = load_parameter(m, {"type": "aggregated", "agg_func": nm, "parameters": [f"g{i}" for i in range(cnt)]})
        else: p = AggregatedParameter(m, [g[0] for g in gs], agg_func=nm)
        q = AggregatedParameter(m, [g[0] for g in gs], agg_func=lambda x: sum(x) + 7.0)
        d.case("AggregatedParameter", func=nm, scen=scen, members=cnt, seed=k)
        def go():
            for t, ts in steps(m, T):
                a = np.array([g[1][t] for g in gs])
                d.near(nm, values(p), FUNCS[nm](a)); d.near("custom", values(q), a.sum(0) + 7.0)
                for si in m.scenarios.combinations: d.near("get_value", p.get_value(si), FUNCS[nm](a)[si.global_id])
        d.guard(go)


IFUNCS = {"sum": lambda a: a.sum(0), "product": lambda a: a.prod(0), "min": lambda a: a.min(0), "max": lambda a: a.max(0), "any": lambda a: (a != 0).any(0).astype(int),
          "all": lambda a: (a != 0).all(0).astype(int)}


def index_aggregates(d):
    T = 4
    for k in range(d.n(50)):
        scen = d.rng.choice(SCEN); n = ncomb(scen); nm = list(IFUNCS)[k % 6]; cnt = d.rng.randint(1, 4)
        m = pmodel(scen=scen)
        vs = [d.np.randint(0, 4, (T, n)) if d.rng.random() < .8 else d.np.randint(-3, 4, (T, n)) for _ in range(cnt)]
        gs = [GivenIndex(m, v) for v in vs]
        p = AggregatedIndexParameter(m, gs, agg_func=nm); q = AggregatedIndexParameter(m, gs, agg_func=lambda x: sum(x) + 2)
        d.case("AggregatedIndexParameter", func=nm, scen=scen, members=[v for v in vs])
        def go():
            for t, ts in steps(m, T):
                w = IFUNCS[nm](np.array([v[t] for v in vs]))
                d.eq(nm, indices(p), w); d.eq("value", values(p), w.astype(float)); d.eq("custom", indices(q), np.array([v[t] for v in vs]).sum(0) + 2)
        d.guard(go)


def functions(d):
    T = 4
    for k in range(d.n(30)):
        scen = d.rng.choice(SCEN); n = ncomb(scen)
        m = pmodel(scen=scen)
        a, va = given(d, m, T, n); b, vb = given(d, m, T, n, *d.rng.choice([(1, 9), (-9, -1)])); th = round(d.rng.uniform(-5, 5), 2)
        c = [ConstantParameter(m, th, scale=2.0, offset=1.5), ConstantParameter(m, th)]
        iv = d.np.randint(0, 3, (T, n)); ip = GivenIndex(m, iv)
        cases = [("NegativeParameter", NegativeParameter(m, a), lambda t: -va[t]), ("MaxParameter", MaxParameter(m, a, threshold=th), lambda t: np.maximum(va[t], th)),
                 ("MinParameter", MinParameter(m, a, threshold=th), lambda t: np.minimum(va[t], th)),
                 ("NegativeMaxParameter", NegativeMaxParameter(m, a, threshold=th), lambda t: np.maximum(-va[t], th)),
                 ("NegativeMinParameter", NegativeMinParameter(m, a, threshold=th), lambda t: np.minimum(-va[t], th)),
                 ("OffsetParameter", OffsetParameter(m, a, offset=th), lambda t: va[t] + th), ("DivisionParameter", DivisionParameter(m, a, b), lambda t: va[t] / vb[t]),
                 ("ConstantParameter scaled", c[0], lambda t: np.full(n, 1.5 + 2 * th)), ("ConstantParameter", c[1], lambda t: np.full(n, th)),
                 ("IndexedArrayParameter", IndexedArrayParameter(m, ip, [a, b, 4.25]), lambda t: np.where(iv[t] == 0, va[t], np.where(iv[t] == 1, vb[t], 4.25)))]
        d.case("functions", scen=scen, threshold=th, seed=k)
        def go():
            for t, ts in steps(m, T):
                for nm, p, w in cases:
                    d.case(nm, t=t, seed=k); d.near("value", values(p), w(t))
                    for si in m.scenarios.combinations: d.near("get_value", p.get_value(si), w(t)[si.global_id])
        d.guard(go)


def watching(d):
    """Parameters that watch nodes: flow and deficit of the previous step, volume at the start of the step."""
    for k in range(d.n(20)):
        scen = d.rng.choice(SCEN); n = ncomb(scen); T = 8
        m = model(scen=scen, end="2015-01-08")
        sup = d.np.uniform(1, 9, (T, n)).round(3); dem = d.np.uniform(1, 9, (T, n)).round(3); c = d.rng.random() < .3
        i = Input(m, "i", max_flow=Given(m, sup)); o = Output(m, "o", max_flow=5.5 if c else Given(m, dem), cost=-10); st = Storage(m, "s", max_volume=30, initial_volume=15, cost=-1)
        if c: dem = np.full((T, n), 5.5)
        i.connect(o); i.connect(st); st.connect(o)
        fl = FlowParameter(m, o, initial_value=2.5); de = DeficitParameter(m, o); sv = StorageParameter(m, st); sp = StorageParameter(m, st, use_proportional_volume=True)
        d.case("watching parameters", scen=scen, constant=c, seed=k)
        pf, pd_ = np.full(n, 2.5), np.zeros(n)
        def go():
            nonlocal pf, pd_
            m.setup(); m.reset()
            for t in range(T):
                m.timestep = next(m.timestepper)
                vol = np.array(st.volume)
                m.before()
                d.near("flow of the previous step", values(fl), pf); d.near("deficit of the previous step", values(de), pd_)
                d.near("volume", values(sv), vol); d.near("proportional volume", values(sp), vol / 30)
                m.solve(); m.after()
                pf = np.array(o.flow); pd_ = dem[t] - pf
                d.near("deficit after the step", values(de), pd_)
        d.guard(go)


DRIVERS = [aggregates, index_aggregates, functions, watching]
