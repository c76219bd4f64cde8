"""P15: array-backed parameters."""
from mlib import *
from pywr.parameters import *
import os, tempfile


def scenarios(d, m):
    """Scenarios with slices or user combinations; returns the scenarios and the member of each in every combination."""
    sizes = [d.rng.randint(1, 5) for _ in range(d.rng.randint(1, 3))]
    how = d.rng.choice(["all", "slice", "user"])
    slices = [None] * len(sizes); user = None
    if how == "slice":
        for i, n in enumerate(sizes):
            a = d.rng.choice([None, 0, d.rng.randrange(n), -1]); b = d.rng.choice([None, n, n + 3, -1, d.rng.randint(1, n)]); s = d.rng.choice([None, 1, 2])
            if d.rng.random() < .8 and len(range(n)[slice(a, b, s)]): slices[i] = slice(a, b, s)
    sc = [Scenario(m, f"s{i}", size=n, slice=s) for i, (n, s) in enumerate(zip(sizes, slices))]
    if how == "user":
        user = [[d.rng.randrange(n) for n in sizes] for _ in range(d.rng.randint(1, 5))]
        m.scenarios.user_combinations = user
    if user: combos = user
    else:
        import itertools
        combos = list(itertools.product(*[range(n)[s] if s else range(n) for n, s in zip(sizes, slices)]))
    return sc, np.array(combos), dict(sizes=sizes, slices=[str(s) for s in slices], user=user)


def arrays(d):
    for k in range(d.n(80)):
        T = d.rng.randint(3, 7); start = d.rng.choice(["2015-01-29", "2016-02-27", "2015-12-30"]); step = d.rng.choice([1, 1, 3, 10])
        m = pmodel(start=start, end=str(pd.Timestamp(start) + pd.Timedelta(days=step * T - 1))[:10], step=step)
        sc, combos, what = scenarios(d, m)
        j = d.rng.randrange(len(sc)); s = sc[j]; mem = combos[:, j]; N = len(combos); n = s.size
        off = d.rng.choice([0, 0, 1, -1, 2, -3, 50, -50])
        idx = pd.date_range(start, periods=T, freq=f"{step}D")
        d.case("arrays", T=T, start=start, step=step, scenario=j, offset=off, seed=k, **what)
        def go():
            v1, v2 = d.np.uniform(-9, 9, T).round(3), d.np.uniform(-9, 9, (T, n)).round(3)
            f, cv, iv = d.np.uniform(0, 2, (n, 12)).round(3), d.np.uniform(-9, 9, n).round(3), d.np.randint(-5, 9, n)
            cl = lambda t: min(max(t + off, 0), T - 1)
            ps = [("ArrayIndexedParameter", ArrayIndexedParameter(m, v1), lambda t: np.full(N, v1[t])),
                  ("ArrayIndexedScenarioParameter", ArrayIndexedScenarioParameter(m, s, v2), lambda t: v2[t, mem]),
                  ("ArrayIndexedScenarioMonthlyFactorsParameter", ArrayIndexedScenarioMonthlyFactorsParameter(m, s, v1, f), lambda t: v1[t] * f[mem, idx[t].month - 1]),
                  ("ConstantScenarioParameter", ConstantScenarioParameter(m, s, cv), lambda t: cv[mem]),
                  ("DataFrameParameter with scenario", DataFrameParameter(m, pd.DataFrame(v2, index=idx), scenario=s, timestep_offset=off, name="df2"), lambda t: v2[cl(t), mem]),
                  ("DataFrameParameter", DataFrameParameter(m, pd.DataFrame({"a": v1}, index=idx), timestep_offset=off, name="df1"), lambda t: np.full(N, v1[cl(t)])),
                  ("DataFrameParameter of a series", DataFrameParameter(m, pd.Series(v1, index=idx), timestep_offset=off, name="dfs"), lambda t: np.full(N, v1[cl(t)]))]
            ip = ConstantScenarioIndexParameter(m, s, iv)
            for run in range(2):
                for t, ts in steps(m, T):
                    for nm, p, w in ps:
                        d.near(nm, values(p), w(t))
                        for si in m.scenarios.combinations: d.near(nm + " value()", p.value(ts, si), w(t)[si.global_id])
                    d.eq("ConstantScenarioIndexParameter", indices(ip), iv[mem]); d.eq("ConstantScenarioIndexParameter value", values(ip), iv[mem].astype(float))
        d.guard(go)


def tables(d):
    import tables as tb
    tmp = tempfile.mkdtemp()
    for k in range(d.n(40)):
        T = d.rng.randint(3, 7); extra = d.rng.choice([0, 0, 2])
        m = pmodel(end=str(pd.Timestamp("2015-01-01") + pd.Timedelta(days=T - 1))[:10])
        sc, combos, what = scenarios(d, m)
        j = d.rng.randrange(len(sc)); s = sc[j]; mem = combos[:, j]; N = len(combos); use = d.rng.random() < .7
        off = d.rng.choice([0, 0, 1, -1, 2, -3, 50, -50]); isint = d.rng.random() < .5
        data = (d.np.randint(0, 99, (T + extra, s.size)) if isint else d.np.uniform(0, 9, (T + extra, s.size)).round(3))
        path = os.path.join(tmp, f"t{k}.h5")
        with tb.open_file(path, "w") as h: h.create_array("/", "a", data.astype(np.int32) if isint else data)
        d.case("TablesArrayParameter", T=T, extra=extra, scenario=j if use else None, offset=off, integer=isint, seed=k, **what)
        def go():
            p = TablesArrayParameter(m, path, "a", scenario=s if use else None, timestep_offset=off)
            loaded_rows = T if use and (what["user"] or what["slices"][j] != "None") else T + extra
            for t, ts in steps(m, T):
                r = min(max(t + off, 0), loaded_rows - 1)
                w = data[r, mem if use else np.zeros(N, int)]
                d.near("value", values(p), w.astype(float))
                if isint: d.eq("index", indices(p), w)
            m.finish()
        d.guard(go)


DRIVERS = [arrays, tables]
