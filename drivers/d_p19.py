"""P19: time-series recorders."""
import os, csv
from mlib import *
from pywr.parameters import *
from pywr.recorders import *
from pywr.recorders import NumpyArrayNormalisedStorageRecorder, NumpyArrayLevelRecorder, NumpyArrayAreaRecorder, NumpyArrayNodeCostRecorder

warn = __import__("warnings").catch_warnings


def net(d, m, T, n):
    """Reservoir system with per-scenario inflows, demands, costs, limits (zero now and then)."""
    z = lambda hi: np.where(d.np.rand(T, n) < .3, 0.0, d.np.uniform(0, hi, (T, n)).round(2))
    c = Catchment(m, "c", flow=Given(m, z(6), name="inflow")); l = Link(m, "l", max_flow=Given(m, z(8), name="lmax"), cost=Given(m, d.np.uniform(-3, 3, (T, n)).round(2), name="lcost"))
    s = Storage(m, "s", max_volume=float(d.rng.randint(10, 20)), initial_volume=float(d.rng.randint(0, 10)), level=Given(m, d.np.uniform(0, 9, (T, n)), name="level"), area=Given(m, d.np.uniform(0, 9, (T, n)), name="area"), cost=-2)
    o = Output(m, "o", max_flow=Given(m, z(7), name="omax"), cost=-10); sp = Output(m, "spill", cost=1)
    c.connect(s); s.connect(l); l.connect(o); s.connect(sp)
    return c, l, s, o, sp


def arrays(d):
    for q in range(d.n(40)):
        scen = d.rng.choice(SCEN); n = ncomb(scen)
        step = d.rng.choice([1, 1, 3, "M"]); start = d.rng.choice(["2015-01-30", "2016-02-27"])
        T = 6 if step != "M" else 3
        end = {1: 5, 3: 15, "M": 70}[step]
        m = model(start=start, end=str(pd.Timestamp(start) + pd.Timedelta(days=end))[:10], step=step, scen=scen)
        d.case("array recorders", scen=scen, start=start, step=step, seed=q)
        def go():
            T = len(m.timestepper)
            c, l, s, o, sp = net(d, m, T, n)
            f = round(d.rng.uniform(-2, 2), 2)
            cc = d.rng.choice([0.5, 1.0, 0.8]); ccp = Given(m, np.where(d.np.rand(T, n) < .3, 1.0, cc), name="cc")
            ix = GivenIndex(m, d.np.randint(0, 5, (T, n)), name="ix"); px = Given(m, d.np.uniform(-5, 5, (T, n)), name="px")
            w = d.rng.randint(1, 8); w2 = d.rng.randint(1, 8); agg = d.rng.choice(["mean", "max", "min", "sum"])
            R = {"flow": NumpyArrayNodeRecorder(m, o, factor=f), "deficit": NumpyArrayNodeDeficitRecorder(m, o), "supplied": NumpyArrayNodeSuppliedRatioRecorder(m, o),
                 "curtailment": NumpyArrayNodeCurtailmentRatioRecorder(m, o), "cost": NumpyArrayNodeCostRecorder(m, l), "volume": NumpyArrayStorageRecorder(m, s),
                 "proportion": NumpyArrayStorageRecorder(m, s, proportional=True, name="prop"), "level": NumpyArrayLevelRecorder(m, s), "area": NumpyArrayAreaRecorder(m, s),
                 "normalised": NumpyArrayNormalisedStorageRecorder(m, s, parameter=ccp), "parameter": NumpyArrayParameterRecorder(m, px), "index": NumpyArrayIndexParameterRecorder(m, ix),
                 "daily": NumpyArrayDailyProfileParameterRecorder(m, px), "window": RollingWindowParameterRecorder(m, px, w, temporal_agg_func=agg, name="rw"),
                 "rolling": RollingMeanFlowNodeRecorder(m, o, timesteps=w2, name="rm")}
            NP = {"mean": np.mean, "max": np.max, "min": np.min, "sum": np.sum}[agg]
            for run in range(2):
                W = {k: np.zeros((T, n)) for k in R}; W["daily"] = np.zeros((366, n))
                m.setup() if run == 0 else m.reset()
                hist = []
                for t in range(T):
                    m.timestep = ts = next(m.timestepper); m.before(); m.solve(); m.after()
                    q_, v = np.array(o.flow), np.array(s.volume); mx = np.array([o.get_max_flow(si) for si in m.scenarios.combinations])
                    pc = np.array(s.current_pc); cv = values(ccp)
                    W["flow"][t] = q_ * f; W["deficit"][t] = mx - q_
                    W["supplied"][t] = [a / b if b else 1.0 for a, b in zip(q_, mx)]; W["curtailment"][t] = [1 - a / b if b else 0.0 for a, b in zip(q_, mx)]
                    W["cost"][t] = [l.get_cost(si) for si in m.scenarios.combinations]; W["volume"][t] = v; W["proportion"][t] = v / s.max_volume
                    W["level"][t] = values(s.level); W["area"][t] = values(s.area)
                    W["normalised"][t] = [a / b - 1 if a < b else 1.0 if b == 1 else (a - b) / (1 - b) for a, b in zip(pc, cv)]
                    W["parameter"][t] = values(px); W["index"][t] = indices(ix)
                    doy = ts.period.dayofyear - 1
                    if doy > 58 and not ts.period.is_leap_year: doy += 1
                    W["daily"][doy] = values(px)
                    hist.append((values(px).copy(), q_.copy()))
                    W["window"][t] = NP(np.array([h[0] for h in hist[-w:]]), axis=0); W["rolling"][t] = np.mean([h[1] for h in hist[-w2:]], axis=0)
                m.finish()
                for k, r in R.items():
                    d.case(f"array recorder {k}", scen=scen, start=start, step=step, run=run, factor=f, window=w, timesteps=w2, seed=q)
                    d.near("data", np.array(r.data), W[k], 1e-9, 1e-9)
                    if hasattr(r, "to_dataframe"):
                        df = r.to_dataframe()
                        d.near("data frame", df.values, W[k], 1e-9, 1e-9)
                        if k != "daily": d.true("rows are the periods of the model", list(df.index) == list(m.timestepper.datetime_index))
                        d.true("columns are the combinations", [tuple(x) if isinstance(x, tuple) else (x,) for x in df.columns] == [tuple(int(i) for i in si.indices) for si in m.scenarios.combinations] or not scen, list(df.columns))
        d.guard(go)


def files(d):
    import tables
    for q in range(d.n(10)):
        scen = d.rng.choice(SCEN); n = ncomb(scen); T = 5
        m = model(end="2015-01-05", scen=scen)
        c, l, s, o, sp = net(d, m, T, n)
        ix = GivenIndex(m, d.np.randint(0, 5, (T, n)), name="ix"); px = Given(m, d.np.uniform(-5, 5, (T, n)), name="px")
        user = scen and d.rng.random() < .4
        if user:
            combos = [tuple(d.rng.randrange(k) for k in scen) for _ in range(d.rng.randint(1, 3))]
            combos = sorted(set(combos)); m.scenarios.user_combinations = combos; n = len(combos)
        shape = (n,) if user or not scen else tuple(scen)
        k = d.rng.randrange(n)
        d.case("file recorders", scen=scen, combination=k, seed=q)
        def go():
            TablesRecorder(m, f"t{q}.h5", parameters=[px, ix])
            CSVRecorder(m, f"c{q}.csv", scenario_index=k, name="csv")
            for run in range(2):
                W = {a: [] for a in ("c", "l", "s", "o", "spill", "px", "ix")}
                m.setup() if run == 0 else m.reset()
                for t in range(T):
                    m.timestep = next(m.timestepper); m.before(); m.solve(); m.after()
                    for a in ("c", "l", "o", "spill"): W[a].append(np.array(m.nodes[a].flow))
                    W["s"].append(np.array(s.volume)); W["px"].append(values(px).copy()); W["ix"].append(indices(ix).copy())
                m.finish()
                with tables.open_file(f"t{q}.h5") as h:
                    for a, v in W.items():
                        d.case(f"table of {a}", scen=scen, run=run, seed=q)
                        d.near("data", np.array(h.get_node("/" + a)), np.array(v).reshape((T,) + (shape if scen else (1,))), 0, 0)
                    d.eq("time index", [int(r["index"]) for r in h.get_node("/time")], list(range(T)))
                    d.eq("time day", [int(r["day"]) for r in h.get_node("/time")], [1, 2, 3, 4, 5])
                rows = list(csv.reader(open(f"c{q}.csv")))
                d.case("csv", scen=scen, run=run, combination=k, seed=q)
                d.eq("header", rows[0][1:], sorted(m.nodes.keys())); d.eq("number of rows", len(rows), T + 1)
                for t, r in enumerate(rows[1:]):
                    d.near("row", [float(x) for x in r[1:]], [W[a][t][k] for a in rows[0][1:]], 1e-12, 1e-12)
        d.guard(go)


DRIVERS = [arrays, files]
