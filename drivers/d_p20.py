"""P20: running statistics."""
from mlib import *
from d_p19 import net
from pywr.recorders import *
import pywr.recorders as rec
from pywr.recorders import NumpyArrayNodeRecorder, NumpyArrayStorageRecorder, NumpyArrayParameterRecorder, MeanParameterRecorder
from pywr.recorders import HydropowerRecorder, TotalHydroEnergyRecorder, StorageThresholdRecorder, NodeThresholdRecorder
from pywr.model import MultiModel
OPS = {"LT": np.less, "GT": np.greater, "EQ": np.equal, "LE": np.less_equal, "GE": np.greater_equal}
AGG = {"sum": np.sum, "min": np.min, "max": np.max, "mean": np.mean, "median": np.median, "product": np.prod}


def build(d, m, full, n):
    T = full
    c, l, s, o, sp = net(d, m, T, n)
    px = Given(m, d.np.uniform(-5, 5, (T, n)), name="px"); ix = GivenIndex(m, d.np.randint(0, 6, (T, n)), name="ix")
    we = Given(m, d.np.uniform(0, 30, (T, n)), name="water level")
    f, g, integrate = round(d.rng.uniform(-2, 2), 2), round(d.rng.uniform(.1, 2), 2), d.rng.random() < .5
    th, ith, op, op2 = d.rng.choice([0.0, 3.0, 7.5]), d.rng.randint(0, 5), d.rng.choice(list(OPS)), d.rng.choice(list(OPS))
    fth = d.rng.choice([0.0, 1.0, 3.3]); te = d.rng.choice([0.0, 12.5]); wep = d.rng.random() < .7
    hk = dict(turbine_elevation=te if wep else 40.0, efficiency=.8, density=997.0, flow_unit_conversion=.3, energy_unit_conversion=1e-3)
    if wep: hk["water_elevation_parameter"] = we
    R = {"total deficit": TotalDeficitNodeRecorder(m, o, name="r1"), "total flow": TotalFlowNodeRecorder(m, o, factor=f, name="r2"), "mean flow": MeanFlowNodeRecorder(m, o, factor=f, name="r3"),
         "deficit frequency": DeficitFrequencyNodeRecorder(m, o, name="r4"), "total parameter": TotalParameterRecorder(m, px, factor=f, integrate=integrate, name="r5"),
         "mean parameter": MeanParameterRecorder(m, px, factor=f, name="r6"), "minimum volume": MinimumVolumeStorageRecorder(m, s, name="r7"),
         "below threshold": MinimumThresholdVolumeStorageRecorder(m, s, th, name="r8"), "steps at index": TimestepCountIndexParameterRecorder(m, ix, ith, name="r9"),
         "energy": TotalHydroEnergyRecorder(m, l, name="r10", **hk)}
    S = {"storage threshold": StorageThresholdRecorder(m, s, th, predicate=op, name="r11"), "node threshold": NodeThresholdRecorder(m, o, fth, predicate=op2, name="r12")}
    A = {}
    for k in AGG:
        A[k, "flow"] = NumpyArrayNodeRecorder(m, o, factor=f, temporal_agg_func=k, name=f"a{k}"); A[k, "volume"] = NumpyArrayStorageRecorder(m, s, temporal_agg_func=k, name=f"b{k}")
        A[k, "px"] = NumpyArrayParameterRecorder(m, px, temporal_agg_func=k, name=f"c{k}"); A[k, "power"] = HydropowerRecorder(m, l, temporal_agg_func=k, name=f"h{k}", **hk)
    def record(H, ts):
        q, v, lf = np.array(o.flow), np.array(s.volume), np.array(l.flow); mx = np.array([o.get_max_flow(si) for si in m.scenarios.combinations])
        hd = np.maximum((values(we) - te) if wep else 40.0, 0) * np.ones(n)
        power = hd * lf * 997 * .8 * .3 * 1e-3 * 9.81
        p = values(px); days = ts.days
        H["total deficit"].append((mx - q) * days); H["total flow"].append(q * f * days); H["mean flow"].append(q * f); H["deficit frequency"].append(abs(q - mx) > 1e-6)
        H["total parameter"].append(p * f * (days if integrate else 1)); H["mean parameter"].append(p * f); H["minimum volume"].append(v); H["below threshold"].append(v <= th)
        H["steps at index"].append(indices(ix) >= ith); H["energy"].append(power * days)
        H["flow"].append(q * f); H["volume"].append(v); H["px"].append(p.copy()); H["power"].append(power)
        H["storage threshold"] = [OPS[op](v, th)]; H["node threshold"] = [OPS[op2](q, fth)]
    def check(H, done):
        for k, r in R.items():
            if not done and k in ("mean flow", "deficit frequency", "mean parameter"): continue
            h = np.array(H[k], dtype=float)
            want = np.mean(h, axis=0) if k.startswith(("mean", "deficit f")) else np.min(h, axis=0) if k == "minimum volume" else np.max(h, axis=0) if k == "below threshold" else np.sum(h, axis=0)
            d.cur = (k, d.cur[1]); d.near("statistic", np.array(r.values()), want, 1e-9, 1e-9)
        for k, r in S.items(): d.cur = (k, d.cur[1]); d.near("state of the last step", np.array(r.values()), np.array(H[k][-1], dtype=float), 0, 0)
        for (k, h), r in A.items(): d.cur = (f"{k} over time", d.cur[1]); d.near(h, np.array(r.values()), AGG[k](np.array(H[h], dtype=float), axis=0), 1e-9, 1e-9) if done and len(H[h]) == full else None
    return record, check


def history():
    return __import__("collections").defaultdict(list)


def single(d):
    for q in range(d.n(50)):
        scen = d.rng.choice(SCEN); n = ncomb(scen)
        step = d.rng.choice([1, 1, 3, "M"]); start = d.rng.choice(["2015-01-30", "2016-02-27"])
        m = model(start=start, end=str(pd.Timestamp(start) + pd.Timedelta(days={1: 5, 3: 15, "M": 70}[step]))[:10], step=step, scen=scen)
        d.case("running statistics", scen=scen, start=start, step=step, seed=q)
        def go():
            T = len(m.timestepper)
            record, check = build(d, m, T, n)
            for run in range(3):
                # a whole run, the same again, and one that stops early
                H = history(); m.setup() if run == 0 else m.reset()
                stop = T if run < 2 else d.rng.randint(1, T)
                for t in range(stop):
                    d.case("after a step", scen=scen, start=start, step=step, seed=q, run=run, t=t)
                    if d.rng.random() < .3: m.step(); ts = m.timestep
                    else: ts = m.timestep = next(m.timestepper); m.before(); m.solve(); m.after()
                    record(H, ts); check(H, False)
                d.case("at the end", scen=scen, start=start, step=step, seed=q, run=run, steps=stop)
                m.finish(); check(H, True)
        d.guard(go)
        if d.rng.random() < .4:
            def go():
                m = model(start=start, end=str(pd.Timestamp(start) + pd.Timedelta(days={1: 5, 3: 15, "M": 70}[step]))[:10], step=step, scen=scen)
                record, check = build(d, m, len(m.timestepper), n)
                H = history(); after = m.after
                def hook(): after(); record(H, m.timestep)
                m.after = hook
                d.case("run", scen=scen, start=start, step=step, seed=q)
                m.run(); check(H, True)
            d.guard(go)


def multi(d):
    for q in range(d.n(6)):
        scen = d.rng.choice(SCEN); n = ncomb(scen)
        d.case("two models side by side", scen=scen, seed=q)
        def go():
            mm = MultiModel(); L = []
            for k in "ab":
                m = model(scen=scen, end="2015-01-06"); mm.add_model(k, m)
                record, check = build(d, m, 6, n); L.append((m, record, check, history()))
            for m, record, check, H in L:
                def hook(m=m, after=m.after, record=record, H=H): after(); record(H, m.timestep)
                m.after = hook
            mm.setup(); mm.run()
            for k, (m, record, check, H) in enumerate(L):
                d.case("of several models", model=k, scen=scen, seed=q); check(H, True)
        d.guard(go)


DRIVERS = [single, multi]
