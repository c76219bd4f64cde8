"""P09: a model that has been run before (to the end, interrupted, failed, or over another period) gives the results of a freshly built one."""
from mlib import *
import random, tempfile, os, shutil
from pywr.nodes import *
from pywr.parameters import *
from pywr.parameters._thresholds import *
from pywr.parameters.licenses import *
from pywr.recorders import *
from pywr.recorders.recorders import Recorder, CSVRecorder
from pywr.recorders.events import *


class Spy(Recorder):
    """Keeps every observable of every node and parameter of every step, and what before() finds."""
    def __init__(self, m, **kw):
        super().__init__(m, **kw); self.trace = []; self.live = True

    def reset(self): self.trace = []

    def note(self, when):
        m = self.model; row = {}
        for n in m.graph.nodes():
            key = n.fully_qualified_name
            if hasattr(n, "flow"): row[when, key, "flow"] = np.array(n.flow) if when == "after" else 0.0
            if hasattr(n, "prev_flow"): row[when, key, "prev_flow"] = np.array(n.prev_flow)
            if hasattr(n, "volume") and n.volume is not None: row[when, key, "volume"] = np.array(n.volume)
            if hasattr(n, "current_pc") and n.current_pc is not None: row[when, key, "pc"] = np.array(n.current_pc)
            if hasattr(n, "active"): row[when, key, "active"] = [bool(n.active)]
        if when == "after":
            for p in m.parameters:
                if isinstance(p, IndexParameter): row[when, p.name, "index"] = np.array(p.get_all_indices())
                row[when, p.name, "value"] = np.array(p.get_all_values())
        self.trace.append(row)

    def before(self): self.note("before")
    def after(self): self.note("after")


class Fails(PyParameter):
    """Raises at a given step, once."""
    at = None
    def value(self, ts, si):
        if self.at is not None and ts.index >= self.at: raise ZeroDivisionError("planned")
        return 1.0


def build(k, T, scen, step, start, end, tmp):
    """A network and components with every kind of run state; the same for the same k."""
    r = random.Random(k); g = np.random.default_rng(k)
    m = model(start=start, end=end, step=step, scen=scen)
    n = ncomb(scen)
    one = lambda lo, hi: Given(m, g.uniform(lo, hi, (T, n)).round(2))
    src, riv = Input(m, "src", max_flow=one(2, 12), cost=1), Input(m, "riv", max_flow=one(1, 8), cost=3.5)
    var = r.random() < .5
    mx = 100.0 if not var else Given(m, g.uniform(80, 100, T).round(1), name="mx")
    kw = dict(initial_volume_pc=.5) if var else {}
    res = Storage(m, "res", max_volume=mx, initial_volume=r.choice([20, 45, 60]), cost=-8, level=Given(m, g.uniform(1, 9, T).round(2), name="lev"), area=3.0, **kw)
    res2 = Storage(m, "res2", max_volume=40, initial_volume_pc=r.choice([.2, .9]), cost=-7.3)
    dem, env = Output(m, "dem", max_flow=one(3, 15), cost=-100), Output(m, "env", max_flow=one(0, 4), cost=-51)
    spill = Output(m, "spill", cost=-.5)
    link = Link(m, "link", cost=.11); sp2 = Output(m, "sp2", cost=9.0)
    pw = PiecewiseLink(m, name="pw", nsteps=3, max_flows=[r.uniform(1, 3), r.uniform(1, 4), None], costs=[.21, 1.73, 4.9])
    br = BreakLink(m, "br", max_flow=one(4, 14), cost=.07)
    dl = DelayNode(m, "dl", timesteps=r.choice([1, 2, 3]), initial_flow=r.choice([0.0, 1.5]))
    ls = LossLink(m, "ls", loss_factor=.2, max_flow=9, cost=.03)
    src.connect(res); riv.connect(res2); src.connect(spill)
    res.connect(sp2); res2.connect(sp2); res.connect(link); link.connect(pw); pw.connect(dem)
    res2.connect(br); br.connect(dem); res2.connect(dl); dl.connect(env); dl.connect(sp2); res.connect(ls); ls.connect(env)
    agg = AggregatedStorage(m, "agg", storage_nodes=[res, res2])
    an = AggregatedNode(m, "an", [br, link]); an.max_flow = 30.0
    vs = T * step / 10.0
    vkw = dict(max_volume=Given(m, g.uniform(60 * vs, 90 * vs, (T, n)).round(2)) if r.random() < .4 else 70.0 * vs, initial_volume=r.choice([70.0 * vs, 30.0 * vs]), initial_volume_pc=r.choice([1.0, .45]), factors=[1.0, .5], cost=-.013)
    day = lambda: dict(reset_month=r.choice([1, 2, 3, 12]), reset_day=r.choice([1, 10, 28]))
    AnnualVirtualStorage(m, name="va", nodes=[link, br], reset_to_initial_volume=r.random() < .5, **day(), **vkw)
    SeasonalVirtualStorage(m, name="vs", nodes=[link, br], reset_month=r.choice([1, 12]), reset_day=r.choice([1, 5, 20]), end_month=r.choice([1, 2]), end_day=r.choice([8, 25]), **vkw)
    MonthlyVirtualStorage(m, name="vm", nodes=[link, br], months=r.choice([1, 2, 3]), initial_months=r.choice([0, 1]), **vkw)
    RollingVirtualStorage(m, "vr", [link, br], timesteps=r.choice([2, 3, 6]), **vkw)
    VirtualStorage(m, "vp", [link, br], max_volume=4000, initial_volume=3000, factors=[1.0, 1.0])
    # parameters with state
    th = lambda: round(r.uniform(1, 8), 2)
    idx = []
    for cls, o, t, x in ((StorageThresholdParameter, res, 50, {}), (NodeThresholdParameter, link, th(), {}), (ParameterThresholdParameter, one(0, 10), 5.0, {}), (NodeThresholdParameter, pw, th(), {})):
        idx.append(cls(m, o, t, values=[1.0, 2.0], predicate=r.choice(["GT", "LT", "GE"]), ratchet=r.random() < .6, name=f"th{len(idx)}", **x))
    tot = NumpyArrayNodeRecorder(m, br, name="tot!")
    idx.append(RecorderThresholdParameter(m, tot, th(), values=[1.0, 2.0], predicate="GT", ratchet=r.random() < .5, initial_value=r.choice([0, 1]), name="thr"))
    idx.append(MultipleThresholdIndexParameter(m, br, [th(), 9.0], name="mth"))
    ps = [DeficitParameter(m, dem, name="def"), FlowParameter(m, br, initial_value=r.choice([0, 2.0]), name="fl"), FlowDelayParameter(m, link, timesteps=r.choice([1, 2]), initial_flow=1.0, name="fd"),
          RollingMeanFlowNodeParameter(m, br, timesteps=r.choice([2, 4]), initial_flow=3.0, name="rm"), FlowParameter(m, pw.sublinks[0] if hasattr(pw, "sublinks") else link, name="flc"),
          ControlCurveInterpolatedParameter(m, agg, [.7, .3], [5.0, 3.0, 2.0, 0.0], name="cci"), ControlCurveParameter(m, res, [.6, .2], [1.0, .6, .2], name="cc")]
    lic = [r.choice([lambda: AnnualExponentialLicense(m, br, 900, 12, name="lx"), lambda: AnnualHyperbolaLicense(m, br, 900, 5.0, name="lh"), lambda: AnnualLicense(m, br, 700, name="la")])(), StorageLicense(m, br, 300, name="lst")]
    ups = ps[:4] + idx
    # decisions that depend on the state
    f = AggregatedParameter(m, [ps[1], ps[2], ps[3], ConstantParameter(m, 3.0)], agg_func="max", name="fb")
    dl_max = IndexedArrayParameter(m, idx[1], [6.0, 2.5], name="ia"); link.max_flow = IndexedArrayParameter(m, idx[0], [9.0, 5.0], name="ia2")
    ls.max_flow = f; br.max_flow = MinParameter(m, lic[0], 11.0) if r.random() < .6 else MinParameter(m, dl_max, 8.0)
    # recorders
    nodes, stos = [dem, br, pw, src], [res, res2, agg]
    recs = []
    R = lambda c, *a, **kk: recs.append(c(m, *a, name=f"rec{len(recs)}", **kk))
    for c in (NumpyArrayNodeRecorder, NumpyArrayNodeDeficitRecorder, NumpyArrayNodeSuppliedRatioRecorder, NumpyArrayNodeCurtailmentRatioRecorder, NumpyArrayNodeCostRecorder, TotalFlowNodeRecorder, MeanFlowNodeRecorder, TotalDeficitNodeRecorder, DeficitFrequencyNodeRecorder):
        R(c, r.choice([dem, br]))
    for c in (NumpyArrayStorageRecorder, NumpyArrayNormalisedStorageRecorder, MinimumVolumeStorageRecorder) if not var else (NumpyArrayStorageRecorder, MinimumVolumeStorageRecorder):
        if c is NumpyArrayNormalisedStorageRecorder: recs.append(c(m, res, parameter=ConstantParameter(m, .6), name=f"rec{len(recs)}"))
        else: R(c, r.choice([res, res2]))
    R(NumpyArrayLevelRecorder, res); R(NumpyArrayAreaRecorder, res); R(MinimumThresholdVolumeStorageRecorder, res2, 12.0)
    R(NumpyArrayParameterRecorder, ps[3]); R(NumpyArrayIndexParameterRecorder, idx[0]); R(NumpyArrayDailyProfileParameterRecorder, ps[2])
    R(TotalParameterRecorder, ps[1]); R(MeanParameterRecorder, ps[3]); R(RollingWindowParameterRecorder, ps[1], 3)
    recs.append(RollingMeanFlowNodeRecorder(m, br, timesteps=3, name=f"rec{len(recs)}"))
    R(TimestepCountIndexParameterRecorder, idx[0], 1); R(AnnualCountIndexParameterRecorder, idx[1], 1)
    recs.append(AnnualCountIndexThresholdRecorder(m, [idx[0], idx[1]], f"rec{len(recs)}", 1))
    recs.append(AnnualTotalFlowRecorder(m, f"rec{len(recs)}", [br, link]))
    R(FlowDurationCurveRecorder, dem, [10., 50., 90.]); R(StorageDurationCurveRecorder, res, [25., 75.])
    thr = StorageThresholdRecorder(m, res, 50.0, predicate="LT", name="st!"); R(StorageThresholdRecorder, res2, 15.0, predicate="LT"); thn = NodeThresholdRecorder(m, br, 3.0, predicate="GT", name="nt!")
    ev = [EventRecorder(m, thr, name="ev1", tracked_parameter=ps[1]), EventRecorder(m, idx[0], minimum_event_length=2, name="ev2"), EventRecorder(m, thn, name="ev3")]
    R(EventDurationRecorder, ev[0], recorder_agg_func="max"); R(EventDurationRecorder, ev[1]); R(EventStatisticRecorder, ev[0], agg_func="sum", event_agg_func="mean", recorder_agg_func="max")
    R(HydropowerRecorder, br, water_elevation_parameter=ps[3], turbine_elevation=1.0); R(TotalHydroEnergyRecorder, br, water_elevation_parameter=ConstantParameter(m, 30.0))
    fails = Fails(m, name="fails!"); spill.cost = MinParameter(m, fails, -.5)
    csv = os.path.join(tmp, f"{id(m)}.csv"); CSVRecorder(m, csv, name="csv!")
    spy = Spy(m, name="spy!")
    return m, spy, recs + [thr, thn, tot], ev, fails, csv


def outcome(m, spy, recs, ev, csv):
    out = {}
    for r in recs:
        for a in ("data", "values", "aggregated_value"):
            try: v = getattr(r, a); v = v() if callable(v) else v
            except (NotImplementedError, AttributeError): continue
            out[f"{type(r).__name__} {a}"] = np.array(v, dtype=float)
    for e in ev: out[f"{e.name} events"] = np.array([[x.scenario_index.global_id, x.start.index, x.end.index, x.duration, np.nan if x.values is None else np.sum(np.array(x.values))] for x in e.events], dtype=float)
    out["csv"] = open(csv).read()
    return list(spy.trace), out


def near(a, b):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and np.allclose(a, b, rtol=1e-6, atol=1e-6, equal_nan=True)


def differ(x, y):
    """The first thing of two outcomes that differs."""
    if len(x[0]) != len(y[0]): return f"{len(y[0])} instead of {len(x[0])} observations"
    for t, (p, q) in enumerate(zip(x[0], y[0])):
        if set(p) != set(q): return f"step {t // 2}: observables {set(p) ^ set(q)}"
        for k in p:
            if not near(p[k], q[k]): return f"step {t // 2}: {k[2]} of {k[1]} {k[0]} the step is {np.asarray(q[k]).tolist()}, in the first run {np.asarray(p[k]).tolist()}"
    for k in x[1]:
        if k == "csv":
            if x[1][k] != y[1][k]: return "the CSV file"
        elif not near(x[1][k], y[1][k]): return f"{k}: {y[1][k].tolist()}, in the first run {x[1][k].tolist()}"
    return None


def one(d, k):
    T = d.rng.choice([9, 25, 40]); n_s = d.rng.choice(SCEN); step = d.rng.choice([1, 1, 7])
    start = pd.Timestamp(d.rng.choice(["2014-12-20", "2015-01-25", "2015-12-28", "2016-02-20"])); end = start + pd.Timedelta(days=step * T - 1)
    how = d.rng.choice(["run twice", "interrupted by a reset", "failed", "shorter period first", "three runs"])
    at = d.rng.randint(1, T - 1)
    d.case(how, seed=k, start=str(start)[:10], timesteps=T, days=step, scen=n_s, interrupted_at=at)
    tmp = tempfile.mkdtemp(prefix="p09_")
    try:
        args = (k, T, n_s, step, str(start), str(end), tmp)

        def fresh():
            x = build(*args); x[0].run(); return outcome(x[0], x[1], x[2], x[3], x[5])

        def again():
            m, spy, recs, ev, fails, csv = build(*args)
            if how in ("run twice", "three runs"):
                for _ in range(1 if how == "run twice" else 2): m.run()
            elif how == "interrupted by a reset":
                m.setup()
                for _ in range(at): m.step()
                m.reset()
            elif how == "failed":
                fails.at = at
                try: m.run()
                except ZeroDivisionError: pass
                fails.at = None
            else:
                m.timestepper.end = start + pd.Timedelta(days=step * at - 1); m.run(); m.timestepper.end = end
            m.run()
            return outcome(m, spy, recs, ev, csv)
        x = fresh(); y = again(); z = differ(x, y)
        d.true(f"a model used before ({how}) gives the results of a fresh one", z is None, z)
    finally: shutil.rmtree(tmp, ignore_errors=True)


def run_again(d):
    for k in range(d.n(40)):
        d.guard(lambda k=k: one(d, k))


DRIVERS = [run_again]
