"""P13: threshold parameters."""
from mlib import *
from pywr.parameters import *
from pywr.recorders import NumpyArrayNodeRecorder, NumpyArrayStorageRecorder

OPS = {"LT": np.less, "<": np.less, "GT": np.greater, ">": np.greater, "EQ": np.equal, "=": np.equal, "LE": np.less_equal, "<=": np.less_equal,
       "GE": np.greater_equal, ">=": np.greater_equal, None: np.less, "ge": np.greater_equal, "lt": np.less}


def expect(x, th, op, ratchet, trig, start=None, t=1):
    """index array for this step; trig: previously triggered (updated in place)."""
    if t == 0 and start is not None: return np.full(len(trig), start)
    now = OPS[op](x, th)
    r = np.where(ratchet & trig, True, now)
    trig |= now
    return r.astype(int)


def net(m, d, T, n):
    """A small network with scenario-varying flows and volumes on a coarse grid (ties with thresholds are frequent)."""
    inflow = d.np.randint(0, 5, (T, n)).astype(float)
    c = Catchment(m, "c", flow=Given(m, inflow)); r = Storage(m, "r", max_volume=20, initial_volume=float(d.rng.randint(0, 20)), inputs=1, outputs=1)
    l = Link(m, "l", max_flow=Given(m, d.np.randint(0, 4, (T, n)).astype(float)), cost=-5); o = Output(m, "o", max_flow=99, cost=-1)
    s = Output(m, "spill", cost=100)
    c.connect(r); r.connect(l); l.connect(o); c.connect(s)
    return c, r, l


def single(d):
    T = 8
    for k in range(d.n(60)):
        scen = d.rng.choice(SCEN); n = ncomb(scen)
        start = d.rng.choice(["2014-12-28", "2015-12-29", "2016-02-26"])
        m = model(start=start, end=str(pd.Timestamp(start) + pd.Timedelta(days=T - 1))[:10], scen=scen)
        c, r, l = net(m, d, T, n)
        kind = d.rng.choice(["storage", "node", "parameter", "recorder", "year", "ordinal", "storage_recorder"])
        op = d.rng.choice(list(OPS)); ratchet = d.rng.random() < .4; vals = [round(d.rng.uniform(-5, 5), 2) for _ in range(2)] if d.rng.random() < .8 else None
        days = pd.date_range(start, periods=T)
        kw = dict(values=vals, predicate=op, ratchet=ratchet)
        iv = None
        if kind in ("year", "ordinal"):
            xs = np.array([[float(x.year if kind == "year" else x.toordinal())] * n for x in days])
            tv = xs[d.rng.randrange(T)][0] + d.np.randint(-1, 2, (T, n))
        else: xs, tv = d.np.randint(0, 4, (T, n)).astype(float), d.np.randint(0, 4, (T, n)).astype(float)
        if kind in ("storage", "storage_recorder"): tv = tv * 4
        if d.rng.random() < .5: tv = np.full((T, n), tv[0, 0]); th = float(tv[0, 0])
        else: th = Given(m, tv)
        if kind == "storage": p = StorageThresholdParameter(m, r, th, **kw)
        elif kind == "node": p = NodeThresholdParameter(m, l, th, **kw)
        elif kind == "parameter": p = ParameterThresholdParameter(m, Given(m, xs), th, **kw)
        elif kind == "recorder": iv = d.rng.choice([0, 1]); p = RecorderThresholdParameter(m, NumpyArrayNodeRecorder(m, l, name="rec"), th, initial_value=iv, **kw)
        elif kind == "storage_recorder": iv = d.rng.choice([0, 1]); p = RecorderThresholdParameter(m, NumpyArrayStorageRecorder(m, r, name="rec"), th, initial_value=iv, **kw)
        elif kind == "year": p = CurrentYearThresholdParameter(m, th, **kw)
        else: p = CurrentOrdinalDayThresholdParameter(m, th, **kw)
        d.case(f"{kind} threshold", predicate=op, ratchet=ratchet, values=vals, scen=scen, thresholds=tv, start=start, initial_value=iv, seed=k)
        def go():
            for run in range(2):
                trig = np.zeros(n, dtype=bool); prev = None
                for t, ts in steps(m, T):
                    if kind == "storage": x = np.array(r.volume)
                    elif kind == "storage_recorder": x = prev
                    elif kind in ("node", "recorder"): x = prev
                    else: x = xs[t]
                    want = expect(x, tv[t], op, ratchet, trig, 0 if kind == "node" else iv, t)
                    d.eq("index", indices(p), want)
                    d.eq("value", values(p), np.array(vals)[want] if vals else np.full(n, np.nan))
                    for si in m.scenarios.combinations: d.eq("get_index", p.get_index(si), want[si.global_id])
                    m.solve(); m.after()
                    prev = np.array(r.volume) if kind == "storage_recorder" else np.array(l.flow)
        d.guard(go)


def steps(m, T):
    """As mlib.steps, but the caller finishes each step."""
    m.setup(); m.reset()
    for t in range(T):
        ts = m.timestep = next(m.timestepper); m.before(); yield t, ts


def multiple(d):
    T = 6
    for k in range(d.n(40)):
        scen = d.rng.choice(SCEN); n = ncomb(scen)
        m = model(start="2015-01-01", end="2015-01-06", scen=scen)
        c, r, l = net(m, d, T, n)
        cnt = d.rng.randint(0, 4)
        ths = [d.np.randint(0, 5, (T, n)).astype(float) if d.rng.random() < .5 else float(d.rng.randint(0, 4)) for _ in range(cnt)]
        if d.rng.random() < .6: ths = sorted([float(d.rng.randint(0, 4)) for _ in range(cnt)], reverse=True)
        x = d.np.randint(0, 5, (T, n)).astype(float)
        node = d.rng.random() < .5
        d.case("multiple node" if node else "multiple parameter", thresholds=ths, watched=x, scen=scen, seed=k)
        def go():
            names = iter("zyxwvut")
            P = [t if isinstance(t, float) else Given(m, t, name=next(names)) for t in ths]
            w = Given(m, x, name="aa")
            p = MultipleThresholdIndexParameter(m, l, P, name="m") if node else MultipleThresholdParameterIndexParameter(m, w, P, name="m")
            prev = np.zeros(n)
            for q in P:
                if not isinstance(q, float): d.true("threshold is a child", q in p.children)
            for t, ts in steps(m, T):
                v = prev if node else x[t]
                want = np.full(n, cnt)
                for j in reversed(range(cnt)): want = np.where(v >= (ths[j] if isinstance(ths[j], float) else ths[j][t]), j, want)
                d.eq("index", indices(p), want)
                m.solve(); m.after(); prev = np.array(l.flow)
        d.guard(go)


def loading(d):
    """The document forms give the same behaviour."""
    T = 5
    for k in range(d.n(12)):
        m = model(end="2015-01-05"); c, r, l = net(m, d, T, 1)
        op = d.rng.choice([x for x in OPS if x]); th = float(d.rng.randint(0, 8)); vals = [1.5, 2.5]
        d.case("loaded storage threshold", predicate=op, threshold=th, seed=k)
        def go():
            p = load_parameter(m, {"type": "storagethreshold", "storage_node": "r", "threshold": th, "values": list(vals), "predicate": op})
            q = load_parameter(m, {"type": "multiplethresholdindex", "node": "l", "thresholds": [2.0, {"type": "constant", "value": 1.0}]})
            prev = np.zeros(1)
            for t, ts in steps(m, T):
                want = OPS[op](np.array(r.volume), th).astype(int)
                d.eq("index", indices(p), want); d.eq("value", values(p), np.array(vals)[want])
                d.eq("multiple", indices(q), np.where(prev >= 2, 0, np.where(prev >= 1, 1, 2)))
                m.solve(); m.after(); prev = np.array(l.flow)
        d.guard(go)


DRIVERS = [single, multiple, loading]
