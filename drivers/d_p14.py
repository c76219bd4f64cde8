"""P14: delayed and rolling parameters."""
from mlib import *
from pywr.parameters import *


def flows(m, d, T, n, name="c"):
    f = d.np.uniform(0, 9, (T, n)).round(3)
    c = Catchment(m, name, flow=Given(m, f)); o = Output(m, name + "_o"); c.connect(o)
    return c, f


def delays(d):
    for k in range(d.n(50)):
        scen = d.rng.choice(SCEN); n = ncomb(scen); step = d.rng.choice([1, 1, 2, 5]); T = d.rng.randint(3, 12)
        m = model(start="2015-01-01", end=str(pd.Timestamp("2015-01-01") + pd.Timedelta(days=step * T - 1))[:10], step=step, scen=scen)
        c, f = flows(m, d, T, n)
        lag, init = d.rng.choice([1, 2, 3, 5, 8]), round(d.rng.uniform(0, 5), 2)
        how = d.rng.choice(["timesteps", "days", "load"])
        kw = {"timesteps": lag} if how != "days" else {"days": lag * step}
        node = d.rng.random() < .4
        d.case("FlowDelayParameter" if not node else "DelayNode", lag=lag, step=step, T=T, how=how, initial=init, scen=scen, seed=k)
        def go():
            if node:
                dn = DelayNode(m, "delay", initial_flow=init, **kw); i2, o2 = Input(m, "x", max_flow=Given(m, f), cost=-9), Output(m, "y", cost=-9)
                i2.connect(dn); dn.connect(o2)
            elif how == "load": p = load_parameter(m, {"type": "flowdelay", "node": "c", "initial_flow": init, **kw})
            else: p = FlowDelayParameter(m, c, initial_flow=init, **kw)
            for run in range(2):
                for t, ts in steps(m, T):
                    want = f[t - lag] if t >= lag else np.full(n, init)
                    if node:
                        m.solve(); d.near("released", np.array(dn.input.flow), want); d.near("taken", np.array(dn.output.flow), f[t]); d.near("reaches the output", np.array(o2.flow), want); m.after()
                        d.near("flow of the node", np.array(dn.flow), want); d.near("previous flow", np.array(dn.prev_flow), want)
                    else: d.near("value", values(p), want); m.solve(); m.after()
        d.guard(go)
    for kw, step in (({"days": 3}, 2), ({"timesteps": 0}, 1), ({}, 1)):
        m = model(step=step); c, f = flows(m, d, 10, 1)
        d.case("FlowDelayParameter invalid", step=step, **kw)
        p = FlowDelayParameter(m, c, **kw)
        d.raises("refused", ValueError, m.setup)


def steps(m, T):
    m.setup(); m.reset()
    for t in range(T):
        ts = m.timestep = next(m.timestepper); m.before(); yield t, ts


def rolling(d):
    for k in range(d.n(50)):
        scen = d.rng.choice(SCEN); n = ncomb(scen); step = d.rng.choice([1, 1, 2, 5]); T = d.rng.randint(3, 12)
        m = model(start="2015-01-01", end=str(pd.Timestamp("2015-01-01") + pd.Timedelta(days=step * T - 1))[:10], step=step, scen=scen)
        c, f = flows(m, d, T, n)
        w, init = d.rng.choice([1, 2, 3, 5, 8]), round(d.rng.uniform(0, 5), 2)
        how = d.rng.choice(["timesteps", "days", "load"])
        kw = {"timesteps": w} if how != "days" else {"days": w * step + d.rng.randrange(step)}
        d.case("RollingMeanFlowNodeParameter", window=w, step=step, T=T, how=how, initial=init, scen=scen, seed=k)
        def go():
            if how == "load": p = load_parameter(m, {"type": "rollingmeanflownode", "node": "c", "initial_flow": init, **kw})
            else: p = RollingMeanFlowNodeParameter(m, c, initial_flow=init, **kw)
            for run in range(2):
                for t, ts in steps(m, T):
                    want = np.full(n, init) if t == 0 else f[max(0, t - w):t].mean(0)
                    d.near("value", values(p), want); m.solve(); m.after()
        d.guard(go)
    d.case("RollingMeanFlowNodeParameter invalid")
    m = model(step=5); c, f = flows(m, d, 2, 1)
    d.raises("no window", ValueError, lambda: RollingMeanFlowNodeParameter(m, c))
    RollingMeanFlowNodeParameter(m, c, days=3)
    d.raises("window shorter than a step", ValueError, m.setup)


def previous_flow(d):
    """FlowParameter and DeficitParameter return last step's flow and deficit."""
    T = 6
    for k in range(d.n(20)):
        scen = d.rng.choice(SCEN); n = ncomb(scen)
        m = model(end="2015-01-06", scen=scen); c, f = flows(m, d, T, n)
        dem = d.np.uniform(0, 9, (T, n)).round(2)
        lim = d.np.uniform(0, 9, (T, n)).round(2)
        i, o = Input(m, "i", max_flow=Given(m, lim)), Output(m, "o", max_flow=Given(m, dem), cost=-5); i.connect(o)
        init = round(d.rng.uniform(0, 3), 2)
        d.case("FlowParameter", scen=scen, seed=k)
        def go():
            p = FlowParameter(m, c, initial_value=init); q = DeficitParameter(m, o)
            for t, ts in steps(m, T):
                d.near("flow", values(p), f[t - 1] if t else np.full(n, init))
                if t: d.near("deficit", values(q), dem[t - 1] - np.minimum(dem, lim)[t - 1])
                m.solve(); m.after()
        d.guard(go)


DRIVERS = [delays, rolling, previous_flow]
