"""Helpers to build small models through the public API."""
import numpy as np, pandas as pd
from pywr.core import *
from pywr.core import Timestep, Scenario
from pywr.parameters import ConstantParameter, load_parameter
from pywr.parameters import Parameter as PyParameter, IndexParameter as PyIndexParameter


def model(start="2015-01-01", end="2015-01-10", step=1, scen=(), solver=None, **kw):
    m = Model(start=pd.to_datetime(start), end=pd.to_datetime(end), timestep=step, solver=solver or "glpk", **kw)
    for i, n in enumerate(scen): Scenario(m, f"s{i}", size=n)
    return m


class Given(PyParameter):
    """Returns given per-step, per-scenario values: vals[t][combination]."""
    def __init__(self, m, vals, **kw):
        super().__init__(m, **kw)
        self.vals = np.asarray(vals, dtype=float)

    def value(self, ts, si):
        v = self.vals
        return float(v if v.ndim == 0 else v[min(ts.index, len(v) - 1)] if v.ndim == 1 else v[min(ts.index, len(v) - 1), si.global_id])


class GivenIndex(PyIndexParameter):
    def __init__(self, m, vals, **kw):
        super().__init__(m, **kw)
        self.vals = np.asarray(vals)

    def index(self, ts, si): return int(self.vals[min(ts.index, len(self.vals) - 1), si.global_id])


def ncomb(scen):
    n = 1
    for s in scen: n *= s
    return n


def per(d, n, lo, hi, dec=3): return [round(d.rng.uniform(lo, hi), dec) for _ in range(n)]


def mkts(date, index=0, days=1): return Timestep(pd.Period(date, freq="D"), index, days)


def pmodel(*a, **kw):
    """A model with the smallest network (for exercising parameters only)."""
    m = model(*a, **kw)
    i, o = Input(m, "i!", max_flow=1), Output(m, "o!", max_flow=1)
    i.connect(o)
    return m


def steps(m, T):
    """Drive the model by hand: yields (t, timestep) after the parameters of the step are calculated; solves and finishes the step afterwards."""
    m.setup(); m.reset()
    for t in range(T):
        ts = m.timestep = next(m.timestepper)
        m.before()
        yield t, ts
        m.solve(); m.after()


def values(p): return np.array(p.get_all_values())
def indices(p): return np.array(p.get_all_indices())
SCEN = [(), (2,), (3,), (2, 2)]
