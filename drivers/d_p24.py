"""P24: the bisection search leaves the model at a feasible value within the tolerance of an infeasible one."""
from mlib import *
from pywr.utils.bisect import BisectionSearchModel
from pywr.recorders import Recorder
import math, signal


class Outcome(Recorder):
    """Sees what the simulation actually delivered and judges it with an arbitrary function."""
    def __init__(self, model, node, judge, limit, **kw):
        self.node, self.judge, self.seen, self.now, self.limit = node, judge, [], [], limit
        super().__init__(model, **kw)
    def reset(self): self.now = []
    def after(self): self.now.append(np.array(self.node.flow).copy())
    def finish(self):
        if len(self.seen) > self.limit: raise RuntimeError("search does not end")
        x = float(np.array(self.now).mean()); self.seen.append((x, bool(self.judge(x, len(self.seen)))))
    def values(self): return np.array([0.0 if self.seen[-1][1] else 1.0])
    def aggregated_value(self): return self.values()[0]


def build(lo, hi, eps, judge, error=None, scen=(), value=None, T=2, limit=400):
    kw = {} if error is None else {"error_on_infeasible": error}
    m = BisectionSearchModel(start="2015-01-01", end=pd.Timestamp("2015-01-01") + pd.Timedelta(days=T - 1), solver="glpk", bisect_parameter="x", bisect_epsilon=eps, **kw)
    for i, n in enumerate(scen): Scenario(m, f"s{i}", size=n)
    p = ConstantParameter(m, lo if value is None else value, name="x", lower_bounds=lo, upper_bounds=hi, is_variable=True)
    a, b = Input(m, "in"), Output(m, "out", max_flow=p, cost=-10)
    a.connect(b)
    r = Outcome(m, b, judge, limit, name="r", constraint_upper_bounds=0.5)
    return m, p, r


def verdict(d, m, p, r, lo, hi, eps, error, err, start=0):
    runs = r.seen[start:]
    search = runs if err else runs[:-1]
    good = [x for x, ok in search if ok]; bad = [x for x, ok in search if not ok]
    if err:
        d.true("an error only if none was found", not good and error is not False, got=runs)
        return
    x = runs[-1][0]
    d.near("parameter and last simulation", float(p.get_double_variables()[0]), x, 1e-12, 1e-9)
    if not good:
        d.true("an error when none was found", error is False, got=runs)
        d.near("lower bound", x, lo, 1e-12, 1e-9)
        return
    d.true("a value found feasible", any(math.isclose(x, g, rel_tol=1e-12, abs_tol=1e-9) for g in good), got=(x, runs))
    top = min([b for b in bad if b > x - 1e-9] + [hi])
    d.true("within the tolerance", top - x <= eps * (1 + 1e-9) + 1e-9 + 4 * math.ulp(hi), got=(x, top))


def judges(d, lo, hi):
    t = d.rng.uniform(lo - .2 * (hi - lo), hi + .2 * (hi - lo)); w = (hi - lo) / d.rng.choice([1.3, 3, 7]); seed = d.rng.randint(0, 10 ** 6)
    yield "threshold", lambda x, n: x <= t
    yield "always", lambda x, n: True
    yield "never", lambda x, n: False
    yield "band", lambda x, n: abs(x - t) < .2 * (hi - lo)
    yield "waves", lambda x, n: math.sin(6.28 * x / w + seed) > 0
    yield "hashed", lambda x, n: hash((round(x, 9), seed)) % 3 != 0


def search(d):
    for q in range(d.n(40)):
        lo = round(d.rng.choice([0.0, d.rng.uniform(0, 50)]), 3); hi = round(lo + d.rng.choice([1e-3, 1, 15, 4000]) * d.rng.uniform(.5, 1), 4)
        if hi <= lo: continue
        eps = (hi - lo) * d.rng.choice([2.0, 1.0, .5, .25, .1, .013, 1e-4])
        error = d.rng.choice([None, True, False])
        for name, j in judges(d, lo, hi):
            scen = d.rng.choice([(), (2,)])
            d.case("search", outcome=name, lo=lo, hi=hi, eps=eps, error=error, scen=scen)
            m, p, r = build(lo, hi, eps, j, error, scen)
            start = 0
            for again in range(2):     # a second search of the same model starts afresh
                def go():
                    err = False
                    try: m.run()
                    except ValueError: err = True
                    verdict(d, m, p, r, lo, hi, eps, error, err, start)
                d.guard(go); start = len(r.seen)


def ends(d):
    """Every positive tolerance, however small."""
    for eps in (1e-3, 1e-9, 1e-13, 1e-16, 1e-20, 5e-324):
        for lo, hi in ((0.0, 1.0), (10.0, 20.0), (1e5, 1.1e5)):
            for name, j in (("threshold", lambda x, n: x <= lo + (hi - lo) / 3), ("always", lambda x, n: True), ("never", lambda x, n: False)):
                d.case("small tolerance", eps=eps, lo=lo, hi=hi, outcome=name)
                m, p, r = build(lo, hi, eps, j, None, limit=1200)
                def go():
                    err = False
                    try: m.run()
                    except ValueError: err = True
                    verdict(d, m, p, r, lo, hi, eps, None, err)
                d.guard(go)


def refused(d):
    ok = lambda x, n: True
    for what, f in (("no tolerance", lambda m, p: setattr(m, "bisect_epsilon", None)), ("no parameter", lambda m, p: setattr(m, "bisect_parameter", None)),
                    ("tolerance 0", lambda m, p: setattr(m, "bisect_epsilon", 0.0)), ("tolerance negative", lambda m, p: setattr(m, "bisect_epsilon", -1.0))):
        d.case("refused", what=what)
        m, p, r = build(0.0, 10.0, .1, ok); f(m, p)
        d.raises(what, ValueError, m.run)
    for lo, hi in ((5.0, 5.0), (6.0, 5.0)):
        d.case("refused", lo=lo, hi=hi)
        m, p, r = build(lo, hi, .1, ok)
        d.raises("bounds", ValueError, m.run)


def documents(d):
    for q in range(d.n(6)):
        cap = round(d.rng.uniform(3, 25), 2); eps = d.rng.choice([.5, .05, 1e-3])
        d.case("document", cap=cap, eps=eps)
        doc = {"metadata": {}, "timestepper": {"start": "2015-01-01", "end": "2015-01-05", "timestep": 1},
               "bisection": {"parameter": "x", "epsilon": eps, "error_on_infeasible": True},
               "nodes": [{"name": "a", "type": "Input", "max_flow": cap}, {"name": "b", "type": "Output", "max_flow": "x", "cost": -10}], "edges": [["a", "b"]],
               "parameters": {"x": {"type": "constant", "value": 1.0, "lower_bounds": 0.0, "upper_bounds": 30.0, "is_variable": True}},
               "recorders": {"d": {"type": "totaldeficitnode", "node": "b", "constraint_upper_bounds": 1e-6}}}
        def go():
            m = BisectionSearchModel.load(doc)
            m.run()
            x = float(m.parameters["x"].get_double_variables()[0])
            d.true("greatest demand that is met", cap - eps - 1e-6 <= x <= cap + 1e-6, got=x)
            d.near("last simulation", m.nodes["b"].flow[0], x, 1e-9, 1e-9)
        d.guard(go)


DRIVERS = [search, ends, refused, documents]
