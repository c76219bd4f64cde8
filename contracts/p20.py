"""P20: running statistics equal the statistic of the whole recorded history.

Each after() adds exactly this step's term to the running statistic of every scenario, reset() puts it to the statistic of no
steps and finish() divides by the number of steps; over any number of steps that is the statistic of the whole history
(by induction over the steps)."""
from common import *

M, TH, HY = "pywr.recorders._recorders", "pywr.recorders._thresholds", "pywr.recorders._hydropower"


def held(c, attr="_values"):
    c.require(c.old.dim(c.self, attr) == c.ncomb)
    return c.idx("i", c.ncomb)


def nodeof(c, cls="AbstractNode"): return c.known(c.old.obj(c.self, "_node"), c.P.find_class(cls), exact=False)


def step(mod, cls, owner, new, attr="_values", count=False, target=None):
    """after(): the new value of the statistic of scenario i, given the old one."""
    @contract("P20", f"{mod}:{target or cls}.after", cls=f"{mod}:{cls}", label=f"{cls}.after")
    def g(c):
        i = held(c, attr)
        ts = current(c)
        want = new(c, ts, i, c.old.get(c.self, attr, i))
        n = c.old.get(c.self, "_steps") if count else None
        c.call()
        c.ensure("this step's term is included, and nothing else", c.new.get(c.self, attr, i) == want)
        if count: c.ensure("one more step", c.new.get(c.self, "_steps") == n + 1)
        c.frame([(f"{owner}.{attr}", c.self.t)] + ([(f"{cls}._steps", c.self.t)] if count else []))


def start(mod, cls, owner, val, attr="_values", count=False):
    @contract("P20", f"{mod}:{cls}.reset", label=f"{cls}.reset")
    def g(c):
        i = held(c, attr)
        c.call()
        x = c.new.get(c.self, attr, i)
        c.ensure("the statistic of no steps", x == (lift(val, x) if not isinstance(val, z3.ExprRef) else val))
        if count: c.ensure("no steps", c.new.get(c.self, "_steps") == 0)
        c.frame([(f"{owner}.{attr}", c.self.t)] + ([(f"{cls}._steps", c.self.t)] if count else []))


def mean(mod, cls, owner):
    @contract("P20", f"{mod}:{cls}.finish")
    def g(c):
        i = held(c)
        n = c.old.get(c.self, "_steps"); c.require(n >= 1)
        x = c.old.get(c.self, "_values", i)
        c.call()
        c.ensure("the total over the number of steps", c.new.get(c.self, "_values", i) == x / z3.ToReal(n))
        c.frame([(f"{owner}._values", c.self.t)])


CN, CP, CS = "BaseConstantNodeRecorder", "BaseConstantParameterRecorder", "BaseConstantStorageRecorder"


def deficit(c, ts, i, x):
    n = nodeof(c); mf = accessor(c, "max_flow")
    return x + (mf(n, i) - c.old.get(n, "_flow", i)) * c.old.get(ts, "days")


def failing(c, ts, i, x):
    n = nodeof(c); mf = accessor(c, "max_flow")
    return x + z3.If(absr(c.old.get(n, "_flow", i) - mf(n, i)) > TOL, z3.RealVal(1), z3.RealVal(0))


def total_flow(c, ts, i, x): return x + c.old.get(nodeof(c), "_flow", i) * c.old.get(c.self, "factor") * c.old.get(ts, "days")
def sum_flow(c, ts, i, x): return x + c.old.get(nodeof(c), "_flow", i) * c.old.get(c.self, "factor")
def parv(c, i): return values_of(c, c.known(c.old.obj(c.self, "_param"), "Parameter", exact=False), i)


def total_param(c, ts, i, x):
    return x + parv(c, i) * c.old.get(c.self, "factor") * z3.If(c.old.get(c.self, "integrate"), c.old.get(ts, "days"), z3.RealVal(1))


def sum_param(c, ts, i, x): return x + parv(c, i) * c.old.get(c.self, "factor")


step(M, "TotalDeficitNodeRecorder", CN, deficit)
step(M, "TotalFlowNodeRecorder", CN, total_flow)
step(M, "MeanFlowNodeRecorder", CN, sum_flow, count=True)
step(M, "DeficitFrequencyNodeRecorder", CN, failing, count=True)
step(M, "TotalParameterRecorder", CP, total_param)
step(M, "MeanParameterRecorder", CP, sum_param, count=True)
step(M, "MinimumVolumeStorageRecorder", CS, lambda c, ts, i, x: mn(c.old.get(nodeof(c, "AbstractStorage"), "_volume", i), x))
step(M, "MinimumThresholdVolumeStorageRecorder", CS, lambda c, ts, i, x: z3.If(c.old.get(nodeof(c, "AbstractStorage"), "_volume", i) <= c.old.get(c.self, "threshold"), z3.RealVal(1), x))


def counted(c, ts, i, x):
    p = c.known(c.old.obj(c.self, "_param"), "IndexParameter", exact=False)
    return x + z3.If(indices_of(c, p, i) >= c.old.get(c.self, "threshold"), z3.IntVal(1), z3.IntVal(0))


step(M, "TimestepCountIndexParameterRecorder", "TimestepCountIndexParameterRecorder", counted, attr="_count")


def holds(c, x):
    p, t = c.old.get(c.self, "predicate"), c.old.get(c.self, "threshold")
    c.require(p >= 0, p <= 4)
    r = z3.If(p == 0, x < t, z3.If(p == 1, x > t, z3.If(p == 2, x == t, z3.If(p == 3, x <= t, x >= t))))
    return z3.If(r, z3.IntVal(1), z3.IntVal(0))


step(TH, "StorageThresholdRecorder", "StorageThresholdRecorder", lambda c, ts, i, x: holds(c, c.old.get(nodeof(c, "AbstractStorage"), "_volume", i)), attr="_state")
step(TH, "NodeThresholdRecorder", "NodeThresholdRecorder", lambda c, ts, i, x: holds(c, c.old.get(nodeof(c), "_flow", i)), attr="_state")


def energy(c, ts, i, x):
    v, s = c.old, c.self
    p = v.obj(s, "_water_elevation_parameter")
    t = v.get(s, "turbine_elevation")
    head = mx(z3.If(p.t == NONE, t, values_of(c, p, i) - t), 0)
    q = v.get(nodeof(c), "_flow", i)
    power = head * q * v.get(s, "density") * v.get(s, "efficiency") * v.get(s, "flow_unit_conversion") * v.get(s, "energy_unit_conversion") * z3.RealVal("9.81")
    return x + power * v.get(ts, "days")


step(HY, "TotalHydroEnergyRecorder", CN, energy)
for q in ("MeanFlowNodeRecorder", "DeficitFrequencyNodeRecorder"): start(M, q, CN, 0, count=True); mean(M, q, CN)
start(M, "MeanParameterRecorder", CP, 0, count=True); mean(M, "MeanParameterRecorder", CP)
for q in (CN, CP, CS, "MinimumThresholdVolumeStorageRecorder"): start(M, q, q if q.startswith("Base") else CS, 0)
start(M, "MinimumVolumeStorageRecorder", CS, INF)
start(M, "TimestepCountIndexParameterRecorder", "TimestepCountIndexParameterRecorder", 0, attr="_count")
for q in ("StorageThresholdRecorder", "NodeThresholdRecorder"): start(TH, q, q, 0, attr="_state")


# ---- what is reported: one number per scenario ---------------------------------------------------------------------------------
def reported(mod, cls, attr):
    @contract("P20", f"{mod}:{cls}.values")
    def g(c):
        held(c, attr)
        c.call()
        def el(k):
            x = c.old.get(c.self, attr, k)
            return z3.ToReal(x) if x.sort() == I else x
        c.ensure_array("the statistic of every scenario", c.ncomb, el)
        c.frame([])


for m, q, a in ((M, CN, "_values"), (M, CP, "_values"), (M, CS, "_values"), (M, "TimestepCountIndexParameterRecorder", "_count"),
                (TH, "StorageThresholdRecorder", "_state"), (TH, "NodeThresholdRecorder", "_state")): reported(m, q, a)
