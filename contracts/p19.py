"""P19: array recorders hold, for each step and scenario, the value of that step."""
from common import *

M = "pywr.recorders._recorders"


def table(c, attr="_data", key=None, rows=None):
    """Shape of the table made by setup(): a row per timestep, a column per combination; the current step is one of the rows."""
    v = c.old
    ts = current(c)
    t = v.get(ts, "index")
    c.require(v.dim(c.self, attr, 1) == c.ncomb, t >= 0, t < v.dim(c.self, attr, 0))
    return ts, t


def writes(cls, owner, val, row=None, target=None, label=None, attr="_data"):
    """after() writes val(i) into the row of this step and nothing else."""
    @contract("P19", f"{M}:{target or cls}.after", cls=f"{M}:{cls}", label=label or f"{cls}.after")
    def g(c):
        ts, t = table(c)
        if row is not None: t = row(c, ts)
        x = val(c)
        k, i = c.idx("k", c.old.dim(c.self, attr, 0)), c.idx("i", c.ncomb)
        want = z3.If(k == t, x(i), c.old.get(c.self, attr, k, i))
        c.call()
        c.ensure("this step's row holds the values, the others stay", c.new.get(c.self, attr, k, i) == want)
        c.frame([(f"{owner}._data", c.self.t)])


def node(c): return c.known(c.old.obj(c.self, "_node"), c.P.find_class("Node"), exact=False)
def storage(c): return c.known(c.old.obj(c.self, "_node"), c.P.find_class("Storage"), exact=False)


def flow(c):
    n = c.known(c.old.obj(c.self, "_node"), c.P.find_class("AbstractNode"), exact=False)
    return lambda i: c.old.get(n, "_flow", i) * c.old.get(c.self, "factor")


def with_max(f):
    def g(c):
        n = node(c); mf = accessor(c, "max_flow")
        return lambda i: f(c.old.get(n, "_flow", i), mf(n, i))
    return g


ND = "NumpyArrayNodeRecorder"
writes(ND, ND, flow)
writes("NumpyArrayNodeDeficitRecorder", ND, with_max(lambda q, m: m - q))
writes("NumpyArrayNodeSuppliedRatioRecorder", ND, with_max(lambda q, m: z3.If(m == 0, z3.RealVal(1), q / m)))
writes("NumpyArrayNodeCurtailmentRatioRecorder", ND, with_max(lambda q, m: z3.If(m == 0, z3.RealVal(0), 1 - q / m)))


def cost(c):
    n = node(c); f = accessor(c, "cost")
    return lambda i: f(n, i)


writes("NumpyArrayNodeCostRecorder", ND, cost)
ST = "NumpyArrayAbstractStorageRecorder"


def volume(c):
    n = c.known(c.old.obj(c.self, "_node"), c.P.find_class("AbstractStorage"), exact=False)
    return lambda i: z3.If(c.old.get(c.self, "proportional"), c.old.get(n, "_current_pc", i), c.old.get(n, "_volume", i))


writes("NumpyArrayStorageRecorder", ST, volume)


def normalised(c):
    n = c.known(c.old.obj(c.self, "_node"), c.P.find_class("AbstractStorage"), exact=False)
    p = c.known(c.old.obj(c.self, "parameter"), "Parameter", exact=False)
    def f(i):
        v, cc = c.old.get(n, "_current_pc", i), values_of(c, p, i)
        return z3.If(v < cc, v / cc - 1, z3.If(cc == 1, z3.RealVal(1), (v - cc) / (1 - cc)))
    k = c.L.placeholder("k", I)
    c.require(c.all(c.ncomb, lambda k: values_of(c, p, k) > 0))
    return f


writes("NumpyArrayNormalisedStorageRecorder", ST, normalised)
for q in ("Level", "Area"):
    def la(c, q=q.lower()):
        n = storage(c); f = accessor(c, q)
        return lambda i: f(n, i)
    writes(f"NumpyArray{q}Recorder", ST, la)


def param(c):
    p = c.known(c.old.obj(c.self, "_param"), "Parameter", exact=False)
    return lambda i: values_of(c, p, i)


def index_param(c):
    p = c.known(c.old.obj(c.self, "_param"), "IndexParameter", exact=False)
    return lambda i: indices_of(c, p, i)


def slot(c, ts):
    d = c.old.get(ts, "dayofyear_index")
    c.require(d >= 0, d <= 365, c.old.dim(c.self, "_data", 0) == 366)
    return d


writes("NumpyArrayParameterRecorder", "NumpyArrayParameterRecorder", param)
writes("NumpyArrayDailyProfileParameterRecorder", "NumpyArrayDailyProfileParameterRecorder", param, row=slot)
writes("NumpyArrayIndexParameterRecorder", "NumpyArrayIndexParameterRecorder", index_param)


# ---- setup and reset ---------------------------------------------------------------------------------------------------------
def cleared(cls):
    @contract("P19", f"{M}:{cls}.reset")
    def g(c):
        n, w = c.old.dim(c.self, "_data", 0), c.old.dim(c.self, "_data", 1)
        c.require(n >= 1, w >= 1)
        k, i = c.idx("k", n), c.idx("i", w)
        c.call()
        z = c.new.get(c.self, "_data", k, i)
        c.ensure("nothing recorded", z == (0 if z.sort() == I else z3.RealVal(0)))
        c.frame([(f"{cls}._data", c.self.t)])

    @contract("P19", f"{M}:{cls}.setup")
    def s(c):
        nt = c.free("steps", I); c.require(nt >= 1)
        c.ex.side["methods"]["Timestepper.__len__"] = lambda e, st, o, a, k: S(nt, "int")
        c.old.obj(c.old.obj(c.self, "model"), "timestepper")
        c.call()
        rows = z3.IntVal(366) if "Daily" in cls else nt
        c.ensure("one row per timestep", c.new.dim(c.self, "_data", 0) == rows)
        c.ensure("one column per combination", c.new.dim(c.self, "_data", 1) == c.ncomb)


for q in (ND, ST, "NumpyArrayParameterRecorder", "NumpyArrayDailyProfileParameterRecorder", "NumpyArrayIndexParameterRecorder"): cleared(q)


# ---- rolling recorders ---------------------------------------------------------------------------------------------------------
@contract("P19", f"{M}:RollingMeanFlowNodeRecorder.after")
def rolling_flow(c):
    ts, t = table(c)
    v = c.old
    n, p = v.get(c.self, "timesteps"), v.get(c.self, "position")
    c.require(n >= 1, p >= 0, p < n, p == t % n, v.dim(c.self, "_memory", 0) == c.ncomb, v.dim(c.self, "_memory", 1) == n)
    node = c.known(v.obj(c.self, "_node"), c.P.find_class("AbstractNode"), exact=False)
    k, i, j = c.idx("k", v.dim(c.self, "_data", 0)), c.idx("i", c.ncomb), c.idx("j", n)
    w = z3.If(t < n, t + 1, n)
    mem = lambda i, j: z3.If(j == p, v.get(node, "_flow", i), v.get(c.self, "_memory", i, j))
    mean = c.sum(w, lambda j: mem(i, j)) / z3.ToReal(w)
    keep = v.get(c.self, "_data", k, i)
    c.call()
    c.ensure("the newest flow replaces the oldest", c.new.get(c.self, "_memory", i, j) == mem(i, j))
    c.ensure("the position advances around the memory", c.new.get(c.self, "position") == z3.If(p + 1 == n, z3.IntVal(0), p + 1))
    c.ensure("this step's row holds the mean of the remembered flows", c.new.get(c.self, "_data", k, i) == z3.If(k == t, mean, keep))


@contract("P19", f"{M}:RollingWindowParameterRecorder.after")
def rolling_window(c):
    ts, t = table(c)
    v = c.old
    n, p, nt = v.get(c.self, "window"), v.get(c.self, "position"), v.dim(c.self, "_data", 0)
    # one row of memory per timestep of the run; the position is the step modulo the window
    c.require(n >= 1, p >= 0, p < n, p == t % n, v.dim(c.self, "_memory", 1) == c.ncomb, v.dim(c.self, "_memory", 0) == nt)
    par = param(c)
    agg = lambda n, f: c.opq("aggregate", n, f)
    def two_d(e, st, o, a, kw):
        assert len(a) == 1 and set(kw) <= {"axis"} and z3.is_int_value(kw["axis"].t) and kw["axis"].t.as_long() == 0
        x = a[0]; s0 = st.copy()
        return e.lib.fresh(st, "double", [x.dims[1]], lambda i: S(e.L.opq("aggregate", [([x.dims[0]], [j], e.rd(s0, x, j, i))], [], R), "double"))
    j = c.L.placeholder("j", I)
    c.ex.side["methods"]["Aggregator.aggregate_2d"] = two_d
    k, i, q = c.idx("k", nt), c.idx("i", c.ncomb), c.idx("q", nt)
    w = z3.If(t < n, t + 1, n)
    mem = lambda q, i: z3.If(q == p, par(i), v.get(c.self, "_memory", q, i))
    want = agg(w, lambda j: mem(j, i))
    keep = v.get(c.self, "_data", k, i)
    c.call()
    c.ensure("the newest value replaces the oldest", c.new.get(c.self, "_memory", q, i) == mem(q, i))
    c.ensure("the position advances around the memory", c.new.get(c.self, "position") == z3.If(p + 1 >= n, z3.IntVal(0), p + 1))
    c.ensure("this step's row holds the aggregate of the remembered values", c.new.get(c.self, "_data", k, i) == z3.If(k == t, want, keep))
