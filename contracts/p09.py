"""P09: what a run leaves behind is gone after a reset.

The state a run can leave in an object is found in the code on every run: the attributes of self assigned by before(), after(), value(), calc_values(), finish(),
commit() ... and everything of the object those call.  For every such attribute the contract of reset() is a non-interference obligation: its value after reset() is the same
whatever all run state (of this and of every other object) was before, i.e. it is a function of the model's definition only."""
from common import *
import p04, p08, p21

RUN = {"before", "after", "value", "index", "calc_values", "finish", "commit", "commit_all", "save", "_update", "values", "aggregated_value", "data"}
# run state of other objects a reset may not consult
SHARED = ["Parameter.__values", "IndexParameter.__indices", "AbstractNode._flow", "AbstractNode._prev_flow", "AbstractStorage._volume", "AbstractStorage._current_pc"]


def walk(x):
    import front
    if isinstance(x, front.N):
        yield x
        for v in x.f.values(): yield from walk(v)
    elif isinstance(x, (list, tuple)):
        for v in x: yield from walk(v)


def methods(c, cls):
    """The methods of cls a run can reach through self, from the hooks Model calls each step."""
    P = c.P
    todo, seen = [], {}
    for n in RUN:
        m = P.lookup_method(cls, n)
        if m is not None: todo.append(m)
    while todo:
        m = todo.pop()
        if (m.module, m.qualname) in seen: continue
        seen[(m.module, m.qualname)] = m
        if m.name in ("reset", "setup", "__init__"): continue
        for x in walk(m.body):
            if x.k != "call": continue
            f = x.fn
            if f.k != "attr": continue
            if f.o.k == "name" and m.args and f.o.id == m.args[0][0]: t = P.lookup_method(cls, f.a)
            elif f.o.k == "call" and f.o.fn.k == "name" and f.o.fn.id == "super": t = P.lookup_method(cls, f.a, after=m.cls)
            elif f.o.k == "name" and x.args and x.args[0].k == "name" and m.args and x.args[0].id == m.args[0][0]:
                b = P.find_class(f.o.id, m.module); t = P.lookup_method(b, f.a) if b is not None else None
            else: t = None
            if t is not None: todo.append(t)
    return [m for m in seen.values() if m.name not in ("reset", "setup", "__init__")]


def run_state(c, cls):
    """Attributes of self assigned (or assigned into) by those methods."""
    out = set()
    for m in methods(c, cls):
        if not m.args: continue
        me = m.args[0][0]
        def target(t):
            while t.k in ("index", "slice", "view"): t = t.o
            if t.k in ("tuple", "list"):
                for i in t.items: target(i)
            if t.k == "attr" and t.o.k == "name" and t.o.id == me: out.add(t.a)
        for x in walk(m.body):
            if x.k == "assign":
                for t in x.targets: target(t)
            elif x.k == "aug": target(x.target)
            elif x.k == "call" and x.fn.k == "attr" and x.fn.a in ("append", "extend", "fill", "clear", "pop", "update", "add"): target(x.fn.o)
    return out


def key_of(c, cls, attr):
    k = c.ex.attr_key(cls, attr)
    if k is None or k[0] != "field": return None
    return k[1]


def forgets(cls, target=None, keep=(), label=None, pre=None, raises=None, arrays=()):
    """keep: run state that need not be put back, because a run overwrites it before reading it."""
    mod, name = cls.split(":")
    target = target or cls
    @contract("P09", f"{target}.reset", cls=cls, label=label or f"{name}.reset forgets the run")
    def g(c):
        p04.types(c)
        if pre: pre(c)
        if raises: raises(c)
        state = run_state(c, c.cls)
        keys = {}
        for a in sorted(state - set(keep)):
            k = key_of(c, c.cls, a)
            if k is None: raise Unsupported(f"run state in undeclared attribute {a}")
            keys[a] = k
        c.call()
        if not keys: c.ensure("no run state", TRUE)
        ex = c.ex
        runkeys = [key_of(c, c.cls, a) for a in state if key_of(c, c.cls, a)] + SHARED
        subs = [(t, z3.Const(f"{k}!other run", t.sort())) for k, t in ex.heap0.items() if k in runkeys]
        other = lambda t: z3.substitute(t, *subs) if subs else t
        for a, k in keys.items():
            for kk in [x for x in c.post.heap if x == k or x.startswith(k + "#")] or [None]:
                if kk is None or kk not in c.post.heap:
                    c.obs.append((f"state:{a} is put back", list(c.post.pc), FALSE)); continue
                if kk.startswith(k + "#") and kk[len(k) + 1:].isdigit(): continue
                v = c.L.sel(c.post.heap[kk], c.self.t)
                if z3.is_array(v):
                    js, shape, _ = ex.loops.idxs(v.sort())
                    cs = [z3.Const(f"state_j{i}", j.sort()) for i, j in enumerate(js)]
                    hyp = []
                    for i, j in enumerate(cs):
                        d = f"{k}#{i}"
                        n = c.L.sel(c.post.heap.get(d, ex.heap0.get(d)), c.self.t) if d in c.post.heap or d in ex.heap0 else None
                        n = c.new.dim(c.self, a, i) if n is None else n
                        ex.nonneg.add(j.get_id()); c.L.keep.append(j)
                        hyp += [j >= 0, j < n]
                    v = ex.loops.get(v, cs, shape)
                else: hyp = []
                v = c.L.norm(v)
                pc = list(c.post.pc) + hyp
                c.obs.append((f"state:{kk.replace(k, a)} after a reset is the same whatever the run left", pc + [other(p) for p in pc], v == other(v)))


def bad_initial(c):
    from p03 import initial
    c.raises("RuntimeError", initial(c, c.self)[2])


C = "pywr._core"; N = "pywr.nodes"
VALUES = ("__values", "__indices")
for q in ("Input", "Output", "Link", "AggregatedNode"): forgets(f"{N}:{q}", f"{C}:AbstractNode" if q != "AggregatedNode" else f"{C}:AggregatedNode")
for q in ("PiecewiseLink", "BreakLink", "DelayNode", "LossLink"): forgets(f"{N}:{q}", f"{C}:AbstractNode")
forgets(f"{N}:Storage", f"{C}:Storage", raises=bad_initial)
forgets(f"{N}:VirtualStorage", f"{C}:VirtualStorage", raises=bad_initial)
forgets(f"{N}:RollingVirtualStorage", f"{C}:RollingVirtualStorage", raises=bad_initial, pre=lambda c: c.require(c.old.dim(c.self, "_memory", 1) == c.ncomb))
for q in ("AnnualVirtualStorage", "SeasonalVirtualStorage", "MonthlyVirtualStorage"): forgets(f"{N}:{q}", raises=bad_initial)


def members(c):
    """Every member storage has an initial volume (else its own reset raises)."""
    import p03
    n = c.old.dim(c.self, "_storage_nodes")
    c.ex.side["methods"]["Storage.get_initial_volume"] = lambda e, st, o, a, k: S(e.lib.fn("initial_volume", Ref, R)(o.t), "double")
    c.ex.side["methods"]["Storage.get_initial_pc"] = lambda e, st, o, a, k: S(e.lib.fn("initial_pc", Ref, R)(o.t), "double")
    c.ex.assumed.add("get_initial_volume and get_initial_pc of a member storage are functions of its definition (contracts of P03)")


forgets(f"{N}:AggregatedStorage", f"{C}:AggregatedStorage", pre=members)

P_ = "pywr.parameters._parameters"
forgets(f"{P_}:DeficitParameter")
forgets(f"{P_}:FlowParameter", keep=("__values",))
forgets(f"{P_}:FlowDelayParameter", keep=VALUES)
forgets(f"{P_}:RollingMeanFlowNodeParameter", keep=VALUES)
for q in ("StorageThresholdParameter", "NodeThresholdParameter", "MultipleThresholdIndexParameter", "RecorderThresholdParameter"):
    if q != "MultipleThresholdIndexParameter": forgets(f"pywr.parameters._thresholds:{q}", "pywr.parameters._thresholds:AbstractThresholdParameter", keep=VALUES)
forgets("pywr.parameters.licenses:StorageLicense", keep=VALUES)
R_ = "pywr.recorders._recorders"
for q in ("NumpyArrayNodeRecorder", "NumpyArrayStorageRecorder", "NumpyArrayParameterRecorder", "NumpyArrayIndexParameterRecorder", "NumpyArrayDailyProfileParameterRecorder",
          "TotalFlowNodeRecorder", "TotalDeficitNodeRecorder", "MeanFlowNodeRecorder", "DeficitFrequencyNodeRecorder", "MinimumVolumeStorageRecorder", "MinimumThresholdVolumeStorageRecorder",
          "TimestepCountIndexParameterRecorder", "AnnualCountIndexParameterRecorder", "TotalParameterRecorder", "MeanParameterRecorder", "NumpyArrayNodeDeficitRecorder",
          "NumpyArrayNodeCurtailmentRatioRecorder", "NumpyArrayNodeSuppliedRatioRecorder", "NumpyArrayNodeCostRecorder", "NumpyArrayLevelRecorder", "NumpyArrayAreaRecorder",
          "NumpyArrayNormalisedStorageRecorder"): forgets(f"{R_}:{q}")
# the array of the current year is cleared on entering the first year, which reset() makes the next step do
forgets(f"{R_}:AnnualCountIndexThresholdRecorder", keep=("_data_this_year",), pre=lambda c: p21.year_of(c, c.free("start_year", I)))
forgets(f"{R_}:AnnualTotalFlowRecorder", pre=lambda c: p21.year_of(c, c.free("start_year", I)))
# only the entries since the last reset are read; every row of the result is written before it is read
forgets(f"{R_}:RollingWindowParameterRecorder", keep=("_memory",))
forgets(f"{R_}:RollingMeanFlowNodeRecorder", keep=("_memory", "_data"))
for q in ("StorageThresholdRecorder", "NodeThresholdRecorder"): forgets(f"pywr.recorders._thresholds:{q}")
forgets("pywr.recorders._hydropower:HydropowerRecorder")
forgets("pywr.recorders._hydropower:TotalHydroEnergyRecorder")
for q in ("EventRecorder", "EventDurationRecorder", "EventStatisticRecorder"):
    forgets(f"pywr.recorders.events:{q}", pre=lambda c, q=q: c.ex.side["types"].update({f"{q}._values": "double[1]"}))
