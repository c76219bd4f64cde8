"""P08: the order of all work in a timestep, observed by components, nodes and a solver that log every call."""
from mlib import *
import random
from pywr.nodes import *
from pywr.parameters import *
from pywr.parameters._thresholds import *
from pywr.parameters.control_curves import *
from pywr.parameters.licenses import *
from pywr.recorders import *
from pywr.recorders.recorders import Recorder
from pywr.recorders.events import *
from pywr.model import ModelStructureError


class Logs:
    """Logs every hook of the object."""
    def note(self, what): self.log.append((what, self.key))
    def setup(self, *a):
        super().setup(*a); self.note("setup")
    def reset(self): super().reset(); self.note("reset")
    def before(self, *a): super().before(*a); self.note("before")
    def after(self, *a): super().after(*a); self.note("after")
    def finish(self): super().finish(); self.note("finish")


class P(Logs, PyParameter):
    def __init__(self, m, log, key, **kw):
        super().__init__(m, **kw); self.log, self.key, self.seen = log, key, []
    def value(self, ts, si):
        self.note("value"); self.seen.append((ts.index, si.global_id))
        return 1.0 + ts.index


class IX(Logs, PyIndexParameter):
    def __init__(self, m, log, key, **kw):
        super().__init__(m, **kw); self.log, self.key, self.seen = log, key, []
    def index(self, ts, si): self.note("value"); self.seen.append((ts.index, si.global_id)); return 0
    def value(self, ts, si): return 0.0


class Rec(Logs, Recorder):
    def __init__(self, m, log, key, **kw):
        super().__init__(m, **kw); self.log, self.key = log, key


def watch_solver(m, log):
    real = m.solver
    class Solver:
        def __getattr__(self, k): return getattr(real, k)
        def solve(self, model):
            log.append(("solve", "solver")); return real.solve(model)
    m.solver = Solver()


class LoggedLink(Logs, Link):
    pass
class LoggedInput(Logs, Input):
    pass
class LoggedOutput(Logs, Output):
    pass
class LoggedStorage(Logs, Storage):
    pass


def network(m, log):
    nodes = []
    for cls, nm, kw in ((LoggedInput, "in", dict(max_flow=5)), (LoggedLink, "link", {}), (LoggedOutput, "out", dict(max_flow=4, cost=-5)), (LoggedStorage, "sto", dict(max_volume=20, initial_volume=10, cost=-1))):
        n = cls(m, nm, **kw); n.log, n.key = log, "node " + nm
        nodes.append(n)
    i, l, o, s = nodes
    i.connect(l); l.connect(o); i.connect(s); s.connect(o)
    return nodes


def split(log):
    """The log of each step: from after one step's end to the next's."""
    return log


def check_order(d, what, entries, keys, edges, times=1):
    """Every key appears `times` times in a row-wise block and after everything it depends on."""
    pos, cnt, last = {}, {}, {}
    for i, k in enumerate(entries):
        cnt[k] = cnt.get(k, 0) + 1
        pos.setdefault(k, i); last[k] = i
    d.eq(f"{what}: exactly once each", {k: cnt.get(k, 0) for k in keys}, {k: times for k in keys})
    d.true(f"{what}: nothing else", set(cnt) <= set(keys), sorted(set(cnt) - set(keys)))
    for a, b in edges:
        if a in pos and b in pos and last[a] > pos[b]:
            d.fail(f"{what}: after what it depends on", f"{a} before {b}", entries); break


def graphs(d):
    for k in range(d.n(60)):
        n, scen, T, how = d.rng.randint(1, 9), d.rng.choice([(), (2,)]), d.rng.randint(1, 4), d.rng.choice(["run", "step", "run twice", "reset halfway"])
        kinds = [d.rng.choice("PPIR") for _ in range(n)]
        perm = d.rng.sample(range(n), n)                # dependency rank: perm[i] < perm[j] may give i -> j
        dens = d.rng.choice([.15, .4, .8])
        adds = [(i, j, d.rng.choice("cp"), d.rng.choice([1, 1, 2])) for i in range(n) for j in range(n) if perm[i] < perm[j] and d.rng.random() < dens]
        d.rng.shuffle(adds)
        drop = [(i, j, d.rng.choice("cp")) for i, j, _, q in adds if d.rng.random() < .25]
        d.case("random dependencies", kinds=kinds, adds=adds, removed=drop, scen=scen, timesteps=T, how=how)

        def one():
            m = model(end=f"2015-01-0{T}", scen=scen); log = []; ns = network(m, log)
            cs = [{"P": P, "I": IX, "R": Rec}[x](m, log, f"c{i}", name=f"c{i}") for i, x in enumerate(kinds)]
            count = {}
            for i, j, w, q in adds:
                for _ in range(q): cs[j].children.add(cs[i]) if w == "c" else cs[i].parents.add(cs[j])
                count[i, j] = count.get((i, j), 0) + q
            for i, j, w in drop:
                cs[j].children.remove(cs[i]) if w == "c" else cs[i].parents.remove(cs[j])
                count[i, j] -= 1
            edges = {(f"c{i}", f"c{j}") for (i, j), q in count.items() if q > 0}
            for i in range(n):
                d.eq("children are the dependencies", sorted(c.name for c in cs[i].children), sorted(a for a, b in edges if b == f"c{i}"))
                d.eq("parents are the dependents", sorted(c.name for c in cs[i].parents), sorted(b for a, b in edges if a == f"c{i}"))
            watch_solver(m, log)
            keys, nk = [c.key for c in cs], [x.key for x in ns]
            if how == "step":
                for _ in range(T): m.step()
            elif how == "reset halfway":
                m.step(); m.reset(); log.clear(); m.run()
            else:
                m.run()
                if how == "run twice": log.clear(); m.run()
            verify(d, log, cs, keys, nk, edges, T, ncomb(scen), finished=how != "step", setup=how in ("run", "step"))
        d.guard(one)


def verify(d, log, cs, keys, nk, edges, T, S, finished, setup):
    names = [x for x, _ in log]
    start = names.index("before") if "before" in names else len(names)
    pre, rest = log[:start], log[start:]
    for ph in (["setup"] if setup else []) + ["reset"]:
        e = [k for x, k in pre if x == ph]
        i = [q for q, (x, k) in enumerate(pre) if x == ph and k in nk]; j = [q for q, (x, k) in enumerate(pre) if x == ph and k in keys]
        if i and j: d.true(f"{ph}: nodes before components", max(i) < min(j), pre)
        check_order(d, ph, e, nk + keys, edges)
    fin = [k for x, k in rest if x == "finish"]
    body = [x for x in rest if x[0] != "finish"]
    if finished:
        check_order(d, "finish", fin, nk + keys, edges)
        d.true("finished last", all(x == "finish" for x, _ in rest[len(rest) - len(fin):]), names)
    # steps: split at the first node_before after an 'after'
    steps, cur = [], []
    for x, k in body:
        if x == "before" and cur and cur[-1][0] == "after": steps.append(cur); cur = []
        cur.append((x, k))
    if cur: steps.append(cur)
    d.eq("as many steps as timesteps", len(steps), T)
    for t, st in enumerate(steps):
        s = [q for q, x in enumerate(st) if x[0] == "solve"]
        if not d.eq("solved once in a step", len(s), 1): return
        b, a = st[:s[0]], st[s[0] + 1:]
        d.true("only before() and values before the solver", all(x in ("before", "value") for x, _ in b), b)
        d.true("only after() after the solver", all(x == "after" for x, _ in a), a)
        nb = len(nk)
        d.true("nodes before components", set(k for _, k in b[:nb]) == set(nk) and all(x == "before" for x, _ in b[:nb]), b)
        d.true("nodes finish before components", set(k for _, k in a[:nb]) == set(nk), a)
        check_order(d, "before", [k for x, k in b if x == "before"], nk + keys, edges)
        check_order(d, "after", [k for x, k in a], nk + keys, edges)
        par = [c.key for c in cs if isinstance(c, PyParameter)]
        check_order(d, "values", [k for x, k in b if x == "value"], par, edges, S)
        d.true("values after everything is prepared", max([q for q, x in enumerate(b) if x[0] == "before"], default=-1) < min([q for q, x in enumerate(b) if x[0] == "value"], default=len(b)), b)
    for c in cs:
        if isinstance(c, PyParameter): d.eq("a value for every scenario of every timestep, in order", c.seen[-T * S:], [(t, s) for t in range(T) for s in range(S)])


def cycles(d):
    for k in range(d.n(25)):
        n = d.rng.randint(1, 6); order = d.rng.sample(range(n), n)
        m = pmodel(end="2015-01-02"); log = []
        cs = [d.rng.choice([P, IX, Rec])(m, log, f"c{i}", name=f"c{i}") for i in range(n)]
        for i in range(n):
            for j in range(i + 1, n):
                if d.rng.random() < .4: cs[order[j]].children.add(cs[order[i]])
        L = d.rng.randint(1, n); ring = d.rng.sample(range(n), L)
        later = d.rng.random() < .4
        how = d.rng.choice(["run", "setup", "step"])
        d.case("cyclic dependencies", components=n, ring=ring, how=how)

        def one():
            for a, b in zip(ring, ring[1:] + ring[:1]):
                cs[a].children.add(cs[b]) if d.rng.random() < .5 else cs[b].parents.add(cs[a])
            d.raises("a dependency cycle is rejected", ModelStructureError, getattr(m, how))
            d.true("nothing was evaluated", not any(x == "value" for x, _ in log), log)
            d.raises("and again", ModelStructureError, m.run)
        d.guard(one)


# ---- every class registers what it uses -------------------------------------------------------------------------------------------
def catalogue():
    """name -> f(m, nodes, p, x): makes one object using the given logging parameters p() and index parameters x(); returns (object, used components)."""
    i, l, o, s = range(4)
    C = {}
    def add(f): C[f.__name__] = f; return f

    def simple(name, make): C[name] = make
    simple("AggregatedParameter", lambda m, n, p, x: (lambda a: (AggregatedParameter(m, a, agg_func="max"), a))([p(), p(), p()]))
    simple("AggregatedIndexParameter", lambda m, n, p, x: (lambda a: (AggregatedIndexParameter(m, a, agg_func="max"), a))([x(), x()]))
    simple("DivisionParameter", lambda m, n, p, x: (lambda a: (DivisionParameter(m, *a), a))([p(), p()]))
    for c in (NegativeParameter, MaxParameter, NegativeMaxParameter, MinParameter, NegativeMinParameter, OffsetParameter):
        simple(c.__name__, lambda m, n, p, x, c=c: (lambda a: (c(m, *a), a))([p()]))
    simple("IndexedArrayParameter", lambda m, n, p, x: (lambda a: (IndexedArrayParameter(m, a[0], a[1:]), a))([x(), p(), p()]))
    simple("PiecewiseIntegralParameter", lambda m, n, p, x: (lambda a: (PiecewiseIntegralParameter(m, a[0], [1.0, 5.0, 9.0], [1.0, 2.0, 3.0]), a))([p()]))
    simple("DiscountFactorParameter", lambda m, n, p, x: (DiscountFactorParameter(m, .03, 2015), []))
    simple("InterpolatedParameter", lambda m, n, p, x: (lambda a: (InterpolatedParameter(m, a[0], [0.0, 50.0], [1.0, 2.0]), a))([p()]))
    simple("InterpolatedQuadratureParameter", lambda m, n, p, x: (lambda a: (InterpolatedQuadratureParameter(m, a[0], [-9.0, 50.0], [1.0, 2.0], lower_parameter=a[1]), a))([p(), p()]))
    simple("ScaledProfileParameter", lambda m, n, p, x: (lambda a: (ScaledProfileParameter(m, 2.0, a[0]), a))([p()]))
    simple("FunctionParameter", lambda m, n, p, x: (FunctionParameter(m, n[l], lambda parent, ts, si: 1.0), []))
    def wrap(m, n, p, x):
        a = [p(), p()]; return ScenarioWrapperParameter(m, m.scenarios["w"], a), a
    C["ScenarioWrapperParameter"] = wrap
    for c, k in ((ControlCurveParameter, 2), (ControlCurveIndexParameter, 2), (ControlCurveInterpolatedParameter, 2), (ControlCurvePiecewiseInterpolatedParameter, 1)):
        kw = {ControlCurveParameter: dict(values=[1, 2, 3]), ControlCurveInterpolatedParameter: dict(values=[1.0, 2.0, 3.0, 4.0]), ControlCurvePiecewiseInterpolatedParameter: dict(values=[(1, 2), (3, 4)])}.get(c, {})
        simple(c.__name__, lambda m, n, p, x, c=c, k=k, kw=kw: (lambda a: (c(m, n[s], a, **kw), a))([p() for _ in range(k)]))
    simple("ControlCurveParameter parameters", lambda m, n, p, x: (lambda a: (ControlCurveParameter(m, n[s], a[:1], parameters=a[1:]), a))([p(), p(), p()]))
    simple("ControlCurveInterpolatedParameter parameters", lambda m, n, p, x: (lambda a: (ControlCurveInterpolatedParameter(m, n[s], a[:1], parameters=a[1:]), a))([p(), p(), p(), p()]))
    simple("WeightedAverageProfileParameter", lambda m, n, p, x: (lambda a: (WeightedAverageProfileParameter(m, n[s:s + 1], a), a))([DailyProfileParameter(m, np.ones(366), name=f"prof{d_()}")]))
    simple("ParameterThresholdParameter", lambda m, n, p, x: (lambda a: (ParameterThresholdParameter(m, a[0], a[1], values=[1, 2], predicate="GT"), a))([p(), p()]))
    simple("StorageThresholdParameter", lambda m, n, p, x: (lambda a: (StorageThresholdParameter(m, n[s], a[0], values=[1, 2], predicate="GT"), a))([p()]))
    simple("NodeThresholdParameter", lambda m, n, p, x: (lambda a: (NodeThresholdParameter(m, n[l], a[0], values=[1, 2], predicate="GT"), a))([p()]))
    def rth(m, n, p, x):
        a = [p()]; r = NumpyArrayNodeRecorder(m, n[l], name=f"rn{d_()}"); return RecorderThresholdParameter(m, r, a[0], values=[1, 2], predicate="GT"), a
    C["RecorderThresholdParameter"] = rth
    simple("CurrentYearThresholdParameter", lambda m, n, p, x: (lambda a: (CurrentYearThresholdParameter(m, a[0], values=[1, 2], predicate="GT"), a))([p()]))
    simple("CurrentOrdinalDayThresholdParameter", lambda m, n, p, x: (lambda a: (CurrentOrdinalDayThresholdParameter(m, a[0], values=[1, 2], predicate="GT"), a))([p()]))
    simple("MultipleThresholdIndexParameter", lambda m, n, p, x: (lambda a: (MultipleThresholdIndexParameter(m, n[l], a), a))([p(), p()]))
    simple("MultipleThresholdParameterIndexParameter", lambda m, n, p, x: (lambda a: (MultipleThresholdParameterIndexParameter(m, a[0], a[1:]), a))([p(), p(), p()]))
    simple("Polynomial1DParameter", lambda m, n, p, x: (lambda a: (Polynomial1DParameter(m, [1.0, 2.0], parameter=a[0]), a))([p()]))
    simple("Polynomial2DStorageParameter", lambda m, n, p, x: (lambda a: (Polynomial2DStorageParameter(m, [[1.0, 2.0]], n[s], a[0]), a))([p()]))
    simple("HydropowerTargetParameter", lambda m, n, p, x: (lambda a: (HydropowerTargetParameter(m, a[0], water_elevation_parameter=a[1], min_flow=a[2], max_flow=a[3]), a))([p(), p(), p(), p()]))
    for c in (NumpyArrayParameterRecorder, TotalParameterRecorder, MeanParameterRecorder, NumpyArrayDailyProfileParameterRecorder):
        simple(c.__name__, lambda m, n, p, x, c=c: (lambda a: (c(m, a[0]), a))([p()]))
    simple("RollingWindowParameterRecorder", lambda m, n, p, x: (lambda a: (RollingWindowParameterRecorder(m, a[0], 3), a))([p()]))
    simple("NumpyArrayNormalisedStorageRecorder", lambda m, n, p, x: (lambda a: (NumpyArrayNormalisedStorageRecorder(m, n[s], parameter=a[0]), a))([p()]))
    simple("NumpyArrayIndexParameterRecorder", lambda m, n, p, x: (lambda a: (NumpyArrayIndexParameterRecorder(m, a[0]), a))([x()]))
    simple("TimestepCountIndexParameterRecorder", lambda m, n, p, x: (lambda a: (TimestepCountIndexParameterRecorder(m, a[0], 1), a))([x()]))
    simple("AnnualCountIndexParameterRecorder", lambda m, n, p, x: (lambda a: (AnnualCountIndexParameterRecorder(m, a[0], 1), a))([x()]))
    simple("AnnualCountIndexThresholdRecorder", lambda m, n, p, x: (lambda a: (AnnualCountIndexThresholdRecorder(m, a, f"act{d_()}", 1), a))([x(), x()]))
    simple("HydropowerRecorder", lambda m, n, p, x: (lambda a: (HydropowerRecorder(m, n[l], water_elevation_parameter=a[0]), a))([p()]))
    simple("TotalHydroEnergyRecorder", lambda m, n, p, x: (lambda a: (TotalHydroEnergyRecorder(m, n[l], water_elevation_parameter=a[0]), a))([p()]))
    simple("EventRecorder", lambda m, n, p, x: (lambda a: (EventRecorder(m, a[0], tracked_parameter=a[1]), a))([x(), p()]))
    def er(m, n, p, x):
        e = EventRecorder(m, x(), name=f"ev{d_()}"); return EventDurationRecorder(m, e), [e]
    C["EventDurationRecorder"] = er
    def es(m, n, p, x):
        e = EventRecorder(m, x(), tracked_parameter=p(), name=f"ev{d_()}"); return EventStatisticRecorder(m, e), [e]
    C["EventStatisticRecorder"] = es
    def ar(m, n, p, x):
        a = [TotalParameterRecorder(m, p(), name=f"t{d_()}") for _ in range(2)]; return AggregatedRecorder(m, a, name=f"a{d_()}"), a
    C["AggregatedRecorder"] = ar
    return C


_n = [0]
def d_(): _n[0] += 1; return _n[0]


def dependencies(c, seen=None):
    seen = set() if seen is None else seen
    for x in c.children:
        if x not in seen: seen.add(x); dependencies(x, seen)
    return seen


def classes(d):
    C = catalogue()
    for rnd in range(d.n(4)):
        for name, make in C.items():
            d.case(f"dependencies of {name}", round=rnd)

            def one():
                m = model(end="2015-01-03"); Scenario(m, "w", size=2); log = []; ns = network(m, log)
                late, cnt = d.rng.random() < .5, iter(range(100))
                mk = {"P": [], "I": []}
                p = lambda: (lambda k: P(m, log, k, name=k))(f"p{next(cnt)}")
                x = lambda: (lambda k: IX(m, log, k, name=k))(f"x{next(cnt)}")
                obj, used = make(m, ns, p, x)
                dep = dependencies(obj)
                missing = [u.name for u in used if u not in dep]
                d.true("every component used is a dependency", not missing, missing)
                # reference it from outside, before and after others, and check the order the values are found in
                user = P(m, log, "user", name="user"); user.children.add(obj)
                m.run()
                keys = [u.key for u in used if isinstance(u, (P, IX))]
                ks = [k for w, k in log if w == "value"]
                d.true("evaluated before what depends on it", all(ks.index(k) < ks.index("user") for k in keys if k in ks) and all(k in ks for k in keys), ks)
            d.guard(one)


def reassign(d):
    """A used component is a dependency as long as any use of it is left."""
    def props(m, ns, a):
        return {"HydropowerTargetParameter": (HydropowerTargetParameter(m, a[0], water_elevation_parameter=a[1], min_flow=a[2], max_flow=a[3]), ["target", "water_elevation_parameter", "min_flow", "max_flow"]),
                "DivisionParameter": (DivisionParameter(m, a[0], a[1]), ["numerator", "denominator"]),
                "InterpolatedQuadratureParameter": (InterpolatedQuadratureParameter(m, a[0], [-99.0, 99.0], [1.0, 2.0], lower_parameter=a[1]), ["upper_parameter", "lower_parameter"]),
                "InterpolatedParameter": (InterpolatedParameter(m, a[0], [-99.0, 99.0], [1.0, 2.0]), ["parameter"])}
    for k in range(d.n(40)):
        which = d.rng.choice(["HydropowerTargetParameter", "DivisionParameter", "InterpolatedQuadratureParameter", "InterpolatedParameter"])
        first = [d.rng.randint(0, 2) for _ in range(4)]
        moves = [(d.rng.randint(0, 3), d.rng.randint(0, 3)) for _ in range(d.rng.randint(1, 5))]
        d.case("reassigned properties", cls=which, first=first, moves=moves)

        def one():
            m = model(end="2015-01-02"); log = []; ns = network(m, log)
            ps = [P(m, log, f"p{i}", name=f"p{i}") for i in range(4)]
            obj, names = props(m, ns, [ps[i] for i in first])[which]
            for i, j in moves: setattr(obj, names[i % len(names)], ps[j])
            held = {getattr(obj, n).name for n in names}
            d.eq("dependencies are the components in use", sorted({c.name for c in obj.children}), sorted(held))
            m.run()
        d.guard(one)
    for k in range(d.n(20)):
        a, b = [d.rng.randint(0, 3) for _ in range(d.rng.randint(1, 3))], [d.rng.randint(0, 3) for _ in range(2)]
        pr = [d.rng.randint(0, 3) for _ in range(len(a) + 1)]
        d.case("reassigned control curves", first=a, second=b[:len(a)], parameters=pr)

        def two():
            m = model(end="2015-01-02"); log = []; ns = network(m, log)
            ps = [P(m, log, f"p{i}", name=f"p{i}") for i in range(4)]
            obj = ControlCurveParameter(m, ns[3], [ps[i] for i in a], parameters=[ps[i] for i in pr])
            now = (b + b)[:len(a)]
            obj.control_curves = [ps[i] for i in now]
            d.eq("dependencies are the components in use", sorted({c.name for c in obj.children}), sorted({f"p{i}" for i in now + pr}))
        d.guard(two)
    for k in range(d.n(15)):
        a = [d.rng.randint(0, 2) for _ in range(4)]; out = d.rng.sample(range(4), d.rng.randint(0, 3))
        d.case("removed members", members=a, removed=out)

        def three():
            m = model(end="2015-01-02"); log = []
            network(m, log); ps = [P(m, log, f"p{i}", name=f"p{i}") for i in range(3)]
            obj = AggregatedParameter(m, [ps[i] for i in a], agg_func="sum")
            for i in out: obj.remove(ps[a[i]])
            left = list(a)
            for i in out: left.remove(a[i])
            d.eq("dependencies are the components in use", sorted({c.name for c in obj.children}), sorted({f"p{i}" for i in left}))
            m.run()
        d.guard(three)


def added_later(d):
    """A component created after the model was set up takes part in the next run."""
    d.case("a component added after the model was set up")
    def one():
        m = model(end="2015-01-03"); log = []; ns = network(m, log)
        m.run(); log.clear()
        p = P(m, log, "late", name="late")
        m.run()
        d.true("is evaluated", [x for x in log if x == ("value", "late")] == [("value", "late")] * 3, log[:5])
    one()


def failing(d):
    """Whatever goes wrong in a step, the run is finished."""
    for at in range(3):
        for hook in ("value", "before", "after", "solve"):
            d.case("a step that fails", hook=hook, step=at)

            def one():
                m = model(end="2015-01-03"); log = []; ns = network(m, log)
                class Bad(P):
                    def value(self, ts, si): self.boom("value"); return super().value(ts, si)
                    def before(self): super().before(); self.boom("before")
                    def after(self): super().after(); self.boom("after")
                    def boom(self, w):
                        if w == hook and m.timestep.index == at: raise ZeroDivisionError
                c = Bad(m, log, "bad", name="bad"); r = Rec(m, log, "rec", name="rec"); r.children.add(c)
                if hook == "solve":
                    watch_solver(m, log); s = m.solver; old = s.solve
                    def solve(model):
                        if model.timestep.index == at: raise ZeroDivisionError
                        return old(model)
                    s.solve = solve
                d.raises("the error is passed on", ZeroDivisionError, m.run)
                check_order(d, "finish after an error", [k for x, k in log if x == "finish"], ["bad", "rec"] + [n.key for n in ns], [("bad", "rec")])
            d.guard(one)


DRIVERS = [graphs, cycles, classes, reassign, failing, added_later]
