"""P07: the combinations run, their numbering, and everything labelled by them."""
from mlib import *
import itertools, json, os, tempfile, shutil
from pywr.core import Model, Scenario
from pywr.recorders import NumpyArrayNodeRecorder, NumpyArrayParameterRecorder
from pywr.parameters import ConstantScenarioParameter


class Who(PyParameter):
    """Keeps every (timestep, global id, members) it is asked for."""
    def __init__(self, m, **kw): super().__init__(m, **kw); self.calls = []
    def value(self, ts, si):
        self.calls.append((ts.index, si.global_id, tuple(int(x) for x in si.indices)))
        return float(si.global_id) + 1.0


def rslice(r, n):
    k = r.choice([None, None, "s", "e", "se", "st", "neg", "all"])
    if k is None: return None
    a, b = sorted([r.randint(0, n), r.randint(0, n)])
    return {"s": slice(r.randint(0, n - 1), None), "e": slice(r.randint(1, n)), "se": slice(a, max(b, a + 1)), "st": slice(None, None, r.choice([1, 2, 3])), "neg": slice(None, None, -1), "all": slice(-r.randint(1, n), None)}[k]


def names(r, n): return None if r.random() < .5 else [f"m{r.randint(0, 99)}_{i}" for i in range(n)]


def setting(d):
    r = d.rng
    k = r.choice([0, 1, 1, 2, 2, 3])
    sizes = [r.randint(1, 5) for _ in range(k)]
    slices = [rslice(r, n) for n in sizes]
    labels = [names(r, n) for n in sizes]
    user = None if k == 0 or r.random() < .55 else [[r.randint(0, n - 1) for n in sizes] for _ in range(r.randint(1, 6))]
    return sizes, slices, labels, user


def expected(sizes, slices, user):
    """Row-major enumeration by counting, or the user's list."""
    if not sizes: return [(0,)]
    if user is not None: return [tuple(x) for x in user]
    mem = []
    for n, s in zip(sizes, slices):
        idx = list(range(n)); mem.append(idx if s is None else idx[s])
    total = 1
    for x in mem: total *= len(x)
    out = []
    for g in range(total):
        row, q = [], g
        for x in reversed(mem): row.append(x[q % len(x)]); q //= len(x)
        out.append(tuple(reversed(row)))
    return out


def network(m):
    w = Who(m, name="who")
    i, o = Input(m, "i", max_flow=w), Output(m, "o", cost=-1, max_flow=100); i.connect(o)
    return w, NumpyArrayNodeRecorder(m, o, name="rec")


def compare(d, m, w, rec, sizes, slices, labels, user, run=True):
    want = expected(sizes, slices, user); T = 2
    w.calls = []
    if not d.eq("how many", len(m.scenarios.get_combinations()), len(want)): return
    m.run()
    d.eq("evaluated for every combination of every step, in order", w.calls, [(t, g, x) for t in range(T) for g, x in enumerate(want)])
    for cs, what in ((m.scenarios.combinations, "run"), (m.scenarios.get_combinations(), "listed")):
        d.eq(f"combinations {what}", [tuple(int(x) for x in c.indices) for c in cs], want)
        d.eq(f"global identifiers {what}", [c.global_id for c in cs], list(range(len(want))))
    d.near("recorded columns", rec.data, np.array([[g + 1.0 for g in range(len(want))]] * T))
    sh = tuple(m.scenarios.shape)
    d.eq("the shape holds every combination", int(np.prod(sh)), len(want))
    if user is None and sizes: d.eq("shape", sh, tuple(len(range(n)[s]) if s is not None else n for n, s in zip(sizes, slices)))
    if sizes:
        lab = [[x if x is not None else list(range(n)) for x, n in zip(labels, sizes)][j] for j in range(len(sizes))]
        mi = m.scenarios.multiindex
        rows = [tuple(lab[j][x[j]] for j in range(len(sizes))) for x in want]
        d.eq("table rows are the members' names", [tuple(x) for x in mi.to_list()], rows)
        d.eq("table levels are the scenarios", list(mi.names), [f"s{j}" for j in range(len(sizes))])
        d.eq("columns of the recorded table", [tuple(x) if isinstance(x, tuple) else (x,) for x in rec.to_dataframe().columns.to_list()], rows)
        d.near("values of the recorded table", rec.to_dataframe().values, rec.data)
        d.eq("combination names", list(m.scenarios.combination_names), ["-".join(f"s{j}.{x[j]:03d}" for j in range(len(sizes))) for x in want])
    else:
        d.eq("one unnamed combination", len(m.scenarios.multiindex), 1)


def build(sizes, slices, labels, user):
    m = Model(start="2015-01-01", end="2015-01-02", solver="glpk")
    for j, n in enumerate(sizes): Scenario(m, f"s{j}", size=n, slice=slices[j], ensemble_names=labels[j])
    if user is not None: m.scenarios.user_combinations = user
    return m


def enumerated(d):
    for k in range(d.n(60)):
        sizes, slices, labels, user = x = setting(d)
        d.case("combinations of a model", sizes=sizes, slices=[str(s) for s in slices], names=labels, user=user)
        def one():
            m = build(*x); w, rec = network(m)
            if not expected(sizes, slices, user): d.raises("nothing selected is refused", ValueError, m.run); return
            compare(d, m, w, rec, *x)
            compare(d, m, w, rec, *x)
        d.guard(one)


def changed(d):
    """After a run the scenarios change and the model is run again."""
    for k in range(d.n(40)):
        sizes, slices, labels, user = setting(d)
        if not sizes: continue
        how = d.rng.choice(["user combinations set", "user combinations cleared", "slice", "scenario added"])
        if how == "user combinations cleared": user = user or [[0] * len(sizes)]
        if how == "slice": user = None
        d.case("scenarios changed between runs", how=how, sizes=sizes, slices=[str(s) for s in slices], names=labels, user=user)
        def one():
            if not expected(sizes, slices, user): return
            m = build(sizes, slices, labels, user); w, rec = network(m)
            compare(d, m, w, rec, sizes, slices, labels, user)
            s2, sl2, l2, u2 = list(sizes), list(slices), list(labels), user
            if how == "user combinations set": u2 = [[d.rng.randint(0, n - 1) for n in sizes] for _ in range(d.rng.randint(1, 5))]; m.scenarios.user_combinations = u2
            elif how == "user combinations cleared": u2 = None; m.scenarios.user_combinations = None
            elif how == "slice":
                j = d.rng.randrange(len(sizes)); sl2[j] = d.rng.choice([None, slice(0, 1), slice(sizes[j] - 1, None)]); m.scenarios.scenarios[j].slice = sl2[j]
            else:
                n = d.rng.randint(1, 3); s2.append(n); sl2.append(None); l2.append(None)
                Scenario(m, f"s{len(sizes)}", size=n)
                if user is not None:
                    d.raises("a list of combinations without a member of every scenario is refused", ValueError, m.run)
                    u2 = [[d.rng.randint(0, q - 1) for q in s2] for _ in range(2)]; m.scenarios.user_combinations = u2
            if not expected(s2, sl2, u2): return
            compare(d, m, w, rec, s2, sl2, l2, u2)
        d.guard(one)


def loaded(d):
    for k in range(d.n(25)):
        sizes, slices, labels, user = setting(d)
        slices = [s if s is None or d.rng.random() < .9 else None for s in slices]
        doc = {"metadata": {"title": "x", "minimum_version": "0.1"}, "timestepper": {"start": "2015-01-01", "end": "2015-01-02", "timestep": 1},
               "scenarios": [dict({"name": f"s{j}", "size": n}, **({"slice": [slices[j].start, slices[j].stop, slices[j].step]} if slices[j] is not None else {}), **({"ensemble_names": labels[j]} if labels[j] else {})) for j, n in enumerate(sizes)],
               "nodes": [{"name": "i", "type": "Input", "max_flow": 3}, {"name": "o", "type": "Output", "cost": -1}], "edges": [["i", "o"]]}
        if user is not None: doc["scenario_combinations"] = user
        if not sizes and d.rng.random() < .5: del doc["scenarios"]
        d.case("combinations of a document", document={k: doc.get(k) for k in ("scenarios", "scenario_combinations")})
        def one():
            if not expected(sizes, slices, user): return
            m = Model.load(json.loads(json.dumps(doc)), solver="glpk")
            w = Who(m, name="who"); m.nodes["i"].max_flow = w; m.nodes["o"].max_flow = 100.0
            compare(d, m, w, NumpyArrayNodeRecorder(m, m.nodes["o"], name="rec"), sizes, slices, labels, user)
        d.guard(one)


def refused(d):
    for k in range(d.n(15)):
        sizes = [d.rng.randint(1, 4) for _ in range(d.rng.randint(1, 3))]
        m = build(sizes, [None] * len(sizes), [None] * len(sizes), None)
        ok = [[d.rng.randint(0, n - 1) for n in sizes] for _ in range(3)]
        j, i = d.rng.randrange(len(sizes)), d.rng.randrange(3)
        d.case("impossible combinations", sizes=sizes, row=i, column=j)
        sc = m.scenarios
        def setc(v):
            def f(): sc.user_combinations = v
            return f
        hi = [list(x) for x in ok]; hi[i][j] = sizes[j] + d.rng.randint(0, 2); d.raises("a member beyond the scenario", ValueError, setc(hi))
        lo = [list(x) for x in ok]; lo[i][j] = -d.rng.randint(1, 3); d.raises("a negative member", ValueError, setc(lo))
        d.raises("too many columns", ValueError, setc([x + [0] for x in ok])); d.raises("too few columns", ValueError, setc([x[:-1] for x in ok]))
        d.raises("a flat list", ValueError, setc([0] * len(sizes)))
        d.true("nothing was set", sc.user_combinations is None, sc.user_combinations)
        def good(): sc.user_combinations = ok; d.eq("the list is kept", np.asarray(sc.user_combinations).tolist(), ok)
        d.guard(good)
        d.raises("an empty scenario", ValueError, lambda: Scenario(m, "bad", size=d.rng.randint(-2, 0)))
        d.raises("wrong number of names", ValueError, lambda: Scenario(m, "bad", size=2, ensemble_names=["a"] * d.rng.choice([1, 3])))
        d.eq("refused scenarios are not in the model", len(sc), len(sizes))
        d.raises("the same scenario twice", ValueError, lambda: sc.add_scenario(sc.scenarios[j]))
        d.eq("position of a scenario", [sc.get_scenario_index(s) for s in sc.scenarios], list(range(len(sizes))))
        d.raises("an unknown scenario", KeyError, lambda: sc["nope"]); d.true("scenario by name", sc[f"s{j}"] is sc.scenarios[j])


DRIVERS = [enumerated, changed, loaded, refused]
