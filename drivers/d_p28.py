"""P28: the optimiser wrappers against models with arbitrary variables, objectives and constraints."""
from mlib import *
from pywr.recorders import Recorder
from pywr.parameters import Parameter
from pywr.optimisation.platypus import PlatypusWrapper, PywrRandomGenerator
from pywr.optimisation.pygmo import PygmoWrapper
from pywr.optimisation import clear_global_model_cache
import platypus

W = [1.0, .5, 2.0]


class Var(Parameter):
    """A variable of any number of reals and integers."""
    def __init__(self, m, nd, ni, lo, hi, **kw):
        super().__init__(m, is_variable=True, **kw)
        self.double_size, self.integer_size = nd, ni
        self.lo, self.hi = lo, hi; self.d, self.i = np.zeros(nd), np.zeros(ni, dtype=np.int32); self.log = []
    def value(self, ts, si): return 1.0
    def set_double_variables(self, v): self.d = np.array(v, dtype=float); self.log.append("d")
    def set_integer_variables(self, v): self.i = np.array(v); self.log.append("i")
    def get_double_variables(self): return self.d
    def get_integer_variables(self): return self.i
    def get_double_lower_bounds(self): return np.array(self.lo[0])
    def get_double_upper_bounds(self): return np.array(self.hi[0])
    def get_integer_lower_bounds(self): return np.array(self.lo[1], dtype=np.int32)
    def get_integer_upper_bounds(self): return np.array(self.hi[1], dtype=np.int32)


class Rec(Recorder):
    """A recorder whose value depends on the values in force when the model was run."""
    def __init__(self, m, k, shift=0., **kw): self.k, self.shift, self.seen = k, shift, None; super().__init__(m, **kw)
    def reset(self): self.seen = None
    def after(self): self.seen = self.of([(v.d, v.i) for v in self.model.variables])
    def of(self, vals): return self.shift + sum((n + 1 + self.k) * (np.sum(np.asarray(d) * (1 + np.arange(len(d)))) + 7 * np.sum(np.asarray(i) * (1 + np.arange(len(i))))) for n, (d, i) in enumerate(vals))
    def values(self): return np.array([self.seen])
    def aggregated_value(self): return self.seen


def spec(d, kinds=None):
    r = d.rng
    vs = []
    for _ in range(r.randint(1, 4)):
        nd, ni = r.choice([(1, 0), (3, 0), (0, 1), (0, 2), (2, 1), (1, 3)])
        lo = [[r.randint(-9, 0) + .5 for _ in range(nd)], [r.randint(-9, 0) for _ in range(ni)]]
        hi = [[x + r.randint(1, 9) for x in lo[0]], [x + r.randint(1, 9) for x in lo[1]]]
        vs.append((nd, ni, lo, hi))
    obs = [r.choice(["minimise", "maximise"]) for _ in range(r.randint(1, 3))]
    cons = [r.choice(kinds or ["double", "equal", "lower", "upper"]) for _ in range(r.randint(0, 4))]
    bounds = [{"double": (-3., 4.), "equal": (2., 2.), "lower": (1.5, None), "upper": (None, -2.5)}[c] for c in cons]
    return vs, obs, cons, bounds


def klass(s, both=False):
    vs, obs, cons, bounds = s
    class Loaded(Model):
        runs = 0
        @classmethod
        def load(cls, data, **kw):
            m = cls(start="2015-01-01", end="2015-01-02", solver="glpk")
            a, b = Input(m, "in"), Output(m, "out", max_flow=1, cost=-1); a.connect(b)
            for n, (nd, ni, lo, hi) in enumerate(vs): Var(m, nd, ni, lo, hi, name=f"v{n}")
            ConstantParameter(m, 3., name="unused")
            todo = [("o", k, o) for k, o in enumerate(obs)] + [("c", k, b_) for k, b_ in enumerate(bounds)]
            for kind, k, x in todo:
                if kind == "o": Rec(m, k, name=f"o{k}", is_objective=x)
                else: Rec(m, 10 + k, shift=k, name=f"c{k}", constraint_lower_bounds=x[0], constraint_upper_bounds=x[1])
            return m
    return Loaded


def split(s, x):
    out, p = [], 0
    for nd, ni, _, _ in s[0]:
        ints = [int(np.round(v)) for v in x[p + nd:p + nd + ni]]
        out.append((np.array(x[p:p + nd]), np.array(ints))); p += nd + ni
    return out


def vector(d, s):
    x = []
    for nd, ni, lo, hi in s[0]: x += [d.rng.uniform(a, b) for a, b in zip(lo[0], hi[0])] + [d.rng.uniform(a, b) for a, b in zip(lo[1], hi[1])]
    return x


def held(d, w, s, x):
    for v, (dv, iv) in zip(w.model_variables, split(s, x)):
        d.true("reals given", len(v.d) == len(dv) and np.array_equal(v.d, dv), got=(v.name, list(v.d)))
        d.true("integers given", len(v.i) == len(iv) and np.array_equal(v.i, iv), got=(v.name, list(v.i)))


def expected(w, s, x):
    vals = split(s, x)
    o = [(1 if k == "minimise" else -1) * Rec.of(r, vals) for k, r in zip(s[1], w.model_objectives)]
    c = [(k, b, Rec.of(r, vals)) for k, b, r in zip(s[2], s[3], w.model_constraints)]
    return o, c


def names(d, w, s):
    d.eq("variables", [v.name for v in w.model_variables], [f"v{n}" for n in range(len(s[0]))])
    d.eq("objectives", [v.name for v in w.model_objectives], [f"o{n}" for n in range(len(s[1]))])
    d.eq("constraints", [v.name for v in w.model_constraints], [f"c{n}" for n in range(len(s[2]))])


def with_platypus(d):
    for n in range(d.n(25)):
        s = spec(d); d.case("platypus", spec=s)
        clear_global_model_cache()
        w = PlatypusWrapper("", model_klass=klass(s)); names(d, w, s)
        size = sum(v[0] + v[1] for v in s[0]); pr = w.problem
        d.eq("sizes", (pr.nvars, pr.nobjs, pr.nconstrs), (size, len(s[1]), sum(2 if c == "double" else 1 for c in s[2])))
        lo = [x for v in s[0] for x in v[2][0] + v[2][1]]; hi = [x for v in s[0] for x in v[3][0] + v[3][1]]
        d.near("lower bounds", [t.min_value for t in pr.types], lo); d.near("upper bounds", [t.max_value for t in pr.types], hi)
        for rep in range(3):
            x = vector(d, s); d.case("platypus", spec=s, x=x)
            got = w.evaluate(list(x)); held(d, w, s, x)
            o, c = expected(w, s, x)
            go, gc = got if s[2] else (got, [])
            d.near("objectives", go, o)
            flat = [(k, b, v) for k, b, v in c for _ in range(2 if k == "double" else 1)]
            d.near("constraints", gc, [v for _, _, v in flat])
            ok = all((b[0] is None or v >= b[0]) and (b[1] is None or v <= b[1]) for _, b, v in c)
            d.eq("violation", all(pr.constraints[i](v) == 0 for i, v in enumerate(gc)), ok)
            # each slot judges at its own bound
            i = 0
            for k, b, _ in c:
                f = [pr.constraints[i + q] for q in range(2 if k == "double" else 1)]; i += len(f)
                for t in [y for b_ in b if b_ is not None for y in (b_ - .25, b_, b_ + .25)]:
                    d.eq("meaning of the constraints", all(g(t) == 0 for g in f), (b[0] is None or t >= b[0]) and (b[1] is None or t <= b[1]))
        # the model's present values as a first solution
        g = PywrRandomGenerator(wrapper=w); sol = g.generate(pr)
        d.near("present values", [float(v) for v in sol.variables], [float(v) for a, b in split(s, x) for v in list(a) + list(b)])
        given = {f"v{k}": {"doubles": [d.rng.uniform(-20, 20) for _ in range(v[0])], "integers": [d.rng.randint(-20, 20) for _ in range(v[1])]} for k, v in enumerate(s[0])}
        g = PywrRandomGenerator(wrapper=w, use_current=False, solutions=[given]); sol = g.generate(pr)
        want = [q for k in range(len(s[0])) for q in given[f"v{k}"]["doubles"] + given[f"v{k}"]["integers"]]
        d.near("given values, within the bounds", [float(v) for v in sol.variables], np.clip(want, lo, hi))


def with_pygmo(d):
    for n in range(d.n(25)):
        s = spec(d); d.case("pygmo", spec=s)
        clear_global_model_cache()
        w = PygmoWrapper("", model_klass=klass(s)); names(d, w, s)
        lo = [x for v in s[0] for x in v[2][0] + v[2][1]]; hi = [x for v in s[0] for x in v[3][0] + v[3][1]]
        b = w.get_bounds(); d.near("lower bounds", b[0], lo); d.near("upper bounds", b[1], hi)
        d.eq("sizes", (w.get_nobj(), w.get_nec(), w.get_nic()), (len(s[1]), s[2].count("equal"), sum({"double": 2, "equal": 0}.get(c, 1) for c in s[2])))
        for rep in range(3):
            x = vector(d, s); d.case("pygmo", spec=s, x=x)
            got = list(w.fitness(np.array(x))); held(d, w, s, x)
            o, c = expected(w, s, x)
            eq = [v - b_[0] for k, b_, v in c if k == "equal"]
            iq = [q for k, b_, v in c if k != "equal" for q in ([b_[0] - v] if b_[0] is not None else []) + ([v - b_[1]] if b_[1] is not None else [])]
            d.near("fitness", got, o + eq + iq)


def two_wrappers(d):
    """Wrappers of different models used in turn keep to their own model."""
    for n in range(d.n(6)):
        clear_global_model_cache()
        ss = [spec(d) for _ in range(2)]; ws = [(PlatypusWrapper if d.rng.random() < .5 else PygmoWrapper)("", model_klass=klass(s)) for s in ss]
        for rep in range(4):
            k = d.rng.randint(0, 1); x = vector(d, ss[k]); d.case("two wrappers", specs=ss, k=k, x=x)
            (ws[k].evaluate if isinstance(ws[k], PlatypusWrapper) else ws[k].fitness)(np.array(x)); held(d, ws[k], ss[k], x)


def refused(d):
    clear_global_model_cache()
    for what, s in (("no variables", ([], ["minimise"], [], [])), ("no objectives", ([(1, 0, [[0.], []], [[1.], []])], [], [], [])), ("a variable without values", ([(0, 0, [[], []], [[], []])], ["minimise"], [], []))):
        d.case(what, spec=s); clear_global_model_cache()
        d.raises("refused", ValueError, lambda: PlatypusWrapper("", model_klass=klass(s)))


DRIVERS = [with_platypus, with_pygmo, two_wrappers, refused]
