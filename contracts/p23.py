"""P23: recorder results are aggregated and judged against bounds as declared."""
from common import *

M = "pywr.recorders._recorders"
FUNCS = {"SUM": "sum", "MIN": "min", "MAX": "max", "MEAN": "mean", "MEDIAN": "median", "PRODUCT": "product", "COUNT_NONZERO": "count_nonzero"}


def stat(c, f, n, x):
    """The declared function of x(0..n-1)."""
    one = c.ex.lib.fold1
    if f == "sum": return c.sum(n, x)
    if f == "mean": return c.sum(n, x) / z3.ToReal(n)
    if f == "product": return one(c.st, n, x, z3.RealVal(1), lambda p, q: p * q)
    if f in ("min", "max"): return c.extreme(n, x, f == "min")
    return c.opq(f, n, x)


def present(c, f, n, x):
    """The declared function of those of x(0..n-1) that are not missing; missing if all are."""
    ok = lambda k: x(k) != NAN
    number = c.sum(n, lambda k: z3.If(ok(k), z3.IntVal(1), z3.IntVal(0)))
    one = c.ex.lib.fold1
    if f == "sum": r = c.sum(n, lambda k: z3.If(ok(k), x(k), z3.RealVal(0)))
    elif f == "mean": r = c.sum(n, lambda k: z3.If(ok(k), x(k), z3.RealVal(0))) / z3.ToReal(number)
    elif f == "product": r = one(c.st, n, lambda k: z3.If(ok(k), x(k), z3.RealVal(1)), z3.RealVal(1), lambda p, q: p * q)
    elif f in ("min", "max"):
        end = INF if f == "min" else -INF
        r = one(c.st, n, lambda k: z3.If(ok(k), x(k), end), end, lambda p, q: z3.If(q < p if f == "min" else q > p, q, p))
    else:
        k = c.L.placeholder("k", I)
        r = c.L.opq(f, [([n], [k], z3.If(ok(k), x(k), NAN)), ([n], [k], z3.If(ok(k), z3.RealVal(1), z3.RealVal(0)))], [], R)
    return z3.If(number == 0, NAN, r)


for q, fname in FUNCS.items():
    for skip in (False, True):
        how = ", missing values ignored" if skip else ""
        @contract("P23", f"{M}:Aggregator.aggregate_1d", label=f"Aggregator.aggregate_1d {q}{how}")
        def one_d(c, q=q, fname=fname, skip=skip):
            c.setval(c.self, "_func", c.enum("AggFuncs", q))
            n = c.free("n", I); c.require(n >= 1)
            a = c.array("data", n)
            el = lambda k: c.old.rd(a, k)
            want = (present if skip else stat)(c, fname, n, el)
            c.call(a, ignore_nan=S(z3.BoolVal(skip), "bint"))
            c.ensure_ret("the declared function of the values" + how, want)
            c.frame([])
        for axis in (0, 1):
            @contract("P23", f"{M}:Aggregator.aggregate_2d", label=f"Aggregator.aggregate_2d {q}, axis {axis}{how}")
            def two_d(c, q=q, fname=fname, skip=skip, axis=axis):
                c.setval(c.self, "_func", c.enum("AggFuncs", q))
                n, m = c.free("n", I), c.free("m", I); c.require(n >= 1, m >= 1)
                i = c.ex.newid(); c.st.arrs[i] = z3.Const("data", arrsort("double", 2))
                a = A("double", [n, m], ("L", i))
                along, across = (n, m) if axis == 0 else (m, n)
                at = lambda j, k: c.old.rd(a, *((k, j) if axis == 0 else (j, k)))
                j = c.idx("slice", across)
                want = (present if skip else stat)(c, fname, along, lambda k: at(j, k))
                c.call(a, axis=S(z3.IntVal(axis), "int"), ignore_nan=S(z3.BoolVal(skip), "bint"))
                c.ensure("one value per slice", c.ret.dims[0] == across)
                c.ensure("the declared function of each slice" + how, c.ret_at(j) == want)
                c.frame([])


# ---- aggregated value and bounds ----------------------------------------------------------------------------------------------
def vals(c):
    """Recorder.values() of any recorder: one number per scenario (what they are: P19-P22, P25)."""
    f = c.ex.lib.fn("recorder_value", Ref, I, R)
    c.ex.side["methods"]["Recorder.values"] = lambda e, st, o, a, k: A("double", [c.ncomb], ("G", lambda _s, i: f(o.t, i)), None)
    c.ex.assumed.add("values() of any recorder is one number per scenario and changes nothing (what the numbers are: P19-P22, P25)")
    return f


for skip in (False, True):
    @contract("P23", f"{M}:Recorder.aggregated_value", label="Recorder.aggregated_value" + (", missing values ignored" if skip else ""))
    def aggregated(c, skip=skip):
        f = vals(c)
        c.self.exact = False
        ag = c.known(c.old.obj(c.self, "_scenario_aggregator"), "Aggregator")
        c.require(c.old.get(c.self, "ignore_nan") == skip)
        got = {}
        def agg(e, st, o, a, k):
            got["o"], got["a"], got["k"] = o, a, k
            return S(c.free("aggregate", R), "double")
        c.ex.side["methods"]["Aggregator.aggregate_1d"] = agg
        c.known(c.old.obj(c.self, "_scenario_aggregator"), "Aggregator", exact=False)
        c.call()
        i = c.free("i", I)
        c.ensure("by the recorder's own aggregator", got["o"].t == ag.t)
        c.ensure("of its values", AND(got["a"][0].dims[0] == c.ncomb, c.ex.rd(c.post, got["a"][0], i) == f(c.self.t, i)))
        ig = got["k"].get("ignore_nan", got["a"][1] if len(got["a"]) > 1 else S(FALSE, "bint"))
        c.ensure("ignoring missing values if asked", c.ex.truth(ig) == skip)
        c.ensure_ret("and nothing else", c.free("aggregate", R))
        c.frame([])


def bounds(c):
    lo, hi = c.old.get(c.self, "_constraint_lower_bounds"), c.old.get(c.self, "_constraint_upper_bounds")
    # established by the setters (proved below)
    c.require(lo != INF, hi != -INF, lo != NAN, hi != NAN, OR(lo == -INF, hi == INF, lo <= hi))
    return lo, hi, lo != -INF, hi != INF


@contract("P23", f"{M}:Recorder.is_constraint_violated")
def violated(c):
    lo, hi, l, h = bounds(c)
    x = c.free("aggregate", R); c.require(x != NAN)
    c.self.exact = False
    c.ex.side["methods"]["Recorder.aggregated_value"] = lambda e, st, o, a, k: S(x, "double")
    c.raises("ValueError", AND(NOT(l), NOT(h)))
    c.call()
    c.ensure("exactly when the value is outside the bounds", c.ex.truth(c.ret) == OR(AND(l, x < lo), AND(h, x > hi)))
    c.frame([])


for attr, cond in (("is_constraint", lambda l, h, lo, hi: OR(l, h)), ("is_equality_constraint", lambda l, h, lo, hi: AND(l, h, lo == hi)),
                   ("is_double_bounded_constraint", lambda l, h, lo, hi: AND(l, h, lo != hi)), ("is_lower_bounded_constraint", lambda l, h, lo, hi: AND(l, NOT(h))),
                   ("is_upper_bounded_constraint", lambda l, h, lo, hi: AND(h, NOT(l)))):
    @contract("P23", f"{M}:Recorder.{attr}.get")
    def kind(c, cond=cond):
        lo, hi, l, h = bounds(c)
        c.call()
        c.ensure("the kind of constraint the bounds declare", c.ex.truth(c.ret) == cond(l, h, lo, hi))
        c.frame([])


for side, f, other in (("lower", "_constraint_lower_bounds", "_constraint_upper_bounds"), ("upper", "_constraint_upper_bounds", "_constraint_lower_bounds")):
    none = -INF if side == "lower" else INF
    @contract("P23", f"{M}:Recorder.constraint_{side}_bounds.set", label=f"Recorder.constraint_{side}_bounds set to a number")
    def number(c, side=side, f=f, other=other):
        lo, hi, l, h = bounds(c)
        x = c.double("x"); c.require(x.t != NAN, x.t != INF, x.t != -INF)
        c.raises("ValueError", AND(h, x.t > hi) if side == "lower" else AND(l, x.t < lo))
        c.call(x)
        c.ensure("the bound given", c.new.get(c.self, f) == x.t)
        c.ensure("bounds stay ordered", OR(c.new.get(c.self, other) == (INF if side == "lower" else -INF),
                                           (c.new.get(c.self, f) <= hi) if side == "lower" else (c.new.get(c.self, f) >= lo)))
        c.frame([(f"Recorder.{f}", c.self.t)])

    @contract("P23", f"{M}:Recorder.constraint_{side}_bounds.set", label=f"Recorder.constraint_{side}_bounds set to None")
    def none_(c, f=f, none=none):
        bounds(c)
        c.call(NV)
        c.ensure("no bound", c.new.get(c.self, f) == none)
        c.frame([(f"Recorder.{f}", c.self.t)])

    @contract("P23", f"{M}:Recorder.constraint_{side}_bounds.get", label=f"Recorder.constraint_{side}_bounds")
    def getter(c, f=f, none=none):
        bounds(c)
        x = c.old.get(c.self, f)
        c.call()
        c.ensure("None exactly without a bound", c.ex.is_none(c.ret) == (x == none))
        c.ensure("the bound", OR(x == none, (c.ret.v if isinstance(c.ret, Opt) else c.ret).t == x))
        c.frame([])


WAY = {"maximize": "MAXIMISE", "maximise": "MAXIMISE", "max": "MAXIMISE", "minimise": "MINIMISE", "minimize": "MINIMISE", "min": "MINIMISE", None: "NONE"}
for w, q in WAY.items():
    @contract("P23", f"{M}:Recorder.is_objective.set", label=f"Recorder.is_objective set to {w}")
    def objective(c, w=w, q=q):
        c.call(NV if w is None else c.ex.strval(w))
        c.ensure("the direction declared", c.new.get(c.self, "_is_objective") == c.enum("ObjDirection", q).t)
        c.frame([("Recorder._is_objective", c.self.t)])


@contract("P23", f"{M}:Recorder.is_objective.get", label="Recorder.is_objective")
def is_objective(c):
    d = c.old.get(c.self, "_is_objective")
    n, mxi, mni = (c.enum("ObjDirection", q).t for q in ("NONE", "MAXIMISE", "MINIMISE"))
    c.require(OR(d == n, d == mxi, d == mni))
    c.call()
    c.ensure("None exactly for a recorder that is no objective", c.ex.is_none(c.ret) == (d == n))
    r = (c.ret.v if isinstance(c.ret, Opt) else c.ret).t
    c.ensure("the direction declared", OR(d == n, r == z3.If(d == mxi, c.ex.strval("maximise").t, c.ex.strval("minimise").t)))
    c.frame([])


for w, q in {"sum": "SUM", "min": "MIN", "max": "MAX", "mean": "MEAN", "median": "MEDIAN", "product": "PRODUCT", "count_nonzero": "COUNT_NONZERO", "Mean": "MEAN"}.items():
    @contract("P23", f"{M}:Aggregator.func.set", label=f"Aggregator.func set to {w}")
    def func(c, w=w, q=q):
        for a in ("func_args", "func_kwargs", "_user_func"): c.ex.side["setters"]["Aggregator." + a] = lambda e, st, o, v: None
        c.call(c.ex.strval(w))
        c.ensure("the function declared", c.new.get(c.self, "_func") == c.enum("AggFuncs", q).t)


# ---- across recorders, one scenario at a time --------------------------------------------------------------------------------------
for q, fname in FUNCS.items():
    @contract("P23", f"{M}:AggregatedRecorder.values", label=f"AggregatedRecorder.values {q}")
    def across(c, q=q, fname=fname):
        v, s = c.old, c.self
        c.setval(s, "_recorder_agg_func", c.enum("AggFuncs", q))
        f = vals(c)
        n = v.dim(s, "recorders"); c.require(n >= 1)
        r = lambda k: v.obj(s, "recorders", k).t
        i = c.idx("i", c.ncomb)
        x = lambda k: f(r(k), i)
        if fname in ("min", "max"):
            # numbers lie between the infinities
            end = INF if fname == "min" else -INF
            want = c.fold(n, end, lambda k, acc: z3.If(x(k) < acc if fname == "min" else x(k) > acc, x(k), acc))
        else: want = stat(c, fname, n, x)
        c.call()
        c.ensure("one value per scenario", c.ret.dims[0] == c.ncomb)
        c.ensure("the declared function of the recorders' values of the scenario", c.ret_at(i) == want)
        c.frame([])


# ---- objectives, constraints, feasibility -----------------------------------------------------------------------------------------
MD = "pywr._model"


def listing(c, of, cls):
    """The model's components: an arbitrary list."""
    n = c.free("n_components", I); c.require(n >= 0)
    f = c.ex.lib.fn("component", I, Ref)
    k = c.P.find_class(cls)
    c.ex.side["attr"][f"Model.{of}"] = lambda e, st, o: A(k.name, [n], ("G", lambda s, i: f(i)), None, True)
    c.ex.side["funcs"][f"{MD}:NamedIterator"] = lambda e, st, a, kw: a[0]
    return n, lambda i: O(f(i), k)


for attr, src, test in (("objectives", "recorders", "is_objective"), ("constraints", "recorders", "is_constraint"), ("variables", "parameters", "is_variable")):
    @contract("P23", f"{MD}:Model.{attr}.get", label=f"Model.{attr}")
    def chosen(c, attr=attr, src=src, test=test):
        n, el = listing(c, src, "Recorder" if src == "recorders" else "Parameter")
        g = c.ex.lib.fn("component_" + test, Ref, B)
        c.ex.side["attr"]["Recorder." + test] = c.ex.side["attr"]["Parameter." + test] = lambda e, st, o: S(g(o.t), "bint")
        c.ex.side["new"]["NamedIterator"] = lambda e, st, a, kw: a[0]
        c.call()
        k = c.idx("k", n)
        r = c.ret
        c.ensure("every component is asked", r.n == n)
        c.ensure("in the order of the model", r.elem(k, c.post).t == el(k).t)
        c.ensure("taken exactly when declared so", r.cond(k, c.post) == g(el(k).t))
        c.frame([])


@contract("P23", f"{MD}:Model.is_feasible")
def feasible(c):
    n, el = listing(c, "constraints", "Recorder")
    g = c.ex.lib.fn("constraint_violated", Ref, B)
    c.ex.side["methods"]["Recorder.is_constraint_violated"] = lambda e, st, o, a, k: S(g(o.t), "bint")
    c.call()
    c.ensure("feasible exactly when no constraint is violated", c.ex.truth(c.ret) == c.all(n, lambda k: NOT(g(el(k).t))))
    c.frame([])
