"""P24: the bisection search.

Ghost state of the search: the value in the parameter, the greatest value at which a simulation was found feasible, the
least at which one was found infeasible.  The outcome of every simulation is arbitrary."""
from common import *
from core import INF

M = "pywr.utils.bisect"


class Search:
    """Ghost variables; lo: greatest feasible value found (the lower bound when none), found: whether any was,
    hi: least infeasible value found (the upper bound when none), at: the value of the last simulation."""
    names = ("param", "at", "lo", "found", "hi", "ok", "runs", "lo1", "found1", "hi1")

    def __init__(self, c):
        self.c = c
        sort = dict(found=B, found1=B, ok=B, runs=I)
        self.t0 = {n: c.ex.h(c.st, "ghost." + n, sort.get(n, R)) for n in self.names}

    def get(self, s, n):
        return self.c.L.sel(s.heap.get("ghost." + n, self.t0[n]), self.c.self.t)

    def put(self, s, n, v):
        s.heap["ghost." + n] = z3.Store(s.heap.get("ghost." + n, self.t0[n]), self.c.self.t, v)


@contract("P24", f"{M}:BisectionSearchModel.run")
def run(c):
    c.ex.side["types"].update({"BisectionSearchModel.bisect_parameter": "str?", "BisectionSearchModel.bisect_epsilon": "double?", "BisectionSearchModel.error_on_infeasible": "bint"})
    g = Search(c)
    get, put = g.get, g.put
    noeps, nopar = c.isnone_any(c.self, "bisect_epsilon"), c.isnone_any(c.self, "bisect_parameter")
    e = c.old.val(c.self, "bisect_epsilon"); eps = e.v.t if isinstance(e, Opt) else e.t
    strict = c.old.get(c.self, "error_on_infeasible")
    par = c.new_obj("variable", "Parameter")
    nd, ni = c.free("double_size", I), c.free("integer_size", I)
    low, high = c.free("lower", R), c.free("upper", R)
    c.require(-INF < low, high < INF, INF > 0, nd >= 0, ni >= 0, -INF < eps, eps < INF)
    side = c.ex.side
    roster = c.new_obj("parameters", "NamedIterator")
    side["attr"]["Parameter.double_size"] = lambda e, st, o: S(nd, "int")
    side["attr"]["Parameter.integer_size"] = lambda e, st, o: S(ni, "int")
    one = lambda v: A("double", [z3.IntVal(1)], ("G", lambda s, i: v), None, True)
    own(c, setup=lambda e, st, o, a, k: NoneV(), is_feasible=lambda e, st, o, a, k: S(get(st, "ok"), "bint"))
    m = side["methods"]
    m["Parameter.get_double_lower_bounds"] = lambda e, st, o, a, k: one(low)
    m["Parameter.get_double_upper_bounds"] = lambda e, st, o, a, k: one(high)

    def set_(e, st, o, a, k):
        v = e.to_array(st, a[0], "double")
        e.oblige("one value for the one variable", st, v.dims[0] == 1)
        put(st, "param", real(e.rd(st, v, z3.IntVal(0))))
        return NoneV()
    m["Parameter.set_double_variables"] = set_

    def simulate(e, st, o, a, k):
        n = get(st, "runs"); ok = z3.Function("outcome_of_run", I, B)(n)      # arbitrary: any sequence of outcomes
        v = get(st, "param")
        lo, hi, found = get(st, "lo"), get(st, "hi"), get(st, "found")
        put(st, "lo1", lo); put(st, "hi1", hi); put(st, "found1", found)
        put(st, "at", v); put(st, "ok", ok); put(st, "runs", n + 1)
        put(st, "lo", ITE(AND(ok, OR(NOT(found), v > lo)), v, lo)); put(st, "found", OR(found, ok))
        put(st, "hi", ITE(AND(NOT(ok), v < hi), v, hi))
        return Opaque("result")
    m["Model.run!super"] = simulate
    side["attr"]["Model.parameters"] = side["attr"]["BisectionSearchModel.parameters"] = lambda e, st, o: roster
    m["NamedIterator.__getitem__"] = lambda e, st, o, a, k: par
    c.require(get(c.st, "lo") == low, NOT(get(c.st, "found")), get(c.st, "hi") == high, get(c.st, "runs") == 0)

    def candidates(e, entry, s):
        num = [real(v.t) for k, v in sorted(s.loc.items()) if k in entry.loc and isinstance(v, S) and v.t.sort() == R and isinstance(entry.loc[k], S)]
        lo, hi, found = get(s, "lo"), get(s, "hi"), get(s, "found")
        out = [lo < hi, low <= lo, hi <= high, OR(found, lo == low), get(s, "runs") >= 0]
        for x in num: out += [x == lo, x == hi, ITE(found, x == lo, x == -INF)]
        return out

    gap = lambda s: get(s, "hi") - get(s, "lo")
    side["invariant"] = (candidates, lambda e, s, t: [("the gap at least halves with every simulation", gap(t) <= gap(s) / 2), ("the search goes on only above the tolerance", gap(s) > eps)])
    bad = OR(noeps, nopar, nd != 1, ni != 0, low >= high, eps <= 0)
    c.raises("ValueError", lambda s: OR(bad, AND(strict, NOT(get(s, "found")))))
    c.call()
    p = c.post
    at = get(p, "at")
    c.ensure("the model is left as simulated with the value in the parameter", AND(get(p, "param") == at, get(p, "runs") >= 1))
    lo_, hi_, found_ = get(p, "lo1"), get(p, "hi1"), get(p, "found1")      # as they were before the last simulation
    c.ensure("it is the greatest value found feasible (the lower bound if none was and none is required)", at == lo_)
    c.ensure("a value was found feasible, unless none is required", OR(found_, NOT(strict)))
    c.ensure("within the tolerance of a value found infeasible or the upper bound", AND(hi_ - at <= eps, at <= hi_))
