"""P28: the optimiser wrappers.

The model is a ghost: what was given to each variable, whether it has been run since, and what its recorders say."""
from common import *
import front
from p01 import listed, thing

PL, PG, OP = "pywr.optimisation.platypus", "pywr.optimisation.pygmo", "pywr.optimisation.__init__"


def world(c, cls, method=True):
    s, e = c.ex.side, c.ex
    s["growing"] = True; s["decide"] = True
    W = {}
    for nm, kl in (("variables", "Parameter"), ("objectives", "Recorder"), ("constraints", "Recorder")): W[nm] = listed(c, nm, kl)
    for nm in W:
        s["attr"][f"{cls}.model_{nm}"] = lambda e, st, o, nm=nm: W[nm]["list"]
    u = lambda name, so: e.lib.fn(name, Ref, so)
    nd, ni = W["nd"], W["ni"] = u("double_size", I), u("integer_size", I)
    for f in ("double_size", "integer_size"):
        c.facts(f, lambda t, f=f: [u(f, I)(t) >= 0])
        s["attr"]["Parameter." + f] = lambda e, st, o, f=f: S(u(f, I)(o.t), "int")
    vm = W["vm"] = e.lib.fn("variable_map", I, I); V = W["variables"]; nv = V["n"]
    c.facts("variable_map", lambda k: [vm(z3.IntVal(0)) == 0, z3.Implies(AND(k >= 0, k < nv), vm(k + 1) == vm(k) + nd(V["at"](k)) + ni(V["at"](k))), z3.Implies(AND(k >= 0, k <= nv), AND(vm(k) >= 0, vm(k) <= vm(nv)))])
    s["attr"][f"{cls}.model_variable_map"] = lambda e, st, o: A("int", [nv + 1], ("G", lambda s2, m: vm(m)), None, True)
    for f, so in (("doubles", R), ("integers", I)):
        for w in ("lower", "upper"):
            b = e.lib.fn(f"{w}_{f}", Ref, I, so); W[f"{w}_{f}"] = b; n_ = nd if f == "doubles" else ni
            s["methods"][f"Parameter.get_{f[:-1]}_{w}_bounds"] = lambda e, st, o, a, k, b=b, so=so, n_=n_: A("double" if so == R else "int", [n_(o.t)], ("G", lambda s2, m: b(o.t, m)))
    # giving values to variables
    g = lambda st, k, so: e.h(st, "ghost." + k, so)
    def given(kind, ty):
        so = R if ty == "double" else I
        def h(e_, st, o, a, k):
            e.oblige("the model has not been run before all its variables were set", st, NOT(W["ran"](st)))
            x = e.to_array(st, a[0]); p = c.L.placeholder("p", I)
            if x.ty != ty: raise Unsupported(f"{x.ty} values for a variable of {ty}")
            st.heap["ghost." + kind] = z3.Store(g(st, kind, z3.ArraySort(I, so)), o.t, c.L.lam([p], e.rd(st, x, p)))
            st.heap["ghost.n_" + kind] = z3.Store(g(st, "n_" + kind, I), o.t, x.dims[0])
            return NoneV()
        s["methods"][f"Parameter.set_{kind}_variables"] = h
    given("double", "double"); given("integer", "int")
    W["given"] = lambda kind, t, m: c.L.sel(c.L.sel(g(c.post, kind, z3.ArraySort(I, R if kind == "double" else I)), t), m)
    W["n_given"] = lambda kind, t: c.L.sel(g(c.post, "n_" + kind, I), t)
    me = c.self.t if method else c.free("wrapper", Ref)
    ran = lambda st: c.L.sel(g(st, "ran", B), me)
    W["ran"] = ran
    c.require(NOT(ran(c.st)))
    def run_(e_, st, o, a, k):
        st.heap["ghost.ran"] = z3.Store(g(st, "ran", B), me, TRUE)
        return thing(c, "Stats")(e, st, o)
    s["methods"]["Model.run"] = run_
    s["methods"]["Model.reset"] = lambda e_, st, o, a, k: NoneV()
    model = W["model"] = c.new_obj("model", "Model")
    s["attr"][f"{cls}.model"] = lambda e_, st, o: model
    s["ignore"].add(f"{cls}.run_stats")
    # recorders
    val, mini = W["value"], W["minimise"] = u("aggregated", R), u("is_minimised", B)
    lbs, ubs, lb, ub = u("has_lower", B), u("has_upper", B), u("lower", R), u("upper", R)
    def agg(e_, st, o, a, k):
        e.oblige("the model has been run with the values given", st, ran(st)); return S(val(o.t), "double")
    s["methods"]["Recorder.aggregated_value"] = agg
    s["attr"]["Recorder.is_objective"] = lambda e_, st, o: S(ITE(mini(o.t), c.L.strcode("minimise"), c.L.strcode("maximise")), "str")
    W["dbl"] = lambda t: AND(lbs(t), ubs(t), lb(t) != ub(t)); W["eq"] = lambda t: AND(lbs(t), ubs(t), lb(t) == ub(t))
    W["lo"] = lambda t: AND(lbs(t), NOT(ubs(t))); W["up"] = lambda t: AND(ubs(t), NOT(lbs(t)))
    W["lb"], W["ub"] = lb, ub
    for a, f in (("is_double_bounded_constraint", W["dbl"]), ("is_equality_constraint", W["eq"]), ("is_lower_bounded_constraint", W["lo"]), ("is_upper_bounded_constraint", W["up"]), ("is_constraint", lambda t: OR(lbs(t), ubs(t)))):
        s["attr"]["Recorder." + a] = lambda e_, st, o, f=f: S(f(o.t), "bint")
    s["attr"]["Recorder.constraint_lower_bounds"] = lambda e_, st, o: Opt(NOT(lbs(o.t)), S(lb(o.t), "double"))
    s["attr"]["Recorder.constraint_upper_bounds"] = lambda e_, st, o: Opt(NOT(ubs(o.t)), S(ub(o.t), "double"))
    c.facts("has_lower", lambda t: [OR(lbs(t), ubs(t))])       # it is in the list of constraints
    return W


def count(c, name, n, per):
    """Number of entries made by the first k items, per(k) by item k."""
    P = c.ex.lib.fn(name, I, I)
    c.facts(name, lambda k: [P(z3.IntVal(0)) == 0, z3.Implies(k >= 0, AND(P(k + 1) == P(k) + per(k), P(k) >= 0))])
    return P


def appended(c, lst, k0, plans):
    """Invariant of a loop over lst that appends to lists: plans = [(count, per item, [(condition of item k0, offset, value)])]."""
    def cands(ex, entry, st, k):
        out = []
        for key in ex.grown:
            n = c.L.sel(ex.h(st, key + "#0", I), NONE); con = c.L.sel(ex.h(st, key, z3.ArraySort(I, R)), NONE)
            for P, per, vals in plans:
                out.append(n == P(k))
                for cond, off, v in vals: out.append(z3.Implies(AND(k > k0, cond), c.L.sel(con, P(k0) + off) == v))
        for P, per, vals in plans: out.append(z3.Implies(k > k0, P(k) >= P(k0) + per(k0)))
        return out
    lst.inv = (cands, lambda e, a, b: [])


def vector(c, W, x, i, j):
    """Each variable has its part of the decision vector."""
    V = W["variables"]
    vi = V["at"](i); at_ = lambda m: c.ex.rd(c.st, x, m)
    c.ensure("a variable is given its part of the decision vector", z3.Implies(AND(j >= 0, j < W["nd"](vi)), W["given"]("double", vi, j) == at_(W["vm"](i) + j)))
    c.ensure("as many values as it has", z3.Implies(W["nd"](vi) > 0, W["n_given"]("double", vi) == W["nd"](vi)))
    rnd = c.ex.lib.fn("round!", R, R)(at_(W["vm"](i) + W["nd"](vi) + j)); integer_ = ITE(rnd >= 0, z3.ToInt(rnd), -z3.ToInt(-rnd))
    c.ensure("its integers are those after its reals, rounded", z3.Implies(AND(j >= 0, j < W["ni"](vi)), W["given"]("integer", vi, j) == integer_))
    c.ensure("as many integers as it has", z3.Implies(W["ni"](vi) > 0, W["n_given"]("integer", vi) == W["ni"](vi)))


@contract("P28", f"{PG}:PygmoWrapper.fitness")
def fitness(c):
    W = world(c, "PygmoWrapper")
    V, C = W["variables"], W["constraints"]
    i, j, k0, o0 = c.idx("i", V["n"]), c.free("j", I), c.idx("k0", C["n"]), c.idx("o0", W["objectives"]["n"])
    x = c.array("solution", W["vm"](V["n"]), "double")
    at = C["at"]; t0 = at(k0); one = z3.IntVal(1); zero = z3.IntVal(0)
    ne = lambda k: ITE(W["eq"](at(k)), one, zero); nq = lambda k: ITE(W["eq"](at(k)), zero, ITE(W["dbl"](at(k)), one * 2, one))
    PE, PQ = count(c, "equalities", C["n"], ne), count(c, "inequalities", C["n"], nq)
    v, lb, ub = W["value"](t0), W["lb"](t0), W["ub"](t0)
    appended(c, C["list"], k0, [(PE, ne, [(W["eq"](t0), 0, v - lb)]),
                                (PQ, nq, [(W["dbl"](t0), 0, lb - v), (W["dbl"](t0), 1, v - ub), (W["lo"](t0), 0, lb - v), (W["up"](t0), 0, v - ub)])])
    c.call(x)
    vector(c, W, x, i, j)
    o = W["objectives"]["at"](o0); no = W["objectives"]["n"]; n = C["n"]
    r = lambda m: real(c.ret_at(m))
    c.ensure("objectives come first, in order, to be minimised", r(o0) == ITE(W["minimise"](o), W["value"](o), -W["value"](o)))
    c.ensure("then equality constraints as the distance from the bound", z3.Implies(W["eq"](t0), r(no + PE(k0)) == v - lb))
    q = no + PE(n) + PQ(k0)
    c.ensure("then lower bounds, met when not above zero", z3.Implies(OR(W["dbl"](t0), W["lo"](t0)), r(q) == lb - v))
    c.ensure("then upper bounds, met when not above zero", z3.Implies(OR(W["dbl"](t0), W["up"](t0)), r(q + ITE(W["dbl"](t0), one, zero)) == v - ub))
    c.ensure("as many numbers as announced", c.ret.dims[0] == no + PE(n) + PQ(n))


def slots(c, name, **sorts):
    """An array of records that the code fills by index: ghost arrays, one per field."""
    ids = {}
    for nm, so in sorts.items():
        i = ids[nm] = c.ex.newid(); c.st.arrs[i] = z3.Const(f"{name}_{nm}", z3.ArraySort(I, so))
    def put(e, st, o, a, k):
        v = a[1]
        for nm in ids: st.arrs[ids[nm]] = z3.Store(st.arrs[ids[nm]], a[0].t, v.fields[nm](st))
        return NoneV()
    o = thing(c, name, __setitem__=put)
    return o, lambda st, nm, i: c.L.sel(st.arrs[ids[nm]], i)


def problem(c, **attrs):
    h = thing(c, "Problem")
    for a, v in attrs.items(): c.ex.side["attr"]["Problem." + a] = v
    c.ex.side["attr"]["PlatypusWrapper.problem"] = h


def number(e, st, v):
    """A number that may not be absent (an obligation)."""
    if isinstance(v, Opt):
        e.oblige("a bound that is there", st, NOT(v.none)); v = v.v
    return real(e.num(v))


def int_locals(entry, st):
    """The whole numbers carried through a loop, whatever they are called."""
    names = [n for n, v in entry.loc.items() if isinstance(v, S) and v.ty == "int" and v.t.sort() == I]
    return [st.loc[n].t if isinstance(st.loc[n], S) else z3.IntVal(-1) for n in names]


@contract("P28", f"{PL}:PlatypusWrapper._make_variables")
def make_variables(c):
    W = world(c, "PlatypusWrapper")
    V = W["variables"]; i, j = c.idx("i", V["n"]), c.free("j", I)
    s = c.ex.side
    s["ext"]["platypus.Real"] = lambda e, st, a, k: Fn("record", fields=dict(lo=lambda st, x=number(e, st, a[0]): x, hi=lambda st, x=number(e, st, a[1]): x))
    types, at = slots(c, "Types", lo=R, hi=R)
    problem(c, types=types)
    vm, nd, ni = W["vm"], W["nd"], W["ni"]; t = V["at"](i)
    def slot(st, size, off, f, so):
        b = [W[f"{w}_{f}"](t, j) for w in ("lower", "upper")]
        return z3.Implies(AND(j >= 0, j < size), AND(*[at(st, nm, vm(i) + off + j) == real(x) for nm, x in zip(("lo", "hi"), b)]))
    posts = lambda st: [slot(st, nd(t), 0, "doubles", R), slot(st, ni(t), nd(t), "integers", I)]
    V["list"].inv = (lambda e, entry, st, k: [x == vm(k) for x in int_locals(entry, st)] + [z3.Implies(k > i, p) for p in posts(st)] + [z3.Implies(k > i, AND(vm(k) >= vm(i + 1), vm(i + 1) == vm(i) + nd(t) + ni(t)))], lambda e, a, b: [])
    c.call(V["list"])
    for nm, p in zip(("real values", "integers, after the reals,"), posts(c.post)): c.ensure(f"a variable's {nm} are declared with their bounds in its part of the decision vector", p)


@contract("P28", f"{PL}:PlatypusWrapper._make_constraints")
def make_constraints(c):
    W = world(c, "PlatypusWrapper")
    C = W["constraints"]; k0 = c.idx("k0", C["n"]); t0 = C["at"](k0)
    def con(e, st, a, k): return Fn("record", fields=dict(op=lambda st, x=a[0].t: x, value=lambda st, x=number(e, st, k["value"] if "value" in k else a[1]): x))
    c.ex.side["ext"]["platypus.Constraint"] = con
    slots_, at = slots(c, "Slots", op=I, value=R)
    problem(c, constraints=slots_)
    one = z3.IntVal(1); n_ = lambda k: ITE(W["dbl"](C["at"](k)), one * 2, one)
    P = count(c, "slots_before", C["n"], n_)
    is_ = lambda st, off, op, v: AND(at(st, "op", P(k0) + off) == c.L.strcode(op), at(st, "value", P(k0) + off) == v)
    posts = lambda st: [z3.Implies(OR(W["dbl"](t0), W["lo"](t0)), is_(st, 0, ">=", W["lb"](t0))),
                        z3.Implies(OR(W["dbl"](t0), W["up"](t0)), is_(st, ITE(W["dbl"](t0), one, one - 1), "<=", W["ub"](t0))),
                        z3.Implies(W["eq"](t0), is_(st, 0, "==", W["lb"](t0)))]
    C["list"].inv = (lambda e, entry, st, k: [x == P(k) for x in int_locals(entry, st)] + [z3.Implies(k > k0, AND(P(k) >= P(k0) + n_(k0), p)) for p in posts(st)], lambda e, a, b: [])
    c.call(C["list"])
    for nm, p in zip(("a lower bound is", "an upper bound is", "an equality is"), posts(c.post)): c.ensure(f"{nm} a constraint of its own, in the declared order", p)


@contract("P28", f"{PL}:count_constraints")
def count_constraints(c):
    W = world(c, "PlatypusWrapper", False)
    C = W["constraints"]; one = z3.IntVal(1); n_ = lambda k: ITE(W["dbl"](C["at"](k)), one * 2, one)
    c.call(C["list"])
    c.ensure_ret("two for a recorder bounded on both sides, else one", c.fold(C["n"], z3.IntVal(0), lambda k, a: a + n_(k)))


def evaluated(some):
    @contract("P28", f"{PL}:PlatypusWrapper.evaluate", label="PlatypusWrapper.evaluate" + ("" if some else ", no constraints"))
    def evaluate(c):
        W = world(c, "PlatypusWrapper")
        V, C = W["variables"], W["constraints"]; c.require(C["n"] > 0 if some else C["n"] == 0)
        i, j, o0 = c.idx("i", V["n"]), c.free("j", I), c.idx("o0", W["objectives"]["n"])
        k0 = c.idx("k0", C["n"]) if some else None
        x = c.array("solution", W["vm"](V["n"]), "double")
        if some:
            one = z3.IntVal(1); t0 = C["at"](k0); nq = lambda k: ITE(W["dbl"](C["at"](k)), one * 2, one)
            PQ = count(c, "values_before", C["n"], nq); v = W["value"](t0)
            appended(c, C["list"], k0, [(PQ, nq, [(TRUE, 0, v), (W["dbl"](t0), 1, v)])])
        c.call(x)
        vector(c, W, x, i, j)
        ret = c.ret.items if some else [c.ret]
        o = W["objectives"]["at"](o0)
        c.ensure("objectives in order, to be minimised", real(c.ex.rd(c.post, ret[0], o0)) == ITE(W["minimise"](o), W["value"](o), -W["value"](o)))
        c.ensure("as many objectives as declared", ret[0].dims[0] == W["objectives"]["n"])
        if some:
            r = lambda m: real(c.ex.rd(c.post, ret[1], m))
            c.ensure("constraints in order", r(PQ(k0)) == v)
            c.ensure("twice for one bounded on both sides", z3.Implies(W["dbl"](t0), r(PQ(k0) + 1) == v))
            c.ensure("as many constraints as declared", ret[1].dims[0] == PQ(C["n"]))


for some in (True, False): evaluated(some)


def counted(name, per):
    @contract("P28", f"{PG}:PygmoWrapper.{name}")
    def f(c):
        W = world(c, "PygmoWrapper"); C = W["constraints"]
        c.call()
        c.ensure_ret("the number of them", per(c, W, C))


summed = lambda p: lambda c, W, C: c.fold(C["n"], z3.IntVal(0), lambda k, a: a + p(W, C["at"](k)))
counted("get_nobj", lambda c, W, C: W["objectives"]["n"])
counted("get_nec", summed(lambda W, t: ITE(W["eq"](t), z3.IntVal(1), z3.IntVal(0))))
counted("get_nic", summed(lambda W, t: ITE(W["dbl"](t), z3.IntVal(2), ITE(W["eq"](t), z3.IntVal(0), z3.IntVal(1)))))


def cached(every):
  @contract("P28", f"{OP}:cache_variable_parameters", label="cache_variable_parameters" + (", every variable with values" if every else ""))
  def cached_variables(c):
      W = world(c, "PlatypusWrapper", False); V = W["variables"]
      k0 = c.idx("k0", V["n"]); size = lambda k: W["nd"](V["at"](k)) + W["ni"](V["at"](k))
      c.ex.side["growing"] = "Parameter"
      c.ex.side["attr"]["Model.variables"] = lambda e, st, o: V["list"]
      vm = W["vm"]
      V["list"].inv = (lambda e, entry, st, k: cached_cands(c, W, e, st, k, k0, V, vm), lambda e, a, b: [])
      if every: c.require(NOT(c.any(V["n"], lambda k: size(k) <= 0)))      # then it is not refused
      else: c.may_raise("ValueError")
      c.call(W["model"])
      vs, m = c.ret.items
      c.ensure("every variable in the model's order", AND(vs.dims[0] == V["n"], c.ex.rd(c.post, vs, k0) == V["at"](k0)))
      c.ensure("each with the part of the vector after the previous one's", AND(m.dims[0] == V["n"] + 1, c.ex.rd(c.post, m, k0) == vm(k0), c.ex.rd(c.post, m, k0 + 1) == vm(k0) + size(k0)))
      c.ensure("a variable without values is refused", size(k0) > 0)


for every in (True, False): cached(every)


def cached_cands(c, W, ex, st, k, k0, V, vm):
    out = [z3.Implies(k > k0, W["nd"](V["at"](k0)) + W["ni"](V["at"](k0)) > 0)]
    for key in ex.grown:
        n = c.L.sel(ex.h(st, key + "#0", I), NONE)
        con = st.heap.get(key)
        out += [n == k, n == k + 1]
        if con is None: continue
        so = con.sort().range().range()
        at = lambda i: c.L.sel(c.L.sel(con, NONE), i)
        if so == I: out += [z3.Implies(k >= k0, at(k0) == vm(k0)), z3.Implies(k > k0, at(k0 + 1) == vm(k0 + 1)), at(k) == vm(k)]
        if so == Ref: out.append(z3.Implies(k > k0, at(k0) == V["at"](k0)))
    return out


def listed_contract(name, attr):
    @contract("P28", f"{OP}:{name}")
    def f(c):
        W = world(c, "PlatypusWrapper", False); L_ = W[attr]; k0 = c.idx("k0", L_["n"])
        c.ex.side["growing"] = "Recorder"
        c.ex.side["attr"]["Model." + attr] = lambda e, st, o: L_["list"]
        c.call(W["model"])
        c.ensure("every one in the model's order", AND(c.ret.dims[0] == L_["n"], c.ex.rd(c.post, c.ret, k0) == L_["at"](k0)))


for name, attr in (("cache_constraints", "constraints"), ("cache_objectives", "objectives")): listed_contract(name, attr)
