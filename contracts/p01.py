"""P01: the linear programme given to GLPK.

Ghost state: what the calls into GLPK have put into the problem (row bounds, matrix rows, objective).  GLPK itself is trusted to solve it."""
from common import *
import front

M = "pywr.solvers.cython_glpk"
EPS = z3.RealVal("1/100000000")
GLP = dict(GLP_FR=1, GLP_LO=2, GLP_UP=3, GLP_DB=4, GLP_FX=5, GLP_OPT=5, GLP_ON=1, GLP_OFF=0, GLP_MSG_DBG=4)


def small(x): return AND(x < EPS, -x < EPS)
def clean(x): return ITE(small(x), z3.RealVal(0), x)
def cap(x): return ITE(x == INF, DBL_MAX, ITE(x == -INF, -DBL_MAX, x))


def lower(kind, lb): return ITE(OR(kind == GLP["GLP_FR"], kind == GLP["GLP_UP"]), -INF, lb)
def upper(kind, lb, ub): return ITE(OR(kind == GLP["GLP_FR"], kind == GLP["GLP_LO"]), INF, ITE(kind == GLP["GLP_FX"], lb, ub))


def lp(c):
    """The ghost problem and the calls that change it."""
    n = c.ex.side["names"]
    for k, v in GLP.items(): n[k] = lambda e, st, v=v: S(z3.IntVal(v), "int")
    mk = lambda h: (lambda e, st: Fn("handled", h=lambda e, st, o, a, k: h(e, st, *a) or NoneV(), obj=None))
    g = {}
    for nm, ty in dict(kind="int", lb="double", ub="double", obj="double").items():
        i = c.ex.newid(); c.st.arrs[i] = z3.Const("lp_" + nm, z3.ArraySort(I, R if ty == "double" else I))
        g[nm] = A(ty, [z3.IntVal(2 ** 40)], ("L", i))

    def row_bnds(e, st, P, i, kind, lb, ub):
        for a, v in (("kind", kind), ("lb", lb), ("ub", ub)): put(e, st, a, i, v)

    def put(e, st, a, i, v):
        x = g[a]; t = v.t
        if x.ty == "double": t = real(t)
        e.set_base(st, x, z3.Store(e.base_term(st, x), i.t, t))
    n["glp_set_row_bnds"] = mk(row_bnds)
    n["glp_set_obj_coef"] = mk(lambda e, st, P, j, v: put(e, st, "obj", j, v))
    n["glp_set_mat_row"] = mk(lambda e, st, P, i, m, ind, val: put_row(e, st, i, m, ind, val))
    for nm, so in dict(mlen=I, mind=z3.ArraySort(I, I), mval=z3.ArraySort(I, R)).items():
        i = c.ex.newid(); c.st.arrs[i] = z3.Const("lp_" + nm, z3.ArraySort(I, so)); g[nm] = i

    def put_row(e, st, i, m, ind, val):
        p = c.L.placeholder("p", I)
        st.arrs[g["mlen"]] = z3.Store(st.arrs[g["mlen"]], i.t, m.t)
        for nm, a in (("mind", ind), ("mval", val)):
            st.arrs[g[nm]] = z3.Store(st.arrs[g[nm]], i.t, c.L.lam([p], e.rd(st, a, p)))
    c.mat = lambda nm, i, *p, st=None: c.L.sel(c.L.sel((st or c.post).arrs[g[nm]], i), *p) if p else c.L.sel((st or c.post).arrs[g[nm]], i)
    n["setjmp"] = lambda e, st: Fn("handled", h=lambda e, st, o, a, k: S(z3.IntVal(0), "int"), obj=None)
    c.ex.assumed.add("GLPK does not call its error hook (setjmp returns 0): its own internal checks are not modelled")
    n["error_ctx"] = lambda e, st: Opaque("error_ctx")
    n["glpk_error_msg"] = lambda e, st: Opaque("message")
    ret = lambda f: (lambda e, st: Fn("handled", h=lambda e, st, o, a, k: f(e, st, *a), obj=None))
    gs = lambda st, k, so: c.ex.h(st, "ghost." + k, so)
    def ghost(st, k, so=I): return c.L.sel(gs(st, k, so), c.self.t)
    c.ghost = ghost
    def simplex(e, st, P, p):
        n_ = ghost(st, "solves") + 1
        st.heap["ghost.solves"] = z3.Store(gs(st, "solves", I), c.self.t, n_)
        return S(e.lib.fn("simplex_returned", I, I)(n_), "int")       # arbitrary outcome of this solve
    n["glp_simplex"] = ret(simplex)
    n["glp_get_status"] = ret(lambda e, st, P: S(c.ex.lib.fn("lp_status", I, I)(ghost(st, "solves")), "int"))
    n["glp_get_col_prim"] = ret(lambda e, st, P, j: S(c.ex.lib.fn("solution", I, I, R)(ghost(st, "solves"), j.t), "double"))
    n["glp_std_basis"] = ret(lambda e, st, P: NoneV())
    c.at = lambda a, i, st=None: c.L.sel(c.ex.base_term(st or c.post, g[a]), i)
    return g


for cls in ("CythonGLPKSolver", "CythonGLPKEdgeSolver"):
    pass


@contract("P01", f"{M}:constraint_type")
def kind(c):
    lp(c)
    a, b = c.double("a"), c.double("b")
    c.call(a, b)
    k = c.ret.t
    lo, hi = lower(k, a.t), upper(k, a.t, b.t)
    c.ensure("the lower bound is the one given", lo == ITE(a.t == -DBL_MAX, ITE(small(a.t - b.t), a.t, -INF), a.t))
    c.ensure("the upper bound is the one given", OR(hi == b.t, small(hi - b.t), AND(b.t == DBL_MAX, hi == INF)))
    c.ensure("an unlimited value is no bound", z3.Implies(AND(b.t == DBL_MAX, NOT(small(a.t - b.t))), hi == INF))


# ---- what setup() leaves behind ---------------------------------------------------------------------------------------------------------
def listed(c, name, cls, mod=None):
    """An arbitrary list of distinct objects, with an inverse of its enumeration."""
    n = c.free(f"n_{name}", I); c.require(n >= 0)
    f = c.ex.lib.fn(f"{name}_at", I, Ref)
    c.ex.side.setdefault("injective", set()).add(f"{name}_at")
    c.L.injective[f"{name}_at_inv"] = f"{name}_at"
    k = c.P.find_class(cls, mod)
    def at(i):
        t = f(i); c.L.keep.append(t); c.ex.known_class[t.get_id()] = (k, False)
        return t
    return dict(n=n, at=at, cls=k, name=name, list=A(k.name, [n], ("G", lambda s, i: at(i)), None, True))


def pure(q): q.pure = True; return q


def thing(c, name, **methods):
    """An object of which only the given methods are used."""
    k = front.Class(name, [], M)
    for m, h in methods.items(): c.ex.side["methods"][f"{name}.{m}"] = h
    o = c.new_obj("the_" + name, k, exact=True)
    return lambda e, st, x: o


def world(c, save=False):
    """A problem as setup() leaves it: blocks of rows that do not overlap, nodes numbered without repetition."""
    lp(c)
    s, e = c.ex.side, c.ex
    cls = c.self.cls.name
    W = {}
    for nm, kl, mod in (("priced", "AbstractNode", None), ("bounded", "Node", "pywr._core"), ("aggregated", "AggregatedNode", "pywr._core"), ("factored", "AggregatedNode", "pywr._core"),
                        ("stores", "Storage", "pywr._core"), ("virtual", "VirtualStorage", "pywr._core"), ("all_nodes", "AbstractNode", None)):
        W[nm] = listed(c, nm, kl, mod)
    for attr, nm in (("nodes_with_dynamic_cost", "priced"), ("non_storages_with_dynamic_bounds", "bounded"), ("aggregated", "aggregated"),
                     ("aggregated_with_dynamic_factors", "factored"), ("storages", "stores"), ("virtual_storages", "virtual"), ("all_nodes", "all_nodes")):
        s["attr"][f"{cls}.{attr}"] = lambda e, st, o, nm=nm: W[nm]["list"]
    s["attr"][f"{cls}.non_storages"] = lambda e, st, o: Opaque("non_storages")
    s["attr"][f"{cls}.prob"] = lambda e, st, o: Opaque("prob")
    s["attr"][f"{cls}.smcp"] = thing(c, "Smcp"); s["ignore"].add("Smcp.msg_lev")
    for f in ("glp_write_mps", "glp_write_lp"): s["names"][f] = lambda e_, st: Fn("handled", h=lambda *a: NoneV(), obj=None)
    for f in ("NULL", "GLP_MPS_FILE"): s["names"][f] = lambda e_, st: Opaque("constant")
    s["attr"][f"{cls}.stats"] = thing(c, "Stats", __getitem__=lambda e, st, o, a, k: S(c.free("a_duration", R), "double"), __setitem__=lambda e, st, o, a, k: NoneV())
    s["ext"]["time.perf_counter"] = lambda e, st, a, k: S(c.free("a_time", R), "double")
    s["attr"][f"{cls}.basis_manager"] = thing(c, "Basis", set_basis=lambda e, st, o, a, k: NoneV(), save_basis=lambda e, st, o, a, k: NoneV())
    # the network
    nr = W["routes"] = c.free("n_routes", I); c.require(nr >= 1)
    rlen, rat = e.lib.fn("route_len", I, I), e.lib.fn("route_at", I, I, Ref)
    W["rlen"], W["rat"] = rlen, rat
    an = c.P.find_class("AbstractNode", "pywr._core")
    def node(t):
        c.L.keep.append(t); c.ex.known_class[t.get_id()] = (an, False); return t
    s["attr"]["CythonGLPKSolver.routes"] = lambda e, st, o: pure(Seq(nr, lambda k, s_: A("AbstractNode", [rlen(k)], ("G", lambda s2, m: node(rat(k, m))), None, True)))
    ends = e.lib.fn("edge_from", I, Ref), e.lib.fn("edge_to", I, Ref)
    W["ends"] = ends
    s["attr"]["CythonGLPKEdgeSolver.all_edges"] = lambda e, st, o: pure(Seq(nr, lambda k, s_: T([O(node(f(k)), an) for f in ends])))
    s["attr"]["CythonGLPKSolver.num_routes"] = s["attr"]["CythonGLPKEdgeSolver.num_edges"] = lambda e, st, o: S(nr, "int")
    s["attr"][f"{cls}.num_nodes"] = lambda e, st, o: S(W["all_nodes"]["n"], "int")
    # what is cached per node: its number and its row
    def numbered(name):
        f = e.lib.fn(name, I, I); s["injective"].add(name); c.L.injective[name + "_inv"] = name
        return f
    W["id_priced"], W["row_bounded"] = numbered("id_of_priced"), numbered("row_of_bounded")
    pos = W["pos"] = e.lib.fn("number_of_node", Ref, I)
    data = e.lib.fn("data_of", Ref, Ref)
    adc = c.P.modules[M].classes["AbstractNodeData"]
    def data_of(e_, st, o):
        t = data(o.t); c.L.keep.append(t); e.known_class[t.get_id()] = (adc, True); return O(t, adc, True)
    s["attr"]["AbstractNode.__data"] = data_of
    def owner(t): return t.arg(0) if z3.is_app(t) and t.decl().name() == "data_of" else None
    def num(e_, st, o):
        x = owner(o.t); nm = x.decl().name() if z3.is_app(x) else ""
        return S(W["id_priced"](x.arg(0)) if nm == "priced_at" else x.arg(0) if nm == "all_nodes_at" else pos(x), "int")
    s["attr"]["AbstractNodeData.id"] = num
    def row(e_, st, o):
        x = owner(o.t)
        if not (z3.is_app(x) and x.decl().name() == "bounded_at"): raise Unsupported("row of a node")
        return S(W["row_bounded"](x.arg(0)), "int")
    s["attr"]["AbstractNodeData.row"] = row
    link = W["is_link"] = e.lib.fn("is_link", Ref, B)
    s["attr"]["AbstractNodeData.is_link"] = lambda e_, st, o: S(link(owner(o.t)), "bint")
    for a, ty in (("node_costs_arr", "double[1]"), ("node_flows_arr", "double[1]"), ("edge_fixed_cost_arr", "double[1]"), ("edge_cost_arr", "double[1]"), ("edge_flows_arr", "double[1]")):
        s["types"][f"{cls}.{a}"] = ty
    factors(c, W)
    for a in ("in_edges", "out_edges"):
        n_, f_ = e.lib.fn("n_" + a, Ref, I), e.lib.fn(a, Ref, I, I); W[a] = (n_, f_)
        s["attr"]["AbstractNodeData." + a] = lambda e_, st, o, n_=n_, f_=f_: A("int", [n_(owner(o.t))], ("G", lambda s2, m: f_(owner(o.t), m)), None, True)
        c.facts(a, lambda t, m, n_=n_, f_=f_: [AND(f_(t, m) >= 0, f_(t, m) < nr)])
        c.facts("n_" + a, lambda t, n_=n_: [n_(t) >= 0])
    W["ts"] = c.ts()
    s["attr"]["Model.timestep"] = lambda e, st, o: W["ts"]
    W["model"] = c.new_obj("model", "Model")
    # sizes and numbers handed out by setup()
    na = W["all_nodes"]["n"]
    own = lambda a, n, d=0: c.rule(f"{cls}.{a}#{d}", lambda ref: n if ref.get_id() == c.self.t.get_id() else None)
    for a in ("node_costs_arr", "node_flows_arr"): own(a, na)
    for a in ("edge_fixed_cost_arr", "edge_cost_arr", "edge_flows_arr"): own(a, nr)
    W["n_comb"] = e.ncomb
    own("route_flows_arr", nr, 1 if save else 0)
    if save: own("route_flows_arr", e.ncomb, 0)
    rptr, rnode = W["rptr"], W["rnode"] = e.lib.fn("routes_cost_indptr", I, I), e.lib.fn("routes_cost", I, I)
    s["attr"]["CythonGLPKSolver.routes_cost_indptr"] = lambda e_, st, o: A("int", [nr + 1], ("G", lambda s2, m: rptr(m)))
    s["attr"]["CythonGLPKSolver.routes_cost"] = lambda e_, st, o: A("int", [rptr(nr)], ("G", lambda s2, m: rnode(m)))
    within = lambda x: AND(x >= 0, x < na)
    c.facts("routes_cost_indptr", lambda k: [AND(rptr(k) >= 0, rptr(k) <= rptr(nr))])
    c.facts("routes_cost", lambda k: [within(rnode(k))])
    c.facts("id_of_priced", lambda t: [within(W["id_priced"](t))])
    c.facts("number_of_node", lambda t: [within(pos(t))])
    # values of the nodes in this timestep and scenario (their own contracts say what they are)
    W["si"] = c.si(); g = W["g"] = c.gid(W["si"])
    def getter(name):
        f = c.ex.lib.fn("now_" + name, Ref, I, R)
        def h(e, st, o, a, k):
            e.oblige(f"{name}: of this scenario", st, a[0].t == W["si"].t)
            return S(f(o.t, g), "double")
        s["methods"][f"AbstractNode.{name}"] = h
        return lambda t: f(t, g)
    for m in ("get_cost", "get_min_flow", "get_max_flow", "get_min_volume", "get_max_volume"): W[m] = getter(m)
    def commit(e_, st, o, a, k):
        e.oblige("commit: of this scenario", st, a[0].t == g)
        st.heap["ghost.committed"] = z3.Store(e.h(st, "ghost.committed", R), o.t, real(a[1].t))
        return NoneV()
    s["methods"]["AbstractNode.commit"] = commit
    # blocks of rows handed out by GLPK one after the other
    at = W["row"] = lambda b: c.old.get(c.self, "idx_row_" + b)
    nb = c.free("n_non_storages", I); W["n_rows"] = nb
    N, A_, S_, V = at("non_storages"), at("aggregated_min_max"), at("storages"), at("virtual_storages")
    size = {"non_storages": (N, nb), "aggregated_min_max": (A_, W["aggregated"]["n"]), "storages": (S_, W["stores"]["n"]), "virtual_storages": (V, W["virtual"]["n"])}
    blocks = list(size.values())
    for i, (x, n) in enumerate(blocks):
        for y, m in blocks[:i]: c.require(OR(n == 0, m == 0, x + n <= y, y + m <= x))
    return W


def factors(c, W):
    """Aggregated nodes with ratios: one row per member after the first, its entries cached in one array per node."""
    s, e = c.ex.side, c.ex
    s["types"].update({"AggNodeFactorData.ind_ptr": "int[1]", "AggNodeFactorData.inds": "int[1]", "AggNodeFactorData.vals": "double[1]"})
    afd = c.P.modules[M].classes["AggNodeFactorData"]
    fdata = e.lib.fn("factor_data_of", Ref, Ref); s["injective"].add("factor_data_of"); c.L.injective["factor_data_of_inv"] = "factor_data_of"
    def fdata_of(e_, st, o):
        t = fdata(o.t); c.L.keep.append(t); e.known_class[t.get_id()] = (afd, True); return O(t, afd, True)
    s["attr"]["AggregatedNode.__agg_factor_data"] = fdata_of
    nn = e.lib.fn("n_members", Ref, I)
    s["attr"]["AggregatedNode.nodes"] = lambda e_, st, o: A("Node", [nn(o.t)], ("G", lambda s2, m: e.lib.fn("member", Ref, I, Ref)(o.t, m)), None, True)
    norm = e.lib.fn("factor_norm", Ref, I, R)
    def norms(e_, st, o, a, k):
        e.oblige("get_factors_norm: of this scenario", st, a[0].t == W["si"].t)
        return A("double", [nn(o.t)], ("G", lambda s2, m: norm(o.t, m)), None, False)
    s["methods"]["AggregatedNode.get_factors_norm"] = norms
    ptr, size, first, row = e.lib.fn("factor_ptr", Ref, I, I), e.lib.fn("factor_size", Ref, I), e.lib.fn("factor_first", Ref, I), e.lib.fn("factor_row", Ref, I)
    def of(f): return lambda ref: f(ref.arg(0)) if z3.is_app(ref) and ref.decl().name() == "factor_data_of" else None
    pp = c.L.placeholder("p", I)
    for a, f in (("ind_ptr", lambda t: c.L.lam([pp], ptr(t, pp))), ("ind_ptr#0", nn), ("inds#0", size), ("vals#0", size), ("node_ind", first), ("row", row)): c.rule("AggNodeFactorData." + a, of(f))
    f0 = W["factored"]; k0, n0, p0 = c.idx("k0", f0["n"]), c.free("n0", I), c.free("p0", I)
    t0 = f0["at"](k0); c.require(n0 >= 0, n0 < nn(t0) - 1, p0 >= 1, p0 < ptr(t0, n0 + 1) - ptr(t0, n0))
    def layout(t, n):
        return [z3.Implies(AND(n >= 0, n < nn(t)), AND(ptr(t, n) >= 0, ptr(t, n) <= size(t))),
                z3.Implies(AND(n >= 0, n < nn(t) - 1), AND(first(t) >= 1, ptr(t, n) + first(t) <= ptr(t, n + 1), ptr(t, n + 1) <= size(t))),
                z3.Implies(AND(t == t0, n >= 0, n < n0), ptr(t, n + 1) <= ptr(t0, n0)), z3.Implies(AND(t == t0, n > n0, n < nn(t)), ptr(t, n) >= ptr(t0, n0 + 1))]
    c.facts("factor_ptr", layout)
    c.facts("factor_row", lambda t: [OR(t == t0, row(t) + nn(t) - 1 <= row(t0), row(t0) + nn(t0) - 1 <= row(t))])
    c.facts("n_members", lambda t: [nn(t) >= 1])
    d0 = fdata(t0); at = row(t0) + n0; q = ptr(t0, n0) + p0
    inds0, vals0 = [c.ex.h(c.st, "AggNodeFactorData." + x, z3.ArraySort(I, so)) for x, so in (("inds", I), ("vals", R))]
    cell = lambda h, *i: c.L.sel(c.L.sel(h, d0), *i)
    v0 = cell(vals0, q)
    row_is = lambda st: [c.mat("mlen", at, st=st) == ptr(t0, n0 + 1) - ptr(t0, n0) - 1, c.mat("mind", at, p0, st=st) == cell(inds0, q),
                         c.mat("mval", at, p0, st=st) == ITE(p0 >= first(t0), -norm(t0, n0 + 1), v0)]
    W["factor_row"] = row_is
    f0["list"].inv = (lambda e_, entry, st, k: [z3.Implies(k > k0, x) for x in row_is(st)] + [z3.Implies(k <= k0, cell(e.h(st, "AggNodeFactorData.vals", z3.ArraySort(I, R)), q) == v0)],
                      lambda e_, a, b: [])


def bounded(kind, lb, ub, mn_, mx_):
    """The bounds of a row are the given ones; beyond the largest number there is no bound."""
    lo, hi = lower(kind, lb), upper(kind, lb, ub)
    return AND(OR(lo == mn_, AND(mn_ == -DBL_MAX, lo == -INF)), OR(hi == mx_, small(hi - mx_), AND(mx_ == DBL_MAX, hi == INF)))


def solver(cls, save):
    @contract("P01", f"{M}:{cls}._solve_scenario", label=f"{cls}._solve_scenario" + (", route flows kept" if save else ""))
    def bounds(c):
        W = world(c, save); c.ex.side["decide"] = True
        if cls == "CythonGLPKSolver":
            c.ex.side["types"][f"{cls}.route_flows_arr"] = "double[2]" if save else "double[1]"
            k = c.old.get(c.self, "save_routes_flows"); c.require(k if save else NOT(k))
        i, j, k, a = c.idx("i", W["stores"]["n"]), c.idx("j", W["virtual"]["n"]), c.idx("k", W["bounded"]["n"]), c.idx("a", W["aggregated"]["n"])
        rk = W["row_bounded"](k); c.require(rk >= 0, rk < W["n_rows"])
        old, g, days = c.old, W["g"], c.old.get(W["ts"], "days")
        row = {b: W["row"](b) for b in ("non_storages", "aggregated_min_max", "storages", "virtual_storages")}
        vol = lambda t, k_: old.get(O(t, c.P.find_class(k_, "pywr._core")), "_volume", g)
        c.may_raise("GLPKError"); c.may_raise("RuntimeError")
        nr, na = W["routes"], W["all_nodes"]["n"]
        p, r, z = c.idx("p", W["priced"]["n"]), c.idx("r", nr), c.idx("z", na)
        active = lambda t: c.ex.truth(c.ex.getattr(c.st, O(t, c.P.find_class("VirtualStorage", "pywr._core")), "active"))
        V = W["virtual"]["at"](j); act = active(V)
        c.call(W["model"], W["si"])
        at = lambda r: [c.at(x, r) for x in ("kind", "lb", "ub")]

        def volumes(t, v):
            lo, hi = W["get_min_volume"](t), W["get_max_volume"](t)
            z = z3.RealVal(0)
            return ITE(lo == hi, z, clean(-mx(v - lo, 0) / days)), ITE(lo == hi, z, clean(mx(hi - v, 0) / days))
        s = W["stores"]["at"](i)
        c.ensure("a storage's change is bounded by the water above its minimum and the space below its maximum", bounded(*at(row["storages"] + i), *volumes(s, vol(s, "Storage"))))
        v = at(row["virtual_storages"] + j)
        c.ensure("an active virtual storage's use is bounded by what is left and by its maximum", z3.Implies(act, bounded(*v, *volumes(V, vol(V, "VirtualStorage")))))
        c.ensure("an inactive virtual storage is unconstrained", z3.Implies(NOT(act), AND(lower(*v[:2]) <= -DBL_MAX, upper(*v) >= DBL_MAX)))
        flows = lambda t: (clean(cap(W["get_min_flow"](t))), clean(cap(W["get_max_flow"](t))))
        c.ensure("a node's flow is bounded by its current limits", bounded(*at(row["non_storages"] + rk), *flows(W["bounded"]["at"](k))))
        c.ensure("an aggregated node's flow is bounded by its current limits", bounded(*at(row["aggregated_min_max"] + a), *flows(W["aggregated"]["at"](a))))
        for nm, x in zip(("has one entry per way of the two members", "names the ways of the two members", "sets the flow of the member against the first by the current ratio"), W["factor_row"](c.post)):
            c.ensure(f"the row of a member of an aggregated node with changing factors {nm}", x)
        solved = c.ghost(c.post, "solves")
        flow = lambda x: c.ex.lib.fn("solution", I, I, R)(solved, x + 1)
        if cls == "CythonGLPKSolver":
            c.ensure("a node's cost is its current cost", c.new.get(c.self, "node_costs_arr", W["id_priced"](p)) == W["get_cost"](W["priced"]["at"](p)))
            total = c.sum(W["rptr"](r + 1) - W["rptr"](r), lambda m: c.new.get(c.self, "node_costs_arr", W["rnode"](W["rptr"](r) + m)))
            c.ensure("a route is priced by the costs of its nodes", c.at("obj", old.get(c.self, "idx_col_routes") + r) == clean(total))
            link = W["is_link"]
            counted = lambda x, m: OR(m == 0, m == W["rlen"](x) - 1, link(W["rat"](x, m)))
            through = lambda x: c.sum(W["rlen"](x), lambda m: ITE(AND(counted(x, m), W["pos"](W["rat"](x, m)) == z), flow(x), z3.RealVal(0)))
            if save: c.ensure("the flows of the routes are kept for the scenario", c.new.get(c.self, "route_flows_arr", g, r) == flow(r))
        else:
            def priced(k, acc):
                t = W["priced"]["at"](k); v = W["get_cost"](t); v = ITE(W["is_link"](t), v / 2, v)
                for n_, f_ in (W["in_edges"], W["out_edges"]): acc = c.fold(n_(t), acc, lambda m, acc_, f_=f_: ITE(f_(t, m) == r, acc_ + v, acc_))
                return acc
            c.ensure("an edge is priced by its fixed cost and the costs of the nodes it joins, half of a link's", c.at("obj", old.get(c.self, "idx_col_edges") + r) ==
                     c.fold(W["priced"]["n"], old.get(c.self, "edge_fixed_cost_arr", r), priced))
            half = lambda x: ITE(W["is_link"](W["ends"][x[0]](x[1])), flow(x[1]) / 2, flow(x[1]))
            through = lambda x: sum(ITE(W["pos"](W["ends"][q](x)) == z, half((q, x)), z3.RealVal(0)) for q in (0, 1))
        c.ensure("a node is given the flow of the ways that count for it", c.L.sel(c.ex.h(c.post, "ghost.committed", R), W["all_nodes"]["at"](z)) ==
                 c.sum(nr, lambda x: ITE(flow(x) == 0, z3.RealVal(0), through(x))))
        last = c.ghost(c.post, "solves")
        c.ensure("the flows are those of a problem solved to optimality", AND(c.ex.lib.fn("lp_status", I, I)(last) == GLP["GLP_OPT"], c.ex.lib.fn("simplex_returned", I, I)(last) == 0))


for cls, save in (("CythonGLPKSolver", False), ("CythonGLPKSolver", True), ("CythonGLPKEdgeSolver", False)): solver(cls, save)
