"""P01: flows committed after a solve against an independent linear programme (one variable per connection) solved with scipy."""
from netlib import *
from scipy.optimize import linprog
from pywr import _core as K
BaseInput, BaseOutput, BaseLink = K.BaseInput, K.BaseOutput, K.BaseLink


def oracle(m, si, vol):
    """Minimum of the total cost over all flows the network's limits allow, and the constraints as (name, {node: factor}, lb, ub)."""
    nodes = list(m.graph.nodes())
    dom = lambda a, b: isinstance(a, BaseOutput) and isinstance(b, BaseInput)
    edges = [(a, b) for a, b in m.graph.edges() if not dom(a, b)]
    E = len(edges); days = m.timestep.days
    flow = {}
    for nd in nodes:
        if not isinstance(nd, (BaseInput, BaseOutput, BaseLink)): continue
        v = np.zeros(E)
        for j, (a, b) in enumerate(edges):
            if (a is nd and isinstance(nd, BaseInput)) or (b is nd and not isinstance(nd, BaseInput)): v[j] += 1
        flow[nd] = v
    cons, eq, cost = [], [], np.zeros(E)
    for nd, v in flow.items():
        cost += v * nd.get_cost(si)
        cons.append((f"flow of {nd.fully_qualified_name}", {nd: 1.0}, nd.get_min_flow(si), nd.get_max_flow(si)))
        if isinstance(nd, BaseLink):
            out = np.array([1.0 if a is nd else 0.0 for a, b in edges]); eq.append(v - out)
    for a, b in m.graph.edges():
        if dom(a, b): eq.append(flow[a] - sum(flow[y] / y.get_conversion_factor() for x, y in m.graph.edges() if x is a and dom(x, y)))
    extra = []
    for nd in nodes:
        if isinstance(nd, K.VirtualStorage):
            if not nd.active: continue
            t = {}
            for x, f in zip(nd.nodes, nd.factors): t[x] = t.get(x, 0.0) - f
        elif isinstance(nd, K.Storage):
            t = {}
            for x in nd.outputs: t[x] = t.get(x, 0.0) + 1
            for x in nd.inputs: t[x] = t.get(x, 0.0) - 1
        elif isinstance(nd, K.AggregatedNode):
            t = {}
            for x, w in zip(nd.nodes, nd.flow_weights if nd.flow_weights is not None else [1.0] * len(nd.nodes)): t[x] = t.get(x, 0.0) + w
            cons.append((f"aggregated node {nd.name}", t, nd.get_min_flow(si), nd.get_max_flow(si)))
            if nd.factors is not None:
                f = nd.get_factors(si)
                for x, g in list(zip(nd.nodes, f))[1:]: cons.append((f"ratio in {nd.name}", {nd.nodes[0]: 1.0 / f[0], x: -1.0 / g}, 0.0, 0.0))
            continue
        else: continue
        lo, hi = nd.get_min_volume(si), nd.get_max_volume(si); v = vol[nd][si.global_id]
        b = (0.0, 0.0) if lo == hi else (-max(v - lo, 0.0) / days, max(hi - v, 0.0) / days)
        cons.append((f"change of {nd.name}", t, *b))
    A, lb, ub = [], [], []
    for _, t, lo, hi in cons:
        A.append(sum(flow[x] * f for x, f in t.items())); lb.append(lo); ub.append(hi)
    A, lb, ub = np.array(A).reshape(-1, E), np.array(lb), np.array(ub)
    k = np.isfinite(ub) & (ub < 1e300); q = np.isfinite(lb) & (lb > -1e300)
    r = linprog(cost, A_ub=np.vstack([A[k], -A[q]]), b_ub=np.concatenate([ub[k], -lb[q]]), A_eq=np.array(eq) if eq else None, b_eq=np.zeros(len(eq)) if eq else None, bounds=(0, None), method="highs")
    return r, cons, {nd: nd.get_cost(si) for nd in flow}


def compare(d, m, vol, flow):
    for si in m.scenarios.combinations:
        g = si.global_id
        r, cons, costs = oracle(m, si, vol)
        d.case(d.cur[0], **{**d.cur[1], "scenario": g})
        d.true("the solver finds a solution only where there is one", r.status in (0, 3), r.message)
        if r.status != 0: continue
        for name, t, lo, hi in cons:
            f = sum(flow[x][g] * k for x, k in t.items())
            s = 1e-6 * (1 + sum(abs(flow[x][g] * k) for x, k in t.items()))
            d.true(f"{name.split(' ')[0]} limits hold", lo - s <= f <= hi + s, {"constraint": name, "flow": f, "limits": [lo, hi]})
        d.near("total cost is the least possible", sum(flow[x][g] * c for x, c in costs.items()), r.fun, 1e-6, 1e-6)


def run(d, m, T, key, desc):
    flow, vol = {}, {}
    m.setup(); m.reset()
    for t in range(T):
        ts = m.timestep = next(m.timestepper)
        m.before()
        vol.clear(); vol.update({x: np.array(x.volume) for x in m.graph.nodes() if isinstance(x, K.Storage)})
        d.case(key, t=t, **desc)
        try: m.solve()
        except RuntimeError as e:
            bad = [g.global_id for g in m.scenarios.combinations if oracle(m, g, vol)[0].status not in (0, 3)]
            d.true("a problem with a solution is solved", bool(bad), str(e)); return
        flow.update({x: np.array(x.flow) for x in m.graph.nodes() if not isinstance(x, K.Storage)})
        compare(d, m, vol, flow)
        m.after()


ARGS = [{}, {"use_unsafe_api": True}, {"set_fixed_flows_once": True, "set_fixed_costs_once": True, "set_fixed_factors_once": True}, {"save_routes_flows": True}]


def networks(d, solver):
    for k in range(d.n(30)):
        args = dict(d.rng.choice(ARGS[:3] if solver == "glpk-edge" else ARGS))
        net = Net(d, T=4, solver=solver, solver_args=args, step=d.rng.choice([1, 1, 3, 7]))
        d.guard(lambda: run(d, net.m, net.T, f"network {solver}", {"run": k, "args": args, **net.describe()}))


def special(d, solver):
    """Networks of the kinds random ones rarely contain: ratios, resetting virtual storages, several domains, equal limits, members on one route."""
    for k in range(d.n(16)):
        args = dict(d.rng.choice(ARGS[:3])); scen = d.rng.choice([(), (2,), (3,)]); n = ncomb(scen)
        step = d.rng.choice([1, 2, 5]); T = 6
        r = lambda lo, hi: round(d.rng.uniform(lo, hi), 2)
        def new():
            m = Model(start=pd.to_datetime("2015-01-01"), end=pd.to_datetime("2015-01-01") + pd.Timedelta(days=step * T - 1), timestep=step, solver=solver, solver_args=args)
            for i, s in enumerate(scen): Scenario(m, f"s{i}", size=s)
            return m
        G = lambda m, lo, hi: Given(m, d.np.uniform(lo, hi, (T, n)).round(2))
        # ratios, constant and changing, over parallel ways; three members
        m = new(); a = Input(m, "a", max_flow=r(5, 20), cost=r(0, 2)); o = Output(m, "o", max_flow=G(m, 3, 15), cost=-r(5, 20))
        ls = [Link(m, f"l{i}", cost=G(m, 0, 3) if d.rng.random() < 0.5 else r(0, 3), max_flow=r(1, 9)) for i in range(d.rng.choice([2, 3]))]
        for l in ls: a.connect(l); l.connect(o)
        a2 = Input(m, "a2", max_flow=r(1, 5), cost=r(3, 6)); a2.connect(ls[-1]); o2 = Output(m, "o2", max_flow=r(1, 6), cost=-r(1, 30)); ls[0].connect(o2)
        ag = AggregatedNode(m, "ag", ls); ag.factors = [G(m, 0.5, 2) if d.rng.random() < 0.5 else r(0.5, 2) for _ in ls]
        if d.rng.random() < 0.5: ag.max_flow = r(2, 9)
        d.guard(lambda: run(d, m, T, f"ratios {solver}", {"run": k, "args": args, "scen": scen}))
        # members that share a way, a node with weight 0, equal limits
        m = new(); a = Input(m, "a", max_flow=r(5, 20)); l1, l2 = Link(m, "l1"), Link(m, "l2", max_flow=r(3, 9), cost=1); o, p = Output(m, "o", max_flow=r(5, 9), cost=-10), Output(m, "p", max_flow=r(5, 9), cost=-r(5, 15))
        a.connect(l1); l1.connect(l2); l2.connect(o); l1.connect(p)
        ag = AggregatedNode(m, "ag", [a, l1, l2, o][d.rng.randint(0, 2):]); ag.max_flow = G(m, 3, 12)
        if d.rng.random() < 0.6: ag.flow_weights = [r(0.2, 2) for _ in ag.nodes]
        vs = VirtualStorage(m, "vs", [l1, l2][: d.rng.randint(1, 2)], factors=[r(0.5, 2), r(0.5, 2)], max_volume=r(10, 40), min_volume=0.0, initial_volume=r(5, 10))
        vs.factors = vs.factors[:len(vs.nodes)]
        d.guard(lambda: run(d, m, T, f"members sharing a way {solver}", {"run": k, "args": args, "scen": scen}))
        # storages with limits that meet, seasonal virtual storage that is inactive for part of the run
        m = new(); a = Input(m, "a", max_flow=G(m, 0, 9)); s = Storage(m, "s", max_volume=Given(m, d.np.choice([5.0, 8.0, 20.0], (T, n))), min_volume=5.0, initial_volume=5.0, initial_volume_pc=0.5, cost=-r(0, 5)); o = Output(m, "o", max_flow=r(1, 6), cost=-r(1, 9))
        a.connect(s); s.connect(o); a.connect(o)
        q = d.rng.choice([0.0, r(2, 9)])
        SeasonalVirtualStorage(m, "sv", nodes=[o], factors=[r(0.5, 2)], max_volume=q, min_volume=0.0, initial_volume=q, reset_day=d.rng.randint(1, 6), reset_month=1, end_day=d.rng.randint(7, 20), end_month=1)
        d.guard(lambda: run(d, m, T, f"limits that meet {solver}", {"run": k, "args": args, "scen": scen, "q": q}))
        # two domains
        m = new(); D = Domain("power")
        a = Input(m, "a", max_flow=r(3, 9)); o = Output(m, "o", max_flow=r(3, 9), cost=-r(0, 2)); a.connect(o)
        ps = [Input(m, f"p{i}", domain=D, conversion_factor=r(0.5, 3), cost=r(0, 1), max_flow=r(2, 9)) for i in range(d.rng.randint(1, 2))]; w = Output(m, "w", domain=D, max_flow=G(m, 1, 12), cost=-r(3, 9))
        for x in ps: o.connect(x); x.connect(w)
        d.guard(lambda: run(d, m, T, f"two domains {solver}", {"run": k, "args": args, "scen": scen}))


def n1(d): networks(d, "glpk")
def n2(d): networks(d, "glpk-edge")
def s1(d): special(d, "glpk")
def s2(d): special(d, "glpk-edge")
DRIVERS = [n1, n2, s1, s2]
