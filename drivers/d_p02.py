"""P02: flows credited to nodes against the saved route flows, mass balance, previous flows, compound and aggregated nodes."""
from netlib import *


def check_parts(d, net, mid):
    """mid: flows of the parts as they stood after the solve."""
    m = net.m
    for nd in m.nodes:
        f = np.array(nd.flow)
        if isinstance(nd, AggregatedNode):
            w = [1.0] * len(nd.nodes) if nd.flow_weights is None else nd.flow_weights
            d.near("aggregated flow", f, sum(np.array(x.flow) * k for x, k in zip(nd.nodes, w)), 1e-9, 1e-9)
        elif isinstance(nd, AggregatedStorage):
            d.near("aggregated storage flow", f, sum(np.array(x.flow) for x in nd.storage_nodes), 1e-9, 1e-9)
        elif isinstance(nd, Storage) and not isinstance(nd, VirtualStorage):
            inn = sum((mid[x] for x in nd.outputs), np.zeros(net.n)); out = sum((mid[x] for x in nd.inputs), np.zeros(net.n))
            d.near("storage flow is inflow minus outflow", f, inn - out, 1e-9, 1e-9)
        elif isinstance(nd, BreakLink):
            d.near("break link flow", f, mid[nd.link], 1e-9, 1e-9)
        elif isinstance(nd, DelayNode):
            d.near("delay node flow", f, mid[nd.input], 1e-9, 1e-9)
        elif isinstance(nd, LossLink):
            d.near("loss link net flow", f, mid[nd.net], 1e-9, 1e-9)
            x = nd.loss_factor
            d.near("loss", mid[nd.output], mid[nd.net] * x if nd.loss_factor_type == "net" else mid[nd.gross] * x, 1e-6, 1e-6)
        elif isinstance(nd, PiecewiseLink):
            d.near("piecewise link flow", f, sum(mid[x] for x in nd.sublinks), 1e-9, 1e-9)
    d.cur = d.cur


def networks(d, solver, args):
    for run in range(d.n(25)):
        net = Net(d, solver=solver, solver_args=args, step=d.rng.choice([1, 1, 7]), kinds=("storage", "virtual", "compound") + (("agg",) if solver != "lpsolve" else ()))
        m = net.m
        desc = net.describe()
        d.case(f"network {solver}", run=run, **desc)
        mid, prev = {}, {}
        def after_solve(ts):
            mid.clear()
            for nd in m.graph.nodes(): mid[nd] = np.array(nd.flow)
        net.after_solve = after_solve
        def go():
            for ts in net.steps():
                d.case(f"network {solver}", run=run, t=ts.index, **desc)
                if args.get("save_routes_flows"):
                    rf = np.array(m.solver.routes_flows_array); routes = m.solver.routes
                    tot = {nd: np.zeros(net.n) for nd in m.graph.nodes()}
                    for j, r in enumerate(routes):
                        for k, nd in enumerate(r):
                            if k in (0, len(r) - 1) or isinstance(nd, Link): tot[nd] += rf[:, j]
                    for nd in net.basic: d.near("flow is the total of its routes", mid[nd], tot[nd], 1e-9, 1e-9)
                # conservation at every link with only direct neighbours, exclusive both ways
                for nd in net.mids + [x for x in net.basic if x.name == "lab"]:
                    pre = list(m.graph.predecessors(nd)); suc = list(m.graph.successors(nd))
                    if all(len(list(m.graph.successors(p))) == 1 and not isinstance(p, Storage) for p in pre):
                        d.near("inflow equals flow", sum(mid[p] for p in pre), mid[nd], 1e-6, 1e-6)
                    if all(len(list(m.graph.predecessors(s))) == 1 and not isinstance(s, Storage) for s in suc):
                        d.near("outflow equals flow", sum(mid[s] for s in suc), mid[nd], 1e-6, 1e-6)
                check_parts(d, net, mid)
                for nd in m.graph.nodes():
                    if isinstance(nd, VirtualStorage): continue
                    d.near(f"prev_flow of {type(nd).__name__} is the flow at the end of the step", nd.prev_flow, nd.flow, 0, 0)
        d.guard(go)


def commits(d):
    """commit / commit_all / before on each class of node directly."""
    for run in range(d.n(30)):
        scen = d.rng.choice([(2,), (3,), (2, 2)]); n = ncomb(scen)
        m = model(scen=scen)
        i, l, o, st = Input(m, "i"), Link(m, "l"), Output(m, "o"), Storage(m, "st", max_volume=10, initial_volume=5)
        i.connect(l); l.connect(st); st.connect(o)
        m.setup(); m.reset(); ts = m.timestep = next(m.timestepper); m.before()
        nodes = [i, l, o, st] + list(st.inputs) + list(st.outputs)
        exp = {x: np.zeros(n) for x in nodes}
        d.case("commits", run=run, scen=scen)
        for _ in range(12):
            x = d.rng.choice(nodes)
            if d.rng.random() < 0.6:
                k, v = d.rng.randrange(n), round(d.rng.uniform(-5, 5), 3)
                x.commit(k, v); delta = np.zeros(n); delta[k] = v
            else:
                delta = d.np.uniform(-5, 5, n).round(3); x.commit_all(delta)
            exp[x] += delta
            if x in st.inputs: exp[st] -= delta
            if x in st.outputs: exp[st] += delta
        for x in nodes: d.near(f"flow of {type(x).__name__}", x.flow, exp[x], 1e-12, 1e-12)
        for x in nodes: x.after(ts)
        for x in nodes: d.near(f"prev_flow of {type(x).__name__}", x.prev_flow, exp[x], 1e-12, 1e-12)
        m.before()
        for x in nodes: d.near("zero at the start of a step", x.flow, np.zeros(n))


def n1(d): networks(d, "glpk", {"save_routes_flows": True})
def n2(d): networks(d, "glpk-edge", {})
def n3(d): networks(d, "lpsolve", {})
DRIVERS = [n1, n2, n3, commits]
