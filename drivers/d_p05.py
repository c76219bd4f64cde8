"""P05: scalar and vector accessors agree with each other and with what was given."""
from mlib import *


def value(d, m, T, n, lo=0, hi=50):
    """(what to give, expected[t][c])"""
    k = d.rng.choice(["const", "param", "cparam"])
    if k == "const":
        x = round(d.rng.uniform(lo, hi), 3); return x, np.full((T, n), x)
    if k == "cparam":
        x = round(d.rng.uniform(lo, hi), 3); return ConstantParameter(m, x), np.full((T, n), x)
    v = d.np.uniform(lo, hi, (T, n)).round(3)
    return Given(m, v), v


def check(d, m, node, name, exp, sign=1.0):
    get, alla = getattr(node, "get_" + name), getattr(node, "get_all_" + name, None)
    one = [get(si) for si in m.scenarios.combinations]
    d.near(f"get_{name}", one, sign * exp)
    if alla is not None:
        d.near(f"get_all_{name}", np.array(alla()), sign * exp)
        out = np.full(len(exp), -77.0)
        r = alla(out)
        d.near(f"get_all_{name}(out)", out, sign * exp)
        d.near(f"get_all_{name}(out) returned", np.array(r), sign * exp)


def accessors(d):
    for _ in range(d.n(60)):
        scen = d.rng.choice([(), (2,), (3,), (2, 2)]); n = ncomb(scen)
        m = model(scen=scen, end="2015-01-05"); T = 5
        want = {}
        def put(node, attr, lo=0, hi=50, key=None):
            v, e = value(d, m, T, n, lo, hi)
            setattr(node, attr, v); want[(node, key or attr)] = e
        i, l, o = Input(m, "i"), Link(m, "l"), Output(m, "o")
        st = Storage(m, "st", initial_volume=5, initial_volume_pc=0.1, num_inputs=1) if False else Storage(m, "st", initial_volume=5, initial_volume_pc=0.1)
        bl = BreakLink(m, "bl"); o2 = Output(m, "o2"); ll = LossLink(m, "ll", loss_factor=d.rng.choice([0.0, 0.25])); o3 = Output(m, "o3")
        ct = Catchment(m, "ct"); rg = None
        i.connect(l); l.connect(st); st.connect(o); ct.connect(st); l.connect(bl); bl.connect(o2); l.connect(ll); ll.connect(o3)
        ag = AggregatedNode(m, "ag", [i, l])
        for nd in (i, l, o, bl, ll):
            put(nd, "min_flow", 0, 0.0001) if nd is not i and d.rng.random() < 0.3 else want.__setitem__((nd, "min_flow"), np.zeros((T, n)))
            put(nd, "max_flow", 5, 50); put(nd, "cost", -9, 9)
        put(st, "max_volume", 40, 60); put(st, "min_volume", 0, 4); put(st, "cost", -5, 5); put(st, "level", 0, 9); put(st, "area", 0, 9)
        put(ag, "max_flow", 20, 100)
        put(ag, "min_flow", 0, 0.0001)
        v, e = value(d, m, T, n, 0, 1); ct.flow = v; want[(ct, "min_flow")] = e; want[(ct, "max_flow")] = e
        vs = VirtualStorage(m, "vs", [i], max_volume=1e6, initial_volume=1e6, initial_volume_pc=1.0)
        put(vs, "max_volume", 1e6, 2e6); put(vs, "min_volume", 0, 1)
        d.case("accessors", scen=scen, seed=_)
        def go():
            m.setup(); m.reset()
            for t in range(T):
                m.timestep = next(m.timestepper)
                m.before()
                for (nd, a), e in want.items():
                    d.case(f"{type(nd).__name__}", t=t, scen=scen, attr=a, expected=e[t], run=_)
                    check(d, m, nd, a, e[t])
                d.case("inlet and outlet cost", t=t, scen=scen, run=_)
                for sub in st.inputs: check(d, m, sub, "cost", want[(st, "cost")][t], -1.0)
                for sub in st.outputs: check(d, m, sub, "cost", want[(st, "cost")][t], 1.0)
                m.solve(); m.after()
        d.guard(go)


def piecewise(d):
    for _ in range(d.n(20)):
        scen = d.rng.choice([(), (2,), (2, 2)]); n = ncomb(scen)
        m = model(scen=scen, end="2015-01-05"); T = 5
        k = d.rng.randint(1, 3)
        mx = [value(d, m, T, n, 1, 10) for _i in range(k)]
        i, o = Input(m, "i"), Output(m, "o")
        p = PiecewiseLink(m, name="p", nsteps=k, max_flows=[x[0] for x in mx], costs=[1.0] * k)
        i.connect(p); p.connect(o)
        d.case("PiecewiseLink", scen=scen, steps=k)
        def go():
            m.setup(); m.reset()
            for t in range(T):
                m.timestep = next(m.timestepper); m.before()
                check(d, m, p, "max_flow", sum(x[1][t] for x in mx))
                check(d, m, p, "min_flow", np.zeros(n))
                m.solve(); m.after()
        d.guard(go)


def replace(d):
    """Replacing a constant by a parameter and back, and None, leaves no trace of the former value."""
    for cls, attr, none in ((Link, "max_flow", float("inf")), (Link, "min_flow", 0.0), (Link, "cost", "skip"), (Storage, "max_volume", "skip"), (Storage, "min_volume", "skip"),
                            (Storage, "cost", "skip"), (Storage, "level", 0.0), (Storage, "area", 0.0), (AggregatedNode, "max_flow", float("inf")), (AggregatedNode, "min_flow", float("-inf"))):
        m = model(scen=(2,))
        l = Link(m, "l")
        nd = l if cls is Link else cls(m, "x", [l]) if cls is AggregatedNode else cls(m, "x", initial_volume=0)
        p = ConstantParameter(m, 3.0)
        m.scenarios.setup()
        si = m.scenarios.combinations[1]
        g = lambda: getattr(nd, "get_" + attr)(si)
        d.case(f"replace {cls.__name__}.{attr}")
        setattr(nd, attr, 7.0); d.eq("constant", g(), 7.0); d.eq("read back", getattr(nd, attr), 7.0)
        setattr(nd, attr, p); p.setup(); p.reset(); d.true("read back parameter", getattr(nd, attr) is p)
        setattr(nd, attr, 8.0); d.eq("constant after parameter", g(), 8.0); d.eq("read back after parameter", getattr(nd, attr), 8.0)
        setattr(nd, attr, p)
        if none != "skip":
            setattr(nd, attr, None); d.eq("after None", g(), none)


def constant_values(d):
    for kind in ("number", "constant", "varying"):
        m = model()
        l = Link(m, "l")
        mk = {"number": lambda x: x, "constant": lambda x: ConstantParameter(m, x), "varying": lambda x: Given(m, np.full((3, 1), x))}[kind]
        l.max_flow = mk(9.0); l.min_flow = mk(2.0)
        d.case("constant accessors", kind=kind)
        nan = float("nan")
        d.eq("get_constant_max_flow", l.get_constant_max_flow(), 9.0 if kind != "varying" else nan)
        d.eq("get_constant_min_flow", l.get_constant_min_flow(), 2.0 if kind != "varying" else nan)
        d.eq("get_fixed_max_flow", l.get_fixed_max_flow(), 9.0 if kind == "number" else nan)
        d.eq("get_fixed_min_flow", l.get_fixed_min_flow(), 2.0 if kind == "number" else nan)
        d.eq("has_fixed_flows", bool(l.has_fixed_flows), kind == "number")
        d.eq("has_constant_flows", bool(l.has_constant_flows), kind != "varying")


def history(d):
    """Attributes assigned several times before (and between) runs read as the last value given, whichever way."""
    T = 3
    for q in range(d.n(40)):
        scen = d.rng.choice([(), (2,), (3,)]); n = ncomb(scen)
        m = model(scen=scen, end="2015-01-03")
        i, l, o = Input(m, "i"), Link(m, "l"), Output(m, "o"); i.connect(l); l.connect(o)
        st = Storage(m, "st", max_volume=50, initial_volume=20, initial_volume_pc=.4); l.connect(st); st.connect(o)
        ag = AggregatedNode(m, "ag", [i, l])
        vs = VirtualStorage(m, "vs", [i], max_volume=1e6, initial_volume=1e6, initial_volume_pc=1.0)
        attrs = [(l, "max_flow", 5, 9), (l, "min_flow", 0, 1e-3), (l, "cost", -5, 5), (st, "max_volume", 40, 60), (st, "min_volume", 0, 5), (st, "cost", -5, 5),
                 (st, "level", 0, 9), (st, "area", 0, 9), (ag, "max_flow", 20, 90), (ag, "min_flow", 0, 1e-3), (vs, "max_volume", 1e6, 2e6), (vs, "min_volume", 0, 9), (vs, "cost", -5, 5)]
        d.case("assigned again", scen=scen, seed=q)
        def go():
            for run in range(2):
                want = {}
                for nd, a, lo, hi in attrs:
                    for _ in range(d.rng.randint(1, 3)):
                        v, e = value(d, m, T, n, lo, hi)
                        setattr(nd, a, v)
                        want[nd, a] = e
                m.setup(); m.reset()
                for t in range(T):
                    m.timestep = next(m.timestepper); m.before()
                    for (nd, a), e in want.items():
                        d.case(f"assigned again {type(nd).__name__}", attr=a, run=run, t=t, scen=scen, seed=q)
                        check(d, m, nd, a, e[t])
        d.guard(go)


DRIVERS = [history, accessors, piecewise, replace, constant_values]
