"""P03: storage volumes against an independent account."""
from mlib import *
import math

TOL = 1e-6


def snap(v, mx, mn):
    if abs(v - mx) < TOL: v = mx
    if abs(v - mn) < TOL: v = mn
    return v


def pc(v, mx): return math.nan if mx == 0 else v / mx


def build(d, scen, const, step=1, initial=None):
    m = model(end="2015-03-30", step=step, scen=scen)
    n = ncomb(scen)
    T = 12
    mxs = d.np.uniform(20, 60, (T, n)).round(3); mns = d.np.uniform(0, 10, (T, n)).round(3)
    if const: mxs[:] = mxs[0, 0]; mns[:] = mns[0, 0]
    st = Storage(m, "s", max_volume=float(mxs[0, 0]) if const else Given(m, mxs), min_volume=float(mns[0, 0]) if const else Given(m, mns), **initial)
    i = Input(m, "i", max_flow=0); o = Output(m, "o", max_flow=0)
    i.connect(st); st.connect(o)
    return m, st, mxs, mns


def direct_after(d):
    """Storage.after called directly with chosen flows, including values within the tolerance of either limit."""
    for _ in range(d.n(60)):
        scen = d.rng.choice([(), (2,), (3,), (2, 2)])
        const = d.rng.random() < 0.5
        n = ncomb(scen)
        init = {"initial_volume": 15.0, "initial_volume_pc": 0.5} if not const else {"initial_volume": 15.0}
        m, st, mxs, mns = build(d, scen, const, step=d.rng.choice([1, 1, 7, 2]), initial=init)
        m.setup(); m.reset()
        v = [15.0] * n
        for t in range(5):
            ts = m.timestep = next(m.timestepper)
            days = ts.days
            m.before()
            fl = []
            for c in range(n):
                kind = d.rng.choice(["any", "tomax", "tomin", "nearmax", "nearmin"])
                tgt = {"any": v[c] + d.rng.uniform(-4, 4), "tomax": mxs[t, c], "tomin": mns[t, c], "nearmax": mxs[t, c] + d.rng.choice([-1, 1]) * d.rng.choice([1e-7, 5e-7, 2e-6, 1e-4]),
                       "nearmin": mns[t, c] + d.rng.choice([-1, 1]) * d.rng.choice([1e-7, 5e-7, 2e-6, 1e-4])}[kind]
                fl.append((tgt - v[c]) / days)
            d.case("after", scen=scen, const=const, t=t, days=days, volume=v, flow=fl, max=mxs[t], min=mns[t])
            for c in range(n): st.commit(c, fl[c])
            st.after(ts)
            for c in range(n):
                v[c] = snap(v[c] + fl[c] * days, mxs[t, c], mns[t, c])
            d.near("volume", st.volume, v, 0, 1e-10)
            for c in range(n):
                if v[c] in (mxs[t, c], mns[t, c]): d.eq("snapped", st.volume[c], v[c])
            d.near("current_pc", st.current_pc, [pc(v[c], mxs[t, c]) for c in range(n)], 1e-12, 1e-12)
            for si in m.scenarios.combinations:
                x = pc(v[si.global_id], mxs[t, si.global_id])
                d.near("get_current_pc", st.get_current_pc(si), 1.0 if math.isnan(x) else min(1.0, max(0.0, x)), 1e-12, 1e-12)
            d.eq("prev_flow", st.prev_flow, st.flow)
            v = [float(x) for x in st.volume]


def zero_max(d):
    d.case("zero max volume")
    m = model(); st = Storage(m, "s", max_volume=0.0, initial_volume=0.0)
    i = Input(m, "i"); o = Output(m, "o"); i.connect(st); st.connect(o)
    m.setup(); m.reset()
    d.true("pc is nan", all(math.isnan(x) for x in st.current_pc), st.current_pc)
    si = m.scenarios.combinations[0]
    d.eq("full", st.get_current_pc(si), 1.0)
    st.before(mkts("2015-01-01")); st.after(mkts("2015-01-01"))
    d.true("pc is nan after", all(math.isnan(x) for x in st.current_pc), st.current_pc)


def initial(d):
    """Initial volume: absolute, proportional, constant and variable maximum volume."""
    for _ in range(d.n(40)):
        a = d.rng.choice([None, 0.0, 7.5, 12.25]); p = d.rng.choice([None, 0.0, 0.4, 1.0])
        kind = d.rng.choice(["const", "constparam", "param"])
        scen = d.rng.choice([(), (2,), (2, 3)])
        mx = d.rng.choice([15.0, 25.0, 30.0])
        d.case("initial", a=a, p=p, kind=kind, mx=mx, scen=scen)
        def go():
            m = model(scen=scen)
            mxv = mx if kind == "const" else ConstantParameter(m, mx) if kind == "constparam" else Given(m, np.full((20, ncomb(scen)), mx))
            kw = {}
            if a is not None: kw["initial_volume"] = a
            if p is not None: kw["initial_volume_pc"] = p
            st = Storage(m, "s", max_volume=mxv, **kw)
            i = Input(m, "i"); o = Output(m, "o"); i.connect(st); st.connect(o)
            bad = (a is None or p is None) if kind == "param" else (a is None and p is None)
            if bad:
                d.raises("missing initial volume is an error", Exception, lambda: (m.setup(), m.reset(), m.run()))
                return
            m.setup(); m.reset()
            if kind == "param": ev, ep = a, p
            elif p is not None: ev, ep = p * mx, p
            else: ev, ep = a, a / mx
            d.near("volume", st.volume, [ev] * ncomb(scen))
            d.near("current_pc", st.current_pc, [ep] * ncomb(scen))
            d.eq("get_initial_volume", st.get_initial_volume(), ev) if False else d.near("get_initial_volume", st.get_initial_volume(), ev)
            d.near("get_initial_pc", st.get_initial_pc(), ep)
        d.guard(go)


def runs(d):
    """Whole runs: every storage's recorded volume follows from its recorded flow; aggregated storage is the sum."""
    from pywr.recorders import NumpyArrayStorageRecorder, NumpyArrayNodeRecorder
    for _ in range(d.n(12)):
        scen = d.rng.choice([(), (2,), (2, 2)])
        n = ncomb(scen)
        step = d.rng.choice([1, 3, 7])
        m = model(start="2015-01-01", end="2015-02-27", step=step, scen=scen)
        T = len(m.timestepper)
        k = d.rng.randint(1, 3)
        mxs, ms, inits = [], [], []
        out = Output(m, "out", max_flow=Given(m, d.np.uniform(0, 30, (T, n))), cost=-500)
        for j in range(k):
            mx = round(d.rng.uniform(20, 80), 2); mnv = round(d.rng.uniform(0, 5), 2); ini = round(d.rng.uniform(mnv, mx), 2)
            st = Storage(m, f"s{j}", max_volume=mx, min_volume=mnv, initial_volume=ini, cost=-d.rng.uniform(1, 50))
            c = Catchment(m, f"c{j}", flow=Given(m, d.np.uniform(0, 14, (T, n))))
            sp = Output(m, f"spill{j}", cost=100)
            c.connect(st); st.connect(out); st.connect(sp)
            mxs.append(mx); ms.append((st, mnv, mx, ini)); inits.append(ini)
        agg = AggregatedStorage(m, "agg", storage_nodes=[x[0] for x in ms])
        rv = [NumpyArrayStorageRecorder(m, x[0]) for x in ms]; rf = [NumpyArrayNodeRecorder(m, x[0]) for x in ms]
        ra = NumpyArrayStorageRecorder(m, agg); rp = NumpyArrayStorageRecorder(m, agg, proportional=True, name='aggpc')
        d.case("run", scen=scen, step=step, k=k, inits=inits, mx=mxs)
        def go():
            m.setup(); m.reset()
            d.near("aggregate at reset", agg.volume, [sum(inits)] * n)
            d.near("aggregate pc at reset", agg.current_pc, [sum(inits) / sum(mxs)] * n)
            m.run()
            for (st, mnv, mx, ini), v, f in zip(ms, rv, rf):
                prev = np.full(n, ini)
                V, F = np.asarray(v.data), np.asarray(f.data)
                for t in range(T):
                    e = np.array([snap(x, mx, mnv) for x in prev + F[t] * step])
                    if not d.near("volume balance", V[t], e, 1e-9, 1e-8): break
                    prev = V[t]
                d.true("within limits", np.all(V >= mnv - 1e-5) and np.all(V <= mx + 1e-5), [V.min(), V.max()])
            tot = sum(np.asarray(v.data) for v in rv)
            d.near("aggregate is the sum", ra.data, tot, 1e-9, 1e-4)
            d.near("aggregate pc", rp.data, tot / sum(mxs), 1e-7, 1e-6)
        d.guard(go)


def aggregated_variable(d):
    """Aggregated storage over members whose maximum volume varies: proportion of the current total."""
    from pywr.recorders import NumpyArrayStorageRecorder
    for _ in range(d.n(6)):
        scen = d.rng.choice([(), (2,)]); n = ncomb(scen)
        m = model(scen=scen); T = len(m.timestepper)
        a = d.np.uniform(30, 40, (T, n)); b = d.np.uniform(50, 60, (T, n))
        s1 = Storage(m, "s1", max_volume=Given(m, a), initial_volume=10, initial_volume_pc=0.3)
        s2 = Storage(m, "s2", max_volume=Given(m, b), initial_volume=20, initial_volume_pc=0.4)
        for j, s in enumerate((s1, s2)):
            i = Input(m, f"i{j}", max_flow=1, min_flow=1); o = Output(m, f"o{j}"); i.connect(s); s.connect(o)
        ag = AggregatedStorage(m, "ag", storage_nodes=[s1, s2])
        r1, r2, r = [NumpyArrayStorageRecorder(m, x) for x in (s1, s2, ag)]
        rp = NumpyArrayStorageRecorder(m, ag, proportional=True, name='agpc')
        d.case("aggregated variable", scen=scen)
        def go():
            m.run()
            tot = np.asarray(r1.data) + np.asarray(r2.data)
            d.near("sum", r.data, tot, 1e-9, 1e-5)
            d.near("proportion", rp.data, tot / (a + b), 1e-9, 1e-6)
        d.guard(go)


DRIVERS = [direct_after, zero_max, initial, runs, aggregated_variable]
