"""P17: formula parameters against independent evaluations."""
from mlib import *
from pywr.parameters import *
from pywr.parameters._hydropower import inverse_hydropower_calculation
from pywr.parameters import _activation_functions as AF
from pywr.parameters import groundwater as GW
from pywr.recorders import hydropower_calculation
from pywr.recorders import NumpyArrayNodeRecorder, HydropowerRecorder, TotalHydroEnergyRecorder
import math


def params(m, d, T, n, lo, hi, name):
    v = d.np.uniform(lo, hi, (T, n)).round(3)
    return Given(m, v, name=name), v


def hydro(d):
    for k in range(d.n(60)):
        q, we, te, eff, fc, ec, rho = d.rng.uniform(0, 500), d.rng.uniform(0, 100), d.rng.uniform(-5, 80), d.rng.uniform(.1, 1), d.rng.choice([1.0, 1000.0, .5]), d.rng.choice([1e-6, 1e-3]), d.rng.uniform(900, 1100)
        d.case("hydropower equation", q=q, we=we, te=te, eff=eff, fc=fc, ec=ec, rho=rho)
        p = hydropower_calculation(q, we, te, eff, fc, ec, rho)
        d.near("power", p, rho * q * fc * 9.81 * max(we - te, 0) * eff * ec)
        if we > te: d.near("inverse", inverse_hydropower_calculation(p, we, te, eff, fc, ec, rho), q, rtol=1e-9)
        else: d.eq("no head", inverse_hydropower_calculation(5.0, we, te, eff, fc, ec, rho), math.inf)
    T = 4
    for k in range(d.n(40)):
        scen = d.rng.choice(SCEN); n = ncomb(scen)
        m = pmodel(end="2015-01-04", scen=scen)
        opt = {x: d.rng.random() < .5 for x in ("we", "hi", "lo", "te")}
        how = d.rng.random() < .4
        eff, fc, ec, rho, mh = round(d.rng.uniform(.2, 1), 2), d.rng.choice([1.0, 1000.0]), d.rng.choice([1e-6, 1e-3]), d.rng.choice([1000.0, 950.0]), d.rng.choice([0.0, 5.0, 25.0])
        te = round(d.rng.uniform(1, 30), 1) if opt["te"] or not opt["we"] else 0.0
        d.case("HydropowerTargetParameter", scen=scen, options=opt, load=how, efficiency=eff, density=rho, flow_unit=fc, energy_unit=ec, min_head=mh, turbine_elevation=te, seed=k)
        def go():
            tgt, vt = params(m, d, T, n, 0, 20, "tgt")
            kw = dict(turbine_elevation=te, efficiency=eff, density=rho, min_head=mh, flow_unit_conversion=fc, energy_unit_conversion=ec)
            we = wv = hi = hv = lo = lv = None
            if opt["we"]: we, wv = params(m, d, T, n, -5, 60, "we"); kw["water_elevation_parameter"] = "we" if how else we
            if opt["hi"]: hi, hv = params(m, d, T, n, 20, 60, "hi"); kw["max_flow"] = "hi" if how else hi
            if opt["lo"]: lo, lv = params(m, d, T, n, 0, 15, "lo"); kw["min_flow"] = "lo" if how else lo
            p = load_parameter(m, {"type": "hydropowertarget", "target": "tgt", **kw}) if how else HydropowerTargetParameter(m, tgt, **kw)
            for t, ts in steps(m, T):
                want = []
                for i in range(n):
                    head = max(wv[t, i] - te if opt["we"] else te, 0)
                    if head < mh: want.append(0.0); continue
                    dd = ec * rho * 9.81 * head * eff * fc
                    q = vt[t, i] / dd if dd else math.inf
                    if hi is not None: q = min(q, hv[t, i])
                    if lo is not None: q = max(q, lv[t, i])
                    want.append(q)
                d.near("target flow", values(p), want)
        d.guard(go)
    for k in range(d.n(12)):                # the recorder gives the target back
        scen = d.rng.choice(SCEN); n = ncomb(scen)
        m = model(end="2015-01-04", scen=scen)
        d.case("hydropower target and recorder", scen=scen, seed=k)
        def go():
            tgt, vt = params(m, d, T, n, 1, 20, "tgt"); we, wv = params(m, d, T, n, 12, 60, "we")
            kw = dict(turbine_elevation=10.0, efficiency=.8, density=990.0, flow_unit_conversion=1e3, energy_unit_conversion=1e-6)
            p = HydropowerTargetParameter(m, tgt, water_elevation_parameter=we, **kw)
            i, o = Input(m, "i", max_flow=p), Output(m, "o", max_flow=1e6, cost=-5); i.connect(o)
            r = HydropowerRecorder(m, i, water_elevation_parameter=we, name="r", **kw); tot = TotalHydroEnergyRecorder(m, i, water_elevation_parameter=we, name="t", **kw)
            m.run()
            d.near("power", np.array(r.data), vt, rtol=1e-5); d.near("energy", np.array(tot.values()), vt.sum(0), rtol=1e-5)
        d.guard(go)


def polynomials(d):
    T = 3
    for k in range(d.n(40)):
        scen = d.rng.choice(SCEN); n = ncomb(scen)
        m = model(end="2015-01-03", scen=scen)
        co = [round(d.rng.uniform(-2, 2), 3) for _ in range(d.rng.randint(1, 4))]
        src = d.rng.choice(["parameter", "storage_node", "node"]); prop = d.rng.random() < .5
        sc, off = round(d.rng.uniform(-2, 2), 2), round(d.rng.uniform(-2, 2), 2); how = d.rng.random() < .4
        d.case("Polynomial1DParameter", coefficients=co, of=src, proportional=prop, scale=sc, offset=off, scen=scen, load=how, seed=k)
        def go():
            i = Input(m, "in", max_flow=Given(m, d.np.uniform(0, 9, (T, n)).round(2), name="supply"))
            s = Storage(m, "st", max_volume=40, initial_volume=15); o = Output(m, "out", max_flow=4, cost=-1); i.connect(s); s.connect(o)
            g, gv = params(m, d, T, n, -3, 3, "g")
            kw = dict(scale=sc, offset=off)
            if src == "storage_node": kw["use_proportional_volume"] = prop
            if how: p = load_parameter(m, {"type": "polynomial1d", "coefficients": co, src: {"parameter": "g", "storage_node": "st", "node": "in"}[src], **kw})
            else: p = Polynomial1DParameter(m, co, **{src: {"parameter": g, "storage_node": s, "node": i}[src]}, **kw)
            for t, ts in steps(m, T):
                x = gv[t] if src == "parameter" else (np.array(s.volume) / (40 if prop else 1)) if src == "storage_node" else np.zeros(n)
                x = x * sc + off
                d.near("value", values(p), sum(c * x**j for j, c in enumerate(co)))
        d.guard(go)
        m2 = model(end="2015-01-03", scen=scen)
        co2 = d.np.uniform(-2, 2, (d.rng.randint(1, 3), d.rng.randint(1, 3))).round(3)
        a = [round(d.rng.uniform(-2, 2), 2) for _ in range(4)]
        d.case("Polynomial2DStorageParameter", coefficients=co2, proportional=prop, scales=a, scen=scen, load=how, seed=k)
        def go2():
            m = m2
            i = Input(m, "in", max_flow=3); s = Storage(m, "st", max_volume=40, initial_volume=15); o = Output(m, "out", max_flow=4, cost=-1); i.connect(s); s.connect(o)
            g, gv = params(m, d, T, n, -3, 3, "g")
            kw = dict(storage_scale=a[0], storage_offset=a[1], parameter_scale=a[2], parameter_offset=a[3], use_proportional_volume=prop)
            p = load_parameter(m, {"type": "polynomial2dstorage", "coefficients": co2.tolist(), "storage_node": "st", "parameter": "g", **kw}) if how else Polynomial2DStorageParameter(m, co2, s, g, **kw)
            for t, ts in steps(m, T):
                x = np.array(s.volume) / (40 if prop else 1) * a[0] + a[1]; y = gv[t] * a[2] + a[3]
                d.near("value", values(p), sum(co2[q, r] * x**q * y**r for q in range(co2.shape[0]) for r in range(co2.shape[1])))
        d.guard(go2)


def activations(d):
    for k in range(d.n(40)):
        v = d.rng.choice([0.0, round(d.rng.uniform(-1, 1), 3), 1.0, -1.0]); ub = d.rng.choice([1.0, 2.5]); a, b = round(d.rng.uniform(0, 3), 2), round(d.rng.uniform(3, 9), 2); gr = d.rng.choice([1.0, .3, 4.0])
        how = d.rng.random() < .4
        d.case("activation functions", value=v, upper=ub, lo=a, hi=b, growth=gr, load=how)
        def go():
            m = pmodel(scen=(2,))
            mk = lambda cls, t, **kw: load_parameter(m, {"type": t, **kw}) if how else getattr(AF, cls)(m, **kw)
            ps = [(mk("BinaryStepParameter", "binarystep", value=v, output=b, upper_bounds=ub), b if v > 0 else 0.0),
                  (mk("RectifierParameter", "rectifier", value=v, min_output=a, max_output=b, upper_bounds=ub), a + (b - a) * v / ub if v > 0 else 0.0),
                  (mk("LogisticParameter", "logistic", value=v, max_output=b, growth_rate=gr, upper_bounds=ub), b / (1 + math.exp(-gr * v)))]
            for t, ts in steps(m, 2):
                for p, w in ps: d.near(type(p).__name__, values(p), [w, w])
        d.guard(go)


def others(d):
    for k in range(d.n(20)):
        rate, base = round(d.rng.uniform(0, .2), 3), d.rng.choice([2010, 2015, 2030])
        d.case("DiscountFactorParameter", rate=rate, base=base)
        def go():
            m = pmodel(start="2014-12-30", end="2020-12-31", step=200)
            p = load_parameter(m, {"type": "discountfactor", "rate": rate, "base_year": base})
            for t, ts in steps(m, 8): d.near("value", values(p), [1 / (1 + rate) ** (ts.year - base)])
        d.guard(go)
    T = 4
    for k in range(d.n(40)):
        scen = d.rng.choice(SCEN); n = ncomb(scen); how = d.rng.random() < .4
        xs = sorted(round(d.rng.uniform(.1, 10), 2) for _ in range(d.rng.randint(1, 5))); ys = [round(d.rng.uniform(-3, 3), 2) for _ in xs]
        if d.rng.random() < .2 and len(xs) > 1: xs[1] = xs[0]
        d.case("PiecewiseIntegralParameter", x=xs, y=ys, scen=scen, load=how, seed=k)
        def go():
            m = pmodel(end="2015-01-04", scen=scen); g, gv = params(m, d, T, n, -1, 12, "g")
            if d.rng.random() < .5: gv[0, :] = xs[0]; g.vals = gv
            p = load_parameter(m, {"type": "piecewiseintegral", "parameter": "g", "x": xs, "y": ys}) if how else PiecewiseIntegralParameter(m, g, xs, ys)
            for t, ts in steps(m, T):
                want = []
                for i in range(n):
                    tot, lo = 0.0, 0.0
                    for a, b in zip(xs, ys): tot += max(0.0, min(gv[t, i], a) - lo) * b; lo = a
                    want.append(tot)
                d.near("value", values(p), want)
        d.guard(go)
        xs2 = sorted(set(xs + [-1.5, 13.0])); ys2 = [round(d.rng.uniform(-3, 3), 2) for _ in xs2]
        d.case("InterpolatedParameter", x=xs2, y=ys2, scen=scen, load=how, seed=k)
        def go2():
            m = model(end="2015-01-04", scen=scen); g, gv = params(m, d, T, n, -1, 12, "g"); h, hv = params(m, d, T, n, -1, 12, "h")
            i = Input(m, "in", max_flow=Given(m, d.np.uniform(0, 5, (T, n)), name="supply")); s = Storage(m, "st", max_volume=12, initial_volume=5); o = Output(m, "out", max_flow=2, cost=-1); i.connect(s); s.connect(o)
            if how:
                p = load_parameter(m, {"type": "interpolated", "parameter": "g", "x": xs2, "y": ys2}); v = load_parameter(m, {"type": "interpolatedvolume", "node": "st", "volumes": xs2, "values": ys2})
                f = load_parameter(m, {"type": "interpolatedflow", "node": "in", "flows": xs2, "values": ys2}); q = load_parameter(m, {"type": "interpolatedquadrature", "upper_parameter": "g", "x": xs2, "y": ys2, "lower_parameter": "h"})
            else:
                p = InterpolatedParameter(m, g, xs2, ys2); v = InterpolatedVolumeParameter(m, s, xs2, ys2); f = InterpolatedFlowParameter(m, i, xs2, ys2); q = InterpolatedQuadratureParameter(m, g, xs2, ys2, lower_parameter=h)
            q0 = InterpolatedQuadratureParameter(m, g, xs2, ys2)
            def area(a, b):
                grid = sorted({a, b, *[x for x in xs2 if min(a, b) < x < max(a, b)]}); y = np.interp(grid, xs2, ys2)
                return (1 if b >= a else -1) * float(sum((y[j] + y[j + 1]) / 2 * (grid[j + 1] - grid[j]) for j in range(len(grid) - 1)))
            for t, ts in steps(m, T):
                d.near("value", values(p), np.interp(gv[t], xs2, ys2)); d.near("of volume", values(v), np.interp(np.array(s.volume), xs2, ys2)); d.near("of flow", values(f), np.interp(np.array(i.prev_flow), xs2, ys2))
                d.near("integral", values(q), [area(hv[t, j], gv[t, j]) for j in range(n)], rtol=1e-4, atol=1e-4); d.near("integral from 0", values(q0), [area(0.0, gv[t, j]) for j in range(n)], rtol=1e-4, atol=1e-4)
        d.guard(go2)
    for k in range(d.n(15)):
        lv = sorted(round(d.rng.uniform(0, 10), 2) for _ in range(d.rng.randint(1, 3))); tr = [round(d.rng.uniform(.1, 3), 2) for _ in lv]; C = round(d.rng.uniform(.5, 2), 2)
        d.case("KeatingStreamFlowParameter", levels=lv, transmissivity=tr, coefficient=C, seed=k)
        def go3():
            m = model(end="2015-01-05", scen=(2,)); g, gv = params(m, d, 4, 2, 0, 6, "g")
            i = Input(m, "in", max_flow=g); vols, levs = [0.0, 20.0, 50.0], [0.0, 4.0, 11.0]
            s = Storage(m, "st", max_volume=50, initial_volume=20); o = Output(m, "out", max_flow=3, cost=-2); i.connect(s); s.connect(o)
            s.level = InterpolatedVolumeParameter(m, s, vols, levs)
            p = GW.KeatingStreamFlowParameter(m, s, lv, tr, C)
            for t, ts in steps(m, 4):
                h = np.interp(np.array(s.volume), vols, levs)
                d.near("flow", values(p), [sum(2 * T_ * C * max(0, x - l) for l, T_ in zip(lv, tr)) for x in h])
        d.guard(go3)


def wrapper(d):
    for k in range(d.n(12)):
        scen = d.rng.choice([(2,), (3,), (2, 2), (2, 3)]); n = ncomb(scen); w = d.rng.randrange(len(scen)); how = d.rng.random() < .4
        d.case("ScenarioWrapperParameter", scen=scen, of=w, load=how, seed=k)
        def go():
            m = pmodel(end="2015-01-04", scen=scen)
            ps = [params(m, d, 3, n, 0, 9, f"p{j}") for j in range(scen[w])]
            s = m.scenarios[f"s{w}"]
            p = load_parameter(m, {"type": "scenariowrapper", "scenario": f"s{w}", "parameters": [f"p{j}" for j in range(scen[w])]}) if how else ScenarioWrapperParameter(m, s, [q for q, _ in ps])
            ix = list(np.ndindex(*scen))
            for t, ts in steps(m, 3): d.near("value", values(p), [ps[ix[c][w]][1][t, c] for c in range(n)])
        d.guard(go)


DRIVERS = [hydro, polynomials, activations, others, wrapper]
