"""P25: flow duration curves, their deviations from targets, and the error measures of calibration recorders."""
from common import *
from core import NAN

M, CAL = "pywr.recorders._recorders", "pywr.recorders.calibration"


def recorded(c):
    """The flows recorded: (how many steps, a scenario, the flow of step t in it)."""
    a = c.old.val(c.self, "_data"); a = a.v if isinstance(a, Opt) else a
    n = a.dims[0]; c.require(n >= 1, a.dims[1] == c.ncomb)
    s = c.idx("scenario", c.ncomb)
    return n, s, lambda t, s=s: c.old.rd(a, t, s)


def percentiles(c):
    q = c.old.val(c.self, "_percentiles"); k = c.idx("k", q.dims[0])
    return q.dims[0], k, c.old.rd(q, k)


@contract("P25", f"{M}:FlowDurationCurveRecorder.finish")
def curve(c):
    n, s, x = recorded(c)
    m, k, q = percentiles(c)
    want = c.opq("percentile", n, x, [q])
    c.call()
    c.ensure("a row for every percentile and a column for every scenario", AND(c.new.dim(c.self, "_fdc", 0) == m, c.new.dim(c.self, "_fdc", 1) == c.ncomb))
    c.ensure("the percentile of the scenario's recorded flows", c.new.get(c.self, "_fdc", k, s) == want)
    c.frame([(f"FlowDurationCurveRecorder._fdc{x}", c.self.t) for x in ("", "#0", "#1", "#none")])


def given(attr, cls, what):
    @contract("P25", f"{M}:{cls}.{attr}.get", label=f"{cls}.{attr}")
    def g(c):
        a = c.old.val(c.self, "_" + attr); i, j = c.idx("i", a.dims[0]), c.idx("j", a.dims[1])
        c.call()
        c.ensure("all of it", AND(c.ret.dims[0] == a.dims[0], c.ret.dims[1] == a.dims[1]))
        c.ensure(what, c.ret_at(i, j) == c.old.rd(a, i, j))
        c.frame([])


given("fdc", "FlowDurationCurveRecorder", "the curve calculated")
given("fdc_deviations", "FlowDurationCurveDeviationRecorder", "the deviations calculated")


def aggregated(cls, attr):
    @contract("P25", f"{M}:{cls}.values")
    def g(c):
        a = c.old.val(c.self, attr); i, j = c.idx("i", a.dims[0]), c.idx("j", a.dims[1])
        skip = c.old.get(c.self, "ignore_nan")
        ag = c.known(c.old.obj(c.self, "_temporal_aggregator"), "Aggregator", exact=False)
        got = {}
        def agg(e, st, o, args, k):
            got.update(o=o, a=args, k=k)
            return A("double", [a.dims[1]], ("G", lambda _s, q: z3.Function("aggregate", I, R)(q)), None, True)
        c.ex.side["methods"]["Aggregator.aggregate_2d"] = agg
        c.call()
        c.ensure("by the recorder's own aggregator", got["o"].t == ag.t)
        x = got["a"][0]
        c.ensure("of all of it", AND(x.dims[0] == a.dims[0], x.dims[1] == a.dims[1], c.ex.rd(c.post, x, i, j) == c.old.rd(a, i, j)))
        ax = got["k"].get("axis") or (got["a"][1:] + [S(z3.IntVal(0), "int")])[0]
        ig = got["k"].get("ignore_nan") or (got["a"][2:] + [S(FALSE, "bint")])[0]
        c.ensure("along the percentiles", c.ex.num(ax) == 0)
        c.ensure("ignoring missing values if asked", c.ex.truth(ig) == (skip if skip.sort() == B else skip != 0))
        c.ensure("one value per scenario", AND(c.ret.dims[0] == a.dims[1], c.ret_at(j) == z3.Function("aggregate", I, R)(j)))
        c.frame([])


aggregated("FlowDurationCurveRecorder", "_fdc")
aggregated("FlowDurationCurveDeviationRecorder", "_fdc_deviations")


# ---- deviations ---------------------------------------------------------------------------------------------------------------------
D = "FlowDurationCurveDeviationRecorder"


def targets(c, m, up, lo, single):
    """The targets given: whether there is one, how many columns, its values."""
    out = []
    for attr, there, one in (("_upper_target_fdc", up, single[0]), ("_lower_target_fdc", lo, single[1])):
        none = c.isnone_any(c.self, attr)
        c.require(NOT(none) if there else none)
        a = c.old.val(c.self, attr); a = a.v if isinstance(a, Opt) else a
        if there:
            c.require(a.dims[0] == m, a.dims[1] >= 1)
            c.require(a.dims[1] == 1 if one else a.dims[1] > 1)
        out.append(a)
    return out


CASES = [(up, lo, by, single) for up, lo in ((True, True), (True, False), (False, True)) for by in (False, True) for single in ((True, True), (False, False), (True, False))
         if (up and lo) or single[0] == single[1]]
for up, lo, by, single in CASES:
    name = " and ".join([f"{'one' if s else 'own'} {n}" for n, there, s in (("upper", up, single[0]), ("lower", lo, single[1])) if there]) + (" by scenario" if by else "")

    @contract("P25", f"{M}:{D}.finish", label=f"{D}.finish, {name}")
    def deviations(c, up=up, lo=lo, by=by, single=single):
        m, k, q = percentiles(c)
        s = c.idx("scenario", c.ncomb)
        U, Lw = targets(c, m, up, lo, single)
        fdc = z3.Function("curve", I, I, R)
        # the curve itself: contract of FlowDurationCurveRecorder.finish
        c.ex.side["types"]["FlowDurationCurveRecorder._fdc"] = "double[2]"
        def parent(e, st, o, a, kw):
            ii, jj = c.L.placeholder("ii", I), c.L.placeholder("jj", I)
            e.store(st, "FlowDurationCurveRecorder._fdc", c.self.t, "double[2]", A("double", [m, c.ncomb], ("G", lambda _s, i, j: fdc(i, j)), None, True))
            return NoneV()
        c.ex.side["methods"]["FlowDurationCurveRecorder.finish!super"] = parent
        sc = c.old.obj(c.self, "scenario")
        c.require(sc.t != NONE if by else sc.t == NONE)
        if by:
            # the member of the recorder's scenario in combination s
            c.one_scenario(s)
            pos = c.free("scenario_position", I)
            c.ex.side["methods"]["ScenarioCollection.get_scenario_index"] = lambda e, st, o, a, kw: S(pos, "int")
            si = O(c.ex.COMBO(s), c.P.find_class("ScenarioIndex"), True)
            c.require(pos >= 0, pos < c.old.dim(si, "_indices"))
            ens = c.old.get(si, "_indices", pos)
            c.require(ens >= 0)
        else: ens = s
        for a, there, one in ((U, up, single[0]), (Lw, lo, single[1])):
            if there and not one: c.require(ens < a.dims[1] if by else a.dims[1] == c.ncomb)
        u = c.old.rd(U, k, z3.IntVal(0) if single[0] else ens) if up else None
        l = c.old.rd(Lw, k, z3.IntVal(0) if single[1] else ens) if lo else None
        f = fdc(k, s)
        c.call()
        du = (f - u) / u if up else z3.RealVal(0)
        dl = (l - f) / l if lo else z3.RealVal(0)
        worst = ITE(AND(du > 0, du >= dl), du, ITE(dl > 0, dl, z3.RealVal(0)))
        undefined = OR(*( [u == 0] if up else []), *([l == 0] if lo else []))
        c.ensure("one for every percentile and scenario", AND(c.new.dim(c.self, "_fdc_deviations", 0) == m, c.new.dim(c.self, "_fdc_deviations", 1) == c.ncomb))
        c.ensure("the worse relative deviation from the targets, zero between them", c.new.get(c.self, "_fdc_deviations", k, s) == ITE(undefined, NAN, worst))



for by in (False, True):
    @contract("P25", f"{M}:{D}.setup", label=f"{D}.setup" + (" by scenario" if by else ""))
    def setup(c, by=by):
        c.ex.side["methods"]["NumpyArrayNodeRecorder.setup!super"] = c.ex.side["methods"]["FlowDurationCurveRecorder.setup!super"] = lambda *a: NoneV()
        sc = c.old.obj(c.self, "scenario")
        c.require(sc.t != NONE if by else sc.t == NONE)
        size = c.free("size", I)
        c.ex.side["attr"]["Scenario.size"] = lambda e, st, o: S(size, "int")
        c.ex.side["attr"]["Scenario.name"] = lambda e, st, o: Opaque("name")
        c.ex.side["types"][f"{D}.scenario"] = "Scenario"
        bad = []
        for attr in ("_lower_target_fdc", "_upper_target_fdc"):
            a = c.old.val(c.self, attr); v = a.v if isinstance(a, Opt) else a
            n = v.dims[1]
            bad.append(AND(NOT(c.isnone_any(c.self, attr)), AND(n > 1, n != (size if by else c.ncomb))))
        c.raises("ValueError", OR(*bad))
        c.call()
        c.frame([])


# ---- calibration recorders --------------------------------------------------------------------------------------------------------------
def calibration(cls, f):
    for one in (True, False):
        @contract("P25", f"{CAL}:{cls}.values", label=f"{cls}.values" + (", one observed series" if one else ", one observed series per scenario"))
        def g(c, one=one):
            n, s, sim = recorded(c)
            m = z3.IntVal(1) if one else c.ncomb
            given_ = z3.Function("observed", I, I, R)
            obs_ = A("double", [n, m], ("G", lambda _s, t, i: given_(t, i)), None, False)
            c.ex.side["attr"]["AbstractComparisonNodeRecorder._aligned_observed"] = lambda e, st, o: obs_
            obs = lambda t: given_(t, z3.IntVal(0) if one else s)
            c.call()
            c.ensure("one value per scenario", c.ret.dims[0] == c.ncomb)
            c.ensure("the published measure of the scenario's flows against the observed ones", c.ret_at(s) == f(c, n, sim, obs))
            c.frame([])


N = lambda n: z3.ToReal(n)
sq = lambda x: x * x
mse = lambda c, n, sim, obs: c.sum(n, lambda t: sq(obs(t) - sim(t))) / N(n)
calibration("MeanSquareErrorNodeRecorder", mse)
calibration("RootMeanSquaredErrorNodeRecorder", lambda c, n, sim, obs: c.uf("sqrt!", mse(c, n, sim, obs)))
calibration("MeanAbsoluteErrorNodeRecorder", lambda c, n, sim, obs: c.sum(n, lambda t: z3.If(obs(t) >= sim(t), obs(t) - sim(t), sim(t) - obs(t))) / N(n))
calibration("PercentBiasNodeRecorder", lambda c, n, sim, obs: c.sum(n, lambda t: obs(t) - sim(t)) * 100 / c.sum(n, obs))
calibration("RMSEStandardDeviationRatioNodeRecorder", lambda c, n, sim, obs: c.uf("sqrt!", mse(c, n, sim, obs)) / c.opq("std", n, obs))
calibration("NashSutcliffeEfficiencyNodeRecorder", lambda c, n, sim, obs: 1 - c.sum(n, lambda t: sq(obs(t) - sim(t))) / c.sum(n, lambda t: sq(obs(t) - c.sum(n, obs) / N(n))))
