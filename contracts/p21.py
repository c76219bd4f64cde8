"""P21: annual counts and totals attribute each timestep to exactly one reporting year."""
from common import *

M = "pywr.recorders._recorders"
AC, AT, AP = "AnnualCountIndexThresholdRecorder", "AnnualTotalFlowRecorder", "AnnualCountIndexParameterRecorder"


def z(x): return 0 if x.sort() == I else z3.RealVal(0)
def one(x): return z3.IntVal(1) if x.sort() == I else z3.RealVal(1)




@contract("P21", f"{M}:{AC}.after")
def annual_count(c):
    v, s = c.old, c.self
    ts = current(c)
    y, m, doy = (v.get(ts, a) for a in ("year", "month", "dayofyear"))
    cy, sy = v.get(s, "_current_year"), v.get(s, "_start_year")
    n = v.val(s, "parameters").dims[0]
    c.require(n >= 1, v.dim(s, "_data_this_year", 0) == n, v.dim(s, "_data_this_year", 1) == c.ncomb, v.dim(s, "_data", 1) == c.ncomb)
    rows = v.dim(s, "_data", 0)
    c.require(y >= sy, sy >= 1, y - sy < rows, OR(cy == -1, AND(cy >= sy, cy - sy < rows)), v.get(s, "_ncomb") == c.ncomb)
    f = c.ex.lib.fn("dayofyear", I, I, I, I)
    def stamp(e, st, a, kw):
        e._cur = st
        d = f(*[(x.v if isinstance(x, Opt) else x).t for x in a])
        return Fn("record", fields={"dayofyear": S(d, "int")})
    c.ex.side["ext"]["pandas.Timestamp"] = c.ex.side["ext"]["pd.Timestamp"] = stamp
    new = y != cy
    val = lambda a: v.get(s, a)
    given = lambda a, b: NOT(OR(c.isnone_any(s, a), c.isnone_any(s, b)))
    lo = z3.If(given("include_from_month", "include_from_day"), f(y, val("include_from_month"), val("include_from_day")), z3.IntVal(1))
    hi = z3.If(given("include_to_month", "include_to_day"), f(y, val("include_to_month"), val("include_to_day")), z3.IntVal(366))
    xm = v.val(s, "exclude_months")
    xa = xm.v if isinstance(xm, Opt) else xm
    excluded = AND(NOT(c.isnone_any(s, "exclude_months")), c.any(xa.dims[0], lambda k: v.rd(xa, k) == m))
    counts = AND(NOT(excluded), lo <= doy, doy <= hi)
    k, i, r = c.idx("k", n), c.idx("i", c.ncomb), c.idx("r", rows)
    par = lambda k: v.obj(s, "parameters", k)
    hit = lambda k: indices_of(c, par(k), i) >= v.get(s, "threshold")
    first = c.first(n, hit)
    before = v.get(s, "_data_this_year", k, i)
    base = z3.If(new, z3.RealVal(0), before)
    done = c.sum(n, lambda j: v.get(s, "_data_this_year", j, i))
    row = z3.If(AND(new, cy != -1, r == cy - sy), done, v.get(s, "_data", r, i))
    c.call()
    c.ensure("counted once, in the year of the step, when in season", c.new.get(s, "_data_this_year", k, i) == base + z3.If(AND(counts, k == first), z3.RealVal(1), z3.RealVal(0)))
    c.ensure("a year's count is kept when the next begins", c.new.get(s, "_data", r, i) == row)
    c.ensure("the year being counted is the step's", c.new.get(s, "_current_year") == y)
    c.frame([(f"{AC}._data", s.t), (f"{AC}._data_this_year", s.t), (f"{AC}._current_year", s.t)])


@contract("P21", f"{M}:{AC}.finish")
def annual_count_finish(c):
    v, s = c.old, c.self
    n = v.val(s, "parameters").dims[0]
    cy, sy, rows = v.get(s, "_current_year"), v.get(s, "_start_year"), v.dim(s, "_data", 0)
    c.require(n >= 1, v.dim(s, "_data_this_year", 0) == n, v.dim(s, "_data_this_year", 1) == c.ncomb, v.dim(s, "_data", 1) == c.ncomb,
              v.get(s, "_ncomb") == c.ncomb, cy >= sy, cy - sy < rows)
    r, i = c.idx("r", rows), c.idx("i", c.ncomb)
    # the table of the year has one row per parameter
    done = c.sum(n, lambda j: v.get(s, "_data_this_year", j, i))
    want = z3.If(r == cy - sy, done, v.get(s, "_data", r, i))
    c.call()
    c.ensure("the last year's count is kept", c.new.get(s, "_data", r, i) == want)
    c.frame([(f"{AC}._data", s.t)])


for q in (AC, AT):
    @contract("P21", f"{M}:{q}.reset", label=f"{q}.reset")
    def g(c, q=q):
        v, s = c.old, c.self
        c.require(v.dim(s, "_data", 1) == c.ncomb)
        r, i = c.idx("r", v.dim(s, "_data", 0)), c.idx("i", c.ncomb)
        start = c.free("start_year", I)
        year_of(c, start)
        c.call()
        c.ensure("nothing counted", c.new.get(s, "_data", r, i) == 0)
        c.ensure("no year begun", c.new.get(s, "_current_year") == -1)
        c.ensure("years are counted from the first", c.new.get(s, "_start_year") == start)
        c.frame([(f"{q}.{a}", s.t) for a in ("_data", "_current_year", "_start_year")])

    @contract("P21", f"{M}:{q}.setup", label=f"{q}.setup")
    def h(c, q=q):
        s = c.self
        a, b = c.free("start_year", I), c.free("end_year", I)
        c.require(b >= a)
        year_of(c, a, b)
        c.call()
        c.ensure("a row for every calendar year of the run", c.new.dim(s, "_data", 0) == b - a + 1)
        c.ensure("a column for every scenario", c.new.dim(s, "_data", 1) == c.ncomb)


def year_of(c, start, end=None):
    """The years of the first and last date of the timestepper."""
    m = c.old.obj(c.self, "model"); c.require(m.t != NONE)
    tp = c.old.obj(m, "timestepper"); c.require(tp.t != NONE)
    c.ex.side["attr"]["Timestepper.start"] = lambda e, st, o: Fn("record", fields={"year": S(start, "int")})
    c.ex.side["attr"]["Timestepper.end"] = lambda e, st, o: Fn("record", fields={"year": S(end, "int")})


@contract("P21", f"{M}:{AT}.after")
def annual_total(c):
    v, s = c.old, c.self
    ts = current(c, exact=False)
    y, sy, days = v.get(ts, "year"), v.get(s, "_start_year"), v.get(ts, "days")
    a, b = c.free("days_this_year"), c.free("days_next_year")
    c.ex.side["methods"]["Timestep.days_in_current_year"] = lambda e, st, o, x, k: S(a, "double")
    c.ex.side["methods"]["Timestep.days_in_next_year"] = lambda e, st, o, x, k: S(b, "double")
    # the two parts make up the step (Timestep.days_in_*_year, P06)
    c.require((a == days) == (b == 0))
    rows = v.dim(s, "_data", 0)
    n = v.val(s, "nodes").dims[0]
    c.require(y >= sy, y - sy < rows, v.dim(s, "_data", 1) == c.ncomb, v.get(s, "_ncomb") == c.ncomb, v.dim(s, "_factors") == n, n >= 1)
    r, i = c.idx("r", rows), c.idx("i", c.ncomb)
    t = y - sy
    x = v.get(s, "_data", r, i)
    flow = lambda j: v.get(v.obj(s, "nodes", j), "_flow", i)
    fac = lambda j: v.get(s, "_factors", j)
    this = c.fold(n, x, lambda j, acc: acc + flow(j) * a * fac(j))
    nxt = c.fold(n, x, lambda j, acc: acc + flow(j) * b * fac(j))
    c.call()
    new = c.new.get(s, "_data", r, i)
    c.ensure("the year of the step gets the flow of the days that fall into it", OR(r != t, new == this))
    c.ensure("the next year gets the flow of the days that fall into it", OR(r != t + 1, b == 0, new == nxt))
    c.ensure("a step within a year adds nothing to the next", OR(r != t + 1, b != 0, new == x))
    c.ensure("other years stay", OR(r == t, r == t + 1, new == x))
    c.frame([(f"{AT}._data", s.t)])


@contract("P21", f"{M}:{AP}.after")
def annual_index(c):
    v, s = c.old, c.self
    ts = current(c)
    p = c.known(v.obj(s, "_param"), "IndexParameter", exact=False)
    for a in ("_count", "_current_max"): c.require(v.dim(s, a) == c.ncomb)
    i = c.idx("i", c.ncomb)
    y, cy = v.get(ts, "year"), v.get(s, "_current_year")
    c.require(y >= 1)
    top, ix = v.get(s, "_current_max", i), indices_of(c, p, i)
    new = y != cy
    base = z3.If(new, z3.IntVal(0), top)
    n = v.get(s, "_count", i) + z3.If(AND(new, cy != -1, top >= v.get(s, "threshold")), z3.IntVal(1), z3.IntVal(0))
    c.call()
    c.ensure("the year's highest index", c.new.get(s, "_current_max", i) == z3.If(ix > base, ix, base))
    c.ensure("a year that reached the threshold is counted once, when the next begins", c.new.get(s, "_count", i) == n)
    c.ensure("the year being watched is the step's", c.new.get(s, "_current_year") == y)
    c.frame([(f"{AP}.{a}", s.t) for a in ("_count", "_current_max", "_current_year")])


@contract("P21", f"{M}:{AP}.finish")
def annual_index_finish(c):
    v, s = c.old, c.self
    for a in ("_count", "_current_max"): c.require(v.dim(s, a) == c.ncomb)
    i = c.idx("i", c.ncomb)
    n = v.get(s, "_count", i) + z3.If(v.get(s, "_current_max", i) >= v.get(s, "threshold"), z3.IntVal(1), z3.IntVal(0))
    c.call()
    c.ensure("the last year is counted", c.new.get(s, "_count", i) == n)
    c.frame([(f"{AP}._count", s.t)])


@contract("P21", f"{M}:{AP}.reset")
def annual_index_reset(c):
    v, s = c.old, c.self
    for a in ("_count", "_current_max"): c.require(v.dim(s, a) == c.ncomb)
    i = c.idx("i", c.ncomb)
    c.call()
    c.ensure("nothing counted", AND(c.new.get(s, "_count", i) == 0, c.new.get(s, "_current_max", i) == 0))
    c.ensure("no year begun", c.new.get(s, "_current_year") == -1)
    c.frame([(f"{AP}.{a}", s.t) for a in ("_count", "_current_max", "_current_year")])


@contract("P21", f"{M}:{AP}.values")
def annual_index_values(c):
    c.require(c.old.dim(c.self, "_count") == c.ncomb)
    c.call()
    c.ensure_array("the years counted", c.ncomb, lambda k: z3.ToReal(c.old.get(c.self, "_count", k)))
    c.frame([])
