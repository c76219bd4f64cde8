"""P03: storage volumes."""
from common import *


def vol_spec(c, self, ts, i, v_in, mxv, mnv):
    near = lambda a, b: absr(a - b) < TOL
    v1 = ITE(near(v_in, mxv), mxv, v_in)
    return ITE(near(v1, mnv), mnv, v1)


@contract("P03", "pywr._core:Storage.after")
def storage_after(c):
    ts = c.ts()
    i = c.idx("i", c.ncomb)
    old = c.old
    mxv = pv(c, c.self, "_max_volume", "_max_volume_param", i)
    mnv = pv(c, c.self, "_min_volume", "_min_volume_param", i)
    flow = old.get(c.self, "_flow", i)
    v0 = old.get(c.self, "_volume", i) + flow * old.get(ts, "days")
    c.call(ts)
    v = vol_spec(c, c.self, ts, i, v0, mxv, mnv)
    c.ensure("volume", c.new.get(c.self, "_volume", i) == v)
    c.ensure("current_pc", c.new.get(c.self, "_current_pc", i) == ITE(mxv == 0, NAN, v / mxv))
    c.ensure("prev_flow", c.new.get(c.self, "_prev_flow", i) == flow)
    s = c.self.t
    c.frame([("AbstractStorage._volume", s), ("AbstractStorage._current_pc", s), ("AbstractNode._prev_flow", s)])


@contract("P03", "pywr._core:Storage.after", label="Storage.after with an adjustment (virtual storages)")
def storage_after_adj(c):
    ts = c.ts()
    adj = c.array("adj", c.ncomb)
    i = c.idx("i", c.ncomb)
    old = c.old
    mxv = pv(c, c.self, "_max_volume", "_max_volume_param", i)
    mnv = pv(c, c.self, "_min_volume", "_min_volume_param", i)
    flow = old.get(c.self, "_flow", i)
    v0 = old.get(c.self, "_volume", i) + flow * old.get(ts, "days") + old.rd(adj, i)
    v0 = ITE(v0 > mnv, v0, mnv)
    v0 = ITE(v0 < mxv, v0, mxv)
    c.call(ts, adj)
    v = vol_spec(c, c.self, ts, i, v0, mxv, mnv)
    c.ensure("volume", c.new.get(c.self, "_volume", i) == v)
    c.ensure("current_pc", c.new.get(c.self, "_current_pc", i) == ITE(mxv == 0, NAN, v / mxv))


def initial(c, s, st=None):
    """(absolute, proportional, raises) initial volume of a storage as documented."""
    v = st or c.old
    a, p = v.get(s, "_initial_volume"), v.get(s, "_initial_volume_pc")
    fin = lambda x: AND(x != NAN, x != INF, x != -INF)
    par = v.obj(s, "_max_volume_param")
    ispar = par.t != NONE
    const = AND(ispar, is_constant(c, par, v))
    cv = constval(c, par)
    mx = ITE(ispar, cv, v.get(s, "_max_volume"))
    var = AND(ispar, NOT(const))
    bad = ITE(var, OR(NOT(fin(a)), NOT(fin(p))), AND(NOT(fin(a)), NOT(fin(p))))
    vol = ITE(var, a, ITE(fin(p), p * mx, a))
    pc = ITE(var, p, ITE(fin(p), p, ITE(mx == 0, NAN, a / mx)))
    return vol, pc, bad


@contract("P03", "pywr._core:Storage.get_initial_volume")
def get_initial_volume(c):
    vol, pc, bad = initial(c, c.self)
    c.raises("RuntimeError", bad)
    c.call()
    c.ensure_ret("documented initial volume", vol)


@contract("P03", "pywr._core:Storage.get_initial_pc")
def get_initial_pc(c):
    vol, pc, bad = initial(c, c.self)
    c.raises("RuntimeError", bad)
    c.call()
    c.ensure_ret("documented initial proportion", pc)


@contract("P03", "pywr._core:Storage.reset")
def storage_reset(c):
    i = c.idx("i", c.ncomb)
    vol, pc, bad = initial(c, c.self)
    c.raises("RuntimeError", bad)
    c.call()
    c.ensure("volume", c.new.get(c.self, "_volume", i) == vol)
    c.ensure("current_pc", c.new.get(c.self, "_current_pc", i) == pc)
    c.ensure("flow", c.new.get(c.self, "_flow", i) == 0)
    c.ensure("prev_flow", c.new.get(c.self, "_prev_flow", i) == 0)


@contract("P03", "pywr._core:Storage._reset_storage_only", label="Storage._reset_storage_only to the maximum volume")
def storage_reset_max(c):
    i = c.idx("i", c.ncomb)
    mxv = pv(c, c.self, "_max_volume", "_max_volume_param", i)
    c.call(S(FALSE, "bint"))
    c.ensure("volume", c.new.get(c.self, "_volume", i) == mxv)
    c.ensure("current_pc", c.new.get(c.self, "_current_pc", i) == ITE(mxv == 0, NAN, 1))


@contract("P03", "pywr._core:AbstractStorage.get_current_pc")
def get_current_pc(c):
    si = c.si()
    x = c.old.get(c.self, "_current_pc", c.gid(si))
    c.require(x != INF, x != -INF)
    c.call(si)
    c.ensure_ret("clamped", ITE(x == NAN, 1, ITE(x > 1, 1, ITE(x < 0, 0, x))))


def members(c, name, n, i, f):
    """Sum over an aggregated storage's members of f(member)."""
    return c.sum(n, f)


@contract("P03", "pywr._core:AggregatedStorage.after")
def agg_after(c):
    ts = c.ts()
    i = c.idx("i", c.ncomb)
    old = c.old
    n = old.dim(c.self, "_storage_nodes")
    m = lambda k: old.obj(c.self, "_storage_nodes", k)
    flow = c.sum(n, lambda k: old.get(m(k), "_flow", i))
    mxv = c.sum(n, lambda k: pv(c, m(k), "_max_volume", "_max_volume_param", i))
    mnv = c.sum(n, lambda k: pv(c, m(k), "_min_volume", "_min_volume_param", i))
    v0 = old.get(c.self, "_volume", i) + flow * old.get(ts, "days")
    c.call(ts)
    v = vol_spec(c, c.self, ts, i, v0, mxv, mnv)
    c.ensure("flow", c.new.get(c.self, "_flow", i) == flow)
    c.ensure("volume", c.new.get(c.self, "_volume", i) == v)
    c.ensure("current_pc", c.new.get(c.self, "_current_pc", i) == ITE(mxv == 0, NAN, v / mxv))
