"""P02: solved flows are credited exactly; previous flows are those of the end of the step."""
from common import *


def flow(c, o, i, v): return v.get(o, "_flow", i)


@contract("P02", "pywr._core:AbstractNode.commit")
def commit(c):
    i, k = c.idx("i", c.ncomb), c.idx("k", c.ncomb)
    x = c.double("x")
    old = flow(c, c.self, k, c.old)
    c.call(S(i, "int"), x)
    c.ensure("credited once, to that scenario", flow(c, c.self, k, c.new) == ITE(k == i, old + x.t, old))
    c.frame([("AbstractNode._flow", c.self.t)])


@contract("P02", "pywr._core:AbstractNode.commit_all")
def commit_all(c):
    k = c.idx("k", c.ncomb)
    v = c.array("v", c.ncomb)
    c.call(v)
    c.ensure("credited", flow(c, c.self, k, c.new) == flow(c, c.self, k, c.old) + c.old.rd(v, k))
    c.frame([("AbstractNode._flow", c.self.t)])


@contract("P02", "pywr._core:AbstractNode.before")
def before(c):
    k = c.idx("k", c.ncomb)
    c.call(c.ts())
    c.ensure("zero", flow(c, c.self, k, c.new) == 0)
    c.frame([("AbstractNode._flow", c.self.t)])


@contract("P02", "pywr._core:AbstractNode.after")
def after(c):
    k = c.idx("k", c.ncomb)
    c.call(c.ts())
    c.ensure("saved", c.new.get(c.self, "_prev_flow", k) == flow(c, c.self, k, c.old))
    c.frame([("AbstractNode._prev_flow", c.self.t)])


@contract("P02", "pywr._core:AbstractNode.reset")
def reset(c):
    k = c.idx("k", c.ncomb)
    c.call()
    c.ensure("flow", flow(c, c.self, k, c.new) == 0)
    c.ensure("prev_flow", c.new.get(c.self, "_prev_flow", k) == 0)
    c.frame([("AbstractNode._prev_flow", c.self.t), ("AbstractNode._flow", c.self.t)])


@contract("P02", "pywr._core:AggregatedNode.after")
def agg(c):
    i = c.idx("i", c.ncomb)
    n = c.old.dim(c.self, "_nodes")
    m = lambda k: c.old.obj(c.self, "_nodes", k)
    nw = c.old.isnone(c.self, "_flow_weights")
    c.require(OR(nw, c.old.dim(c.self, "_flow_weights") == n))
    w = lambda k: ITE(nw, 1, c.old.get(c.self, "_flow_weights", k))
    total = c.sum(n, lambda k: c.old.get(m(k), "_flow", i) * w(k))
    c.call(c.ts())
    c.ensure("weighted sum", flow(c, c.self, i, c.new) == total)
    c.ensure("prev_flow", c.new.get(c.self, "_prev_flow", i) == total)
    c.frame([("AbstractNode._prev_flow", c.self.t), ("AbstractNode._flow", c.self.t)])


def inlet(cls, sign):
    @contract("P02", f"pywr._core:{cls}.commit")
    def one(c):
        par = c.parent_storage()
        i, k = c.idx("i", c.ncomb), c.idx("k", c.ncomb)
        x = c.double("x")
        o, p = flow(c, c.self, k, c.old), flow(c, par, k, c.old)
        c.call(S(i, "int"), x)
        c.ensure("own flow", flow(c, c.self, k, c.new) == ITE(k == i, o + x.t, o))
        c.ensure("net flow of the storage", flow(c, par, k, c.new) == ITE(k == i, p + sign * x.t, p))
        c.frame([("AbstractNode._flow", c.self.t), ("AbstractNode._flow", par.t)])

    @contract("P02", f"pywr._core:{cls}.commit_all")
    def all_(c):
        par = c.parent_storage()
        k = c.idx("k", c.ncomb)
        v = c.array("v", c.ncomb)
        o, p = flow(c, c.self, k, c.old), flow(c, par, k, c.old)
        c.call(v)
        c.ensure("own flow", flow(c, c.self, k, c.new) == o + c.old.rd(v, k))
        c.ensure("net flow of the storage", flow(c, par, k, c.new) == p + sign * c.old.rd(v, k))
        c.frame([("AbstractNode._flow", c.self.t), ("AbstractNode._flow", par.t)])


inlet("StorageInput", -1)
inlet("StorageOutput", 1)


def compound(cls, attr):
    @contract("P02", f"pywr.nodes:{cls}.after")
    def f(c):
        i = c.idx("i", c.ncomb)
        part = c.old.obj(c.self, attr)
        c.require(part.t != NONE)
        x = flow(c, part, i, c.old)
        o = flow(c, c.self, i, c.old)
        c.call(c.ts())
        c.ensure("flow of its part", flow(c, c.self, i, c.new) == o + x)
        c.ensure("prev_flow", c.new.get(c.self, "_prev_flow", i) == o + x)
        c.frame([("AbstractNode._prev_flow", c.self.t), ("AbstractNode._flow", c.self.t)])


compound("BreakLink", "link")
compound("DelayNode", "input")
compound("LossLink", "net")


@contract("P02", "pywr.nodes:PiecewiseLink.after")
def piecewise(c):
    i = c.idx("i", c.ncomb)
    n = c.old.dim(c.self, "sublinks")
    tot = c.sum(n, lambda k: c.old.get(c.old.obj(c.self, "sublinks", k), "_flow", i))
    o = flow(c, c.self, i, c.old)
    c.call(c.ts())
    c.ensure("sum of the steps", flow(c, c.self, i, c.new) == o + tot)
    c.ensure("prev_flow", c.new.get(c.self, "_prev_flow", i) == o + tot)
