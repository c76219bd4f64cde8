"""P05: a node attribute reads the same whichever way it is asked for."""
from common import *

ATTRS = [("Node", "cost", "_cost", "_cost_param"), ("Node", "min_flow", "_min_flow", "_min_flow_param"), ("Node", "max_flow", "_max_flow", "_max_flow_param"),
         ("Storage", "cost", "_cost", "_cost_param"), ("Storage", "min_volume", "_min_volume", "_min_volume_param"),
         ("Storage", "max_volume", "_max_volume", "_max_volume_param"),
         ("AggregatedNode", "min_flow", "_min_flow", "_min_flow_param"), ("AggregatedNode", "max_flow", "_max_flow", "_max_flow_param")]


def scalar(cls, attr, f, p):
    @contract("P05", f"pywr._core:{cls}.get_{attr}")
    def one(c):
        si = c.si()
        want = pv(c, c.self, f, p, c.gid(si))
        c.call(si)
        c.ensure_ret("value", want)
        c.frame([])

def vector(cls, attr, f, p):
    @contract("P05", f"pywr._core:{cls}.get_all_{attr}")
    def all_(c):
        c.call()
        c.ensure_array("values", c.ncomb, lambda i: pv(c, c.self, f, p, i))
        c.frame([])

    @contract("P05", f"pywr._core:{cls}.get_all_{attr}", label=f"pywr._core:{cls}.get_all_{attr} into a given array")
    def all_out(c):
        out = c.array("out", c.ncomb)
        i = c.idx("i", c.ncomb)
        c.call(out)
        c.ensure("written", c.new.rd(out, i) == pv(c, c.self, f, p, i))
        c.ensure_array("values", c.ncomb, lambda i: pv(c, c.self, f, p, i))


for a in ATTRS:
    scalar(*a); vector(*a)
scalar("Storage", "level", "_level", "_level_param")
scalar("Storage", "area", "_area", "_area_param")


@contract("P05", "pywr._core:AbstractNode.get_cost")
def base_cost(c):
    c.call(c.si())
    c.ensure_ret("zero", z3.RealVal(0))


@contract("P05", "pywr._core:AbstractNode.get_all_cost")
def base_all_cost(c):
    c.call()
    c.ensure_array("zero", c.ncomb, lambda i: z3.RealVal(0))


def inlet(cls, sign):
    @contract("P05", f"pywr._core:{cls}.get_cost")
    def cost(c):
        si = c.si()
        par = c.parent_storage()
        want = sign * pv(c, par, "_cost", "_cost_param", c.gid(si))
        c.call(si)
        c.ensure_ret("cost of the storage", want)

    @contract("P05", f"pywr._core:{cls}.get_all_cost")
    def all_cost(c):
        par = c.parent_storage()
        c.call()
        c.ensure_array("cost of the storage", c.ncomb, lambda i: sign * pv(c, par, "_cost", "_cost_param", i))


inlet("StorageInput", -1)
inlet("StorageOutput", 1)


def setter(cls, attr, f, p, none=None):
    """Setting a constant or a parameter makes exactly that the source of the value."""
    @contract("P05", f"pywr._core:{cls}.{attr}.set", label=f"{cls}.{attr} set to a number")
    def number(c):
        x = c.double("x")
        c.call(x)
        c.ensure("no parameter", c.new.obj(c.self, p).t == NONE)
        c.ensure("value", c.new.get(c.self, f) == x.t)

    @contract("P05", f"pywr._core:{cls}.{attr}.set", label=f"{cls}.{attr} set to a parameter")
    def param(c):
        q = c.new_obj("q", "Parameter")
        c.call(q)
        c.ensure("parameter", c.new.obj(c.self, p).t == q.t)

    if none is not None:
        @contract("P05", f"pywr._core:{cls}.{attr}.set", label=f"{cls}.{attr} set to None")
        def none_(c):
            c.call(NV)
            c.ensure("no parameter", c.new.obj(c.self, p).t == NONE)
            c.ensure("value", c.new.get(c.self, f) == none)


for a in ATTRS:
    nv = {("Node", "min_flow"): z3.RealVal(0), ("Node", "max_flow"): INF, ("AggregatedNode", "max_flow"): INF}.get(a[:2])
    setter(*a, none=nv)
setter("Storage", "level", "_level", "_level_param", none=z3.RealVal(0))
setter("Storage", "area", "_area", "_area_param", none=z3.RealVal(0))


def getter(cls, attr, f, p):
    @contract("P05", f"pywr._core:{cls}.get_constant_{attr}")
    def const(c):
        q = c.old.obj(c.self, p)
        c.call()
        c.ensure_ret("constant or not-a-number", ITE(q.t == NONE, c.old.get(c.self, f), ITE(is_constant(c, q), constval(c, q), NAN)))

    @contract("P05", f"pywr._core:{cls}.get_fixed_{attr}")
    def fixed(c):
        q, r = c.old.obj(c.self, "_min_flow_param"), c.old.obj(c.self, "_max_flow_param")
        c.call()
        c.ensure_ret("fixed or not-a-number", ITE(AND(q.t == NONE, r.t == NONE), c.old.get(c.self, f), NAN))


getter("Node", "min_flow", "_min_flow", "_min_flow_param")
getter("Node", "max_flow", "_max_flow", "_max_flow_param")
