import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
import z3
from core import Ref, R, I, B, NONE, NAN, INF, DBL_MAX, TRUE, FALSE
from values import *
import values as _v
from contract import contract, CONTRACTS, Ctx

TOL = z3.RealVal("1/1000000")


def AND(*xs): return _v.AND(list(xs))
def OR(*xs): return _v.OR(list(xs))


def lift(a, like=None):
    if isinstance(a, bool): return z3.BoolVal(a)
    if isinstance(a, int): return z3.IntVal(a) if like is not None and like.sort() == I else z3.RealVal(a)
    if isinstance(a, float): return z3.RealVal(repr(a))
    return a


def ITE(c, a, b):
    la = a if isinstance(a, z3.ExprRef) else None
    lb = b if isinstance(b, z3.ExprRef) else None
    return _v.ITE(c, lift(a, lb), lift(b, la))


def absr(x): return z3.If(x >= 0, x, -x)
def mn(a, b): a = lift(a); b = lift(b); return z3.If(a < b, a, b)
def mx(a, b): a = lift(a); b = lift(b); return z3.If(a > b, a, b)
def fin(x): return AND(x != NAN, x != INF, x != -INF)


def pv(c, o, attr, param, i, st=None):
    """Constant-or-parameter attribute: the value in scenario i."""
    v = st or c.old
    p = v.obj(o, param)
    return z3.If(p.t == NONE, v.get(o, attr), values_of(c, p, i, v))


def values_of(c, p, i, v=None):
    """Value of parameter p in scenario i (in the given state)."""
    v = v or c.old
    ex = c.ex
    return ex.rd(v.st, ex.load(v.st, "Parameter.__values", p.t, "double[1]"), i)


def indices_of(c, p, i, v=None):
    v = v or c.old
    ex = c.ex
    return ex.rd(v.st, ex.load(v.st, "IndexParameter.__indices", p.t, "int[1]"), i)


def is_constant(c, p, v=None):
    v = v or c.old
    return v.get(p, "is_constant")


def constval(c, p): return c.ex.lib.fn("constant_value", Ref, R)(p.t)


def cal(c):
    """A timestep with the slots established by Timestep.__init__ (P06)."""
    ts = c.ts()
    v = c.old
    d, w, m, y = (v.get(ts, a) for a in ("dayofyear_index", "week_index", "month", "year"))
    c.require(d >= 0, d <= 365, w >= 0, w <= 51, m >= 1, m <= 12, y >= 1)
    return ts


def leap(y): return AND(y % 4 == 0, OR(y % 100 != 0, y % 400 == 0))


def member(c, si, attr="_scenario_index"):
    """The member index of the parameter's scenario in this combination."""
    v = c.old
    k = v.get(c.self, attr)
    c.require(k >= 0, k < v.dim(si, "_indices"))
    return v.get(si, "_indices", k)


def current(c, exact=True):
    """The timestep the model is in."""
    m = c.old.obj(c.self, "model")
    tp = c.old.obj(m, "timestepper")
    c.require(m.t != NONE, tp.t != NONE)
    return c.known(c.old.obj(tp, "_current"), "Timestep", exact=exact)


def accessor(c, name):
    """Contract of the virtual node accessor get_<name>(scenario): pure, one value per node and scenario (what it is: P05).
    Returns the term of that value for an object and a scenario number."""
    fn = c.ex.lib.fn("node_" + name, Ref, I, R)
    def f(e, st, o, args, kw):
        si = args[0] if args else kw["scenario_index"]
        return S(fn(o.t, e.field(st, "ScenarioIndex.global_id", si.t, I)), "double")
    for cls in ("AbstractNode", "Node", "AbstractStorage", "Storage", "BaseInput", "Link", "Output"): c.ex.side["methods"][f"{cls}.get_{name}"] = f
    c.ex.assumed.add(f"get_{name}(scenario) of any node is a pure function of node and scenario within the step (its value: P05)")
    return lambda o, i: fn(o.t, i)


def own(c, **hs):
    """Contracts of the model's other methods, used at call sites in the one under proof."""
    for k, h in hs.items():
        c.ex.side.setdefault("own", set()).add(k)
        c.ex.side["methods"]["Model." + k] = h
