"""P14: delayed and rolling parameters reproduce the right part of the history."""
from common import *

M = "pywr.parameters._parameters"


def setup(c, rows=True):
    """Shape of the memory established by setup(): one row per remembered timestep."""
    v = c.old
    n, p = v.get(c.self, "timesteps"), v.get(c.self, "_memory_pointer")
    c.require(n >= 1, p >= 0, p < n, v.dim(c.self, "_memory", 0) == n, v.dim(c.self, "_memory", 1) == c.ncomb)
    return n, p


@contract("P14", f"{M}:FlowDelayParameter.value")
def delay_value(c):
    si = c.si()
    n, p = setup(c)
    c.call(c.ts(), si)
    c.ensure_ret("the remembered flow at the pointer", c.old.get(c.self, "_memory", p, c.gid(si)))
    c.frame([])


def watched(c, attr="node"): return c.known(c.old.obj(c.self, attr), c.P.find_class("AbstractNode"), exact=False)


@contract("P14", f"{M}:FlowDelayParameter.after")
def delay_after(c):
    n, p = setup(c)
    node = watched(c)
    i, k = c.idx("i", c.ncomb), c.idx("k", n)
    c.call()
    c.ensure("this step's flow replaces the oldest one, the others stay",
             c.new.get(c.self, "_memory", k, i) == z3.If(k == p, c.old.get(node, "_flow", i), c.old.get(c.self, "_memory", k, i)))
    c.ensure("the pointer advances by one around the memory", c.new.get(c.self, "_memory_pointer") == z3.If(p + 1 == n, z3.IntVal(0), p + 1))
    c.frame([("FlowDelayParameter._memory", c.self.t), ("FlowDelayParameter._memory_pointer", c.self.t)])


@contract("P14", f"{M}:FlowDelayParameter.reset")
def delay_reset(c):
    n, p = setup(c)
    i, k = c.idx("i", c.ncomb), c.idx("k", n)
    c.call()
    c.ensure("initial flow everywhere", c.new.get(c.self, "_memory", k, i) == c.old.get(c.self, "initial_flow"))
    c.ensure("pointer at the start", c.new.get(c.self, "_memory_pointer") == 0)


# The history a delay parameter remembers: the invariant below is established by reset (lemma base), preserved by after() (lemma
# step) and gives the delayed flow (lemma use); ghost flow(t, i) is the flow of the watched node at the end of step t.
def hist(c, v, t, flow, i, k, n):
    """Slot k holds the flow of the last step s < t with s mod n == k, or the initial flow if there is none."""
    q = (t - 1 - k) / n                                    # floor division (z3 Int)
    s = q * n + k
    return z3.If(t > k, flow(s, i), v.get(c.self, "initial_flow"))


@contract("P14", f"{M}:FlowDelayParameter.reset", label="FlowDelayParameter: history after reset")
def delay_inv0(c):
    n, p = setup(c)
    flow = z3.Function("ghost_flow", I, I, R)
    i, k = c.idx("i", c.ncomb), c.idx("k", n)
    c.call()
    c.ensure("memory holds the (empty) history", c.new.get(c.self, "_memory", k, i) == hist(c, c.old, z3.IntVal(0), flow, i, k, n))
    c.ensure("pointer is the step modulo the delay", c.new.get(c.self, "_memory_pointer") == 0)


@contract("P14", f"{M}:FlowDelayParameter.after", label="FlowDelayParameter: history after a step")
def delay_inv(c):
    n, p = setup(c)
    node = watched(c)
    flow = z3.Function("ghost_flow", I, I, R)
    t = c.free("t", I)
    i, k = c.idx("i", c.ncomb), c.idx("k", n)
    c.require(t >= 0, p == t % n, c.old.get(node, "_flow", i) == flow(t, i))
    c.require(c.old.get(c.self, "_memory", k, i) == hist(c, c.old, t, flow, i, k, n))
    q = c.free("q", I); r = c.free("r", I)                 # division facts: t = q n + r
    c.require(t == q * n + r, r >= 0, r < n, t % n == r, t / n == q)
    for a, nm in ((t - 1 - k, "a"), (t - k, "b")):
        x, y = c.free(f"q{nm}", I), c.free(f"r{nm}", I)
        c.require(a == x * n + y, y >= 0, y < n, a / n == x)
        # two divisions by n: the quotients differ by at most what the numerators allow
        for u, w in ((x - q, r - y - k - (1 if nm == "a" else 0)),):
            c.require(OR(AND(u == 0, w == 0), AND(u == -1, w == -n), u < -1, u > 0), OR(u >= -1, w <= -2 * n), OR(u <= 0, w >= n))
    c.call()
    c.ensure("memory holds the history", c.new.get(c.self, "_memory", k, i) == hist(c, c.old, t + 1, flow, i, k, n))
    c.ensure("pointer is the step modulo the delay", c.new.get(c.self, "_memory_pointer") == z3.If(r + 1 == n, z3.IntVal(0), r + 1))


def rolling(c):
    v = c.old
    n, p = v.get(c.self, "timesteps"), v.get(c.self, "position")
    c.require(n >= 1, p >= 0, p < n, v.dim(c.self, "_memory", 1) == n, v.dim(c.self, "_memory", 0) == c.ncomb)
    return n, p


@contract("P14", f"{M}:RollingMeanFlowNodeParameter.value")
def rolling_value(c):
    ts, si = c.ts(), c.si()
    n, p = rolling(c)
    t = c.old.get(ts, "index")
    w = z3.If(t <= n, t, n)
    tot = c.sum(w, lambda k: c.old.get(c.self, "_memory", c.gid(si), k))
    c.call(ts, si)
    c.ensure_ret("mean of the recorded values", ITE(t == 0, c.old.get(c.self, "initial_flow"), tot / z3.ToReal(w)))
    c.frame([])


@contract("P14", f"{M}:RollingMeanFlowNodeParameter.after")
def rolling_after(c):
    n, p = rolling(c)
    node = watched(c)
    i, k = c.idx("i", c.ncomb), c.idx("k", n)
    c.call()
    c.ensure("this step's flow replaces the oldest one, the others stay",
             c.new.get(c.self, "_memory", i, k) == z3.If(k == p, c.old.get(node, "_flow", i), c.old.get(c.self, "_memory", i, k)))
    c.ensure("the position advances by one around the memory", c.new.get(c.self, "position") == z3.If(p + 1 == n, z3.IntVal(0), p + 1))
    c.frame([("RollingMeanFlowNodeParameter._memory", c.self.t), ("RollingMeanFlowNodeParameter.position", c.self.t)])


@contract("P14", f"{M}:RollingMeanFlowNodeParameter.reset")
def rolling_reset(c):
    n, p = rolling(c)
    i, k = c.idx("i", c.ncomb), c.idx("k", n)
    c.call()
    c.ensure("position at the start", c.new.get(c.self, "position") == 0)
    c.ensure("memory cleared", c.new.get(c.self, "_memory", i, k) == 0)
