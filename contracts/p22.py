"""P22: events are exactly the maximal active periods.

The recorder's state per scenario is the open event.  With the ghost history `trig(t)` of the trigger, the invariant is: an event is
open exactly when trig held in the previous step, and it started at the first step of the run of steps that is still going on.
after() is shown to keep it and to record an event exactly when a run has just ended and was long enough."""
from common import *

M = "pywr.recorders.events"
E, K = "EventRecorder", "Event"


def setting(c, threshold, tracked):
    v, s = c.old, c.self
    c.ex.side["fresh"].add("Event")
    ts = current(c)
    t = v.get(ts, "index"); c.require(t >= 0)
    si = c.si(); g = c.gid(si); c.one_scenario(g)
    c.require(v.dim(s, "_current_events") == c.ncomb)
    ne = v.dim(s, "events"); c.require(ne >= 0, v.get(s, "minimum_event_length") >= 1)
    cur = v.obj(s, "_current_events", g)
    tp = v.obj(s, "tracked_parameter")
    c.require(tp.t != NONE if tracked else tp.t == NONE)
    # an event keeps values exactly when a parameter is tracked
    c.require(c.isnone_any(cur, "values") == (not tracked))
    c.require(OR(cur.t == NONE, v.obj(cur, "start").t != NONE))
    if threshold:
        th = c.known(v.obj(s, "threshold"), threshold, exact=threshold == "Parameter")
        if threshold == "Recorder":
            f = c.ex.lib.fn("recorder_value", Ref, I, R)
            c.ex.side["methods"]["Recorder.values"] = lambda e, st, o, a, k: A("double", [c.ncomb], ("G", lambda _s, i: f(o.t, i)), None)
            x = lambda i: f(th.t, i)
        else: x = lambda i: (indices_of if threshold == "IndexParameter" else values_of)(c, th, i)
        return ts, t, si, g, cur, ne, x(g) != (0 if threshold == "IndexParameter" else z3.RealVal(0))
    return ts, t, si, g, cur, ne


def after(threshold, tracked):
    @contract("P22", f"{M}:{E}.after", label=f"{E}.after, trigger {threshold}" + (", values tracked" if tracked else ""))
    def h(c):
        v, s = c.old, c.self
        ts, t, si, g, cur, ne, trig = setting(c, threshold, tracked)
        # ghost: whether the trigger held in the previous step, and where its run began
        was, began = c.free("triggered_before", B), c.free("run_began", I)
        c.require(was == (cur.t != NONE), OR(NOT(was), v.get(v.obj(cur, "start"), "index") == began))
        i, q, ev = c.idx("i", c.ncomb), c.idx("q", ne), c.free("ev", Ref)
        ended = AND(was, NOT(trig), t - began >= v.get(s, "minimum_event_length"))
        nv = v.val(cur, "values").v.dims[0]
        c.require(nv >= 0)
        z = c.idx("z", nv)
        c.call()
        w = c.new
        now = w.obj(s, "_current_events", g)
        c.ensure("an event is open exactly when the trigger holds", (now.t != NONE) == trig)
        c.ensure("the open event goes on while the trigger holds", OR(NOT(trig), NOT(was), now.t == cur.t))
        c.ensure("a new event starts at the first step at which the trigger holds",
                 OR(NOT(trig), was, AND(w.obj(now, "start").t == ts.t, w.obj(now, "scenario_index").t == si.t)))
        c.ensure("the open event began with the run of steps", OR(NOT(trig), w.get(w.obj(now, "start"), "index") == z3.If(was, began, t)))
        c.ensure("the open events of other scenarios stay", OR(i == g, w.obj(s, "_current_events", i).t == v.obj(s, "_current_events", i).t))
        c.ensure("the steps so far", w.get(s, "_num_steps") == t + 1)
        c.ensure("recorded exactly when a run ends that was long enough", w.dim(s, "events") == ne + z3.If(ended, z3.IntVal(1), z3.IntVal(0)))
        c.ensure("the event recorded is the open one", OR(NOT(ended), w.obj(s, "events", ne).t == cur.t))
        c.ensure("it ends at the first step at which the trigger does not hold", OR(NOT(ended), w.obj(cur, "end").t == ts.t))
        c.ensure("it keeps its start", OR(NOT(was), AND(w.obj(cur, "start").t == v.obj(cur, "start").t, w.obj(cur, "scenario_index").t == v.obj(cur, "scenario_index").t)))
        c.ensure("the events recorded before stay", w.obj(s, "events", q).t == v.obj(s, "events", q).t)
        if tracked:
            p = c.known(v.obj(s, "tracked_parameter"), "Parameter", exact=False)
            a = w.val(now, "values").v
            c.ensure("one value is tracked per step", OR(NOT(trig), a.dims[0] == z3.If(was, nv + 1, z3.IntVal(1))))
            c.ensure("the value tracked is this step's", OR(NOT(trig), w.rd(a, a.dims[0] - 1) == values_of(c, p, g)))
            b = w.val(cur, "values").v
            c.ensure("the values tracked before stay", OR(NOT(was), AND(w.rd(b, z) == v.rd(v.val(cur, "values").v, z), b.dims[0] >= nv)))
        mine = [(f"{K}.{x}", cur.t) for x in ("end", "values")] + [(f"{K}.{x}", y) for x in ("start", "end", "values", "scenario_index") for y in c.ex.fresh]
        c.frame([(f"{E}.{x}", s.t) for x in ("_current_events", "events", "_num_steps")] + mine)


for th in ("Recorder", "Parameter", "IndexParameter"):
    for tr in (False, True): after(th, tr)


@contract("P22", f"{M}:{E}.reset")
def reset(c):
    i = c.idx("i", c.ncomb)
    c.call()
    c.ensure("no events", c.new.dim(c.self, "events") == 0)
    c.ensure("one slot per scenario", c.new.dim(c.self, "_current_events") == c.ncomb)
    c.ensure("no open event", c.new.obj(c.self, "_current_events", i).t == NONE)


@contract("P22", f"{M}:{E}.finish")
def finish(c):
    v, s = c.old, c.self
    ts, t, si, g, cur, ne = setting(c, None, False)
    i, q = c.idx("i", c.ncomb), c.idx("q", ne)
    n = v.get(s, "_num_steps")
    # the run of steps still going on at the end: the steps from its first to the last one recorded
    long = AND(cur.t != NONE, n - v.get(v.obj(cur, "start"), "index") >= v.get(s, "minimum_event_length"))
    c.call()
    w = c.new
    c.ensure("recorded exactly when long enough", w.dim(s, "events") == ne + z3.If(long, z3.IntVal(1), z3.IntVal(0)))
    c.ensure("the event recorded is the open one", OR(NOT(long), AND(w.obj(s, "events", ne).t == cur.t, w.obj(cur, "end").t == ts.t)))
    c.ensure("the events recorded before stay", w.obj(s, "events", q).t == v.obj(s, "events", q).t)
    c.ensure("no open event is left", w.obj(s, "_current_events", g).t == NONE)
    c.ensure("the open events of other scenarios stay", OR(i == g, w.obj(s, "_current_events", i).t == v.obj(s, "_current_events", i).t))
    c.frame([(f"{E}.{x}", s.t) for x in ("_current_events", "events")] + [(f"{K}.end", cur.t)])
