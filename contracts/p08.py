"""P08: everything is evaluated once per timestep, after what it depends on.

Ghost state records which calls have been made.  Each hook's contract requires what must have happened before it (all earlier phases complete, the components
before it in the evaluation order done, itself not done yet); the phases of Model establish those preconditions and complete the phase."""
from common import *

MD = "pywr._model"


def roster(c, name, cls, mod=None):
    """An arbitrary list of distinct objects."""
    n = c.free(f"n_{name}", I); c.require(n >= 0)
    f = c.ex.lib.fn(f"{name}_at", I, Ref); inv = c.ex.lib.fn(f"{name}_at_inv", Ref, I)
    c.ex.side.setdefault("injective", set()).add(f"{name}_at")
    c.L.injective[f"{name}_at_inv"] = f"{name}_at"
    c.ex.assumed.add("the model's nodes and components are distinct objects (keys of the graph; networkx)")
    k = c.P.find_class(cls, mod)
    def at(i):
        t = f(i)
        c.L.keep.append(t); c.ex.known_class[t.get_id()] = (k, False)
        return t
    lst = A(k.name, [n], ("G", lambda s, i: at(i)), None, True)
    # distinct elements: the position of the element at i is i
    return dict(n=n, at=at, inv=inv, list=lst, cls=k, name=name)


class Phases:
    """The hooks of one timestep (or of a reset)."""
    def __init__(self, c, *keys):
        self.c, self.done = c, {}
        for k in keys: c.rule("ghost." + k, lambda r: FALSE)

    def term(self, st, key): return self.c.ex.h(st, "ghost." + key, B)
    def is_done(self, st, key, t): return self.c.L.sel(self.term(st, key), t)

    def everyone(self, st, key, ro):
        """Every element of ro has had the hook."""
        j = z3.Const(f"any_{ro['name']}_{key}", I)
        self.c.ex.nonneg.add(j.get_id()); self.c.L.keep.append(j)
        return z3.Implies(z3.And(j >= 0, j < ro["n"]), self.is_done(st, key, ro["at"](j)))

    def hook(self, key, ro=None, after=(), order=True, only=None, cond=None, arg=None):
        """The contract of a hook: after = [(key, roster)] complete, elements before it done; sets done."""
        c = self.c
        def h(e, st, o, args, kw):
            L = c.L
            e.oblige(f"{key}: not called before", st, NOT(self.is_done(st, key, o.t)))
            for k2, r2 in after:
                e.oblige(f"{key}: after {k2} of everything", st, self.everyone(st, k2, r2) if r2 is not None else self.is_done(st, k2, c.self.t))
            if order and ro is not None:
                k = ro["inv"](o.t)
                pos = self.position(o.t, ro)
                j = z3.Const(f"earlier_{ro['name']}_{key}", I); e.nonneg.add(j.get_id()); L.keep.append(j)
                need = self.is_done(st, key, ro["at"](j))
                if cond is not None: need = OR(NOT(cond(ro["at"](j))), need)
                e.oblige(f"{key}: after that of every component it depends on", st, z3.Implies(z3.And(j >= 0, j < pos), need))
            if arg is not None: e.oblige(f"{key}: for the current timestep", st, args[0].t == arg)
            st.heap["ghost." + key] = z3.Store(self.term(st, key), o.t, TRUE)
            return NV
        return h

    def position(self, t, ro):
        return t.arg(0) if z3.is_app(t) and t.decl().name() == ro["name"] + "_at" else ro["inv"](t)

    def complete(self, key, ro, name, cond=None):
        c = self.c
        k = c.free(f"k_{key}", I); c.ex.nonneg.add(k.get_id()); c.L.keep.append(k)
        d = self.is_done(c.post, key, ro["at"](k))
        c.ensure(name, OR(NOT(z3.And(k >= 0, k < ro["n"])), d if cond is None else OR(NOT(cond(ro["at"](k))), d)))


def world(c):
    nodes, comps = roster(c, "node", "AbstractNode", "pywr._core"), roster(c, "component", "Component")
    # no node is a component, distinct list entries
    c.ex.side["attr"]["Model.graph"] = lambda e, st, o: Fn("record", fields={"nodes": Fn("handled", h=lambda *_: nodes["list"], obj=None)})
    c.ex.side.setdefault("own", set()).add("flatten_component_tree")
    c.ex.side["methods"]["Model.flatten_component_tree"] = lambda e, st, o, a, k: comps["list"]
    c.ex.side["ext"]["time.time"] = lambda *a: S(c.ex.lib.fn("clock!", I, R)(z3.IntVal(0)), "double")
    ts = c.old.val(c.self, "timestep")
    return nodes, comps, ts


def typed(c):
    c.ex.side["types"].update({"Model.timestep": "Timestep", "Model._time_before": "double", "Model._time_after": "double"})


def isparam(c): return lambda t: AND(t != NONE, c.ex.lib.fn("isinstance_Parameter", Ref, B)(t))


@contract("P08", f"{MD}:Model.before")
def before(c):
    typed(c)
    nodes, comps, ts = world(c)
    ph = Phases(c, "node_before", "before", "calc")
    m = c.ex.side["methods"]
    m["AbstractNode.before"] = ph.hook("node_before", nodes, order=False, arg=ts.t)
    m["Component.before"] = ph.hook("before", comps, after=[("node_before", nodes)])
    m["Parameter.calc_values"] = m["Component.calc_values"] = ph.hook("calc", comps, after=[("node_before", nodes), ("before", comps)], cond=isparam(c), arg=ts.t)
    c.call()
    ph.complete("node_before", nodes, "every node is prepared")
    ph.complete("before", comps, "every component is prepared")
    ph.complete("calc", comps, "every parameter is evaluated", cond=isparam(c))


@contract("P08", f"{MD}:Model.after")
def after(c):
    typed(c)
    nodes, comps, ts = world(c)
    ph = Phases(c, "node_after", "after")
    m = c.ex.side["methods"]
    m["AbstractNode.after"] = ph.hook("node_after", nodes, order=False, arg=ts.t)
    m["Component.after"] = ph.hook("after", comps, after=[("node_after", nodes)])
    c.call()
    ph.complete("node_after", nodes, "every node finishes the step")
    ph.complete("after", comps, "every component finishes the step")


@contract("P08", f"{MD}:Model.finish")
def finish(c):
    typed(c)
    nodes, comps, ts = world(c)
    ph = Phases(c, "node_finish", "finish")
    m = c.ex.side["methods"]
    m["AbstractNode.finish"] = ph.hook("node_finish", nodes, order=False)
    m["Component.finish"] = ph.hook("finish", comps)
    c.call()
    ph.complete("node_finish", nodes, "every node is finished")
    ph.complete("finish", comps, "every component is finished")


# ---- the phases of a step, and of a run -------------------------------------------------------------------------------------------
def stage(c, ph, key, after=(), ret=NV, also=None):
    def h(e, st, o, args, kw):
        e.oblige(f"{key}: once", st, NOT(ph.is_done(st, key, c.self.t)))
        for a in after: e.oblige(f"{key}: after {a}", st, ph.is_done(st, a, c.self.t))
        st.heap["ghost." + key] = z3.Store(ph.term(st, key), c.self.t, TRUE)
        if also: also(e, st, args, kw)
        return ret
    return h


@contract("P08", f"{MD}:Model._step")
def one_step(c):
    ph = Phases(c, "before_done", "solve_done", "after_done")
    out = Opaque("solution")
    own(c, before=stage(c, ph, "before_done"), solve=stage(c, ph, "solve_done", ["before_done"], out), after=stage(c, ph, "after_done", ["before_done", "solve_done"]))
    c.call()
    c.ensure("the step is prepared, solved and finished", AND(*[ph.is_done(c.post, k, c.self.t) for k in ("before_done", "solve_done", "after_done")]))
    c.ensure("the solver's answer is returned", z3.BoolVal(c.ret is out))


def clock(c):
    c.ex.side["ext"]["time.time"] = lambda *a: S(c.free("clock", R), "double")


@contract("P08", f"{MD}:Model.step")
def step(c):
    typed(c)
    ph = Phases(c, "setup_done", "step_done", "next_done")
    tp = c.old.obj(c.self, "timestepper"); c.require(tp.t != NONE)
    ts = c.new_obj("the_next_timestep", "Timestep")
    dirty, tdirty = c.free("dirty", B), c.free("timestepper_dirty", B)
    c.ex.side["attr"]["Model.dirty"] = lambda e, st, o: S(dirty, "bint")
    c.ex.side["attr"]["Timestepper.dirty"] = lambda e, st, o: S(tdirty, "bint")

    def nxt(e, st, o, args, kw):
        e.oblige("one timestep is taken", st, NOT(ph.is_done(st, "next_done", c.self.t)))
        e.oblige("set up first if anything changed", st, OR(NOT(OR(dirty, tdirty)), ph.is_done(st, "setup_done", c.self.t)))
        st.heap["ghost.next_done"] = z3.Store(ph.term(st, "next_done"), c.self.t, TRUE)
        return ts
    c.ex.side["methods"]["Timestepper.__next__"] = c.ex.side["methods"]["Timestepper.next"] = nxt
    out = Opaque("solution")

    def during(e, st, args, kw): e.oblige("the step taken is the model's timestep", st, e.field(st, "Model.timestep", c.self.t, Ref) == ts.t)
    own(c, setup=stage(c, ph, "setup_done"), _step=stage(c, ph, "step_done", ["next_done"], out, during))
    c.call()
    s = c.self.t
    c.ensure("one step is made", AND(ph.is_done(c.post, "step_done", s), ph.is_done(c.post, "next_done", s)))
    c.ensure("set up exactly when something changed", ph.is_done(c.post, "setup_done", s) == OR(dirty, tdirty))
    c.ensure("the model is at that timestep", c.new.get(c.self, "timestep") == ts.t)
    c.ensure("the solver's answer is returned", z3.BoolVal(c.ret is out))


@contract("P08", f"{MD}:Model.run")
def run(c):
    typed(c); clock(c)
    tss = roster(c, "timestep", "Timestep"); c.require(tss["at"](tss["n"] - 1) != NONE)
    ph = Phases(c, "setup_done", "reset_done", "finish_done", "stepped")
    dirty, tdirty = c.free("dirty", B), c.free("timestepper_dirty", B)
    c.ex.side["attr"]["Model.dirty"] = lambda e, st, o: S(dirty, "bint")
    c.ex.side["attr"]["Timestepper.dirty"] = lambda e, st, o: S(tdirty, "bint")
    tp = c.old.obj(c.self, "timestepper"); c.require(tp.t != NONE)

    def begin(e, st, o, args, kw):
        e.oblige("set up or reset before the first step", st, z3.Xor(ph.is_done(st, "setup_done", c.self.t), ph.is_done(st, "reset_done", c.self.t)))
        return tss["list"]
    c.ex.side["methods"]["Timestepper.__iter__"] = begin
    c.ex.side["methods"]["Timestepper.__len__"] = lambda e, st, o, a, k: S(tss["n"], "int")

    def one(e, st, o, args, kw):
        t = e.field(st, "Model.timestep", c.self.t, Ref)
        e.oblige("every timestep once", st, NOT(ph.is_done(st, "stepped", t)))
        j = c.free("earlier_timestep", I); e.nonneg.add(j.get_id()); c.L.keep.append(j)
        e.oblige("in the order of the calendar", st, z3.Implies(z3.And(j >= 0, j < ph.position(c.L.norm(t), tss)), ph.is_done(st, "stepped", tss["at"](j))))
        e.oblige("not after the run is finished", st, NOT(ph.is_done(st, "finish_done", c.self.t)))
        st.heap["ghost.stepped"] = z3.Store(ph.term(st, "stepped"), t, TRUE)
        return Opaque("solution")
    c.ex.side["attr"]["Model.solver"] = lambda e, st, o: Opaque("solver")
    c.ex.side["new"]["ModelResult"] = lambda e, st, a, kw: Opaque("result")
    own(c, setup=stage(c, ph, "setup_done"), reset=stage(c, ph, "reset_done"), finish=stage(c, ph, "finish_done"), _step=one)
    c.raises("RuntimeError", tss["n"] == 0)
    c.call()
    s = c.self.t
    k = c.free("any_timestep", I); c.ex.nonneg.add(k.get_id()); c.L.keep.append(k)
    c.ensure("every timestep of the calendar is run", z3.Implies(z3.And(k >= 0, k < tss["n"]), ph.is_done(c.post, "stepped", tss["at"](k))))
    c.ensure("the run is finished", ph.is_done(c.post, "finish_done", s))
    c.ensure("set up if anything changed, reset otherwise", AND(ph.is_done(c.post, "setup_done", s) == OR(dirty, tdirty), ph.is_done(c.post, "reset_done", s) == NOT(OR(dirty, tdirty))))


# ---- the evaluation order ---------------------------------------------------------------------------------------------------------
@contract("P08", f"{MD}:Model.flatten_component_tree")
def flatten(c):
    c.ex.side["types"].update({"Model.component_tree_flat": "list[Component]?", "Model.component_graph": "object"})
    post = roster(c, "postorder", "Component")
    n = post["n"]
    root = c.new_obj("root", "Component")
    c.L.aparts.add((root.t.get_id(), "postorder_at"))
    cycles, loops = c.free("n_cycles", I), c.free("n_selfloops", I)
    c.require(cycles >= 0, loops >= 0)
    c.ex.side["attr"]["Model.component_graph"] = lambda e, st, o: Opaque("graph")
    g = lambda m: A("Component", [m], ("G", lambda s, i: c.ex.lib.fn("cycle", I, Ref)(i)), None, True)
    e_ = c.ex.side["ext"]
    e_["nx.simple_cycles"] = e_["networkx.simple_cycles"] = lambda *a: g(cycles)
    e_["nx.nodes_with_selfloops"] = e_["networkx.nodes_with_selfloops"] = lambda *a: g(loops)
    e_["nx.dfs_postorder_nodes"] = e_["networkx.dfs_postorder_nodes"] = lambda *a: Cat([post["list"], T([root])])
    c.ex.side["names"]["ROOT_NODE"] = lambda e, st: root
    rebuild = c.free("rebuild", B)
    s = c.self
    known = AND(NOT(c.isnone_any(s, "component_tree_flat")), NOT(rebuild))
    c.raises("ModelStructureError", AND(NOT(known), OR(cycles != 0, loops != 0)))
    c.call(S(rebuild, "bint"))
    j = c.free("position", I); c.ex.nonneg.add(j.get_id()); c.L.keep.append(j)
    # a depth-first post-order from the root ends with the root; reversed, dependencies come before what depends on them (networkx)
    c.ret = r = c.ret.v if isinstance(c.ret, Opt) else c.ret
    c.ensure("every component is in the order, the root is not", OR(known, r.dims[0] == n))
    c.ensure("dependencies come before what depends on them", OR(known, NOT(z3.And(j >= 0, j < n)), c.ret_at(j) == post["at"](n - 1 - j)))


@contract("P08", f"{MD}:Model.setup")
def setup(c):
    typed(c); clock(c)
    nodes, comps = roster(c, "node", "AbstractNode", "pywr._core"), roster(c, "component", "Component")
    ph = Phases(c, "node_setup", "setup", "calendar", "scenarios", "rebuilt", "solver_setup", "reset_done")
    c.ex.side["attr"]["Model.graph"] = lambda e, st, o: Fn("record", fields={"nodes": Fn("handled", h=lambda *_: nodes["list"], obj=None)})
    c.ex.side["attr"]["Model.solver"] = lambda e, st, o: Fn("record", fields={"setup": Fn("handled", h=stage(c, ph, "solver_setup", ["calendar", "scenarios", "rebuilt"], also=lambda e, st, a, k: (
        e.oblige("solver set up after every node", st, ph.everyone(st, "node_setup", nodes)), e.oblige("solver set up after every component", st, ph.everyone(st, "setup", comps)))), obj=None)})
    for o in ("timestepper", "scenarios"): c.require(c.old.obj(c.self, o).t != NONE)
    m = c.ex.side["methods"]
    m["Timestepper.setup"] = stage(c, ph, "calendar")
    m["Timestepper.reset"] = lambda e, st, o, a, k: S(c.free("length_changed", B), "bint")
    m["ScenarioCollection.setup"] = stage(c, ph, "scenarios")

    def flat(e, st, o, args, kw):
        rb = kw.get("rebuild", args[0] if args else None)
        e.oblige("the evaluation order is found anew", st, e.truth(rb) if rb is not None else FALSE)
        e.oblige("after every node is set up", st, ph.everyone(st, "node_setup", nodes))
        st.heap["ghost.rebuilt"] = z3.Store(ph.term(st, "rebuilt"), c.self.t, TRUE)
        return comps["list"]
    a = ph.hook("node_setup", nodes, order=False); b = ph.hook("setup", comps, after=[("node_setup", nodes)])

    def ready(e, st):
        for k in ("calendar", "scenarios"): e.oblige(f"set up after the {k}", st, ph.is_done(st, k, c.self.t))
    m["AbstractNode.setup"] = lambda e, st, o, x, k: (ready(e, st), a(e, st, o, x, k))[1]
    m["Component.setup"] = lambda e, st, o, x, k: (ready(e, st), b(e, st, o, x, k))[1]
    own(c, flatten_component_tree=flat, reset=stage(c, ph, "reset_done", ["solver_setup"]))
    c.call()
    ph.complete("node_setup", nodes, "every node is set up")
    ph.complete("setup", comps, "every component is set up")
    for k in ("solver_setup", "reset_done"): c.ensure(f"{k}", ph.is_done(c.post, k, c.self.t))


for prop in ("P08", "P09"):
    @contract(prop, f"{MD}:Model.reset", label="Model.reset" if prop == "P08" else "Model.reset resets everything")
    def reset(c):
        typed(c); clock(c)
        nodes, comps = roster(c, "node", "AbstractNode", "pywr._core"), roster(c, "component", "Component")
        ph = Phases(c, "node_setup", "setup", "node_reset", "reset", "solver_reset", "calendar_reset")
        changed = c.free("length_changed", B)
        c.ex.side["attr"]["Model.graph"] = lambda e, st, o: Fn("record", fields={"nodes": Fn("handled", h=lambda *_: nodes["list"], obj=None)})
        c.ex.side["attr"]["Model.solver"] = lambda e, st, o: Fn("record", fields={"reset": Fn("handled", h=stage(c, ph, "solver_reset", also=lambda e, st, a, k: (
            e.oblige("solver reset after every node", st, ph.everyone(st, "node_reset", nodes)), e.oblige("solver reset after every component", st, ph.everyone(st, "reset", comps)))), obj=None)})
        c.require(c.old.obj(c.self, "timestepper").t != NONE)
        m = c.ex.side["methods"]
        m["Timestepper.reset"] = stage(c, ph, "calendar_reset", ret=S(changed, "bint"))
        m["AbstractNode.setup"] = ph.hook("node_setup", nodes, order=False)
        m["Component.setup"] = ph.hook("setup", comps)
        a, b = ph.hook("node_reset", nodes, order=False), ph.hook("reset", comps, after=[("node_reset", nodes)])
        resized = lambda key: lambda e, st, o: (e.oblige("arrays fit the run's length before the reset", st, OR(NOT(changed), ph.is_done(st, key, o.t))), e.oblige("calendar first", st, ph.is_done(st, "calendar_reset", c.self.t)))
        na, nb = resized("node_setup"), resized("setup")
        m["AbstractNode.reset"] = lambda e, st, o, x, k: (na(e, st, o), a(e, st, o, x, k))[1]
        m["Component.reset"] = lambda e, st, o, x, k: (nb(e, st, o), b(e, st, o, x, k))[1]
        own(c, flatten_component_tree=lambda e, st, o, args, kw: comps["list"])
        c.call()
        ph.complete("node_reset", nodes, "every node is reset")
        ph.complete("reset", comps, "every component is reset")
        c.ensure("the solver is reset", ph.is_done(c.post, "solver_reset", c.self.t))
        c.ensure("the calendar is reset", ph.is_done(c.post, "calendar_reset", c.self.t))
