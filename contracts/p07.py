"""P07: the combinations of a run and everything labelled by them."""
from common import *

CORE = "pywr._core"


def collection(c):
    c.ex.side["types"].update({"ScenarioCollection._scenarios": "list[Scenario]", "ScenarioCollection._user_combinations": "int[2]?", "Scenario._slice": "object", "Scenario._name": "str",
                               "Scenario._ensemble_names": "list[str]?", "ScenarioCollection.combinations": "list[ScenarioIndex]"})
    v = c.old.val(c.self, "_scenarios")
    return v, v.dims[0]


def combos(c):
    """A combination is known by what it was constructed from: its number, how many members, the members."""
    f = c.ex.lib.fn("combination", I, I, z3.ArraySort(I, I), Ref)
    def new(e, st, args, kw):
        row = args[1] if isinstance(args[1], A) else e.to_array(st, args[1], "int")
        k = c.L.placeholder("member", I); e.nonneg.add(k.get_id())
        t = f(e.num(args[0]), row.dims[0], c.L.lam([k], e.rd(st, row, k))); c.L.keep.append(t)
        return O(t, c.P.find_class("ScenarioIndex", CORE), True)
    c.ex.side["new"]["ScenarioIndex"] = new


def parts(t):
    if not (z3.is_app(t) and t.decl().name() == "combination"): raise Unsupported("combination")
    return t.arg(0), t.arg(1), t.arg(2)


def slice_(c, s):
    """The slice of a scenario (a property or an attribute)."""
    return c.old.obj(s, "_slice").t


def elem(c, g):
    """The g-th combination of the returned list: its number, how many members, the members."""
    r = c.ret.v if isinstance(c.ret, Opt) else c.ret
    if isinstance(r, T): return parts(r.items[0].t)
    if isinstance(r, Seq):
        st = c.post.copy(); st.pc += [g >= 0, g < r.n]
        return parts(c.L.norm(r.elem(g, st).t))
    return parts(c.L.norm(c.ex.rd(c.post, r, g)))


@contract("P07", f"{CORE}:ScenarioIndex.__init__")
def index_init(c):
    g = c.int("gid"); n = c.free("nmembers", I); c.require(n >= 0); a = c.array("members", n, "int")
    j = c.idx("which", n); before = c.ex.rd(c.st, a, j)
    c.call(g, a)
    c.ensure("its number", c.new.get(c.self, "global_id") == g.t)
    c.ensure("a member for every scenario", c.new.val(c.self, "_indices").dims[0] == n)
    c.ensure("its members", c.new.rd(c.new.val(c.self, "_indices"), j) == before)
    c.frame([("ScenarioIndex.global_id", c.self.t), ("ScenarioIndex._indices", c.self.t)] + [(f"ScenarioIndex._indices{x}", c.self.t) for x in ("#0", "#none")])


@contract("P07", f"{CORE}:ScenarioIndex.indices.get")
def index_members(c):
    a = c.old.val(c.self, "_indices"); n = a.dims[0]; j = c.idx("which", n); before = c.old.rd(a, j) if c.called else None
    c.call()
    c.ensure("one per scenario", c.ret.dims[0] == n)
    c.ensure("the members", c.ret_at(j) == c.old.rd(a, j))


@contract("P07", f"{CORE}:ScenarioCollection.get_combinations", label="get_combinations without scenarios")
def none_defined(c):
    v, n = collection(c); c.require(n == 0)
    combos(c)
    c.call()
    r = c.ret
    c.ensure("one combination", z3.BoolVal(isinstance(r, T) and len(r.items) == 1) if isinstance(r, T) else r.dims[0] == 1)
    gid, k, row = elem(c, z3.IntVal(0))
    c.ensure("numbered 0", gid == 0)
    c.ensure("of member 0", AND(k == 1, c.L.sel(row, z3.IntVal(0)) == 0))
    c.frame([])


@contract("P07", f"{CORE}:ScenarioCollection.get_combinations", label="get_combinations of the user's list")
def user_list(c):
    v, n = collection(c); c.require(n > 0)
    u = c.old.val(c.self, "_user_combinations"); c.require(NOT(c.isnone_any(c.self, "_user_combinations")))
    a = u.v if isinstance(u, Opt) else u
    rows, cols = a.dims
    c.require(rows >= 0, cols >= 0)
    combos(c)
    c.raises("ValueError", OR(rows == 0, cols != n))
    c.call()
    g = c.idx("g", rows); q = c.idx("which", n)
    c.ensure("one for every row", count(c) == rows)
    gid, k, row = elem(c, g)
    c.ensure("numbered from 0 in order", gid == g)
    c.ensure("a member for every scenario", k == n)
    c.ensure("the user's members", c.L.sel(row, q) == c.old.rd(a, g, q))
    c.frame([])


def count(c):
    r = c.ret.v if isinstance(c.ret, Opt) else c.ret
    return r.n if isinstance(r, Seq) else r.dims[0] if isinstance(r, A) else z3.IntVal(len(r.items))


@contract("P07", f"{CORE}:ScenarioCollection.get_combinations", label="get_combinations of the cross product")
def product(c):
    v, n = collection(c); c.require(n > 0)
    c.require(c.isnone_any(c.self, "_user_combinations"))
    combos(c)
    j = c.idx("scenario", n); q = c.free("member", I); c.require(q >= 0)
    sc = O(c.old.rd(v, j), c.P.find_class("Scenario", CORE))
    size, sl = c.old.get(sc, "_size"), slice_(c, sc); c.require(size >= 1)
    f_len, f_at = c.ex.lib.fn("slice_len", I, Ref, I), c.ex.lib.fn("slice_at", I, Ref, I, I)
    total = c.free("product_length", I); c.require(total >= 0)
    digit = c.ex.lib.fn("product_at", I, I, I)
    seen = {}

    def prod(e, st, args, kw):
        # itertools.product(*pools): all rows of one element of each pool, the last varying fastest (Python's library)
        if len(args) != 1 or not isinstance(args[0], Star): raise Unsupported("pools of the product")
        sq = args[0].v
        seen["n"] = sq.n
        s1 = st.copy(); s1.pc += [j >= 0, j < n]
        p = sq.elem(j, s1)
        if not isinstance(p, Seq): raise Unsupported("pool")
        e.oblige("a pool for every scenario", st, sq.n == n)
        e.oblige("the pool of a scenario is its (sliced) members: how many", st, p.n == ITE(sl == NONE, size, f_len(size, sl)))
        s1.pc += [q < p.n]
        st2 = st.copy(); st2.pc += [q < p.n]
        e.oblige("the pool of a scenario is its (sliced) members, in order", st2, e.num(p.elem(q, s1)) == ITE(sl == NONE, q, f_at(size, sl, q)))
        e.assumed.add("itertools.product enumerates the rows of its pools with the last varying fastest")
        return Seq(total, lambda k, s: A("int", [sq.n], ("G", lambda s_, i: digit(k, i)), None, True))
    c.ex.side["ext"]["itertools.product"] = lambda e, st, args, kw: prod(e, st, args, kw)
    c.raises("ValueError", total == 0)
    c.call()
    g = c.idx("g", total)
    c.ensure("one for every row of the product", count(c) == total)
    gid, k, row = elem(c, g)
    c.ensure("numbered from 0 in order", gid == g)
    c.ensure("a member for every scenario", k == n)
    c.ensure("the row of the product", c.L.sel(row, j) == digit(g, j))
    c.frame([])


@contract("P07", f"{CORE}:ScenarioCollection.setup")
def setup(c):
    c.ex.side["attr"].pop("ScenarioCollection.combinations", None)
    collection(c)
    fresh = c.free("n_fresh", I); c.require(fresh >= 0)
    at = c.ex.lib.fn("fresh_combination", I, Ref)
    lst = A("ScenarioIndex", [fresh], ("G", lambda s, i: at(i)), None, True)
    c.ex.side.setdefault("own", set()).add("get_combinations")
    c.ex.side["methods"]["ScenarioCollection.get_combinations"] = lambda e, st, o, a, k: lst
    c.call()
    r = c.new.val(c.self, "combinations"); r = r.v if isinstance(r, Opt) else r
    i = c.idx("i", fresh)
    c.ensure("the combinations are enumerated anew", AND(r.dims[0] == fresh, c.new.rd(r, i) == at(i)))


@contract("P07", f"{CORE}:ScenarioCollection.add_scenario")
def add(c):
    v, n = collection(c)
    s = c.new_obj("added", "Scenario")
    m = c.old.obj(c.self, "model"); c.require(m.t != NONE)
    i = c.idx("i", n)
    present = c.any(n, lambda k: c.old.rd(v, k) == s.t)
    c.raises("ValueError", present)
    c.call(s)
    r = c.new.val(c.self, "_scenarios")
    c.ensure("one more", r.dims[0] == n + 1)
    c.ensure("added last", c.new.rd(r, n) == s.t)
    c.ensure("the others keep their place", c.new.rd(r, i) == c.old.rd(v, i))


@contract("P07", f"{CORE}:ScenarioCollection.shape.get", label="shape of the user's list")
def shape_user(c):
    v, n = collection(c)
    u = c.old.val(c.self, "_user_combinations"); c.require(NOT(c.isnone_any(c.self, "_user_combinations")))
    rows = (u.v if isinstance(u, Opt) else u).dims[0]
    c.call()
    c.ensure("one dimension of the combinations", AND(z3.BoolVal(isinstance(c.ret, T) and len(c.ret.items) == 1), c.ex.num(c.ret.items[0]) == rows))


@contract("P07", f"{CORE}:ScenarioCollection.shape.get", label="shape without scenarios")
def shape_none(c):
    v, n = collection(c); c.require(n == 0, c.isnone_any(c.self, "_user_combinations"))
    c.call()
    c.ensure("one combination", AND(z3.BoolVal(isinstance(c.ret, T) and len(c.ret.items) == 1), c.ex.num(c.ret.items[0]) == 1))


@contract("P07", f"{CORE}:ScenarioCollection.shape.get", label="shape of the cross product")
def shape_product(c):
    v, n = collection(c); c.require(n > 0, c.isnone_any(c.self, "_user_combinations"))
    j = c.idx("scenario", n)
    sc = O(c.old.rd(v, j), c.P.find_class("Scenario", CORE))
    size, sl = c.old.get(sc, "_size"), slice_(c, sc)
    f_len = c.ex.lib.fn("slice_len", I, Ref, I)
    c.call()
    r = c.ex.to_array(c.post, c.ret, "int") if not isinstance(c.ret, A) else c.ret
    c.ensure("a dimension for every scenario", r.dims[0] == n)
    c.ensure("its (sliced) members", c.ex.rd(c.post, r, j) == ITE(sl == NONE, size, f_len(size, sl)))


@contract("P07", f"{CORE}:Scenario.__init__")
def scenario_init(c):
    c.ex.side["types"].update({"Scenario._slice": "object", "Scenario._name": "str", "Scenario._ensemble_names": "list[str]?", "Scenario._model": "Model"})
    m, sl = c.new_obj("model", "Model"), O(c.free("slice", Ref), None)
    size = c.int("size"); nn = c.free("n_names", I); c.require(nn >= 0)
    named = c.free("named", B)
    seen = {}
    c.ex.side["attr"]["Model.scenarios"] = lambda e, st, o: Fn("record", fields={"add_scenario": Fn("handled", obj=None, h=lambda e, st, o, a, k: (seen.update(st=st.copy(), who=a[0]), NV)[1])})
    names = A("str", [nn], ("G", lambda s, i: c.ex.lib.fn("name_at", I, I)(i)), None, True)
    c.raises("ValueError", OR(size.t < 1, AND(named, nn != size.t)))
    c.call(m, S(z3.IntVal(7), "str"), size, sl, Opt(NOT(named), names))
    c.ensure("its size", c.new.get(c.self, "_size") == size.t)
    c.ensure("its slice", c.new.obj(c.self, "_slice" if "_slice" in str(sorted(k for k in c.post.heap)) else "slice").t == sl.t)
    c.ensure("registered with the model", z3.BoolVal(seen["who"].t.get_id() == c.self.t.get_id()))


@contract("P07", f"{CORE}:Scenario.ensemble_names.get")
def ensemble_names(c):
    c.ex.side["types"].update({"Scenario._ensemble_names": "list[str]?"})
    size = c.old.get(c.self, "_size"); c.require(size >= 1, c.isnone_any(c.self, "_ensemble_names"))
    c.call()
    i = c.idx("i", size)
    r = c.ex.to_array(c.post, c.ret, "int") if not isinstance(c.ret, A) else c.ret
    c.ensure("the members' numbers", AND(r.dims[0] == size, c.ex.rd(c.post, r, i) == i))
