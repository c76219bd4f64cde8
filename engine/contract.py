"""Contracts: Hoare triples over the parsed functions, and their discharge."""
import time, traceback
import z3
from core import Logic, Ref, R, I, B, NONE, NAN, INF, DBL_MAX, TRUE, FALSE, sortof, arrsort
from values import *
from exec import Exec, Obl
import side as sidetab

CONTRACTS = []     # (property, "module:Func", class name or None, fn, label)


def contract(prop, target, cls=None, label=None):
    """Register a contract for `target` ("pywr._core:Storage.after"); cls: verify it for that (exact) receiver class."""
    def deco(f):
        CONTRACTS.append((prop, target, cls, f, label or target + (f" for {cls}" if cls else "")))
        return f
    return deco


class StateView:
    """Reads attributes of objects in a state: v.get(obj, 'attr', i, j)."""
    def __init__(self, c, st): self.c, self.st = c, st

    def val(self, obj, attr):
        ex = self.c.ex
        s = self.st.copy(); s.pc = [p for p in s.pc if not z3.is_false(p)]
        key = None
        for cl in ex.P.mro(obj.cls):
            ty = ex.side["types"].get(f"{cl.name}.{attr}") or cl.attrs.get(attr)
            if ty: key = (f"{cl.name}.{attr}", ty); break
        if key is None: raise Unsupported(f"contract reads unknown attribute {obj.cls.name}.{attr}")
        ex._cur = s
        return ex.load(s, key[0], obj.t, key[1])

    def get(self, obj, attr, *idx):
        ex = self.c.ex
        v = self.val(obj, attr)
        if isinstance(v, Opt): v = v.v
        if isinstance(v, A):
            return ex.rd(self.st, v, *idx) if idx else v
        return v.t

    def obj(self, obj, attr, *idx):
        v = self.val(obj, attr)
        if isinstance(v, Opt): v = v.v
        if isinstance(v, A): return self.c.ex.elem(self.st, v, *idx) if idx else v
        return v

    def isnone(self, obj, attr):
        ex = self.c.ex
        v = self.val(obj, attr)
        if isinstance(v, A): return ex.L.sel(ex.h(self.st, v.src[1] + "#none", B), v.src[2])
        ex._cur = self.st
        return ex.is_none(v)

    def dim(self, obj, attr, i=0):
        v = self.val(obj, attr)
        if isinstance(v, Opt): v = v.v
        return v.dims[i]

    def rd(self, a, *idx): return self.c.ex.rd(self.st, a, *idx)


class Ctx:
    def __init__(self, prog, prop, target, cls):
        self.P, self.prop, self.target = prog, prop, target
        self.L = Logic()
        self.ex = Exec(prog, sidetab.make(), self.L)
        self.ex.ctx = self
        sidetab.install(self.ex)
        self.exact, self._disj = {}, {}
        self.L.refclass, self.L.disjoint = self.refclass, self.disjoint
        self.fn = prog.func(target)
        self.mod = target.split(":")[0]
        self.st = State()
        self.obs = []
        self.called = False
        self.ncomb = self.ex.ncomb
        self.st.pc.append(self.ncomb >= 1)
        self.pre_len = None
        self.raised = []
        self.cls = None
        if self.fn is None: raise Unsupported(f"{target} not found in the tree")
        if cls:
            m, n = cls.split(":") if ":" in cls else (None, cls)
            self.cls = prog.modules[m].classes.get(n) if m else prog.find_class(n, self.mod)
            if self.cls is None: raise Unsupported(f"class {cls} not found")
        elif self.fn.cls is not None:
            self.cls = prog.modules[self.mod].classes.get(target.split(":")[1].split(".")[0]) or self.fn.cls
        self.self = None
        if self.fn.cls is not None and not (self.fn.args and self.fn.args[0][0] not in ("self",)):
            self.self = self.new_obj("self", self.cls, exact=True)
        self.old = StateView(self, self.st)
        self.new = None
        self.allowed = []
        self.may = set()

    # ---- static classes of references ----
    def refclass(self, t):
        """(class, exact) of a reference term, from the declared type of the field it was read from."""
        k = self.ex.known_class.get(t.get_id())
        if k: return k
        if z3.is_const(t): return self.exact.get(t.decl().name())
        if z3.is_app(t) and t.decl().name() == "COMBO": return self.P.find_class("ScenarioIndex"), True
        d = 0
        while z3.is_select(t): t = t.arg(0); d += 1
        if d and z3.is_const(t) and "." in t.decl().name():
            cn, at = t.decl().name().split("#")[0].split(".", 1)
            ty = self.ex.side["types"].get(f"{cn}.{at}")
            if ty is None:
                cl = self.P.find_class(cn)
                ty = cl.attrs.get(at) if cl else None
            if ty is None: return None
            b, nd, _, _ = self.ex.parse_type(ty)
            k = self.P.find_class(b)
            if k is not None: return k, False
        return None

    def disjoint(self, x, y):
        (a, ea), (b, eb) = x, y
        if a is b: return False
        sub = lambda p, q: any(m is q for m in self.P.mro(p))
        if ea and eb: return True
        if ea: return not sub(a, b)
        if eb: return not sub(b, a)
        if sub(a, b) or sub(b, a): return False
        key = (a, b)
        if key not in self._disj:
            self._disj[key] = not any(sub(m, a) and sub(m, b) for cs in self.P.classes.values() for m in cs)
        return self._disj[key]

    # ---- building the pre-state ----
    def new_obj(self, name, cls, exact=False):
        c = self.P.find_class(cls) if isinstance(cls, str) else cls
        t = z3.Const(name, Ref)
        self.exact[name] = (c, exact)
        self.st.pc.append(t != NONE)
        return O(t, c, exact)

    def ts(self, name="ts"):
        o = self.new_obj(name, "Timestep")
        self.st.pc.append(self.old.get(o, "days") > 0)
        self.st.pc.append(self.old.get(o, "index") >= 0)
        return o

    def si(self, name="g"):
        g = z3.Const(name, I)
        self.st.pc += [g >= 0, g < self.ncomb]
        self.ex.nonneg.add(g.get_id()); self.L.keep.append(g)
        o = O(self.ex.COMBO(g), self.P.find_class("ScenarioIndex"))
        self.st.pc.append(o.t != NONE)
        return o

    def one_scenario(self, g):
        """Loop rule for loops over the scenarios whose iterations touch only what belongs to their own scenario: an arbitrary
        iteration g, in a state in which nothing of scenario g has been touched yet.  The frame obligations of the contract show
        that an iteration leaves everything of the other scenarios alone."""
        self.ex.single = g
        self.ex.assumed.add("loops over the scenarios: an arbitrary iteration is run; its frame obligation shows it touches no other scenario")

    def gid(self, si): return si.t.arg(0)

    def idx(self, name, n):
        i = z3.Const(name, I)
        self.st.pc += [i >= 0, i < n]
        self.ex.nonneg.add(i.get_id()); self.L.keep.append(i)
        return i

    def free(self, name, sort=R): return z3.Const(name, sort)

    def double(self, name): return S(z3.Const(name, R), "double")
    def int(self, name): return S(z3.Const(name, I), "int")

    def array(self, name, n, ty="double"):
        """A fresh input array of length n (int or term), as a local array value."""
        i = self.ex.newid()
        self.st.arrs[i] = z3.Const(name, arrsort(ty, 1))
        return A(ty, [n if isinstance(n, z3.ExprRef) else z3.IntVal(n)], ("L", i))

    def require(self, *fs):
        self.st.pc += [f for f in fs]

    def noself(self, *keys):
        """The given fields of the receiver never hold the receiver itself (a component is not its own child: cycles are rejected, P08)."""
        self.L.noself |= set(keys)
        for k in keys: self.ex.assumed.add(f"{k} of an object does not hold the object itself (cycles are rejected, P08)")

    def rule(self, key, fn):
        """Value of initial heap field `key` (fn(ref, *idx) -> term or None)."""
        self.L.rules[key] = fn

    def facts(self, name, fn):
        """What the contract requires of the function `name` for all its arguments (used where an application of it occurs)."""
        self.L.uf_facts[name] = fn

    def setval(self, obj, attr, v):
        self.ex.setattr(self.st, obj, attr, v)

    # ---- running ----
    def call(self, *args, **kw):
        ex = self.ex
        st = self.st.copy()
        self.old = StateView(self, self.st.copy())
        self.pre = self.st.copy()
        ex.rstack = [[]]
        a = list(args)
        if self.self is not None: a = [self.self] + a
        self.ret = ex.call_func(st, self.fn, a, kw)
        self.raised += ex.rstack[0]
        ex.rstack = [[]]
        self.post = st
        self.new = StateView(self, st)
        self.called = True
        self.normal = not any(z3.is_false(p) for p in st.pc)
        return self.ret

    def method(self, name, *args):
        """Run another method of self after the first (sequences): continues from the post-state."""
        ex = self.ex
        st = (self.post if self.called else self.st).copy()
        if not self.called:
            self.old = StateView(self, self.st.copy()); self.pre = self.st.copy()
        ex.rstack = [[]]
        f = ex.getattr(st, self.self, name)
        self.ret = ex.call(st, f, list(args), {})
        self.raised += ex.rstack[0]
        ex.rstack = [[]]
        self.post = st; self.new = StateView(self, st); self.called = True
        self.normal = not any(z3.is_false(p) for p in st.pc)
        return self.ret

    # ---- stating ----
    def ensure(self, name, goal, state=None):
        self.obs.append((f"post:{name}", list((state or self.post).pc), goal))

    def ensure_ret(self, name, goal_term):
        self.ensure(name, self.ex.num(self.ret) == goal_term)

    def ret_at(self, *idx):
        """Element of the returned array (in the post-state)."""
        return self.ex.rd(self.post, self.ret, *idx)

    def ensure_array(self, name, n, f):
        """The returned array has length n and element f(i) at every i."""
        i = self.idx(f"ret_i_{name}", n)
        r = self.ret.v if isinstance(self.ret, Opt) else self.ret
        self.ret = r
        self.ensure(f"{name}: length", r.dims[0] == n)
        self.obs.append((f"post:{name}", list(self.post.pc) + [i >= 0, i < n], self.ret_at(i) == f(i)))

    def raises(self, exc, cond):
        """The call raises exc exactly when cond (over the pre-state, or a function of the state in which it ends)."""
        self.allowed.append((exc, cond))

    def may_raise(self, exc):
        """The call may raise exc (nothing is claimed about when)."""
        self.may.add(exc)

    def frame(self, allowed):
        """Everything except the allowed locations is unchanged.  allowed: 'Key' or ('Key', ref term)."""
        keys = {}
        for a in allowed:
            if isinstance(a, str): keys[a] = None
            else: keys.setdefault(a[0], []).append(a[1])
        ex = self.ex
        for key, t in self.post.heap.items():
            if key.split("#")[0] in self.ex.side["ignore"]: continue
            pre = self.pre.heap.get(key, ex.heap0.get(key))
            if pre is None or t.get_id() == pre.get_id(): continue
            base = key.split("#")[0]
            ok = keys.get(key, keys.get(base, False))
            if ok is None: continue
            r = z3.Const(f"frame_ref_{key}", Ref)
            hyp = [r != x for x in (ok or [])]
            a, b = self.L.sel(t, r), self.L.sel(pre, r)
            if z3.is_array(a):
                js, shape, _ = ex.loops.idxs(a.sort())
                cs = [z3.Const(f"frame_j{i}", j.sort()) for i, j in enumerate(js)]
                dims = []
                for i in range(len(cs)):
                    d = f"{key}#{i}"
                    if d in ex.heap0: dims.append(z3.And(cs[i] >= 0, cs[i] < self.L.sel(ex.heap0[d], r)))
                a, b = ex.loops.get(a, cs, shape), ex.loops.get(b, cs, shape)
                hyp += dims
            self.obs.append((f"frame:{key}", self.post.pc + hyp, a == b))

    def known(self, o, cls, exact=True):
        """State the class of the object o (an assumption of the contract)."""
        k = self.P.find_class(cls) if isinstance(cls, str) else cls
        self.L.keep.append(o.t)
        self.ex.known_class[o.t.get_id()] = (k, exact)
        self.st.pc.append(o.t != NONE)
        if self.self is not None and self.self.exact and exact and self.self.cls is not k: self.st.pc.append(o.t != self.self.t)
        return O(o.t, k, exact)

    def parent_storage(self):
        return self.known(self.old.obj(self.self, "_parent"), self.P.find_class("Storage", "pywr.nodes"))

    def isnone_any(self, obj, attr, v=None):
        """Whether an untyped attribute is None."""
        v = v or self.old
        self.ex._cur = v.st
        return self.ex.is_none(v.val(obj, attr))

    def enum(self, name, member):
        for m in [self.P.modules[self.mod]] + list(self.P.modules.values()):
            if f"{name}.{member}" in m.enums: return S(z3.IntVal(m.enums[f"{name}.{member}"]), "enum")
        raise Unsupported(f"enum {name}.{member} not found")

    # helpers for specs
    def sum(self, n, f, init=None):
        return self.ex.lib.total(self.post if self.called else self.st, n, f)

    def fold(self, n, init, step):
        """Fold with accumulator: step(k, acc) -> acc."""
        k = self.L.placeholder("k", I); acc = self.L.placeholder("acc", init.sort())
        self.ex.nonneg.add(k.get_id())
        return self.L.fold(n, k, [acc], [init], [step(k, acc)])[0]

    def extreme(self, n, f, lo): return self.ex.lib.extreme(self.st, n, f, lo)
    def first(self, n, cond):
        k = self.L.placeholder("k", I)
        self.ex.nonneg.add(k.get_id())
        return self.L.first(n, k, cond(k))
    def any(self, n, p): return self.ex.lib.any_(self.st, n, p)
    def all(self, n, p): return self.ex.lib.all_(self.st, n, p)
    def opq(self, name, n, f, extra=()):
        k = self.L.placeholder("k", I)
        return self.L.opq(name, [([n], [k], f(k))], list(extra), R)
    def uf(self, name, *args):
        return self.ex.lib.fn(name, *[a.sort() for a in args], R)(*args)
    def pow(self, x, y): return self.ex.lib.fn("pow!", R, R, R)(x, y)


def havocked(t):
    """Whether t mentions the state inside or after a loop that is known only by its invariant."""
    stack, seen = [t], set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and "@" in x.decl().name(): return True
        if z3.is_quantifier(x): stack.append(x.body())
        else: stack += x.children()
    return False


def run_contract(prog, entry, timeout=10000, deadline=None):
    """Returns a result dict for one contract."""
    prop, target, cls, fn, label = entry
    t0 = time.time()
    res = {"target": target, "label": label, "status": "undecided", "obligations": [], "reason": None, "used": [], "assumed": []}
    c = None
    try:
        c = Ctx(prog, prop, target, cls)
        fn(c)
        if not c.called: raise Unsupported("contract did not run the function")
        obs = list(c.obs)
        # exceptions
        for exc, s in c.raised:
            if exc in c.may: continue
            al = [cond(s) if callable(cond) else cond for e, cond in c.allowed if e == exc]
            obs.append((f"exception:{exc}", list(s.pc), OR(al) if al else FALSE))
        for exc, cond in c.allowed:
            if c.normal: obs.append((f"raises:{exc}", list(c.post.pc), NOT(cond(c.post) if callable(cond) else cond)))
        for i, o in enumerate(c.ex.obls):
            obs.append((f"safety:{o.name}#{i}", o.pc, o.goal))
        if not obs: raise Unsupported("no obligations generated")
        # vacuity: the normal exit (or an allowed exception) must be reachable
        cov = "unsat"
        if c.normal: cov = c.L.check(list(c.post.pc), 4000, 2)[0]
        if cov == "unsat" and c.raised: cov = max(c.L.check(list(s.pc), 3000, 1)[0] for _, s in c.raised)
        res["cover"] = cov
        allp, anysat = cov != "unsat", False
        if cov == "unsat": res["reason"] = "vacuous: no exit reachable under the preconditions"
        for name, pc, goal in obs:
            if deadline and time.time() > deadline:
                res["obligations"].append({"name": name, "result": "unknown", "by": "deadline", "s": 0}); allp = False; continue
            g = c.L.norm(goal)
            quick = c.ex.side.get("decide")
            r, model, by, dt = ("unsat", None, "simplify", 0.0) if z3.is_true(z3.simplify(g)) else c.L.check(pc + [z3.Not(goal)], 1500 if quick else timeout)
            if r == "unknown" and quick:
                g = c.L.decide(pc, g)
                r, model, by, dt = c.L.check(pc + [z3.Not(g)], timeout)
            if r != "unsat" and r != "sat":
                r2 = c.L.check(pc + [z3.Not(goal)], timeout, 2)
                if r2[0] == "unsat": r, model, by, dt = r2
            ob = {"name": name, "result": {"unsat": "proved", "sat": "refuted" if c.L.definite and not (c.ex.abstracted and havocked(goal)) and name.startswith(("post:", "exception:", "raises:")) else "failed"}.get(r, "unknown"), "by": by, "s": round(dt, 3)}
            if r == "sat" and model is not None:
                ob["model"] = [f"{d.name()} = {model[d]}" for d in model.decls() if d.arity() == 0 and not d.name().startswith(("w!",)) and len(str(model[d])) < 80][:40]
            res["obligations"].append(ob)
            if r != "unsat":
                allp = False
                if ob["result"] == "refuted": anysat = True
        res["status"] = "proved" if allp else ("refuted" if anysat else "undecided")
    except Unsupported as u:
        res["reason"] = f"outside the verified subset: {u}" + (f" (line {u.line})" if hasattr(u, "line") else "")
        if c is not None and c.ex.stack: res["reason"] += f" (in {c.ex.stack[-1].qualname})"
    except RecursionError:
        res["reason"] = "term too deep"
    except z3.Z3Exception as e:
        res["reason"] = f"solver interface: {e}"
        res["trace"] = traceback.format_exc()[-1500:]
    except Exception as e:
        res["reason"] = f"engine: {type(e).__name__}: {e}"
        res["trace"] = traceback.format_exc()[-2500:]
    if c is not None:
        res["used"] = sorted(c.ex.used)
        res["assumed"] = sorted(c.ex.assumed) + [f"contract of {x} used at call sites" for x in sorted(c.ex.contracts_used)]
        res["solver_s"] = round(c.L.stats["time"], 2)
        res["by"] = dict(c.L.stats["by"])
        res["queries"] = c.L.stats["queries"]
    res["wall"] = round(time.time() - t0, 2)
    return res
