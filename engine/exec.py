"""Symbolic executor: turns a parsed function into the terms of its final state (weakest-precondition style, with
state merging), with loops summarised exactly (see loops.py)."""
import z3
from core import (Logic, Ref, R, I, B, NONE, NAN, INF, DBL_MAX, TRUE, FALSE, sortof, arrsort)
from values import *
import values

EXC = {"ZeroDivisionError": "ArithmeticError", "OverflowError": "ArithmeticError", "ArithmeticError": "Exception",
       "KeyError": "LookupError", "IndexError": "LookupError", "LookupError": "Exception", "NotImplementedError": "RuntimeError",
       "RuntimeError": "Exception", "StopIteration": "Exception"}


def exc_matches(exc, names):
    if names is None: return True
    while exc:
        if exc in names: return True
        exc = EXC.get(exc, "Exception" if exc != "Exception" else None)
    return False


class Out:
    """Outcome of a block: at most one fall-through state, plus returns, breaks and continues."""
    def __init__(self, nxt): self.nxt, self.rets, self.brks, self.conts = nxt, [], [], []


class Obl:
    def __init__(self, name, pc, goal, hyp_gen=0): self.name, self.pc, self.goal = name, list(pc), goal


class Exec:
    def __init__(self, prog, side, logic=None):
        self.P, self.side = prog, side
        self.L = logic or Logic()
        self.heap0 = {}           # key -> initial constant
        self.rstack = [[]]        # raised outcomes of the innermost handler scope
        self.obls = []            # safety obligations of the function under proof
        self.depth = 0
        self.abstracted = False
        self.known_class = {}     # reference term id -> (class, exact), stated by a contract
        self.ids = 0
        self.used = set()         # functions whose bodies were inlined
        self.contracts_used = set()
        self.assumed = set()
        self.nonneg = set(); self.grown = []; self.single = None; self.fresh = []
        self._pv = {}
        self.ncomb = z3.Const("ncomb", I)
        self.COMBO = z3.Function("COMBO", I, Ref)
        self.stack = []
        values.MERGE_ARR[0] = self.merge_arr
        from loops import Loops
        from lib import Lib
        self.loops = Loops(self)
        self.lib = Lib(self)

    # ---- small helpers -----------------------------------------------------------------------------------------
    def newid(self):
        self.ids += 1
        return self.ids

    def num(self, v):
        if isinstance(v, Opt): raise Unsupported("possibly None used as a number")
        if not isinstance(v, S): raise Unsupported(f"{v!r} used as a number")
        return v.t

    def proves(self, st, goal, timeout=400):
        g = z3.simplify(goal)
        if z3.is_true(g): return True
        if z3.is_false(g) and not st.pc: return False
        key = (g.get_id(), tuple(p.get_id() for p in st.pc))
        r = self._pv.get(key)
        if r is None:
            self.L.keep.append(g); self.L.keep.extend(st.pc)
            r = self._pv[key] = self.L.proves(st.pc, goal, timeout, 1)
        return r

    def oblige(self, name, st, goal):
        g = z3.simplify(goal)
        if z3.is_true(g): return
        self.obls.append(Obl(name, st.pc, goal))

    def raise_if(self, st, cond, exc):
        c = z3.simplify(cond)
        if z3.is_false(c): return
        if self.proves(st, NOT(cond), 300): return
        r = st.copy(); r.pc.append(cond)
        self.rstack[-1].append((exc, r))
        st.pc.append(NOT(cond))

    def raise_now(self, st, exc):
        r = st.copy()
        self.rstack[-1].append((exc, r))
        st.pc.append(FALSE)

    # ---- merging -----------------------------------------------------------------------------------------------
    def merge_arr(self, c, a, b):
        return A(a.ty, [ITE(c, x, y) for x, y in zip(a.dims, b.dims)],
                 ("G", self._ga(a, self._mst[0]) if False else (lambda st, *ix: ITE(c, self.rd(st, a, *ix), self.rd(st, b, *ix)))))

    def merge(self, c, s1, s2, base):
        """State that is s1 if c else s2 (both extend a state with path condition length base)."""
        if s1 is None: return s2
        if s2 is None: return s1
        e1, e2 = s1.pc[base:], s2.pc[base:]
        f1, f2 = any(z3.is_false(x) for x in e1), any(z3.is_false(x) for x in e2)
        if f1 and not f2: return s2
        if f2 and not f1: return s1
        r = State()
        r.pc = s1.pc[:base]
        c1, c2 = AND(e1), AND(e2)
        if not (len(e1) == 1 and len(e2) == 1 and z3.is_true(z3.simplify(z3.Or(c1, c2)))):
            r.pc.append(z3.Or(c1, c2))
        for k in set(s1.loc) | set(s2.loc):
            a, b = s1.loc.get(k), s2.loc.get(k)
            if a is None: r.loc[k] = b
            elif b is None: r.loc[k] = a
            else: r.loc[k] = merge_val(c, a, b)
        for k in set(s1.heap) | set(s2.heap):
            a, b = s1.heap.get(k), s2.heap.get(k)
            if a is None: a = self.heap0[k]
            if b is None: b = self.heap0[k]
            r.heap[k] = ITE(c, a, b)
        for k in set(s1.arrs) | set(s2.arrs):
            a, b = s1.arrs.get(k), s2.arrs.get(k)
            r.arrs[k] = b if a is None else a if b is None else ITE(c, a, b)
        r.esc = {**s1.esc, **s2.esc}
        return r

    # ---- heap --------------------------------------------------------------------------------------------------
    def h(self, st, key, sort):
        """Current term of heap field `key` (Array Ref -> sort)."""
        t = st.heap.get(key)
        if t is None:
            t = self.heap0.get(key)
            if t is None:
                t = self.heap0[key] = z3.Const(key, z3.ArraySort(Ref, sort))
        return t

    def field(self, st, key, ref, sort):
        return self.L.sel(self.h(st, key, sort), ref)

    def setfield(self, st, key, ref, val, sort):
        st.heap[key] = z3.Store(self.h(st, key, sort), ref, val)

    def parse_type(self, ty):
        """(base, ndims or None, optional, list?)"""
        opt = ty.endswith("?")
        if opt: ty = ty[:-1]
        if ty.startswith("list[") and ty.endswith("]"): return ty[5:-1], 1, opt, True
        if ty.endswith("]"):
            b, n = ty[:-1].split("[")
            return b, int(n), opt, False
        return ty, None, opt, False

    def load(self, st, key, ref, ty):
        b, nd, opt, lst = self.parse_type(ty)
        if b == "ncomb": b, nd = "double", 1
        scalar = b in ("double", "int", "bint", "bool", "str", "enum")
        if nd is None:
            if scalar:
                v = S(self.field(st, key, ref, sortof(b)), "bint" if b == "bool" else b)
            elif b.endswith("*"):
                return O(self.field(st, key, ref, Ref), None)
            else:
                t = self.field(st, key, ref, Ref)
                kc = self.known_class.get(t.get_id())
                if kc is not None: return O(t, *kc)
                return O(t, self.P.find_class(b) if b not in ("object", "opaque") else None)
            if opt: return Opt(self.field(st, key + "#none", ref, B), v)
            return v
        dims = [self.field(st, f"{key}#{i}", ref, I) for i in range(nd)]
        a = A(b, dims, ("H", key, ref), None, lst)
        if opt: return Opt(self.field(st, key + "#none", ref, B), a)
        return a

    def coerce(self, v, ty):
        if ty == "double": return real(self.num(v))
        if ty in ("int", "enum"):
            t = self.num(v)
            if t.sort() == R: raise Unsupported("real stored in an int")
            return integer(t)
        if ty in ("bint", "bool"): return self.truth(v)
        if ty == "str":
            return self.num(v)
        if isinstance(v, NoneV): return NONE
        if isinstance(v, O): return v.t
        raise Unsupported(f"{v!r} stored as {ty}")

    def store(self, st, key, ref, ty, v):
        b, nd, opt, lst = self.parse_type(ty)
        scalar = b in ("double", "int", "bint", "bool", "str", "enum")
        if isinstance(v, Opaque): raise Unsupported(f"unknown value stored in {key}: {v.why}")
        if nd is None and not scalar:
            self.setfield(st, key, ref, self.coerce(v, b), Ref); return
        none = FALSE
        if isinstance(v, NoneV): none, v = TRUE, None
        elif isinstance(v, Opt): none, v = v.none, v.v
        if not z3.is_false(none) and not opt and nd is None: raise Unsupported(f"None stored in {key}")
        if opt or nd is not None: self.setfield(st, key + "#none", ref, none, B)
        if v is None: return
        if nd is None:
            self.setfield(st, key, ref, self.coerce(v, b), sortof(b)); return
        if isinstance(v, T):
            a = self.to_array(st, v, b)
        elif isinstance(v, Seq):
            a = self.seq_array(st, v, b)
        elif isinstance(v, A): a = v
        else: raise Unsupported(f"{v!r} stored in array field {key}")
        if len(a.dims) != nd: raise Unsupported("rank of stored array")
        if a.src[0] == "H" and a.axes is None:
            if a.src[1] == key and a.src[2].get_id() == ref.get_id(): return
            if not lst: self.assumed.add(f"{key} assigned from {a.src[1]}: treated as a copy where never written through both")
            if self.side.get("noalias", True) is False: raise Unsupported("aliasing")
        con = self.contents(st, a, b)
        self.setfield(st, key, ref, con, con.sort())
        for i, d in enumerate(a.dims): self.setfield(st, f"{key}#{i}", ref, d, I)
        if a.src[0] == "L": st.esc[a.src[1]] = (key, ref)

    def contents(self, st, a, ty=None):
        """z3 array holding all of a."""
        ty = ty or a.ty
        same = sortof(ty) == sortof(a.ty)
        if a.axes is None and same:
            if a.src[0] == "H": return self.field(st, a.src[1], a.src[2], arrsort(a.ty, len(a.dims)))
            if a.src[0] == "L" and a.src[1] not in st.esc: return st.arrs[a.src[1]]
        js = [self.L.placeholder("j", I) for _ in a.dims]
        t = self.rd(st, a, *js)
        return self.L.lam(js, self.coerce(S(t, a.ty) if t.sort() != Ref else O(t), ty))

    def seq_array(self, st, sq, ty):
        if sq.cond is not None: raise Unsupported("filtered comprehension used as an array")
        j = self.L.placeholder("j", I); self.nonneg.add(j.get_id())
        st_ = st.copy(); st_.pc += [j >= 0, j < sq.n]
        v = sq.elem(j, st_)
        if isinstance(v, A) and len(v.dims) == 1 and v.src[0] in ("G", "H") and not v.flt:
            d = self.ncomb
            if not self.proves(st, z3.Implies(z3.And(j >= 0, j < sq.n), v.dims[0] == d)):
                d = v.dims[0]
                if j.get_id() in self.L.fv(d): raise Unsupported("rows of different length")
            s0 = st.copy()
            return A(v.ty, [sq.n, d], ("G", lambda s, *ix: self.rd(s0, sq.elem(ix[0], s0), ix[1])), None, True)
        if ty is None: ty = v.ty if isinstance(v, S) else (v.cls.name if isinstance(v, O) and v.cls else "opaque")
        i = self.newid()
        st.arrs[i] = self.L.lam([j], self.coerce(v, ty))
        return A(ty, [sq.n], ("L", i), None, True)

    def to_array(self, st, v, ty=None):
        if isinstance(v, A): return v
        if isinstance(v, Opt): raise Unsupported("possibly None used as an array")
        if isinstance(v, Seq): return self.seq_array(st, v, ty)
        if isinstance(v, T):
            if not v.items: 
                ty = ty or "double"
                i = self.newid(); st.arrs[i] = z3.K(I, z3.RealVal(0)) if sortof(ty) == R else z3.Const(self.L.new("empty"), z3.ArraySort(I, sortof(ty)))
                return A(ty, [z3.IntVal(0)], ("L", i), None, True)
            if isinstance(v.items[0], (T, A)):
                rows = [self.to_array(st, x, ty) for x in v.items]
                ty = ty or rows[0].ty
                def g(s, i, j):
                    r = self.rd(s, rows[-1], j)
                    for q in range(len(rows) - 2, -1, -1): r = ITE(i == q, self.rd(s, rows[q], j), r)
                    return r
                return A(ty, [z3.IntVal(len(rows)), rows[0].dims[0]], ("G", g), None, True)
            if ty is None:
                x = v.items[0]
                if isinstance(x, S): ty = "double" if any(isinstance(y, S) and y.t.sort() == R for y in v.items) else x.ty
                elif isinstance(x, O): ty = x.cls.name if x.cls else "opaque"
                else: raise Unsupported("list of " + repr(x))
            con = None
            for q, x in enumerate(v.items):
                t = self.coerce(x, ty)
                con = z3.K(I, t) if con is None else z3.Store(con, z3.IntVal(q), t)
            i = self.newid(); st.arrs[i] = con
            return A(ty, [z3.IntVal(len(v.items))], ("L", i), None, True)
        raise Unsupported(f"{v!r} used as an array")

    # ---- arrays ------------------------------------------------------------------------------------------------
    def base_idx(self, a, idx):
        if a.axes is None: return list(idx)
        out = []
        for ax in a.axes:
            out.append(ax[1] if ax[0] == "fix" else idx[ax[1]] + ax[2] if not (z3.is_int_value(ax[2]) and ax[2].as_long() == 0) else idx[ax[1]])
        return out

    def src(self, st, a):
        if a.src[0] == "L" and a.src[1] in st.esc:
            k, r = st.esc[a.src[1]]
            return ("H", k, r)
        return a.src

    def nbase(self, a): return len(a.axes) if a.axes is not None else len(a.dims)

    def base_term(self, st, a):
        src = self.src(st, a)
        if src[0] == "H": return self.field(st, src[1], src[2], arrsort(a.ty, self.nbase(a)))
        if src[0] == "L": return st.arrs[src[1]]
        return None

    def rd(self, st, a, *idx):
        idx = [i if isinstance(i, z3.ExprRef) else z3.IntVal(i) for i in idx]
        b = self.base_idx(a, idx)
        if a.src[0] == "G": return a.src[1](st, *b)
        return self.L.sel(self.base_term(st, a), *b)

    def elem(self, st, a, *idx):
        t = self.rd(st, a, *idx)
        if t.sort() == Ref: return O(t, self.P.find_class(a.ty) if a.ty not in ("object", "opaque") else None)
        return S(t, a.ty)

    def set_base(self, st, a, con):
        src = self.src(st, a)
        if src[0] == "H": self.setfield(st, src[1], src[2], con, con.sort())
        elif src[0] == "L": st.arrs[src[1]] = con
        else: raise Unsupported("write to a read-only array expression")

    def wr(self, st, a, idx, v):
        b = self.base_idx(a, idx)
        if a.src[0] == "G": raise Unsupported("write to a read-only array expression")
        self.set_base(st, a, z3.Store(self.base_term(st, a), *b, self.coerce(v, a.ty)))

    def wr_all(self, st, a, fn):
        """a[j...] = fn(j...) for every j within a."""
        old = self.base_term(st, a)
        if old is None: raise Unsupported("write to a read-only array expression")
        nb = self.nbase(a)
        js = [self.L.placeholder("j", I) for _ in range(nb)]
        vidx, cond = [None] * len(a.dims), []
        axes = a.axes or [("var", i, z3.IntVal(0)) for i in range(nb)]
        for j, ax in zip(js, axes):
            if ax[0] == "fix": cond.append(j == ax[1])
            else:
                q = j - ax[2] if not (z3.is_int_value(ax[2]) and ax[2].as_long() == 0) else j
                vidx[ax[1]] = q
                if not (a.axes is None): cond += [q >= 0, q < a.dims[ax[1]]]
        val = self.coerce(fn(*vidx), a.ty)
        if a.axes is None:   # whole array: entries beyond the dimensions are unobservable
            self.set_base(st, a, self.L.lam(js, val)); return
        self.set_base(st, a, self.L.lam(js, z3.If(AND(cond), val, self.L.sel(old, *js))))

    def wrap(self, st, i, n, exc="IndexError"):
        """Index i into a dimension of length n, with Python wraparound; bounds become an obligation."""
        if z3.is_int_value(i):
            if i.as_long() < 0: i = z3.simplify(n + i) if not z3.is_int_value(n) else z3.IntVal(n.as_long() + i.as_long())
            self.bound(st, z3.And(i >= 0, i < n)); return i
        if i.get_id() in self.nonneg or self.proves(st, i >= 0, 200):
            self.bound(st, i < n); return i
        self.bound(st, z3.And(i >= -n, i < n))
        return z3.If(i < 0, i + n, i)

    def bound(self, st, goal):
        if self.catching_index:
            self.raise_if(st, z3.Not(goal), "IndexError")
        else:
            self.oblige("index", st, goal)

    catching_index = 0

    def view(self, st, a, items):
        """a[items] where items are index terms, slices ('sl', lo, hi) or array values (gather)."""
        nd = len(a.dims)
        if any(isinstance(x, tuple) and x[0] == "ell" for x in items):
            p = [i for i, x in enumerate(items) if isinstance(x, tuple) and x[0] == "ell"][0]
            items = items[:p] + [("sl", None, None)] * (nd - len(items) + 1) + items[p + 1:]
        items = items + [("sl", None, None)] * (nd - len(items))
        if len(items) > nd: raise Unsupported("too many indices")
        if any(isinstance(x, A) for x in items):
            if sum(isinstance(x, A) for x in items) != 1: raise Unsupported("fancy indexing")
            ga = [i for i, x in enumerate(items) if isinstance(x, A)][0]
            g = items[ga]
            if g.ty in ("bint", "bool"): return self.lib.mask(st, a, items, ga)
            base, its = a, list(items)
            out, dims = [], []
            for i, x in enumerate(its):
                if i == ga: out.append(("g",)); dims.append(g.dims[0])
                elif isinstance(x, tuple):
                    lo, n = self.slice_dim(st, x, a.dims[i]); out.append(("s", lo)); dims.append(n)
                else: out.append(("f", x))
            st0 = st.copy()
            gidx = lambda s, q: self.rd(st0, g, q)
            def fn(s, *ix):
                ix, b = list(ix), []
                for o in out:
                    if o[0] == "g": b.append(gidx(s, ix.pop(0)))
                    elif o[0] == "s": b.append(ix.pop(0) + o[1])
                    else: b.append(o[1])
                return self.rd(st0, base, *b)
            return A(a.ty, dims, ("G", fn))
        old = a.axes or [("var", i, z3.IntVal(0)) for i in range(nd)]
        new, dims, m = [], [], {}
        for i, x in enumerate(items):
            if isinstance(x, tuple):
                lo, n = self.slice_dim(st, x, a.dims[i])
                m[i] = ("var", len(dims), lo); dims.append(n)
            else: m[i] = ("fix", x)
        for ax in old:
            if ax[0] == "fix": new.append(ax)
            else:
                y = m[ax[1]]
                off = ax[2]
                z = lambda t: z3.is_int_value(t) and t.as_long() == 0
                if y[0] == "fix": new.append(("fix", y[1] if z(off) else y[1] + off))
                else: new.append(("var", y[1], off if z(y[2]) else y[2] if z(off) else y[2] + off))
        if len(dims) == nd and all(ax[0] == "var" and z3.is_int_value(ax[2]) and ax[2].as_long() == 0 and ax[1] == i for i, ax in enumerate(new)) \
                and all(d.get_id() == e.get_id() for d, e in zip(dims, a.dims)):
            return A(a.ty, dims, a.src, a.axes, a.lst)
        return A(a.ty, dims, a.src, new, a.lst)

    def slice_dim(self, st, x, n):
        _, lo, hi = x[:3]
        if len(x) > 3 and x[3] is not None: raise Unsupported("slice step")
        def cl(t, dflt):
            if t is None: return dflt
            if z3.is_int_value(t) and t.as_long() < 0: t = n + t
            elif not z3.is_int_value(t) and t.get_id() not in self.nonneg and not self.proves(st, t >= 0, 200):
                t = z3.If(t < 0, z3.If(t + n < 0, 0, t + n), t)
            elif z3.is_int_value(t) and t.as_long() == 0: return t
            if self.proves(st, z3.And(t <= n, t >= 0), 200): return t
            return z3.If(t > n, n, z3.If(t < 0, 0, t))
        a, b = cl(lo, z3.IntVal(0)), cl(hi, n)
        if z3.is_int_value(a) and a.as_long() == 0: return a, b
        d = z3.simplify(b - a)
        return a, (d if self.proves(st, d >= 0, 200) else z3.If(d < 0, 0, d))

    # ---- truth -------------------------------------------------------------------------------------------------
    def truth(self, v):
        if isinstance(v, S):
            if v.t.sort() == B: return v.t
            return v.t != 0
        if isinstance(v, NoneV): return FALSE
        if isinstance(v, O):
            return FALSE if v.t.get_id() == NONE.get_id() else v.t != NONE
        if isinstance(v, Opt): return z3.And(NOT(v.none), self.truth(v.v))
        if isinstance(v, T): return z3.BoolVal(len(v.items) > 0)
        if isinstance(v, A) and v.lst: return v.dims[0] > 0
        raise Unsupported(f"truth of {v!r}")

    def is_none(self, v):
        if isinstance(v, NoneV): return TRUE
        if isinstance(v, O): return self.L.norm(v.t == NONE) if v.t.get_id() != NONE.get_id() else TRUE
        if isinstance(v, Opt): return v.none
        if isinstance(v, A) and v.src[0] == "H" and v.axes is None:
            key, ref = v.src[1], v.src[2]
            return self.L.sel(self.h(self._cur, key + "#none", B), ref)
        if isinstance(v, Either): return ITE(v.c, self.is_none(v.a), self.is_none(v.b))
        if isinstance(v, Opaque): raise Unsupported("None test of unknown value")
        return FALSE

    def some(self, st, v):
        """v, known not None from here on (None would raise)."""
        if isinstance(v, Opt):
            self.raise_if(st, v.none, "TypeError")
            return v.v
        return v

    # ---- attributes --------------------------------------------------------------------------------------------
    def mro(self, cls): return self.P.mro(cls)

    def attr_key(self, cls, name):
        """(kind, ...) describing attribute `name` of class cls."""
        for c in self.P.mro(cls):
            sp = self.side["attr"].get(f"{c.name}.{name}")
            if sp is not None: return ("special", sp)
            ty = self.side["types"].get(f"{c.name}.{name}")
            if ty is not None: return ("field", f"{c.name}.{name}", ty)
            if name in c.props: return ("prop", c.props[name])
            if name in c.attrs:
                return ("field", f"{c.name}.{name}", c.attrs[name])
            if name in c.methods: return ("method", c.methods[name])
            if name in c.consts: return ("const", c.consts[name], c)
        return None

    def getattr(self, st, o, name):
        self._cur = st
        if isinstance(o, Opt): o = self.some(st, o)
        if isinstance(o, Mod): return self.lib.modattr(o.name, name)
        if isinstance(o, (A, T, Seq)): return self.lib.arrattr(st, o, name)
        if isinstance(o, Fn) and o.kind == "super":
            f = self.P.lookup_method(o.obj.cls, name, after=o.after)
            if f is None:
                return Fn("builtin", name="object." + name)
            return Fn("bound", fn=f, obj=o.obj, static=True)
        if isinstance(o, Fn) and o.kind == "class":
            f = self.P.lookup_method(o.cls, name)
            if f is not None: return Fn("func", fn=f)
            for c in self.P.mro(o.cls):
                if name in c.consts: return self.ev(c.consts[name], st)
            m = self.P.modules.get(o.cls.module)
            if m and f"{o.cls.name}.{name}" in m.enums: return S(z3.IntVal(m.enums[f"{o.cls.name}.{name}"]), "enum")
            raise Unsupported(f"class attribute {name}")
        if isinstance(o, Fn) and o.kind == "enum":
            return S(z3.IntVal(o.vals[f"{o.name}.{name}"]), "enum")
        if isinstance(o, Opaque): return Opaque(o.why + "." + name)
        if isinstance(o, Fn) and o.kind == "record" and name in o.fields: return o.fields[name]
        if isinstance(o, S) and o.ty == "str" and name in ("lower", "upper", "strip"):
            x = self.strof(o)
            if x is None: raise Unsupported(f"{name} of an unknown string")
            return Fn("handled", h=lambda e, st, o, a, k: e.strval(getattr(x, name)()), obj=o)
        if not isinstance(o, O): raise Unsupported(f"attribute {name} of {o!r}")
        cls = o.cls
        if cls is None:
            sp = self.side["anyattr"].get(name)
            if sp is None: raise Unsupported(f"attribute {name} of an object of unknown class")
            cls = self.P.find_class(sp)
            if cls is None: raise Unsupported(f"class {sp}")
        if name.startswith("__") and not name.endswith("__") and self.stack and self.stack[-1].cls is not None:
            for c in self.P.mro(self.stack[-1].cls):
                ty = self.side["types"].get(f"{c.name}.{name}") or c.attrs.get(name)
                if ty is not None: break
            if ty is not None: return self.load(st, f"{c.name}.{name}", o.t, ty)
            if self.attr_key(cls, name) is None: raise Unsupported(f"private attribute {name}")
        k = self.attr_key(cls, name)
        if k is None:
            h = self.handler(cls, name)          # found by name at run time (a subclass has it); the contract says what it is
            if h is not None: return Fn("handled", h=h, obj=o)
            raise Unsupported(f"attribute {cls.name}.{name}")
        if k[0] == "special": return k[1](self, st, o)
        if k[0] == "field":
            if k[2] == "object" or k[2] == "list" or k[2] == "dict" or k[2] == "set":
                if k[2] != "object": raise Unsupported(f"untyped container attribute {k[1]}")
            return self.load(st, k[1], o.t, k[2])
        if k[0] == "prop":
            if "get" not in k[1]: raise Unsupported(f"property {name} has no getter")
            h = self.handler(cls, name)
            if h is not None: return h(self, st, o, [], {})
            if not o.exact: self.dispatch_check(cls, name)
            return self.call_func(st, k[1]["get"], [O(o.t, cls, o.exact)], {})
        if k[0] == "method": return Fn("bound", fn=k[1], obj=O(o.t, cls, o.exact), static=False)
        if k[0] == "const": return self.ev(k[1], st)

    def setattr(self, st, o, name, v):
        if isinstance(o, Opt): o = self.some(st, o)
        if not isinstance(o, O): raise Unsupported(f"attribute {name} of {o!r} assigned")
        cls = o.cls
        if cls is None:
            sp = self.side["anyattr"].get(name)
            if sp is None: raise Unsupported(f"attribute {name} of an object of unknown class assigned")
            cls = self.P.find_class(sp)
        if name.startswith("__") and not name.endswith("__") and self.stack and self.stack[-1].cls is not None:
            for c in self.P.mro(self.stack[-1].cls):
                ty = self.side["types"].get(f"{c.name}.{name}") or c.attrs.get(name)
                if ty is not None: break
            if ty is None: raise Unsupported(f"private attribute {name}")
            return self.store(st, f"{c.name}.{name}", o.t, ty, v)
        sh = self.side["setters"].get(f"{cls.name}.{name}")
        if sh: return sh(self, st, o, v)
        k = self.attr_key(cls, name)
        if k is not None and k[0] == "prop" and "set" in k[1]:
            sh = self.side["setters"].get(f"{cls.name}.{name}")
            if sh: return sh(self, st, o, v)
            self.call_func(st, k[1]["set"], [O(o.t, cls, o.exact), v], {}); return
        if k is None or k[0] != "field":
            if k is None and f"{cls.name}.{name}" in self.side["ignore"]: return
            raise Unsupported(f"assignment to {cls.name}.{name}")
        if k[1] in self.side["ignore"]: return
        if isinstance(v, Opaque) and k[2] == "object":
            raise Unsupported(f"unknown value stored in {k[1]}: {v.why}")
        self.store(st, k[1], o.t, k[2], v)

    def handler(self, cls, name):
        for c in self.P.mro(cls):
            h = self.side["methods"].get(f"{c.name}.{name}")
            if h is not None:
                self.contracts_used.add(f"{c.name}.{name}")
                return h
        return None

    _subs = None
    def subclasses(self, cls):
        if self._subs is None:
            self._subs = {}
            for m in self.P.modules.values():
                for c in m.classes.values():
                    for b in self.P.mro(c)[1:]:
                        self._subs.setdefault(id(b), []).append(c)
        return self._subs.get(id(cls), [])

    def dispatch_check(self, cls, name):
        for s in self.subclasses(cls):
            if name in s.methods or name in s.props:
                raise Unsupported(f"dynamic dispatch of {cls.name}.{name} (overridden in {s.name})")

    # ---- expressions -------------------------------------------------------------------------------------------
    def ev(self, e, st):
        m = getattr(self, "x_" + e.k, None)
        if m is None: raise Unsupported(f"expression {e.k} {e.f.get('what', '')} at line {e.line}")
        return m(e, st)

    def x_const(self, e, st):
        v = e.v
        if v is None: return NV
        if e.t == "bool": return S(z3.BoolVal(v), "bint")
        if e.t == "int": return S(z3.IntVal(v), "int")
        if e.t == "double":
            return S(z3.RealVal(e.s if "e" not in e.s.lower() else str(__import__("fractions").Fraction(e.s))), "double")
        if e.t == "str": return self.strval(v)
        if e.t == "bytes": return Opaque("bytes")
        if e.t == "ellipsis": return ("ell",)
        raise Unsupported(f"constant {v!r}")

    def strval(self, v):
        s = S(self.L.strcode(v), "str")
        return s

    def strof(self, v):
        """Concrete string of a literal str value, or None."""
        if isinstance(v, S) and v.ty == "str" and z3.is_int_value(v.t):
            for k, c in self.L.strs.items():
                if c == v.t.as_long(): return k
        return None

    def x_name(self, e, st):
        n = e.id
        if n in st.loc:
            v = st.loc[n]
            if v is None: raise Unsupported(f"local {n} may be unset")
            if isinstance(v, Grown): return self.load(st, v.key, NONE, f"list[{v.ty}]")
            return v
        return self.global_name(n, st)

    def global_name(self, n, st):
        m = self.P.modules.get(self.stack[-1].module) if self.stack else None
        if n in self.side["names"]: return self.side["names"][n](self, st)
        if m is not None:
            if n in m.funcs: return Fn("func", fn=m.funcs[n])
            if n in m.classes: return Fn("class", cls=m.classes[n])
            if n in m.globals and n not in ("_", ): return self.ev(m.globals[n], st)
            if n in m.enums: return S(z3.IntVal(m.enums[n]), "enum")
            if any(k.startswith(n + ".") for k in m.enums): return Fn("enum", name=n, vals=m.enums)
        v = self.lib.builtin(n)
        if v is not None: return v
        c = self.P.find_class(n, m.name if m else None)
        if c is not None: return Fn("class", cls=c)
        for mm in self.P.modules.values():
            if n in mm.enums: return S(z3.IntVal(mm.enums[n]), "enum")
            if any(k.startswith(n + ".") for k in mm.enums): return Fn("enum", name=n, vals=mm.enums)
        for mm in self.P.modules.values():
            if n in mm.funcs: return Fn("func", fn=mm.funcs[n])
        if m is not None and n in m.imports: return Fn("ext", name=".".join(x for x in m.imports[n] if x))
        raise Unsupported(f"name {n}")

    def x_attr(self, e, st):
        if e.o.k == "name" and e.o.id not in st.loc and e.o.id == "_core":
            return Fn("class", cls=self.P.find_class(e.a, "pywr._core"))
        return self.getattr(st, self.ev(e.o, st), e.a)

    def x_import(self, e, st):
        return Mod({"numpy": "np", "pandas": "pd", "networkx": "nx"}.get(e.m, e.m))

    def x_cast(self, e, st):
        v = self.ev(e.a, st)
        return self.cast(st, v, e.t)

    def cast(self, st, v, t):
        if t in ("int",):
            x = self.num(v)
            if x.sort() == R:
                return S(z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x)), "int")
            return S(integer(x), "int")
        if t == "double": return S(real(self.num(v)), "double")
        if t in ("bint",): return S(self.truth(v), "bint")
        if isinstance(v, O):
            c = self.P.find_class(t)
            return O(v.t, c or v.cls, v.exact and c is None)
        return v

    def x_addr(self, e, st):
        return self.lib.addr(st, e.a)

    def x_sizeof(self, e, st):
        return S(z3.IntVal({"double": 8, "int": 4}.get(e.t, 8)), "int")

    def x_tuple(self, e, st): return T([self.ev(x, st) for x in e.items])
    def x_list(self, e, st): return T([self.ev(x, st) for x in e.items], "list")
    def x_dict(self, e, st):
        if e.items and all(k.k in ("str", "num", "const") or k.k == "attr" for k, _ in e.items):
            try: return T([(self.ev(k, st), self.ev(v, st)) for k, v in e.items], "map")
            except Unsupported: pass
        return Opaque("dict")
    def x_slice(self, e, st): raise Unsupported("slice")
    def x_lambda(self, e, st): return Fn("lambda", args=e.args, body=e.body, loc=dict(st.loc))
    def x_comp(self, e, st): return self.lib.comprehension(st, e)
    def x_not(self, e, st): return S(NOT(z3.simplify(self.truth(self.ev(e.a, st)))), "bint")

    def x_neg(self, e, st):
        v = self.ev(e.a, st)
        v = self.some(st, v)
        if isinstance(v, A): return self.lib.map1(st, v, lambda t: -t)
        t = self.num(v)
        t = integer(t) if t.sort() == B else t
        if z3.is_int_value(t): return S(z3.IntVal(-t.as_long()), "int")
        return S(-t, "double" if t.sort() == R else "int")

    def x_inv(self, e, st):
        v = self.ev(e.a, st)
        if isinstance(v, A): return self.lib.map1(st, v, lambda t: z3.Not(t), "bint")
        raise Unsupported("~")

    def x_ite(self, e, st):
        c = z3.simplify(self.truth(self.ev(e.c, st)))
        if z3.is_true(c): return self.ev(e.a, st)
        if z3.is_false(c): return self.ev(e.b, st)
        c = self.L.norm(c)
        if self.proves(st, c, 150): return self.ev(e.a, st)
        if self.proves(st, NOT(c), 150): return self.ev(e.b, st)
        base = len(st.pc)
        s1, s2 = st.copy(), st.copy()
        s1.pc.append(c); s2.pc.append(NOT(c))
        a, b = self.ev(e.a, s1), self.ev(e.b, s2)
        st.become(self.merge(c, s1, s2, base))
        if any(z3.is_false(x) for x in s1.pc[base:]): return b
        if any(z3.is_false(x) for x in s2.pc[base:]): return a
        return merge_val(c, a, b)

    def x_bool(self, e, st):
        a = self.ev(e.a, st)
        ca = z3.simplify(self.truth(a))
        if e.op == "and":
            if z3.is_false(ca): return a
            if z3.is_true(ca): return self.ev(e.b, st)
            g = ca
        else:
            if z3.is_true(ca): return a
            if z3.is_false(ca): return self.ev(e.b, st)
            g = NOT(ca)
        base = len(st.pc)
        s1, s2 = st.copy(), st.copy()
        s1.pc.append(g); s2.pc.append(NOT(g))
        b = self.ev(e.b, s1)
        st.become(self.merge(g, s1, s2, base))
        if isinstance(a, S) and isinstance(b, S) and a.t.sort() == B and b.t.sort() == B:
            return S(z3.And(ca, b.t) if e.op == "and" else z3.Or(ca, b.t), "bint")
        r = merge_val(g, b, a)
        if isinstance(r, Opaque):   # only its truth value can be meant
            try: tb = self.truth(b)
            except Unsupported: return r
            return S(z3.And(ca, tb) if e.op == "and" else z3.Or(ca, tb), "bint")
        return r

    def x_cmp(self, e, st):
        vals = [self.ev(x, st) for x in e.vals]
        cs = [self.compare(st, op, a, b) for op, a, b in zip(e.ops, vals, vals[1:])]
        if len(cs) == 1: return cs[0]
        return S(AND([self.truth(c) for c in cs]), "bint")

    def compare(self, st, op, a, b):
        self._cur = st
        if op in ("is", "is_not", "is not"):
            if isinstance(b, NoneV): c = self.is_none(a)
            elif isinstance(a, NoneV): c = self.is_none(b)
            elif isinstance(a, O) and isinstance(b, O): c = a.t == b.t
            elif isinstance(a, S) and isinstance(b, S): c = a.t == b.t
            elif isinstance(a, Fn) and isinstance(b, Fn): c = z3.BoolVal(a.__dict__ == b.__dict__)
            else: raise Unsupported("is")
            return S(c if op == "is" else NOT(c), "bint")
        if op in ("in", "not_in", "not in"):
            if isinstance(b, Opt): b = self.some(st, b)
            if isinstance(b, T) and b.kind == "map": c = OR([self.truth(self.compare(st, "==", a, k)) for k, _ in b.items])
            elif isinstance(b, T): c = OR([self.truth(self.compare(st, "==", a, x)) for x in b.items])
            elif isinstance(b, A) and len(b.dims) == 1:
                c = self.lib.any_(st, b.dims[0], lambda k: self.truth(self.compare(st, "==", a, self.elem(st, b, k))))
            else: raise Unsupported("in")
            return S(c if op == "in" else NOT(c), "bint")
        if op in ("==", "!=") and (isinstance(a, NoneV) or isinstance(b, NoneV)):
            c = self.is_none(b if isinstance(a, NoneV) else a)
            return S(c if op == "==" else NOT(c), "bint")
        if op in ("==", "!=") and (isinstance(a, Opt) or isinstance(b, Opt)):
            na, va = (a.none, a.v) if isinstance(a, Opt) else (FALSE, a)
            nb, vb = (b.none, b.v) if isinstance(b, Opt) else (FALSE, b)
            c = z3.Or(z3.And(na, nb), z3.And(NOT(na), NOT(nb), self.truth(self.compare(st, "==", va, vb))))
            return S(c if op == "==" else NOT(c), "bint")
        a, b = self.some(st, a), self.some(st, b)
        if isinstance(a, A) or isinstance(b, A): return self.lib.map2(st, a, b, lambda x, y: self.cmp2(op, x, y), "bint")
        if isinstance(a, O) and isinstance(b, O):
            if op == "==": return S(a.t == b.t, "bint")
            if op == "!=": return S(a.t != b.t, "bint")
            h = self.side["objcmp"].get(a.cls.name if a.cls else None)
            if h: return h(self, st, op, a, b)
        if isinstance(a, T) and isinstance(b, T) and op in ("==", "!="):
            c = AND([self.truth(self.compare(st, "==", x, y)) for x, y in zip(a.items, b.items)]) if len(a.items) == len(b.items) else FALSE
            return S(c if op == "==" else NOT(c), "bint")
        if not (isinstance(a, S) and isinstance(b, S)): raise Unsupported(f"comparison {op} of {a!r} and {b!r}")
        return S(self.cmp2(op, a.t, b.t), "bint")

    def cmp2(self, op, x, y):
        if x.sort() != y.sort():
            if R in (x.sort(), y.sort()): x, y = real(x), real(y)
            else: x, y = integer(x), integer(y)
        if x.sort() == B and op not in ("==", "!="): x, y = integer(x), integer(y)
        return {"==": lambda: x == y, "!=": lambda: x != y, "<": lambda: x < y, "<=": lambda: x <= y,
                ">": lambda: x > y, ">=": lambda: x >= y}[op]()

    def x_bin(self, e, st):
        return self.binop(st, e.op, self.ev(e.a, st), self.ev(e.b, st))

    def binop(self, st, op, a, b):
        a, b = self.some(st, a), self.some(st, b)
        if isinstance(a, A) or isinstance(b, A):
            if op == "+" and isinstance(a, A) and isinstance(b, (A, T)) and a.lst: return self.lib.concat(st, a, b)
            if op == "+" and isinstance(b, A) and isinstance(a, T) and b.lst: return self.lib.concat(st, A(b.ty, (x := self.to_array(st, a, b.ty)).dims, x.src, x.axes, True), b)
            if op == "/" : return self.lib.map2(st, a, b, lambda x, y: self.arith(None, "/", x, y))
            return self.lib.map2(st, a, b, lambda x, y: self.arith(None, op, x, y))
        if isinstance(a, T) and isinstance(b, T) and op == "+": return T(a.items + b.items, a.kind)
        if isinstance(a, T) and op == "*" and len(a.items) == 1 and isinstance(b, S):
            x = a.items[0]
            return A(x.ty, [integer(b.t)], ("G", lambda s, i: x.t), None, True)
        if isinstance(a, S) and a.ty == "str" or isinstance(b, S) and b.ty == "str":
            if op == "%" or op == "+": return S(self.L.const("str", I), "str")
        if isinstance(a, S) and isinstance(b, S):
            t = self.arith(st, op, a.t, b.t)
            return S(t, {R: "double", I: "int", B: "bint"}[t.sort()])
        h = self.side["objbin"].get((op, a.cls.name if isinstance(a, O) and a.cls else None, b.cls.name if isinstance(b, O) and b.cls else None))
        if h: return h(self, st, a, b)
        raise Unsupported(f"{op} of {a!r} and {b!r}")

    def fdiv(self, x, y):
        if z3.is_int_value(y) and y.as_long() > 0: return x / y
        return z3.If(y > 0, x / y, (-x) / (-y))

    def arith(self, st, op, x, y):
        if x.sort() == B and y.sort() == B and op in ("&", "|"):
            return z3.And(x, y) if op == "&" else z3.Or(x, y)
        x = integer(x) if x.sort() == B else x
        y = integer(y) if y.sort() == B else y
        anyreal = R in (x.sort(), y.sort())
        if anyreal and op in "+-*": x, y = real(x), real(y)
        if op == "+":
            if z3.is_int_value(y) and y.as_long() == 0: return x
            if z3.is_int_value(x) and x.as_long() == 0: return y
            return x + y
        if op == "-": return x - y
        if op == "*": return x * y
        if op == "/":
            x, y = real(x), real(y)
            if st is not None: self.raise_if(st, y == 0, "ZeroDivisionError")
            return x / y
        if op in ("//", "%"):
            if anyreal:
                x, y = real(x), real(y)
                if st is not None: self.raise_if(st, y == 0, "ZeroDivisionError")
                q = z3.ToReal(z3.ToInt(x / y))
                return q if op == "//" else x - q * y
            if st is not None: self.raise_if(st, y == 0, "ZeroDivisionError")
            if op == "%" and z3.is_int_value(y) and y.as_long() > 0: return x % y
            q = self.fdiv(x, y)
            return q if op == "//" else x - q * y
        if op == "**": return self.lib.power(st, x, y)
        if op == "&" and I == x.sort() == y.sort():
            if z3.is_int_value(x): x, y = y, x
            if z3.is_int_value(y) and y.as_long() >= 0 and (y.as_long() & (y.as_long() + 1)) == 0: return x % (y.as_long() + 1)
        raise Unsupported(f"operator {op}")

    def x_index(self, e, st):
        o = self.some(st, self.ev(e.o, st))
        return self.getitem(st, o, e.i)

    def index_items(self, st, ie):
        its = ie.items if ie.k == "tuple" else [ie]
        out = []
        for x in its:
            if x.k == "slice":
                f = lambda y: None if y is None else self.ev(y, st)
                vals = [f(x.lo), f(x.hi), f(x.st)]
                g = lambda v: None if v is None or isinstance(v, NoneV) else integer(self.num(v))
                out.append(("sl", g(vals[0]), g(vals[1]), g(vals[2])) if vals[2] is not None else ("sl", g(vals[0]), g(vals[1])))
            else:
                v = self.ev(x, st)
                out.append(("sl", v.lo, v.hi) if isinstance(v, Fn) and v.kind == "slice" else v)
        return out

    def getitem(self, st, o, ie):
        if isinstance(o, Fn) and o.kind == "np" and o.name == "r_":
            its = self.index_items(st, ie)
            if any(isinstance(x, tuple) for x in its): raise Unsupported("np.r_ with slices")
            return self.lib.concats(st, its)
        if isinstance(o, Fn): raise Unsupported("subscripted callable")
        items = self.index_items(st, ie)
        return self.getitem_v(st, o, items)

    def getitem_v(self, st, o, items):
        if isinstance(o, Opaque): return Opaque(o.why + "[]")
        if isinstance(o, Seq) and o.rng and len(items) == 1 and isinstance(items[0], O):
            # range(n)[slice object]: Python's slicing (uninterpreted)
            n, sl = o.n, items[0].t
            self.assumed.add("range(n)[slice] is Python's slicing")
            cnt, at = self.lib.fn("slice_len", I, Ref, I)(n, sl), self.lib.fn("slice_at", I, Ref, I, I)
            self.L.keep.append(cnt); self.nonneg.add(cnt.get_id())
            return Seq(cnt, lambda k, s: S(at(n, sl, k), "int"))
        if isinstance(o, Seq): o = self.seq_array(st, o, None)
        if isinstance(o, T) and o.kind == "map":
            x = self.some(st, items[0])
            if not isinstance(x, S) or any(not isinstance(k, S) for k, _ in o.items): raise Unsupported("dictionary key")
            self.raise_if(st, NOT(OR([x.t == k.t for k, _ in o.items])), "KeyError")
            r = o.items[-1][1]
            for k, v in o.items[-2::-1]: r = merge_val(x.t == k.t, v, r)
            return r
        if isinstance(o, T):
            x = items[0]
            if isinstance(x, S) and z3.is_int_value(z3.simplify(x.t)):
                i = z3.simplify(x.t).as_long()
                if -len(o.items) <= i < len(o.items): return o.items[i]
                self.raise_now(st, "IndexError"); raise Unsupported("index out of range")
            if isinstance(x, tuple) and x[0] == "sl":
                c = lambda t: None if t is None else t.as_long()
                return T(o.items[slice(*[c(t) for t in x[1:]])], o.kind)
            if isinstance(x, S) and x.ty != "str":
                i = self.wrap(st, integer(x.t), z3.IntVal(len(o.items)))
                r = o.items[-1]
                for q in range(len(o.items) - 2, -1, -1): r = merge_val(i == q, o.items[q], r)
                return r
            raise Unsupported("tuple index")
        if isinstance(o, O):
            f = self.handler(o.cls, "__getitem__") if o.cls else None
            if f: return f(self, st, o, items, {})
            raise Unsupported("subscript of an object")
        if not isinstance(o, A): raise Unsupported(f"subscript of {o!r}")
        if len(items) == 1 and len(o.dims) == 1 and isinstance(items[0], tuple) and items[0][0] == "sl" and len(items[0]) > 3 and items[0][3] is not None \
                and items[0][1] is None and items[0][2] is None and z3.is_int_value(z3.simplify(items[0][3])) and z3.simplify(items[0][3]).as_long() == -1 and o.lst:
            s0, n = st.copy(), o.dims[0]
            return A(o.ty, [n], ("G", lambda s, i: self.rd(s0, o, n - 1 - i)), None, True)
        o2 = []
        for x in items:
            if isinstance(x, S): o2.append(x)
            elif isinstance(x, Opt): o2.append(self.some(st, x))
            elif isinstance(x, T): o2.append(self.to_array(st, x, "int"))
            else: o2.append(x)
        its = []
        for d, x in enumerate(o2):
            if isinstance(x, S):
                if x.t.sort() == R: raise Unsupported("real index")
                its.append(self.wrap(st, integer(x.t), o.dims[d]) if d < len(o.dims) else x.t)
            else: its.append(x)
        if len(its) == len(o.dims) and all(isinstance(x, z3.ExprRef) for x in its):
            return self.elem(st, o, *its)
        return self.view(st, o, its)

    # ---- calls -------------------------------------------------------------------------------------------------
    def x_call(self, e, st):
        fn = e.fn
        if fn.k == "name" and fn.id == "super" and fn.id not in st.loc:
            f = self.stack[-1]
            me = st.loc[f.args[0][0]]
            after = f.cls
            if e.args and e.args[0].k == "name":
                c = self.P.find_class(e.args[0].id, f.module)
                if c is not None and self.P.find_class(e.args[0].id, f.module) in self.P.mro(me.cls): after = c
            return Fn("super", obj=me, after=after)
        drop = self.lib.dropped(e, st, self)
        if drop: return NV
        if fn.k == "attr" and fn.a in ("append", "extend") and fn.o.k == "name" and isinstance(st.loc.get(fn.o.id), T) and st.loc[fn.o.id].kind == "list":
            old = st.loc[fn.o.id]
            if any(v is old for k, v in st.loc.items() if k != fn.o.id): raise Unsupported("append to a shared list")
            x = self.ev(e.args[0], st)
            if fn.a == "extend":
                if not isinstance(x, T): raise Unsupported("extend")
                st.loc[fn.o.id] = T(old.items + x.items, "list")
            else: st.loc[fn.o.id] = T(old.items + [x], "list")
            return NV
        f = self.ev(fn, st)
        if isinstance(f, Opaque): raise Unsupported(f"call of unknown {f.why}")
        lazy = self.lib.lazy(st, f, e)
        if lazy is not None: return lazy
        args = [self.ev(a, st) for a in e.args]
        if e.star is not None:
            s = self.ev(e.star, st)
            if isinstance(s, T): args += s.items
            elif isinstance(s, Seq) and s.cond is None and f.kind in ("ext", "handled"): args.append(Star(s))
            else: raise Unsupported("star call")
        kw = {k: self.ev(v, st) for k, v in e.kw.items()}
        if e.dstar is not None:
            d = self.ev(e.dstar, st)
            if isinstance(d, T) and d.kind == "kw": kw.update(dict(d.items))
            elif isinstance(d, Opaque): kw["**"] = d
            else: raise Unsupported("** call")
        return self.call(st, f, args, kw)

    def call(self, st, f, args, kw):
        self._cur = st
        if isinstance(f, Opt): f = self.some(st, f)
        if not isinstance(f, Fn): raise Unsupported(f"call of {f!r}")
        if f.kind == "func": 
            h = self.side["funcs"].get(f"{f.fn.module}:{f.fn.qualname}")
            if h: return h(self, st, args, kw)
            return self.call_func(st, f.fn, args, kw)
        if f.kind == "handled": return f.h(self, st, f.obj, args, kw)
        if f.kind == "bound":
            o = f.obj
            if not f.static:
                h = self.handler(o.cls, f.fn.name)
                # a contract on the receiver's own method is used at call sites, never for the function under proof
                # (unless the contract names it as one of the receiver's other methods that have contracts of their own)
                if h is not None and (not o.exact or f.fn.name in self.side.get("own", ()) and f.fn is not self.ctx.fn): return h(self, st, o, args, kw)
                if not o.exact: self.dispatch_check(o.cls, f.fn.name)
            else:
                h = self.side["methods"].get(f"{f.fn.cls.name}.{f.fn.name}!super")
                if h is not None: return h(self, st, o, args, kw)
            dn = [d.id for d in f.fn.decorators if d.k == "name"]
            if "staticmethod" in dn: return self.call_func(st, f.fn, args, kw)
            if "classmethod" in dn: return self.call_func(st, f.fn, [Fn("class", cls=o.cls)] + args, kw)
            return self.call_func(st, f.fn, [o] + args, kw)
        if f.kind == "lambda":
            s0 = st.loc
            st.loc = {**f.loc, **dict(zip(f.args, args))}
            try: return self.ev(f.body, st)
            finally: st.loc = s0
        if f.kind == "py": return f.f(self, st, args, kw)
        if f.kind == "class":
            h = self.side["new"].get(f.cls.name)
            if h: return h(self, st, args, kw)
            if f.cls.name in self.side["fresh"]:
                # a new object, different from all that exist
                t = self.L.const("new_" + f.cls.name, Ref)
                self.L.keep.append(t); self.known_class[t.get_id()] = (f.cls, True)
                st.pc.append(t != NONE); self.fresh.append(t)
                o = O(t, f.cls, True)
                init = self.P.lookup_method(f.cls, "__init__")
                if init is not None: self.call_func(st, init, [o] + args, kw)
                return o
            if any(b in ("Exception", "ValueError", "RuntimeError", "KeyError") for c in self.P.mro(f.cls) for b in c.bases): return Opaque("exception")
            raise Unsupported(f"construction of {f.cls.name}")
        return self.lib.call(st, f, args, kw)

    def bind(self, st, fn, args, kw):
        loc = {}
        names = [a[0] for a in fn.args]
        if len(args) > len(names):
            if fn.star is None: self.raise_now(st, "TypeError"); raise Unsupported("too many arguments")
            loc[fn.star] = T(args[len(names):]); args = args[:len(names)]
        elif fn.star: loc[fn.star] = T([])
        for n, v in zip(names, args): loc[n] = v
        extra = []
        for k, v in kw.items():
            if k in names: loc[k] = v
            else: extra.append((k, v))
        if fn.starstar: 
            loc[fn.starstar] = T([], "kw"); loc[fn.starstar].items = extra
        elif extra: self.raise_now(st, "TypeError"); raise Unsupported(f"unexpected keyword {extra[0][0]}")
        for n, ty, d in fn.args:
            if n not in loc:
                if d is None: self.raise_now(st, "TypeError"); raise Unsupported(f"missing argument {n}")
                loc[n] = self.ev(d, st)
            loc[n] = self.typed(st, loc[n], ty)
        return loc

    def typed(self, st, v, ty):
        """v as held by a variable of declared type ty."""
        if ty in ("double",) and isinstance(v, S) and v.t.sort() != R: return S(real(v.t), "double")
        if ty == "int" and isinstance(v, S) and v.t.sort() == R: raise Unsupported("real to int variable")
        if ty == "int" and isinstance(v, S) and v.t.sort() == B: return S(integer(v.t), "int")
        if ty == "bint" and isinstance(v, S) and v.t.sort() != B: return S(v.t != 0, "bint")
        if isinstance(v, O) and ty not in ("object",) and not (v.exact):
            c = self.P.find_class(ty)
            if c is not None and (v.cls is None or c in self.subclasses(v.cls)): return O(v.t, c)
        if isinstance(v, NoneV) and ty not in ("object",) and "[" not in ty and self.P.find_class(ty): return O(NONE, self.P.find_class(ty))
        if "[" in ty and isinstance(v, (T, Seq)): return self.to_array(st, v, self.parse_type(ty)[0])
        return v

    def call_func(self, st, fn, args, kw):
        """Inline a function: returns its value; st becomes the state after it returned normally."""
        self.depth += 1
        if self.depth > 25 or [f for f in self.stack].count(fn) > 2: 
            self.depth -= 1
            raise Unsupported(f"recursion in {fn.qualname}")
        self.used.add(f"{fn.module}:{fn.qualname}")
        self.stack.append(fn)
        try:
            base = len(st.pc)
            loc = self.bind(st, fn, args, kw)
            s = st.copy(); s.loc = loc
            rl, rmark = self.rstack[-1], len(self.rstack[-1])
            self.decl = getattr(self, "decl", {})
            odecl, self.decl = self.decl, dict((a[0], a[1]) for a in fn.args)
            try:
                out = self.block(fn.body, s)
            finally:
                self.decl = odecl
            for _, rs in rl[rmark:]: rs.loc = dict(st.loc)
            res, val = self.join(out, base)
        finally:
            self.stack.pop(); self.depth -= 1
        if res is None:
            st.pc.append(FALSE); return NV
        loc0 = st.loc
        st.become(res); st.loc = loc0
        if fn.ret in ("double", "int", "bint"):
            if isinstance(val, NoneV): val = S({"double": z3.RealVal(0), "int": z3.IntVal(0), "bint": FALSE}[fn.ret], fn.ret)
            if isinstance(val, Opt): val = self.some(st, val)
            val = self.typed(st, val, fn.ret)
        return val

    def join(self, out, base):
        """Merge all normal exits of a function body into one state and value."""
        rs = list(out.rets)
        if out.nxt is not None: rs.append((out.nxt, NV))
        rs = [(s, v) for s, v in rs if not any(z3.is_false(x) for x in s.pc)]
        if not rs: return None, NV
        s, v = rs[-1]
        for s2, v2 in reversed(rs[:-1]):
            c = AND(s2.pc[base:])
            s.loc, s2.loc = {}, {}
            s, v = self.merge(c, s2, s, base), merge_val(c, v2, v)
        return s, v

    # ---- statements --------------------------------------------------------------------------------------------
    def block(self, stmts, st):
        out = Out(st)
        for s in stmts:
            if out.nxt is None: break
            if any(z3.is_false(x) for x in out.nxt.pc): out.nxt = None; break
            m = getattr(self, "s_" + s.k, None)
            if m is None: raise Unsupported(f"statement {s.k} {s.f.get('what', '')} at line {s.line}")
            try: o = m(s, out.nxt)
            except Unsupported as u:
                if not hasattr(u, "line"): u.line = s.line
                raise
            if o is None: continue
            out.nxt = o.nxt
            out.rets += o.rets; out.brks += o.brks; out.conts += o.conts
        if out.nxt is not None and any(z3.is_false(x) for x in out.nxt.pc): out.nxt = None
        return out

    def s_block(self, s, st): return self.block(s.body, st)
    def s_expr(self, s, st):
        if s.a.k == "const": return
        self.ev(s.a, st)

    def s_cdef(self, s, st):
        for n, ty, d in s.vars:
            self.decl[n] = ty
            if d is not None: st.loc[n] = self.typed(st, self.ev(d, st), ty)

    def s_fromimport(self, s, st): return
    def s_global(self, s, st): return
    def s_localdef(self, s, st):
        st.loc[s.fn.name] = Fn("localfn", fn=s.fn, loc=st.loc)

    def s_assign(self, s, st):
        v = self.ev(s.v, st)
        for t in s.targets: self.assign(st, t, v)

    def assign(self, st, t, v):
        if t.k == "name":
            ty = self.decl.get(t.id)
            if isinstance(v, Seq) and v.cond is None and not v.pure: v = self.seq_array(st, v, None)
            st.loc[t.id] = self.typed(st, v, ty) if ty else v
        elif t.k == "attr":
            self.setattr(st, self.ev(t.o, st), t.a, v)
        elif t.k in ("tuple", "list"):
            n = len(t.items)
            if isinstance(v, T):
                if len(v.items) != n: self.raise_now(st, "ValueError"); return
                for x, y in zip(t.items, v.items): self.assign(st, x, y)
            elif isinstance(v, A):
                self.oblige("unpack", st, v.dims[0] == n)
                vals = [self.elem(st, v, z3.IntVal(i)) if len(v.dims) == 1 else self.view(st, v, [z3.IntVal(i)]) for i in range(n)]
                for x, y in zip(t.items, vals): self.assign(st, x, y)
            else: raise Unsupported(f"unpacking {v!r}")
        elif t.k == "index":
            o = self.some(st, self.ev(t.o, st))
            self.setitem(st, o, self.index_items(st, t.i), v, t)
        else: raise Unsupported(f"assignment to {t.k}")

    def setitem(self, st, o, items, v, t=None):
        if isinstance(o, O):
            f = self.handler(o.cls, "__setitem__") if o.cls else None
            if f: return f(self, st, o, items + [v], {})
            raise Unsupported("item assignment on an object")
        if isinstance(o, T):
            if t is not None and isinstance(items[0], S) and z3.is_int_value(z3.simplify(items[0].t)):
                i = z3.simplify(items[0].t).as_long()
                n = T(o.items, o.kind); n.items[i] = v
                self.assign(st, t.o, n); return
            raise Unsupported("item assignment on a list literal")
        if not isinstance(o, A): raise Unsupported(f"item assignment on {o!r}")
        its = []
        for d, x in enumerate(items):
            if isinstance(x, Opt): x = self.some(st, x)
            if isinstance(x, S):
                its.append(self.wrap(st, integer(x.t), o.dims[d]))
            else: its.append(x)
        if len(its) == len(o.dims) and all(isinstance(x, z3.ExprRef) for x in its):
            self.wr(st, o, its, self.some(st, v)); return
        if any(isinstance(x, A) for x in its): return self.lib.setmask(st, o, its, v)
        w = self.view(st, o, its)
        self.assign_view(st, w, v)

    def assign_view(self, st, w, v):
        v = self.some(st, v)
        if isinstance(v, (T, Seq)): v = self.to_array(st, v, None)
        st0 = st.copy()
        if isinstance(v, S): self.wr_all(st, w, lambda *j: v)
        elif isinstance(v, A):
            if len(v.dims) == len(w.dims):
                for a, b in zip(v.dims, w.dims): self.oblige("shape", st, a == b)
                self.wr_all(st, w, lambda *j: self.elem(st0, v, *j))
            elif len(v.dims) < len(w.dims):
                k = len(w.dims) - len(v.dims)
                for a, b in zip(v.dims, w.dims[k:]): self.oblige("shape", st, a == b)
                self.wr_all(st, w, lambda *j: self.elem(st0, v, *j[k:]))
            else: raise Unsupported("shape of assigned array")
        else: raise Unsupported(f"array assigned {v!r}")

    def s_aug(self, s, st):
        t = s.target
        if t.k == "attr": o = self.ev(t.o, st); cur = self.getattr(st, o, t.a)
        elif t.k == "index":
            o = self.some(st, self.ev(t.o, st)); items = self.index_items(st, t.i); cur = self.getitem_v(st, o, items)
        else: cur = self.ev(t, st)
        v = self.ev(s.v, st)
        if isinstance(self.some(st, cur), A) and s.op in "+-*/":
            a = self.some(st, cur)
            if a.lst and s.op == "+":
                r = self.binop(st, "+", a, v)
                if t.k == "attr": self.setattr(st, o, t.a, r)
                else: self.assign(st, t, r)
                return
            r = self.binop(st, s.op, a, v)
            if a.src[0] == "G": self.assign(st, t, r); return
            self.assign_view(st, a, r); return
        r = self.binop(st, s.op, cur, v)
        if t.k == "attr": self.setattr(st, o, t.a, r)
        elif t.k == "index": self.setitem(st, o, items, r, t)
        else: self.assign(st, t, r)

    def s_if(self, s, st):
        c = z3.simplify(self.truth(self.ev(s.c, st)))
        if z3.is_true(c): return self.block(s.a, st)
        if z3.is_false(c): return self.block(s.b, st)
        c = self.L.norm(c)
        if self.proves(st, c, 150): return self.block(s.a, st)
        if self.proves(st, NOT(c), 150): return self.block(s.b, st)
        base = len(st.pc)
        s1, s2 = st.copy(), st
        s1.pc.append(c); s2 = st.copy(); s2.pc.append(NOT(c))
        o1, o2 = self.block(s.a, s1), self.block(s.b, s2)
        o = Out(None)
        if o1.nxt is not None and o2.nxt is not None:
            o.nxt = self.merge(c, o1.nxt, o2.nxt, base)
        else: o.nxt = o1.nxt or o2.nxt
        o.rets, o.brks, o.conts = o1.rets + o2.rets, o1.brks + o2.brks, o1.conts + o2.conts
        return o

    def s_return(self, s, st):
        v = self.ev(s.v, st) if s.v is not None else NV
        o = Out(None); o.rets.append((st, v)); return o

    def s_raise(self, s, st):
        if s.v is None: exc = getattr(self, "_handling", "Exception")
        else:
            e = s.v.fn if s.v.k == "call" else s.v
            exc = e.id if e.k == "name" else e.a if e.k == "attr" else "Exception"
            if e.k == "name" and e.id in st.loc: exc = getattr(self, "_handling", "Exception")
        self.rstack[-1].append((exc, st))
        return Out(None)

    def s_break(self, s, st):
        o = Out(None); o.brks.append(st); return o

    def s_continue(self, s, st):
        o = Out(None); o.conts.append(st); return o

    def s_assert(self, s, st):
        c = self.truth(self.ev(s.c, st))
        self.raise_if(st, NOT(z3.simplify(c)), "AssertionError")

    def s_del(self, s, st):
        for t in s.targets:
            if t.k == "name": st.loc.pop(t.id, None)
            else: raise Unsupported("del")

    def s_try(self, s, st):
        base = len(st.pc)
        self.rstack.append([])
        ci = any(h[0] is None or set(h[0]) & {"IndexError", "LookupError", "Exception"} for h in s.handlers)
        if ci: self.catching_index += 1
        try:
            out = self.block(s.body, st)
        finally:
            if ci: self.catching_index -= 1
            raised = self.rstack.pop()
        if out.nxt is not None and s.els:
            o2 = self.block(s.els, out.nxt)
            out.nxt = o2.nxt; out.rets += o2.rets; out.brks += o2.brks; out.conts += o2.conts
        for exc, rs in raised:
            for names, target, body in s.handlers:
                if exc_matches(exc, names):
                    if target is not None and target.k == "name": rs.loc[target.id] = Opaque("exception")
                    oh, self._handling = getattr(self, "_handling", None), exc
                    o2 = self.block(body, rs)
                    self._handling = oh
                    if o2.nxt is not None:
                        out.nxt = o2.nxt if out.nxt is None else self.merge(AND(o2.nxt.pc[base:]), o2.nxt, out.nxt, base)
                    out.rets += o2.rets; out.brks += o2.brks; out.conts += o2.conts
                    break
            else:
                self.rstack[-1].append((exc, rs))
        if s.fin:
            if out.rets or out.brks or out.conts: raise Unsupported("finally after a jump")
            if out.nxt is not None: out = self.block(s.fin, out.nxt)
        return out

    def s_for(self, s, st): return self.loops.for_(s, st)
    def s_while(self, s, st): return self.loops.while_(s, st)
