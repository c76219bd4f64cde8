"""Library vocabulary: builtins, numpy, math.  Everything here is part of the trusted base (listed in the evidence as
assumed contracts on dependencies)."""
import z3
from core import Ref, R, I, B, NONE, NAN, INF, DBL_MAX, TRUE, FALSE, sortof, arrsort
from values import *
from exec import Exec

MATH = {"exp", "log", "log2", "log10", "sin", "cos", "tan", "tanh", "sqrt", "erf"}
LOGGERS = {"logger", "log", "warnings", "logging"}


class Lib:
    def __init__(self, ex):
        self.ex, self.L = ex, ex.L
        self.uf = {}

    def fn(self, name, *sorts):
        f = self.uf.get(name)
        if f is None: f = self.uf[name] = z3.Function(name, *sorts)
        return f

    # ---- names -------------------------------------------------------------------------------------------------
    BUILTINS = {"len", "range", "enumerate", "zip", "min", "max", "abs", "sum", "float", "int", "bool", "isinstance", "list",
                "tuple", "round", "slice", "any", "all", "str", "sorted", "hasattr", "getattr", "map", "type", "print", "set", "dict", "callable",
                "reversed", "next", "iter", "id", "repr", "object", "malloc", "free", "memset"}

    def builtin(self, n):
        if n in ("np", "numpy"): return Mod("np")
        if n == "math": return Mod("math")
        if n in ("pd", "pandas", "datetime", "calendar", "scipy", "os", "json", "nx", "networkx", "tables", "operator", "warnings"): return Mod(n)
        if n in ("isnan", "isinf", "isfinite", "fabs", "floor", "ceil", "fmin", "fmax", "pow", "fmod") or n in MATH: return Fn("np", name=n)
        if n in ("DBL_MAX",): return S(DBL_MAX, "double")
        if n in ("INT_MAX", "INT_MIN"): return S(z3.IntVal(2**31 - 1 if n == "INT_MAX" else -2**31), "int")
        if n in ("inf", "INFINITY"): return S(INF, "double")
        if n in ("nan", "NAN"): return S(NAN, "double")
        if n in ("True", "False"): return S(z3.BoolVal(n == "True"), "bint")
        if n == "NULL": return NV
        if n in ("pi", "M_PI"): return S(z3.Const("pi!", R), "double")
        if n in self.BUILTINS: return Fn("builtin", name=n)
        if n in ("partial",): return Fn("builtin", name=n)
        return None

    def modattr(self, mod, name):
        if mod in ("np", "math"):
            if name in ("inf", "infty", "Inf"): return S(INF, "double")
            if name in ("nan", "NaN", "NAN"): return S(NAN, "double")
            if name == "pi": return S(z3.Const("pi!", R), "double")
            if name in ("float64", "float32", "int32", "int64", "uint32", "uint8", "int8", "int_", "bool_", "intp", "double", "uint64"):
                return Fn("dtype", name=name)
            if name == "newaxis": return NV
            return Fn("np", name=name)
        return Fn("ext", name=f"{mod}.{name}")

    def dropped(self, e, st, ex):
        """Logging and warning calls: no effect on the verified state."""
        f = e.fn
        if f.k == "attr" and f.o.k == "name" and f.o.id in LOGGERS and f.o.id not in st.loc: return True
        if f.k == "name" and f.id in ("print",): return True
        return False

    # ---- lazily evaluated calls (iterables) --------------------------------------------------------------------
    def lazy(self, st, f, e):
        ex = self.ex
        if f.__class__ is not Fn or f.kind != "builtin": return None
        n = f.name
        if n == "range":
            a = [integer(ex.num(ex.some(st, ex.ev(x, st)))) for x in e.args]
            lo, hi, stp = z3.IntVal(0), None, 1
            if len(a) == 1: hi = a[0]
            elif len(a) == 2: lo, hi = a
            else:
                lo, hi = a[:2]
                s = z3.simplify(a[2])
                if not z3.is_int_value(s): raise Unsupported("range step")
                stp = s.as_long()
            if stp == 1: cnt = hi - lo if not (z3.is_int_value(lo) and lo.as_long() == 0) else hi
            elif stp == -1: cnt = lo - hi
            elif stp > 0: cnt = (hi - lo + stp - 1) / stp
            else: cnt = (lo - hi - stp - 1) / (-stp)
            el = lambda k, s: S(k if (z3.is_int_value(lo) and lo.as_long() == 0 and stp == 1) else lo + k * stp if stp != 1 else lo + k, "int")
            return Seq(cnt, el, None, z3.is_int_value(lo) and lo.as_long() == 0 and stp == 1)
        if n == "enumerate":
            start = e.args[1] if len(e.args) > 1 else e.kw.get("start")
            off = integer(ex.num(ex.ev(start, st))) if start is not None else z3.IntVal(0)
            it = ex.loops.as_iter(st, ex.ev(e.args[0], st))
            z = z3.is_int_value(off) and off.as_long() == 0
            if isinstance(it, T): return T([T([S(z3.IntVal(i) if z else off + i, "int"), x]) for i, x in enumerate(it.items)], "list")
            if it.cond is not None: raise Unsupported("enumerate of a filtered sequence")
            return Seq(it.n, lambda k, s: T([S(k if z else k + off, "int"), it.elem(k, s)]))
        if n == "zip":
            its = [ex.loops.as_iter(st, ex.ev(x, st)) for x in e.args]
            if all(isinstance(i, T) for i in its): return T([T(list(x)) for x in zip(*[i.items for i in its])], "list")
            its = [self.toseq(i) for i in its]
            if any(i.cond is not None for i in its): raise Unsupported("zip of filtered")
            m = its[0].n
            for i in its[1:]:
                if i.n.get_id() != m.get_id() and not ex.proves(st, i.n == m): m = z3.If(i.n < m, i.n, m)
            return Seq(m, lambda k, s: T([i.elem(k, s) for i in its]))
        if n == "reversed":
            it = ex.loops.as_iter(st, ex.ev(e.args[0], st))
            if isinstance(it, T): return T(it.items[::-1], "list")
            if it.cond is not None: raise Unsupported("reversed filtered")
            return Seq(it.n, lambda k, s: it.elem(it.n - 1 - k, s))
        return None

    def toseq(self, it):
        if isinstance(it, Seq): return it
        items = it.items
        def el(k, s):
            r = items[-1]
            for q in range(len(items) - 2, -1, -1): r = merge_val(k == q, items[q], r)
            return r
        return Seq(z3.IntVal(len(items)), el)

    def comprehension(self, st, e):
        ex = self.ex
        loop = e.loop
        conds = []
        if loop.k != "for": raise Unsupported("comprehension")
        body = loop.body
        while len(body) == 1 and body[0].k == "if" and not body[0].b:
            conds.append(body[0].c); body = body[0].a
        if len(body) != 1: raise Unsupported("comprehension body")
        if body[0].k == "dappend": return Opaque("dict comprehension")
        if body[0].k == "for":
            raise Unsupported("nested comprehension")
        if body[0].k not in ("append", "expr"): raise Unsupported("comprehension body")
        b = body[0].v if body[0].k == "append" else body[0].a
        if b.k == "yield": b = b.a
        it = ex.loops.as_iter(st, ex.ev(loop.it, st))
        loc = dict(st.loc)
        def within(s, v, expr):
            c = s.copy(); c.loc = dict(loc)
            ex.assign(c, loop.target, v)
            h = dict(c.heap)
            r = ex.ev(expr, c)
            if any(c.heap.get(q) is not h.get(q) and c.heap[q].get_id() != (h[q].get_id() if q in h else ex.heap0[q].get_id()) for q in c.heap):
                raise Unsupported("comprehension with side effects")
            return r
        if isinstance(it, T) and not conds:
            return T([within(st, x, b) for x in it.items], "list")
        it = self.toseq(it)
        def cond(k, s):
            cs = [it.cond(k, s)] if it.cond is not None else []
            for c in conds: cs.append(ex.truth(within(s, it.elem(k, s), c)))
            return AND(cs)
        return Seq(it.n, lambda k, s: within(s, it.elem(k, s), b), cond if (conds or it.cond is not None) else None)

    # ---- folds -------------------------------------------------------------------------------------------------
    def fold1(self, st, n, f, init, op):
        """fold of op over f(k), k < n."""
        k = self.L.placeholder("k", I)
        self.ex.nonneg.add(k.get_id())
        x = f(k)
        acc = self.L.placeholder("acc", init.sort())
        return self.L.fold(n, k, [acc], [init], [op(acc, x)])[0]

    def seqf(self, st, sq):
        st0 = st.copy()
        def f(k):
            s = st0.copy(); s.pc.append(z3.And(k >= 0, k < sq.n))
            return sq.elem(k, s), (sq.cond(k, s) if sq.cond is not None else TRUE)
        return f

    def any_(self, st, n, p):
        if z3.is_int_value(n) and n.as_long() <= 8: return OR([p(z3.IntVal(i)) for i in range(n.as_long())])
        k = self.L.placeholder("k", I)
        self.ex.nonneg.add(k.get_id())
        K = self.L.first(n, k, p(k))
        return z3.And(n > 0, K < n)

    def all_(self, st, n, p):
        return NOT(self.any_(st, n, lambda k: NOT(p(k))))

    def total(self, st, n, f):
        x = f(z3.IntVal(0))
        z = z3.IntVal(0) if x.sort() in (I, B) else z3.RealVal(0)
        cv = integer if x.sort() in (I, B) else real
        if z3.is_int_value(n) and n.as_long() <= 6:
            r = z
            for i in range(n.as_long()): r = cv(f(z3.IntVal(i))) if i == 0 else r + cv(f(z3.IntVal(i)))
            return r
        return self.fold1(st, n, f, z, lambda a, x: a + cv(x))

    def extreme(self, st, n, f, lo):
        if z3.is_int_value(n) and n.as_long() <= 6:
            r = f(z3.IntVal(0))
            for i in range(1, n.as_long()):
                y = f(z3.IntVal(i)); r = ITE(y < r if lo else y > r, y, r)
            return r
        return self.fold1(st, n, f, f(z3.IntVal(0)), lambda a, x: z3.If(x < a if lo else x > a, x, a))

    # ---- arrays ------------------------------------------------------------------------------------------------
    def map1(self, st, a, f, ty=None):
        s0 = st.copy(); ex = self.ex
        return A(ty or a.ty, a.dims, ("G", lambda s, *ix: f(ex.rd(s0, a, *ix))))

    def map2(self, st, a, b, f, ty=None):
        ex = self.ex
        s0 = st.copy()
        if isinstance(a, T): a = ex.to_array(s0, a)
        if isinstance(b, T): b = ex.to_array(s0, b)
        if isinstance(a, Seq): a = ex.seq_array(s0, a, None)
        if isinstance(b, Seq): b = ex.seq_array(s0, b, None)
        if isinstance(a, A) and isinstance(b, A):
            # broadcasting: missing leading dimensions, and dimensions known to be 1, are stretched; others must be equal
            nd = max(len(a.dims), len(b.dims))
            unit = lambda d: z3.is_int_value(z3.simplify(d)) and z3.simplify(d).as_long() == 1
            da, db = [[z3.IntVal(1)] * (nd - len(x.dims)) + list(x.dims) for x in (a, b)]
            dims = []
            for x, y in zip(da, db):
                if unit(x): dims.append(y)
                elif unit(y): dims.append(x)
                else:
                    if x.get_id() != y.get_id(): ex.oblige("shape", st, x == y)
                    dims.append(x)
            pick = lambda v, ix: [z3.IntVal(0) if unit(d) else i for d, i in zip(v.dims, ix[nd - len(v.dims):])]
            g = lambda s, *ix: f(ex.rd(s0, a, *pick(a, ix)), ex.rd(s0, b, *pick(b, ix)))
        elif isinstance(a, A):
            t = ex.num(b); g, dims = (lambda s, *ix: f(ex.rd(s0, a, *ix), t)), a.dims
        else:
            t = ex.num(a); g, dims = (lambda s, *ix: f(t, ex.rd(s0, b, *ix))), b.dims
        if ty is None:
            pr = g(st, *[z3.IntVal(0)] * len(dims))
            ty = {R: "double", I: "int", B: "bint"}[pr.sort()]
        return A(ty, dims, ("G", g))

    def concat(self, st, a, b):
        ex = self.ex
        s0 = st.copy()
        if isinstance(b, T): b = ex.to_array(s0, b, a.ty)
        n = a.dims[0]
        return A(a.ty, [n + b.dims[0]], ("G", lambda s, i: ITE(i < n, ex.rd(s0, a, i), ex.rd(s0, b, i - n))), None, True)

    def fresh(self, st, ty, dims, fnv):
        """New local array with element function."""
        ex = self.ex
        js = [self.L.placeholder("j", I) for _ in dims]
        i = ex.newid()
        v = fnv(*js)
        st.arrs[i] = self.L.lam(js, ex.coerce(v, ty))
        return A(ty, dims, ("L", i))

    def concats(self, st, xs):
        """One-dimensional concatenation of arrays and scalars into a new array."""
        ex = self.ex
        s0 = st.copy()
        parts = []
        for x in xs:
            x = ex.some(st, x)
            if isinstance(x, T): x = ex.to_array(s0, x)
            if isinstance(x, A):
                if len(x.dims) != 1: raise Unsupported("concatenation of higher dimensions")
                parts.append((x.dims[0], lambda k, x=x: ex.rd(s0, x, k), x.ty))
            else:
                t = ex.num(x)
                parts.append((z3.IntVal(1), lambda k, t=t: t, "double" if t.sort() == R else "int"))
        ty = "double" if any(p[2] == "double" for p in parts) else parts[0][2]
        ends, tot = [], z3.IntVal(0)
        for p in parts: tot = z3.simplify(tot + p[0]); ends.append(tot)
        def el(k):
            r, lo = None, [z3.IntVal(0)] + ends[:-1]
            for p, e, l in reversed(list(zip(parts, ends, lo))):
                v = p[1](z3.simplify(k - l))
                if ty == "double": v = real(v)
                r = v if r is None else ITE(k < e, v, r)
            return r
        return self.fresh(st, ty, [tot], lambda k: S(el(k), ty))

    def freeze(self, st, a):
        """Local copy of a."""
        ex = self.ex
        s0 = st.copy()
        return self.fresh(st, a.ty, a.dims, lambda *j: ex.elem(s0, a, *j))

    def reduce(self, st, a, op, axis, extra=()):
        """np.<op>(a, axis)."""
        ex = self.ex
        s0 = st.copy()
        nd = len(a.dims)
        if a.flt: return S(self.masked(st, a, op, extra), "double")
        def one(n, f):
            if op == "sum": return self.total(st, n, f)
            if op == "product":
                x = f(z3.IntVal(0))
                return self.fold1(st, n, lambda k: real(f(k)), z3.RealVal(1), lambda p, q: p * q)
            if op in ("min", "max"): return self.extreme(st, n, f, op == "min")
            if op == "mean": return real(self.total(st, n, lambda k: real(f(k)))) / z3.ToReal(n) if not z3.is_int_value(n) else real(self.total(st, n, lambda k: real(f(k)))) / n.as_long()
            if op == "any": return self.any_(st, n, lambda k: f(k) if f(k).sort() == B else f(k) != 0)
            if op == "all": return self.all_(st, n, lambda k: f(k) if f(k).sort() == B else f(k) != 0)
            k = self.L.placeholder("k", I)
            return self.L.opq(op, [([n], [k], real(f(k)))], list(extra), R)
        if axis is None and nd == 1:
            r = one(a.dims[0], lambda k: ex.rd(s0, a, k))
            return S(r, {R: "double", I: "int", B: "bint"}[r.sort()])
        if axis is None:
            if op in ("sum", "any", "all", "min", "max") and nd == 2:
                r = one(a.dims[0], lambda i: one(a.dims[1], lambda j: ex.rd(s0, a, i, j)))
                return S(r, {R: "double", I: "int", B: "bint"}[r.sort()])
            raise Unsupported(f"{op} of a matrix")
        if axis < 0: axis += nd
        dims = a.dims[:axis] + a.dims[axis + 1:]
        def g(s, *ix):
            ix = list(ix)
            return one(a.dims[axis], lambda k: ex.rd(s0, a, *(ix[:axis] + [k] + ix[axis:])))
        t = g(st, *[z3.IntVal(0)] * len(dims))
        return A({R: "double", I: "int", B: "bint"}[t.sort()], dims, ("G", g))

    def mask(self, st, a, items, ga):
        """a[mask]: the elements for which the mask holds, in order; usable by reductions only."""
        if len(a.dims) != 1 or a.flt: raise Unsupported("boolean mask")
        ex, m, s0 = self.ex, items[ga], st.copy()
        ex.oblige("shape", st, m.dims[0] == a.dims[0])
        f, c = (lambda k: ex.rd(s0, a, k)), (lambda k: ex.rd(s0, m, k))
        def none(*_): raise Unsupported("element of a masked array")
        n = self.total(st, a.dims[0], lambda k: z3.If(c(k), z3.IntVal(1), z3.IntVal(0)))
        return A(a.ty, [n], ("G", none), flt=(a.dims[0], f, c))

    def masked(self, st, a, op, extra):
        """np.<op> of the elements selected by a mask."""
        n, f, c = a.flt
        x = lambda k: real(f(k))
        if op == "sum": return self.total(st, n, lambda k: ITE(c(k), x(k), z3.RealVal(0)))
        if op == "mean": return self.total(st, n, lambda k: ITE(c(k), x(k), z3.RealVal(0))) / z3.ToReal(a.dims[0])
        if op == "product": return self.fold1(st, n, lambda k: ITE(c(k), x(k), z3.RealVal(1)), z3.RealVal(1), lambda p, q: p * q)
        if op in ("min", "max"):
            end = INF if op == "min" else -INF
            return self.fold1(st, n, lambda k: ITE(c(k), x(k), end), end, lambda p, q: z3.If(q < p if op == "min" else q > p, q, p))
        k = self.L.placeholder("k", I)
        return self.L.opq(op, [([n], [k], z3.If(c(k), x(k), NAN)), ([n], [k], z3.If(c(k), z3.RealVal(1), z3.RealVal(0)))], list(extra), R)

    def setmask(self, st, a, items, v):
        ex = self.ex
        if len(items) == 1 and isinstance(items[0], A) and items[0].ty in ("bint", "bool") and isinstance(v, S):
            m = items[0]; s0 = st.copy()
            ex.wr_all(st, a, lambda *j: S(ITE(ex.rd(s0, m, *j), ex.coerce(v, a.ty), ex.rd(s0, a, *j)), a.ty)); return
        raise Unsupported("masked assignment")

    def inverse(self, y, k, rho):
        """y(k) is an element of a list of distinct objects: (k*, side condition) with y(k) == rho iff k == k*."""
        L = self.L
        if z3.is_app(y) and y.decl().name() == "COMBO" and y.arg(0).get_id() == k.get_id():
            inv = self.fn("COMBO_inv", Ref, I)
            return inv(rho), self.ex.COMBO(inv(rho)) == rho
        if z3.is_app(y) and y.num_args() == 1 and y.decl().name() in self.ex.side.get("injective", ()) and y.arg(0).get_id() == k.get_id():
            inv = self.fn(y.decl().name() + "_inv", Ref, I)
            return inv(rho), y.decl()(inv(rho)) == rho
        if z3.is_select(y) and y.num_args() == 2 and y.arg(1).get_id() == k.get_id():
            b = y.arg(0)
            if z3.is_select(b) and z3.is_const(b.arg(0)) and b.arg(0).decl().name() in self.ex.side["distinct"] and k.get_id() not in L.fv(b):
                inv = self.fn("inv_" + b.arg(0).decl().name(), Ref, Ref, I)
                ks = inv(b.arg(1), rho)
                return ks, z3.Select(b, ks) == rho
        return None

    def arrattr(self, st, o, name):
        ex = self.ex
        if isinstance(o, Seq): o = ex.seq_array(st, o, None)
        if isinstance(o, T):
            if name == "append":
                raise Unsupported("append to a list literal")
            if name in ("items", "get", "keys", "values") : raise Unsupported("dict method")
            if name == "shape": o = ex.to_array(st, o)
            else: return Fn("meth", name=name, obj=o)
        if name == "shape": return T([S(d, "int") for d in o.dims])
        if name == "ndim": return S(z3.IntVal(len(o.dims)), "int")
        if name == "size": 
            r = o.dims[0]
            for d in o.dims[1:]: r = r * d
            return S(r, "int")
        if name in ("values", "base"): return o
        if name == "T" and len(o.dims) == 2:
            s0 = st.copy()
            return A(o.ty, o.dims[::-1], ("G", lambda s, i, j: ex.rd(s0, o, j, i)))
        return Fn("meth", name=name, obj=o)

    # ---- scalar math -------------------------------------------------------------------------------------------
    def power(self, st, x, y):
        if z3.is_int_value(y) and 0 <= y.as_long() <= 3:
            r = z3.RealVal(1) if x.sort() == R else z3.IntVal(1)
            for i in range(y.as_long()): r = x if i == 0 else r * x
            return r
        f = self.fn("pow!", R, R, R)
        self.ex.assumed.add("pow, exp, log, sqrt and trigonometric functions: uninterpreted real functions")
        t = f(real(x), real(y))
        if x.sort() == I and y.sort() == I: return z3.ToInt(t)   # only meaningful for non-negative exponents
        return t

    def math1(self, st, n, x):
        if n in ("fabs", "abs", "absolute"):
            return z3.If(x >= 0, x, -x)
        if n == "floor": return z3.ToReal(z3.ToInt(x)) if x.sort() == R else x
        if n == "ceil": return z3.ToReal(-z3.ToInt(-x)) if x.sort() == R else x
        if n == "isnan": return real(x) == NAN
        if n == "isneginf": return real(x) == -INF
        if n == "isposinf": return real(x) == INF
        if n == "isinf": return z3.Or(real(x) == INF, real(x) == -INF)
        if n == "isfinite": return z3.And(real(x) != NAN, real(x) != INF, real(x) != -INF)
        if n == "exp": self.ex.assumed.add("pow, exp, log, sqrt and trigonometric functions: uninterpreted real functions")
        return self.fn(n + "!", R, R)(real(x))

    def call(self, st, f, args, kw):
        ex = self.ex
        if f.kind == "localfn":
            s0 = st.loc
            ex.stack.append(f.fn)
            try:
                loc = ex.bind(st, f.fn, args, kw)
                base = len(st.pc)
                s = st.copy(); s.loc = {**f.loc, **loc}
                rl, rm = ex.rstack[-1], len(ex.rstack[-1])
                out = ex.block(f.fn.body, s)
                for _, rs in rl[rm:]: rs.loc = dict(s0)
                r, v = ex.join(out, base)
            finally: ex.stack.pop()
            if r is None: st.pc.append(FALSE); return NV
            st.become(r); st.loc = s0
            return v
        if f.kind == "meth": return self.meth(st, f.obj, f.name, args, kw)
        if f.kind == "dtype":
            return ex.cast(st, args[0], "double" if "float" in f.name or f.name == "double" else "bint" if "bool" in f.name else "int")
        if f.kind == "np": return self.np(st, f.name, args, kw)
        if f.kind == "ext":
            h = ex.side["ext"].get(f.name)
            if h: return h(ex, st, args, kw)
            if f.name == "calendar.monthrange":
                c = [z3.simplify(ex.num(x)) for x in args]
                if all(z3.is_int_value(x) for x in c):
                    import calendar
                    return T([S(z3.IntVal(x), "int") for x in calendar.monthrange(*[x.as_long() for x in c])])
            if f.name == "calendar.isleap":
                y = ex.num(args[0])
                return S(z3.And(y % 4 == 0, z3.Or(y % 100 != 0, y % 400 == 0)), "bint")
            raise Unsupported(f"call of {f.name}")
        if f.kind != "builtin": raise Unsupported(f"call of {f!r}")
        n = f.name
        a = [ex.some(st, x) if n not in ("isinstance", "str", "hasattr", "getattr") else x for x in args]
        if n.startswith("object."): return NV
        if n == "next" and len(a) == 1 and isinstance(a[0], O):
            f = ex.getattr(st, a[0], "__next__")
            return ex.call(st, f, [], {})
        if n == "len":
            x = a[0]
            if isinstance(x, T): return S(z3.IntVal(len(x.items)), "int")
            if isinstance(x, A): return S(x.dims[0], "int")
            if isinstance(x, Seq) and x.cond is None: return S(x.n, "int")
            if isinstance(x, Seq):
                s0 = st.copy()
                return S(self.total(st, x.n, lambda k: ITE(x.cond(k, s0), z3.IntVal(1), z3.IntVal(0))), "int")
            if isinstance(x, O) and x.cls:
                h = ex.handler(x.cls, "__len__")
                if h: return h(ex, st, x, [], {})
                m = ex.P.lookup_method(x.cls, "__len__")
                if m: return ex.call_func(st, m, [x], {})
            raise Unsupported(f"len of {x!r}")
        if n in ("min", "max"):
            if len(a) == 1:
                if kw: raise Unsupported("min/max key")
                return self.minmax_seq(st, n, a[0])
            r = a[0]
            for y in a[1:]:
                c = ex.cmp2("<" if n == "min" else ">", ex.num(y), ex.num(r))
                r = merge_val(z3.simplify(c), y, r)
            return r
        if n == "abs":
            if isinstance(a[0], A): return self.map1(st, a[0], lambda t: z3.If(t >= 0, t, -t))
            return S(self.math1(st, "abs", ex.num(a[0])), a[0].ty)
        if n in ("sum", "any", "all"):
            x = a[0]
            x = ex.loops.as_iter(st, x)
            if isinstance(x, T):
                if n == "sum":
                    r = S(z3.IntVal(0), "int")
                    for i, y in enumerate(x.items): r = y if i == 0 else ex.binop(st, "+", r, y)
                    return r
                cs = [ex.truth(y) for y in x.items]
                return S(AND(cs) if n == "all" else OR(cs), "bint")
            f2 = self.seqf(st, x)
            if n == "sum":
                v0, _ = f2(z3.IntVal(0))
                def g(k):
                    v, c = f2(k)
                    t = ex.num(v); t = integer(t) if t.sort() == B else t
                    return ITE(c, t, z3.IntVal(0) if t.sort() == I else z3.RealVal(0))
                r = self.total(st, x.n, g)
                if len(a) > 1: r = ex.arith(None, "+", r, ex.num(a[1]))
                return S(r, "double" if r.sort() == R else "int")
            def p(k):
                v, c = f2(k)
                t = ex.truth(v)
                return z3.And(c, t) if n == "any" else z3.Implies(c, t)
            return S(self.any_(st, x.n, p) if n == "any" else self.all_(st, x.n, p), "bint")
        if n == "float":
            x = a[0]
            if isinstance(x, S) and x.ty == "str":
                s = ex.strof(x)
                if s is not None:
                    s = s.lower()
                    if s in ("inf", "+inf", "infinity"): return S(INF, "double")
                    if s == "-inf": return S(-INF, "double")
                    if s == "nan": return S(NAN, "double")
                raise Unsupported("float of a string")
            return S(real(ex.num(x)), "double")
        if n == "int":
            if isinstance(a[0], S) and a[0].ty == "str": raise Unsupported("int of a string")
            return ex.cast(st, a[0], "int")
        if n == "bool": return S(ex.truth(a[0]), "bint")
        if n in ("list", "tuple", "sorted", "set"):
            if n in ("sorted", "set"): raise Unsupported(n)
            if not a: return T([], n)
            if isinstance(a[0], T): return T(a[0].items, n)
            if isinstance(a[0], Seq): return a[0]
            if isinstance(a[0], A): return self.freeze(st, a[0])
            it = ex.loops.as_iter(st, a[0])
            return it
        if n == "dict": return Opaque("dict")
        if n == "slice" and len(args) == 2:
            g = lambda v: None if isinstance(v, NoneV) else integer(ex.num(v))
            return Fn("slice", lo=g(args[0]), hi=g(args[1]))
        if n == "isinstance": return S(self.isinst(st, args[0], args[1]), "bint")
        if n == "str": return S(self.L.const("str", I), "str")
        if n == "round" and len(a) == 1:
            raise Unsupported("round")
        if n == "hasattr": raise Unsupported("hasattr")
        if n == "type" and isinstance(a[0], O) and a[0].exact: return Fn("class", cls=a[0].cls)
        if n in ("free",): return NV
        raise Unsupported(f"builtin {n}")

    def isinst(self, st, v, c):
        ex = self.ex
        if isinstance(c, T): return OR([self.isinst(st, v, x) for x in c.items])
        if isinstance(v, Opt): return z3.And(NOT(v.none), self.isinst(st, v.v, c))
        if isinstance(v, NoneV): return FALSE
        if isinstance(v, Either): return ITE(v.c, self.isinst(st, v.a, c), self.isinst(st, v.b, c))
        if isinstance(c, Fn) and c.kind == "builtin":
            if isinstance(v, S):
                return z3.BoolVal({"str": v.ty == "str", "int": v.ty in ("int", "enum"), "float": v.ty == "double", "bool": v.ty == "bint"}.get(c.name, False))
            if isinstance(v, (A, T)): return z3.BoolVal(c.name in ("list",) and (isinstance(v, T) and v.kind == "list" or isinstance(v, A) and v.lst))
            return FALSE
        if isinstance(c, Fn) and c.kind == "ext": 
            if isinstance(v, (O, S)): return FALSE
        if isinstance(c, Fn) and c.kind == "class" and isinstance(v, O):
            if v.cls is not None:
                if c.cls in ex.P.mro(v.cls): return TRUE if v.exact else v.t != NONE
                if v.exact or (c.cls not in ex.subclasses(v.cls) and not any(c.cls in ex.P.mro(s) for s in ex.subclasses(v.cls))): return FALSE
            return z3.And(v.t != NONE, self.fn(f"isinstance_{c.cls.name}", Ref, B)(v.t))
        if isinstance(c, Fn) and isinstance(v, S): return FALSE
        raise Unsupported("isinstance")

    def minmax_seq(self, st, n, x):
        ex = self.ex
        x = ex.loops.as_iter(st, x)
        if isinstance(x, T):
            r = x.items[0]
            for y in x.items[1:]:
                r = merge_val(ex.cmp2("<" if n == "min" else ">", ex.num(y), ex.num(r)), y, r)
            return r
        if x.cond is not None: raise Unsupported("min/max of a filtered sequence")
        ex.raise_if(st, x.n <= 0, "ValueError")
        f2 = self.seqf(st, x)
        r = self.extreme(st, x.n, lambda k: ex.num(f2(k)[0]), n == "min")
        return S(r, "double" if r.sort() == R else "int")

    def meth(self, st, o, n, args, kw):
        ex = self.ex
        if n in ("sum", "mean", "min", "max", "any", "all", "prod"):
            return self.np(st, n, [o] + args, kw)
        if n in ("copy", "astype"):
            x = self.freeze(st, ex.to_array(st, o))
            if n == "astype":
                ty = self.dt(kw, args, 0, x.ty)
                if ty == "int" and x.ty == "double":      # towards zero
                    s0, y = st.copy(), x
                    f = lambda *j: (lambda t: ITE(t >= 0, z3.ToInt(t), -z3.ToInt(-t)))(real(ex.rd(s0, y, *j)))
                    x = A("int", x.dims, ("G", lambda s, *j: f(*j)), None, x.lst)
                elif ty == "double" and x.ty != "double": x = ex.to_array(st, x, "double")
                elif ty != x.ty: raise Unsupported(f"astype {ty} of {x.ty}")
            return x
        if n in ("flatten", "ravel") and isinstance(o, A) and len(o.dims) == 1: return self.freeze(st, o)
        if n == "tolist":
            if not isinstance(o, A): return o
            x = self.freeze(st, o)
            return A(x.ty, x.dims, x.src, x.axes, True)
        if isinstance(o, T) and o.kind == "map":
            if n == "get":
                r = args[1] if len(args) > 1 else NV
                for k, v in o.items[::-1]: r = merge_val(ex.truth(ex.compare(st, "==", args[0], k)), v, r)
                return r
            raise Unsupported(f"dictionary method {n}")
        if isinstance(o, T) and o.kind == "kw" and n in ("pop", "get"):
            key = next((k for k, q in self.L.strs.items() if z3.is_int_value(args[0].t) and q == args[0].t.as_long()), None) if isinstance(args[0], S) and args[0].ty == "str" else None
            if key is None: raise Unsupported("keyword of unknown name")
            hit = [v for k, v in o.items if k == key]
            if n == "pop":
                new = T([x for x in o.items if x[0] != key], "kw")
                for k, v in list(st.loc.items()):
                    if v is o: st.loc[k] = new
            if hit: return hit[0]
            if len(args) < 2:
                if n == "get": return NV
                ex.raise_now(st, "KeyError"); raise Unsupported("missing keyword")
            return args[1]
        if n == "append" and isinstance(o, A) and o.lst and o.src[0] == "H":
            key, ref = o.src[1], o.src[2]
            m = ex.field(st, key + "#0", ref, I)
            con = ex.field(st, key, ref, arrsort(o.ty, 1))
            ex.setfield(st, key, ref, z3.Store(con, m, ex.coerce(args[0], o.ty)), con.sort())
            ex.setfield(st, key + "#0", ref, m + 1, I)
            return NV
        if n == "extend" and isinstance(o, A) and o.lst and o.src[0] == "H" and isinstance(args[0], T):
            for x in args[0].items: self.meth(st, ex.load(st, o.src[1], o.src[2], f"list[{o.ty}]"), "append", [x], {})
            return NV
        if n == "fill":
            ex.wr_all(st, o, lambda *j: args[0]); return NV
        if n == "index" and isinstance(o, A): 
            k = self.L.placeholder("k", I)
            K = self.L.first(o.dims[0], k, ex.truth(ex.compare(st, "==", ex.elem(st, o, k), args[0])))
            ex.raise_if(st, K >= o.dims[0], "ValueError")
            return S(K, "int")
        raise Unsupported(f"method {n} of an array")

    def shape(self, st, v):
        ex = self.ex
        if isinstance(v, T): return [integer(ex.num(x)) for x in v.items]
        if isinstance(v, S): return [integer(v.t)]
        raise Unsupported("shape")

    def dt(self, kw, args, pos, dflt="double"):
        d = kw.get("dtype", args[pos] if len(args) > pos else None)
        if d is None or isinstance(d, NoneV): return dflt
        nm = getattr(d, "name", "")
        if nm in ("float", "float64", "double", "float32"): return "double"
        if nm in ("bool", "bool_"): return "bint"
        if isinstance(d, Fn): return "int"
        return dflt

    def np(self, st, n, args, kw):
        ex = self.ex
        n0 = n
        n = {"amin": "min", "amax": "max", "prod": "product", "nanmean_": "mean"}.get(n, n)
        if n in ("zeros", "ones", "empty", "full"):
            dims = self.shape(st, args[0])
            ty = self.dt(kw, args, 2 if n == "full" else 1)
            if n == "empty":
                i = ex.newid(); st.arrs[i] = self.L.const("empty", arrsort(ty, len(dims)))
                return A(ty, dims, ("L", i))
            v = args[1] if n == "full" else S(z3.IntVal(1 if n == "ones" else 0), "int")
            if n == "full" and ty == "double" and "dtype" not in kw and isinstance(v, S) and v.t.sort() == I: ty = "int"
            v = S(real(v.t) if ty == "double" else (v.t != 0 if v.t.sort() != B else v.t) if ty == "bint" else v.t, ty)
            return self.fresh(st, ty, dims, lambda *j: v)
        if n in ("zeros_like", "ones_like", "empty_like", "full_like"):
            a = ex.to_array(st, args[0])
            return self.np(st, n[:-5], [T([S(d, "int") for d in a.dims])] + args[1:], kw)
        if n == "moveaxis" and len(args) == 3 and not kw:
            a = ex.to_array(st, args[0]); nd = len(a.dims)
            src, dst = [z3.simplify(ex.num(x)) for x in args[1:]]
            if not (z3.is_int_value(src) and z3.is_int_value(dst)): raise Unsupported("axis")
            order = list(range(nd)); o = order.pop(src.as_long()); order.insert(dst.as_long() % nd, o)
            s0 = st.copy()
            return A(a.ty, [a.dims[q] for q in order], ("G", lambda s, *ix: ex.rd(s0, a, *[ix[order.index(q)] for q in range(nd)])))
        if n == "diff" and len(args) == 1 and not kw:
            a = ex.to_array(st, args[0])
            if len(a.dims) != 1: raise Unsupported("np.diff of higher dimensions")
            s0 = st.copy(); d = z3.simplify(ITE(a.dims[0] >= 1, a.dims[0] - 1, z3.IntVal(0)))
            return self.fresh(st, a.ty, [d], lambda k: S(ex.rd(s0, a, k + 1) - ex.rd(s0, a, k), a.ty))
        if n in ("concatenate", "hstack") and isinstance(args[0], T): return self.concats(st, args[0].items)
        if n in ("array", "asarray", "ascontiguousarray", "atleast_1d"):
            a = args[0]
            if isinstance(a, NoneV) or isinstance(a, Opt) and not z3.is_false(a.none) and ex.proves(st, a.none):
                ex.assumed.add("np.array(None) is told from None by nobody")
                return a
            if isinstance(a, S): 
                if n == "atleast_1d": a = T([a], "list")
                else: raise Unsupported("0-d array")
            a = ex.to_array(st, ex.some(st, a))
            ty = self.dt(kw, args, 1, a.ty)
            if n != "array" and ty == a.ty or a.flt: return a
            s0 = st.copy()
            return self.fresh(st, ty, a.dims, lambda *j: S(ex.coerce(ex.elem(s0, a, *j), ty), ty) if ty != a.ty else ex.elem(s0, a, *j))
        if n in ("sum", "mean", "min", "max", "median", "any", "all", "product", "percentile", "nansum", "nanmean", "nanmin", "nanmax",
                 "nanmedian", "nanpercentile", "std", "var", "nanstd", "count_nonzero"):
            a = ex.some(st, args[0])
            if isinstance(a, (T, Seq)): a = ex.to_array(st, a)
            if not isinstance(a, A): raise Unsupported(f"np.{n} of {a!r}")
            rest = args[1:]
            ax = kw.get("axis")
            extra = []
            if n in ("percentile", "nanpercentile"):
                q = rest[0]; rest = rest[1:]
                if isinstance(q, (A, Seq, T)):
                    # one row for every percentile
                    q = ex.to_array(st, q); s0 = st.copy()
                    ax = kw.get("axis", rest[0] if rest else NV)
                    if isinstance(ax, NoneV) or len(a.dims) != 2 or len(q.dims) != 1 or a.flt or q.flt: raise Unsupported("vector percentile")
                    ax = z3.simplify(ex.num(ax))
                    if not z3.is_int_value(ax) or ax.as_long() not in (0, 1): raise Unsupported("axis")
                    ax = ax.as_long()
                    def pct(_s, i, j):
                        k = self.L.placeholder("k", I)
                        return self.L.opq(n, [([a.dims[ax]], [k], real(ex.rd(s0, a, *((k, j) if ax == 0 else (j, k)))))], [real(ex.rd(s0, q, i))], R)
                    return A("double", [q.dims[0], a.dims[1 - ax]], ("G", pct), None, True)
                extra = [real(ex.num(q))]
            if ax is None and rest: ax = rest[0]
            if set(kw) - {"axis"}: raise Unsupported(f"np.{n} options")
            if isinstance(ax, NoneV): ax = None
            if ax is not None:
                t = z3.simplify(ex.num(ax))
                if not z3.is_int_value(t): raise Unsupported("axis")
                ax = t.as_long()
            return self.reduce(st, a, n, ax, extra)
        if n in ("maximum", "minimum", "fmin", "fmax"):
            lo = n in ("minimum", "fmin")
            def m(x, y):
                if x.sort() != y.sort(): x, y = real(x), real(y)
                return z3.If(y < x if lo else y > x, y, x)
            if isinstance(args[0], S) and isinstance(args[1], S): return S(m(args[0].t, args[1].t), "double")
            return self.map2(st, args[0], args[1], m)
        if n == "clip":
            a, lo, hi = args
            r = self.np(st, "maximum", [a, lo], {})
            return self.np(st, "minimum", [r, hi], {})
        if n == "where" and len(args) == 3: raise Unsupported("np.where")
        if n == "dot":
            a, b = [ex.to_array(st, x) for x in args]
            if len(a.dims) == 1 and len(b.dims) == 1:
                s0 = st.copy()
                ex.oblige("shape", st, a.dims[0] == b.dims[0])
                return S(self.total(st, a.dims[0], lambda k: real(ex.rd(s0, a, k)) * real(ex.rd(s0, b, k))), "double")
            raise Unsupported("np.dot")
        if n in ("pow", "power") : 
            if isinstance(args[0], S): return S(real(self.power(st, args[0].t, args[1].t)), "double")
            return self.map2(st, args[0], args[1], lambda x, y: self.power(st, x, y))
        if n == "fmod": raise Unsupported("fmod")
        if n == "arange" and len(args) <= 2 and not kw and all(isinstance(x, S) and x.t.sort() == I for x in args):
            lo, hi = (z3.IntVal(0), args[0].t) if len(args) == 1 else (args[0].t, args[1].t)
            return A("int", [z3.simplify(z3.If(hi > lo, hi - lo, z3.IntVal(0)))], ("G", lambda s, i: lo + i))
        if n == "interp" and len(args) == 3 and isinstance(args[1], T) and isinstance(args[2], T) and not kw:
            xs, ys = [real(ex.num(x)) for x in args[1].items], [real(ex.num(y)) for y in args[2].items]
            if not xs or len(xs) != len(ys): ex.raise_now(st, "ValueError"); return NV
            for a, b in zip(xs, xs[1:]): ex.oblige("interp points increase", st, a < b)
            def g(x):
                x = real(x)
                r = ys[-1]
                for j in range(len(xs) - 2, -1, -1):
                    r = ITE(x < xs[j + 1], ys[j] + (ys[j + 1] - ys[j]) * ((x - xs[j]) / (xs[j + 1] - xs[j])), r)
                return ITE(x <= xs[0], ys[0], r)
            a = ex.some(st, args[0])
            if isinstance(a, A): return self.freeze(st, self.map1(st, a, g, "double"))
            return S(g(ex.num(a)), "double")
        if n == "not_equal": return ex.compare(st, "!=", *args)
        if n in ("abs", "fabs", "absolute", "floor", "ceil", "isnan", "isinf", "isfinite", "isneginf", "isposinf") or n in MATH:
            x = ex.some(st, args[0])
            if isinstance(x, A): return self.map1(st, x, lambda t: self.math1(st, n, t), "bint" if n.startswith("is") else None)
            t = ex.num(x)
            t = real(t) if t.sort() == B else t
            if n == "sqrt": ex.raise_if(st, real(t) < 0, "ValueError") if n0 == "sqrt_" else None
            r = self.math1(st, n, t)
            return S(r, {R: "double", I: "int", B: "bint"}[r.sort()])
        if n in ("round", "rint") and len(args) == 1 and not kw and isinstance(args[0], A):
            y = self.freeze(st, args[0]); s0 = st.copy()
            return A("double", y.dims, ("G", lambda s, *j: self.fn("round!", R, R)(real(ex.rd(s0, y, *j)))), None, False)
        if n in ("round", "rint") and len(args) == 1 and not kw and isinstance(args[0], S): return S(self.fn("round!", R, R)(real(args[0].t)), "double")
        if n == "isscalar": return S(z3.BoolVal(isinstance(args[0], S)), "bint")
        raise Unsupported(f"np.{n}")

    def addr(self, st, e):
        """&x[0]: pointer to array start (memset idiom)."""
        ex = self.ex
        if e.k == "name" and isinstance(st.loc.get(e.id), (Opaque, O)): return st.loc[e.id]
        if e.k == "index":
            o = ex.some(st, ex.ev(e.o, st))
            if isinstance(o, A):
                items = ex.index_items(st, e.i)
                if len(items) != 1 or len(o.dims) != 1 or not isinstance(items[0], S): return o if all(isinstance(x, S) and z3.is_int_value(z3.simplify(x.t)) and z3.simplify(x.t).as_long() == 0 for x in items) else self.noaddr()
                p = z3.simplify(items[0].t)
                if z3.is_int_value(p) and p.as_long() == 0: return o
                s0 = st.copy()        # the values at this moment: the pointer is only read by the call it is passed to
                return A(o.ty, [o.dims[0] - p], ("G", lambda s, i: ex.rd(s0, o, i + p)), None, False)
        self.noaddr()

    def noaddr(self):
        raise Unsupported("address")
