"""Logic core: terms without binders, definitional functions, goal-directed ground instantiation, solving.

All quantification is handled outside the solver, by lambda lifting:

  LAM(P)        an array whose element at j is a stored template (summary of a loop that writes an array)
  FOLD_c(P, n)  component c of the state of a loop after n iterations (templates for the initial state and one step)
  FIRST(P)      the first iteration at which a loop's exit condition holds (or its bound)
  OPQ(P)        an unexpanded library function (median, percentile, ...) of an array template

A goal is skolemised, its select terms are normalised, and each remaining definitional term is instantiated at the
ground arguments that occur, together with these lemma instances (each one is a theorem about the definitions, so
adding it is sound):
  fold congruence (induction):  equal bounds, equal initial states, and equal steps on equal states give equal folds;
        the instance names the first iteration w at which they would differ (states equal before w, different after);
  fold unrolling at n and at n-1;
  FIRST: 0 <= K <= n, the condition holds at K if K < n, and does not hold at any other index term below K;
  OPQ congruence: two applications of the same function to arrays equal at every index are equal.
The resulting query has no quantifiers.
"""
import itertools, time, subprocess, tempfile, os
import z3

Ref = z3.DeclareSort("Ref")
R, I, B = z3.RealSort(), z3.IntSort(), z3.BoolSort()
NONE = z3.Const("None!", Ref)
NAN = z3.Const("NaN!", R)
INF = z3.Const("inf!", R)
DBL_MAX = z3.Const("DBL_MAX!", R)
TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)


def sortof(t):
    """z3 sort of an element type string."""
    if t in ("double",): return R
    if t in ("int", "str", "enum"): return I
    if t in ("bint", "bool"): return B
    return Ref


def arrsort(t, nd):
    return z3.ArraySort(*([I] * nd), sortof(t))


class Def:
    def __init__(self, kind, params, **kw):
        self.kind, self.params = kind, params
        self.__dict__.update(kw)


class Logic:
    def __init__(self):
        self.defs = {}        # decl name -> (Def, component)
        self.ph = {}          # placeholder const id -> const
        self.cnt = itertools.count()
        self.rules = {}
        self.uf_facts = {}      # name of a function -> fn(application) -> facts about it (stated by a contract)
        self.aparts = set()
        self.injective = {}      # inverse function name -> injective function name       # initial heap field name -> fn(ref term, *idx) -> term or None
        self._norm = {}
        self._parts_memo, self._pairs = {}, {}
        self._fv = {}
        self.keep = []        # keeps terms alive while ids are used as keys
        self.facts = []       # global ground facts (preconditions that always hold)
        self.axioms = []      # (pattern fn name, fn(args)->formula): instantiated for matching ground select terms
        self.stats = {"queries": 0, "time": 0.0, "by": {}}
        self.strs = {}
        self.refclass = None
        self.noself = set()
        self.cons = {}
        self._ite = {}

    # ---- names -------------------------------------------------------------------------------------------------
    def new(self, base):
        return f"{base}!{next(self.cnt)}"

    def const(self, base, sort):
        return z3.Const(self.new(base), sort)

    def placeholder(self, base, sort):
        c = z3.Const(self.new(base), sort)
        self.ph[c.get_id()] = c
        self.keep.append(c)
        return c

    def strcode(self, s):
        if s not in self.strs:
            self.strs[s] = len(self.strs) + 1000
        return z3.IntVal(self.strs[s])

    # ---- free placeholders -------------------------------------------------------------------------------------
    def fv(self, t):
        i = t.get_id()
        r = self._fv.get(i)
        if r is not None:
            return r
        stack = [t]
        while stack:
            x = stack[-1]
            xi = x.get_id()
            if xi in self._fv:
                stack.pop(); continue
            todo = [c for c in x.children() if c.get_id() not in self._fv]
            if todo:
                stack.extend(todo); continue
            s = frozenset().union(*[self._fv[c.get_id()] for c in x.children()]) if x.num_args() else frozenset()
            if xi in self.ph:
                s = s | {xi}
            self._fv[xi] = s
            self.keep.append(x)
            stack.pop()
        return self._fv[i]

    def fvs(self, *ts):
        s = frozenset().union(*[self.fv(t) for t in ts]) if ts else frozenset()
        return [self.ph[i] for i in sorted(s)]

    def _params(self, own, ts):
        """Free placeholders and scalar constants of ts in order of first occurrence: the parameters of a definition."""
        seen, out, stack = set(), [], list(reversed(ts))
        while stack:
            x = stack.pop()
            i = x.get_id()
            if i in seen: continue
            seen.add(i)
            if z3.is_app(x) and x.num_args() == 0:
                if i in own or x.decl().kind() != z3.Z3_OP_UNINTERPRETED: continue
                if i in self.ph: out.append(x)
                elif x.sort() in (I, Ref) and x.get_id() != NONE.get_id() and x.decl().name() not in self.defs: out.append(x)
            else:
                stack.extend(reversed(x.children()))
        return out

    def _canon(self, kind, params, own, ts, extra=()):
        """Key under which alpha-equivalent definitions share one symbol."""
        sub = [(p, z3.Const(f"canon!{n}!{p.sort()}", p.sort())) for n, p in enumerate(list(params) + list(own))]
        cs = [z3.substitute(t, *sub) if sub else t for t in ts]
        self.keep += cs
        return (kind, tuple(str(p.sort()) for p in params), tuple(c.get_id() for c in cs)) + tuple(extra)

    # ---- definitional terms ------------------------------------------------------------------------------------
    def _decl(self, base, params, sort, d, comp=0):
        name = self.new(base)
        f = z3.Function(name, *[p.sort() for p in params], sort) if params else z3.Const(name, sort)
        self.defs[name] = (d, comp)
        return f

    def lam(self, jvars, body):
        """Array term A with A[jvars] = body (jvars are placeholders)."""
        body = self.norm(body)
        js = {j.get_id() for j in jvars}
        ps = self._params(js, [body])
        # eta: A[j] itself
        if z3.is_select(body) and body.num_args() == len(jvars) + 1:
            if all(body.arg(i + 1).get_id() == jvars[i].get_id() for i in range(len(jvars))) \
                    and not (self.fv(body.arg(0)) & js):
                return body.arg(0)
        key = self._canon("LAM", ps, jvars, [body])
        f = self.cons.get(key)
        if f is None:
            d = Def("LAM", ps, j=list(jvars), body=body)
            f = self.cons[key] = self._decl("LAM", ps, z3.ArraySort(*[j.sort() for j in jvars], body.sort()), d)
        return f(*ps) if ps else f

    def fold(self, n, k, accs, inits, steps, depth=0):
        """State after n iterations: returns list of terms; accs/k are placeholders used in steps."""
        own = {k.get_id()} | {a.get_id() for a in accs}
        steps = [self.norm(s) for s in steps]
        inits = [self.norm(s) for s in inits]
        steps = [self.ctx(s) for s in steps]
        # one iteration only changes anything: the one whose number is e
        if len(accs) == 1 and z3.is_app_of(steps[0], z3.Z3_OP_ITE) and steps[0].arg(2).get_id() == accs[0].get_id():
            c, v = steps[0].arg(0), steps[0].arg(1)
            cs = list(c.children()) if z3.is_and(c) else [c]
            for x in cs:
                if not z3.is_eq(x): continue
                e = x.arg(1) if x.arg(0).get_id() == k.get_id() else x.arg(0) if x.arg(1).get_id() == k.get_id() else None
                if e is None or self.fv(e) & own: continue
                rest = [z3.substitute(y, (k, e), (accs[0], inits[0])) for y in cs if y.get_id() != x.get_id()]
                return [z3.If(z3.And(e >= 0, e < n, *rest), self.norm(z3.substitute(v, (k, e), (accs[0], inits[0]))), inits[0])]
        # a flag that is set once and for all: set iff some iteration's condition holds
        if len(accs) == 1 and z3.is_app_of(steps[0], z3.Z3_OP_ITE):
            c, v, e = steps[0].children()
            if v.get_id() == accs[0].get_id(): c, v, e = (c.arg(0) if z3.is_not(c) else z3.Not(c)), e, v
            if e.get_id() == accs[0].get_id() and not (self.fv(v) & own) and accs[0].get_id() not in self.fv(c):
                K = self.first(n, k, c)
                return [z3.If(z3.And(n > 0, K < n), v, inits[0])]
        # conditions the iterations do not change are decided outside the loop
        cond = self._invcond(steps, own) if depth < 8 else None
        if cond is not None:
            sp = []
            for b in (z3.BoolVal(True), z3.BoolVal(False)):
                ss = [z3.simplify(z3.substitute(s, (cond, b))) for s in steps]
                sp.append(self.fold(n, k, accs, inits, ss, depth + 1))
            return [a if a.get_id() == b.get_id() else z3.If(cond, a, b) for a, b in zip(*sp)]
        # components whose value after m iterations is known in closed form
        ids = {a.get_id() for a in accs}
        for c, (a, s) in enumerate(zip(accs, steps)):
            dep = self.fv(s) & ids
            if s.get_id() == a.get_id(): closed = lambda m, c=c: inits[c]
            elif not dep: closed = lambda m, c=c, s=s: z3.If(m >= 1, z3.substitute(s, (k, m - 1)), inits[c])
            else: continue
            rest = [x for x in range(len(accs)) if x != c]
            ss = [z3.substitute(steps[x], (a, closed(k))) if a.get_id() in self.fv(steps[x]) else steps[x] for x in rest]
            out = self.fold(n, k, [accs[x] for x in rest], [inits[x] for x in rest], ss, depth) if rest else []
            out.insert(c, closed(n))
            return out
        # independent components are separate folds
        if len(accs) > 1:
            grp = list(range(len(accs)))
            for c, s in enumerate(steps):
                for x, a in enumerate(accs):
                    if a.get_id() in self.fv(s) and grp[x] != grp[c]:
                        g, h = grp[x], grp[c]
                        grp = [h if y == g else y for y in grp]
            if len(set(grp)) > 1:
                out = [None] * len(accs)
                for g in sorted(set(grp)):
                    m = [x for x in range(len(accs)) if grp[x] == g]
                    for x, t in zip(m, self.fold(n, k, [accs[x] for x in m], [inits[x] for x in m], [steps[x] for x in m], depth)): out[x] = t
                return out
        # sums start from zero
        if len(accs) == 1 and accs[0].sort() in (R, I):
            a = accs[0]
            x = self._less(steps[0], a)
            if x is not None and a.get_id() not in self.fv(x):
                zero = z3.RealVal(0) if a.sort() == R else z3.IntVal(0)
                if z3.is_false(z3.simplify(inits[0] == zero)) or not z3.is_true(z3.simplify(inits[0] == zero)):
                    return [inits[0] + self.fold(n, k, accs, [zero], [a + x], 99)[0]]
                steps = [a + x]
        ps = self._params(own, inits + steps)
        key = self._canon("FOLD", ps, [k] + list(accs), inits + steps)
        if key in self.cons: return [f(*ps, n) for f in self.cons[key]]
        d = Def("FOLD", ps, k=k, acc=list(accs), init=inits, step=steps, fns=[])
        out = []
        for c, a in enumerate(accs):
            name = self.new("FOLD")
            f = z3.Function(name, *[p.sort() for p in ps], I, a.sort())
            d.fns.append(f)
            self.defs[name] = (d, c)
            out.append(f(*ps, n))
        self.cons[key] = d.fns
        return out

    def ctx(self, e, known=None, d=0):
        """Nested tests of a condition that an enclosing if-then-else has decided are removed."""
        if not z3.is_app(e) or e.num_args() == 0 or d > 40: return e
        if known:
            kn = known.get(e.get_id())
            if kn is not None: return kn
        if z3.is_app_of(e, z3.Z3_OP_ITE):
            c = self.ctx(e.arg(0), known, d + 1)
            c = z3.simplify(c) if known and c.get_id() != e.arg(0).get_id() else c
            if z3.is_true(c): return self.ctx(e.arg(1), known, d + 1)
            if z3.is_false(c): return self.ctx(e.arg(2), known, d + 1)
            t, f = dict(known or {}), dict(known or {})
            pos, neg = [c], [c]
            if z3.is_and(c): pos += c.children()
            if z3.is_or(c): neg += c.children()
            for x in pos:
                t[x.get_id()] = TRUE
                if z3.is_not(x): t[x.arg(0).get_id()] = FALSE
            for x in neg:
                f[x.get_id()] = FALSE
                if z3.is_not(x): f[x.arg(0).get_id()] = TRUE
            self.keep.append(c)
            a, b = self.ctx(e.arg(1), t, d + 1), self.ctx(e.arg(2), f, d + 1)
            if a.get_id() == b.get_id(): return a
            if a.get_id() == e.arg(1).get_id() and b.get_id() == e.arg(2).get_id() and c.get_id() == e.arg(0).get_id(): return e
            return z3.If(c, a, b)
        if not self._has_ite(e): return e
        ch = [self.ctx(x, known, d + 1) for x in e.children()]
        if all(a.get_id() == b.get_id() for a, b in zip(ch, e.children())): return e
        return z3.substitute(e, *[(a, b) for a, b in zip(e.children(), ch) if a.get_id() != b.get_id()]) if z3.is_select(e) or len(ch) > 2 else e.decl()(*ch)

    def _has_ite(self, e):
        i = e.get_id()
        r = self._ite.get(i)
        if r is None:
            r = z3.is_app_of(e, z3.Z3_OP_ITE) or any(self._has_ite(c) for c in e.children())
            self._ite[i] = r; self.keep.append(e)
        return r

    def _less(self, e, a, d=0):
        """e - a, with the difference taken inside if-then-else; None if a remains inside another operator."""
        if z3.is_app_of(e, z3.Z3_OP_ITE) and d < 12:
            if a.get_id() in self.fv(e.arg(0)): return None
            x, y = self._less(e.arg(1), a, d + 1), self._less(e.arg(2), a, d + 1)
            return None if x is None or y is None else z3.If(e.arg(0), x, y)
        r = z3.simplify(e - a)
        return r if a.get_id() not in self.fv(r) else None

    def respec(self, t, ids):
        """Rebuild the folds in t that take any of the placeholders `ids` as a whole argument, with the arguments put in."""
        memo = {}
        def go(x, d):
            if not (self.fv(x) & ids) or d > 60: return x
            i = x.get_id()
            if i in memo: return memo[i]
            ch = [go(c, d + 1) for c in x.children()]
            y = x if all(a.get_id() == b.get_id() for a, b in zip(ch, x.children())) else (x.decl()(*ch) if not z3.is_select(x) else z3.Select(*ch))
            nm = y.decl().name()
            if nm in self.defs and self.defs[nm][0].kind == "FOLD" and any((self.fv(c) & ids) and z3.is_array(c) for c in y.children()[:-1]):
                d0, comp = self.defs[nm]
                sub = list(zip(d0.params, y.children()[:-1]))
                k2 = self.placeholder("k", I)
                a2 = [self.placeholder("acc", a.sort()) for a in d0.acc]
                ren = [(d0.k, k2)] + list(zip(d0.acc, a2))
                y = self.fold(y.children()[-1], k2, a2, [z3.substitute(b, *sub) for b in d0.init],
                              [z3.substitute(b, *sub, *ren) for b in d0.step])[comp]
            elif nm in self.defs and self.defs[nm][0].kind == "OPQ" and any((self.fv(c) & ids) and z3.is_array(c) for c in y.children()):
                d0, comp = self.defs[nm]
                sub = list(zip(d0.params, y.children()))
                y = self.opq(d0.name, [([z3.substitute(m, *sub) for m in n], j, z3.substitute(b, *sub)) for n, j, b in d0.arrs], [z3.substitute(x, *sub) for x in d0.extra], y.sort())
            memo[i] = y; self.keep.append(y); self.keep.append(x)
            return y
        return self.norm(go(t, 0))

    def _invcond(self, ts, own):
        """A condition of an if-then-else inside ts that mentions none of the placeholders `own`."""
        seen, stack = set(), list(ts)
        while stack:
            x = stack.pop()
            if x.get_id() in seen or not (self.fv(x) & own): continue
            seen.add(x.get_id())
            if z3.is_app_of(x, z3.Z3_OP_ITE):
                c = x.arg(0)
                for a in ([c] if not (z3.is_and(c) or z3.is_or(c)) else c.children()):
                    if z3.is_not(a): a = a.arg(0)
                    if not (self.fv(a) & own) and not z3.is_true(a) and not z3.is_false(a): return a
            stack.extend(x.children())
        return None

    def first(self, n, k, cond):
        """First k in [0,n) with cond; n if none (n None: unbounded)."""
        cond = self.norm(cond)
        if n is not None and k.get_id() not in self.fv(cond):
            return z3.If(z3.And(cond, n > 0), z3.IntVal(0), z3.If(n > 0, n, z3.IntVal(0)))
        ts = [cond] + ([n] if n is not None else [])
        ps = self._params({k.get_id()}, ts)
        key = self._canon("FIRST", ps, [k], ts)
        f = self.cons.get(key)
        if f is None:
            d = Def("FIRST", ps, k=k, n=n, cond=cond)
            f = self.cons[key] = self._decl("FIRST", ps, I, d)
        return f(*ps) if ps else f

    def opq(self, name, arrs, extra, sort):
        """Library function `name` of arrays [(n, j, body)] and scalar extras; deterministic in the array contents."""
        arrs = [([self.norm(m) for m in n], list(j), self.norm(b)) for n, j, b in arrs]
        extra = [self.norm(x) for x in extra]
        own, ts = set(), list(extra)
        for n, j, body in arrs:
            own |= {x.get_id() for x in j}; ts += list(n) + [body]
        ps = self._params(own, ts)
        d = Def("OPQ", ps, name=name, arrs=[(list(n), list(j), self.norm(b)) for n, j, b in arrs], extra=list(extra))
        f = self._decl("OPQ_" + name, ps, sort, d)
        return f(*ps) if ps else f

    # ---- selection ---------------------------------------------------------------------------------------------
    def sel(self, a, *idx):
        """Element of array term, pushing through ite / store / definitions / rules."""
        if z3.is_app_of(a, z3.Z3_OP_ITE):
            return z3.If(a.arg(0), self.sel(a.arg(1), *idx), self.sel(a.arg(2), *idx))
        if z3.is_store(a):
            n = a.num_args()
            js = [a.arg(i) for i in range(1, n - 1)]
            eq = [self.eqs(i, j) for i, j in zip(idx, js)]
            if all(z3.is_true(e) for e in eq):
                return a.arg(n - 1)
            if any(z3.is_false(e) for e in eq):
                return self.sel(a.arg(0), *idx)
            return z3.If(z3.And(*eq) if len(eq) > 1 else eq[0], a.arg(n - 1), self.sel(a.arg(0), *idx))
        if z3.is_app_of(a, z3.Z3_OP_CONST_ARRAY):
            return a.arg(0)
        if a.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            nm = a.decl().name()
            d = self.defs.get(nm)
            if d is not None and d[0].kind == "LAM":
                d = d[0]
                sub = list(zip(d.params, a.children())) + list(zip(d.j, idx))
                return self.norm(z3.substitute(d.body, *sub))
            r = self.rules.get(nm)
            if r is not None and a.num_args() == 0:
                v = r(*idx)
                if v is not None:
                    return v
        return z3.Select(a, *idx)

    def eqs(self, a, b):
        if a.get_id() == b.get_id():
            return TRUE
        if a.sort() == Ref and self.refclass is not None:
            x, y = self.refclass(a), self.refclass(b)
            if x is not None and y is not None and self.disjoint(x, y): return FALSE
            if self.apart(a, b) or self.apart(b, a): return FALSE
        return z3.simplify(a == b)

    def apart(self, a, b):
        """b is read from a field of a that never holds a itself (stated by the contract)."""
        if not self.noself or not z3.is_select(b) or not z3.is_const(a): return False
        while z3.is_select(b):
            if z3.is_const(b.arg(0)): return b.arg(0).decl().name() in self.noself and b.arg(1).get_id() == a.get_id()
            b = b.arg(0)
        return False

    def norm(self, t):
        """Normalise selects bottom-up (memoised)."""
        memo = self._norm
        i = t.get_id()
        if i in memo:
            return memo[i]
        stack = [t]
        while stack:
            x = stack[-1]
            xi = x.get_id()
            if xi in memo:
                stack.pop(); continue
            ch = x.children()
            todo = [c for c in ch if c.get_id() not in memo]
            if todo:
                stack.extend(todo); continue
            nch = [memo[c.get_id()] for c in ch]
            if z3.is_app_of(x, z3.Z3_OP_ITE):
                c = z3.simplify(nch[0]) if not z3.is_quantifier(nch[0]) else nch[0]
                if z3.is_true(c): y = nch[1]
                elif z3.is_false(c): y = nch[2]
                elif nch[1].get_id() == nch[2].get_id(): y = nch[1]
                else: y = z3.If(nch[0], nch[1], nch[2])
            elif z3.is_select(x):
                y = self.sel(nch[0], *nch[1:])
                if y.get_id() != x.get_id() and not z3.is_select(y) and y.num_args():
                    self.keep.append(x); memo[xi] = x  # provisional against cycles
                    y = self.norm(y)
            elif self.injective and z3.is_app(x) and x.num_args() == 1 and z3.is_app(nch[0]) and self.injective.get(x.decl().name()) == nch[0].decl().name():
                y = nch[0].arg(0)           # f_inv(f(i)) is i
            elif self.aparts and z3.is_eq(x) and any(z3.is_app(nch[1 - i]) and (nch[i].get_id(), nch[1 - i].decl().name()) in self.aparts for i in (0, 1)):
                y = FALSE                   # stated by the contract: not one of the listed objects
            elif self.injective and z3.is_eq(x) and any(nch[i].get_id() == NONE.get_id() and z3.is_app(nch[1 - i]) and nch[1 - i].decl().name() in self.injective.values() for i in (0, 1)):
                y = FALSE                   # listed objects are objects
            elif self.injective and z3.is_eq(x) and all(z3.is_app(a) and a.decl().name() in self.injective.values() for a in nch) and nch[0].decl().eq(nch[1].decl()):
                y = self.norm(nch[0].arg(0) == nch[1].arg(0))
            elif any(a.get_id() != b.get_id() for a, b in zip(ch, nch)):
                y = x.decl()(*nch)
            else:
                y = x
            memo[xi] = y
            self.keep.append(x); self.keep.append(y)
            stack.pop()
        return memo[i]

    def subst(self, t, pairs):
        if not pairs:
            return t
        return self.norm(z3.substitute(t, *pairs))

    # ---- ground instantiation ----------------------------------------------------------------------------------
    def _parts(self, f):
        """The uninterpreted applications and selects in f (memoised: path conditions recur from query to query)."""
        r = self._parts_memo.get(f.get_id())
        if r is None:
            r, seen, stack = [], set(), [f]
            while stack:
                x = stack.pop()
                xi = x.get_id()
                if xi in seen: continue
                seen.add(xi)
                if z3.is_app(x):
                    k = x.decl().kind()
                    if k == z3.Z3_OP_UNINTERPRETED: r.append((xi, x, x.decl().name(), x.num_args() > 0))
                    elif k == z3.Z3_OP_SELECT: r.append((xi, x, None, True))
                    stack.extend(x.children())
            self._parts_memo[f.get_id()] = r
            self.keep.append(f)
        return r

    def _collect(self, fs, seen, apps, sels):
        for f in fs:
            for xi, x, nm, _ in self._parts(f):
                if xi in seen: continue
                seen[xi] = x
                if nm is None: sels[xi] = x
                elif nm in self.defs: apps[xi] = x

    def instances(self, fs, depth=3, size=40):
        out = []
        seen, apps, sels = {}, {}, {}
        todo = [self.norm(f) for f in fs]
        base = list(todo)
        done_pairs, done_apps, done_ax = set(), set(), set()
        paired_gen, unfolded = {}, set()
        origin, whence = {}, [None] * len(todo)      # folds inside the lemma of a pair are compared with each other only
        for level in range(depth + 1):
            before = set(apps)
            self._collect(todo, seen, apps, sels)
            newapps = [a for i, a in apps.items() if i not in before]
            for f, w in zip(todo, whence):
                for xi, x, nm, _ in self._parts(f):
                    if nm in self.defs: origin.setdefault(xi, set()).add(w)
            todo, whence = [], []

            def emit(f, w=None):
                f = self.norm(f)
                todo.append(f); out.append(f); whence.append(w)
            if level < depth:
                for a in newapps:
                    d, c = self.defs[a.decl().name()]
                    sub = list(zip(d.params, a.children()))
                    if d.kind == "FOLD":
                        n = a.children()[-1]
                        P = a.children()[:-1]
                        emit(z3.Implies(n <= 0, a == z3.substitute(d.init[c], *sub)))
                        if level < 2:
                            prev = [f(*P, n - 1) for f in d.fns]
                            for q in prev: unfolded.add(q.get_id()); self.keep.append(q)
                            st = z3.substitute(d.step[c], *sub, (d.k, n - 1), *zip(d.acc, prev))
                            emit(z3.Implies(n > 0, a == st))
                        g = self._guard(d, c)
                        if g is not None and level < 2:      # never reached its guard: as at the start
                            kf = z3.substitute(self._guard(d, c), *[q for q in sub if q[0].get_id() != d.k.get_id()])
                            emit(z3.Implies(self.first(n, d.k, kf) >= n, a == z3.substitute(d.init[c], *sub)))
                    elif d.kind == "FIRST":
                        emit(a >= 0)
                        if d.n is not None:
                            n = z3.substitute(d.n, *sub)
                            emit(z3.If(n >= 0, a <= n, a == 0))
                            emit(z3.Implies(a < n, z3.substitute(d.cond, *sub, (d.k, a))))
                        else:
                            emit(z3.substitute(d.cond, *sub, (d.k, a)))
                allapps = list(apps.values())
                for x, y in itertools.combinations(allapps, 2):
                    key = (x.get_id(), y.get_id())
                    if key in done_pairs:
                        continue
                    (dx, cx), (dy, cy) = self.defs[x.decl().name()], self.defs[y.decl().name()]
                    if dx.kind == "FOLD" and origin[key[0]].isdisjoint(origin[key[1]]): continue
                    done_pairs.add(key)
                    if dx.kind != dy.kind or x.sort() != y.sort():
                        continue
                    if paired_gen.get(x.get_id(), 0) + paired_gen.get(y.get_id(), 0) >= 2:
                        continue
                    if x.get_id() in unfolded or y.get_id() in unfolded: continue
                    if dx.kind == "FOLD" and dx is dy and cx == cy and all(a.get_id() == b.get_id() for a, b in zip(x.children()[:-1], y.children()[:-1])): continue
                    got = self._pairs.get(key)
                    if got is None:      # the lemma of a pair does not depend on the query: stated once, with its own witnesses
                        fs_, sts = [], []
                        if dx.kind == "FOLD":
                            self._fold_pair(x, dx, cx, y, dy, cy, fs_.append, sts)
                        elif dx.kind == "FIRST":
                            self._first_pair(x, dx, y, dy, fs_.append)
                        elif dx.kind == "OPQ" and dx.name == dy.name:
                            self._opq_pair(x, dx, y, dy, fs_.append)
                        got = self._pairs[key] = ([self.norm(f) for f in fs_], sts)
                        self.keep += [x, y] + sts
                    for q in got[1]: paired_gen[q.get_id()] = paired_gen.get(x.get_id(), 0) + 1
                    todo += got[0]; out += got[0]; whence += [key] * len(got[0])
                # FIRST: below K the condition fails, at skolem/other index terms
                firsts = [(a, self.defs[a.decl().name()][0]) for a in allapps if self.defs[a.decl().name()][0].kind == "FIRST"]
                if firsts:
                    idx = self._index_terms(seen)
                    for a, d in firsts:
                        sub = list(zip(d.params, a.children()))
                        for t in idx:
                            key = (a.get_id(), t.get_id(), "below")
                            if key in done_ax or t.get_id() == a.get_id():
                                continue
                            done_ax.add(key)
                            emit(z3.Implies(z3.And(t >= 0, t < a), z3.Not(z3.substitute(d.cond, *sub, (d.k, t)))))
                if self.uf_facts:
                    for x in list(seen.values()):
                        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name() in self.uf_facts and (x.get_id(), "fact") not in done_ax:
                            done_ax.add((x.get_id(), "fact"))
                            for f in self.uf_facts[x.decl().name()](*x.children()): emit(f)
                for s in list(sels.values()):
                    for ai, (pat, fn) in enumerate(self.axioms):
                        key = (s.get_id(), ai)
                        if key in done_ax:
                            continue
                        done_ax.add(key)
                        if pat(s):
                            for f in fn(s):
                                emit(f)
            if not todo:
                break
        self._partial = bool(apps) or any(z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() and x.decl().name().endswith("!")
                                          for x in seen.values())
        return base, out

    def _guard(self, d, c):
        """g(k) when a step leaves the accumulator as it is unless g(k), and g reads no accumulator."""
        s, a = d.step[c], d.acc[c]
        if not z3.is_app_of(s, z3.Z3_OP_ITE): return None
        g = z3.Not(s.arg(0)) if s.arg(1).get_id() == a.get_id() else s.arg(0) if s.arg(2).get_id() == a.get_id() else None
        if g is None or any(x.get_id() in self.fv(g) for x in d.acc): return None
        return g

    def _index_terms(self, seen):
        r = []
        for x in seen.values():
            if x.sort() == I and z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name()[:2] == "w!":
                r.append(x)
            elif x.sort() == I and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and (x.decl().name() in self.defs and
                    self.defs[x.decl().name()][0].kind == "FIRST"):
                r.append(x)
        return r[:12]

    def _fold_pair(self, x, dx, cx, y, dy, cy, emit, gen):
        m = len(dx.acc)
        if len(dy.acc) != m or m > 3:
            return
        X, Y = x.children(), y.children()
        sx, sy = list(zip(dx.params, X[:-1])), list(zip(dy.params, Y[:-1]))
        nx, ny = X[-1], Y[-1]
        for perm in itertools.permutations(range(m)):
            if perm[cx] != cy or any(dx.acc[i].sort() != dy.acc[perm[i]].sort() for i in range(m)):
                continue
            w = self.const("w", I)
            st = [dx.fns[i](*X[:-1], w) for i in range(m)]
            gen += st
            ini = z3.And(*[z3.substitute(dx.init[i], *sx) == z3.substitute(dy.init[perm[i]], *sy) for i in range(m)])
            inv = [0] * m
            for i in range(m):
                inv[perm[i]] = i
            stepx = [z3.substitute(dx.step[i], *sx, (dx.k, w), *zip(dx.acc, st)) for i in range(m)]
            stepy = [z3.substitute(dy.step[perm[i]], *sy, (dy.k, w), *[(dy.acc[q], st[inv[q]]) for q in range(m)]) for i in range(m)]
            same = z3.And(*[a == b for a, b in zip(stepx, stepy)])
            emit(z3.Or(x == y, nx != ny, z3.Not(ini), z3.And(w >= 0, w < nx, z3.Not(same))))

    def _first_pair(self, x, dx, y, dy, emit):
        for (a, da), (b, _) in (((x, dx), (y, dy)), ((y, dy), (x, dx))):
            sub = list(zip(da.params, a.children()))
            emit(z3.Implies(b < a, z3.Not(z3.substitute(da.cond, *sub, (da.k, b)))))

    def _opq_pair(self, x, dx, y, dy, emit):
        sx, sy = list(zip(dx.params, x.children())), list(zip(dy.params, y.children()))
        S = lambda t, s: z3.substitute(t, *s) if s else t
        diff = [S(a, sx) != S(b, sy) for a, b in zip(dx.extra, dy.extra)]
        if len(dx.extra) != len(dy.extra) or len(dx.arrs) != len(dy.arrs):
            return
        for (nx, jx, bx), (ny, jy, by) in zip(dx.arrs, dy.arrs):
            if len(jx) != len(jy):
                return
            ws = [self.const("w", I) for _ in jx]
            diff += [S(a, sx) != S(b, sy) for a, b in zip(nx, ny)]
            rng = [z3.And(w >= 0, w < S(n, sx)) for w, n in zip(ws, nx)]
            diff.append(z3.And(*rng, z3.substitute(bx, *sx, *zip(jx, ws)) != z3.substitute(by, *sy, *zip(jy, ws))))
        emit(z3.Or(x == y, *diff))

    # ---- solving -----------------------------------------------------------------------------------------------
    BASE = [INF > 10 ** 300 * 1, DBL_MAX > 10 ** 300 * 1, DBL_MAX < INF]

    def check(self, fs, timeout=10000, depth=3):
        """Satisfiability of the conjunction: 'unsat' | 'sat' | 'unknown', and the model if sat."""
        base, inst = self.instances(list(fs) + self.facts, depth)
        self.definite = not self._partial
        t0 = time.time()
        r, model, by = "unknown", None, "none"
        allf = self.BASE + base + inst
        attempts = (("z3", None, timeout), ("z3-nlsat", "nl", timeout)) if timeout > 1500 else (("z3", None, timeout),)
        for name, tac, to in attempts:
            if tac == "nl":
                s = z3.Then("simplify", "propagate-values", "solve-eqs", "purify-arith", "smt").solver()
                s.set("timeout", to)
            else:
                s = z3.Solver()
                s.set("timeout", to)
            s.add(*allf)
            try:
                rr = s.check()
            except z3.Z3Exception:
                continue
            if rr == z3.unsat:
                r, by = "unsat", name; break
            if rr == z3.sat:
                r, by = "sat", name
                try: model = s.model()
                except z3.Z3Exception: pass
                break
        if r == "unknown" and timeout > 1500:
            r2 = self._cvc5(allf, timeout)
            if r2 == "unsat":
                r, by = "unsat", "cvc5"
        dt = time.time() - t0
        self.stats["queries"] += 1
        self.stats["time"] += dt
        self.stats["by"][by] = self.stats["by"].get(by, 0) + 1
        return r, model, by, dt

    def _cvc5(self, fs, timeout):
        s = z3.Solver(); s.add(*fs)
        txt = "(set-logic ALL)\n" + s.to_smt2()
        with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
            f.write(txt)
        try:
            p = subprocess.run(["cvc5", f"--tlimit={timeout}", f.name], capture_output=True, text=True, timeout=timeout / 1000 + 5)
            return p.stdout.strip().split("\n")[0]
        except Exception:
            return "unknown"
        finally:
            os.unlink(f.name)

    def decide(self, pc, goal, limit=60):
        """The goal with those conditions of if-then-elses settled (in integers and booleans, few symbols) that the path condition settles."""
        done = {}
        for _ in range(limit):
            cond = None; seen, stack = set(), [goal]
            while stack and cond is None:
                x = stack.pop()
                if x.get_id() in seen: continue
                seen.add(x.get_id())
                for y in ([x.arg(0)] if z3.is_app_of(x, z3.Z3_OP_ITE) else []):
                    parts = [y]
                    while parts:
                        z = parts.pop(0)
                        if z.get_id() not in done and self._simple(z): cond = z; break
                        if z3.is_and(z) or z3.is_or(z) or z3.is_not(z): parts += z.children()
                stack.extend(x.children())
            if cond is None: break
            v = next((b for b in (TRUE, FALSE) if self.proves(pc, cond if z3.is_true(b) else z3.Not(cond), 400, 1)), None)
            done[cond.get_id()] = cond
            if v is not None: goal = self.norm(z3.simplify(z3.substitute(goal, (cond, v)), som=False))
        return goal

    def _simple(self, c):
        seen, stack = set(), [c]
        while stack:
            x = stack.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if len(seen) > 40 or x.sort() == R or z3.is_app_of(x, z3.Z3_OP_ITE): return False
            stack.extend(x.children())
        return True

    def proves(self, pc, goal, timeout=2000, depth=1):
        g = z3.simplify(goal)
        if z3.is_true(g): return True
        return self.check(list(pc) + [z3.Not(goal)], timeout, depth)[0] == "unsat"
