"""Exact loop summaries.

The body is executed once from a state in which everything it may modify is a placeholder.  Each modified thing
("entity": a local, a heap cell, an array) then has a step term over the placeholders; the value after n iterations is
a closed form, a last-value, a per-index map (when an index is written by one iteration only) or a definitional FOLD.
Exits (break, return, raise, a while condition) are taken at K = FIRST(iteration at which an exit condition holds).
No invariant is guessed: the summary is the induction principle itself, so it is exact for every iteration count."""
import os
import z3
from core import Ref, R, I, B, NONE, TRUE, FALSE
from values import *


class Ent:
    def __init__(self, kind, name, p, init): self.kind, self.name, self.p, self.init = kind, name, p, init


class Loops:
    def __init__(self, ex): self.ex, self.L, self.inv = ex, ex.L, None

    # ---- iteration spaces --------------------------------------------------------------------------------------
    def as_iter(self, st, v):
        ex = self.ex
        v = ex.some(st, v)
        if isinstance(v, (T, Seq)): return v
        if isinstance(v, A):
            if len(v.dims) == 1:
                q = Seq(v.dims[0], lambda k, s: ex.elem(s, v, k))
                if getattr(v, "inv", None): q.inv = v.inv
                return q
            return Seq(v.dims[0], lambda k, s: ex.view(s, v, [k]))
        if isinstance(v, O) and v.cls:
            h = ex.handler(v.cls, "__iter__")
            if h: return self.as_iter(st, h(ex, st, v, [], {}))
            f = ex.P.lookup_method(v.cls, "__iter__")
            if f:
                r = ex.call_func(st, f, [v], {})
                return self.as_iter(st, r)
        raise Unsupported(f"iteration over {v!r}")

    def for_(self, s, st):
        ex = self.ex
        it = ex.ev(s.it, st)
        if isinstance(it, Cat):
            if s.els: raise Unsupported("else of a loop over a concatenation")
            out = Out_(st)
            for p in it.parts:
                if out.nxt is None: break
                o = self.for_over(s, out.nxt, self.as_iter(out.nxt, p))
                if o.brks: raise Unsupported("break from a loop over a concatenation")
                out.nxt = o.nxt; out.rets += o.rets
            return out
        return self.for_over(s, st, self.as_iter(st, it))

    def for_over(self, s, st, it):
        ex = self.ex
        if isinstance(it, Seq) and z3.is_int_value(z3.simplify(it.n)) and it.cond is None and (z3.simplify(it.n).as_long() <= 2 or
                z3.simplify(it.n).as_long() <= 64 and any(isinstance(v, T) and v.kind == "list" and appends(s.body, k) for k, v in st.loc.items()) or
                z3.simplify(it.n).as_long() <= 400 and scatters(s.body)):
            n = z3.simplify(it.n).as_long()
            it = T([it.elem(z3.IntVal(i), st) for i in range(n)])
        if isinstance(it, T): return self.unroll(s, st, it.items)
        if ex.single is not None and it.cond is None and it.n.get_id() == ex.ncomb.get_id():
            # loop rule with the iterations independent: one arbitrary iteration (stated by the contract)
            return self.unroll(s, st, [it.elem(ex.single, st)])

        if ex.side.get("growing"): self.grow(s, st)

        def step(c, k):
            v = it.elem(k, c)
            if it.cond is not None:
                g = it.cond(k, c)
                base = len(c.pc)
                skip = c.copy(); skip.pc.append(NOT(g)); c.pc.append(g)
                ex.assign(c, s.target, v)
                o = ex.block(s.body, c); o.conts.append(skip)
                return o
            ex.assign(c, s.target, v)
            return ex.block(s.body, c)
        if getattr(it, "inv", None):
            c, t = it.inv
            self.inv = (c, t, z3.simplify(it.n))
        try: return self.run(st, it.n, step, s.els)
        finally: self.inv = None

    def grow(self, s, st):
        """Lists the loop appends to, kept as an array and a length (asked for by the contract)."""
        ex = self.ex
        for name, v in list(st.loc.items()):
            if not (isinstance(v, T) and v.kind == "list" and appends(s.body, name)): continue
            if any(q is v for k, q in st.loc.items() if k != name): raise Unsupported("append to a shared list")
            key = f"list{len(ex.grown)}"; ex.grown.append(key)
            ty = ex.side["growing"]; ty = "double" if ty is True else ty
            if v.items and isinstance(v.items[0], S): ty = v.items[0].ty
            con = ex.field(st, key, NONE, arrsort(ty, 1))
            for i, x in enumerate(v.items): con = z3.Store(con, z3.IntVal(i), ex.coerce(x, ty))
            ex.setfield(st, key, NONE, con, con.sort()); ex.setfield(st, key + "#0", NONE, z3.IntVal(len(v.items)), I)
            st.loc[name] = Grown(key, ty)

    def while_(self, s, st):
        ex = self.ex

        def step(c, k):
            g = z3.simplify(ex.truth(ex.ev(s.c, c)))
            end = c.copy(); end.pc.append(NOT(g)); c.pc.append(g)
            o = ex.block(s.body, c)
            o.ends = [end]
            return o
        self.inv = ex.side.get("invariant")
        try: return self.run(st, None, step, s.els)
        finally: self.inv = None

    def unroll(self, s, st, items):
        ex = self.ex
        base = len(st.pc)
        out = Out_(st)
        for x in items:
            if out.nxt is None: break
            ex.assign(out.nxt, s.target, x)
            o = ex.block(s.body, out.nxt)
            nxt = o.nxt
            for c in o.conts: nxt = c if nxt is None else ex.merge(AND(c.pc[base:]), c, nxt, base)
            out.nxt = nxt
            out.rets += o.rets; out.brks += o.brks
        if s.els and out.nxt is not None:
            o = ex.block(s.els, out.nxt); out.nxt = o.nxt; out.rets += o.rets
        for b in out.brks: out.nxt = b if out.nxt is None else ex.merge(AND(b.pc[base:]), b, out.nxt, base)
        out.brks = []
        return out

    # ---- substitution in values and states ---------------------------------------------------------------------
    def mapv(self, v, f):
        ex = self.ex
        if isinstance(v, S): return S(f(v.t), v.ty)
        if isinstance(v, O): return O(f(v.t), v.cls, v.exact)
        if isinstance(v, Opt): return Opt(f(v.none), self.mapv(v.v, f))
        if isinstance(v, T): return T([self.mapv(x, f) if isinstance(x, Val) else x for x in v.items], v.kind)
        if isinstance(v, Seq):
            return Seq(f(v.n), lambda k, s: self.mapv(v.elem(k, s), f), None if v.cond is None else (lambda k, s: f(v.cond(k, s))))
        if isinstance(v, A):
            src = v.src
            if src[0] == "H": src = ("H", src[1], f(src[2]))
            elif src[0] == "G":
                g = src[1]; src = ("G", lambda s, *ix: f(g(s, *ix)))
            ax = None if v.axes is None else [(a[0], f(a[1])) if a[0] == "fix" else (a[0], a[1], f(a[2])) for a in v.axes]
            return A(v.ty, [f(d) for d in v.dims], src, ax, v.lst)
        return v

    def maps(self, s, f, base):
        r = State()
        r.loc = {k: self.mapv(v, f) for k, v in s.loc.items()}
        r.heap = {k: f(v) for k, v in s.heap.items()}
        r.arrs = {k: f(v) for k, v in s.arrs.items()}
        r.pc = s.pc[:base] + [f(p) for p in s.pc[base:]]
        r.esc = {k: (a, f(b)) for k, (a, b) in s.esc.items()}
        return r

    # ---- the summary -------------------------------------------------------------------------------------------
    def same(self, a, b):
        if a is b: return True
        if type(a) is not type(b): return False
        if isinstance(a, S): return a.t.get_id() == b.t.get_id() and a.t.sort() == b.t.sort()
        if isinstance(a, O): return a.t.get_id() == b.t.get_id()
        if isinstance(a, Opt): return a.none.get_id() == b.none.get_id() and self.same(a.v, b.v)
        if isinstance(a, NoneV): return True
        if isinstance(a, Grown): return a.key == b.key
        if isinstance(a, T): return len(a.items) == len(b.items) and all(self.same(x, y) for x, y in zip(a.items, b.items))
        return False

    def run(self, st, n, step, els):
        ex, L = self.ex, self.L
        if n is not None:
            n = z3.simplify(n)
            if z3.is_int_value(n) and n.as_long() <= 0:
                return ex.block(els, st) if els else Out_(st)
        k = L.placeholder("k", I)
        ex.nonneg.add(k.get_id())
        ents = {}            # (kind, name) -> Ent
        inv, self.inv = self.inv, None
        promoted = set()
        mark = len(ex.obls)
        base = len(st.pc)
        entry = st.copy()
        for it in range(12):
            del ex.obls[mark:]
            s = entry.copy()
            for (kind, name), e in ents.items():
                if kind == "loc": s.loc[name] = e.val
                elif kind == "heap": s.heap[name] = e.p
                else: s.arrs[name] = e.p
            if n is not None: s.pc.append(z3.And(k >= 0, k < n))
            else: s.pc.append(k >= 0)
            sb = len(s.pc)
            s0 = s.copy()
            ex.rstack.append([])
            try:
                o = step(s, k)
            finally:
                raised = ex.rstack.pop()
            nxt = o.nxt
            for c in o.conts: nxt = c if nxt is None else ex.merge(AND(c.pc[sb:]), c, nxt, sb)
            if nxt is not None and any(z3.is_false(x) for x in nxt.pc): nxt = None
            exits = [("brk", b, None) for b in o.brks] + [("ret", a, v) for a, v in o.rets] + \
                    [("raise", a, exc) for exc, a in raised] + [("end", a, None) for a in getattr(o, "ends", [])]
            exits = [x for x in exits if not any(z3.is_false(p) for p in x[1].pc)]
            changed = False
            # the state after an iteration decides what is carried; exits keep their own states
            if nxt is not None:
                for name, v in entry.loc.items():
                    cur = nxt.loc.get(name)
                    if cur is None or v is None: continue
                    e = ents.get(("loc", name))
                    if e is None:
                        if not self.same(cur, s0.loc[name]):
                            ents[("loc", name)] = self.mkloc(name, v, cur); changed = True
                    elif e.p is not None and isinstance(cur, S) and cur.t.sort() == R and e.p.sort() != R:
                        ents[("loc", name)] = self.mkloc(name, S(real(entry.loc[name].t), "double"), cur)
                        entry.loc[name] = S(real(entry.loc[name].t), "double"); changed = True
                    elif e.p is not None and isinstance(cur, S) and cur.t.sort() != e.p.sort():
                        if e.p.sort() == R: nxt.loc[name] = S(real(cur.t), "double")
                        elif e.p.sort() == B: 
                            entry.loc[name] = S(integer(entry.loc[name].t), "int")
                            ents[("loc", name)] = self.mkloc(name, entry.loc[name], cur); changed = True
                        else: nxt.loc[name] = S(integer(cur.t), "int")
                    elif e.p is not None and not isinstance(cur, (S, O, NoneV)):
                        e.p = None; e.val = Opaque(f"loop-carried {name}"); changed = True
                    elif e.p is not None and isinstance(cur, O) and e.val.cls is not cur.cls and cur.cls is not None and cur.t.get_id() != NONE.get_id():
                        if e.val.cls is None: e.val = O(e.p, cur.cls); changed = True
                for key, t in nxt.heap.items():
                    if ("heap", key) not in ents:
                        b = s0.heap.get(key, ex.heap0.get(key))
                        if b is None or t.get_id() != b.get_id():
                            e = Ent("heap", key, L.placeholder("H", t.sort()), entry.heap.get(key, ex.heap0.get(key)))
                            if e.init is None: e.init = ex.h(entry, key, t.sort().range())
                            ents[("heap", key)] = e; changed = True
                for i, t in nxt.arrs.items():
                    if i in entry.arrs and ("arr", i) not in ents and t.get_id() != s0.arrs[i].get_id():
                        e = Ent("arr", i, L.placeholder("A", t.sort()), entry.arrs[i])
                        ents[("arr", i)] = e; changed = True
                for i in nxt.esc:
                    if i not in entry.esc and i in entry.arrs: raise Unsupported("array escapes inside a loop")
            if not changed: break
        else:
            raise Unsupported("loop state did not stabilise")
        if inv is not None: return self.by_invariant(st, entry, ents, step, base, mark, els, inv)
        return self.finish(st, entry, n, k, ents, nxt, exits, base, sb, mark, els)

    def by_invariant(self, st, entry, ents, step, base, mark, els, inv):
        """The loop rule with a stated invariant: inv = (candidates, steps).  candidates(ex, entry, state) lists conditions
        that may be invariant; those that hold at entry and are preserved by an iteration that starts with all of them are
        kept (and made obligations); steps(ex, state, next) lists named conditions every full iteration must satisfy."""
        ex, L = self.ex, self.L
        cands_, steps = inv[:2]; ex.abstracted = True
        n = inv[2] if len(inv) > 2 else None      # a for loop: candidates also get the number of iterations done
        cands = cands_ if n is not None else (lambda e, a, b, k: cands_(e, a, b))
        zero = z3.IntVal(0)
        def havoc():
            s = entry.copy()
            for (kind, name), e in ents.items():
                if kind == "loc" and e.p is None: s.loc[name] = e.val; continue
                c = z3.Const(L.new(f"{name}@"), e.p.sort())
                if kind == "heap": s.heap[name] = c
                elif kind == "arr": s.arrs[name] = c
                else: s.loc[name] = S(c, e.val.ty) if isinstance(e.val, S) else O(c, e.val.cls)
            return s
        h0 = havoc()
        keep = [i for i, c in enumerate(cands(ex, entry, entry, zero)) if ex.proves(entry, c)]
        while True:
            del ex.obls[mark:]
            s = h0.copy(); h = h0.copy()
            k = L.const("w", I)
            if n is not None: s.pc += [k >= 0, k < n]; ex.nonneg.add(k.get_id()); L.keep.append(k)
            at = cands(ex, entry, h, k)
            s.pc += [at[i] for i in keep]; sb = len(s.pc)
            ex.rstack.append([])
            try: o = step(s, k)
            finally: raised = ex.rstack.pop()
            nxt = o.nxt
            for c in o.conts: nxt = c if nxt is None else ex.merge(AND(c.pc[sb:]), c, nxt, sb)
            if nxt is None: break
            for name in entry.loc:
                if ("loc", name) not in ents and not self.same(nxt.loc[name], entry.loc[name]): raise Unsupported("loop state did not stabilise")
            after = cands(ex, entry, nxt, k + 1)
            bad = [i for i in keep if not ex.proves(nxt, after[i], 2000) and not L.proves(nxt.pc, after[i], 15000, 3)]
            if os.environ.get("INV"):
                for i in bad: print("INV dropped", i, L.norm(after[i]))
            if not bad: break
            keep = [i for i in keep if i not in bad]
        at0 = cands(ex, entry, entry, zero)
        for j, i in enumerate(keep):
            ex.oblige(f"loop invariant {j} at entry", entry, at0[i])
            if nxt is not None: ex.oblige(f"loop invariant {j} preserved", nxt, after[i])
        if nxt is not None:
            for name, g in steps(ex, h, nxt): ex.oblige(name, nxt, g)
        out = Out_(None)
        for a, v in o.rets: out.rets.append((a, v))
        for exc, a in raised: ex.rstack[-1].append((exc, a))
        end = None
        if n is not None:
            end = h0.copy()
            m = z3.If(n > 0, n, zero) if not ex.proves(entry, n >= 0, 200) else n
            inv_end = cands(ex, entry, end, m)
            end.pc += [inv_end[i] for i in keep]
        for t in getattr(o, "ends", []): end = t if end is None else ex.merge(AND(t.pc[sb:]), t, end, sb)
        if els and end is not None:
            q = ex.block(els, end); end = q.nxt; out.rets += q.rets; out.brks += q.brks; out.conts += q.conts
        for t in o.brks: end = t if end is None else ex.merge(AND(t.pc[base:]), t, end, base)
        out.nxt = end
        return out

    def mkloc(self, name, init, cur):
        L = self.L
        e = Ent("loc", name, None, None)
        if isinstance(init, S) and isinstance(cur, S):
            e.p = L.placeholder(name, init.t.sort()); e.init = init.t
            e.val = S(e.p, init.ty)
        elif isinstance(init, (O, NoneV)) and isinstance(cur, (O, NoneV)):
            t = init.t if isinstance(init, O) else NONE
            cls = init.cls if isinstance(init, O) and init.cls else (cur.cls if isinstance(cur, O) else None)
            e.p = L.placeholder(name, Ref); e.init = t
            e.val = O(e.p, cls)
        else:
            e.val = Opaque(f"loop-carried {name}")
        return e

    def finish(self, st, entry, n, k, ents, nxt, exits, base, sb, mark, els):
        ex, L = self.ex, self.L
        # cells
        cells = []           # Ent-like with p, init, step, js
        hmap = []            # substitution of heap placeholders by stores over their entry value
        hparts = {}          # key -> list of (ref, cell) or the pointwise entity
        carried_ids = {k.get_id()} | {e.p.get_id() for e in ents.values() if e.p is not None}
        for (kind, name), e in list(ents.items()):
            if kind != "heap": continue
            t = nxt.heap[name]
            refs = self.refs(t, e.p)
            inv = refs is not None and all(not (L.fv(r) & carried_ids) for r in refs)
            if inv:
                for i, a in enumerate(refs):
                    for b in refs[:i]:
                        if not ex.proves(nxt, a != b): raise Unsupported(f"possible aliasing in {name}")
                parts, term = [], e.init
                for r in refs:
                    c = Ent("cell", name, L.placeholder("c", t.sort().range()), L.sel(e.init, r))
                    c.ref = r
                    parts.append(c); term = z3.Store(term, r, c.p)
                hmap.append((e.p, term)); hparts[name] = parts
            else:
                e.point = True
                hparts[name] = e
        f0 = lambda t: L.subst(t, hmap)
        for name, parts in hparts.items():
            if isinstance(parts, list):
                for c in parts:
                    c.step = f0(L.sel(nxt.heap[name], c.ref)); cells.append(c)
            else:
                parts.step = f0(nxt.heap[name]); cells.append(parts)
        for (kind, name), e in ents.items():
            if e.p is None or kind == "heap": continue
            if kind == "loc":
                v = nxt.loc[name]
                t = NONE if isinstance(v, NoneV) else v.t
                e.step = f0(t)
            else: e.step = f0(nxt.arrs[name])
            cells.append(e)
        self.solve(nxt if nxt is not None else entry, cells, k, n)
        # final substitution at iteration count m
        def at(m):
            """Substitution giving the state at the start of iteration m."""
            pairs = [(k, m)] + [(c.p, L.subst(c.sum, [(c.q, m)])) for c in cells]
            return lambda t: L.subst(L.subst(t, hmap), pairs)
        # exits
        K = None
        if exits:
            conds = [at(k)(AND(x[1].pc[sb:])) for x in exits]
            K = L.first(n, k, OR(conds))
        # obligations of the body
        kk = L.const("k", I)
        f = at(kk)
        for ob in ex.obls[mark:]:
            ob.pc = ob.pc[:base] + [f(p) for p in ob.pc[base:]] + ([kk <= K] if K is not None else [])
            ob.goal = f(ob.goal)
        out = Out_(None)
        tails = []
        for kind, s, v in exits:
            g = at(K)
            r = self.maps(s, g, base)
            # variables the iteration had not touched when it exited keep their placeholders -> values at start of K
            for (knd, name), e in ents.items():
                if knd == "heap" and name not in r.heap: r.heap[name] = g(e.p)
            r.pc = r.pc[:base] + ([K < n] if n is not None else []) + r.pc[base:]
            if kind == "brk": tails.append(r)
            elif kind == "end": tails.append(r)
            elif kind == "ret": out.rets.append((r, self.mapv(v, g)))
            else: ex.rstack[-1].append((v, r))
        # normal end
        end = None
        if n is not None:
            end = entry.copy()
            self.put(end, ents, cells, hparts, n)
            if K is not None: end.pc.append(K >= n)
            nn = z3.If(n > 0, n, 0) if not ex.proves(st, n >= 0, 200) else n
            if nxt is not None:
                last = at(n - 1)
                for name, v in nxt.loc.items():
                    if name not in entry.loc:
                        try: end.loc[name] = self.mapv(v, last) if isinstance(v, (S, O)) else Opaque("loop temporary " + name)
                        except Unsupported: pass
            if els:
                o = ex.block(els, end); end = o.nxt; out.rets += o.rets; out.brks += o.brks; out.conts += o.conts
        for t in tails: end = t if end is None else ex.merge(AND(t.pc[base:]), t, end, base)
        out.nxt = end
        return out

    def put(self, s, ents, cells, hparts, m):
        L = self.L
        val = lambda c: L.subst(c.sum, [(c.q, m)])
        for name, parts in hparts.items():
            if isinstance(parts, list):
                t = ents[("heap", name)].init
                for c in parts: t = z3.Store(t, c.ref, val(c))
                s.heap[name] = t
            else: s.heap[name] = val(parts)
        for (kind, name), e in ents.items():
            if kind == "loc":
                if e.p is None: s.loc[name] = Opaque(f"loop-carried {name}")
                else:
                    v = e.val
                    s.loc[name] = S(val(e), v.ty) if isinstance(v, S) else O(val(e), v.cls)
            elif kind == "arr": s.arrs[name] = val(e)

    def refs(self, t, H):
        """Refs stored into heap term t over placeholder H, or None if not a store/ite tree over H."""
        out, stack, seen = [], [t], set()
        while stack:
            x = stack.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if x.get_id() == H.get_id(): continue
            if z3.is_store(x):
                r = x.arg(1)
                if all(r.get_id() != y.get_id() for y in out): out.append(r)
                stack.append(x.arg(0))
            elif z3.is_app_of(x, z3.Z3_OP_ITE): stack += [x.arg(1), x.arg(2)]
            else: return None
        return out

    # ---- solving the recurrences -------------------------------------------------------------------------------
    def solve(self, st, cells, k, n):
        L = self.L
        ids = {c.p.get_id(): c for c in cells}
        for c in cells:
            c.q = L.placeholder("q", I)
            c.deps = {i for i in L.fv(c.step) if i in ids}
        # an array/heap entity's step term always mentions itself; refine later
        order = self.sccs(cells, ids)
        done = {}
        for comp in order:
            pairs = [(d.p, L.subst(d.sum, [(d.q, k)])) for d in done.values()]
            for c in comp:
                c.step = L.subst(c.step, [(p, t) for p, t in pairs if p.get_id() in L.fv(c.step)])
            arrs = [z3.is_array(c.p) for c in comp]
            if all(arrs): self.solve_arrays(st, comp, k, n)
            elif not any(arrs): self.solve_scalars(st, comp, k, n)
            else: raise Unsupported("loop mixes array and scalar recurrences")
            for c in comp: done[c.p.get_id()] = c

    def sccs(self, cells, ids):
        idx, low, stack, on, out, cnt = {}, {}, [], set(), [], [0]
        def go(v):
            idx[v] = low[v] = cnt[0]; cnt[0] += 1
            stack.append(v); on.add(v)
            for w in ids[v].deps:
                if w not in idx: go(w); low[v] = min(low[v], low[w])
                elif w in on: low[v] = min(low[v], idx[w])
            if low[v] == idx[v]:
                comp = []
                while True:
                    w = stack.pop(); on.discard(w); comp.append(ids[w])
                    if w == v: break
                out.append(comp)
        for c in cells:
            if c.p.get_id() not in idx: go(c.p.get_id())
        return out

    def solve_scalars(self, st, comp, k, n):
        L = self.L
        if len(comp) == 1:
            c = comp[0]
            if c.p.get_id() not in L.fv(c.step):
                if c.step.get_id() == c.init.get_id(): c.sum = c.init; return
                c.sum = ITE(c.q > 0, L.subst(c.step, [(k, c.q - 1)]), c.init)
                return
            d = z3.simplify(c.step - c.p) if c.p.sort() in (R, I) else None
            if d is not None and not (L.fv(d) & {c.p.get_id(), k.get_id()}):
                if z3.is_int_value(d) or z3.is_rational_value(d):
                    m = c.q if c.p.sort() == I else z3.ToReal(c.q)
                    m = z3.If(c.q > 0, m, z3.IntVal(0) if c.p.sort() == I else z3.RealVal(0)) if n is not None and not self.ex.proves(st, n >= 0, 200) else m
                    c.sum = c.init + d * m
                    return
        q = L.placeholder("q", I)
        terms = L.fold(q, k, [c.p for c in comp], [c.init for c in comp], [c.step for c in comp])
        for c, t in zip(comp, terms): c.q, c.sum = q, t

    def idxs(self, sort):
        """Index sorts of a (possibly nested) array sort, and its element sort; structure as list of arities."""
        L = self.L
        out, shape = [], []
        while sort.kind() == z3.Z3_ARRAY_SORT:
            ds = []
            i = 0
            while True:
                try: ds.append(sort.domain_n(i)); i += 1
                except Exception: break
            if not ds: ds = [sort.domain()]
            js = [L.placeholder("j", d) for d in ds]
            out += js; shape.append(len(js))
            sort = sort.range()
        return out, shape, sort

    def get(self, t, js, shape):
        p = 0
        for m in shape:
            t = self.L.sel(t, *js[p:p + m]); p += m
        return t

    def mk(self, js, shape, body):
        p = len(js)
        for m in reversed(shape):
            body = self.L.lam(js[p - m:p], body); p -= m
        return body

    def solve_arrays(self, st, comp, k, n):
        L = self.L
        if len(comp) == 1:
            c = comp[0]
            js, shape, es = self.idxs(c.p.sort())
            E = L.respec(L.norm(self.get(c.step, js, shape)), {c.p.get_id()})
            r = self.unique(st, c, E, js, shape, k, n)
            if r is not None: c.sum = r; return
        # per-index folds
        js, shape, es = self.idxs(comp[0].p.sort())
        accs, inits, steps = [], [], []
        for c in comp:
            js2, shape2, es2 = self.idxs(c.p.sort())
            if shape2 != shape or any(a.sort() != b.sort() for a, b in zip(js, js2)): raise Unsupported("mutually recursive arrays of different shape")
            accs.append(L.placeholder("acc", es2))
            inits.append(L.norm(self.get(c.init, js, shape)))
        for c in comp:
            E = L.respec(L.norm(self.get(c.step, js, shape)), {x.p.get_id() for x in comp})
            E = self.pointify(E, comp, accs, js, shape, [])
            if any(x.p.get_id() in L.fv(E) for x in comp) and os.environ.get("DBG"): print("REC", E, [x.p for x in comp], [type(x).__name__ for x in comp])
            if any(x.p.get_id() in L.fv(E) for x in comp): raise Unsupported("array recurrence reads other indices of what it writes")
            steps.append(E)
        q = L.placeholder("q", I)
        if len(comp) == 1:   # E = ite(c, v, acc) with c independent of k: hoist
            g = self.hoist(steps[0], accs[0], k)
            if g is not None:
                cnd, v = g
                t = self.L.fold(q, k, accs, inits, [v])[0]
                comp[0].q, comp[0].sum = q, self.mk(js, shape, z3.If(cnd, t, inits[0]))
                return
        terms = L.fold(q, k, accs, inits, steps)
        for c, t in zip(comp, terms): c.q, c.sum = q, self.mk(js, shape, t)

    def hoist(self, E, acc, k):
        if z3.is_app_of(E, z3.Z3_OP_ITE) and E.arg(2).get_id() == acc.get_id() and not (self.L.fv(E.arg(0)) & {k.get_id(), acc.get_id()}):
            return E.arg(0), E.arg(1)
        return None

    def atoms(self, c):
        """Equality atoms in conjunction c."""
        if z3.is_and(c):
            out = []
            for x in c.children(): out += self.atoms(x)
            return out
        return [c] if z3.is_eq(c) else []

    def pointify(self, E, comp, accs, js, shape, eqs):
        """Replace reads of the carried arrays at the generic index (or at an index a guard equates with it)."""
        L = self.L
        if z3.is_app_of(E, z3.Z3_OP_ITE) and any(c.p.get_id() in L.fv(E) for c in comp):
            return z3.If(self.rep(E.arg(0), comp, accs, js, shape, eqs),
                         self.pointify(E.arg(1), comp, accs, js, shape, eqs + self.atoms(E.arg(0))),
                         self.pointify(E.arg(2), comp, accs, js, shape, eqs))
        if z3.is_app(E) and not z3.is_select(E) and not z3.is_array(E) and E.num_args() and any(z3.is_app_of(x, z3.Z3_OP_ITE) for x in self.inside(E)) and any(c.p.get_id() in L.fv(E) for c in comp):
            return E.decl()(*[self.pointify(x, comp, accs, js, shape, eqs) if not z3.is_array(x) else x for x in E.children()])
        return self.rep(E, comp, accs, js, shape, eqs)

    def inside(self, t):
        """Subterms of t outside reads of arrays."""
        out, stack, seen = [], [t], set()
        while stack:
            x = stack.pop()
            if x.get_id() in seen or z3.is_select(x) or not z3.is_app(x): continue
            seen.add(x.get_id()); out.append(x); stack += x.children()
        return out

    def rep(self, t, comp, accs, js, shape, eqs):
        alts = [[j] for j in js]
        for al in alts:
            more = True
            while more:
                more = False
                for e in eqs:
                    ids = {x.get_id() for x in al}
                    for a, b in ((e.arg(0), e.arg(1)), (e.arg(1), e.arg(0))):
                        if a.get_id() in ids and b.get_id() not in ids: al.append(b); more = True; break
        import itertools
        pairs = []
        for c, a in zip(comp, accs):
            for tup in itertools.product(*alts):
                pairs.append((self.get(c.p, list(tup), shape), a))
        t = z3.substitute(t, *pairs)
        ids = {c.p.get_id(): a for c, a in zip(comp, accs)}
        if not ids.keys() & self.L.fv(t): return t
        # reads at an index that only arithmetic shows to be one of those
        more, seen, stack = [], set(), [t]
        while stack:
            x = stack.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if z3.is_select(x):
                at, y = [], x
                while z3.is_select(y): at = list(y.children()[1:]) + at; y = y.arg(0)
                a = ids.get(y.get_id())
                if a is not None and len(at) == len(js) and all(any(self.eq0(p, q) for q in al) for p, al in zip(at, alts)):
                    more.append((x, a)); continue
            stack += x.children()
        return z3.substitute(t, *more) if more else t

    def unique(self, st, c, E, js, shape, k, n):
        """If index js is written by at most one iteration k* = k*(js): the map summary; else None."""
        L = self.L
        own = self.get(c.p, js, shape)
        if E.get_id() == own.get_id(): return c.init
        eqs, seen, stack = {}, set(), [E]
        while stack:
            x = stack.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if z3.is_eq(x) and k.get_id() in L.fv(x) and any(j.get_id() in L.fv(x) for j in js): eqs[x.get_id()] = x
            stack += x.children()
        best = None
        for a in eqs.values():
            s = self.solve_k(a, js, k)
            if s is None: continue
            kstar, extra = s
            # every atom with the same solution
            same = [b for b in eqs.values() if (lambda z: z is not None and self.eq0(z[0], kstar))(self.solve_k(b, js, k))]
            E0 = L.norm(self.simp(z3.substitute(E, *[(b, FALSE) for b in same])))
            if E0.get_id() != own.get_id(): continue
            E1 = z3.substitute(E, *[(b, TRUE) for b in same])
            E1 = self.simp(z3.substitute(E1, (k, kstar)))
            E1 = self.pointify(E1, [c], [own], js, shape, [])
            E1 = self.fixreads(st, E1, c, js, shape, kstar, k)
            if E1 is None: continue
            init = L.norm(self.get(c.init, js, shape))
            E1 = L.subst(E1, [(own, init)])
            if c.p.get_id() in L.fv(E1): continue
            g = [kstar >= 0, kstar < c.q] + ([extra] if extra is not None else [])
            return self.mk(js, shape, z3.If(AND(g), E1, init))
        return None

    def simp(self, t):
        return self.L.norm(simp_bool(t, {}))

    def eq0(self, a, b):
        return a.get_id() == b.get_id() or z3.is_true(z3.simplify(a == b))

    def fixreads(self, st, E, c, js, shape, kstar, k):
        """Reads of the written array in the (unique) iteration that writes js must be at js itself."""
        L = self.L
        if c.p.get_id() not in L.fv(E): return E
        pairs, seen, stack = [], set(), [E]
        own = self.get(c.p, js, shape)
        while stack:
            x = stack.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if z3.is_select(x) and x.sort() == own.sort():
                idx, y = [], x
                while z3.is_select(y):
                    idx = [y.arg(i) for i in range(1, y.num_args())] + idx
                    y = y.arg(0)
                if y.get_id() == c.p.get_id() and len(idx) == len(js):
                    if all(self.eq0(a, b) for a, b in zip(idx, js)):
                        if x.get_id() != own.get_id(): pairs.append((x, own))
                        continue
                    return None
            stack += x.children()
        return z3.substitute(E, *pairs) if pairs else E

    def ints(self, t, k):
        """Applications f(k) in t of functions the contract states to be injective."""
        inj, out, stack, seen = self.ex.side.get("injective", ()), [], [t], set()
        while stack:
            x = stack.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if z3.is_app(x) and x.num_args() == 1 and x.sort() == I and x.decl().name() in inj and x.arg(0).get_id() == k.get_id(): out.append(x)
            stack += x.children()
        return out

    def solve_k(self, a, js, k):
        """Solve equality atom a (mentioning some j) for k: (k*, side condition)."""
        L = self.L
        for x, y in ((a.arg(0), a.arg(1)), (a.arg(1), a.arg(0))):
            # x is an index variable (plus constant), y mentions k
            if k.get_id() in L.fv(x) or k.get_id() not in L.fv(y): continue
            if not any(j.get_id() in L.fv(x) for j in js): continue
            if x.sort() == I:
                c = z3.simplify(y - k)
                if k.get_id() not in L.fv(c): return (x if z3.is_int_value(c) and c.as_long() == 0 else x - c), None
                c = z3.simplify(y + k)
                if k.get_id() not in L.fv(c): return c - x, None
                # y is f(k) plus something that does not depend on k, f without repetition
                for f in self.ints(y, k):
                    c = z3.simplify(y - f)
                    if k.get_id() in L.fv(c): continue
                    inv = self.ex.lib.fn(f.decl().name() + "_inv", I, I)
                    ks = inv(z3.simplify(x - c))
                    return ks, f.decl()(ks) == z3.simplify(x - c)
            elif x.sort() == Ref:
                return self.ex.lib.inverse(y, k, x)
        # j - k == c forms
        if a.arg(0).sort() == I:
            d = z3.simplify(a.arg(0) - a.arg(1))
            for j in js:
                if j.sort() != I or j.get_id() not in L.fv(d): continue
                c = z3.simplify(d - j + k)
                if k.get_id() not in L.fv(c): return z3.simplify(d + k), None
                c = z3.simplify(d + j - k)
                if k.get_id() not in L.fv(c): return z3.simplify(k - d), None
        return None


def appends(n, name):
    """Whether the code appends to the local list `name`."""
    if isinstance(n, (list, tuple)): return any(appends(x, name) for x in n)
    if not hasattr(n, "k"): return False
    if n.k == "attr" and n.a in ("append", "extend") and n.o.k == "name" and n.o.id == name: return True
    return any(appends(x, name) for x in n.f.values())


def walk(n):
    if isinstance(n, (list, tuple)):
        for x in n: yield from walk(x)
    elif hasattr(n, "k"):
        yield n
        for x in n.f.values(): yield from walk(x)


def scatters(body):
    """Whether the loop writes one array at several different positions per iteration (a fixed number of iterations is then run one by one)."""
    ns = list(walk(body))
    if any(n.k in ("for", "while") for n in ns): return False
    seen = {}
    for n in ns:
        if n.k == "assign":
            for t in n.targets:
                if t.k == "index": seen.setdefault(repr(t.o), set()).add(repr(t.i))
    return any(len(v) > 1 for v in seen.values())


def simp_bool(t, memo):
    """Propagate literal true/false through and/or/not/ite only (terms keep their shape)."""
    i = t.get_id()
    if i in memo: return memo[i]
    ch = [simp_bool(c, memo) for c in t.children()]
    if z3.is_and(t): r = AND(ch) if not any(z3.is_false(c) for c in ch) else FALSE
    elif z3.is_or(t): r = OR(ch) if not any(z3.is_true(c) for c in ch) else TRUE
    elif z3.is_not(t): r = NOT(ch[0])
    elif z3.is_app_of(t, z3.Z3_OP_ITE): r = ITE(ch[0], ch[1], ch[2])
    elif z3.is_app_of(t, z3.Z3_OP_IMPLIES): r = TRUE if z3.is_false(ch[0]) or z3.is_true(ch[1]) else (ch[1] if z3.is_true(ch[0]) else z3.Implies(*ch))
    elif z3.is_eq(t) and ch[0].get_id() == ch[1].get_id(): r = TRUE
    elif z3.is_eq(t) and ch[0].sort() == I and z3.is_true(z3.simplify(ch[0] == ch[1])): r = TRUE
    elif any(a.get_id() != b.get_id() for a, b in zip(ch, t.children())): r = t.decl()(*ch)
    else: r = t
    memo[i] = r
    return r


def Out_(nxt):
    from exec import Out
    return Out(nxt)
