"""Values and states of the symbolic executor."""
import z3
from core import Ref, R, I, B, NONE, TRUE, FALSE, sortof, arrsort


class Unsupported(Exception):
    """Outside the verifier's subset: the function's obligations are undecided (never passed, never a violation)."""


class Val:
    pass


class S(Val):
    """Scalar: double -> Real, int/str/enum -> Int, bint -> Bool."""
    __slots__ = ("t", "ty")
    def __init__(self, t, ty): self.t, self.ty = t, ty
    def __repr__(self): return f"S({self.t}:{self.ty})"


class O(Val):
    """Object reference with its static class (None: unknown)."""
    __slots__ = ("t", "cls", "exact")
    def __init__(self, t, cls=None, exact=False): self.t, self.cls, self.exact = t, cls, exact
    def __repr__(self): return f"O({self.t}:{self.cls})"


class A(Val):
    """Array or list.  src: ('H', key, ref) heap cell | ('L', id) local array | ('G', fn) read-only element function.
    axes (views): list over base axes of ('fix', t) or ('var', view axis, offset); None = identity."""
    __slots__ = ("ty", "dims", "src", "axes", "lst", "ety", "flt")
    def __init__(self, ty, dims, src, axes=None, lst=False, ety=None, flt=None):
        self.flt = flt      # elements selected by a mask: (n, element term of k, condition of k)
        self.ty, self.dims, self.src, self.axes, self.lst = ty, list(dims), src, axes, lst
    def __repr__(self): return f"A({self.ty},{self.dims},{self.src})"


class T(Val):
    """Concrete tuple/list of values."""
    __slots__ = ("items", "kind")
    def __init__(self, items, kind="tuple"): self.items, self.kind = list(items), kind
    def __repr__(self): return f"T{self.items}"


class Opt(Val):
    """Value that may be None: none is a Bool term."""
    __slots__ = ("none", "v")
    def __init__(self, none, v): self.none, self.v = none, v


class NoneV(Val):
    def __repr__(self): return "None"


NV = NoneV()


class Fn(Val):
    """Callable: kind in 'func' (Func), 'bound' (Func, self), 'class', 'builtin' (name), 'np' (name), 'lambda', 'super',
    'meth' (method name of an array), 'py' (python callable of the executor)."""
    def __init__(self, kind, **kw): self.kind, self.__dict__ = kind, {"kind": kind, **kw}
    def __repr__(self): return f"Fn({self.__dict__})"


class Mod(Val):
    def __init__(self, name): self.name = name


class Grown(Val):
    """A local list that a loop appends to: its length and items are kept under `key`."""
    def __init__(self, key, ty): self.key, self.ty = key, ty


class Cat(Val):
    """The concatenation of iterables."""
    def __init__(self, parts): self.parts = parts


class Seq(Val):
    """Lazy iterable: n terms, elem(k, st) -> Val; cond(k, st) -> Bool or None (comprehension filter).  rng: it is range(n)."""
    pure = False         # the elements do not depend on the state
    def __init__(self, n, elem, cond=None, rng=False): self.n, self.elem, self.cond, self.rng = n, elem, cond, rng


class Star(Val):
    """*iterable in a call (only understood by contracts of external functions)."""
    def __init__(self, v): self.v = v


class Opaque(Val):
    """A value the verifier knows nothing about; using it in the verified state is unsupported."""
    def __init__(self, why): self.why = why
    def __repr__(self): return f"Opaque({self.why})"


class Either(Opaque):
    """a if c else b, of different kinds: known only to isinstance and None tests."""
    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b
        self.why = f"merge of {type(a).__name__} and {type(b).__name__}"


class State:
    __slots__ = ("loc", "heap", "arrs", "pc", "esc")

    def __init__(self):
        self.loc, self.heap, self.arrs, self.pc, self.esc = {}, {}, {}, [], {}

    def copy(self):
        s = State()
        s.loc, s.heap, s.arrs, s.pc, s.esc = dict(self.loc), dict(self.heap), dict(self.arrs), list(self.pc), dict(self.esc)
        return s

    def become(self, o):
        self.loc, self.heap, self.arrs, self.pc, self.esc = o.loc, o.heap, o.arrs, o.pc, o.esc


def AND(xs):
    xs = [x for x in xs if not z3.is_true(x)]
    if not xs: return TRUE
    return xs[0] if len(xs) == 1 else z3.And(*xs)


def OR(xs):
    xs = [x for x in xs if not z3.is_false(x)]
    if not xs: return FALSE
    return xs[0] if len(xs) == 1 else z3.Or(*xs)


def NOT(c):
    if z3.is_not(c): return c.arg(0)
    if z3.is_true(c): return FALSE
    if z3.is_false(c): return TRUE
    return z3.Not(c)


def ITE(c, a, b):
    if a.get_id() == b.get_id() or z3.is_true(c): return a
    if z3.is_false(c): return b
    return z3.If(c, a, b)


def real(t):
    if t.sort() == R: return t
    if t.sort() == B: return z3.If(t, z3.RealVal(1), z3.RealVal(0))
    if z3.is_int_value(t): return z3.RealVal(t.as_long())
    return z3.ToReal(t)


def integer(t):
    if t.sort() == I: return t
    if t.sort() == B: return z3.If(t, z3.IntVal(1), z3.IntVal(0))
    raise Unsupported("real where an integer is needed")


def merge_val(c, a, b):
    """Value equal to a if c else b."""
    if a is b: return a
    if isinstance(a, S) and isinstance(b, S):
        if a.t.get_id() == b.t.get_id() and a.ty == b.ty: return a
        if a.t.sort() == b.t.sort(): return S(ITE(c, a.t, b.t), a.ty if a.ty == b.ty else ("int" if a.t.sort() == I else a.ty))
        if R in (a.t.sort(), b.t.sort()): return S(ITE(c, real(a.t), real(b.t)), "double")
        return S(ITE(c, integer(a.t), integer(b.t)), "int")
    if isinstance(a, O) and isinstance(b, O):
        if a.t.get_id() == b.t.get_id(): return a if a.cls is not None else b
        cls = a.cls if a.cls is b.cls else None
        if cls is None and a.t.get_id() == NONE.get_id(): cls = b.cls
        if cls is None and b.t.get_id() == NONE.get_id(): cls = a.cls
        return O(ITE(c, a.t, b.t), cls, a.exact and b.exact)
    if isinstance(a, NoneV) and isinstance(b, NoneV): return a
    if isinstance(a, NoneV) and isinstance(b, O): return O(ITE(c, NONE, b.t), b.cls)
    if isinstance(b, NoneV) and isinstance(a, O): return O(ITE(c, a.t, NONE), a.cls)
    if isinstance(a, NoneV) and isinstance(b, (S, A)): return Opt(c, b)
    if isinstance(b, NoneV) and isinstance(a, (S, A)): return Opt(NOT(c), a)
    if isinstance(a, Opt) or isinstance(b, Opt):
        f = lambda x: (x.none, x.v) if isinstance(x, Opt) else ((TRUE, None) if isinstance(x, NoneV) else (FALSE, x))
        (n1, v1), (n2, v2) = f(a), f(b)
        v = v1 if v2 is None else v2 if v1 is None else merge_val(c, v1, v2)
        return Opt(ITE(c, n1, n2), v)
    if isinstance(a, A) and isinstance(b, A) and a.ty == b.ty and len(a.dims) == len(b.dims):
        same_src = (a.src[0] == b.src[0] and a.src[0] != "G" and a.axes is None and b.axes is None and
                    all((x is y) or (isinstance(x, z3.ExprRef) and isinstance(y, z3.ExprRef) and x.get_id() == y.get_id()) or
                        (not isinstance(x, z3.ExprRef) and x == y) for x, y in zip(a.src[1:], b.src[1:])))
        if same_src: return A(a.ty, [ITE(c, x, y) for x, y in zip(a.dims, b.dims)], a.src, None, a.lst)
        return Opaque("array chosen by a condition") if not MERGE_ARR[0] else MERGE_ARR[0](c, a, b)
    if isinstance(a, T) and isinstance(b, T) and len(a.items) == len(b.items):
        return T([merge_val(c, x, y) for x, y in zip(a.items, b.items)], a.kind)
    if isinstance(a, Seq) and isinstance(b, Seq) and a.cond is None and b.cond is None:
        return Seq(ITE(c, a.n, b.n), lambda k, st: merge_val(c, a.elem(k, st), b.elem(k, st)))
    if isinstance(a, Fn) and isinstance(b, Fn) and a.__dict__ == b.__dict__: return a
    if isinstance(a, Mod) and isinstance(b, Mod) and a.name == b.name: return a
    return Either(c, a, b)


MERGE_ARR = [None]
