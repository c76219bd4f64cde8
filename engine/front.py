"""Front end: reads pywr's Cython and Python sources with Cython's own parser.

Nothing is rewritten by hand: every function the verifier reasons about is the text of the working tree, parsed on
this run.  What the translation drops is listed in DROPPED below.
"""
import re, os, sys, glob, hashlib
from io import StringIO

CYTHON_SITE = "/opt/venv/lib/python3.12/site-packages"
if CYTHON_SITE not in sys.path:
    sys.path.append(CYTHON_SITE)
from Cython.Compiler import Parsing, Errors, Nodes, ExprNodes  # noqa: E402
from Cython.Compiler.TreeFragment import StringParseContext  # noqa: E402
from Cython.Compiler.Scanning import PyrexScanner, StringSourceDescriptor  # noqa: E402

DROPPED = [
    "doc strings, type annotations, compiler directives other than cdivision (boundscheck/initializedcheck are "
    "irrelevant: every index is an obligation or a stated precondition)",
    "logging, warnings, printing and time.perf_counter bookkeeping calls (no effect on the verified state)",
    "the text of exception messages (the exception class and the condition under which it is raised are kept)",
]


MANGLED = re.compile(r"^_[A-Z][A-Za-z0-9]*(__[A-Za-z]\w*)$")     # self._Class__x is the private attribute __x of Class


class N:
    """An AST node: kind + fields."""
    __slots__ = ("k", "f", "line")

    def __init__(self, k, line=0, **f):
        self.k, self.f, self.line = k, f, line

    def __getattr__(self, a):
        try:
            return self.f[a]
        except KeyError:
            raise AttributeError(f"{self.k}.{a}")

    def __repr__(self):
        return f"{self.k}({', '.join(f'{a}={b!r}' for a, b in self.f.items())})"


class Func:
    def __init__(self, name, args, body, module, cls=None, line=0, decorators=(), locals_=None, kind="def", ret=None,
                 star=None, starstar=None):
        self.name, self.args, self.body, self.module, self.cls = name, args, body, module, cls
        self.line, self.decorators, self.kind, self.ret = line, decorators, kind, ret
        self.star, self.starstar = star, starstar

    @property
    def qualname(self):
        return f"{self.cls.name}.{self.name}" if self.cls else self.name

    def __repr__(self):
        return f"<Func {self.module}:{self.qualname}>"


class Class:
    def __init__(self, name, bases, module, line=0):
        self.name, self.bases, self.module, self.line = name, bases, module, line
        self.attrs = {}      # name -> type string
        self.methods = {}    # name -> Func
        self.props = {}      # name -> {'get': Func, 'set': Func}
        self.consts = {}     # class-level assignments

    def __repr__(self):
        return f"<Class {self.name}>"


class Module:
    def __init__(self, name, path):
        self.name, self.path = name, path
        self.classes, self.funcs, self.globals, self.imports = {}, {}, {}, {}
        self.enums = {}
        self.source = ""


class FrontError(Exception):
    pass


_BIN = {"AddNode": "+", "SubNode": "-", "MulNode": "*", "DivNode": None, "ModNode": "%", "PowNode": "**",
        "IntBinopNode": None, "BitwiseOrNode": "|", "BitwiseAndNode": "&", "BitwiseXorNode": "^"}


def typ_str(bt, decl=None):
    """A short string for a declared C type: 'double', 'int', 'double[1]' (memoryview), 'Node', 'object', 'int*'."""
    t = "object"
    if bt is None:
        t = "object"
    elif isinstance(bt, Nodes.CSimpleBaseTypeNode):
        if bt.name is None:
            t = "object"
        elif bt.module_path and bt.module_path[0] in ("np", "numpy"):
            t = bt.name if not bt.name.startswith("ndarray") else "object"
        else:
            t = bt.name
            if bt.is_basic_c_type and t in ("long", "short", "size_t", "Py_ssize_t", "char"):
                t = "int" if t != "char" else "char"
        if t in ("uint8", "int32", "uint32", "short", "Py_ssize_t", "size_t", "uint8_t", "uint32_t", "int32_t", "int64_t", "long", "MYBOOL", "intp_t"):
            t = "int"
        if t in ("float64_t", "float", "REAL"):
            t = "double"
    elif isinstance(bt, Nodes.MemoryViewSliceTypeNode):
        t = typ_str(bt.base_type_node) + "[%d]" % len(bt.axes)
    elif isinstance(bt, Nodes.TemplatedTypeNode):
        t = "object"
    elif isinstance(bt, Nodes.CConstOrVolatileTypeNode if hasattr(Nodes, "CConstOrVolatileTypeNode") else ()):
        t = typ_str(bt.base_type)
    elif hasattr(bt, "base_type"):
        t = typ_str(bt.base_type)
    if decl is not None and isinstance(decl, Nodes.CPtrDeclaratorNode):
        t += "*"
    return t


class Conv:
    def __init__(self, mod):
        self.mod = mod

    # ---- expressions -------------------------------------------------------------------------------------------
    def e(self, n):
        if n is None:
            return None
        m = getattr(self, "e_" + type(n).__name__, None)
        line = n.pos[1] if n.pos else 0
        if m is None:
            t = type(n).__name__
            if t in _BIN:
                op = _BIN[t] or n.operator
                return N("bin", line, op=op, a=self.e(n.operand1), b=self.e(n.operand2))
            return N("unsupported", line, what=t)
        r = m(n)
        r.line = line
        return r

    def e_NameNode(self, n): return N("name", id=str(n.name))
    def e_IntNode(self, n):
        v = n.value
        return N("const", v=int(str(v), 0), t="int")
    def e_FloatNode(self, n): return N("const", v=float(n.value), s=str(n.value), t="double")
    def e_UnicodeNode(self, n): return N("const", v=str(n.value), t="str")
    def e_BytesNode(self, n): return N("const", v=bytes(n.value), t="bytes")
    def e_IdentifierStringNode(self, n): return N("const", v=str(n.value), t="str")
    def e_StringNode(self, n): return N("const", v=str(n.value), t="str")
    def e_BoolNode(self, n): return N("const", v=bool(n.value), t="bool")
    def e_NoneNode(self, n): return N("const", v=None, t="none")
    def e_NullNode(self, n): return N("const", v=None, t="none")
    def e_EllipsisNode(self, n): return N("const", v=Ellipsis, t="ellipsis")
    def e_AttributeNode(self, n): return N("attr", o=self.e(n.obj), a=MANGLED.sub(r"\1", str(n.attribute)))
    def e_IndexNode(self, n): return N("index", o=self.e(n.base), i=self.e(n.index))
    def e_SliceIndexNode(self, n):
        return N("index", o=self.e(n.base), i=N("slice", lo=self.e(n.start), hi=self.e(n.stop), st=None))
    def e_SliceNode(self, n):
        f = lambda x: None if x is None or isinstance(x, ExprNodes.NoneNode) else self.e(x)
        return N("slice", lo=f(n.start), hi=f(n.stop), st=f(n.step))
    def e_SimpleCallNode(self, n):
        return N("call", fn=self.e(n.function), args=[self.e(a) for a in n.args], kw={}, star=None, dstar=None)
    def e_GeneralCallNode(self, n):
        star = None
        pa = n.positional_args
        if isinstance(pa, ExprNodes.TupleNode):
            args = [self.e(a) for a in pa.args]
        else:
            args, star = [], self.e(pa.arg if isinstance(pa, ExprNodes.AsTupleNode) else pa)
        kw, dstar = {}, None
        ka = n.keyword_args
        if isinstance(ka, ExprNodes.DictNode):
            for it in ka.key_value_pairs:
                kw[str(it.key.value)] = self.e(it.value)
        elif isinstance(ka, ExprNodes.MergedDictNode):
            for x in ka.keyword_args:
                if isinstance(x, ExprNodes.DictNode):
                    for it in x.key_value_pairs:
                        kw[str(it.key.value)] = self.e(it.value)
                else:
                    dstar = self.e(x)
        elif ka is not None:
            dstar = self.e(ka)
        return N("call", fn=self.e(n.function), args=args, kw=kw, star=star, dstar=dstar)
    def e_PrimaryCmpNode(self, n):
        ops, vals = [str(n.operator)], [self.e(n.operand1), self.e(n.operand2)]
        c = n.cascade
        while c is not None:
            ops.append(str(c.operator)); vals.append(self.e(c.operand2)); c = c.cascade
        return N("cmp", ops=ops, vals=vals)
    def e_BoolBinopNode(self, n): return N("bool", op=n.operator, a=self.e(n.operand1), b=self.e(n.operand2))
    def e_NotNode(self, n): return N("not", a=self.e(n.operand))
    def e_UnaryMinusNode(self, n): return N("neg", a=self.e(n.operand))
    def e_UnaryPlusNode(self, n): return self.e(n.operand)
    def e_TildeNode(self, n): return N("inv", a=self.e(n.operand))
    def e_CondExprNode(self, n): return N("ite", c=self.e(n.subexpr_nodes()[0]), a=self.e(n.true_val), b=self.e(n.false_val))
    def e_TupleNode(self, n): return N("tuple", items=[self.e(a) for a in n.args])
    def e_ListNode(self, n): return N("list", items=[self.e(a) for a in n.args])
    def e_SetNode(self, n): return N("list", items=[self.e(a) for a in n.args])
    def e_DictNode(self, n): return N("dict", items=[(self.e(i.key), self.e(i.value)) for i in n.key_value_pairs])
    def e_AsTupleNode(self, n): return self.e(n.arg)
    def e_TypecastNode(self, n): return N("cast", t=typ_str(n.base_type, n.declarator), a=self.e(n.operand))
    def e_AmpersandNode(self, n): return N("addr", a=self.e(n.operand))
    def e_JoinedStrNode(self, n): return N("const", v="<fstring>", t="str")
    def e_SizeofTypeNode(self, n): return N("sizeof", t=typ_str(n.base_type))
    def e_ComprehensionNode(self, n):
        return N("comp", ctype=n.type.name if n.type is not None else "list", loop=self.s(n.loop))
    def e_GeneratorExpressionNode(self, n): return N("comp", ctype="gen", loop=self.s(n.loop))
    def e_InlinedGeneratorExpressionNode(self, n): return N("comp", ctype="gen", loop=self.s(n.gen.loop))
    def e_LambdaNode(self, n):
        return N("lambda", args=[str(a.declarator.name) if hasattr(a, "declarator") and a.declarator.name else str(a.base_type.name) for a in n.args],
                 body=self.e(n.result_expr))
    def e_YieldExprNode(self, n): return N("yield", a=self.e(n.arg))
    def e_AssignmentExpressionNode(self, n): return N("unsupported", what="walrus")
    def e_StarredUnpackingNode(self, n): return N("unsupported", what="starred")
    def e_ImportNode(self, n): return N("import", m=str(n.module_name.value))

    # ---- statements --------------------------------------------------------------------------------------------
    def body(self, n):
        if n is None:
            return []
        if isinstance(n, Nodes.StatListNode):
            out = []
            for s in n.stats:
                out.extend(self.body(s))
            return out
        r = self.s(n)
        return [r] if r is not None else []

    def s(self, n):
        line = n.pos[1] if n.pos else 0
        m = getattr(self, "s_" + type(n).__name__, None)
        if m is None:
            if isinstance(n, ExprNodes.ExprNode):
                return N("expr", line, a=self.e(n))
            return N("unsupported", line, what=type(n).__name__)
        r = m(n)
        if r is not None:
            r.line = line
        return r

    def s_StatListNode(self, n): return N("block", body=self.body(n))
    def s_SingleAssignmentNode(self, n): return N("assign", targets=[self.e(n.lhs)], v=self.e(n.rhs))
    def s_CascadedAssignmentNode(self, n): return N("assign", targets=[self.e(x) for x in n.lhs_list], v=self.e(n.rhs))
    def s_InPlaceAssignmentNode(self, n): return N("aug", target=self.e(n.lhs), op=str(n.operator), v=self.e(n.rhs))
    def s_IfStatNode(self, n):
        els = self.body(n.else_clause)
        for c in reversed(n.if_clauses):
            els = [N("if", c.pos[1], c=self.e(c.condition), a=self.body(c.body), b=els)]
        return els[0]
    def s_ForInStatNode(self, n):
        return N("for", target=self.e(n.target), it=self.e(n.iterator.sequence), body=self.body(n.body),
                 els=self.body(n.else_clause))
    def s_ForFromStatNode(self, n): return N("unsupported", what="for-from")
    def s_WhileStatNode(self, n): return N("while", c=self.e(n.condition), body=self.body(n.body), els=self.body(n.else_clause))
    def s_ReturnStatNode(self, n): return N("return", v=self.e(n.value))
    def s_RaiseStatNode(self, n): return N("raise", v=self.e(n.exc_type))
    def s_ReraiseStatNode(self, n): return N("raise", v=None)
    def s_PassStatNode(self, n): return None
    def s_BreakStatNode(self, n): return N("break")
    def s_ContinueStatNode(self, n): return N("continue")
    def s_ExprStatNode(self, n): return N("expr", a=self.e(n.expr))
    def s_AssertStatNode(self, n): return N("assert", c=self.e(n.condition))
    def s_DelStatNode(self, n): return N("del", targets=[self.e(x) for x in n.args])
    def s_GlobalNode(self, n): return N("global", names=[str(x) for x in n.names])
    def s_WithStatNode(self, n): return N("unsupported", what="with")
    def s_TryExceptStatNode(self, n):
        hs = []
        for c in n.except_clauses:
            pats = []
            if c.pattern:
                for p in c.pattern:
                    pe = self.e(p)
                    pats.extend(pe.items if pe.k == "tuple" else [pe])
            hs.append((([p.id if p.k == "name" else (p.a if p.k == "attr" else "?") for p in pats] or None),
                       self.e(c.target) if c.target is not None else None, self.body(c.body)))
        return N("try", body=self.body(n.body), handlers=hs, els=self.body(n.else_clause), fin=[])
    def s_TryFinallyStatNode(self, n): return N("try", body=self.body(n.body), handlers=[], els=[], fin=self.body(n.finally_clause))
    def s_CVarDefNode(self, n):
        out = []
        for d in n.declarators:
            nm, dd = d, d
            if isinstance(d, Nodes.CFuncDeclaratorNode) or (hasattr(d, "base") and isinstance(d.base, Nodes.CFuncDeclaratorNode)):
                continue
            while not hasattr(nm, "name"):
                nm = nm.base
            dflt = getattr(nm, "default", None)
            out.append((str(nm.name), typ_str(n.base_type, dd), self.e(dflt) if dflt is not None else None))
        return N("cdef", vars=out)
    def s_FromImportStatNode(self, n):
        return N("fromimport", m=str(n.module.module_name.value), names=[(str(a), str(b.name)) for a, b in n.items])
    def s_FromCImportStatNode(self, n): return None
    def s_CImportStatNode(self, n): return None
    def s_ComprehensionAppendNode(self, n): return N("append", v=self.e(n.expr))
    def s_DictComprehensionAppendNode(self, n): return N("dappend", kk=self.e(n.dict_item.key), v=self.e(n.dict_item.value))
    def s_DefNode(self, n): return N("localdef", fn=self.func(n, None))

    # ---- definitions -------------------------------------------------------------------------------------------
    def func(self, n, cls):
        decs = []
        for d in (n.decorators or []):
            decs.append(self.e(d.decorator))
        args, ret, kind = [], None, "def"
        if isinstance(n, Nodes.CFuncDefNode):
            d = n.declarator
            while not isinstance(d, Nodes.CFuncDeclaratorNode):
                d = d.base
            nm = d.base
            while not hasattr(nm, "name"):
                nm = nm.base
            name = str(nm.name)
            ret = typ_str(n.base_type)
            kind = "cdef"
            alist = d.args
            star = starstar = None
        else:
            name = str(n.name)
            alist = n.args
            star = str(n.star_arg.name) if n.star_arg else None
            starstar = str(n.starstar_arg.name) if n.starstar_arg else None
        for a in alist:
            d = a.declarator
            while not hasattr(d, "name"):
                d = d.base
            an, at = str(d.name), typ_str(a.base_type, a.declarator)
            if an == "" or an is None:
                an, at = str(a.base_type.name), "object"
            args.append((an, at, self.e(a.default) if a.default is not None else None))
        return Func(name, args, self.body(n.body), self.mod.name, cls, n.pos[1], decs, kind=kind, ret=ret, star=star,
                    starstar=starstar)

    def klass(self, n):
        if isinstance(n, Nodes.CClassDefNode):
            name = str(n.class_name)
            bases = [b for b in (self.e(x) for x in (n.bases.args if n.bases else []))]
        else:
            name = str(n.name)
            b = n.bases
            bases = [self.e(x) for x in (b.args if isinstance(b, ExprNodes.TupleNode) else [])] if b is not None else []
        c = Class(name, [b.id if b.k == "name" else (b.a if b.k == "attr" else "?") for b in bases], self.mod.name, n.pos[1])
        body = n.body
        stats = body.stats if isinstance(body, Nodes.StatListNode) else ([body] if body else [])
        for s in stats:
            self.class_stat(c, s)
        return c

    def class_stat(self, c, s):
        if isinstance(s, Nodes.StatListNode):
            for x in s.stats:
                self.class_stat(c, x)
        elif isinstance(s, (Nodes.DefNode, Nodes.CFuncDefNode)):
            f = self.func(s, c)
            dn = [d.id if d.k == "name" else (d.a if d.k == "attr" else "") for d in f.decorators]
            if "property" in dn:
                c.props.setdefault(f.name, {})["get"] = f
            elif "setter" in dn:
                c.props.setdefault(f.name, {})["set"] = f
            else:
                c.methods[f.name] = f
        elif isinstance(s, Nodes.PropertyNode):
            p = c.props.setdefault(str(s.name), {})
            st = s.body.stats if isinstance(s.body, Nodes.StatListNode) else [s.body]
            for x in st:
                if isinstance(x, Nodes.DefNode):
                    p[{"__get__": "get", "__set__": "set"}.get(str(x.name), str(x.name))] = self.func(x, c)
        elif isinstance(s, Nodes.CVarDefNode):
            for nm, t, _ in self.s_CVarDefNode(s).vars:
                c.attrs[nm] = t
        elif isinstance(s, Nodes.SingleAssignmentNode):
            l = self.e(s.lhs)
            if l.k == "name":
                v = self.e(s.rhs)
                # the old idiom  def x(): def fget..; def fset..; return locals() ;  x = property(**x())
                if (v.k == "call" and v.fn.k == "name" and v.fn.id == "property" and v.dstar is not None
                        and l.id in c.methods):
                    f = c.methods.pop(l.id)
                    pr = c.props.setdefault(l.id, {})
                    for st in f.body:
                        if st.k == "localdef":
                            st.fn.cls = c
                            pr["get" if st.fn.name == "fget" else "set"] = st.fn
                else:
                    c.consts[l.id] = v

    def module(self, tree):
        m = self.mod
        def top(n):
            if isinstance(n, Nodes.StatListNode):
                for s in n.stats:
                    top(s)
            elif isinstance(n, (Nodes.CClassDefNode, Nodes.PyClassDefNode)):
                c = self.klass(n)
                if c.name in m.classes:      # forward declaration or pxd + pyx
                    o = m.classes[c.name]
                    o.attrs.update(c.attrs); o.methods.update({k: v for k, v in c.methods.items() if v.body or k not in o.methods})
                    o.props.update(c.props); o.consts.update(c.consts)
                    if c.bases: o.bases = c.bases
                    for f in list(c.methods.values()) + [x for p in c.props.values() for x in p.values()]:
                        f.cls = o
                else:
                    m.classes[c.name] = c
            elif isinstance(n, (Nodes.DefNode, Nodes.CFuncDefNode)):
                f = self.func(n, None)
                m.funcs[f.name] = f
            elif isinstance(n, Nodes.CEnumDefNode):
                nxt = 0
                for it in n.items:
                    v = self.e(it.value) if it.value is not None else None
                    val = v.v if (v is not None and v.k == "const") else nxt
                    nxt = val + 1
                    m.enums[str(it.name)] = val
                    if n.name:
                        m.enums[f"{n.name}.{it.name}"] = val
            elif isinstance(n, Nodes.SingleAssignmentNode):
                l = self.e(n.lhs)
                if l.k == "name":
                    m.globals[l.id] = self.e(n.rhs)
            elif isinstance(n, Nodes.CVarDefNode):
                for nm, t, d in self.s_CVarDefNode(n).vars:
                    if d is not None:
                        m.globals[nm] = d
            elif isinstance(n, Nodes.FromImportStatNode):
                st = self.s_FromImportStatNode(n)
                for a, b in st.names:
                    m.imports[b] = (st.m, a)
            elif isinstance(n, Nodes.IfStatNode):
                for c in n.if_clauses:
                    top(c.body)
                if n.else_clause is not None:
                    top(n.else_clause)
            elif isinstance(n, Nodes.CDefExternNode):
                top(n.body)
            elif isinstance(n, Nodes.TryExceptStatNode):
                top(n.body)
        top(tree.body)
        return m


def parse_text(code, pxd):
    Errors.init_thread()
    ctx = StringParseContext("m")
    ctx.set_language_level(3)
    src = StringSourceDescriptor("m", code)
    sc = PyrexScanner(StringIO(code), src, source_encoding="UTF-8",
                      scope=ctx.find_module("m", pos=(src, 1, 0), need_pxd=False), context=ctx, initial_pos=(src, 1, 0))
    return Parsing.p_module(sc, pxd, "m")


class Program:
    """All parsed modules of the working tree."""

    def __init__(self, root="/repo"):
        self.root = root
        self.modules = {}
        self.errors = {}
        files = []
        for ext in ("*.pxd", "*.pyx", "*.py"):
            files += sorted(glob.glob(os.path.join(root, "pywr", "**", ext), recursive=True))
        self.digest = hashlib.sha256()
        order = {".pxd": 0, ".pyx": 1, ".py": 2}
        for p in files:
            if "/notebook/" in p:
                continue
            rel = os.path.relpath(p, root)
            base, ext = os.path.splitext(rel)
            name = base.replace("/", ".")
            text = open(p, encoding="utf8").read()
            self.digest.update(rel.encode() + b"\0" + text.encode() + b"\0")
            m = self.modules.get(name)
            if m is None:
                m = self.modules[name] = Module(name, rel)
            if ext != ".pxd":
                m.path = rel
                m.source = text
            try:
                Conv(m).module(parse_text(text, ext == ".pxd"))
            except Exception as ex:  # a file that cannot be parsed is reported, never guessed at
                self.errors[rel] = repr(ex)
        self.classes = {}
        for m in self.modules.values():
            for c in m.classes.values():
                self.classes.setdefault(c.name, []).append(c)

    # ---- name resolution ---------------------------------------------------------------------------------------
    def find_class(self, name, module=None):
        if module and module in self.modules and name in self.modules[module].classes:
            return self.modules[module].classes[name]
        if module and module in self.modules:
            imp = self.modules[module].imports.get(name)
            if imp and imp[1] != name:        # imported under another name
                tail = imp[0].lstrip(".").split(".")[-1]
                for c in self.classes.get(imp[1], []):
                    if c.module.split(".")[-1] == tail: return c
        cs = self.classes.get(name, [])
        if not cs:
            return None
        if module and module in self.modules:
            imp = self.modules[module].imports.get(name)
            if imp:
                tail = imp[0].lstrip(".").split(".")[-1]
                for c in cs:
                    if c.module.split(".")[-1] == tail:
                        return c
        # nodes.Storage shadows _core.Storage for Python users; inside the Cython modules the _core one is meant
        for c in cs:
            if c.module == "pywr._core":
                return c
        return cs[0]

    def base_of(self, cls, bname):
        if bname == "BaseNode":
            return self.find_class("Node", "pywr._core")
        if bname == cls.name:   # class Storage(..., _core.Storage)
            return self.find_class(bname, "pywr._core")
        return self.find_class(bname, cls.module)

    def mro(self, cls):
        """C3 would be exact; the repository's hierarchies are resolved by depth-first with late duplicates kept."""
        out = []
        def go(c):
            seqs = [c]
            for b in c.bases:
                bc = self.base_of(c, b)
                if bc is not None and bc is not c:
                    seqs += go(bc)
            return seqs
        lst = go(cls)
        for i, c in enumerate(lst):
            if c not in lst[i + 1:]:
                out.append(c)
        return out

    def lookup_method(self, cls, name, after=None):
        ms = self.mro(cls)
        if after is not None:
            ms = ms[ms.index(after) + 1:] if after in ms else ms
        for c in ms:
            if name in c.methods:
                return c.methods[name]
        return None

    def lookup_prop(self, cls, name):
        for c in self.mro(cls):
            if name in c.props:
                return c.props[name]
            if name in c.methods or name in c.attrs:
                return None
        return None

    def lookup_attr(self, cls, name):
        for c in self.mro(cls):
            if name in c.attrs:
                return c.attrs[name], c
        return None

    def func(self, spec):
        """'pywr._core:Storage.after' -> Func"""
        mod, q = spec.split(":")
        m = self.modules.get(mod)
        if m is None:
            return None
        if "." in q:
            c, f = q.split(".", 1)
            cl = m.classes.get(c)
            if cl is None:
                return None
            if f.endswith((".get", ".set")):
                for k in self.mro(cl):
                    pr = k.props.get(f[:-4])
                    if pr and pr.get(f[-3:]): return pr.get(f[-3:])
                return None
            for k in self.mro(cl):
                if f in k.methods: return k.methods[f]
            return None
        return m.funcs.get(q)


if __name__ == "__main__":
    import time
    t = time.time()
    P = Program()
    print(len(P.modules), P.errors, time.time() - t)
    c = P.find_class("Storage", "pywr._core")
    print(c, c.attrs, [x.name for x in P.mro(P.modules["pywr.nodes"].classes["SeasonalVirtualStorage"])])
    f = P.func("pywr._core:Storage.after")
    for s in f.body: print(s)
