"""Front end for Cython sources: parse a .pyx with Cython's own parser and
convert the (untransformed) tree into a plain Python ``ast.Module``.

C types, casts and cimports carry no behaviour the rules look at: casts are
dropped, ``cdef`` functions and classes become ordinary ones (a ``cdef`` marker
is kept as ``node.xs_kind``), typed locals without an initialiser vanish.
"""

import ast
import io

from Cython.Compiler import Errors, Parsing
from Cython.Compiler.Scanning import PyrexScanner, StringSourceDescriptor
from Cython.Compiler.TreeFragment import StringParseContext


class PyxError(Exception):
    pass


_BIN = {
    "+": ast.Add, "-": ast.Sub, "*": ast.Mult, "/": ast.Div, "//": ast.FloorDiv,
    "%": ast.Mod, "**": ast.Pow, "<<": ast.LShift, ">>": ast.RShift,
    "|": ast.BitOr, "&": ast.BitAnd, "^": ast.BitXor, "@": ast.MatMult,
}
_CMP = {
    "==": ast.Eq, "!=": ast.NotEq, "<": ast.Lt, "<=": ast.LtE, ">": ast.Gt,
    ">=": ast.GtE, "is": ast.Is, "is_not": ast.IsNot, "in": ast.In,
    "not_in": ast.NotIn, "is not": ast.IsNot, "not in": ast.NotIn,
}


def parse_pyx(path: str, src: str) -> ast.Module:
    Errors.init_thread()
    ctx = StringParseContext("m")
    desc = StringSourceDescriptor(path, src)
    scope = ctx.find_module("m", pos=(desc, 1, 0), need_pxd=False)
    scanner = PyrexScanner(
        io.StringIO(src), desc, source_encoding="UTF-8", scope=scope,
        context=ctx, initial_pos=(desc, 1, 0),
    )
    tree = Parsing.p_module(scanner, False, "m")
    mod = ast.Module(body=_Conv().stmts(tree.body), type_ignores=[])
    ast.fix_missing_locations(mod)
    return mod


def _dec(v):
    if isinstance(v, bytes):
        return v.decode("latin1")
    return str(v)


class _Conv:
    def __init__(self):
        self.pos = (1, 0)

    # -- helpers
    def loc(self, new, old):
        pos = getattr(old, "pos", None)
        if pos:
            self.pos = (pos[1], pos[2])
        new.lineno, new.col_offset = self.pos
        new.end_lineno, new.end_col_offset = self.pos
        return new

    def stmts(self, n):
        if n is None:
            return []
        k = type(n).__name__
        if k in ("StatListNode", "CDefExternNode"):
            out = []
            for s in getattr(n, "stats", None) or []:
                out.extend(self.stmts(s))
            return out
        f = getattr(self, "s_" + k, None)
        if f is None:
            raise PyxError(f"unsupported Cython statement {k} at {n.pos[1:]}")
        r = f(n)
        if r is None:
            return []
        if not isinstance(r, list):
            r = [r]
        for x in r:
            if not hasattr(x, "lineno"):
                self.loc(x, n)
        return r

    def body(self, n):
        return self.stmts(n) or [self.loc(ast.Pass(), n) if n is not None else ast.Pass()]

    def e(self, n):
        if n is None:
            return None
        k = type(n).__name__
        f = getattr(self, "e_" + k, None)
        if f is None:
            op = getattr(n, "operator", None)
            if op in _BIN and hasattr(n, "operand2"):
                return self.loc(
                    ast.BinOp(self.e(n.operand1), _BIN[op](), self.e(n.operand2)), n
                )
            raise PyxError(f"unsupported Cython expression {k} at {n.pos[1:]}")
        r = f(n)
        self.loc(r, n)
        return r

    def store(self, x):
        if isinstance(x, (ast.Name, ast.Attribute, ast.Subscript, ast.Starred)):
            x.ctx = ast.Store()
            if isinstance(x, ast.Starred):
                self.store(x.value)
        elif isinstance(x, (ast.Tuple, ast.List)):
            x.ctx = ast.Store()
            for y in x.elts:
                self.store(y)
        return x

    # -- statements
    def s_PassStatNode(self, n):
        return ast.Pass()

    def s_CTypeDefNode(self, n):
        return None

    s_CEnumDefNode = s_CStructOrUnionDefNode = s_CTypeDefNode

    def s_BreakStatNode(self, n):
        return ast.Break()

    def s_ContinueStatNode(self, n):
        return ast.Continue()

    def s_ExprStatNode(self, n):
        return ast.Expr(self.e(n.expr))

    def s_GlobalNode(self, n):
        return ast.Global([str(x) for x in n.names])

    def s_NonlocalNode(self, n):
        return ast.Nonlocal([str(x) for x in n.names])

    def s_ReturnStatNode(self, n):
        return ast.Return(self.e(n.value))

    def s_SingleAssignmentNode(self, n):
        rhs = n.rhs
        if type(rhs).__name__ == "ImportNode":
            return self._import(n.lhs, rhs)
        if type(rhs).__name__ == "LambdaNode" and getattr(rhs, "def_node", None):
            pass
        return ast.Assign([self.store(self.e(n.lhs))], self.e(rhs))

    def _import(self, lhs, imp):
        mod = _dec(imp.module_name.value)
        name = str(lhs.name)
        if getattr(imp, "is_import_as_name", False) or "." in mod and getattr(imp, "get_top_level_module", True) is False:
            return ast.Import([ast.alias(mod, name)])
        top = mod.split(".")[0]
        return ast.Import([ast.alias(mod, None if name == top else name)])

    def s_CascadedAssignmentNode(self, n):
        return ast.Assign([self.store(self.e(x)) for x in n.lhs_list], self.e(n.rhs))

    def s_InPlaceAssignmentNode(self, n):
        return ast.AugAssign(self.store(self.e(n.lhs)), _BIN[n.operator](), self.e(n.rhs))

    def s_DelStatNode(self, n):
        t = []
        for a in n.args:
            x = self.e(a)
            x.ctx = ast.Del()
            t.append(x)
        return ast.Delete(t)

    def s_FromImportStatNode(self, n):
        imp = n.module
        mod = _dec(imp.module_name.value) if imp.module_name is not None else ""
        level = imp.level
        level = int(level) if isinstance(level, int) and level > 0 else 0
        names = []
        for name, target in n.items:
            nm = str(name)
            tn = str(getattr(target, "name", nm))
            names.append(ast.alias(nm, None if tn == nm else tn))
        stripped = mod.lstrip(".")
        level = max(level, len(mod) - len(stripped))
        return ast.ImportFrom(stripped or None, names, level)

    def s_FromCImportStatNode(self, n):
        names = []
        for item in n.imported_names:
            nm, asn = str(item[1]), item[2]
            names.append(ast.alias(nm, str(asn) if asn and str(asn) != nm else None))
        lvl = n.relative_level if n.relative_level and n.relative_level > 0 else 0
        r = ast.ImportFrom(str(n.module_name) or None, names, lvl)
        r.xs_cimport = True
        return r

    def s_CImportStatNode(self, n):
        r = ast.Import([ast.alias(str(n.module_name), str(n.as_name) if n.as_name else None)])
        r.xs_cimport = True
        return r

    def s_CVarDefNode(self, n):
        out = []
        for d in n.declarators:
            size = None
            while d is not None and not hasattr(d, "name"):
                size = getattr(d, "dimension", None)
                d = d.base
            default = getattr(d, "default", None)
            if size is not None:
                call = ast.Call(self.loc(self.cname("__carray__"), n), [self.e(size), self.loc(ast.Constant(str(getattr(n.base_type, "name", "?"))), n)], [])
                a = ast.Assign([self.loc(ast.Name(str(d.name), ast.Store()), n)], self.loc(call, n))
                a.xs_type = None
                out.append(self.loc(a, n))
            elif default is not None:
                a = ast.Assign(
                    [self.loc(ast.Name(str(d.name), ast.Store()), n)], self.e(default)
                )
                tn = getattr(n.base_type, "name", None)
                a.xs_type = str(tn) if tn else None
                out.append(self.loc(a, n))
            else:
                tn = getattr(n.base_type, "name", None) or getattr(getattr(n.base_type, "base_type_node", None), "name", None)
                if tn and getattr(n, "visibility", "") != "extern":
                    # a typed declaration: keep as a bare annotation
                    a = ast.AnnAssign(
                        self.loc(ast.Name(str(d.name), ast.Store()), n),
                        self.loc(ast.Name(str(tn), ast.Load()), n), None, 1)
                    out.append(self.loc(a, n))
        return out

    def s_AssertStatNode(self, n):
        cond = getattr(n, "condition", None)
        msg = getattr(n, "value", None)
        return ast.Assert(self.e(cond), self.e(msg) if msg is not None else None)

    def s_RaiseStatNode(self, n):
        return ast.Raise(self.e(n.exc_type), self.e(n.cause) if n.cause else None)

    def s_ReraiseStatNode(self, n):
        return ast.Raise(None, None)

    def s_IfStatNode(self, n):
        orelse = self.stmts(n.else_clause)
        cur = orelse
        for c in reversed(n.if_clauses):
            node = self.loc(ast.If(self.e(c.condition), self.body(c.body), cur), c)
            cur = [node]
        return cur

    def s_WhileStatNode(self, n):
        return ast.While(self.e(n.condition), self.body(n.body), self.stmts(n.else_clause))

    def _iter(self, it):
        return self.e(it.sequence)

    def s_ForInStatNode(self, n):
        cls = ast.AsyncFor if getattr(n, "is_async", False) or "Async" in type(n.iterator).__name__ else ast.For
        return cls(self.store(self.e(n.target)), self._iter(n.iterator), self.body(n.body), self.stmts(n.else_clause))

    s_AsyncForStatNode = s_ForInStatNode

    def s_ForFromStatNode(self, n):
        raise PyxError("for-from loop")

    def s_WithStatNode(self, n):
        item = ast.withitem(self.e(n.manager), self.store(self.e(n.target)) if n.target is not None else None)
        cls = ast.AsyncWith if getattr(n, "is_async", False) else ast.With
        return cls([item], self.body(n.body))

    def s_GILStatNode(self, n):
        return self.stmts(n.body)

    def s_TryExceptStatNode(self, n):
        hs = []
        for c in n.except_clauses:
            pat = c.pattern
            if not pat:
                t = None
            elif len(pat) == 1:
                t = self.e(pat[0])
            else:
                t = self.loc(ast.Tuple([self.e(p) for p in pat], ast.Load()), c)
            nm = str(c.target.name) if c.target is not None else None
            hs.append(self.loc(ast.ExceptHandler(t, nm, self.body(c.body)), c))
        return ast.Try(self.body(n.body), hs, self.stmts(n.else_clause), [])

    def s_TryFinallyStatNode(self, n):
        body = self.body(n.body)
        fin = self.body(n.finally_clause)
        if len(body) == 1 and isinstance(body[0], ast.Try) and not body[0].finalbody:
            t = body[0]
            t.finalbody = fin
            return t
        return ast.Try(body, [], [], fin)

    def _args(self, args, star, starstar):
        pos, defaults, kwonly, kwdef = [], [], [], []
        for a in args:
            arg, default = self._arg(a)
            if getattr(a, "kw_only", 0):
                kwonly.append(arg)
                kwdef.append(default)
            else:
                pos.append(arg)
                if default is not None:
                    defaults.append(default)
        va = self.loc(ast.arg(str(star.name), None), star) if star is not None else None
        kw = self.loc(ast.arg(str(starstar.name), None), starstar) if starstar is not None else None
        return ast.arguments([], pos, va, kwonly, kwdef, kw, defaults)

    def _arg(self, a):
        d = a.declarator
        while d is not None and not hasattr(d, "name"):
            d = d.base
        name = str(d.name) if d is not None and d.name else ""
        ann = None
        if not name:
            name = str(getattr(a.base_type, "name", "_"))
        else:
            tn = getattr(a.base_type, "name", None)
            if tn:
                ann = self.loc(ast.Name(str(tn), ast.Load()), a)
        if getattr(a, "annotation", None) is not None:
            try:
                ann = self.e(a.annotation.expr)
            except (PyxError, AttributeError):
                pass
        default = a.default
        if default is None and d is not None:
            default = getattr(d, "default", None)
        dflt = self.e(default) if default is not None else None
        return self.loc(ast.arg(name, ann), a), dflt

    def _decorators(self, n):
        return [self.e(d.decorator) for d in (getattr(n, "decorators", None) or [])]

    def s_DefNode(self, n):
        args = self._args(n.args, n.star_arg, n.starstar_arg)
        decs = self._decorators(n)
        cls = ast.AsyncFunctionDef if n.is_async_def else ast.FunctionDef
        f = self.loc(cls(str(n.name), args, self.body(n.body), decs, None), n)
        f.type_params = []
        f.lineno, f.col_offset = n.pos[1], n.pos[2]
        f.xs_kind = "def"
        return f

    def s_CFuncDefNode(self, n):
        d = n.declarator
        while type(d).__name__ != "CFuncDeclaratorNode":
            d = d.base
        name = d.base
        while not hasattr(name, "name"):
            name = name.base
        args = self._args(d.args, None, None)
        f = self.loc(ast.FunctionDef(str(name.name), args, self.body(n.body), self._decorators(n), None), n)
        f.type_params = []
        f.lineno, f.col_offset = n.pos[1], n.pos[2]
        f.xs_kind = "cpdef" if n.overridable else "cdef"
        tn = getattr(n.base_type, "name", None)
        f.xs_ret = str(tn) if tn else None
        return f

    def s_CClassDefNode(self, n):
        bases = [self.e(b) for b in (n.bases.args if n.bases is not None else [])]
        c = self.loc(ast.ClassDef(str(n.class_name), bases, [], self.body(n.body) if n.body else [ast.Pass()], self._decorators(n)), n)
        c.type_params = []
        c.xs_kind = "cdef"
        c.lineno = n.pos[1]
        return c

    def s_PyClassDefNode(self, n):
        bases = n.bases
        if bases is None and getattr(n, "classobj", None) is not None:
            bases = getattr(n.classobj, "bases", None)
        blist = [self.e(b) for b in (getattr(bases, "args", None) or [])] if bases is not None else []
        c = self.loc(ast.ClassDef(str(n.name), blist, [], self.body(n.body), self._decorators(n)), n)
        c.type_params = []
        c.xs_kind = "py"
        c.lineno = n.pos[1]
        return c

    # -- expressions
    def e_NameNode(self, n):
        # Cython's names for the text type
        name = {"unicode": "str", "basestring": "str"}.get(str(n.name), str(n.name))
        return ast.Name(name, ast.Load())

    def e_AttributeNode(self, n):
        return ast.Attribute(self.e(n.obj), str(n.attribute), ast.Load())

    def e_IndexNode(self, n):
        return ast.Subscript(self.e(n.base), self.e(n.index), ast.Load())

    def e_SliceIndexNode(self, n):
        return ast.Subscript(
            self.e(n.base),
            self.loc(ast.Slice(self.e(n.start), self.e(n.stop), None), n), ast.Load())

    def e_SliceNode(self, n):
        def f(x):
            return None if x is None or type(x).__name__ == "NoneNode" else self.e(x)
        return ast.Slice(f(n.start), f(n.stop), f(n.step))

    def e_SimpleCallNode(self, n):
        return ast.Call(self.e(n.function), [self.e(a) for a in n.args], [])

    def e_GeneralCallNode(self, n):
        args = self._posargs(n.positional_args)
        kws = self._kwargs(n.keyword_args)
        return ast.Call(self.e(n.function), args, kws)

    def _posargs(self, p):
        k = type(p).__name__
        if k in ("TupleNode", "ListNode"):
            return [self.e(a) for a in p.args]
        if k == "AsTupleNode":
            inner = p.arg
            if type(inner).__name__ == "MergedSequenceNode":
                return self._posargs(inner)
            return [self.loc(ast.Starred(self.e(inner), ast.Load()), p)]
        if k == "MergedSequenceNode":
            out = []
            for a in p.args:
                if type(a).__name__ in ("TupleNode", "ListNode"):
                    out += [self.e(x) for x in a.args]
                else:
                    x = a.arg if type(a).__name__ == "AsTupleNode" else a
                    out.append(self.loc(ast.Starred(self.e(x), ast.Load()), p))
            return out
        if k == "BinopNode" or getattr(p, "operator", None) == "+":
            return self._posargs(p.operand1) + self._posargs(p.operand2)
        return [self.loc(ast.Starred(self.e(p), ast.Load()), p)]

    def _kwargs(self, k):
        if k is None:
            return []
        t = type(k).__name__
        if t == "DictNode":
            out = []
            for it in k.key_value_pairs:
                out.append(self.loc(ast.keyword(_dec(it.key.value), self.e(it.value)), it))
            return out
        if t == "MergedDictNode":
            out = []
            for x in k.keyword_args:
                out += self._kwargs(x)
            return out
        return [self.loc(ast.keyword(None, self.e(k)), k)]

    def e_TupleNode(self, n):
        return ast.Tuple([self.e(a) for a in n.args], ast.Load())

    def e_ListNode(self, n):
        return ast.List([self.e(a) for a in n.args], ast.Load())

    def e_SetNode(self, n):
        return ast.Set([self.e(a) for a in n.args])

    def e_AsTupleNode(self, n):
        return ast.Call(self.loc(ast.Name("tuple", ast.Load()), n), [self.e(n.arg)], [])

    def e_MergedSequenceNode(self, n):
        out = self._posargs(n)
        return ast.List(out, ast.Load())

    def e_StarredUnpackingNode(self, n):
        return ast.Starred(self.e(n.target), ast.Load())

    def e_DictNode(self, n):
        return ast.Dict([self.e(i.key) for i in n.key_value_pairs], [self.e(i.value) for i in n.key_value_pairs])

    def e_MergedDictNode(self, n):
        keys, vals = [], []
        for x in n.keyword_args:
            if type(x).__name__ == "DictNode":
                for i in x.key_value_pairs:
                    keys.append(self.e(i.key))
                    vals.append(self.e(i.value))
            else:
                keys.append(None)
                vals.append(self.e(x))
        return ast.Dict(keys, vals)

    def e_CondExprNode(self, n):
        return ast.IfExp(self.e(getattr(n, "test", None) or n.condition), self.e(n.true_val), self.e(n.false_val))

    def e_BoolBinopNode(self, n):
        op = ast.And() if n.operator == "and" else ast.Or()
        return ast.BoolOp(op, [self.e(n.operand1), self.e(n.operand2)])

    def e_NotNode(self, n):
        return ast.UnaryOp(ast.Not(), self.e(n.operand))

    def e_PrimaryCmpNode(self, n):
        ops, comps = [], []
        left = self.e(n.operand1)
        cur = n
        while cur is not None:
            ops.append(_CMP[cur.operator]())
            comps.append(self.e(cur.operand2))
            cur = cur.cascade
        return ast.Compare(left, ops, comps)

    def cname(self, name):
        return ast.Name(name, ast.Load())

    def e_TypecastNode(self, n):
        x = self.e(n.operand)
        if type(n.declarator).__name__ == "CPtrDeclaratorNode":
            # a view of memory, with the elements of this type
            return ast.Call(self.loc(self.cname("__ptr__"), n), [self.loc(ast.Constant(str(getattr(n.base_type, "name", "?"))), n), x], [])
        return x

    def e_UnaryMinusNode(self, n):
        return ast.UnaryOp(ast.USub(), self.e(n.operand))

    def e_TildeNode(self, n):
        return ast.UnaryOp(ast.Invert(), self.e(n.operand))

    def e_AmpersandNode(self, n):
        x = self.e(n.operand)
        if isinstance(x, ast.Subscript):
            return ast.Call(self.loc(self.cname("__addr__"), n), [x.value, x.slice], [])
        return x

    def e_JoinedStrNode(self, n):
        return ast.JoinedStr([self.e(v) for v in n.values])

    def e_FormattedValueNode(self, n):
        return ast.FormattedValue(self.e(n.value), -1, None)

    def e_IntNode(self, n):
        s = str(n.value).rstrip("uUlL")
        return ast.Constant(int(s, 0))

    def e_FloatNode(self, n):
        return ast.Constant(float(n.value))

    def e_UnicodeNode(self, n):
        return ast.Constant(str(n.value))

    e_IdentifierStringNode = e_StringNode = e_UnicodeNode

    def e_BytesNode(self, n):
        v = n.value
        return ast.Constant(bytes(v, "latin1") if isinstance(v, str) else bytes(v))

    def e_BoolNode(self, n):
        return ast.Constant(bool(n.value))

    def e_NoneNode(self, n):
        return ast.Constant(None)

    def e_EllipsisNode(self, n):
        return ast.Constant(Ellipsis)

    def e_LambdaNode(self, n):
        body = n.result_expr
        return ast.Lambda(self._args(n.args, n.star_arg, n.starstar_arg), self.e(body))

    def e_AwaitExprNode(self, n):
        return ast.Await(self.e(n.arg))

    def e_YieldExprNode(self, n):
        return ast.Yield(self.e(n.arg))

    def e_YieldFromExprNode(self, n):
        return ast.YieldFrom(self.e(n.arg))

    def e_AssignmentExpressionNode(self, n):
        return ast.NamedExpr(self.store(self.e(n.lhs)), self.e(n.rhs))

    def _comp_loop(self, loop):
        gens = []
        cur = loop
        elt = None
        ifs = None
        while True:
            k = type(cur).__name__
            if k in ("ForInStatNode", "AsyncForStatNode"):
                ifs = []
                g = ast.comprehension(self.store(self.e(cur.target)), self._iter(cur.iterator), ifs, 0)
                gens.append(g)
                cur = cur.body
            elif k == "IfStatNode":
                ifs.append(self.e(cur.if_clauses[0].condition))
                cur = cur.if_clauses[0].body
            elif k == "StatListNode":
                cur = cur.stats[0]
            elif k == "ExprStatNode":
                cur = cur.expr
            elif k == "ComprehensionAppendNode":
                elt = (self.e(cur.expr),)
                break
            elif k == "DictComprehensionAppendNode":
                elt = (self.e(cur.key_expr), self.e(cur.value_expr))
                break
            elif k == "YieldExprNode":
                elt = (self.e(cur.arg),)
                break
            else:
                raise PyxError(f"comprehension part {k}")
        return gens, elt

    def e_ComprehensionNode(self, n):
        gens, elt = self._comp_loop(n.loop)
        if len(elt) == 2:
            return ast.DictComp(elt[0], elt[1], gens)
        tn = str(getattr(n.type, "name", "list"))
        if "set" in tn:
            return ast.SetComp(elt[0], gens)
        if "dict" in tn:
            return ast.DictComp(elt[0].elts[0], elt[0].elts[1], gens)
        return ast.ListComp(elt[0], gens)

    def e_GeneratorExpressionNode(self, n):
        gens, elt = self._comp_loop(n.loop)
        return ast.GeneratorExp(elt[0], gens)

    e_InlinedGeneratorExpressionNode = e_GeneratorExpressionNode

    def e_SizeofVarNode(self, n):
        return ast.Constant(0)

    e_SizeofTypeNode = e_SizeofVarNode

    def e_ImportNode(self, n):
        return ast.Call(ast.Name("__import__", ast.Load()), [ast.Constant(_dec(n.module_name.value))], [])
