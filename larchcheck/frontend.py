"""Front end: one IR (Python's own ``ast``) for .py and .pyx sources.

Python files are parsed with the standard ``ast`` module.  Cython files are
parsed with the parser of the installed Cython (the one the build uses) and
its tree is translated, node by node, to ``ast`` nodes.  Nothing is imported
from /repo and nothing of it is executed.

Conventions of the translation
  cdef T x = v            ->  AnnAssign(Name x, Constant 'T', v)
  cdef T f(T a)           ->  FunctionDef, annotations hold the C type as text
  &x, <T>x, sizeof(T)     ->  __addr__(x), __cast__('T', x), sizeof('T')
  with nogil / with gil   ->  With(Name nogil / gil)
  IF NAME: / ELSE:        ->  resolved at parse time, as the compiler does
"""
import ast
import os


class FrontendError(Exception):
    pass


_ctx = None


def _cython_parse(path, modname):
    global _ctx
    from Cython.Compiler import Main, Errors
    from Cython.Compiler.Scanning import FileSourceDescriptor
    opts = Main.CompilationOptions(Main.default_options, language_level=3)
    ctx = opts.create_context()
    sd = FileSourceDescriptor(path)
    scope = ctx.find_module(modname, pos=(sd, 1, 0), need_pxd=0)
    tree = ctx.parse(sd, scope, pxd=0, full_module_name=modname)
    return tree, scope


# ---------------------------------------------------------------- types
def _ctype(base, decl=None):
    """Text of a C base type plus declarator."""
    n = type(base).__name__
    if n == 'CSimpleBaseTypeNode':
        t = base.name or 'object'
        if getattr(base, 'module_path', None):
            t = '.'.join(list(base.module_path) + [t])
    elif n == 'MemoryViewSliceTypeNode':
        t = _ctype(base.base_type_node) + '[' + ','.join(
            '::1' if getattr(a, 'step', None) is not None and type(a.step).__name__ != 'NoneNode' else ':'
            for a in base.axes) + ']'
    elif n == 'TemplatedTypeNode':
        t = _ctype(base.base_type_node) + '<>'
    elif n == 'CConstTypeNode' or n == 'CConstOrVolatileTypeNode':
        t = 'const ' + _ctype(base.base_type)
    elif n == 'CNestedBaseTypeNode':
        t = _ctype(base.base_type) + '.' + base.name
    elif n == 'CComplexBaseTypeNode':
        t = _ctype(base.base_type, base.declarator)
        return t
    else:
        t = n
    d = decl
    while d is not None and type(d).__name__ in ('CPtrDeclaratorNode', 'CArrayDeclaratorNode', 'CFuncDeclaratorNode', 'CReferenceDeclaratorNode'):
        k = type(d).__name__
        if k == 'CPtrDeclaratorNode':
            t += '*'
        elif k == 'CArrayDeclaratorNode':
            t += '[]'
        d = d.base
    return t


def _declname(d):
    while type(d).__name__ in ('CPtrDeclaratorNode', 'CArrayDeclaratorNode', 'CFuncDeclaratorNode', 'CReferenceDeclaratorNode'):
        d = d.base
    return d.name, getattr(d, 'default', None)


_BIN = {'+': ast.Add, '-': ast.Sub, '*': ast.Mult, '/': ast.Div, '//': ast.FloorDiv, '%': ast.Mod, '**': ast.Pow,
        '<<': ast.LShift, '>>': ast.RShift, '|': ast.BitOr, '&': ast.BitAnd, '^': ast.BitXor, '@': ast.MatMult}
_CMP = {'==': ast.Eq, '!=': ast.NotEq, '<': ast.Lt, '<=': ast.LtE, '>': ast.Gt, '>=': ast.GtE, 'is': ast.Is,
        'is_not': ast.IsNot, 'is not': ast.IsNot, 'in': ast.In, 'not_in': ast.NotIn, 'not in': ast.NotIn, '<>': ast.NotEq}


class Tr:
    def __init__(self, path):
        self.path = path

    def loc(self, new, old):
        ln = old.pos[1] if getattr(old, 'pos', None) else 1
        new.lineno = new.end_lineno = ln
        new.col_offset = new.end_col_offset = (old.pos[2] if getattr(old, 'pos', None) else 0)
        return new

    def bad(self, n, what=''):
        raise FrontendError('%s:%s: cannot translate %s %s' % (self.path, n.pos[1], type(n).__name__, what))

    # ------------------------------------------------------------ expr
    def e(self, n, ctx=None):
        if n is None:
            return None
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            self.bad(n)
        r = m(n)
        self.loc(r, n)
        if ctx is not None:
            self.setctx(r, ctx)
        return r

    def setctx(self, r, ctx):
        if isinstance(r, (ast.Name, ast.Attribute, ast.Subscript, ast.Starred)):
            r.ctx = ctx
            if isinstance(r, ast.Starred):
                self.setctx(r.value, ctx)
        elif isinstance(r, (ast.Tuple, ast.List)):
            r.ctx = ctx
            for x in r.elts:
                self.setctx(x, ctx)

    def e_NameNode(self, n): return ast.Name(str(n.name), ast.Load())
    def e_AttributeNode(self, n): return ast.Attribute(self.e(n.obj), str(n.attribute), ast.Load())
    def e_UnicodeNode(self, n): return ast.Constant(str(n.value))
    def e_StringNode(self, n): return ast.Constant(str(n.unicode_value if n.unicode_value is not None else n.value))
    def e_IdentifierStringNode(self, n): return ast.Constant(str(n.value))
    def e_BytesNode(self, n): return ast.Constant(bytes(n.value.byteencode() if hasattr(n.value, 'byteencode') else n.value))
    def e_CharNode(self, n): return ast.Constant(str(n.value))
    def e_NoneNode(self, n): return ast.Constant(None)
    def e_NullNode(self, n): return ast.Name('NULL', ast.Load())
    def e_EllipsisNode(self, n): return ast.Constant(...)
    def e_BoolNode(self, n): return ast.Constant(bool(n.value))
    def e_IntNode(self, n):
        v = str(n.value)
        try:
            return ast.Constant(int(v, 0))
        except ValueError:
            return ast.Constant(int(v))
    def e_FloatNode(self, n): return ast.Constant(float(str(n.value)))
    def e_TupleNode(self, n): return ast.Tuple([self.e(a) for a in n.args], ast.Load())
    def e_ListNode(self, n): return ast.List([self.e(a) for a in n.args], ast.Load())
    def e_SetNode(self, n): return ast.Set([self.e(a) for a in n.args])
    def e_DictNode(self, n):
        return ast.Dict([self.e(i.key) for i in n.key_value_pairs], [self.e(i.value) for i in n.key_value_pairs])
    def e_MergedDictNode(self, n):
        ks, vs = [], []
        for d in n.keyword_args:
            if type(d).__name__ == 'DictNode':
                for i in d.key_value_pairs:
                    ks.append(self.e(i.key)); vs.append(self.e(i.value))
            else:
                ks.append(None); vs.append(self.e(d))
        return ast.Dict(ks, vs)
    def e_MergedSequenceNode(self, n):
        return ast.List([self.e(a) for a in n.args], ast.Load())
    def e_StarredUnpackingNode(self, n): return ast.Starred(self.e(n.target), ast.Load())
    def e_AsTupleNode(self, n):
        return self.e(n.arg)

    def call(self, n, func, pos, kw):
        args = []
        for p in pos:
            args.append(p)
        return ast.Call(func, args, kw)

    def e_SimpleCallNode(self, n):
        return ast.Call(self.e(n.function), [self.e(a) for a in n.args], [])

    def e_GeneralCallNode(self, n):
        pa = n.positional_args
        t = type(pa).__name__
        args = []
        if t == 'TupleNode':
            args = [self.e(a) for a in pa.args]
        elif t == 'AsTupleNode':
            a = pa.arg
            if type(a).__name__ in ('MergedSequenceNode',):
                args = []
                for q in a.args:
                    r = self.e(q)
                    if isinstance(r, ast.Tuple):
                        args.extend(r.elts)
                    else:
                        args.append(self.loc(ast.Starred(r, ast.Load()), q))
            else:
                args = [self.loc(ast.Starred(self.e(a), ast.Load()), a)]
        elif t == 'MergedSequenceNode':
            for q in pa.args:
                r = self.e(q)
                if isinstance(r, ast.Tuple):
                    args.extend(r.elts)
                else:
                    args.append(self.loc(ast.Starred(r, ast.Load()), q))
        elif t == 'AddNode':
            def flat(x):
                if type(x).__name__ == 'AddNode':
                    return flat(x.operand1) + flat(x.operand2)
                return [x]
            for q in flat(pa):
                r = self.e(q)
                if isinstance(r, (ast.Tuple, ast.List)) and type(q).__name__ == 'TupleNode':
                    args.extend(r.elts)
                else:
                    args.append(self.loc(ast.Starred(r, ast.Load()), q))
        else:
            self.bad(n, 'positional ' + t)
        kws = []
        kd = n.keyword_args
        if kd is not None:
            k = type(kd).__name__
            if k == 'DictNode':
                parts = [kd]
            elif k == 'MergedDictNode':
                parts = kd.keyword_args
            else:
                parts = [kd]
            for d in parts:
                if type(d).__name__ == 'DictNode':
                    for i in d.key_value_pairs:
                        key = self.e(i.key)
                        if isinstance(key, ast.Constant) and isinstance(key.value, str):
                            kws.append(self.loc(ast.keyword(key.value, self.e(i.value)), i.key))
                        else:
                            kws.append(self.loc(ast.keyword(None, self.loc(ast.Dict([key], [self.e(i.value)]), i.key)), i.key))
                else:
                    kws.append(self.loc(ast.keyword(None, self.e(d)), d))
        return ast.Call(self.e(n.function), args, kws)

    def binop(self, n): return ast.BinOp(self.e(n.operand1), _BIN[n.operator](), self.e(n.operand2))
    e_AddNode = e_SubNode = e_MulNode = e_DivNode = e_ModNode = e_PowNode = e_MatMultNode = e_IntBinopNode = binop
    def e_UnaryMinusNode(self, n):
        v = self.e(n.operand)
        if isinstance(v, ast.Constant) and isinstance(v.value, (int, float)):
            return ast.UnaryOp(ast.USub(), v)
        return ast.UnaryOp(ast.USub(), v)
    def e_UnaryPlusNode(self, n): return ast.UnaryOp(ast.UAdd(), self.e(n.operand))
    def e_TildeNode(self, n): return ast.UnaryOp(ast.Invert(), self.e(n.operand))
    def e_NotNode(self, n): return ast.UnaryOp(ast.Not(), self.e(n.operand))
    def e_BoolBinopNode(self, n):
        op = ast.And() if n.operator == 'and' else ast.Or()
        a, b = self.e(n.operand1), self.e(n.operand2)
        return ast.BoolOp(op, [a, b])
    def e_CondExprNode(self, n):
        t = getattr(n, 'condition', None) if getattr(n, 'condition', None) is not None else n.test
        return ast.IfExp(self.e(t), self.e(n.true_val), self.e(n.false_val))
    def e_PrimaryCmpNode(self, n):
        ops, comps = [_CMP[n.operator]()], [self.e(n.operand2)]
        c = n.cascade
        while c is not None:
            ops.append(_CMP[c.operator]()); comps.append(self.e(c.operand2)); c = c.cascade
        return ast.Compare(self.e(n.operand1), ops, comps)
    def e_SliceNode(self, n):
        f = lambda x: None if x is None or type(x).__name__ == 'NoneNode' else self.e(x)
        return ast.Slice(f(n.start), f(n.stop), f(n.step))
    def e_IndexNode(self, n): return ast.Subscript(self.e(n.base), self.e(n.index), ast.Load())
    def e_SliceIndexNode(self, n):
        f = lambda x: None if x is None or type(x).__name__ == 'NoneNode' else self.e(x)
        sl = self.loc(ast.Slice(f(n.start), f(n.stop), None), n)
        return ast.Subscript(self.e(n.base), sl, ast.Load())
    def e_AmpersandNode(self, n): return ast.Call(self.loc(ast.Name('__addr__', ast.Load()), n), [self.e(n.operand)], [])
    def e_TypecastNode(self, n):
        return ast.Call(self.loc(ast.Name('__cast__', ast.Load()), n),
                        [self.loc(ast.Constant(_ctype(n.base_type, n.declarator)), n), self.e(n.operand)], [])
    def e_SizeofTypeNode(self, n):
        return ast.Call(self.loc(ast.Name('sizeof', ast.Load()), n), [self.loc(ast.Constant(_ctype(n.base_type, n.declarator)), n)], [])
    def e_SizeofVarNode(self, n):
        return ast.Call(self.loc(ast.Name('sizeof', ast.Load()), n), [self.e(n.operand)], [])
    def e_JoinedStrNode(self, n):
        return ast.JoinedStr([self.e(v) if type(v).__name__ != 'UnicodeNode' else self.loc(ast.Constant(str(v.value)), v) for v in n.values])
    def e_FormattedValueNode(self, n):
        conv = {'s': 115, 'r': 114, 'a': 97}.get(n.conversion_char, -1) if n.conversion_char else -1
        return ast.FormattedValue(self.e(n.value), conv, self.loc(ast.JoinedStr([self.e(n.format_spec)]), n) if n.format_spec else None)
    def e_ImportNode(self, n):
        return ast.Call(self.loc(ast.Name('__import__', ast.Load()), n), [self.e(n.module_name)], [])
    def e_LambdaNode(self, n):
        body = n.result_expr
        return ast.Lambda(self.args(n.args, getattr(n, 'star_arg', None), getattr(n, 'starstar_arg', None)), self.e(body))
    def e_YieldExprNode(self, n): return ast.Yield(self.e(n.arg) if n.arg is not None else None)
    def e_InlinedGeneratorExpressionNode(self, n): return self.e(n.gen)
    def _gens(self, loop):
        gens = []
        cur = loop
        elt = None
        while True:
            k = type(cur).__name__
            if k in ('ForInStatNode', '_ForInStatNode'):
                g = ast.comprehension(self.e(cur.target, ast.Store()), self.e(cur.iterator.sequence), [], 0)
                gens.append(g)
                cur = cur.body
            elif k == 'IfStatNode':
                c = cur.if_clauses[0]
                gens[-1].ifs.append(self.e(c.condition))
                cur = c.body
            elif k == 'StatListNode':
                cur = cur.stats[0]
            elif k == 'ExprStatNode':
                cur = cur.expr
            else:
                return gens, cur
    def e_ComprehensionNode(self, n):
        gens, app = self._gens(n.loop)
        if type(app).__name__ == 'DictComprehensionAppendNode':
            return ast.DictComp(self.e(app.key_expr), self.e(app.value_expr), gens)
        tn = str(getattr(n, 'type', ''))
        el = self.e(app.expr)
        return ast.SetComp(el, gens) if 'set' in tn else ast.ListComp(el, gens)
    def e_GeneratorExpressionNode(self, n):
        gens, app = self._gens(n.loop)
        return ast.GeneratorExp(self.e(app.arg), gens)

    # ------------------------------------------------------------ args
    def arg(self, a):
        t = type(a).__name__
        if t == 'PyArgDeclNode':
            return self.loc(ast.arg(str(a.name), None), a)
        name, dflt = _declname(a.declarator)
        ty = _ctype(a.base_type, a.declarator)
        if not name:
            # "def f(self, x)": the name sits in the base type
            name, ty = a.base_type.name, None
        if type(a.base_type).__name__ == 'CSimpleBaseTypeNode' and a.base_type.name is None:
            ty = None
        ann = self.loc(ast.Constant(ty), a) if ty else None
        return self.loc(ast.arg(str(name), ann), a)

    def args(self, args, star, sstar):
        pos, kwonly, pd, kd = [], [], [], []
        for a in args:
            n = self.arg(a)
            d = getattr(a, 'default', None)
            if getattr(a, 'kw_only', 0):
                kwonly.append(n); kd.append(self.e(d) if d is not None else None)
            else:
                pos.append(n)
                if d is not None:
                    pd.append(self.e(d))
        return ast.arguments([], pos, self.arg(star) if star else None, kwonly, kd,
                             self.arg(sstar) if sstar else None, pd)

    # ------------------------------------------------------------ stmts
    def body(self, n):
        if n is None:
            return []
        if type(n).__name__ == 'StatListNode':
            out = []
            for s in n.stats:
                out.extend(self.s(s))
            r = out
        else:
            r = self.s(n)
        if not r:
            r = [self.loc(ast.Pass(), n)]
        return r

    def s(self, n):
        if n is None:
            return []
        m = getattr(self, 's_' + type(n).__name__, None)
        if m is None:
            self.bad(n)
        r = m(n)
        if r is None:
            return []
        if not isinstance(r, list):
            r = [r]
        for x in r:
            if not hasattr(x, 'lineno'):
                self.loc(x, n)
        return r

    def s_StatListNode(self, n):
        out = []
        for s in n.stats:
            out.extend(self.s(s))
        return out
    def s_ExprStatNode(self, n):
        if type(n.expr).__name__ in ('UnicodeNode', 'StringNode'):
            return ast.Expr(self.e(n.expr))
        return ast.Expr(self.e(n.expr))
    def s_SingleAssignmentNode(self, n):
        rhs = n.rhs
        if type(rhs).__name__ == 'ImportNode':
            nm = str(rhs.module_name.value)
            return ast.Import([self.loc(ast.alias(nm, str(n.lhs.name)), n)])
        if type(rhs).__name__ == 'PyClassNode' or type(rhs).__name__ == 'ClassNode':
            return []
        return ast.Assign([self.e(n.lhs, ast.Store())], self.e(rhs))
    def s_CascadedAssignmentNode(self, n):
        return ast.Assign([self.e(l, ast.Store()) for l in n.lhs_list], self.e(n.rhs))
    def s_ParallelAssignmentNode(self, n):
        out = []
        for s in n.stats:
            out.extend(self.s(s))
        return out
    def s_InPlaceAssignmentNode(self, n):
        return ast.AugAssign(self.e(n.lhs, ast.Store()), _BIN[n.operator](), self.e(n.rhs))
    def s_CVarDefNode(self, n):
        out = []
        for d in n.declarators:
            name, dflt = _declname(d)
            x = d
            isf = False
            while type(x).__name__ in ('CPtrDeclaratorNode', 'CArrayDeclaratorNode', 'CFuncDeclaratorNode'):
                isf |= type(x).__name__ == 'CFuncDeclaratorNode'
                x = x.base
            if isf:
                continue
            out.append(self.loc(ast.AnnAssign(self.loc(ast.Name(str(name), ast.Store()), d), self.loc(ast.Constant(_ctype(n.base_type, d)), n),
                                              self.e(dflt) if dflt is not None else None, 1), n))
        return out
    def s_IfStatNode(self, n):
        els = self.body(n.else_clause) if n.else_clause is not None else []
        node = None
        for c in reversed(n.if_clauses):
            node = self.loc(ast.If(self.e(c.condition), self.body(c.body), els), c)
            els = [node]
        return node
    def s_ForInStatNode(self, n):
        return ast.For(self.e(n.target, ast.Store()), self.e(n.iterator.sequence), self.body(n.body),
                       self.body(n.else_clause) if n.else_clause is not None else [])
    def s_ForFromStatNode(self, n): self.bad(n)
    def s_WhileStatNode(self, n):
        return ast.While(self.e(n.condition) if n.condition is not None else ast.Constant(True), self.body(n.body),
                         self.body(n.else_clause) if n.else_clause is not None else [])
    def s_ReturnStatNode(self, n): return ast.Return(self.e(n.value) if n.value is not None else None)
    def s_BreakStatNode(self, n): return ast.Break()
    def s_ContinueStatNode(self, n): return ast.Continue()
    def s_PassStatNode(self, n): return ast.Pass()
    def s_DelStatNode(self, n): return ast.Delete([self.e(a, ast.Del()) for a in n.args])
    def s_AssertStatNode(self, n):
        c = getattr(n, 'condition', None)
        if c is None:
            c = n.cond
        return ast.Assert(self.e(c), None)
    def s_RaiseStatNode(self, n):
        return ast.Raise(self.e(n.exc_type) if n.exc_type is not None else None, self.e(n.cause) if n.cause is not None else None)
    def s_ReraiseStatNode(self, n): return ast.Raise(None, None)
    def s_TryExceptStatNode(self, n):
        hs = []
        for c in n.except_clauses:
            pats = c.pattern or []
            ty = None
            if len(pats) == 1:
                ty = self.e(pats[0])
            elif pats:
                ty = self.loc(ast.Tuple([self.e(p) for p in pats], ast.Load()), c)
            hs.append(self.loc(ast.ExceptHandler(ty, str(c.target.name) if c.target is not None else None, self.body(c.body)), c))
        return ast.Try(self.body(n.body), hs, self.body(n.else_clause) if n.else_clause is not None else [], [])
    def s_TryFinallyStatNode(self, n):
        inner = self.body(n.body)
        fin = self.body(n.finally_clause)
        if len(inner) == 1 and isinstance(inner[0], ast.Try) and not inner[0].finalbody:
            t = inner[0]
            return ast.Try(t.body, t.handlers, t.orelse, fin)
        return ast.Try(inner, [], [], fin)
    def s_WithStatNode(self, n):
        tgt = n.target
        return ast.With([ast.withitem(self.e(n.manager), self.e(tgt, ast.Store()) if tgt is not None else None)], self.body(n.body))
    def s_GILStatNode(self, n):
        return ast.With([ast.withitem(self.loc(ast.Name(str(n.state), ast.Load()), n), None)], self.body(n.body))
    def s_GILExitNode(self, n): return []
    def s_GlobalNode(self, n): return ast.Global([str(x) for x in n.names])
    def s_NonlocalNode(self, n): return ast.Nonlocal([str(x) for x in n.names])
    def s_CImportStatNode(self, n):
        return ast.Import([self.loc(ast.alias(str(n.module_name), str(n.as_name) if n.as_name else None), n)])
    def s_FromCImportStatNode(self, n):
        names = []
        for it in n.imported_names:
            names.append(self.loc(ast.alias(str(it[1]), str(it[2]) if it[2] else None), n))
        return ast.ImportFrom(str(n.module_name), names, int(getattr(n, 'relative_level', 0) or 0)) if names else []
    def s_FromImportStatNode(self, n):
        mod = str(n.module.module_name.value)
        lvl = n.module.level
        lvl = int(lvl) if lvl and int(lvl) > 0 else 0
        if n.items and str(n.items[0][0]) == '*':
            return ast.ImportFrom(mod, [ast.alias('*', None)], lvl)
        return ast.ImportFrom(mod, [self.loc(ast.alias(str(a), str(b.name)), n) for a, b in n.items], lvl)
    def s_CDefExternNode(self, n): return []
    def s_CEnumDefNode(self, n):
        return []
    def s_CTypeDefNode(self, n): return []
    def s_CStructOrUnionDefNode(self, n): return []
    def s_CppClassNode(self, n): return []
    def s_PropertyNode(self, n): return self.body(n.body)

    def _decos(self, n):
        out = []
        for d in (n.decorators or []):
            out.append(self.e(d.decorator))
        return out
    def _doc(self, n, body):
        d = getattr(n, 'doc', None)
        if d is not None:
            body.insert(0, self.loc(ast.Expr(self.loc(ast.Constant(str(d)), n)), n))
        return body
    def s_DefNode(self, n):
        f = ast.FunctionDef(str(n.name), self.args(n.args, n.star_arg, n.starstar_arg), self._doc(n, self.body(n.body)),
                            self._decos(n), None)
        f.ckind = 'def'
        return f
    def s_CFuncDefNode(self, n):
        d = n.declarator
        base = n.base_type
        while type(d).__name__ != 'CFuncDeclaratorNode':
            d = d.base
        nm = d.base.name
        f = ast.FunctionDef(str(nm), self.args(d.args, None, None), self._doc(n, self.body(n.body)), self._decos(n),
                            self.loc(ast.Constant(_ctype(base, n.declarator)), n))
        f.ckind = 'cpdef' if n.overridable else 'cdef'
        return f
    def s_CClassDefNode(self, n):
        bases = []
        if getattr(n, 'bases', None) is not None:
            bases = [self.e(b) for b in n.bases.args]
        elif getattr(n, 'base_class_name', None):
            bases = [self.loc(ast.Name(str(n.base_class_name), ast.Load()), n)]
        return ast.ClassDef(str(n.class_name), bases, [], self._doc(n, self.body(n.body)), [])
    def s_PyClassDefNode(self, n):
        bases = []
        b = getattr(n, 'bases', None)
        if b is not None:
            bases = [self.e(x) for x in getattr(b, 'args', [])]
        return ast.ClassDef(str(n.name), bases, [], self._doc(n, self.body(n.body)), [])
    def s_ClassCellInjectorNode(self, n): return []
    def s_CompilerDirectivesNode(self, n): return self.body(n.body)


def parse_pyx(path, modname):
    tree, scope = _cython_parse(path, modname)
    tr = Tr(path)
    body = tr.body(tree.body)
    m = ast.Module(body, [])
    for node in ast.walk(m):
        if isinstance(node, (ast.expr, ast.stmt, ast.excepthandler, ast.arg, ast.keyword, ast.alias)):
            if not hasattr(node, 'lineno'):
                node.lineno = node.end_lineno = 1
                node.col_offset = node.end_col_offset = 0
    _fill(m, 1)
    return m


def _fill(node, ln):
    for c in ast.iter_child_nodes(node):
        if isinstance(c, (ast.expr, ast.stmt)) and getattr(c, 'lineno', 1) == 1 and ln > 1:
            c.lineno = c.end_lineno = ln
        _fill(c, getattr(c, 'lineno', ln))


def parse_file(path, modname):
    if path.endswith('.pyx'):
        return parse_pyx(path, modname)
    with open(path, 'rb') as f:
        return ast.parse(f.read(), path)


def parse_pxd(path, modname):
    """-> (enums {name: value}, class attribute C types {cls: {attr: type}})"""
    from Cython.Compiler import Main
    from Cython.Compiler.Scanning import FileSourceDescriptor
    opts = Main.CompilationOptions(Main.default_options, language_level=3)
    ctx = opts.create_context()
    sd = FileSourceDescriptor(path)
    scope = ctx.find_module(modname, pos=(sd, 1, 0), need_pxd=0)
    tree = ctx.parse(sd, scope, pxd=1, full_module_name=modname)
    enums, attrs = {}, {}
    private = parse_pxd.private = {}
    tr = Tr(path)

    def go(n, cls):
        k = type(n).__name__
        if k == 'StatListNode':
            for s in n.stats:
                go(s, cls)
        elif k == 'CEnumDefNode':
            nxt = 0
            for it in n.items:
                if it.value is not None:
                    v = tr.e(it.value)
                    try:
                        nxt = ast.literal_eval(v)
                    except ValueError:
                        nxt = None
                enums[str(it.name)] = nxt
                nxt = nxt + 1 if isinstance(nxt, int) else None
        elif k == 'CClassDefNode':
            attrs.setdefault(str(n.class_name), {})
            if n.body is not None:
                go(n.body, str(n.class_name))
        elif k == 'CVarDefNode' and cls:
            for d in n.declarators:
                x = d
                isf = False
                while type(x).__name__ in ('CPtrDeclaratorNode', 'CArrayDeclaratorNode', 'CFuncDeclaratorNode'):
                    isf |= type(x).__name__ == 'CFuncDeclaratorNode'
                    x = x.base
                if not isf:
                    attrs[cls][str(x.name)] = _ctype(n.base_type, d)
                    if n.visibility == 'private':
                        private.setdefault(cls, set()).add(str(x.name))
    go(tree.body, None)
    return enums, attrs
