"""Converts Cython's syntax tree of a .pyx file into a Python `ast.Module`, so that one abstract interpreter (pyabs) can
be used for both languages. C-level constructs are mapped to their value-level meaning:

    cdef T x = e        ->  x: 'T' = e
    <T> e               ->  __cast__('T', e)
    &e                  ->  __addr__(e)
    make_unique[T](a)   ->  make_unique['T'](a)
    cdef class C(B)     ->  class C(B)         (decorated with __cdef_class__)
    cimport             ->  import
"""
import ast

import cy


def _loc(node, src):
    pos = getattr(src, 'pos', None)
    node.lineno = node.end_lineno = pos[1] if pos else 1
    node.col_offset = node.end_col_offset = pos[2] if pos else 0
    return node


class Conv:
    def type_name(self, t):
        c = cy.cls(t)
        if c == 'CSimpleBaseTypeNode':
            n = t.name or ''
            if t.module_path:
                n = '.'.join(t.module_path) + '.' + n
            return n
        if c == 'TemplatedTypeNode':
            return '%s[%s]' % (self.type_name(t.base_type_node), ','.join(self.type_name(a) for a in t.positional_args))
        if c == 'CConstOrVolatileTypeNode':
            return ('const ' if t.is_const else '') + self.type_name(t.base_type)
        if c == 'MemoryViewSliceTypeNode':
            return self.type_name(t.base_type_node) + '[:]' * len(t.axes)
        if c == 'CComplexBaseTypeNode':
            return self.decl(t.declarator, self.type_name(t.base_type))[1]
        if c == 'NameNode':
            return t.name
        if c == 'AttributeNode':
            return self.type_name(t.obj) + '.' + t.attribute
        if c == 'IndexNode':
            return self.type_name(t.base) + '[...]'
        return '?' + c

    def decl(self, d, base):
        """(name, type, default) of a declarator."""
        suffix = ''
        while True:
            c = cy.cls(d)
            if c == 'CNameDeclaratorNode':
                return d.name, base + suffix, d.default
            if c == 'CPtrDeclaratorNode':
                suffix += '*'
                d = d.base
            elif c == 'CReferenceDeclaratorNode':
                suffix += '&'
                d = d.base
            elif c in ('CFuncDeclaratorNode', 'CArrayDeclaratorNode', 'CConstDeclaratorNode'):
                d = d.base
            else:
                return '?', base, None

    # ------------------------------------------------------------ expressions

    def expr(self, e):
        if e is None:
            return None
        m = getattr(self, 'e_' + cy.cls(e), None)
        if m is None:
            return _loc(ast.Call(func=_loc(ast.Name('__unknown__', ast.Load()), e),
                                 args=[ast.Constant(cy.cls(e))], keywords=[]), e)
        return _loc(m(e), e)

    def e_NameNode(self, e):
        return ast.Name(e.name, ast.Load())

    def e_AttributeNode(self, e):
        return ast.Attribute(self.expr(e.obj), e.attribute, ast.Load())

    def e_SimpleCallNode(self, e):
        return ast.Call(self.expr(e.function), [self.expr(a) for a in e.args], [])

    def e_GeneralCallNode(self, e):
        pos = e.positional_args
        args = [self.expr(a) for a in pos.args] if cy.cls(pos) == 'TupleNode' else [ast.Starred(self.expr(pos), ast.Load())]
        kws = []
        kw = e.keyword_args
        if kw is not None and cy.cls(kw) == 'DictNode':
            for i in kw.key_value_pairs:
                kws.append(ast.keyword(arg=str(i.key.value), value=self.expr(i.value)))
        elif kw is not None:
            kws.append(ast.keyword(arg=None, value=self.expr(kw)))
        return ast.Call(self.expr(e.function), args, kws)

    def e_IntNode(self, e):
        return ast.Constant(int(str(e.value).rstrip('uUlL'), 0))

    def e_FloatNode(self, e):
        return ast.Constant(float(e.value))

    def e_BoolNode(self, e):
        return ast.Constant(bool(e.value))

    def e_NoneNode(self, e):
        return ast.Constant(None)

    e_NullNode = e_NoneNode

    def e_StringNode(self, e):
        v = e.value
        u = getattr(e, 'unicode_value', None)
        return ast.Constant(str(u) if u is not None else (v.decode('utf-8') if isinstance(v, bytes) else str(v)))

    e_UnicodeNode = e_StringNode
    e_BytesNode = e_StringNode
    e_IdentifierStringNode = e_StringNode

    def e_TupleNode(self, e):
        return ast.Tuple([self.expr(a) for a in e.args], ast.Load())

    def e_ListNode(self, e):
        return ast.List([self.expr(a) for a in e.args], ast.Load())

    def e_SetNode(self, e):
        return ast.Set([self.expr(a) for a in e.args])

    def e_DictNode(self, e):
        return ast.Dict([self.expr(i.key) for i in e.key_value_pairs], [self.expr(i.value) for i in e.key_value_pairs])

    def e_IndexNode(self, e):
        return ast.Subscript(self.expr(e.base), self.expr(e.index), ast.Load())

    def e_SliceIndexNode(self, e):
        return ast.Subscript(self.expr(e.base), ast.Slice(self.expr(e.start), self.expr(e.stop), None), ast.Load())

    def e_SliceNode(self, e):
        f = lambda x: None if x is None or cy.cls(x) == 'NoneNode' else self.expr(x)
        return ast.Slice(f(e.start), f(e.stop), f(e.step))

    def e_AmpersandNode(self, e):
        return ast.Call(ast.Name('__addr__', ast.Load()), [self.expr(e.operand)], [])

    def e_TypecastNode(self, e):
        if getattr(e, 'type', None) is not None and not hasattr(e, 'base_type'):
            t = str(e.type)
        else:
            t = self.decl(e.declarator, self.type_name(e.base_type))[1]
        return ast.Call(ast.Name('__cast__', ast.Load()), [ast.Constant(t), self.expr(e.operand)], [])

    def e_CythonArrayNode(self, e):
        return ast.Call(ast.Name('__cast__', ast.Load()),
                        [ast.Constant('array'), self.expr(e.operand)] +
                        [self.expr(a) for a in (self._array_shape(e))], [])

    def _array_shape(self, e):
        res = []
        t = e.base_type_node
        for ax in t.axes:
            if ax.stop is not None:
                res.append(ax.stop)
        return res

    def e_CondExprNode(self, e):
        return ast.IfExp(self.expr(e.test), self.expr(e.true_val), self.expr(e.false_val))

    OPS = {'+': ast.Add, '-': ast.Sub, '*': ast.Mult, '/': ast.Div, '//': ast.FloorDiv, '%': ast.Mod, '**': ast.Pow,
           '&': ast.BitAnd, '|': ast.BitOr, '^': ast.BitXor, '<<': ast.LShift, '>>': ast.RShift, '@': ast.MatMult}

    def e_AddNode(self, e):
        return ast.BinOp(self.expr(e.operand1), self.OPS[e.operator](), self.expr(e.operand2))

    e_SubNode = e_MulNode = e_DivNode = e_ModNode = e_PowNode = e_IntBinopNode = e_NumBinopNode = e_AddNode

    def e_BoolBinopNode(self, e):
        return ast.BoolOp(ast.And() if e.operator == 'and' else ast.Or(), [self.expr(e.operand1), self.expr(e.operand2)])

    def e_NotNode(self, e):
        return ast.UnaryOp(ast.Not(), self.expr(e.operand))

    def e_UnaryMinusNode(self, e):
        return ast.UnaryOp(ast.USub(), self.expr(e.operand))

    CMP = {'==': ast.Eq, '!=': ast.NotEq, '<': ast.Lt, '<=': ast.LtE, '>': ast.Gt, '>=': ast.GtE, 'is': ast.Is,
           'is_not': ast.IsNot, 'in': ast.In, 'not_in': ast.NotIn}

    def e_PrimaryCmpNode(self, e):
        ops, rhs = [self.CMP[e.operator]()], [self.expr(e.operand2)]
        c = e.cascade
        while c is not None:
            ops.append(self.CMP[c.operator]())
            rhs.append(self.expr(c.operand2))
            c = c.cascade
        return ast.Compare(self.expr(e.operand1), ops, rhs)

    def e_ComprehensionNode(self, e):
        loop = e.loop
        it = loop.iterator.sequence if hasattr(loop, 'iterator') else loop.sequence
        body = loop.body
        conds = []
        while cy.cls(body) in ('StatListNode', 'IfStatNode'):
            if cy.cls(body) == 'StatListNode':
                body = body.stats[0]
            else:
                conds.append(self.expr(body.if_clauses[0].condition))
                body = body.if_clauses[0].body
        gen = ast.comprehension(self.target(loop.target), self.expr(it), conds, 0)
        return ast.ListComp(self.expr(body.expr), [gen])

    def e_ImportNode(self, e):
        return ast.Call(ast.Name('__import__', ast.Load()), [ast.Constant(str(e.module_name.value))], [])

    def target(self, e):
        t = self.expr(e)
        for n in ast.walk(t):
            if n is t or isinstance(t, (ast.Tuple, ast.List)) and n in getattr(t, 'elts', ()):
                if hasattr(n, 'ctx'):
                    n.ctx = ast.Store()
        return t

    # ------------------------------------------------------------ statements

    def body(self, s):
        if s is None:
            return []
        if cy.cls(s) == 'StatListNode':
            res = []
            for x in s.stats:
                res += self.stat(x)
            return res
        return self.stat(s)

    def nonempty(self, s, src):
        return self.body(s) or [_loc(ast.Pass(), src)]

    def stat(self, s):
        m = getattr(self, 's_' + cy.cls(s), None)
        if m is None:
            return [_loc(ast.Expr(self.expr(s)), s)]
        r = m(s)
        r = r if isinstance(r, list) else [r]
        return [_loc(x, s) if not hasattr(x, 'lineno') else x for x in r]

    def s_StatListNode(self, s):
        return self.body(s)

    def s_ExprStatNode(self, s):
        return ast.Expr(self.expr(s.expr))

    def s_PassStatNode(self, s):
        return ast.Pass()

    def s_ReturnStatNode(self, s):
        return ast.Return(self.expr(s.value) if s.value is not None else None)

    def s_RaiseStatNode(self, s):
        return ast.Raise(self.expr(s.exc_type), self.expr(s.cause) if getattr(s, 'cause', None) else None)

    def s_BreakStatNode(self, s):
        return ast.Break()

    def s_ContinueStatNode(self, s):
        return ast.Continue()

    def s_DelStatNode(self, s):
        return ast.Delete([self.expr(a) for a in s.args])

    def s_SingleAssignmentNode(self, s):
        if cy.cls(s.rhs) == 'ImportNode':
            return ast.Import([ast.alias(str(s.rhs.module_name.value), s.lhs.name)])
        return ast.Assign([self.target(s.lhs)], self.expr(s.rhs))

    def s_CascadedAssignmentNode(self, s):
        return ast.Assign([self.target(l) for l in s.lhs_list], self.expr(s.rhs))

    def s_InPlaceAssignmentNode(self, s):
        return ast.AugAssign(self.target(s.lhs), self.OPS[s.operator](), self.expr(s.rhs))

    def s_CVarDefNode(self, s):
        base = self.type_name(s.base_type)
        res = []
        for d in s.declarators:
            name, t, default = self.decl(d, base)
            res.append(_loc(ast.AnnAssign(ast.Name(name, ast.Store()), ast.Constant(t),
                                          self.expr(default) if default is not None else None, 1), s))
        return res

    def s_IfStatNode(self, s):
        orelse = self.body(s.else_clause)
        for c in reversed(s.if_clauses):
            n = _loc(ast.If(self.expr(c.condition), self.nonempty(c.body, c), orelse), c)
            orelse = [n]
        return orelse

    def s_ForInStatNode(self, s):
        it = s.iterator.sequence if getattr(s, 'iterator', None) is not None else s.sequence
        return ast.For(self.target(s.target), self.expr(it), self.nonempty(s.body, s), self.body(s.else_clause))

    def s_WhileStatNode(self, s):
        return ast.While(self.expr(s.condition), self.nonempty(s.body, s), self.body(s.else_clause))

    def s_WithStatNode(self, s):
        return ast.With([ast.withitem(self.expr(s.manager), self.target(s.target) if s.target else None)],
                        self.nonempty(s.body, s))

    def s_GILStatNode(self, s):
        return self.body(s.body)

    def s_TryExceptStatNode(self, s):
        hs = []
        for c in s.except_clauses:
            p = c.pattern
            t = self.expr(p[0]) if p else None
            hs.append(ast.ExceptHandler(t, c.target.name if c.target is not None else None, self.nonempty(c.body, c)))
        return ast.Try(self.nonempty(s.body, s), hs, self.body(s.else_clause), [])

    def s_TryFinallyStatNode(self, s):
        return ast.Try(self.nonempty(s.body, s), [], [], self.nonempty(s.finally_clause, s))

    def s_FromCImportStatNode(self, s):
        names = []
        for item in s.imported_names:
            names.append(ast.alias(item[1], item[2]))
        return ast.ImportFrom(str(s.module_name), names, s.relative_level if getattr(s, 'relative_level', 0) else 0)

    def s_CImportStatNode(self, s):
        return ast.Import([ast.alias(str(s.module_name), s.as_name)])

    def s_FromImportStatNode(self, s):
        names = []
        for name, target in s.items:
            n = getattr(target, 'name', None)
            names.append(ast.alias(str(name), n if n != str(name) else None))
        return ast.ImportFrom(str(s.module.module_name.value), names, getattr(s.module, 'level', 0) or 0)

    def arguments(self, args, star=None, starstar=None):
        res, defaults = [], []
        for a in args:
            name, t, default = self.decl(a.declarator, self.type_name(a.base_type))
            if not name:        # untyped argument: Cython stores the name as the type
                name, t = a.base_type.name, ''
            ann = getattr(a, 'annotation', None)
            if ann is not None:
                t = getattr(getattr(ann, 'expr', None), 'name', None) or t
            if getattr(a, 'default', None) is not None:
                default = a.default
            res.append(ast.arg(name, ast.Constant(t + (' not None' if getattr(a, 'not_none', False) else ''))))
            if default is not None:
                defaults.append(self.expr(default))
        return ast.arguments([], res, ast.arg(star.name) if star else None, [], [],
                             ast.arg(starstar.name) if starstar else None, defaults)

    def s_DefNode(self, s):
        decs = [self.expr(d.decorator) for d in (s.decorators or ())]
        return ast.FunctionDef(name=s.name, args=self.arguments(s.args, s.star_arg, s.starstar_arg),
                               body=self.nonempty(s.body, s), decorator_list=decs, returns=None, type_params=[])

    def s_CFuncDefNode(self, s):
        d = s.declarator
        base = self.type_name(s.base_type)
        while cy.cls(d) != 'CFuncDeclaratorNode':
            base += '*' if cy.cls(d) == 'CPtrDeclaratorNode' else '&'
            d = d.base
        name = self.decl(d, '')[0]
        return ast.FunctionDef(name=name, args=self.arguments(d.args), body=self.nonempty(s.body, s),
                               decorator_list=[ast.Name('__cdef__', ast.Load())], returns=ast.Constant(base),
                               type_params=[])

    def s_PyClassDefNode(self, s):
        bases = s.bases.args if s.bases is not None and hasattr(s.bases, 'args') else []
        return ast.ClassDef(name=str(s.name), bases=[self.expr(b) for b in bases], keywords=[],
                            body=self.nonempty(s.body, s), decorator_list=[], type_params=[])

    def s_CClassDefNode(self, s):
        bases = s.bases.args if s.bases is not None and hasattr(s.bases, 'args') else []
        return ast.ClassDef(name=str(s.class_name), bases=[self.expr(b) for b in bases], keywords=[],
                            body=self.nonempty(s.body, s), decorator_list=[ast.Name('__cdef_class__', ast.Load())],
                            type_params=[])

    def s_CTypeDefNode(self, s):
        return ast.Pass()

    s_CEnumDefNode = s_CppClassNode = s_CDefExternNode = s_CStructOrUnionDefNode = s_CTypeDefNode


def convert(path):
    tree = cy.parse(path)
    c = Conv()
    m = ast.Module(body=c.body(tree.body), type_ignores=[])
    return ast.fix_missing_locations(m)


if __name__ == '__main__':
    import sys
    for p in (sys.argv[1:] or [p for p in cy.pyx_files() if p.endswith('.pyx')]):
        t = convert(p)
        s = ast.unparse(t)
        if sys.argv[1:]:
            print(s)
        if '__unknown__' in s:
            print('UNKNOWN in', p)
