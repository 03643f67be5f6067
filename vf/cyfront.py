"""Mechanical translation of a .pyx module to Python ast with C type annotations.

The Cython compiler's own parser produces the tree.  Kept: every statement, expression, cdef type.
Dropped: decorators (boundscheck/wraparound: every index is an obligation anyway), 'inline', 'packed',
'not None' (null arguments are excluded by the contracts' preconditions), comments.
FunctionDef nodes get  .ctypes {name: ctype}, .cret ctype ;  ctype is one of
  'u1' 'i4' 'u4' 'i8' 'f4' 'f8' ... , ('mv',elem,ndim), ('buf',elem,ndim), ('struct',name), ('ext',name), 'list', 'object'
"""
import ast, re, os
from Cython.Compiler.TreeFragment import parse_from_strings
import Cython.Compiler.Nodes as Nd

BASIC = {'int': 'i4', 'unsigned int': 'u4', 'long': 'i8', 'unsigned long': 'u8', 'short': 'i2', 'char': 'i1',
         'float': 'f4', 'double': 'f8', 'bint': 'i4', 'Py_ssize_t': 'i8', 'size_t': 'u8', 'long long': 'i8',
         'unsigned char': 'u1', 'unsigned short': 'u2', 'object': 'object', 'list': 'list', 'dict': 'object', 'void': 'void',
         'tuple': 'object', 'str': 'object', 'unsigned long long': 'u8', 'ssize_t': 'i8'}
NPT = {'float32_t': 'f4', 'float64_t': 'f8', 'uint8_t': 'u1', 'int8_t': 'i1', 'uint16_t': 'u2', 'int16_t': 'i2', 'int32_t': 'i4',
       'uint32_t': 'u4', 'int64_t': 'i8', 'uint64_t': 'u8', 'int_t': 'i8', 'intp_t': 'i8', 'uint_t': 'u8', 'npy_intp': 'i8', 'float_t': 'f8', 'double_t': 'f8',
       'uintp_t': 'u8', 'npy_float32': 'f4', 'npy_float64': 'f8'}
BINOP = {'+': ast.Add, '-': ast.Sub, '*': ast.Mult, '/': ast.Div, '//': ast.FloorDiv, '%': ast.Mod, '**': ast.Pow,
         '&': ast.BitAnd, '|': ast.BitOr, '^': ast.BitXor, '<<': ast.LShift, '>>': ast.RShift}
CMP = {'<': ast.Lt, '<=': ast.LtE, '>': ast.Gt, '>=': ast.GtE, '==': ast.Eq, '!=': ast.NotEq, 'is': ast.Is, 'is_not': ast.IsNot,
       'in': ast.In, 'not_in': ast.NotIn}


class CyUnsupported(Exception):
    pass


class Cy:
    def __init__(self, path):
        self.path = path
        self.typedefs = {}
        self.structs = {}
        d = os.path.dirname(path)
        for f in sorted(os.listdir(d)):
            if f.endswith('.pxd'):
                for m in re.finditer(r'^\s*ctypedef\s+(.+?)\s+(\w+)\s*$', open(os.path.join(d, f)).read(), re.M):
                    self.typedefs[m.group(2)] = m.group(1).strip()
        src = open(path).read()
        for m in re.finditer(r'^\s*ctypedef\s+(?!struct|enum|union|fused)(.+?)\s+(\w+)\s*$', src, re.M):
            self.typedefs[m.group(2)] = m.group(1).strip()
        self.tree = parse_from_strings(re.sub(r'\W', '_', os.path.basename(path)), src)
        self.modtypes = {}
        body = self.stats(self.tree.body)
        self.mod = ast.Module(body=body, type_ignores=[])
        self.mod.ctypes = self.modtypes
        self.mod.structs = self.structs
        self.mod.lang = 'cy'
        ast.fix_missing_locations(self.mod)

    # ---- types
    def tname(self, name, path=()):
        full = '.'.join(list(path) + [name])
        if full in BASIC:
            return BASIC[full]
        if name in NPT and (path and path[-1] in ('np', 'numpy')):
            return NPT[name]
        if name in self.typedefs:
            t = self.typedefs[name]
            parts = t.split('.')
            return self.tname(parts[-1], parts[:-1])
        if name in self.structs:
            return ('struct', name)
        if name == 'ndarray':
            return 'object'
        return ('ext', full)

    def ctype(self, bt, decl=None):
        k = type(bt).__name__
        if k == 'CSimpleBaseTypeNode':
            if bt.name is None:
                t = 'object'
            else:
                n = bt.name
                if bt.is_basic_c_type:
                    sgn = 'unsigned ' if bt.signed == 0 else ''
                    lg = ''
                    if bt.longness == 1: lg = 'long'
                    elif bt.longness == 2: lg = 'long long'
                    elif bt.longness == -1: lg = 'short'
                    if n == 'int':
                        n = sgn + (lg if lg else 'int')
                    elif n == 'char':
                        n = sgn + 'char'
                    t = BASIC.get(n)
                    if t is None:
                        raise CyUnsupported('type ' + n)
                else:
                    t = self.tname(n, bt.module_path)
        elif k == 'MemoryViewSliceTypeNode':
            t = ('mv', self.ctype(bt.base_type_node), len(bt.axes))
        elif k == 'TemplatedTypeNode':
            args = [self.expr(a) for a in bt.positional_args]
            nd = 1
            if bt.keyword_args is not None:
                for kv in bt.keyword_args.key_value_pairs:
                    kk = kv.key.value if hasattr(kv.key, 'value') else None
                    if kk == 'ndim':
                        nd = int(kv.value.value)
            a = args[0]
            t = ('buf', self.tname(a.attr, [a.value.id]) if isinstance(a, ast.Attribute) else self.tname(a.id), nd)
        elif k == 'CConstOrVolatileTypeNode':
            t = self.ctype(bt.base_type)
        else:
            raise CyUnsupported('type node ' + k)
        return t

    def declname(self, d):
        while type(d).__name__ in ('CFuncDeclaratorNode', 'CPtrDeclaratorNode', 'CArrayDeclaratorNode', 'CReferenceDeclaratorNode'):
            d = d.base
        return d.name

    # ---- statements
    def stats(self, n):
        out = []
        if type(n).__name__ == 'StatListNode':
            for s in n.stats:
                out += self.stats(s)
            return out
        r = self.stat(n)
        return r if isinstance(r, list) else [r]

    def at(self, node, n):
        node.lineno = n.pos[1]
        node.col_offset = n.pos[2]
        return node

    def block(self, n):
        b = self.stats(n)
        return b or [ast.Pass()]

    def stat(self, n):
        k = type(n).__name__
        f = getattr(self, 's_' + k, None)
        if f is None:
            raise CyUnsupported('statement ' + k)
        r = f(n)
        for x in (r if isinstance(r, list) else [r]):
            self.at(x, n)
        return r

    def s_FromImportStatNode(self, n):
        return self.imp(n.module.module_name.value, n.module.level, [(a, t.name) for a, t in n.items])

    def imp(self, mod, level, names):
        return ast.ImportFrom(module=mod or None, names=[ast.alias(name=str(a), asname=str(b)) for a, b in names], level=max(level or 0, 0))

    def s_FromCImportStatNode(self, n):
        return []

    def s_CImportStatNode(self, n):
        return []

    def s_CTypeDefNode(self, n):
        return []

    def s_PassStatNode(self, n):
        return ast.Pass()

    def s_CStructOrUnionDefNode(self, n):
        fields = []
        self.structs[n.name] = fields
        for a in n.attributes or []:
            t = self.ctype(a.base_type)
            for d in a.declarators:
                fields.append((self.declname(d), t))
        return []

    def s_CVarDefNode(self, n):
        t = self.ctype(n.base_type)
        out = []
        for d in n.declarators:
            nm = self.declname(d)
            self.curtypes()[nm] = t
            if type(t) is tuple and t[0] == 'struct':
                out.append(ast.Assign(targets=[ast.Name(id=nm, ctx=ast.Store())],
                                      value=ast.Call(func=ast.Name(id='__newstruct__', ctx=ast.Load()), args=[ast.Constant(t[1])], keywords=[])))
            if getattr(d, 'default', None) is not None:
                out.append(ast.Assign(targets=[ast.Name(id=nm, ctx=ast.Store())], value=self.expr(d.default)))
        return out

    def curtypes(self):
        return self._cur if getattr(self, '_cur', None) is not None else self.modtypes

    def func(self, n, name, args, cret):
        old = getattr(self, '_cur', None)
        self._cur = {}
        types = self._cur
        a = ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[])
        for arg in args:
            nm = self.declname(arg.declarator)
            bt = arg.base_type
            if nm == '' or nm is None:   # untyped argument
                nm = bt.name
                t = 'object'
            else:
                t = self.ctype(bt)
            types[nm] = t
            a.args.append(ast.arg(arg=nm))
            if arg.default is not None:
                a.defaults.append(self.expr(arg.default))
        body = []
        if getattr(n, 'doc', None):
            body.append(ast.Expr(value=ast.Constant(str(n.doc))))
        body += self.block(n.body)
        fd = ast.FunctionDef(name=name, args=a, body=body, decorator_list=[], returns=None, type_params=[])
        fd.ctypes = types
        fd.cret = cret
        fd.lang = 'cy'
        self._cur = old
        return fd

    def s_DefNode(self, n):
        return self.func(n, n.name, n.args, 'object')

    def s_CFuncDefNode(self, n):
        d = n.declarator
        while type(d).__name__ != 'CFuncDeclaratorNode':
            d = d.base
        return self.func(n, self.declname(d), d.args, self.ctype(n.base_type) if n.base_type.name is not None or type(n.base_type).__name__ != 'CSimpleBaseTypeNode' else 'object')

    def s_SingleAssignmentNode(self, n):
        k = type(n.rhs).__name__
        if k == 'ImportNode':
            m = n.rhs
            return ast.Import(names=[ast.alias(name=str(m.module_name.value), asname=str(n.lhs.name))])
        return ast.Assign(targets=[self.store(n.lhs)], value=self.expr(n.rhs))

    def s_CascadedAssignmentNode(self, n):
        return ast.Assign(targets=[self.store(x) for x in n.lhs_list], value=self.expr(n.rhs))

    def s_ParallelAssignmentNode(self, n):
        # a, b = x, y : evaluate all right sides first
        ts = [self.store(s.lhs) for s in n.stats]
        vs = [self.expr(s.rhs) for s in n.stats]
        return ast.Assign(targets=[ast.Tuple(elts=ts, ctx=ast.Store())], value=ast.Tuple(elts=vs, ctx=ast.Load()))

    def s_InPlaceAssignmentNode(self, n):
        return ast.AugAssign(target=self.store(n.lhs), op=BINOP[n.operator](), value=self.expr(n.rhs))

    def s_IfStatNode(self, n):
        orelse = self.stats(n.else_clause) if n.else_clause is not None else []
        for c in reversed(n.if_clauses):
            i = ast.If(test=self.expr(c.condition), body=self.block(c.body), orelse=orelse)
            self.at(i, c)
            orelse = [i]
        return orelse[0]

    def s_WhileStatNode(self, n):
        return ast.While(test=self.expr(n.condition), body=self.block(n.body), orelse=self.stats(n.else_clause) if n.else_clause else [])

    def s_ForInStatNode(self, n):
        it = n.iterator.sequence
        return ast.For(target=self.store(n.target), iter=self.expr(it), body=self.block(n.body),
                       orelse=self.stats(n.else_clause) if n.else_clause else [])

    def s_ReturnStatNode(self, n):
        return ast.Return(value=self.expr(n.value) if n.value is not None else None)

    def s_RaiseStatNode(self, n):
        return ast.Raise(exc=self.expr(n.exc_type) if n.exc_type is not None else None, cause=None)

    def s_BreakStatNode(self, n):
        return ast.Break()

    def s_ContinueStatNode(self, n):
        return ast.Continue()

    def s_ExprStatNode(self, n):
        return ast.Expr(value=self.expr(n.expr))

    def s_GlobalNode(self, n):
        return ast.Global(names=list(n.names))

    def s_AssertStatNode(self, n):
        return ast.Assert(test=self.expr(n.condition), msg=None)

    def s_DelStatNode(self, n):
        return ast.Delete(targets=[self.store(a) for a in n.args])

    def s_GILStatNode(self, n):
        return self.stats(n.body)

    # ---- expressions
    def store(self, n):
        e = self.expr(n)
        for x in ast.walk(e):
            pass
        if isinstance(e, (ast.Name, ast.Attribute, ast.Subscript, ast.Tuple, ast.List)):
            e.ctx = ast.Store()
        return e

    def expr(self, n):
        k = type(n).__name__
        f = getattr(self, 'e_' + k, None)
        if f is None:
            if getattr(n, 'operator', None) in BINOP and hasattr(n, 'operand2'):
                return self.at(ast.BinOp(left=self.expr(n.operand1), op=BINOP[n.operator](), right=self.expr(n.operand2)), n)
            raise CyUnsupported('expression ' + k)
        return self.at(f(n), n)

    def e_NameNode(self, n):
        return ast.Name(id=str(n.name), ctx=ast.Load())

    def e_AttributeNode(self, n):
        return ast.Attribute(value=self.expr(n.obj), attr=str(n.attribute), ctx=ast.Load())

    def e_IndexNode(self, n):
        return ast.Subscript(value=self.expr(n.base), slice=self.expr(n.index), ctx=ast.Load())

    def e_SliceIndexNode(self, n):
        return ast.Subscript(value=self.expr(n.base), slice=ast.Slice(lower=self.expr(n.start) if n.start else None,
                             upper=self.expr(n.stop) if n.stop else None, step=None), ctx=ast.Load())

    def e_SliceNode(self, n):
        g = lambda x: None if x is None or type(x).__name__ == 'NoneNode' else self.expr(x)
        return ast.Slice(lower=g(n.start), upper=g(n.stop), step=g(n.step))

    def e_IntNode(self, n):
        return ast.Constant(int(str(n.value).rstrip('uUlL'), 0))

    def e_FloatNode(self, n):
        return ast.Constant(float(n.value))

    def e_BoolNode(self, n):
        return ast.Constant(bool(n.value))

    def e_NoneNode(self, n):
        return ast.Constant(None)

    def e_UnicodeNode(self, n):
        return ast.Constant(str(n.value))

    def e_BytesNode(self, n):
        return ast.Constant(str(n.value))

    def e_StringNode(self, n):
        return ast.Constant(str(n.value))

    def e_IdentifierStringNode(self, n):
        return ast.Constant(str(n.value))

    def e_UnaryMinusNode(self, n):
        return ast.UnaryOp(op=ast.USub(), operand=self.expr(n.operand))

    def e_UnaryPlusNode(self, n):
        return self.expr(n.operand)

    def e_NotNode(self, n):
        return ast.UnaryOp(op=ast.Not(), operand=self.expr(n.operand))

    def e_BoolBinopNode(self, n):
        return ast.BoolOp(op=ast.And() if n.operator == 'and' else ast.Or(), values=[self.expr(n.operand1), self.expr(n.operand2)])

    def e_PrimaryCmpNode(self, n):
        ops, comps = [CMP[n.operator]()], [self.expr(n.operand2)]
        c = n.cascade
        while c is not None:
            ops.append(CMP[c.operator]())
            comps.append(self.expr(c.operand2))
            c = c.cascade
        return ast.Compare(left=self.expr(n.operand1), ops=ops, comparators=comps)

    def e_CondExprNode(self, n):
        return ast.IfExp(test=self.expr(n.condition), body=self.expr(n.true_val), orelse=self.expr(n.false_val))

    def e_TypecastNode(self, n):
        t = self.ctype(n.base_type)
        c = ast.Call(func=ast.Name(id='__cast__', ctx=ast.Load()), args=[ast.Constant(t), self.expr(n.operand)], keywords=[])
        return c

    def e_SimpleCallNode(self, n):
        return ast.Call(func=self.expr(n.function), args=[self.expr(a) for a in n.args], keywords=[])

    def e_GeneralCallNode(self, n):
        pos = n.positional_args
        args = [self.expr(a) for a in pos.args] if hasattr(pos, 'args') else []
        kws = []
        if n.keyword_args is not None:
            for kv in n.keyword_args.key_value_pairs:
                kws.append(ast.keyword(arg=str(kv.key.value), value=self.expr(kv.value)))
        return ast.Call(func=self.expr(n.function), args=args, keywords=kws)

    def e_TupleNode(self, n):
        return ast.Tuple(elts=[self.expr(a) for a in n.args], ctx=ast.Load())

    def e_ListNode(self, n):
        return ast.List(elts=[self.expr(a) for a in n.args], ctx=ast.Load())

    def e_DictNode(self, n):
        return ast.Dict(keys=[self.expr(kv.key) for kv in n.key_value_pairs], values=[self.expr(kv.value) for kv in n.key_value_pairs])

    def comp_parts(self, loop):
        gens = []
        n = loop
        while True:
            k = type(n).__name__
            if k == 'ForInStatNode':
                gens.append(ast.comprehension(target=self.store(n.target), iter=self.expr(n.iterator.sequence), ifs=[], is_async=0))
                n = n.body
            elif k == 'IfStatNode' and len(n.if_clauses) == 1:
                gens[-1].ifs.append(self.expr(n.if_clauses[0].condition))
                n = n.if_clauses[0].body
            elif k == 'StatListNode' and len(n.stats) == 1:
                n = n.stats[0]
            elif k == 'ExprStatNode':
                n = n.expr
            elif k == 'YieldExprNode':
                return gens, self.expr(n.arg)
            elif k == 'ComprehensionAppendNode':
                return gens, self.expr(n.expr)
            else:
                raise CyUnsupported('comprehension ' + k)

    def e_GeneratorExpressionNode(self, n):
        gens, elt = self.comp_parts(n.loop)
        return ast.GeneratorExp(elt=elt, generators=gens)

    def e_ComprehensionNode(self, n):
        gens, elt = self.comp_parts(n.loop)
        return ast.ListComp(elt=elt, generators=gens)

    def e_ImportNode(self, n):
        raise CyUnsupported('import expression')


def load(path):
    return Cy(path).mod


if __name__ == '__main__':
    import sys
    for p in sys.argv[1:]:
        m = load(p)
        print(ast.unparse(m)[:100000])
        for f in m.body:
            if isinstance(f, ast.FunctionDef):
                print(f.name, f.cret, f.ctypes)
