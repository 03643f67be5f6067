"""Symbolic executor / verification condition generator for the Python and Cython sources of /repo.

One function is executed under its contract's precondition; calls to functions under contract are replaced by
"assert pre, havoc modifies, assume post", other repository functions are executed in line, loops are cut by
invariants (sidecar + inferred linear ones), every index, local variable, raise and assert gives an obligation.
"""
import ast, itertools, os
import copy as _copy
import z3
from .vals import *

MAXUNROLL = 40
DEBUG = bool(os.environ.get('VF_DEBUG'))
_fresh = itertools.count()


def fresh(name, sort):
    return z3.Const('%s!%d' % (name, next(_fresh)), sort)


def freshf(name, *sorts):
    return z3.Function('%s!%d' % (name, next(_fresh)), *sorts)


def has_q(t, cache={}):
    k = t.get_id()
    r = cache.get(k)
    if r is None:
        stack, seen, res = [t], set(), False
        while stack:
            x = stack.pop()
            if z3.is_quantifier(x):
                res = True
                break
            i = x.get_id()
            if i in seen:
                continue
            seen.add(i)
            stack.extend(x.children())
        cache[k] = (res, t)
        return res
    return r[0]


class State(object):
    __slots__ = ('envs', 'heap', 'pc', 'dead', 'ghost')

    def __init__(self):
        self.envs, self.heap, self.pc, self.dead, self.ghost = {}, {}, [], False, {}

    def copy(self):
        s = State()
        s.envs = {k: dict(v) for k, v in self.envs.items()}
        s.heap = dict(self.heap)
        s.pc = list(self.pc)
        s.ghost = dict(self.ghost)
        s.dead = self.dead
        return s

    def set(self, o):
        self.envs, self.heap, self.pc, self.dead, self.ghost = o.envs, o.heap, o.pc, o.dead, o.ghost

    def assume(self, t):
        if t is True:
            return
        if t is False:
            t = z3.BoolVal(False)
        if z3.is_true(t):
            return
        self.pc.append((False, t))

    def guard(self, t):
        if t is True:
            return
        if t is False:
            t = z3.BoolVal(False)
        if z3.is_true(t):
            return
        self.pc.append((True, t))

    def facts(self):
        return [t for _, t in self.pc]


class Frame(object):
    __slots__ = ('fid', 'fn', 'lang', 'ctypes', 'mod', 'loops', 'parent', 'yielder', 'locals', 'glob', 'nonloc')

    def __init__(self, fid, fn, mod, lang, parent=None):
        self.fid, self.fn, self.mod, self.lang, self.parent = fid, fn, mod, lang, parent
        self.ctypes = {}
        self.loops = []
        self.yielder = None
        self.locals = set()
        self.glob = set()
        self.nonloc = set()


class Obl(object):
    __slots__ = ('name', 'pc', 'goal', 'fn', 'line', 'kind', 'hint', 'logic')

    def __init__(self, name, pc, goal, fn, line, kind):
        self.name, self.pc, self.goal, self.fn, self.line, self.kind = name, pc, goal, fn, line, kind

    def id(self):
        return '%s:%s' % (self.fn, self.name)


def assigned_names(node):
    """names bound by the function body itself (not nested functions)"""
    out, glob, nonloc = set(), set(), set()

    def walk(n, top=False):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and not top:
            out.add(n.name)
            return
        if isinstance(n, (ast.Lambda, ast.GeneratorExp, ast.ListComp, ast.DictComp, ast.SetComp)):
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        if isinstance(n, ast.Global):
            glob.update(n.names)
        if isinstance(n, ast.Nonlocal):
            nonloc.update(n.names)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                out.add((a.asname or a.name).split('.')[0])
        if isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        for c in ast.iter_child_nodes(n):
            walk(c)
    for s in node.body:
        walk(s)
    return out - glob - nonloc, glob, nonloc


def unrolled(s):
    """statement whose value is (or is called with) a list comprehension -> ([assignment, loop, statement], names)"""
    v = s.value
    while True:
        if isinstance(v, ast.ListComp):
            comp = v
            break
        if isinstance(v, ast.Call) and not v.keywords and len(v.args) == 1 and isinstance(v.func, (ast.Name, ast.Attribute)):
            f = v.func
            while isinstance(f, ast.Attribute):
                f = f.value
            if not isinstance(f, ast.Name):
                return None
            if isinstance(v.args[0], ast.GeneratorExp) and isinstance(v.func, ast.Name) and v.func.id in ('list', 'tuple', 'sum', 'max', 'min', 'dict', 'set'):
                comp = v.args[0]
                break
            v = v.args[0]
            continue
        return None
    if len(comp.generators) != 1 or comp.generators[0].is_async:
        return None
    u = '__%d_' % next(UNROLL)
    g = comp.generators[0]
    own = {n.id for n in ast.walk(g.target) if isinstance(n, ast.Name)}

    class Ren(ast.NodeTransformer):
        def visit_Name(self, n):
            return ast.copy_location(ast.Name(id=u + n.id, ctx=n.ctx), n) if n.id in own else n

        def visit_arg(self, n):
            return ast.copy_location(ast.arg(arg=u + n.arg), n) if n.arg in own else n
    ren = lambda n: Ren().visit(_copy.deepcopy(n))
    lst = u + 'list'
    put = ast.Expr(value=ast.Call(func=ast.Attribute(value=ast.Name(id=lst, ctx=ast.Load()), attr='append', ctx=ast.Load()),
                                  args=[ren(comp.elt)], keywords=[]))
    inner = [put]
    for c in reversed(g.ifs):
        inner = [ast.If(test=ren(c), body=inner, orelse=[])]
    loop = ast.For(target=ren(g.target), iter=g.iter, body=inner, orelse=[])
    first = ast.Assign(targets=[ast.Name(id=lst, ctx=ast.Store())], value=ast.List(elts=[], ctx=ast.Load()))

    last = _copy.copy(s)

    def put_in(n):
        if n is comp:
            return ast.Name(id=lst, ctx=ast.Load())
        m = _copy.copy(n)
        m.args = [put_in(n.args[0])]
        return m
    last.value = put_in(s.value)
    last.unrolled = True
    out = [first, loop, last]
    for b in out[:2]:
        ast.copy_location(b, s)
        ast.fix_missing_locations(b)
    ast.fix_missing_locations(last)
    return out, {u + n for n in own} | {lst}


UNROLL = itertools.count(1)


def is_generator(node):
    def walk(n):
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.GeneratorExp, ast.ListComp)):
            return False
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        return any(walk(c) for c in ast.iter_child_nodes(n))
    return any(walk(s) for s in node.body)


def has_nested(node):
    return any(isinstance(n, (ast.FunctionDef, ast.Lambda)) for s in node.body for n in ast.walk(s))


class LoopSpec(object):
    """inv(c) -> [(name, formula)] must hold at the head; cand(c) -> optional formulas (kept when inductive)"""

    def __init__(self, inv=None, cand=None, repr=None, exit=None):
        self.inv, self.cand, self.repr, self.exit = inv or (lambda c: []), cand or (lambda c: []), repr or {}, exit


class LoopCtx(object):
    def __init__(self, ex, st, entry, k, fr, outer, n=None, mod=(), mod_heap=()):
        self.mod, self.mod_heap = mod, mod_heap
        self.ex, self.st, self.entry, self.k, self.fr, self.outer, self.n = ex, st, entry, k, fr, outer, n
        self.call = ex.top

    def up(self, i=1):
        return self.outer[-i]

    def at(self, st, k):
        return LoopCtx(self.ex, st, self.entry, k, self.fr, self.outer, self.n, self.mod, self.mod_heap)

    def entered(self, f, name):
        """local variable with a value when the loop is entered and modified by the loop"""
        return (f, name) in self.mod and not isinstance(self.entry.envs.get(f, {}).get(name, UNDEF), (Undef, PUndef))

    def content(self, ref, st=None):
        return (st or self.st).heap[ref.id]

    def locals(self, st=None):
        """live locals of all frames, innermost last"""
        return (st or self.st).envs


class Exec(object):
    def __init__(self, repo, lib, contracts=None, fp='round', glue=None):
        self.repo, self.lib = repo, lib
        self.contracts = contracts or {}
        self.fp = fp
        self.obls = []
        self.quiet = 0
        self.shape_only = 0
        self.ids = itertools.count(1)
        self.excs = [[]]
        self.modstate = State()
        self.modloaded = {}
        self.looppath = ()
        self.loopcnt = {}
        self.loopctx = []
        self.loopspecs = {}
        self.depth = 0
        self.top = None
        self.topname = '?'
        self.curline = 0
        self.used_contracts = set()
        self.inlined = set()
        self.opaque_used = set()
        self.stats = {'houdini': 0, 'quick': 0}
        self.glue = glue
        self.events = None
        self.unsup = []

    # ------------------------------------------------------------------ obligations
    def obl(self, st, name, goal, kind='post', node=None):
        if self.quiet or self.shape_only:
            return
        goal = toB(goal)
        if z3.is_true(goal):
            g = goal
        line = getattr(node, 'lineno', self.curline)
        self.obls.append(Obl(name, [t for _, t in st.pc], goal, self.topname, line, kind))

    def need(self, st, name, goal, kind='safety', node=None):
        """obligation, then assumed"""
        if goal is True or (not isinstance(goal, bool) and z3.is_true(goal)):
            return
        self.obl(st, name, goal, kind, node)
        st.assume(toB(goal))

    # ------------------------------------------------------------------ quick checks
    def provable(self, st, goal, ms=400, quant=False, extra=()):
        if isinstance(goal, bool):
            if goal:
                return True
            goal = z3.BoolVal(False)
        b = boolval(goal)
        if b is True:
            return True
        self.stats['quick'] += 1
        s = z3.SimpleSolver() if False else z3.Solver()
        s.set('timeout', ms)
        for _, t in st.pc:
            if quant or not has_q(t):
                s.add(t)
        for t in extra:
            s.add(t)
        s.add(z3.Not(goal))
        return s.check() == z3.unsat

    # ------------------------------------------------------------------ heap
    def alloc(self, st, content):
        i = next(self.ids)
        st.heap[i] = content
        return Ref(i)

    def content(self, st, ref):
        return st.heap[ref.id]

    # ------------------------------------------------------------------ merging
    def merge_val(self, g, a, b):
        if a is b:
            return a
        if isinstance(a, BadV):
            return a
        if isinstance(b, BadV):
            return b
        if type(a) is type(b) and isinstance(a, (N, Op, Uni, PRef)) and self.same(a, b):
            return a
        if isinstance(a, Undef) or isinstance(b, Undef) or isinstance(a, PUndef) or isinstance(b, PUndef):
            wa, va = (z3.BoolVal(True), None) if isinstance(a, Undef) else (a.when, a.v) if isinstance(a, PUndef) else (z3.BoolVal(False), a)
            wb, vb = (z3.BoolVal(True), None) if isinstance(b, Undef) else (b.when, b.v) if isinstance(b, PUndef) else (z3.BoolVal(False), b)
            w = simp(z3.If(g, wa, wb))
            if isinstance(a, Undef):
                v = vb
            elif isinstance(b, Undef):
                v = va
            else:
                v = self.merge_val(g, va, vb)
            if z3.is_false(w):
                return v
            return PUndef(w, v)
        if is_num(a) and is_num(b):
            if not isinstance(a, N) and not isinstance(b, N) and type(a) is type(b) and a == b:
                return a
            ka, kb = kind(a), kind(b)
            if ka == kb:
                k = ka
                if k == 'bool':
                    return mk(z3.If(g, term(a), term(b)), 'bool')
                return mk(z3.If(g, term(a), term(b)), k)
            if ka in INTK and kb in INTK:
                k = 'int'
                if ka == 'int' and not isinstance(a, N):
                    k = kb
                if kb == 'int' and not isinstance(b, N):
                    k = ka
                return mk(z3.If(g, iterm(a), iterm(b)), k)
            if ka == 'bool' and kb in INTK or kb == 'bool' and ka in INTK:
                return Uni([(g, a), (NOT(g), b)])
            return N(z3.If(g, rterm(a), rterm(b)), 'f8' if ('f8' in (ka, kb)) else 'float')
        if type(a) is type(b):
            if isinstance(a, str) and a == b:
                return a
            if isinstance(a, tuple) and len(a) == len(b):
                return tuple(self.merge_val(g, x, y) for x, y in zip(a, b))
            if isinstance(a, Ref) and a.id == b.id:
                return a
            if isinstance(a, StructV) and a.name == b.name:
                return StructV(a.name, {k: self.merge_val(g, a.f[k], b.f[k]) for k in a.f})
            if isinstance(a, Op):
                if a.t.eq(b.t):
                    return a
                return Op(z3.If(g, a.t, b.t), a.tag)
            if isinstance(a, NT) and a.cls is b.cls:
                return NT(a.cls, [self.merge_val(g, x, y) for x, y in zip(a.vals, b.vals)])
            if isinstance(a, Opt):
                return Opt(simp(z3.If(g, a.isnone, b.isnone)), self.merge_val(g, a.v, b.v))
            if isinstance(a, DictV) and list(a.d) == list(b.d):
                return DictV({k: self.merge_val(g, a.d[k], b.d[k]) for k in a.d})
            if isinstance(a, DictV):
                ks = list(a.d) + [k for k in b.d if k not in a.d]
                return DictV({k: self.merge_val(g, a.d.get(k, UNDEF), b.d.get(k, UNDEF)) for k in ks})
            if isinstance(a, SeqV):
                if z3.is_int_value(a.n) and a.n.as_long() == 0:
                    return SeqV(z3.If(g, a.n, b.n), b.at)
                if z3.is_int_value(b.n) and b.n.as_long() == 0:
                    return SeqV(z3.If(g, a.n, b.n), a.at)
                return SeqV(z3.If(g, a.n, b.n), lambda k: self.merge_val(g, a.at(k), b.at(k)))
            if isinstance(a, StrOf):
                return StrOf(self.merge_val(g, a.v, b.v))
            if isinstance(a, Joined) and a.sep == b.sep:
                return Joined(a.sep, self.merge_val(g, a.s, b.s))
            if isinstance(a, (Fn, BI, DT, ModV, Cls, EnumMember)) and (a is b or a == b):
                return a
            if isinstance(a, Fn) and a.node is b.node and a.env is b.env:
                return a
            if isinstance(a, RecView) and a.ref == b.ref:
                return RecView(a.ref, z3.If(g, a.idx, b.idx))
            if isinstance(a, PRef) and a.id == b.id and len(a.path) == len(b.path):
                p = []
                for x, y in zip(a.path, b.path):
                    if isinstance(x, str) or isinstance(y, str):
                        if x != y:
                            return Uni([(g, a), (NOT(g), b)])
                        p.append(x)
                    elif isinstance(x, KeyS) or isinstance(y, KeyS):
                        kx, ky = (z if isinstance(z, KeyS) else KeyS(z3.BoolVal(False), z) for z in (x, y))
                        p.append(KeyS(z3.If(g, kx.isnone, ky.isnone), z3.If(g, kx.t, ky.t)))
                    else:
                        p.append(z3.If(g, x, y))
                return PRef(a.id, p)
            if a is None:
                return a
        if a is None or b is None or isinstance(a, Opt) or isinstance(b, Opt):
            na, va = (z3.BoolVal(True), None) if a is None else (a.isnone, a.v) if isinstance(a, Opt) else (z3.BoolVal(False), a)
            nb, vb = (z3.BoolVal(True), None) if b is None else (b.isnone, b.v) if isinstance(b, Opt) else (z3.BoolVal(False), b)
            v = va if vb is None else vb if va is None else self.merge_val(g, va, vb)
            return Opt(simp(z3.If(g, na, nb)), v)
        if isinstance(a, Uni) and self.same(a, b):
            return a
        alts = []
        for gg, v in ((g, a), (NOT(g), b)):
            if isinstance(v, Uni):
                alts += [(AND(gg, h), w) for h, w in v.alts]
            else:
                alts.append((gg, v))
        return Uni(alts)

    def merge_content(self, g, a, b):
        if a is b:
            return a
        if type(a) is not type(b):
            if isinstance(a, (ListC, SeqC)) and isinstance(b, (ListC, SeqC)):
                return self.merge_content(g, self.to_seq(a), self.to_seq(b))
            if isinstance(a, (DictC, MapC)) and isinstance(b, (DictC, MapC)):
                return self.merge_content(g, self.lib.as_map(self, a), self.lib.as_map(self, b))
            if isinstance(a, (ListC, TreeC)) and isinstance(b, (ListC, TreeC)):
                return TreeC(self.merge_val(g, self.lib.as_seqv(self, a), self.lib.as_seqv(self, b)))
            raise Unsupported('merge of %s and %s' % (type(a).__name__, type(b).__name__))
        if isinstance(a, ArrC):
            if a.fn is b.fn and a.shape == b.shape:
                return a
            if isinstance(a.fn, dict):
                f = {}
                for k in a.fn:
                    f[k] = a.fn[k] if a.fn[k] is b.fn[k] else (lambda fa, fb: lambda *i: z3.If(g, fa(*i), fb(*i)))(a.fn[k], b.fn[k])
                return ArrC(a.dt, a.shape, f, a.tag if a.tag == b.tag else None)
            fa, fb = a.fn, b.fn
            shape = [self.merge_val(g, x, y) for x, y in zip(a.shape, b.shape)]
            if a.dt.k != b.dt.k:
                if a.dt.k in FLTK and b.dt.k in FLTK:
                    return ArrC(DT('f8'), shape, lambda *i: z3.If(g, fa(*i), fb(*i)))
                raise Unsupported('merge of arrays of different type')
            return ArrC(a.dt, shape, lambda *i: z3.If(g, fa(*i), fb(*i)), a.tag if a.tag == b.tag else None)
        if isinstance(a, ListC):
            p = 0
            while p < len(a.items) and p < len(b.items) and a.items[p][0] is b.items[p][0] and a.items[p][1] is b.items[p][1]:
                p += 1
            ra, rb = a.items[p:], b.items[p:]
            if len(ra) == len(rb) and all(x[0] is None and y[0] is None for x, y in zip(ra, rb)):
                return ListC(a.items[:p] + tuple((None, self.merge_val(g, x[1], y[1])) for x, y in zip(ra, rb)))
            ex = [(g if h is None else AND(g, h), v) for h, v in ra] + [(NOT(g) if h is None else AND(NOT(g), h), v) for h, v in rb]
            return ListC(a.items[:p] + tuple(ex))
        if isinstance(a, SeqC):
            if a.at is b.at and a.n is b.n:
                return a
            return SeqC(z3.If(g, a.n, b.n), lambda k: self.merge_val(g, a.at(k), b.at(k)))
        if isinstance(a, BagC):
            if a.base is b.base:
                p = 0
                while p < len(a.items) and p < len(b.items) and a.items[p] is b.items[p]:
                    p += 1
                return BagC(a.base_nonempty, a.base, a.sample, a.items[:p] + tuple((g if h is None else AND(g, h), t) for h, t in a.items[p:])
                            + tuple((NOT(g) if h is None else AND(NOT(g), h), t) for h, t in b.items[p:]))
            return BagC(z3.If(g, a.nonempty, b.nonempty), lambda *x: z3.If(g, a.mem(*x), b.mem(*x)), a.sample)
        if isinstance(a, DictC):
            d = {}
            for k in list(a.d) + [k for k in b.d if k not in a.d]:
                ga, va = a.d.get(k, (z3.BoolVal(False), UNDEF))
                gb, vb = b.d.get(k, (z3.BoolVal(False), UNDEF))
                if ga is None and gb is None:
                    gg = None
                else:
                    gg = simp(z3.If(g, z3.BoolVal(True) if ga is None else ga, z3.BoolVal(True) if gb is None else gb))
                    if z3.is_true(gg):
                        gg = None
                v = vb if isinstance(va, Undef) else va if isinstance(vb, Undef) else self.merge_val(g, va, vb)
                d[k] = (gg, v)
            return DictC(d)
        if isinstance(a, ObjC):
            return ObjC(a.cls, {k: self.merge_val(g, a.attrs.get(k, UNDEF), b.attrs.get(k, UNDEF)) for k in list(a.attrs) + [x for x in b.attrs if x not in a.attrs]})
        if isinstance(a, FamC):
            return FamC(a.n, lambda i: z3.If(g, a.ln(i), b.ln(i)), lambda i, k: self.merge_val(g, a.at(i, k), b.at(i, k)))
        if isinstance(a, TreeC):
            return TreeC(self.merge_val(g, a.v, b.v))
        if isinstance(a, MapC):
            if a.dom is b.dom and a.val is b.val and a.none is b.none:
                return a
            return MapC(lambda k: z3.If(g, a.dom(k), b.dom(k)), lambda k: self.merge_val(g, a.val(k), b.val(k)), a.factory, a.tag,
                        none=(simp(z3.If(g, a.none[0], b.none[0])), self.lib.under(self.merge_val(g, a.none[1], b.none[1]))))
        if isinstance(a, LinkC):
            v = self.merge_val(g, a.to, b.to)
            if isinstance(v, PRef):
                return LinkC(v)
        raise Unsupported('merge of ' + type(a).__name__)

    def merge(self, sts):
        sts = [s for s in sts if s is not None and not s.dead]
        if not sts:
            return None
        if len(sts) == 1:
            return sts[0]
        # drop states whose guards are syntactically false
        p = 0
        n = min(len(s.pc) for s in sts)
        while p < n and all(s.pc[p] is sts[0].pc[p] for s in sts[1:]):
            p += 1
        conds = [AND(*[t for g, t in s.pc[p:] if g]) for s in sts]
        live = [(s, c) for s, c in zip(sts, conds) if boolval(c) is not False]
        if len(live) < len(sts):
            if not live:
                return None
            if len(live) == 1:
                return live[0][0]
            sts, conds = [s for s, _ in live], [c for _, c in live]
        out = State()
        out.pc = list(sts[0].pc[:p])
        o = simp(OR(*conds)) if len(conds) > 1 else conds[0]
        if not z3.is_true(o):
            if len(conds) == 2 and (z3.is_not(conds[0]) and conds[0].arg(0).eq(conds[1]) or z3.is_not(conds[1]) and conds[1].arg(0).eq(conds[0])):
                pass
            else:
                out.pc.append((True, OR(*conds)))
        for s, c in zip(sts, conds):
            for g, t in s.pc[p:]:
                if not g:
                    out.pc.append((False, z3.Implies(c, t)))
        acc = sts[-1]
        envs, heap, ghost = acc.envs, acc.heap, acc.ghost
        for s, c in reversed(list(zip(sts[:-1], conds[:-1]))):
            ne = {}
            for f in list(s.envs) + [f for f in envs if f not in s.envs]:
                if f not in s.envs:
                    ne[f] = dict(envs[f])
                    continue
                if f not in envs:
                    ne[f] = dict(s.envs[f])
                    continue
                x, y = s.envs[f], envs[f]
                d = {}
                for nme in list(x) + [q for q in y if q not in x]:
                    a, b = x.get(nme, UNDEF), y.get(nme, UNDEF)
                    d[nme] = a if a is b else self.merge_val(c, a, b)
                ne[f] = d
            envs = ne
            nh = {}
            for i in list(s.heap) + [i for i in heap if i not in s.heap]:
                if i not in s.heap:
                    nh[i] = heap[i]
                elif i not in heap:
                    nh[i] = s.heap[i]
                else:
                    a, b = s.heap[i], heap[i]
                    nh[i] = a if a is b else self.merge_content(c, a, b)
            heap = nh
            ng = {}
            for kx in list(s.ghost) + [q for q in ghost if q not in s.ghost]:
                a, b = s.ghost.get(kx), ghost.get(kx)
                ng[kx] = a if a is b else self.merge_ghost(c, a, b)
            ghost = ng
        out.envs, out.heap, out.ghost = {k: dict(v) for k, v in envs.items()}, dict(heap), dict(ghost)
        return out

    def merge_ghost(self, c, a, b):
        if a is None or b is None:
            return b if a is None else a
        if callable(a) and callable(b):
            return lambda *x: z3.If(c, a(*x), b(*x))
        if isinstance(a, tuple) and isinstance(b, tuple):
            # event traces
            p = 0
            while p < len(a) and p < len(b) and a[p] is b[p]:
                p += 1
            return a[:p] + tuple((('if', c) + tuple([e]))if True else e for e in a[p:]) + tuple(('if', NOT(c), e) for e in b[p:])
        if isinstance(a, z3.ExprRef):
            return z3.If(c, a, b)
        raise Unsupported('merge of ghost state')

    # ------------------------------------------------------------------ truth
    def truth(self, v, st):
        if isinstance(v, bool):
            return v
        if v is None:
            return False
        if isinstance(v, (int, float, str, tuple)):
            return bool(v)
        if isinstance(v, N):
            if v.k == 'bool':
                b = boolval(v.t)
                return v.t if b is None else b
            if v.k in INTK:
                t = v.t != 0
                b = boolval(t)
                return t if b is None else b
            return v.t != 0
        if isinstance(v, Opt):
            b = boolval(v.isnone)
            if b is True:
                return False
            t = self.truth(v.v, st)
            return simp(AND(NOT(v.isnone), toB(t)))
        if isinstance(v, Uni):
            return simp(OR(*[AND(g, toB(self.truth(x, st))) for g, x in v.alts]))
        if isinstance(v, (StructV, Fn, BI, Cls, NTCls, ModV, DT, EnumMember, Null)):
            return True
        if isinstance(v, Op):
            return self.lib.truth_op(self, st, v)
        if isinstance(v, NT):
            return len(v.vals) > 0
        if isinstance(v, Ref):
            c = st.heap[v.id]
            if isinstance(c, ListC):
                r = simp(OR(*[z3.BoolVal(True) if g is None else g for g, _ in c.items])) if c.items else False
                b = boolval(r) if not isinstance(r, bool) else r
                return r if b is None else b
            if isinstance(c, SeqC):
                return c.n > 0
            if isinstance(c, BagC):
                return c.nonempty
            if isinstance(c, DictC):
                r = simp(OR(*[z3.BoolVal(True) if g is None else g for g, _ in c.d.values()])) if c.d else False
                b = boolval(r) if not isinstance(r, bool) else r
                return r if b is None else b
            if isinstance(c, ObjC):
                return True
            if isinstance(c, TreeC):
                return self.truth_tree(c.v)
            raise Unsupported('truth value of %s' % type(c).__name__)
        if isinstance(v, PRef):
            return self.truth_tree(self.lib.deref(self, st, v, raw=True))
        if isinstance(v, (SeqV, DictV)):
            return self.truth_tree(v)
        raise Unsupported('truth value of %r' % (v,))

    def truth_tree(self, v):
        if isinstance(v, DictV):
            return len(v.d) > 0
        if isinstance(v, SeqV):
            return v.n > 0
        raise Unsupported('truth of tree')

    # ------------------------------------------------------------------ numbers
    def wrap(self, st, t, k):
        lo, hi = RANGE[k]
        if z3.is_int_value(t):
            v = t.as_long()
            m = hi - lo + 1
            return z3.IntVal((v - lo) % m + lo)
        inr = AND(t >= lo, t <= hi)
        if k.startswith('i'):
            # signed overflow / narrowing is excluded by obligation
            return t
        if self.provable(st, inr):
            return t
        m = hi - lo + 1
        return z3.If(t < 0, t + m, z3.If(t >= m, t - m, t))

    def ckind(self, v):
        """C type of an operand in a Cython function (None = Python object)"""
        if isinstance(v, N):
            if v.k in RANGE or v.k in ('f4', 'f8'):
                return v.k
            if v.k == 'bool':
                return 'i4'
            return None
        if isinstance(v, bool):
            return 'i4'
        if isinstance(v, int):
            return 'lit'
        if isinstance(v, float):
            return 'f8'
        return None

    def rnd(self, t, k):
        """value after rounding to kind k"""
        if self.fp == 'real':
            return t
        if k in ('f8', 'float'):
            return R8(t)
        if k == 'f4':
            return R4(t)
        return t

    def arith(self, op, a, b, st, lang='py', node=None):
        if isinstance(a, Uni):
            return self.uni(a, lambda x: self.arith(op, x, b, st, lang, node))
        if isinstance(b, Uni):
            return self.uni(b, lambda y: self.arith(op, a, y, st, lang, node))
        if isinstance(a, Ref) and isinstance(st.heap[a.id], ObjC):
            h = st.heap[a.id].attrs.get('__%s__' % type(op).__name__.lower())
            if isinstance(h, BI):
                return h.f(self, st, [b], {})
        if isinstance(a, PUndef):
            self.need(st, 'operand is defined', NOT(a.when), node=node)
            a = a.v
        if isinstance(b, PUndef):
            self.need(st, 'operand is defined', NOT(b.when), node=node)
            b = b.v
        if isinstance(a, Opt):
            self.need(st, 'operand is not None', NOT(a.isnone), node=node)
            a = a.v
        if isinstance(b, Opt):
            self.need(st, 'operand is not None', NOT(b.isnone), node=node)
            b = b.v
        o = type(op).__name__
        if is_num(a) and is_num(b):
            return self.num(o, a, b, st, lang, node)
        return self.lib.binop(self, st, o, a, b, node)

    def uni(self, u, f):
        r = None
        for g, v in reversed(u.alts):
            x = f(v)
            r = x if r is None else self.merge_val(g, x, r)
        return r

    def num(self, o, a, b, st, lang, node=None):
        if not isinstance(a, N) and not isinstance(b, N):
            if o in ('Div', 'FloorDiv', 'Mod') and b == 0:
                self.need(st, 'division by zero', z3.BoolVal(False), node=node)
                return 0
            if self.fp == 'real' and (isinstance(a, float) or isinstance(b, float)) and o != 'Pow':
                pass
            else:
                import operator as _op
                f = {'Add': _op.add, 'Sub': _op.sub, 'Mult': _op.mul, 'Div': _op.truediv, 'FloorDiv': _op.floordiv,
                     'Mod': _op.mod, 'Pow': _op.pow, 'BitAnd': _op.and_, 'BitOr': _op.or_, 'BitXor': _op.xor,
                     'LShift': _op.lshift, 'RShift': _op.rshift}[o]
                return f(a, b)
        ka, kb = kind(a), kind(b)
        if ka == 'bool' and kb == 'bool' and o in ('BitAnd', 'BitOr', 'BitXor'):
            x, y = term(a), term(b)
            return mk({'BitAnd': AND, 'BitOr': OR, 'BitXor': lambda p, q: z3.Xor(p, q)}[o](x, y), 'bool')
        isf = ka in FLTK or kb in FLTK or o == 'Div'
        if not isf:
            x, y = iterm(a), iterm(b)
            k = 'int'
            if lang == 'cy':
                ca, cb = self.ckind(a), self.ckind(b)
                if ca is not None and cb is not None:
                    k = self.cprom(ca, cb)
            elif ka in RANGE or kb in RANGE:
                k = ka if ka in RANGE else kb
                if ka in RANGE and kb in RANGE and ka != kb:
                    k = 'i8'
                elif ka not in RANGE or kb not in RANGE:
                    k = 'i8'
            if o == 'Add':
                t = x + y
            elif o == 'Sub':
                t = x - y
            elif o == 'Mult':
                t = self.mulint(x, y)
            elif o in ('FloorDiv', 'Mod'):
                if not z3.is_int_value(y) or y.as_long() <= 0:
                    self.need(st, 'divisor is positive', y > 0, node=node)
                t = x / y if o == 'FloorDiv' else x % y
                if lang == 'cy' and k != 'int':
                    self.need(st, 'C division of a non-negative number', x >= 0, node=node)
            elif o == 'Pow' and z3.is_int_value(y) and y.as_long() in (0, 1, 2, 3):
                t = z3.IntVal(1)
                for _ in range(y.as_long()):
                    t = t * x
            else:
                raise Unsupported('integer operator ' + o)
            if k in RANGE and lang == 'cy':
                t = self.wrap(st, t, k)
            return mk(t, k)
        x, y = rterm(a), rterm(b)
        # result kind
        fa, fb = ka, kb
        if lang == 'cy':
            ca, cb = self.ckind(a), self.ckind(b)
            k = 'f4' if (ca == 'f4' and cb in ('f4', 'lit', 'i4', 'u4', 'u1', 'i8', 'i2', 'u2')) or (cb == 'f4' and ca not in ('f8', None) and ca != 'f4' and ca in RANGE) else 'f8'
            if ca == 'f4' and cb == 'f4':
                k = 'f4'
            if 'f8' in (ca, cb) or ca is None or cb is None:
                k = 'f8'
        else:
            if ka == 'f4' and kb == 'f4':
                k = 'f4'
            elif ka in FLTK and kb in FLTK:
                k = 'f8'
            elif ka == 'f4' and (kb in ('int', 'bool') and not isinstance(b, N)):
                k = 'f8'
            else:
                k = 'f8'
        if o == 'Add':
            t = x + y
        elif o == 'Sub':
            t = x - y
        elif o == 'Mult':
            t = x * y
        elif o == 'Div':
            if not z3.is_rational_value(y) or y.as_fraction() == 0:
                self.need(st, 'divisor is not zero', y != 0, node=node)
            t = x / y
        elif o == 'Pow':
            if not isinstance(b, N) and b == 2:
                t = x * x
            elif not isinstance(a, N) and not isinstance(b, N):
                return float(a) ** b
            else:
                raise Unsupported('power')
        else:
            return self.lib.fbinop(self, st, o, a, b, node)
        if self.fp == 'uf':
            return N(self.lib.fpuf(o, k)(x, y), k)
        return N(self.rnd(t, k), k)

    def mulint(self, x, y):
        for p, q in ((x, y), (y, x)):
            if z3.is_int_value(p):
                return x * y
        for p, q in ((x, y), (y, x)):
            if z3.is_app(p) and p.decl().kind() == z3.Z3_OP_ITE and z3.is_int_value(p.arg(1)) and z3.is_int_value(p.arg(2)):
                return z3.If(p.arg(0), p.arg(1) * q, p.arg(2) * q)
        return x * y

    @staticmethod
    def cprom(a, b):
        rank = {'i1': 0, 'u1': 0, 'i2': 0, 'u2': 0, 'lit': 0, 'i4': 0, 'u4': 1, 'i8': 2, 'u8': 3, 'f4': 4, 'f8': 5}
        m = a if rank[a] >= rank[b] else b
        return 'i4' if rank[m] == 0 else m

    def compare(self, op, a, b, st, node=None):
        o = type(op).__name__
        if o in ('Is', 'IsNot'):
            r = self.is_same(a, b, st)
            return r if o == 'Is' else (not r if isinstance(r, bool) else mk(NOT(term(r)), 'bool'))
        if isinstance(a, PUndef):
            self.need(st, 'operand is defined', NOT(a.when), node=node)
            a = a.v
        if isinstance(b, PUndef):
            self.need(st, 'operand is defined', NOT(b.when), node=node)
            b = b.v
        if o in ('In', 'NotIn'):
            r = self.lib.contains(self, st, a, b)
            return r if o == 'In' else (not r if isinstance(r, bool) else mk(NOT(term(r)), 'bool'))
        if o in ('Eq', 'NotEq'):
            r = self.eq(a, b, st)
            return r if o == 'Eq' else (not r if isinstance(r, bool) else mk(NOT(term(r)), 'bool'))
        if isinstance(a, Uni):
            return self.uni(a, lambda x: self.compare(op, x, b, st, node))
        if isinstance(b, Uni):
            return self.uni(b, lambda y: self.compare(op, a, y, st, node))
        if isinstance(a, Opt):
            self.need(st, 'ordered operand is not None', NOT(a.isnone), node=node)
            a = a.v
        if isinstance(b, Opt):
            self.need(st, 'ordered operand is not None', NOT(b.isnone), node=node)
            b = b.v
        if is_num(a) and is_num(b):
            if not isinstance(a, N) and not isinstance(b, N):
                return {'Lt': a < b, 'LtE': a <= b, 'Gt': a > b, 'GtE': a >= b}[o]
            if kind(a) in FLTK or kind(b) in FLTK:
                x, y = rterm(a), rterm(b)
            else:
                x, y = iterm(a), iterm(b)
            t = {'Lt': lambda: x < y, 'LtE': lambda: x <= y, 'Gt': lambda: x > y, 'GtE': lambda: x >= y}[o]()
            return mk(t, 'bool')
        return self.lib.compare(self, st, o, a, b)

    def is_same(self, a, b, st):
        if b is None or a is None:
            x = a if b is None else b
            if x is None:
                return True
            if isinstance(x, Opt):
                return mk(x.isnone, 'bool')
            if isinstance(x, Uni):
                return mk(OR(*[AND(g, toB(term(self.is_same(v, None, st)))) for g, v in x.alts]), 'bool')
            if isinstance(x, Op):
                return self.lib.is_none_op(self, st, x)
            return False
        if isinstance(a, SymEnum) and isinstance(b, EnumMember):
            return mk(a.t == a.names.index(b.name), 'bool')
        if isinstance(b, SymEnum):
            return self.is_same(b, a, st)
        if isinstance(a, EnumMember) and isinstance(b, EnumMember):
            return a == b
        if isinstance(a, Ref) and isinstance(b, Ref):
            return a.id == b.id
        if isinstance(a, bool) and isinstance(b, bool):
            return a == b
        if isinstance(a, N) and a.k == 'bool' and isinstance(b, bool):
            return mk(a.t if b else NOT(a.t), 'bool')
        if isinstance(a, Uni):
            return self.uni(a, lambda x: self.is_same(x, b, st))
        return self.eq(a, b, st)

    def eq(self, a, b, st):
        if isinstance(a, Uni):
            return self.uni(a, lambda x: self.eq(x, b, st))
        if isinstance(b, Uni):
            return self.uni(b, lambda x: self.eq(a, x, st))
        if isinstance(a, Opt) or isinstance(b, Opt) or a is None or b is None:
            if a is None and b is None:
                return True
            na = z3.BoolVal(a is None) if not isinstance(a, Opt) else a.isnone
            nb = z3.BoolVal(b is None) if not isinstance(b, Opt) else b.isnone
            va = a.v if isinstance(a, Opt) else a
            vb = b.v if isinstance(b, Opt) else b
            if va is None or vb is None:
                return mk(AND(na, nb), 'bool')
            e = toB(term(self.eq(va, vb, st)))
            return mk(OR(AND(na, nb), AND(NOT(na), NOT(nb), e)), 'bool')
        if is_num(a) and is_num(b):
            if not isinstance(a, N) and not isinstance(b, N):
                return a == b
            ta, tb = term(a), term(b)
            if z3.is_bool(ta) and z3.is_bool(tb):
                return mk(ta == tb, 'bool')
            if kind(a) in FLTK or kind(b) in FLTK:
                return mk(rterm(a) == rterm(b), 'bool')
            return mk(iterm(a) == iterm(b), 'bool')
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            rs = [self.eq(x, y, st) for x, y in zip(a, b)]
            if all(isinstance(r, bool) for r in rs):
                return all(rs)
            return mk(AND(*[toB(term(r)) for r in rs]), 'bool')
        if isinstance(a, (DT, EnumMember)) and isinstance(b, (DT, EnumMember)):
            return a == b
        if isinstance(a, SymEnum) and isinstance(b, EnumMember) or isinstance(a, EnumMember) and isinstance(b, SymEnum):
            return self.is_same(a, b, st)
        if isinstance(a, ModV) and isinstance(b, ModV):
            return a == b
        return self.lib.eq(self, st, a, b)

    # ------------------------------------------------------------------ C coercions
    def coerce(self, v, t, st, fr, node=None):
        """value stored in a C variable of type t"""
        if t in ('object', 'list', 'void') or t is None:
            return v
        if isinstance(t, tuple):
            if t[0] in ('mv', 'buf'):
                return self.lib.as_buffer(self, st, v, t, node)
            if t[0] == 'struct':
                if isinstance(v, StructV):
                    return v if v.name == t[1] else StructV(t[1], dict(v.f))
                if isinstance(v, RecView):
                    return self.lib.rec_to_struct(self, st, v, t[1], fr)
                if isinstance(v, (PUndef, Undef)):
                    return v
                if isinstance(v, Opt):
                    self.need(st, 'struct is not None', NOT(v.isnone), node=node)
                    return v.v
            if t[0] == 'ext':
                return v
            raise Unsupported('coercion of %r to %r' % (v, t))
        if isinstance(v, Uni):
            return self.uni(v, lambda x: self.coerce(x, t, st, fr, node))
        if isinstance(v, Opt):
            self.need(st, 'C value is not None', NOT(v.isnone), node=node)
            v = v.v
        if t in RANGE:
            if not is_num(v):
                return self.lib.coerce_other(self, st, v, t)
            kv = kind(v)
            if kv == 'bool':
                v = N(iterm(v), 'int')
                kv = 'i4'
            if kv in FLTK:
                raise Unsupported('float to integer conversion')
            x = iterm(v)
            if kv == t:
                return v if isinstance(v, N) else N(x, t)
            lo, hi = RANGE[t]
            if kv == 'int' and isinstance(v, N):
                # Python object -> C raises OverflowError when out of range
                self.need(st, 'value fits the C type %s' % t, AND(x >= lo, x <= hi), node=node)
                return N(x, t)
            if t.startswith('u'):
                return N(self.wrap(st, x, t), t)
            if kv in RANGE and RANGE[kv][0] >= lo and RANGE[kv][1] <= hi:
                return N(x, t)
            if z3.is_int_value(x) and lo <= x.as_long() <= hi:
                return N(x, t)
            self.need(st, 'value fits the C type %s' % t, AND(x >= lo, x <= hi), node=node)
            return N(x, t)
        if t in ('f4', 'f8'):
            if not is_num(v):
                return self.lib.coerce_other(self, st, v, t)
            kv = kind(v)
            x = rterm(v)
            if kv == t or (t == 'f8' and kv in FLTK) or (kv in INTK and z3.is_int_value(iterm(v))):
                return N(x, t)
            if t == 'f8' and kv == 'bool':
                return N(x, t)
            if t == 'f8' and kv in INTK:
                return N(x, t)     # exact below 2**53: listed assumption
            return N(self.rnd(x, t), t)
        raise Unsupported('C type %r' % (t,))

    # ------------------------------------------------------------------ modules
    def load_module(self, name):
        """module-level statements are executed once; unsupported ones make their names unusable"""
        if name in self.modloaded:
            return self.modloaded[name]
        m = self.repo.module(name)
        if m is None:
            return None
        fr = Frame('mod:' + name, None, m, m.lang)
        fr.ctypes = getattr(m.tree, 'ctypes', {}) if m.lang == 'cy' else {}
        self.modloaded[name] = fr
        st = self.modstate
        st.envs[fr.fid] = {'__name__': name}
        q, self.quiet = self.quiet, 0
        obls, self.obls = self.obls, []
        for s in m.tree.body:
            names = [n.id for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)]
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                names = [s.name]
            bak = st.copy()
            try:
                r, outs = self.exec_stmt(s, st, fr)
                if r is None or outs:
                    raise Unsupported('module-level control flow')
                if r is not st:
                    st.set(r)
                st.pc = []
            except Unsupported as e:
                st.set(bak)
                for n in names:
                    st.envs[fr.fid][n] = BadV(str(e))
        self.obls = obls
        self.quiet = q
        return fr

    def getglobal(self, st, fid, name):
        """global of a module, seen from state st (modules may be loaded after st was created)"""
        env = st.envs.get(fid)
        if env is None or name not in env:
            base = self.modstate.envs.get(fid, {})
            if env is None:
                st.envs[fid] = env = {}
            if name in base:
                env[name] = base[name]
                self.pull(st, base[name])
        return env.get(name, UNDEF)

    def pull(self, st, v):
        """copy module-level heap objects reachable from v"""
        if isinstance(v, Ref) and v.id not in st.heap and v.id in self.modstate.heap:
            c = self.modstate.heap[v.id]
            st.heap[v.id] = c
            if isinstance(c, ListC):
                for _, x in c.items:
                    self.pull(st, x)
            elif isinstance(c, DictC):
                for _, x in c.d.values():
                    self.pull(st, x)
            elif isinstance(c, ObjC):
                for x in c.attrs.values():
                    self.pull(st, x)
        elif isinstance(v, tuple):
            for x in v:
                self.pull(st, x)

    def modattr(self, st, mod, attr):
        full = mod + '.' + attr
        if self.repo.path(mod):
            fr = self.load_module(mod)
            v = self.getglobal(st, fr.fid, attr)
            if not isinstance(v, Undef):
                return v
            if self.repo.path(full):
                self.load_module(full)
                return ModV(full)
            raise Unsupported('no attribute %s' % full)
        return self.lib.external(self, st, full)

    # ------------------------------------------------------------------ names
    def lookup(self, name, st, fr, node=None):
        f = fr
        while f is not None:
            env = st.envs.get(f.fid)
            if env is not None and name in env and name not in f.glob:
                v = env[name]
                return self.defined(v, name, st, node)
            if f.fn is not None and name in f.locals:
                if name in f.ctypes and isinstance(f.ctypes[name], tuple) and f.ctypes[name][0] == 'struct':
                    return UNDEF
                self.need(st, "local variable '%s' is assigned before it is read" % name, z3.BoolVal(False), node=node)
                st.dead = True
                return BadV('unassigned local ' + name)
            f = f.parent
        m = fr.mod
        fid = 'mod:' + m.name
        self.load_module(m.name)
        v = self.getglobal(st, fid, name)
        if not isinstance(v, Undef):
            return self.defined(v, name, st, node)
        return self.lib.builtin(self, name)

    def defined(self, v, name, st, node):
        if isinstance(v, BadV):
            raise Unsupported("value of '%s' not modelled (%s)" % (name, v.why))
        if isinstance(v, PUndef):
            self.need(st, "'%s' is assigned before it is read" % name, NOT(v.when), node=node)
            return v.v
        return v

    def setvar(self, name, v, st, fr, node=None):
        f = fr
        if name in fr.glob:
            fid = 'mod:' + fr.mod.name
            self.getglobal(st, fid, name)
            st.envs[fid][name] = v
            return
        if name in fr.nonloc:
            f = fr.parent
            while f is not None and name not in f.locals:
                f = f.parent
        if f.lang == 'cy' and name in f.ctypes:
            v = self.coerce(v, f.ctypes[name], st, f, node)
        st.envs.setdefault(f.fid, {})[name] = v

    # ------------------------------------------------------------------ statements
    def exec_block(self, stmts, st, fr):
        outs = []
        for s in stmts:
            if st is None or st.dead:
                return None, outs
            st, o = self.exec_stmt(s, st, fr)
            outs += o
        if st is not None and st.dead:
            st = None
        return st, outs

    def exec_stmt(self, s, st, fr):
        self.curline = getattr(s, 'lineno', self.curline)
        f = getattr(self, 's_' + type(s).__name__, None)
        if f is None:
            raise Unsupported('statement ' + type(s).__name__)
        mark = len(self.excs[-1])
        alt = None
        if isinstance(s, (ast.Assign, ast.Return, ast.AugAssign, ast.Expr)) and not getattr(s, 'unrolled', False):
            alt = unrolled(s)
        if alt is None:
            r = f(s, st, fr)
        else:
            keep, no, cnt, inl = st.copy(), len(self.obls), dict(self.loopcnt), set(self.inlined)
            try:
                r = f(s, st, fr)
            except Unsupported:
                # the comprehension as the loop it stands for
                st.set(keep)
                del self.obls[no:]
                del self.excs[-1][mark:]
                self.loopcnt = cnt
                self.inlined = inl
                body, names = alt
                fr.locals = set(fr.locals) | names
                r = self.exec_block(body, st, fr)
        outs = []
        if r is None:
            r = (st, [])
        new = self.excs[-1][mark:]
        if new:
            del self.excs[-1][mark:]
            outs = new
        a, b = r
        if a is not None and a.dead:
            a = None
        return a, outs + b

    def s_Pass(self, s, st, fr):
        return

    def s_Expr(self, s, st, fr):
        if isinstance(s.value, (ast.Yield,)):
            return self.do_yield(s.value, st, fr)
        if isinstance(s.value, ast.YieldFrom):
            raise Unsupported('yield from')
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, st, fr)

    def do_yield(self, y, st, fr):
        v = self.ev(y.value, st, fr) if y.value is not None else None
        if fr.yielder is None:
            raise Unsupported('yield outside a consumed generator')
        return fr.yielder(v, st)

    def s_Import(self, s, st, fr):
        for a in s.names:
            if a.asname:
                self.setvar(a.asname, ModV(a.name), st, fr)
            else:
                self.setvar(a.name.split('.')[0], ModV(a.name.split('.')[0]), st, fr)

    def s_ImportFrom(self, s, st, fr):
        if s.module == '__future__' or s.module == 'builtins':
            return
        base = s.module or ''
        if s.level:
            pk = fr.mod.name.split('.')
            if not fr.mod.is_pkg:
                pk = pk[:-1]
            pk = pk[:len(pk) - (s.level - 1)]
            base = '.'.join(pk + ([s.module] if s.module else []))
        for a in s.names:
            if a.name == '*':
                raise Unsupported('import *')
            full = base + '.' + a.name
            if self.repo.path(full) and not self.repo.path(base + '.__x'):
                # sub-module (unless the package defines the name)
                v = None
                fr2 = self.load_module(base) if self.repo.path(base) and base != fr.mod.name else None
                if fr2 is not None:
                    v = self.modstate.envs[fr2.fid].get(a.name)
                if v is None:
                    v = ModV(full)
                    self.load_module(full)
            elif self.repo.path(base):
                self.load_module(base)
                v = self.getglobal(st, 'mod:' + base, a.name)
                if isinstance(v, Undef):
                    raise Unsupported('import of %s' % full)
            else:
                v = self.lib.external(self, st, full)
            st.envs.setdefault(fr.fid, {})[a.asname or a.name] = v

    def s_FunctionDef(self, s, st, fr):
        for d in s.decorator_list:
            pass
        qual = (fr.mod.name + '.' + s.name) if fr.fn is None else fr.fn.qual + '.<locals>.' + s.name
        f = Fn(s, fr.mod, qual, fr if fr.fn is not None else None, fr.lang)
        f.defaults = [self.ev(d, st, fr) for d in s.args.defaults]
        st.envs.setdefault(fr.fid, {})[s.name] = f

    def s_ClassDef(self, s, st, fr):
        c = Cls(s, fr.mod, fr.mod.name + '.' + s.name)
        bases = [ast.unparse(b) for b in s.bases]
        enum = any(b.endswith('Enum') for b in bases)
        for b in s.body:
            if isinstance(b, ast.FunctionDef):
                f = Fn(b, fr.mod, c.qual + '.' + b.name, None, fr.lang)
                f.defaults = [self.ev(d, st, fr) for d in b.args.defaults]
                c.methods[b.name] = f
            elif isinstance(b, ast.Assign) and isinstance(b.targets[0], ast.Name):
                if enum:
                    c.consts[b.targets[0].id] = EnumMember(c.qual, b.targets[0].id)
                else:
                    c.consts[b.targets[0].id] = self.ev(b.value, st, fr)
        st.envs.setdefault(fr.fid, {})[s.name] = c

    def s_Assign(self, s, st, fr):
        v = self.ev(s.value, st, fr)
        for t in s.targets:
            self.assign(t, v, st, fr)

    def s_AnnAssign(self, s, st, fr):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, st, fr), st, fr)

    def s_AugAssign(self, s, st, fr):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, st, fr, s)
            rhs = self.ev(s.value, st, fr)
            inplace = self.lib.inplace(self, st, s.op, cur, rhs)
            if inplace:
                return
            self.setvar(t.id, self.arith(s.op, cur, rhs, st, fr.lang, s), st, fr, s)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, st, fr)
            cur = self.getattr(o, t.attr, st, fr, s)
            v = self.arith(s.op, cur, self.ev(s.value, st, fr), st, fr.lang, s)
            self.store_attr(t, o, v, st, fr)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, st, fr)
            i = self.ev_index(t.slice, st, fr)
            cur = self.lib.getitem(self, st, o, i, s)
            rhs = self.ev(s.value, st, fr)
            if self.lib.inplace(self, st, s.op, cur, rhs):
                return
            v = self.arith(s.op, cur, rhs, st, fr.lang, s)
            self.lib.setitem(self, st, o, i, v, s)
        else:
            raise Unsupported('augmented assignment target')

    def assign(self, t, v, st, fr):
        if isinstance(t, ast.Name):
            self.setvar(t.id, v, st, fr, t)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if any(isinstance(e, ast.Starred) for e in t.elts):
                raise Unsupported('starred target')
            vs = self.lib.unpack(self, st, v, len(t.elts))
            for e, x in zip(t.elts, vs):
                self.assign(e, x, st, fr)
        elif isinstance(t, ast.Attribute):
            self.store_attr(t, self.ev(t.value, st, fr) if not (isinstance(t.value, ast.Name) and self.is_struct_local(t.value.id, st, fr)) else None, v, st, fr)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, st, fr)
            i = self.ev_index(t.slice, st, fr)
            self.lib.setitem(self, st, o, i, v, t)
        else:
            raise Unsupported('assignment target ' + type(t).__name__)

    def is_struct_local(self, name, st, fr):
        v = st.envs.get(fr.fid, {}).get(name)
        if isinstance(v, StructV):
            return True
        ct = fr.ctypes.get(name)
        return isinstance(ct, tuple) and ct[0] == 'struct'

    def store_attr(self, t, o, v, st, fr):
        if isinstance(t.value, ast.Name) and self.is_struct_local(t.value.id, st, fr):
            cur = st.envs[fr.fid].get(t.value.id, UNDEF)
            ct = fr.ctypes.get(t.value.id)
            if isinstance(cur, PUndef):
                cur = cur.v
            sname = cur.name if isinstance(cur, StructV) else ct[1]
            fields = dict(self.structdef(fr.mod, sname))
            if not isinstance(cur, StructV):
                cur = StructV(sname, {k: UNDEF for k in fields})
            st.envs[fr.fid][t.value.id] = cur.with_(t.attr, self.coerce(v, fields.get(t.attr, 'object'), st, fr, t))
            return
        if isinstance(o, Ref) and isinstance(st.heap[o.id], ObjC):
            c = st.heap[o.id]
            d = dict(c.attrs)
            d[t.attr] = v
            st.heap[o.id] = ObjC(c.cls, d)
            return
        if isinstance(o, ModV) and self.repo.path(o.name):
            fr2 = self.load_module(o.name)
            self.getglobal(st, fr2.fid, t.attr)
            st.envs[fr2.fid][t.attr] = v
            return
        self.lib.setattr(self, st, o, t.attr, v)

    def structdef(self, mod, name):
        return mod.tree.structs[name]

    def s_Delete(self, s, st, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.lookup(t.id, st, fr, s)
                st.envs[fr.fid][t.id] = UNDEF
                st.envs[fr.fid].pop(t.id)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, st, fr)
                i = self.ev_index(t.slice, st, fr)
                self.lib.delitem(self, st, o, i, s)
            else:
                raise Unsupported('del target')

    def s_Global(self, s, st, fr):
        return

    s_Nonlocal = s_Global

    def s_Assert(self, s, st, fr):
        c = self.truth(self.ev(s.test, st, fr), st)
        if c is True:
            return
        self.need(st, 'assertion holds', toB(c), 'assert', s)
        if c is False:
            st.dead = True

    def s_Raise(self, s, st, fr):
        name = ''
        if s.exc is not None:
            e = s.exc
            name = ast.unparse(e.func if isinstance(e, ast.Call) else e)
        return None, [('exc', None, st, (name, s))]

    def s_Return(self, s, st, fr):
        v = self.ev(s.value, st, fr) if s.value is not None else None
        if st.dead:
            return None, []
        return None, [('ret', fr.fid, st, v)]

    def s_Break(self, s, st, fr):
        return None, [('brk', fr.loops[-1], st, None)]

    def s_Continue(self, s, st, fr):
        return None, [('cont', fr.loops[-1], st, None)]

    def s_If(self, s, st, fr):
        c = self.truth(self.ev(s.test, st, fr), st)
        if st.dead:
            return None, []
        if isinstance(c, bool):
            return self.exec_block(s.body if c else s.orelse, st, fr)
        return self.fork(c, st, lambda x: self.exec_block(s.body, x, fr), lambda x: self.exec_block(s.orelse, x, fr))

    def fork(self, c, st, f1, f2):
        a, b = st.copy(), st.copy()
        a.guard(c)
        b.guard(NOT(c))
        res = []
        for x, f in ((a, f1), (b, f2)):
            no = len(self.obls)
            exs = [list(e) for e in self.excs]
            try:
                res.append(f(x))
            except Unsupported:
                if not self.provable(x, False, ms=1500, quant=True):
                    raise
                del self.obls[no:]
                self.excs = exs
                res.append((None, []))
        (x, o1), (y, o2) = res
        return self.merge([x, y]), o1 + o2

    def s_Try(self, s, st, fr):
        self.excs.append([])
        try:
            x, outs = self.exec_block(s.body, st, fr)
        finally:
            pend = self.excs.pop()
        outs = pend + outs
        rest, caught = [], []
        for o in outs:
            (caught if o[0] == 'exc' and s.handlers else rest).append(o)
        outs = rest
        ends = [x]
        if x is not None and s.orelse:
            x, o = self.exec_block(s.orelse, x, fr)
            ends = [x]
            outs += o
        for o in caught:
            name = o[3][0]
            h = None
            for hh in s.handlers:
                hn = ast.unparse(hh.type) if hh.type is not None else None
                if hn is None or hn in ('Exception', 'BaseException') or hn == name or name in hn or self.lib.exc_sub(name, hn):
                    h = hh
                    break
            if h is None:
                outs.append(o)
                continue
            y, oo = self.exec_block(h.body, o[2], fr)
            outs += oo
            ends.append(y)
        m = self.merge(ends)
        if s.finalbody:
            no = []
            for o in outs:
                y, oo = self.exec_block(s.finalbody, o[2], fr)
                no += oo
                if y is not None:
                    no.append((o[0], o[1], y, o[3]))
            outs = no
            if m is not None:
                m, oo = self.exec_block(s.finalbody, m, fr)
                outs += oo
        return m, outs

    def s_With(self, s, st, fr):
        for it in s.items:
            v = self.ev(it.context_expr, st, fr)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, self.lib.enter(self, st, v), st, fr)
        x, outs = self.exec_block(s.body, st, fr)
        return x, outs

    # ------------------------------------------------------------------ loops
    def s_While(self, s, st, fr):
        tag = object()

        def head(x, k):
            c = self.truth(self.ev(s.test, x, fr), x)
            return c

        def body(x, k):
            fr.loops.append(tag)
            try:
                return self.exec_block(s.body, x, fr)
            finally:
                fr.loops.pop()
        # concrete conditions: unroll a little (while with constants)
        return self.loop(s, st, fr, tag, None, head, body)

    def s_For(self, s, st, fr):
        it = self.ev(s.iter, st, fr)
        return self.for_over(s, it, st, fr, lambda v, x: self.assign(s.target, v, x, fr))

    def for_over(self, s, it, st, fr, bind):
        tag = object()

        def body_with(v, x):
            bind(v, x)
            if x.dead:
                return None, []
            fr.loops.append(tag)
            try:
                return self.exec_block(s.body, x, fr)
            finally:
                fr.loops.pop()
        it = self.lib.iterable(self, st, it)
        if isinstance(it, GenV):
            return self.consume(s, it, st, fr, tag, body_with)
        if isinstance(it, list):
            # concrete list of (guard, value)
            outs, brks = [], []
            cur = st
            for g, v in it:
                if cur is None:
                    break
                if g is None:
                    nx, o = body_with(v, cur)
                    o2 = []
                    nxs = [nx]
                else:
                    a, b = cur.copy(), cur.copy()
                    a.guard(g)
                    b.guard(NOT(g))
                    nx, o = body_with(v, a)
                    nxs = [nx, b]
                for q in o:
                    if q[1] is tag and q[0] == 'brk':
                        brks.append(q[2])
                    elif q[1] is tag and q[0] == 'cont':
                        nxs.append(q[2])
                    else:
                        outs.append(q)
                cur = self.merge(nxs)
            if cur is not None and s.orelse:
                cur, o = self.exec_block(s.orelse, cur, fr)
                outs += o
            return self.merge([cur] + brks), outs
        if isinstance(it, IterV):
            if self.sum_loop(s, it, st, fr, bind) or self.keep_loop(s, it, st, fr, bind):
                return st, []
            return self.loop(s, st, fr, tag, it.n, None, lambda x, k: body_with(it.item(self, x, k), x))
        if isinstance(it, FiltV):
            def body(x, k):
                p = it.pred(self, x, k)
                a, b = x.copy(), x.copy()
                a.guard(p)
                b.guard(NOT(p))
                y, o = body_with(it.item(self, a, k), a)
                return self.merge([y, b]), o
            return self.loop(s, st, fr, tag, it.n, None, body)
        raise Unsupported('iteration over %r' % (it,))

    def sum_loop(self, s, it, st, fr, bind):
        """a loop that only adds a term per item to one number, as the sum it is (no loop contract needed)"""
        mypath = self.looppath + (self.loopcnt.get(self.looppath, 0),)
        if fr.lang != 'py' or getattr(s, 'orelse', None) or self.loopspecs.get(mypath) or self.loopspecs.get(len(mypath)):
            return False
        body = [b for b in s.body if not (isinstance(b, ast.Expr) and isinstance(b.value, ast.Constant) or isinstance(b, ast.Pass))]
        if not body or not all(isinstance(b, ast.Assign) and len(b.targets) == 1 and isinstance(b.targets[0], ast.Name) for b in body[:-1]):
            return False
        last = body[-1]
        if isinstance(last, ast.AugAssign) and isinstance(last.op, ast.Add) and isinstance(last.target, ast.Name):
            acc, term_ = last.target.id, last.value
        elif isinstance(last, ast.Assign) and len(last.targets) == 1 and isinstance(last.targets[0], ast.Name) and isinstance(last.value, ast.BinOp) \
                and isinstance(last.value.op, ast.Add) and isinstance(last.value.left, ast.Name) and last.value.left.id == last.targets[0].id:
            acc, term_ = last.targets[0].id, last.value.right
        else:
            return False
        temps = {b.targets[0].id for b in body[:-1]} | {n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)}
        used = [n.id for b in body[:-1] + [term_, s.target] for n in ast.walk(b) if isinstance(n, ast.Name)]
        if acc in used or acc in temps or acc in fr.glob or acc in fr.nonloc:
            return False
        cur = st.envs.get(fr.fid, {}).get(acc)
        if not is_num(cur):
            return False
        keep, no, cnt, inl, exc = st.copy(), len(self.obls), dict(self.loopcnt), set(self.inlined), len(self.excs[-1])

        def item(ex, x, k):
            h0 = dict(x.heap)
            bind(it.item(self, x, k), x)
            for b in body[:-1]:
                y, o = self.exec_stmt(b, x, fr)
                if y is None or o or y is not x:
                    raise Unsupported('body of a sum')
            v = self.ev(term_, x, fr)
            if x.dead or any(x.heap.get(i) is not c for i, c in h0.items()) or not is_num(v):
                raise Unsupported('body of a sum')
            return v
        try:
            r = self.lib.summed(self, st, IterV(it.n, item), cur)
            if len(self.excs[-1]) != exc:
                raise Unsupported('body of a sum')
        except Unsupported:
            st.set(keep)
            del self.obls[no:]
            del self.excs[-1][exc:]
            self.loopcnt, self.inlined = cnt, inl
            return False
        for n in temps:
            st.envs.get(fr.fid, {}).pop(n, None)
        st.envs[fr.fid][acc] = r
        return True

    def keep_loop(self, s, it, st, fr, bind):
        """a loop that only appends the items that satisfy a condition to an empty list, as the filter it is"""
        if fr.lang != 'py' or getattr(s, 'orelse', None) or not isinstance(s, ast.For) or not isinstance(s.target, ast.Name):
            return False
        x = s.target.id
        if len(s.body) == 1 and isinstance(s.body[0], ast.If) and not s.body[0].orelse and len(s.body[0].body) == 1:
            test, app, neg = s.body[0].test, s.body[0].body[0], False
        elif len(s.body) == 2 and isinstance(s.body[0], ast.If) and not s.body[0].orelse and len(s.body[0].body) == 1 and isinstance(s.body[0].body[0], ast.Continue):
            test, app, neg = s.body[0].test, s.body[1], True
        else:
            return False
        c = app.value if isinstance(app, ast.Expr) else None
        if not (isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == 'append' and isinstance(c.func.value, ast.Name)
                and len(c.args) == 1 and not c.keywords and isinstance(c.args[0], ast.Name) and c.args[0].id == x):
            return False
        lst = c.func.value.id
        if any(isinstance(n, ast.Name) and n.id == lst for n in ast.walk(test)) or lst in fr.glob or lst in fr.nonloc:
            return False
        r = st.envs.get(fr.fid, {}).get(lst)
        h = st.heap.get(r.id) if isinstance(r, Ref) else None
        if not isinstance(h, ListC) or h.items:
            return False
        keep, no, cnt, inl, exc = st.copy(), len(self.obls), dict(self.loopcnt), set(self.inlined), len(self.excs[-1])

        def item(ex, y, k):
            bind(it.item(self, y, k), y)
            return y.envs[fr.fid][x]

        def pred(ex, y, k):
            z = y.copy()
            bind(it.item(self, z, k), z)
            t = toB(self.truth(self.ev(test, z, fr), z))
            return NOT(t) if neg else t
        try:
            new = self.lib.make_list(self, st, FiltV(it.n, pred, item), None)
            if len(self.excs[-1]) != exc or not isinstance(new, Ref):
                raise Unsupported('filtering loop')
        except Unsupported:
            st.set(keep)
            del self.obls[no:]
            del self.excs[-1][exc:]
            self.loopcnt, self.inlined = cnt, inl
            return False
        st.heap[r.id] = st.heap[new.id]
        st.envs.get(fr.fid, {}).pop(x, None)
        return True

    def consume(self, s, gen, st, fr, tag, body_with):
        """run a user generator, its consumer being executed at each yield"""
        ctr = self.contracts.get(gen.fn.qual)
        if ctr is not None and ctr.generator and gen.fn.node is not self.topnode:
            it = ctr.as_iter(self, st, gen)
            if it is not None:
                return self.loop(s, st, fr, tag, it.n, None, lambda x, k: body_with(it.item(self, x, k), x))
        gf = self.new_frame(gen.fn, st)
        self.bind_args(gen.fn, gen.args, gen.kwargs, st, gf)
        self.inlined.add(gen.fn.qual)

        def yielder(v, x):
            return body_and_cont(v, x)

        def body_and_cont(v, x):
            y, o = body_with(v, x)
            nx, rest = [y], []
            for q in o:
                if q[0] == 'cont' and q[1] is tag:
                    nx.append(q[2])
                else:
                    rest.append(q)
            return self.merge(nx), rest
        gf.yielder = yielder
        self.depth += 1
        if self.depth > 40:
            raise Unsupported('call depth')
        try:
            x, outs = self.exec_block(gen.fn.node.body, st, gf)
        finally:
            self.depth -= 1
        ends, brks, rest = [x], [], []
        for q in outs:
            if q[0] == 'ret' and q[1] == gf.fid:
                ends.append(q[2])
            elif q[0] == 'brk' and q[1] is tag:
                brks.append(q[2])
            else:
                rest.append(q)
        cur = self.merge(ends)
        if cur is not None and s.orelse:
            cur, o = self.exec_block(s.orelse, cur, fr)
            rest += o
        m = self.merge([cur] + brks)
        return m, rest

    # ---- diff / havoc
    def diff(self, a, b):
        """(locals, heap ids, ghost) that differ between states a (earlier) and b"""
        L, H, G = set(), set(), set()
        for f, env in a.envs.items():
            e2 = b.envs.get(f)
            if e2 is None:
                continue
            for n in set(env) | set(e2):
                if str(f).startswith('mod:') and n not in env:
                    continue
                x, y = env.get(n, UNDEF), e2.get(n, UNDEF)
                if x is not y and not self.same(x, y):
                    L.add((f, n))
        for i, c in a.heap.items():
            if i in b.heap and b.heap[i] is not c:
                H.add(i)
        for k in a.ghost:
            if b.ghost.get(k) is not a.ghost[k]:
                G.add(k)
        return L, H, G

    def same(self, x, y):
        if type(x) is not type(y):
            return False
        if isinstance(x, (bool, int, float, str)) or x is None:
            return x == y
        if isinstance(x, N):
            return x.k == y.k and x.t.eq(y.t)
        if isinstance(x, tuple):
            return len(x) == len(y) and all(self.same(p, q) for p, q in zip(x, y))
        if isinstance(x, Ref):
            return x.id == y.id
        if isinstance(x, Op):
            return x.t.eq(y.t)
        if isinstance(x, StrOf):
            return self.same(x.v, y.v)
        if isinstance(x, Joined):
            return x.sep == y.sep and self.same(x.s, y.s)
        if isinstance(x, StructV):
            return x.name == y.name and all(self.same(x.f[k], y.f[k]) for k in x.f)
        if isinstance(x, Fn):
            return x.node is y.node and x.env is y.env
        if isinstance(x, Opt):
            return x.isnone.eq(y.isnone) and self.same(x.v, y.v)
        if isinstance(x, DictV):
            return list(x.d) == list(y.d) and all(self.same(x.d[k], y.d[k]) for k in x.d)
        if isinstance(x, SeqV):
            if x is y:
                return True
            j = self.same_idx()
            try:
                return x.n.eq(y.n) and self.same(x.at(j), y.at(j))
            finally:
                self.same_depth -= 1
        if isinstance(x, Uni):
            return len(x.alts) == len(y.alts) and all(g.eq(h) and self.same(v, w) for (g, v), (h, w) in zip(x.alts, y.alts))
        if isinstance(x, NT):
            return x.cls is y.cls and all(self.same(p, q) for p, q in zip(x.vals, y.vals))
        if isinstance(x, PUndef):
            return x.when.eq(y.when) and self.same(x.v, y.v)
        if isinstance(x, LinkC):
            return self.same(x.to, y.to)
        if isinstance(x, PRef):
            return x.id == y.id and len(x.path) == len(y.path) and all((p == q) if isinstance(p, str) or isinstance(q, str) else p.eq(q) for p, q in zip(x.path, y.path))
        if isinstance(x, RecView):
            return x.ref.id == y.ref.id and x.idx.eq(y.idx)
        if isinstance(x, (EnumMember, DT)):
            return x == y
        if isinstance(x, (Undef, Null)):
            return True
        return x is y

    same_depth = 0

    def same_idx(self):
        """an index for every level of nested sequences that are compared"""
        self.same_depth += 1
        return z3.Int('same_idx%d' % self.same_depth)

    def tree_changes(self, a, b, path=()):
        """paths of the leaves at which the trees differ, with a shape covering both"""
        if a is b or self.same(a, b):
            return {}
        if isinstance(a, DictV) and isinstance(b, DictV):
            out = {}
            for k in list(a.d) + [x for x in b.d if x not in a.d]:
                out.update(self.tree_changes(a.d.get(k, UNDEF), b.d.get(k, UNDEF), path + (k,)))
            return out
        if isinstance(a, SeqV) and isinstance(b, SeqV):
            j = z3.Int('same_idx_' + '_'.join(map(str, path)))
            out = {} if a.n.eq(b.n) else {path + ('#',): None}
            if z3.is_int_value(a.n) and a.n.as_long() == 0:
                e = b.at(j)
                out[path + ('[]',)] = (e, e)
                return out
            out.update(self.tree_changes(a.at(j), b.at(j), path + ('[]',)))
            return out
        return {path: (a, b)}

    def tree_havoc(self, v, changes, name, path=(), idx=()):
        """the tree with the leaves at the changed paths replaced by unknown values"""
        if path in changes:
            a, b = changes[path]
            sh = self.join(a, b)
            if isinstance(sh, BadV):
                raise Unsupported('tree of ' + sh.why)
            f = changes.setdefault(('uf', path), None) or self.ufval(sh, name + '_' + '_'.join(str(p) for p in path if p != '[]'), len(idx))
            changes[('uf', path)] = f
            return f(*idx)
        if not any(p[:len(path)] == path for p in changes if p and p[0] != 'uf'):
            return v
        if isinstance(v, DictV):
            ks = list(v.d) + [p[len(path)] for p in changes if p and p[0] != 'uf' and p[:len(path)] == path and len(p) > len(path) and p[len(path)] not in v.d]
            return DictV({k: self.tree_havoc(v.d.get(k, UNDEF), changes, name, path + (k,), idx) for k in dict.fromkeys(ks)})
        if isinstance(v, SeqV):
            n = v.n
            if path + ('#',) in changes:
                f = changes.get(('uf', path + ('#',)))
                if f is None:
                    f = freshf(name + '_len', *([z3.IntSort()] * (len(idx) + 1)))
                changes[('uf', path + ('#',))] = f
                n = f(*idx) if idx else f()
            return SeqV(n, lambda k: self.tree_havoc(v.at(k), changes, name, path + ('[]',), tuple(idx) + (k,)))
        raise Unsupported('havoc of tree')

    def join(self, a, b):
        """shape covering both values"""
        if a is b:
            return a
        if isinstance(a, BadV):
            return a
        if isinstance(b, BadV):
            return b
        if isinstance(a, (Undef, PUndef)) or isinstance(b, (Undef, PUndef)):
            va = None if isinstance(a, Undef) else a.v if isinstance(a, PUndef) else a
            vb = None if isinstance(b, Undef) else b.v if isinstance(b, PUndef) else b
            if isinstance(a, Undef):
                v = vb
            elif isinstance(b, Undef):
                v = va
            else:
                v = self.join(va, vb)
            return PUndef(z3.BoolVal(True), v)
        if is_num(a) and is_num(b):
            ka, kb = kind(a), kind(b)
            if ka == kb:
                k = ka
            elif ka in INTK and kb in INTK:
                k = kb if not isinstance(a, N) else ka if not isinstance(b, N) else 'int'
            elif 'bool' in (ka, kb) and (ka in INTK or kb in INTK):
                return BadV('bool/int')
            else:
                k = 'f8' if 'f8' in (ka, kb) else 'float'
            return N(z3.BoolVal(True) if k == 'bool' else z3.IntVal(0) if k in INTK else z3.RealVal(0), k)
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.join(x, y) for x, y in zip(a, b))
        if isinstance(a, StructV) and isinstance(b, StructV) and a.name == b.name:
            return StructV(a.name, {k: self.join(a.f[k], b.f[k]) for k in a.f})
        if isinstance(a, NT) and isinstance(b, NT) and a.cls is b.cls:
            return NT(a.cls, [self.join(x, y) for x, y in zip(a.vals, b.vals)])
        if a is None or b is None or isinstance(a, Opt) or isinstance(b, Opt):
            va = a.v if isinstance(a, Opt) else a
            vb = b.v if isinstance(b, Opt) else b
            v = vb if va is None else va if vb is None else self.join(va, vb)
            if v is None:
                return None
            if isinstance(v, BadV):
                return v
            return Opt(z3.BoolVal(True), v)
        if isinstance(a, Op) and isinstance(b, Op):
            return a
        if isinstance(a, SeqV) and isinstance(b, SeqV):
            return SeqV(a.n, lambda k: self.join(a.at(k), b.at(k)))
        if isinstance(a, StrOf) and isinstance(b, StrOf):
            return StrOf(self.join(a.v, b.v))
        if isinstance(a, Joined) and isinstance(b, Joined) and a.sep == b.sep:
            return Joined(a.sep, self.join(a.s, b.s))
        if isinstance(a, str) and isinstance(b, str):
            return a if a == b else BadV('strings')
        if isinstance(a, PRef) and isinstance(b, PRef) and a.id == b.id and len(a.path) == len(b.path) and all((p == q) if isinstance(p, str) or isinstance(q, str) else True for p, q in zip(a.path, b.path)):
            return a
        if self.same(a, b):
            return a
        return BadV('values of different shape: %r %r' % (type(a).__name__, type(b).__name__))

    def havoc(self, v, name='v', const_ok=True):
        if isinstance(v, (Undef, BadV)) or v is None or isinstance(v, (str, Fn, BI, Cls, ModV, DT, NTCls, Null, EnumMember, Ref)):
            return v
        if isinstance(v, PUndef):
            return PUndef(fresh(name + '_undef', z3.BoolSort()), self.havoc(v.v, name))
        if is_num(v):
            k = kind(v)
            s = z3.BoolSort() if k == 'bool' else z3.IntSort() if k in INTK else z3.RealSort()
            return N(fresh(name, s), k)
        if isinstance(v, tuple):
            return tuple(self.havoc(x, '%s_%d' % (name, i)) for i, x in enumerate(v))
        if isinstance(v, StructV):
            return StructV(v.name, {k: self.havoc(x, name + '_' + k) for k, x in v.f.items()})
        if isinstance(v, NT):
            return NT(v.cls, [self.havoc(x, name) for x in v.vals])
        if isinstance(v, Opt):
            return Opt(fresh(name + '_none', z3.BoolSort()), self.havoc(v.v, name))
        if isinstance(v, Op):
            return Op(fresh(name, v.t.sort()), v.tag)
        if isinstance(v, PRef):
            return PRef(v.id, [p if isinstance(p, str) else KeyS(fresh(name + '_nokey', z3.BoolSort()), fresh(name + '_key', z3.IntSort())) if isinstance(p, KeyS) else fresh(name + '_at', z3.IntSort()) for p in v.path])
        return BadV('cannot havoc %r' % type(v).__name__)

    def ufval(self, v, name, nidx):
        """function of nidx integers giving a value of the shape of v"""
        I = [z3.IntSort()] * nidx
        if is_num(v):
            k = kind(v)
            s = z3.BoolSort() if k == 'bool' else z3.IntSort() if k in INTK else z3.RealSort()
            f = freshf(name, *(I + [s]))
            return lambda *i: N(f(*i), k)
        if isinstance(v, tuple):
            fs = [self.ufval(x, '%s_%d' % (name, j), nidx) for j, x in enumerate(v)]
            return lambda *i: tuple(f(*i) for f in fs)
        if isinstance(v, StructV):
            fs = {k: self.ufval(x, name + '_' + k, nidx) for k, x in v.f.items()}
            return lambda *i: StructV(v.name, {k: f(*i) for k, f in fs.items()})
        if isinstance(v, NT):
            fs = [self.ufval(x, '%s_%d' % (name, j), nidx) for j, x in enumerate(v.vals)]
            return lambda *i: NT(v.cls, [f(*i) for f in fs])
        if isinstance(v, DictV):
            fs = {k: self.ufval(x, name + '_' + str(k), nidx) for k, x in v.d.items()}
            return lambda *i: DictV({k: f(*i) for k, f in fs.items()})
        if isinstance(v, SeqV):
            nf = freshf(name + '_len', *(I + [z3.IntSort()]))
            ef = self.ufval(v.at(z3.IntVal(0)), name + '_e', nidx + 1)
            return lambda *i: SeqV(nf(*i), lambda k: ef(*(tuple(i) + (k,))))
        if isinstance(v, Opt):
            nf = freshf(name + '_none', *(I + [z3.BoolSort()]))
            f = self.ufval(v.v, name, nidx)
            return lambda *i: Opt(nf(*i), f(*i))
        if isinstance(v, Op):
            f = freshf(name, *(I + [v.t.sort()]))
            return lambda *i: Op(f(*i), v.tag)
        if isinstance(v, PUndef):
            nf = freshf(name + '_undef', *(I + [z3.BoolSort()]))
            f = self.ufval(v.v, name, nidx)
            return lambda *i: PUndef(nf(*i), f(*i))
        if isinstance(v, StrOf):
            f = self.ufval(v.v, name, nidx)
            return lambda *i: StrOf(f(*i))
        if isinstance(v, Joined):
            f = self.ufval(v.s, name, nidx)
            return lambda *i: Joined(v.sep, f(*i))
        if isinstance(v, (str, type(None), Null, Fn, BI, DT)):
            return lambda *i: v
        if isinstance(v, PRef):
            fs = [p if isinstance(p, str) else freshf('%s_at%d' % (name, j), *(I + [z3.IntSort()])) for j, p in enumerate(v.path)]
            return lambda *i: PRef(v.id, [p if isinstance(p, str) else p(*i) for p in fs])
        if isinstance(v, Uni):
            gs = [freshf('%s_case%d' % (name, j), *(I + [z3.BoolSort()])) for j in range(len(v.alts))]
            fs = [self.ufval(w, '%s_alt%d' % (name, j), nidx) for j, (_, w) in enumerate(v.alts)]
            return lambda *i: Uni([(AND(g(*i), *[NOT(h(*i)) for h in gs[:j]]) if j < len(gs) - 1 else AND(*[NOT(h(*i)) for h in gs[:j]]), f(*i)) for j, (g, f) in enumerate(zip(gs, fs))])
        raise Unsupported('family of %r' % type(v).__name__)

    def havoc_content(self, c, name, other=None, rep=None):
        if isinstance(c, ArrC):
            if isinstance(c.fn, dict):
                fn = {}
                for f, k in c.dt.fields:
                    s = z3.IntSort() if k in INTK else z3.RealSort()
                    fn[f] = freshf('%s_%s' % (name, f), *([z3.IntSort()] * len(c.shape) + [s]))
                return ArrC(c.dt, c.shape, fn, c.tag)
            s = z3.BoolSort() if c.dt.k == 'bool' else z3.IntSort() if c.dt.k in INTK else z3.RealSort()
            return ArrC(c.dt, c.shape, freshf(name, *([z3.IntSort()] * len(c.shape) + [s])), c.tag)
        if isinstance(c, (ListC, SeqC)) and not isinstance(other, TreeC):
            sh = self.elem_shape(c, other)
            if sh is None:
                return c if not isinstance(c, SeqC) else SeqC(fresh(name + '_len', z3.IntSort()), c.at)
            f = self.ufval(sh, name, 1)
            return SeqC(fresh(name + '_len', z3.IntSort()), lambda k: f(k))
        if isinstance(c, BagC):
            m = freshf(name + '_mem', *([z3.IntSort()] * len(self.lib.bag_flat(c.sample)) + [z3.BoolSort()]))
            return BagC(fresh(name + '_nonempty', z3.BoolSort()), m, c.sample)
        if isinstance(c, FamC):
            ln = freshf(name + '_len', z3.IntSort(), z3.IntSort())
            sh = c.at(z3.IntVal(0), z3.IntVal(0))
            if other is not None and isinstance(other, FamC):
                o = other.at(z3.IntVal(0), z3.IntVal(0))
                sh = o if sh is None else sh if o is None else self.join(sh, o)
            if sh is None:
                raise Unsupported('family of unknown element shape')
            f = self.ufval(sh, name, 2)
            return FamC(c.n, ln, lambda i, k: f(i, k))
        if isinstance(c, ObjC):
            d = {}
            for k, v in c.attrs.items():
                v2 = other.attrs.get(k, UNDEF) if other is not None else UNDEF
                d[k] = v if v is v2 or self.same(v, v2) else self.havoc(self.join(v, v2), name + '_' + k)
            return ObjC(c.cls, d)
        if isinstance(c, TreeC):
            if other is None:
                return TreeC(self.ufval(c.v, name, 0)())
            ch = dict(rep) if rep is not None else self.tree_changes(c.v, other.v)
            return TreeC(self.tree_havoc(c.v, ch, name))
        if isinstance(c, (ListC, SeqC)) and isinstance(other, TreeC):
            return self.havoc_content(TreeC(self.lib.as_seqv(self, c)), name, other)
        if isinstance(c, DictC) and isinstance(other, MapC):
            c = self.lib.as_map(self, c)
        if isinstance(c, MapC):
            o = other if other is not None else c
            if isinstance(o, DictC):
                o = self.lib.as_map(self, o)
            z = z3.IntVal(0)
            va, vb = self.lib.under(c.val(z)), self.lib.under(o.val(z))
            sh = vb if isinstance(va, Undef) else va if isinstance(vb, Undef) else self.joint(va, vb)
            if isinstance(sh, Undef):
                raise Unsupported('dict of unknown values')
            na, nb = c.none, o.none
            none = c.none
            if not (na is nb or na[0].eq(nb[0]) and (na[1] is nb[1] or self.same(na[1], nb[1]))):
                wa, wb = self.lib.under(na[1]), self.lib.under(nb[1])
                w = wb if isinstance(wa, Undef) else wa if isinstance(wb, Undef) else self.joint(wa, wb)
                none = (fresh(name + '_hasnone', z3.BoolSort()), self.ufval(w, name + '_ofnone', 0)())
            dom = freshf(name + '_has', z3.IntSort(), z3.BoolSort())
            f = self.ufval(sh, name + '_of', 1)
            return MapC(lambda k: dom(k), lambda k: f(k), c.factory or o.factory, c.tag, none=none)
        if isinstance(c, DictC):
            d = {}
            for k, (g, v) in c.d.items():
                v2 = other.d[k][1] if other is not None and k in other.d else v
                d[k] = (g, v if v is v2 or self.same(v, v2) else self.havoc(self.join(v, v2), name))
            return DictC(d)
        if isinstance(c, MapC):
            return self.lib.havoc_map(self, c, name, other)
        raise Unsupported('havoc of ' + type(c).__name__)

    def joint(self, a, b):
        if isinstance(a, SeqV) and isinstance(b, SeqV):
            z = z3.IntVal(0)
            if z3.is_int_value(a.n) and a.n.as_long() == 0:
                return b
            if z3.is_int_value(b.n) and b.n.as_long() == 0:
                return a
            e = self.joint(a.at(z), b.at(z))
            return SeqV(a.n, lambda k: e)
        if isinstance(a, DictV) and isinstance(b, DictV):
            d = {}
            for k in list(a.d) + [x for x in b.d if x not in a.d]:
                x, y = a.d.get(k, UNDEF), b.d.get(k, UNDEF)
                d[k] = self.joint(x, y)
            return DictV(d)
        return self.join(a, b)

    def elem_shape(self, c, other=None):
        sh = None
        for x in (c, other):
            if x is None:
                continue
            if isinstance(x, ListC):
                for _, v in x.items:
                    sh = v if sh is None else self.join(sh, v)
            elif isinstance(x, SeqC):
                v = x.at(z3.IntVal(0))
                sh = v if sh is None else self.join(sh, v)
        if isinstance(sh, BadV):
            raise Unsupported('list of ' + sh.why)
        return sh

    def to_seq(self, c):
        if isinstance(c, SeqC):
            return c
        if any(g is not None for g, _ in c.items):
            raise Unsupported('guarded list as sequence')
        vals = [v for _, v in c.items]

        def at(k):
            r = None
            for j in range(len(vals) - 1, -1, -1):
                r = vals[j] if r is None else self.merge_val(k == j, vals[j], r)
            return r
        return SeqC(z3.IntVal(len(vals)), at)

    def havoc_state(self, st, L, H, G, shapes):
        for (f, n) in sorted(L, key=str):
            st.envs[f][n] = self.havoc(shapes[(f, n)], n)
        for i in sorted(H):
            base, oth = shapes[i][:2]
            st.heap[i] = self.havoc_content(base, 'h%d' % i, oth, shapes[i][2] if len(shapes[i]) > 2 else None)
        for g in sorted(G):
            st.ghost[g] = shapes[('ghost', g)](st)

    # ---- the loop rule
    def loop(self, node, st, fr, tag, n, head, body):
        path = self.looppath
        idx = self.loopcnt.get(path, 0)
        self.loopcnt[path] = idx + 1
        mypath = path + (idx,)
        spec = self.loopspecs.get(mypath) or self.loopspecs.get(len(mypath)) or LoopSpec()
        entry = st.copy()
        name = 'loop %s' % '.'.join(str(i) for i in mypath)
        k = fresh('k' + '_'.join(map(str, mypath)), z3.IntSort())
        outer = list(self.loopctx)
        if spec.repr:
            for who, rep in spec.repr(self, st, fr).items():
                st.heap[who] = rep

        def ctx(s, kk):
            return LoopCtx(self, s, entry, kk, fr, outer, n, L, H)

        def run(h, kk):
            """one iteration from head state h; returns (exit states, end states, outs)"""
            self.looppath = mypath
            self.loopcnt[mypath] = 0
            for q in [q for q in self.loopcnt if len(q) > len(mypath) and q[:len(mypath)] == mypath]:
                self.loopcnt[q] = 0
            self.loopctx.append(ctx(h, kk))
            try:
                x = h.copy()
                if head is not None:
                    c = head(x, kk)
                    if x.dead:
                        return [], [], []
                    b, e = (x, None)
                    if isinstance(c, bool):
                        if c:
                            b, e = x, None
                        else:
                            b, e = None, x
                    else:
                        b, e = x.copy(), x
                        b.guard(c)
                        e.guard(NOT(c))
                else:
                    b, e = x.copy(), x
                    b.guard(kk < n)
                    e.guard(kk == n)
                exits = [e] if e is not None else []
                if b is None:
                    return exits, [], []
                mark = len(self.excs[-1])
                y, o = body(b, kk)
                o = self.excs[-1][mark:] + o
                del self.excs[-1][mark:]
                ends, rest, brks = ([y] if y is not None else []), [], []
                for q in o:
                    if q[1] is tag and q[0] == 'cont':
                        ends.append(q[2])
                    elif q[1] is tag and q[0] == 'brk':
                        brks.append(q[2])
                    else:
                        rest.append(q)
                return (exits, brks), [m for m in [self.merge(ends)] if m is not None], rest
            finally:
                self.loopctx.pop()
                self.looppath = path

        # 1. discover what is modified and its shape
        L, H, G = set(), set(), set()
        shapes = {}
        self.shape_only += 1
        try:
            for rnd_ in range(8):
                h = st.copy()
                self.havoc_state(h, L, H, G, shapes)
                h.assume(k >= 0)
                r = run(h, k)
                if not r:
                    break
                ex_, ends, _ = r if len(r) == 3 else (r[0], r[1], r[2])
                changed = False
                grown = [i for e in ends for i in h.heap if isinstance(h.heap[i], (ListC, SeqC)) and i in e.heap and e.heap[i] is not h.heap[i] and self.lib.new_dicts(e, e.heap[i], h, h.heap[i])]
                if grown:
                    # a list to which an iteration adds dicts of its own becomes a list of trees
                    for i in dict.fromkeys(grown):
                        self.lib.treeify(self, st, i)
                        H.discard(i)
                        shapes.pop(i, None)
                    continue
                for e in ends:
                    l2, h2, g2 = self.diff(h, e)
                    for q in l2:
                        a = h.envs[q[0]].get(q[1], UNDEF)
                        b = e.envs[q[0]].get(q[1], UNDEF)
                        sh = self.join(a, b)
                        if q not in L:
                            L.add(q)
                            shapes[q] = sh
                            changed = True
                        elif not self.shape_eq(shapes[q], sh):
                            shapes[q] = self.join(shapes[q], sh)
                            changed = True
                    for i in h2:
                        if i not in H:
                            H.add(i)
                            shapes[i] = (h.heap[i], e.heap[i])
                            changed = True
                            if isinstance(h.heap[i], TreeC) and isinstance(e.heap[i], TreeC):
                                shapes[i] += (self.tree_changes(h.heap[i].v, e.heap[i].v),)
                        elif len(shapes[i]) > 2:
                            for p, ab in self.tree_changes(h.heap[i].v, e.heap[i].v).items():
                                if p not in shapes[i][2]:
                                    shapes[i][2][p] = ab
                                    changed = True
                        elif isinstance(h.heap[i], (ObjC, DictC)) and type(e.heap[i]) is type(h.heap[i]):
                            # an attribute found to change only later
                            at = (lambda q: q.attrs) if isinstance(h.heap[i], ObjC) else (lambda q: q.d)
                            b0, o0 = shapes[i]
                            for a_, v_ in at(e.heap[i]).items():
                                w_ = at(h.heap[i]).get(a_, UNDEF)
                                if isinstance(h.heap[i], DictC):
                                    v_, w_ = v_[1], w_[1] if isinstance(w_, tuple) else w_
                                if v_ is w_ or self.same(v_, w_):
                                    continue
                                p_, q_ = at(b0).get(a_, UNDEF), at(o0).get(a_, UNDEF)
                                if isinstance(h.heap[i], DictC):
                                    p_, q_ = (z[1] if isinstance(z, tuple) else z for z in (p_, q_))
                                if p_ is q_ or self.same(p_, q_):
                                    raise Unsupported('attribute %s that changes only in later iterations' % a_)
                    for g in g2:
                        if g not in G:
                            G.add(g)
                            shapes[('ghost', g)] = spec.ghost_havoc[g] if hasattr(spec, 'ghost_havoc') else None
                            changed = True
                if not changed:
                    break
            else:
                raise Unsupported('loop shape does not stabilise')
        finally:
            self.shape_only -= 1

        # 2. head state
        def mkhead(cands, assume_inv=True):
            h = st.copy()
            self.havoc_state(h, L, H, G, shapes)
            h.assume(k >= 0)
            if n is not None:
                h.assume(k <= n)
            for (f, nm) in L:
                self.kind_facts(h, h.envs[f].get(nm))
            cc = ctx(h, k)
            if assume_inv:
                for nm, t in spec.inv(cc):
                    h.assume(t)
            cs = self.generic_cands(cc, L, entry) + list(spec.cand(cc))
            if cands is not None:
                for nm, t in cs:
                    if nm in cands:
                        h.assume(t)
            return h, cs

        if self.shape_only:
            h, _ = mkhead(None, False)
            r = run(h, k)
            if not r:
                return None, []
            (exits, brks), ends, rest = r if isinstance(r[0], tuple) else ((r[0], []), r[1], r[2])
            m = self.merge(exits)
            if m is not None and node.orelse:
                m, o = self.exec_block(node.orelse, m, fr)
                rest = rest + o
            return self.merge([m] + brks), rest

        # 3. infer auxiliary invariants (Houdini)
        c0 = ctx(st, z3.IntVal(0))
        h, cs = mkhead(None)
        ent = dict(self.generic_cands(c0, L, entry) + list(spec.cand(c0)))
        live = set()
        live = self.quick_cands(st, [(nm, ent[nm]) for nm, t in cs if nm in ent], {nm for nm, _ in spec.cand(c0)})
        self.quiet += 1
        try:
            while live:
                self.stats['houdini'] += 1
                no = set(live)
                h, cs = mkhead(live)
                r = run(h, k)
                if not r:
                    break
                ends = r[1]
                for e in ends:
                    ce = ctx(e, k + 1)
                    own = list(spec.cand(ce))
                    at = dict(self.generic_cands(ce, L, entry) + own)
                    own = {nm for nm, _ in own}
                    if DEBUG:
                        print('  houdini', mypath, sorted(live))
                    live &= self.quick_cands(e, [(nm, at[nm]) for nm in sorted(live) if nm in at], own)
                if no == live:
                    break
        finally:
            self.quiet -= 1

        # 4. verify
        for nm, t in spec.inv(c0):
            self.obl(st, '%s: invariant "%s" holds initially' % (name, nm), t, 'inv-init', node)
        h, cs = mkhead(live)
        r = run(h, k)
        if not r:
            return None, []
        (exits, brks), ends, rest = r if isinstance(r[0], tuple) else ((r[0], []), r[1], r[2])
        for e in ends:
            ce = ctx(e, k + 1)
            for nm, t in spec.inv(ce):
                self.obl(e, '%s: invariant "%s" is preserved' % (name, nm), t, 'inv-step', node)
        for e in exits:
            if spec.exit:
                for nm, t in spec.exit(ctx(e, k)):
                    self.need(e, '%s: on exit "%s"' % (name, nm), t, 'inv-exit', node)
        m = self.merge(exits)
        if m is not None and node.orelse:
            m, o = self.exec_block(node.orelse, m, fr)
            rest = rest + o
        return self.merge([m] + brks), rest

    def quick_cands(self, st, cands, own=()):
        """names of those (name, formula) that are provable; quantified ones go to solver processes in parallel"""
        from . import solve
        out, hard = set(), []
        for nm, t in cands:
            t = toB(t)
            if has_q(t):
                hard.append((nm, t))
            elif self.provable(st, t, ms=500):
                out.add(nm)
            elif nm in own:
                hard.append((nm, t))
        if hard:
            rs = solve.discharge([Obl(nm, [x for _, x in st.pc], t, '', 0, 'cand') for nm, t in hard], quick=True)
            for (nm, t), r in zip(hard, rs):
                if DEBUG:
                    print('   cand', self.looppath, nm, r.status, r.by, round(r.time, 1))
                if r.status == 'unsat':
                    out.add(nm)
        return out

    def quick_cand(self, st, t):
        if has_q(t):
            return self.provable(st, t, ms=8000, quant=True)
        return self.provable(st, t, ms=500)

    def shape_eq(self, a, b):
        if type(a) is not type(b):
            return False
        if is_num(a):
            return kind(a) == kind(b)
        if isinstance(a, tuple):
            return len(a) == len(b) and all(self.shape_eq(x, y) for x, y in zip(a, b))
        if isinstance(a, (Opt, PUndef)):
            return self.shape_eq(a.v, b.v)
        if isinstance(a, StructV):
            return all(self.shape_eq(a.f[k], b.f[k]) for k in a.f)
        return True

    def kind_facts(self, st, v):
        """value ranges implied by C / numpy integer kinds"""
        if isinstance(v, N) and v.k in RANGE:
            lo, hi = RANGE[v.k]
            st.assume(z3.And(v.t >= lo, v.t <= hi))
        elif isinstance(v, tuple):
            for x in v:
                self.kind_facts(st, x)
        elif isinstance(v, StructV):
            for x in v.f.values():
                self.kind_facts(st, x)

    def generic_cands(self, c, L, entry):
        out = []
        steps = []
        for f, env in entry.envs.items():
            if str(f).startswith('mod:'):
                continue
            for nme, v in env.items():
                if (f, nme) in L:
                    continue
                if isinstance(v, N) and v.k in INTK and z3.is_app(v.t) and v.t.decl().kind() == z3.Z3_OP_ITE and z3.is_int_value(v.t.arg(1)) and z3.is_int_value(v.t.arg(2)):
                    steps.append((nme, v.t))
        for (f, nme) in sorted(L, key=str):
            v0 = entry.envs[f].get(nme, UNDEF)
            v = c.st.envs[f].get(nme, UNDEF)
            if isinstance(v0, StructV) and isinstance(v, StructV):
                pairs = [('%s.%s' % (nme, q), v0.f[q], v.f[q]) for q in v0.f]
            elif isinstance(v0, tuple) and isinstance(v, tuple):
                pairs = [('%s[%d]' % (nme, i), v0[i], v[i]) for i in range(len(v0)) if i < len(v)]
            else:
                pairs = [(nme, v0, v)]
            for nm, a, b in pairs:
                if not is_num(a) or not is_num(b) or kind(a) not in INTK or kind(b) not in INTK:
                    continue
                x, y = iterm(a), iterm(b)
                kb = kind(b)
                modn = RANGE[kb][1] + 1 if kb in RANGE and kb.startswith('u') else None
                for en, e in [('+ k', x + c.k), ('- k', x - c.k)] + [('+ k*' + sn, x + self.mulint(s, c.k)) for sn, s in steps]:
                    if modn:
                        e = z3.If(e < 0, e + modn, z3.If(e >= modn, e - modn, e))
                    out.append(('%s = start %s' % (nm, en), y == e))
                out.append(('%s >= 0' % nm, y >= 0))
                out.append(('%s >= start' % nm, y >= x))
                out.append(('0 <= %s <= k' % nm, z3.And(y >= 0, y <= c.k)))
        return out

    # ------------------------------------------------------------------ functions
    def new_frame(self, fn, st):
        f = Frame('f%d' % next(self.ids), fn, fn.mod, fn.lang, fn.env)
        f.ctypes = getattr(fn.node, 'ctypes', {}) if fn.lang == 'cy' else {}
        if isinstance(fn.node, ast.Lambda):
            f.locals = set()
        else:
            f.locals, f.glob, f.nonloc = assigned_names(fn.node)
        f.locals |= {a.arg for a in fn.node.args.args + fn.node.args.kwonlyargs}
        st.envs[f.fid] = {}
        return f

    def bind_args(self, fn, args, kwargs, st, fr):
        a = fn.node.args
        names = [x.arg for x in a.args]
        if fn.self_ is not None:
            args = [fn.self_] + list(args)
        vals = {}
        if len(args) > len(names):
            if a.vararg is None:
                raise Unsupported('too many arguments for ' + fn.qual)
            vals[a.vararg.arg] = tuple(args[len(names):])
            args = args[:len(names)]
        for nme, v in zip(names, args):
            vals[nme] = v
        for kx, v in kwargs.items():
            if kx not in names and kx not in [x.arg for x in a.kwonlyargs]:
                raise Unsupported('unknown argument %s of %s' % (kx, fn.qual))
            if kx in vals:
                raise Unsupported('argument %s twice' % kx)
            vals[kx] = v
        df = fn.defaults if getattr(fn, 'defaults', None) is not None else [self.ev(d, st, fr) for d in a.defaults]
        for nme, d in zip(names[len(names) - len(a.defaults):], df):
            if nme not in vals:
                vals[nme] = d
        for nme in names:
            if nme not in vals:
                self.need(st, 'argument %s of %s is given' % (nme, fn.qual), z3.BoolVal(False))
                raise Unsupported('missing argument ' + nme)
        for nme, v in vals.items():
            if fr.lang == 'cy' and nme in fr.ctypes:
                v = self.coerce(v, fr.ctypes[nme], st, fr)
            st.envs[fr.fid][nme] = v
        return vals

    def call(self, f, args, kwargs, st, fr, node=None):
        if isinstance(f, BI):
            return f.f(self, st, args, kwargs)
        if isinstance(f, Fn):
            return self.call_fn(f, args, kwargs, st, node)
        if isinstance(f, NTCls):
            vals = list(args) + [None] * (len(f.fields) - len(args))
            for k_, v in kwargs.items():
                vals[f.fields.index(k_)] = v
            return NT(f, vals)
        if isinstance(f, Cls):
            return self.instantiate(f, args, kwargs, st, node)
        if isinstance(f, DT):
            return self.lib.dtcall(self, st, f, args)
        if isinstance(f, Uni):
            res = []
            sts = []
            for g, v in f.alts:
                x = st.copy()
                x.guard(g)
                r = self.call(v, args, kwargs, x, fr, node)
                if not x.dead:
                    res.append(r)
                    sts.append(x)
            return self.join_states(st, sts, res)
        if isinstance(f, Null):
            return Null()
        if isinstance(f, Opt):
            self.need(st, 'called object is not None', NOT(f.isnone), node=node)
            return self.call(f.v, args, kwargs, st, fr, node)
        return self.lib.call_other(self, st, f, args, kwargs, node)

    def instantiate(self, c, args, kwargs, st, node):
        r = self.lib.instantiate(self, st, c, args, kwargs)
        if r is not None:
            return r
        o = self.alloc(st, ObjC(c, {}))
        ini = c.methods.get('__init__')
        if ini is not None:
            self.call_fn(self.bound(ini, o), args, kwargs, st, node)
        return o

    def bound(self, f, self_):
        g = Fn(f.node, f.mod, f.qual, f.env, f.lang, self_)
        g.defaults = f.defaults
        return g

    def join_states(self, st, sts, res):
        """merge states sts with their values; result becomes st"""
        if not sts:
            st.dead = True
            st.guard(z3.BoolVal(False))
            return None
        for i, (x, v) in enumerate(zip(sts, res)):
            x.envs['__r'] = {'v': v}
        m = self.merge(sts)
        if m is None:
            st.dead = True
            return None
        v = m.envs.pop('__r')['v']
        st.set(m)
        return v

    def call_fn(self, fn, args, kwargs, st, node=None):
        ctr = self.contracts.get(fn.qual)
        if ctr is not None and fn.node is not self.topnode:
            r = ctr.apply(self, fn, args, kwargs, st, node)
            if r is not NotImplemented:
                self.used_contracts.add(fn.qual)
                return r
        g = self.lib.glue_call(self, st, fn, args, kwargs)
        if g is not NotImplemented:
            return g
        if not isinstance(fn.node, ast.Lambda) and is_generator(fn.node):
            return GenV(fn, args, kwargs)
        if fn.node is self.topnode and self.depth > 0 and not (getattr(self.top.ctr, 'unroll', False) and self.depth < 4):
            if ctr is not None:
                r = ctr.apply(self, fn, args, kwargs, st, node)
                if r is not NotImplemented:
                    return r
            raise Unsupported('recursion in ' + fn.qual)
        self.depth += 1
        if self.depth > 40:
            raise Unsupported('call depth')
        fr = self.new_frame(fn, st)
        self.inlined.add(fn.qual)
        try:
            self.bind_args(fn, args, kwargs, st, fr)
            if isinstance(fn.node, ast.Lambda):
                v = self.ev(fn.node.body, st, fr)
                st.envs.pop(fr.fid, None)
                return v
            line = self.curline
            x, outs = self.exec_block(fn.node.body, st.copy(), fr)
            self.curline = line
        finally:
            self.depth -= 1
        sts, res = [], []
        if x is not None:
            sts.append(x)
            res.append(None)
        for q in outs:
            if q[0] == 'ret' and q[1] == fr.fid:
                v = q[3]
                if fr.lang == 'cy' and getattr(fn.node, 'cret', 'object') not in ('object', 'void', None):
                    v = self.coerce(v, fn.node.cret, q[2], fr)
                sts.append(q[2])
                res.append(v)
            elif q[0] == 'exc':
                self.excs[-1].append(q)
            else:
                raise Unsupported('escaping control flow')
        if x is not None and len(sts) > 1 and getattr(fn.node, 'cret', 'object') not in ('object', 'void', None):
            raise Unsupported('C function may end without return')
        v = self.join_states(st, sts, res)
        if not has_nested(fn.node):
            st.envs.pop(fr.fid, None)
        return v

    topnode = None

    # ------------------------------------------------------------------ expressions
    def ev(self, n, st, fr):
        f = getattr(self, 'e_' + type(n).__name__, None)
        if f is None:
            raise Unsupported('expression ' + type(n).__name__)
        if hasattr(n, 'lineno'):
            self.curline = n.lineno
        return f(n, st, fr)

    def e_Constant(self, n, st, fr):
        if isinstance(n.value, (int, float, str, bool)) or n.value is None or isinstance(n.value, tuple):
            return n.value
        if n.value is Ellipsis:
            raise Unsupported('Ellipsis')
        return n.value

    def e_Name(self, n, st, fr):
        return self.lookup(n.id, st, fr, n)

    def e_Tuple(self, n, st, fr):
        return tuple(self.ev(e, st, fr) for e in n.elts)

    def e_List(self, n, st, fr):
        return self.alloc(st, ListC([(None, self.ev(e, st, fr)) for e in n.elts]))

    def e_Dict(self, n, st, fr):
        d = {}
        for k, v in zip(n.keys, n.values):
            kk = self.ev(k, st, fr)
            if not conc(kk):
                raise Unsupported('dict literal key')
            d[kk] = (None, self.ev(v, st, fr))
        return self.alloc(st, DictC(d))

    def e_Lambda(self, n, st, fr):
        f = Fn(n, fr.mod, (fr.fn.qual if fr.fn else fr.mod.name) + '.<lambda>', fr if fr.fn is not None else None, fr.lang)
        f.defaults = [self.ev(d, st, fr) for d in n.args.defaults]
        return f

    def e_UnaryOp(self, n, st, fr):
        v = self.ev(n.operand, st, fr)
        o = type(n.op).__name__
        if o == 'Not':
            t = self.truth(v, st)
            return (not t) if isinstance(t, bool) else mk(NOT(t), 'bool')
        if o == 'USub':
            if isinstance(v, (int, float)) and not isinstance(v, bool):
                return -v
            if isinstance(v, N):
                if v.k in INTK:
                    t = -v.t
                    if fr.lang == 'cy' and v.k in RANGE:
                        t = self.wrap(st, t, v.k)
                    return mk(t, v.k)
                return N(-rterm(v), v.k if v.k != 'bool' else 'int')
        if o == 'UAdd' and is_num(v):
            return v
        if o == 'Invert' and isinstance(v, N) and v.k == 'bool':
            return mk(NOT(v.t), 'bool')
        return self.lib.unary(self, st, o, v)

    def e_BinOp(self, n, st, fr):
        a = self.ev(n.left, st, fr)
        b = self.ev(n.right, st, fr)
        return self.arith(n.op, a, b, st, fr.lang, n)

    def e_BoolOp(self, n, st, fr):
        isand = isinstance(n.op, ast.And)
        v = self.ev(n.values[0], st, fr)
        for nx in n.values[1:]:
            t = self.truth(v, st)
            if isinstance(t, bool):
                if t is (not isand):
                    return v
                v = self.ev(nx, st, fr)
                continue
            a, b = st.copy(), st.copy()
            a.guard(t if isand else NOT(t))
            b.guard(NOT(t) if isand else t)
            w = self.ev(nx, a, fr)
            if isinstance(v, N) and v.k == 'bool' or not isinstance(v, N):
                pass
            va, vb = w, v
            if isinstance(v, N) and v.k == 'bool':
                vb = (not isand)
            v = self.join_states(st, [x for x in (a, b) if not x.dead], [q for x, q in ((a, va), (b, vb)) if not x.dead])
            if st.dead:
                return False
        return v

    def e_IfExp(self, n, st, fr):
        t = self.truth(self.ev(n.test, st, fr), st)
        if isinstance(t, bool):
            return self.ev(n.body if t else n.orelse, st, fr)
        a, b = st.copy(), st.copy()
        a.guard(t)
        b.guard(NOT(t))
        va = self.ev(n.body, a, fr)
        vb = self.ev(n.orelse, b, fr)
        return self.join_states(st, [x for x in (a, b) if not x.dead], [q for x, q in ((a, va), (b, vb)) if not x.dead])

    def e_Compare(self, n, st, fr):
        left = self.ev(n.left, st, fr)
        res = None
        for op, c in zip(n.ops, n.comparators):
            right = self.ev(c, st, fr)
            r = self.compare(op, left, right, st, n)
            if len(n.ops) == 1:
                return r
            if res is None:
                res = r
            elif isinstance(res, bool) and isinstance(r, bool):
                res = res and r
            else:
                res = mk(AND(toB(term(res)), toB(term(r))), 'bool')
            left = right
        return res

    def e_Attribute(self, n, st, fr):
        o = self.ev(n.value, st, fr)
        return self.getattr(o, n.attr, st, fr, n)

    def getattr(self, o, attr, st, fr, node=None):
        if isinstance(o, ModV):
            return self.modattr(st, o.name, attr)
        if isinstance(o, StructV):
            v = o.f[attr]
            if isinstance(v, Undef):
                self.need(st, "struct field '%s' is set before it is read" % attr, z3.BoolVal(False), node=node)
            return v
        if isinstance(o, NT):
            if attr in o.cls.fields:
                return o.vals[o.cls.fields.index(attr)]
        if isinstance(o, Opt):
            self.need(st, 'object with attribute %s is not None' % attr, NOT(o.isnone), node=node)
            return self.getattr(o.v, attr, st, fr, node)
        if isinstance(o, Uni):
            return self.uni(o, lambda x: self.getattr(x, attr, st, fr, node))
        if isinstance(o, Ref):
            c = st.heap[o.id]
            if isinstance(c, ObjC):
                if attr in c.attrs:
                    return self.defined(c.attrs[attr], attr, st, node)
                if isinstance(c.cls, Cls):
                    if attr in c.cls.methods:
                        return self.bound(c.cls.methods[attr], o)
                    if attr in c.cls.consts:
                        return c.cls.consts[attr]
                return self.lib.objattr(self, st, o, c, attr)
        if isinstance(o, Cls):
            if attr in o.consts:
                return o.consts[attr]
            if attr in o.methods:
                return o.methods[attr]
        if isinstance(o, Null):
            return Null()
        if isinstance(o, Undef):
            raise Unsupported('attribute of undefined value')
        return self.lib.attr(self, st, o, attr, node)

    def ev_index(self, s, st, fr):
        if isinstance(s, ast.Slice):
            return SliceV(*[self.ev(x, st, fr) if x is not None else None for x in (s.lower, s.upper, s.step)])
        if isinstance(s, ast.Tuple):
            return tuple(self.ev_index(x, st, fr) for x in s.elts)
        return self.ev(s, st, fr)

    def e_Subscript(self, n, st, fr):
        o = self.ev(n.value, st, fr)
        i = self.ev_index(n.slice, st, fr)
        return self.getitem(o, i, st, n)

    def getitem(self, o, i, st, n=None):
        if isinstance(o, Uni):
            return self.uni(o, lambda x: self.getitem(x, i, st, n))
        if isinstance(o, Opt):
            self.need(st, 'indexed object is not None', NOT(o.isnone), node=n)
            o = o.v
        return self.lib.getitem(self, st, o, i, n)

    def e_Call(self, n, st, fr):
        if isinstance(n.func, ast.Name) and n.func.id == '__cast__':
            t = n.args[0].value
            v = self.ev(n.args[1], st, fr)
            if t in RANGE and is_num(v) and kind(v) != 'int':
                lo, hi = RANGE[t]
                x = iterm(v)
                if t.startswith('u'):
                    return N(self.wrap(st, x, t), t)
            return self.coerce(v, t, st, fr, n)
        if isinstance(n.func, ast.Name) and n.func.id == '__newstruct__':
            nm = n.args[0].value
            return StructV(nm, {k: UNDEF for k, _ in self.structdef(fr.mod, nm)})
        f = self.ev(n.func, st, fr)
        args, kwargs = [], {}
        if isinstance(f, BI) and getattr(f, 'lazy', None):
            return f.lazy(self, st, n, fr)
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, st, fr)
                args += list(self.lib.concrete_items(self, st, v))
            else:
                args.append(self.ev(a, st, fr))
        for kw in n.keywords:
            if kw.arg is None:
                raise Unsupported('** arguments')
            kwargs[kw.arg] = self.ev(kw.value, st, fr)
        return self.call(f, args, kwargs, st, fr, n)

    def e_JoinedStr(self, n, st, fr):
        # strings built for messages are opaque
        vals = []
        for p in n.values:
            if isinstance(p, ast.Constant):
                vals.append(p.value)
            else:
                try:
                    vals.append(self.ev(p.value, st, fr))
                except Unsupported:
                    vals.append(Null())
        return self.lib.strcat(self, st, vals)

    def comp(self, n, st, fr, elt):
        """list of results of a comprehension: python list of (guard, value), or IterV / FiltV"""
        if len(n.generators) != 1:
            raise Unsupported('nested comprehension')
        g = n.generators[0]
        it = self.lib.iterable(self, st, self.ev(g.iter, st, fr))
        cf = Frame('c%d' % next(self.ids), fr.fn, fr.mod, fr.lang, fr)
        cf.ctypes = {}
        cf.loops = fr.loops
        st.envs[cf.fid] = {}

        def one(x, v):
            self.assign(g.target, v, x, cf)
            gd = []
            for c in g.ifs:
                t = self.truth(self.ev(c, x, cf), x)
                gd.append(toB(t))
            return AND(*gd)
        if isinstance(it, list):
            out = []
            for gg, v in it:
                c = simp(one(st, v))
                if z3.is_false(c):
                    continue
                gd = None if z3.is_true(c) else c
                if gg is not None:
                    gd = gg if gd is None else AND(gg, gd)
                if gd is not None:
                    x = st.copy()
                    x.guard(gd)
                    y = st.copy()
                    y.guard(NOT(gd))
                    val = elt(x, cf)
                    m = self.merge([x, y])
                    st.set(m)
                else:
                    val = elt(st, cf)
                out.append((gd, val))
            return out
        if isinstance(it, IterV):
            base = st

            def item(ex, x, k):
                x.envs.setdefault(cf.fid, {})
                self.assign(g.target, it.item(ex, x, k), x, cf)
                return elt(x, cf)

            def pred(ex, x, k):
                y = x.copy()
                y.envs.setdefault(cf.fid, {})
                return one(y, it.item(ex, y, k))
            if not g.ifs:
                return IterV(it.n, item)
            return FiltV(it.n, pred, item)
        if isinstance(it, FiltV):
            def item(ex, x, k):
                x.envs.setdefault(cf.fid, {})
                self.assign(g.target, it.item(ex, x, k), x, cf)
                return elt(x, cf)

            def pred(ex, x, k):
                y = x.copy()
                y.envs.setdefault(cf.fid, {})
                p0 = it.pred(ex, y, k)
                if not g.ifs:
                    return p0
                y.guard(p0)
                return AND(p0, one(y, it.item(ex, y, k)))
            return FiltV(it.n, pred, item)
        raise Unsupported('comprehension over %r' % (it,))

    def e_ListComp(self, n, st, fr):
        r = self.comp(n, st, fr, lambda x, cf: self.ev(n.elt, x, cf))
        return self.lib.make_list(self, st, r, n.elt)

    def e_GeneratorExp(self, n, st, fr):
        r = self.comp(n, st, fr, lambda x, cf: self.ev(n.elt, x, cf))
        if isinstance(r, list):
            return self.alloc(st, ListC(r))
        return self.lib.lazy_or_list(self, st, r, n.elt)

    def e_SetComp(self, n, st, fr):
        raise Unsupported('set comprehension')

    def e_DictComp(self, n, st, fr):
        r = self.comp(n, st, fr, lambda x, cf: (self.ev(n.key, x, cf), self.ev(n.value, x, cf)))
        return self.lib.make_dict(self, st, r)
