"""Function contracts: use at call sites, verification of bodies."""
import z3
from .vals import *
from .core import State, Obl, fresh, freshf, has_q

I = z3.IntSort()


class A(object):
    """bound arguments, by the contract's own (positional) parameter names"""
    def __init__(self, d):
        self.__dict__.update(d)


class Contract(object):
    """Subclasses state: params (positional names), setup (symbolic arguments for verification), ghost
    (specification functions with their defining axioms), pre, modifies, result, post, raises, loops."""
    quals = ()
    params = ()
    defaults = {}
    generator = False
    fp = 'round'
    trusted = None            # reason when the body is not verified
    timeout = 600
    solver_timeout = 30

    def name(self):
        return type(self).__name__

    def setup(self, ex, st, fn):
        raise NotImplementedError

    def accepts(self, ex, st, a):
        """does the contract speak about such arguments (otherwise the body is executed in line)"""
        return True

    def ghost(self, ex, st, a):
        return None

    def pre(self, ex, st, a, g):
        return []

    def modifies(self, ex, st, a, g):
        return []

    def result(self, ex, st, a, g):
        return None

    def post(self, ex, old, st, a, g, r):
        return []

    def lemmas(self, ex, old, st, a, g, r):
        """ghost steps performed before the postcondition: [(name, formula)] proved in order, each then assumed"""
        return []

    def first(self, ex, st, a, g):
        """ghost steps performed on entry: [(name, formula) or Induct], proved in order, each then assumed"""
        return []

    def at_call(self, ex, st, callee, a):
        """lemmas of the function being verified, proved where it calls another one"""
        return []

    def raises(self, ex, st, a, g):
        """[(exception name, condition)]: may be raised only when the condition holds"""
        return []

    def loops(self, ex, st, a, g):
        return {}

    # ---------------------------------------------------------------- argument binding
    def bind(self, ex, fn, args, kwargs, st, coerce=True):
        nodeargs = fn.node.args
        names = [x.arg for x in nodeargs.args]
        if fn.self_ is not None:
            args = [fn.self_] + list(args)
        if len(args) > len(names):
            raise Unsupported('too many arguments for ' + fn.qual)
        vals = dict(zip(names, args))
        for k, v in kwargs.items():
            if k not in names or k in vals:
                raise Unsupported('argument %s of %s' % (k, fn.qual))
            vals[k] = v
        df = list(getattr(fn, 'defaults', None) or [])
        for n, d in zip(names[len(names) - len(df):], df):
            if n not in vals:
                vals[n] = d
                if isinstance(d, Ref):
                    ex.pull(st, d)
        d = {}
        if len(names) != len(self.params):
            raise Unsupported('signature of %s differs from its contract' % fn.qual)
        for p, n in zip(self.params, names):
            if n not in vals:
                ex.need(st, 'argument %s of %s is given' % (n, fn.qual), z3.BoolVal(False))
                raise Unsupported('missing argument %s' % n)
            v = vals[n]
            if coerce and fn.lang == 'cy' and n in getattr(fn.node, 'ctypes', {}):
                v = ex.coerce(v, fn.node.ctypes[n], st, None)
            if isinstance(v, ArrView):
                v = ex.lib.materialize(ex, st, v)
            d[p] = v
        return A(d)

    # ---------------------------------------------------------------- call sites
    def apply(self, ex, fn, args, kwargs, st, node):
        a = self.bind(ex, fn, args, kwargs, st)
        if not self.accepts(ex, st, a):
            return NotImplemented
        g = self.ghost(ex, st, a)
        for lm in ex.top.ctr.at_call(ex, st, self, a):
            lemma(ex, st, lm, node)
        short = fn.qual.split('.')[-1]
        for nm, t in self.pre(ex, st, a, g):
            ex.need(st, 'precondition of %s: %s' % (short, nm), t, 'pre', node)
        for exc, cond in self.raises(ex, st, a, g):
            cond = toB(cond)
            if boolval(cond) is False:
                continue
            x = st.copy()
            x.guard(cond)
            ex.excs[-1].append(('exc', None, x, (exc, node)))
            st.guard(NOT(cond))
        old = st.copy()
        for r in self.modifies(ex, st, a, g):
            st.heap[r.id] = ex.havoc_content(st.heap[r.id], short)
        r = self.result(ex, st, a, g)
        for nm, t in self.post(ex, old, st, a, g, r):
            st.assume(toB(t))
        return r

    # ---------------------------------------------------------------- verification
    def verify(self, ex, fn, label=None):
        """obligations of the body of fn against this contract are appended to ex.obls"""
        ex.topnode = fn.node
        ex.topname = label or fn.qual
        st = State()
        for f in ex.modloaded.values():
            st.envs[f.fid] = dict(ex.modstate.envs[f.fid])
            for v in st.envs[f.fid].values():
                ex.pull(st, v)
        args = self.setup(ex, st, fn)
        if len(fn.node.args.args) != len(self.params):
            raise Unsupported('signature of %s differs from its contract' % fn.qual)
        a = self.bind(ex, fn, [args[p] for p in self.params], {}, st, coerce=False)
        g = self.ghost(ex, st, a)
        for nm, t in self.pre(ex, st, a, g):
            st.assume(toB(t))
        a = self.bind(ex, fn, [args[p] for p in self.params], {}, st)
        g = self.ghost(ex, st, a)
        ex.top = A({'a': a, 'g': g, 'ctr': self})
        if self.generator:
            a.yielded = ex.alloc(st, ListC([]))
        entry = st.copy()
        ex.top.entry = entry
        ex.loopspecs = self.loops(ex, entry, a, g)
        ex.looppath, ex.loopcnt, ex.loopctx = (), {}, []
        ex.excs = [[]]
        ex.curline = fn.node.lineno
        for lm in self.first(ex, st, a, g):
            lemma(ex, st, lm, fn.node)
        fr = ex.new_frame(fn, st)
        ex.bind_args(fn, [getattr(a, p) for p in self.params], {}, st, fr)
        if self.generator:
            def yielder(v, x):
                ex.lib.l_append(ex, x, a.yielded, x.heap[a.yielded.id], v)
                return x, []
            fr.yielder = yielder
        st, outs = ex.exec_block(fn.node.body, st, fr)
        outs = ex.excs[0] + outs
        ex.excs = [[]]
        sts, res = [], []
        if st is not None:
            sts.append(st)
            res.append(None)
        allowed = self.raises(ex, entry, a, g)
        for q in outs:
            if q[0] == 'ret':
                v = q[3]
                cr = getattr(fn.node, 'cret', 'object')
                if fn.lang == 'cy' and cr not in ('object', 'void', None):
                    v = ex.coerce(v, cr, q[2], fr)
                sts.append(q[2])
                res.append(v)
            elif q[0] == 'exc':
                nm, node = q[3]
                cond = [c for e, c in allowed if e == nm or e == '*' or nm.endswith('.' + e)]
                ex.obl(q[2], 'raises %s only when permitted' % (nm or 'again'), OR(*[toB(c) for c in cond]) if cond else z3.BoolVal(False), 'raise', node)
            else:
                raise Unsupported('escaping control flow')
        out = State()
        r = ex.join_states(out, sts, res) if sts else None
        ex.vac = entry
        if not sts or out.dead:
            return
        ex.curline = fn.node.lineno
        for lm in self.lemmas(ex, entry, out, a, g, r):
            lemma(ex, out, lm, fn.node)
        for nm, t in self.post(ex, entry, out, a, g, r):
            ex.obl(out, 'postcondition: ' + nm, toB(t), 'post', fn.node)
        mod = {x.id for x in self.modifies(ex, entry, a, g)} | ({a.yielded.id} if self.generator else set())
        for i, c in entry.heap.items():
            if i in mod or out.heap.get(i) is c:
                continue
            t = self.same_content(ex, c, out.heap.get(i))
            ex.obl(out, 'frame: object not listed as modified is unchanged', t, 'frame', fn.node)
        # everything assumed must be consistent with reaching the end
        ex.final = out

    def same_content(self, ex, c, d):
        if isinstance(c, ArrC) and isinstance(d, ArrC) and not isinstance(c.fn, dict):
            vs = [fresh('i', I) for _ in c.shape]
            return z3.ForAll(vs, z3.Implies(ex.lib.inb(vs, c.shape), c.fn(*vs) == d.fn(*vs)))
        if isinstance(c, ListC) and isinstance(d, ListC) and c.items == d.items:
            return z3.BoolVal(True)
        return z3.BoolVal(False)


def lemma(ex, st, lm, node=None):
    """(name, formula): proved, then assumed.
    Induct(...): well-founded induction over a natural-number measure; the step is proved, the conclusion assumed."""
    if isinstance(lm, Induct):
        vs = lm.vs
        xs = [fresh(str(v), v.sort()) for v in vs]
        sub = lambda t, ys: z3.substitute(t, *zip(vs, ys))
        hyp = forall(vs, z3.Implies(z3.And(lm.dom, lm.measure < sub(lm.measure, xs)), lm.prop), *lm.pats)
        x = st.copy()
        x.assume(sub(lm.dom, xs))
        ex.obl(x, 'lemma: %s (measure is natural)' % lm.name, sub(lm.measure, xs) >= 0, 'lemma', node)
        x.assume(hyp)
        for t in lm.using:
            x.assume(sub(t, xs))      # instances of the ghost's defining equations
        ex.obl(x, 'lemma: %s (induction step)' % lm.name, sub(lm.prop, xs), 'lemma', node)
        st.assume(forall(vs, z3.Implies(lm.dom, lm.prop), *lm.pats))
    else:
        ex.need(st, 'lemma: ' + lm[0], toB(lm[1]), 'lemma', node)


class Induct(object):
    def __init__(self, name, vs, dom, measure, prop, pats=(), using=()):
        self.name, self.vs, self.dom, self.measure, self.prop, self.pats, self.using = name, list(vs), dom, measure, prop, pats, using


# -------------------------------------------------------------------- symbolic inputs
def arr(ex, st, name, k, shape):
    """array parameter of kind k and given shape (Python ints or terms)"""
    s = z3.BoolSort() if k == 'bool' else I if k in INTK else z3.RealSort()
    f = z3.Function(name, *([I] * len(shape) + [s]))
    r = ex.alloc(st, ArrC(DT(k), shape, f))
    if k in RANGE:
        lo, hi = RANGE[k]
        vs = [z3.Int('%s_i%d' % (name, j)) for j in range(len(shape))]
        st.assume(z3.ForAll(vs, z3.And(f(*vs) >= lo, f(*vs) <= hi), patterns=[f(*vs)]))
    elif k in FLTK:
        vs = [z3.Int('%s_i%d' % (name, j)) for j in range(len(shape))]
        st.assume(z3.ForAll(vs, z3.And(f(*vs) <= INF, f(*vs) >= -INF), patterns=[f(*vs)]))
    return r


def dims(st, n=2, prefix='', lo=2):
    out = []
    for nm in ('H', 'W', 'D')[:n]:
        v = z3.Int(prefix + nm)
        st.assume(z3.And(v >= lo, v <= 2**31 - 3))
        out.append(N(v, 'int'))
    return out


def integer(st, name, lo=None, hi=None, k='int'):
    v = z3.Int(name)
    if lo is not None:
        st.assume(v >= lo)
    if hi is not None:
        st.assume(v <= hi)
    return N(v, k)


def real(st, name, k='f8'):
    v = z3.Real(name)
    return N(v, k)


def fn_of(st, ref):
    return st.heap[ref.id].fn


def shape_of(st, ref):
    return [iterm(s) for s in st.heap[ref.id].shape]


def is_arr(st, v, nd=None):
    return isinstance(v, Ref) and isinstance(st.heap.get(v.id), ArrC) and (nd is None or len(st.heap[v.id].shape) == nd)


def uf(t):
    return z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.num_args() > 0


def forall(vs, body, *pats):
    """pats: each a term or list of terms (multi-pattern); unusable ones are dropped"""
    ps = []
    for p in pats:
        ts = p if isinstance(p, (list, tuple)) else [p]
        ids = {v.get_id() for v in vs}
        ok = all(uf(t) and clean(t) for t in ts)
        got = set()
        if ok:
            for t in ts:
                consts(t, got)
        if ok and ids <= got:
            ps.append(ts[0] if len(ts) == 1 else z3.MultiPattern(*ts))
    return z3.ForAll(vs, body, patterns=ps) if ps else z3.ForAll(vs, body)


def clean(t, depth=0):
    """usable inside a pattern"""
    if depth > 5 or not z3.is_app(t):
        return False
    if t.decl().kind() in (z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_EQ, z3.Z3_OP_LE):
        return False
    return all(clean(x, depth + 1) for x in t.children())


def consts(t, acc):
    if z3.is_const(t):
        if t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            acc.add(t.get_id())
        return
    for c in t.children():
        consts(c, acc)


def falsy(v):
    """z3 condition that a Python value is false"""
    if v is None:
        return z3.BoolVal(True)
    if isinstance(v, Opt):
        return OR(v.isnone, falsy(v.v))
    t = term(v)
    if z3.is_bool(t):
        return NOT(t)
    return t == 0
