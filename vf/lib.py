"""Models of Python builtins and of the numpy functions /repo uses (the trusted library contracts)."""
import z3, math, ast
from .vals import *
from .core import fresh, freshf, has_q, State
I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()


def bi(name, f, lazy=None):
    b = BI(name, f)
    return b


class LazyBI(BI):
    __slots__ = ('lazy',)

    def __init__(self, name, f, lazy):
        self.name, self.f, self.lazy = name, f, lazy


DTN = {'float32': 'f4', 'float64': 'f8', 'uint8': 'u1', 'int8': 'i1', 'int16': 'i2', 'uint16': 'u2', 'int32': 'i4', 'uint32': 'u4',
       'int64': 'i8', 'uint64': 'u8', 'float': 'f8', 'int': 'i8', 'bool': 'bool', 'bool_': 'bool', 'float_': 'f8', 'int_': 'i8', 'intp': 'i8',
       'double': 'f8', 'single': 'f4'}
KNAME = {'f4': 'float32', 'f8': 'float64', 'u1': 'uint8', 'i1': 'int8', 'i2': 'int16', 'u2': 'uint16', 'i4': 'int32', 'u4': 'uint32', 'i8': 'int64', 'u8': 'uint64', 'bool': 'bool'}


class Lib(object):
    def __init__(self, glue=None):
        self.glue = glue
        self.ext = {}
        self.used = set()
        self.builtins = {}
        for n in dir(self):
            if n.startswith('b_'):
                self.builtins[n[2:]] = self.mkbi(n[2:], getattr(self, n))
        self.np = {}
        for n in dir(self):
            if n.startswith('np_'):
                self.np[n[3:]] = self.mkbi('numpy.' + n[3:], getattr(self, n))
        self.np['testing.assert_almost_equal'] = self.mkbi('numpy.testing.assert_almost_equal', self.assert_almost_equal)
        self.uf = {}

    def mkbi(self, name, f):
        def g(ex, st, a, k):
            self.used.add(name)
            return f(ex, st, *a, **k)
        return BI(name, g)

    # ------------------------------------------------------------------ dispatch of names
    def builtin(self, ex, name):
        if name in self.builtins:
            return self.builtins[name]
        if name in ('float', 'int', 'bool'):
            return DT({'float': 'float', 'int': 'int', 'bool': 'bool'}[name])
        if name in ('FloatArray', 'DoubleArray'):
            return self.mkbi('cyarray.' + name, lambda ex, st: ex.alloc(st, ListC([])))
        if name == '__file__':
            return 'file'
        raise Unsupported('name ' + name)

    def external(self, ex, st, full):
        if full in self.ext:
            return self.ext[full]
        parts = full.split('.')
        if parts[0] in ('numpy', 'np'):
            n = '.'.join(parts[1:])
            if n in DTN:
                return DT(DTN[n])
            if n in self.np:
                return self.np[n]
            if n in ('nan',):
                return Null()
            if n == 'inf':
                return float('inf')
            if n == 'pi':
                return math.pi
            if n in ('testing', 'random'):
                return ModV(full)
            raise Unsupported('numpy.' + n)
        if full == 'math.sqrt':
            return self.mkbi('math.sqrt', lambda ex, st, x: math.sqrt(x) if not isinstance(x, N) else self.unsup('sqrt'))
        if full == 'math.floor':
            return self.mkbi('math.floor', self.m_floor)
        if full == 'math.ceil':
            return self.mkbi('math.ceil', self.m_ceil)
        if full == 'math.pi':
            return math.pi
        if full == 'math.inf':
            return float('inf')
        if full == 'collections.deque':
            return self.mkbi('deque', self.b_list)
        if full == 'collections.defaultdict':
            return self.mkbi('defaultdict', self.defaultdict)
        if full == 'collections.namedtuple':
            return self.mkbi('namedtuple', self.namedtuple)
        if parts[0] == 'logging':
            return Null()
        if parts[0] == 'warnings':
            return Null()
        if parts[0] in ('cython', 'click', 'click_log', 'time'):
            return Null()
        if full == 'osgeo.gdal.ApplyGeoTransform':
            return self.mkbi('gdal.ApplyGeoTransform', self.geotransform)
        if full == 'scipy.ndimage.label':
            return self.mkbi('ndimage.label', self.ndlabel)
        if full in ('copy.copy', 'copy.deepcopy'):
            raise Unsupported(full)
        if self.glue is not None:
            r = self.glue.external(ex, st, full)
            if r is not NotImplemented:
                return r
        if full.count('.') == 0 or full in ('osgeo.gdal', 'osgeo.ogr', 'osgeo.osr', 'os.path', 'scipy.ndimage', 'enum.Enum', 'tempfile.TemporaryDirectory', 'pathlib.Path', 'json'):
            return ModV(full)
        raise Unsupported('external ' + full)

    def unsup(self, what):
        raise Unsupported(what)

    # ------------------------------------------------------------------ numeric helpers
    def read(self, ex, st, t, k):
        """value read from an array of kind k"""
        if k in RANGE:
            lo, hi = RANGE[k]
            if not z3.is_int_value(t):
                f = z3.And(t >= lo, t <= hi)
                st.assume(f)
        return N(t, k)

    def store(self, ex, st, v, k, what='stored value'):
        """term stored into an array of kind k"""
        if isinstance(v, Opt):
            ex.need(st, what + ' is not None', NOT(v.isnone))
            v = v.v
        if isinstance(v, Uni):
            r = None
            for g, x in reversed(v.alts):
                t = self.store(ex, st, x, k, what)
                r = t if r is None else z3.If(g, t, r)
            return r
        if not is_num(v):
            raise Unsupported('store of %r' % (v,))
        kv = kind(v)
        if k == 'bool':
            t = term(v)
            return t if z3.is_bool(t) else t != 0
        if k in RANGE:
            if kv in FLTK:
                raise Unsupported('float stored in integer array')
            x = iterm(v)
            if kv != k:
                lo, hi = RANGE[k]
                if not (kv in RANGE and RANGE[kv][0] >= lo and RANGE[kv][1] <= hi) and not (z3.is_int_value(x) and lo <= x.as_long() <= hi) and kv != 'bool':
                    ex.need(st, '%s fits %s' % (what, KNAME[k]), z3.And(x >= lo, x <= hi))
            return x
        if k == 'int':
            return iterm(v)
        x = rterm(v)
        if k == 'f4' and kv != 'f4':
            if isinstance(v, float) and (v in (float('inf'), float('-inf')) or f4const(v) == v):
                return x
            if isinstance(v, int) and abs(v) < 2**24:
                return x
            return ex.rnd(x, 'f4')
        return x

    def m_floor(self, ex, st, x):
        if isinstance(x, (int, float)):
            return math.floor(x)
        return mk(z3.ToInt(rterm(x)), 'int')

    def m_ceil(self, ex, st, x):
        if isinstance(x, (int, float)):
            return math.ceil(x)
        return mk(-z3.ToInt(-rterm(x)), 'int')

    # ------------------------------------------------------------------ builtins
    def b_len(self, ex, st, x):
        x = self.follow(st, x)
        if isinstance(x, (tuple, str)):
            return len(x)
        if isinstance(x, NT):
            return len(x.vals)
        if isinstance(x, ArrView):
            return mk(x.shape[0], 'int')
        if isinstance(x, SeqV):
            return mk(x.n, 'int')
        if isinstance(x, PRef):
            return self.b_len(ex, st, self.deref(ex, st, x))
        if isinstance(x, Ref):
            c = st.heap[x.id]
            if isinstance(c, ObjC) and isinstance(c.attrs.get('__len__'), BI):
                return c.attrs['__len__'].f(ex, st, [], {})
            if isinstance(c, ListC):
                n = z3.IntVal(0)
                cnt = 0
                for g, _ in c.items:
                    if g is None:
                        cnt += 1
                    else:
                        n = n + b2i(g)
                return mk(n + cnt, 'int') if not z3.is_int_value(n) else cnt
            if isinstance(c, SeqC):
                return mk(c.n, 'int')
            if isinstance(c, ArrC):
                v = c.shape[0]
                return v if is_num(v) else mk(v, 'int')
            if isinstance(c, DictC):
                n = 0
                t = z3.IntVal(0)
                for g, _ in c.d.values():
                    if g is None:
                        n += 1
                    else:
                        t = t + b2i(g)
                return mk(simp(t + n), 'int')
            if isinstance(c, FamC):
                return mk(c.n, 'int')
            if isinstance(c, TreeC):
                return self.b_len(ex, st, c.v)
        raise Unsupported('len of %r' % (x,))

    def b_range(self, ex, st, *a):
        if len(a) == 1:
            lo, hi, s = 0, a[0], 1
        elif len(a) == 2:
            lo, hi, s = a[0], a[1], 1
        else:
            lo, hi, s = a
        for v in (lo, hi, s):
            if not is_num(v) or kind(v) in FLTK:
                raise Unsupported('range of non-integers')
        return RangeV(lo, hi, s)

    def b_min(self, ex, st, *a, **kw):
        return self.minmax(ex, st, a, kw, False)

    def b_max(self, ex, st, *a, **kw):
        return self.minmax(ex, st, a, kw, True)

    def minmax(self, ex, st, a, kw, mx):
        if len(a) == 1:
            its = self.iterable(ex, st, a[0])
            if isinstance(its, IterV):
                return self.extremum(ex, st, its, mx)
            if not isinstance(its, list) or any(g is not None for g, _ in its):
                raise Unsupported('min/max of symbolic sequence')
            a = [v for _, v in its]
        r = a[0]
        for v in a[1:]:
            # Python: max keeps the first of equal elements, min too
            c = ex.compare(ast.Gt() if mx else ast.Lt(), v, r, st)
            if isinstance(c, bool):
                r = v if c else r
            else:
                r = ex.merge_val(c.t, v, r)
        return r

    def extremum(self, ex, st, it, mx):
        """min/max over a symbolic sequence: an element that bounds all of them"""
        ex.need(st, 'min/max of a non-empty sequence', it.n > 0)
        j = fresh('arg', I)
        st.assume(z3.And(j >= 0, j < it.n))
        v = it.item(ex, st, j)
        x = fresh('x', I)
        y = st.copy()
        w = it.item(ex, y, x)
        tv, tw = (iterm(v), iterm(w)) if kind(v) in INTK else (rterm(v), rterm(w))
        st.assume(z3.ForAll([x], z3.Implies(z3.And(x >= 0, x < it.n), (tw <= tv) if mx else (tw >= tv))))
        r = fresh('ext', tv.sort())
        st.assume(r == tv)
        return N(r, kind(v))

    def b_abs(self, ex, st, x):
        if isinstance(x, (int, float)):
            return abs(x)
        if isinstance(x, N):
            t = iterm(x) if x.k in INTK else rterm(x)
            return N(z3.If(t >= 0, t, -t), x.k)
        raise Unsupported('abs')

    def b_sum(self, ex, st, x, start=0):
        its = self.iterable(ex, st, x)
        if isinstance(its, list):
            r = start
            for g, v in its:
                if g is None:
                    r = ex.arith(ast.Add(), r, v, st)
                else:
                    r = ex.merge_val(g, ex.arith(ast.Add(), r, v, st), r)
            return r
        return self.summed(ex, st, its, start)

    def b_all(self, ex, st, x):
        its = self.iterable(ex, st, x)
        if isinstance(its, list):
            return mk(AND(*[toB(ex.truth(v, st)) if g is None else z3.Implies(g, toB(ex.truth(v, st))) for g, v in its]), 'bool')
        if isinstance(its, (IterV, FiltV)):
            k = fresh('all', I)
            y = st.copy()
            rng = z3.And(k >= 0, k < its.n)
            y.guard(rng)
            if isinstance(its, FiltV):
                rng = z3.And(rng, its.pred(ex, y, k))
            t = toB(ex.truth(its.item(ex, y, k), y))
            for _, f in y.pc[len(st.pc) + 1:]:
                pass
            return mk(z3.ForAll([k], z3.Implies(rng, t)), 'bool')
        raise Unsupported('all')

    def b_any(self, ex, st, x):
        its = self.iterable(ex, st, x)
        if isinstance(its, list):
            return mk(OR(*[toB(ex.truth(v, st)) if g is None else AND(g, toB(ex.truth(v, st))) for g, v in its]), 'bool')
        if isinstance(its, IterV):
            k = fresh('any', I)
            y = st.copy()
            rng = z3.And(k >= 0, k < its.n)
            y.guard(rng)
            t = toB(ex.truth(its.item(ex, y, k), y))
            return mk(z3.Exists([k], z3.And(rng, t)), 'bool')
        raise Unsupported('any')

    def b_list(self, ex, st, x=()):
        its = self.iterable(ex, st, x)
        if isinstance(its, list):
            return ex.alloc(st, ListC(its))
        return self.make_list(ex, st, its, None)

    def b_tuple(self, ex, st, x=()):
        if isinstance(x, tuple):
            return x
        if isinstance(x, StructV):
            return tuple(x.f.values())
        its = self.iterable(ex, st, x)
        if isinstance(its, list) and all(g is None for g, _ in its):
            return tuple(v for _, v in its)
        raise Unsupported('tuple()')

    def b_dict(self, ex, st, *a, **kw):
        if a:
            x = self.follow(st, a[0])
            c = st.heap.get(x.id) if isinstance(x, Ref) else None
            if len(a) == 1 and isinstance(c, DictC):
                return ex.alloc(st, DictC(dict(c.d, **{k: (None, v) for k, v in kw.items()})))
            if len(a) == 1 and isinstance(c, MapC) and not kw:
                return ex.alloc(st, c)
            raise Unsupported('dict(x)')
        return ex.alloc(st, DictC({k: (None, v) for k, v in kw.items()}))

    def b_enumerate(self, ex, st, x, start=0):
        its = self.iterable(ex, st, x)
        if isinstance(its, list):
            if any(g is not None for g, _ in its):
                raise Unsupported('enumerate of guarded list')
            return [(None, (start + i, v)) for i, (_, v) in enumerate(its)]
        if isinstance(its, IterV):
            return IterV(its.n, lambda ex, x, k: (mk(k + start, 'int'), its.item(ex, x, k)))
        if isinstance(its, GenV):
            raise Unsupported('enumerate of generator')
        raise Unsupported('enumerate')

    def b_zip(self, ex, st, *xs):
        its = [self.iterable(ex, st, x) for x in xs]
        if all(isinstance(i, list) for i in its):
            if any(g is not None for i in its for g, _ in i):
                raise Unsupported('zip of guarded list')
            return [(None, tuple(v for _, v in t)) for t in zip(*its)]
        ns = [z3.IntVal(len(i)) if isinstance(i, list) else i.n for i in its]
        n = ns[0]
        for m in ns[1:]:
            n = n if m.eq(n) else z3.If(m < n, m, n)

        def get(i, ex, x, k):
            if isinstance(i, list):
                raise Unsupported('zip of list and symbolic sequence')
            return i.item(ex, x, k)
        return IterV(n, lambda ex, x, k: tuple(get(i, ex, x, k) for i in its))

    def b_str(self, ex, st, x=''):
        if isinstance(x, str):
            return x
        if isinstance(x, int) and not isinstance(x, bool):
            return str(x)
        h = getattr(self, 'str_hook', None)
        if h:
            return h(ex, st, x)
        if isinstance(x, Op):
            return x
        if isinstance(x, N) and x.k != 'bool':
            return StrOf(x)
        return Null()

    def b_isinstance(self, ex, st, x, c):
        h = getattr(self, 'isinstance_hook', None)
        if h:
            r = h(ex, st, x, c)
            if r is not NotImplemented:
                return r
        if isinstance(c, BI):
            if c.name == 'dict':
                if isinstance(x, Ref):
                    return isinstance(st.heap[x.id], (DictC, MapC)) or isinstance(st.heap[x.id], TreeC) and isinstance(st.heap[x.id].v, DictV)
                return isinstance(x, DictV)
            if c.name == 'str':
                return isinstance(x, str)
            if c.name in ('list', 'tuple'):
                if isinstance(x, Ref):
                    return c.name == 'list' and isinstance(st.heap[x.id], (ListC, SeqC, BagC))
                return isinstance(x, tuple) and c.name == 'tuple'
        if isinstance(c, DT):
            if is_num(x):
                k = kind(x)
                if c.k == 'int':
                    return k in ('int', 'bool')
                if c.k == 'float':
                    return k in ('float', 'f8')
        raise Unsupported('isinstance')

    def b_bool(self, ex, st, x=False):
        t = ex.truth(x, st)
        return t if isinstance(t, bool) else mk(t, 'bool')

    def b_print(self, ex, st, *a, **k):
        return None

    def b_round(self, ex, st, x, nd=None):
        raise Unsupported('round')

    def b_sorted(self, ex, st, x, **kw):
        raise Unsupported('sorted')

    def b_reversed(self, ex, st, x):
        its = self.iterable(ex, st, x)
        if isinstance(its, list):
            return its[::-1]
        if isinstance(its, IterV):
            return IterV(its.n, lambda ex, s, k: its.item(ex, s, its.n - 1 - k))
        raise Unsupported('reversed')

    def b_map(self, ex, st, f, x):
        its = self.iterable(ex, st, x)
        if isinstance(its, list):
            return [(g, ex.call(f, [v], {}, st, None)) for g, v in its]
        return IterV(its.n, lambda ex, s, k: ex.call(f, [its.item(ex, s, k)], {}, s, None))

    def b_set(self, ex, st, *a):
        raise Unsupported('set')

    def b_getattr(self, ex, st, o, n, d=None):
        if isinstance(n, str):
            return ex.getattr(o, n, st, None)
        raise Unsupported('getattr')

    def b_setattr(self, ex, st, o, n, v):
        if not isinstance(n, str):
            raise Unsupported('setattr of a computed name')
        import ast as _a
        ex.store_attr(_a.Attribute(value=_a.Constant(None), attr=n, ctx=_a.Store()), o, v, st, None)
        return None

    def b_hasattr(self, ex, st, o, n):
        raise Unsupported('hasattr')

    def b_Exception(self, ex, st, *a):
        return Null()

    b_ValueError = b_TypeError = b_NotImplementedError = b_RuntimeError = b_KeyError = b_IndexError = b_Exception
    b_RuntimeWarning = b_Exception

    def exc_sub(self, name, hn):
        return False

    def dtcall(self, ex, st, d, args):
        """float(x), int(x), np.float64(x) ..."""
        if not args:
            return 0 if d.k == 'int' else 0.0
        x = args[0]
        if isinstance(x, str):
            if d.k == 'float':
                return float(x)
            if d.k == 'int':
                return int(x)
        if isinstance(x, Opt):
            ex.need(st, 'converted value is not None', NOT(x.isnone))
            x = x.v
        if isinstance(x, StrOf):
            if d.k == 'int' and kind(x.v) not in INTK:
                raise Unsupported('integer of the text of a float')
            return self.dtcall(ex, st, d, [x.v])
        if isinstance(x, Uni):
            return ex.uni(x, lambda v: self.dtcall(ex, st, d, [v]))
        if isinstance(x, (Op, Null)) or isinstance(x, Ref):
            h = getattr(self, 'conv_hook', None)
            if h:
                return h(ex, st, d, x)
            raise Unsupported('conversion of opaque value')
        if not is_num(x):
            raise Unsupported('conversion of %r' % (x,))
        k = kind(x)
        if d.k == 'float' or d.k in ('f8',):
            if isinstance(x, (int, float)) and not isinstance(x, bool):
                return float(x)
            return N(rterm(x), 'f8' if d.k == 'f8' else 'float')
        if d.k == 'f4':
            if k == 'f4':
                return x
            return N(self.store(ex, st, x, 'f4'), 'f4')
        if d.k == 'int':
            if k in INTK or k == 'bool':
                return mk(iterm(x), 'int')
            t = rterm(x)
            return mk(z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t)), 'int')
        if d.k == 'bool':
            return self.b_bool(ex, st, x)
        if d.k in RANGE:
            return N(self.store(ex, st, x, d.k, 'converted value'), d.k)
        raise Unsupported('conversion to ' + d.k)

    def namedtuple(self, ex, st, name, fields):
        its = self.iterable(ex, st, fields)
        return NTCls(name, [v for _, v in its])

    def defaultdict(self, ex, st, factory=None):
        if isinstance(factory, BI) and factory.name == 'list':
            return ex.alloc(st, MapC(lambda k: z3.BoolVal(False), lambda k: SeqV(z3.IntVal(0), lambda j: UNDEF), 'list', none=(z3.BoolVal(False), SeqV(z3.IntVal(0), lambda j: UNDEF))))
        raise Unsupported('defaultdict')

    def fpuf(self, o, k):
        key = (o, k)
        if key not in self.uf:
            self.uf[key] = z3.Function('f%s_%s' % (o.lower(), k), R, R, R)
        return self.uf[key]

    # ------------------------------------------------------------------ iteration
    def iterable(self, ex, st, it):
        """-> python list of (guard,value) | IterV | FiltV | GenV"""
        it = self.follow(st, it)
        if isinstance(it, list):
            return it
        if isinstance(it, tuple):
            return [(None, v) for v in it]
        if isinstance(it, str):
            return [(None, c) for c in it]
        if isinstance(it, NT):
            return [(None, v) for v in it.vals]
        if isinstance(it, Uni) and all(isinstance(v, tuple) for _, v in it.alts):
            out, past = [], []
            for g, v in it.alts:
                its = self.iterable(ex, st, v)
                out += [(AND(g, *([NOT(q) for q in past] + ([] if h is None else [h]))), x) for h, x in its]
                past.append(g)
            return out
        if isinstance(it, (IterV, FiltV, GenV)):
            return it
        if isinstance(it, RangeV):
            a, b, s = it.a, it.b, it.s
            if not any(isinstance(x, N) for x in (a, b, s)):
                r = range(a, b, s)
                if len(r) <= 64:
                    return [(None, i) for i in r]
            ta, tb, ts = iterm(a), iterm(b), iterm(s)

            def cnt(step):
                if step == 1:
                    return z3.If(tb > ta, tb - ta, z3.IntVal(0))
                if step == -1:
                    return z3.If(ta > tb, ta - tb, z3.IntVal(0))
                if step > 0:
                    return z3.If(tb > ta, (tb - ta + (step - 1)) / step, z3.IntVal(0))
                return z3.If(ta > tb, (ta - tb + (-step - 1)) / (-step), z3.IntVal(0))
            if z3.is_int_value(ts):
                n = cnt(ts.as_long())
                item = lambda ex, x, k: mk(ta + ex.mulint(ts, k), 'int')
            elif z3.is_app(ts) and ts.decl().kind() == z3.Z3_OP_ITE and z3.is_int_value(ts.arg(1)) and z3.is_int_value(ts.arg(2)):
                n = z3.If(ts.arg(0), cnt(ts.arg(1).as_long()), cnt(ts.arg(2).as_long()))
                item = lambda ex, x, k: mk(ta + ex.mulint(ts, k), 'int')
            else:
                raise Unsupported('range with symbolic step')
            return IterV(n, item)
        if isinstance(it, SeqV):
            return IterV(it.n, lambda ex, x, k: it.at(k))
        if isinstance(it, PRef):
            v = self.deref(ex, st, it, raw=True)
            if isinstance(v, SeqV):
                def at(ex, x, k):
                    w = v.at(k)
                    return PRef(it.id, it.path + (k,)) if isinstance(w, (DictV, SeqV)) else w
                return IterV(v.n, at)
            if isinstance(v, DictV):
                return [(None, k) for k in v.d]
            raise Unsupported('iteration over tree value')
        if isinstance(it, DictV):
            return [(None, k) for k in it.d]
        if isinstance(it, Opt):
            ex.need(st, 'iterated object is not None', NOT(it.isnone))
            return self.iterable(ex, st, it.v)
        if isinstance(it, Uni):
            empty = [g for g, v in it.alts if self.isempty(st, v)]
            rest = [(g, v) for g, v in it.alts if not self.isempty(st, v)]
            if not rest:
                return []
            k, n, f = self.vector(ex, st, Uni(rest) if len(rest) > 1 else rest[0][1])
            for g in empty:
                n = z3.If(g, 0, n)
            return IterV(n, lambda ex, x, j: self.read(ex, x, f(j), k))
        if isinstance(it, Ref):
            c = st.heap[it.id]
            if isinstance(c, ListC):
                return list(c.items)
            if isinstance(c, SeqC):
                return IterV(c.n, lambda ex, x, k: c.at(k))
            if isinstance(c, ArrC):
                n = iterm(c.shape[0])
                return IterV(n, lambda ex, x, k: self.getitem(ex, x, it, N(k, 'int')))
            if isinstance(c, DictC):
                return [(g, k) for k, (g, v) in c.d.items()]
            if isinstance(c, FamC):
                return IterV(c.n, lambda ex, x, k: PRef(it.id, (k,)))
            if isinstance(c, TreeC):
                return self.iterable(ex, st, PRef(it.id, ()))
            if isinstance(c, MapC):
                return self.map_iter(ex, st, it, c)
        if isinstance(it, ArrView):
            n = iterm(it.shape[0])
            if len(it.shape) == 1:
                return IterV(n, lambda ex, x, k: self.view_read(ex, x, it, [k]))
        h = getattr(self, 'iter_hook', None)
        if h:
            r = h(ex, st, it)
            if r is not None:
                return r
        raise Unsupported('iteration over %r' % (it,))

    def isempty(self, st, v):
        return isinstance(v, Ref) and isinstance(st.heap.get(v.id), ListC) and not st.heap[v.id].items

    def map_enum(self, ex, st, c):
        """(number of keys, key by position, position of key): the order in which the dict is iterated"""
        if c.factory is not None or boolval(c.none[0]) is not False:
            raise Unsupported('iteration over a dict with default values or the key None')
        if c.enum is None:
            c.enum = fresh('keys', I), freshf('key', I, I), freshf('keypos', I, I)
        n, key, pos = c.enum
        tag = ('enum', n)
        if tag not in st.ghost:
            st.ghost[tag] = c
            i = z3.Int('i')
            st.assume(n >= 0)
            st.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(c.dom(key(i)), pos(key(i)) == i)), patterns=[key(i)]))
            d = c.dom(i)
            ps = [pos(i)] + ([d] if z3.is_app(d) and d.decl().kind() == z3.Z3_OP_UNINTERPRETED and d.num_args() == 1 else [])
            st.assume(z3.ForAll([i], z3.Implies(d, z3.And(pos(i) >= 0, pos(i) < n, key(pos(i)) == i)), patterns=ps))
        return c.enum

    def map_iter(self, ex, st, ref, c):
        n, key, _ = self.map_enum(ex, st, c)
        return IterV(n, lambda ex, x, k: N(key(k), 'int'))

    def concrete_items(self, ex, st, v):
        its = self.iterable(ex, st, v)
        if isinstance(its, list) and all(g is None for g, _ in its):
            return [x for _, x in its]
        raise Unsupported('symbolic sequence where a concrete one is needed')

    def unpack(self, ex, st, v, n):
        if isinstance(v, Opt):
            ex.need(st, 'unpacked value is not None', NOT(v.isnone))
            v = v.v
        if isinstance(v, Uni):
            parts = [self.unpack(ex, st, x, n) for _, x in v.alts]
            res = []
            for i in range(n):
                r = None
                for (g, _), p in reversed(list(zip(v.alts, parts))):
                    r = p[i] if r is None else ex.merge_val(g, p[i], r)
                res.append(r)
            return res
        if isinstance(v, NT):
            v = tuple(v.vals)
        if isinstance(v, tuple):
            if len(v) != n:
                ex.need(st, 'unpacking %d values' % n, z3.BoolVal(False))
                raise Unsupported('unpack length')
            return v
        h = getattr(self, 'unpack_hook', None)
        if h:
            r = h(ex, st, v, n)
            if r is not None:
                return r
        if isinstance(v, (Ref, PRef)):
            if isinstance(v, Ref) and isinstance(st.heap[v.id], (SeqC,)):
                c = st.heap[v.id]
                ex.need(st, 'unpacking %d values' % n, c.n == n)
                return [c.at(z3.IntVal(i)) for i in range(n)]
            its = self.iterable(ex, st, v)
            if isinstance(its, list) and all(g is None for g, _ in its):
                return self.unpack(ex, st, tuple(x for _, x in its), n)
            if isinstance(its, IterV):
                ex.need(st, 'unpacking %d values' % n, its.n == n)
                return [its.item(ex, st, z3.IntVal(i)) for i in range(n)]
        raise Unsupported('unpacking of %r' % (v,))

    def make_list(self, ex, st, r, eltnode):
        if isinstance(r, list):
            return ex.alloc(st, ListC(r))
        if isinstance(r, IterV):
            # elements: evaluate once at a symbolic index to learn whether they allocate
            k = fresh('lc', I)
            y = st.copy()
            y.guard(z3.And(k >= 0, k < r.n))
            ids0 = set(y.heap)
            v = r.item(ex, y, k)
            if isinstance(v, Ref) and v.id not in ids0:
                c = y.heap[v.id]
                if isinstance(c, ListC) and not c.items:
                    return ex.alloc(st, FamC(r.n, lambda i: z3.IntVal(0), lambda i, k: None))
                c2 = self.to_tree(ex, y, v)
                self.carry(ex, st, y, k, r.n)

                def at(i, k=k, c2=c2):
                    return self.subst(c2, k, i)
                return ex.alloc(st, TreeC(SeqV(r.n, at)))
            if isinstance(v, PRef) or isinstance(v, Ref):
                w = self.to_tree(ex, y, v) if getattr(self, 'copy_lists', True) else v
                self.carry(ex, st, y, k, r.n)
                if isinstance(v, PRef):
                    return ex.alloc(st, SeqC(r.n, lambda i, v=v, k=k: self.subst(v, k, i)))
                raise Unsupported('list of references')
            self.carry(ex, st, y, k, r.n)
            return ex.alloc(st, SeqC(r.n, lambda i, v=v, k=k: self.subst(v, k, i)))
        if isinstance(r, FiltV):
            return self.filtered(ex, st, r)
        raise Unsupported('list()')

    def carry(self, ex, st, y, k, n, base=None, p=True):
        """facts and definedness learned while evaluating an element at symbolic index k hold for all k"""
        for g, t in y.pc[len(st.pc) + 1 if base is None else base:]:
            if not has_q(t):
                st.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n, p), t)))

    def lazy_or_list(self, ex, st, r, elt):
        return r

    def make_dict(self, ex, st, r):
        if isinstance(r, list):
            d = {}
            for g, (k, v) in r:
                if not conc(k):
                    raise Unsupported('dict comprehension with symbolic keys')
                d[k] = (g, v)
            return ex.alloc(st, DictC(d))
        return self.dict_of(ex, st, r)

    def dict_of(self, ex, st, r):
        """dict made from a symbolic sequence of (key, value): the last of equal keys wins"""
        k = fresh('dc', I)
        y = st.copy()
        rng = z3.And(k >= 0, k < r.n)
        y.guard(rng)
        p = z3.BoolVal(True)
        if isinstance(r, FiltV):
            p = toB(r.pred(ex, y, k))
            self.carry(ex, st, y, k, r.n)
            y = st.copy()
            rng = z3.And(rng, p)
            y.guard(rng)
        base = len(y.pc)
        key, val = r.item(ex, y, k)
        if isinstance(key, (str, Opt)):
            raise Unsupported('dict comprehension with such keys')
        if isinstance(val, Ref) and val.id not in st.heap:
            raise Unsupported('dict comprehension of new objects')
        self.carry(ex, st, y, k, r.n, base, p)
        kt = iterm(key)
        dom, last = freshf('haskey', I, B), freshf('lastwith', I, I)
        q = z3.Int('q')
        at = lambda t, i: z3.substitute(t, (k, i))
        ok = lambda i: z3.And(i >= 0, i < r.n, at(p, i))
        st.assume(z3.ForAll([q], z3.Implies(dom(q), z3.And(ok(last(q)), at(kt, last(q)) == q)), patterns=[dom(q), last(q)]))
        ps = [[t] for t in (kt,) if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.num_args() == 1 and t.arg(0).eq(k)]
        st.assume(z3.ForAll([k], z3.Implies(ok(k), z3.And(dom(kt), last(kt) >= k)), **({'patterns': [t[0] for t in ps]} if ps else {})))
        m = MapC(lambda i: dom(i), lambda i: self.subst(val, k, last(i)))
        m.tag = ('dictof', last, r.n, lambda i: at(kt, i), lambda i: at(p, i))
        h = getattr(ex.top.ctr, 'on_dict', None)
        if h is not None:
            from .contract import lemma
            for lm in h(ex, st, m, last):
                lemma(ex, st, lm)
        return ex.alloc(st, m)

    def filtered(self, ex, st, r):
        """list of the elements of a symbolic sequence that satisfy a condition, in order"""
        k = fresh('fl', I)
        y = st.copy()
        y.guard(z3.And(k >= 0, k < r.n))
        p = toB(r.pred(ex, y, k))
        self.carry(ex, st, y, k, r.n)
        y = st.copy()
        y.guard(z3.And(k >= 0, k < r.n, p))
        base = len(y.pc)
        v = r.item(ex, y, k)
        if isinstance(v, Ref) and v.id not in st.heap:
            raise Unsupported('filtered list of new objects')
        self.carry(ex, st, y, k, r.n, base, p)
        m, src, pos = fresh('kept', I), freshf('source', I, I), freshf('place', I, I)
        i, j = z3.Ints('i j')
        at = lambda t, i: z3.substitute(t, (k, i))
        st.assume(z3.And(m >= 0, m <= r.n))
        st.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < m), z3.And(src(i) >= 0, src(i) < r.n, at(p, src(i)), pos(src(i)) == i)), patterns=[src(i)]))
        st.assume(z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < m), src(i) < src(j)), patterns=[z3.MultiPattern(src(i), src(j))]))
        ps = [pos(i)]
        q = at(p, i)
        if z3.is_app(q) and q.decl().kind() == z3.Z3_OP_UNINTERPRETED and q.num_args() == 1 and q.arg(0).eq(i):
            ps.append(q)
        st.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < r.n, q), z3.And(pos(i) >= 0, pos(i) < m, src(pos(i)) == i)), patterns=ps))
        st.ghost[('filtered', m)] = (m, src, pos, r.n, lambda i: at(p, i))
        return ex.alloc(st, SeqC(m, lambda i: self.subst(v, k, src(i))))

    def summed(self, ex, st, it, start):
        """sum over a symbolic sequence, in its order"""
        if not isinstance(it, IterV):
            raise Unsupported('sum of filtered sequence')
        k = fresh('sm', I)
        y = st.copy()
        y.guard(z3.And(k >= 0, k < it.n))
        v = it.item(ex, y, k)
        self.carry(ex, st, y, k, it.n)
        isint = kind(v) in INTK
        t = iterm(v) if isint else rterm(v)
        S = freshf('sum', I, I if isint else R)
        s0 = iterm(start) if isint else rterm(start)
        nxt = S(k) + t
        res = N(nxt, 'int' if isint else 'f8')
        if not isint:
            res = ex.arith(ast.Add(), N(S(k), 'f8'), v, y)
        st.assume(S(0) == s0)
        st.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < it.n), S(k + 1) == (iterm(res) if isint else rterm(res))), patterns=[S(k + 1), S(k)]))
        st.ghost[('sum', S)] = (S, it.n, lambda i: z3.substitute(t, (k, i)))
        h = getattr(ex.top.ctr, 'on_sum', None)
        if h is not None:
            from .contract import lemma
            for lm in h(ex, st, S, it.n, lambda i: z3.substitute(t, (k, i))):
                lemma(ex, st, lm)
        return N(S(it.n), 'int' if isint else 'f8')

    def subst(self, v, k, i):
        """value with index variable k replaced"""
        if isinstance(v, N):
            return mk(z3.substitute(v.t, (k, i)), v.k)
        if isinstance(v, tuple):
            return tuple(self.subst(x, k, i) for x in v)
        if isinstance(v, StructV):
            return StructV(v.name, {a: self.subst(x, k, i) for a, x in v.f.items()})
        if isinstance(v, NT):
            return NT(v.cls, [self.subst(x, k, i) for x in v.vals])
        if isinstance(v, DictV):
            return DictV({a: self.subst(x, k, i) for a, x in v.d.items()})
        if isinstance(v, SeqV):
            return SeqV(z3.substitute(v.n, (k, i)), lambda j: self.subst(v.at(j), k, i))
        if isinstance(v, Op):
            return Op(z3.substitute(v.t, (k, i)), v.tag)
        if isinstance(v, StrOf):
            return StrOf(self.subst(v.v, k, i))
        if isinstance(v, Joined):
            return Joined(v.sep, self.subst(v.s, k, i))
        if isinstance(v, Opt):
            return Opt(z3.substitute(v.isnone, (k, i)), self.subst(v.v, k, i))
        if isinstance(v, PUndef):
            return PUndef(z3.substitute(v.when, (k, i)), self.subst(v.v, k, i))
        if isinstance(v, PRef):
            return PRef(v.id, [p if isinstance(p, str) else KeyS(z3.substitute(p.isnone, (k, i)), z3.substitute(p.t, (k, i))) if isinstance(p, KeyS) else z3.substitute(p, (k, i)) for p in v.path])
        if isinstance(v, RecView):
            return RecView(v.ref, z3.substitute(v.idx, (k, i)))
        if isinstance(v, z3.ExprRef):
            return z3.substitute(v, (k, i))
        if isinstance(v, Uni):
            return Uni([(z3.substitute(g, (k, i)), self.subst(x, k, i)) for g, x in v.alts])
        if v is None or isinstance(v, (bool, int, float, str, Ref, Fn, BI, Cls, DT, Null, EnumMember, Undef, BadV)):
            return v
        raise Unsupported('substitution in %r' % type(v).__name__)

    # ------------------------------------------------------------------ trees
    def to_tree(self, ex, st, v):
        """snapshot of a value as an immutable tree (for lists of dicts etc.)"""
        v = self.follow(st, v)
        if isinstance(v, Ref):
            c = st.heap[v.id]
            if isinstance(c, DictC):
                d = {}
                for k, (g, x) in c.d.items():
                    y = self.to_tree(ex, st, x)
                    d[k] = y if g is None else PUndef(NOT(g), y)
                return DictV(d)
            if isinstance(c, ListC):
                if any(g is not None for g, _ in c.items):
                    raise Unsupported('guarded list in tree')
                vals = [self.to_tree(ex, st, x) for _, x in c.items]
                if not vals:
                    return SeqV(z3.IntVal(0), lambda k: UNDEF)
                return SeqV(z3.IntVal(len(vals)), lambda k: self.pick(ex, vals, k))
            if isinstance(c, SeqC):
                return SeqV(c.n, lambda k: self.to_tree(ex, st, c.at(k)))
            if isinstance(c, TreeC):
                return c.v
            if isinstance(c, ArrC):
                return v
            raise Unsupported('tree of ' + type(c).__name__)
        if isinstance(v, PRef):
            return v
        if isinstance(v, tuple):
            return tuple(self.to_tree(ex, st, x) for x in v)
        return v

    def pick(self, ex, vals, k):
        if z3.is_int_value(k):
            i = k.as_long()
            if 0 <= i < len(vals):
                return vals[i]
        r = None
        for j in range(len(vals) - 1, -1, -1):
            r = vals[j] if r is None else ex.merge_val(k == j, vals[j], r)
        return r

    # dicts with symbolic keys
    def under(self, v):
        """the value apart from whether it is there"""
        return v.v if isinstance(v, PUndef) else v

    def as_map(self, ex, c):
        if isinstance(c, MapC):
            return c
        if any(not isinstance(k, int) or isinstance(k, bool) for k in c.d):
            raise Unsupported('dict with names and computed keys')
        items = list(c.d.items())

        def val(k):
            r = UNDEF
            for kk, (g, v) in items:
                r = v if isinstance(r, Undef) else ex.merge_val(k == kk, v, r)
            return r
        return MapC(lambda k: OR(*[AND(toB(True if g is None else g), k == kk) for kk, (g, v) in items]), val)

    def as_seqv(self, ex, c):
        if isinstance(c, TreeC):
            return c.v
        s = ex.to_seq(c)
        if isinstance(c, ListC) and not c.items:
            return SeqV(z3.IntVal(0), lambda k: UNDEF)
        return SeqV(s.n, s.at)

    def key_step(self, i):
        if isinstance(i, Opt):
            b = boolval(i.isnone)
            if b is False:
                return self.key_step(i.v)
            if b is True:
                return KeyS(z3.BoolVal(True), z3.IntVal(0))
            return KeyS(i.isnone, iterm(i.v))
        if i is None:
            return KeyS(z3.BoolVal(True), z3.IntVal(0))
        if isinstance(i, N) and i.k not in INTK or isinstance(i, float):
            raise Unsupported('dict key of type ' + kind(i))
        return iterm(i)

    def map_at(self, ex, c, s):
        """(is there, value) under the key"""
        if isinstance(s, KeyS):
            d = simp(z3.If(s.isnone, c.none[0], c.dom(s.t)))
            a, b = self.under(c.none[1]), self.under(c.val(s.t))
            return d, b if isinstance(a, Undef) else a if isinstance(b, Undef) else ex.merge_val(s.isnone, a, b)
        return c.dom(s), self.under(c.val(s))

    def map_put(self, ex, c, s, v):
        if not isinstance(s, KeyS):
            s = KeyS(z3.BoolVal(False), s)
        isn = boolval(s.isnone)
        dom, val, none = c.dom, c.val, c.none
        if isn is not True:
            hit = (lambda k: k == s.t) if isn is False else (lambda k: z3.And(z3.Not(s.isnone), k == s.t))

            def val(k):
                if isn is False and k.eq(s.t):
                    return v
                o = self.under(c.val(k))
                return v if isinstance(o, Undef) else ex.merge_val(hit(k), v, o)
            dom = lambda k: z3.Or(c.dom(k), hit(k))
        if isn is not False:
            o = self.under(c.none[1])
            none = (simp(z3.Or(c.none[0], s.isnone)), v if isinstance(o, Undef) or isn is True else ex.merge_val(s.isnone, v, o))
        return MapC(dom, val, c.factory, c.tag, none=none)

    def put(self, ex, st, o, new):
        """new value at the place o refers to"""
        c = st.heap[o.id]
        if isinstance(c, MapC):
            s = o.path[0]
            _, cur = self.map_at(ex, c, s)
            st.heap[o.id] = self.map_put(ex, c, s, self.tree_set(ex, cur, o.path[1:], new))
        elif isinstance(c, SeqC):
            s = self.tree_set(ex, SeqV(c.n, c.at), o.path, new)
            st.heap[o.id] = SeqC(s.n, s.at)
        else:
            st.heap[o.id] = TreeC(self.tree_set(ex, c.v, o.path, new))

    def link(self, ex, st, v, place):
        """the dict v now lives at the given place; what other dicts were linked to there is no longer known to be it"""
        c = st.heap.get(v.id) if isinstance(v, Ref) else None
        if isinstance(c, (DictC, ListC, SeqC, TreeC)):
            st.heap[v.id] = LinkC(place)
            if isinstance(c, DictC):
                for k, (g, x) in c.d.items():
                    self.link(ex, st, x, PRef(place.id, place.path + (k,)))
            elif isinstance(c, ListC):
                for k, (g, x) in enumerate(c.items):
                    self.link(ex, st, x, PRef(place.id, place.path + (z3.IntVal(k),)))

    def treeify(self, ex, st, id):
        """the list as a list of trees; the objects in it are from now on known by their places"""
        c = st.heap[id]
        v = self.to_tree(ex, st, Ref(id))
        st.heap[id] = TreeC(v)
        if isinstance(c, ListC):
            for k, (g, x) in enumerate(c.items):
                self.link(ex, st, x, PRef(id, (z3.IntVal(k),)))

    def new_dicts(self, st, c, old, c0):
        try:
            v = c.items[-1][1] if isinstance(c, ListC) and c.items else c.at(c0.n) if isinstance(c, SeqC) and isinstance(c0, SeqC) else None
        except Exception:
            return False
        if isinstance(v, Uni):
            v = v.alts[0][1]
        return isinstance(v, Ref) and v.id not in old.heap and isinstance(st.heap.get(v.id), DictC)

    def unlink(self, ex, st, id):
        for i, c in list(st.heap.items()):
            if isinstance(c, LinkC) and c.to.id == id:
                st.heap[i] = LinkC(BadV('object taken out of a dict'))

    def follow(self, st, o):
        while isinstance(o, Ref) and isinstance(st.heap.get(o.id), LinkC):
            o = st.heap[o.id].to
            if isinstance(o, BadV):
                raise Unsupported(o.why)
        return o

    def deref(self, ex, st, p, raw=False):
        c = st.heap[p.id]
        if isinstance(c, MapC):
            v = self.map_at(ex, c, p.path[0])[1]
            return self.walk(v, p.path[1:])
        if isinstance(c, FamC):
            if len(p.path) == 1:
                i = p.path[0]
                return SeqV(c.ln(i), lambda k: c.at(i, k))
            return c.at(p.path[0], p.path[1])
        if isinstance(c, SeqC):
            v = SeqV(c.n, c.at)
        else:
            v = c.v
        return self.walk(v, p.path)

    def walk(self, v, path):
        for s in path:
            if isinstance(v, PUndef):
                v = v.v
            if isinstance(v, Opt):
                v = v.v
            if isinstance(s, str):
                v = v.d[s]
            elif isinstance(v, SeqV):
                v = v.at(s)
            elif isinstance(v, tuple):
                v = v[s.as_long()]
            else:
                raise Unsupported('path')
        return v

    def tree_set(self, ex, v, path, new):
        if not path:
            return new
        s = path[0]
        if isinstance(v, PUndef):
            v = v.v
        if isinstance(s, str):
            d = dict(v.d)
            d[s] = self.tree_set(ex, d.get(s), path[1:], new)
            return DictV(d)
        if isinstance(v, SeqV):
            return SeqV(v.n, lambda k: ex.merge_val(k == s, self.tree_set(ex, v.at(k), path[1:], new), v.at(k)))
        raise Unsupported('update of tree')

    # ------------------------------------------------------------------ attributes
    def attr(self, ex, st, o, attr, node=None):
        o = self.follow(st, o)
        if isinstance(o, (Ref, ArrView)):
            c = st.heap[o.id] if isinstance(o, Ref) else None
            if isinstance(c, ArrC) or isinstance(o, ArrView):
                return self.arr_attr(ex, st, o, attr)
            if isinstance(c, (ListC, SeqC, BagC, FamC)):
                return self.list_attr(ex, st, o, c, attr)
            if isinstance(c, (DictC, MapC)):
                return self.dict_attr(ex, st, o, c, attr)
            if isinstance(c, TreeC):
                return self.tree_attr(ex, st, PRef(o.id, ()), attr)
        if isinstance(o, PRef):
            return self.tree_attr(ex, st, o, attr)
        if isinstance(o, (DictV, SeqV)):
            return self.tree_attr(ex, st, o, attr)
        if isinstance(o, DT):
            if attr == 'type':
                return o
            if attr == 'kind':
                return {'f': 'f', 'i': 'i', 'u': 'u', 'b': 'b'}[o.k[0]]
            if attr == 'name':
                return KNAME.get(o.k, o.k)
        if isinstance(o, str):
            return self.str_attr(ex, st, o, attr)
        if isinstance(o, Joined) and attr == 'split':
            def split(ex, st, a, k):
                if len(a) != 1 or a[0] != o.sep:
                    raise Unsupported('splitting a joined text elsewhere')
                ex.need(st, 'the text that is split is not empty', o.s.n >= 1)
                return ex.alloc(st, SeqC(o.s.n, o.s.at))
            return BI('str.split', split)
        if isinstance(o, N):
            if attr == 'dtype':
                return DT(o.k)
            if attr == 'item':
                return BI('item', lambda ex, st, a, k: o)
        h = getattr(self, 'attr_hook', None)
        if h:
            r = h(ex, st, o, attr)
            if r is not NotImplemented:
                return r
        raise Unsupported('attribute %s of %r' % (attr, o))

    def objattr(self, ex, st, o, c, attr):
        raise Unsupported('attribute %s of object' % attr)

    def setattr(self, ex, st, o, attr, v):
        raise Unsupported('setting attribute ' + attr)

    def str_attr(self, ex, st, o, attr):
        if attr == 'format':
            return BI('format', lambda ex, st, a, k: o.format(*a, **k) if all(isinstance(x, (str, int)) for x in list(a) + list(k.values())) else self.strcat(ex, st, [o] + list(a) + list(k.values())))
        if attr in ('rsplit', 'title', 'capitalize', 'isdigit', 'find', 'partition', 'lstrip', 'rstrip', 'count'):
            attr_ = attr
            return BI('str.' + attr, lambda ex, st, a, k: (lambda r: ex.alloc(st, ListC([(None, x) for x in r])) if isinstance(r, list) else r)(getattr(o, attr_)(*a)) if all(isinstance(x, (str, int)) for x in a) else self.unsup('string method'))
        if attr == 'join':
            def join(ex, st, a, k):
                v = self.iterable(ex, st, a[0])
                if isinstance(v, (IterV, FiltV)):
                    v = ex.to_seq(st.heap[self.make_list(ex, st, v, None).id])
                    e = v.at(z3.Int('elem'))
                    if isinstance(e, StrOf) and kind(e.v) in INTK and o and not any(ch in '-0123456789' for ch in o):
                        return Joined(o, SeqV(iterm(v.n), v.at))
                    raise Unsupported('joining such texts')
                if all(g is None and isinstance(x, str) for g, x in v):
                    return o.join(x for _, x in v)
                h = getattr(self, 'strmeth_hook', None)
                if h:
                    return h(ex, st, o, attr, a)
                raise Unsupported('joining such texts')
            return BI('str.join', join)
        if attr in ('split', 'strip', 'replace', 'lower', 'upper', 'startswith', 'endswith'):
            def f(ex, st, a, k):
                if all(isinstance(x, (str, int)) for x in a):
                    r = getattr(o, attr)(*a)
                    if isinstance(r, list):
                        return ex.alloc(st, ListC([(None, x) for x in r]))
                    return r
                h = getattr(self, 'strmeth_hook', None)
                if h:
                    return h(ex, st, o, attr, a)
                raise Unsupported('string method')
            return BI('str.' + attr, f)
        raise Unsupported('str.' + attr)

    def strcat(self, ex, st, vals):
        if all(isinstance(v, (str, int)) and not isinstance(v, bool) for v in vals):
            return ''.join(str(v) for v in vals)
        h = getattr(self, 'strcat_hook', None)
        if h:
            return h(ex, st, vals)
        return Null()

    def list_attr(self, ex, st, o, c, attr):
        m = getattr(self, 'l_' + attr, None)
        if m is None:
            raise Unsupported('list.' + attr)
        return BI('list.' + attr, lambda ex, st, a, k: m(ex, st, o, st.heap[o.id], *a, **k))

    def l_append(self, ex, st, o, c, v):
        if isinstance(c, ListC):
            st.heap[o.id] = ListC(c.items + ((None, v),))
        elif isinstance(c, SeqC):
            n = c.n
            st.heap[o.id] = SeqC(n + 1, lambda k: v if k.eq(n) else ex.merge_val(k == n, v, c.at(k)))
        elif isinstance(c, BagC):
            st.heap[o.id] = self.bag_add(ex, st, c, None, v)
        else:
            raise Unsupported('append')

    l_c_append = l_append

    def bag_flat(self, v):
        if isinstance(v, StructV):
            return [v.f[k] for k in sorted(v.f)]
        if isinstance(v, tuple):
            r = []
            for x in v:
                r += self.bag_flat(x)
            return r
        if not is_num(v) or kind(v) not in INTK:
            raise Unsupported('work list element')
        return [v]

    def bag_unflat(self, sample, vs):
        """value shaped like sample with components taken from the iterator vs"""
        if isinstance(sample, StructV):
            d = {k: next(vs) for k in sorted(sample.f)}
            return StructV(sample.name, {k: N(d[k], kind(sample.f[k])) for k in sample.f})
        if isinstance(sample, tuple):
            return tuple(self.bag_unflat(x, vs) for x in sample)
        return N(next(vs), 'int')

    def bagify(self, ex, c):
        """work list with the items of list c, None if they are not of one shape"""
        vs = [v for _, v in c.items]
        try:
            if not vs or len({len(self.bag_flat(v)) for v in vs}) != 1:
                return None
        except Unsupported:
            return None
        n = len(self.bag_flat(vs[0]))
        m = BagC(z3.BoolVal(False), lambda *x: z3.BoolVal(False), vs[0])
        for g, v in c.items:
            m = self.bag_add(ex, None, m, g, v)
        return m

    def bag_add(self, ex, st, c, g, v):
        ts = [iterm(x) for x in self.bag_flat(v)]
        if len(ts) != len(self.bag_flat(c.sample)):
            raise Unsupported('work list element shape')
        return c.plus(g, ts)

    def l_extend(self, ex, st, o, c, xs):
        its = self.iterable(ex, st, xs)
        if isinstance(its, list):
            for g, v in its:
                c = st.heap[o.id]
                if isinstance(c, ListC):
                    st.heap[o.id] = ListC(c.items + ((g, v),))
                elif isinstance(c, BagC):
                    st.heap[o.id] = self.bag_add(ex, st, c, g, v)
                elif isinstance(c, SeqC) and g is None:
                    self.l_append(ex, st, o, c, v)
                else:
                    raise Unsupported('extend')
            return
        if isinstance(its, IterV) and isinstance(c, BagC):
            # bag of all items
            k = fresh('ext', I)
            y = st.copy()
            v = its.item(ex, y, k)
            ts = [iterm(x) for x in self.bag_flat(v)]
            old = c.mem

            def mem(*x):
                return z3.Or(old(*x), z3.Exists([k], z3.And(k >= 0, k < its.n, *[p == q for p, q in zip(x, ts)])))
            st.heap[o.id] = BagC(z3.Or(c.nonempty, its.n > 0), mem, c.sample)
            return
        raise Unsupported('extend with symbolic sequence')

    def l_pop(self, ex, st, o, c, i=-1):
        if isinstance(c, BagC):
            from .contract import forall
            ex.need(st, 'pop from a non-empty list', c.nonempty)
            flat = self.bag_flat(c.sample)
            vs = [fresh('pop', I) for _ in flat]
            st.assume(c.mem(*vs))
            old = c.mem
            # what remains: members other than (possibly still containing a copy of) the popped one
            rest = freshf('bag', *([I] * len(vs) + [B]))
            xs = [z3.Int('bag_%d' % j) for j in range(len(vs))]
            st.assume(forall(xs, z3.Implies(rest(*xs), old(*xs)), rest(*xs)))
            st.assume(forall(xs, z3.Implies(z3.And(old(*xs), z3.Not(z3.And(*[a == b for a, b in zip(xs, vs)]))), rest(*xs)), old(*xs), rest(*xs)))
            ne = fresh('nonempty', B)
            st.assume(forall(xs, z3.Implies(rest(*xs), ne), rest(*xs)))
            st.heap[o.id] = BagC(ne, rest, c.sample)
            v = self.bag_unflat(c.sample, iter(vs))
            ex.kind_facts(st, v)
            h = getattr(ex.top.ctr, 'on_pop', None)
            if h:
                h(ex, st, v)
            return v
        if isinstance(c, ListC) and all(g is None for g, _ in c.items) and isinstance(i, int):
            if not c.items:
                ex.need(st, 'pop from a non-empty list', z3.BoolVal(False))
                raise Unsupported('pop from empty list')
            items = list(c.items)
            v = items.pop(i)
            st.heap[o.id] = ListC(items)
            return v[1]
        if isinstance(c, SeqC) and i == -1:
            ex.need(st, 'pop from a non-empty list', c.n > 0)
            st.heap[o.id] = SeqC(c.n - 1, c.at)
            return c.at(c.n - 1)
        raise Unsupported('pop')

    def l_popleft(self, ex, st, o, c):
        if isinstance(c, BagC):
            return self.l_pop(ex, st, o, c)
        return self.l_pop(ex, st, o, c, 0)

    def l_reverse(self, ex, st, o, c):
        if isinstance(c, ListC) and all(g is None for g, _ in c.items):
            st.heap[o.id] = ListC(c.items[::-1])
        elif isinstance(c, SeqC):
            st.heap[o.id] = SeqC(c.n, lambda k: c.at(c.n - 1 - k))
        else:
            raise Unsupported('reverse')

    def l_get_npy_array(self, ex, st, o, c):
        return o

    def l_copy(self, ex, st, o, c):
        return ex.alloc(st, c)

    def l_clear(self, ex, st, o, c):
        st.heap[o.id] = ListC([])

    def dict_attr(self, ex, st, o, c, attr):
        m = getattr(self, 'd_' + attr, None)
        if m is None:
            raise Unsupported('dict.' + attr)
        return BI('dict.' + attr, lambda ex, st, a, k: m(ex, st, o, st.heap[o.id], *a, **k))

    def d_get(self, ex, st, o, c, key, default=None):
        if isinstance(c, DictC) and conc(key):
            if key not in c.d:
                return default
            g, v = c.d[key]
            return v if g is None else ex.merge_val(g, v, default)
        if isinstance(c, MapC):
            return self.map_get(ex, st, o, c, key, default)
        if isinstance(c, DictC) and isinstance(key, SymEnum):
            r = default
            for k, t in self.enum_keys(c, key):
                r = ex.merge_val(t, c.d[k][1], r)
            return r
        raise Unsupported('dict.get')

    def enum_keys(self, c, e):
        """(key, condition that the symbolic enum member e is that key and it is present)"""
        return [(k, AND(e.t == e.names.index(k.name), *([] if g is None else [g])))
                for k, (g, v) in c.d.items() if isinstance(k, EnumMember) and k.name in e.names]

    def map_get(self, ex, st, o, c, key, default):
        k = self.key_step(key)
        d, v = self.map_at(ex, c, k)
        return ex.merge_val(d, PRef(o.id, (k,)) if isinstance(v, (DictV, SeqV)) else v, default)

    def d_keys(self, ex, st, o, c):
        if isinstance(c, DictC):
            return [(g, k) for k, (g, v) in c.d.items()]
        return self.map_iter(ex, st, o, c)

    def d_values(self, ex, st, o, c):
        if isinstance(c, DictC):
            return [(g, v) for k, (g, v) in c.d.items()]
        return self.map_values(ex, st, o, c)

    def d_items(self, ex, st, o, c):
        if isinstance(c, DictC):
            return [(g, (k, v)) for k, (g, v) in c.d.items()]
        return self.map_items(ex, st, o, c)

    def map_values(self, ex, st, o, c):
        n, key, _ = self.map_enum(ex, st, c)
        return IterV(n, lambda ex, x, k: self.map_item(c, o, key(k)))

    def map_items(self, ex, st, o, c):
        n, key, _ = self.map_enum(ex, st, c)
        return IterV(n, lambda ex, x, k: (N(key(k), 'int'), self.map_item(c, o, key(k))))

    def map_item(self, c, o, t):
        v = self.under(c.val(t))
        return PRef(o.id, (t,)) if isinstance(v, (DictV, SeqV)) else v

    def d_copy(self, ex, st, o, c):
        return ex.alloc(st, c)

    def d_clear(self, ex, st, o, c):
        st.heap[o.id] = DictC({})

    def d_update(self, ex, st, o, c, other=None, **kw):
        if isinstance(c, DictC):
            d = dict(c.d)
            if other is not None:
                oc = st.heap[other.id]
                if not isinstance(oc, DictC):
                    raise Unsupported('dict.update')
                for k, (g, v) in oc.d.items():
                    if g is not None:
                        raise Unsupported('dict.update')
                    d[k] = (g, v)
            for k, v in kw.items():
                d[k] = (None, v)
            st.heap[o.id] = DictC(d)
            return
        raise Unsupported('dict.update')

    def d_setdefault(self, ex, st, o, c, key, v=None):
        if isinstance(c, DictC) and conc(key):
            if key in c.d and c.d[key][0] is None:
                return c.d[key][1]
            if key not in c.d:
                d = dict(c.d)
                d[key] = (None, v)
                st.heap[o.id] = DictC(d)
                return v
        raise Unsupported('setdefault')

    def d_pop(self, ex, st, o, c, key, *dflt):
        if isinstance(c, DictC) and key in c.d and c.d[key][0] is None:
            d = dict(c.d)
            v = d.pop(key)[1]
            st.heap[o.id] = DictC(d)
            return v
        raise Unsupported('dict.pop')

    def tree_attr(self, ex, st, o, attr):
        v = self.deref(ex, st, o, raw=True) if isinstance(o, PRef) else o
        if isinstance(v, DictV):
            if attr == 'items':
                return BI('items', lambda ex, st, a, k: [(None, (kk, self.wrap_tree(o, kk, x))) for kk, x in v.d.items()])
            if attr == 'keys':
                return BI('keys', lambda ex, st, a, k: [(None, kk) for kk in v.d])
            if attr == 'values':
                return BI('values', lambda ex, st, a, k: [(None, self.wrap_tree(o, kk, x)) for kk, x in v.d.items()])
            if attr == 'get':
                def get(ex, st, a, k):
                    if a[0] in v.d:
                        x = v.d[a[0]]
                        if isinstance(x, PUndef):
                            return ex.merge_val(x.when, a[1] if len(a) > 1 else None, x.v)
                        return self.wrap_tree(o, a[0], x)
                    return a[1] if len(a) > 1 else None
                return BI('get', get)
            if attr == 'update' and isinstance(o, PRef):
                def upd(ex, st, a, k):
                    src = st.heap[a[0].id]
                    for kk, (g, x) in src.d.items():
                        if g is not None:
                            raise Unsupported('update with optional keys')
                        self.setitem(ex, st, o, kk, x)
                return BI('update', upd)
        if isinstance(v, SeqV) and attr == 'append' and isinstance(o, PRef):
            def app(ex, st, a, k):
                c = st.heap[o.id]
                x = self.to_tree(ex, st, a[0])
                if isinstance(c, FamC) and len(o.path) == 1:
                    i0 = o.path[0]
                    ln0 = c.ln(i0)
                    fln, fat = c.ln, c.at

                    def at(i, k):
                        old = fat(i, k)
                        if old is None:
                            return x
                        return ex.merge_val(z3.And(i == i0, k == ln0), x, old)
                    st.heap[o.id] = FamC(c.n, lambda i: z3.If(i == i0, ln0 + 1, fln(i)), at)
                    return
                s = self.deref(ex, st, o, raw=True)
                n = s.n
                emp = z3.is_int_value(n) and n.as_long() == 0

                def nat(k):
                    e = None if emp else s.at(k)
                    return x if emp or isinstance(e, Undef) or k.eq(n) else ex.merge_val(k == n, x, e)
                self.put(ex, st, o, SeqV(simp(n + 1), nat))
                self.link(ex, st, a[0], PRef(o.id, o.path + (n,)))
            return BI('append', app)
        if attr == 'c_append':
            return self.tree_attr(ex, st, o, 'append')
        if attr == 'get_npy_array':
            return BI('get_npy_array', lambda ex, st, a, k: o)
        raise Unsupported('attribute %s of tree value' % attr)

    def wrap_tree(self, o, key, x):
        if isinstance(o, PRef) and isinstance(x, (DictV, SeqV)):
            return PRef(o.id, o.path + (key,))
        return x

    # ------------------------------------------------------------------ item access
    def getitem(self, ex, st, o, i, node=None):
        o = self.follow(st, o)
        if isinstance(o, (tuple, NT)):
            vals = o if isinstance(o, tuple) else o.vals
            if isinstance(i, int):
                if not -len(vals) <= i < len(vals):
                    ex.need(st, 'index within tuple', z3.BoolVal(False), node=node)
                    raise Unsupported('tuple index')
                return vals[i]
            if isinstance(i, SliceV) and all(x is None or isinstance(x, int) for x in (i.lo, i.hi, i.step)):
                return tuple(vals[slice(i.lo, i.hi, i.step)])
            if isinstance(i, N):
                t = iterm(i)
                ex.need(st, 'index within tuple', z3.And(t >= 0, t < len(vals)), node=node)
                return self.pick(ex, list(vals), t)
        if isinstance(o, StructV):
            return o.f[i]
        if isinstance(o, str) and isinstance(i, int):
            return o[i]
        if isinstance(o, ArrView):
            return self.view_get(ex, st, o, i, node)
        if isinstance(o, RecView):
            c = st.heap[o.ref.id]
            k = dict(c.dt.fields)[i]
            return self.read(ex, st, c.fn[i](o.idx), k)
        if isinstance(o, (DictV, SeqV)):
            return self.tree_get(ex, st, o, i, node)
        if isinstance(o, PRef):
            return self.tree_get(ex, st, o, i, node)
        if isinstance(o, Ref):
            c = st.heap[o.id]
            if isinstance(c, ArrC):
                return self.arr_get(ex, st, o, c, i, node)
            if isinstance(c, ListC):
                if isinstance(i, SliceV):
                    if all(g is None for g, _ in c.items) and all(x is None or isinstance(x, int) for x in (i.lo, i.hi, i.step)):
                        return ex.alloc(st, ListC(c.items[slice(i.lo, i.hi, i.step)]))
                    raise Unsupported('slice of list')
                if isinstance(i, int) and all(g is None for g, _ in c.items):
                    if not -len(c.items) <= i < len(c.items):
                        ex.need(st, 'list index in range', z3.BoolVal(False), node=node)
                        st.dead = True
                        return BadV('index')
                    return c.items[i][1]
                if all(g is None for g, _ in c.items) and is_num(i):
                    t = iterm(i)
                    ex.need(st, 'list index in range', z3.And(t >= 0, t < len(c.items)), node=node)
                    return self.pick(ex, [v for _, v in c.items], t)
                raise Unsupported('index into guarded list')
            if isinstance(c, SeqC):
                if isinstance(i, SliceV):
                    return self.seq_slice(ex, st, c, i)
                t = self.seq_index(ex, st, c.n, i, node)
                return c.at(t)
            if isinstance(c, FamC):
                t = self.seq_index(ex, st, c.n, i, node)
                return PRef(o.id, (t,))
            if isinstance(c, DictC):
                return self.dict_get(ex, st, o, c, i, node)
            if isinstance(c, MapC):
                return self.mapget(ex, st, o, c, i, node)
            if isinstance(c, TreeC):
                return self.tree_get(ex, st, PRef(o.id, ()), i, node)
        h = getattr(self, 'getitem_hook', None)
        if h:
            r = h(ex, st, o, i)
            if r is not NotImplemented:
                return r
        raise Unsupported('indexing %r' % (o,))

    def seq_index(self, ex, st, n, i, node):
        if isinstance(i, Opt):
            ex.need(st, 'index is not None', NOT(i.isnone), node=node)
            i = i.v
        if isinstance(i, int) and i < 0:
            t = n + i
            ex.need(st, 'list index in range', t >= 0, node=node)
            return simp(t)
        t = iterm(i)
        ex.need(st, 'list index in range', z3.And(t >= 0, t < n), node=node)
        return t

    def seq_slice(self, ex, st, c, i):
        if i.step is not None and i.step != 1:
            if i.step == -1 and i.lo is None and i.hi is None:
                return ex.alloc(st, SeqC(c.n, lambda k: c.at(c.n - 1 - k)))
            raise Unsupported('slice step')

        def norm(x, d):
            if x is None:
                return d
            t = iterm(x)
            if isinstance(x, int):
                t = c.n + x if x < 0 else z3.IntVal(x)
            return z3.If(t < 0, z3.IntVal(0), z3.If(t > c.n, c.n, t))
        lo = norm(i.lo, z3.IntVal(0))
        hi = norm(i.hi, c.n)
        n = simp(z3.If(hi > lo, hi - lo, z3.IntVal(0)))
        return ex.alloc(st, SeqC(n, lambda k: c.at(lo + k)))

    def dict_get(self, ex, st, o, c, i, node):
        if isinstance(i, SymEnum):
            ks = self.enum_keys(c, i)
            ex.need(st, 'key is present', OR(*[t for _, t in ks]) if ks else z3.BoolVal(False), node=node)
            r = None
            for k, t in ks:
                r = c.d[k][1] if r is None else ex.merge_val(t, c.d[k][1], r)
            if r is None:
                st.dead = True
                return BadV('key')
            return r
        if conc(i):
            if i in c.d:
                g, v = c.d[i]
                if g is not None:
                    ex.need(st, 'key %r is present' % (i,), g, node=node)
                return v
            ex.need(st, 'key %r is present' % (i,), z3.BoolVal(False), node=node)
            st.dead = True
            return BadV('key')
        if is_num(i):
            ints = [k for k in c.d if isinstance(k, int)]
            t = iterm(i)
            ex.need(st, 'key is present', OR(*[AND(toB(c.d[k][0] if c.d[k][0] is not None else True), t == k) for k in ints]), node=node)
            r = None
            for k in ints:
                r = c.d[k][1] if r is None else ex.merge_val(t == k, c.d[k][1], r)
            if r is not None:
                return r
        raise Unsupported('dict key %r' % (i,))

    def mapget(self, ex, st, o, c, i, node):
        s = self.key_step(i)
        d, v = self.map_at(ex, c, s)
        if c.factory is None:
            ex.need(st, 'key is present', d, node=node)
        else:
            ex.__dict__.setdefault('loose', set()).add(o.id)      # reading may add a key
        if isinstance(v, (DictV, SeqV)):
            return PRef(o.id, (s,))
        return v

    def tree_get(self, ex, st, o, i, node):
        v = self.deref(ex, st, o, raw=True) if isinstance(o, PRef) else o
        if isinstance(v, PUndef):
            ex.need(st, 'key is present', NOT(v.when), node=node)
            v = v.v
        if isinstance(v, Opt):
            ex.need(st, 'indexed object is not None', NOT(v.isnone), node=node)
            v = v.v
        if isinstance(v, DictV):
            if i not in v.d:
                ex.need(st, 'key %r is present' % (i,), z3.BoolVal(False), node=node)
                st.dead = True
                return BadV('key')
            x = v.d[i]
            if isinstance(x, PUndef):
                ex.need(st, 'key %r is present' % (i,), NOT(x.when), node=node)
                x = x.v
            if isinstance(x, (DictV, SeqV)) and isinstance(o, PRef):
                return PRef(o.id, o.path + (i,))
            return x
        if isinstance(v, SeqV):
            if isinstance(i, SliceV):
                return self.seq_slice(ex, st, SeqC(v.n, v.at), i)
            t = self.seq_index(ex, st, v.n, i, node)
            x = v.at(t)
            if isinstance(x, (DictV, SeqV)) and isinstance(o, PRef):
                return PRef(o.id, o.path + (t,))
            return x
        if isinstance(v, tuple):
            return self.getitem(ex, st, v, i, node)
        raise Unsupported('indexing tree value %r' % (v,))

    def setitem(self, ex, st, o, i, v, node=None):
        o = self.follow(st, o)
        if isinstance(o, Ref):
            c = st.heap[o.id]
            if isinstance(c, ArrC):
                return self.arr_set(ex, st, o, c, i, v, node)
            if isinstance(c, ListC):
                if isinstance(i, int) and all(g is None for g, _ in c.items):
                    if not -len(c.items) <= i < len(c.items):
                        ex.need(st, 'list index in range', z3.BoolVal(False), node=node)
                        st.dead = True
                        return
                    items = list(c.items)
                    items[i] = (None, v)
                    st.heap[o.id] = ListC(items)
                    return
                c = ex.to_seq(c)
            if isinstance(c, SeqC):
                t = self.seq_index(ex, st, c.n, i, node)
                st.heap[o.id] = SeqC(c.n, lambda k: ex.merge_val(k == t, v, c.at(k)))
                return
            if isinstance(c, DictC):
                if conc(i) and not isinstance(i, bool):
                    d = dict(c.d)
                    d[i] = (None, v)
                    st.heap[o.id] = DictC(d)
                    return
            if isinstance(c, MapC) or isinstance(c, DictC) and all(isinstance(k, int) for k in c.d):
                s = self.key_step(i)
                m = self.as_map(ex, c)
                self.unlink(ex, st, o.id)
                st.heap[o.id] = self.map_put(ex, m, s, self.to_tree(ex, st, v))
                self.link(ex, st, v, PRef(o.id, (s,)))
                return
            if isinstance(c, TreeC):
                return self.setitem(ex, st, PRef(o.id, ()), i, v, node)
        if isinstance(o, PRef):
            c = st.heap[o.id]
            nv = self.to_tree(ex, st, v)
            cur = self.deref(ex, st, o, raw=True)
            if isinstance(cur, DictV) and not isinstance(i, str):
                raise Unsupported('tree key')
            step = i if isinstance(i, str) else self.seq_index(ex, st, cur.n, i, node)
            self.put(ex, st, PRef(o.id, o.path + (step,)), nv)
            return
        if isinstance(o, RecView):
            c = st.heap[o.ref.id]
            k = dict(c.dt.fields)[i]
            t = self.store(ex, st, v, k)
            fn = dict(c.fn)
            old = fn[i]
            idx = o.idx
            fn[i] = lambda x: z3.If(x == idx, t, old(x))
            st.heap[o.ref.id] = ArrC(c.dt, c.shape, fn, c.tag)
            return
        if isinstance(o, ArrView):
            c = st.heap[o.ref.id]
            if isinstance(i, str) and isinstance(c.fn, dict):
                # arr[:]['field'] = scalar
                k = dict(c.dt.fields)[i]
                t = self.store(ex, st, v, k)
                fn = dict(c.fn)
                if not getattr(o, 'full', True):
                    raise Unsupported('field of partial view')
                fn[i] = lambda x: t
                st.heap[o.ref.id] = ArrC(c.dt, c.shape, fn, c.tag)
                return
        if isinstance(o, FieldView):
            c = st.heap[o.ref.id]
            k = dict(c.dt.fields)[o.field]
            if isinstance(i, SliceV) and i.lo is None and i.hi is None and i.step is None:
                t = self.store(ex, st, v, k)
                fn = dict(c.fn)
                fn[o.field] = lambda x: t
                st.heap[o.ref.id] = ArrC(c.dt, c.shape, fn, c.tag)
                return
            idx = self.chk_index(ex, st, i, c.shape[0], node)
            t = self.store(ex, st, v, k)
            fn = dict(c.fn)
            old = fn[o.field]
            fn[o.field] = lambda x: z3.If(x == idx, t, old(x))
            st.heap[o.ref.id] = ArrC(c.dt, c.shape, fn, c.tag)
            return
        if isinstance(o, Opt):
            ex.need(st, 'indexed object is not None', NOT(o.isnone), node=node)
            return self.setitem(ex, st, o.v, i, v, node)
        h = getattr(self, 'setitem_hook', None)
        if h:
            r = h(ex, st, o, i, v)
            if r is not NotImplemented:
                return r
        raise Unsupported('item assignment to %r' % (o,))

    def delitem(self, ex, st, o, i, node=None):
        if isinstance(o, Ref):
            c = st.heap[o.id]
            if isinstance(c, ListC) and all(g is None for g, _ in c.items) and isinstance(i, int) and -len(c.items) <= i < len(c.items):
                items = list(c.items)
                del items[i]
                st.heap[o.id] = ListC(items)
                return
            if isinstance(c, SeqC) and i == -1:
                ex.need(st, 'list is not empty', c.n > 0, node=node)
                st.heap[o.id] = SeqC(c.n - 1, c.at)
                return
        if isinstance(o, PRef) and i == -1:
            v = self.deref(ex, st, o, raw=True)
            if isinstance(v, SeqV):
                ex.need(st, 'list is not empty', v.n > 0, node=node)
                self.put(ex, st, o, SeqV(simp(v.n - 1), v.at))
                return
        raise Unsupported('del item')

    # ------------------------------------------------------------------ arrays
    def chk_index(self, ex, st, i, n, node=None):
        if isinstance(i, Opt):
            ex.need(st, 'index is not None', NOT(i.isnone), node=node)
            i = i.v
        if isinstance(i, Uni):
            raise Unsupported('union index')
        if not is_num(i):
            raise Unsupported('array index %r' % (i,))
        t = iterm(i)
        nt = iterm(n)
        if isinstance(i, int) and i < 0:
            t = nt + i
        ex.need(st, 'array index in bounds', z3.And(t >= 0, t < nt), node=node)
        return t

    def arr_attr(self, ex, st, o, attr):
        if isinstance(o, ArrView):
            if attr == 'shape':
                return tuple(mk(s, 'int') if isinstance(s, z3.ExprRef) else s for s in o.shape)
            if attr == 'dtype':
                return st.heap[o.ref.id].dt
            if attr == 'size' and len(o.shape) == 1:
                return mk(iterm(o.shape[0]), 'int')
            ref = self.materialize(ex, st, o)
            return self.arr_attr(ex, st, ref, attr)
        c = st.heap[o.id]
        if attr == 'shape':
            return tuple(mk(s, 'int') if isinstance(s, z3.ExprRef) else s for s in c.shape)
        if attr == 'ndim':
            return len(c.shape)
        if attr == 'dtype':
            return c.dt
        if attr == 'size':
            if len(c.shape) == 1:
                return self.arr_attr(ex, st, o, 'shape')[0]
            raise Unsupported('size')
        m = getattr(self, 'a_' + attr, None)
        if m is None:
            if attr == 'T':
                raise Unsupported('transpose')
            raise Unsupported('array attribute ' + attr)
        return BI('ndarray.' + attr, lambda ex, st, a, k: m(ex, st, o, st.heap[o.id], *a, **k))

    def materialize(self, ex, st, v):
        c = st.heap[v.ref.id]
        f = c.fn
        m = v.imap
        return ex.alloc(st, ArrC(c.dt, v.shape, lambda *i: f(*m(*i))))

    def a_fill(self, ex, st, o, c, v):
        t = self.store(ex, st, v, c.dt.k)
        st.heap[o.id] = ArrC(c.dt, c.shape, lambda *i: t, c.tag)

    def a_copy(self, ex, st, o, c, **kw):
        return ex.alloc(st, c)

    def a_astype(self, ex, st, o, c, dt, casting='unsafe', copy=True, **kw):
        k = self.dtkind(dt)
        if casting == 'same_kind':
            ok = {'f': 'f', 'i': 'fi', 'u': 'fiu', 'b': 'fiub'}[c.dt.k[0]]
            if k[0] not in ok:
                ex.need(st, 'cast is same_kind', z3.BoolVal(False))
        if k == c.dt.k:
            return o if copy is False else ex.alloc(st, c)
        return ex.alloc(st, self.cast(ex, st, c, k))

    def cast(self, ex, st, c, k):
        f = c.fn
        ck = c.dt.k
        if k in FLTK:
            if ck in FLTK:
                if k == 'f8':
                    return ArrC(DT(k), c.shape, f)
                return ArrC(DT(k), c.shape, lambda *i: ex.rnd(f(*i), 'f4'))
            if ck == 'bool':
                return ArrC(DT(k), c.shape, lambda *i: z3.If(f(*i), z3.RealVal(1), z3.RealVal(0)))
            if k == 'f4':
                return ArrC(DT(k), c.shape, lambda *i: ex.rnd(z3.ToReal(f(*i)), 'f4'))
            return ArrC(DT(k), c.shape, lambda *i: z3.ToReal(f(*i)))
        if k == 'bool':
            if ck == 'bool':
                return c
            return ArrC(DT(k), c.shape, lambda *i: f(*i) != 0)
        if k in RANGE:
            if ck == 'bool':
                return ArrC(DT(k), c.shape, lambda *i: b2i(f(*i)))
            if ck in RANGE:
                lo, hi = RANGE[k]
                if not (RANGE[ck][0] >= lo and RANGE[ck][1] <= hi):
                    vs = [fresh('i', I) for _ in c.shape]
                    ex.need(st, 'values fit %s' % KNAME[k], z3.ForAll(vs, z3.Implies(self.inb(vs, c.shape), z3.And(f(*vs) >= lo, f(*vs) <= hi))))
                return ArrC(DT(k), c.shape, f)
        raise Unsupported('array cast %s -> %s' % (ck, k))

    def inb(self, vs, shape):
        return z3.And(*[z3.And(v >= 0, v < iterm(s)) for v, s in zip(vs, shape)])

    def dtkind(self, d):
        if isinstance(d, DT):
            return {'float': 'f8', 'int': 'i8'}.get(d.k, d.k)
        if isinstance(d, str):
            return DTN[d]
        if isinstance(d, BI) and d.name in ('bool',):
            return 'bool'
        raise Unsupported('dtype %r' % (d,))

    def a_ravel(self, ex, st, o, c):
        cols = iterm(c.shape[1]) if len(c.shape) == 2 else None
        if len(c.shape) == 1:
            return o
        fl = self.flat(c.shape)
        f = c.fn
        a = ArrC(c.dt, (fl.size,), lambda i: f(fl.row(i), fl.col(i)), ('ravel', f, tuple(c.shape), fl))
        self.flat_facts(st, fl, c.shape)
        return ex.alloc(st, a)

    a_flatten = a_ravel

    def flat(self, shape):
        key = tuple(iterm(s).get_id() for s in shape)
        if not hasattr(self, '_flat'):
            self._flat = {}
        if key not in self._flat:
            class F(object):
                pass
            f = F()
            n = len(self._flat)
            f.size = z3.Int('size_%d' % n)
            f.row = z3.Function('rowof_%d' % n, I, I)
            f.col = z3.Function('colof_%d' % n, I, I)
            f.idx = z3.Function('flat_%d' % n, I, I, I)
            f.shape = tuple(iterm(s) for s in shape)
            self._flat[key] = f
        return self._flat[key]

    def flat_facts(self, st, fl, shape):
        """row-major numbering: idx(r,c) = r*cols+c"""
        if st.ghost.get(('flat', id(fl))):
            return
        rows, cols = fl.shape
        i, r, c = z3.Ints('i r c')
        st.assume(fl.size >= 0)
        st.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < fl.size), z3.And(fl.row(i) >= 0, fl.row(i) < rows, fl.col(i) >= 0, fl.col(i) < cols, fl.idx(fl.row(i), fl.col(i)) == i)), patterns=[fl.row(i)]))
        st.assume(z3.ForAll([r, c], z3.Implies(z3.And(r >= 0, r < rows, c >= 0, c < cols), z3.And(fl.row(fl.idx(r, c)) == r, fl.col(fl.idx(r, c)) == c, fl.idx(r, c) >= 0, fl.idx(r, c) < fl.size)), patterns=[fl.idx(r, c)]))

    def a_reshape(self, ex, st, o, c, *shape):
        sh = shape[0] if len(shape) == 1 and isinstance(shape[0], tuple) else shape
        if isinstance(c.tag, tuple) and c.tag[0] == 'ravel' and len(sh) == 2:
            fl = c.tag[3]
            if all(iterm(a).eq(b) for a, b in zip(sh, fl.shape)):
                g = c.tag[1]
                return ex.alloc(st, ArrC(c.dt, sh, g))
        raise Unsupported('reshape')

    def a_min(self, ex, st, o, c):
        return self.np_min(ex, st, o)

    def a_max(self, ex, st, o, c):
        return self.np_max(ex, st, o)

    def a_item(self, ex, st, o, c, *a):
        raise Unsupported('item')

    def arr_get(self, ex, st, o, c, i, node):
        if isinstance(c.fn, dict):
            if isinstance(i, str):
                return FieldView(o, i)
            if isinstance(i, SliceV):
                v = ArrView(o, c.shape, lambda x: (x,))
                return v
            t = self.chk_index(ex, st, i, c.shape[0], node)
            if getattr(c.dt, 'k', '') == 'cystruct':
                return StructV(c.tag, {f: self.read(ex, st, c.fn[f](t), k) for f, k in c.dt.fields})
            return RecView(o, t)
        if isinstance(i, Ref) and isinstance(st.heap[i.id], ArrC):
            return self.gather(ex, st, o, c, st.heap[i.id], node)
        if isinstance(i, tuple) and any(isinstance(x, SliceV) for x in i) or isinstance(i, SliceV):
            ii = i if isinstance(i, tuple) else (i,)
            ii = ii + (SliceV(None, None, None),) * (len(c.shape) - len(ii))
            shape, parts = [], []
            for x, n in zip(ii, c.shape):
                if isinstance(x, SliceV):
                    lo, ln, s = self.slice(ex, st, x, n)
                    parts.append((lo, s))
                    shape.append(ln)
                else:
                    parts.append(self.chk_index(ex, st, x, n, node))

            def imap(*k):
                k = list(k)
                out = []
                for p in parts:
                    if isinstance(p, tuple):
                        q = k.pop(0)
                        out.append(p[0] + (q if p[1] == 1 else q * p[1]) if not (z3.is_int_value(p[0]) and p[0].as_long() == 0 and p[1] == 1) else q)
                    else:
                        out.append(p)
                return out
            return ArrView(o, tuple(shape), imap)
        ii = i if isinstance(i, tuple) else (i,)
        if len(ii) == len(c.shape):
            ts = [self.chk_index(ex, st, x, n, node) for x, n in zip(ii, c.shape)]
            return self.read(ex, st, c.fn(*ts), c.dt.k)
        if len(ii) < len(c.shape):
            ii = ii + (SliceV(None, None, None),) * (len(c.shape) - len(ii))
            return self.arr_get(ex, st, o, c, ii, node)
        raise Unsupported('array index')

    def slice(self, ex, st, s, n):
        nt = iterm(n)
        if s.step is not None and not isinstance(s.step, int) or s.step == 0:
            raise Unsupported('slice step')
        step = 1 if s.step is None else s.step

        def norm(x, d):
            if x is None:
                return d
            t = nt + x if isinstance(x, int) and x < 0 else iterm(x)
            if isinstance(x, int) and x == 0:
                return z3.IntVal(0)
            return z3.If(t < 0, z3.IntVal(0), z3.If(t > nt, nt, t))
        if step == -1 and s.lo is None and s.hi is None:
            return nt - 1, nt, -1
        if step != 1:
            raise Unsupported('slice step')
        lo, hi = norm(s.lo, z3.IntVal(0)), norm(s.hi, nt)
        if s.lo is None and s.hi is None:
            return lo, nt, 1
        return lo, simp(z3.If(hi > lo, hi - lo, z3.IntVal(0))), 1

    def view_read(self, ex, st, v, idx):
        c = st.heap[v.ref.id]
        return self.read(ex, st, c.fn(*v.imap(*idx)), c.dt.k)

    def view_get(self, ex, st, v, i, node):
        c = st.heap[v.ref.id]
        if isinstance(c.fn, dict):
            if isinstance(i, str):
                return FieldView(v.ref, i)
        ii = i if isinstance(i, tuple) else (i,)
        if len(ii) == len(v.shape) and all(is_num(x) for x in ii):
            ts = [self.chk_index(ex, st, x, n, node) for x, n in zip(ii, v.shape)]
            return self.view_read(ex, st, v, ts)
        return self.getitem(ex, st, self.materialize(ex, st, v), i, node)

    def as_array(self, ex, st, v):
        """(dt, shape, fn) of an array-like value or None"""
        if isinstance(v, Ref) and isinstance(st.heap.get(v.id), ArrC) and not isinstance(st.heap[v.id].fn, dict):
            c = st.heap[v.id]
            return c.dt, c.shape, c.fn
        if isinstance(v, ArrView):
            c = st.heap[v.ref.id]
            f, m = c.fn, v.imap
            return c.dt, v.shape, lambda *i: f(*m(*i))
        if isinstance(v, FieldView):
            c = st.heap[v.ref.id]
            return DT(dict(c.dt.fields)[v.field]), c.shape, c.fn[v.field]
        return None

    def arr_set(self, ex, st, o, c, i, v, node):
        if isinstance(c.fn, dict):
            if isinstance(i, str):
                k = dict(c.dt.fields)[i]
                t = self.store(ex, st, v, k)
                fn = dict(c.fn)
                fn[i] = lambda x: t
                st.heap[o.id] = ArrC(c.dt, c.shape, fn, c.tag)
                return
            t = self.chk_index(ex, st, i, c.shape[0], node)
            if isinstance(v, StructV):
                fn = {}
                for f, k in c.dt.fields:
                    fv = v.f[f]
                    if isinstance(fv, Undef):
                        raise Unsupported('unset struct field')
                    tt = self.store(ex, st, fv, k)
                    old = c.fn[f]
                    fn[f] = (lambda tt, old: lambda x: z3.If(x == t, tt, old(x)))(tt, old)
                st.heap[o.id] = ArrC(c.dt, c.shape, fn, c.tag)
                return
            raise Unsupported('record store')
        f = c.fn
        k = c.dt.k
        # boolean mask
        if isinstance(i, Ref) and isinstance(st.heap[i.id], ArrC):
            m = st.heap[i.id]
            if m.dt.k != 'bool':
                raise Unsupported('fancy store')
            self.same_shape(ex, st, m.shape, c.shape)
            t = self.store(ex, st, v, k)
            mf = m.fn
            st.heap[o.id] = ArrC(c.dt, c.shape, lambda *x: z3.If(mf(*x), t, f(*x)), None)
            return
        ii = i if isinstance(i, tuple) else (i,)
        ii = ii + (SliceV(None, None, None),) * (len(c.shape) - len(ii))
        if not any(isinstance(x, SliceV) for x in ii):
            ts = [self.chk_index(ex, st, x, n, node) for x, n in zip(ii, c.shape)]
            t = self.store(ex, st, v, k)

            def g(*x):
                return z3.If(z3.And(*[a == b for a, b in zip(x, ts)]), t, f(*x))
            st.heap[o.id] = ArrC(c.dt, c.shape, g, c.tag if c.tag == 'cells' else None)
            return
        conds, offs, lens = [], [], []
        for x, n in zip(ii, c.shape):
            if isinstance(x, SliceV):
                lo, ln, s = self.slice(ex, st, x, n)
                if s != 1:
                    raise Unsupported('store to strided slice')
                offs.append(lo)
                lens.append(ln)
                conds.append(('s', lo, ln, x.lo is None and x.hi is None))
            else:
                conds.append(('i', self.chk_index(ex, st, x, n, node)))

        def member(x):
            cs = []
            for q, y in zip(conds, x):
                if q[0] == 'i':
                    cs.append(y == q[1])
                elif not q[3]:
                    cs.append(z3.And(y >= q[1], y < q[1] + q[2]))
            return AND(*cs)

        def rel(x):
            return [y - q[1] if not q[3] else y for q, y in zip(conds, x) if q[0] == 's']
        src = self.as_array(ex, st, v)
        if src is None:
            t = self.store(ex, st, v, k)
            val = lambda x: t
        else:
            dt, shape, sf = src
            if len(shape) > len(lens):
                raise Unsupported('broadcast store')
            self.same_shape(ex, st, shape, lens[len(lens) - len(shape):], 'shapes of assigned arrays agree')
            d = len(lens) - len(shape)

            def val(x):
                t = sf(*rel(x)[d:])
                if k == dt.k or k == 'f8' and dt.k == 'f4':
                    return t
                return self.store(ex, st, N(t, dt.k), k)
            if k in RANGE and dt.k != k:
                raise Unsupported('integer slice store of different type')
        st.heap[o.id] = ArrC(c.dt, c.shape, lambda *x: z3.If(member(x), val(x), f(*x)), None)

    def same_shape(self, ex, st, a, b, what='array shapes agree'):
        if len(a) != len(b):
            ex.need(st, what, z3.BoolVal(False))
            return
        g = simp(z3.And(*[iterm(x) == iterm(y) for x, y in zip(a, b)])) if a else z3.BoolVal(True)
        if not z3.is_true(g):
            ex.need(st, what, g)

    def gather(self, ex, st, o, c, ic, node):
        """fancy indexing with an integer array"""
        f, g = c.fn, ic.fn
        if ic.dt.k == 'bool':
            raise Unsupported('boolean gather')
        if len(c.shape) != 1:
            raise Unsupported('gather from matrix')
        if isinstance(ic.tag, tuple) and ic.tag[0] == 'ravel':
            gg, shp, fl = ic.tag[1], ic.tag[2], ic.tag[3]
            tag = ('ravel', lambda *i: f(gg(*i)), shp, fl)
            vs, fn, inb = [fresh('r', I), fresh('c', I)], gg, shp
        else:
            tag = None
            vs, fn, inb = [fresh('i', I) for _ in ic.shape], g, ic.shape
        ex.need(st, 'label indexes within the value list', z3.ForAll(vs, z3.Implies(self.inb(vs, inb), z3.And(fn(*vs) >= 0, fn(*vs) < iterm(c.shape[0])))), node=node)
        return ex.alloc(st, ArrC(c.dt, ic.shape, lambda *i: f(g(*i)), tag))

    def as_buffer(self, ex, st, v, t, node):
        if isinstance(v, Opt):
            ex.need(st, 'buffer is not None', NOT(v.isnone), node=node)
            v = v.v
        if isinstance(v, Undef):
            return v
        if isinstance(v, Ref) and isinstance(st.heap[v.id], ArrC):
            c = st.heap[v.id]
            elem = t[1]
            if isinstance(elem, tuple) and elem[0] == 'struct':
                return self.struct_buffer(ex, st, v, c, elem[1])
            if c.dt.k != elem:
                ex.need(st, 'buffer element type is %s' % elem, z3.BoolVal(False), node=node)
            if len(c.shape) != t[2]:
                ex.need(st, 'buffer has %d dimensions' % t[2], z3.BoolVal(False), node=node)
            return v
        raise Unsupported('buffer of %r' % (v,))

    def struct_buffer(self, ex, st, v, c, sname):
        want = None
        for m in ex.modloaded.values():
            if m.lang == 'cy' and sname in m.mod.tree.structs:
                want = m.mod.tree.structs[sname]
        have = list(c.dt.fields)
        if [f for f, _ in want] != [f for f, _ in have] or [k for _, k in want] != [k for _, k in have]:
            ex.need(st, 'buffer matches struct %s' % sname, z3.BoolVal(False))
        return v

    def rec_to_struct(self, ex, st, v, name, fr):
        c = st.heap[v.ref.id]
        return StructV(name, {f: self.read(ex, st, c.fn[f](v.idx), k) for f, k in c.dt.fields})

    def coerce_other(self, ex, st, v, t):
        raise Unsupported('C value from %r' % (v,))

    # ------------------------------------------------------------------ operators on non-numbers
    def inplace(self, ex, st, op, cur, rhs):
        if isinstance(cur, Ref) and isinstance(op, ast.Add):
            c = st.heap[cur.id]
            if isinstance(c, (ListC, SeqC, BagC)):
                self.l_extend(ex, st, cur, c, rhs)
                return True
        if isinstance(cur, Ref) and isinstance(st.heap[cur.id], ArrC):
            c = st.heap[cur.id]
            r = ex.arith(op, cur, rhs, st)
            rc = st.heap[r.id]
            f = rc.fn
            if rc.dt.k != c.dt.k:
                if c.dt.k in ('f4',) and rc.dt.k in FLTK:
                    st.heap[cur.id] = ArrC(c.dt, c.shape, lambda *i: ex.rnd(f(*i), 'f4'))
                    return True
                raise Unsupported('in-place array operation changing type')
            st.heap[cur.id] = ArrC(c.dt, c.shape, f)
            return True
        return False

    def binop(self, ex, st, o, a, b, node):
        if o == 'Add' and isinstance(a, tuple) and isinstance(b, tuple):
            return a + b
        if o == 'Add' and isinstance(a, str) and isinstance(b, str):
            return a + b
        if o == 'Mod' and isinstance(a, str):
            bs = b if isinstance(b, tuple) else (b,)
            if all(isinstance(x, (str, int)) for x in bs):
                return a % tuple(bs)
            return self.strcat(ex, st, [a] + list(bs))
        if o == 'Add' and isinstance(a, (Ref, PRef)) and isinstance(b, (Ref, PRef)):
            ca = st.heap[a.id] if isinstance(a, Ref) else None
            if isinstance(ca, (ListC, SeqC)) or isinstance(a, PRef):
                return self.concat(ex, st, a, b)
        if o == 'Mult' and isinstance(a, Ref) and isinstance(st.heap[a.id], ListC) and isinstance(b, int):
            return ex.alloc(st, ListC(st.heap[a.id].items * b))
        if o == 'Mult' and isinstance(a, Ref) and isinstance(st.heap[a.id], ListC) and isinstance(b, N):
            c = st.heap[a.id]
            if len(c.items) == 1 and c.items[0][0] is None:
                v = c.items[0][1]
                n = iterm(b)
                return ex.alloc(st, SeqC(z3.If(n > 0, n, z3.IntVal(0)), lambda k: v))
        x, y = self.as_array(ex, st, a), self.as_array(ex, st, b)
        if x is not None or y is not None:
            return self.arr_binop(ex, st, o, a, b, x, y, node)
        h = getattr(self, 'binop_hook', None)
        if h:
            r = h(ex, st, o, a, b)
            if r is not NotImplemented:
                return r
        raise Unsupported('operator %s on %r, %r' % (o, a, b))

    def concat(self, ex, st, a, b):
        def seq(x):
            if isinstance(x, Ref):
                c = st.heap[x.id]
                if isinstance(c, ListC):
                    return c
                if isinstance(c, SeqC):
                    return c
                if isinstance(c, TreeC):
                    return SeqC(c.v.n, c.v.at)
            v = self.deref(ex, st, x, raw=True)
            return SeqC(v.n, v.at)
        x, y = seq(a), seq(b)
        if isinstance(x, ListC) and isinstance(y, ListC):
            return ex.alloc(st, ListC(x.items + y.items))
        x, y = ex.to_seq(x), ex.to_seq(y)

        def at(k):
            if z3.is_int_value(y.n) and y.n.as_long() == 0:
                return x.at(k)
            return ex.merge_val(k < x.n, x.at(k), y.at(k - x.n))
        return ex.alloc(st, SeqC(x.n + y.n, at))

    def promote(self, ka, kb, sa, sb):
        """numpy 1.x result kind; sa/sb: operand is a Python or numpy scalar"""
        if ka == kb:
            return ka
        fl = {'f4', 'f8', 'float'}
        if ka in fl and kb in fl:
            if sa and not sb:
                return kb if kb != 'float' else 'f8'
            if sb and not sa:
                return ka if ka != 'float' else 'f8'
            return 'f8'
        if ka in fl and kb not in fl:
            if sb:
                return ka if ka != 'float' else 'f8'
            return 'f8' if kb in ('i4', 'u4', 'i8', 'u8', 'int') or ka != 'f4' else 'f4'
        if kb in fl:
            return self.promote(kb, ka, sb, sa)
        if sa and not sb:
            return kb
        if sb and not sa:
            return ka
        return 'i8'

    def arr_binop(self, ex, st, o, a, b, x, y, node):
        if x is None:
            x = (DT(kind(a)), (), (lambda t: lambda *i: t)(term(a)))
        if y is None:
            y = (DT(kind(b)), (), (lambda t: lambda *i: t)(term(b)))
        (da, sa, fa), (db, sb, fb) = x, y
        if len(sa) == len(sb) and sa:
            self.same_shape(ex, st, sa, sb)
        elif sa and sb:
            raise Unsupported('broadcasting')
        shape = sa or sb
        k = self.promote(da.k, db.k, not sa, not sb)
        if da.k == 'bool' and db.k == 'bool':
            f = {'BitAnd': z3.And, 'BitOr': z3.Or, 'BitXor': z3.Xor}.get(o)
            if f is None:
                raise Unsupported('boolean array operator')
            return ex.alloc(st, ArrC(DT('bool'), shape, lambda *i: f(fa(*i), fb(*i))))
        tr = lambda t: z3.ToReal(t) if t.sort() == I else z3.If(t, z3.RealVal(1), z3.RealVal(0)) if t.sort() == B else t
        if k in FLTK or o == 'Div':
            if o == 'Div' and k not in FLTK:
                k = 'f8'
            op = {'Add': lambda p, q: p + q, 'Sub': lambda p, q: p - q, 'Mult': lambda p, q: p * q, 'Div': lambda p, q: p / q}.get(o)
            if op is None:
                raise Unsupported('array operator ' + o)
            # a scalar operand is first converted to the result type
            ca = (lambda t: t)
            if o == 'Div':
                if not sb:
                    ex.need(st, 'divisor is not zero', tr(fb()) != 0, node=node)
                else:
                    raise Unsupported('division by array')
            return ex.alloc(st, ArrC(DT(k), shape, lambda *i: ex.rnd(op(tr(fa(*i)), tr(fb(*i))), k)))
        op = {'Add': lambda p, q: p + q, 'Sub': lambda p, q: p - q, 'Mult': lambda p, q: p * q}.get(o)
        if op is None:
            raise Unsupported('array operator ' + o)
        ti = lambda t: b2i(t) if t.sort() == B else t
        return ex.alloc(st, ArrC(DT(k), shape, lambda *i: op(ti(fa(*i)), ti(fb(*i)))))

    def fbinop(self, ex, st, o, a, b, node):
        if o in ('FloorDiv', 'Mod') and ex.fp == 'real':
            x, y = rterm(a), rterm(b)
            ex.need(st, 'divisor is positive', y > 0, node=node)
            q = z3.ToReal(z3.ToInt(x / y))
            return N(q if o == 'FloorDiv' else x - q * y, 'f8')
        raise Unsupported('float operator ' + o)

    def unary(self, ex, st, o, v):
        x = self.as_array(ex, st, v)
        if x is not None:
            dt, sh, f = x
            if o == 'Invert' and dt.k == 'bool':
                return ex.alloc(st, ArrC(dt, sh, lambda *i: z3.Not(f(*i))))
            if o == 'USub':
                return ex.alloc(st, ArrC(dt, sh, lambda *i: -f(*i)))
        raise Unsupported('unary ' + o)

    def arr_cmp(self, ex, st, o, a, b):
        x, y = self.as_array(ex, st, a), self.as_array(ex, st, b)
        if x is None and y is None:
            return None
        if x is None:
            if not is_num(a):
                raise Unsupported('array comparison')
            x = (DT(kind(a)), (), (lambda t: lambda *i: t)(term(a)))
        if y is None:
            if not is_num(b):
                raise Unsupported('array comparison')
            y = (DT(kind(b)), (), (lambda t: lambda *i: t)(term(b)))
        (da, sa, fa), (db, sb, fb) = x, y
        if sa and sb:
            self.same_shape(ex, st, sa, sb)
        shape = sa or sb
        isf = da.k in FLTK or db.k in FLTK
        tr = lambda t: (z3.ToReal(t) if t.sort() == I else z3.If(t, z3.RealVal(1), z3.RealVal(0)) if t.sort() == B else t) if isf else (b2i(t) if t.sort() == B else t)
        op = {'Lt': lambda p, q: p < q, 'LtE': lambda p, q: p <= q, 'Gt': lambda p, q: p > q, 'GtE': lambda p, q: p >= q, 'Eq': lambda p, q: p == q, 'NotEq': lambda p, q: p != q}[o]
        return ex.alloc(st, ArrC(DT('bool'), shape, lambda *i: op(tr(fa(*i)), tr(fb(*i)))))

    def compare(self, ex, st, o, a, b):
        r = self.arr_cmp(ex, st, o, a, b)
        if r is not None:
            return r
        if isinstance(a, tuple) and isinstance(b, tuple):
            raise Unsupported('tuple ordering')
        h = getattr(self, 'compare_hook', None)
        if h:
            r = h(ex, st, o, a, b)
            if r is not NotImplemented:
                return r
        raise Unsupported('comparison of %r and %r' % (a, b))

    def eq(self, ex, st, a, b):
        r = self.arr_cmp(ex, st, 'Eq', a, b)
        if r is not None:
            return r
        if type(a) in (str,) and is_num(b) or type(b) in (str,) and is_num(a):
            return False
        h = getattr(self, 'eq_hook', None)
        if h:
            r = h(ex, st, a, b)
            if r is not NotImplemented:
                return r
        if isinstance(a, Op) and isinstance(b, Op):
            return mk(a.t == b.t, 'bool')
        if isinstance(a, str) and isinstance(b, Op) or isinstance(b, str) and isinstance(a, Op):
            return mk(self.toU(a) == self.toU(b), 'bool')
        if isinstance(a, (Ref, PRef)) and isinstance(b, (Ref, PRef)):
            return self.struct_eq(ex, st, a, b)
        if isinstance(a, (DT, str)) and isinstance(b, (DT, str)):
            ka = a if isinstance(a, str) else KNAME.get(a.k)
            kb = b if isinstance(b, str) else KNAME.get(b.k)
            return ka == kb
        if isinstance(a, DT) and isinstance(b, BI) or isinstance(b, DT) and isinstance(a, BI):
            return False
        raise Unsupported('equality of %r and %r' % (a, b))

    def struct_eq(self, ex, st, a, b):
        raise Unsupported('equality of objects')

    def contains(self, ex, st, a, b):
        b = self.follow(st, b)
        if isinstance(b, Ref):
            c = st.heap[b.id]
            if isinstance(c, DictC):
                if isinstance(a, SymEnum):
                    ks = self.enum_keys(c, a)
                    return mk(OR(*[t for _, t in ks]), 'bool') if ks else False
                if conc(a):
                    if a not in c.d:
                        return False
                    g = c.d[a][0]
                    return True if g is None else mk(g, 'bool')
                if is_num(a):
                    return mk(OR(*[AND(toB(g if g is not None else True), iterm(a) == k) for k, (g, v) in c.d.items() if isinstance(k, int)]), 'bool')
            if isinstance(c, MapC):
                return mk(self.map_at(ex, c, self.key_step(a))[0], 'bool')
            if isinstance(c, ListC):
                return mk(OR(*[AND(toB(g if g is not None else True), toB(term(ex.eq(a, v, st)))) for g, v in c.items]), 'bool') if c.items else False
            if isinstance(c, SeqC):
                k = fresh('in', I)
                e = ex.eq(a, c.at(k), st)
                return mk(z3.Exists([k], z3.And(k >= 0, k < c.n, toB(term(e)))), 'bool')
            if isinstance(c, TreeC):
                return self.contains(ex, st, a, c.v)
        if isinstance(b, PRef):
            return self.contains(ex, st, a, self.deref(ex, st, b, raw=True))
        if isinstance(b, DictV):
            if a not in b.d:
                return False
            x = b.d[a]
            return mk(NOT(x.when), 'bool') if isinstance(x, PUndef) else True
        if isinstance(b, tuple):
            r = [ex.eq(a, x, st) for x in b]
            if all(isinstance(x, bool) for x in r):
                return any(r)
            return mk(OR(*[toB(term(x)) for x in r]), 'bool')
        if isinstance(b, str) and isinstance(a, str):
            return a in b
        raise Unsupported('in %r' % (b,))

    def truth_op(self, ex, st, v):
        h = getattr(self, 'truth_hook', None)
        if h:
            return h(ex, st, v)
        raise Unsupported('truth of opaque value')

    def is_none_op(self, ex, st, x):
        h = getattr(self, 'isnone_hook', None)
        if h:
            return h(ex, st, x)
        return False

    def toU(self, v):
        raise Unsupported('opaque')

    def enter(self, ex, st, v):
        return v

    def glue_call(self, ex, st, fn, args, kwargs):
        if self.glue is not None:
            return self.glue.call(ex, st, fn, args, kwargs)
        return NotImplemented

    def call_other(self, ex, st, f, args, kwargs, node):
        if self.glue is not None:
            r = self.glue.call_other(ex, st, f, args, kwargs)
            if r is not NotImplemented:
                return r
        raise Unsupported('call of %r' % (f,))

    def instantiate(self, ex, st, c, args, kwargs):
        if self.glue is not None:
            return self.glue.instantiate(ex, st, c, args, kwargs)
        return None

    def havoc_map(self, ex, c, name, other):
        raise Unsupported('havoc of dict')

    # ------------------------------------------------------------------ numpy
    def newarr(self, ex, st, k, shape, name='arr'):
        s = B if k == 'bool' else I if k in INTK else R
        return ex.alloc(st, ArrC(DT(k), shape, freshf(name, *([I] * len(shape) + [s]))))

    def np_empty_like(self, ex, st, a, dtype=None):
        dt, shape, _ = self.as_array(ex, st, a)
        return self.newarr(ex, st, self.dtkind(dtype) if dtype is not None else dt.k, shape, 'empty')

    def np_zeros_like(self, ex, st, a, dtype=None):
        dt, shape, _ = self.as_array(ex, st, a)
        return self.np_zeros(ex, st, tuple(shape), dtype if dtype is not None else dt)

    def np_full_like(self, ex, st, a, v, dtype=None):
        r = self.np_empty_like(ex, st, a, dtype)
        self.a_fill(ex, st, r, st.heap[r.id], v)
        return r

    def np_empty(self, ex, st, shape, dtype=None):
        shape = shape if isinstance(shape, tuple) else (shape,)
        return self.newarr(ex, st, self.dtkind(dtype) if dtype is not None else 'f8', shape, 'empty')

    def np_full(self, ex, st, shape, v, dtype=None):
        shape = shape if isinstance(shape, tuple) else (shape,)
        k = self.dtkind(dtype) if dtype is not None else ({'int': 'i8', 'float': 'f8'}.get(kind(v), kind(v)))
        r = self.newarr(ex, st, k, shape, 'full')
        self.a_fill(ex, st, r, st.heap[r.id], v)
        return r

    def np_ones(self, ex, st, shape, dtype=None):
        return self.np_full(ex, st, shape, 1, dtype or DT('f8'))

    def np_zeros(self, ex, st, shape, dtype=None):
        shape = shape if isinstance(shape, tuple) else (shape,)
        for s in shape:
            if is_num(s):
                t = iterm(s)
                if not z3.is_int_value(t):
                    ex.need(st, 'array dimension is not negative', t >= 0)
        if isinstance(dtype, Ref):
            fields = []
            for _, (f, d) in [(None, v) for _, v in st.heap[dtype.id].items]:
                fields.append((f, self.dtkind(d)))
            fn = {f: (lambda z: lambda *i: z)(z3.IntVal(0) if k in INTK else z3.RealVal(0)) for f, k in fields}
            return ex.alloc(st, ArrC(DT('rec', tuple(fields)), shape, fn))
        k = self.dtkind(dtype) if dtype is not None else 'f8'
        z = z3.BoolVal(False) if k == 'bool' else z3.IntVal(0) if k in INTK else z3.RealVal(0)
        return ex.alloc(st, ArrC(DT(k), shape, lambda *i: z))

    def vector(self, ex, st, a, k=None):
        """(kind, length, entry by index) of something that is or becomes an array of one dimension"""
        if isinstance(a, Uni):
            parts = [(g, self.vector(ex, st, v, k)) for g, v in a.alts]
            ks = {p[0] for _, p in parts}
            if len(ks) > 1:
                if not ks <= INTK | FLTK:
                    raise Unsupported('arrays of different kinds')
                kk = 'f8'
                parts = [(g, (kk, n, (lambda f, k0: f if k0 in FLTK else lambda i: z3.ToReal(f(i)))(f, k0))) for g, (k0, n, f) in parts]
                ks = {kk}
            n, f = parts[-1][1][1:]
            for g, (_, m, h) in reversed(parts[:-1]):
                n, f = z3.If(g, m, n), (lambda g, h, f: lambda i: z3.If(g, h(i), f(i)))(g, h, f)
            return ks.pop(), n, f
        if isinstance(a, (list, tuple)) or isinstance(a, PRef):
            it = self.iterable(ex, st, a)
            a = self.make_list(ex, st, it, None) if isinstance(it, (IterV, FiltV)) else ex.alloc(st, ListC(list(it)))
        x = self.as_array(ex, st, self.np_array(ex, st, a))
        if len(x[1]) != 1:
            raise Unsupported('array that is not of one dimension')
        kk, n, f = x[0].k, iterm(x[1][0]), x[2]
        if k is not None and k != kk:
            if k in FLTK and kk in INTK | {'bool'}:
                return k, n, (lambda i: z3.ToReal(f(i))) if kk in INTK else (lambda i: z3.If(f(i), z3.RealVal(1), z3.RealVal(0)))
            raise Unsupported('conversion of %s to %s' % (kk, k))
        return kk, n, f

    def np_cumsum(self, ex, st, a, dtype=None, axis=None):
        k, n, f = self.vector(ex, st, a, self.dtkind(dtype) if dtype is not None else None)
        isint = k in INTK
        S = freshf('cumsum', I, I if isint else R)
        j = z3.Int('cs')
        nxt = N(S(j) + f(j + 1), 'int') if isint else ex.arith(ast.Add(), N(S(j), 'f8'), N(f(j + 1), 'f8'), st)
        st.assume(z3.Implies(n > 0, S(0) == f(z3.IntVal(0))))
        st.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j + 1 < n), S(j + 1) == (iterm(nxt) if isint else rterm(nxt))), patterns=[S(j + 1)]))
        h = getattr(ex.top.ctr, 'on_cumsum', None)
        if h is not None:
            from .contract import lemma
            for lm in h(ex, st, S, n, f):
                lemma(ex, st, lm)
        return ex.alloc(st, ArrC(DT('i8' if isint else 'f8'), (n,), lambda i: S(i)))

    def np_concatenate(self, ex, st, parts, axis=0):
        vs = [self.vector(ex, st, p) for p in self.concrete_items(ex, st, parts)]
        ks = {k for k, _, _ in vs}
        if len(ks) > 1:
            if not ks <= INTK | {'f8'}:
                raise Unsupported('arrays of different kinds')
            vs = [(k, n, f) if k in FLTK else ('f8', n, (lambda f: lambda i: z3.ToReal(f(i)))(f)) for k, n, f in vs]
            ks = {'f8'}

        def at(i):
            off, r = z3.IntVal(0), None
            out = []
            for _, n, f in vs:
                out.append((off + n, f(simp(i - off))))
                off = simp(off + n)
            r = out[-1][1]
            for end, v in reversed(out[:-1]):
                r = z3.If(i < end, v, r)
            return r
        return ex.alloc(st, ArrC(DT(ks.pop()), (simp(sum([n for _, n, _ in vs], z3.IntVal(0))),), at))

    np_hstack = np_concatenate

    def np_append(self, ex, st, a, b):
        return self.np_concatenate(ex, st, [a, b])

    def np_histogram(self, ex, st, a, bins=10, range=None, **kw):
        """counts of the values between the edges E(0..n); BIN(p) is the bin that contains value p (the last one includes its upper edge)"""
        if kw or range is None or not is_num(bins) or kind(bins) not in INTK:
            raise Unsupported('np.histogram with such bins')
        k, m, f = self.vector(ex, st, a, None)
        if k not in FLTK:
            raise Unsupported('np.histogram of integers')
        n, (lo, hi) = iterm(bins), [rterm(v) for _, v in self.iterable(ex, st, range)]
        ex.need(st, 'np.histogram: at least one bin', n >= 1)
        ex.need(st, 'np.histogram: lower bound below upper bound', lo < hi)
        w, BIN, NUM = fresh('binwidth', R), freshf('bin', I, I), freshf('num', I, I, I)
        p, q = z3.Ints('hp hq')
        E = lambda q: lo + z3.ToReal(q) * w
        st.assume(w * z3.ToReal(n) == hi - lo)
        inr = z3.And(p >= 0, p < m, f(p) >= lo, f(p) <= hi)
        b = BIN(p)
        st.assume(z3.ForAll([p], z3.Implies(inr, z3.And(b >= 0, b < n, E(b) <= f(p), z3.Or(f(p) < E(b + 1), z3.And(b == n - 1, f(p) <= hi)))), patterns=[b]))
        st.assume(z3.ForAll([q], NUM(q, 0) == 0, patterns=[NUM(q, 0)]))
        st.assume(z3.ForAll([q, p], z3.Implies(z3.And(p >= 0, p < m), NUM(q, p + 1) == NUM(q, p) + z3.If(z3.And(f(p) >= lo, f(p) <= hi, BIN(p) == q), 1, 0)), patterns=[NUM(q, p + 1)]))
        h = getattr(ex.top.ctr, 'on_histogram', None)
        from .contract import lemma
        for lm in h(ex, st, n, lo, hi, w, m, f, BIN, NUM) if h is not None else []:
            lemma(ex, st, lm)
        return ex.alloc(st, ArrC(DT('i8'), (n,), lambda q: NUM(q, m))), Null()

    def assert_almost_equal(self, ex, st, actual, desired, decimal=7, err_msg='', verbose=True):
        if not (is_num(actual) and is_num(desired) and isinstance(decimal, int)):
            raise Unsupported('np.testing.assert_almost_equal of such values')
        d = rterm(actual) - rterm(desired)
        t = z3.RealVal(Fraction(15, 10 ** (decimal + 1)))
        ex.need(st, 'assertion holds', z3.And(d < t, -d < t), 'assert')

    def geotransform(self, ex, st, t, x, y):
        """the affine map of GDAL: WORLDX and WORLDY of its six coefficients and the coordinates"""
        t = [v for _, v in self.concrete(ex, st, t)]
        if len(t) != 6:
            raise Unsupported('geotransform of %d numbers' % len(t))
        v = [rterm(q) for q in t] + [rterm(x), rterm(y)]
        return tuple(N(f(*v), 'f8') for f in WORLD)

    def concrete(self, ex, st, v):
        it = self.iterable(ex, st, v)
        if not isinstance(it, list) or any(g is not None for g, _ in it):
            raise Unsupported('sequence of unknown length')
        return it

    def np_copy(self, ex, st, a, order='K', subok=False):
        if isinstance(a, Ref) and isinstance(st.heap[a.id], ObjC) and isinstance(st.heap[a.id].attrs.get('copy'), BI):
            return st.heap[a.id].attrs['copy'].f(ex, st, [], {})
        x = self.as_array(ex, st, a)
        if x is None:
            raise Unsupported('np.copy')
        return ex.alloc(st, ArrC(x[0], x[1], x[2]))

    def np_arange(self, ex, st, a, b=None, step=1):
        lo, hi = (0, a) if b is None else (a, b)
        if step != 1 or any(kind(x) not in INTK for x in (lo, hi)):
            raise Unsupported('np.arange of such numbers')
        lo, hi = iterm(lo), iterm(hi)
        return ex.alloc(st, ArrC(DT('i8'), (simp(z3.If(hi > lo, hi - lo, z3.IntVal(0))),), lambda i: lo + i))

    def np_interp(self, ex, st, x, xp, fp, left=None, right=None):
        """piecewise linear interpolation; each result is END at the ends or LINT on the segment found"""
        if left is not None or right is not None:
            raise Unsupported('np.interp with left or right')
        scalar = is_num(x)
        n, fx = (z3.IntVal(1), lambda i: rterm(x)) if scalar else self.vector(ex, st, x, None)[1:]
        if not scalar and self.vector(ex, st, x, None)[0] not in FLTK:
            raise Unsupported('np.interp at integers')
        _, m, xs = self.vector(ex, st, xp, 'f8')
        _, m2, ys = self.vector(ex, st, fp, 'f8')
        j, j2 = z3.Ints('ip jp')
        ex.need(st, 'np.interp: as many values as points, at least one', z3.And(m == m2, m >= 1))
        h = getattr(ex.top.ctr, 'on_interp', None)
        from .contract import lemma
        for lm in h(ex, st, m, xs, ys) if h is not None else []:
            lemma(ex, st, lm)
        ex.need(st, 'np.interp: points do not decrease', z3.ForAll([j], z3.Implies(z3.And(j >= 0, j + 1 < m), xs(j) <= xs(j + 1))))
        res, seg = freshf('interp', I, R), freshf('segment', I, I)
        for i in ([z3.IntVal(0)] if z3.is_int_value(n) and n.as_long() == 1 else [j2]):
            v, s = fx(i), seg(i)
            t = z3.And(s >= 0, s < m,
                       z3.Implies(v < xs(z3.IntVal(0)), res(i) == ys(z3.IntVal(0))),
                       z3.Implies(v >= xs(m - 1), res(i) == ys(m - 1)),
                       z3.Implies(z3.And(v >= xs(z3.IntVal(0)), v < xs(m - 1)), z3.And(s + 1 < m, xs(s) <= v, v < xs(s + 1), res(i) == LINT(v, xs(s), xs(s + 1), ys(s), ys(s + 1)))))
            st.assume(t if z3.is_int_value(i) else z3.ForAll([j2], z3.Implies(z3.And(j2 >= 0, j2 < n), t), patterns=[res(j2)]))
        h = getattr(ex.top.ctr, 'on_interpolated', None)
        for lm in h(ex, st, n, fx, seg, xs) if h is not None else []:
            lemma(ex, st, lm)
        if scalar:
            return N(res(z3.IntVal(0)), 'f8')
        return ex.alloc(st, ArrC(DT('f8'), (n,), lambda i: res(i)))

    def np_asarray(self, ex, st, a, dtype=None):
        if isinstance(a, Ref) and isinstance(st.heap[a.id], ArrC):
            c = st.heap[a.id]
            if dtype is None or self.dtkind(dtype) == c.dt.k:
                return a
            return ex.alloc(st, self.cast(ex, st, c, self.dtkind(dtype)))
        return self.np_array(ex, st, a, dtype)

    np_asanyarray = np_asarray

    def np_ascontiguousarray(self, ex, st, a, dtype=None):
        return self.np_asarray(ex, st, a, dtype)

    def np_array(self, ex, st, a, dtype=None, **kw):
        x = self.as_array(ex, st, a)
        if x is not None:
            c = ArrC(x[0], x[1], x[2])
            if dtype is not None and self.dtkind(dtype) != c.dt.k:
                c = self.cast(ex, st, c, self.dtkind(dtype))
            return ex.alloc(st, c)
        if isinstance(a, PRef):
            return a
        if isinstance(a, Ref):
            c = st.heap[a.id]
            if isinstance(c, ListC) and any(isinstance(v, Ref) for _, v in c.items):
                rows = [st.heap[v.id] for _, v in c.items]
                vals = [[x for _, x in r.items] for r in rows]
                if all(isinstance(x, int) for r in vals for x in r):
                    k = self.dtkind(dtype) if dtype is not None else 'i8'

                    def fn(i, j):
                        r = z3.IntVal(0)
                        for p in range(len(vals)):
                            for q in range(len(vals[p])):
                                r = z3.If(z3.And(i == p, j == q), z3.IntVal(vals[p][q]), r)
                        return r
                    return ex.alloc(st, ArrC(DT(k), (len(vals), len(vals[0])), fn))
            if isinstance(c, (ListC, SeqC)):
                s = ex.to_seq(c)
                e = s.at(z3.IntVal(0))
                if e is None:
                    k = 'f8'
                    return ex.alloc(st, ArrC(DT(k), (s.n,), lambda i: z3.RealVal(0)))
                if isinstance(e, (Op, Opt, Uni)):
                    raise Unsupported('array of opaque values')
                k = {'int': 'i8', 'float': 'f8'}.get(kind(e), kind(e))
                if dtype is not None:
                    k2 = self.dtkind(dtype)
                else:
                    k2 = k
                conv = (lambda v: term(v)) if k == 'bool' else (lambda v: iterm(v)) if k in INTK else (lambda v: rterm(v))
                arr = ArrC(DT(k), (s.n,), lambda i: conv(s.at(i)))
                return ex.alloc(st, arr if k2 == k else self.cast(ex, st, arr, k2))
        raise Unsupported('np.array')

    def np_max(self, ex, st, a):
        return self.redux(ex, st, a, True)

    def np_min(self, ex, st, a):
        return self.redux(ex, st, a, False)

    np_amax, np_amin = np_max, np_min

    def np_bincount(self, ex, st, a):
        """K(l, i) of the values before position i equal l"""
        dt, shape, f = self.as_array(ex, st, a)
        if len(shape) != 1 or dt.k not in INTK:
            raise Unsupported('bincount')
        n = iterm(shape[0])
        mx = iterm(self.redux(ex, st, a, True)) if not boolval(n == 0) else z3.IntVal(-1)
        p = z3.Int('p')
        ex.need(st, 'bincount of natural numbers', z3.ForAll([p], z3.Implies(z3.And(p >= 0, p < n), f(p) >= 0)))
        K = freshf('bincount', I, I, I)
        l = z3.Int('l')
        st.assume(z3.ForAll([l], K(l, 0) == 0, patterns=[K(l, 0)]))
        st.ghost['bincounts'] = st.ghost.get('bincounts', ()) + ((f, n, K),)
        return ex.alloc(st, ArrC(DT('i8'), (N(mx + 1, 'int'),), lambda x: K(x, n)))

    def ndlabel(self, ex, st, a, structure=None, **kw):
        """scipy.ndimage.label: numbers 1..n for the connected components of the cells that are not zero. Cells next to each
        other by the structure have the same number; the cells with the same number hang together: each but one of them, the
        root, has a neighbour (pr, pc) with that number which is nearer (rk) to the root."""
        x = self.as_array(ex, st, a)
        if kw or x is None or len(x[1]) != 2 or isinstance(x[2], dict):
            raise Unsupported('ndimage.label')
        dt, shape, f = x
        H, W = [iterm(q) for q in shape]
        if structure is None:
            offs = [(-1, 0), (0, -1), (0, 1), (1, 0)]
        else:
            sx = self.as_array(ex, st, structure if isinstance(structure, Ref) and isinstance(st.heap[structure.id], ArrC) else self.np_array(ex, st, structure))
            if sx is None or len(sx[1]) != 2 or any(not z3.is_int_value(z3.simplify(iterm(q))) or z3.simplify(iterm(q)).as_long() != 3 for q in sx[1]):
                raise Unsupported('structure of ndimage.label')
            v = {}
            for p in range(3):
                for q in range(3):
                    t = z3.simplify(toB(sx[2](z3.IntVal(p), z3.IntVal(q)) != 0) if sx[0].k != 'bool' else sx[2](z3.IntVal(p), z3.IntVal(q)))
                    if not (z3.is_true(t) or z3.is_false(t)):
                        raise Unsupported('structure of ndimage.label')
                    v[p - 1, q - 1] = z3.is_true(t)
            if any(v[p, q] != v[-p, -q] for p, q in v):
                raise Unsupported('structure of ndimage.label is not symmetric')
            offs = [k for k, t in v.items() if t and k != (0, 0)]
        m = Components(freshf('label', I, I, I), fresh('nlabels', I), H, W)
        mask = (lambda r, c: f(r, c)) if dt.k == 'bool' else (lambda r, c: f(r, c) != 0)
        for nm, t in m.facts(mask, offs):
            st.assume(t)
        ref = ex.alloc(st, ArrC(DT('i4'), tuple(shape), m.L))
        ex.__dict__.setdefault('ghosts', {})[('components', m.L)] = m
        return ref, N(m.n, 'int')

    def redux(self, ex, st, a, mx):
        x = self.as_array(ex, st, a)
        if x is None:
            if is_num(a):
                return a
            raise Unsupported('np.max')
        dt, shape, f = x
        for s in shape:
            ex.need(st, 'reduction over a non-empty array', iterm(s) > 0)
        if dt.k == 'bool':
            v = fresh('any', z3.BoolSort())
            vs = [fresh('m', I) for _ in shape]
            at = [fresh('at', I) for _ in shape]
            st.assume(z3.ForAll(vs, z3.Implies(self.inb(vs, shape), z3.Implies(f(*vs), v) if mx else z3.Implies(v, f(*vs)))))
            st.assume(z3.And(self.inb(at, shape), f(*at) == v))
            return N(v, 'bool')
        key = ('redux', mx, a.id if isinstance(a, Ref) else None)
        vs = [fresh('m', I) for _ in shape]
        at = [fresh('at', I) for _ in shape]
        srt = R if dt.k in FLTK else I
        m = fresh('max' if mx else 'min', srt)
        t = f(*vs)
        body = z3.Implies(self.inb(vs, shape), (t <= m) if mx else (t >= m))
        try:
            st.assume(z3.ForAll(vs, body, patterns=[t]))
        except z3.Z3Exception:
            st.assume(z3.ForAll(vs, body))
        st.assume(z3.And(self.inb(at, shape), f(*at) == m))
        return self.read(ex, st, m, dt.k)

    def np_nextafter(self, ex, st, x, y):
        t = rterm(x)
        if not (isinstance(y, float) and y == float('inf')):
            raise Unsupported('nextafter')
        k = 'f4' if kind(x) == 'f4' and kind(y) == 'f4' else 'f8'
        f = z3.Function('nextafter_' + k, R, R)
        st.assume(f(t) > t)
        return N(f(t), k)

    def np_iinfo(self, ex, st, d):
        if is_num(d):
            d = DT(kind(d))
        k = self.dtkind(d)
        if k == 'int':
            k = 'i8'
        if k not in RANGE:
            raise Unsupported('iinfo')
        return NT(NTCls('iinfo', ['min', 'max']), list(RANGE[k]))

    def np_isnan(self, ex, st, x):
        h = getattr(self, 'isnan_hook', None)
        if h:
            return h(ex, st, x)
        raise Unsupported('isnan')

    def np_can_cast(self, ex, st, x, d, mode='safe'):
        if isinstance(x, Opt):
            ex.need(st, 'operand of can_cast is not None', NOT(x.isnone))
            x = x.v
        if is_num(x):
            k = kind(x)
            lo, hi = RANGE[self.dtkind(d)]
            if k in ('int',) or (k in RANGE):
                # np.can_cast looks at the value of (Python or numpy) scalars in numpy 1.x
                t = iterm(x)
                return mk(z3.And(t >= lo, t <= hi), 'bool')
        raise Unsupported('can_cast')

    def np_where(self, ex, st, c, a, b):
        x = self.as_array(ex, st, c)
        if x is None or x[0].k != 'bool':
            raise Unsupported('where')
        ya, yb = self.as_array(ex, st, a), self.as_array(ex, st, b)
        fa = ya[2] if ya else (lambda t: lambda *i: t)(term(a))
        fb = yb[2] if yb else (lambda t: lambda *i: t)(term(b))
        ka, kb = (ya[0].k if ya else kind(a)), (yb[0].k if yb else kind(b))
        k = self.promote(ka, kb, not ya, not yb)
        k = {'int': 'i8', 'float': 'f8'}.get(k, k)
        for y in (ya, yb):
            if y:
                self.same_shape(ex, st, y[1], x[1])
        tr = (lambda t: z3.ToReal(t) if t.sort() == I else t) if k in FLTK else (lambda t: t)
        cf = x[2]
        return ex.alloc(st, ArrC(DT(k), x[1], lambda *i: z3.If(cf(*i), tr(fa(*i)), tr(fb(*i)))))

    def np_maximum(self, ex, st, a, b):
        return self.elem2(ex, st, a, b, True)

    def np_minimum(self, ex, st, a, b):
        return self.elem2(ex, st, a, b, False)

    def elem2(self, ex, st, a, b, mx):
        ya, yb = self.as_array(ex, st, a), self.as_array(ex, st, b)
        if ya is None and yb is None:
            return self.minmax(ex, st, (a, b), {}, mx)
        fa = ya[2] if ya else (lambda t: lambda *i: t)(term(a))
        fb = yb[2] if yb else (lambda t: lambda *i: t)(term(b))
        ka, kb = (ya[0].k if ya else kind(a)), (yb[0].k if yb else kind(b))
        k = self.promote(ka, kb, not ya, not yb)
        shape = ya[1] if ya else yb[1]
        if ya and yb:
            self.same_shape(ex, st, ya[1], yb[1])
        tr = (lambda t: z3.ToReal(t) if t.sort() == I else t) if k in FLTK else (lambda t: t)

        def fn(*i):
            p, q = tr(fa(*i)), tr(fb(*i))
            return z3.If(p >= q, p, q) if mx else z3.If(p <= q, p, q)
        return ex.alloc(st, ArrC(DT(k), shape, fn))

    def np_abs(self, ex, st, a):
        x = self.as_array(ex, st, a)
        if x is None:
            return self.b_abs(ex, st, a)
        dt, sh, f = x
        return ex.alloc(st, ArrC(dt, sh, lambda *i: z3.If(f(*i) >= 0, f(*i), -f(*i))))

    np_absolute = np_fabs = np_abs
